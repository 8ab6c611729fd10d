package p30

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verifharness/engine"
	"verifharness/gen"
)

type badCase struct {
	gen.DocCase
	Bad gen.BadValue
}

// sub checks that a document with a single value that is not what it has to be is rejected as a whole,
// though it is accepted without that.
func sub(format string, quick, thorough int) engine.Sub {
	return engine.New("reject-"+format, quick, thorough, func(rt *rapid.T) badCase {
		level := rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(rt, "level")
		return badCase{gen.DocCase{Doc: gen.DrawDoc(rt, format, level), Chunks: gen.DrawChunks(rt)}, gen.DrawBadValue(rt)}
	}, func(e *engine.Env, c badCase) error {
		data, kind, path, bad := c.Doc.BadValue(c.Bad)
		e.Label("%s instead of %s", typeOf(bad), kind)
		e.LabelIf(len(data) > 8192, "larger than the read buffer")
		e.NonTrivialIf(len(c.Doc.Want()) > 0)
		if good, err := gen.Parse(format, gen.NewReader(c.Doc.Bytes(), c.Chunks)); err != nil || len(good) != len(c.Doc.Want()) {
			return fmt.Errorf("the document without the bad value yields %d spans, %v", len(good), err)
		}
		got, err := gen.Parse(format, gen.NewReader(data, c.Chunks))
		if err == nil {
			return fmt.Errorf("a document with %s at %s, where it should be of kind %s, was accepted with %d spans: %s", bad, path, kind, len(got), cut(data))
		}
		if len(got) > 0 {
			return fmt.Errorf("%d spans and an error (%v) for a document with %s at %s: %s", len(got), err, bad, path, cut(data))
		}
		return nil
	})
}

func typeOf(bad string) string {
	switch {
	case strings.HasPrefix(bad, `"`):
		return "a string"
	case strings.HasPrefix(bad, "{"):
		return "an object"
	case strings.HasPrefix(bad, "["):
		return "an array"
	case bad == "true" || bad == "false":
		return "a boolean"
	}
	return "a number"
}

func cut(data []byte) string {
	if len(data) > 2000 {
		data = data[:2000]
	}
	return string(data)
}

func TestCheck(t *testing.T) {
	engine.Main(t, "P30",
		sub(gen.V2, 40000, 1000000),
		sub(gen.V1, 40000, 1000000),
		sub(gen.Jaeger, 40000, 1000000),
	)
}
