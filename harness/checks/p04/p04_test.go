package p04

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/engine"
	"verifharness/gen"
)

var formats = gen.Formats

type malformedCase struct {
	Format string
	Data   gen.Bin
	Repeat int `json:",omitempty"` // the last token is repeated
	Chunks gen.Chunks
	FailAt int // -1: the reader does not fail
}

func drawMalformed(rt *rapid.T) malformedCase {
	c := malformedCase{Format: rapid.SampledFrom(formats).Draw(rt, "format"), FailAt: -1}
	data := gen.DrawBroken(rt, c.Format)
	c.Data = gen.Bin(data)
	c.Chunks = gen.DrawChunks(rt)
	if rapid.Bool().Draw(rt, "fails") {
		c.FailAt = rapid.IntRange(0, len(data)).Draw(rt, "failAt")
	}
	return c
}

type outcome struct {
	spans []proxy.Span
	err   error
}

func parse(format string, r *gen.Reader) (outcome, error) {
	spans, err := gen.Parse(format, r)
	o := outcome{gen.CloneAll(spans), err}
	if err != nil && len(spans) > 0 {
		return o, fmt.Errorf("%d spans returned together with error %q", len(spans), err)
	}
	return o, nil
}

func same(a, b outcome) error {
	if (a.err == nil) != (b.err == nil) {
		return fmt.Errorf("error is %v when read at once, and %v when split", a.err, b.err)
	}
	return gen.CompareAll(b.spans, a.spans)
}

func runMalformed(e *engine.Env, c malformedCase) error {
	data := []byte(c.Data)
	whole, err := parse(c.Format, gen.NewReader(data, gen.Chunks{}))
	if err != nil {
		return err
	}
	e.LabelIf(whole.err != nil, "rejected")
	e.LabelIf(whole.err == nil, "accepted")
	e.NonTrivialIf(whole.err != nil || c.FailAt >= 0)
	split, err := parse(c.Format, gen.NewReader(data, c.Chunks))
	if err != nil {
		return err
	}
	if err := same(whole, split); err != nil {
		return err
	}
	if c.FailAt >= 0 {
		r := gen.NewReader(data, c.Chunks)
		r.FailAt, r.Fail = c.FailAt, gen.ErrBroken
		failed, err := parse(c.Format, r)
		if err != nil {
			return err
		}
		e.LabelIf(failed.err != nil, "failing reader, rejected")
		// whatever comes after the failure can not matter
		r = gen.NewReader(data[:c.FailAt], c.Chunks)
		r.FailAt, r.Fail = c.FailAt, gen.ErrBroken
		again, err := parse(c.Format, r)
		if err != nil {
			return err
		}
		if err := same(failed, again); err != nil {
			return fmt.Errorf("data after the failing read changes the outcome: %v", err)
		}
	}
	return nil
}

type truncatedCase struct {
	Doc    gen.Doc
	Chunks gen.Chunks
	// additional positions to cut at
	Cuts []uint32
	Fail bool
}

func runTruncated(e *engine.Env, c truncatedCase) error {
	data := c.Doc.Bytes()
	closing := len(bytes.TrimRight(data, " \t\r\n")) - 1
	e.NonTrivial()
	var cuts []int
	if closing <= 400 {
		for i := 0; i <= closing; i++ {
			cuts = append(cuts, i)
		}
		e.Label("cut at every position")
	} else {
		for _, p := range c.Cuts {
			cuts = append(cuts, int(uint64(p)*uint64(closing+1)>>32))
		}
		for i := range 20 {
			cuts = append(cuts, closing-i, i*closing/20)
		}
		e.Label("cut at some positions")
	}
	e.LabelIf(c.Fail, "reader fails")
	for _, cut := range cuts {
		r := gen.NewReader(data[:cut], c.Chunks)
		if c.Fail {
			r = gen.NewReader(data, c.Chunks)
			r.FailAt, r.Fail = cut, gen.ErrBroken
		}
		o, err := parse(c.Doc.Format, r)
		if err != nil {
			return fmt.Errorf("cut after %d of %d bytes: %v", cut, len(data), err)
		}
		if o.err == nil {
			return fmt.Errorf("no error, but %d spans, although only %d of %d bytes were read: %q", len(o.spans), cut, len(data), tail(data[:cut]))
		}
	}
	return nil
}

func tail(b []byte) []byte {
	if len(b) > 200 {
		return b[len(b)-200:]
	}
	return b
}

type deepCase struct {
	Format string
	Prefix string
	Unit   string
	N      int
	Close  bool
}

var closing = map[string]string{"[": "]", `{"a":`: "}", `[{"a":`: "}]"}

func runDeep(e *engine.Env, c deepCase) error {
	e.NonTrivialIf(c.N > 1000)
	doc := c.Prefix + strings.Repeat(c.Unit, c.N)
	if c.Close {
		doc += "1" + strings.Repeat(closing[c.Unit], c.N)
		if c.Prefix != "" {
			doc += "}]"
		}
	}
	o, err := parse(c.Format, gen.NewReader([]byte(doc), gen.Chunks{}))
	if err != nil {
		return err
	}
	e.LabelIf(o.err != nil, "rejected")
	e.LabelIf(o.err == nil, "accepted")
	e.LabelIf(c.N > 5000000, "deeper than the stack allows")
	if !c.Close && o.err == nil {
		return fmt.Errorf("%d unclosed values are accepted", c.N)
	}
	return nil
}

func TestCheck(t *testing.T) {
	engine.Main(t, "P04",
		engine.New("malformed", 60000, 3000000, drawMalformed, runMalformed).Timeout(30*time.Second),
		engine.New("truncated", 4000, 150000, func(rt *rapid.T) truncatedCase {
			level := rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(rt, "level")
			doc := gen.DrawDoc(rt, rapid.SampledFrom(formats).Draw(rt, "format"), level)
			doc.Repeat = 0
			return truncatedCase{doc, gen.DrawChunks(rt), rapid.SliceOfN(rapid.Uint32(), 0, 40).Draw(rt, "cuts"), rapid.Bool().Draw(rt, "fail")}
		}, runTruncated).Timeout(60*time.Second),
		engine.New("deep", 64, 400, func(rt *rapid.T) deepCase {
			c := deepCase{Format: rapid.SampledFrom(formats).Draw(rt, "format")}
			c.Prefix = rapid.SampledFrom([]string{`[{"x":`, `[{"x":`, ""}).Draw(rt, "prefix")
			c.Unit = rapid.SampledFrom([]string{"[", `{"a":`, `[{"a":`}).Draw(rt, "unit")
			c.N = rapid.SampledFrom([]int{1, 100, 9000, 20000, 300000, 1000000, 12000000}).Draw(rt, "n")
			c.Close = rapid.Bool().Draw(rt, "close")
			return c
		}, runDeep).Timeout(90*time.Second),
	)
}
