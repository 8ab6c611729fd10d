package p26

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/engine"
	"verifharness/gen"
)

func runId(e *engine.Env, v uint64) error {
	id := proxy.Id(v)
	want := fmt.Sprintf("%016x", v)
	e.LabelIf(v>>63 == 1, "negative as int64")
	e.LabelIf(v < 1<<60, "leading zeros")
	e.NonTrivialIf(v > 9)
	if got := id.String(); got != want {
		return fmt.Errorf("text form of %d is %q, want %q", v, got, want)
	}
	back, err := proxy.ParseId([]byte(want))
	if err != nil || back != id {
		return fmt.Errorf("ParseId(%q) is %v, %v", want, back, err)
	}
	holder := struct {
		Id  proxy.Id
		Ptr *proxy.Id
		Any any
		All []proxy.Id
		Map map[string]proxy.Id
	}{id, &id, id, []proxy.Id{id}, map[string]proxy.Id{"k": id}}
	wantJson := fmt.Sprintf(`{"Id":"%[1]s","Ptr":"%[1]s","Any":"%[1]s","All":["%[1]s"],"Map":{"k":"%[1]s"}}`, want)
	for _, value := range []any{holder, &holder} {
		got, err := json.Marshal(value)
		if err != nil {
			return err
		}
		if string(got) != wantJson {
			return fmt.Errorf("JSON form is %s, want %s", got, wantJson)
		}
	}
	if direct, err := json.Marshal(id); err != nil || string(direct) != `"`+want+`"` {
		return fmt.Errorf("JSON form is %s, want %q", direct, want)
	}
	back = ^id
	if err := json.Unmarshal([]byte(`"`+want+`"`), &back); err != nil || back != id {
		return fmt.Errorf("%q is decoded from JSON as %v, %v", want, back, err)
	}
	return nil
}

func drawText(rt *rapid.T) gen.Bin {
	digits := "0123456789abcdefABCDEF"
	switch rapid.IntRange(0, 4).Draw(rt, "kind") {
	case 0:
		return gen.Bytes(rt, "bytes", 1)
	case 1: // nearly digits
		b := []byte(rapid.StringOfN(rapid.RuneFrom([]rune(digits)), 1, 16, -1).Draw(rt, "digits"))
		b[rapid.IntRange(0, len(b)-1).Draw(rt, "pos")] = rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte("/:@G`g -+x.\x00"))).Draw(rt, "other")
		return gen.Bin(b)
	case 2:
		return gen.Bin(rapid.StringOfN(rapid.RuneFrom([]rune(digits)), 15, 33, -1).Draw(rt, "digits"))
	}
	return gen.Bin(rapid.StringOfN(rapid.RuneFrom([]rune(digits)), 0, 16, -1).Draw(rt, "digits"))
}

// value is the reference parser.
func value(s string) (uint64, bool) {
	if len(s) > 16 {
		return 0, false
	}
	var v uint64
	for _, c := range []byte(s) {
		d := strings.IndexByte("0123456789abcdef", c)
		if d < 0 {
			if d = strings.IndexByte("ABCDEF", c); d < 0 {
				return 0, false
			}
			d += 10
		}
		v = v*16 + uint64(d)
	}
	return v, true
}

func runParse(e *engine.Env, c gen.Bin) error {
	want, ok := value(string(c))
	e.LabelIf(ok, "valid")
	e.LabelIf(!ok, "invalid")
	e.LabelIf(len(c) > 16, "too long")
	e.NonTrivialIf(len(c) > 1)
	got, err := proxy.ParseId([]byte(c))
	if ok != (err == nil) || ok && got != proxy.Id(want) {
		return fmt.Errorf("ParseId(%q) is %s, %v", c, got, err)
	}
	for _, target := range []proxy.Id{0, 77, -1} {
		for _, form := range []struct {
			text  string
			valid bool
		}{
			{`"` + string(c) + `"`, ok}, {string(c), false}, {`"` + string(c), false}, {string(c) + `"`, false}, {"", false}, {`"`, false},
		} {
			if !form.valid && len(form.text) >= 2 && form.text[0] == '"' && form.text[len(form.text)-1] == '"' {
				// quotes that belong to the text
				inner := form.text[1 : len(form.text)-1]
				if _, fine := value(inner); fine {
					continue
				}
			}
			id := target
			err := id.UnmarshalJSON([]byte(form.text))
			switch {
			case form.valid != (err == nil):
				return fmt.Errorf("UnmarshalJSON(%q) has error %v", form.text, err)
			case form.valid && id != proxy.Id(want):
				return fmt.Errorf("UnmarshalJSON(%q) is %s", form.text, id)
			case !form.valid && id != target:
				return fmt.Errorf("UnmarshalJSON(%q) fails, but changes the id from %s to %s", form.text, target, id)
			}
		}
	}
	return nil
}

func TestCheck(t *testing.T) {
	engine.Main(t, "P26",
		engine.New("format", 150000, 5000000, func(rt *rapid.T) uint64 { return gen.ID(rt, "id") }, runId),
		engine.New("parse", 150000, 5000000, drawText, runParse),
	)
}
