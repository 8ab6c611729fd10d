package p27

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/engine"
	"verifharness/gen"
)

func text(rt *rapid.T, level int) func(label string) gen.Bin {
	return func(label string) gen.Bin { return gen.Text(rt, label, level) }
}

func checkFields(data []byte, want proxy.Span) error {
	var m map[string]any
	dec := json.NewDecoder(strings.NewReader(string(data)))
	dec.UseNumber()
	if err := dec.Decode(&m); err != nil {
		return fmt.Errorf("invalid JSON: %v: %.300s", err, data)
	}
	for name, id := range map[string]proxy.Id{"id": want.Id, "parent": want.Parent, "trace": want.Trace} {
		if got := fmt.Sprint(m[name]); got != fmt.Sprintf("%016x", uint64(id)) {
			return fmt.Errorf("%s is %s, want %016x", name, got, uint64(id))
		}
	}
	times := map[string]proxy.Timestamp{"timestamp": want.Timestamp}
	values := map[string]any{"timestamp": m["timestamp"]}
	timings, _ := m["timings"].(map[string]any)
	for name, ts := range map[string]proxy.Timestamp{"cs": want.Timings.CS, "cr": want.Timings.CR, "ss": want.Timings.SS, "sr": want.Timings.SR} {
		if v, ok := timings[name]; ok || ts != 0 {
			times[name], values[name] = ts, v
		}
	}
	for name, ts := range times {
		s, ok := values[name].(string)
		if !ok {
			return fmt.Errorf("%s is %v instead of text", name, values[name])
		}
		parsed, err := time.Parse(time.RFC3339Nano, s)
		if err != nil {
			return fmt.Errorf("%s: %v", name, err)
		}
		if !parsed.Equal(time.Unix(0, int64(ts))) {
			return fmt.Errorf("%s is %s, want %s", name, s, time.Unix(0, int64(ts)).UTC().Format(time.RFC3339Nano))
		}
	}
	return nil
}

func runJson(e *engine.Env, c gen.Span) error {
	want := c.Proxy()
	e.LabelIf(len(c.Tags) == 0, "no tags")
	e.LabelIf(c.Timestamp < 0, "before 1970")
	e.NonTrivialIf(len(c.Tags) > 0 && c.Timestamp != 0)
	encode := func(v any) []byte {
		data, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		return data
	}
	direct := encode(want)
	if err := checkFields(direct, want); err != nil {
		return err
	}
	decode := func(how string, data []byte) error {
		var got proxy.Span
		if err := json.Unmarshal(data, &got); err != nil {
			return fmt.Errorf("%s: %v: %.300s", how, err, data)
		}
		if !gen.Equal(got, want) {
			return fmt.Errorf("%s: decoded\n  %s, want\n  %s", how, gen.Describe(got), gen.Describe(want))
		}
		return nil
	}
	var raws []json.RawMessage
	var rawMap map[string]json.RawMessage
	forms := map[string][]byte{"value": direct, "pointer": encode(&want)}
	for how, v := range map[string]any{"slice": []proxy.Span{want}, "trace": proxy.Trace{want}, "interface": []any{want}, "pointers": []*proxy.Span{&want}} {
		if err := json.Unmarshal(encode(v), &raws); err != nil {
			return err
		}
		forms[how] = raws[0]
		raws = nil
	}
	if err := json.Unmarshal(encode(map[string]proxy.Span{"k": want}), &rawMap); err != nil {
		return err
	}
	forms["map"] = rawMap["k"]
	for how, data := range forms {
		if err := decode(how, data); err != nil {
			return err
		}
	}
	var all []proxy.Span
	if err := json.Unmarshal(encode([]proxy.Span{want, want}), &all); err != nil {
		return err
	}
	return gen.CompareAll(all, []proxy.Span{want, want})
}

type timeCase struct{ A, B int64 }

func quo(a, b int64) int64 {
	return new(big.Int).Quo(big.NewInt(a), big.NewInt(b)).Int64()
}

func runTimes(e *engine.Env, c timeCase) error {
	e.NonTrivialIf(c.A%1000000 != 0)
	ts := proxy.Timestamp(c.A)
	for _, check := range []struct {
		name      string
		got, want int64
	}{
		{"ToMillis", ts.ToMillis(), quo(c.A, 1000000)},
		{"ToMicros", ts.ToMicros(), quo(c.A, 1000)},
		{"ToNanos", ts.ToNanos(), c.A},
		{"ToTime", ts.ToTime().UnixNano(), c.A},
	} {
		if check.got != check.want {
			return fmt.Errorf("%s of %d is %d, want %d", check.name, c.A, check.got, check.want)
		}
	}
	if us := c.A / 1000; int64(proxy.Microseconds(us)) != us*1000 {
		return fmt.Errorf("Microseconds(%d) is %d", us, proxy.Microseconds(us))
	} else if proxy.Microseconds(us).ToMicros() != us {
		return fmt.Errorf("%d us are converted to %d us", us, proxy.Microseconds(us).ToMicros())
	}
	sum := new(big.Int).Add(big.NewInt(c.A), big.NewInt(c.B))
	if sum.IsInt64() {
		if got := ts.Add(time.Duration(c.B)); int64(got) != sum.Int64() {
			return fmt.Errorf("%d+%d is %d", c.A, c.B, got)
		}
	}
	return nil
}

func TestCheck(t *testing.T) {
	engine.Main(t, "P27",
		engine.New("json", 40000, 2000000, func(rt *rapid.T) gen.Span {
			level := rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(rt, "level")
			return gen.DrawSpan(rt, text(rt, level), 20)
		}, runJson),
		engine.New("times", 100000, 5000000, func(rt *rapid.T) timeCase {
			return timeCase{gen.Int(rt, "a"), gen.Int(rt, "b")}
		}, runTimes),
	)
}
