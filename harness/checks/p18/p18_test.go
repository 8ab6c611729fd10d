package p18

import (
	"fmt"
	"testing"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/dd"
	"verifharness/engine"
	"verifharness/gen"
)

type sinkCase struct {
	Spans []gen.Span // templates of spans
	// sizes of the traces that are handed over, 50 ms after each other
	Traces []int
	Seed   uint64
}

func draw(rt *rapid.T) sinkCase {
	c := sinkCase{Seed: rapid.Uint64().Draw(rt, "seed")}
	level := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(rt, "level")
	text := func(label string) gen.Bin {
		if label == "name" || label == "service" {
			return gen.Text(rt, label, level)
		}
		return gen.Text(rt, label, level-1)
	}
	for range rapid.IntRange(1, 8).Draw(rt, "spans") {
		s := gen.DrawSpan(rt, text, 6)
		if rapid.Bool().Draw(rt, "smallDuration") {
			s.Duration = rapid.SampledFrom([]int64{0, 1, 999, 1000, 1001, -5}).Draw(rt, "duration")
		}
		if rapid.Bool().Draw(rt, "errorTag") {
			tags := s.Tags[:0]
			for _, kv := range s.Tags {
				if kv.K != "error" {
					tags = append(tags, kv)
				}
			}
			s.EmptyTags = false
			s.Tags = append(tags, gen.KV{K: "error", V: rapid.SampledFrom([]gen.Bin{"true", "false", "0", "1", "", "False", "00", " 0", "timeout"}).Draw(rt, "error")})
		}
		c.Spans = append(c.Spans, s)
	}
	max := rapid.SampledFrom([]int{1, 5, 5, 30, 30, 30, 600}).Draw(rt, "max")
	for range rapid.IntRange(1, 8).Draw(rt, "traces") {
		c.Traces = append(c.Traces, rapid.IntRange(1, max).Draw(rt, "size"))
	}
	if max == 600 && rapid.IntRange(0, 4).Draw(rt, "huge") == 0 {
		c.Traces = append(c.Traces, rapid.SampledFrom([]int{1000, 4095, 4096, 4097, 5000}).Draw(rt, "size"))
	}
	return c
}

func run(e *engine.Env, c sinkCase) error {
	rng := gen.NewRng(c.Seed)
	var sends []dd.Send
	want := map[[2]uint64]dd.Span{} // by trace and id
	total := 0
	for i, size := range c.Traces {
		var trace proxy.Trace
		var traceId proxy.Id
		for range size {
			s := c.Spans[rng.Intn(len(c.Spans))].Proxy()
			if traceId == 0 {
				traceId = s.Trace
			}
			s.Trace = traceId
			for {
				if _, ok := want[[2]uint64{uint64(s.Trace), uint64(s.Id)}]; !ok {
					break
				}
				s.Id += proxy.Id(1 + rng.Intn(1<<40))
			}
			want[[2]uint64{uint64(s.Trace), uint64(s.Id)}] = dd.Want(s)
			trace = append(trace, s)
			total++
		}
		sends = append(sends, dd.Send{At: 50 + 50*i, Trace: trace})
	}
	_, calls, err := dd.Run(e, sends, dd.Agent{}, 10000+50*len(sends))
	if err != nil {
		return err
	}
	for n, call := range calls {
		for _, s := range call.Spans() {
			k := [2]uint64{s.TraceID, s.SpanID}
			w, ok := want[k]
			if !ok {
				return fmt.Errorf("submission %d has a span that was not handed over, or submitted before: %+v", n, s)
			}
			delete(want, k)
			if !dd.Equal(s, w) {
				return fmt.Errorf("submitted was\n  %+v, want\n  %+v", s, w)
			}
			e.LabelIf(s.Error != 0, "errors")
			e.LabelIf(s.Error == 0 && s.Meta["error"] != "", "error tags that are no errors")
			e.LabelIf(s.Duration == 1000, "shortest duration")
			e.LabelIf(s.Resource == "(resource empty)", "without a name")
			e.LabelIf(len(s.Meta) > 1, "several tags")
			e.LabelIf(len(s.Resource) > 4000 || len(s.Service) > 4000, "long names")
		}
	}
	for _, w := range want {
		return fmt.Errorf("not submitted, %d spans in all: %+v", len(want), w)
	}
	e.LabelIf(total > 1000, "more than 1000 spans")
	e.LabelIf(total > 4096, "more than 4096 spans")
	e.NonTrivial()
	return nil
}

func TestCheck(t *testing.T) {
	engine.Main(t, "P18", engine.New("spans", 40000, 2000000, draw, run))
}
