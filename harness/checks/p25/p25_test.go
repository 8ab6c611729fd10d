package p25

import (
	"fmt"
	"reflect"
	"strconv"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/dd"
	"verifharness/engine"
	"verifharness/gen"
	"verifharness/prog"
)

const capacity = 2048

func draw(rt *rapid.T) prog.Case {
	size := rapid.SampledFrom([]int{5, 50, 300, 1500, 5000}).Draw(rt, "size")
	return prog.Draw(rt, max(3, max(1500/size, 12)), size, 6000, 1, true)
}

type key struct{ trace, id uint64 }

func run(e *engine.Env, c prog.Case) error {
	clients := c.Render()
	spans := c.Count(e, clients)
	p, err := prog.StartEnv([]string{"VF_SERIAL=1"})
	if err != nil {
		return err
	}
	defer p.Close()

	// what has to be reported
	want := map[key]proxy.Span{}
	rejected := 0
	for _, reqs := range clients {
		for _, r := range reqs {
			for _, s := range r.Want {
				e.Count("spans to "+s.Tags[prog.Tag], 1)
				s, err := prog.Convert(gen.Clone(s, true))
				if err != nil || s.Id == 0 || s.Trace == 0 {
					rejected++
					continue
				}
				want[key{uint64(s.Trace), uint64(s.Id)}] = s
			}
		}
	}
	e.NonTrivialIf(rejected > 0 && len(want) > 1)
	e.LabelIf(len(want) > capacity, "more spans than the page lists")

	last, err := p.SendAll(clients)
	if err != nil {
		return err
	}
	if err := p.Wait(spans, len(want), last, 9*time.Second, 50*time.Second); err != nil {
		return err
	}
	if err := prog.CheckCalls(p.Calls(), clients); err != nil {
		return err
	}
	page, err := p.Page()
	if err != nil {
		return err
	}
	// what was rejected must not follow either
	if err := p.Wait(0, 0, time.Now(), 300*time.Millisecond, time.Second); err != nil {
		return err
	}
	submitted, posts := p.Submitted()
	e.Count("submissions", posts)
	seen := map[key]bool{}
	for _, trace := range submitted {
		for _, s := range trace {
			k := key{s.TraceID, s.SpanID}
			w, ok := want[k]
			if !ok {
				return fmt.Errorf("the agent got a span that the converter did not return: %+v", s)
			}
			if seen[k] {
				return fmt.Errorf("the agent got a span twice: %+v", s)
			}
			seen[k] = true
			if w := dd.Want(w); !dd.Equal(s, w) {
				return fmt.Errorf("the agent got\n  %+v, want\n  %+v", s, w)
			}
			if s.TraceID != trace[0].TraceID {
				return fmt.Errorf("the agent got spans of several traces in one: %+v and %+v", trace[0], s)
			}
		}
	}
	for k, w := range want {
		if p.CutOff() {
			e.Label("this machine was too slow")
			break
		}
		if !seen[k] {
			return fmt.Errorf("the agent did not get this and %d more of %d spans: %s", len(want)-len(seen)-1, len(want), gen.Describe(w))
		}
	}
	return checkPage(page, want)
}

func checkPage(page []prog.PageSpan, want map[key]proxy.Span) error {
	if len(page) != min(len(want), capacity) {
		return fmt.Errorf("the page lists %d spans of %d", len(page), len(want))
	}
	seen := map[key]bool{}
	for _, got := range page {
		trace, err := strconv.ParseUint(got.Trace, 16, 64)
		if err != nil {
			return fmt.Errorf("the page lists %+v: %v", got, err)
		}
		id, err := strconv.ParseUint(got.Id, 16, 64)
		if err != nil {
			return fmt.Errorf("the page lists %+v: %v", got, err)
		}
		k := key{trace, id}
		w, ok := want[k]
		if !ok || seen[k] {
			return fmt.Errorf("the page lists a span that the converter did not return, or twice: %+v", got)
		}
		seen[k] = true
		ts := func(t proxy.Timestamp) time.Time {
			if t == 0 {
				return time.Time{}
			}
			return time.Unix(0, int64(t)).UTC()
		}
		x := prog.PageSpan{Id: hex(w.Id), Parent: hex(w.Parent), Trace: hex(w.Trace), Name: w.Name, Service: w.Service,
			Timestamp: ts(w.Timestamp), Duration: int64(w.Duration), Tags: w.Tags}
		x.Timings.CS, x.Timings.CR, x.Timings.SS, x.Timings.SR = ts(w.Timings.CS), ts(w.Timings.CR), ts(w.Timings.SS), ts(w.Timings.SR)
		if len(x.Tags) == 0 && len(got.Tags) == 0 {
			x.Tags, got.Tags = nil, nil
		}
		for _, t := range []*time.Time{&got.Timestamp, &got.Timings.CS, &got.Timings.CR, &got.Timings.SS, &got.Timings.SR} {
			*t = t.UTC()
		}
		if !reflect.DeepEqual(got, x) {
			return fmt.Errorf("the page lists\n  %+v, want\n  %+v", got, x)
		}
	}
	return nil
}

func hex(id proxy.Id) string { return fmt.Sprintf("%016x", uint64(id)) }

func TestCheck(t *testing.T) {
	sub := engine.New("converter", 64, 1200, draw, run).Timeout(200 * time.Second)
	engine.Main(t, "P25", engine.Reduce(sub, prog.Smaller))
}
