package p12

import (
	"fmt"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/engine"
	"verifharness/hist"
)

// rec is a record of span N of its trace, received After ms after the one before.
type rec struct {
	After int
	N     int  `json:",omitempty"`
	Bad   bool `json:",omitempty"` // without span id
}

type trace struct {
	Start int
	Recs  []rec
}

type quietCase struct{ Traces []trace }

// drawGap draws the time between two records of a trace.
func drawGap(rt *rapid.T) int {
	lo, hi := 0, 0
	switch rapid.IntRange(0, 9).Draw(rt, "gap") {
	case 0, 1:
		lo, hi = 0, 5
	case 2, 3:
		lo, hi = 10, 1000
	case 4:
		lo, hi = 1000, 7000
	case 5, 6:
		lo, hi = 7000, 7740
	case 7:
		lo, hi = 8260, 9000
	case 8:
		lo, hi = 9000, 20000
	default:
		lo, hi = 20000, 200000
	}
	return rapid.IntRange(lo, hi).Draw(rt, "ms")
}

func draw(rt *rapid.T) quietCase {
	var c quietCase
	n := rapid.SampledFrom([]int{1, 2, 5, 12}).Draw(rt, "traces")
	max := rapid.SampledFrom([]int{3, 10, 30}).Draw(rt, "records")
	for range n {
		t := trace{Start: rapid.IntRange(0, 20000).Draw(rt, "start")}
		age := 0
		for i := range rapid.IntRange(1, max).Draw(rt, "count") {
			r := rec{N: rapid.SampledFrom([]int{0, i, rapid.IntRange(0, 5).Draw(rt, "n")}).Draw(rt, "span")}
			if i > 0 {
				r.After = drawGap(rt)
			}
			if r.After > 8000 {
				age = 0
			} else if age += r.After; age > 31000 {
				// it would become too old
				r.After += 9000
				age = 0
			}
			r.Bad = i > 0 && rapid.IntRange(0, 9).Draw(rt, "bad") == 9
			if r.Bad {
				// does not count, so the next gap is longer than it seems
				r.After = min(r.After, 100)
			}
			t.Recs = append(t.Recs, r)
		}
		c.Traces = append(c.Traces, t)
	}
	return c
}

const base = 1600000000_000000000

func (c quietCase) records() (recs []hist.Rec, end int) {
	for i, t := range c.Traces {
		at := t.Start
		for _, r := range t.Recs {
			at += r.After
			if at%100 == 0 {
				at++ // at the time of a tick either order would be fine
			}
			s := proxy.Span{Id: proxy.Id(1000 + r.N), Trace: proxy.Id(i + 1), Timestamp: base, Duration: time.Millisecond, Name: "n"}
			if r.Bad {
				s.Id = 0
			}
			recs = append(recs, hist.Rec{At: at, Span: s})
		}
		end = max(end, at)
	}
	hist.Sort(recs)
	return recs, end + 30000
}

func run(e *engine.Env, c quietCase) error {
	recs, end := c.records()
	sim := hist.Robust(recs, end)
	if sim == nil {
		e.Label("ambiguous, skipped")
		return nil
	}
	// the first span of each group is the parent of the others
	want := map[proxy.Id][]*hist.Group{}
	for _, g := range sim.Groups {
		root := recs[g.Recs[0]].Span.Id
		for _, i := range g.Recs {
			recs[i].Span.Parent = root
		}
		if g.Fate != hist.Forwarded {
			e.Label("too old, skipped")
			return nil
		}
		want[g.Trace] = append(want[g.Trace], g)
	}
	events, err := hist.Run(e, recs, nil, end)
	if err != nil {
		return err
	}
	again, repeats := false, false
	for _, ev := range events {
		if ev.Rec >= 0 {
			continue
		}
		id, err := hist.TraceOf(ev.Trace)
		if err != nil {
			return err
		}
		if len(want[id]) == 0 {
			return fmt.Errorf("trace %s was forwarded after %.0f ms with %d spans, without a new span or for another time", id, ev.Ms(), len(ev.Trace))
		}
		g := want[id][0]
		want[id] = want[id][1:]
		if ev.Ms() < float64(g.Last+8000) || ev.Ms() > float64(g.Last+8200) {
			return fmt.Errorf("trace %s was forwarded %.0f ms after its last span was received, at %.0f ms: %s", id, ev.Ms()-float64(g.Last), ev.Ms(), g)
		}
		again = again || len(want[id]) > 0
		repeats = repeats || len(g.Recs) > g.Distinct
		e.LabelIf(g.Last-g.First > 8000, "open for more than 8 s")
		e.LabelIf(len(g.Recs) > 1, "several records in a group")
		e.NonTrivialIf(len(g.Recs) > 1 || len(c.Traces) > 1)
	}
	for _, gs := range want {
		for _, g := range gs {
			return fmt.Errorf("trace was not forwarded: %s", g)
		}
	}
	e.LabelIf(again, "forwarded again")
	e.LabelIf(repeats, "repeated records")
	e.LabelIf(len(c.Traces) > 1, "several traces")
	return nil
}

func TestCheck(t *testing.T) {
	engine.Main(t, "P12", engine.New("quiet", 20000, 1000000, draw, run))
}
