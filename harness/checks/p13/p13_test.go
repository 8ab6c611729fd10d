package p13

import (
	"testing"

	"pgregory.net/rapid"

	"verifharness/engine"
	"verifharness/hist"
)

// wave is a number of traces that arrive at once. The first has Size spans, every other one Step
// more than the one before, until there are Total spans.
type wave struct{ At, Total, Size, Step int }

// touch is a later record for a trace of a wave.
type touch struct {
	After, Wave, Trace int // ms after its wave
	New                int `json:",omitempty"` // so many new spans instead of a repeated one
}

type loadCase struct {
	Waves   []wave
	Touches []touch `json:",omitempty"`
}

var totals = []int{39999, 40000, 59999, 60000, 79999, 80000, 99999, 100000, 100001}

func drawTotal(rt *rapid.T, open int) int {
	switch rapid.IntRange(0, 3).Draw(rt, "total") {
	case 0:
		return rapid.IntRange(1, 130000-open).Draw(rt, "spans")
	case 1:
		return rapid.IntRange(1, 3000).Draw(rt, "spans")
	}
	// one that reaches a limit together with the others
	var reachable []int
	for _, t := range totals {
		if t > open {
			reachable = append(reachable, t-open)
		}
	}
	if len(reachable) == 0 {
		return 1
	}
	return rapid.SampledFrom(reachable).Draw(rt, "spans")
}

func draw(shed bool) func(rt *rapid.T) loadCase {
	return func(rt *rapid.T) loadCase {
		var c loadCase
		at, open := 50, 0
		for range rapid.SampledFrom([]int{1, 2, 2, 3, 4}).Draw(rt, "waves") {
			w := wave{At: at, Size: rapid.SampledFrom([]int{1, 20, 100, 200, 300}).Draw(rt, "size"), Step: rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(rt, "step")}
			if w.Size == 1 && w.Step == 0 {
				w.Size = 10
			}
			w.Total = drawTotal(rt, open)
			if shed && len(c.Waves) == 0 {
				w.Total = rapid.SampledFrom([]int{100001, 100500, 110000, 125000}).Draw(rt, "spans")
			}
			open = min(open+w.Total, 125000)
			c.Waves = append(c.Waves, w)
			step := rapid.SampledFrom([]int{300, 1000, 1500, 2500, 3300, 4500, 5500, 7200, 9000}).Draw(rt, "pause")
			at += step + 10*rapid.IntRange(0, 30).Draw(rt, "more")
			if at%100 == 0 {
				at += 50
			}
			if step >= 9000 {
				open = 0
			}
		}
		for range rapid.SampledFrom([]int{0, 0, 3, 10}).Draw(rt, "touches") {
			t := touch{After: rapid.IntRange(0, 150).Draw(rt, "after") * 100, Wave: rapid.IntRange(0, len(c.Waves)-1).Draw(rt, "wave"), Trace: rapid.IntRange(0, 50).Draw(rt, "trace")}
			if rapid.Bool().Draw(rt, "new") {
				t.New = rapid.SampledFrom([]int{1, 5, 100}).Draw(rt, "spans")
			}
			c.Touches = append(c.Touches, t)
		}
		return c
	}
}

func (c loadCase) records() (recs []hist.Rec, end int) {
	next := 1
	sizes := map[[2]int]int{}
	ids := map[[2]int]int{}
	for n, w := range c.Waves {
		left, size := w.Total, w.Size
		for i := 0; left > 0; i++ {
			k := [2]int{n, i}
			ids[k], sizes[k] = next, min(size, left)
			for s := range sizes[k] {
				recs = append(recs, hist.Rec{At: w.At, Span: hist.Flat(next, s)})
			}
			left -= size
			size += w.Step
			next++
		}
		end = max(end, w.At)
	}
	for _, t := range c.Touches {
		k := [2]int{t.Wave, t.Trace}
		if ids[k] == 0 {
			continue
		}
		at := c.Waves[t.Wave].At + t.After
		for range t.New {
			recs = append(recs, hist.Rec{At: at, Span: hist.Flat(ids[k], sizes[k])})
			sizes[k]++
		}
		if t.New == 0 {
			recs = append(recs, hist.Rec{At: at, Span: hist.Flat(ids[k], 0)})
		}
		end = max(end, at)
	}
	hist.Sort(recs)
	return recs, end + 20000
}

func run(e *engine.Env, c loadCase) error {
	recs, end := c.records()
	sim := hist.Robust(recs, end)
	if sim == nil {
		e.Label("ambiguous, skipped")
		return nil
	}
	shed := 0
	for _, g := range sim.Groups {
		switch g.Fate {
		case hist.TooOld, hist.TooLarge, hist.Open:
			e.Label("trace too large or old, skipped")
			return nil
		case hist.Discarded, hist.Maybe:
			shed++
		}
		if wait := g.At - g.Last; g.Fate == hist.Forwarded {
			e.LabelIf(wait < 3000, "quiet time 2 s")
			e.LabelIf(wait > 3000 && wait < 5000, "quiet time 4 s")
			e.LabelIf(wait > 5000 && wait < 7000, "quiet time 6 s")
			e.LabelIf(wait > 7000, "quiet time 8 s")
		}
	}
	for _, limit := range totals {
		e.LabelIf(sim.MaxOpen == limit, "exactly %d open spans", limit)
	}
	e.LabelIf(shed > 0, "traces discarded")
	e.LabelIf(len(sim.Ties) > 0, "some traces of the same size discarded")
	e.LabelIf(sim.MaxOpen > 100000, "more than 100000 open spans")
	e.NonTrivialIf(sim.MaxOpen >= 40000)
	events, err := hist.Run(e, recs, nil, end)
	if err != nil {
		return err
	}
	return hist.Compare(events, recs, sim, 200)
}

func TestCheck(t *testing.T) {
	engine.Main(t, "P13",
		engine.New("load", 480, 30000, draw(false), run),
		engine.New("shedding", 240, 15000, draw(true), run),
	)
}
