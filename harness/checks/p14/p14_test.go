package p14

import (
	"testing"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/engine"
	"verifharness/hist"
)

// step is a number of records of a trace, which arrive After ms after the step before.
type step struct {
	After  int
	New    int `json:",omitempty"` // spans that were not received before
	Repeat int `json:",omitempty"` // records of spans that were
}

type trace struct {
	Start int
	Steps []step
}

// wave is load: so many spans of traces with Size spans each, at once.
type wave struct{ At, Total, Size int }

type limitCase struct {
	Traces []trace
	Waves  []wave `json:",omitempty"`
	// so many further traces that are kept alive until they are too old, and receive spans at
	// some times after that
	Banned int   `json:",omitempty"`
	Later  []int `json:",omitempty"`
}

func (c limitCase) records() (recs []hist.Rec, end int) {
	next := 1
	add := func(at int, s proxy.Span) {
		recs = append(recs, hist.Rec{At: at, Span: s})
		end = max(end, at)
	}
	for _, t := range c.Traces {
		at, n := t.Start, 0
		for _, s := range t.Steps {
			at += s.After
			if at%100 == 0 {
				at++
			}
			old := n
			for range s.New {
				add(at, hist.Flat(next, n))
				n++
			}
			for i := range s.Repeat {
				if old > 0 {
					add(at, hist.Flat(next, i%old))
				} else if n > 0 {
					add(at, hist.Flat(next, i%n))
				}
			}
		}
		next++
	}
	for _, w := range c.Waves {
		for left := w.Total; left > 0; left -= w.Size {
			for s := range min(w.Size, left) {
				add(w.At, hist.Flat(next, s))
			}
			next++
		}
	}
	for range c.Banned {
		at := 51 + next%7*100
		for n := range 7 {
			add(at+n*6500, hist.Flat(next, n%3))
		}
		for i, l := range c.Later {
			add(at+41000+l, hist.Flat(next, i%5))
		}
		next++
	}
	hist.Sort(recs)
	return recs, end + 30000
}

func run(e *engine.Env, c limitCase) error {
	recs, end := c.records()
	sim := hist.Robust(recs, end)
	if sim == nil {
		e.Label("ambiguous, skipped")
		return nil
	}
	if sim.MaxOpen > hist.MaxOpen || sim.Banned > 1000 {
		e.Label("beyond other limits, skipped")
		return nil
	}
	received := map[proxy.Id]int{}
	for _, r := range recs {
		received[r.Span.Trace]++
	}
	banned, ignored := map[proxy.Id]bool{}, 0
	for _, g := range sim.Groups {
		received[g.Trace] -= len(g.Recs)
		switch g.Fate {
		case hist.TooLarge:
			banned[g.Trace] = true
			e.Label("too large")
			e.LabelIf(g.Distinct == hist.MaxTrace+1, "one span too many")
		case hist.TooOld:
			banned[g.Trace] = true
			e.Label("too old")
			e.LabelIf(g.At-g.First < 39000, "too old under load")
			e.LabelIf(g.At-g.First > 41000, "too old, with a load before")
		case hist.Forwarded:
			e.LabelIf(g.Distinct == hist.MaxTrace, "as large as possible")
			e.LabelIf(len(g.Recs) > hist.MaxTrace, "more records than spans are possible")
			e.LabelIf(g.Last-g.First > 29000 && g.At-g.First < 40000, "nearly too old")
		}
	}
	for id := range banned {
		ignored += received[id]
	}
	e.LabelIf(ignored > 0, "later spans are ignored")
	e.LabelIf(len(banned) > 500, "more than 500 banned traces")
	e.NonTrivialIf(len(banned) > 0 && (ignored > 0 || len(sim.Groups) > len(banned)))
	events, err := hist.Run(e, recs, nil, end)
	if err != nil {
		return err
	}
	return hist.Compare(events, recs, sim, 250)
}

func drawAge(rt *rapid.T) limitCase {
	var c limitCase
	for range rapid.SampledFrom([]int{1, 2, 5}).Draw(rt, "traces") {
		t := trace{Start: rapid.IntRange(0, 20000).Draw(rt, "start")}
		// records come in until the trace has this age
		target := rapid.SampledFrom([]int{0, 5000, 20000, 31000, 31000, 31650, 31650, 32350, 34000, 39000, 39700, 41000, 60000, 120000}).Draw(rt, "target")
		max := rapid.SampledFrom([]int{500, 3000, 7700}).Draw(rt, "gap")
		age := 0
		t.Steps = append(t.Steps, step{New: 1})
		for age < target {
			gap := min(rapid.IntRange(max/3, max).Draw(rt, "after"), target-age)
			age += gap
			t.Steps = append(t.Steps, drawStep(rt, gap))
		}
		// and later again
		for range rapid.IntRange(0, 4).Draw(rt, "later") {
			t.Steps = append(t.Steps, drawStep(rt, rapid.SampledFrom([]int{100, 1000, 9000, 9000, 50000, 600000}).Draw(rt, "pause")))
		}
		c.Traces = append(c.Traces, t)
	}
	return c
}

func drawStep(rt *rapid.T, after int) step {
	switch rapid.IntRange(0, 3).Draw(rt, "step") {
	case 0:
		return step{After: after, New: 1}
	case 1:
		return step{After: after, New: 1, Repeat: 1}
	case 2:
		return step{After: after, New: 3}
	}
	return step{After: after, Repeat: 1}
}

func drawSize(rt *rapid.T) limitCase {
	var c limitCase
	t := trace{Start: 50}
	target := rapid.SampledFrom([]int{8191, 8192, 8192, 8193, 8193, 8194, 8300, 12000}).Draw(rt, "target")
	left, repeats := target, rapid.SampledFrom([]int{0, 0, 10, 5000}).Draw(rt, "repeats")
	for left > 0 {
		s := step{After: rapid.SampledFrom([]int{30, 100, 1000, 5000}).Draw(rt, "after"), New: left, Repeat: repeats}
		if rapid.Bool().Draw(rt, "part") {
			s.New = min(left, rapid.SampledFrom([]int{1, 4096, 8192, 8191}).Draw(rt, "new"))
		}
		repeats = 0
		left -= s.New
		t.Steps = append(t.Steps, s)
	}
	for range rapid.IntRange(0, 3).Draw(rt, "later") {
		t.Steps = append(t.Steps, drawStep(rt, rapid.SampledFrom([]int{150, 1000, 9000, 60000}).Draw(rt, "pause")))
	}
	c.Traces = append(c.Traces, t)
	for range rapid.IntRange(0, 4).Draw(rt, "others") {
		o := trace{Start: rapid.IntRange(0, 10000).Draw(rt, "start")}
		for range rapid.IntRange(1, 5).Draw(rt, "steps") {
			o.Steps = append(o.Steps, step{After: rapid.IntRange(0, 5000).Draw(rt, "after"), New: rapid.SampledFrom([]int{1, 5, 100}).Draw(rt, "new")})
		}
		c.Traces = append(c.Traces, o)
	}
	return c
}

// drawHuge draws traces that get far too large at once.
func drawHuge(rt *rapid.T) limitCase {
	t := trace{Start: 50}
	for range rapid.IntRange(0, 2).Draw(rt, "before") {
		t.Steps = append(t.Steps, drawStep(rt, rapid.SampledFrom([]int{150, 1000, 5000}).Draw(rt, "pause")))
	}
	n := rapid.SampledFrom([]int{16384, 32768, 65536, 65536, 65536, 131072}).Draw(rt, "multiple") + rapid.SampledFrom([]int{-10, 1, 100, 4000, 8180}).Draw(rt, "above")
	t.Steps = append(t.Steps, step{After: 100, New: n})
	for range rapid.IntRange(0, 3).Draw(rt, "later") {
		t.Steps = append(t.Steps, drawStep(rt, rapid.SampledFrom([]int{150, 1000, 9000, 60000}).Draw(rt, "pause")))
	}
	c := limitCase{Traces: []trace{t}}
	for range rapid.IntRange(0, 2).Draw(rt, "others") {
		c.Traces = append(c.Traces, trace{Start: rapid.IntRange(0, 10000).Draw(rt, "start"), Steps: []step{{New: 5}, {After: 1000, New: 1}}})
	}
	return c
}

func drawMany(rt *rapid.T) limitCase {
	c := limitCase{Banned: rapid.SampledFrom([]int{1, 10, 100, 500, 900, 999, 1000}).Draw(rt, "banned")}
	for range rapid.IntRange(1, 4).Draw(rt, "later") {
		c.Later = append(c.Later, rapid.SampledFrom([]int{0, 200, 5000, 20000, 100000}).Draw(rt, "at"))
	}
	if c.Banned < 1000 {
		for range rapid.IntRange(0, 3).Draw(rt, "others") {
			o := trace{Start: rapid.IntRange(0, 60000).Draw(rt, "start")}
			for range rapid.IntRange(1, 5).Draw(rt, "steps") {
				o.Steps = append(o.Steps, step{After: rapid.IntRange(0, 5000).Draw(rt, "after"), New: 2})
			}
			c.Traces = append(c.Traces, o)
		}
	}
	return c
}

func drawLoad(rt *rapid.T) limitCase {
	var c limitCase
	for range rapid.IntRange(1, 3).Draw(rt, "traces") {
		t := trace{Start: rapid.IntRange(0, 3000).Draw(rt, "start")}
		target := rapid.SampledFrom([]int{8000, 9000, 11000, 18000, 19000, 22000, 28000, 29000, 32000, 38000, 45000}).Draw(rt, "target")
		gap := rapid.SampledFrom([]int{700, 1500, 1900}).Draw(rt, "gap")
		t.Steps = append(t.Steps, step{New: 2})
		for age := 0; age < target; age += gap {
			t.Steps = append(t.Steps, step{After: gap, New: 1})
		}
		for range rapid.IntRange(0, 3).Draw(rt, "later") {
			t.Steps = append(t.Steps, drawStep(rt, rapid.SampledFrom([]int{100, 5000, 9000, 30000}).Draw(rt, "pause")))
		}
		c.Traces = append(c.Traces, t)
	}
	at := 50
	for range rapid.IntRange(1, 3).Draw(rt, "waves") {
		at += 100 * rapid.IntRange(0, 250).Draw(rt, "at")
		c.Waves = append(c.Waves, wave{At: at, Size: 250, Total: rapid.SampledFrom([]int{30000, 39000, 39990, 41000, 59000, 61000, 79000, 81000, 95000}).Draw(rt, "total")})
		at += 9000
	}
	return c
}

func TestCheck(t *testing.T) {
	engine.Main(t, "P14",
		engine.New("age", 10000, 500000, drawAge, run),
		engine.New("size", 400, 20000, drawSize, run),
		engine.New("huge", 64, 2000, drawHuge, run),
		engine.New("many", 400, 20000, drawMany, run),
		engine.New("load", 200, 10000, drawLoad, run),
	)
}
