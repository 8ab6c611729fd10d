package p16

import (
	"fmt"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/engine"
	"verifharness/gen"
	"verifharness/hist"
)

// node is a span. Times are in ns relative to a base, unless it is Old.
type node struct {
	Parent     int // number of another node, with a smaller number
	Start, Dur int64
	// which of the timings are known: cs, cr, sr, ss
	Timings        int   `json:",omitempty"`
	CS, CR, SR, SS int64 `json:",omitempty"`
	// 1: the start is unknown, 2: right before 2020, 3: right at 2020, 4: 2010
	Old int `json:",omitempty"`
}

func (n node) full() bool { return n.Timings == 15 }

type skewCase struct {
	Nodes []node
	Root  int    // parent of the root: 0: none, 1: itself, 2: one that is missing
	Order uint64 // of arrival and ids
	// for the metamorphic check
	Hop   int   `json:",omitempty"`
	Shift int64 `json:",omitempty"`
}

const (
	base     = 1704067200_000000000
	year2020 = 1577836800_000000000
	day      = 24 * int64(time.Hour)
)

func drawDelta(rt *rapid.T, label string) int64 {
	return rapid.Int64Range(-1000, 1000).Draw(rt, label) * rapid.SampledFrom([]int64{1, 1001, 1000_003, 999_999_999}).Draw(rt, label+"Unit")
}

func drawTree(rt *rapid.T, old bool) skewCase {
	c := skewCase{Root: rapid.IntRange(0, 2).Draw(rt, "root"), Order: rapid.Uint64().Draw(rt, "order")}
	n := rapid.SampledFrom([]int{1, 2, 3, 4, 6, 10, 14}).Draw(rt, "spans")
	chain := rapid.Bool().Draw(rt, "chain")
	for i := range n {
		nd := node{Parent: max(0, i-1), Start: drawDelta(rt, "start"), Dur: rapid.Int64Range(0, 5_000_000_000).Draw(rt, "duration")}
		if !chain && i > 0 {
			nd.Parent = rapid.IntRange(0, i-1).Draw(rt, "parent")
		}
		switch rapid.IntRange(0, 5).Draw(rt, "timings") {
		case 0, 1, 2:
			nd.Timings = 15
		case 3:
			nd.Timings = rapid.IntRange(0, 14).Draw(rt, "which")
		}
		if nd.Timings != 0 {
			// the clocks are any time apart
			skew := drawDelta(rt, "skew")
			if rapid.IntRange(0, 4).Draw(rt, "days") == 4 {
				skew = rapid.Int64Range(-20, 20).Draw(rt, "day") * day
			}
			nd.CS = drawDelta(rt, "cs")
			nd.CR = nd.CS + rapid.Int64Range(0, 3_000_000_001).Draw(rt, "clientDuration")
			nd.SR = nd.CS + skew
			nd.SS = nd.SR + rapid.Int64Range(0, 3_000_000_001).Draw(rt, "serverDuration")
		}
		if old && rapid.IntRange(0, 4).Draw(rt, "old") == 4 {
			nd.Old = rapid.IntRange(1, 4).Draw(rt, "kind")
		}
		c.Nodes = append(c.Nodes, nd)
	}
	return c
}

// spans makes the spans of a trace. shifted has those nodes whose clock is off by shift.
func (c skewCase) spans(trace proxy.Id, shifted func(i int) (server, all bool)) []proxy.Span {
	// ids in any order
	rng := gen.NewRng(c.Order)
	ids := make([]proxy.Id, len(c.Nodes))
	for i := range ids {
		k := rng.Intn(i + 1)
		ids[i] = ids[k]
		ids[k] = proxy.Id(10 + i)
	}
	var spans []proxy.Span
	for i, n := range c.Nodes {
		s := proxy.Span{Id: ids[i], Trace: trace, Name: "n", Duration: time.Duration(n.Dur)}
		switch {
		case i > 0:
			s.Parent = ids[n.Parent]
		case c.Root == 1:
			s.Parent = s.Id
		case c.Root == 2:
			s.Parent = 999999
		}
		var own, server proxy.Timestamp = base, base
		if shifted != nil {
			sv, all := shifted(i)
			if all {
				own += proxy.Timestamp(c.Shift)
			}
			if all || sv {
				server += proxy.Timestamp(c.Shift)
			}
		}
		switch n.Old {
		case 0:
			s.Timestamp = own + proxy.Timestamp(n.Start)
		case 2:
			s.Timestamp = year2020 - 1
		case 3:
			s.Timestamp = year2020
		case 4:
			s.Timestamp = 1262304000_000000000 + proxy.Timestamp(n.Start)
		}
		if n.Timings&1 != 0 {
			s.Timings.CS = own + proxy.Timestamp(n.CS)
		}
		if n.Timings&2 != 0 {
			s.Timings.CR = own + proxy.Timestamp(n.CR)
		}
		if n.Timings&4 != 0 {
			s.Timings.SR = server + proxy.Timestamp(n.SR)
		}
		if n.Timings&8 != 0 {
			s.Timings.SS = server + proxy.Timestamp(n.SS)
		}
		spans = append(spans, s)
	}
	return spans
}

// forwarded runs all spans as one history, and returns what is forwarded by trace and span.
func (c skewCase) forwarded(e *engine.Env, traces ...[]proxy.Span) (map[proxy.Id]map[proxy.Id]proxy.Span, error) {
	var recs []hist.Rec
	rng := gen.NewRng(c.Order + 1)
	n := 0
	for _, spans := range traces {
		for _, s := range spans {
			recs = append(recs, hist.Rec{At: 51 + 10*rng.Intn(100), Span: s})
		}
		n += len(spans)
	}
	hist.Sort(recs)
	events, err := hist.Run(e, recs, nil, 12000)
	if err != nil {
		return nil, err
	}
	out := map[proxy.Id]map[proxy.Id]proxy.Span{}
	count := 0
	for _, ev := range events {
		if ev.Rec < 0 {
			for _, s := range ev.Trace {
				if out[s.Trace] == nil {
					out[s.Trace] = map[proxy.Id]proxy.Span{}
				}
				out[s.Trace][s.Id] = s
				count++
			}
		}
	}
	if count != n {
		return nil, fmt.Errorf("%d spans were received, but %d forwarded", n, count)
	}
	return out, nil
}

func run(e *engine.Env, c skewCase) error {
	spans := c.spans(7, nil)
	traces, err := c.forwarded(e, spans)
	if err != nil {
		return err
	}
	hops, replaced := make([]int, len(spans)), false
	offset2 := make([]int64, len(spans)) // twice the correction of the spans below
	starts := make([]proxy.Timestamp, len(spans))
	for i, s := range spans {
		got, ok := traces[7][s.Id]
		if !ok {
			return fmt.Errorf("span %s was not forwarded", s.Id)
		}
		if got.Timings != s.Timings {
			return fmt.Errorf("timings of %s were forwarded as %s", gen.Describe(s), gen.Describe(got))
		}
		n := c.Nodes[i]
		if i > 0 {
			hops[i], offset2[i] = hops[n.Parent], offset2[n.Parent]
		}
		want, duration := s.Timestamp, s.Duration
		if n.full() {
			want, duration = s.Timings.CS, time.Duration(s.Timings.CR-s.Timings.CS)
		}
		// every hop may round differently
		tolerance := proxy.Timestamp(hops[i])
		want += proxy.Timestamp(offset2[i] / 2)
		if n.full() {
			offset2[i] += int64(s.Timings.CR-s.Timings.SR) + int64(s.Timings.CS-s.Timings.SS)
			hops[i]++
		}
		if i > 0 && want >= year2020-tolerance && want < year2020+tolerance {
			e.Label("ambiguous, skipped")
			return nil
		}
		if i > 0 && want < year2020 {
			want, tolerance = starts[n.Parent], 0
			replaced = true
		}
		if d := got.Timestamp - want; d > tolerance || d < -tolerance {
			return fmt.Errorf("span %d starts at %d, want %d (%d more): %s", i, got.Timestamp, want, got.Timestamp-want, gen.Describe(s))
		}
		if got.Duration != duration {
			return fmt.Errorf("span %d has duration %d, want %d: %s", i, got.Duration, duration, gen.Describe(s))
		}
		starts[i] = got.Timestamp
		e.LabelIf(hops[i] > 1, "several hops")
		e.LabelIf(n.Timings != 0 && !n.full(), "some timings are missing")
	}
	e.LabelIf(replaced, "start of the parent")
	e.LabelIf(len(spans) > 1, "several spans")
	e.NonTrivialIf(len(spans) > 1)
	return nil
}

func drawShift(rt *rapid.T) skewCase {
	c := drawTree(rt, false)
	c.Hop = rapid.IntRange(0, len(c.Nodes)-1).Draw(rt, "hop")
	h := &c.Nodes[c.Hop]
	if !h.full() {
		h.Timings = 15
		h.CR += 3_000_000
		h.SS = h.SR + 1_000_001
	}
	if rapid.Bool().Draw(rt, "days") {
		c.Shift = rapid.Int64Range(-30, 30).Draw(rt, "shift") * day
	} else {
		c.Shift = drawDelta(rt, "shift")
	}
	return c
}

func runShift(e *engine.Env, c skewCase) error {
	below := make([]bool, len(c.Nodes))
	n := 0
	for i := range c.Nodes {
		below[i] = i > 0 && (c.Nodes[i].Parent == c.Hop || below[c.Nodes[i].Parent])
		if below[i] {
			n++
		}
	}
	a := c.spans(7, nil)
	b := c.spans(8, func(i int) (bool, bool) { return i == c.Hop, below[i] })
	traces, err := c.forwarded(e, a, b)
	if err != nil {
		return err
	}
	for i, s := range a {
		x, okX := traces[7][s.Id]
		y, okY := traces[8][s.Id]
		if !okX || !okY {
			return fmt.Errorf("span %s was not forwarded for both clocks", s.Id)
		}
		if x.Timestamp != y.Timestamp || x.Duration != y.Duration {
			return fmt.Errorf("start and duration of span %d are %d and %d, but if the clocks below span %d are off by %d they are %d (%d more) and %d",
				i, x.Timestamp, x.Duration, c.Hop, c.Shift, y.Timestamp, y.Timestamp-x.Timestamp, y.Duration)
		}
	}
	e.LabelIf(n > 0, "spans below")
	e.LabelIf(n > 3, "more than 3 spans below")
	e.NonTrivialIf(n > 0 && c.Shift != 0)
	return nil
}

func TestCheck(t *testing.T) {
	engine.Main(t, "P16",
		engine.New("model", 50000, 2500000, func(rt *rapid.T) skewCase { return drawTree(rt, true) }, run),
		engine.New("shift", 30000, 1500000, drawShift, runShift),
	)
}
