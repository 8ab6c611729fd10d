package p17

import (
	"fmt"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/engine"
	"verifharness/gen"
	"verifharness/hist"
)

const (
	none     = -1 // no parent
	self     = -2
	missingA = -3
	missingB = -4
	traceId  = -5 // the id of the trace, which a span may have too
)

type node struct {
	Parent     int // index of a node, or one of the constants
	Start, Dur int64
	Timings    bool `json:",omitempty"` // client and server timings that fit to start and duration
	Late       bool `json:",omitempty"` // the parent is not known from its first record
	Repeat     bool `json:",omitempty"`
}

type trace struct {
	Nodes []node
	Ids   int  // kind of ids
	Own   bool `json:",omitempty"` // the trace has the id of its first span
	Order uint64
	Start int
}

func drawTrace(rt *rapid.T) trace {
	t := trace{Ids: rapid.IntRange(0, 2).Draw(rt, "ids"), Own: rapid.Bool().Draw(rt, "own"), Order: rapid.Uint64().Draw(rt, "order"), Start: rapid.IntRange(0, 100).Draw(rt, "start")}
	kind := rapid.SampledFrom([]string{"same missing parent", "same missing parent", "one root", "different", "any"}).Draw(rt, "kind")
	n := rapid.SampledFrom([]int{1, 2, 3, 4, 6, 9}).Draw(rt, "spans")
	missing := rapid.SampledFrom([]int{missingA, missingB, traceId}).Draw(rt, "missing")
	special := []int{none, self, missingA, missingB, traceId}
	for i := range n {
		nd := node{Start: rapid.Int64Range(0, 1000).Draw(rt, "start") * 1_000_003, Dur: rapid.Int64Range(0, 1000).Draw(rt, "duration") * 1_000_003}
		nd.Timings = rapid.IntRange(0, 3).Draw(rt, "timings") == 3
		nd.Late = rapid.IntRange(0, 5).Draw(rt, "late") == 5
		nd.Repeat = rapid.IntRange(0, 5).Draw(rt, "repeat") == 5
		top := i == 0 || rapid.IntRange(0, 2).Draw(rt, "top") == 2
		switch {
		case kind == "any" && rapid.IntRange(0, 3).Draw(rt, "cycle") > 0:
			nd.Parent = rapid.IntRange(0, n-1).Draw(rt, "parent")
		case top && kind == "same missing parent":
			nd.Parent = missing
		case top && kind == "one root" && i > 0:
			nd.Parent = rapid.IntRange(0, n-1).Draw(rt, "parent") // maybe a cycle beside it
		case top:
			nd.Parent = rapid.SampledFrom(special).Draw(rt, "parent")
		default:
			nd.Parent = rapid.IntRange(0, i-1).Draw(rt, "parent")
		}
		t.Nodes = append(t.Nodes, nd)
	}
	return t
}

const base = 1704067200_000000000

func (t trace) spans(n int) (spans []proxy.Span, late []proxy.Span) {
	id := func(i int) proxy.Id {
		switch t.Ids {
		case 0:
			return proxy.Id(100 + i)
		case 1:
			return proxy.Id(1<<63 + uint64(i)*7 - 20)
		}
		return proxy.Id(1000 - i)
	}
	tid := proxy.Id(5000 + n)
	if t.Own {
		tid = id(0) + proxy.Id(n)<<32
	}
	rng := gen.NewRng(t.Order)
	for i, nd := range t.Nodes {
		s := proxy.Span{Id: id(i), Trace: tid, Name: fmt.Sprint("span ", i), Service: "s", Timestamp: proxy.Timestamp(base + nd.Start), Duration: time.Duration(nd.Dur)}
		if t.Own {
			s.Id += proxy.Id(n) << 32
		}
		if nd.Timings {
			s.Timings.CS, s.Timings.CR = s.Timestamp, s.Timestamp.Add(s.Duration)
			s.Timings.SR, s.Timings.SS = s.Timings.CS, s.Timings.CR
		}
		spans = append(spans, s)
	}
	for i, nd := range t.Nodes {
		switch nd.Parent {
		case none:
		case self:
			spans[i].Parent = spans[i].Id
		case missingA:
			spans[i].Parent = 3
		case missingB:
			spans[i].Parent = 1<<63 - 4
		case traceId:
			spans[i].Parent = tid
		default:
			spans[i].Parent = spans[nd.Parent].Id
		}
	}
	records := append([]proxy.Span(nil), spans...)
	for i := range records {
		if t.Nodes[i].Late || t.Nodes[i].Repeat {
			late = append(late, records[i])
		}
		if t.Nodes[i].Late {
			records[i].Parent = 0
		}
	}
	for i := range records {
		k := rng.Intn(i + 1)
		records[i], records[k] = records[k], records[i]
	}
	return spans, append(records, late...)
}

func roots(spans []proxy.Span) (out []proxy.Span) {
	ids := map[proxy.Id]bool{}
	for _, s := range spans {
		ids[s.Id] = true
	}
	for _, s := range spans {
		if s.Parent == s.Id || !ids[s.Parent] {
			out = append(out, s)
		}
	}
	return out
}

func run(e *engine.Env, c []trace) error {
	var recs []hist.Rec
	spansOf := map[proxy.Id][]proxy.Span{}
	var ids []proxy.Id
	for n, t := range c {
		spans, records := t.spans(n)
		for i, s := range records {
			recs = append(recs, hist.Rec{At: t.Start*100 + 51 + i*100, Span: s})
		}
		spansOf[spans[0].Trace] = spans
		ids = append(ids, spans[0].Trace)
	}
	hist.Sort(recs)
	events, err := hist.Run(e, recs, nil, 50000)
	if err != nil {
		return err
	}
	forwarded := map[proxy.Id]proxy.Trace{}
	for _, ev := range events {
		if ev.Rec >= 0 {
			continue
		}
		id, err := hist.TraceOf(ev.Trace)
		if err != nil {
			return err
		}
		if forwarded[id] != nil {
			return fmt.Errorf("trace %s was forwarded twice", id)
		}
		forwarded[id] = ev.Trace
	}
	for _, id := range ids {
		if err := check(e, id, spansOf[id], forwarded[id]); err != nil {
			return err
		}
	}
	return nil
}

func describe(spans []proxy.Span) string {
	out := ""
	for _, s := range spans {
		out += "\n  " + gen.Describe(s)
	}
	return out
}

func check(e *engine.Env, id proxy.Id, spans []proxy.Span, got proxy.Trace) error {
	top := roots(spans)
	same, zero := true, true
	for _, s := range top {
		same = same && s.Parent == top[0].Parent
		zero = zero && s.Parent == 0
	}
	cycle := len(top) > 0 && reachable(spans) < len(spans)
	e.LabelIf(cycle, "cycle beside a root")
	fake := false
	switch {
	case len(top) == 0:
		e.Label("no root")
		e.NonTrivial()
		if got != nil {
			return fmt.Errorf("trace %s has no root, but was forwarded: %s", id, describe(got))
		}
		return nil
	case len(top) == 1:
		e.Label("one root")
		e.NonTrivialIf(len(spans) > 1)
	case zero:
		e.Label("several spans without parent, skipped")
		return nil
	case !same:
		e.Label("different roots")
		e.NonTrivial()
		if got != nil {
			return fmt.Errorf("trace %s has different roots, but was forwarded: %s\nwas received: %s", id, describe(got), describe(spans))
		}
		return nil
	default:
		e.Label("same missing parent")
		e.LabelIf(top[0].Parent == id, "missing parent has the id of the trace")
		for _, s := range spans {
			e.LabelIf(s.Id == id && top[0].Parent != id, "another span has the id of the trace")
		}
		e.NonTrivial()
		fake = true
	}
	if got == nil {
		return fmt.Errorf("trace %s was not forwarded: %s", id, describe(spans))
	}
	ids := hist.Ids(got)
	for _, s := range spans {
		if ids[s.Id] != 1 {
			return fmt.Errorf("trace %s was forwarded with span %s %d times: %s\nwas received: %s", id, s.Id, ids[s.Id], describe(got), describe(spans))
		}
	}
	want := len(spans)
	if fake {
		want++
	}
	if len(got) != want {
		return fmt.Errorf("trace %s was forwarded with %d spans instead of %d: %s\nwas received: %s", id, len(got), want, describe(got), describe(spans))
	}
	if !fake {
		return nil
	}
	now := roots(got)
	if len(now) != 1 || now[0].Id != top[0].Parent {
		return fmt.Errorf("trace %s was forwarded with %d roots, want %s as the only one: %s", id, len(now), top[0].Parent, describe(got))
	}
	from, to := top[0].Timestamp, top[0].Timestamp
	for _, s := range top {
		from = min(from, s.Timestamp)
		to = max(to, s.Timestamp.Add(s.Duration))
	}
	if r := now[0]; r.Name != "fake-root" || r.Service != "fake-root" || r.Timestamp != from || r.Duration != time.Duration(to-from) {
		return fmt.Errorf("added root should last from %d for %d ns, but is %s", from, to-from, gen.Describe(r))
	}
	return nil
}

// reachable counts the spans below roots.
func reachable(spans []proxy.Span) int {
	children := map[proxy.Id][]proxy.Span{}
	for _, s := range spans {
		if s.Parent != s.Id {
			children[s.Parent] = append(children[s.Parent], s)
		}
	}
	n := 0
	todo := roots(spans)
	for len(todo) > 0 {
		s := todo[0]
		todo = append(todo[1:], children[s.Id]...)
		n++
	}
	return n
}

func TestCheck(t *testing.T) {
	engine.Main(t, "P17", engine.New("roots", 60000, 3000000, func(rt *rapid.T) []trace {
		return rapid.SliceOfN(rapid.Custom(drawTrace), 1, 4).Draw(rt, "traces")
	}, run))
}
