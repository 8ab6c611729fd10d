package p11

import (
	"fmt"
	"reflect"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/engine"
	"verifharness/gen"
	"verifharness/hist"
)

// rec is a record of span number N of a burst, After ms after the one before.
type rec struct {
	N     int
	After int
	// it does not have a parent
	NoParent bool   `json:",omitempty"`
	Name     string `json:",omitempty"`
}

// burst is a number of spans that arrive shortly after each other.
type burst struct {
	Pause   int   // ms since the burst before
	Parents []int // of each span the number of another one with a smaller number
	Ids     []int // index into the pool of ids
	Recs    []rec
}

type trace struct {
	Id     int
	Start  int
	Root   int // what the root has as its parent: 0: nothing, 1: itself, 2: an unknown span
	Bursts []burst
}

// invalid is a record without id.
type invalid struct {
	At        int
	Trace, Id int
}

type traceCase struct {
	Ids    []int64 // pool of different ids, used for spans and traces alike
	Traces []trace
	Bad    []invalid    `json:",omitempty"`
	Stalls []hist.Stall `json:",omitempty"`
	Chain  bool         `json:",omitempty"`
	Seed   uint64       // of names and tags
}

var idPool = []uint64{1, 2, 3, 9, 10, 11, 255, 256, 1 << 15, 1<<16 - 1, 1 << 16, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 2, 1<<64 - 1}

func drawCase(big bool) func(rt *rapid.T) traceCase {
	return func(rt *rapid.T) traceCase {
		c := traceCase{Seed: rapid.Uint64().Draw(rt, "seed")}
		// ids that are close to each other, far away, small, large
		want := rapid.SampledFrom([]int{8, 20, 60}).Draw(rt, "ids")
		perBurst := rapid.SampledFrom([]int{1, 3, 8, 20}).Draw(rt, "spans")
		maxTraces := rapid.SampledFrom([]int{1, 3, 10, 25}).Draw(rt, "maxTraces")
		if big {
			want, perBurst, maxTraces = rapid.SampledFrom([]int{300, 1000, 2500}).Draw(rt, "ids"), 2500, 3
		}
		if perBurst > want {
			perBurst = want
		}
		rng := gen.NewRng(rapid.Uint64().Draw(rt, "idSeed"))
		kind := rapid.IntRange(0, 3).Draw(rt, "idKind")
		seen := map[uint64]bool{0: true}
		for len(c.Ids) < want {
			var v uint64
			switch {
			case kind == 0:
				v = uint64(len(c.Ids) + 1)
			case kind == 1 && len(c.Ids) < len(idPool):
				v = idPool[rng.Intn(len(idPool))]
			case kind == 2:
				v = uint64(rng.Intn(3*want)) + 1<<63 - uint64(want)
			default:
				v = rng.Uint64()
			}
			if !seen[v] {
				seen[v] = true
				c.Ids = append(c.Ids, int64(v))
			}
		}
		traceIds := rapid.Permutation(intsTo(min(want, 60))).Draw(rt, "traceIds")
		n := rapid.IntRange(1, min(maxTraces, len(traceIds))).Draw(rt, "traces")
		gaps := rapid.SampledFrom([]int{0, 100, 2000, 7500}).Draw(rt, "gaps")
		stalls := rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(rt, "stalls")
		if stalls > 0 {
			gaps = min(gaps, 2000) // records may be received so much later that the trace seems complete
		}
		for t := range n {
			tr := trace{Id: traceIds[t], Start: 10 * rapid.IntRange(0, 1000).Draw(rt, "start"), Root: rapid.IntRange(0, 2).Draw(rt, "root")}
			bursts := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(rt, "bursts")
			ids := intsTo(want)
			irng := gen.NewRng(rapid.Uint64().Draw(rt, "idOrder"))
			for i := range ids {
				k := i + irng.Intn(len(ids)-i)
				ids[i], ids[k] = ids[k], ids[i]
			}
			for b := range bursts {
				var bu burst
				if b > 0 {
					bu.Pause = 100 * rapid.IntRange(90, 200).Draw(rt, "pause")
				}
				spans := rapid.IntRange(1, perBurst).Draw(rt, "count")
				if big {
					spans = rapid.SampledFrom([]int{100, 250, 500, 1000, 2000}).Draw(rt, "count")
				}
				spans = min(spans, len(ids)-3)
				if spans < 1 {
					break
				}
				bu.Ids, ids = ids[:spans], ids[spans:]
				if big {
					prng := gen.NewRng(rapid.Uint64().Draw(rt, "shape"))
					for i := range spans {
						bu.Parents = append(bu.Parents, prng.Intn(max(1, i)))
					}
					for i := range spans {
						bu.Recs = append(bu.Recs, rec{N: i, Name: "x"})
						if prng.Chance(20) {
							bu.Recs = append(bu.Recs, rec{N: prng.Intn(spans), Name: "y"})
						}
					}
					for i := range bu.Recs {
						k := i + prng.Intn(len(bu.Recs)-i)
						bu.Recs[i], bu.Recs[k] = bu.Recs[k], bu.Recs[i]
					}
				} else {
					for i := range spans {
						bu.Parents = append(bu.Parents, rapid.IntRange(0, max(0, i-1)).Draw(rt, "parent"))
					}
					order := rapid.Permutation(intsTo(spans)).Draw(rt, "order")
					left := 20000
					for _, i := range order {
						r := rec{N: i, After: rapid.IntRange(0, min(gaps, left)).Draw(rt, "after")}
						left -= r.After
						bu.Recs = append(bu.Recs, r)
						if rapid.IntRange(0, 5).Draw(rt, "repeat") == 5 {
							r.NoParent = rapid.Bool().Draw(rt, "noParent")
							r.N = rapid.SampledFrom(order).Draw(rt, "which")
							r.After = rapid.IntRange(0, min(gaps, left)).Draw(rt, "after")
							left -= r.After
							bu.Recs = append(bu.Recs, r)
						}
					}
				}
				tr.Bursts = append(tr.Bursts, bu)
			}
			c.Traces = append(c.Traces, tr)
		}
		for range rapid.SampledFrom([]int{0, 0, 1, 3, 10}).Draw(rt, "invalid") {
			bad := invalid{At: 10 * rapid.IntRange(0, 3000).Draw(rt, "at"), Trace: -1, Id: -1}
			switch rapid.IntRange(0, 2).Draw(rt, "kind") {
			case 0:
				bad.Trace = rapid.IntRange(0, want-1).Draw(rt, "trace")
			case 1:
				bad.Id = rapid.IntRange(0, want-1).Draw(rt, "id")
			}
			c.Bad = append(c.Bad, bad)
		}
		at := 0
		for range stalls {
			at += rapid.IntRange(3000, 20000).Draw(rt, "stallAt")
			s := hist.Stall{At: at, For: rapid.SampledFrom([]int{1, 50, 100, 1000, 2000}).Draw(rt, "stall")}
			at += s.For
			c.Stalls = append(c.Stalls, s)
		}
		return c
	}
}

func intsTo(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

const base = 1600000000_000000000

var words = []string{"", "", "a", "b", "service", "GET /", "x.y", "é"}

func (c traceCase) records() (recs []hist.Rec, end int) {
	id := func(i int) proxy.Id {
		if i < 0 {
			return 0
		}
		return proxy.Id(c.Ids[i])
	}
	rng := gen.NewRng(c.Seed)
	word := func() string { return words[rng.Intn(len(words))] }
	for _, t := range c.Traces {
		at := t.Start
		used := map[proxy.Id]bool{}
		for _, b := range t.Bursts {
			for _, i := range b.Ids {
				used[id(i)] = true
			}
		}
		unknown := proxy.Id(77777)
		for used[unknown] {
			unknown++
		}
		var above proxy.Id
		switch t.Root {
		case 1:
			above = id(t.Bursts[0].Ids[0])
		case 2:
			above = unknown
		}
		for _, b := range t.Bursts {
			at += b.Pause
			for _, r := range b.Recs {
				at += r.After
				s := proxy.Span{Id: id(b.Ids[r.N]), Trace: id(t.Id), Name: word(), Service: word(),
					Timestamp: proxy.Timestamp(base + rng.Intn(1e9)), Duration: time.Duration(rng.Intn(1e9))}
				s.Parent = above
				if r.N > 0 {
					s.Parent = id(b.Ids[b.Parents[r.N]])
				}
				if r.NoParent {
					s.Parent = 0
				}
				for range rng.Intn(4) {
					s.AddTag(word(), word())
				}
				recs = append(recs, hist.Rec{At: at, Span: s})
			}
			// the next burst is one that would be below this one
			above = id(b.Ids[b.Parents[len(b.Ids)-1]])
		}
		end = max(end, at)
	}
	for _, b := range c.Bad {
		recs = append(recs, hist.Rec{At: b.At, Span: proxy.Span{Id: id(b.Id), Trace: id(b.Trace), Name: "invalid"}})
		end = max(end, b.At)
	}
	for _, s := range c.Stalls {
		end += s.For
	}
	hist.Sort(recs)
	return recs, end + 70000
}

type group struct {
	recs map[proxy.Id][]int
}

func run(e *engine.Env, c traceCase) error {
	recs, end := c.records()
	events, err := hist.Run(e, recs, c.Stalls, end)
	if err != nil {
		return err
	}
	open := map[proxy.Id]map[proxy.Id][]int{}
	groups, regroups, repeats, largest := map[proxy.Id]int{}, 0, 0, 0
	for _, ev := range events {
		if ev.Rec >= 0 {
			s := recs[ev.Rec].Span
			if s.Trace == 0 || s.Id == 0 {
				continue
			}
			g := open[s.Trace]
			if g == nil {
				g = map[proxy.Id][]int{}
				open[s.Trace] = g
			}
			g[s.Id] = append(g[s.Id], ev.Rec)
			continue
		}
		id, err := hist.TraceOf(ev.Trace)
		if err != nil {
			return err
		}
		g := open[id]
		if g == nil {
			return fmt.Errorf("a group of trace %s with %d spans was forwarded after %.0f ms, but nothing was received for it since the last one: %s",
				id, len(ev.Trace), ev.Ms(), gen.Describe(ev.Trace[0]))
		}
		delete(open, id)
		groups[id]++
		if groups[id] > 1 {
			regroups++
		}
		largest = max(largest, len(g))
		for sid, n := range hist.Ids(ev.Trace) {
			if g[sid] == nil {
				return fmt.Errorf("trace %s was forwarded after %.0f ms with span %s, which was not received, or forwarded before", id, ev.Ms(), sid)
			}
			if n != 1 {
				return fmt.Errorf("trace %s was forwarded after %.0f ms with span %s %d times", id, ev.Ms(), sid, n)
			}
		}
		if len(ev.Trace) != len(g) {
			ids := hist.Ids(ev.Trace)
			for sid := range g {
				if ids[sid] == 0 {
					return fmt.Errorf("trace %s was forwarded after %.0f ms without span %s, which was received before (it has %d of %d spans)", id, ev.Ms(), sid, len(ids), len(g))
				}
			}
		}
		for _, s := range ev.Trace {
			if len(g[s.Id]) > 1 {
				repeats++
				continue
			}
			want := recs[g[s.Id][0]].Span
			if s.Parent != want.Parent || s.Name != want.Name || s.Service != want.Service ||
				(len(s.Tags) > 0 || len(want.Tags) > 0) && !reflect.DeepEqual(s.Tags, want.Tags) {
				return fmt.Errorf("span was received as\n  %s and forwarded as\n  %s", gen.Describe(want), gen.Describe(s))
			}
		}
	}
	for id, g := range open {
		return fmt.Errorf("trace %s was not forwarded within 60 s, %d spans of it are missing", id, len(g))
	}
	e.LabelIf(len(c.Traces) > 1, "several traces")
	e.LabelIf(len(c.Traces) > 8, "more than 8 traces")
	e.LabelIf(regroups > 0, "traces forwarded again")
	e.LabelIf(repeats > 0, "repeated records")
	e.LabelIf(largest > 10, "more than 10 spans in a trace")
	e.LabelIf(largest > 500, "more than 500 spans in a trace")
	e.LabelIf(len(c.Bad) > 0, "invalid records")
	e.LabelIf(len(c.Stalls) > 0, "slow receiver")
	shared := map[proxy.Id]proxy.Id{}
	for _, r := range recs {
		if t, ok := shared[r.Span.Id]; ok && t != r.Span.Trace {
			e.Label("same span id in several traces")
		}
		shared[r.Span.Id] = r.Span.Trace
	}
	e.NonTrivialIf(len(recs) > 2 && (len(c.Traces) > 1 || largest > 2))
	return nil
}

func TestCheck(t *testing.T) {
	engine.Main(t, "P11",
		engine.New("histories", 20000, 1000000, drawCase(false), run),
		engine.New("large", 160, 8000, drawCase(true), run),
	)
}
