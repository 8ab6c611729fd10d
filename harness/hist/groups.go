package hist

import (
	"fmt"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// Compare compares what was forwarded with the groups of the model, by their number, time and
// the ids of their spans.
func Compare(events []Event, recs []Rec, sim *Sim, tolerance int) error {
	want := map[proxy.Id][]*Group{}
	for _, g := range sim.Groups {
		if g.Fate == Forwarded || g.Fate == Maybe {
			want[g.Trace] = append(want[g.Trace], g)
		}
	}
	ties := map[*Tie]int{}
	for _, ev := range events {
		if ev.Rec >= 0 {
			continue
		}
		id, err := TraceOf(ev.Trace)
		if err != nil {
			return err
		}
		if len(want[id]) == 0 {
			for _, g := range sim.Groups {
				if g.Trace == id && g.Fate != Forwarded {
					return fmt.Errorf("forwarded with %d spans at %.0f ms, although it must not be: %s", len(ev.Trace), ev.Ms(), g)
				}
			}
			return fmt.Errorf("trace %s was forwarded with %d spans at %.0f ms without a reason", id, len(ev.Trace), ev.Ms())
		}
		g := want[id][0]
		want[id] = want[id][1:]
		if ev.Ms() < float64(g.At-tolerance) || ev.Ms() > float64(g.At+tolerance) {
			return fmt.Errorf("forwarded with %d spans at %.0f ms, at a wrong time: %s", len(ev.Trace), ev.Ms(), g)
		}
		ids := Ids(ev.Trace)
		if len(ids) == len(ev.Trace) && g.ids[first] == false && ids[first] == 1 {
			// the root arrived with an earlier group, so there may be another one in its place
			delete(ids, first)
			ev.Trace = ev.Trace[1:]
		}
		if len(ev.Trace) != g.Distinct || len(ids) != g.Distinct {
			return fmt.Errorf("forwarded with %d spans (%d different ones) at %.0f ms, but should be complete: %s", len(ev.Trace), len(ids), ev.Ms(), g)
		}
		for _, i := range g.Recs {
			if ids[recs[i].Span.Id] != 1 {
				return fmt.Errorf("forwarded at %.0f ms with span %s %d times: %s", ev.Ms(), recs[i].Span.Id, ids[recs[i].Span.Id], g)
			}
		}
		if g.Fate == Maybe {
			ties[sim.Ties[g]]++
		}
	}
	for _, gs := range want {
		for _, g := range gs {
			if g.Fate == Forwarded {
				return fmt.Errorf("not forwarded: %s", g)
			}
			tie := sim.Ties[g]
			if len(tie.Groups)-ties[tie] != tie.Discard {
				return fmt.Errorf("%d traces with %d spans were discarded, want %d of %d", len(tie.Groups)-ties[tie], g.Distinct, tie.Discard, len(tie.Groups))
			}
		}
	}
	for tie, n := range ties {
		if len(tie.Groups)-n != tie.Discard {
			return fmt.Errorf("%d traces with %d spans were discarded, want %d of %d", len(tie.Groups)-n, tie.Groups[0].Distinct, tie.Discard, len(tie.Groups))
		}
	}
	return nil
}

const first = 1 << 40 // id of the root

// Flat is span number n (from 0) of a trace of any size in which all spans are below the first
// one, with ids that make it cheap to collect them in order.
func Flat(trace, n int) proxy.Span {
	return proxy.Span{Id: proxy.Id(first - n), Trace: proxy.Id(trace), Parent: first, Name: "n", Timestamp: 1600000000_000000000, Duration: 1000}
}
