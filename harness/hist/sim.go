package hist

import (
	"fmt"
	"sort"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// Fate is what becomes of a group.
type Fate int

const (
	Open Fate = iota
	Forwarded
	TooLarge
	TooOld
	Discarded
	// Maybe is one of several groups of the same size, of which some were discarded
	Maybe
)

func (f Fate) String() string {
	return [...]string{"open", "forwarded", "too large", "too old", "discarded", "maybe discarded"}[f]
}

// Group is a number of records that are collected for a trace.
type Group struct {
	Trace       proxy.Id
	First, Last int // times of its first and last record
	Recs        []int
	Distinct    int
	Fate        Fate
	At          int // time of its fate

	ids map[proxy.Id]bool
}

// Wait is the time in ms a trace has to be quiet if so many spans are open.
func Wait(open int) int {
	switch {
	case open >= 80000:
		return 2000
	case open >= 60000:
		return 4000
	case open >= 40000:
		return 6000
	}
	return 8000
}

const (
	MaxTrace = 8192
	MaxOpen  = 100000
	MaxAge   = 5
)

// Sim is the outcome of a history: the groups in order of their start, and the number of the
// groups with fate Maybe that are discarded, by time and size.
type Sim struct {
	Groups []*Group
	// [number to discard, number of candidates] by class
	Ties    map[*Group]*Tie
	MaxOpen int
	Banned  int

	ambiguous bool
}

// Tie is a class of groups with the same size, so many of which are discarded.
type Tie struct {
	Discard int
	Groups  []*Group
}

// Simulate runs the reference model, which looks for complete groups every tick ms.
func Simulate(recs []Rec, tick, phase, end int) *Sim {
	sim := &Sim{Ties: map[*Group]*Tie{}}
	open := map[proxy.Id]*Group{}
	var order []*Group
	banned := map[proxy.Id]bool{}
	count := 0 // of open spans

	run := func(now int) {
		n := 0
		for _, g := range order {
			if g.Fate == Open && g.Distinct <= MaxTrace {
				n += g.Distinct
			}
		}
		if n > sim.MaxOpen {
			sim.MaxOpen = n
		}
		wait := Wait(n)
		for _, g := range order {
			switch {
			case g.Distinct > MaxTrace:
				g.Fate = TooLarge
				banned[g.Trace] = true
			case now-g.First > MaxAge*wait:
				g.Fate = TooOld
				banned[g.Trace] = true
			case now-g.Last >= wait:
				g.Fate = Forwarded
			default:
				continue
			}
			g.At = now
			count -= g.Distinct
			delete(open, g.Trace)
		}
		if n > MaxOpen && count == MaxOpen {
			// it was more than that until just now
			sim.ambiguous = true
		}
		if count > MaxOpen {
			var rest []*Group
			for _, g := range order {
				if g.Fate == Open {
					rest = append(rest, g)
				}
			}
			sort.SliceStable(rest, func(i, j int) bool { return rest[i].Distinct > rest[j].Distinct })
			i := 0
			for ; count >= MaxOpen; i++ {
				rest[i].Fate, rest[i].At = Discarded, now
				count -= rest[i].Distinct
				delete(open, rest[i].Trace)
			}
			if i > 0 && i < len(rest) && rest[i].Distinct == rest[i-1].Distinct {
				tie := &Tie{}
				for _, g := range rest {
					if g.Distinct == rest[i].Distinct {
						if g.Fate == Discarded {
							tie.Discard++
						}
						tie.Groups = append(tie.Groups, g)
						sim.Ties[g] = tie
					}
				}
			}
		}
		left := order[:0]
		for _, g := range order {
			if g.Fate == Open {
				left = append(left, g)
			}
		}
		order = left
		sim.Banned = len(banned)
	}

	next := phase
	for i := 0; i <= len(recs); i++ {
		until := end
		if i < len(recs) {
			until = recs[i].At
		}
		for next < until {
			run(next)
			next += tick
		}
		if i == len(recs) {
			break
		}
		s := recs[i].Span
		if s.Trace == 0 || s.Id == 0 || banned[s.Trace] {
			continue
		}
		g := open[s.Trace]
		if g == nil {
			g = &Group{Trace: s.Trace, First: until, ids: map[proxy.Id]bool{}}
			open[s.Trace] = g
			order = append(order, g)
			sim.Groups = append(sim.Groups, g)
		}
		g.Last = until
		g.Recs = append(g.Recs, i)
		if !g.ids[s.Id] {
			g.ids[s.Id] = true
			g.Distinct++
			count++
		}
	}
	return sim
}

// Robust runs the model with different ticks, and returns nil if the outcome depends on them,
// because something happens too close to one of the limits.
func Robust(recs []Rec, end int) *Sim {
	sim := Simulate(recs, 100, 0, end)
	for _, other := range [][2]int{{100, 51}, {10, 3}, {200, 101}} {
		o := Simulate(recs, other[0], other[1], end)
		if sim.ambiguous || o.ambiguous || !same(sim, o) {
			return nil
		}
	}
	// a member of a tie that was discarded is as good as one that was not, unless they differ
	// in what becomes of them
	traces := map[proxy.Id]int{}
	for _, g := range sim.Groups {
		traces[g.Trace]++
	}
	for _, tie := range sim.Ties {
		at, last := -1, -1
		for _, g := range tie.Groups {
			if g.Fate != Discarded {
				if g.Fate != Forwarded || at >= 0 && g.At != at {
					return nil
				}
				at = g.At
			}
			if last >= 0 && g.Last != last || traces[g.Trace] > 1 {
				return nil
			}
			last = g.Last
		}
		for _, g := range tie.Groups {
			if g.Fate == Discarded {
				g.At = at
			}
			g.Fate = Maybe
		}
	}
	return sim
}

func same(a, b *Sim) bool {
	if len(a.Groups) != len(b.Groups) {
		return false
	}
	for i, g := range a.Groups {
		o := b.Groups[i]
		if g.Trace != o.Trace || g.Fate != o.Fate || len(g.Recs) != len(o.Recs) || g.Distinct != o.Distinct {
			return false
		}
		for k := range g.Recs {
			if g.Recs[k] != o.Recs[k] {
				return false
			}
		}
		if d := g.At - o.At; d > 250 || d < -250 {
			return false
		}
	}
	return true
}

func (g *Group) String() string {
	return fmt.Sprintf("group of trace %s with %d records of %d spans received between %d and %d ms (%s at about %d ms)",
		g.Trace, len(g.Recs), g.Distinct, g.First, g.Last, g.Fate, g.At)
}
