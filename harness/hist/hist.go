// Package hist drives the trace assembly with histories of received spans under virtual time,
// and has the reference model of when a group of spans is complete.
package hist

import (
	"errors"
	"fmt"
	"sort"
	"time"

	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verifharness/engine"
	"verifharness/gen"
)

// Rec is a span that is received at a time (in ms since the start).
type Rec struct {
	At   int
	Span proxy.Span
}

// Stall is a time in which nobody takes traces.
type Stall struct{ At, For int }

// Event is what was observed: either a record that was accepted or a trace that was forwarded.
type Event struct {
	At    time.Duration
	Rec   int // index of the record, -1 for a trace
	Trace proxy.Trace
}

// Ms is the time of the event in ms.
func (ev Event) Ms() float64 { return float64(ev.At) / float64(time.Millisecond) }

// Sort orders records by time, keeping the order of those at the same time.
func Sort(recs []Rec) {
	sort.SliceStable(recs, func(i, j int) bool { return recs[i].At < recs[j].At })
}

// Run feeds the records to the trace assembly, which is stopped endMs after the start, and
// returns everything that happened, in order. What is forwarded is copied, and the forwarded
// trace itself is overwritten, as it belongs to the receiver, and must stay like that.
func Run(e *engine.Env, recs []Rec, stalls []Stall, endMs int) (events []Event, err error) {
	var held []proxy.Trace
	err = engine.Bubble(e, func() error {
		// there is no buffer, and this is the only goroutine besides the one of the code under
		// test: events are seen in the order in which they happen
		in := make(chan proxy.Span)
		out := make(chan proxy.Trace)
		done := make(chan error, 1)
		start := time.Now()
		go func() {
			done <- engine.Protect(func() error { zipkinproxy.ErrorCorrectSpans(in, out); return nil })
		}()

		forwarded := func(trace proxy.Trace) {
			events = append(events, Event{At: time.Since(start), Rec: -1, Trace: gen.CloneAll(trace)})
			for i := range trace {
				if trace[i].Tags != nil {
					trace[i].Tags["overwritten"] = "by the receiver"
				}
				trace[i] = overwritten
			}
			held = append(held, trace)
		}
		stopped := func(err error) error {
			if err == nil {
				err = errors.New("it returned although its input was not closed")
			}
			return err
		}
		wait := func(until time.Duration) error {
			timer := time.NewTimer(until - time.Since(start))
			defer timer.Stop()
			for {
				select {
				case trace := <-out:
					forwarded(trace)
				case err := <-done:
					return stopped(err)
				case <-timer.C:
					return nil
				}
			}
		}
		waitMs := func(ms int) error {
			until := time.Duration(ms) * time.Millisecond
			for len(stalls) > 0 && stalls[0].At <= ms {
				s := stalls[0]
				stalls = stalls[1:]
				if err := wait(time.Duration(s.At) * time.Millisecond); err != nil {
					return err
				}
				time.Sleep(time.Duration(s.For) * time.Millisecond)
			}
			if time.Since(start) >= until {
				return nil
			}
			return wait(until)
		}

		for i, r := range recs {
			if err := waitMs(r.At); err != nil {
				return err
			}
			span := gen.Clone(r.Span, false)
			for sent := false; !sent; {
				select {
				case in <- span:
					events = append(events, Event{At: time.Since(start), Rec: i})
					sent = true
				case trace := <-out:
					forwarded(trace)
				case err := <-done:
					return stopped(err)
				}
			}
		}
		if err := waitMs(endMs); err != nil {
			return err
		}
		close(in)
		for {
			select {
			case trace := <-out:
				forwarded(trace)
			case err := <-done:
				return err
			}
		}
	})
	if err != nil {
		return nil, err
	}
	forwarded := 0
	for _, ev := range events {
		if ev.Rec >= 0 {
			continue
		}
		for i, s := range held[forwarded] {
			if !gen.Equal(s, overwritten) {
				return nil, fmt.Errorf("span %d of %d of the trace that was forwarded at %.0f ms was changed afterwards, it is %s", i, len(ev.Trace), ev.Ms(), gen.Describe(s))
			}
		}
		forwarded++
	}
	return events, nil
}

var overwritten = proxy.Span{Id: 1, Trace: 1, Name: "overwritten by the receiver"}

// TraceOf returns the id all spans of a forwarded trace have.
func TraceOf(trace proxy.Trace) (proxy.Id, error) {
	if len(trace) == 0 {
		return 0, errors.New("an empty trace was forwarded")
	}
	for _, s := range trace {
		if s.Trace != trace[0].Trace {
			return 0, fmt.Errorf("a forwarded group has spans of trace %s and %s", trace[0].Trace, s.Trace)
		}
	}
	return trace[0].Trace, nil
}

// Ids counts the spans by id.
func Ids(trace proxy.Trace) map[proxy.Id]int {
	ids := map[proxy.Id]int{}
	for _, s := range trace {
		ids[s.Id]++
	}
	return ids
}
