// Package dd runs the Datadog sink under virtual time with an agent that records what it gets.
package dd

import (
	"errors"
	"fmt"
	"net/http"
	"reflect"
	"sync"
	"time"

	"github.com/DataDog/dd-trace-go/tracer"
	"github.com/flachnetz/dd-zipkin-proxy/datadog"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verifharness/engine"
	"verifharness/gen"
)

// Span has the fields of a submitted span.
type Span struct {
	Name, Service, Resource, Type string
	Start, Duration               int64
	Meta                          map[string]string
	Metrics                       map[string]float64
	SpanID, TraceID, ParentID     uint64
	Error                         int32
}

// Copy copies a span.
func Copy(s *tracer.Span) Span {
	c := Span{s.Name, s.Service, s.Resource, s.Type, s.Start, s.Duration, nil, nil, s.SpanID, s.TraceID, s.ParentID, s.Error}
	for k, v := range s.Meta {
		if c.Meta == nil {
			c.Meta = map[string]string{}
		}
		c.Meta[k] = v
	}
	for k, v := range s.Metrics {
		if c.Metrics == nil {
			c.Metrics = map[string]float64{}
		}
		c.Metrics[k] = v
	}
	return c
}

// Want is the translation of a span by the text of the property.
func Want(s proxy.Span) Span {
	w := Span{Name: s.Service, Service: s.Service, Resource: s.Name, Start: int64(s.Timestamp), Duration: int64(s.Duration),
		SpanID: uint64(s.Id), TraceID: uint64(s.Trace), ParentID: uint64(s.Parent)}
	if s.Name == "" {
		w.Resource = "(resource empty)"
	}
	if w.Duration < 1000 {
		w.Duration = 1000
	}
	if v, ok := s.Tags["error"]; ok && v != "false" && v != "0" {
		w.Error = 1
	}
	if len(s.Tags) > 0 {
		w.Meta = s.Tags
	}
	return w
}

// Equal compares submitted spans.
func Equal(a, b Span) bool { return reflect.DeepEqual(a, b) }

// Call is a submission.
type Call struct {
	At, Done time.Duration // since the start
	Groups   [][]Span
	pointers [][]*tracer.Span
}

// Spans are all spans of the submission.
func (c Call) Spans() (spans []Span) {
	for _, g := range c.Groups {
		spans = append(spans, g...)
	}
	return spans
}

// Send is a trace that is handed over.
type Send struct {
	At    int // ms
	Trace proxy.Trace
}

// Agent is how the agent behaves.
type Agent struct {
	// time in ms an answer takes, by submission
	Latency []int
	// whether the answer is an error, by submission
	Fail []bool
	// times in ms from-to in which it does not answer
	Outages [][2]int
}

type transport struct {
	start time.Time
	agent Agent

	mu    sync.Mutex
	calls []*Call
}

func (t *transport) now() time.Duration { return time.Since(t.start) }

func (t *transport) SendTraces(traces [][]*tracer.Span) (*http.Response, error) {
	call := &Call{At: t.now(), Done: -1}
	for _, group := range traces {
		var g []Span
		for _, s := range group {
			g = append(g, Copy(s))
		}
		call.Groups = append(call.Groups, g)
		call.pointers = append(call.pointers, group)
	}
	t.mu.Lock()
	n := len(t.calls)
	t.calls = append(t.calls, call)
	t.mu.Unlock()

	if len(t.agent.Latency) > 0 {
		time.Sleep(time.Duration(t.agent.Latency[n%len(t.agent.Latency)]) * time.Millisecond)
	}
	for _, o := range t.agent.Outages {
		from, to := time.Duration(o[0])*time.Millisecond, time.Duration(o[1])*time.Millisecond
		if now := t.now(); now >= from && now < to || call.At >= from && call.At < to && now < to {
			time.Sleep(to - now)
		}
	}
	t.mu.Lock()
	call.Done = t.now()
	t.mu.Unlock()
	if len(t.agent.Fail) > 0 && t.agent.Fail[n%len(t.agent.Fail)] {
		return nil, errors.New("agent failed")
	}
	return &http.Response{StatusCode: 200}, nil
}

func (t *transport) SendServices(map[string]tracer.Service) (*http.Response, error) {
	return &http.Response{StatusCode: 200}, nil
}
func (t *transport) SetHeader(key, value string) {}

// Run hands over the traces at their times, and stops the sink endMs after the start. It
// returns the times at which the traces were accepted and all submissions. Submitted spans
// must not change afterwards.
func Run(e *engine.Env, sends []Send, agent Agent, endMs int) (accepted []time.Duration, calls []*Call, err error) {
	var given []proxy.Trace
	err = engine.Bubble(e, func() error {
		t := &transport{start: time.Now(), agent: agent}
		traces := make(chan proxy.Trace)
		done := make(chan error, 1)
		go func() {
			done <- engine.Protect(func() error { datadog.Sink(t, traces); return nil })
		}()
		stopped := func(err error) error {
			if err == nil {
				err = errors.New("the sink returned although its input was not closed")
			}
			return err
		}
		wait := func(ms int) error {
			timer := time.NewTimer(time.Duration(ms)*time.Millisecond - t.now())
			defer timer.Stop()
			select {
			case <-timer.C:
				return nil
			case err := <-done:
				return stopped(err)
			}
		}
		for _, s := range sends {
			if err := wait(s.At); err != nil {
				return err
			}
			var trace proxy.Trace
			for _, span := range s.Trace {
				trace = append(trace, gen.Clone(span, false))
			}
			select {
			case traces <- trace:
				accepted = append(accepted, t.now())
				given = append(given, trace)
			case err := <-done:
				return stopped(err)
			}
		}
		if err := wait(endMs); err != nil {
			return err
		}
		close(traces)
		if err := <-done; err != nil {
			return err
		}
		// the agent may answer later
		time.Sleep(time.Hour)
		calls = t.calls
		return nil
	})
	if err != nil {
		return nil, nil, err
	}
	// the traces are shared with others
	for n, trace := range given {
		if err := gen.CompareAll(trace, sends[n].Trace); err != nil {
			return nil, nil, fmt.Errorf("trace %d that was handed over has changed: %v", n, err)
		}
	}
	for n, call := range calls {
		for i, group := range call.pointers {
			for k, s := range group {
				if now := Copy(s); !Equal(now, call.Groups[i][k]) {
					return nil, nil, fmt.Errorf("span %d of group %d of submission %d was changed after it was submitted from\n  %+v to\n  %+v", k, i, n, call.Groups[i][k], now)
				}
			}
		}
	}
	return accepted, calls, nil
}

// Shape checks how the spans of a submission are grouped.
func (c Call) Shape() error {
	if len(c.Groups) == 0 {
		return errors.New("an empty submission")
	}
	seen := map[uint64]bool{}
	for _, g := range c.Groups {
		if len(g) == 0 {
			return errors.New("a submission with an empty group")
		}
		for _, s := range g {
			if s.TraceID != g[0].TraceID {
				return fmt.Errorf("a group with spans of the traces %x and %x", g[0].TraceID, s.TraceID)
			}
		}
		if seen[g[0].TraceID] {
			return fmt.Errorf("a submission with several groups of trace %x", g[0].TraceID)
		}
		seen[g[0].TraceID] = true
	}
	return nil
}
