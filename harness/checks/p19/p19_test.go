package p19

import (
	"fmt"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/dd"
	"verifharness/engine"
)

// handed is a trace that is handed over.
type handed struct {
	After int // steps of 50 ms since the one before
	Burst int `json:",omitempty"` // so many further ones of that size at the same time
	Size  int `json:",omitempty"`
	Id    int `json:",omitempty"`
	Bulk  int `json:",omitempty"` // so many further ones of that size, in steps of 50 ms
}

type sinkCase struct {
	Traces  []handed
	Latency []int // of answers in ms, shorter than the time between two traces
	Fail    []bool
}

func draw(rt *rapid.T) sinkCase {
	var c sinkCase
	sizes := rapid.SampledFrom([][]int{{0, 1, 2}, {1, 10, 100}, {1, 100, 300, 500}, {1, 999, 1000, 1001, 500}, {1, 1500, 2500, 4100}}).Draw(rt, "sizes")
	ids := rapid.SampledFrom([]int{1, 3, 1000}).Draw(rt, "ids")
	most := rapid.SampledFrom([]int{3, 10, 30}).Draw(rt, "max")
	bursts, gap := rapid.Bool().Draw(rt, "bursts"), 0
	for range rapid.IntRange(1, most).Draw(rt, "traces") {
		h := handed{Size: rapid.SampledFrom(sizes).Draw(rt, "size"), Id: rapid.IntRange(0, ids-1).Draw(rt, "id")}
		switch rapid.IntRange(0, 5).Draw(rt, "pause") {
		case 0, 1:
			h.After = 1
		case 2:
			h.After = rapid.IntRange(1, 40).Draw(rt, "after")
		case 3:
			// the time of a flush, and somewhat more or less than that
			h.After = rapid.IntRange(34, 46).Draw(rt, "after")
		case 4:
			h.After = rapid.IntRange(1, 300).Draw(rt, "after")
		case 5:
			h.After = 1
			if h.Size < 400 {
				h.Bulk = rapid.IntRange(1, 60).Draw(rt, "bulk")
			}
		}
		if bursts && h.Bulk == 0 && rapid.IntRange(0, 2).Draw(rt, "burst") == 0 {
			// no more batches than may wait, and time enough to send them
			h.Burst = rapid.IntRange(1, 6).Draw(rt, "more")
			h.After = max(h.After, 10)
			gap = 10
		} else {
			h.After = max(h.After, gap)
			gap = 0
		}
		c.Traces = append(c.Traces, h)
	}
	c.Latency = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 20}), 1, 3).Draw(rt, "latency")
	c.Fail = rapid.SliceOfN(rapid.Bool(), 1, 4).Draw(rt, "fail")
	return c
}

func run(e *engine.Env, c sinkCase) error {
	var sends []dd.Send
	at, id := 25, 0
	burst := false
	for _, h := range c.Traces {
		for b := range h.Bulk + h.Burst + 1 {
			if b > 0 {
				h.After = 1
				if h.Burst > 0 {
					h.After = 0
					burst = true
				}
			}
			at += 50 * h.After
			var trace proxy.Trace
			for range h.Size {
				id++
				trace = append(trace, proxy.Span{Id: proxy.Id(id), Trace: proxy.Id(1 + h.Id + 1000*(b%3)), Name: "n", Service: "s", Timestamp: proxy.Timestamp(id), Duration: 1000})
			}
			sends = append(sends, dd.Send{At: at, Trace: trace})
		}
	}
	accepted, calls, err := dd.Run(e, sends, dd.Agent{Latency: c.Latency, Fail: c.Fail}, at+20000)
	if err != nil {
		return err
	}
	submitted := make([]time.Duration, id+1)
	for i := range submitted {
		submitted[i] = -1
	}
	for n, call := range calls {
		if err := call.Shape(); err != nil {
			return fmt.Errorf("submission %d: %v", n, err)
		}
		for _, s := range call.Spans() {
			if s.SpanID < 1 || s.SpanID > uint64(id) {
				return fmt.Errorf("submission %d has an unknown span %+v", n, s)
			}
			if before := submitted[s.SpanID]; before >= 0 {
				return fmt.Errorf("span %d was submitted after %s and after %s", s.SpanID, before, call.At)
			}
			submitted[s.SpanID] = call.At
		}
	}
	// a batch is submitted at once, unless others were formed at the same time
	delay := 40 * time.Millisecond
	if burst {
		delay = 250 * time.Millisecond
	}
	byCount, largest := false, 0
	var pending []int // spans that are not in a batch yet
	unsure := time.Duration(-1)
	last := 0
	for i, s := range sends {
		t := accepted[i]
		left := pending[:0]
		for _, k := range pending {
			if submitted[k] >= t {
				left = append(left, k)
			}
		}
		pending = left
		if tick := t / (2 * time.Second) * (2 * time.Second); len(pending) > 0 && tick+delay > t && burst {
			// a batch that was formed by time may be waiting behind others
			unsure = t + delay
		}
		for range s.Trace {
			last++
			at := submitted[last]
			if at < 0 {
				return fmt.Errorf("span %d of a trace with %d spans that was handed over after %s was not submitted", last, len(s.Trace), t)
			}
			if at < t || at > t+4060*time.Millisecond+delay {
				return fmt.Errorf("span %d was handed over after %s and submitted after %s", last, t, at)
			}
			pending = append(pending, last)
		}
		largest = max(largest, len(pending))
		if len(pending) >= 1000 && t <= unsure {
			unsure = t + delay
		} else if len(pending) >= 1000 {
			byCount = true
			for _, k := range pending {
				if submitted[k] > t+delay {
					return fmt.Errorf("%d spans were pending after %s, but one of them was submitted only after %s", len(pending), t, submitted[k])
				}
			}
			pending = pending[:0]
		}
	}
	failed := false
	for i := range calls {
		failed = failed || c.Fail[i%len(c.Fail)] && i+1 < len(calls)
	}
	e.LabelIf(byCount, "1000 pending spans")
	e.LabelIf(largest > 900 && !byCount, "nearly 1000 pending spans")
	e.LabelIf(failed, "failed submissions before others")
	e.LabelIf(len(calls) > 3, "more than 3 submissions")
	e.LabelIf(id > 4096, "more than 4096 spans")
	queued := 0
	for i := 1; i < len(calls); i++ {
		if calls[i].At == calls[i-1].Done && calls[i].At%(50*time.Millisecond) != 25*time.Millisecond {
			queued++
		}
	}
	e.LabelIf(queued > 0, "batches that waited for the one before")
	for _, call := range calls {
		e.LabelIf(len(call.Groups) > 1, "several traces in a submission")
	}
	e.NonTrivialIf(len(calls) > 1)
	return nil
}

func TestCheck(t *testing.T) {
	engine.Main(t, "P19", engine.New("prompt", 20000, 1000000, draw, run))
}
