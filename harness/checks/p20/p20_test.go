package p20

import (
	"fmt"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/dd"
	"verifharness/engine"
)

type handed struct {
	After int // steps of 50 ms since the one before
	Size  int
	Bulk  int `json:",omitempty"` // so many further ones
}

type slowCase struct {
	Traces  []handed
	Latency []int // of answers in ms
	// times without an answer, in steps of 50 ms
	Outages [][2]int
	Fail    []bool
	Never   bool `json:",omitempty"` // no answer from the first outage on
}

func draw(rt *rapid.T) slowCase {
	var c slowCase
	// mostly each trace is a batch
	sizes := rapid.SampledFrom([][]int{{1000, 1200}, {1000, 1001, 2000}, {1000, 300, 1}, {1, 50}, {500, 400}}).Draw(rt, "sizes")
	total := 0
	for range rapid.IntRange(1, 12).Draw(rt, "traces") {
		h := handed{Size: rapid.SampledFrom(sizes).Draw(rt, "size"), After: rapid.IntRange(1, 60).Draw(rt, "after")}
		if rapid.IntRange(0, 2).Draw(rt, "several") > 0 {
			h.Bulk = rapid.IntRange(1, 14).Draw(rt, "bulk")
		}
		total += h.After + h.Bulk
		c.Traces = append(c.Traces, h)
	}
	c.Latency = rapid.SliceOfN(rapid.SampledFrom([]int{0, 10, 60, 120, 1010, 5010}), 1, 4).Draw(rt, "latency")
	c.Fail = rapid.SliceOfN(rapid.Bool(), 1, 4).Draw(rt, "fail")
	at := 0
	for range rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(rt, "outages") {
		at += rapid.IntRange(0, total/2).Draw(rt, "from")
		o := [2]int{at, at + rapid.IntRange(1, total+20).Draw(rt, "for")}
		at = o[1]
		c.Outages = append(c.Outages, o)
	}
	c.Never = rapid.IntRange(0, 3).Draw(rt, "never") == 3
	return c
}

func run(e *engine.Env, c slowCase) error {
	var sends []dd.Send
	var sendOf []int // by span id
	sendOf = append(sendOf, -1)
	at, id := 25, 0
	for _, h := range c.Traces {
		for b := range h.Bulk + 1 {
			if b > 0 {
				h.After = 1
			}
			at += 50 * h.After
			var trace proxy.Trace
			for range h.Size {
				id++
				trace = append(trace, proxy.Span{Id: proxy.Id(id), Trace: proxy.Id(1 + len(sends)), Name: "n", Service: "s", Timestamp: proxy.Timestamp(id), Duration: 1000,
					Tags: map[string]string{"id": fmt.Sprint(id)}})
				sendOf = append(sendOf, len(sends))
			}
			sends = append(sends, dd.Send{At: at, Trace: trace})
		}
	}
	agent := dd.Agent{Fail: c.Fail}
	end := at + 20000
	for _, l := range c.Latency {
		if l > 0 {
			l++ // not at the time of a flush
		}
		agent.Latency = append(agent.Latency, l)
	}
	for i, o := range c.Outages {
		from, to := 50*o[0], 50*o[1]+11
		if c.Never && i == 0 {
			to = end + 1000
		}
		agent.Outages = append(agent.Outages, [2]int{from, to})
		end = max(end, to+20000)
		if c.Never {
			break
		}
	}
	if c.Never {
		end = at + 20000 // it answers after the input was closed only
	}
	accepted, calls, err := dd.Run(e, sends, agent, end)
	if err != nil {
		return err
	}
	for i, s := range sends {
		if d := accepted[i] - time.Duration(s.At)*time.Millisecond; d > 0 {
			return fmt.Errorf("trace %d was accepted only after %s", i, d)
		}
	}
	seen := make([]bool, len(sends))
	starts := make([]time.Duration, len(sends)) // of the submission of each trace
	callOf := make([]int, len(sends))
	submittedTraces := 0
	lastTrace := -1
	for n, call := range calls {
		if err := call.Shape(); err != nil {
			return fmt.Errorf("submission %d: %v", n, err)
		}
		counts := map[int]int{}
		lo, hi := len(sends), -1
		for _, s := range call.Spans() {
			if s.SpanID < 1 || s.SpanID > uint64(id) {
				return fmt.Errorf("submission %d has an unknown span %+v", n, s)
			}
			k := sendOf[s.SpanID]
			if seen[k] {
				return fmt.Errorf("spans of trace %d were submitted twice", k)
			}
			if want := dd.Want(sends[k].Trace[int(s.SpanID)-int(sends[k].Trace[0].Id)]); !dd.Equal(s, want) {
				return fmt.Errorf("submission %d has span %+v instead of %+v", n, s, want)
			}
			counts[k]++
			lo, hi = min(lo, k), max(hi, k)
		}
		for k := lo; k <= hi; k++ {
			if counts[k] != len(sends[k].Trace) {
				return fmt.Errorf("submission %d has %d of %d spans of trace %d, others of the traces %d to %d", n, counts[k], len(sends[k].Trace), k, lo, hi)
			}
			seen[k] = true
			starts[k], callOf[k] = call.At, n
			submittedTraces++
		}
		if lo <= lastTrace {
			return fmt.Errorf("submission %d has the traces %d to %d, but trace %d was submitted before", n, lo, hi, lastTrace)
		}
		lastTrace = hi
	}
	// what is missing was discarded, which must not happen before eight batches are waiting
	discarded, most := 0, 0
	for k := range sends {
		if seen[k] {
			continue
		}
		discarded++
		if k > 0 && !seen[k-1] {
			// it may be part of the same batch as the trace before
			if len(sends[k].Trace) < 1000 {
				continue
			}
		}
		waiting := map[int]bool{}
		for o := range k {
			// at the very time it is unknown which happened first
			if seen[o] && starts[o] >= accepted[k] {
				waiting[callOf[o]] = true
			}
		}
		most = max(most, len(waiting))
		if len(waiting) < 8 {
			return fmt.Errorf("trace %d, handed over after %s, was not submitted although only %d batches were waiting then", k, accepted[k], len(waiting))
		}
	}
	e.LabelIf(discarded > 0, "discarded batches")
	e.LabelIf(discarded > 0 && seen[len(sends)-1], "submissions after discarded batches")
	queued := 0
	for k := range sends {
		if seen[k] && starts[k] > accepted[k]+5*time.Second {
			queued++
		}
	}
	e.LabelIf(queued > 0, "submissions that waited")
	e.LabelIf(c.Never && len(c.Outages) > 0, "no answer at all")
	e.NonTrivialIf(queued > 0 || discarded > 0)
	return nil
}

func TestCheck(t *testing.T) {
	engine.Main(t, "P20", engine.New("slow", 5000, 250000, draw, run))
}
