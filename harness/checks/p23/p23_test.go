package p23

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"

	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/engine"
	"verifharness/gen"
)

type bufferCase struct {
	Capacity int
	// sizes of the traces
	Traces  []int
	Readers int `json:",omitempty"`
}

func span(n int) proxy.Span {
	return proxy.Span{
		Id: proxy.Id(n + 1), Trace: proxy.Id(n*7 + 1), Parent: proxy.Id(n), Name: fmt.Sprint("span ", n), Service: "s",
		Timestamp: proxy.Timestamp(n * 1000), Duration: 5, Tags: map[string]string{"n": fmt.Sprint(n)},
	}
}

func draw(rt *rapid.T) bufferCase {
	c := bufferCase{Capacity: rapid.SampledFrom([]int{1, 2, 3, 4, 5, 7, 8, 16, 100}).Draw(rt, "capacity")}
	size := rapid.SampledFrom([]int{1, 3, c.Capacity + 1, 3*c.Capacity + 1}).Draw(rt, "size")
	c.Traces = rapid.SliceOfN(rapid.IntRange(0, size), 0, 20).Draw(rt, "traces")
	return c
}

func check(got []proxy.Span, received, capacity int) error {
	from := max(0, received-capacity)
	var want []proxy.Span
	for n := from; n < received; n++ {
		want = append(want, span(n))
	}
	return gen.CompareAll(got, want)
}

func run(e *engine.Env, c bufferCase) error {
	buffer := zipkinproxy.NewSpansBuffer(uint(c.Capacity))
	ch := make(chan proxy.Trace)
	done := make(chan error, 1)
	go func() {
		done <- engine.Protect(func() error { buffer.ReadFrom(ch); return nil })
	}()
	n := 0
	for i, size := range c.Traces {
		var trace proxy.Trace
		for range size {
			trace = append(trace, span(n))
			n++
		}
		select {
		case ch <- trace:
		case err := <-done:
			return fmt.Errorf("ReadFrom stopped: %v", err)
		}
		// an empty trace is accepted only after this one was processed
		select {
		case ch <- nil:
		case err := <-done:
			return fmt.Errorf("ReadFrom stopped: %v", err)
		}
		for range 2 {
			if err := check(buffer.ToSlice(), n, c.Capacity); err != nil {
				return fmt.Errorf("after trace %d, %d spans, capacity %d: %v", i, n, c.Capacity, err)
			}
		}
	}
	close(ch)
	if err := <-done; err != nil {
		return err
	}
	e.LabelIf(n > c.Capacity, "wrapped")
	e.LabelIf(n > 3*c.Capacity, "wrapped several times")
	e.LabelIf(c.Capacity == 1, "capacity 1")
	e.NonTrivialIf(n > c.Capacity)
	return check(buffer.ToSlice(), n, c.Capacity)
}

func runConcurrent(e *engine.Env, c bufferCase) error {
	buffer := zipkinproxy.NewSpansBuffer(uint(c.Capacity))
	ch := make(chan proxy.Trace)
	var stop atomic.Bool
	var offered, processed atomic.Int64
	var wg sync.WaitGroup
	errs := make([]error, c.Readers)
	for r := range c.Readers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[r] = engine.Protect(func() error {
				last := 0
				for !stop.Load() {
					atLeast := max(last, int(processed.Load()))
					got := buffer.ToSlice()
					atMost := int(offered.Load())
					if len(got) == 0 {
						if atLeast > 0 {
							return fmt.Errorf("no spans, although %d were received", atLeast)
						}
						continue
					}
					end := int(got[len(got)-1].Id)
					if end < atLeast || end > atMost {
						return fmt.Errorf("last span is %d, must be between %d and %d", end, atLeast, atMost)
					}
					if err := check(got, end, c.Capacity); err != nil {
						return err
					}
					last = end
				}
				return nil
			})
		}()
	}
	done := make(chan error, 1)
	go func() {
		done <- engine.Protect(func() error { buffer.ReadFrom(ch); return nil })
	}()
	n := 0
	for range 10 {
		for _, size := range c.Traces {
			var trace proxy.Trace
			for range size {
				trace = append(trace, span(n))
				n++
			}
			offered.Store(int64(n))
			for _, t := range []proxy.Trace{trace, nil} {
				select {
				case ch <- t:
				case err := <-done:
					stop.Store(true)
					wg.Wait()
					return fmt.Errorf("ReadFrom stopped: %v", err)
				}
			}
			processed.Store(int64(n))
		}
	}
	stop.Store(true)
	wg.Wait()
	close(ch)
	if err := <-done; err != nil {
		return err
	}
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	e.NonTrivialIf(n > c.Capacity)
	return check(buffer.ToSlice(), n, c.Capacity)
}

func TestCheck(t *testing.T) {
	engine.Main(t, "P23",
		engine.New("sequence", 15000, 500000, draw, run),
		engine.New("concurrent", 1500, 50000, func(rt *rapid.T) bufferCase {
			c := draw(rt)
			c.Readers = rapid.IntRange(1, 4).Draw(rt, "readers")
			return c
		}, runConcurrent).Repeat(30),
	)
}
