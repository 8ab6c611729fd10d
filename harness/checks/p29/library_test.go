package p29

import (
	"bytes"
	"errors"
	"fmt"
	"math/bits"
	"net/http"
	"strconv"
	"testing"
	"time"

	"github.com/DataDog/dd-trace-go/tracer"
	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/cache"
	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/datadog"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/avro"
	"verifharness/engine"
	"verifharness/gen"
	"verifharness/prog"
)

// ---- documents

type docsCase struct {
	Reqs  []prog.Req
	Fresh bool
}

func drawDocs(rt *rapid.T) docsCase {
	c := docsCase{Fresh: rapid.Bool().Draw(rt, "fresh")}
	for range rapid.IntRange(1, 8).Draw(rt, "documents") {
		r := prog.DrawReq(rt, 40, 3, false)
		if r.Broken != prog.Good && r.Broken != prog.BadValue {
			r.Broken = prog.Truncated
		}
		r.Fresh = c.Fresh
		c.Reqs = append(c.Reqs, r)
	}
	return c
}

func runDocs(e *engine.Env, c docsCase) error {
	spans, rejected, n := 0, 0, 0
	work := func(phase int) error {
		for range 160 / len(c.Reqs) {
			for _, r := range c.Reqs {
				n++
				doc := r.Render(n).Document
				size := int(r.Pos % 5000)
				if r.Close || size == 0 {
					size = len(doc) + 1
				}
				got, err := gen.Parse(r.Format, gen.NewReader(doc, gen.Chunks{Sizes: []int{size}}))
				if err != nil {
					rejected++
				}
				spans += len(got)
			}
		}
		return nil
	}
	limit := 64<<10 + 5*160*8
	if c.Fresh {
		// the strings in the cache have another length than those before
		filled := 0
		fill(&filled)
		limit += 256 << 10
		for _, r := range c.Reqs {
			limit += 5 * 160 / len(c.Reqs) * r.Spans * 120
		}
	}
	err := steady(e, 2, 5, limit, 4, measure, work)
	e.LabelIf(c.Fresh, "strings are new")
	e.Count("documents", n)
	e.Count("rejected documents", rejected)
	e.Count("spans", spans)
	e.NonTrivialIf(spans > 0)
	return err
}

// ---- collector

type collectorCase struct {
	Small, Reorder, NoRoot, Orphans int // traces
	PerTrace                        int
	TooOld, TooLarge, Late, Invalid int
	Overload, Fresh                 bool
}

func drawCollector(rt *rapid.T) collectorCase {
	num := func(label string, max int) int {
		switch rapid.IntRange(0, 3).Draw(rt, label+" how") {
		case 0:
			return 0
		case 1:
			return rapid.IntRange(1, max).Draw(rt, label)
		}
		return max
	}
	c := collectorCase{PerTrace: rapid.SampledFrom([]int{1, 2, 3, 5}).Draw(rt, "perTrace")}
	c.Small = num("small", 8000/c.PerTrace)
	c.NoRoot = num("noRoot", 4000)
	c.Orphans = num("orphans", 3000)
	c.TooOld = num("tooOld", 5000)
	if rapid.IntRange(0, 3).Draw(rt, "only old") == 0 {
		c.Small, c.NoRoot, c.Orphans, c.TooOld = 10, 10, 10, 12000
	}
	c.TooLarge = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(rt, "tooLarge")
	c.Late = rapid.SampledFrom([]int{0, 1000, 10000}).Draw(rt, "late")
	c.Invalid = rapid.SampledFrom([]int{0, 0, 10000}).Draw(rt, "invalid")
	c.Fresh = rapid.Bool().Draw(rt, "fresh")
	c.Overload = rapid.IntRange(0, 7).Draw(rt, "overload") == 0
	return c
}

func runCollector(e *engine.Env, c collectorCase) error {
	e.NonTrivialIf(c.Small+c.NoRoot+c.Orphans+c.TooOld+c.TooLarge > 100)
	e.LabelIf(c.TooOld > 0, "traces that become too old")
	e.LabelIf(c.TooLarge > 0, "traces that become too large")
	e.LabelIf(c.NoRoot+c.Orphans > 0, "traces without a root")
	e.LabelIf(c.Overload, "overload")
	e.LabelIf(c.Fresh, "strings are new")
	spans, forwarded := 0, 0
	err := engine.Bubble(e, func() error {
		in, out := make(chan proxy.Span), make(chan proxy.Trace)
		done := async(func() { zipkinproxy.ErrorCorrectSpans(in, out) })
		end := make(chan struct{})
		go func() {
			for trace := range out {
				forwarded += len(trace)
			}
			close(end)
		}()
		defer func() {
			close(in)
			<-done
			close(out)
			<-end
		}()
		id := uint64(0)
		span := func(trace, id, parent uint64) error {
			spans++
			s := proxy.Span{Trace: proxy.Id(trace), Id: proxy.Id(id), Parent: proxy.Id(parent), Name: "n", Service: "s", Timestamp: 1600000000e9, Duration: time.Second}
			if c.Fresh && id%2 == 1 {
				s.Name, s.Service = strconv.FormatUint(id, 10), strconv.FormatUint(id, 36)
				s.Tags = map[string]string{s.Name: s.Service}
			}
			return give(in, s, done)
		}
		work := func(int) error {
			next := func() uint64 { id++; return bits.Reverse64(id)>>8 | id<<56 | 1 }
			for range c.Small {
				trace := next()
				for i := range c.PerTrace {
					own, parent := trace, uint64(0)
					if i > 0 {
						own, parent = next(), trace
					}
					if err := span(trace, own, parent); err != nil {
						return err
					}
				}
			}
			for range c.NoRoot {
				if err := errors.Join(span(next(), next(), 0), span(id, next(), next())); err != nil {
					return err
				}
				trace := next()
				if err := errors.Join(span(trace, next(), next()), span(trace, next(), next())); err != nil {
					return err
				}
			}
			for range c.Orphans {
				trace := next()
				parent := next()
				if err := errors.Join(span(trace, next(), parent), span(trace, next(), parent)); err != nil {
					return err
				}
			}
			for range c.Invalid {
				if err := errors.Join(span(0, next(), 0), span(next(), 0, 0)); err != nil {
					return err
				}
			}
			for range c.TooLarge {
				trace := next()
				for i := range 8200 {
					if err := span(trace, trace+uint64(i), trace); err != nil {
						return err
					}
				}
			}
			var old []uint64
			for range c.TooOld {
				old = append(old, next())
			}
			if len(old) > 0 {
				// always too early to be complete
				for range 7 {
					for _, trace := range old {
						if err := span(trace, trace, 0); err != nil {
							return err
						}
					}
					time.Sleep(6950 * time.Millisecond)
				}
				for i := range c.Late {
					if err := span(old[i%len(old)], next(), 0); err != nil {
						return err
					}
				}
			}
			if c.Overload {
				for range 27 {
					trace := next()
					for i := range 4000 {
						if err := span(trace, trace+uint64(i), trace); err != nil {
							return err
						}
					}
				}
			}
			time.Sleep(20 * time.Second)
			return nil
		}
		traces := c.Small + 2*c.NoRoot + c.Orphans + c.TooOld
		// a map that is used for long gets larger by and by, but by less than three times this in all
		return steady(e, 2, 4, 64<<10+4*traces*3+12*max(c.Small, c.NoRoot, c.Orphans, c.TooOld), 4, measure, work)
	})
	e.Count("spans", spans)
	e.Count("forwarded spans", forwarded)
	return err
}

// ---- agent

type agentCase struct {
	Traces, PerTrace int
	Text             int
	Same, Fresh      bool // ids of traces, services
	Latency          int  // ms
	Fail             int  // every so many
	Pause            int
}

type forgetful struct {
	latency, fail, n int
}

func (t *forgetful) SendTraces(traces [][]*tracer.Span) (*http.Response, error) {
	t.n++
	time.Sleep(time.Duration(t.latency) * time.Millisecond)
	if t.fail > 0 && t.n%t.fail == 0 {
		return &http.Response{}, errors.New("agent failed")
	}
	return &http.Response{StatusCode: 200}, nil
}
func (t *forgetful) SendServices(map[string]tracer.Service) (*http.Response, error) {
	return &http.Response{StatusCode: 200}, nil
}
func (t *forgetful) SetHeader(key, value string) {}

func drawAgent(rt *rapid.T) agentCase {
	c := agentCase{PerTrace: rapid.SampledFrom([]int{0, 1, 1, 2, 5, 50, 700}).Draw(rt, "perTrace"), Same: rapid.IntRange(0, 2).Draw(rt, "same") == 0}
	c.Traces = 16384 / max(1, c.PerTrace)
	c.Text = rapid.SampledFrom([]int{0, 0, 0, 40, 300}).Draw(rt, "text")
	c.Latency = rapid.SampledFrom([]int{0, 1, 100, 1000, 10000, 200000}).Draw(rt, "latency")
	c.Fail = rapid.SampledFrom([]int{0, 1, 2, 3}).Draw(rt, "fail")
	c.Fresh = rapid.Bool().Draw(rt, "fresh")
	c.Pause = rapid.SampledFrom([]int{0, 100, 1000, 4000}).Draw(rt, "pause")
	return c
}

func runAgent(e *engine.Env, c agentCase) error {
	e.NonTrivialIf(c.PerTrace > 0)
	e.LabelIf(c.Latency > 1000, "batches are discarded")
	e.LabelIf(c.Fail > 0, "submissions fail")
	return engine.Bubble(e, func() error {
		traces := make(chan proxy.Trace)
		done := async(func() { datadog.Sink(&forgetful{latency: c.Latency, fail: c.Fail}, traces) })
		defer func() {
			close(traces)
			<-done
			time.Sleep(time.Hour)
		}()
		id := 0
		text := bytes.Repeat([]byte("x"), c.Text)
		work := func(int) error {
			for i := range c.Traces {
				var trace proxy.Trace
				for range c.PerTrace {
					id++
					s := proxy.Span{Id: proxy.Id(id), Trace: 1, Name: "n", Service: "s", Timestamp: 1, Duration: 1}
					if !c.Same {
						s.Trace = proxy.Id(1 + id/c.PerTrace)
					}
					if c.Fresh {
						s.Service = strconv.Itoa(id)
					}
					if c.Text > 0 {
						s.Name = fmt.Sprint(id, string(text))
						s.Tags = map[string]string{"k": fmt.Sprint("v", id, string(text))}
					}
					trace = append(trace, s)
				}
				if err := give(traces, trace, done); err != nil {
					return err
				}
				if c.Pause > 0 && i%(c.Traces/8+1) == 0 {
					time.Sleep(time.Duration(c.Pause) * time.Millisecond)
				}
			}
			// all that may wait is sent meanwhile
			time.Sleep(time.Duration(20*c.Latency+20000) * time.Millisecond)
			return nil
		}
		limit := 128<<10 + 4*16384
		if c.Fresh {
			limit += 16 * 4096
		}
		if c.Text > 0 {
			// spans may be kept as long as others that were allocated with them
			limit = 2<<20 + 3*4096*c.Text
		}
		return steady(e, 2, 5, limit, 4, measure, work)
	})
}

// ---- messages

type messagesCase struct {
	Spans []gen.Span
	Pad   int
	Cut   int // percent of the messages that end early
}

func drawMessages(rt *rapid.T) messagesCase {
	c := messagesCase{Pad: rapid.SampledFrom([]int{0, 0, 100, 1000, 20000}).Draw(rt, "pad"), Cut: rapid.SampledFrom([]int{0, 10, 50, 100}).Draw(rt, "cut")}
	text := func(label string) gen.Bin { return gen.Text(rt, label, 1) }
	for range rapid.IntRange(1, 10).Draw(rt, "spans") {
		c.Spans = append(c.Spans, gen.DrawSpan(rt, text, 8))
	}
	return c
}

// fill makes the cache of strings as full as it gets.
func fill(n *int) {
	for range 120000 {
		*n++
		cache.String(fmt.Sprintf("filling the cache with strings, this is number %d", *n))
	}
}

func runMessages(e *engine.Env, c messagesCase) error {
	e.NonTrivialIf(c.Cut < 100)
	e.LabelIf(c.Cut > 0, "messages that cannot be decoded")
	n, bad := 0, 0
	fill(&n)
	pad := string(bytes.Repeat([]byte("p"), c.Pad))
	work := func(int) error {
		// new strings, so that all others get out of the cache
		fill(&n)
		for i := range 4000 {
			if c.Pad > 5000 && i%10 > 0 {
				continue
			}
			s := gen.Clone(c.Spans[i%len(c.Spans)].Proxy(), true)
			n++
			s.Trace, s.Id = proxy.Id(n), proxy.Id(n)
			s.AddTag("number", fmt.Sprintf("the number of this span is %d", n))
			s.AddTag("pad", pad+fmt.Sprint(n))
			data := avro.Encode(nil, gen.FromProxy(s), nil)
			if i%2 == 0 {
				var err error
				if data, err = encode(s); err != nil {
					return err
				}
			}
			if n*7919%100 < c.Cut {
				data = data[:len(data)*(n%97)/97]
			}
			if _, err := codec.BinaryDecode(bytes.NewReader(data)); err != nil {
				bad++
			}
		}
		return nil
	}
	err := steady(e, 2, 4, 1<<20, 4, measure, work)
	e.Count("messages that were not decoded", bad)
	return err
}

func encode(s proxy.Span) ([]byte, error) {
	var b bytes.Buffer
	if err := codec.BinaryEncode(s, &b); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}

// ---- recent spans

type bufferCase struct {
	Capacity, Traces, PerTrace, Text int
	Read                             bool
}

func drawBuffer(rt *rapid.T) bufferCase {
	c := bufferCase{Capacity: rapid.SampledFrom([]int{1, 10, 300, 2048}).Draw(rt, "capacity"), PerTrace: rapid.IntRange(1, 200).Draw(rt, "perTrace"),
		Text: rapid.SampledFrom([]int{0, 100, 1000}).Draw(rt, "text"), Read: rapid.Bool().Draw(rt, "read")}
	c.Traces = 3000/c.PerTrace + 1
	return c
}

func runBuffer(e *engine.Env, c bufferCase) error {
	e.NonTrivialIf(c.PerTrace > 1)
	buffer := zipkinproxy.NewSpansBuffer(uint(c.Capacity))
	traces := make(chan proxy.Trace)
	done := async(func() { buffer.ReadFrom(traces) })
	defer func() {
		close(traces)
		<-done
	}()
	id := 100000
	text := bytes.Repeat([]byte("x"), c.Text)
	work := func(int) error {
		for range c.Traces {
			var trace proxy.Trace
			for range c.PerTrace {
				id++
				s := proxy.Span{Id: proxy.Id(id), Trace: proxy.Id(id / c.PerTrace)}
				if c.Text > 0 {
					s.Name = fmt.Sprint(id, string(text))
					s.Tags = map[string]string{"k": fmt.Sprint("v", id, string(text))}
				}
				trace = append(trace, s)
			}
			traces <- trace
			if c.Read && id/c.PerTrace%16 == 0 {
				_ = buffer.ToSlice()
			}
		}
		return nil
	}
	return steady(e, 2, 4, 64<<10+4*3000*4, 4, measure, work)
}

// ---- cache

type cacheCase struct {
	Length, Variance, Kind int
	Again                  bool
}

func drawCache(rt *rapid.T) cacheCase {
	return cacheCase{rapid.SampledFrom([]int{6, 7, 8, 12, 12, 20, 60, 300, 2000}).Draw(rt, "length"), rapid.SampledFrom([]int{1, 10, 100}).Draw(rt, "variance"),
		rapid.IntRange(0, 2).Draw(rt, "kind"), rapid.Bool().Draw(rt, "again")}
}

func runCache(e *engine.Env, c cacheCase) error {
	n := 0
	e.NonTrivial()
	pad := bytes.Repeat([]byte("-"), c.Length+c.Variance)
	count := 12 << 20 / (c.Length + c.Variance/2 + 56)
	look := func(i int) {
		s := strconv.AppendInt(nil, 36*36*36*36*36+int64(i), 36)
		s = append(s, pad[:c.Length-6+i%c.Variance]...)
		switch c.Kind {
		case 0:
			cache.String(string(s))
		case 1:
			cache.StringForByteSliceCopy(s)
		case 2:
			cache.StringForByteSliceNoCopy(s)
		}
	}
	work := func(int) error {
		for range count {
			n++
			look(n)
			if c.Again {
				look(n - n%20)
			}
		}
		return nil
	}
	e.Count("strings", count)
	err := steady(e, 3, 4, 3<<19+2*count, 4, measure, work)
	e.Count("looked up", n)
	return err
}

func TestCheck(t *testing.T) {
	engine.Main(t, "P29",
		engine.New("documents", 48, 1600, drawDocs, runDocs),
		engine.New("collector", 48, 1600, drawCollector, runCollector).Timeout(120*time.Second),
		engine.New("agent", 96, 3200, drawAgent, runAgent),
		engine.New("messages", 32, 1000, drawMessages, runMessages),
		engine.New("consumer", 48, 1600, drawConsumer, runConsumer),
		engine.New("buffer", 64, 3200, drawBuffer, runBuffer),
		engine.New("cache", 32, 1000, drawCache, runCache),
		engine.Reduce(engine.New("program", 16, 320, drawProgram, runProgram).Timeout(300*time.Second), smaller),
	)
}
