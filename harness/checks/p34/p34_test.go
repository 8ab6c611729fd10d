package p34

import (
	"context"
	"fmt"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/dd"
	"verifharness/engine"
	"verifharness/gen"
	"verifharness/prog"
)

type faultCase struct {
	// sent while the agent has its faults, and around the end of them
	During, After prog.Case
	Faults        []prog.Fault
	// how long the faults go on after all spans were processed
	MoreMs int
	// how much earlier or later than their end the rest is sent
	LateMs int
}

func drawFault(rt *rapid.T) prog.Fault {
	f := prog.Fault{Mode: rapid.SampledFrom([]string{prog.AgentRefuse, prog.AgentStatus, prog.AgentStatus, prog.AgentReset, prog.AgentHalfway,
		prog.AgentGarbage, prog.AgentHang, prog.AgentHang, prog.AgentStall, prog.AgentSlow}).Draw(rt, "mode")}
	switch f.Mode {
	case prog.AgentStatus:
		f.Arg = rapid.SampledFrom([]int{500, 503, 400, 404, 415, 429, 413, 502, 204, 401}).Draw(rt, "status")
	case prog.AgentHalfway:
		f.Arg = rapid.SampledFrom([]int{0, 1, 100, 5000, 100000}).Draw(rt, "bytes")
	case prog.AgentSlow:
		f.Arg = rapid.IntRange(50, 600).Draw(rt, "delay")
	default:
		f.Arg = rapid.IntRange(0, 11).Draw(rt, "arg")
	}
	f.Ms = rapid.SampledFrom([]int{300, 1000, 2500, 7000}).Draw(rt, "ms")
	return f
}

func draw(rt *rapid.T) faultCase {
	size := rapid.SampledFrom([]int{5, 50, 300, 1500}).Draw(rt, "size")
	c := faultCase{During: prog.Draw(rt, max(3, max(1500/size, 12)), size, 6000, 1, true)}
	size = rapid.SampledFrom([]int{5, 50, 300}).Draw(rt, "sizeAfter")
	c.After = prog.Draw(rt, 12, size, 1500, 1, true)
	for i, reqs := range c.After.Clients {
		for j := range reqs {
			c.After.Clients[i][j].Shared = false
		}
	}
	for range rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(rt, "faults") {
		c.Faults = append(c.Faults, drawFault(rt))
	}
	c.MoreMs = rapid.SampledFrom([]int{3500, 2700, 4500, 6000, 0, 700}).Draw(rt, "more")
	c.LateMs = rapid.SampledFrom([]int{0, -1000, -3000, 300, 2000}).Draw(rt, "late")
	return c
}

type key struct{ trace, id uint64 }

// wanted are the converted spans.
func wanted(want map[key]proxy.Span, clients [][]prog.Sent) {
	for _, reqs := range clients {
		for _, r := range reqs {
			for _, s := range r.Want {
				s, err := prog.Convert(gen.Clone(s, true))
				if err == nil && s.Id != 0 && s.Trace != 0 {
					want[key{uint64(s.Trace), uint64(s.Id)}] = s
				}
			}
		}
	}
}

func run(e *engine.Env, c faultCase) error {
	during := c.During.Render()
	after := c.After.RenderFrom(c.During.Total() + 1)
	spans := c.During.Count(e, during)
	more := c.After.Count(e, after)
	must, may := map[key]proxy.Span{}, map[key]proxy.Span{}
	wanted(may, during)
	wanted(must, after)

	p, err := prog.StartFaulty(c.Faults[0], []string{"VF_SERIAL=1"})
	if err != nil {
		return err
	}
	defer p.Close()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	failed := make(chan error, 1)
	go func() { failed <- p.Faults(ctx, c.Faults) }()

	last, err := p.SendAll(during)
	if err != nil {
		return fmt.Errorf("while the agent does not work well: %w", err)
	}
	if err := p.Wait(spans, 0, last, 0, 60*time.Second); err != nil {
		return err
	}
	if n := len(p.Calls()); n < spans {
		return fmt.Errorf("while the agent does not work well, %d of %d spans are processed only", n, spans)
	}
	// later spans are as good as ever as soon as the agent is
	time.Sleep(time.Duration(c.MoreMs) * time.Millisecond)
	if _, err := p.Page(); err != nil {
		return fmt.Errorf("while the agent does not work well: %w", err)
	}
	recover := func() error {
		cancel()
		return <-failed
	}
	if c.LateMs >= 0 {
		if err := recover(); err != nil {
			return err
		}
		time.Sleep(time.Duration(c.LateMs) * time.Millisecond)
	}
	begin := time.Now()
	sent := make(chan error, 1)
	go func() {
		var err error
		last, err = p.SendAll(after)
		sent <- err
	}()
	if c.LateMs < 0 {
		time.Sleep(time.Duration(-c.LateMs) * time.Millisecond)
		if time.Since(begin) > 5*time.Second {
			return nil // this machine is too slow
		}
		if err := recover(); err != nil {
			return err
		}
	}
	if err := <-sent; err != nil {
		return err
	}
	if err := wait(p, spans+more, must, last); err != nil {
		return err
	}
	faulted := 0
	for mode, n := range p.Faulted() {
		e.Count("requests of the agent: "+mode, n)
		faulted += n
	}
	e.LabelIf(c.Faults[0].Mode == prog.AgentRefuse, "no agent at the start")
	e.LabelIf(c.LateMs < 0, "sent before the end of the faults")
	e.NonTrivialIf(len(must) > 0 && len(may) > 0 && (faulted > 0 || c.Faults[0].Mode == prog.AgentRefuse && c.MoreMs > 2500))

	if err := prog.CheckCalls(p.Calls(), append(during, after...)); err != nil {
		return err
	}
	submitted, _ := p.Submitted()
	seen := map[key]bool{}
	for _, trace := range submitted {
		for _, s := range trace {
			k := key{s.TraceID, s.SpanID}
			w, ok := must[k]
			if !ok {
				w, ok = may[k]
			}
			if !ok {
				return fmt.Errorf("the agent got a span that the converter did not return: %+v", s)
			}
			if seen[k] {
				return fmt.Errorf("the agent accepted a span twice: %+v", s)
			}
			seen[k] = true
			if w := dd.Want(w); !dd.Equal(s, w) {
				return fmt.Errorf("the agent got\n  %+v, want\n  %+v", s, w)
			}
		}
	}
	missing := 0
	var example proxy.Span
	for k, w := range must {
		if !seen[k] {
			missing++
			example = w
		}
	}
	if p.CutOff() && missing > 0 {
		e.Label("this machine was too slow")
	} else if missing > 0 {
		return fmt.Errorf("the agent works well again, but did not get %d of %d spans, such as %s", missing, len(must), gen.Describe(example))
	}
	return nil
}

// wait waits until all spans were processed and those of after are submitted.
func wait(p *prog.Program, calls int, must map[key]proxy.Span, last time.Time) error {
	deadline := time.Now().Add(50 * time.Second)
	for time.Now().Before(deadline) {
		if err := p.Wait(calls, 0, last, 9*time.Second, 50*time.Second); err != nil {
			return err
		}
		submitted, _ := p.Submitted()
		n := 0
		for _, trace := range submitted {
			for _, s := range trace {
				if _, ok := must[key{s.TraceID, s.SpanID}]; ok {
					n++
				}
			}
		}
		if n >= len(must) {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	// what is submitted twice may follow
	return p.Wait(0, 0, time.Now(), 300*time.Millisecond, time.Second)
}

func TestCheck(t *testing.T) {
	sub := engine.New("agent-faults", 96, 1200, draw, run).Timeout(300 * time.Second)
	engine.Main(t, "P34", engine.Reduce(sub, func(c faultCase, fails func([]faultCase) int) faultCase {
		try := func(list []faultCase) bool {
			i := fails(list)
			if i >= 0 {
				c = list[i]
			}
			return i >= 0
		}
		for len(c.Faults) > 1 {
			var list []faultCase
			for _, f := range c.Faults {
				d := c
				d.Faults = []prog.Fault{f}
				list = append(list, d)
			}
			if !try(list) {
				break
			}
		}
		c.During = prog.Smaller(c.During, func(cs []prog.Case) int {
			var list []faultCase
			for _, x := range cs {
				d := c
				d.During = x
				list = append(list, d)
			}
			return fails(list)
		})
		one := c
		one.After = prog.Case{Clients: [][]prog.Req{c.After.Clients[0][:1]}}
		try([]faultCase{one})
		return c
	}))
}
