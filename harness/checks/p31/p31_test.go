package p31

import (
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verifharness/engine"
	"verifharness/prog"
)

type routesCase struct {
	Spans prog.Case
	Own   [][]prog.Own // per client
}

func draw(rt *rapid.T) routesCase {
	c := routesCase{Spans: prog.Draw(rt, 60, 60, 5000, 3, false)}
	for i, reqs := range c.Spans.Clients {
		for k := range reqs {
			r := &reqs[k]
			if r.Broken == prog.Disconnect {
				r.Broken = prog.Truncated
			}
			if r.Mid = rapid.IntRange(prog.Pass, prog.Block).Draw(rt, "mid"); i == 0 && k == 0 {
				r.Mid = prog.Pass
			}
		}
	}
	for range rapid.IntRange(1, 4).Draw(rt, "ownClients") {
		c.Own = append(c.Own, rapid.SliceOfN(rapid.Custom(prog.DrawOwn), 1, 20).Draw(rt, "own"))
	}
	return c
}

func run(e *engine.Env, c routesCase) error {
	clients := c.Spans.Render()
	spans := c.Spans.Count(e, clients)
	mids := map[int]string{prog.Pass: "passed on", prog.Peek: "body read before", prog.Block: "not passed on"}
	compressed := 0
	for _, reqs := range c.Spans.Clients {
		for _, r := range reqs {
			e.Count("requests "+mids[r.Mid], 1)
		}
	}
	for _, reqs := range c.Own {
		e.Count("requests to own routes", len(reqs))
		for _, r := range reqs {
			if r.Gzip && r.Mid != prog.Block {
				compressed++
			}
		}
	}
	e.Count("compressed requests to own routes", compressed)
	e.NonTrivialIf(c.Spans.Total() > 1 && spans > 0 && compressed > 0)
	p, err := prog.StartEnv([]string{"VF_ROUTES=1"})
	if err != nil {
		return err
	}
	defer p.Close()
	errs := make([]error, len(c.Own))
	var wg sync.WaitGroup
	for i, reqs := range c.Own {
		wg.Add(1)
		go func() {
			defer wg.Done()
			client := p.NewClient()
			defer client.Close()
			for _, r := range reqs {
				if errs[i] = client.SendOwn(r); errs[i] != nil {
					return
				}
			}
		}()
	}
	last, err := p.SendAll(clients)
	wg.Wait()
	if e := p.Check(); e != nil {
		return e
	}
	for _, err := range append(errs, err) {
		if err != nil {
			return err
		}
	}
	if err := p.Wait(spans, 0, last, 9*time.Second, 40*time.Second); err != nil {
		return err
	}
	return prog.CheckCalls(p.Calls(), clients)
}

// smaller finds a smaller failing case.
func smaller(c routesCase, fails func([]routesCase) int) routesCase {
	one := prog.Case{Clients: [][]prog.Req{{c.Spans.Clients[0][0]}}}
	candidates := []routesCase{{Spans: c.Spans}}
	for _, reqs := range c.Own {
		for k := range reqs {
			candidates = append(candidates, routesCase{one, [][]prog.Own{reqs[k : k+1]}})
		}
	}
	candidates = candidates[:min(len(candidates), 32)]
	switch i := fails(candidates); i {
	case -1:
		return c
	case 0:
		spans := prog.Smaller(c.Spans, func(cs []prog.Case) int {
			var list []routesCase
			for _, s := range cs {
				list = append(list, routesCase{Spans: s})
			}
			return fails(list)
		})
		return routesCase{Spans: spans}
	default:
		return candidates[i]
	}
}

func TestCheck(t *testing.T) {
	sub := engine.New("routes", 64, 1000, draw, run).Timeout(200 * time.Second)
	engine.Main(t, "P31", engine.Reduce(sub, smaller))
}
