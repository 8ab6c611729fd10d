package p24

import (
	"testing"
	"time"

	"pgregory.net/rapid"

	"verifharness/engine"
	"verifharness/prog"
)

func draw(rt *rapid.T) prog.Case {
	c := prog.Draw(rt, 500, 300, 30000, 4, false)
	// some are large
	for range rapid.IntRange(0, 2).Draw(rt, "large") {
		client := c.Clients[rapid.IntRange(0, len(c.Clients)-1).Draw(rt, "largeClient")]
		r := &client[rapid.IntRange(0, len(client)-1).Draw(rt, "largeRequest")]
		size := int(rapid.SampledFrom([]float64{0.2, 0.6, 1.1, 2.3, 4.5, 9, 12}).Draw(rt, "largeSize") * 1000000)
		if rapid.Bool().Draw(rt, "space") {
			r.Space = size
		} else {
			r.Large = size
		}
	}
	return c
}

func run(e *engine.Env, c prog.Case) error {
	clients := c.Render()
	spans := c.Count(e, clients)
	e.NonTrivialIf(c.Total() > 1 && spans > 0)
	p, err := prog.Start()
	if err != nil {
		return err
	}
	defer p.Close()
	last, err := p.SendAll(clients)
	if err != nil {
		return err
	}
	if err := p.Wait(spans, 0, last, 9*time.Second, 40*time.Second); err != nil {
		return err
	}
	return prog.CheckCalls(p.Calls(), clients)
}

func TestCheck(t *testing.T) {
	sub := engine.New("requests", 96, 1600, draw, run).Timeout(200 * time.Second)
	engine.Main(t, "P24", engine.Reduce(sub, prog.Smaller))
}
