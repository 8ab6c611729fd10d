package p29

import (
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"verifharness/engine"
	"verifharness/kafka"
	"verifharness/prog"
)

// programCase is what clients send in each phase.
type programCase struct {
	prog.Case
	Kafka, Fresh bool
}

func drawProgram(rt *rapid.T) programCase {
	c := programCase{Case: prog.Draw(rt, rapid.SampledFrom([]int{50, 300, 600}).Draw(rt, "most"), 300, 6000, 4, false)}
	c.Fresh = rapid.Bool().Draw(rt, "fresh")
	c.Kafka = rapid.IntRange(0, 2).Draw(rt, "kafka") == 0
	// enough to fill the recent spans, and a client of every kind
	for i := range c.Clients {
		c.Clients[i][0].Spans = max(c.Clients[i][0].Spans, 3000/len(c.Clients))
		c.Clients[i][0].Broken = prog.Good
	}
	return c
}

func runProgram(e *engine.Env, c programCase) error {
	dir, err := os.MkdirTemp("", "held")
	if err != nil {
		return engine.HarnessError(err)
	}
	defer os.RemoveAll(dir)
	socket := filepath.Join(dir, "stats")
	var args []string
	if c.Kafka {
		g := &kafka.Group{Topic: "zipkin-spans", Name: "zipkin-proxy", Members: 1}
		broker, err := kafka.Serve(0, g)
		if err != nil {
			return engine.HarnessError(err)
		}
		defer broker.Close()
		args = append(args, "--kafka-disable-tls", "--kafka-address", broker.Addr())
	}
	p, err := prog.StartEnv([]string{"VF_STATS=" + socket}, args...)
	if err != nil {
		return err
	}
	defer p.Close()
	e.LabelIf(c.Kafka, "with Kafka")
	e.LabelIf(c.Fresh, "strings are new")
	good := 1
	for _, reqs := range c.Clients {
		for _, r := range reqs {
			if r.Broken == prog.Good {
				good += r.Spans
			}
		}
	}
	limit := 3<<19 + 6*c.Total()*1000
	if c.Fresh {
		// make the cache of strings as full as it gets
		var b strings.Builder
		b.WriteString(`[{"traceId":"f00","id":"f00","name":"n","timestamp":1600000000000000,"tags":{`)
		for i := range 120000 {
			fmt.Fprintf(&b, `"filling the cache with strings, this is number %d":"",`, i)
		}
		b.WriteString(`"end":""}}]`)
		client := p.NewClient()
		_ = client.Send(prog.Sent{Path: "/api/v2/spans", Header: http.Header{"Content-Type": {"application/json"}}, Body: []byte(b.String())})
		client.Close()
		limit += 6 * good * 100
	}
	n, spans, broken := 0, 0, 0
	work := func(int) error {
		var clients [][]prog.Sent
		for _, reqs := range c.Clients {
			var list []prog.Sent
			for _, r := range reqs {
				n++
				r.Fresh = c.Fresh
				s := r.Render(n)
				if c.Fresh {
					s.Header.Set("User-Agent", fmt.Sprintf("client/%d", n))
					s.Header.Set("X-Request-Id", fmt.Sprintf("request-%d", n))
					s.Path += fmt.Sprintf("?n=%d", n)
				}
				spans += len(s.Want)
				if r.Broken != prog.Good {
					broken++
				}
				list = append(list, s)
			}
			clients = append(clients, list)
		}
		var wg sync.WaitGroup
		for _, reqs := range clients {
			wg.Add(1)
			go func() {
				defer wg.Done()
				client := p.NewClient()
				defer client.Close()
				for _, r := range reqs {
					_ = client.Send(r) // answers are the matter of another property
				}
			}()
		}
		wg.Wait()
		return p.Check()
	}
	e.NonTrivialIf(c.Total() > 1)
	measure := func() (h prog.Held, err error) {
		// until everything is through
		last, same := prog.Held{}, 0
		time.Sleep(10 * time.Second)
		for deadline := time.Now().Add(15 * time.Second); same < 3 && time.Now().Before(deadline); time.Sleep(300 * time.Millisecond) {
			if h, err = p.ReadHeld(socket); err != nil {
				return h, err
			}
			if h.Goroutines == last.Goroutines && h.Files == last.Files {
				same++
			} else {
				same = 0
			}
			last = h
		}
		return h, nil
	}
	// the recent spans have to be full
	warm := min(1+2100/good, 40)
	err = steady(e, warm, 6, limit, 5, measure, work)
	e.Count("requests", n)
	e.Count("broken requests", broken)
	e.Count("spans", spans)
	if err != nil {
		err = fmt.Errorf("%w, after %d requests (%d broken) with %d spans", err, n, broken, spans)
	}
	return err
}

func smaller(c programCase, fails func([]programCase) int) programCase {
	c.Case = prog.Smaller(c.Case, func(list []prog.Case) int {
		var candidates []programCase
		for _, d := range list {
			candidates = append(candidates, programCase{d, c.Kafka, c.Fresh})
		}
		return fails(candidates)
	})
	return c
}
