package prog

import (
	"fmt"
	"sync"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/engine"
	"verifharness/gen"
)

// Case is what clients do at the same time.
type Case struct{ Clients [][]Req }

// Total is the number of requests.
func (c Case) Total() (n int) {
	for _, reqs := range c.Clients {
		n += len(reqs)
	}
	return n
}

// Draw draws a case with at most maxTotal spans. The very first request is good.
func Draw(rt *rapid.T, maxRequests, maxSpans, maxTotal, broken int, modes bool) Case {
	var c Case
	clients := rapid.SampledFrom([]int{1, 2, 4, 8, 8, 16}).Draw(rt, "clients")
	total := rapid.IntRange(1, maxRequests).Draw(rt, "requests")
	spans := 0
	for range clients {
		var reqs []Req
		for range max(1, total/clients) {
			r := DrawReq(rt, maxSpans, broken, modes)
			if spans += r.Spans; spans > maxTotal {
				r.Spans = min(r.Spans, 1)
			}
			reqs = append(reqs, r)
		}
		c.Clients = append(c.Clients, reqs)
	}
	c.Clients[0][0].Broken = Good
	return c
}

// Render renders all requests.
func (c Case) Render() (out [][]Sent) { return c.RenderFrom(0) }

// RenderFrom renders all requests, the first one is the n-th.
func (c Case) RenderFrom(n int) (out [][]Sent) {
	for i, reqs := range c.Clients {
		out = append(out, nil)
		for _, r := range reqs {
			out[i] = append(out[i], r.Render(n))
			n++
		}
	}
	return out
}

// SendAll sends the requests and returns when the last one was answered.
func (p *Program) SendAll(clients [][]Sent) (time.Time, error) {
	return SendTo(func(int) *Program { return p }, clients)
}

// SendTo sends the requests of each client to a program, and returns when the last one was answered.
func SendTo(to func(client int) *Program, clients [][]Sent) (time.Time, error) {
	errs := make([]error, len(clients))
	// the root of the shared trace comes first
	c := to(0).NewClient()
	if err := c.Send(clients[0][0]); err != nil {
		return time.Time{}, err
	}
	var wg sync.WaitGroup
	for i, reqs := range clients {
		if i == 0 {
			reqs = reqs[1:]
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := c
			if i > 0 {
				c = to(i).NewClient()
			}
			defer c.Close()
			for _, r := range reqs {
				if errs[i] = c.Send(r); errs[i] != nil {
					return
				}
			}
		}()
	}
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			if e := to(i).Check(); e != nil {
				return time.Time{}, e
			}
			return time.Time{}, err
		}
	}
	return time.Now(), nil
}

// Good tells if the spans of the request have to be processed.
func (s Sent) Good() bool { return s.Req.Broken == Good && s.Req.Mid != Block }

type key struct{ trace, id proxy.Id }

// CheckCalls checks that the converter got exactly the given spans.
func CheckCalls(calls []proxy.Span, clients [][]Sent) error {
	type origin struct {
		span proxy.Span
		req  Sent
		seen bool
	}
	all := map[key]*origin{}
	for _, reqs := range clients {
		for _, r := range reqs {
			_, spans := r.Req.document(r.Req.spans(r.N))
			if r.Good() {
				spans = r.Want
			}
			for _, s := range spans {
				all[key{s.Trace, s.Id}] = &origin{span: s, req: r}
			}
		}
	}
	for _, s := range calls {
		o := all[key{s.Trace, s.Id}]
		switch {
		case o == nil:
			return fmt.Errorf("a span was processed that was not sent: %s", gen.Describe(s))
		case o.req.Req.Mid == Block:
			return fmt.Errorf("a span of request %d (%s), which the handler of the program did not pass on, was processed: %s", o.req.N, o.req.Path, gen.Describe(s))
		case !o.req.Good():
			return fmt.Errorf("a span of request %d (%s, %s), which was rejected, was processed: %s", o.req.N, o.req.Path, BrokenNames[o.req.Req.Broken], gen.Describe(s))
		case o.seen:
			return fmt.Errorf("a span was processed twice: %s", gen.Describe(s))
		case !gen.Equal(s, o.span):
			return fmt.Errorf("processed was\n  %s, sent\n  %s\nin request %d (%s)", gen.Describe(s), gen.Describe(o.span), o.req.N, o.req.Path)
		}
		o.seen = true
	}
	for _, o := range all {
		if o.req.Good() && !o.seen {
			return fmt.Errorf("a span of request %d (%s) of %d spans was not processed: %s", o.req.N, o.req.Path, len(o.req.Want), gen.Describe(o.span))
		}
	}
	return nil
}

// Count counts what a case consists of.
func (c Case) Count(e *engine.Env, clients [][]Sent) (spans int) {
	formats := map[string]int{}
	for _, reqs := range clients {
		for _, r := range reqs {
			spans += len(r.Want)
			formats[r.Req.Format]++
			e.LabelIf(r.Good() && len(r.Document) > 1<<20, "good document of more than 1 MiB")
			e.Count("requests: "+BrokenNames[r.Req.Broken], 1)
			if r.Header.Get("Content-Encoding") != "" && r.Good() {
				e.Count("good compressed requests", 1)
			}
		}
	}
	for f, n := range formats {
		e.Count("requests of format "+f, n)
	}
	e.Count("spans", spans)
	e.LabelIf(len(clients) > 1, "several clients")
	return spans
}

// Smaller finds a smaller failing case.
func Smaller(c Case, fails func([]Case) int) Case {
	deadline := time.Now().Add(150 * time.Second)
	parts := 2
	for time.Now().Before(deadline) {
		var candidates []Case
		if parts == 2 && len(c.Clients) > 1 {
			one := Case{Clients: [][]Req{nil}}
			for _, reqs := range c.Clients {
				one.Clients[0] = append(one.Clients[0], reqs...)
			}
			candidates = append(candidates, one)
		}
		total := c.Total()
		parts = min(parts, total)
		for part := range parts {
			// only this part, or all but this part
			lo, hi := part*total/parts, (part+1)*total/parts
			for _, keep := range []bool{true, false} {
				var d Case
				n := 0
				for _, reqs := range c.Clients {
					var list []Req
					for _, r := range reqs {
						if n == 0 || (n >= lo && n < hi) == keep {
							list = append(list, r)
						}
						n++
					}
					if len(list) > 0 {
						d.Clients = append(d.Clients, list)
					}
				}
				if d.Total() < total {
					candidates = append(candidates, d)
				}
			}
		}
		if parts >= total || parts >= 16 {
			// smaller requests
			d := Case{}
			changed := false
			for _, reqs := range c.Clients {
				var list []Req
				for _, r := range reqs {
					for _, n := range []*int{&r.Spans, &r.Large, &r.Space} {
						if *n > 1 {
							*n /= 2
							changed = true
						}
					}
					list = append(list, r)
				}
				d.Clients = append(d.Clients, list)
			}
			if changed {
				candidates = append(candidates, d)
			}
		}
		best := -1
		for lo := 0; lo < len(candidates) && best < 0 && time.Now().Before(deadline); lo += 16 {
			if i := fails(candidates[lo:min(lo+16, len(candidates))]); i >= 0 {
				best = lo + i
			}
		}
		switch {
		case best >= 0:
			c = candidates[best]
			parts = 2
		case parts < total && parts < 16:
			parts *= 2
		default:
			return c
		}
	}
	return c
}
