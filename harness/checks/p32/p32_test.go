package p32

import (
	"errors"
	"fmt"
	"slices"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/dd"
	"verifharness/engine"
	"verifharness/gen"
	"verifharness/kafka"
	"verifharness/prog"
)

// What is never sent of a trace.
const (
	complete  = iota
	noRoot    // its root
	noMiddle  // a span that others are below of
	noClients // the client's records of some calls
	noServers // the server's records of some calls
)

var lostNames = []string{"complete", "without root", "without a span in the middle", "without some client records", "without some server records"}

type trace struct {
	Seed uint64
	Ops  int
	Lost int
}

// Case is a system of hosts with different clocks, whose calls belong to traces. Each host sends what it recorded
// in several requests.
type Case struct {
	Clocks    []int64 // how much they are ahead, in us
	Traces    []trace
	Spread    int // time over which requests are sent, ms
	Requests  int // per host
	Repeat    int // of ten requests so many are sent twice
	Instances int // 0: without Kafka
	Styles    []gen.Style
	Seed      uint64
}

func draw(rt *rapid.T) Case {
	c := Case{Spread: rapid.SampledFrom([]int{0, 50, 1000, 3000}).Draw(rt, "spread"), Requests: rapid.SampledFrom([]int{1, 2, 5, 20}).Draw(rt, "requests"),
		Repeat: rapid.SampledFrom([]int{0, 0, 2, 5}).Draw(rt, "repeat"), Seed: rapid.Uint64().Draw(rt, "seed")}
	if rapid.IntRange(0, 3).Draw(rt, "kafka") == 0 {
		c.Instances = rapid.IntRange(1, 3).Draw(rt, "instances")
	}
	for range rapid.IntRange(1, 6).Draw(rt, "hosts") {
		clock := rapid.Int64Range(-1000, 1000).Draw(rt, "clock") * rapid.SampledFrom([]int64{0, 1, 1003, 1000_003, 86400_000_000}).Draw(rt, "unit")
		c.Clocks = append(c.Clocks, clock)
	}
	for range rapid.IntRange(1, 4).Draw(rt, "styles") {
		s := gen.DrawStyle(rt)
		s.Space, s.Unknown, s.Deep = min(s.Space, 1), min(s.Unknown, 1), 0
		c.Styles = append(c.Styles, s)
	}
	left := 3000
	for range rapid.SampledFrom([]int{1, 3, 10, 40, 150}).Draw(rt, "traces") {
		t := trace{Seed: rapid.Uint64().Draw(rt, "traceSeed"), Ops: rapid.SampledFrom([]int{1, 2, 3, 5, 10, 30, 200}).Draw(rt, "ops")}
		if rapid.IntRange(0, 1).Draw(rt, "lossy") == 0 {
			t.Lost = rapid.IntRange(noRoot, noServers).Draw(rt, "lost")
		}
		if left -= t.Ops; left < 0 {
			break
		}
		c.Traces = append(c.Traces, t)
	}
	return c
}

// op is something that a host does, maybe on behalf of another one.
type op struct {
	id, parent uint64 // of its span
	up         int    // the operation that it is a part of, -1 for the first one
	host       int
	shared     bool   // it is a remote call, its span has a record of the client and one of the server
	kind       string // if there is one record only
	t0, t1     uint64 // in true time: what the caller sees
	d          uint64 // for that long the call and its answer are on the way
	client     *prog.Record
	server     *prog.Record // or the only one
}

const (
	base     = 1714979289_000000
	year2020 = 1577836800_000000000
)

// record makes a record of what lasts from t0 to t1, as host sees it.
func (c Case) record(rng *gen.Rng, id uint64, o *op, host int, t0, t1 uint64, kind string) *prog.Record {
	r := &prog.Record{Trace: id, ID: o.id, Parent: o.parent, Start: uint64(int64(t0) + c.Clocks[host]), Duration: t1 - t0, Kind: kind}
	if !rng.Chance(8) {
		r.Name = gen.RandomText(rng)
	}
	r.Service = fmt.Sprint("host ", host)
	for range rng.Intn(3) {
		k := gen.Bin("t." + strconv.Itoa(rng.Intn(5)))
		if !slices.ContainsFunc(r.Tags, func(kv gen.KV) bool { return kv.K == k }) {
			r.Tags = append(r.Tags, gen.KV{K: k, V: gen.Bin(gen.RandomText(rng))})
		}
	}
	return r
}

// ops makes up the operations of a trace.
func (c Case) ops(n int) (trace uint64, ops []*op) {
	t := c.Traces[n]
	rng := gen.NewRng(t.Seed)
	high := uint64(rng.Intn(4))<<62 | 1<<50
	next := func() uint64 { return high | uint64(n+1)<<20 | uint64(len(ops)+1) }
	trace = next()
	root := &op{id: trace, up: -1, host: rng.Intn(len(c.Clocks)), t0: base + uint64(rng.Intn(1e9))}
	if rng.Chance(3) {
		// the id of the trace is not that of the first span
		root.id ^= 1 << 40
	}
	root.t1 = root.t0 + 1e6 + uint64(rng.Intn(1e9))
	root.server = c.record(rng, trace, root, root.host, root.t0, root.t1, []string{"", "CLIENT", "SERVER"}[rng.Intn(3)])
	ops = append(ops, root)
	for range t.Ops - 1 {
		up := rng.Intn(len(ops))
		if rng.Chance(2) {
			up = len(ops) - 1
		}
		p := ops[up]
		lo, hi := p.t0+p.d, p.t1-p.d
		if hi-lo < 1000 {
			continue
		}
		o := &op{id: next(), parent: p.id, up: up, host: p.host}
		o.t0 = lo + uint64(rng.Intn(int(hi-lo)/2))
		o.t1 = o.t0 + 1 + uint64(rng.Intn(int(hi-o.t0)))
		ops = append(ops, o)
		switch rng.Intn(5) {
		case 0, 1: // local
			o.server = c.record(rng, trace, o, o.host, o.t0, o.t1, "")
		case 2: // a call with spans of their own on both sides
			o.server = c.record(rng, trace, o, o.host, o.t0, o.t1, "CLIENT")
			if d := (o.t1 - o.t0) / 4; d > 0 {
				s := &op{id: next(), parent: o.id, up: len(ops) - 1, host: rng.Intn(len(c.Clocks)), t0: o.t0 + d, t1: o.t1 - d}
				s.server = c.record(rng, trace, s, s.host, s.t0, s.t1, "SERVER")
				ops = append(ops, s)
			}
		default: // a call with the same span on both sides
			o.shared = true
			o.host = rng.Intn(len(c.Clocks))
			o.d = (o.t1 - o.t0) / uint64(4+rng.Intn(5))
			o.client = c.record(rng, trace, o, p.host, o.t0, o.t1, "CLIENT")
			o.server = c.record(rng, trace, o, o.host, o.t0+o.d, o.t1-o.d, "SERVER")
			if rng.Chance(3) {
				// one of them does not know the parent
				[]*prog.Record{o.client, o.server}[rng.Intn(2)].Parent = 0
			}
		}
	}
	switch t.Lost {
	case noRoot:
		root.server = nil
	case noMiddle:
		above := map[int]bool{}
		for _, o := range ops {
			above[o.up] = true
		}
		for i, o := range ops {
			if i > 0 && above[i] {
				o.client, o.server = nil, nil
				break
			}
		}
	case noClients, noServers:
		for _, o := range ops {
			if o.shared && rng.Chance(2) {
				r, other := &o.client, o.server
				if t.Lost == noServers {
					r, other = &o.server, o.client
				}
				*r = nil
				other.Parent = o.parent
			}
		}
	}
	return trace, ops
}

func merge(client, server *proxy.Span) proxy.Span {
	if client == nil {
		return *server
	}
	if server == nil {
		return *client
	}
	out := gen.Clone(*client, true)
	if server.Name != "" {
		out.Name = server.Name
	}
	if server.Service != "" {
		out.Service = server.Service
	}
	for k, v := range server.Tags {
		out.AddTag(k, v)
	}
	if out.Parent == 0 {
		out.Parent = server.Parent
	}
	return out
}

// want tells what the agent has to get of a trace. decoded has what the records mean. If there is more than one root,
// but all miss the same span, the first one is the root that has to be added (only its times may be unknown).
func (c Case) want(trace uint64, ops []*op, decoded map[*prog.Record]*proxy.Span) (spans []proxy.Span, fake, times bool) {
	at := map[uint64]int{}
	present := func(o *op) bool { return o.client != nil || o.server != nil }
	for i, o := range ops {
		if present(o) {
			at[o.id] = i
		}
	}
	// how much clocks are corrected below each operation
	correction := make([]int64, len(ops))
	starts := make([]proxy.Timestamp, len(ops))
	var orphans []proxy.Span
	missing := map[uint64]bool{}
	times = true
	for i, o := range ops {
		if !present(o) {
			continue
		}
		up, ok := at[o.parent]
		if ok {
			correction[i] = correction[up]
		}
		s := merge(decoded[o.client], decoded[o.server])
		if !ok {
			orphans = append(orphans, s)
			missing[o.parent] = true
			times = times && (o.client == nil || o.server == nil)
		}
		s.Timestamp += proxy.Timestamp(correction[i] * 1000)
		if ok && s.Timestamp < year2020 {
			s.Timestamp = starts[up]
		}
		starts[i] = s.Timestamp
		if o.client != nil && o.server != nil {
			// the client's host and the server's
			correction[i] += c.Clocks[ops[o.up].host] - c.Clocks[o.host]
		}
		spans = append(spans, s)
	}
	if len(missing) != 1 {
		return nil, false, false
	}
	if len(orphans) == 1 {
		return spans, false, false
	}
	root := proxy.Span{Id: orphans[0].Parent, Trace: proxy.Id(trace), Name: "fake-root", Service: "fake-root"}
	from, to := orphans[0].Timestamp, orphans[0].Timestamp
	for _, s := range orphans {
		from, to = min(from, s.Timestamp), max(to, s.Timestamp.Add(s.Duration))
	}
	root.Timestamp, root.Duration = from, time.Duration(to-from)
	return append([]proxy.Span{root}, spans...), true, times
}

type request struct {
	at, to int // time in ms, instance
	recs   []*prog.Record
	sent   prog.Sent
	twice  bool
	// when it was sent
	from, until time.Time
}

func (c Case) requests(traces [][]*op) []*request {
	rng := gen.NewRng(c.Seed)
	hosts := make([][]*request, len(c.Clocks))
	var out []*request
	for h := range hosts {
		for range c.Requests {
			r := &request{at: rng.Intn(c.Spread + 1), to: rng.Intn(max(1, c.Instances)), twice: rng.Intn(10) < c.Repeat}
			hosts[h] = append(hosts[h], r)
		}
		out = append(out, hosts[h]...)
	}
	parents := map[*prog.Record]uint64{}
	add := func(host int, r *prog.Record) {
		if r != nil {
			q := hosts[host][rng.Intn(c.Requests)]
			q.recs = append(q.recs, r)
		}
	}
	for _, ops := range traces {
		for _, o := range ops {
			parents[o.client], parents[o.server] = o.parent, o.parent
			if o.shared {
				add(ops[o.up].host, o.client)
			}
			add(o.host, o.server)
		}
	}
	for n, r := range out {
		for i := range r.recs { // in any order
			k := rng.Intn(i + 1)
			r.recs[i], r.recs[k] = r.recs[k], r.recs[i]
		}
		q := prog.Req{Format: gen.Formats[rng.Intn(len(gen.Formats))], Gzip: rng.Chance(3), Type: rng.Intn(3), Style: c.Styles[rng.Intn(len(c.Styles))],
			Seed: rng.Uint64(), Chunk: []int{0, 0, 0, 1000}[rng.Intn(4)]}
		var recs []prog.Record
		for _, x := range r.recs {
			recs = append(recs, *x)
			if q.Format == gen.Jaeger {
				// no reference would mean that it has no parent, and not that it is unknown
				recs[len(recs)-1].Parent = parents[x]
			}
		}
		r.sent = q.RenderRecords(n, recs)
	}
	return out
}

func (r *request) send(p *prog.Program, started time.Time) error {
	client := p.NewClient()
	defer client.Close()
	time.Sleep(time.Until(started.Add(time.Duration(r.at) * time.Millisecond)))
	r.from = time.Now()
	err := client.Send(r.sent)
	if err == nil && r.twice {
		err = client.Send(r.sent)
	}
	r.until = time.Now()
	return err
}

func start(c Case) (programs []*prog.Program, broker *kafka.Broker, err error) {
	if c.Instances == 0 {
		p, err := prog.Start()
		return []*prog.Program{p}, nil, err
	}
	broker, err = kafka.Serve(0, &kafka.Group{Topic: "zipkin-spans", Name: "zipkin-proxy", Members: c.Instances})
	if err != nil {
		return nil, nil, engine.HarnessError(err)
	}
	for range c.Instances {
		p, err := prog.Start("--kafka-disable-tls", "--kafka-address", broker.Addr())
		if err != nil {
			return programs, broker, err
		}
		programs = append(programs, p)
	}
	for deadline := time.Now().Add(60 * time.Second); !broker.Consuming(); time.Sleep(5 * time.Millisecond) {
		for _, p := range programs {
			if err := p.Check(); err != nil {
				return programs, broker, err
			}
		}
		if time.Now().After(deadline) {
			return programs, broker, fmt.Errorf("%d instances do not consume all partitions", c.Instances)
		}
	}
	return programs, broker, nil
}

func run(e *engine.Env, c Case) error {
	// one second for the producer and the consumer each
	window := 7 * time.Second
	if c.Instances > 0 {
		window = 4500 * time.Millisecond
	}
	ids := make([]uint64, len(c.Traces))
	traces := make([][]*op, len(c.Traces))
	for n := range c.Traces {
		ids[n], traces[n] = c.ops(n)
	}
	requests := c.requests(traces)
	decoded := map[*prog.Record]*proxy.Span{}
	requestsOf := map[uint64][]*request{}
	for _, r := range requests {
		if len(r.sent.Want) != len(r.recs) {
			return engine.HarnessError(fmt.Errorf("%d spans in a document with %d", len(r.sent.Want), len(r.recs)))
		}
		for i, x := range r.recs {
			decoded[x] = &r.sent.Want[i]
			requestsOf[x.Trace] = append(requestsOf[x.Trace], r)
		}
	}

	programs, broker, err := start(c)
	if broker != nil {
		defer broker.Close()
	}
	for _, p := range programs {
		if p != nil {
			defer p.Close()
		}
	}
	check := func() error {
		if broker != nil {
			_, err := broker.Messages()
			var u kafka.Unsupported
			if errors.As(err, &u) {
				return engine.HarnessError(err)
			}
			if err != nil {
				return err
			}
		}
		for _, p := range programs {
			if err := p.Check(); err != nil {
				return err
			}
		}
		return nil
	}
	if err != nil {
		return err
	}
	errs := make([]error, len(requests))
	started := time.Now()
	var wg sync.WaitGroup
	for i, r := range requests {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = r.send(programs[r.to], started)
		}()
	}
	wg.Wait()
	last := time.Now()
	if err := check(); err != nil {
		return err
	}
	for _, err := range errs {
		if err != nil {
			return err
		}
	}

	type expected struct {
		spans       map[uint64]proxy.Span
		fake, times bool
		root        uint64
		n           int
	}
	want := map[uint64]expected{}
	total, mixed := 0, 0
	for n, id := range ids {
		rs := requestsOf[id]
		if len(rs) == 0 {
			continue
		}
		e.Count("traces "+lostNames[c.Traces[n].Lost], 1)
		first, end := rs[0].from, rs[0].until
		different := map[*request]bool{}
		for _, r := range rs {
			different[r] = true
			if r.from.Before(first) {
				first = r.from
			}
			if r.until.After(end) {
				end = r.until
			}
		}
		if end.Sub(first) > window {
			e.Count("traces that took too long, skipped", 1)
			delete(requestsOf, id)
			continue
		}
		x := expected{spans: map[uint64]proxy.Span{}, n: n}
		var spans []proxy.Span
		spans, x.fake, x.times = c.want(id, traces[n], decoded)
		for _, s := range spans {
			x.spans[uint64(s.Id)] = s
		}
		if x.fake {
			x.root = uint64(spans[0].Id)
			e.Count("traces that need a root", 1)
		}
		if len(spans) == 0 {
			e.Count("traces that are ambiguous", 1)
		}
		if len(spans) > 1 && len(different) > 1 {
			mixed++
		}
		total += len(spans)
		want[id] = x
	}
	e.Count("spans", total)
	e.Count("traces of several requests", mixed)
	e.NonTrivialIf(mixed > 0)
	e.LabelIf(c.Instances > 1, "several instances")
	e.LabelIf(c.Instances == 0, "without Kafka")

	// wait for what the agents get
	submitted := func() (out [][]dd.Span, spans int, cutOff bool) {
		for _, p := range programs {
			list, _ := p.Submitted()
			out = append(out, list...)
			cutOff = cutOff || p.CutOff()
		}
		for _, t := range out {
			spans += len(t)
		}
		return
	}
	most := 0
	for deadline := time.Now().Add(30 * time.Second); time.Now().Before(deadline); time.Sleep(20 * time.Millisecond) {
		if err := check(); err != nil {
			return err
		}
		_, n, _ := submitted()
		if n > most {
			most, deadline = n, time.Now().Add(30*time.Second)
		}
		if n >= total && time.Since(last) > 11*time.Second {
			break
		}
	}
	time.Sleep(200 * time.Millisecond) // what must not follow
	if err := check(); err != nil {
		return err
	}
	got, _, cutOff := submitted()
	e.LabelIf(cutOff, "this machine was too slow")
	seen := map[uint64]bool{}
	for _, spans := range got {
		if len(spans) == 0 {
			return errors.New("the agent got a trace without spans")
		}
		id := spans[0].TraceID
		x, ok := want[id]
		if !ok {
			if len(requestsOf[id]) == 0 && slices.Contains(ids, id) {
				continue
			}
			return fmt.Errorf("the agent got a trace that was not sent: %+v", spans)
		}
		name := fmt.Sprintf("trace %d (%016x, %s, %d spans)", x.n, id, lostNames[c.Traces[x.n].Lost], len(x.spans))
		if len(x.spans) == 0 {
			return fmt.Errorf("the agent got %s, which is ambiguous: %+v", name, spans)
		}
		if seen[id] {
			return fmt.Errorf("the agent got %s in several parts", name)
		}
		seen[id] = true
		if len(spans) != len(x.spans) {
			return fmt.Errorf("the agent got %d spans of %s: %+v", len(spans), name, spans)
		}
		for _, s := range spans {
			w, ok := x.spans[s.SpanID]
			if !ok {
				return fmt.Errorf("the agent got a span twice, or one that does not belong to %s: %+v", name, s)
			}
			delete(x.spans, s.SpanID)
			wantSpan := dd.Want(w)
			if x.fake && s.SpanID == x.root {
				if !x.times {
					s.Start, s.Duration = wantSpan.Start, wantSpan.Duration
				}
				s.Meta, wantSpan.Meta = nil, nil
			}
			if !dd.Equal(s, wantSpan) {
				return fmt.Errorf("of %s the agent got\n  %+v, want\n  %+v", name, s, wantSpan)
			}
		}
	}
	for id, x := range want {
		if !seen[id] && len(x.spans) > 0 && !cutOff {
			return fmt.Errorf("the agent did not get trace %d (%016x, %s, %d spans)", x.n, id, lostNames[c.Traces[x.n].Lost], len(x.spans))
		}
	}
	return nil
}

func smaller(c Case, fails func([]Case) int) Case {
	try := func(change func(*Case)) bool {
		d := c
		change(&d)
		if fails([]Case{d}) < 0 {
			return false
		}
		c = d
		return true
	}
	if c.Instances > 0 {
		try(func(d *Case) { d.Instances = 0 })
	}
	deadline := time.Now().Add(150 * time.Second)
	for parts := 2; len(c.Traces) > 1 && time.Now().Before(deadline); {
		parts = min(parts, len(c.Traces))
		var candidates []Case
		for part := range parts {
			d := c
			d.Traces = c.Traces[part*len(c.Traces)/parts : (part+1)*len(c.Traces)/parts]
			candidates = append(candidates, d)
		}
		if i := fails(candidates); i >= 0 {
			c, parts = candidates[i], 2
		} else if parts >= 16 || parts >= len(c.Traces) {
			break
		} else {
			parts *= 2
		}
	}
	for time.Now().Before(deadline) {
		var candidates []Case
		for i, t := range c.Traces {
			for _, ops := range []int{t.Ops / 2, t.Ops - 1} {
				if ops > 0 && len(candidates) < 12 {
					d := c
					d.Traces = slices.Clone(c.Traces)
					d.Traces[i].Ops = ops
					candidates = append(candidates, d)
				}
			}
		}
		for _, change := range []func(*Case){
			func(d *Case) { d.Repeat = 0 },
			func(d *Case) { d.Spread = 0 },
			func(d *Case) { d.Requests = (d.Requests + 1) / 2 },
			func(d *Case) { d.Styles = make([]gen.Style, 1) },
		} {
			d := c
			change(&d)
			if fmt.Sprint(d) != fmt.Sprint(c) {
				candidates = append(candidates, d)
			}
		}
		i := fails(candidates)
		if i < 0 {
			break
		}
		c = candidates[i]
	}
	return c
}

func TestCheck(t *testing.T) {
	sub := engine.New("assembled", 128, 2400, draw, run).Timeout(200 * time.Second)
	engine.Main(t, "P32", engine.Reduce(sub, smaller))
}
