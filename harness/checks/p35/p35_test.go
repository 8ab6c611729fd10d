package p35

import (
	"errors"
	"fmt"
	"reflect"
	"slices"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/avro"
	"verifharness/engine"
	"verifharness/gen"
	"verifharness/kafka"
	"verifharness/prog"
)

// What happens to an instance or its connections.
const (
	kill      = "kill"      // it is killed
	end       = "end"       // it is told to end
	start     = "start"     // another one is started
	drop      = "drop"      // its connections are closed
	reset     = "reset"     // and in a hard way
	down      = "down"      // the broker is not available to it for a while
	forget    = "forget"    // the group does not know it any more
	rebalance = "rebalance" // the members have to join again
	fail      = "fail"      // requests of anybody fail
)

type event struct {
	Ms   int
	Kind string
	Inst int
	// until the group notices that it has ended, until the broker is available again (ms), or how many requests fail
	Arg  int
	Api  int16 `json:",omitempty"`
	Code int16 `json:",omitempty"`
}

// Case is what happens while spans come.
type Case struct {
	Instances  int
	Partitions int
	Spans      int // that come to the topic from elsewhere
	PerT       int // spans of a trace
	OverMs     int
	Corrupt    int
	Events     []event
	Requests   []request
	After      prog.Case
	To         []int
	Seed       uint64
}

type request struct {
	Ms, Inst int
	Req      prog.Req
}

var failures = []struct {
	api   int16
	codes []int16
}{
	{kafka.Fetch, []int16{6, 5, 9, 7}},
	{kafka.Commits, []int16{14, 15, 16, 7}},
	{kafka.Join, []int16{14, 15, 16}},
	{kafka.Heartbeat, []int16{16, 22, 25, 27}},
	{kafka.Sync, []int16{27, 22, 16}},
}

func draw(rt *rapid.T) Case {
	c := Case{
		Instances:  rapid.SampledFrom([]int{1, 2, 2, 3}).Draw(rt, "instances"),
		Partitions: rapid.SampledFrom([]int{1, 3, 12}).Draw(rt, "partitions"),
		Spans:      rapid.SampledFrom([]int{10, 100, 1000, 3000}).Draw(rt, "spans"),
		PerT:       rapid.SampledFrom([]int{1, 1, 5}).Draw(rt, "perTrace"),
		OverMs:     rapid.SampledFrom([]int{500, 4000, 8000}).Draw(rt, "over"),
		Corrupt:    rapid.SampledFrom([]int{0, 0, 5}).Draw(rt, "corrupt"),
		Seed:       rapid.Uint64().Draw(rt, "seed"),
	}
	for range rapid.IntRange(1, 4).Draw(rt, "events") {
		ev := event{
			Ms: rapid.IntRange(0, 8000).Draw(rt, "at"),
			Kind: rapid.SampledFrom([]string{kill, kill, end, start, drop, reset, reset, down, forget, rebalance, fail, fail}).
				Draw(rt, "kind"),
			Inst: rapid.IntRange(0, 3).Draw(rt, "instance"),
			Arg:  rapid.SampledFrom([]int{0, 100, 800, 2500, 4000}).Draw(rt, "arg"),
		}
		if ev.Kind == fail {
			f := rapid.SampledFrom(failures).Draw(rt, "request")
			ev.Api, ev.Code = f.api, rapid.SampledFrom(f.codes).Draw(rt, "code")
			ev.Arg = rapid.SampledFrom([]int{1, 2, 5}).Draw(rt, "times")
		}
		c.Events = append(c.Events, ev)
		if ev.Kind == kill && rapid.IntRange(0, 1).Draw(rt, "restarted") == 0 {
			c.Events = append(c.Events, event{Ms: ev.Ms + rapid.IntRange(0, 2000).Draw(rt, "again"), Kind: start})
		}
	}
	slices.SortStableFunc(c.Events, func(a, b event) int { return a.Ms - b.Ms })
	for range rapid.IntRange(0, 12).Draw(rt, "requests") {
		r := prog.DrawReq(rt, rapid.SampledFrom([]int{100, 100, 2000}).Draw(rt, "most"), 1, false)
		// a part of a larger trace may have no root, in which case it is not processed
		r.Shared, r.PerT = false, min(r.PerT, 2)
		if r.Broken == prog.Disconnect {
			r.Broken = prog.Good
		}
		c.Requests = append(c.Requests, request{rapid.IntRange(0, 8000).Draw(rt, "at"), rapid.IntRange(0, 3).Draw(rt, "instance"), r})
	}
	size := rapid.SampledFrom([]int{5, 50, 300}).Draw(rt, "size")
	c.After = prog.Draw(rt, 20, size, 2000, 1, false)
	for i, reqs := range c.After.Clients {
		for j := range reqs {
			c.After.Clients[i][j].Shared = false
		}
		c.To = append(c.To, rapid.IntRange(0, 3).Draw(rt, "to"))
	}
	return c
}

type key struct{ trace, id proxy.Id }

func keyOf(s proxy.Span) key { return key{s.Trace, s.Id} }

// span is the n-th span that comes to the topic from elsewhere. All spans of a trace are below the first one.
func (c Case) span(n int) proxy.Span {
	rng := gen.NewRng(c.Seed + uint64(n)*7919)
	trace := proxy.Id(1<<50 | uint64(n/c.PerT+1)<<12 | uint64(n/c.PerT%2)<<63)
	s := proxy.Span{Id: trace + proxy.Id(n%c.PerT), Trace: trace, Name: gen.RandomText(rng), Service: gen.RandomText(rng),
		Timestamp: proxy.Timestamp(1714979289e9 + int64(rng.Intn(1e9))), Duration: time.Duration(1 + rng.Intn(1e9)),
		Tags: map[string]string{"n": strconv.Itoa(n)}}
	if n%c.PerT > 0 {
		s.Parent = trace
	}
	for range rng.Intn(3) {
		s.Tags[gen.RandomText(rng)] = gen.RandomText(rng)
	}
	return s
}

func message(s proxy.Span) kafka.Message {
	return kafka.Message{Key: []byte(fmt.Sprintf("%08x", uint64(s.Trace)))[:8], Value: avro.Encode(nil, gen.FromProxy(s), nil)}
}

func readable(m kafka.Message) (proxy.Span, bool) {
	s, rest, err := avro.Decode(m.Value)
	return s, err == nil && len(rest) == 0
}

// instance is a program with its own way to the broker.
type instance struct {
	*prog.Program
	addr    string
	alive   bool
	trouble bool // with its connections
}

type test struct {
	c         Case
	broker    *kafka.Broker
	mu        sync.Mutex
	instances []*instance
	probes    int
	up        sync.WaitGroup // until the broker is available again
}

func (t *test) start() error {
	addr, err := t.broker.Listen()
	if err != nil {
		return engine.HarnessError(err)
	}
	p, err := prog.Start("--kafka-disable-tls", "--kafka-address", addr)
	if err != nil {
		return err
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	t.instances = append(t.instances, &instance{Program: p, addr: addr, alive: true})
	return nil
}

func (t *test) list() []*instance {
	t.mu.Lock()
	defer t.mu.Unlock()
	return slices.Clone(t.instances)
}

func (t *test) live() (out []*instance) {
	for _, i := range t.list() {
		if t.isAlive(i) {
			out = append(out, i)
		}
	}
	return out
}

func (t *test) isAlive(i *instance) bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return i.alive
}

func (t *test) close() {
	for _, i := range t.list() {
		i.Close()
	}
	t.broker.Close()
}

func (t *test) check() error {
	_, err := t.broker.Messages()
	var u kafka.Unsupported
	if errors.As(err, &u) {
		return engine.HarnessError(err)
	}
	if err != nil {
		return err
	}
	for _, i := range t.live() {
		if err := i.Check(); err != nil && t.isAlive(i) {
			return err
		}
	}
	return nil
}

// settle waits until the group works.
func (t *test) settle() error {
	for deadline := time.Now().Add(60 * time.Second); !t.broker.Settled(len(t.live())); time.Sleep(5 * time.Millisecond) {
		if err := t.check(); err != nil {
			return err
		}
		if time.Now().After(deadline) {
			return fmt.Errorf("%d instances do not consume all partitions", len(t.live()))
		}
	}
	return nil
}

// happen does what an event says.
func (t *test) happen(ev event) error {
	live := t.live()
	if len(live) == 0 && ev.Kind != start {
		return nil
	}
	var i *instance
	if len(live) > 0 {
		i = live[ev.Inst%len(live)]
	}
	trouble := func() {
		t.mu.Lock()
		defer t.mu.Unlock()
		i.trouble = true
	}
	arg := time.Duration(ev.Arg) * time.Millisecond
	switch ev.Kind {
	case start:
		if len(live) > 3 {
			return nil
		}
		return t.start()
	case kill, end:
		t.mu.Lock()
		i.alive = false
		t.mu.Unlock()
		if ev.Kind == end {
			if err := i.End(30 * time.Second); err != nil {
				return err
			}
		}
		i.Close()
		time.Sleep(arg)
		t.broker.Gone(i.addr, 1)
	case drop, reset:
		trouble()
		t.broker.Drop(i.addr, ev.Kind == reset)
	case down:
		trouble()
		t.broker.SetDown(i.addr, true)
		t.broker.Drop(i.addr, ev.Inst%2 == 0)
		t.up.Add(1)
		go func() {
			defer t.up.Done()
			time.Sleep(arg)
			t.broker.SetDown(i.addr, false)
		}()
	case forget:
		t.broker.Forget(i.addr)
	case rebalance:
		t.broker.Rebalance()
	case fail:
		t.broker.Fail(ev.Api, ev.Code, ev.Arg)
	}
	return nil
}

// run does things at their times.
type plan struct {
	ms int
	do func() error
}

func follow(plans []plan) error {
	slices.SortStableFunc(plans, func(a, b plan) int { return a.ms - b.ms })
	began := time.Now()
	for _, p := range plans {
		time.Sleep(time.Until(began.Add(time.Duration(p.ms) * time.Millisecond)))
		if err := p.do(); err != nil {
			return err
		}
	}
	return nil
}

func together(fs ...func() error) error {
	errs := make(chan error, len(fs))
	for _, f := range fs {
		go func() { errs <- f() }()
	}
	var err error
	for range fs {
		if e := <-errs; e != nil && err == nil {
			err = e
		}
	}
	return err
}

func run(e *engine.Env, c Case) error {
	e.NonTrivialIf(c.Spans > 10 && len(c.Events) > 0)
	for _, ev := range c.Events {
		e.Label(ev.Kind)
	}
	rng := gen.NewRng(c.Seed)
	broker, err := kafka.Serve(c.Partitions, &kafka.Group{Topic: "zipkin-spans", Name: "zipkin-proxy", Members: c.Instances,
		Exists: true, Expire: 10 * time.Second})
	if err != nil {
		return engine.HarnessError(err)
	}
	t := &test{c: c, broker: broker}
	defer t.close()
	for p := range c.Partitions {
		broker.Commit(p)
	}
	for range c.Instances {
		if err := t.start(); err != nil {
			return err
		}
	}
	if err := t.settle(); err != nil {
		return err
	}
	broker.SetMembers(1)

	// spans come to the topic and to the instances, while things happen
	var puts, events []plan
	where := map[proxy.Id]int{}
	for n := range c.Spans {
		s := c.span(n)
		if _, ok := where[s.Trace]; !ok {
			where[s.Trace] = rng.Intn(c.Partitions)
		}
		puts = append(puts, plan{rng.Intn(c.OverMs), func() error {
			broker.Put(where[s.Trace], message(s))
			return nil
		}})
	}
	for n := range c.Corrupt {
		p, m := rng.Intn(c.Partitions), message(c.span(c.Spans+n))
		m.Value = m.Value[:rng.Intn(len(m.Value))]
		puts = append(puts, plan{rng.Intn(c.OverMs), func() error {
			broker.Put(p, m)
			return nil
		}})
	}
	for _, ev := range c.Events {
		events = append(events, plan{ev.Ms, func() error { return t.happen(ev) }})
	}
	type sent struct {
		prog.Sent
		to *instance
	}
	var mu sync.Mutex
	var accepted, lost []sent
	all := []func() error{func() error { return follow(puts) }, func() error { return follow(events) }}
	for n, r := range c.Requests {
		s := r.Req.Render(n + 1)
		all = append(all, func() error {
			time.Sleep(time.Duration(r.Ms) * time.Millisecond)
			live := t.live()
			if len(live) == 0 {
				return nil
			}
			to := live[r.Inst%len(live)]
			client := to.NewClient()
			defer client.Close()
			err := client.Send(s)
			mu.Lock()
			defer mu.Unlock()
			if err == nil {
				accepted = append(accepted, sent{s, to})
			} else if t.isAlive(to) {
				return fmt.Errorf("while the broker does not work well: %w", err)
			} else {
				lost = append(lost, sent{s, to})
			}
			return nil
		})
	}
	if err := together(all...); err != nil {
		return err
	}
	t.up.Wait()
	broker.NoErrors()
	if len(t.live()) == 0 {
		if err := t.start(); err != nil {
			return err
		}
	}
	for steady := time.Now(); time.Since(steady) < 3500*time.Millisecond; time.Sleep(50 * time.Millisecond) {
		if !broker.Settled(len(t.live())) {
			if err := t.settle(); err != nil {
				return fmt.Errorf("after the broker works again: %w", err)
			}
			steady = time.Now()
		}
	}
	if err := t.check(); err != nil {
		return err
	}

	// all instances send again
	for _, i := range t.live() {
		if err := t.probe(i); err != nil {
			return err
		}
	}
	live := t.live()
	after := c.After.RenderFrom(len(c.Requests) + 1)
	to := func(n int) *prog.Program { return live[c.To[n]%len(live)].Program }
	before, _ := broker.Log()
	first := time.Now()
	last, err := prog.SendTo(to, after)
	if err != nil {
		return fmt.Errorf("after the broker works again: %w", err)
	}

	later, unsure := map[key]proxy.Span{}, map[key]proxy.Span{}
	for _, reqs := range after {
		for _, r := range reqs {
			for _, s := range r.Want {
				later[keyOf(s)] = s
			}
		}
	}
	want := map[key]proxy.Span{} // spans that are in the topic, or may be
	for n := range c.Spans {
		want[keyOf(c.span(n))] = c.span(n)
	}
	for _, r := range append(accepted, lost...) {
		for _, s := range r.Want {
			unsure[keyOf(s)] = s
		}
	}

	// wait until everything is processed
	count := func() (n int, seen map[key]int) {
		seen = map[key]int{}
		for _, i := range t.list() {
			for _, s := range i.Calls() {
				seen[keyOf(s)]++
			}
		}
		return len(seen), seen
	}
	var required map[key]bool
	most := 0
	for deadline := time.Now().Add(35 * time.Second); ; time.Sleep(50 * time.Millisecond) {
		if err := t.check(); err != nil {
			return err
		}
		required = t.required()
		n, seen := count()
		missing := 0
		for k := range required {
			if seen[k] == 0 {
				missing++
			}
		}
		if n > most {
			most, deadline = n, time.Now().Add(35*time.Second)
		}
		if missing == 0 && time.Since(last) > 12*time.Second || time.Now().After(deadline) {
			break
		}
	}

	// what is in the topic
	logs, _ := broker.Log()
	inTopic := map[key]int{}
	partition := map[proxy.Id]int{}
	for p, log := range logs {
		for n, m := range log {
			s, ok := readable(m)
			if !ok {
				continue
			}
			k := keyOf(s)
			w, isLater := later[k]
			if !isLater {
				continue
			}
			if n < len(before[p]) {
				return engine.HarnessError(fmt.Errorf("span %s was there before", s.Id))
			}
			if !gen.Equal(s, w) {
				return fmt.Errorf("the topic has\n  %s, sent was\n  %s", gen.Describe(s), gen.Describe(w))
			}
			if inTopic[k]++; inTopic[k] > 1 {
				return fmt.Errorf("after the broker works again, the topic has a span twice: %s", gen.Describe(s))
			}
			if q, ok := partition[s.Trace]; ok && q != p {
				return fmt.Errorf("spans of trace %s are in partitions %d and %d", s.Trace, p, q)
			}
			partition[s.Trace] = p
		}
	}
	if len(inTopic) != len(later) {
		return fmt.Errorf("after the broker works again, the topic has %d spans of the %d that were accepted", len(inTopic), len(later))
	}
	written := map[key]bool{}
	for _, log := range logs {
		for _, m := range log {
			if s, ok := readable(m); ok {
				written[keyOf(s)] = true
				w, ok := unsure[keyOf(s)]
				if ok && !gen.Equal(s, w) {
					return fmt.Errorf("the topic has\n  %s, sent was\n  %s", gen.Describe(s), gen.Describe(w))
				}
			}
		}
	}
	for _, r := range accepted {
		if r.to.trouble || !r.to.alive {
			continue
		}
		for _, s := range r.Want {
			if !written[keyOf(s)] {
				return fmt.Errorf("a span that was accepted by an instance without any trouble is not in the topic: %s", gen.Describe(s))
			}
		}
	}

	// what was processed
	owner := map[proxy.Id]*instance{}
	done := map[key]int{}
	for n, i := range t.list() {
		ended := map[proxy.Id]bool{}
		previous := proxy.Id(0)
		for _, s := range i.Calls() {
			k := keyOf(s)
			w, isLater := later[k]
			if isLater {
				if o, ok := owner[s.Trace]; ok && o != i {
					return fmt.Errorf("after the broker works again, trace %s was processed by two instances", s.Trace)
				}
				if ended[s.Trace] && last.Sub(first) < 3*time.Second {
					return fmt.Errorf("after the broker works again, trace %s was processed in parts", s.Trace)
				}
				owner[s.Trace] = i
				if done[k] > 0 {
					return fmt.Errorf("after the broker works again, a span was processed twice: %s", gen.Describe(s))
				}
			} else if w, isLater = want[k]; !isLater {
				w, isLater = unsure[k]
			}
			if previous != s.Trace {
				ended[previous] = true
			}
			previous = s.Trace
			switch {
			case s.Trace == probeTrace || s.Name == "fake-root" && s.Service == "fake-root":
				continue
			case !isLater:
				return fmt.Errorf("instance %d processed a span that nobody sent: %s", n, gen.Describe(s))
			case !gen.Equal(s, w):
				return fmt.Errorf("processed was\n  %s, sent\n  %s", gen.Describe(s), gen.Describe(w))
			}
			done[k]++
		}
	}
	missing := 0
	example := ""
	for p, log := range logs {
		for n, m := range log {
			s, ok := readable(m)
			if ok && required[keyOf(s)] && done[keyOf(s)] == 0 && s.Trace != probeTrace {
				missing++
				example = fmt.Sprintf("offset %d of partition %d, %s", n, p, gen.Describe(s))
			}
		}
	}
	if missing > 0 {
		return fmt.Errorf("%d spans of the topic were not processed, one is %s", missing, example)
	}
	e.Count("spans in the topic", len(written))
	e.Count("spans required", len(required))

	for deadline := time.Now().Add(20 * time.Second); ; time.Sleep(50 * time.Millisecond) {
		if err := t.check(); err != nil {
			return err
		}
		p := broker.Unfinished(func(m kafka.Message) bool {
			_, ok := readable(m)
			return ok
		})
		if p < 0 {
			return nil
		}
		if time.Now().After(deadline) {
			committed, ends := broker.Offsets()
			return fmt.Errorf("all was processed, but the offset of partition %d is %d of %d", p, committed[p], ends[p])
		}
	}
}

const probeTrace = proxy.Id(0x7777777)

// probe sends spans until one is in the topic. What is sent to a connection that has ended is lost.
func (t *test) probe(i *instance) error {
	client := i.NewClient()
	defer client.Close()
	for deadline := time.Now().Add(60 * time.Second); ; {
		t.probes++
		id := proxy.Id(0x100000 + t.probes)
		body := fmt.Sprintf(`[{"traceId":"%s","id":"%s","name":"probe","timestamp":1714979289000000}]`, probeTrace, id)
		if err := client.Probe("/api/v2/spans", body); err != nil {
			return fmt.Errorf("after the broker works again: %w", err)
		}
		for until := time.Now().Add(2 * time.Second); time.Now().Before(until); time.Sleep(20 * time.Millisecond) {
			logs, _ := t.broker.Log()
			for _, log := range logs {
				for n := len(log) - 1; n >= 0; n-- {
					if s, ok := readable(log[n]); ok && s.Trace == probeTrace && s.Id == id {
						return nil
					}
				}
			}
		}
		if err := t.check(); err != nil {
			return err
		}
		if time.Now().After(deadline) {
			return errors.New("the broker works again, but an instance does not send spans to it any more")
		}
	}
}

// required are the spans of the topic that have to be processed: all but those that were committed by an
// instance that has ended, for which they may have been too late.
func (t *test) required() map[key]bool {
	ended := map[string]bool{}
	for _, i := range t.list() {
		ended[i.addr] = !t.isAlive(i)
	}
	logs, commits := t.broker.Log()
	out := map[key]bool{}
	for p, log := range logs {
		free := make([]bool, len(log))
		for _, c := range commits[p] {
			if ended[c.Addr] {
				for n := c.From; n < c.To; n++ {
					free[n] = true
				}
			}
		}
		for n, m := range log {
			if s, ok := readable(m); ok && !free[n] && s.Trace != probeTrace {
				out[keyOf(s)] = true
			}
		}
	}
	return out
}

func smaller(c Case, fails func([]Case) int) Case {
	try := func(change func(*Case)) bool {
		d := c
		d.Events, d.Requests = slices.Clone(c.Events), slices.Clone(c.Requests)
		change(&d)
		if !reflect.DeepEqual(c, d) && fails([]Case{d}) >= 0 {
			c = d
			return true
		}
		return false
	}
	try(func(c *Case) { c.Requests = nil })
	try(func(c *Case) { c.Corrupt = 0 })
	for i := len(c.Events) - 1; i >= 0; i-- {
		try(func(c *Case) { c.Events = slices.Delete(c.Events, i, i+1) })
	}
	try(func(c *Case) { c.Partitions = 1 })
	try(func(c *Case) { c.Instances = 1 })
	try(func(c *Case) { c.PerT = 1 })
	try(func(c *Case) {
		c.After.Clients, c.To = [][]prog.Req{c.After.Clients[0][:1]}, c.To[:1]
	})
	try(func(c *Case) { c.Spans = min(c.Spans, 10) })
	return c
}

func TestCheck(t *testing.T) {
	sub := engine.New("failures", 96, 1200, draw, run).Timeout(280 * time.Second)
	engine.Main(t, "P35", engine.Reduce(sub, smaller))
}
