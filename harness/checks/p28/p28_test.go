package p28

import (
	"errors"
	"fmt"
	"reflect"
	"slices"
	"strconv"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/avro"
	"verifharness/engine"
	"verifharness/gen"
	"verifharness/kafka"
	"verifharness/prog"
)

// Case is what clients send to several instances of the program, which share a topic and a consumer group.
type Case struct {
	prog.Case
	Instances  int
	To         []int // instance of each client
	Partitions int   // of the topic, 0 if it does not exist
	Names      bool  // other names than the usual ones
	Old        int   // messages that the group has consumed before
	NoOffset   bool  // it has not, but has no offset either, so it starts with new ones
	Waiting    int   // messages that it has not
	Corrupt    []int // messages that cannot be decoded, and when they come (ms)
	Rebalance  []int // times at which the members have to join again (ms)
	Seed       uint64
}

func draw(rt *rapid.T) Case {
	size := rapid.SampledFrom([]int{5, 50, 300, 1500}).Draw(rt, "size")
	c := Case{
		Case:       prog.Draw(rt, rapid.SampledFrom([]int{20, 100, 200}).Draw(rt, "most"), size, 6000, 1, false),
		Instances:  rapid.SampledFrom([]int{1, 2, 2, 3, 4}).Draw(rt, "instances"),
		Partitions: rapid.SampledFrom([]int{0, 0, 1, 3, 12, 17}).Draw(rt, "partitions"),
		Names:      rapid.IntRange(0, 3).Draw(rt, "names") == 0,
		Seed:       rapid.Uint64().Draw(rt, "seed"),
	}
	for i, reqs := range c.Clients {
		c.To = append(c.To, rapid.IntRange(0, c.Instances-1).Draw(rt, "to"))
		for j := range reqs {
			reqs[j].Shared = reqs[j].Shared || rapid.IntRange(0, 2).Draw(rt, "shared") == 0
		}
		c.Clients[i] = reqs
	}
	if c.Partitions > 0 && rapid.IntRange(0, 1).Draw(rt, "history") == 0 {
		c.Old = rapid.IntRange(0, 40).Draw(rt, "old")
		c.Waiting = rapid.IntRange(0, 40).Draw(rt, "waiting")
	}
	if rapid.IntRange(0, 1).Draw(rt, "corrupted") == 0 {
		c.Corrupt = rapid.SliceOfN(rapid.IntRange(0, 1500), 1, 30).Draw(rt, "corrupt")
	}
	// a partition without an offset of the group is read from its end on, so nothing is said about it then
	if c.Partitions > 0 && rapid.IntRange(0, 1).Draw(rt, "rebalanced") == 0 {
		c.Rebalance = rapid.SliceOfN(rapid.IntRange(0, 3000), 1, 2).Draw(rt, "rebalance")
	}
	if c.NoOffset = c.Old > 0 && rapid.IntRange(0, 3).Draw(rt, "noOffset") == 0; c.NoOffset {
		c.Waiting, c.Rebalance = 0, nil
	}
	return c
}

type key struct{ trace, id proxy.Id }

// extra is a span that no client sends.
func (c Case) extra(n int) proxy.Span {
	rng := gen.NewRng(c.Seed + uint64(n)*7919)
	id := proxy.Id(1<<50 | uint64(n+1)<<4 | uint64(n%2)<<63)
	s := proxy.Span{Id: id, Trace: id, Name: gen.RandomText(rng), Service: gen.RandomText(rng), Timestamp: proxy.Timestamp(1714979289e9 + int64(rng.Intn(1e9))),
		Duration: time.Duration(1 + rng.Intn(1e9)), Tags: map[string]string{"n": strconv.Itoa(n)}}
	for range rng.Intn(3) {
		s.Tags[gen.RandomText(rng)] = gen.RandomText(rng)
	}
	return s
}

func message(s proxy.Span) kafka.Message {
	return kafka.Message{Key: []byte(fmt.Sprintf("%08x", uint64(s.Trace)))[:8], Value: avro.Encode(nil, gen.FromProxy(s), nil)}
}

// corrupt is a message that ends too early.
func (c Case) corrupt(n int) kafka.Message {
	rng := gen.NewRng(c.Seed ^ uint64(n+1)*104729)
	m := message(c.extra(1000 + n))
	m.Value = m.Value[:rng.Intn(len(m.Value))]
	if rng.Chance(3) {
		m.Key = nil
	}
	return m
}

func run(e *engine.Env, c Case) error {
	clients := c.Render()
	spans := c.Count(e, clients)
	e.NonTrivialIf(spans > 1 && c.Instances > 1)
	e.LabelIf(c.Partitions == 0, "the topic does not exist")
	e.LabelIf(len(c.Rebalance) > 0, "rebalanced")
	e.LabelIf(len(c.Corrupt) > 0, "with corrupt messages")
	e.LabelIf(c.Waiting > 0, "messages wait")
	e.LabelIf(c.NoOffset, "old messages, but the group has no offsets")
	e.Count("instances", c.Instances)

	g := &kafka.Group{Topic: "zipkin-spans", Name: "zipkin-proxy", Members: c.Instances, Exists: c.Partitions > 0}
	args := []string{"--kafka-disable-tls"}
	if c.Names {
		g.Topic, g.Name = "my.spans", "my-group"
		args = append(args, "--kafka-topic", g.Topic, "--kafka-consumer-group", g.Name)
	}
	broker, err := kafka.Serve(c.Partitions, g)
	if err != nil {
		return engine.HarnessError(err)
	}
	defer broker.Close()
	rng := gen.NewRng(c.Seed)
	want := map[key]proxy.Span{}
	for _, reqs := range clients {
		for _, r := range reqs {
			for _, s := range r.Want {
				want[key{s.Trace, s.Id}] = s
			}
		}
	}
	sent := len(want)
	if c.Partitions > 0 {
		for n := range c.Old {
			m := message(c.extra(n))
			m.Old = true
			broker.Put(rng.Intn(c.Partitions), m)
		}
		if c.Old+c.Waiting+len(c.Rebalance) > 0 && !c.NoOffset {
			for p := range c.Partitions {
				broker.Commit(p)
			}
		}
		for n := range c.Waiting {
			s := c.extra(100 + n)
			want[key{s.Trace, s.Id}] = s
			broker.Put(rng.Intn(c.Partitions), message(s))
		}
	}

	var programs []*prog.Program
	for range c.Instances {
		p, err := prog.Start(append(args, "--kafka-address", broker.Addr())...)
		if err != nil {
			return err
		}
		defer p.Close()
		programs = append(programs, p)
	}
	check := func() error {
		_, err := broker.Messages()
		var u kafka.Unsupported
		if errors.As(err, &u) {
			return engine.HarnessError(err)
		}
		if err != nil {
			return err
		}
		for _, p := range programs {
			if err := p.Check(); err != nil {
				return err
			}
		}
		return nil
	}
	for deadline := time.Now().Add(60 * time.Second); !broker.Consuming(); time.Sleep(5 * time.Millisecond) {
		if err := check(); err != nil {
			return err
		}
		if time.Now().After(deadline) {
			return fmt.Errorf("%d instances do not consume all partitions", c.Instances)
		}
	}
	if created, n := broker.Created(); !created || c.Partitions > 0 && n != c.Partitions {
		return engine.HarnessError(fmt.Errorf("topic %v with %d partitions", created, n))
	}

	// what happens while the clients send
	started := time.Now()
	stop, stopped := make(chan bool), make(chan bool)
	go func() {
		defer close(stopped)
		type event struct {
			at time.Duration
			do func()
		}
		var events []event
		for n, ms := range c.Corrupt {
			events = append(events, event{time.Duration(ms) * time.Millisecond, func() {
				_, parts := broker.Created()
				broker.Put(rng.Intn(parts), c.corrupt(n))
			}})
		}
		for _, ms := range c.Rebalance {
			events = append(events, event{time.Duration(ms) * time.Millisecond, broker.Rebalance})
		}
		slices.SortStableFunc(events, func(a, b event) int { return int(a.at - b.at) })
		for _, ev := range events {
			select {
			case <-stop:
				return
			case <-time.After(time.Until(started.Add(ev.at))):
				ev.do()
			}
		}
	}()
	first := time.Now()
	last, err := prog.SendTo(func(i int) *prog.Program { return programs[c.To[i]] }, clients)
	if err != nil {
		close(stop)
		return err
	}
	<-stopped

	// wait until all is processed
	var calls [][]proxy.Span
	most := 0
	for deadline := time.Now().Add(35 * time.Second); ; time.Sleep(50 * time.Millisecond) {
		if err := check(); err != nil {
			return err
		}
		calls = nil
		n := 0
		seen := map[key]bool{}
		for _, p := range programs {
			calls = append(calls, p.Calls())
			for _, s := range calls[len(calls)-1] {
				if k := (key{s.Trace, s.Id}); !seen[k] {
					seen[k] = true
					n++
				}
			}
		}
		if n > most { // something still happens
			most, deadline = n, time.Now().Add(35*time.Second)
		}
		if n >= len(want) && time.Since(last) > 12*time.Second || time.Now().After(deadline) {
			break
		}
	}

	// the topic has every span once, those of a trace in the same partition
	messages, err := broker.Messages()
	if err != nil {
		return err
	}
	partition := map[proxy.Id]int32{}
	sentOnce := map[key]bool{}
	for _, m := range messages {
		s, rest, err := avro.Decode(m.Value)
		if err != nil || len(rest) > 0 {
			return fmt.Errorf("the topic has a message that is not an encoded span: %q", m.Value)
		}
		k := key{s.Trace, s.Id}
		w, ok := want[k]
		switch {
		case !ok:
			return fmt.Errorf("the topic has a span that was not accepted: %s", gen.Describe(s))
		case sentOnce[k]:
			return fmt.Errorf("the topic has a span twice: %s", gen.Describe(s))
		case !gen.Equal(s, w):
			return fmt.Errorf("the topic has\n  %s, sent was\n  %s", gen.Describe(s), gen.Describe(w))
		}
		sentOnce[k] = true
		if p, ok := partition[s.Trace]; ok && p != m.Partition {
			return fmt.Errorf("spans of trace %s are in partitions %d and %d", s.Trace, p, m.Partition)
		}
		partition[s.Trace] = m.Partition
	}
	if len(sentOnce) != sent {
		return fmt.Errorf("the topic has %d spans of the %d that were accepted", len(sentOnce), sent)
	}

	// all of them, and those that waited, are processed
	done := map[key]bool{}
	owner := map[proxy.Id]int{}
	for i, spans := range calls {
		ended := map[proxy.Id]bool{}
		for j, s := range spans {
			k := key{s.Trace, s.Id}
			w, ok := want[k]
			if !ok {
				return fmt.Errorf("instance %d processed a span that it should not: %s", i, gen.Describe(s))
			}
			if !gen.Equal(s, w) {
				return fmt.Errorf("processed was\n  %s, sent\n  %s", gen.Describe(s), gen.Describe(w))
			}
			if len(c.Rebalance) == 0 {
				if done[k] {
					return fmt.Errorf("a span was processed twice: %s", gen.Describe(s))
				}
				if o, ok := owner[s.Trace]; ok && o != i {
					return fmt.Errorf("spans of trace %s were processed by instances %d and %d", s.Trace, o, i)
				}
				if j > 0 && spans[j-1].Trace != s.Trace {
					ended[spans[j-1].Trace] = true
				}
				if ended[s.Trace] && last.Sub(first) < 3*time.Second {
					return fmt.Errorf("instance %d processed trace %s in several parts, although all was sent within %s", i, s.Trace, last.Sub(first))
				}
			}
			done[k] = true
			owner[s.Trace] = i
		}
	}
	for k, s := range want {
		if !done[k] {
			return fmt.Errorf("%d of %d spans were not processed, one is %s", len(want)-len(done), len(want), gen.Describe(s))
		}
	}

	// and none of them is again if the program is restarted
	for deadline := time.Now().Add(20 * time.Second); ; time.Sleep(50 * time.Millisecond) {
		if err := check(); err != nil {
			return err
		}
		p := broker.Unfinished(func(m kafka.Message) bool {
			_, rest, err := avro.Decode(m.Value)
			return err == nil && len(rest) == 0 && !m.Old
		})
		if p < 0 {
			return nil
		}
		if time.Now().After(deadline) {
			committed, ends := broker.Offsets()
			return fmt.Errorf("all was processed, but the offset of partition %d is %d of %d", p, committed[p], ends[p])
		}
	}
}

func smaller(c Case, fails func([]Case) int) Case {
	with := func(d prog.Case) Case {
		out := c
		out.Case, out.To = d, nil
		for _, reqs := range d.Clients {
			to := 0
			for i, old := range c.Clients {
				if len(reqs) > 0 && slices.ContainsFunc(old, func(r prog.Req) bool { return r.Seed == reqs[0].Seed }) {
					to = c.To[i]
				}
			}
			out.To = append(out.To, to)
		}
		return out
	}
	for _, change := range []func(*Case){
		func(c *Case) { c.Rebalance = nil },
		func(c *Case) { c.Corrupt = nil },
		func(c *Case) { c.Old, c.Waiting, c.NoOffset = 0, 0, false },
		func(c *Case) { c.Names = false },
		func(c *Case) {
			c.Instances = 1
			c.To = make([]int, len(c.Clients))
		},
	} {
		d := c
		change(&d)
		if !reflect.DeepEqual(c, d) && fails([]Case{d}) >= 0 {
			c = d
		}
	}
	d := prog.Smaller(c.Case, func(list []prog.Case) int {
		var cases []Case
		for _, d := range list {
			cases = append(cases, with(d))
		}
		return fails(cases)
	})
	return with(d)
}

func TestCheck(t *testing.T) {
	sub := engine.New("instances", 64, 1200, draw, run).Timeout(280 * time.Second)
	engine.Main(t, "P28", engine.Reduce(sub, smaller))
}
