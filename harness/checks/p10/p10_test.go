package p10

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/Shopify/sarama"
	"github.com/flachnetz/dd-zipkin-proxy/balance"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/avro"
	"verifharness/engine"
	"verifharness/gen"
)

const topic = "the-topic"

// message is one of a partition.
type message struct {
	After    int `json:",omitempty"` // ms since the one before
	Span     gen.Span
	Blocks   []int `json:",omitempty"`
	Cut      int   `json:",omitempty"` // so many bytes are missing, -1: all of them, -2: there is no value
	Callback int   `json:",omitempty"` // ms the callback takes
	Offset   int   `json:",omitempty"` // offsets left out before this message
}

// session is a call of Consume.
type session struct {
	Before     int // ms until it starts
	Refused    bool
	Partitions [][]message
	Buffer     int `json:",omitempty"` // of the channels of messages
	// how it ends: when the partitions have ended, or after so many ms
	Rebalance int  `json:",omitempty"`
	After     int  `json:",omitempty"` // ms between the end of the claims and the end of the session
	Late      int  `json:",omitempty"` // messages that still arrive after its end was announced
	Idle      bool `json:",omitempty"` // nothing happens for an hour after the last messages
	Err       bool `json:",omitempty"`
}

type groupCase struct {
	Sessions []session
	// ms after which it is closed, or later if it is 0: when all sessions are over
	Close int
}

func drawMessage(rt *rapid.T, level int, slow bool) message {
	text := func(label string) gen.Bin { return gen.Bytes(rt, label, level) }
	m := message{}
	if rapid.IntRange(0, 2).Draw(rt, "same") > 0 {
		m.Span = gen.Span{Trace: int64(rapid.IntRange(1, 3).Draw(rt, "trace"))}
	} else {
		m.Span = gen.DrawSpan(rt, text, 6)
	}
	if rapid.IntRange(0, 3).Draw(rt, "corrupt") == 0 {
		m.Cut = rapid.SampledFrom([]int{-1, -1, -2, 1, 2, 5, 1000}).Draw(rt, "cut")
	}
	if rapid.IntRange(0, 3).Draw(rt, "gap") == 0 {
		m.Offset = rapid.IntRange(1, 5).Draw(rt, "offset")
	}
	if len(m.Span.Tags) > 0 {
		m.Blocks = rapid.SliceOfN(rapid.SampledFrom([]int{1, -1, 2, -2}), 0, 2).Draw(rt, "blocks")
	}
	if slow {
		m.After = rapid.SampledFrom([]int{0, 0, 1, 10, 300, 5000}).Draw(rt, "after")
		m.Callback = rapid.SampledFrom([]int{0, 0, 0, 1, 20, 1000, 7000}).Draw(rt, "callback")
	}
	return m
}

func drawSession(rt *rapid.T, level int, slow bool) session {
	s := session{}
	if slow {
		s.Before = rapid.SampledFrom([]int{1, 10, 1000, 30000}).Draw(rt, "before")
		s.Refused = rapid.IntRange(0, 4).Draw(rt, "refused") == 0
		s.After = rapid.SampledFrom([]int{0, 1, 500, 10000}).Draw(rt, "afterwards")
		s.Err = rapid.IntRange(0, 2).Draw(rt, "err") == 0
		if rapid.IntRange(0, 2).Draw(rt, "rebalance") == 0 {
			s.Rebalance = rapid.IntRange(1, 12000).Draw(rt, "rebalanceAfter")
			s.Late = rapid.IntRange(0, 3).Draw(rt, "late")
		}
	}
	if s.Refused {
		s.Err = true
		return s
	}
	s.Idle = rapid.Bool().Draw(rt, "idle")
	s.Buffer = rapid.SampledFrom([]int{0, 0, 1, 3, 256}).Draw(rt, "buffer")
	for range rapid.SampledFrom([]int{0, 1, 1, 2, 3, 6}).Draw(rt, "partitions") {
		var p []message
		for range rapid.SampledFrom([]int{0, 1, 2, 4, 8, 20}).Draw(rt, "messages") {
			p = append(p, drawMessage(rt, level, slow))
		}
		s.Partitions = append(s.Partitions, p)
	}
	return s
}

func draw(slow bool) func(rt *rapid.T) groupCase {
	return func(rt *rapid.T) groupCase {
		level := rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(rt, "level")
		c := groupCase{}
		for range rapid.IntRange(1, 5).Draw(rt, "sessions") {
			c.Sessions = append(c.Sessions, drawSession(rt, level, slow))
		}
		if slow && rapid.Bool().Draw(rt, "close") {
			c.Close = rapid.SampledFrom([]int{1, 50, 1000, 20000, 60000}).Draw(rt, "closeAfter") + rapid.IntRange(0, 50).Draw(rt, "closeMore")
		}
		return c
	}
}

// state of a message
type tracked struct {
	message
	want      proxy.Span
	decodable bool
	offset    int64
	sent      bool
	calls     int
	returned  bool
}

// group is the consumer group.
type group struct {
	c     groupCase
	start time.Time

	mu       sync.Mutex
	err      error
	consumes int // running calls
	calls    int
	active   int // callbacks
	closed   bool
	messages map[proxy.Id]*tracked
	exhaust  chan struct{}
	nextId   int
}

func (g *group) fail(format string, args ...any) {
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.err == nil {
		g.err = fmt.Errorf(format, args...)
	}
}

func (g *group) Errors() <-chan error { return nil }
func (g *group) Close() error         { return nil }

func (g *group) callback(span proxy.Span) {
	g.mu.Lock()
	if g.closed {
		g.mu.Unlock()
		g.fail("callback for span %s after it was closed", span.Id)
		return
	}
	m := g.messages[span.Id]
	if m == nil || !m.decodable {
		g.mu.Unlock()
		g.fail("callback for a span that nobody sent: %s", gen.Describe(span))
		return
	}
	g.active++
	m.calls++
	n := m.calls
	g.mu.Unlock()
	if n > 1 {
		g.fail("message with offset %d was delivered twice", m.offset)
	}
	if !gen.Equal(span, m.want) {
		g.fail("message with offset %d was delivered as\n  %s, want\n  %s", m.offset, gen.Describe(span), gen.Describe(m.want))
	}
	if m.Callback > 0 {
		time.Sleep(time.Duration(m.Callback) * time.Millisecond)
	}
	g.mu.Lock()
	m.returned = true
	g.active--
	g.mu.Unlock()
}

type claim struct {
	g         *group
	s         *running
	partition int32
	messages  []*tracked
	ch        chan *sarama.ConsumerMessage
	marked    int64
	done      chan struct{}
}

func (c *claim) Topic() string              { return topic }
func (c *claim) Partition() int32           { return c.partition }
func (c *claim) InitialOffset() int64       { return 10 }
func (c *claim) HighWaterMarkOffset() int64 { return 1000000 }
func (c *claim) Messages() <-chan *sarama.ConsumerMessage {
	return c.ch
}

// running is a session.
type running struct {
	g      *group
	n      int
	ctx    context.Context
	claims []*claim
}

func (s *running) Claims() map[string][]int32 {
	m := map[string][]int32{}
	for _, c := range s.claims {
		m[topic] = append(m[topic], c.partition)
	}
	return m
}
func (s *running) MemberID() string         { return "member" }
func (s *running) GenerationID() int32      { return int32(s.n) }
func (s *running) Context() context.Context { return s.ctx }
func (s *running) ResetOffset(topic string, partition int32, offset int64, metadata string) {
	s.g.fail("offset of partition %d was reset to %d", partition, offset)
}
func (s *running) MarkMessage(msg *sarama.ConsumerMessage, metadata string) {
	s.MarkOffset(msg.Topic, msg.Partition, msg.Offset+1, metadata)
}

// MarkOffset marks everything before the offset.
func (s *running) MarkOffset(name string, partition int32, offset int64, metadata string) {
	g := s.g
	if name != topic || int(partition) >= 10*len(s.claims) || partition%10 != 7 {
		g.fail("an offset of partition %d of topic %q was marked", partition, name)
		return
	}
	c := s.claims[partition/10]
	g.mu.Lock()
	defer g.mu.Unlock()
	if offset <= c.marked {
		return
	}
	c.marked = offset
	last := int64(0)
	for _, m := range c.messages {
		if m.sent {
			last = m.offset
		}
		if m.offset < offset && m.decodable && !m.returned && g.err == nil {
			g.err = fmt.Errorf("partition %d: offset %d was marked, but the callback for offset %d did not return yet (%d calls)", partition, offset-1, m.offset, m.calls)
		}
	}
	if offset > last+1 && g.err == nil {
		g.err = fmt.Errorf("partition %d: offset %d was marked, but the last message has offset %d", partition, offset-1, last)
	}
}

// feed sends the messages of a claim.
func (c *claim) feed() {
	defer close(c.ch)
	c.sendAll()
	if c.g.c.Sessions[c.s.n].Idle {
		select {
		case <-time.After(time.Hour):
			// none of them may wait for more
			if err := c.check(); err != nil {
				c.g.fail("an hour later, %v", err)
			}
		case <-c.s.ctx.Done():
		}
	}
}

func (c *claim) sendAll() {
	late := c.g.c.Sessions[c.s.n].Late
	for _, m := range c.messages {
		if m.After > 0 && c.s.ctx.Err() == nil {
			select {
			case <-time.After(time.Duration(m.After) * time.Millisecond):
			case <-c.s.ctx.Done():
			}
		}
		if c.s.ctx.Err() != nil {
			if late == 0 {
				return
			}
			late--
		}
		var value []byte
		if m.Cut != -2 {
			value = avro.Encode(nil, m.Span, m.Blocks)
			switch {
			case m.Cut == -1:
				value = []byte{}
			case m.Cut > 0:
				value = value[:max(0, len(value)-m.Cut)]
			}
		}
		msg := &sarama.ConsumerMessage{Topic: topic, Partition: c.partition, Offset: m.offset, Key: []byte("key"), Value: value}
		c.g.mu.Lock()
		m.sent = true
		c.g.mu.Unlock()
		select {
		case c.ch <- msg:
		case <-c.done:
			return
		case <-c.s.ctx.Done():
			// it may take this one too
			select {
			case c.ch <- msg:
			case <-c.done:
				return
			case <-time.After(100 * time.Millisecond):
				return
			}
		}
	}
}

func (c *claim) check() error {
	g := c.g
	g.mu.Lock()
	defer g.mu.Unlock()
	ended := c.s.ctx.Err() != nil // messages may be left out then
	var missing *tracked
	lastDelivered := int64(-1)
	for _, m := range c.messages {
		if !m.decodable {
			continue
		}
		if m.calls == 0 {
			if !ended {
				return fmt.Errorf("session %d: the message with offset %d of partition %d was never delivered", c.s.n, m.offset, c.partition)
			}
			if missing == nil {
				missing = m
			}
			continue
		}
		if missing != nil {
			return fmt.Errorf("session %d: the message with offset %d of partition %d was delivered, but not the one with offset %d before it", c.s.n, m.offset, c.partition, missing.offset)
		}
		if !m.returned {
			return fmt.Errorf("session %d: the claim ended while the callback for offset %d of partition %d was running", c.s.n, m.offset, c.partition)
		}
		lastDelivered = m.offset
	}
	if lastDelivered >= 0 && c.marked <= lastDelivered {
		return fmt.Errorf("session %d: the message with offset %d of partition %d was delivered but not marked (%d)", c.s.n, lastDelivered, c.partition, c.marked)
	}
	return nil
}

func (g *group) Consume(ctx context.Context, topics []string, handler sarama.ConsumerGroupHandler) error {
	g.mu.Lock()
	n := g.calls
	g.calls++
	g.consumes++
	several := g.consumes > 1
	closed := g.closed
	g.mu.Unlock()
	defer func() {
		g.mu.Lock()
		g.consumes--
		g.mu.Unlock()
	}()
	if several {
		g.fail("Consume was called while a session is running")
	}
	if closed {
		g.fail("Consume was called after closing")
	}
	if len(topics) != 1 || topics[0] != topic {
		g.fail("consuming topics %q", topics)
	}
	if n >= len(g.c.Sessions) {
		if n == len(g.c.Sessions) {
			close(g.exhaust)
		}
		<-ctx.Done()
		return ctx.Err()
	}
	script := g.c.Sessions[n]
	select {
	case <-time.After(time.Duration(script.Before) * time.Millisecond):
	case <-ctx.Done():
		return ctx.Err()
	}
	if script.Refused {
		return errors.New("cannot join the group")
	}

	sctx, cancel := context.WithCancel(ctx)
	defer cancel()
	s := &running{g: g, n: n, ctx: sctx}
	for i, p := range script.Partitions {
		c := &claim{g: g, s: s, partition: int32(10*i + 7), ch: make(chan *sarama.ConsumerMessage, script.Buffer), done: make(chan struct{})}
		offset := int64(10)
		g.mu.Lock()
		for _, m := range p {
			offset += int64(m.Offset)
			g.nextId++
			m.Span.Id = int64(g.nextId)
			t := &tracked{message: m, want: m.Span.Proxy(), decodable: m.Cut == 0, offset: offset}
			g.messages[proxy.Id(m.Span.Id)] = t
			c.messages = append(c.messages, t)
			offset++
		}
		g.mu.Unlock()
		s.claims = append(s.claims, c)
	}
	if err := handler.Setup(s); err != nil {
		g.fail("the session was refused: %v", err)
		return err
	}
	if script.Rebalance > 0 {
		stop := time.AfterFunc(time.Duration(script.Rebalance)*time.Millisecond, cancel)
		defer stop.Stop()
	}
	var wg sync.WaitGroup
	for _, c := range s.claims {
		wg.Add(2)
		go func() {
			defer wg.Done()
			c.feed()
		}()
		go func() {
			defer wg.Done()
			err := engine.Protect(func() error {
				// what it returns is only logged
				_ = handler.ConsumeClaim(s, c)
				return nil
			})
			close(c.done)
			if err != nil {
				g.fail("ConsumeClaim: %v", err)
			}
			if err := c.check(); err != nil {
				g.fail("%v", err)
			}
		}()
	}
	wg.Wait()
	if err := handler.Cleanup(s); err != nil {
		g.fail("Cleanup: %v", err)
	}
	if script.After > 0 {
		time.Sleep(time.Duration(script.After) * time.Millisecond)
	}
	if script.Err {
		return errors.New("session failed")
	}
	return nil
}

func run(e *engine.Env, c groupCase) error {
	messages, corrupt, partitions := 0, 0, 0
	for _, s := range c.Sessions {
		partitions = max(partitions, len(s.Partitions))
		e.LabelIf(s.Err, "sessions with errors")
		e.LabelIf(s.Rebalance > 0, "rebalanced")
		for _, p := range s.Partitions {
			for _, m := range p {
				messages++
				if m.Cut != 0 {
					corrupt++
				}
			}
		}
	}
	idle := false
	for _, s := range c.Sessions {
		idle = idle || s.Idle
	}
	e.LabelIf(idle, "idle sessions")
	e.LabelIf(corrupt > 0, "corrupt messages")
	e.LabelIf(partitions > 1, "several partitions")
	e.NonTrivialIf(messages > 1 && (corrupt > 0 || partitions > 1 || len(c.Sessions) > 1))
	return engine.Bubble(e, func() error {
		g := &group{c: c, start: time.Now(), messages: map[proxy.Id]*tracked{}, exhaust: make(chan struct{})}
		closeConsumer := balance.Consume(g, topic, g.callback)
		failed := func() error {
			g.mu.Lock()
			defer g.mu.Unlock()
			return g.err
		}
		if c.Close > 0 {
			time.Sleep(time.Duration(c.Close) * time.Millisecond)
		} else {
			select {
			case <-g.exhaust:
				time.Sleep(time.Second)
			case <-time.After(24 * time.Hour):
				g.fail("consuming does not go on, there were %d of %d sessions after a day", g.calls, len(c.Sessions))
			}
		}
		g.mu.Lock()
		e.LabelIf(g.consumes > 0 && g.calls <= len(c.Sessions), "closed during a session")
		e.LabelIf(g.active > 0, "closed during a callback")
		g.mu.Unlock()
		done := make(chan struct{})
		go func() {
			closeConsumer()
			g.mu.Lock()
			g.closed = true
			if g.consumes > 0 && g.err == nil {
				g.err = errors.New("closing did not wait for the running session")
			}
			if g.active > 0 && g.err == nil {
				g.err = errors.New("closing did not wait for a running callback")
			}
			g.mu.Unlock()
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(24 * time.Hour):
			if err := failed(); err != nil {
				return err
			}
			return errors.New("closing takes more than a day")
		}
		// something may happen afterwards
		time.Sleep(24 * time.Hour)
		return failed()
	})
}

func TestCheck(t *testing.T) {
	engine.Main(t, "P10",
		engine.New("script", 40000, 2000000, draw(true), run),
		engine.New("concurrent", 20000, 1000000, draw(false), run).Repeat(20),
	)
}
