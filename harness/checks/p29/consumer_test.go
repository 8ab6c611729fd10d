package p29

import (
	"context"
	"errors"
	"sync/atomic"
	"time"

	"github.com/Shopify/sarama"
	"github.com/flachnetz/dd-zipkin-proxy/balance"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/avro"
	"verifharness/engine"
	"verifharness/gen"
)

type consumerCase struct {
	Partitions int
	Messages   int // per phase and partition
	Cut        int // percent
	Sessions   int // per phase, 0 for one that lasts for ever
	Fails      int // of them
	Span       gen.Span
}

func drawConsumer(rt *rapid.T) consumerCase {
	c := consumerCase{Partitions: rapid.SampledFrom([]int{1, 2, 5}).Draw(rt, "partitions"), Cut: rapid.SampledFrom([]int{0, 0, 10, 50, 100}).Draw(rt, "cut")}
	c.Messages = 6000 / c.Partitions
	c.Sessions = rapid.SampledFrom([]int{0, 0, 1, 10, 500}).Draw(rt, "sessions")
	if c.Sessions > 0 {
		c.Fails = rapid.IntRange(0, c.Sessions).Draw(rt, "fails")
	}
	c.Span = gen.DrawSpan(rt, func(label string) gen.Bin { return gen.Text(rt, label, 0) }, 3)
	return c
}

// endless is a consumer group whose sessions get the messages that feed gives them.
type endless struct {
	c        consumerCase
	sessions chan int // messages per partition, or -1 to fail
	feed     chan int
	fed      chan bool
	done     chan bool
	marked   atomic.Int64
}

func (g *endless) Errors() <-chan error { return nil }
func (g *endless) Close() error         { return nil }

func (g *endless) Consume(ctx context.Context, topics []string, handler sarama.ConsumerGroupHandler) error {
	defer func() {
		select {
		case g.done <- true:
		case <-ctx.Done():
		}
	}()
	if g.c.Sessions == 0 {
		return g.session(ctx, handler, -1)
	}
	select {
	case n := <-g.sessions:
		if n < 0 {
			return errors.New("session failed")
		}
		return g.session(ctx, handler, n)
	case <-ctx.Done():
		return ctx.Err()
	}
}

type endlessSession struct {
	g   *endless
	ctx context.Context
}

func (s *endlessSession) Claims() map[string][]int32 {
	m := map[string][]int32{"t": nil}
	for p := range s.g.c.Partitions {
		m["t"] = append(m["t"], int32(p))
	}
	return m
}
func (s *endlessSession) MemberID() string                            { return "m" }
func (s *endlessSession) GenerationID() int32                         { return 1 }
func (s *endlessSession) MarkOffset(string, int32, int64, string)     { s.g.marked.Add(1) }
func (s *endlessSession) ResetOffset(string, int32, int64, string)    {}
func (s *endlessSession) MarkMessage(*sarama.ConsumerMessage, string) { s.g.marked.Add(1) }
func (s *endlessSession) Context() context.Context                    { return s.ctx }

type endlessClaim struct {
	partition int32
	ch        chan *sarama.ConsumerMessage
}

func (c *endlessClaim) Topic() string                            { return "t" }
func (c *endlessClaim) Partition() int32                         { return c.partition }
func (c *endlessClaim) InitialOffset() int64                     { return 0 }
func (c *endlessClaim) HighWaterMarkOffset() int64               { return 1 << 40 }
func (c *endlessClaim) Messages() <-chan *sarama.ConsumerMessage { return c.ch }

// session gives so many messages to each claim, or as many as are fed if count is negative.
func (g *endless) session(parent context.Context, handler sarama.ConsumerGroupHandler, count int) error {
	ctx, cancel := context.WithCancel(parent)
	defer cancel()
	s := &endlessSession{g, ctx}
	if err := handler.Setup(s); err != nil {
		return err
	}
	ended := make(chan error, g.c.Partitions)
	var claims []*endlessClaim
	for p := range g.c.Partitions {
		c := &endlessClaim{int32(p), make(chan *sarama.ConsumerMessage, 64)}
		claims = append(claims, c)
		go func() { ended <- handler.ConsumeClaim(s, c) }()
	}
	offset := int64(0)
	send := func(n int) {
		for range n {
			offset++
			for _, c := range claims {
				span := g.c.Span
				span.Trace, span.Id = offset, offset
				value := avro.Encode(nil, span, nil)
				if int(offset*7919%100) < g.c.Cut {
					value = value[:len(value)*int(offset%97)/97]
				}
				select {
				case c.ch <- &sarama.ConsumerMessage{Topic: "t", Partition: c.partition, Offset: offset, Value: value}:
				case <-ctx.Done():
					return
				}
			}
		}
	}
	if count >= 0 {
		send(count)
	} else {
	feed:
		for {
			select {
			case n := <-g.feed:
				send(n)
				g.fed <- true
			case <-ctx.Done():
				break feed
			}
		}
	}
	for _, c := range claims {
		close(c.ch)
	}
	for range claims {
		<-ended
	}
	return handler.Cleanup(s)
}

func runConsumer(e *engine.Env, c consumerCase) error {
	e.NonTrivialIf(c.Cut < 100 || c.Sessions > 0)
	e.LabelIf(c.Sessions > 0, "many sessions")
	e.LabelIf(c.Fails > 0, "sessions fail")
	e.LabelIf(c.Cut > 0, "messages that cannot be decoded")
	err := engine.Bubble(e, func() error {
		g := &endless{c: c, sessions: make(chan int), feed: make(chan int), fed: make(chan bool), done: make(chan bool)}
		calls := 0
		spans := make(chan proxy.Span, 256)
		go func() {
			for range spans {
				calls++
			}
		}()
		defer close(spans)
		stop := balance.Consume(g, "t", func(span proxy.Span) { spans <- span })
		defer stop()
		return steady(e, 2, 4, 64<<10+4*6000+4*c.Sessions*32, 4, measure, func(int) error {
			if c.Sessions == 0 {
				g.feed <- c.Messages
				<-g.fed
			}
			for i := range c.Sessions {
				if i < c.Fails {
					g.sessions <- -1
				} else {
					g.sessions <- c.Messages / (c.Sessions - c.Fails)
				}
				<-g.done
			}
			time.Sleep(time.Minute)
			return nil
		})
	})
	return err
}
