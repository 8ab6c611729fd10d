package p09

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/Shopify/sarama"
	"github.com/flachnetz/dd-zipkin-proxy/balance"
	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/avro"
	"verifharness/engine"
	"verifharness/gen"
	"verifharness/kafka"
)

const topic = "the-topic"

// item is a span that is sent several times with different ids.
type item struct {
	Span   gen.Span
	Pad    int `json:",omitempty"` // so many bytes are added to its name
	Repeat int `json:",omitempty"`
	// so much is added to the trace id each time
	Traces int64 `json:",omitempty"`
}

type sendCase struct {
	Senders [][]item
	// all use the same Sender
	Shared     bool `json:",omitempty"`
	Partitions int
	Modern     bool `json:",omitempty"`
	Ack        bool `json:",omitempty"`
	Buffer     int
	FlushMs    int `json:",omitempty"`
	MaxBytes   int
	Refuse     []int `json:",omitempty"` // batches
}

func drawItem(rt *rapid.T, level int, maxBytes int, bulk bool) item {
	text := func(label string) gen.Bin { return gen.Bytes(rt, label, level) }
	it := item{}
	if rapid.IntRange(0, 2).Draw(rt, "plain") == 0 {
		it.Span = gen.Span{Trace: int64(rapid.IntRange(1, 5).Draw(rt, "trace")), Name: "plain", Tags: []gen.KV{{K: "key", V: "value"}}}
	} else {
		it.Span = gen.DrawSpan(rt, text, 10)
	}
	switch rapid.IntRange(0, 5).Draw(rt, "size") {
	case 0: // near what is reserved
		it.Pad = max(0, rapid.IntRange(490, 540).Draw(rt, "near")-size(it))
	case 1:
		it.Pad = rapid.SampledFrom([]int{100, 1000, 5000, 33000, 70000}).Draw(rt, "pad")
	case 2: // near or above the limit
		if maxBytes < 1<<20 || rapid.IntRange(0, 3).Draw(rt, "really") == 0 {
			it.Pad = max(0, maxBytes+rapid.SampledFrom([]int{-300, 0, 300, 10000}).Draw(rt, "above")-size(it))
		}
	}
	if bulk && it.Pad < 2000 && size(it) < 2000 {
		it.Repeat = rapid.SampledFrom([]int{0, 5, 50, 400, 700}).Draw(rt, "repeat")
	} else if it.Pad < 100000 && rapid.IntRange(0, 3).Draw(rt, "more") == 0 {
		it.Repeat = rapid.IntRange(1, 20).Draw(rt, "repeat")
	}
	it.Traces = rapid.SampledFrom([]int64{0, 1, 256, 1 << 32, 1 << 56, -1}).Draw(rt, "traces")
	return it
}

// size is the size of its encoding.
func size(it item) int { return len(avro.Encode(nil, it.Span, nil)) + it.Pad }

func draw(rt *rapid.T) sendCase {
	c := sendCase{
		Partitions: rapid.SampledFrom([]int{1, 3, 12}).Draw(rt, "partitions"),
		Modern:     rapid.Bool().Draw(rt, "modern"),
		Ack:        rapid.Bool().Draw(rt, "ack"),
		Buffer:     rapid.SampledFrom([]int{0, 1, 64, 256}).Draw(rt, "buffer"),
		FlushMs:    rapid.SampledFrom([]int{0, 0, 1, 10}).Draw(rt, "flush"),
		MaxBytes:   rapid.SampledFrom([]int{1000, 10000, 100000, 768 * 1024, 768 * 1024}).Draw(rt, "max"),
		Shared:     rapid.Bool().Draw(rt, "shared"),
	}
	level := rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(rt, "level")
	bulk := rapid.IntRange(0, 3).Draw(rt, "bulk") == 0
	for range rapid.SampledFrom([]int{1, 1, 2, 4, 8}).Draw(rt, "senders") {
		var items []item
		for range rapid.IntRange(1, 8).Draw(rt, "items") {
			items = append(items, drawItem(rt, level, c.MaxBytes, bulk))
		}
		c.Senders = append(c.Senders, items)
	}
	if c.Ack && rapid.IntRange(0, 3).Draw(rt, "refuse") == 0 {
		c.Refuse = rapid.SliceOfN(rapid.IntRange(0, 10), 1, 6).Draw(rt, "refused")
	}
	return c
}

// message is what the partitioner has seen.
type message struct {
	key, value       []byte
	keyEnc, valueEnc sarama.Encoder
}

type capture struct {
	mu       sync.Mutex
	messages []message
	err      error
}

func (c *capture) New(topic string) sarama.Partitioner {
	return &partitioner{sarama.NewHashPartitioner(topic), c}
}

type partitioner struct {
	sarama.Partitioner
	c *capture
}

func encode(e sarama.Encoder) ([]byte, error) {
	if e == nil {
		return nil, nil
	}
	b, err := e.Encode()
	if err == nil && len(b) != e.Length() {
		err = fmt.Errorf("%d bytes with a length of %d", len(b), e.Length())
	}
	return append([]byte(nil), b...), err
}

func (p *partitioner) Partition(m *sarama.ProducerMessage, n int32) (int32, error) {
	c := p.c
	c.mu.Lock()
	defer c.mu.Unlock()
	out := message{keyEnc: m.Key, valueEnc: m.Value}
	var err error
	if out.key, err = encode(m.Key); err != nil && c.err == nil {
		c.err = fmt.Errorf("key: %v", err)
	}
	if out.value, err = encode(m.Value); err != nil && c.err == nil {
		c.err = fmt.Errorf("value: %v", err)
	}
	c.messages = append(c.messages, out)
	return p.Partitioner.Partition(m, n)
}

func decode(value []byte) (proxy.Span, error) {
	s, err := codec.BinaryDecode(bytes.NewReader(value))
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return gen.Clone(s, true), err
}

func short(b []byte) string {
	if len(b) > 60 {
		return hex.EncodeToString(b[:60]) + fmt.Sprintf("...(%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

func run(e *engine.Env, c sendCase) error {
	broker, err := kafka.Start(c.Partitions, map[int]bool{})
	if err != nil {
		panic(engine.HarnessError(err))
	}
	defer broker.Close()
	for _, n := range c.Refuse {
		broker.Refuse[n] = true
	}
	seen := &capture{}
	// the producers cannot be closed and refer to it
	defer func() {
		seen.mu.Lock()
		seen.messages = nil
		seen.mu.Unlock()
	}()
	cfg := sarama.NewConfig()
	cfg.Version = sarama.V0_8_2_0
	if c.Modern {
		cfg.Version = sarama.V1_1_1_0
	}
	cfg.Producer.RequiredAcks = sarama.NoResponse
	if c.Ack {
		cfg.Producer.RequiredAcks = sarama.WaitForLocal
	}
	cfg.Producer.Flush.Frequency = time.Duration(c.FlushMs) * time.Millisecond
	cfg.Producer.MaxMessageBytes = c.MaxBytes
	cfg.Producer.Partitioner = seen.New
	cfg.ChannelBufferSize = c.Buffer
	cfg.Metadata.RefreshFrequency = time.Hour
	client, err := sarama.NewClient([]string{broker.Addr()}, cfg)
	if err != nil {
		panic(engine.HarnessError(err))
	}
	defer client.Close()

	// the spans of each sender
	all := map[proxy.Id]proxy.Span{}
	must := map[proxy.Id]bool{}
	var streams [][]proxy.Span
	next := 0
	tooLarge, large, total := 0, 0, 0
	for _, items := range c.Senders {
		var spans []proxy.Span
		for _, it := range items {
			for n := range it.Repeat + 1 {
				next++
				s := it.Span
				s.Id = int64(next)
				s.Trace += int64(n) * it.Traces
				s.Name += gen.Bin(strings.Repeat("p", it.Pad))
				span := s.Proxy()
				spans = append(spans, span)
				all[span.Id] = gen.Clone(span, true)
				total++
				switch l := size(it); {
				case l+300 < c.MaxBytes:
					must[span.Id] = true
					if l > 512 {
						large++
					}
				case l > c.MaxBytes:
					tooLarge++
				}
			}
		}
		streams = append(streams, spans)
	}
	e.LabelIf(len(streams) > 1 && c.Shared, "several goroutines send")
	e.LabelIf(len(streams) > 1 && !c.Shared, "several senders")
	e.LabelIf(large > 0, "more than 512 bytes")
	e.LabelIf(tooLarge > 0, "too large")
	e.LabelIf(total > 600, "more than 600 spans")
	e.LabelIf(c.Modern, "record batches")
	e.NonTrivialIf(total > 1 && (len(streams) > 1 || large > 0))

	var senders []*balance.Sender
	for range streams {
		if c.Shared && len(senders) > 0 {
			senders = append(senders, senders[0])
			continue
		}
		s, err := balance.NewSender(client, topic)
		if err != nil {
			return fmt.Errorf("cannot make a sender: %v", err)
		}
		senders = append(senders, s)
	}
	progress := func() int {
		msgs, _ := broker.Messages()
		seen.mu.Lock()
		defer seen.mu.Unlock()
		return len(msgs) + len(seen.messages)
	}
	// wait waits for something that must not take long as long as nothing else happens
	wait := func(what string, done func() (bool, error)) error {
		last, since := progress(), time.Now()
		for {
			ok, err := done()
			if ok || err != nil {
				return err
			}
			select {
			case <-broker.Changed():
			case <-time.After(time.Millisecond):
			}
			if now := progress(); now != last {
				last, since = now, time.Now()
			}
			if time.Since(since) > 40*time.Second {
				return fmt.Errorf("%s does not happen", what)
			}
		}
	}
	send := func(sender *balance.Sender, spans []proxy.Span, done chan<- error) {
		ch := make(chan proxy.Span)
		go func() {
			done <- engine.Protect(func() error { sender.Send(ch); return nil })
		}()
		go func() {
			for _, s := range spans {
				ch <- s
			}
			close(ch)
		}()
	}
	join := func(done <-chan error, n int) error {
		return wait("the end of sending", func() (bool, error) {
			for n > 0 {
				select {
				case err := <-done:
					if err != nil {
						return false, err
					}
					n--
					continue
				default:
				}
				break
			}
			return n == 0, nil
		})
	}
	done := make(chan error, len(streams))
	for i := range streams {
		send(senders[i], streams[i], done)
	}
	if err := join(done, len(streams)); err != nil {
		return err
	}
	// the last ones tell that everything before them was seen by the partitioner
	sentinels := make(chan error, len(senders))
	for i, s := range senders {
		next++
		last := proxy.Span{Id: proxy.Id(next), Trace: proxy.Id(next), Name: "last"}
		all[last.Id] = last
		must[last.Id] = true
		send(s, []proxy.Span{last}, sentinels)
		_ = i
	}
	if err := join(sentinels, len(senders)); err != nil {
		return err
	}

	arrived := map[proxy.Id]int{}
	decoded := 0
	keys := map[proxy.Id]string{}
	traces := map[string]proxy.Id{}
	partitions := map[proxy.Id]int32{}
	refused := 0
	check := func(key, value []byte) (proxy.Span, error) {
		span, err := decode(value)
		if err != nil {
			return span, fmt.Errorf("message with a value that is no span: %v: %s", err, short(value))
		}
		want, ok := all[span.Id]
		if !ok {
			return span, fmt.Errorf("message with a span that was not sent: %s", gen.Describe(span))
		}
		if !gen.Equal(span, want) {
			return span, fmt.Errorf("message with span\n  %s, want\n  %s", gen.Describe(span), gen.Describe(want))
		}
		if k, ok := keys[span.Trace]; ok && k != string(key) {
			return span, fmt.Errorf("messages of trace %s with keys %x and %x", span.Trace, k, key)
		}
		if t, ok := traces[string(key)]; ok && t != span.Trace {
			return span, fmt.Errorf("messages of traces %s and %s with key %x", t, span.Trace, key)
		}
		keys[span.Trace], traces[string(key)] = string(key), span.Trace
		return span, nil
	}
	err = wait("arrival of all spans", func() (bool, error) {
		msgs, err := broker.Messages()
		if err != nil {
			panic(engine.HarnessError(err))
		}
		for ; decoded < len(msgs); decoded++ {
			m := msgs[decoded]
			if m.Topic != topic {
				return false, fmt.Errorf("message in topic %q", m.Topic)
			}
			span, err := check(m.Key, m.Value)
			if err != nil {
				return false, err
			}
			if arrived[span.Id]++; arrived[span.Id] > 1 {
				return false, fmt.Errorf("span was sent twice: %s", gen.Describe(span))
			}
			if p, ok := partitions[span.Trace]; ok && p != m.Partition {
				return false, fmt.Errorf("trace %s is in partitions %d and %d", span.Trace, p, m.Partition)
			}
			partitions[span.Trace] = m.Partition
			if m.Refused {
				refused++
			}
		}
		for id := range must {
			if arrived[id] == 0 {
				return false, nil
			}
		}
		return true, nil
	})
	e.LabelIf(refused > 0, "refused by the broker")
	if err != nil {
		missing := 0
		for id := range must {
			if arrived[id] == 0 {
				missing++
			}
		}
		return fmt.Errorf("%v (%d of %d spans are missing)", err, missing, len(must))
	}

	// what the producer was given
	seen.mu.Lock()
	defer seen.mu.Unlock()
	if seen.err != nil {
		return seen.err
	}
	given := map[proxy.Id]bool{}
	for _, m := range seen.messages {
		span, err := check(m.key, m.value)
		if err != nil {
			return fmt.Errorf("producer: %v", err)
		}
		if given[span.Id] {
			return fmt.Errorf("producer: span was sent twice: %s", gen.Describe(span))
		}
		given[span.Id] = true
		key, err := encode(m.keyEnc)
		if err == nil && !bytes.Equal(key, m.key) {
			err = fmt.Errorf("key was changed from %s to %s", short(m.key), short(key))
		}
		if err != nil {
			return err
		}
		value, err := encode(m.valueEnc)
		if err == nil && !bytes.Equal(value, m.value) {
			err = fmt.Errorf("value was changed from %s to %s", short(m.value), short(value))
		}
		if err != nil {
			return err
		}
	}
	for id := range arrived {
		if !given[id] {
			panic(engine.HarnessError(errors.New("a message arrived that the partitioner did not see")))
		}
	}
	return nil
}

func TestCheck(t *testing.T) {
	sarama.Logger = quiet{}
	engine.Main(t, "P09", engine.New("concurrent", 2000, 16000, draw, run).Timeout(300*time.Second).Repeat(20))
}

type quiet struct{}

func (quiet) Print(v ...interface{})                 {}
func (quiet) Printf(format string, v ...interface{}) {}
func (quiet) Println(v ...interface{})               {}
