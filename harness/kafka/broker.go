// Package kafka has a broker that keeps all messages it receives.
package kafka

import (
	"bufio"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
)

// Message is a message that was accepted or refused.
type Message struct {
	Topic      string
	Partition  int32
	Key, Value []byte
	Refused    bool
	Old        bool // of a test, which does not expect it to be consumed
}

// Unsupported is a part of the protocol the broker does not speak.
type Unsupported string

func (u Unsupported) Error() string { return string(u) + " is not supported" }

// Broker is a single Kafka broker on the loopback network. It speaks just enough of the protocol
// to send messages to it.
type Broker struct {
	Partitions int
	// number of messages after which one batch is refused
	Refuse map[int]bool

	listeners []net.Listener
	group     *Group

	mu       sync.Mutex
	conns    []*conn
	down     map[string]bool // addresses that nobody can connect to
	closed   bool
	messages []Message
	batches  int
	err      error
	changed  chan struct{}
}

// Start starts a broker.
func Start(partitions int, refuse map[int]bool) (*Broker, error) {
	b := &Broker{Partitions: partitions, Refuse: refuse, changed: make(chan struct{}, 1)}
	return b, b.listen()
}

func (b *Broker) listen() (err error) {
	_, err = b.Listen()
	return err
}

// Listen gives the broker another address. Clients that use it do not learn of the others.
func (b *Broker) Listen() (string, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "", err
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	b.listeners = append(b.listeners, l)
	go b.accept(l)
	return l.Addr().String(), nil
}

// Addr is the first address of the broker.
func (b *Broker) Addr() string { return b.listeners[0].Addr().String() }

// conn is a connection of a client.
type conn struct {
	net.Conn
	addr string // of the broker
	dead bool
}

func (c *conn) local() *net.TCPAddr { return c.LocalAddr().(*net.TCPAddr) }

// Drop ends all connections to an address.
func (b *Broker) Drop(addr string, hard bool) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, c := range b.conns {
		if c.addr == addr && !c.dead {
			c.drop(hard)
		}
	}
}

func (c *conn) drop(hard bool) {
	if hard {
		_ = c.Conn.(*net.TCPConn).SetLinger(0)
	}
	c.dead = true
	_ = c.Close()
}

// SetDown makes an address unavailable, or available again.
func (b *Broker) SetDown(addr string, down bool) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.down == nil {
		b.down = map[string]bool{}
	}
	b.down[addr] = down
}

// Messages is everything that was received. The error is a problem with the protocol.
func (b *Broker) Messages() ([]Message, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.messages, b.err
}

// Changed is signalled after messages were received.
func (b *Broker) Changed() <-chan struct{} { return b.changed }

// Close ends all connections.
func (b *Broker) Close() {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.closed = true
	for _, l := range b.listeners {
		_ = l.Close()
	}
	for _, c := range b.conns {
		c.drop(false)
	}
}

func (b *Broker) accept(l net.Listener) {
	for {
		nc, err := l.Accept()
		if err != nil {
			return
		}
		c := &conn{Conn: nc, addr: l.Addr().String()}
		b.mu.Lock()
		b.conns = append(b.conns, c)
		if b.closed || b.down[c.addr] {
			c.drop(true)
		}
		b.mu.Unlock()
		go b.serve(c)
	}
}

func (b *Broker) serve(c *conn) {
	defer func() {
		b.mu.Lock()
		defer b.mu.Unlock()
		c.drop(false)
		for i := range b.conns {
			if b.conns[i] == c {
				b.conns = append(b.conns[:i], b.conns[i+1:]...)
				break
			}
		}
	}()
	r := bufio.NewReaderSize(c, 1<<16)
	for {
		var size [4]byte
		if _, err := io.ReadFull(r, size[:]); err != nil {
			return
		}
		req := make([]byte, binary.BigEndian.Uint32(size[:]))
		if _, err := io.ReadFull(r, req); err != nil {
			return
		}
		resp, err := b.handle(c, &reader{b: req})
		if err != nil {
			b.mu.Lock()
			if b.err == nil {
				b.err = err
			}
			b.mu.Unlock()
			return
		}
		if resp != nil {
			binary.BigEndian.PutUint32(resp, uint32(len(resp)-4))
			if _, err := c.Write(resp); err != nil {
				return
			}
		}
	}
}

func (b *Broker) handle(c *conn, r *reader) (resp []byte, err error) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(Unsupported); ok {
				err = u
				return
			}
			err = fmt.Errorf("bad request: %v", e)
		}
	}()
	api, version, correlation := r.int16(), r.int16(), r.int32()
	r.str() // client id
	w := &writer{b: make([]byte, 4)}
	w.int32(correlation)
	switch api {
	case 0:
		if !b.produce(r, w, version) {
			return nil, nil
		}
	case 3:
		b.metadata(c, r, w, version)
	default:
		if b.group == nil {
			return nil, Unsupported(fmt.Sprintf("api %d", api))
		}
		b.groupRequest(c, api, version, r, w)
	}
	return w.b, nil
}

func (b *Broker) metadata(c *conn, r *reader, w *writer, version int16) {
	if version != 0 && version != 1 && version != 5 {
		panic(Unsupported(fmt.Sprint("metadata version ", version)))
	}
	var topics []string
	for range r.int32() {
		topics = append(topics, r.str())
	}
	if version == 5 {
		w.int32(0) // throttle time
	}
	exists := true
	if b.group != nil {
		b.mu.Lock()
		defer b.mu.Unlock()
		exists = b.group.created
		if topics == nil && exists {
			topics = []string{b.group.Topic}
		}
	}
	addr := c.local()
	w.int32(1)
	w.int32(1)
	w.str(addr.IP.String())
	w.int32(int32(addr.Port))
	if version >= 1 {
		w.int16(-1) // rack
	}
	if version == 5 {
		w.int16(-1) // cluster id
	}
	if version >= 1 {
		w.int32(1) // controller
	}
	w.int32(int32(len(topics)))
	for _, t := range topics {
		known := exists && (b.group == nil || b.group.Topic == t)
		if known {
			w.int16(0)
		} else {
			w.int16(3) // unknown
		}
		w.str(t)
		if version >= 1 {
			w.int8(0)
		}
		if !known {
			w.int32(0)
			continue
		}
		w.int32(int32(b.Partitions))
		for p := range b.Partitions {
			w.int16(0)
			w.int32(int32(p))
			w.int32(1)
			w.int32(1) // replicas
			w.int32(1)
			w.int32(1) // in sync
			w.int32(1)
			if version == 5 {
				w.int32(0) // offline
			}
		}
	}
}

func (b *Broker) produce(r *reader, w *writer, version int16) bool {
	if version >= 3 {
		if r.int16() != -1 {
			panic(Unsupported("transactions"))
		}
	}
	acks := r.int16()
	r.int32() // timeout
	topics := r.int32()
	w.int32(topics)
	for range topics {
		topic := r.str()
		w.str(topic)
		parts := r.int32()
		w.int32(parts)
		for range parts {
			p := r.int32()
			set := r.take(int(r.int32()))
			msgs := parse(&reader{b: set})
			b.mu.Lock()
			refused := acks != 0 && b.Refuse[b.batches]
			b.batches++
			for _, m := range msgs {
				m.Topic, m.Partition, m.Refused = topic, p, refused
				b.messages = append(b.messages, m)
				if b.group != nil {
					if topic != b.group.Topic || p < 0 || int(p) >= len(b.group.logs) {
						b.mu.Unlock()
						panic(fmt.Sprintf("message for partition %d of %q", p, topic))
					}
					b.group.logs[p] = append(b.group.logs[p], m)
				}
			}
			b.mu.Unlock()
			w.int32(p)
			if refused {
				w.int16(87) // invalid record
			} else {
				w.int16(0)
			}
			w.int64(0)
			if version >= 2 {
				w.int64(-1) // time
			}
			if version >= 5 {
				w.int64(0)
			}
		}
	}
	if version >= 1 {
		w.int32(0)
	}
	select {
	case b.changed <- struct{}{}:
	default:
	}
	return acks != 0
}

// parse reads uncompressed messages in both formats.
func parse(r *reader) (out []Message) {
	for len(r.b) > 0 {
		r.int64() // offset
		size := r.int32()
		batch := &reader{b: r.take(int(size))}
		batch.int32() // crc or leader epoch
		magic := batch.int8()
		if magic < 2 {
			if batch.int8() != 0 {
				panic(Unsupported("compression"))
			}
			if magic == 1 {
				batch.int64()
			}
			out = append(out, Message{Key: batch.bytes(int(batch.int32())), Value: batch.bytes(int(batch.int32()))})
			continue
		}
		batch.int32() // crc
		if batch.int16()&7 != 0 {
			panic(Unsupported("compression"))
		}
		batch.take(4 + 8 + 8 + 8 + 2 + 4)
		for range batch.int32() {
			rec := &reader{b: batch.take(int(batch.varint()))}
			rec.int8()
			rec.varint()
			rec.varint()
			m := Message{Key: rec.bytes(int(rec.varint()))}
			m.Value = rec.bytes(int(rec.varint()))
			out = append(out, m)
		}
	}
	return out
}

type reader struct{ b []byte }

func (r *reader) take(n int) []byte {
	if n < 0 || n > len(r.b) {
		panic(errors.New("truncated"))
	}
	out := r.b[:n:n]
	r.b = r.b[n:]
	return out
}

func (r *reader) bytes(n int) []byte {
	if n == -1 {
		return nil
	}
	return append([]byte{}, r.take(n)...)
}
func (r *reader) int8() int8   { return int8(r.take(1)[0]) }
func (r *reader) int16() int16 { return int16(binary.BigEndian.Uint16(r.take(2))) }
func (r *reader) int32() int32 { return int32(binary.BigEndian.Uint32(r.take(4))) }
func (r *reader) int64() int64 { return int64(binary.BigEndian.Uint64(r.take(8))) }
func (r *reader) str() string {
	n := r.int16()
	if n < 0 {
		return ""
	}
	return string(r.take(int(n)))
}
func (r *reader) varint() int64 {
	v, n := binary.Varint(r.b)
	if n <= 0 {
		panic(errors.New("bad varint"))
	}
	r.b = r.b[n:]
	return v
}

type writer struct{ b []byte }

func (w *writer) int8(v int8)   { w.b = append(w.b, byte(v)) }
func (w *writer) int16(v int16) { w.b = binary.BigEndian.AppendUint16(w.b, uint16(v)) }
func (w *writer) int32(v int32) { w.b = binary.BigEndian.AppendUint32(w.b, uint32(v)) }
func (w *writer) int64(v int64) { w.b = binary.BigEndian.AppendUint64(w.b, uint64(v)) }
func (w *writer) str(s string) {
	w.int16(int16(len(s)))
	w.b = append(w.b, s...)
}
