package kafka

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"sort"
	"time"
)

// Group is what a broker needs for a consumer group on one topic. The topic keeps what is sent to it.
type Group struct {
	Topic, Name string
	// Members is how many have to join before the group starts
	Members int
	// Exists tells that the topic is already there, with the partitions of the broker
	Exists bool

	logs      [][]Message
	committed []int64 // -1 if nothing is

	created    bool // if it did not exist
	clients    int
	members    map[string][]byte // who joined, with metadata
	waiting    map[string]bool   // for others to join
	generation int32
	leader     string
	assigned   map[string][]byte
	rebalance  bool // the members have to join again
	fetched    map[int32]bool
	waitFetch  map[int32]bool // partitions not yet fetched since the last join

	// Expire tells that members that do not send heartbeats for so long are not in the group any more
	Expire  time.Duration
	joined  map[string]*conn // the last request to join of each member
	address map[string]string
	seen    map[string]time.Time
	commits [][]Committed
	errs    map[int16][]int16 // that are still to be sent, for each kind of request
}

// Committed is a range of offsets that a member has committed.
type Committed struct {
	From, To int64
	Addr     string // the address of the broker that the member uses
}

// Requests that can fail.
const (
	Fetch     = 1
	Commits   = 8
	Join      = 11
	Heartbeat = 12
	Sync      = 14
)

// Fail makes the next requests of a kind fail with an error of the protocol.
func (b *Broker) Fail(api, code int16, n int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for range n {
		b.group.errs[api] = append(b.group.errs[api], code)
	}
}

// NoErrors lets nothing fail any more.
func (b *Broker) NoErrors() {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.group.errs = map[int16][]int16{}
}

// fails returns the error for a request, with the lock.
func (g *Group) fails(api int16) (code int16) {
	if errs := g.errs[api]; len(errs) > 0 {
		code, g.errs[api] = errs[0], errs[1:]
	}
	return code
}

// Gone tells that the program that uses an address is not there any more. Another number of members is enough for
// the group to start.
func (b *Broker) Gone(addr string, members int) {
	b.Drop(addr, false)
	b.mu.Lock()
	defer b.mu.Unlock()
	b.group.Members = members
	for id, a := range b.group.address {
		if a == addr {
			b.group.remove(id)
		}
	}
}

// Forget lets the group forget about all members that use an address.
func (b *Broker) Forget(addr string) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for id, a := range b.group.address {
		if a == addr {
			b.group.remove(id)
		}
	}
}

// SetMembers sets how many are enough for the group to start.
func (b *Broker) SetMembers(n int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.group.Members = n
}

func (g *Group) remove(id string) {
	if _, ok := g.members[id]; ok {
		g.rebalance = true
	}
	delete(g.members, id)
	delete(g.waiting, id)
	delete(g.joined, id)
	delete(g.seen, id)
}

// expire removes members that are not there any more, with the lock.
func (g *Group) expire() {
	for id, c := range g.joined {
		if c.dead && g.waiting[id] {
			delete(g.waiting, id)
		}
	}
	for id, t := range g.seen {
		if g.Expire > 0 && !g.waiting[id] && time.Since(t) > g.Expire {
			g.remove(id)
		}
	}
}

// Log is what the topic has, and the ranges of offsets that were committed, for each partition.
func (b *Broker) Log() (logs [][]Message, commits [][]Committed) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for p, log := range b.group.logs {
		logs = append(logs, append([]Message(nil), log...))
		commits = append(commits, append([]Committed(nil), b.group.commits[p]...))
	}
	return logs, commits
}

// Serve makes a broker that is also the coordinator of a group.
func Serve(partitions int, g *Group) (*Broker, error) {
	b := &Broker{Partitions: partitions, group: g, changed: make(chan struct{}, 1)}
	g.members, g.waiting = map[string][]byte{}, map[string]bool{}
	g.joined, g.address, g.seen = map[string]*conn{}, map[string]string{}, map[string]time.Time{}
	g.errs = map[int16][]int16{}
	if g.Exists {
		b.createTopic()
	}
	return b, b.listen()
}

// with the lock
func (b *Broker) createTopic() {
	g := b.group
	g.created = true
	g.logs = make([][]Message, b.Partitions)
	g.committed = make([]int64, b.Partitions)
	g.commits = make([][]Committed, b.Partitions)
	for i := range g.committed {
		g.committed[i] = -1
	}
}

// Put appends a message to a partition of the topic.
func (b *Broker) Put(partition int, m Message) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.group.logs[partition] = append(b.group.logs[partition], m)
}

// Commit sets the offset of the group to the end of a partition.
func (b *Broker) Commit(partition int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.group.committed[partition] = int64(len(b.group.logs[partition]))
}

// Created tells if the topic exists, and with how many partitions.
func (b *Broker) Created() (bool, int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.group.created, len(b.group.logs)
}

// Consuming tells if all partitions are read by the members of the group.
func (b *Broker) Consuming() bool {
	b.mu.Lock()
	defer b.mu.Unlock()
	g := b.group
	return g.created && g.generation > 0 && !g.rebalance && len(g.fetched) == len(g.logs)
}

// Rebalance lets all members join again.
func (b *Broker) Rebalance() {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.group.rebalance = true
}

// Offsets are the committed offsets and the lengths of the partitions.
func (b *Broker) Offsets() (committed, ends []int64) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, l := range b.group.logs {
		ends = append(ends, int64(len(l)))
	}
	return append(committed, b.group.committed...), ends
}

// until waits for a condition, which is evaluated with the lock.
func (b *Broker) until(limit time.Duration, cond func() bool) bool {
	deadline := time.Now().Add(limit)
	for {
		b.mu.Lock()
		ok := cond() || b.closed
		b.mu.Unlock()
		if ok {
			return true
		}
		if time.Now().After(deadline) {
			return false
		}
		time.Sleep(2 * time.Millisecond)
	}
}

const (
	errCoordinator   = 15
	errGeneration    = 22
	errUnknownMember = 25
	errRebalance     = 27
	errTopicExists   = 36
)

func (b *Broker) groupRequest(c *conn, api, version int16, r *reader, w *writer) {
	g := b.group
	want := func(name string, v, w int16) {
		if v != w {
			panic(Unsupported(fmt.Sprint(name, " version ", v)))
		}
	}
	group := func(r *reader) {
		if name := r.str(); name != g.Name {
			panic(fmt.Sprintf("the group is %q, not %q", g.Name, name))
		}
	}
	topic := func(r *reader) {
		if name := r.str(); name != g.Topic {
			panic(fmt.Sprintf("the topic is %q, not %q", g.Topic, name))
		}
	}
	switch api {
	case 10: // find the coordinator
		want("coordinator", version, 0)
		group(r)
		addr := c.local()
		w.int16(0)
		w.int32(1)
		w.str(addr.IP.String())
		w.int32(int32(addr.Port))

	case 11: // join
		want("join", version, 1)
		group(r)
		r.int32()
		r.int32()
		id := r.str()
		r.str()
		protocol, metadata := "", []byte(nil)
		for range r.int32() {
			n, m := r.str(), r.bytes(int(r.int32()))
			if protocol == "" {
				protocol, metadata = n, m
			}
		}
		b.mu.Lock()
		code := g.fails(Join)
		if code != 0 {
		} else if id == "" {
			g.clients++
			id = fmt.Sprintf("member-%d", g.clients)
		} else if _, ok := g.members[id]; !ok {
			code = errUnknownMember
		}
		gen := g.generation
		if code == 0 {
			g.members[id], g.waiting[id] = metadata, true
			g.joined[id], g.address[id], g.seen[id] = c, c.addr, time.Now()
			g.rebalance = true
		}
		b.mu.Unlock()
		if code == 0 {
			b.until(time.Minute, func() bool {
				g.expire()
				if c.dead {
					return true
				}
				if g.generation == gen && len(g.waiting) >= max(g.Members, len(g.members)) {
					g.generation++
					g.leader, g.assigned, g.rebalance = id, nil, false
					g.waiting, g.fetched = map[string]bool{}, map[int32]bool{}
					for id := range g.seen {
						g.seen[id] = time.Now()
					}
				}
				return g.generation != gen
			})
		}
		b.mu.Lock()
		defer b.mu.Unlock()
		if code == 0 && g.generation == gen {
			code = errRebalance
			delete(g.waiting, id)
		}
		w.int16(code)
		w.int32(g.generation)
		w.str(protocol)
		w.str(g.leader)
		w.str(id)
		if g.leader != id {
			w.int32(0)
			break
		}
		w.int32(int32(len(g.members)))
		var ids []string
		for m := range g.members {
			ids = append(ids, m)
		}
		sort.Strings(ids)
		for _, m := range ids {
			w.str(m)
			w.blob(g.members[m])
		}

	case 14: // get assignments
		want("sync", version, 0)
		group(r)
		gen, id := r.int32(), r.str()
		assigned := map[string][]byte{}
		for range r.int32() {
			m := r.str()
			assigned[m] = r.bytes(int(r.int32()))
		}
		b.mu.Lock()
		if gen == g.generation && id == g.leader {
			g.assigned = assigned
		}
		b.mu.Unlock()
		b.until(time.Minute, func() bool {
			g.expire()
			return g.generation != gen || g.assigned != nil || g.rebalance || c.dead
		})
		b.mu.Lock()
		defer b.mu.Unlock()
		failed := g.fails(Sync)
		switch {
		case failed != 0:
			w.int16(failed)
			w.blob(nil)
		case g.generation != gen:
			w.int16(errGeneration)
			w.blob(nil)
		case g.assigned == nil:
			w.int16(errRebalance)
			w.blob(nil)
		default:
			w.int16(0)
			w.blob(g.assigned[id])
		}

	case 12: // heartbeat
		want("heartbeat", version, 0)
		group(r)
		gen, id := r.int32(), r.str()
		b.mu.Lock()
		defer b.mu.Unlock()
		_, known := g.members[id]
		if known {
			g.seen[id] = time.Now()
		}
		g.expire()
		failed := g.fails(Heartbeat)
		switch {
		case failed != 0:
			w.int16(failed)
		case !known:
			w.int16(errUnknownMember)
		case gen != g.generation:
			w.int16(errGeneration)
		case g.rebalance:
			w.int16(errRebalance)
		default:
			w.int16(0)
		}

	case 13: // leave
		want("leave", version, 0)
		group(r)
		b.mu.Lock()
		defer b.mu.Unlock()
		id := r.str()
		g.remove(id)
		w.int16(0)

	case 9: // fetch offsets
		want("offset fetch", version, 1)
		group(r)
		b.mu.Lock()
		defer b.mu.Unlock()
		topics := r.int32()
		w.int32(topics)
		for range topics {
			topic(r)
			w.str(g.Topic)
			parts := r.int32()
			w.int32(parts)
			for range parts {
				p := r.int32()
				w.int32(p)
				w.int64(g.committed[p])
				w.str("")
				w.int16(0)
			}
		}

	case 8: // commit offsets
		if version != 2 {
			want("commit", version, 1)
		}
		group(r)
		gen, id := r.int32(), r.str()
		if version == 2 {
			r.int64()
		}
		b.mu.Lock()
		defer b.mu.Unlock()
		code := g.fails(Commits)
		if _, ok := g.members[id]; code == 0 && !ok {
			code = errUnknownMember
		}
		if gen != g.generation {
			code = errGeneration
		}
		topics := r.int32()
		w.int32(topics)
		for range topics {
			topic(r)
			w.str(g.Topic)
			parts := r.int32()
			w.int32(parts)
			for range parts {
				p, offset := r.int32(), r.int64()
				if version == 1 {
					r.int64()
				}
				r.str()
				if offset > int64(len(g.logs[p])) {
					panic(fmt.Sprintf("offset %d of partition %d was committed, but it has %d messages", offset, p, len(g.logs[p])))
				}
				if code == 0 {
					g.commits[p] = append(g.commits[p], Committed{max(g.committed[p], 0), offset, c.addr})
					g.committed[p] = offset
				}
				w.int32(p)
				w.int16(code)
			}
		}

	case 2: // list offsets
		want("offsets", version, 1)
		r.int32()
		b.mu.Lock()
		defer b.mu.Unlock()
		topics := r.int32()
		w.int32(topics)
		for range topics {
			topic(r)
			w.str(g.Topic)
			parts := r.int32()
			w.int32(parts)
			for range parts {
				p, when := r.int32(), r.int64()
				w.int32(p)
				w.int16(0)
				w.int64(-1)
				if when == -2 {
					w.int64(0)
				} else {
					w.int64(int64(len(g.logs[p])))
				}
			}
		}

	case 1:
		want("fetch", version, 4)
		b.fetch(r, w, topic)

	case 19: // create topics
		want("create topics", version, 1)
		b.mu.Lock()
		defer b.mu.Unlock()
		topics := r.int32()
		w.int32(topics)
		for range topics {
			topic(r)
			parts := r.int32()
			r.int16()
			for range r.int32() {
				r.int32()
				r.take(4 * int(r.int32()))
			}
			for range r.int32() {
				r.str()
				r.str()
			}
			w.str(g.Topic)
			if g.created {
				w.int16(errTopicExists)
			} else {
				b.Partitions = int(parts)
				b.createTopic()
				w.int16(0)
			}
			w.int16(-1)
		}

	default:
		panic(Unsupported(fmt.Sprintf("api %d", api)))
	}
}

func (b *Broker) fetch(r *reader, w *writer, topic func(*reader)) {
	g := b.group
	r.int32()
	wait, least := time.Duration(r.int32())*time.Millisecond, int(r.int32())
	r.int32()
	r.int8()
	type part struct {
		p      int32
		offset int64
		limit  int
	}
	var parts []part
	for range r.int32() {
		topic(r)
		for range r.int32() {
			parts = append(parts, part{r.int32(), r.int64(), int(r.int32())})
		}
	}
	b.mu.Lock()
	for _, p := range parts {
		if p.p < 0 || int(p.p) >= len(g.logs) || p.offset < 0 {
			b.mu.Unlock()
			panic(fmt.Sprintf("fetch of partition %d from %d", p.p, p.offset))
		}
		if g.fetched != nil {
			g.fetched[p.p] = true
		}
	}
	b.mu.Unlock()
	b.until(min(wait, time.Minute), func() bool {
		size := 0
		for _, p := range parts {
			for i := int(p.offset); i < len(g.logs[p.p]); i++ {
				size += 20 + len(g.logs[p.p][i].Key) + len(g.logs[p.p][i].Value)
			}
		}
		return size >= least
	})
	b.mu.Lock()
	defer b.mu.Unlock()
	w.int32(0)
	w.int32(1)
	w.str(g.Topic)
	w.int32(int32(len(parts)))
	for _, p := range parts {
		log := g.logs[p.p]
		w.int32(p.p)
		if code := g.fails(Fetch); code != 0 {
			w.int16(code)
			w.int64(-1)
			w.int64(-1)
			w.int32(0)
			w.int32(0)
			continue
		}
		w.int16(0)
		w.int64(int64(len(log)))
		w.int64(int64(len(log)))
		w.int32(0)
		w.blob(batch(log, int(p.offset), p.limit))
	}
}

// batch encodes messages from an offset on, at least one, and otherwise as many as fit.
func batch(log []Message, offset, limit int) []byte {
	if offset >= len(log) {
		return []byte{}
	}
	var records []byte
	count := 0
	for i := offset; i < len(log); i++ {
		m := log[i]
		rec := binary.AppendVarint([]byte{0, 0}, int64(count))
		for _, f := range [][]byte{m.Key, m.Value} {
			if f == nil {
				rec = binary.AppendVarint(rec, -1)
			} else {
				rec = append(binary.AppendVarint(rec, int64(len(f))), f...)
			}
		}
		rec = binary.AppendVarint(rec, 0)
		if count > 0 && len(records)+len(rec)+100 > limit {
			break
		}
		records = append(binary.AppendVarint(records, int64(len(rec))), rec...)
		count++
	}
	var body writer // from the attributes on
	body.int16(0)
	body.int32(int32(count - 1))
	body.int64(1e12)
	body.int64(1e12)
	body.int64(-1)
	body.int16(-1)
	body.int32(-1)
	body.int32(int32(count))
	body.b = append(body.b, records...)
	var w writer
	w.int64(int64(offset))
	w.int32(int32(9 + len(body.b)))
	w.int32(0)
	w.int8(2)
	w.int32(int32(crc32.Checksum(body.b, crc32.MakeTable(crc32.Castagnoli))))
	w.b = append(w.b, body.b...)
	return w.b
}

func (w *writer) blob(b []byte) {
	if b == nil {
		w.int32(0)
		return
	}
	w.int32(int32(len(b)))
	w.b = append(w.b, b...)
}

// Unfinished returns a partition that has a good message after the committed offset, or -1.
func (b *Broker) Unfinished(good func(Message) bool) int {
	b.mu.Lock()
	defer b.mu.Unlock()
	g := b.group
	for p, log := range g.logs {
		n := len(log)
		for n > 0 && !good(log[n-1]) {
			n--
		}
		if n > 0 && g.committed[p] < int64(n) {
			return p
		}
	}
	return -1
}

// Settled tells if the group has so many members and all partitions are read by them.
func (b *Broker) Settled(members int) bool {
	if !b.Consuming() {
		return false
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	g := b.group
	g.expire()
	return !g.rebalance && len(g.members) == members && g.assigned != nil
}
