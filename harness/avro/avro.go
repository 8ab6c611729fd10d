// Package avro is an independent implementation of the Avro binary encoding of a span.
package avro

import (
	"encoding/binary"
	"errors"
	"math/bits"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verifharness/gen"
)

// Long appends a number. encoding/binary uses the same zig-zag encoding as Avro.
func Long(b []byte, v int64) []byte { return binary.AppendVarint(b, v) }

// String appends a string.
func String(b []byte, s gen.Bin) []byte { return append(Long(b, int64(len(s))), s...) }

// Encode appends the encoding of the span. The blocks of the map have the given sizes, the last
// one everything that remains. Negative sizes stand for blocks that start with their size in bytes.
func Encode(b []byte, s gen.Span, blocks []int) []byte {
	for _, v := range []int64{s.Id, s.Trace, s.Parent} {
		b = Long(b, v)
	}
	b = String(b, s.Name)
	b = String(b, s.Service)
	for _, v := range []int64{s.Timestamp, s.Duration, s.CS, s.CR, s.SS, s.SR} {
		b = Long(b, v)
	}
	tags := s.Tags
	for i := 0; len(tags) > 0; i++ {
		n, sized := len(tags), false
		if i < len(blocks) {
			if n = blocks[i]; n < 0 {
				n, sized = -n, true
			}
			n = min(n, len(tags))
		}
		var block []byte
		for _, kv := range tags[:n] {
			block = String(String(block, kv.K), kv.V)
		}
		if sized {
			b = Long(Long(b, int64(-n)), int64(len(block)))
		} else {
			b = Long(b, int64(n))
		}
		b = append(b, block...)
		tags = tags[n:]
	}
	return Long(b, 0)
}

var errShort = errors.New("unexpected end")

type reader struct {
	b   []byte
	err error
}

func (r *reader) long() int64 {
	if r.err != nil {
		return 0
	}
	v, n := binary.Varint(r.b)
	if n <= 0 {
		r.err = errShort
		return 0
	}
	// the shortest form is the only one that is valid
	u := uint64(v<<1) ^ uint64(v>>63)
	if want := max(1, (bits.Len64(u)+6)/7); n != want {
		r.err = errors.New("number is not in its shortest form")
	}
	r.b = r.b[n:]
	return v
}

func (r *reader) string() string {
	n := r.long()
	if r.err == nil && (n < 0 || n > int64(len(r.b))) {
		r.err = errors.New("invalid length of string")
	}
	if r.err != nil {
		return ""
	}
	s := string(r.b[:n])
	r.b = r.b[n:]
	return s
}

// Decode decodes a span and returns the remaining bytes.
func Decode(b []byte) (proxy.Span, []byte, error) {
	r := &reader{b: b}
	var s proxy.Span
	s.Id, s.Trace, s.Parent = proxy.Id(r.long()), proxy.Id(r.long()), proxy.Id(r.long())
	s.Name, s.Service = r.string(), r.string()
	s.Timestamp, s.Duration = proxy.Timestamp(r.long()), time.Duration(r.long())
	s.Timings.CS, s.Timings.CR = proxy.Timestamp(r.long()), proxy.Timestamp(r.long())
	s.Timings.SS, s.Timings.SR = proxy.Timestamp(r.long()), proxy.Timestamp(r.long())
	for r.err == nil {
		n := r.long()
		if n == 0 || r.err != nil {
			break
		}
		size := int64(-1)
		if n < 0 {
			n, size = -n, r.long()
		}
		before := len(r.b)
		for ; n > 0 && r.err == nil; n-- {
			k := r.string()
			v := r.string()
			if s.Tags == nil {
				s.Tags = map[string]string{}
			}
			if _, ok := s.Tags[k]; ok {
				r.err = errors.New("the same key twice")
			}
			s.Tags[k] = v
		}
		if size >= 0 && r.err == nil && int64(before-len(r.b)) != size {
			r.err = errors.New("wrong size of block")
		}
	}
	return s, r.b, r.err
}
