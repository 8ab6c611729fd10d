package p08

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"pgregory.net/rapid"

	"verifharness/avro"
	"verifharness/engine"
	"verifharness/gen"
)

type corruptCase struct{ Data gen.Bin }

var lengths = []int64{-1 << 63, -1 << 62, -1 << 40, -1 << 31, -1000, -1, 0, 1, 2, 100, 8191, 8192, 8193, 1 << 16, 1 << 20, 1 << 24, 1 << 27, 1 << 30,
	1<<31 - 1, 1 << 31, 1<<31 + 1, 1 << 32, 1 << 36, 1 << 40, 1 << 47, 1 << 48, 1 << 62, 1<<63 - 1}

func draw(rt *rapid.T) corruptCase {
	level := rapid.SampledFrom([]int{0, 1, 2, 3}).Draw(rt, "level")
	text := func(label string) gen.Bin { return gen.Bytes(rt, label, level) }
	var data []byte
	switch rapid.IntRange(0, 3).Draw(rt, "source") {
	case 0: // any bytes
		data = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(rt, "bytes")
	case 1: // fields with absurd lengths
		fields := rapid.IntRange(0, 11).Draw(rt, "goodFields")
		for i := 0; i < 11; i++ {
			if i == 3 || i == 4 {
				if i >= fields {
					data = avro.Long(data, rapid.SampledFrom(lengths).Draw(rt, "length"))
				} else {
					data = avro.String(data, text("string"))
				}
			} else {
				data = avro.Long(data, gen.Int(rt, "number"))
			}
		}
		for range rapid.IntRange(0, 4).Draw(rt, "blocks") {
			n := rapid.SampledFrom(lengths).Draw(rt, "count")
			data = avro.Long(data, n)
			if n < 0 {
				data = avro.Long(data, rapid.SampledFrom(lengths).Draw(rt, "blockSize"))
			}
			for range rapid.IntRange(0, 3).Draw(rt, "entries") {
				if rapid.IntRange(0, 3).Draw(rt, "badEntry") == 0 {
					data = avro.Long(data, rapid.SampledFrom(lengths).Draw(rt, "entryLength"))
				} else {
					data = avro.String(data, text("entry"))
				}
			}
		}
	default: // damaged spans
		data = avro.Encode(nil, gen.DrawSpan(rt, text, 20), rapid.SliceOfN(rapid.SampledFrom([]int{1, -1, 2, -2}), 0, 3).Draw(rt, "blocks"))
		for range rapid.IntRange(0, 4).Draw(rt, "damages") {
			if len(data) == 0 {
				break
			}
			pos := rapid.IntRange(0, len(data)-1).Draw(rt, "pos")
			switch rapid.IntRange(0, 3).Draw(rt, "damage") {
			case 0:
				data[pos] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
			case 1:
				data[pos] = rapid.SampledFrom([]byte{0, 1, 2, 127, 128, 255}).Draw(rt, "byte")
			case 2:
				ins := binary.AppendVarint(nil, rapid.SampledFrom(lengths).Draw(rt, "inserted"))
				data = append(append(append([]byte(nil), data[:pos]...), ins...), data[pos:]...)
			case 3:
				data = data[:pos]
			}
		}
	}
	return corruptCase{gen.Bin(data)}
}

func allocated() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc
}

func run(e *engine.Env, c corruptCase) error {
	data := []byte(c.Data)
	before := allocated()
	r := bytes.NewReader(data)
	_, err := codec.BinaryDecode(r)
	used := allocated() - before
	e.LabelIf(err != nil, "rejected")
	e.LabelIf(err == nil, "accepted")
	e.NonTrivialIf(err != nil && len(data) > 12)
	if limit := uint64(1<<20 + 200*len(data)); used > limit {
		return fmt.Errorf("decoding a message of %d bytes allocates %d bytes", len(data), used)
	}
	return nil
}

type prefixCase struct {
	Span   gen.Span
	Blocks []int
	Own    bool
}

func runPrefix(e *engine.Env, c prefixCase) error {
	var data []byte
	if c.Own {
		var buf bytes.Buffer
		if err := codec.BinaryEncode(c.Span.Proxy(), &buf); err != nil {
			return err
		}
		data = buf.Bytes()
	} else {
		data = avro.Encode(nil, c.Span, c.Blocks)
	}
	e.NonTrivial()
	step := max(1, len(data)/600)
	for n := 0; n < len(data); n++ {
		if n > 100 && n < len(data)-100 && n%step != 0 {
			continue
		}
		if span, err := codec.BinaryDecode(bytes.NewReader(data[:n:n])); err == nil {
			return fmt.Errorf("the first %d of %d bytes are accepted as %s", n, len(data), gen.Describe(span))
		}
	}
	return nil
}

func TestCheck(t *testing.T) {
	engine.Main(t, "P08",
		engine.New("corrupt", 60000, 3000000, draw, run).Timeout(30*time.Second),
		engine.New("prefix", 6000, 200000, func(rt *rapid.T) prefixCase {
			level := rapid.SampledFrom([]int{0, 1, 2, 3}).Draw(rt, "level")
			text := func(label string) gen.Bin { return gen.Bytes(rt, label, level) }
			return prefixCase{gen.DrawSpan(rt, text, 20), rapid.SliceOfN(rapid.SampledFrom([]int{1, -1, 2, -2}), 0, 3).Draw(rt, "blocks"), rapid.Bool().Draw(rt, "own")}
		}, runPrefix),
	)
}
