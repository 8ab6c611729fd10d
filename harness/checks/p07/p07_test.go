package p07

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/avro"
	"verifharness/engine"
	"verifharness/gen"
)

type roundTripCase struct {
	Spans  []gen.Span
	Suffix gen.Bin
}

func drawSpans(rt *rapid.T, max int) []gen.Span {
	level := rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(rt, "level")
	text := func(label string) gen.Bin { return gen.Bytes(rt, label, level) }
	var spans []gen.Span
	for range rapid.IntRange(1, max).Draw(rt, "spans") {
		spans = append(spans, gen.DrawSpan(rt, text, 300))
	}
	return spans
}

func label(e *engine.Env, spans []gen.Span) {
	for _, s := range spans {
		e.LabelIf(len(s.Tags) == 0, "no tags")
		e.LabelIf(len(s.Tags) > 63, "more than 63 tags")
		e.LabelIf(s.Id < 0 || s.Trace < 0 || s.Duration < 0, "negative numbers")
		for _, t := range append(s.Tags, gen.KV{K: s.Name, V: s.Service}) {
			e.LabelIf(len(t.K) > 8192 || len(t.V) > 8192, "strings of more than 8 KiB")
		}
		e.NonTrivialIf(len(s.Tags) > 0 && (len(s.Name) > 0 || len(s.Service) > 0))
	}
}

func scribble(b []byte) {
	for i := range b {
		b[i] = 'X'
	}
}

func runRoundTrip(e *engine.Env, c roundTripCase) error {
	label(e, c.Spans)
	var buf bytes.Buffer
	var ends []int
	for _, s := range c.Spans {
		if err := codec.BinaryEncode(s.Proxy(), &buf); err != nil {
			return fmt.Errorf("encode: %v", err)
		}
		ends = append(ends, buf.Len())
	}
	buf.WriteString(string(c.Suffix))
	data := append([]byte(nil), buf.Bytes()...)

	// independent decoder
	rest := data
	for i, s := range c.Spans {
		got, left, err := avro.Decode(rest)
		if err != nil {
			return fmt.Errorf("not valid avro: %v: %x", err, clip(rest))
		}
		if !gen.Equal(got, s.Proxy()) {
			return fmt.Errorf("avro record is\n  %s, want\n  %s", gen.Describe(got), gen.Describe(s.Proxy()))
		}
		rest = left
		if len(data)-len(rest) != ends[i] {
			return fmt.Errorf("avro record has %d bytes, but %d were written", len(data)-len(rest), ends[i])
		}
	}

	// its own decoder
	var decoded []proxy.Span
	r := bytes.NewReader(data)
	for i := range c.Spans {
		got, err := codec.BinaryDecode(r)
		if err != nil {
			return fmt.Errorf("decode: %v", err)
		}
		decoded = append(decoded, got)
		if consumed := len(data) - r.Len(); consumed != ends[i] {
			return fmt.Errorf("%d bytes consumed, but %d were written", consumed, ends[i])
		}
	}
	scribble(data)
	scribble(buf.Bytes())
	for i, s := range c.Spans {
		if !gen.Equal(decoded[i], s.Proxy()) {
			return fmt.Errorf("decoded\n  %s, want\n  %s", gen.Describe(decoded[i]), gen.Describe(s.Proxy()))
		}
	}
	return nil
}

func clip(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

type blocksCase struct {
	Spans []gen.Span
	// sizes of the blocks of the map, negative ones are written with their size in bytes
	Blocks []int
	Suffix gen.Bin
}

func runBlocks(e *engine.Env, c blocksCase) error {
	label(e, c.Spans)
	var data []byte
	var ends []int
	for _, s := range c.Spans {
		data = avro.Encode(data, s, c.Blocks)
		ends = append(ends, len(data))
		e.LabelIf(len(s.Tags) > 1 && len(c.Blocks) > 0, "several blocks")
	}
	data = append(data, c.Suffix...)
	r := bytes.NewReader(data)
	for i, s := range c.Spans {
		got, err := codec.BinaryDecode(r)
		if err != nil {
			return fmt.Errorf("decode: %v", err)
		}
		if !gen.Equal(got, s.Proxy()) {
			return fmt.Errorf("decoded\n  %s, want\n  %s", gen.Describe(got), gen.Describe(s.Proxy()))
		}
		if consumed := len(data) - r.Len(); consumed != ends[i] {
			return fmt.Errorf("%d bytes consumed, but the record has %d", consumed, ends[i])
		}
	}
	return nil
}

func TestCheck(t *testing.T) {
	engine.Main(t, "P07",
		engine.New("round-trip", 60000, 3000000, func(rt *rapid.T) roundTripCase {
			return roundTripCase{drawSpans(rt, 4), gen.Bytes(rt, "suffix", 1)}
		}, runRoundTrip),
		engine.New("blocks", 40000, 1500000, func(rt *rapid.T) blocksCase {
			blocks := rapid.SliceOfN(rapid.SampledFrom([]int{1, -1, 2, -2, 3, -3, 10, -10}), 0, 6).Draw(rt, "blocks")
			return blocksCase{drawSpans(rt, 2), blocks, gen.Bytes(rt, "suffix", 1)}
		}, runBlocks),
	)
}
