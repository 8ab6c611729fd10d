package gen

import (
	"fmt"
	"io"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/engine"
)

// Formats of documents.
const (
	V1     = "v1"
	V2     = "v2"
	Jaeger = "jaeger"
)

// Doc is a document of any format.
type Doc struct {
	Format string
	V1     []V1Span   `json:",omitempty"`
	V2     []V2Span   `json:",omitempty"`
	Jaeger *JaegerDoc `json:",omitempty"`
	// the spans are repeated that often, with other ids
	Repeat int `json:",omitempty"`
	// so many spans in total
	Large int   `json:",omitempty"`
	Style Style `json:",omitempty"`
}

// DrawDoc draws a document. Level is the one of its strings.
func DrawDoc(rt *rapid.T, format string, level int) Doc {
	d := Doc{Format: format}
	spans := rapid.SampledFrom([]int{1, 1, 1, 2, 2, 3, 4, 6, 9, 0, 20}).Draw(rt, "spans")
	switch format {
	case V1:
		for range spans {
			d.V1 = append(d.V1, DrawV1Span(rt, level))
		}
	case V2:
		for range spans {
			d.V2 = append(d.V2, DrawV2Span(rt, level))
		}
	case Jaeger:
		j := DrawJaeger(rt, level)
		d.Jaeger = &j
	}
	if rapid.IntRange(0, 7).Draw(rt, "repeated") == 7 {
		d.Repeat = rapid.SampledFrom([]int{1, 2, 5, 15, 20, 31, 32, 33, 63, 64, 65, 70, 130, 300}).Draw(rt, "repeat")
	}
	d.Style = DrawStyle(rt)
	return d
}

// all spans including the repeated ones
func (d Doc) expand() Doc {
	for r := 1; r <= d.Repeat && r*(len(d.V1)+len(d.V2)) < 600; r++ {
		if r == 1 {
			d.V1 = append([]V1Span(nil), d.V1...)
			d.V2 = append([]V2Span(nil), d.V2...)
		}
		for _, s := range d.V1[:len(d.V1)/r] {
			s.ID.Value += uint64(r) * 977
			d.V1 = append(d.V1, s)
		}
		for _, s := range d.V2[:len(d.V2)/r] {
			s.ID.Value += uint64(r) * 977
			d.V2 = append(d.V2, s)
		}
	}
	d.Repeat = 0
	d.V1 = enlarge(d.V1, d.Large, func(s *V1Span, n uint64) { s.ID.Value += n })
	d.V2 = enlarge(d.V2, d.Large, func(s *V2Span, n uint64) { s.ID.Value += n })
	if d.Large > 0 && d.Jaeger != nil {
		j := JaegerDoc{Data: append([]JaegerData(nil), d.Jaeger.Data...)}
		for i := range j.Data {
			j.Data[i].Spans = enlarge(j.Data[i].Spans, d.Large/len(j.Data), func(s *JaegerSpan, n uint64) { s.ID.Value += n })
		}
		d.Jaeger = &j
	}
	d.Large = 0
	return d
}

// repeats the spans until there are enough.
func enlarge[T any](spans []T, large int, change func(*T, uint64)) []T {
	n := len(spans)
	if n == 0 || n >= large {
		return spans
	}
	out := append(make([]T, 0, large), spans...)
	for i := n; i < large; i++ {
		s := spans[i%n]
		change(&s, uint64(i/n)*977)
		out = append(out, s)
	}
	return out
}

// LargeSub checks that large documents are decoded faithfully.
func LargeSub(format string, quick, thorough int) engine.Sub {
	return engine.New("decode-large-"+format, quick, thorough, func(rt *rapid.T) DocCase {
		doc := DrawDoc(rt, format, rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(rt, "level"))
		doc.Repeat, doc.Style.Deep = 0, 0
		if spans := len(doc.Want()); spans > 0 {
			size := 100 + len(doc.Bytes())/spans
			doc.Large = min(rapid.SampledFrom([]int{600, 3000, 12000, 40000, 90000}).Draw(rt, "large"), 16<<20/size)
		}
		return DocCase{doc, DrawChunks(rt)}
	}, runFaithful).Timeout(2 * time.Minute)
}

// Bytes renders the document.
func (d Doc) Bytes() []byte {
	d = d.expand()
	var items []Node
	for _, s := range d.V1 {
		items = append(items, s.Node())
	}
	for _, s := range d.V2 {
		items = append(items, s.Node())
	}
	if d.Format == Jaeger {
		return Render(d.Jaeger.Node(), d.Style)
	}
	return Render(ArrNode(items...), d.Style)
}

// Want are the spans of the document.
func (d Doc) Want() []proxy.Span {
	d = d.expand()
	var out []proxy.Span
	for _, s := range d.V1 {
		out = append(out, s.Want())
	}
	for _, s := range d.V2 {
		out = append(out, s.Want())
	}
	if d.Format == Jaeger {
		out = d.Jaeger.Want()
	}
	return out
}

// Parse parses with the parser of the format.
func Parse(format string, r io.Reader) ([]proxy.Span, error) {
	switch format {
	case V1:
		return codec.ParseJsonV1(r)
	case V2:
		return codec.ParseJsonV2(r)
	}
	return codec.ParseJaeger(r)
}

// DocCase is a document and how it is read.
type DocCase struct {
	Doc    Doc
	Chunks Chunks
}

// FaithfulSub checks that documents of a format are decoded faithfully.
func FaithfulSub(format string, quick, thorough int) engine.Sub {
	return engine.New("decode-"+format, quick, thorough, func(rt *rapid.T) DocCase {
		level := rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(rt, "level")
		return DocCase{DrawDoc(rt, format, level), DrawChunks(rt)}
	}, runFaithful)
}

func runFaithful(e *engine.Env, c DocCase) error {
	data, want := c.Doc.Bytes(), c.Doc.Want()
	labelDoc(e, c, data, len(want))
	got, err := Parse(c.Doc.Format, NewReader(data, c.Chunks))
	if err != nil {
		return fmt.Errorf("parsing failed: %v\ndocument: %s", err, cut(string(data)))
	}
	if err := CompareAll(got, want); err != nil {
		return fmt.Errorf("%v\ndocument: %s", err, cut(string(data)))
	}
	return nil
}

func labelDoc(e *engine.Env, c DocCase, data []byte, spans int) {
	st := c.Doc.Style
	e.LabelIf(spans == 0, "no spans")
	e.LabelIf(spans > 1, "several spans")
	e.LabelIf(spans > 64, "more than 64 spans")
	e.LabelIf(spans > 10000, "more than 10000 spans")
	e.LabelIf(st.Escape > 0, "optional escapes")
	e.LabelIf(st.Unknown > 0, "unknown fields")
	e.LabelIf(st.Deep > 0, "deeply nested unknown field")
	e.LabelIf(st.Shuffle, "any field order")
	e.LabelIf(st.Space > 0, "additional whitespace")
	e.LabelIf(len(c.Chunks.Sizes) > 0, "split into reads")
	e.LabelIf(len(data) > 8192, "larger than the read buffer")
	e.NonTrivialIf(spans > 0 && (spans > 1 || st != Style{} || len(c.Chunks.Sizes) > 0))
}

// DuplicateFields renders the document with fields that appear several times, with their own
// values and those of other spans.
func (d Doc) DuplicateFields(seed uint64) []byte {
	d = d.expand()
	var items []Node
	for _, s := range d.V1 {
		items = append(items, s.Node())
	}
	for _, s := range d.V2 {
		items = append(items, s.Node())
	}
	if d.Format == Jaeger {
		items = []Node{d.Jaeger.Node()}
	}
	rng := NewRng(seed)
	orig := append([]Node(nil), items...)
	for i := range items {
		fields := append([]Field(nil), items[i].Fields...)
		for range 1 + rng.Intn(4) {
			from := orig[rng.Intn(len(orig))]
			if len(from.Fields) > 0 {
				fields = append(fields, from.Fields[rng.Intn(len(from.Fields))])
			}
		}
		items[i].Fields = fields
	}
	if d.Format == Jaeger {
		return Render(items[0], d.Style)
	}
	return Render(ArrNode(items...), d.Style)
}
