package gen

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"
)

// ID16 is an id and how it is written down.
type IDText struct {
	Value uint64
	Width int  `json:",omitempty"` // minimal number of digits
	Upper bool `json:",omitempty"`
	Mixed bool `json:",omitempty"`
}

func (i IDText) String() string {
	s := fmt.Sprintf("%0*x", i.Width, i.Value)
	if i.Upper {
		s = strings.ToUpper(s)
	}
	if i.Mixed {
		b := []byte(s)
		for k := range b {
			if k%2 == 0 {
				b[k] = strings.ToUpper(string(b[k]))[0]
			}
		}
		s = string(b)
	}
	return s
}

func DrawIDText(rt *rapid.T, label string) IDText {
	id := IDText{Value: ID(rt, label)}
	switch rapid.IntRange(0, 5).Draw(rt, label+".form") {
	case 0:
		id.Width = rapid.IntRange(1, 16).Draw(rt, label+".width")
	case 1:
		id.Upper = true
	case 2:
		id.Mixed = true
		id.Width = 16
	case 3:
		id.Width = 16
	}
	return id
}

// KV is an entry of a map.
type KV struct {
	K, V Bin
	// v1: the value is this literal instead of a string
	Literal string `json:",omitempty"`
	// v1: service of the endpoint
	Service *Bin `json:",omitempty"`
}

// Micros draws a time in microseconds. Twice its value is still representable in nanoseconds.
func Micros(rt *rapid.T, label string) uint64 {
	switch rapid.IntRange(0, 5).Draw(rt, label+".kind") {
	case 0:
		return rapid.SampledFrom([]uint64{0, 1, 9, 10, 999, 1000, 1001, 1577836799999999, 1577836800000000, math.MaxInt64 / 2000}).Draw(rt, label)
	case 1:
		return rapid.Uint64Range(0, math.MaxInt64/2000).Draw(rt, label)
	}
	return rapid.Uint64Range(1577836800000000, 2000000000000000).Draw(rt, label)
}

func optional[T any](rt *rapid.T, label string, draw func() T) *T {
	if rapid.IntRange(0, 3).Draw(rt, label+".absent") == 0 {
		return nil
	}
	v := draw()
	return &v
}

func drawKVs(rt *rapid.T, level, usual, max int, forbidden ...string) []KV {
	n := Size(rt, "tags", usual, max)
	seen := map[Bin]bool{}
	for _, f := range forbidden {
		seen[Bin(f)] = true
	}
	var out []KV
	for i := range n {
		k := Text(rt, "key", level)
		if seen[k] {
			k = Bin(fmt.Sprintf("%s%d", k, i))
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, KV{K: k, V: Text(rt, "value", level)})
	}
	return out
}

const (
	ParentAbsent = iota
	ParentNull
	ParentValue
)

var spanKinds = []string{"CLIENT", "SERVER", "client", "server", "Client", "sErVeR", "PRODUCER", "CONSUMER", "", "clients", "serve", "local", "CLIENT ", "SERVERX"}

// ---------------------------------------------------------------------------------------- v2

// V2Span is a span of a Zipkin v2 document.
type V2Span struct {
	Trace, ID  IDText
	ParentMode int
	Parent     IDText
	Name       *Bin    `json:",omitempty"`
	Service    *Bin    `json:",omitempty"`
	Endpoint   bool    `json:",omitempty"` // endpoint without a service
	Kind       *Bin    `json:",omitempty"`
	Timestamp  *uint64 `json:",omitempty"`
	Duration   *uint64 `json:",omitempty"`
	HasTags    bool    `json:",omitempty"`
	Tags       []KV    `json:",omitempty"`
}

func DrawV2Span(rt *rapid.T, level int) V2Span {
	text := func(label string) *Bin {
		return optional(rt, label, func() Bin { return Text(rt, label, level) })
	}
	s := V2Span{Trace: DrawIDText(rt, "trace"), ID: DrawIDText(rt, "id")}
	s.ParentMode = rapid.IntRange(0, 2).Draw(rt, "parentMode")
	if s.ParentMode == ParentValue {
		s.Parent = DrawIDText(rt, "parent")
	}
	s.Name, s.Service = text("name"), text("service")
	s.Endpoint = s.Service != nil || rapid.Bool().Draw(rt, "endpoint")
	s.Kind = optional(rt, "kind", func() Bin { return Bin(rapid.SampledFrom(spanKinds).Draw(rt, "kind")) })
	s.Timestamp = optional(rt, "timestamp", func() uint64 { return Micros(rt, "timestamp") })
	s.Duration = optional(rt, "duration", func() uint64 {
		if rapid.Bool().Draw(rt, "shortDuration") {
			return rapid.Uint64Range(0, 5000000).Draw(rt, "duration")
		}
		return Micros(rt, "duration")
	})
	s.HasTags = rapid.Bool().Draw(rt, "hasTags")
	if s.HasTags {
		s.Tags = drawKVs(rt, level, 3, 40)
	}
	return s
}

var knownV2 = []string{"traceId", "id", "parentId", "name", "localEndpoint", "tags", "kind", "timestamp", "duration", "annotations"}
var knownEndpoint = []string{"serviceName"}

func parentField(fields []Field, mode int, parent IDText, name string) []Field {
	switch mode {
	case ParentNull:
		return append(fields, Field{name, RawNode("null")})
	case ParentValue:
		return append(fields, Field{name, PlainNode(parent.String())})
	}
	return fields
}

func endpointNode(service *Bin) Node {
	var fields []Field
	if service != nil {
		fields = append(fields, Field{"serviceName", StrNode(string(*service))})
	}
	return StructNode(knownEndpoint, fields...)
}

func (s V2Span) Node() Node {
	fields := []Field{{"traceId", PlainNode(s.Trace.String())}, {"id", PlainNode(s.ID.String())}}
	fields = parentField(fields, s.ParentMode, s.Parent, "parentId")
	if s.Name != nil {
		fields = append(fields, Field{"name", StrNode(string(*s.Name))})
	}
	if s.Endpoint {
		fields = append(fields, Field{"localEndpoint", endpointNode(s.Service)})
	}
	if s.Kind != nil {
		fields = append(fields, Field{"kind", StrNode(string(*s.Kind))})
	}
	if s.Timestamp != nil {
		fields = append(fields, Field{"timestamp", UintNode(*s.Timestamp)})
	}
	if s.Duration != nil {
		fields = append(fields, Field{"duration", UintNode(*s.Duration)})
	}
	if s.HasTags {
		var tags []Field
		for _, kv := range s.Tags {
			tags = append(tags, Field{string(kv.K), StrNode(string(kv.V))})
		}
		fields = append(fields, Field{"tags", ObjNode(tags...)})
	}
	return StructNode(knownV2, fields...)
}

func deref[T any](p *T) T {
	if p == nil {
		var zero T
		return zero
	}
	return *p
}

func ns(us uint64) proxy.Timestamp { return proxy.Timestamp(int64(us) * 1000) }

func kindTimings(kind string, start proxy.Timestamp, d time.Duration) proxy.Timings {
	end := proxy.Timestamp(int64(start) + int64(d))
	switch {
	case isFold(kind, "client"):
		return proxy.Timings{CS: start, CR: end}
	case isFold(kind, "server"):
		return proxy.Timings{SR: start, SS: end}
	}
	return proxy.Timings{}
}

func isFold(s, lower string) bool { return strings.ToLower(s) == lower }

func micros(us uint64) time.Duration {
	if us == 0 {
		return time.Millisecond
	}
	return time.Duration(int64(us) * 1000)
}

// Want is the span that must come out.
func (s V2Span) Want() proxy.Span {
	w := proxy.Span{Trace: proxy.Id(s.Trace.Value), Id: proxy.Id(s.ID.Value)}
	if s.ParentMode == ParentValue {
		w.Parent = proxy.Id(s.Parent.Value)
	}
	w.Name, w.Service = string(deref(s.Name)), string(deref(s.Service))
	w.Timestamp = ns(deref(s.Timestamp))
	w.Duration = micros(deref(s.Duration))
	w.Timings = kindTimings(string(deref(s.Kind)), w.Timestamp, w.Duration)
	w.Tags = map[string]string{}
	for _, kv := range s.Tags {
		w.Tags[string(kv.K)] = string(kv.V)
	}
	w.Tags["protocolVersion"] = "json v2"
	return w
}

// ---------------------------------------------------------------------------------------- v1

// V1Annotation is an annotation of a Zipkin v1 document.
type V1Annotation struct {
	Value     Bin
	Timestamp *uint64 `json:",omitempty"`
	Endpoint  bool    `json:",omitempty"`
	Service   *Bin    `json:",omitempty"`
}

// V1Span is a span of a Zipkin v1 document.
type V1Span struct {
	Trace, ID   IDText
	ParentMode  int
	Parent      IDText
	Name        *Bin           `json:",omitempty"`
	Timestamp   *uint64        `json:",omitempty"`
	Duration    *uint64        `json:",omitempty"`
	HasAnn      bool           `json:",omitempty"`
	Annotations []V1Annotation `json:",omitempty"`
	HasBin      bool           `json:",omitempty"`
	Binary      []KV           `json:",omitempty"`
}

func DrawV1Span(rt *rapid.T, level int) V1Span {
	text := func(label string) *Bin {
		return optional(rt, label, func() Bin { return Text(rt, label, level) })
	}
	s := V1Span{Trace: DrawIDText(rt, "trace"), ID: DrawIDText(rt, "id")}
	s.ParentMode = rapid.IntRange(0, 2).Draw(rt, "parentMode")
	if s.ParentMode == ParentValue {
		s.Parent = DrawIDText(rt, "parent")
	}
	s.Name = text("name")
	s.Timestamp = optional(rt, "timestamp", func() uint64 { return Micros(rt, "timestamp") })
	s.Duration = optional(rt, "duration", func() uint64 { return Micros(rt, "duration") })
	s.HasAnn = rapid.IntRange(0, 4).Draw(rt, "hasAnn") > 0
	if s.HasAnn {
		values := []string{"cs", "cr", "sr", "ss"}
		used := map[string]bool{}
		for range rapid.IntRange(0, 4).Draw(rt, "annotations") {
			v := rapid.SampledFrom(append(values, "cs", "cr", "ms", "error", "", "csx")).Draw(rt, "annotation")
			if used[v] && len(v) == 2 {
				continue
			}
			used[v] = true
			a := V1Annotation{Value: Bin(v)}
			a.Timestamp = optional(rt, "annotationTime", func() uint64 { return Micros(rt, "annotationTime") })
			a.Service = text("annotationService")
			a.Endpoint = a.Service != nil || rapid.Bool().Draw(rt, "annotationEndpoint")
			s.Annotations = append(s.Annotations, a)
		}
	}
	s.HasBin = rapid.IntRange(0, 3).Draw(rt, "hasBin") > 0
	if s.HasBin {
		s.Binary = drawKVs(rt, level, 4, 40)
		for i := range s.Binary {
			if rapid.IntRange(0, 4).Draw(rt, "literal") == 0 {
				s.Binary[i].V = ""
				s.Binary[i].Literal = rapid.SampledFrom(append([]string{"true", "false", "null"}, Numbers...)).Draw(rt, "literalValue")
			}
			if rapid.IntRange(0, 2).Draw(rt, "binEndpoint") == 0 {
				s.Binary[i].Service = text("binService")
			}
		}
	}
	return s
}

var knownV1 = []string{"traceId", "id", "parentId", "name", "annotations", "binaryAnnotations", "timestamp", "duration"}
var knownAnn = []string{"timestamp", "value", "endpoint"}
var knownBin = []string{"key", "value", "endpoint"}

func (s V1Span) Node() Node {
	fields := []Field{{"traceId", PlainNode(s.Trace.String())}}
	if s.Name != nil {
		fields = append(fields, Field{"name", StrNode(string(*s.Name))})
	}
	fields = append(fields, Field{"id", PlainNode(s.ID.String())})
	fields = parentField(fields, s.ParentMode, s.Parent, "parentId")
	if s.Timestamp != nil {
		fields = append(fields, Field{"timestamp", UintNode(*s.Timestamp)})
	}
	if s.Duration != nil {
		fields = append(fields, Field{"duration", UintNode(*s.Duration)})
	}
	if s.HasAnn {
		var items []Node
		for _, a := range s.Annotations {
			var f []Field
			if a.Timestamp != nil {
				f = append(f, Field{"timestamp", UintNode(*a.Timestamp)})
			}
			f = append(f, Field{"value", StrNode(string(a.Value))})
			if a.Endpoint {
				f = append(f, Field{"endpoint", endpointNode(a.Service)})
			}
			items = append(items, StructNode(knownAnn, f...))
		}
		fields = append(fields, Field{"annotations", ArrNode(items...)})
	}
	if s.HasBin {
		var items []Node
		for _, kv := range s.Binary {
			f := []Field{{"key", StrNode(string(kv.K))}}
			if kv.Literal != "" {
				f = append(f, Field{"value", RawNode(kv.Literal)})
			} else {
				f = append(f, Field{"value", StrNode(string(kv.V))})
			}
			if kv.Service != nil {
				f = append(f, Field{"endpoint", endpointNode(kv.Service)})
			}
			items = append(items, StructNode(knownBin, f...))
		}
		fields = append(fields, Field{"binaryAnnotations", ArrNode(items...)})
	}
	return StructNode(knownV1, fields...)
}

// Want is the span that must come out.
func (s V1Span) Want() proxy.Span {
	w := proxy.Span{Trace: proxy.Id(s.Trace.Value), Id: proxy.Id(s.ID.Value)}
	if s.ParentMode == ParentValue {
		w.Parent = proxy.Id(s.Parent.Value)
	}
	w.Name = string(deref(s.Name))
	for _, a := range s.Annotations {
		if deref(a.Timestamp) == 0 {
			continue
		}
		at := ns(*a.Timestamp)
		switch a.Value {
		case "cs":
			w.Timings.CS = at
		case "cr":
			w.Timings.CR = at
		case "sr":
			w.Timings.SR = at
		case "ss":
			w.Timings.SS = at
		}
		if w.Service == "" {
			w.Service = string(deref(a.Service))
		}
	}
	w.Tags = map[string]string{}
	for _, kv := range s.Binary {
		w.Tags[string(kv.K)] = string(kv.V) + kv.Literal
		if w.Service == "" {
			w.Service = string(deref(kv.Service))
		}
	}
	w.Tags["protocolVersion"] = "json v1"
	t := w.Timings
	switch {
	case t.CS != 0 && t.CR != 0:
		w.Timestamp, w.Duration = t.CS, time.Duration(t.CR-t.CS)
	case t.SR != 0 && t.SS != 0:
		w.Timestamp, w.Duration = t.SR, time.Duration(t.SS-t.SR)
	default:
		w.Timestamp, w.Duration = ns(deref(s.Timestamp)), time.Duration(ns(deref(s.Duration)))
	}
	if w.Duration == 0 {
		w.Duration = time.Millisecond
	}
	return w
}

// ------------------------------------------------------------------------------------ Jaeger

// JaegerRef is a reference to another span.
type JaegerRef struct {
	Type string
	Span IDText
}

// JaegerTag is a tag, Literal is used instead of V if it is set.
type JaegerTag struct {
	K, V    Bin
	Literal string `json:",omitempty"`
}

// JaegerSpan is a span of a Jaeger document.
type JaegerSpan struct {
	Trace, ID IDText
	Name      *Bin        `json:",omitempty"`
	Refs      []JaegerRef `json:",omitempty"`
	HasRefs   bool        `json:",omitempty"`
	Start     *uint64     `json:",omitempty"`
	Duration  *uint64     `json:",omitempty"`
	Process   int
	HasTags   bool        `json:",omitempty"`
	Tags      []JaegerTag `json:",omitempty"`
}

// JaegerData is an element of the data of a Jaeger document.
type JaegerData struct {
	Spans     []JaegerSpan
	Processes []Bin // their service names, the process ids are p1, p2...
}

// JaegerDoc is a Jaeger document.
type JaegerDoc struct{ Data []JaegerData }

func DrawJaeger(rt *rapid.T, level int) JaegerDoc {
	var doc JaegerDoc
	for range rapid.SampledFrom([]int{1, 1, 2, 3, 0}).Draw(rt, "data") {
		var d JaegerData
		for range rapid.IntRange(1, 3).Draw(rt, "processes") {
			d.Processes = append(d.Processes, Text(rt, "service", level))
		}
		for range rapid.SampledFrom([]int{1, 1, 2, 3, 5, 0, 20}).Draw(rt, "spans") {
			d.Spans = append(d.Spans, drawJaegerSpan(rt, level, len(d.Processes)))
		}
		doc.Data = append(doc.Data, d)
	}
	return doc
}

func drawJaegerSpan(rt *rapid.T, level, processes int) JaegerSpan {
	s := JaegerSpan{Trace: DrawIDText(rt, "trace"), ID: DrawIDText(rt, "id")}
	s.Name = optional(rt, "name", func() Bin { return Text(rt, "name", level) })
	s.HasRefs = rapid.Bool().Draw(rt, "hasRefs")
	if s.HasRefs {
		for range rapid.IntRange(0, 3).Draw(rt, "refs") {
			s.Refs = append(s.Refs, JaegerRef{
				Type: rapid.SampledFrom([]string{"CHILD_OF", "CHILD_OF", "FOLLOWS_FROM", "OTHER"}).Draw(rt, "refType"),
				Span: DrawIDText(rt, "ref"),
			})
		}
	}
	s.Start = optional(rt, "start", func() uint64 { return Micros(rt, "start") })
	s.Duration = optional(rt, "duration", func() uint64 { return Micros(rt, "duration") })
	s.Process = rapid.IntRange(0, processes-1).Draw(rt, "process")
	s.HasTags = rapid.IntRange(0, 3).Draw(rt, "hasTags") > 0
	if s.HasTags {
		used := map[Bin]bool{}
		for i := range rapid.IntRange(0, 6).Draw(rt, "tags") {
			k := Bin(rapid.SampledFrom([]string{"component", "span.kind", "internal.span.format", "error", "", "x", "lc", "protocolVersion"}).Draw(rt, "knownKey"))
			if k == "" {
				k = Text(rt, "key", level)
			}
			if used[k] {
				k = Bin(fmt.Sprintf("%s%d", k, i))
			}
			if used[k] {
				continue
			}
			used[k] = true
			switch k { // both end up in the same tag
			case "lc":
				used["component"] = true
			case "component":
				used["lc"] = true
			}
			t := JaegerTag{K: k}
			switch {
			case k == "span.kind":
				t.V = Bin(rapid.SampledFrom(spanKinds).Draw(rt, "kind"))
			case rapid.IntRange(0, 3).Draw(rt, "literal") == 0:
				t.Literal = rapid.SampledFrom([]string{"true", "false", "null", "0", "1", "-17", "1.5", "1e3", `{"a":"b"}`, `["x"]`}).Draw(rt, "literalValue")
			default:
				t.V = Text(rt, "value", level)
			}
			s.Tags = append(s.Tags, t)
		}
	}
	return s
}

var knownJaeger = []string{"traceID", "spanID", "operationName", "references", "startTime", "duration", "processID", "tags"}

func (d JaegerDoc) Node() Node {
	var data []Node
	for _, e := range d.Data {
		var spans []Node
		for _, s := range e.Spans {
			spans = append(spans, s.node())
		}
		var procs []Field
		for i, p := range e.Processes {
			procs = append(procs, Field{fmt.Sprintf("p%d", i+1), StructNode([]string{"serviceName"}, Field{"serviceName", StrNode(string(p))})})
		}
		data = append(data, StructNode([]string{"spans", "processes"},
			Field{"traceID", PlainNode("1")},
			Field{"spans", ArrNode(spans...)},
			Field{"processes", ObjNode(procs...)}))
	}
	return StructNode([]string{"data"}, Field{"data", ArrNode(data...)}, Field{"total", RawNode("0")}, Field{"errors", RawNode("null")})
}

func (s JaegerSpan) node() Node {
	fields := []Field{{"traceID", PlainNode(s.Trace.String())}, {"spanID", PlainNode(s.ID.String())}, {"flags", RawNode("1")}}
	if s.Name != nil {
		fields = append(fields, Field{"operationName", StrNode(string(*s.Name))})
	}
	if s.HasRefs {
		var refs []Node
		for _, r := range s.Refs {
			refs = append(refs, StructNode([]string{"refType", "spanID"},
				Field{"refType", StrNode(r.Type)}, Field{"traceID", PlainNode(s.Trace.String())}, Field{"spanID", PlainNode(r.Span.String())}))
		}
		fields = append(fields, Field{"references", ArrNode(refs...)})
	}
	if s.Start != nil {
		fields = append(fields, Field{"startTime", UintNode(*s.Start)})
	}
	if s.Duration != nil {
		fields = append(fields, Field{"duration", UintNode(*s.Duration)})
	}
	if s.HasTags {
		var tags []Node
		for _, t := range s.Tags {
			value, typ := StrNode(string(t.V)), "string"
			if t.Literal != "" {
				value, typ = RawNode(t.Literal), "other"
			}
			tags = append(tags, StructNode([]string{"key", "value"},
				Field{"key", StrNode(string(t.K))}, Field{"type", StrNode(typ)}, Field{"value", value}))
		}
		fields = append(fields, Field{"tags", ArrNode(tags...)})
	}
	fields = append(fields, Field{"logs", ArrNode()}, Field{"processID", StrNode(fmt.Sprintf("p%d", s.Process+1))})
	return StructNode(knownJaeger, fields...)
}

// Want are the spans that must come out.
func (d JaegerDoc) Want() []proxy.Span {
	var out []proxy.Span
	for _, e := range d.Data {
		for _, s := range e.Spans {
			w := proxy.Span{Trace: proxy.Id(s.Trace.Value), Id: proxy.Id(s.ID.Value), Parent: proxy.Id(s.ID.Value)}
			for _, r := range s.Refs {
				if r.Type == "CHILD_OF" {
					w.Parent = proxy.Id(r.Span.Value)
				}
			}
			w.Name = string(deref(s.Name))
			w.Service = string(e.Processes[s.Process])
			w.Timestamp, w.Duration = ns(deref(s.Start)), micros(deref(s.Duration))
			w.Tags = map[string]string{}
			for _, t := range s.Tags {
				switch {
				case t.Literal != "" || t.K == "internal.span.format":
				case t.K == "span.kind":
					w.Timings = kindTimings(string(t.V), w.Timestamp, w.Duration)
				case t.K == "component":
					w.Tags["lc"] = string(t.V)
				default:
					w.Tags[string(t.K)] = string(t.V)
				}
			}
			w.Tags["protocolVersion"] = "jaeger"
			out = append(out, w)
		}
	}
	return out
}
