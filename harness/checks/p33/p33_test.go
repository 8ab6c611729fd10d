package p33

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"testing"
	"time"
	"unsafe"

	"github.com/flachnetz/dd-zipkin-proxy/codec/hyperjson"
	"github.com/modern-go/reflect2"
	"pgregory.net/rapid"

	"verifharness/engine"
	"verifharness/gen"
)

// shape is a type together with how it is decoded.
type shape struct {
	Kind   string   // uint, string, map, slice, array, struct
	Len    int      `json:",omitempty"` // of an array
	Elem   *shape   `json:",omitempty"`
	Names  []string `json:",omitempty"`
	Fields []shape  `json:",omitempty"`
}

func (s shape) typ() reflect.Type {
	switch s.Kind {
	case "uint":
		return reflect.TypeFor[uint64]()
	case "string":
		return reflect.TypeFor[string]()
	case "map":
		return reflect.TypeFor[map[string]string]()
	case "slice":
		return reflect.SliceOf(s.Elem.typ())
	case "array":
		return reflect.ArrayOf(s.Len, s.Elem.typ())
	}
	var fields []reflect.StructField
	for i, f := range s.Fields {
		fields = append(fields, reflect.StructField{Name: "F" + strconv.Itoa(i), Type: f.typ(), Tag: reflect.StructTag("json:" + strconv.Quote(s.Names[i]))})
	}
	return reflect.StructOf(fields)
}

func (s shape) decoder() hyperjson.ValueDecoder {
	switch s.Kind {
	case "uint":
		return hyperjson.Uint64ValueDecoder
	case "string":
		return hyperjson.StringValueDecoder
	case "map":
		return hyperjson.MakeMapDecoder(hyperjson.StringValueDecoder, hyperjson.StringValueDecoder)
	case "slice":
		return hyperjson.MakeSliceDecoder(reflect2.Type2(s.typ()).(reflect2.SliceType), s.Elem.decoder())
	case "array":
		return hyperjson.MakeArrayDecoder(reflect2.Type2(s.typ()).(reflect2.ArrayType), s.Elem.decoder())
	}
	var fields []hyperjson.Field
	t := s.typ()
	zero := reflect.Zero(t).Interface()
	for i, f := range s.Fields {
		offset := t.Field(i).Offset
		if i%2 == 1 {
			offset = hyperjson.OffsetOf(zero, "F"+strconv.Itoa(i))
		}
		fields = append(fields, hyperjson.Field{JsonName: s.Names[i], Offset: offset, Decoder: f.decoder()})
	}
	return hyperjson.MakeStructDecoder(fields)
}

func (s shape) depth() int {
	d := 0
	if s.Elem != nil {
		d = s.Elem.depth()
	}
	for _, f := range s.Fields {
		d = max(d, f.depth())
	}
	return d + 1
}

var fieldNames = []string{"id", "name", "a", "b", "c", "ab", "value", "key", "x y", "ünï", "tag.name", "tags", "some-longer-name-of-a-field", "0", "names", "nam", "日本"}

func drawShape(rt *rapid.T, depth int, top bool) shape {
	kinds := []string{"struct", "struct", "slice", "map", "array"}
	if !top {
		kinds = append(kinds, "uint", "uint", "string", "string", "string")
	}
	if depth == 0 {
		kinds = []string{"uint", "string", "map"}
	}
	s := shape{Kind: rapid.SampledFrom(kinds).Draw(rt, "kind")}
	switch s.Kind {
	case "slice", "array":
		elem := drawShape(rt, depth-1, false)
		s.Elem = &elem
		if s.Kind == "array" {
			s.Len = rapid.IntRange(0, 5).Draw(rt, "len")
		}
	case "struct":
		s.Names = rapid.SliceOfNDistinct(rapid.SampledFrom(fieldNames), 0, 6, rapid.ID).Draw(rt, "names")
		for range s.Names {
			s.Fields = append(s.Fields, drawShape(rt, depth-1, false))
		}
	}
	return s
}

type drawing struct {
	rt    *rapid.T
	level int
	items int // how many may still be drawn
	// one of so many values is of another kind, if it is not 0
	bad int
}

func (d *drawing) value(s shape) gen.Node {
	rt := d.rt
	if d.bad > 0 && rapid.IntRange(1, d.bad).Draw(rt, "bad") == 1 {
		return gen.RawNode(rapid.SampledFrom(wrong[s.Kind]).Draw(rt, "wrong"))
	}
	switch s.Kind {
	case "uint":
		return gen.UintNode(gen.ID(rt, "uint"))
	case "string":
		return gen.StrNode(string(gen.Text(rt, "string", d.level)))
	case "map":
		n := gen.ObjNode()
		seen := map[string]bool{}
		for range d.size("entries", 1<<30) {
			k := string(gen.Text(rt, "key", d.level))
			if !seen[k] {
				n.Fields = append(n.Fields, gen.Field{Name: k, Value: d.value(shape{Kind: "string"})})
			}
			seen[k] = true
		}
		return n
	case "slice", "array":
		n := gen.ArrNode()
		limit := 1 << 30
		if s.Kind == "array" {
			limit = s.Len
		}
		for i := range d.size("items", limit) {
			if s.Kind == "array" && i >= s.Len && rapid.Bool().Draw(rt, "other") {
				// it is skipped
				n.Items = append(n.Items, gen.RandomNode(gen.NewRng(rapid.Uint64().Draw(rt, "otherSeed")), 3))
				continue
			}
			n.Items = append(n.Items, d.value(*s.Elem))
		}
		return n
	}
	n := gen.StructNode(s.Names)
	for i, f := range s.Fields {
		if rapid.IntRange(0, 5).Draw(rt, "missing") < 5 {
			n.Fields = append(n.Fields, gen.Field{Name: s.Names[i], Value: d.value(f)})
		}
	}
	return n
}

func (d *drawing) size(label string, limit int) int {
	most := 4
	if rapid.IntRange(0, 19).Draw(d.rt, label+".large") == 19 {
		most = 100
	}
	n := min(rapid.IntRange(0, most).Draw(d.rt, label), d.items)
	if limit < 100 && n > limit+8 {
		n = limit + n%8
	}
	d.items -= n
	return n
}

var wrong = map[string][]string{
	"uint": {`"1"`, "true", "false", "{}", "[]", "[1]", "-1", "1.5", "1e3", "-0", "18446744073709551616", "28446744073709551615", "18446744073709551620", "99999999999999999999",
		"100000000000000000000000000", "340282366920938463463374607431768211456"},
	"string": {"1", "true", "false", "{}", "[]", `["a"]`, `{"a":"b"}`},
	"map":    {"1", `"x"`, "true", "[]", `["a","b"]`, `{"a":1}`, `{"a":true}`, `{"a":{}}`, `{"a":[]}`, `{"a":"b","c":["d"]}`},
	"slice":  {"1", `"x"`, "false", "{}", `{"0":1}`},
	"array":  {"1", `"x"`, "false", "{}", `{"0":1}`},
	"struct": {"1", `"x"`, "true", "[]", `[{}]`},
}

type bindCase struct {
	Shape  shape
	Docs   []gen.Bin
	Cut    int // that many bytes are missing at the end, -1: none
	Chunks gen.Chunks
	// size of the initial buffer, -1: none, -2: the input is the buffer
	Buffer int
	GC     bool
}

func draw(rt *rapid.T) bindCase {
	c := bindCase{Cut: -1, Chunks: gen.DrawChunks(rt), GC: rapid.IntRange(0, 99).Draw(rt, "gc") == 99}
	c.Shape = drawShape(rt, rapid.IntRange(1, 4).Draw(rt, "depth"), true)
	d := &drawing{rt: rt, level: rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(rt, "level"), items: 150}
	n := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(rt, "docs")
	bad := rapid.IntRange(0, 2).Draw(rt, "anyBad") == 2
	total := 0
	for i := range n {
		d.bad = 0
		if bad && i == n-1 {
			d.bad = rapid.SampledFrom([]int{3, 8, 20}).Draw(rt, "badness")
		}
		node := d.value(c.Shape)
		if node.Kind == 'r' && !strings.HasPrefix(node.Text, "{") && !strings.HasPrefix(node.Text, "[") {
			node = gen.ObjNode(gen.Field{Name: "unknown", Value: node})
		}
		doc := gen.Render(node, gen.DrawStyle(rt))
		total += len(doc)
		c.Docs = append(c.Docs, gen.Bin(doc))
	}
	switch rapid.IntRange(0, 4).Draw(rt, "buffer") {
	case 0:
		c.Buffer = -1
	case 1:
		c.Buffer = -2
	case 2:
		c.Buffer = rapid.IntRange(0, 20).Draw(rt, "bufferSize")
	case 3:
		c.Buffer = rapid.SampledFrom([]int{32, 64, 100, 512, 1000, 4096, 8192, 100000}).Draw(rt, "bufferSize")
	case 4:
		c.Buffer = max(0, total+rapid.IntRange(-5, 5).Draw(rt, "bufferDiff"))
	}
	if rapid.IntRange(0, 5).Draw(rt, "isCut") == 5 {
		c.Cut = rapid.IntRange(0, 200).Draw(rt, "cut")
	}
	return c
}

// normal makes nil of everything that is empty.
func normal(v reflect.Value) {
	switch v.Kind() {
	case reflect.Map:
		if v.Len() == 0 {
			v.SetZero()
		}
	case reflect.Slice:
		if v.Len() == 0 {
			v.SetZero()
		}
		for i := range v.Len() {
			normal(v.Index(i))
		}
	case reflect.Array:
		for i := range v.Len() {
			normal(v.Index(i))
		}
	case reflect.Struct:
		for i := range v.NumField() {
			normal(v.Field(i))
		}
	}
}

// guarded has the value between two others that must not change.
type guarded struct{ v reflect.Value }

const guard = 0xa5a5a5a5a5a5a5a5

func newGuarded(t reflect.Type) guarded {
	v := reflect.New(reflect.StructOf([]reflect.StructField{
		{Name: "Before", Type: reflect.TypeFor[uint64]()}, {Name: "Value", Type: t}, {Name: "After", Type: reflect.TypeFor[uint64]()},
	})).Elem()
	v.Field(0).SetUint(guard)
	v.Field(2).SetUint(guard)
	return guarded{v}
}

func (g guarded) value() reflect.Value { return g.v.Field(1) }

func (g guarded) damaged() bool { return g.v.Field(0).Uint() != guard || g.v.Field(2).Uint() != guard }

func run(e *engine.Env, c bindCase) error {
	t := c.Shape.typ()
	decode := c.Shape.decoder()
	data := bytes.Join(func() (out [][]byte) {
		for _, d := range c.Docs {
			out = append(out, []byte(d))
		}
		return
	}(), []byte("\n"))
	if c.Cut >= 0 {
		trimmed := bytes.TrimRight(data, " \t\r\n")
		data = trimmed[:max(0, len(trimmed)-1-c.Cut)]
	}
	e.Label(c.Shape.Kind)
	e.LabelIf(c.Shape.depth() > 2, "nested types")
	e.LabelIf(len(c.Docs) > 1, "several documents")
	e.LabelIf(c.Cut >= 0, "cut off")
	e.NonTrivialIf(len(data) > 20 && c.Shape.depth() > 1)

	ref := json.NewDecoder(bytes.NewReader(data))
	var p *hyperjson.Parser
	own := append([]byte(nil), data...)
	var buffer []byte
	switch {
	case c.Buffer == -2:
		p = hyperjson.NewWithBytes(own)
	case c.Buffer == -1:
		p = hyperjson.NewWithReader(gen.NewReader(own, c.Chunks), nil)
	default:
		buffer = make([]byte, c.Buffer)
		p = hyperjson.NewWithReader(gen.NewReader(own, c.Chunks), buffer)
	}
	var got []guarded
	var want []reflect.Value
	compare := func(when string) error {
		for i, g := range got {
			if g.damaged() {
				return fmt.Errorf("%s, the memory next to the value of document %d is changed", when, i)
			}
			if !reflect.DeepEqual(g.value().Interface(), want[i].Interface()) {
				return fmt.Errorf("%s, document %d is decoded to\n%.1500v\nbut it is\n%.1500v\ntype: %v\ndocument: %.2000s", when, i, g.value(), want[i], t, c.Docs[i])
			}
		}
		return nil
	}
	for i := range c.Docs {
		w := reflect.New(t)
		wantErr := ref.Decode(w.Interface())
		var typeErr *json.UnmarshalTypeError
		if wantErr != nil && !errors.As(wantErr, &typeErr) && c.Cut < 0 {
			return engine.HarnessError(fmt.Errorf("encoding/json: %v", wantErr))
		}
		g := newGuarded(t)
		err := decode(g.v.Field(1).Addr().UnsafePointer(), p)
		if g.damaged() {
			return fmt.Errorf("decoding document %d changes the memory next to the value", i)
		}
		if (err == nil) != (wantErr == nil) {
			return fmt.Errorf("document %d: error is %v, but with encoding/json it is %v\ntype: %v\ndocument: %.2000s", i, err, wantErr, t, c.Docs[i])
		}
		if err != nil {
			e.Label("rejected")
			break
		}
		normal(g.value())
		normal(w.Elem())
		got, want = append(got, g), append(want, w.Elem())
		if c.GC {
			runtime.GC()
		}
		if err := compare("after decoding"); err != nil {
			return err
		}
	}
	e.LabelIf(len(got) == len(c.Docs), "accepted")
	for i := range own {
		own[i] = '#'
	}
	for i := range buffer {
		buffer[i] = '#'
	}
	if err := compare("after the buffers are used for something else"); err != nil {
		return err
	}
	runtime.KeepAlive(unsafe.Pointer(p))
	return nil
}

func TestCheck(t *testing.T) {
	engine.Main(t, "P33", engine.New("bind", 40000, 1000000, draw, run).Timeout(30*time.Second))
}
