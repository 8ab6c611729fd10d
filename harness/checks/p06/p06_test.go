package p06

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"strconv"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/codec/hyperjson"
	"pgregory.net/rapid"

	"verifharness/engine"
	"verifharness/gen"
)

type readCase struct {
	Text   gen.Bin
	Chunks gen.Chunks
	// size of the initial buffer, -1: none, -2: the input is the buffer
	Buffer int
	// what to do with each value
	Plan []int
}

func drawNode(rt *rapid.T, depth, level int) gen.Node {
	max := 7
	if depth == 0 {
		max = 4
	}
	switch rapid.IntRange(0, max).Draw(rt, "kind") {
	case 0:
		return gen.RawNode(rapid.SampledFrom([]string{"true", "false", "null"}).Draw(rt, "literal"))
	case 1:
		return gen.RawNode(rapid.SampledFrom(gen.Numbers).Draw(rt, "number"))
	case 2:
		return gen.RawNode(strconv.FormatInt(rapid.Int64().Draw(rt, "int"), 10))
	case 3, 4:
		return gen.StrNode(string(gen.Text(rt, "text", level)))
	case 5, 6:
		return drawObject(rt, depth, level)
	}
	return drawArray(rt, depth, level)
}

func drawObject(rt *rapid.T, depth, level int) gen.Node {
	n := gen.ObjNode()
	for range rapid.IntRange(0, 4).Draw(rt, "fields") {
		n.Fields = append(n.Fields, gen.Field{Name: string(gen.Text(rt, "key", level)), Value: drawNode(rt, depth-1, level)})
	}
	return n
}

func drawArray(rt *rapid.T, depth, level int) gen.Node {
	n := gen.ArrNode()
	for range rapid.IntRange(0, 4).Draw(rt, "items") {
		n.Items = append(n.Items, drawNode(rt, depth-1, level))
	}
	return n
}

func draw(rt *rapid.T) readCase {
	level := rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(rt, "level")
	depth := rapid.IntRange(0, 4).Draw(rt, "depth")
	var node gen.Node
	if rapid.Bool().Draw(rt, "object") {
		node = drawObject(rt, depth, level)
	} else {
		node = drawArray(rt, depth, level)
	}
	if rapid.IntRange(0, 30).Draw(rt, "deep") == 30 {
		n := rapid.IntRange(1, 9000).Draw(rt, "nesting")
		node = gen.ArrNode(gen.DeepNode(gen.NewRng(rapid.Uint64().Draw(rt, "deepSeed")), n), node)
	}
	st := gen.DrawStyle(rt)
	c := readCase{Chunks: gen.DrawChunks(rt)}
	c.Text = gen.Bin(gen.Render(node, st))
	switch rapid.IntRange(0, 4).Draw(rt, "buffer") {
	case 0:
		c.Buffer = -1
	case 1:
		c.Buffer = -2
	case 2:
		c.Buffer = rapid.IntRange(0, 20).Draw(rt, "bufferSize")
	case 3:
		c.Buffer = rapid.SampledFrom([]int{32, 64, 100, 512, 1000, 4096, 8192, 100000}).Draw(rt, "bufferSize")
	case 4:
		c.Buffer = max(0, len(c.Text)+rapid.IntRange(-5, 5).Draw(rt, "bufferDiff"))
	}
	c.Plan = rapid.SliceOfN(rapid.IntRange(0, 63), 0, 20).Draw(rt, "plan")
	return c
}

type walker struct {
	p       *hyperjson.Parser
	dec     *json.Decoder
	plan    []int
	steps   int
	skipped int
	wrong   int
	values  int
	// objects and arrays deeper than that are skipped
	depth int
}

func (w *walker) next() int {
	w.steps++
	if len(w.plan) == 0 {
		return 0
	}
	return w.plan[w.steps%len(w.plan)]
}

type method struct {
	name string
	typ  hyperjson.Type
	call func(p *hyperjson.Parser) error
}

func tok(f func(*hyperjson.Parser) (hyperjson.Token, error)) func(*hyperjson.Parser) error {
	return func(p *hyperjson.Parser) error {
		_, err := f(p)
		return err
	}
}

var errCalled = errors.New("callback was called")

var methods = []method{
	{"ReadString", hyperjson.TypeString, tok((*hyperjson.Parser).ReadString)},
	{"ReadNumber", hyperjson.TypeNumber, tok((*hyperjson.Parser).ReadNumber)},
	{"ReadBoolean", hyperjson.TypeBoolean, tok((*hyperjson.Parser).ReadBoolean)},
	{"ReadNull", hyperjson.TypeNull, tok((*hyperjson.Parser).ReadNull)},
	{"ConsumeObjectBegin", hyperjson.TypeObjectBegin, (*hyperjson.Parser).ConsumeObjectBegin},
	{"ConsumeObjectEnd", hyperjson.TypeObjectEnd, (*hyperjson.Parser).ConsumeObjectEnd},
	{"ConsumeArrayBegin", hyperjson.TypeArrayBegin, (*hyperjson.Parser).ConsumeArrayBegin},
	{"ConsumeArrayEnd", hyperjson.TypeArrayEnd, (*hyperjson.Parser).ConsumeArrayEnd},
	{"ReadObject", hyperjson.TypeObjectBegin, func(p *hyperjson.Parser) error {
		return p.ReadObject(func([]byte) error { return errCalled })
	}},
	{"ReadArray", hyperjson.TypeArrayBegin, func(p *hyperjson.Parser) error {
		return p.ReadArray(func() error { return errCalled })
	}},
	{"ReadLiteral", hyperjson.TypeError, tok((*hyperjson.Parser).ReadLiteral)},
	{"Skip", hyperjson.TypeError, (*hyperjson.Parser).Skip},
}

func isLiteral(t hyperjson.Type) bool {
	return t == hyperjson.TypeString || t == hyperjson.TypeNumber || t == hyperjson.TypeBoolean || t == hyperjson.TypeNull
}

// expect checks the type of the next token, and maybe reads something else first.
func (w *walker) expect(want hyperjson.Type) error {
	plan := w.next()
	if plan&1 != 0 {
		m := methods[(plan>>1)%len(methods)]
		fits := m.typ == want
		if m.name == "ReadLiteral" {
			fits = isLiteral(want)
		}
		if m.name == "Skip" {
			fits = want != hyperjson.TypeObjectEnd && want != hyperjson.TypeArrayEnd
		}
		if !fits {
			w.wrong++
			if err := m.call(w.p); err == nil {
				return fmt.Errorf("%s succeeds although the next token is %s", m.name, want)
			} else if err == errCalled {
				return fmt.Errorf("%s calls its callback although the next token is %s", m.name, want)
			}
		}
	}
	got, err := w.p.NextType()
	if err != nil {
		return fmt.Errorf("NextType before %s: %v", want, err)
	}
	if got != want {
		return fmt.Errorf("next token is %s, want %s", got, want)
	}
	return nil
}

func (w *walker) literal(t hyperjson.Type, text string, key bool) error {
	if err := w.expect(t); err != nil {
		return err
	}
	plan := w.next()
	if !key && plan%5 == 1 {
		w.skipped++
		return w.p.Skip()
	}
	var got hyperjson.Token
	var err error
	switch {
	case plan%5 == 2:
		got, err = w.p.ReadLiteral()
	case t == hyperjson.TypeString:
		got, err = w.p.ReadString()
	case t == hyperjson.TypeNumber:
		got, err = w.p.ReadNumber()
	case t == hyperjson.TypeBoolean:
		got, err = w.p.ReadBoolean()
	case t == hyperjson.TypeNull:
		got, err = w.p.ReadNull()
	}
	if err != nil {
		return fmt.Errorf("reading %s %.200q: %v", t, text, err)
	}
	if got.Type != t || string(got.Value) != text {
		return fmt.Errorf("read %s %.200q, want %s %.200q", got.Type, got.Value, t, text)
	}
	return nil
}

// value reads the next value with both readers.
func (w *walker) value(depth int) error {
	w.values++
	plan := w.next()
	if plan%7 == 3 || depth > w.depth {
		// skip it
		var raw json.RawMessage
		if err := w.dec.Decode(&raw); err != nil {
			return harness(err)
		}
		w.skipped++
		if err := w.p.Skip(); err != nil {
			return fmt.Errorf("skip %.100s: %v", raw, err)
		}
		return nil
	}
	t, err := w.dec.Token()
	if err != nil {
		return harness(err)
	}
	switch t := t.(type) {
	case nil:
		return w.literal(hyperjson.TypeNull, "null", false)
	case bool:
		return w.literal(hyperjson.TypeBoolean, strconv.FormatBool(t), false)
	case json.Number:
		return w.literal(hyperjson.TypeNumber, string(t), false)
	case string:
		return w.literal(hyperjson.TypeString, t, false)
	case json.Delim:
		if t == '{' {
			return w.object(depth, plan)
		}
		return w.array(depth, plan)
	}
	return harness(fmt.Errorf("unexpected %T", t))
}

func (w *walker) object(depth, plan int) error {
	if err := w.expect(hyperjson.TypeObjectBegin); err != nil {
		return err
	}
	if plan%3 == 1 {
		err := w.p.ReadObject(func(key []byte) error {
			if !w.dec.More() {
				return fmt.Errorf("additional field %.200q", key)
			}
			t, err := w.dec.Token()
			if err != nil {
				return harness(err)
			}
			if t.(string) != string(key) {
				return fmt.Errorf("field %.200q, want %.200q", key, t)
			}
			return w.value(depth + 1)
		})
		if err != nil {
			return err
		}
		if w.dec.More() {
			return fmt.Errorf("fields are missing")
		}
		_, err = w.dec.Token()
		return harness(err)
	}
	if err := w.p.ConsumeObjectBegin(); err != nil {
		return err
	}
	for w.dec.More() {
		t, err := w.dec.Token()
		if err != nil {
			return harness(err)
		}
		if err := w.literal(hyperjson.TypeString, t.(string), true); err != nil {
			return err
		}
		if err := w.value(depth + 1); err != nil {
			return err
		}
	}
	if err := w.expect(hyperjson.TypeObjectEnd); err != nil {
		return err
	}
	if _, err := w.dec.Token(); err != nil {
		return harness(err)
	}
	return w.p.ConsumeObjectEnd()
}

func (w *walker) array(depth, plan int) error {
	if err := w.expect(hyperjson.TypeArrayBegin); err != nil {
		return err
	}
	if plan%3 == 1 {
		err := w.p.ReadArray(func() error {
			if !w.dec.More() {
				return fmt.Errorf("additional array element")
			}
			return w.value(depth + 1)
		})
		if err != nil {
			return err
		}
		if w.dec.More() {
			return fmt.Errorf("array elements are missing")
		}
		_, err = w.dec.Token()
		return harness(err)
	}
	if err := w.p.ConsumeArrayBegin(); err != nil {
		return err
	}
	for w.dec.More() {
		if err := w.value(depth + 1); err != nil {
			return err
		}
	}
	if err := w.expect(hyperjson.TypeArrayEnd); err != nil {
		return err
	}
	if _, err := w.dec.Token(); err != nil {
		return harness(err)
	}
	return w.p.ConsumeArrayEnd()
}

type harnessError struct{ error }

func harness(err error) error {
	if err == nil {
		return nil
	}
	return harnessError{err}
}

func run(e *engine.Env, c readCase) error {
	w := &walker{plan: c.Plan, depth: 200}
	w.dec = json.NewDecoder(bytes.NewReader([]byte(c.Text)))
	w.dec.UseNumber()
	switch c.Buffer {
	case -2:
		w.p = hyperjson.NewWithBytes([]byte(c.Text))
	case -1:
		w.p = hyperjson.NewWithReader(gen.NewReader([]byte(c.Text), c.Chunks), nil)
	default:
		buf := bytes.Repeat([]byte("]"), c.Buffer)
		w.p = hyperjson.NewWithReader(gen.NewReader([]byte(c.Text), c.Chunks), buf)
	}
	err := w.value(0)
	if _, ok := err.(harnessError); ok {
		return engine.HarnessError(fmt.Errorf("broken test case: %v: %s", err, c.Text))
	}
	if err == nil {
		if t, nextErr := w.p.NextType(); nextErr == nil {
			err = fmt.Errorf("another token %s after the end", t)
		}
	}
	e.LabelIf(w.skipped > 0, "values skipped")
	e.LabelIf(w.wrong > 0, "reads of wrong types")
	e.LabelIf(c.Buffer >= 0 && c.Buffer < 16, "tiny buffer")
	e.LabelIf(c.Buffer == -2, "input is the buffer")
	e.LabelIf(len(c.Chunks.Sizes) > 0, "split into reads")
	e.LabelIf(len(c.Text) > 8192, "more than 8 KiB")
	e.NonTrivialIf(w.values > 2)
	return err
}

func TestCheck(t *testing.T) {
	engine.Main(t, "P06", engine.New("read", 120000, 5000000, draw, run).Timeout(30*time.Second))
}
