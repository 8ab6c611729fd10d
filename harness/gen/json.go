package gen

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Node is a JSON value that can be rendered in many ways.
type Node struct {
	Kind   byte // 's'tring, 'r'aw, 'o'bject, 'a'rray, 'p'lain string (never escaped)
	Text   string
	Fields []Field
	Items  []Node
	// if set, unknown fields with other names may be added
	Open  bool
	Known []string
}

// Field is a field of an object.
type Field struct {
	Name  string
	Value Node
}

func StrNode(s string) Node   { return Node{Kind: 's', Text: s} }
func PlainNode(s string) Node { return Node{Kind: 'p', Text: s} }
func RawNode(s string) Node   { return Node{Kind: 'r', Text: s} }
func UintNode(v uint64) Node  { return RawNode(strconv.FormatUint(v, 10)) }
func ObjNode(f ...Field) Node { return Node{Kind: 'o', Fields: f} }
func ArrNode(i ...Node) Node  { return Node{Kind: 'a', Items: i} }
func StructNode(known []string, f ...Field) Node {
	return Node{Kind: 'o', Fields: f, Open: true, Known: known}
}

// Style says how to render a document. The zero value is the compact form in canonical order.
type Style struct {
	Space   int    `json:",omitempty"` // 0 none, 1 a bit, 2 a lot
	Escape  int    `json:",omitempty"` // 0 as needed, 1 some, 2 everything
	Keys    bool   `json:",omitempty"` // escapes in field names too
	Shuffle bool   `json:",omitempty"` // fields in any order
	Unknown int    `json:",omitempty"` // 0 none, 1 some, 2 many unknown fields
	Deep    int    `json:",omitempty"` // one unknown value with this nesting
	Seed    uint64 `json:",omitempty"`
}

// DrawStyle draws a style.
func DrawStyle(rt *rapid.T) Style {
	var s Style
	if rapid.IntRange(0, 5).Draw(rt, "canonical") == 0 {
		return s
	}
	s.Space = rapid.IntRange(0, 2).Draw(rt, "space")
	s.Escape = rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(rt, "escape")
	s.Keys = rapid.IntRange(0, 3).Draw(rt, "keys") == 3
	s.Shuffle = rapid.Bool().Draw(rt, "shuffle")
	s.Unknown = rapid.IntRange(0, 2).Draw(rt, "unknown")
	if rapid.IntRange(0, 30).Draw(rt, "deep") == 30 {
		s.Deep = rapid.IntRange(1, 3000).Draw(rt, "depth")
	}
	s.Seed = rapid.Uint64().Draw(rt, "styleSeed")
	return s
}

type renderer struct {
	b    strings.Builder
	st   Style
	rng  *Rng
	deep int
}

// Render renders the document.
func Render(n Node, st Style) []byte {
	r := &renderer{st: st, rng: NewRng(st.Seed), deep: st.Deep}
	r.space()
	r.node(n)
	r.space()
	return []byte(r.b.String())
}

func (r *renderer) space() {
	if r.st.Space == 0 {
		return
	}
	n := r.rng.Intn(3)
	if r.st.Space == 1 && n == 2 {
		n = 0
	} else if r.st.Space == 2 && r.rng.Chance(40) {
		n = 20 + r.rng.Intn(300)
	}
	for range n {
		r.b.WriteByte(" \n\t\r"[r.rng.Intn(4)])
	}
}

func (r *renderer) node(n Node) {
	switch n.Kind {
	case 's':
		r.str(n.Text, r.st.Escape)
	case 'p':
		r.str(n.Text, 0)
	case 'r':
		r.b.WriteString(n.Text)
	case 'a':
		r.b.WriteByte('[')
		for i, item := range n.Items {
			if i > 0 {
				r.b.WriteByte(',')
			}
			r.space()
			r.node(item)
			r.space()
		}
		if len(n.Items) == 0 {
			r.space()
		}
		r.b.WriteByte(']')
	case 'o':
		fields := append([]Field(nil), n.Fields...)
		if n.Open && r.st.Unknown > 0 {
			fields = r.addUnknown(fields, n.Known)
		}
		if r.st.Shuffle {
			for i := len(fields) - 1; i > 0; i-- {
				j := r.rng.Intn(i + 1)
				fields[i], fields[j] = fields[j], fields[i]
			}
		}
		r.b.WriteByte('{')
		for i, f := range fields {
			if i > 0 {
				r.b.WriteByte(',')
			}
			r.space()
			esc := 0
			if r.st.Keys {
				esc = 1
			}
			r.str(f.Name, esc)
			r.space()
			r.b.WriteByte(':')
			r.space()
			r.node(f.Value)
			r.space()
		}
		if len(fields) == 0 {
			r.space()
		}
		r.b.WriteByte('}')
	}
}

var unknownNames = []string{
	"remoteEndpoint", "debug", "shared", "zipkinVersion", "ipv4", "ipv6", "port", "x", "", "unknown field",
	"ids", "trace", "names", "durations", "time", "type", "host", "kin", "tagss", "endpoints", "logs", "flags", "warnings", "total",
	"key with \"quotes\"", "back\\slash", "ünïcödé", "new\nline",
}

func (r *renderer) addUnknown(fields []Field, known []string) []Field {
	n := r.rng.Intn(1 + r.st.Unknown)
	for range n {
		name := unknownNames[r.rng.Intn(len(unknownNames))]
		if r.rng.Chance(8) {
			name += fmt.Sprint(r.rng.Intn(1000))
		}
		if len(known) > 0 && r.rng.Chance(3) {
			name = similar(r.rng, known[r.rng.Intn(len(known))])
		}
		clash := false
		for _, k := range known {
			clash = clash || strings.EqualFold(k, name)
		}
		for _, f := range fields {
			clash = clash || strings.EqualFold(f.Name, name)
		}
		if clash {
			continue
		}
		value := RandomNode(r.rng, 4)
		if r.deep > 0 {
			value = DeepNode(r.rng, r.deep)
			r.deep = 0
		}
		fields = append(fields, Field{name, value})
		// anywhere between the others, also in the otherwise canonical order
		last := len(fields) - 1
		j := r.rng.Intn(last + 1)
		fields[last], fields[j] = fields[j], fields[last]
	}
	return fields
}

// similar makes another name that is easily confused with a known one.
func similar(r *Rng, known string) string {
	name := []rune(known)
	for range 1 + r.Intn(2) {
		if len(name) == 0 {
			return "n"
		}
		i := r.Intn(len(name))
		switch r.Intn(5) {
		case 0, 1: // in the middle, if there is one
			name[min(max(1, i), len(name)-1)] = rune('a' + r.Intn(26))
		case 2:
			name[i], name[len(name)-1-i] = name[len(name)-1-i], name[i]
		case 3:
			name = append(name[:i], name[i+1:]...)
		case 4:
			name = append(name, name[i])
		}
	}
	return string(name)
}

// Numbers has JSON numbers of all forms.
var Numbers = []string{
	"0", "-0", "1", "-1", "7", "10", "1234567890", "18446744073709551615", "-9223372036854775808", "0.5", "-0.25", "1.0",
	"1e5", "1E5", "1e+5", "1E+05", "1e-5", "2.5E-10", "-3.75e+100", "123456789012345678901234567890", "0.00000000000000001", "0e0",
}

// RandomNode makes any JSON value.
func RandomNode(r *Rng, depth int) Node {
	k := r.Intn(9)
	if depth == 0 && k >= 6 {
		k -= 3
	}
	switch k {
	case 0:
		return RawNode([]string{"true", "false", "null"}[r.Intn(3)])
	case 1, 2:
		return RawNode(Numbers[r.Intn(len(Numbers))])
	case 3, 4, 5:
		return StrNode(RandomText(r))
	case 6, 7:
		var fields []Field
		for i := range r.Intn(4) {
			fields = append(fields, Field{RandomText(r) + fmt.Sprint(i), RandomNode(r, depth-1)})
		}
		return ObjNode(fields...)
	default:
		var items []Node
		for range r.Intn(4) {
			items = append(items, RandomNode(r, depth-1))
		}
		return ArrNode(items...)
	}
}

// DeepNode makes a value with the given nesting.
func DeepNode(r *Rng, depth int) Node {
	n := RandomNode(r, 0)
	arrays := r.Intn(3)
	for range depth {
		if arrays == 0 || arrays == 2 && r.Chance(2) {
			n = ObjNode(Field{"d", n})
		} else {
			n = ArrNode(n)
		}
	}
	return n
}

// RandomText makes any text.
func RandomText(r *Rng) string {
	switch r.Intn(4) {
	case 0:
		return idents[r.Intn(len(idents))]
	case 1, 2:
		s := ""
		for range r.Intn(6) {
			s += pieces[r.Intn(len(pieces))]
		}
		return s
	default:
		if r.Chance(30) {
			return strings.Repeat(pieces[r.Intn(len(pieces))], 100+r.Intn(12000))
		}
		return strings.Repeat(pieces[r.Intn(len(pieces))], r.Intn(90))
	}
}

func (r *renderer) str(s string, escape int) {
	r.b.WriteByte('"')
	for _, c := range s {
		must := c == '"' || c == '\\' || c < 0x20
		esc := must || escape == 2 || escape == 1 && r.rng.Chance(6)
		if c >= 0xd800 && c < 0xe000 || c == utf8.RuneError && !esc {
			// not in the domain or ambiguous
			r.b.WriteString("\ufffd")
			continue
		}
		if !esc {
			r.b.WriteRune(c)
			continue
		}
		short := byte(0)
		switch c {
		case '"', '\\', '/':
			short = byte(c)
		case '\b':
			short = 'b'
		case '\f':
			short = 'f'
		case '\n':
			short = 'n'
		case '\r':
			short = 'r'
		case '\t':
			short = 't'
		}
		if short != 0 && (r.st.Escape == 0 || r.rng.Chance(2)) {
			r.b.WriteByte('\\')
			r.b.WriteByte(short)
			continue
		}
		if c >= 0x10000 {
			hi, lo := utf16.EncodeRune(c)
			r.hex(hi)
			r.hex(lo)
			continue
		}
		r.hex(c)
	}
	r.b.WriteByte('"')
}

func (r *renderer) hex(c rune) {
	f := "\\u%04x"
	if r.st.Escape > 0 && r.rng.Chance(2) {
		f = "\\u%04X"
	}
	fmt.Fprintf(&r.b, f, c)
}
