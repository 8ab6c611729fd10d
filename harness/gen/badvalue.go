package gen

import (
	"strings"

	"pgregory.net/rapid"
)

// site is a value of a document, and what it must not be.
type site struct {
	at   *Node
	kind string // id, number, string, literal, object, array
	path string
}

// what the fields of the formats have to be. Those that are not listed may be anything.
var fieldKinds = map[string]map[string]string{
	V2: {"traceId": "id", "id": "id", "parentId": "id", "name": "string", "localEndpoint": "object", "serviceName": "string", "kind": "string",
		"timestamp": "number", "duration": "number", "tags": "object"},
	V1: {"traceId": "id", "id": "id", "parentId": "id", "name": "string", "endpoint": "object", "serviceName": "string", "timestamp": "number",
		"duration": "number", "annotations": "array", "binaryAnnotations": "array", "key": "string"},
	Jaeger: {"data": "array", "spans": "array", "processes": "object", "spanID": "id", "operationName": "string", "references": "array", "refType": "string",
		"startTime": "number", "duration": "number", "processID": "string", "tags": "array", "key": "string", "serviceName": "string"},
}

func sites(format string, n *Node, kind, path string, out []site) []site {
	if kind != "" && !(n.Kind == 'r' && n.Text == "null") {
		out = append(out, site{n, kind, path})
	}
	for i := range n.Items {
		sub := ""
		if kind == "array" {
			sub = "object"
		}
		out = sites(format, &n.Items[i], sub, path+"[]", out)
	}
	for i := range n.Fields {
		f := &n.Fields[i]
		sub := path + "." + f.Name
		switch {
		case !n.Open && strings.HasSuffix(path, "tags"):
			out = sites(format, &f.Value, "string", path+".*", out)
		case !n.Open && strings.HasSuffix(path, "processes"):
			out = sites(format, &f.Value, "object", path+".*", out)
		case f.Name == "traceID" && strings.HasSuffix(path, "spans[]"):
			out = sites(format, &f.Value, "id", sub, out)
		case format == V1 && f.Name == "value" && strings.HasSuffix(path, "binaryAnnotations[]"):
			out = sites(format, &f.Value, "literal", sub, out)
		case format == V1 && f.Name == "value":
			out = sites(format, &f.Value, "string", sub, out)
		case format == Jaeger && f.Name == "value":
			// may be anything
		default:
			out = sites(format, &f.Value, fieldKinds[format][f.Name], sub, out)
		}
	}
	return out
}

var (
	badNumbers = []string{"-1", "-0", "1.5", "1.0", "0.1", "1e3", "1E3", "1e-3", "18446744073709551616", "18446744073709551625", "20000000000000000000",
		"99999999999999999999", "1600000000000000000000", "340282366920938463463374607431768211456", "340282366920938463463374608431768211456"}
	badEscapes = []string{`"\u12g4"`, `"\u00zz"`, `"x\uGGGG"`, `"\u"`, `"\u1"`, `"\u12"`, `"ab\u123"`, `"\u-123"`, `"\u 123"`, `"\u00e"`, `"\ud83d\uzz00"`}
	others     = map[string][]string{
		"string": {`"x"`, `""`, `"1"`, `"0000000000000001"`, `"null"`, `"[]"`},
		"number": {"0", "1", "17", "-1", "1.5", "1600000000000000"},
		"bool":   {"true", "false"},
		"object": {"{}", `{"id":"1"}`, `{"a":{"b":[]}}`, `{"serviceName":"x"}`},
		"array":  {"[]", "[1]", `["a","b"]`, "[{}]", "[[]]"},
	}
)

// BadValue is what a value is replaced with.
type BadValue struct {
	Path, At int
	Seed     uint64
	Text     Bin `json:",omitempty"`
}

func DrawBadValue(rt *rapid.T) BadValue {
	b := BadValue{Path: rapid.IntRange(0, 59).Draw(rt, "path"), At: rapid.IntRange(0, 600).Draw(rt, "at"), Seed: rapid.Uint64().Draw(rt, "badSeed")}
	b.Text = Bin(rapid.SampledFrom([]string{"g", "0x1f", "-1", "+1", " 1", "1 ", "1_0", "12345678-1234-1234-1234-123456789012", "ü", "10000000000000000", "0000000000000000f",
		"463ac35c9f6413ad48485a3953bb6124", "/", ":", "@", "G", "`", "1\n", "0.5", "1e5z", "null", "\u0661"}).Draw(rt, "badId"))
	return b
}

// BadValue renders the document with a value that is not what it has to be. Kind is what it should have been,
// and path is where it is. There is none if the document has no such value.
func (d Doc) BadValue(b BadValue) (data []byte, kind, path, bad string) {
	d = d.expand()
	var root Node
	rng := NewRng(b.Seed)
	rootKind := "array"
	if d.Format == Jaeger {
		root, rootKind = d.Jaeger.Node(), "object"
	} else {
		for _, s := range d.V1 {
			root.Items = append(root.Items, s.Node())
		}
		for _, s := range d.V2 {
			root.Items = append(root.Items, s.Node())
		}
		root.Kind = 'a'
	}
	all := sites(d.Format, &root, rootKind, "", nil)
	// every field is as likely
	var paths []string
	seen := map[string][]site{}
	for _, s := range all {
		if seen[s.path] == nil {
			paths = append(paths, s.path)
		}
		seen[s.path] = append(seen[s.path], s)
	}
	at := seen[paths[b.Path%len(paths)]]
	s := at[b.At%len(at)]
	wrong := func(types ...string) string {
		of := others[types[rng.Intn(len(types))]]
		return of[rng.Intn(len(of))]
	}
	switch {
	case s.kind == "id" && rng.Chance(2):
		bad = wrong("number", "bool", "object", "array")
	case s.kind == "id":
		text := string(b.Text)
		if rng.Chance(3) {
			// a bad character somewhere in an otherwise good id
			digits := []byte("0123456789abcdef"[:1+rng.Intn(16)])
			for i := range digits {
				digits[i] = "0123456789abcdefABCDEF"[rng.Intn(22)]
			}
			for {
				c := byte(0x20 + rng.Intn(0x5f))
				if c != '"' && c != '\\' && !strings.ContainsRune("0123456789abcdefABCDEF", rune(c)) {
					digits[rng.Intn(len(digits))] = c
					break
				}
			}
			text = string(digits)
		}
		bad = string(Render(StrNode(text), Style{}))
	case s.kind == "number" && rng.Chance(2):
		bad = badNumbers[rng.Intn(len(badNumbers))]
	case s.kind == "number":
		bad = wrong("string", "bool", "object", "array")
	case s.kind == "string" && rng.Chance(3):
		bad = badEscapes[rng.Intn(len(badEscapes))]
	case s.kind == "string":
		bad = wrong("number", "bool", "object", "array")
	case s.kind == "literal":
		bad = wrong("object", "array")
	case s.kind == "object":
		bad = wrong("string", "number", "bool", "array")
	default:
		bad = wrong("string", "number", "bool", "object")
	}
	*s.at = RawNode(bad)
	return Render(root, d.Style), s.kind, s.path, bad
}
