package gen

import (
	"strings"

	"pgregory.net/rapid"
)

// Formats has all formats.
var Formats = []string{V1, V2, Jaeger}

// Mutation changes bytes of a document.
type Mutation struct {
	Op   int
	Pos  uint32
	Len  int `json:",omitempty"`
	Text Bin `json:",omitempty"`
}

func (m Mutation) apply(data []byte) []byte {
	pos := 0
	if len(data) > 0 {
		pos = int(uint64(m.Pos) * uint64(len(data)) >> 32)
	}
	end := min(pos+m.Len, len(data))
	out := append([]byte(nil), data[:pos]...)
	switch m.Op {
	case 0: // delete
		return append(out, data[end:]...)
	case 1: // insert
		out = append(out, m.Text...)
		return append(out, data[pos:]...)
	case 2: // replace
		out = append(out, m.Text...)
		return append(out, data[min(pos+len(m.Text), len(data)):]...)
	case 3: // repeat
		out = append(out, data[pos:end]...)
		return append(out, data[pos:]...)
	default: // cut off
		return out
	}
}

var tokens = []string{
	"[", "]", "{", "}", ",", ":", " ", "\"", "\\", "null", "true", "false", "nul", "t", "f", "n", "-", "0", "1", "12", "1.5", "1e", "e", "+", ".",
	"\"id\"", "\"id\":\"1\"", "\"traceId\":", "\"parentId\":null", "\"name\":", "\"x\"", "\"tags\":{", "\"tags\":", "\"annotations\":[", "\"binaryAnnotations\":[",
	"\"localEndpoint\":{", "\"serviceName\":", "\"timestamp\":", "\"duration\":", "\"kind\":\"CLIENT\"", "\"value\":", "\"key\":", "\"endpoint\":{",
	"\"data\":[", "\"spans\":[", "\"processes\":{", "\"references\":[", "\"traceID\":\"1\"", "\"spanID\":\"2\"", "\"startTime\":",
	"\"\\u", "\\u00", "\"\\u12\"", "\"\\ud83d\"", "\"\\ud83d\\u0041\"", "\"\\ude00\"", "\"\\ud83d\\ude00\"", "\"\\", "\"\\\"", "\"\\\\\"", "\\u12g4", "\"\\u00zz\"", "\"\\ud800\\u\"", "\"\\ud800\\uzzzz\"",
	"\x00", "\xff", "\xc3", "\x85", "\xa0", "\v", "\f", "\n", "é", "18446744073709551616", "99999999999999999999999999", "-1", "0x10", "\"0123456789abcdef0\"", "\"g\"", "\"\"",
}

// DrawBroken draws a document that is damaged in most cases.
func DrawBroken(rt *rapid.T, format string) []byte {
	var data []byte
	switch rapid.IntRange(0, 4).Draw(rt, "source") {
	case 0: // tokens in any order
		data = []byte(strings.Join(rapid.SliceOfN(rapid.SampledFrom(tokens), 0, 25).Draw(rt, "tokens"), ""))
	case 1: // something that starts well
		prefix := "[{"
		if format == Jaeger {
			prefix = `{"data":[{"spans":[{`
		}
		data = []byte(prefix + strings.Join(rapid.SliceOfN(rapid.SampledFrom(tokens), 0, 25).Draw(rt, "tokens"), ""))
	default:
		level := rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(rt, "level")
		other := format
		if rapid.IntRange(0, 9).Draw(rt, "otherFormat") == 9 {
			other = rapid.SampledFrom(Formats).Draw(rt, "documentFormat")
		}
		data = DrawDoc(rt, other, level).Bytes()
		n := rapid.IntRange(0, 4).Draw(rt, "mutations")
		for range n {
			m := Mutation{Op: rapid.IntRange(0, 4).Draw(rt, "op"), Pos: rapid.Uint32().Draw(rt, "pos")}
			m.Len = rapid.SampledFrom([]int{1, 1, 2, 5, 20, 300, 9000}).Draw(rt, "len")
			if m.Op == 1 || m.Op == 2 {
				if rapid.Bool().Draw(rt, "anyByte") {
					m.Text = Bin(rapid.SliceOfN(rapid.Byte(), 1, 3).Draw(rt, "bytes"))
				} else {
					m.Text = Bin(rapid.SampledFrom(tokens).Draw(rt, "token"))
				}
			}
			data = m.apply(data)
		}
	}
	return data
}
