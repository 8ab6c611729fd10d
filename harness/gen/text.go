// Package gen has the generators, renderers and reference conversions that the checks share.
package gen

import (
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verifharness/engine"
)

// Bin is a string of arbitrary bytes.
type Bin = engine.Bin

// Rng is a small deterministic random number generator. It is seeded with drawn values only, so
// that everything derived from it is a function of the drawn case.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) Uint64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rng) Intn(n int) int { return int(r.Uint64() % uint64(n)) }

// Chance is true in one of n cases.
func (r *Rng) Chance(n int) bool { return r.Intn(n) == 0 }

var idents = []string{"", "a", "b", "service", "http.path", "error", "GET /users", "true", "0", "null", "lc", "x-y_z", "protocolVersion"}

// pieces that are of interest to a tokenizer
var pieces = []string{
	"\"", "\\", "/", "\n", "\t", "\b", "\f", "\r", "\x00", "\x01", "\x1f", "\x7f", "\v",
	"é", "ß", "€", "\u0085", "\u00a0", "\u2028", "\u2029", "\ufffd", "\uffff", "😀", "𝄞", "\U0010ffff", "\ud7ff", "\ue000",
	"u0041", "ud83d", "n", "]", "}", "[", "{", ",", ":", " ", "a", "Z", "0", "-", "'",
}

var boundaryLengths = []int{31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 400, 500, 511, 512, 513, 520, 700, 1023, 1024, 1500}

var hugeLengths = []int{2000, 4095, 4096, 4097, 5000, 8000, 8185, 8190, 8191, 8192, 8193, 8200, 9000, 12000, 16383, 16384, 16385, 20000, 33000}

// Text generates valid UTF-8 strings. Level 0 has short identifiers only, level 1 all kinds of
// characters, level 2 also strings around the sizes of buffers and level 3 huge ones.
func Text(rt *rapid.T, label string, level int) Bin {
	// most strings are short
	kinds := []int{0, 0, 0}
	if level >= 1 {
		kinds = append(kinds, 1, 1, 2, 2)
	}
	if level >= 2 {
		kinds = append(kinds, 3)
	}
	if level >= 3 {
		kinds = append(kinds, 4)
	}
	switch rapid.SampledFrom(kinds).Draw(rt, label+".kind") {
	case 1:
		s := rapid.StringN(0, 12, 40).Draw(rt, label)
		return Bin(strings.ToValidUTF8(s, "?"))
	case 2:
		return Bin(strings.Join(rapid.SliceOfN(rapid.SampledFrom(pieces), 0, 8).Draw(rt, label), ""))
	case 3:
		return longText(rt, label, rapid.SampledFrom(boundaryLengths).Draw(rt, label+".len"))
	case 4:
		return longText(rt, label, rapid.SampledFrom(hugeLengths).Draw(rt, label+".len"))
	}
	return Bin(rapid.SampledFrom(idents).Draw(rt, label))
}

func longText(rt *rapid.T, label string, n int) Bin {
	unit := rapid.SampledFrom([]string{"x", "abcdefghij", "€", "a\n", "\\\"", "😀"}).Draw(rt, label+".unit")
	// a few distinct ones, so that the string cache gets work
	prefix := string(rune('A' + rapid.IntRange(0, 25).Draw(rt, label+".prefix")))
	s := prefix + strings.Repeat(unit, n/len(unit)+1)
	s = s[:n]
	for !utf8.ValidString(s) {
		s = s[:len(s)-1]
	}
	return Bin(s)
}

// Bytes generates arbitrary byte strings of all sizes up to the given level (as for Text).
func Bytes(rt *rapid.T, label string, level int) Bin {
	if rapid.IntRange(0, 3).Draw(rt, label+".raw") == 0 {
		return Bin(rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(rt, label))
	}
	return Text(rt, label, level)
}

// Size draws a number that is small most of the time.
func Size(rt *rapid.T, label string, usual, max int) int {
	if rapid.IntRange(0, 19).Draw(rt, label+".large") == 19 {
		return rapid.IntRange(0, max).Draw(rt, label)
	}
	return rapid.IntRange(0, usual).Draw(rt, label)
}

var edgeIds = []uint64{0, 1, 2, 15, 16, 0xff, 0x7fffffff, 0xffffffff, 1 << 32, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1, 0xdeadbeef, 0x0123456789abcdef, 0xfedcba9876543210}

// ID draws any 64 bit id.
func ID(rt *rapid.T, label string) uint64 {
	if rapid.Bool().Draw(rt, label+".edge") {
		return rapid.SampledFrom(edgeIds).Draw(rt, label)
	}
	return rapid.Uint64().Draw(rt, label)
}

// NonZeroID draws an id other than zero.
func NonZeroID(rt *rapid.T, label string) uint64 {
	if id := ID(rt, label); id != 0 {
		return id
	}
	return 1
}

var edgeInts = []int64{0, 1, -1, 2, 63, 64, -64, -65, 127, 128, 8191, 8192, -8193, 1 << 31, 1<<31 - 1, -1 << 31, 1 << 32, 1<<62 - 1, 1 << 62, -1 << 62, 1<<63 - 1, -1 << 63}

// Int draws any 64 bit integer.
func Int(rt *rapid.T, label string) int64 {
	if rapid.Bool().Draw(rt, label+".edge") {
		return rapid.SampledFrom(edgeInts).Draw(rt, label)
	}
	return rapid.Int64().Draw(rt, label)
}
