package p21

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/cache"
	"pgregory.net/rapid"

	"verifharness/engine"
	"verifharness/gen"
)

// lookup asks for a string that consists of a unit that is repeated.
type lookup struct {
	Mode   int // 0: string, 1: copied bytes, 2: bytes that are given away
	Text   gen.Bin
	Repeat int  `json:",omitempty"`
	Suffix int  `json:",omitempty"`
	GC     bool `json:",omitempty"`
	Change int  `json:",omitempty"` // position of a byte that is different, from 1
}

func (l lookup) want() string {
	s := strings.Repeat(string(l.Text), l.Repeat+1)
	if l.Suffix > 0 {
		s += fmt.Sprint(l.Suffix)
	}
	if l.Change > 0 && len(s) > 0 {
		b := []byte(s)
		b[l.Change%len(b)] ^= 1
		s = string(b)
	}
	return s
}

func drawLookup(rt *rapid.T) lookup {
	l := lookup{Mode: rapid.SampledFrom([]int{1, 1, 0, 2}).Draw(rt, "mode")}
	l.Text = gen.Bytes(rt, "text", 2)
	switch rapid.IntRange(0, 9).Draw(rt, "size") {
	case 0, 1:
		l.Suffix = rapid.IntRange(1, 50).Draw(rt, "suffix")
	case 2: // large values, so that others are evicted
		l.Repeat = rapid.SampledFrom([]int{100, 1000, 5000, 20000}).Draw(rt, "repeat")
		l.Suffix = rapid.IntRange(1, 50).Draw(rt, "suffix")
		if len(l.Text)*l.Repeat > 1<<20 {
			l.Text = l.Text[:1<<20/l.Repeat]
		}
	}
	l.GC = rapid.IntRange(0, 400).Draw(rt, "gc") == 400
	return l
}

// do looks it up, buf is overwritten and reused.
func (l lookup) do(buf *[]byte, want string) string {
	if l.GC {
		runtime.GC()
	}
	switch l.Mode {
	case 0:
		return cache.String(string(append([]byte(nil), want...)))
	case 1:
		if cap(*buf) < len(want) {
			*buf = make([]byte, len(want))
		}
		b := append((*buf)[:0], want...)
		s := cache.StringForByteSliceCopy(b)
		for i := range b {
			b[i] ^= 0x55
		}
		return s
	default:
		return cache.StringForByteSliceNoCopy([]byte(want))
	}
}

func verify(lookups []lookup, wants, results []string, when string) error {
	for i, l := range lookups {
		want := wants[i]
		if results[i] != want {
			return fmt.Errorf("%s: lookup %d (mode %d) is %.100q (%d bytes), want %.100q (%d bytes)", when, i, l.Mode, results[i], len(results[i]), want, len(want))
		}
	}
	return nil
}

// label returns what is to be expected.
func label(e *engine.Env, lookups []lookup) (wants []string) {
	size := 0
	modes := map[int]bool{}
	seen := map[string]bool{}
	for _, l := range lookups {
		want := l.want()
		wants = append(wants, want)
		size += len(want)
		modes[l.Mode] = true
		e.LabelIf(seen[want], "repeated lookups")
		e.NonTrivialIf(seen[want] && want != "")
		seen[want] = true
	}
	e.LabelIf(len(modes) > 1, "several modes")
	e.LabelIf(size > 1<<20, "more than 1 MiB")
	return wants
}

func runSequence(e *engine.Env, lookups []lookup) error {
	wants := label(e, lookups)
	var buf []byte
	var results []string
	for i, l := range lookups {
		s := l.do(&buf, wants[i])
		if s != wants[i] {
			return fmt.Errorf("lookup of %.100q (%d bytes, mode %d) is %.100q (%d bytes)", wants[i], len(wants[i]), l.Mode, s, len(s))
		}
		results = append(results, s)
	}
	if err := verify(lookups, wants, results, "later"); err != nil {
		return err
	}
	// and all of them again
	var again []string
	for i, l := range lookups {
		again = append(again, l.do(&buf, wants[i]))
	}
	if err := verify(lookups, wants, again, "again"); err != nil {
		return err
	}
	return verify(lookups, wants, results, "at last")
}

func runConcurrent(e *engine.Env, clients [][]lookup) error {
	errs := make([]error, len(clients))
	results := make([][]string, len(clients))
	var wg sync.WaitGroup
	wants := make([][]string, len(clients))
	for n, lookups := range clients {
		wants[n] = label(e, lookups)
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[n] = engine.Protect(func() error {
				var buf []byte
				for range 3 {
					results[n] = results[n][:0]
					for i, l := range lookups {
						results[n] = append(results[n], l.do(&buf, wants[n][i]))
					}
					if err := verify(lookups, wants[n], results[n], "concurrent"); err != nil {
						return err
					}
				}
				return nil
			})
		}()
	}
	wg.Wait()
	for n, err := range errs {
		if err != nil {
			return fmt.Errorf("goroutine %d: %v", n, err)
		}
		if err := verify(clients[n], wants[n], results[n], "at last"); err != nil {
			return err
		}
	}
	return nil
}

// many looks up a lot of different strings, as many as the cache can hold again and again.
type many struct {
	Seed   uint64
	Count  int
	Length int // of the strings
	Window int // how far back strings are looked up again
}

func drawMany(rt *rapid.T) many {
	return many{rapid.Uint64().Draw(rt, "seed"), rapid.SampledFrom([]int{300000, 500000}).Draw(rt, "count"),
		rapid.SampledFrom([]int{5, 8, 16, 16, 33}).Draw(rt, "length"), rapid.SampledFrom([]int{10, 1000, 40000}).Draw(rt, "window")}
}

func runMany(e *engine.Env, c many) error {
	e.NonTrivial()
	rng := gen.NewRng(c.Seed)
	write := func(b []byte, n int) {
		r := gen.NewRng(c.Seed ^ uint64(n)*0x9E3779B97F4A7C15)
		for i := range b {
			b[i] = 'a' + byte(r.Intn(26))
		}
	}
	buf, want := make([]byte, c.Length), make([]byte, c.Length)
	for i := range c.Count {
		n := i
		if i > 0 && rng.Chance(3) {
			n = max(0, i-1-rng.Intn(c.Window))
		}
		write(buf, n)
		copy(want, buf)
		got := cache.StringForByteSliceCopy(buf)
		for k := range buf {
			buf[k] = '?'
		}
		if got != string(want) {
			return fmt.Errorf("lookup %d of %q is %q", i, want, got)
		}
	}
	return nil
}

func TestCheck(t *testing.T) {
	engine.Main(t, "P21",
		engine.New("sequence", 20000, 800000, func(rt *rapid.T) []lookup {
			var ls []lookup
			for range rapid.IntRange(2, 40).Draw(rt, "lookups") {
				l := drawLookup(rt)
				if len(ls) > 0 && rapid.Bool().Draw(rt, "again") {
					// the same as before, but maybe in another way
					l = rapid.SampledFrom(ls).Draw(rt, "lookup")
					l.Mode = rapid.IntRange(0, 2).Draw(rt, "mode")
					if rapid.IntRange(0, 3).Draw(rt, "similar") == 0 {
						l.Change = rapid.IntRange(1, 1<<20).Draw(rt, "change")
					}
				}
				ls = append(ls, l)
			}
			return ls
		}, runSequence),
		engine.New("many", 4, 200, drawMany, runMany).Timeout(100*time.Second),
		engine.New("concurrent", 3000, 100000, func(rt *rapid.T) [][]lookup {
			pool := rapid.SliceOfN(rapid.Custom(drawLookup), 1, 12).Draw(rt, "pool")
			var out [][]lookup
			for range rapid.IntRange(2, 8).Draw(rt, "goroutines") {
				var ls []lookup
				for range rapid.IntRange(1, 20).Draw(rt, "lookups") {
					// other goroutines ask for the same, each in its own way
					l := rapid.SampledFrom(pool).Draw(rt, "lookup")
					l.Mode = rapid.IntRange(0, 2).Draw(rt, "mode")
					ls = append(ls, l)
				}
				out = append(out, ls)
			}
			return out
		}, runConcurrent).Repeat(30),
	)
}
