package p22

import (
	"fmt"
	"strings"
	"testing"

	"github.com/flachnetz/dd-zipkin-proxy/cache"
	"pgregory.net/rapid"

	"verifharness/engine"
)

type op struct {
	Get bool `json:",omitempty"`
	Key int
}

type lruCase struct {
	// the maximum size is that of so many values of Len bytes, plus Extra
	Values, Len, Extra int
	// lengths of the keys, all keys are different
	Keys []int
	Ops  []op
}

func draw(rt *rapid.T) lruCase {
	c := lruCase{Values: rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6, 8, 10, 12}).Draw(rt, "values"), Len: rapid.IntRange(0, 30).Draw(rt, "len"), Extra: rapid.IntRange(-2, 2).Draw(rt, "extra")}
	n := rapid.SampledFrom([]int{1, 2, 3, 5, 8, 12, 16, 20, 24}).Draw(rt, "keys")
	same := rapid.Bool().Draw(rt, "sameLength")
	for range n {
		l := c.Len
		if !same {
			l = rapid.SampledFrom([]int{2, 3, 5, 10, 50, 100, 300, 1000, 5000}).Draw(rt, "keyLen")
		}
		c.Keys = append(c.Keys, l)
	}
	gets := rapid.SampledFrom([]int{0, 1, 2, 2, 3, 4}).Draw(rt, "gets")
	count := rapid.SampledFrom([]int{10, 40, 40, 150}).Draw(rt, "ops")
	for _, v := range rapid.SliceOfN(rapid.IntRange(0, 5*n-1), count/2, count).Draw(rt, "ops") {
		c.Ops = append(c.Ops, op{v/n < gets, v % n})
	}
	return c
}

func key(i, n int) string {
	s := fmt.Sprintf("%c%c", 'a'+i%26, 'a'+i/26)
	if n > len(s) {
		s += strings.Repeat("k", n-len(s))
	}
	return s
}

func run(e *engine.Env, c lruCase) error {
	// the cost of an entry is a constant of the implementation
	probe := cache.NewLRUCache(1 << 20)
	if probe.Size() != 0 || probe.Count() != 0 {
		return fmt.Errorf("an empty cache has size %d and %d values", probe.Size(), probe.Count())
	}
	probe.Set("x")
	overhead := probe.Size() - 1
	if overhead < 0 {
		return fmt.Errorf("size is %d with a value of one byte", probe.Size())
	}

	max := c.Values*(c.Len+overhead) + c.Extra
	if max < 1 {
		max = 1
	}
	lru := cache.NewLRUCache(max)
	var model []string // most recently used first
	size := 0
	find := func(k string) int {
		for i, v := range model {
			if v == k {
				return i
			}
		}
		return -1
	}
	touch := func(i int) {
		k := model[i]
		copy(model[1:i+1], model[:i])
		model[0] = k
	}
	get := func(k string) error {
		want := ""
		if i := find(k); i >= 0 {
			want = k
			touch(i)
		}
		if got := lru.Get(k); got != want {
			return fmt.Errorf("Get(%.20q) is %.20q, want %.20q", k, got, want)
		}
		return nil
	}
	evicted, hits := 0, 0
	last := -1 // size of the most recently inserted value
	for n, o := range c.Ops {
		k := key(o.Key, c.Keys[o.Key])
		if o.Get {
			if find(k) >= 0 {
				hits++
			}
			if err := get(k); err != nil {
				return fmt.Errorf("operation %d: %v", n, err)
			}
		} else {
			if i := find(k); i >= 0 {
				touch(i)
				hits++
			} else {
				for size >= max {
					last := model[len(model)-1]
					model = model[:len(model)-1]
					size -= len(last) + overhead
					evicted++
				}
				model = append([]string{k}, model...)
				last = len(k) + overhead
				size += last
			}
			lru.Set(k)
		}
		if lru.Count() != len(model) {
			return fmt.Errorf("operation %d: the cache has %d values, want %d", n, lru.Count(), len(model))
		}
		if lru.Size() != size {
			return fmt.Errorf("operation %d: the size is %d, want %d", n, lru.Size(), size)
		}
		if last >= 0 && lru.Size()-last >= max {
			return fmt.Errorf("operation %d: the size is %d, although it must not exceed %d", n, lru.Size(), max)
		}
	}
	for i := range c.Keys {
		if err := get(key(i, c.Keys[i])); err != nil {
			return fmt.Errorf("at the end: %v", err)
		}
	}
	e.LabelIf(evicted > 0, "evictions")
	e.LabelIf(evicted > 20, "more than 20 evictions")
	e.LabelIf(hits > 0, "hits")
	e.LabelIf(c.Values <= 1, "room for at most one value")
	e.NonTrivialIf(evicted > 0 && hits > 0)
	return nil
}

func TestCheck(t *testing.T) {
	engine.Main(t, "P22", engine.New("lru", 300000, 10000000, draw, run))
}
