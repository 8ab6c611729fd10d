package gen

import (
	"fmt"
	"reflect"
	"sort"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"
)

// Span is a span of arbitrary content that survives JSON unchanged.
type Span struct {
	Id, Trace, Parent   int64
	Name, Service       Bin   `json:",omitempty"`
	Timestamp, Duration int64 `json:",omitempty"`
	CS, CR, SS, SR      int64 `json:",omitempty"`
	Tags                []KV  `json:",omitempty"`
	EmptyTags           bool  `json:",omitempty"`
}

// Proxy is the span to give to the code.
func (s Span) Proxy() proxy.Span {
	p := proxy.Span{
		Id: proxy.Id(s.Id), Trace: proxy.Id(s.Trace), Parent: proxy.Id(s.Parent),
		Name: string(s.Name), Service: string(s.Service),
		Timestamp: proxy.Timestamp(s.Timestamp), Duration: time.Duration(s.Duration),
		Timings: proxy.Timings{CS: proxy.Timestamp(s.CS), CR: proxy.Timestamp(s.CR), SS: proxy.Timestamp(s.SS), SR: proxy.Timestamp(s.SR)},
	}
	if len(s.Tags) > 0 || s.EmptyTags {
		p.Tags = map[string]string{}
	}
	for _, kv := range s.Tags {
		p.Tags[string(kv.K)] = string(kv.V)
	}
	return p
}

// DrawSpan draws any span. text draws its strings.
func DrawSpan(rt *rapid.T, text func(label string) Bin, maxTags int) Span {
	s := Span{
		Id: int64(ID(rt, "id")), Trace: int64(ID(rt, "trace")), Parent: int64(ID(rt, "parent")),
		Name: text("name"), Service: text("service"),
		Timestamp: Int(rt, "timestamp"), Duration: Int(rt, "duration"),
	}
	timings := rapid.IntRange(0, 15).Draw(rt, "timings")
	for i, p := range []*int64{&s.CS, &s.CR, &s.SS, &s.SR} {
		if timings&(1<<i) != 0 {
			*p = Int(rt, "timing")
		}
	}
	seen := map[Bin]bool{}
	for range Size(rt, "tags", 4, maxTags) {
		k := text("key")
		if seen[k] {
			k = Bin(fmt.Sprintf("%s%d", k, len(seen)))
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		s.Tags = append(s.Tags, KV{K: k, V: text("value")})
	}
	s.EmptyTags = len(s.Tags) == 0 && rapid.Bool().Draw(rt, "emptyTags")
	return s
}

// Clone makes a copy that shares nothing with the span but memory of strings. Deep copies these too.
func Clone(s proxy.Span, deep bool) proxy.Span {
	str := func(s string) string {
		if deep {
			return string(append([]byte(nil), s...))
		}
		return s
	}
	c := s
	c.Name, c.Service = str(s.Name), str(s.Service)
	if s.Tags != nil {
		c.Tags = make(map[string]string, len(s.Tags))
		for k, v := range s.Tags {
			c.Tags[str(k)] = str(v)
		}
	}
	return c
}

// CloneAll clones all spans deeply.
func CloneAll(spans []proxy.Span) []proxy.Span {
	out := make([]proxy.Span, len(spans))
	for i, s := range spans {
		out[i] = Clone(s, true)
	}
	return out
}

// Equal compares spans, no tags and empty tags being the same.
func Equal(a, b proxy.Span) bool {
	if len(a.Tags) == 0 && len(b.Tags) == 0 {
		a.Tags, b.Tags = nil, nil
	}
	return reflect.DeepEqual(a, b)
}

func cut(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%q...(%d bytes)", s[:200], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// Describe prints a span.
func Describe(s proxy.Span) string {
	out := fmt.Sprintf("{id=%s trace=%s parent=%s name=%s service=%s start=%d duration=%d cs=%d cr=%d sr=%d ss=%d tags=[",
		s.Id, s.Trace, s.Parent, cut(s.Name), cut(s.Service), int64(s.Timestamp), int64(s.Duration),
		int64(s.Timings.CS), int64(s.Timings.CR), int64(s.Timings.SR), int64(s.Timings.SS))
	var keys []string
	for k := range s.Tags {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for i, k := range keys {
		if i == 10 {
			out += fmt.Sprintf("...(%d)", len(keys))
			break
		}
		out += cut(k) + "=" + cut(s.Tags[k]) + " "
	}
	return out + "]}"
}

// CompareAll compares sequences of spans.
func CompareAll(got, want []proxy.Span) error {
	for i := range want {
		if i >= len(got) {
			return fmt.Errorf("got %d spans, want %d, missing %s", len(got), len(want), Describe(want[i]))
		}
		if !Equal(got[i], want[i]) {
			return fmt.Errorf("span %d of %d is\n  %s, want\n  %s", i, len(want), Describe(got[i]), Describe(want[i]))
		}
	}
	if len(got) > len(want) {
		return fmt.Errorf("got %d spans, want %d, additional %s", len(got), len(want), Describe(got[len(want)]))
	}
	return nil
}

// FromProxy is the opposite of Span.Proxy.
func FromProxy(p proxy.Span) Span {
	s := Span{
		Id: int64(p.Id), Trace: int64(p.Trace), Parent: int64(p.Parent), Name: Bin(p.Name), Service: Bin(p.Service),
		Timestamp: int64(p.Timestamp), Duration: int64(p.Duration),
		CS: int64(p.Timings.CS), CR: int64(p.Timings.CR), SS: int64(p.Timings.SS), SR: int64(p.Timings.SR),
		EmptyTags: p.Tags != nil && len(p.Tags) == 0,
	}
	for k, v := range p.Tags {
		s.Tags = append(s.Tags, KV{K: Bin(k), V: Bin(v)})
	}
	sort.Slice(s.Tags, func(i, j int) bool { return s.Tags[i].K < s.Tags[j].K })
	return s
}
