package p15

import (
	"fmt"
	"reflect"
	"testing"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/engine"
	"verifharness/gen"
	"verifharness/hist"
)

// rec is one record of a span. All times are offsets in ns, 0 is an unknown one.
type rec struct {
	After          int   `json:",omitempty"`
	Span           int   `json:",omitempty"` // which of the spans of the trace it belongs to
	Parent         int64 `json:",omitempty"`
	Name, Service  string
	Start, Dur     int64    `json:",omitempty"`
	CS, CR, SR, SS int64    `json:",omitempty"`
	Tags           []gen.KV `json:",omitempty"`
}

func (r rec) server() bool { return r.SR != 0 || r.SS != 0 }

type mergeCase struct {
	Root bool // whether there is a span above those with several records
	// records of the spans, in order
	Recs []rec
}

const (
	base   = 1600000000_000000000
	rootID = 500
	first  = 100 // id of the first span
)

func at(v int64) proxy.Timestamp {
	if v == 0 {
		return 0
	}
	return proxy.Timestamp(base + v)
}

func (r rec) proxy(trace proxy.Id) proxy.Span {
	s := proxy.Span{Id: proxy.Id(first + r.Span), Trace: trace, Parent: proxy.Id(r.Parent), Name: r.Name, Service: r.Service,
		Timestamp: at(r.Start), Duration: time.Duration(r.Dur),
		Timings: proxy.Timings{CS: at(r.CS), CR: at(r.CR), SR: at(r.SR), SS: at(r.SS)}}
	for _, kv := range r.Tags {
		s.AddTag(string(kv.K), string(kv.V))
	}
	return s
}

var words = []string{"", "", "a", "b", "c", "d"}

func drawTime(rt *rapid.T, label string) int64 {
	return rapid.Int64Range(1, 10).Draw(rt, label) * rapid.SampledFrom([]int64{1, 1000, 1000003}).Draw(rt, "unit")
}

// drawRec draws a record with client timings, server timings, both or none.
func drawRec(rt *rapid.T, client, server bool) rec {
	r := rec{Name: rapid.SampledFrom(words).Draw(rt, "name"), Service: rapid.SampledFrom(words).Draw(rt, "service")}
	if rapid.Bool().Draw(rt, "hasStart") {
		r.Start = drawTime(rt, "start")
	}
	if rapid.Bool().Draw(rt, "hasDuration") {
		r.Dur = drawTime(rt, "duration")
	}
	maybe := func(label string) int64 {
		if rapid.IntRange(0, 3).Draw(rt, "has"+label) == 3 {
			return 0
		}
		return drawTime(rt, label)
	}
	if client {
		r.CS, r.CR = maybe("cs"), maybe("cr")
	}
	if server {
		r.SR, r.SS = maybe("sr"), maybe("ss")
	}
	seen := map[string]bool{}
	for range rapid.IntRange(0, 3).Draw(rt, "tags") {
		k := rapid.SampledFrom([]string{"", "k", "l", "m"}).Draw(rt, "key")
		if !seen[k] {
			seen[k] = true
			r.Tags = append(r.Tags, gen.KV{K: gen.Bin(k), V: gen.Bin(rapid.SampledFrom(words).Draw(rt, "value"))})
		}
	}
	return r
}

func draw(rt *rapid.T) mergeCase {
	c := mergeCase{Root: rapid.Bool().Draw(rt, "root")}
	spans := 1
	if c.Root {
		spans = rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(rt, "spans")
	}
	left := 25000
	parents := map[int]bool{}
	for range rapid.IntRange(2, 4+2*spans).Draw(rt, "records") {
		kind := rapid.IntRange(0, 9).Draw(rt, "kind")
		r := drawRec(rt, kind <= 4, kind >= 4 && kind <= 8)
		r.Span = rapid.IntRange(0, spans-1).Draw(rt, "span")
		r.After = min(left, rapid.SampledFrom([]int{0, 0, 10, 1000, 7000}).Draw(rt, "after"))
		left -= r.After
		if c.Root {
			r.Parent = rapid.SampledFrom([]int64{0, rootID}).Draw(rt, "parent")
			parents[r.Span] = parents[r.Span] || r.Parent != 0
		} else {
			r.Parent = rapid.SampledFrom([]int64{0, 0, 7, 8, first}).Draw(rt, "parent")
		}
		c.Recs = append(c.Recs, r)
	}
	if c.Root {
		// otherwise there would be several roots
		for i := range c.Recs {
			if !parents[c.Recs[i].Span] {
				parents[c.Recs[i].Span] = true
				c.Recs[i].Parent = rootID
			}
		}
	}
	return c
}

// forwarded runs the records and returns the single group that is forwarded.
func forwarded(e *engine.Env, recs []hist.Rec) (map[proxy.Id]map[proxy.Id]proxy.Span, error) {
	hist.Sort(recs)
	events, err := hist.Run(e, recs, nil, recs[len(recs)-1].At+20000)
	if err != nil {
		return nil, err
	}
	out := map[proxy.Id]map[proxy.Id]proxy.Span{}
	for _, ev := range events {
		if ev.Rec >= 0 {
			continue
		}
		id, err := hist.TraceOf(ev.Trace)
		if err != nil {
			return nil, err
		}
		if out[id] != nil {
			return nil, fmt.Errorf("trace %s was forwarded twice", id)
		}
		out[id] = map[proxy.Id]proxy.Span{}
		for _, s := range ev.Trace {
			if _, ok := out[id][s.Id]; ok {
				return nil, fmt.Errorf("span %s was forwarded twice in one group", s.Id)
			}
			out[id][s.Id] = s
		}
	}
	return out, nil
}

func rootSpan(trace proxy.Id) proxy.Span {
	return proxy.Span{Id: rootID, Trace: trace, Parent: rootID, Timestamp: base, Duration: time.Second, Name: "root"}
}

func run(e *engine.Env, c mergeCase) error {
	const trace = 42
	var recs []hist.Rec
	ms := 51
	if c.Root {
		recs = append(recs, hist.Rec{At: ms, Span: rootSpan(trace)})
	}
	bySpan := map[proxy.Id][]rec{}
	for _, r := range c.Recs {
		ms += r.After
		s := r.proxy(trace)
		recs = append(recs, hist.Rec{At: ms, Span: s})
		bySpan[s.Id] = append(bySpan[s.Id], r)
	}
	traces, err := forwarded(e, recs)
	if err != nil {
		return err
	}
	spans := traces[trace]
	if spans == nil {
		return fmt.Errorf("the trace was not forwarded")
	}
	for id, records := range bySpan {
		s, ok := spans[id]
		if !ok {
			return fmt.Errorf("span %s was not forwarded", id)
		}
		if err := merged(s, records); err != nil {
			return fmt.Errorf("%v, of %d records it is %s", err, len(records), gen.Describe(s))
		}
		kinds := map[bool]bool{}
		for _, r := range records {
			kinds[r.server()] = true
		}
		e.LabelIf(len(records) > 1, "several records")
		e.LabelIf(len(records) > 2, "more than two records")
		e.LabelIf(len(kinds) == 2, "server and other records")
		e.LabelIf(records[0].server() && len(kinds) == 2, "server record first")
		e.NonTrivialIf(len(records) > 1)
	}
	return nil
}

// pick is the value that the latest server record with one has, or the first of the others.
func pick(records []rec, get func(r rec) (string, bool)) (string, bool) {
	value, found := "", false
	for _, r := range records {
		if v, ok := get(r); ok && r.server() {
			value, found = v, true
		}
	}
	if found {
		return value, true
	}
	for _, r := range records {
		if v, ok := get(r); ok {
			return v, true
		}
	}
	return "", false
}

// merged checks what was made of the records of a span.
func merged(s proxy.Span, records []rec) error {
	if want, _ := pick(records, func(r rec) (string, bool) { return r.Name, r.Name != "" }); s.Name != want {
		return fmt.Errorf("name is %q, want %q", s.Name, want)
	}
	if want, _ := pick(records, func(r rec) (string, bool) { return r.Service, r.Service != "" }); s.Service != want {
		return fmt.Errorf("service is %q, want %q", s.Service, want)
	}
	tags := map[string]string{}
	for _, r := range records {
		for _, kv := range r.Tags {
			tags[string(kv.K)], _ = pick(records, func(r rec) (string, bool) {
				for _, o := range r.Tags {
					if o.K == kv.K {
						return string(o.V), true
					}
				}
				return "", false
			})
		}
	}
	if len(tags) != len(s.Tags) || len(tags) > 0 && !reflect.DeepEqual(tags, s.Tags) {
		return fmt.Errorf("tags are %q, want %q", s.Tags, tags)
	}
	timings := []struct {
		name   string
		got    proxy.Timestamp
		get    func(r rec) int64
		server bool
	}{
		{"cs", s.Timings.CS, func(r rec) int64 { return r.CS }, false},
		{"cr", s.Timings.CR, func(r rec) int64 { return r.CR }, false},
		{"sr", s.Timings.SR, func(r rec) int64 { return r.SR }, true},
		{"ss", s.Timings.SS, func(r rec) int64 { return r.SS }, true},
	}
	full := true
	for _, t := range timings {
		var valid []proxy.Timestamp
		found := false
		for _, r := range records {
			if v := at(t.get(r)); v != 0 {
				valid = append(valid, v)
				found = found || v == t.got
			}
		}
		switch {
		case len(valid) == 0:
			full = false
			if t.got != 0 {
				return fmt.Errorf("%s is %d, but no record has one", t.name, t.got)
			}
		case !found:
			return fmt.Errorf("%s is %d, want one of %d", t.name, t.got, valid)
		case t.server && t.got != valid[len(valid)-1]:
			return fmt.Errorf("%s is %d, want the latest of %d", t.name, t.got, valid)
		}
	}
	var parents []proxy.Id
	known := false
	for _, r := range records {
		if r.Parent != 0 {
			parents = append(parents, proxy.Id(r.Parent))
			known = known || proxy.Id(r.Parent) == s.Parent
		}
	}
	if len(parents) > 0 && !known {
		return fmt.Errorf("parent is %s, want one of %s", s.Parent, parents)
	}
	if len(parents) == 0 && s.Parent != 0 {
		return fmt.Errorf("parent is %s, but no record has one", s.Parent)
	}
	if full {
		return nil // the start is taken from the timings
	}
	var starts []proxy.Timestamp
	duration := time.Duration(0)
	known = false
	for _, r := range records {
		if r.Start != 0 {
			starts = append(starts, at(r.Start))
			known = known || at(r.Start) == s.Timestamp
			duration = time.Duration(r.Dur)
		}
	}
	if len(starts) > 0 && !known {
		return fmt.Errorf("start is %d, want one of %d", s.Timestamp, starts)
	}
	if len(starts) == 1 && s.Duration != duration {
		return fmt.Errorf("duration is %d, want %d", s.Duration, duration)
	}
	return nil
}

// orderCase is a client and a server record of a span.
type orderCase struct {
	Client, Server rec
	Gap            int `json:",omitempty"`
	Root           bool
}

func drawOrder(rt *rapid.T) orderCase {
	c := orderCase{Client: drawRec(rt, true, false), Server: drawRec(rt, false, true), Root: rapid.Bool().Draw(rt, "root")}
	if !c.Server.server() {
		c.Server.SR = drawTime(rt, "sr")
	}
	full := c.Client.CS != 0 && c.Client.CR != 0 && c.Server.SR != 0 && c.Server.SS != 0
	if !full && c.Client.Start != 0 && c.Server.Start != 0 {
		c.Client.Start, c.Client.Dur = 0, 0
	}
	if !full && c.Root && c.Client.Start == 0 && c.Server.Start == 0 {
		c.Client.Start = drawTime(rt, "start")
	}
	parent := int64(0)
	if c.Root {
		parent = rootID
	} else {
		parent = rapid.SampledFrom([]int64{0, 7}).Draw(rt, "parent")
	}
	c.Client.Parent, c.Server.Parent = parent, parent
	switch rapid.IntRange(0, 2).Draw(rt, "unknown") {
	case 0:
		c.Client.Parent = 0
	case 1:
		c.Server.Parent = 0
	}
	c.Gap = rapid.SampledFrom([]int{0, 10, 5000}).Draw(rt, "gap")
	return c
}

func runOrder(e *engine.Env, c orderCase) error {
	var recs []hist.Rec
	for t, order := range [][]rec{{c.Client, c.Server}, {c.Server, c.Client}} {
		trace := proxy.Id(1 + t)
		if c.Root {
			recs = append(recs, hist.Rec{At: 51, Span: rootSpan(trace)})
		}
		for i, r := range order {
			recs = append(recs, hist.Rec{At: 51 + i*c.Gap, Span: r.proxy(trace)})
		}
	}
	traces, err := forwarded(e, recs)
	if err != nil {
		return err
	}
	if traces[1] == nil || traces[2] == nil {
		return fmt.Errorf("the trace was not forwarded in both orders: %d of 2", len(traces))
	}
	a, okA := traces[1][first]
	b, okB := traces[2][first]
	if !okA || !okB {
		return fmt.Errorf("the span was not forwarded in both orders")
	}
	b.Trace = a.Trace
	full := a.Timings.CS != 0 && a.Timings.CR != 0 && a.Timings.SR != 0 && a.Timings.SS != 0
	if !full && c.Client.Start == 0 && c.Server.Start == 0 {
		// the duration of an unknown start means nothing
		a.Duration, b.Duration = 0, 0
	}
	if !gen.Equal(a, b) {
		return fmt.Errorf("if the client record comes first the span is\n  %s, otherwise\n  %s", gen.Describe(a), gen.Describe(b))
	}
	e.LabelIf(full, "all timings")
	e.LabelIf(!full, "some timings")
	e.LabelIf(c.Client.Name != c.Server.Name && c.Client.Name != "" && c.Server.Name != "", "different names")
	e.NonTrivial()
	return nil
}

func TestCheck(t *testing.T) {
	engine.Main(t, "P15",
		engine.New("records", 60000, 3000000, draw, run),
		engine.New("orders", 30000, 1500000, drawOrder, runOrder),
	)
}
