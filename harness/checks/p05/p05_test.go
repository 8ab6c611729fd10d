package p05

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sync"
	"testing"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/engine"
	"verifharness/gen"
)

type request struct {
	Format string
	Data   gen.Bin
	Chunks gen.Chunks
	Doc    *gen.Doc `json:",omitempty"` // nil if the request is not well-formed
	GC     bool     `json:",omitempty"`
}

func drawRequest(rt *rapid.T) request {
	r := request{Format: rapid.SampledFrom([]string{gen.V1, gen.V1, gen.V2, gen.V2, gen.Jaeger}).Draw(rt, "format")}
	r.Chunks = gen.DrawChunks(rt)
	r.GC = rapid.IntRange(0, 15).Draw(rt, "gc") == 15
	level := rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(rt, "level")
	switch rapid.IntRange(0, 5).Draw(rt, "request") {
	case 0:
		r.Data = gen.Bin(gen.DrawBroken(rt, r.Format))
	case 1:
		r.Data = gen.Bin(gen.DrawDoc(rt, r.Format, level).DuplicateFields(rapid.Uint64().Draw(rt, "duplicates")))
	case 2: // broken off
		data := gen.DrawDoc(rt, r.Format, level).Bytes()
		r.Data = gen.Bin(data[:rapid.IntRange(0, len(data)).Draw(rt, "cut")])
	default:
		doc := gen.DrawDoc(rt, r.Format, level)
		r.Doc = &doc
	}
	return r
}

func (r request) bytes() []byte {
	if r.Doc != nil {
		return r.Doc.Bytes()
	}
	return []byte(r.Data)
}

type result struct {
	spans []proxy.Span // as returned
	copy  []proxy.Span // a copy made immediately
	err   error
}

func (r request) parse() (res result) {
	data := append([]byte(nil), r.bytes()...)
	res.spans, res.err = gen.Parse(r.Format, gen.NewReader(data, r.Chunks))
	res.copy = gen.CloneAll(res.spans)
	for i := range data {
		data[i] = 'X'
	}
	return res
}

// alone parses the request in a fresh process.
func (r request) alone() ([]gen.Span, bool, error) {
	dir, err := os.MkdirTemp("", "alone")
	if err != nil {
		return nil, false, err
	}
	defer os.RemoveAll(dir)
	in, out := filepath.Join(dir, "in"), filepath.Join(dir, "out")
	data, _ := json.Marshal(r)
	if err := os.WriteFile(in, data, 0644); err != nil {
		return nil, false, err
	}
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "P05_IN="+in, "P05_OUT="+out)
	if output, err := cmd.CombinedOutput(); err != nil {
		return nil, false, fmt.Errorf("%v: %s", err, output)
	}
	data, err = os.ReadFile(out)
	if err != nil {
		return nil, false, err
	}
	var a aloneResult
	err = json.Unmarshal(data, &a)
	return a.Spans, a.Failed, err
}

type aloneResult struct {
	Spans  []gen.Span
	Failed bool
}

func TestMain(m *testing.M) {
	if in := os.Getenv("P05_IN"); in != "" {
		data, err := os.ReadFile(in)
		if err != nil {
			panic(err)
		}
		var r request
		if err := json.Unmarshal(data, &r); err != nil {
			panic(err)
		}
		res := r.parse()
		a := aloneResult{Failed: res.err != nil}
		for _, s := range res.spans {
			a.Spans = append(a.Spans, gen.FromProxy(s))
		}
		data, _ = json.Marshal(a)
		if err := os.WriteFile(os.Getenv("P05_OUT"), data, 0644); err != nil {
			panic(err)
		}
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// suspicious is called with a result that is not what it should be. It is a violation of this
// property unless the request has the same result in a process of its own.
func (r request) suspicious(res result, diff error) error {
	spans, failed, err := r.alone()
	if err != nil {
		return fmt.Errorf("%v (and on its own: %v)", diff, err)
	}
	if failed != (res.err != nil) {
		return fmt.Errorf("%v\nbut on its own the request fails: %v", diff, failed)
	}
	var want []proxy.Span
	for _, s := range spans {
		want = append(want, s.Proxy())
	}
	if err := gen.CompareAll(res.copy, want); err != nil {
		return fmt.Errorf("compared to the request on its own: %v", err)
	}
	return nil
}

func (r request) check(res result) error {
	if r.Doc == nil {
		return nil
	}
	if res.err != nil {
		return r.suspicious(res, fmt.Errorf("well-formed request fails: %v", res.err))
	}
	if err := gen.CompareAll(res.copy, r.Doc.Want()); err != nil {
		return r.suspicious(res, err)
	}
	return nil
}

func sameOutcome(a, b result) error {
	if (a.err == nil) != (b.err == nil) {
		return fmt.Errorf("error is %v at first and %v later", a.err, b.err)
	}
	if err := gen.CompareAll(b.copy, a.copy); err != nil {
		return fmt.Errorf("parsed again: %v", err)
	}
	return nil
}

func label(e *engine.Env, reqs []request) {
	broken, formats := 0, map[string]bool{}
	for _, r := range reqs {
		formats[r.Format] = true
		if r.Doc == nil {
			broken++
		} else {
			e.LabelIf(len(r.Doc.Want()) > 64, "more than 64 spans")
		}
		e.LabelIf(r.GC, "garbage collections")
	}
	e.LabelIf(broken > 0, "broken requests")
	e.LabelIf(len(formats) > 1, "several formats")
	e.NonTrivialIf(len(reqs)-broken > 1)
}

func runSequence(e *engine.Env, reqs []request) error {
	label(e, reqs)
	var results []result
	for i, r := range reqs {
		if r.GC {
			runtime.GC()
			runtime.GC()
		}
		res := r.parse()
		if err := r.check(res); err != nil {
			return fmt.Errorf("request %d: %v", i, err)
		}
		results = append(results, res)
	}
	for i := len(reqs) - 1; i >= 0; i-- {
		if err := sameOutcome(results[i], reqs[i].parse()); err != nil {
			return fmt.Errorf("request %d: %v", i, err)
		}
	}
	for i, res := range results {
		if err := gen.CompareAll(res.spans, res.copy); err != nil {
			return fmt.Errorf("spans of request %d were changed later: %v", i, err)
		}
	}
	return nil
}

func runConcurrent(e *engine.Env, clients [][]request) error {
	var wg sync.WaitGroup
	results := make([][]result, len(clients))
	errs := make([]error, len(clients))
	for n, reqs := range clients {
		label(e, reqs)
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[n] = engine.Protect(func() error {
				for i, r := range reqs {
					res := r.parse()
					if err := r.check(res); err != nil {
						return fmt.Errorf("client %d, request %d: %v", n, i, err)
					}
					results[n] = append(results[n], res)
				}
				return nil
			})
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	for n, reqs := range clients {
		for i, r := range reqs {
			if err := gen.CompareAll(results[n][i].spans, results[n][i].copy); err != nil {
				return fmt.Errorf("spans of client %d, request %d were changed later: %v", n, i, err)
			}
			if err := sameOutcome(results[n][i], r.parse()); err != nil {
				return fmt.Errorf("client %d, request %d: %v", n, i, err)
			}
		}
	}
	e.NonTrivialIf(len(clients) > 1)
	return nil
}

func TestCheck(t *testing.T) {
	reqs := func(rt *rapid.T, min, max int) []request {
		var out []request
		for range rapid.IntRange(min, max).Draw(rt, "requests") {
			out = append(out, drawRequest(rt))
		}
		return out
	}
	engine.Main(t, "P05",
		engine.New("sequence", 12000, 500000, func(rt *rapid.T) []request { return reqs(rt, 2, 10) }, runSequence),
		engine.New("concurrent", 2400, 60000, func(rt *rapid.T) [][]request {
			var out [][]request
			for range rapid.IntRange(2, 6).Draw(rt, "clients") {
				out = append(out, reqs(rt, 1, 5))
			}
			return out
		}, runConcurrent).Repeat(30),
	)
}
