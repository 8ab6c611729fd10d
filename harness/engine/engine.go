// Package engine drives the property based checks: it generates cases with rapid, runs them
// against the code in /repo, shrinks failures, and keeps the statistics that end up in the
// evidence file. The Python runner /verif/check.py builds and starts the test binaries that
// use this package and turns their results into exit codes.
package engine

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
)

// Env is handed to every execution of a case.
type Env struct {
	T *testing.T

	mu         sync.Mutex
	labels     map[string]int
	nontrivial bool
}

// Label counts a class the executed case belongs to.
func (e *Env) Label(format string, args ...any) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.labels == nil {
		e.labels = map[string]int{}
	}
	if len(args) > 0 {
		format = fmt.Sprintf(format, args...)
	}
	e.labels[format] = 1
}

// Count adds to a class that is counted within cases.
func (e *Env) Count(label string, n int) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.labels == nil {
		e.labels = map[string]int{}
	}
	if n != 0 {
		e.labels[label] += n
	}
}

// LabelIf is Label if cond holds.
func (e *Env) LabelIf(cond bool, format string, args ...any) {
	if cond {
		e.Label(format, args...)
	}
}

// NonTrivial marks the executed case as non-trivial by the rule of the check.
func (e *Env) NonTrivial() {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.nontrivial = true
}

// NonTrivialIf is NonTrivial if cond holds.
func (e *Env) NonTrivialIf(cond bool) {
	if cond {
		e.NonTrivial()
	}
}

// Sub is one generated check of a property.
type Sub struct {
	Name string
	// number of cases over all workers
	Quick, Thorough int
	// time after which a single case counts as hanging
	CaseTimeout time.Duration
	// how often a replay is repeated until it fails (schedule dependent checks)
	Replays int

	gen    func(rt *rapid.T) any
	run    func(e *Env, c any) error
	reduce func(c any, fails func(candidates []any) int) any
	decode func(data []byte) (any, error)
}

// New makes a Sub from a generator of cases of type C and a function that executes a case.
// The case must survive a JSON round-trip. An error returned by run is a violation.
func New[C any](name string, quick, thorough int, gen func(rt *rapid.T) C, run func(e *Env, c C) error) Sub {
	return Sub{
		Name:        name,
		Quick:       quick,
		Thorough:    thorough,
		CaseTimeout: 60 * time.Second,
		Replays:     1,
		gen:         func(rt *rapid.T) any { return gen(rt) },
		run:         func(e *Env, c any) error { return run(e, c.(C)) },
		decode: func(data []byte) (any, error) {
			var c C
			err := json.Unmarshal(data, &c)
			return c, err
		},
	}
}

// Timeout sets the time after which a single case counts as hanging.
func (s Sub) Timeout(d time.Duration) Sub { s.CaseTimeout = d; return s }

// Repeat sets how often a replay is repeated until it fails.
func (s Sub) Repeat(n int) Sub { s.Replays = n; return s }

// Reduce replaces shrinking by rapid, for cases that take long. f gets a failing case and a function that
// executes candidates at the same time and returns the index of the first one that fails, or -1.
func Reduce[C any](s Sub, f func(c C, fails func(candidates []C) int) C) Sub {
	s.reduce = func(c any, fails func([]any) int) any {
		return f(c.(C), func(cs []C) int {
			var list []any
			for _, c := range cs {
				list = append(list, c)
			}
			return fails(list)
		})
	}
	return s
}

// Failure is what is written as replay file.
type Failure struct {
	Property   string          `json:"property"`
	Sub        string          `json:"sub"`
	Error      string          `json:"error"`
	Reproduced bool            `json:"reproduced"`
	Case       json.RawMessage `json:"case"`
	First      json.RawMessage `json:"first_case,omitempty"`
	FirstError string          `json:"first_error,omitempty"`
}

// SubStats is what a Sub did.
type SubStats struct {
	Name        string            `json:"name"`
	Evaluations int               `json:"evaluations"`
	NonTrivial  int               `json:"nontrivial"`
	NotRun      int               `json:"not_run"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Hashes      []string          `json:"hashes"`
	WallS       float64           `json:"wall_s"`
	hashes      map[uint64]bool
}

// Result is what a run of the binary reports.
type Result struct {
	Status  string      `json:"status"` // ok, violation, error, hang, memory
	Error   string      `json:"error,omitempty"`
	Failure *Failure    `json:"failure,omitempty"`
	Subs    []*SubStats `json:"subs"`
}

// Tier is quick or thorough.
func Tier() string {
	if os.Getenv("VF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

type journalT struct {
	f     *os.File
	start atomic.Int64 // unix nanos at which the current case started, 0 if none
	limit atomic.Int64
}

func (j *journalT) begin(sub string, data []byte, limit time.Duration) {
	if j.f != nil {
		buf := make([]byte, 0, len(data)+len(sub)+64)
		buf = append(buf, 0, 0, 0, 0, 0, 0, 0, 0)
		buf = append(buf, `{"sub":`...)
		buf = append(buf, strconv.Quote(sub)...)
		buf = append(buf, `,"case":`...)
		buf = append(buf, data...)
		buf = append(buf, '}')
		binary.LittleEndian.PutUint64(buf, uint64(len(buf)-8))
		_, _ = j.f.WriteAt(buf, 0)
	}
	j.limit.Store(int64(limit))
	j.start.Store(time.Now().UnixNano())
}

func (j *journalT) end() { j.start.Store(0) }

const memoryLimit = 8 << 30

func (j *journalT) watch(res *Result) {
	for range time.Tick(250 * time.Millisecond) {
		start := j.start.Load()
		if start == 0 {
			continue
		}
		if time.Now().UnixNano()-start > j.limit.Load() {
			if j.start.Load() != start {
				continue
			}
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			os.Stderr.Write(buf)
			finish(&Result{Status: "hang", Error: fmt.Sprintf("case did not finish within %s", time.Duration(j.limit.Load()))})
			os.Exit(3)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > memoryLimit {
			finish(&Result{Status: "memory", Error: fmt.Sprintf("case allocated more than %d bytes", int64(memoryLimit))})
			os.Exit(3)
		}
	}
}

var finishOnce sync.Once

func finish(res *Result) {
	finishOnce.Do(func() {
		data, err := json.Marshal(res)
		if err != nil {
			data, _ = json.Marshal(&Result{Status: "error", Error: err.Error()})
		}
		if out := os.Getenv("VF_OUT"); out != "" {
			tmp := out + ".tmp"
			if err := os.WriteFile(tmp, data, 0644); err == nil {
				_ = os.Rename(tmp, out)
			}
		} else {
			if len(data) > 3000 {
				data = append(data[:3000], "..."...)
			}
			fmt.Println(string(data))
		}
	})
}

// PanicError is a panic of the code under test.
type PanicError struct {
	Value any
	Stack string
}

func (p *PanicError) Error() string { return fmt.Sprintf("panic: %v\n%s", p.Value, p.Stack) }

// Broken is a failure of the harness and not of the code under test.
type Broken struct{ Err error }

func (b *Broken) Error() string { return "harness: " + b.Err.Error() }

// HarnessError is an error, or a value to panic with, that makes the whole check fail instead of
// being taken for a violation.
func HarnessError(err error) error { return &Broken{err} }

var broken atomic.Pointer[Broken]

// Protect runs f and turns a panic into an error.
func Protect(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(*Broken); ok {
				err = b
				return
			}
			err = &PanicError{Value: r, Stack: string(debug.Stack())}
		}
	}()
	return f()
}

func runCase(t *testing.T, sub *Sub, c any, stats *SubStats, data []byte, j *journalT) error {
	e := &Env{T: t}
	j.begin(sub.Name, data, sub.CaseTimeout)
	err := Protect(func() error { return sub.run(e, c) })
	j.end()
	var b *Broken
	if errors.As(err, &b) {
		broken.CompareAndSwap(nil, b)
		return nil
	}
	if stats != nil {
		e.mu.Lock()
		defer e.mu.Unlock()
		stats.Evaluations++
		for l, n := range e.labels {
			stats.Labels[l] += n
		}
		if e.nontrivial {
			h := fnv.New64a()
			_, _ = h.Write(data)
			sum := h.Sum64()
			if !stats.hashes[sum] {
				stats.hashes[sum] = true
				stats.NonTrivial++
				n := stats.NonTrivial
				if n == 1 || n == 7 || n == 50 {
					stats.Samples = append(stats.Samples, sample(data))
				}
			}
		}
	}
	return err
}

func sample(data []byte) json.RawMessage {
	const max = 1500
	if len(data) <= max {
		return append(json.RawMessage(nil), data...)
	}
	s, _ := json.Marshal(string(data[:max]) + fmt.Sprintf("... (%d bytes)", len(data)))
	return s
}

func mix(seed int, parts ...string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d", seed)
	for _, p := range parts {
		fmt.Fprintf(h, "|%s", p)
	}
	v := h.Sum64()
	v ^= v >> 31
	v *= 0x9E3779B97F4A7C15
	v ^= v >> 29
	v &= 1<<62 - 1
	if v == 0 {
		v = 1
	}
	return v
}

// Main runs the given checks of a property. It is the only test in a check's binary.
func Main(t *testing.T, property string, subs ...Sub) {
	logrus.SetOutput(io.Discard)
	res := &Result{Status: "ok"}
	j := &journalT{}
	if path := os.Getenv("VF_JOURNAL"); path != "" {
		f, err := os.OpenFile(path, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
		if err != nil {
			t.Fatal(err)
		}
		j.f = f
	}
	go j.watch(res)
	defer finish(res)

	if path := os.Getenv("VF_REPLAY"); path != "" {
		replay(t, path, subs, res, j)
		return
	}

	seed := envInt("VF_SEED", 1)
	worker, workers := envInt("VF_WORKER", 0), envInt("VF_WORKERS", 1)
	only := map[string]bool{}
	for _, name := range strings.Split(os.Getenv("VF_SUBS"), ",") {
		if name != "" {
			only[name] = true
		}
	}
	scale := 1.0
	if v, err := strconv.ParseFloat(os.Getenv("VF_SCALE"), 64); err == nil {
		scale = v
	}
	deadline := time.Now().Add(time.Duration(envInt("VF_DEADLINE", 600)) * time.Second)

	for i := range subs {
		sub := &subs[i]
		if len(only) > 0 && !only[sub.Name] {
			continue
		}
		total := sub.Quick
		if Tier() == "thorough" {
			total = sub.Thorough
		}
		total = int(float64(total)*scale + 0.5)
		n := total / workers
		if worker < total%workers {
			n++
		}
		if n == 0 {
			continue
		}
		stats := &SubStats{Name: sub.Name, Labels: map[string]int{}, hashes: map[uint64]bool{}}
		res.Subs = append(res.Subs, stats)
		started := time.Now()
		fail, err := check(t, property, sub, n, mix(seed, property, sub.Name, strconv.Itoa(worker)), stats, deadline, j)
		stats.WallS = time.Since(started).Seconds()
		for h := range stats.hashes {
			stats.Hashes = append(stats.Hashes, fmt.Sprintf("%016x", h))
		}
		sort.Strings(stats.Hashes)
		if err != nil {
			res.Status, res.Error = "error", err.Error()
			return
		}
		if fail != nil {
			res.Status, res.Failure = "violation", fail
			return
		}
	}
}

func check(t *testing.T, property string, sub *Sub, n int, seed uint64, stats *SubStats, deadline time.Time, j *journalT) (*Failure, error) {
	set := func(name, value string) {
		if err := flag.Set(name, value); err != nil {
			panic(err)
		}
	}
	set("rapid.checks", strconv.Itoa(n))
	set("rapid.seed", strconv.FormatUint(seed, 10))
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", "20s")
	if sub.reduce != nil {
		set("rapid.shrinktime", "1ns")
	}

	var fail *Failure
	var genErr error
	failed := false
	tb := &quietTB{T: t}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				genErr = fmt.Errorf("panic in generator of %s: %v\n%s", sub.Name, r, debug.Stack())
			}
		}()
		rapid.Check(tb, func(rt *rapid.T) {
			if !failed && time.Now().After(deadline) {
				stats.NotRun++
				return
			}
			c := sub.gen(rt)
			data, err := json.Marshal(c)
			if err != nil {
				genErr = err
				rt.Fatal(err)
			}
			// run what a replay would run
			if c, err = sub.decode(data); err != nil {
				genErr = fmt.Errorf("%s: case does not round-trip: %v: %s", sub.Name, err, data)
				rt.Fatal(genErr)
			}
			var st *SubStats
			if !failed {
				st = stats
			}
			if failed && sub.reduce != nil {
				if bytes.Equal(data, fail.First) {
					rt.Fatalf("property violated")
				}
				return
			}
			if err := runCase(t, sub, c, st, data, j); err != nil {
				if fail == nil {
					failed = true
					fail = &Failure{Property: property, Sub: sub.Name, First: data, FirstError: err.Error()}
				}
				fail.Case, fail.Error = data, err.Error()
				// the same message for all failures lets shrinking reach the smallest case
				rt.Fatalf("property violated")
			}
		})
	}()
	<-done
	if b := broken.Load(); b != nil {
		return nil, b
	}
	if genErr != nil {
		return nil, genErr
	}
	if fail == nil {
		if tb.failed.Load() {
			return nil, errors.New("rapid failed without a failing case: " + tb.log.String())
		}
		return nil, nil
	}
	if sub.reduce != nil {
		if err := reduceCase(t, sub, fail, j); err != nil {
			return nil, err
		}
	}
	// confirm without rapid, prefer the minimal case
	tries := sub.Replays
	if tries < 2 {
		tries = 2
	}
	for _, data := range []json.RawMessage{fail.Case, fail.First} {
		c, err := sub.decode(data)
		if err != nil {
			return nil, err
		}
		for range tries {
			if err := runCase(t, sub, c, nil, data, j); err != nil {
				fail.Case, fail.Error, fail.Reproduced = data, err.Error(), true
				if bytes.Equal(fail.Case, fail.First) {
					fail.First, fail.FirstError = nil, ""
				}
				return fail, nil
			}
		}
	}
	return fail, nil
}

// reduceCase makes the failing case smaller.
func reduceCase(t *testing.T, sub *Sub, fail *Failure, j *journalT) error {
	c, err := sub.decode(fail.First)
	if err != nil {
		return err
	}
	c = sub.reduce(c, func(candidates []any) int {
		errs := make([]error, len(candidates))
		var wg sync.WaitGroup
		for i, c := range candidates {
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[i] = Protect(func() error { return sub.run(&Env{T: t}, c) })
				var b *Broken
				if errors.As(errs[i], &b) {
					errs[i] = nil
				}
			}()
		}
		wg.Wait()
		for i, err := range errs {
			if err != nil {
				return i
			}
		}
		return -1
	})
	data, err := json.Marshal(c)
	if err == nil {
		fail.Case = data
	}
	return err
}

func replay(t *testing.T, path string, subs []Sub, res *Result, j *journalT) {
	data, err := os.ReadFile(path)
	if err != nil {
		res.Status, res.Error = "error", err.Error()
		return
	}
	var f Failure
	if err := json.Unmarshal(data, &f); err != nil {
		res.Status, res.Error = "error", err.Error()
		return
	}
	for i := range subs {
		sub := &subs[i]
		if sub.Name != f.Sub {
			continue
		}
		c, err := sub.decode(f.Case)
		if err != nil {
			res.Status, res.Error = "error", err.Error()
			return
		}
		for range sub.Replays {
			sub.CaseTimeout *= 2
			if err := runCase(t, sub, c, nil, f.Case, j); err != nil {
				f.Error, f.Reproduced = err.Error(), true
				res.Status, res.Failure = "violation", &f
				return
			}
		}
		return
	}
	res.Status, res.Error = "error", "unknown sub check "+f.Sub
}

// quietTB is the TB that is given to rapid, it does not fail the test.
type quietTB struct {
	*testing.T
	failed atomic.Bool
	mu     sync.Mutex
	log    bytes.Buffer
}

func (q *quietTB) Helper() {}
func (q *quietTB) put(s string) {
	q.mu.Lock()
	defer q.mu.Unlock()
	if q.log.Len() < 10000 {
		q.log.WriteString(s)
		q.log.WriteByte('\n')
	}
}
func (q *quietTB) Log(args ...any)            { q.put(fmt.Sprint(args...)) }
func (q *quietTB) Logf(f string, args ...any) { q.put(fmt.Sprintf(f, args...)) }
func (q *quietTB) Error(args ...any)          { q.put(fmt.Sprint(args...)); q.failed.Store(true) }
func (q *quietTB) Errorf(f string, args ...any) {
	q.put(fmt.Sprintf(f, args...))
	q.failed.Store(true)
}
func (q *quietTB) Fail()             { q.failed.Store(true) }
func (q *quietTB) FailNow()          { q.failed.Store(true); runtime.Goexit() }
func (q *quietTB) Fatal(args ...any) { q.Error(args...); runtime.Goexit() }
func (q *quietTB) Fatalf(f string, args ...any) {
	q.Errorf(f, args...)
	runtime.Goexit()
}
func (q *quietTB) Failed() bool { return q.failed.Load() }
