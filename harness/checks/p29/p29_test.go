package p29

import (
	"errors"
	"fmt"
	"runtime"

	"verifharness/engine"
	"verifharness/prog"
)

func measure() (prog.Held, error) {
	for range 3 {
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return prog.Held{Heap: int(m.HeapAlloc), Goroutines: runtime.NumGoroutine()}, nil
}

// steady repeats the same amount of work, and checks that no more is held after it again and again.
// Something that grows for a while only may do so in less than three rounds of the given number of phases.
// Something that grows forever may do so in leaps (as maps do).
func steady(e *engine.Env, warm, phases int, heap, goroutines int, measure func() (prog.Held, error), work func(phase int) error) error {
	n := 0
	round := func(count int) (prog.Held, error) {
		for range count {
			if err := work(n); err != nil {
				return prog.Held{}, err
			}
			n++
		}
		return measure()
	}
	last, err := round(warm)
	if err != nil {
		return err
	}
	history := []prog.Held{last}
	var grown [3]int
	for i, quiet := 0, 0; i < 6 && quiet < 3; i++ {
		now, err := round(phases)
		if err != nil {
			return err
		}
		history = append(history, now)
		more := [3]bool{now.Heap-last.Heap > heap, now.Goroutines-last.Goroutines > goroutines, now.Files-last.Files > goroutines}
		last = now
		if more == [3]bool{} {
			if i == 0 {
				return nil
			}
			quiet++
			continue
		}
		quiet = 0
		for k, name := range []string{"memory", "goroutines", "files"} {
			if more[k] {
				grown[k]++
			}
			if grown[k] == 3 {
				return fmt.Errorf("what is held grows with the work that was done (%s), after every %d phases of work: %+v", name, phases, history)
			}
		}
	}
	e.Label("grew for a while")
	return nil
}

var errStopped = errors.New("stopped though its input was not closed")

// async runs f until its input is closed.
func async(f func()) (done chan error) {
	done = make(chan error, 1)
	go func() { done <- engine.Protect(func() error { f(); return nil }) }()
	return done
}

// stopped is the error of something that stopped early.
func stopped(err error) error {
	if err == nil {
		err = errStopped
	}
	return err
}

// give hands over a value.
func give[T any](ch chan<- T, v T, done chan error) error {
	select {
	case ch <- v:
		return nil
	case err := <-done:
		done <- err
		return stopped(err)
	}
}
