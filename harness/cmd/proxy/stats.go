package main

import (
	"encoding/json"
	"net"
	"os"
	"runtime"

	"verifharness/prog"
)

// serveStats tells everybody who connects what the process holds.
func serveStats() {
	path := os.Getenv("VF_STATS")
	if path == "" {
		return
	}
	l, err := net.Listen("unix", path)
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			for range 3 {
				runtime.GC()
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			files, _ := os.ReadDir("/proc/self/fd")
			_ = json.NewEncoder(c).Encode(prog.Held{Heap: int(m.HeapAlloc), Goroutines: runtime.NumGoroutine(), Files: len(files)})
			c.Close()
		}
	}()
}
