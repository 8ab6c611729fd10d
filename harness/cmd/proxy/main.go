// The proxy is a main program around zipkinproxy.Main, as a user of the library writes it. Its
// converter does what a tag of the span asks for and reports every call on file descriptor 3.
package main

import (
	"bufio"
	"encoding/json"
	"os"
	"sync"
	"sync/atomic"

	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verifharness/gen"
	"verifharness/prog"
)

func main() {
	serveStats()
	var mu sync.Mutex
	out := bufio.NewWriterSize(os.NewFile(3, "calls"), 1<<16)
	var active atomic.Int32
	serial := os.Getenv("VF_SERIAL") != ""
	converter := func(span proxy.Span) (proxy.Span, error) {
		if active.Add(1) > 1 && serial {
			panic("the converter is called while it is already running")
		}
		defer active.Add(-1)
		data, err := json.Marshal(gen.FromProxy(span))
		if err != nil {
			panic(err)
		}
		mu.Lock()
		_, _ = out.Write(append(data, '\n'))
		_ = out.Flush()
		mu.Unlock()
		return prog.Convert(span)
	}
	if os.Getenv("VF_ROUTES") == "" {
		zipkinproxy.Main(converter)
	} else {
		zipkinproxy.MainWithRouting(routing, converter)
	}
}
