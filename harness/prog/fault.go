package prog

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"strconv"
	"strings"
	"time"

	"github.com/DataDog/dd-trace-go/tracer"
	"github.com/ugorji/go/codec"

	"verifharness/dd"
	"verifharness/engine"
)

// What the agent does.
const (
	AgentOk      = ""
	AgentRefuse  = "refuse"  // nobody listens
	AgentStatus  = "status"  // answers with a status
	AgentReset   = "reset"   // resets the connection
	AgentHalfway = "halfway" // closes it while the request is sent
	AgentGarbage = "garbage" // answers with something that is not HTTP
	AgentHang    = "hang"    // does not answer
	AgentStall   = "stall"   // starts to answer and does not go on
	AgentSlow    = "slow"    // answers late
)

// Fault is what the agent does for some time.
type Fault struct {
	Mode string
	Arg  int `json:",omitempty"`
	Ms   int `json:",omitempty"`
}

type agent struct {
	addr    string
	fault   Fault
	server  *http.Server
	release chan struct{} // closed when the fault is over
}

// SetFault changes what the agent does from now on.
func (p *Program) SetFault(f Fault) error {
	p.mu.Lock()
	a := &p.agent
	if a.release != nil {
		close(a.release)
	}
	a.fault, a.release = f, make(chan struct{})
	server := a.server
	p.mu.Unlock()
	if f.Mode == AgentRefuse {
		if server != nil {
			server.Close()
			p.mu.Lock()
			a.server = nil
			p.mu.Unlock()
		}
		return nil
	}
	if server != nil {
		return nil
	}
	l, err := net.Listen("tcp", a.addr)
	for n := 0; err != nil && n < 50; n++ {
		time.Sleep(20 * time.Millisecond)
		l, err = net.Listen("tcp", a.addr)
	}
	if err != nil {
		return engine.HarnessError(err)
	}
	server = &http.Server{Handler: http.HandlerFunc(p.submitted)}
	p.mu.Lock()
	a.server = server
	p.mu.Unlock()
	go server.Serve(l)
	return nil
}

// Faults lets the agent follow the faults again and again until the context is done, then it works again.
func (p *Program) Faults(ctx context.Context, faults []Fault) error {
	for n := 0; ctx.Err() == nil; n++ {
		f := faults[n%len(faults)]
		if err := p.SetFault(f); err != nil {
			return err
		}
		select {
		case <-ctx.Done():
		case <-time.After(time.Duration(max(f.Ms, 100)) * time.Millisecond):
		}
	}
	return p.SetFault(Fault{})
}

// Faulted counts how often the agent did what it was told to instead of answering well.
func (p *Program) Faulted() map[string]int {
	p.mu.Lock()
	defer p.mu.Unlock()
	out := map[string]int{}
	for k, v := range p.faulted {
		out[k] = v
	}
	return out
}

// misbehave tells if the request was dealt with.
func (p *Program) misbehave(w http.ResponseWriter, req *http.Request) bool {
	p.mu.Lock()
	f, release := p.agent.fault, p.agent.release
	if f.Mode != AgentOk {
		p.faulted[f.Mode]++
	}
	p.mu.Unlock()
	hijack := func(do func(c net.Conn)) {
		c, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			do(c)
			c.Close()
		}
	}
	switch f.Mode {
	case AgentStatus:
		// it may read the request before that
		if f.Arg%2 == 0 {
			_, _ = io.Copy(io.Discard, req.Body)
		}
		if f.Arg == http.StatusNotFound || f.Arg == http.StatusUnsupportedMediaType {
			p.downgraded.Store(true)
		}
		w.WriteHeader(f.Arg)
		fmt.Fprintln(w, "no")
	case AgentReset:
		hijack(func(c net.Conn) { _ = c.(*net.TCPConn).SetLinger(0) })
	case AgentHalfway:
		_, _ = io.CopyN(io.Discard, req.Body, int64(f.Arg))
		hijack(func(net.Conn) {})
	case AgentGarbage:
		hijack(func(c net.Conn) {
			_, _ = io.WriteString(c, []string{"\x00\x01\x02", "HTTP/1.1 abc\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: -7\r\n\r\n",
				"SSH-2.0-x\r\n", strings.Repeat("x", 10000), "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n"}[f.Arg%6])
		})
	case AgentHang:
		if f.Arg%2 == 0 {
			_, _ = io.Copy(io.Discard, req.Body)
		}
		select {
		case <-req.Context().Done():
		case <-release:
		}
		panic(http.ErrAbortHandler)
	case AgentStall:
		_, _ = io.Copy(io.Discard, req.Body)
		w.Header().Set("Content-Length", strconv.Itoa(100+f.Arg))
		w.WriteHeader(200)
		_, _ = io.WriteString(w, "some")
		_ = http.NewResponseController(w).Flush()
		select {
		case <-req.Context().Done():
		case <-release:
		}
		panic(http.ErrAbortHandler)
	case AgentSlow:
		time.Sleep(time.Duration(f.Arg) * time.Millisecond)
		if req.Context().Err() != nil {
			return true
		}
		return false
	default:
		return false
	}
	return true
}

func (p *Program) submitted(w http.ResponseWriter, req *http.Request) {
	// the client also goes back to the old version if it was told that the new one does not exist
	legacy := req.URL.Path == "/v0.2/traces" && p.downgraded.Load()
	if p.misbehave(w, req) {
		return
	}
	body, err := io.ReadAll(req.Body)
	if err != nil {
		p.mu.Lock()
		if p.agent.fault.Mode == AgentOk {
			p.cutOff++
		}
		p.mu.Unlock()
		return
	}
	var traces [][]*tracer.Span
	var mh codec.MsgpackHandle
	mh.RawToString = true
	decode := func() error { return codec.NewDecoderBytes(body, &mh).Decode(&traces) }
	if legacy {
		decode = func() error { return json.Unmarshal(body, &traces) }
	}
	if req.Method != "POST" || req.URL.Path != "/v0.3/traces" && !legacy {
		p.fail(fmt.Errorf("the agent got a request %s %s", req.Method, req.URL.Path))
	} else if err := decode(); err != nil {
		p.fail(fmt.Errorf("what the agent got cannot be decoded: %v", err))
	}
	p.mu.Lock()
	p.posts++
	for _, trace := range traces {
		var spans []dd.Span
		for _, s := range trace {
			spans = append(spans, dd.Copy(s))
		}
		p.spans = append(p.spans, spans)
	}
	p.mu.Unlock()
	w.WriteHeader(200)
}
