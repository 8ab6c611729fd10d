// Package prog runs the whole program (harness/cmd/proxy) as a process, with a stand-in for the
// Datadog agent on the loopback network.
package prog

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verifharness/dd"
	"verifharness/engine"
	"verifharness/gen"
)

// Held is what a process holds.
type Held struct{ Heap, Goroutines, Files int }

// Program is a running program.
type Program struct {
	Addr string

	cmd    *exec.Cmd
	stderr *tail
	exited chan struct{}
	agent  agent
	// the agent told that it does not know the version of the interface
	downgraded atomic.Bool

	mu    sync.Mutex
	calls []proxy.Span // of the converter
	spans [][]dd.Span  // per trace that was submitted
	posts int
	// requests to the agent that it could not read in time
	cutOff  int
	faulted map[string]int
	err     error
}

// tail keeps the end of what is written.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 && bytes.Index(t.b, []byte("panic: ")) < 0 && bytes.Index(t.b, []byte("fatal error: ")) < 0 {
		t.b = append([]byte(nil), t.b[len(t.b)-1<<15:]...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	b := t.b
	for _, start := range []string{"panic: ", "fatal error: "} {
		if i := bytes.Index(b, []byte(start)); i >= 0 {
			return string(b[i:min(i+3000, len(b))])
		}
	}
	return string(b[max(0, len(b)-3000):])
}

var ports atomic.Uint32

// freeAddr returns an address nobody else uses. Addresses from 127.0.0.1 may be taken by others before the
// program listens, so this process has its own.
func freeAddr() string {
	pid := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d:%d", 1+pid>>16%250, pid>>8%256, 1+pid%254, 10000+ports.Add(1)%20000)
}

// Start starts the program with an agent, and waits until it serves.
func Start(args ...string) (*Program, error) { return StartEnv(nil, args...) }

// StartEnv is Start with additional variables in the environment: VF_STATS is a socket at which the program
// tells what it holds, and with VF_ROUTES it has own routes.
func StartEnv(env []string, args ...string) (*Program, error) {
	return StartFaulty(Fault{}, env, args...)
}

// StartFaulty is StartEnv with an agent that has a fault from the beginning.
func StartFaulty(fault Fault, env []string, args ...string) (*Program, error) {
	for n := 0; ; n++ {
		p, err := start(fault, env, args)
		if err != nil && strings.Contains(err.Error(), "address already in use") {
			// somebody else took the port
			if n < 10 {
				continue
			}
			err = engine.HarnessError(err)
		}
		return p, err
	}
}

func start(fault Fault, env, args []string) (*Program, error) {
	path := os.Getenv("VF_PROXY")
	if path == "" {
		return nil, engine.HarnessError(fmt.Errorf("VF_PROXY is not set"))
	}
	p := &Program{exited: make(chan struct{}), stderr: &tail{}, faulted: map[string]int{}}
	p.agent.addr = freeAddr()
	if err := p.SetFault(fault); err != nil {
		return nil, err
	}
	agentHost, agentPort, _ := net.SplitHostPort(p.agent.addr)

	p.Addr = freeAddr()
	r, w, err := os.Pipe()
	if err != nil {
		p.closeAgent()
		return nil, engine.HarnessError(err)
	}
	p.cmd = exec.Command(path, append([]string{"--http-address", p.Addr, "--http-access-log", "/dev/null",
		"--trace-host", agentHost, "--trace-port", agentPort}, args...)...)
	p.cmd.Stdout, p.cmd.Stderr = p.stderr, p.stderr
	p.cmd.ExtraFiles = []*os.File{w}
	p.cmd.Env = append(os.Environ(), env...)
	if err := p.cmd.Start(); err != nil {
		p.closeAgent()
		r.Close()
		w.Close()
		return nil, engine.HarnessError(err)
	}
	w.Close()
	go p.readCalls(r)
	go func() {
		_ = p.cmd.Wait()
		close(p.exited)
	}()
	deadline := time.Now().Add(60 * time.Second)
	for {
		c, err := net.DialTimeout("tcp", p.Addr, time.Second)
		if err == nil {
			c.Close()
			return p, nil
		}
		if !p.Running() {
			p.Close()
			return nil, fmt.Errorf("program ended at once: %s", p.stderr)
		}
		if time.Now().After(deadline) {
			p.Close()
			return nil, fmt.Errorf("program does not listen: %s", p.stderr)
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// Running tells if the program runs.
func (p *Program) Running() bool {
	select {
	case <-p.exited:
		return false
	default:
		return true
	}
}

// Check is an error if the program ended or did something unexpected.
func (p *Program) Check() error {
	if !p.Running() {
		err := fmt.Errorf("the program ended:\n%s", p.stderr)
		if strings.Contains(err.Error(), "address already in use") {
			return engine.HarnessError(err)
		}
		return err
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.err
}

// Close ends the program.
func (p *Program) Close() {
	if p.cmd.Process != nil {
		_ = p.cmd.Process.Kill()
	}
	<-p.exited
	p.closeAgent()
}

func (p *Program) closeAgent() { _ = p.SetFault(Fault{Mode: AgentRefuse}) }

func (p *Program) fail(err error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.err == nil {
		p.err = err
	}
}

func (p *Program) readCalls(r *os.File) {
	defer r.Close()
	br := bufio.NewReaderSize(r, 1<<16)
	for {
		line, err := br.ReadBytes('\n')
		if err != nil {
			return
		}
		var s gen.Span
		if err := json.Unmarshal(line, &s); err != nil {
			p.fail(engine.HarnessError(err))
			return
		}
		p.mu.Lock()
		p.calls = append(p.calls, s.Proxy())
		p.mu.Unlock()
	}
}

// Calls are the spans that were given to the converter.
func (p *Program) Calls() []proxy.Span {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]proxy.Span(nil), p.calls...)
}

// Submitted are the spans the agent got, and in how many requests.
func (p *Program) Submitted() ([][]dd.Span, int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([][]dd.Span(nil), p.spans...), p.posts
}

// CutOff tells if a request to the agent was given up by the program while the agent read it. It waits
// for one second only.
func (p *Program) CutOff() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.cutOff > 0
}

// counts returns the number of calls and of submitted spans.
func (p *Program) counts() (calls, submitted int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, t := range p.spans {
		submitted += len(t)
	}
	return len(p.calls), submitted
}

// Wait waits until so many calls and submitted spans were seen, at least until min has passed
// since the given time, and at most for max.
func (p *Program) Wait(calls, submitted int, since time.Time, min, max time.Duration) error {
	deadline := time.Now().Add(max)
	for time.Now().Before(deadline) {
		if err := p.Check(); err != nil {
			return err
		}
		c, s := p.counts()
		if c >= calls && s >= submitted && time.Since(since) >= min {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	return p.Check()
}

// PageSpan is a span of the recent-spans page. Times are those of its JSON.
type PageSpan struct {
	Id, Parent, Trace string
	Name, Service     string
	Timestamp         time.Time
	Duration          int64
	Tags              map[string]string
	Timings           struct{ CS, CR, SS, SR time.Time }
}

// Page reads the recent-spans page.
func (p *Program) Page() ([]PageSpan, error) {
	req, err := http.NewRequest("GET", "http://"+p.Addr+"/admin/spans", nil)
	if err != nil {
		return nil, engine.HarnessError(err)
	}
	req.SetBasicAuth("admin", "bingo")
	req.Header.Set("Accept", "application/json")
	client := &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: 30 * time.Second}
	resp, err := client.Do(req)
	if err != nil {
		return nil, fmt.Errorf("reading the recent spans: %v", err)
	}
	defer resp.Body.Close()
	body, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, fmt.Errorf("reading the recent spans: %v", err)
	}
	if resp.StatusCode != 200 {
		return nil, fmt.Errorf("reading the recent spans: status %d: %s", resp.StatusCode, body)
	}
	var spans []PageSpan
	if err := json.Unmarshal(body, &spans); err != nil {
		return nil, fmt.Errorf("reading the recent spans: %v in %.200s", err, body)
	}
	return spans, nil
}

// End tells the program to end, and waits until it has.
func (p *Program) End(limit time.Duration) error {
	_ = p.cmd.Process.Signal(syscall.SIGTERM)
	select {
	case <-p.exited:
		return nil
	case <-time.After(limit):
		return fmt.Errorf("the program was told to end, but did not within %s", limit)
	}
}
