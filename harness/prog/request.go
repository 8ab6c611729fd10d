package prog

import (
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"net"
	"net/http"
	"strconv"
	"syscall"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"pgregory.net/rapid"

	"verifharness/engine"
	"verifharness/gen"
)

// Ways to break a request.
const (
	Good          = iota
	Truncated     // the document ends early
	BadValue      // a value of the last span is not what it has to be
	GzipTruncated // the compressed stream ends early
	GzipHeader    // the compressed stream does not start as it should
	GzipBroken    // the compressed stream is damaged
	PlainAsGzip   // it is said to be compressed, but is not
	GzipAsPlain   // it is compressed without saying so
	ContentType   // v1 only
	Disconnect    // the client goes away before all is sent
	brokenKinds
)

// BrokenNames has their names.
var BrokenNames = []string{"good", "truncated document", "bad value", "truncated gzip stream", "bad gzip header",
	"broken gzip stream", "not compressed", "unexpectedly compressed", "other content type", "client disconnects"}

var contentTypes = []string{"application/json", "application/json; charset=utf-8", "application/json;charset=UTF-8"}
var otherTypes = []string{"", "text/plain", "application/x-thrift", "application/octet-stream", "application/xml; charset=utf-8"}

// What the handler around the others does, see cmd/proxy.
const (
	NoMid = iota // there is none
	Pass         // passes on the request
	Peek         // reads the body before that
	Block        // does not pass on the request
)

// Req is a request.
type Req struct {
	Format string
	Spans  int
	PerT   int  // spans of a trace
	Shared bool `json:",omitempty"` // belong to the trace that all requests share
	Broken int  `json:",omitempty"`
	Pos    uint32
	Gzip   bool `json:",omitempty"`
	Type   int  `json:",omitempty"`
	Chunk  int  `json:",omitempty"` // sizes of the parts that are sent
	Close  bool `json:",omitempty"`
	Modes  bool `json:",omitempty"` // the converter changes spans
	Pad    int  `json:",omitempty"` // length of a tag
	Large  int  `json:",omitempty"` // total length of another tag that all spans have
	Space  int  `json:",omitempty"` // length of white space before the document
	Fresh  bool `json:",omitempty"` // strings that no other span has
	Mid    int  `json:",omitempty"` // what the handler of the program around the others does
	Style  gen.Style
	Seed   uint64
}

// DrawReq draws a request. broken is how many out of ten are broken.
func DrawReq(rt *rapid.T, maxSpans, broken int, modes bool) Req {
	r := Req{
		Format: rapid.SampledFrom(gen.Formats).Draw(rt, "format"),
		Spans:  rapid.IntRange(0, 5).Draw(rt, "spans"),
		PerT:   rapid.SampledFrom([]int{1, 1, 2, 5, 30, 1000}).Draw(rt, "perTrace"),
		Pos:    rapid.Uint32().Draw(rt, "pos"),
		Gzip:   rapid.IntRange(0, 2).Draw(rt, "gzip") == 0,
		Type:   rapid.IntRange(0, 4).Draw(rt, "type"),
		Chunk:  rapid.SampledFrom([]int{0, 0, 0, 0, 7, 100, 4096}).Draw(rt, "chunk"),
		Close:  rapid.IntRange(0, 9).Draw(rt, "close") == 0,
		Shared: rapid.IntRange(0, 7).Draw(rt, "shared") == 0,
		Modes:  modes && rapid.IntRange(0, 3).Draw(rt, "modes") > 0,
		Seed:   rapid.Uint64().Draw(rt, "seed"),
	}
	if rapid.IntRange(0, 5).Draw(rt, "many") == 0 {
		r.Spans = rapid.SampledFrom([]int{maxSpans, maxSpans / 2, maxSpans/10 + 1}).Draw(rt, "size") - rapid.IntRange(0, maxSpans/10).Draw(rt, "less")
	}
	if rapid.IntRange(0, 5).Draw(rt, "padded") == 0 {
		r.Pad = rapid.SampledFrom([]int{100, 3000, 9000}).Draw(rt, "pad")
	}
	r.Style = gen.DrawStyle(rt)
	if r.Spans > 20 {
		r.Style.Space, r.Style.Unknown, r.Style.Deep, r.Pad = min(r.Style.Space, 1), min(r.Style.Unknown, 1), 0, min(r.Pad, 100)
	}
	if rapid.IntRange(0, 9).Draw(rt, "broken") < broken {
		r.Broken = rapid.IntRange(1, brokenKinds-1).Draw(rt, "how")
		if r.Broken == ContentType && r.Format != gen.V1 {
			r.Broken = Truncated
		}
		if r.Broken == BadValue {
			r.Spans = max(1, r.Spans)
			// the value must be found again
			r.Style.Unknown, r.Style.Deep, r.Style.Keys = 0, 0, false
		}
	}
	return r
}

var base = uint64(time.Date(2024, 5, 6, 7, 8, 9, 0, time.UTC).UnixMicro())

const sharedTrace = 1 << 44

// span is a span in terms of all formats.
type span struct {
	trace, id, parent uint64 // the root has no parent
	name, service     string
	start, duration   uint64
	kind              string // like CLIENT
	tags              []gen.KV
}

var services = []string{"backend", "frontend", "user-service", "a", "Zürich", "database", "x-1", "x-2"}

func text(rng *gen.Rng, shared bool) string {
	if shared {
		return services[rng.Intn(len(services))]
	}
	return gen.RandomText(rng)
}

// spans are the spans of request n.
func (r Req) spans(n int) []span {
	rng := gen.NewRng(r.Seed)
	var out []span
	for i := range r.Spans {
		s := span{id: uint64(n+1)<<20 | uint64(i+1)}
		first := i - i%max(1, r.PerT)
		s.trace = uint64(n+1)<<20 | uint64(first+1)
		if r.Shared {
			s.trace = sharedTrace
			s.parent = sharedTrace
		} else if i > first {
			s.parent = uint64(n+1)<<20 | uint64(first+rng.Intn(i-first)+1)
		}
		// make use of all bits
		for _, id := range []*uint64{&s.trace, &s.id, &s.parent} {
			if *id != 0 {
				*id |= uint64(s.trace&1)<<63 | 1<<55
			}
		}
		r.fill(&s, rng)
		out = append(out, s)
	}
	return out
}

func (r Req) fill(s *span, rng *gen.Rng) {
	s.name, s.service = text(rng, rng.Chance(2)), text(rng, !rng.Chance(4))
	s.start, s.duration = base+uint64(rng.Intn(1e9)), uint64(1+rng.Intn(1e7))
	if rng.Chance(3) {
		s.kind = []string{"CLIENT", "SERVER"}[rng.Intn(2)]
	}
	s.tags = append(s.tags, gen.KV{K: "gone", V: gen.Bin(text(rng, true))})
	seen := map[gen.Bin]bool{}
	for range rng.Intn(4) {
		k := gen.Bin("t." + text(rng, rng.Chance(2)))
		if !seen[k] {
			seen[k] = true
			s.tags = append(s.tags, gen.KV{K: k, V: gen.Bin(text(rng, rng.Chance(2)))})
		}
	}
	if r.Pad > 0 {
		s.tags = append(s.tags, gen.KV{K: "pad", V: gen.Bin(bytes.Repeat([]byte{'a' + byte(s.id%26)}, r.Pad))})
	}
	if r.Large > 0 {
		s.tags = append(s.tags, gen.KV{K: "large", V: gen.Bin(bytes.Repeat([]byte{'A' + byte(s.id%26)}, r.Large/max(1, r.Spans)))})
	}
	if r.Fresh {
		unique := strconv.FormatUint(s.id, 36)
		s.name, s.service = s.name+unique, unique
		s.tags = append(s.tags, gen.KV{K: "fresh", V: gen.Bin("value " + unique)}, gen.KV{K: gen.Bin("key-" + unique), V: "x"})
	}
	if r.Modes && !rng.Chance(3) {
		s.tags = append(s.tags, gen.KV{K: Tag, V: gen.Bin(Modes[rng.Intn(len(Modes))])})
	}
	if rng.Chance(10) {
		s.tags = append(s.tags, gen.KV{K: "error", V: gen.Bin([]string{"true", "false", "0", "timeout"}[rng.Intn(4)])})
	}
}

func ptr[T any](v T) *T { return &v }

// document renders the spans and says what has to be parsed.
func (r Req) document(spans []span) ([]byte, []proxy.Span) {
	id := func(v uint64) gen.IDText { return gen.IDText{Value: v, Width: int(v % 17)} }
	doc := gen.Doc{Format: r.Format, Style: r.Style}
	switch r.Format {
	case gen.V2:
		for _, s := range spans {
			d := gen.V2Span{Trace: id(s.trace), ID: id(s.id), Name: ptr(gen.Bin(s.name)), Service: ptr(gen.Bin(s.service)), Endpoint: true,
				Timestamp: &s.start, Duration: &s.duration, HasTags: true, Tags: s.tags}
			if s.parent != 0 {
				d.ParentMode, d.Parent = gen.ParentValue, id(s.parent)
			}
			if s.kind != "" {
				d.Kind = ptr(gen.Bin(s.kind))
			}
			doc.V2 = append(doc.V2, d)
		}
	case gen.V1:
		for _, s := range spans {
			d := gen.V1Span{Trace: id(s.trace), ID: id(s.id), Name: ptr(gen.Bin(s.name)), Timestamp: &s.start, Duration: &s.duration,
				HasAnn: true, HasBin: true, Binary: s.tags}
			if s.parent != 0 {
				d.ParentMode, d.Parent = gen.ParentValue, id(s.parent)
			}
			values := []string{"x", "y"}
			switch s.kind {
			case "CLIENT":
				values = []string{"cs", "cr"}
			case "SERVER":
				values = []string{"sr", "ss"}
			}
			for i, v := range values {
				d.Annotations = append(d.Annotations, gen.V1Annotation{Value: gen.Bin(v), Timestamp: ptr(s.start + uint64(i)*s.duration), Endpoint: true, Service: ptr(gen.Bin(s.service))})
			}
			doc.V1 = append(doc.V1, d)
		}
	case gen.Jaeger:
		data := gen.JaegerData{}
		for i, s := range spans {
			data.Processes = append(data.Processes, gen.Bin(s.service))
			d := gen.JaegerSpan{Trace: id(s.trace), ID: id(s.id), Name: ptr(gen.Bin(s.name)), Start: &s.start, Duration: &s.duration, Process: i, HasTags: true}
			if s.parent != 0 {
				d.HasRefs, d.Refs = true, []gen.JaegerRef{{Type: "CHILD_OF", Span: id(s.parent)}}
			}
			for _, kv := range s.tags {
				d.Tags = append(d.Tags, gen.JaegerTag{K: kv.K, V: kv.V})
			}
			if s.kind != "" {
				d.Tags = append(d.Tags, gen.JaegerTag{K: "span.kind", V: gen.Bin(s.kind)})
			}
			data.Spans = append(data.Spans, d)
		}
		doc.Jaeger = &gen.JaegerDoc{Data: []gen.JaegerData{data}}
	}
	want := doc.Want()
	return doc.Bytes(), want
}

func at(pos uint32, n int) int { return int(uint64(pos) * uint64(n) >> 32) }

func compress(data []byte, members int) []byte {
	var b bytes.Buffer
	for i := range members {
		w, _ := gzip.NewWriterLevel(&b, i%10)
		_, _ = w.Write(data[i*len(data)/members : (i+1)*len(data)/members])
		_ = w.Close()
	}
	return b.Bytes()
}

// prefix is what can be decompressed.
func prefix(data []byte) []byte {
	r, err := gzip.NewReader(bytes.NewReader(data))
	if err != nil {
		return nil
	}
	out, _ := io.ReadAll(r)
	return out
}

// Sent is a request as it is sent.
type Sent struct {
	Req      Req
	N        int
	Path     string
	Header   http.Header
	Body     []byte
	Want     []proxy.Span // if it is good
	Document []byte
}

// Record is a record of a span that a host sends. Times are in microseconds.
type Record struct {
	Trace, ID, Parent uint64
	Name, Service     string
	Start, Duration   uint64
	Kind              string // CLIENT, SERVER or none
	Tags              []gen.KV
}

// RenderRecords makes a request with the given records.
func (r Req) RenderRecords(n int, recs []Record) Sent {
	var spans []span
	for _, x := range recs {
		spans = append(spans, span{x.Trace, x.ID, x.Parent, x.Name, x.Service, x.Start, x.Duration, x.Kind, x.Tags})
	}
	r.Spans = len(recs)
	return r.render(n, spans)
}

// Render makes the n-th request of a case.
func (r Req) Render(n int) Sent {
	spans := r.spans(n)
	if n == 0 { // it has the root of the shared trace
		s := span{trace: sharedTrace | 1<<55, id: sharedTrace | 1<<55}
		r.fill(&s, gen.NewRng(r.Seed+1))
		spans = append(spans, s)
	}
	return r.render(n, spans)
}

func (r Req) render(n int, spans []span) Sent {
	doc, want := r.document(spans)
	if r.Space > 0 {
		doc = append(bytes.Repeat([]byte(" \n"), r.Space/2), doc...)
	}
	out := Sent{Req: r, N: n, Path: "/api/" + r.Format + "/spans", Header: http.Header{}, Want: want}
	end := len(bytes.TrimRight(doc, " \t\r\n"))
	switch r.Broken {
	case Truncated:
		doc = doc[:at(r.Pos, end)]
	case BadValue:
		doc = breakValue(doc, r.Pos)
	}
	out.Document = doc
	typ := contentTypes[r.Type%len(contentTypes)]
	if r.Format != gen.V1 && r.Type >= len(contentTypes) || r.Broken == ContentType {
		typ = otherTypes[r.Type%len(otherTypes)]
	}
	if typ != "" {
		out.Header.Set("Content-Type", typ)
	}
	body := doc
	encoded := r.Gzip
	switch r.Broken {
	case GzipTruncated, GzipHeader, GzipBroken, GzipAsPlain:
		encoded = true
	case PlainAsGzip:
		encoded = false
	}
	if encoded {
		members := 1
		if r.Seed%5 == 0 {
			members = 1 + int(r.Seed>>32%4)
		}
		body = compress(body, members)
		switch r.Broken {
		case GzipTruncated, Disconnect:
			// the document must not be complete
			cut := at(r.Pos, len(body))
			for cut > 0 && len(prefix(body[:cut])) >= end {
				cut -= 1 + cut/8
			}
			body = body[:max(cut, 0)]
		case GzipHeader:
			body = append([]byte(nil), body...)
			body[r.Pos%3] ^= byte(1 + r.Pos>>8%255)
		case GzipBroken:
			pos := 10 + at(r.Pos, len(body)-10)
			for pos > 10 && len(prefix(body[:pos])) >= end {
				pos -= 1 + pos/8
			}
			pos = max(pos, 10)
			// a block type that does not exist, if a block starts here, and garbage otherwise
			body = append(append([]byte(nil), body[:pos]...), bytes.Repeat([]byte{0xff}, 600)...)
		}
	} else if r.Broken == Disconnect {
		body = body[:at(r.Pos, end)]
	}
	out.Body = body
	if encoded && r.Broken != GzipAsPlain || r.Broken == PlainAsGzip {
		out.Header.Set("Content-Encoding", "gzip")
	}
	switch r.Mid {
	case Peek:
		out.Header.Set("X-Peek", "1")
	case Block:
		out.Header.Set("X-Block", "1")
	}
	if r.Broken != Good || r.Mid == Block {
		out.Want = nil
	}
	return out
}

// breakValue replaces the value of an id by something else.
func breakValue(doc []byte, pos uint32) []byte {
	for _, name := range []string{`"id"`, `"spanID"`} {
		i := bytes.LastIndex(doc, []byte(name))
		if i < 0 {
			continue
		}
		i += len(name)
		for i < len(doc) && bytes.IndexByte([]byte(": \t\r\n"), doc[i]) >= 0 {
			i++
		}
		if i >= len(doc) || doc[i] != '"' {
			continue
		}
		end := i + 1 + bytes.IndexByte(doc[i+1:], '"')
		bad := []string{`"xyz"`, `[]`, `{}`, `"0123456789abcdef0123456789abcdef0"`, `"-1"`, `"12`, `tru`, `"1 "`}[pos%8]
		return append(append(append([]byte(nil), doc[:i]...), bad...), doc[end+1:]...)
	}
	return doc[:len(doc)/2]
}

// Client sends requests one after the other.
type Client struct {
	p    *Program
	http *http.Client
}

// NewClient returns a client.
func (p *Program) NewClient() *Client {
	return &Client{p, &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{DisableCompression: true}}}
}

// Close closes its connections.
func (c *Client) Close() { c.http.CloseIdleConnections() }

type slow struct {
	data  []byte
	chunk int
	n     int
}

func (s *slow) Read(p []byte) (int, error) {
	if len(s.data) == 0 {
		return 0, io.EOF
	}
	n := min(len(p), s.chunk, len(s.data))
	copy(p, s.data[:n])
	s.data = s.data[n:]
	if s.n++; s.n < 20 {
		time.Sleep(time.Millisecond)
	} else {
		s.chunk = 1 << 20
	}
	return n, nil
}

// Lost tells if the error means that the answer was lost.
func Lost(err error) bool { return errors.Is(err, syscall.ECONNRESET) || errors.Is(err, syscall.EPIPE) }

// Send sends a request and checks the status of its response.
func (c *Client) Send(s Sent) error {
	status, err := c.send(s)
	if Lost(err) && c.p.Running() {
		// the server may answer and close the connection before it has read all of the body (which
		// does not matter to it any more), then the answer is lost at times
		return nil
	}
	if err != nil {
		return fmt.Errorf("request %d (%s, %s): %v", s.N, s.Path, BrokenNames[s.Req.Broken], err)
	}
	want := http.StatusBadRequest
	if s.Req.Mid == Block && s.reached() {
		want = http.StatusForbidden
	} else if s.Req.Broken == Good {
		want = http.StatusAccepted
	} else if s.Req.Broken == Disconnect && status == 0 {
		return nil
	}
	if status != want {
		return fmt.Errorf("request %d to %s with %d spans (%s) got status %d, want %d, document %.300s", s.N, s.Path,
			s.Req.Spans, BrokenNames[s.Req.Broken], status, want, s.Document)
	}
	return nil
}

func (c *Client) send(s Sent) (int, error) {
	if s.Req.Broken == Disconnect {
		return c.disconnect(s)
	}
	var body io.Reader = bytes.NewReader(s.Body)
	if s.Req.Chunk > 0 {
		body = &slow{data: s.Body, chunk: s.Req.Chunk}
	}
	req, err := http.NewRequest("POST", "http://"+c.p.Addr+s.Path, body)
	if err != nil {
		return 0, engine.HarnessError(err)
	}
	req.Header, req.Close = s.Header.Clone(), s.Req.Close
	resp, err := c.http.Do(req)
	if err != nil {
		return 0, err
	}
	_, _ = io.Copy(io.Discard, resp.Body)
	resp.Body.Close()
	return resp.StatusCode, s.checkHeader(resp.Header)
}

// Sum describes the body of a request.
func Sum(data []byte) string { return fmt.Sprintf("%d %x", len(data), crc32.ChecksumIEEE(data)) }

// reached tells if the request gets to the handlers.
func (s Sent) reached() bool {
	return s.Req.Broken != PlainAsGzip && s.Req.Broken != GzipHeader && (s.Req.Broken != GzipTruncated || len(s.Body) >= 10)
}

// checkHeader checks what the handler around the others reports.
func (s Sent) checkHeader(h http.Header) error {
	if s.Req.Mid == NoMid {
		return nil
	}
	reached := s.reached()
	if got := h.Get("X-Reached") != ""; got != reached {
		return fmt.Errorf("handler around the others got the request: %v, want %v", got, reached)
	}
	complete := reached && s.Req.Broken != GzipTruncated && s.Req.Broken != GzipBroken
	if got := h.Get("X-Peek"); s.Req.Mid == Peek && complete && got != Sum(s.Document) {
		if s.Req.Broken == GzipAsPlain && got == Sum(s.Body) {
			return nil
		}
		return fmt.Errorf("handler around the others got a body %s, want %s", got, Sum(s.Document))
	}
	return nil
}

// disconnect announces more than it sends.
func (c *Client) disconnect(s Sent) (int, error) {
	conn, err := net.Dial("tcp", c.p.Addr)
	if err != nil {
		return 0, err
	}
	defer conn.Close()
	var b bytes.Buffer
	fmt.Fprintf(&b, "POST %s HTTP/1.1\r\nHost: %s\r\n", s.Path, c.p.Addr)
	if s.Req.Pos%2 == 0 {
		fmt.Fprintf(&b, "Content-Length: %d\r\n", len(s.Body)+100)
		_ = s.Header.Write(&b)
		b.WriteString("\r\n")
		b.Write(s.Body)
	} else {
		b.WriteString("Transfer-Encoding: chunked\r\n")
		_ = s.Header.Write(&b)
		b.WriteString("\r\n")
		if len(s.Body) > 0 {
			b.WriteString(strconv.FormatInt(int64(len(s.Body)), 16) + "\r\n")
			b.Write(s.Body)
			b.WriteString("\r\n")
		}
	}
	_ = conn.SetDeadline(time.Now().Add(30 * time.Second))
	if _, err := conn.Write(b.Bytes()); err != nil {
		return 0, nil
	}
	if s.Req.Close { // at once, and in a hard way
		_ = conn.(*net.TCPConn).SetLinger(0)
		return 0, nil
	}
	_ = conn.(*net.TCPConn).CloseWrite()
	head := make([]byte, 12)
	if _, err := io.ReadFull(conn, head); err != nil {
		return 0, nil
	}
	status, _ := strconv.Atoi(string(head[9:]))
	return status, nil
}

// Probe sends a document, which has to be accepted.
func (c *Client) Probe(path, body string) error {
	resp, err := c.http.Post("http://"+c.p.Addr+path, "application/json", bytes.NewReader([]byte(body)))
	if err != nil {
		return err
	}
	_, _ = io.Copy(io.Discard, resp.Body)
	resp.Body.Close()
	if resp.StatusCode != http.StatusAccepted {
		return fmt.Errorf("%s was answered with %d", body, resp.StatusCode)
	}
	return nil
}
