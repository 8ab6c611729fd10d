package prog

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"strings"

	"pgregory.net/rapid"

	"verifharness/engine"
	"verifharness/gen"
)

// OwnMethods are those of the own route of the program.
var OwnMethods = []string{"POST", "PUT", "PATCH", "DELETE"}

// OwnStatus is the status of its responses.
const OwnStatus = 299

// Echo is what it got.
type Echo struct {
	Method, URI, A, B string
	Header            http.Header
	Body              []byte
	Err               string
}

// Own is a request to the own route of the program.
type Own struct {
	Method string
	Path   string
	Body   gen.Bin
	Repeat int
	Gzip   bool `json:",omitempty"`
	Cut    int  `json:",omitempty"` // that many bytes of the compressed body are missing
	Bad    bool `json:",omitempty"` // it is not compressed
	Chunk  int  `json:",omitempty"`
	Mid    int
	Header map[string]string `json:",omitempty"`
}

// DrawOwn draws a request.
func DrawOwn(rt *rapid.T) Own {
	o := Own{
		Method: rapid.SampledFrom(OwnMethods).Draw(rt, "method"),
		Path:   "/own/" + rapid.StringMatching("[a-z0-9]{1,8}/[a-z0-9./_-]{0,9}([?][a-z]=[a-z0-9%]{0,0}[a-z0-9]{0,5}(&x)?)?").Draw(rt, "path"),
		Body:   gen.Bin(rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(rt, "body")),
		Repeat: rapid.SampledFrom([]int{1, 1, 1, 2, 40, 1000}).Draw(rt, "repeat"),
		Gzip:   rapid.Bool().Draw(rt, "gzip"),
		Chunk:  rapid.SampledFrom([]int{0, 0, 7, 1000}).Draw(rt, "chunk"),
		Mid:    rapid.IntRange(Pass, Block).Draw(rt, "mid"),
		Header: map[string]string{},
	}
	// other than these are cleaned
	for strings.Contains(o.Path, "//") || strings.Contains(o.Path, "/.") || strings.Contains(o.Path, "./") {
		o.Path = strings.NewReplacer("//", "/x", "/.", "/x", "./", "x/").Replace(o.Path)
	}
	if o.Gzip {
		switch rapid.IntRange(0, 5).Draw(rt, "how") {
		case 0:
			o.Cut = rapid.IntRange(1, 300).Draw(rt, "cut")
		case 1:
			o.Bad = true
		}
	}
	for range rapid.IntRange(0, 3).Draw(rt, "headers") {
		k := rapid.SampledFrom([]string{"X-A", "Accept", "Content-Type", "Authorization", "X-B3-Traceid", "Cookie", "Accept-Encoding", "User-Agent"}).Draw(rt, "header")
		o.Header[k] = rapid.StringMatching("[a-zA-Z0-9=/;_-]{1,20}").Draw(rt, "headerValue")
	}
	return o
}

// SendOwn sends the request and checks the answer.
func (c *Client) SendOwn(o Own) error {
	doc := bytes.Repeat([]byte(o.Body), o.Repeat)
	sent := doc
	switch {
	case o.Bad:
		sent = append([]byte("no"), doc...)
	case o.Gzip:
		sent = compress(doc, 1)
		sent = sent[:max(0, len(sent)-o.Cut)]
	}
	var body io.Reader = bytes.NewReader(sent)
	if o.Chunk > 0 {
		body = &slow{data: sent, chunk: o.Chunk}
	}
	req, err := http.NewRequest(o.Method, "http://"+c.p.Addr+o.Path, body)
	if err != nil {
		return engine.HarnessError(err)
	}
	for k, v := range o.Header {
		req.Header.Set(k, v)
	}
	if o.Gzip {
		req.Header.Set("Content-Encoding", "gzip")
	}
	switch o.Mid {
	case Peek:
		req.Header.Set("X-Peek", "1")
	case Block:
		req.Header.Set("X-Block", "1")
	}
	what := fmt.Sprintf("%s %s with %d bytes (%+v)", o.Method, o.Path, len(doc), o)
	if len(what) > 1500 {
		what = what[:1500]
	}
	resp, err := c.http.Do(req)
	if err != nil {
		if Lost(err) && c.p.Running() {
			return nil
		}
		return fmt.Errorf("%s: %v", what, err)
	}
	defer resp.Body.Close()
	answer, err := io.ReadAll(resp.Body)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	reached := !o.Bad && len(sent) >= 10 || !o.Gzip
	status := OwnStatus
	switch {
	case !reached:
		status = http.StatusBadRequest
	case o.Mid == Block:
		status = http.StatusForbidden
	}
	if resp.StatusCode != status {
		return fmt.Errorf("%s: status %d, want %d: %.300s", what, resp.StatusCode, status, answer)
	}
	if got := resp.Header.Get("X-Reached") != ""; got != reached {
		return fmt.Errorf("%s: handler around the others got it: %v, want %v", what, got, reached)
	}
	if got := resp.Header.Get("X-Peek"); o.Mid == Peek && reached && o.Cut == 0 && got != Sum(doc) {
		return fmt.Errorf("%s: handler around the others got a body %s, want %s", what, got, Sum(doc))
	}
	if status != OwnStatus {
		return nil
	}
	var e Echo
	if err := json.Unmarshal(answer, &e); err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	if (e.Err != "") != (o.Cut > 0) {
		return fmt.Errorf("%s: reading the body failed with %q, the compressed body misses %d bytes", what, e.Err, o.Cut)
	}
	if o.Cut == 0 && !bytes.Equal(e.Body, doc) || !bytes.HasPrefix(doc, e.Body) {
		return fmt.Errorf("%s: route got another body of %d bytes", what, len(e.Body))
	}
	path, _, _ := strings.Cut(o.Path, "?")
	a, b, _ := strings.Cut(strings.TrimPrefix(path, "/own/"), "/")
	if e.Method != o.Method || e.URI != o.Path || e.A != a || e.B != "/"+b {
		return fmt.Errorf("%s: route got %s %s, parameters %q and %q", what, e.Method, e.URI, e.A, e.B)
	}
	for k, v := range o.Header {
		if got := e.Header.Values(k); len(got) != 1 || got[0] != v {
			return fmt.Errorf("%s: route got header %s: %q, want %q", what, k, got, v)
		}
	}
	if o.Gzip {
		if got := e.Header.Values("Content-Encoding"); len(got) > 0 {
			return fmt.Errorf("%s: route got a decompressed body, but header Content-Encoding: %q", what, got)
		}
		if got := e.Header.Get("Content-Length"); got != "" && got != fmt.Sprint(len(doc)) {
			return fmt.Errorf("%s: route got a decompressed body of %d bytes, but header Content-Length: %q", what, len(doc), got)
		}
	}
	return nil
}
