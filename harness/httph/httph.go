// Package httph checks the adaptor end to end, below real HTTP servers.
package httph

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/handler"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"github.com/chronos-tachyon/morehttp/zverif/resph"
	"pgregory.net/rapid"
)

// Case is a server with some responses and the requests made to it.
type Case struct {
	Proto string            `json:"proto"` // h1, h2, h10
	TCP   bool              `json:"tcp,omitempty"`
	Par   bool              `json:"par,omitempty"`
	Resps []resph.ServeCase `json:"resps"` // body, status, headers and push list are used
	Reqs  []Req             `json:"reqs"`
}

// Req is a request.
type Req struct {
	Resp   int    `json:"resp"` // index; requests with the same one are served copies of it
	Method string `json:"method"`
	Up     int    `json:"up,omitempty"`    // bytes of request body
	Chunk  int    `json:"chunk"`           // read size of the client
	Abort  int64  `json:"abort,omitempty"` // if not 0, the client goes away after so many bytes
	Stall  bool   `json:"stall,omitempty"` // the client reads the body only when the others are done
	Panic  bool   `json:"panic,omitempty"` // the handler panics instead
	Shape  int    `json:"shape,omitempty"` // what else the request has, see resph.Request
}

func gen(race bool) func(t *rapid.T) Case {
	return func(t *rapid.T) Case {
		c := Case{Proto: core.Pick(t, []string{"h1", "h1", "h2", "h2", "h10"}), TCP: core.Chance(t, 4)}
		fail := core.Chance(t, 2)
		c.Par = race || core.Chance(t, 2)
		nr := 1 + core.Uniform(t, 3)
		n := nr + core.Uniform(t, 5)
		if race {
			n += 2
		}
		uses := make([]int, nr)
		for i := 0; i < n; i++ {
			r := Req{Method: core.Pick(t, []string{"GET", "GET", "GET", "GET", "POST", "POST", "HEAD", "HEAD", "PUT", "OPTIONS", "DELETE", "PATCH"}), Chunk: core.Pick(t, []int{1 << 16, 4096, 1000, 65537, 300})}
			if i < nr {
				r.Resp = i
			} else {
				r.Resp = core.Uniform(t, nr)
			}
			if core.Chance(t, 3) {
				r.Shape = core.Uniform(t, 2048)
			}
			// A connection closed over unread input is reset, and data in flight lost.
			reset := c.TCP && c.Proto == "h10"
			if !reset && (r.Method == "POST" || r.Method == "PUT" || r.Method == "PATCH") {
				r.Up = core.Pick(t, []int{0, 1, 100, 5000})
			}
			switch core.Uniform(t, 12) {
			case 11:
				r.Abort = 1 + rapid.Int64Range(0, 100000).Draw(t, "abort")
			case 10, 9:
				r.Stall = c.Par
			case 8:
				r.Panic = true
			}
			if !r.Panic {
				uses[r.Resp]++
			}
			c.Reqs = append(c.Reqs, r)
		}
		for i := 0; i < nr; i++ {
			s := resph.ServeCase{Body: resph.GenBSpec(t, fail && core.Chance(t, 2), core.Chance(t, 2)), Status: resph.GenStatus(t), Hdrs: resph.GenEndHeaders(t)}
			if core.Chance(t, 4) {
				s.Push = []string{"/a.css", "/b.js"}
			}
			s.Err = core.GenErr(t, true)
			if core.Uniform(t, 4) > 0 {
				s.Status = 200
			}
			if uses[i] > 1 {
				s.Body.Tracked, s.Body.Fail, s.Body.Unknown, s.Body.CloseErr = false, 0, false, false
			}
			if s.Body.Src.KnownLen() < 0 || s.Body.Unknown {
				// Recorded finding chunked-truncation.
				s.Body.Fail, s.Body.Src.Fault.Kind = 0, ""
			}
			c.Resps = append(c.Resps, s)
		}
		return c
	}
}

// pipeListener hands out the server ends of in-memory connections.
type pipeListener struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

type pipeAddr struct{}

func (pipeAddr) Network() string { return "pipe" }
func (pipeAddr) String() string  { return "pipe" }

func (l *pipeListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

func (l *pipeListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *pipeListener) Addr() net.Addr { return pipeAddr{} }

func (l *pipeListener) dial(ctx context.Context, network, addr string) (net.Conn, error) {
	a, b := net.Pipe()
	select {
	case l.ch <- a:
		return b, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

// serve starts a server and makes a transport for it.
func serve(proto string, tcp bool, h http.Handler) (http.RoundTripper, string, func(), error) {
	var protocols http.Protocols
	if proto == "h2" {
		protocols.SetUnencryptedHTTP2(true)
	} else {
		protocols.SetHTTP1(true)
	}
	srv := &http.Server{Handler: h, ErrorLog: log.New(io.Discard, "", 0), Protocols: &protocols}
	tr := &http.Transport{DisableCompression: true, Protocols: &protocols}
	var l net.Listener
	addr := "pipe"
	if tcp {
		var err error
		if l, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
			return nil, "", nil, err
		}
		addr = l.Addr().String()
	} else {
		pl := &pipeListener{ch: make(chan net.Conn), done: make(chan struct{})}
		l = pl
		tr.DialContext = pl.dial
	}
	ended := make(chan struct{})
	go func() {
		srv.Serve(l)
		close(ended)
	}()
	if proto == "h10" {
		dial := tr.DialContext
		if dial == nil {
			dial = (&net.Dialer{}).DialContext
		}
		return &oldClient{dial}, "http://" + addr + "/", func() {
			srv.Close()
			<-ended
		}, nil
	}
	return tr, "http://" + addr + "/", func() {
		tr.CloseIdleConnections()
		srv.Close()
		<-ended
	}, nil
}

// oldClient makes HTTP/1.0 requests, each over a connection of its own.
type oldClient struct {
	dial func(ctx context.Context, network, addr string) (net.Conn, error)
}

func (c *oldClient) RoundTrip(req *http.Request) (*http.Response, error) {
	ctx := req.Context()
	conn, err := c.dial(ctx, "tcp", req.URL.Host)
	if err != nil {
		return nil, err
	}
	stop := context.AfterFunc(ctx, func() { conn.Close() })
	var msg bytes.Buffer
	fmt.Fprintf(&msg, "%s %s HTTP/1.0\r\n", req.Method, req.URL.RequestURI())
	req.Header.Write(&msg)
	if req.Body != nil {
		up, _ := io.ReadAll(req.Body)
		fmt.Fprintf(&msg, "Content-Length: %d\r\n\r\n%s", len(up), up)
	} else {
		msg.WriteString("\r\n")
	}
	go conn.Write(msg.Bytes())
	res, err := http.ReadResponse(bufio.NewReader(conn), req)
	if err != nil {
		stop()
		conn.Close()
		if ctx.Err() != nil {
			err = ctx.Err()
		}
		return nil, err
	}
	res.Body = &oldBody{res.Body, ctx, conn, stop}
	return res, nil
}

type oldBody struct {
	io.ReadCloser
	ctx  context.Context
	conn net.Conn
	stop func() bool
}

func (b *oldBody) Read(p []byte) (int, error) {
	n, err := b.ReadCloser.Read(p)
	if err != nil && b.ctx.Err() != nil {
		err = b.ctx.Err()
	}
	return n, err
}

func (b *oldBody) Close() error {
	b.stop()
	return b.conn.Close()
}

const idHeader = "X-Case-Request"

// response on the server's side.
type entry struct {
	mu     sync.Mutex
	spec   *resph.ServeCase
	bod    *resph.Bod
	resp   *response.Response
	known  int64
	uses   int // requests still to come
	copies error
}

var hookOnce sync.Once

// patience is how long a client waits for a response; cases take milliseconds.
const patience = 150 * time.Second

func run(c Case, o *core.Obs) error {
	hookOnce.Do(func() { handler.OnPanic = func(error) {} })
	entries := make([]*entry, len(c.Resps))
	for i := range c.Resps {
		e := &entry{spec: &c.Resps[i]}
		b, err := e.spec.Body.Open()
		if err != nil {
			o.Label("body not built")
			return nil
		}
		e.bod = b
		e.known = b.Body.BytesRemaining()
		if e.spec.Body.Src.Fault.Kind != "" && e.known >= 0 && e.known != int64(len(b.Want)) {
			// The source failed while the first bytes were read off, and the body knows.
			panic(core.Abandon{Label: "failed before being served"})
		}
		e.resp = e.spec.Respond(b)
		entries[i] = e
	}
	for _, r := range c.Reqs {
		if !r.Panic {
			entries[r.Resp].uses++
		}
	}
	var mu sync.Mutex
	served := make([]int, len(c.Reqs))
	var copyErr error
	var handlers sync.WaitGroup
	inner := handler.HandlerFunc(func(req *http.Request) response.Response {
		i, _ := strconv.Atoi(req.Header.Get(idHeader))
		r := &c.Reqs[i]
		mu.Lock()
		served[i]++
		again := served[i] > 1
		mu.Unlock()
		if r.Panic || again {
			panic("handler panic")
		}
		e := entries[r.Resp]
		e.mu.Lock()
		defer e.mu.Unlock()
		e.uses--
		if e.uses == 0 {
			return *e.resp
		}
		cp, err := e.resp.Copy()
		if err != nil {
			mu.Lock()
			copyErr = err
			mu.Unlock()
			panic(err)
		}
		return *cp
	})
	adaptor := handler.Adaptor{Inner: inner}
	tr, url, stop, err := serve(c.Proto, c.TCP, http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		handlers.Add(1)
		defer handlers.Done()
		adaptor.ServeHTTP(w, req)
	}))
	if err != nil {
		panic(core.Abandon{Label: "no server: " + err.Error()})
	}
	stopped := false
	defer func() {
		if !stopped {
			stop()
		}
	}()

	errs := make([]error, len(c.Reqs))
	if c.Par {
		var all, quick sync.WaitGroup
		quickDone := make(chan struct{})
		for i := range c.Reqs {
			all.Add(1)
			if !c.Reqs[i].Stall {
				quick.Add(1)
			}
			go func(i int) {
				defer all.Done()
				if c.Reqs[i].Stall {
					errs[i] = client(&c, i, tr, url, entries[c.Reqs[i].Resp], quickDone, o)
					return
				}
				defer quick.Done()
				errs[i] = client(&c, i, tr, url, entries[c.Reqs[i].Resp], nil, o)
			}(i)
		}
		quick.Wait()
		close(quickDone)
		all.Wait()
	} else {
		for i := range c.Reqs {
			if errs[i] = client(&c, i, tr, url, entries[c.Reqs[i].Resp], nil, o); errs[i] != nil {
				break
			}
		}
	}
	stop()
	stopped = true
	handlers.Wait()
	for _, e := range entries {
		if e.uses > 0 {
			e.resp.Body().Close()
		}
		e.bod.Release()
	}
	for i := range served {
		if served[i] > 1 {
			panic(core.Abandon{Label: "request repeated by the client"})
		}
	}
	if copyErr != nil {
		return fmt.Errorf("copying a response: %v", copyErr)
	}
	for i, err := range errs {
		if err != nil {
			return fmt.Errorf("request %d (%s, response %d): %v", i, c.Reqs[i].Method, c.Reqs[i].Resp, err)
		}
	}
	return nil
}

// client makes one request and judges what comes back.
func client(c *Case, i int, tr http.RoundTripper, url string, e *entry, wait chan struct{}, o *core.Obs) error {
	r := &c.Reqs[i]
	ctx, cancel := context.WithTimeout(context.Background(), patience)
	defer cancel()
	var up io.Reader
	if r.Up > 0 {
		up = bytes.NewReader(make([]byte, r.Up))
	}
	req, err := http.NewRequestWithContext(ctx, r.Method, url, up)
	if err != nil {
		return err
	}
	if r.Shape != 0 {
		like := resph.Request(fmt.Sprintf("GET/%d", r.Shape))
		for k, vs := range like.Header {
			if k != "Connection" && k != "Upgrade" && k != "Content-Encoding" && k != "Content-Type" && k != "Te" && k != "Expect" {
				req.Header[k] = vs
			}
		}
		if p := like.URL.Path; strings.HasPrefix(p, "/") {
			req.URL.Path, req.URL.RawQuery = p, like.URL.RawQuery
		}
		if c.Proto == "h10" && r.Shape&8 != 0 {
			req.Header.Set("Connection", "keep-alive")
		}
	}
	req.Header.Set(idHeader, strconv.Itoa(i))
	res, err := tr.RoundTrip(req)
	// A response may fail if its body may.
	failing := !r.Panic && (e.spec.Body.Fail != 0 || e.spec.Body.Src.Fault.Kind != "" || e.spec.Body.CloseErr)
	if err != nil {
		if errors.Is(err, context.DeadlineExceeded) {
			return fmt.Errorf("no response")
		}
		if failing {
			o.Label("no header received")
			return nil
		}
		return fmt.Errorf("the client got %v", err)
	}
	defer res.Body.Close()
	status, known := e.spec.Status, e.known
	want, hdrs := e.bod.Want, e.resp.Headers()
	if r.Panic {
		status, known, want, hdrs = 500, -1, nil, nil
	}
	if res.StatusCode != status {
		return fmt.Errorf("the client got status %d instead of %d", res.StatusCode, status)
	}
	bodyless := r.Method == "HEAD" || status == 204 || status == 304
	for k, vs := range hdrs {
		switch {
		case k == "Push", k == "Content-Length", status == 304 && k == "Content-Type":
			continue
		}
		if !slices.Equal(res.Header[k], vs) {
			return fmt.Errorf("the client got header %s: %q instead of %q", k, res.Header[k], vs)
		}
	}
	for k, vs := range res.Header {
		if _, ok := hdrs[k]; ok && k != "Push" {
			continue
		}
		switch k {
		case "Date", "Content-Length", "Connection":
		default:
			return fmt.Errorf("the client got header %s: %q that is not part of the response", k, vs)
		}
	}
	cl, hasCL := res.Header["Content-Length"]
	if status != 204 && status != 304 {
		switch {
		case known >= 0 && (!hasCL || !slices.Equal(cl, []string{strconv.FormatInt(known, 10)})):
			return fmt.Errorf("the client got Content-Length %q for %d bytes", cl, known)
		case known < 0 && hasCL && !failing && !slices.Equal(cl, []string{strconv.Itoa(len(want))}):
			return fmt.Errorf("the client got Content-Length %q for %d bytes", cl, len(want))
		}
	}
	if wait != nil {
		<-wait
		o.Label("stalled client")
	}
	var got []byte
	p := make([]byte, r.Chunk)
	for {
		q := p
		if r.Abort > 0 && int64(len(q)) > r.Abort-int64(len(got)) {
			q = q[:r.Abort-int64(len(got))]
		}
		var n int
		n, err = res.Body.Read(q)
		got = append(got, q[:n]...)
		if err != nil || (r.Abort > 0 && int64(len(got)) >= r.Abort) {
			break
		}
	}
	if bodyless {
		if len(got) > 0 {
			return fmt.Errorf("the client got a body of %d bytes", len(got))
		}
		o.Label("bodyless: %s %d", r.Method, status/100)
		return nil
	}
	if !bytes.HasPrefix(want, got) {
		return fmt.Errorf("the client got %d bytes that are not what was built (%d bytes)", len(got), len(want))
	}
	switch {
	case err == nil:
		o.Label("client aborted")
		return nil
	case err == io.EOF:
		if len(got) != len(want) {
			return fmt.Errorf("the client got a response that looks complete, with %d of %d bytes", len(got), len(want))
		}
	case errors.Is(err, context.DeadlineExceeded):
		return fmt.Errorf("the response did not end (%d of %d bytes)", len(got), len(want))
	case !failing:
		return fmt.Errorf("the client got %v after %d of %d bytes", err, len(got), len(want))
	default:
		o.Label("failed response seen as failed")
		o.NonTrivial()
		return nil
	}
	o.Label("%s complete", c.Proto)
	o.LabelIf(known < 0 && !r.Panic, "unknown length")
	if len(want) > 0 {
		o.NonTrivial()
	}
	return nil
}

type failing struct {
	body.Body
	n int
}

func (b *failing) Read(p []byte) (int, error) {
	if b.n == 0 {
		return 0, errors.New("failure")
	}
	b.n--
	return b.Body.Read(p[:1])
}

func (b *failing) BytesRemaining() int64 { return -1 }

// probeTruncation tests for the recorded defect: a response of unknown length whose
// body fails after the header was sent reaches the client as a complete one.
func probeTruncation() (present bool, what string, err error) {
	hookOnce.Do(func() { handler.OnPanic = func(error) {} })
	var seen []string
	for _, proto := range []string{"h1", "h2"} {
		tr, url, stop, err := serve(proto, false, handler.Adaptor{Inner: handler.HandlerFunc(func(*http.Request) response.Response {
			b := &failing{body.FromString("0123456789"), 5}
			return *response.NewBuilder().WithBody(b).Build()
		})})
		if err != nil {
			return false, "", err
		}
		got := func() string {
			defer stop()
			req, _ := http.NewRequest("GET", url, nil)
			res, err := tr.RoundTrip(req)
			if err != nil {
				return "error"
			}
			defer res.Body.Close()
			p, err := io.ReadAll(res.Body)
			if err != nil {
				return "error"
			}
			return string(p)
		}()
		switch got {
		case "error": // as it should be
		case "01234":
			seen = append(seen, proto)
		default:
			return false, "", fmt.Errorf("over %s, a response failing after 5 bytes was received as %q", proto, got)
		}
	}
	if len(seen) == 0 {
		return false, "", nil
	}
	return true, "a response of unknown length whose body fails after the header was sent looks complete to the client over " + strings.Join(seen, ", "), nil
}

func init() {
	core.Register(&core.Check{
		ID: "C28",
		Rule: "a case is a net/http server (HTTP/1.0, HTTP/1.1 or HTTP/2, over in-memory or loopback connections) with one to three responses over bodies of every kind, and up to nine requests of any method but CONNECT and TRACE, with all sorts of headers, made one after the other or at the same time, " +
			"several being served copies of one response, some by clients that stall or go away, some answered by a panicking handler, some by a body failing half-way; non-trivial if a client got all of a non-empty body or saw a failed one as failed",
		Assumptions: []string{"the net/http server and client are correct", "failures half-way are generated for known lengths only (recorded finding chunked-truncation), and for bodies that have not failed already when the response is built", "a client that waits 150 seconds will not get a response"},
		Targets: []*core.Target{
			core.New("http", 12000, gen(false), run),
			core.New("http-concurrent", 900, gen(true), run).WithRace(),
		},
		Findings: []core.Finding{{Key: "chunked-truncation", Probe: probeTruncation}},
	})
}
