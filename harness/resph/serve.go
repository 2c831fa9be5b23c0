package resph

import (
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"net/http/httptest"
	"net/url"
	"slices"
	"strconv"
	"strings"

	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zverif/bodyh"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"pgregory.net/rapid"
)

var errClosed = fs.ErrClosed

// KV is a header with its values.
type KV struct {
	K string   `json:"k"`
	V []string `json:"v"`
}

// ServeCase serves one response to one client connection.
type ServeCase struct {
	Body   BSpec    `json:"body"`
	Status int      `json:"status"`
	Hdrs   []KV     `json:"hdrs,omitempty"`
	Push   []string `json:"push,omitempty"`
	Conn   WSpec    `json:"conn"`
	Err    int      `json:"err,omitempty"`  // the error the response remembers
	Wrap   string   `json:"wrap,omitempty"` // method of the request if the connection is wrapped by response.NewWriter
}

var statuses = []int{200, 200, 201, 204, 206, 299, 300, 301, 304, 399, 400, 404, 418, 499, 500, 503, 599, 600, 999}

// GenStatus draws a final status.
func GenStatus(t *rapid.T) int {
	if core.Chance(t, 3) {
		return rapid.IntRange(200, 999).Draw(t, "status")
	}
	return core.Pick(t, statuses)
}

var hdrNames = []string{"X-A", "X-B", "Set-Cookie", "Vary", "Etag", "Content-Type", "Content-Language", "Cache-Control", "X-Pre", "Link", "Pushed", "X-Push", ""}

// otherNames are names that some code might treat in a special way.
var otherNames = []string{
	"Accept-Ranges", "Access-Control-Allow-Origin", "Access-Control-Expose-Headers", "Age", "Allow", "Alt-Svc", "Authorization", "Content-Disposition",
	"Content-Encoding", "Content-Location", "Content-Md5", "Content-Range", "Content-Security-Policy", "Digest", "Expires", "Last-Modified", "Location",
	"P3p", "Pragma", "Proxy-Authenticate", "Refresh", "Repr-Digest", "Retry-After", "Server", "Server-Timing", "Sourcemap", "Status", "Strict-Transport-Security",
	"Timing-Allow-Origin", "Tk", "Via", "Warning", "Www-Authenticate", "X-Accel-Redirect", "X-Content-Type-Options", "X-Forwarded-For", "X-Frame-Options",
	"X-Powered-By", "X-Request-Id", "X-Robots-Tag", "X-Sendfile", "X-Xss-Protection", "Priority", "Origin", "Referer", "Cookie", "Host", "Set-Cookie2",
}

func genValues(t *rapid.T) []string {
	most := 4
	if core.Chance(t, 15) {
		most = 20
	}
	out := rapid.SliceOfN(rapid.SampledFrom([]string{"", "a", "b", "a, b", "x=1; y=2", "é", "same", "same", "text/plain", "\"q\"", "W/\"w\""}), 1, most).Draw(t, "values")
	if core.Chance(t, 12) {
		out[len(out)-1] = strings.Repeat("long value ", core.Pick(t, []int{3, 12, 100, 500})) + "."
	}
	return out
}

// GenHeaders draws response headers.
func GenHeaders(t *rapid.T) (out []KV) {
	out = GenEndHeaders(t)
	if core.Chance(t, 12) {
		out = append(out, KV{"X-Space", []string{core.Pick(t, []string{" ", " x", "x ", "\tx\t", "a  b"})}})
	}
	if core.Chance(t, 12) {
		name := http.CanonicalHeaderKey(core.Pick(t, hopNames))
		if core.Chance(t, 3) {
			name = "Content-Length"
		}
		out = append(out, KV{name, []string{core.Pick(t, []string{"", "0", "12", "chunked", "gzip", "close", "identity", "-1", "X-A", "Thu, 01 Jan 1970 00:00:00 GMT"})}})
	}
	return
}

// GenEndHeaders draws response headers that servers and clients pass on.
func GenEndHeaders(t *rapid.T) (out []KV) {
	n := core.Uniform(t, 5)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := core.Pick(t, hdrNames)
		if k == "" {
			k = core.Pick(t, otherNames)
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, KV{k, genValues(t)})
		}
	}
	if core.Chance(t, 12) {
		for n := core.Pick(t, []int{9, 15, 17, 33, 70}); n > 0; n-- {
			out = append(out, KV{fmt.Sprintf("X-Many-%d", n), []string{strconv.Itoa(n)}})
		}
	}
	if core.Chance(t, 12) {
		out = append(out, KV{"X-" + strings.Repeat("Long-", core.Pick(t, []int{6, 12, 50})) + "Name", []string{"v"}})
	}
	return
}

// GenServe draws a response and a connection; anything may fail if fail is set.
func GenServe(t *rapid.T, fail bool) ServeCase { return genServe(t, fail, false) }

// GenLargeServe draws a response of megabytes.
func GenLargeServe(t *rapid.T, fail bool) ServeCase { return genServe(t, fail, true) }

func genServe(t *rapid.T, fail, bulk bool) ServeCase {
	c := ServeCase{Body: GenBSpec(t, fail && core.Chance(t, 2), core.Chance(t, 2)), Status: GenStatus(t), Hdrs: GenHeaders(t)}
	if bulk {
		c.Body.Src = bodyh.GenSource(t, bodyh.GenOpts{Bulk: true, Faults: fail && core.Chance(t, 4)})
		if !fail {
			c.Body.Src.CloseErr = false
		}
	}
	c.Conn = GenWSpec(t, c.Body.Src.Len, fail && core.Chance(t, 2))
	if core.Chance(t, 2) {
		most := 4
		if core.Chance(t, 8) {
			most = 30
		}
		c.Push = rapid.SliceOfN(rapid.SampledFrom([]string{"/a.css", "/b.js", "/a.css", "https://example.com/x?y=z", "", "/" + strings.Repeat("long/", 30), "relative.css", "//host/x", "/é"}), 1, most).Draw(t, "push")
		results := []int{0, 0, 0, 2, 3}
		if fail {
			results = []int{0, 0, 0, 1, 2, 3}
		}
		c.Conn.Pushes = rapid.SliceOfN(rapid.SampledFrom(results), 0, 4).Draw(t, "pushes")
		if fail {
			c.Conn.PushErr = core.GenErr(t, true)
		}
	}
	if fail && core.Chance(t, 6) {
		c.Conn.Panic = core.Pick(t, []string{"header", "write", "push"})
	}
	if core.Chance(t, 4) {
		c.Wrap = GenMethod(t)
		if c.Wrap == "" {
			c.Wrap = "GET"
		}
	}
	if bulk {
		c.Conn.Chunk = max(c.Conn.Chunk, 512)
	}
	c.Conn.Adds = core.Chance(t, 4)
	c.Err = core.GenErr(t, true)
	return c
}

// Respond builds the response.
func (c *ServeCase) Respond(b *Bod) *response.Response {
	bld := response.NewBuilder().WithStatus(c.Status).WithBody(b.Body)
	if c.Err != 0 {
		bld.WithError(core.Err(c.Err, nil))
	}
	for _, kv := range c.Hdrs {
		for i, v := range kv.V {
			bld.WithHeader(kv.K, v, i > 0)
		}
	}
	for _, p := range c.Push {
		bld.WithHeader("Push", p, true)
	}
	return bld.Build()
}

// Request is a request with a method.
//
// The method may be followed by a slash and a number, whose bits decide about
// the parts of the request that must not matter.
func Request(spec string) *http.Request {
	method, bits, _ := strings.Cut(spec, "/")
	x, _ := strconv.Atoi(bits)
	req := httptest.NewRequest("GET", "/", nil)
	req.Method = method
	if x&1 != 0 {
		req.Header.Set("Range", "bytes=1-2")
		req.Header.Set("If-None-Match", "*")
	}
	if x&2 != 0 {
		req.Header.Set("Accept-Encoding", "gzip, br")
		req.Header.Set("Accept", "text/html")
	}
	if x&4 != 0 {
		req.Header.Set("Connection", "Upgrade")
		req.Header.Set("Upgrade", "websocket")
	}
	if x&8 != 0 {
		req.Proto, req.ProtoMajor, req.ProtoMinor = "HTTP/1.0", 1, 0
		req.Close = true
	}
	if x&16 != 0 {
		req.Proto, req.ProtoMajor, req.ProtoMinor = "HTTP/2.0", 2, 0
		req.TLS = &tls.ConnectionState{}
	}
	if x&32 != 0 {
		req.Body = io.NopCloser(strings.NewReader("a request body"))
		req.ContentLength = 14
	}
	if x&64 != 0 {
		ctx, cancel := context.WithCancel(req.Context())
		cancel()
		req = req.WithContext(ctx) // the client has gone
	}
	switch x >> 7 {
	case 1:
		req.URL.Path, req.RequestURI = "/metrics", "/metrics"
	case 2:
		req.URL.Path, req.RequestURI = "/healthz", "/healthz"
		req.Header.Set("User-Agent", "kube-probe/1.29")
		req.RemoteAddr, req.Host = "127.0.0.1:5", "localhost"
	case 3:
		req.URL.Path, req.RequestURI = "/favicon.ico", "/favicon.ico"
		req.RemoteAddr, req.Host = "[::1]:6", ""
	case 4:
		req.URL.RawQuery, req.RequestURI = "debug=1&pretty=1&callback=x", "/?debug=1&pretty=1&callback=x"
		req.Header.Set("X-Requested-With", "XMLHttpRequest")
	case 5:
		req.URL = &url.URL{Path: "*"}
		req.RequestURI = "*"
		req.Header.Set("Expect", "100-continue")
	case 6:
		req.Header.Set("X-Http-Method-Override", "HEAD")
		req.Header.Set("X-Forwarded-For", "10.0.0.1")
		req.Header.Set("X-Forwarded-Proto", "https")
		req.Header.Set("Purpose", "prefetch")
		req.Header.Set("Te", "trailers")
	case 7:
		req.Header.Set("If-Modified-Since", "Thu, 01 Jan 2099 00:00:00 GMT")
		req.Header.Set("If-Match", "\"x\"")
		req.Header.Set("Cache-Control", "no-cache")
		req.Header.Set("Cookie", "a=b")
		req.Header.Set("Authorization", "Basic eDp5")
		req.Header.Set("Origin", "https://example.com")
	case 8:
		req.Proto, req.ProtoMajor, req.ProtoMinor = "HTTP/3.0", 3, 0
	case 9:
		req.ContentLength, req.TransferEncoding = -1, []string{"chunked"}
		req.Body = io.NopCloser(strings.NewReader("of unknown length"))
	case 10:
		req.Header.Set("Content-Type", "multipart/form-data; boundary=x")
		req.Trailer = http.Header{"X-Sum": nil}
	case 11:
		req.Close = true
		req.Header.Set("Connection", "close")
	case 12:
		req.URL.Path = "/" + strings.Repeat("a/../", 500)
		req.RequestURI = req.URL.Path
	case 13:
		req.RemoteAddr, req.RequestURI = "", ""
		req.Header = http.Header{}
	case 14:
		req.ContentLength = 1 << 40
		req.Header.Set("Content-Encoding", "gzip")
	case 15:
		req.Header.Set("Sec-Fetch-Mode", "navigate")
		req.Header.Set("User-Agent", "curl/8.5.0")
		req.Header.Set("If-Range", "\"x\"")
		req.URL.User = url.User("u")
	}
	return req
}

// IsHead tells whether a request is a HEAD request.
func IsHead(spec string) bool {
	method, _, _ := strings.Cut(spec, "/")
	return method == "HEAD"
}

// GenMethod draws a request.
func GenMethod(t *rapid.T) string {
	m := core.Pick(t, []string{"GET", "GET", "GET", "POST", "HEAD", "HEAD", "OPTIONS", "PUT", "DELETE", "PATCH", "CONNECT", "TRACE", "head", "X-HEAD", ""})
	if core.Chance(t, 2) {
		m += fmt.Sprintf("/%d", core.Uniform(t, 2048))
	}
	return m
}

func runServe(c ServeCase, o *core.Obs) error {
	b, err := c.Body.Open()
	if err != nil {
		o.Label("body not built")
		return nil
	}
	resp := c.Respond(b)
	want := resp.Headers().Clone()
	conn := c.Conn.Conn()
	w := conn.W()
	suppressed := false
	if c.Wrap != "" {
		w = response.NewWriter(w, Request(c.Wrap))
		suppressed = IsHead(c.Wrap) || c.Status == 204
	}
	var serr error
	pv, panicked := core.Try(func() { serr = resp.Serve(w) })

	// What must have happened.
	pushes := conn.Events("push")
	var wantPush []string
	pushFailed, pushPanicked := false, false
	if c.Conn.Caps&CapPush != 0 {
		for i, url := range c.Push {
			wantPush = append(wantPush, url)
			if c.Conn.Panic == "push" {
				pushPanicked = true
				break
			}
			if i < len(c.Conn.Pushes) && c.Conn.Pushes[i] == 1 {
				pushFailed = true
				break
			}
		}
	}
	if len(pushes) != len(wantPush) {
		return fmt.Errorf("%d pushes instead of %d", len(pushes), len(wantPush))
	}
	for i, e := range pushes {
		if e.URL != wantPush[i] {
			return fmt.Errorf("push %d is %q instead of %q", i, e.URL, wantPush[i])
		}
	}
	for i, e := range conn.events {
		if e.Kind == "push" && i >= len(pushes) {
			return fmt.Errorf("push after %s", conn.events[i-1].Kind)
		}
	}

	if !slices.EqualFunc([]http.Header{resp.Headers()}, []http.Header{want}, func(a, b http.Header) bool { return headersEqual(a, b) }) {
		return fmt.Errorf("serving changed the headers of the response from %v to %v", want, resp.Headers())
	}

	headers := conn.Events("header")
	sent := conn.Body()
	if pushFailed || pushPanicked {
		if len(headers) != 0 || len(conn.Events("implicit", "body")) != 0 {
			return fmt.Errorf("a header or body was sent although a push failed")
		}
	} else {
		if len(headers) != 1 || headers[0].Status != c.Status {
			return fmt.Errorf("status %d was sent as %v", c.Status, headers)
		}
		if len(conn.Events("implicit")) != 0 {
			return fmt.Errorf("the body was sent before the header")
		}
		got := headers[0].Hdrs
		for k, vs := range want {
			if k == "Push" {
				continue
			}
			if !slices.Equal(vs, got[k]) {
				return fmt.Errorf("header %s: %q was sent as %q", k, vs, got[k])
			}
		}
		for k, vs := range got {
			if _, ok := want[k]; k == "Push" || (!ok && !(c.Conn.Pre && (k == "X-Pre" || k == "Cache-Control"))) {
				return fmt.Errorf("header %s: %q was sent but is not part of the response", k, vs)
			}
		}
		if c.Conn.Pre && want["X-Pre"] == nil && !slices.Equal(got["X-Pre"], []string{"kept"}) {
			return fmt.Errorf("a header of the connection was changed: %q", got["X-Pre"])
		}
	}

	if suppressed {
		if len(sent) != 0 {
			return fmt.Errorf("a body was sent for %s, status %d", c.Wrap, c.Status)
		}
	} else if !bytes.HasPrefix(b.Want, sent) {
		return fmt.Errorf("%d body bytes were sent that are not the remaining bytes of the body (%d bytes)", len(sent), len(b.Want))
	}

	// The body is closed exactly once.
	if n, ok := b.Closes(); ok && n != 1 {
		return fmt.Errorf("the body was closed %d times (error %v, panicked %v)", n, serr, panicked)
	}
	if b.log != nil && b.log.late > 0 {
		return fmt.Errorf("the body was used after being closed")
	}
	failsBefore := b.opened.Raised()
	certain, errs := b.Failures()
	if !b.IsClosed() {
		return fmt.Errorf("the body was not closed (error %v, panicked %v)", serr, panicked)
	}
	if b.opened.Raised() != failsBefore {
		return fmt.Errorf("the source is used after the body was closed")
	}

	// Result.
	if pushFailed {
		certain, errs = true, append(errs, c.Conn.PushFailure())
	}
	if conn.Failed() > 0 {
		certain, errs = true, append(errs, c.Conn.ConnErr())
	}
	mayPanic := pushPanicked || (c.Conn.Panic == "header" && len(headers) > 0) || (c.Conn.Panic == "write" && len(conn.Events("body")) > 0) || (b.log != nil && b.log.fails > 0 && c.Body.Fail == 2)
	if panicked && !mayPanic {
		return fmt.Errorf("Serve panicked: %v", pv)
	}
	o.LabelIf(panicked, "panic of the connection or body")
	o.LabelIf(mayPanic && !panicked, "panic turned into an error")
	if !panicked {
		if serr == nil {
			if certain || mayPanic {
				return fmt.Errorf("Serve returned nil although something failed: %v", errs)
			}
			if !suppressed && len(sent) != len(b.Want) {
				return fmt.Errorf("Serve returned nil but sent %d of %d body bytes", len(sent), len(b.Want))
			}
		} else if !mayPanic {
			if len(errs) == 0 {
				return fmt.Errorf("Serve returned %v although nothing failed", serr)
			}
			match := false
			for _, e := range errs {
				match = match || errors.Is(serr, e)
			}
			if conn.Failed() > 0 && c.Conn.Style == 3 {
				match = true // a short write without an error of its own
			}
			if !match {
				return fmt.Errorf("Serve returned %v instead of one of %v", serr, errs)
			}
			if pushFailed && !errors.Is(serr, c.Conn.PushFailure()) {
				return fmt.Errorf("Serve returned %v although a push failed first", serr)
			}
		}
	}
	o.LabelIf(pushFailed, "push failed")
	o.LabelIf(len(pushes) > 0, "pushed")
	o.LabelIf(conn.Failed() > 0, "write failed")
	o.LabelIf(serr == nil && !panicked, "served")
	o.LabelIf(c.Conn.Caps&CapReadFrom != 0, "connection with ReadFrom")
	o.LabelIf(c.Wrap != "", "wrapped")
	for _, e := range errs {
		o.Label("failure: %v", e)
	}
	if len(b.Want) > 0 || len(c.Push) > 0 {
		o.NonTrivial()
	}
	if b.held != nil {
		b.held.Close()
	}
	return nil
}

// headersEqual compares headers; an absent key and one without values differ.
func headersEqual(a, b http.Header) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !slices.Equal(v, w) {
			return false
		}
	}
	return true
}

func init() {
	core.Register(&core.Check{
		ID:          "C23",
		Rule:        "a case is a response (status, headers, push list, body of any kind, possibly partly read, shared or failing) and a client connection (one of 64 capability sets, failing, short, panicking, adding headers) it is served to, directly or through the wrapper, or an httptest.ResponseRecorder behind handlers of net/http; non-trivial if there is a body or a push list",
		Assumptions: []string{"writers do not report counts outside 0 to the number of bytes offered"},
		Targets: []*core.Target{core.New("serve", 60000, func(t *rapid.T) ServeCase { return GenServe(t, core.Uniform(t, 4) > 0) }, runServe),
			core.New("large", 240, func(t *rapid.T) ServeCase { return GenLargeServe(t, core.Uniform(t, 3) == 0) }, runServe),
			core.New("recorders", 12000, genRecord, runRecord)},
	})
}
