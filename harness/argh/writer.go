package argh

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"strings"

	"github.com/chronos-tachyon/morehttp/handler"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zverif/bodyh"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"github.com/chronos-tachyon/morehttp/zverif/resph"
	"pgregory.net/rapid"
)

// reqImage is what a request looked like.
type reqImage struct {
	r       *http.Request
	copy    http.Request
	url     url.URL
	header  http.Header
	trailer http.Header
	body    *reqBody
	ctx     context.Context
}

var reqLens = []int64{14, 14, -1, -1, 0, 1, 1 << 40}

// reqBody is a request body that notices being used.
type reqBody struct {
	io.Reader
	reads, closes int
}

func (b *reqBody) Read(p []byte) (int, error) { b.reads++; return b.Reader.Read(p) }
func (b *reqBody) Close() error               { b.closes++; return nil }

const uploaded = "a request body"

// image gives a request a body of the given length (-1: not known), and remembers what it looks like.
func image(r *http.Request, length int64) *reqImage {
	b := &reqBody{Reader: strings.NewReader(uploaded)}
	r.Body, r.ContentLength = b, length
	if length < 0 {
		r.TransferEncoding = []string{"chunked"}
	}
	r.Trailer = http.Header{"X-Trailer": nil}
	return &reqImage{r: r, copy: *r, url: *r.URL, header: r.Header.Clone(), trailer: r.Trailer.Clone(), body: b, ctx: r.Context()}
}

func (im *reqImage) unchanged() error {
	r, c := im.r, &im.copy
	switch {
	case r.Method != c.Method, r.Proto != c.Proto, r.ProtoMajor != c.ProtoMajor, r.ProtoMinor != c.ProtoMinor,
		r.Host != c.Host, r.RemoteAddr != c.RemoteAddr, r.RequestURI != c.RequestURI, r.ContentLength != c.ContentLength,
		r.Close != c.Close, r.TLS != c.TLS, r.URL != c.URL, !reflect.DeepEqual(*r.URL, im.url):
		return fmt.Errorf("the request was changed from %+v to %+v", *c, *r)
	case !reflect.DeepEqual(r.Header, im.header), !reflect.DeepEqual(r.Trailer, im.trailer):
		return fmt.Errorf("the headers of the request were changed from %q to %q", im.header, r.Header)
	case r.Body != c.Body, im.body.reads != 0, im.body.closes != 0:
		return fmt.Errorf("the body of the request was used: %d reads, %d closes", im.body.reads, im.body.closes)
	case r.Context() != im.ctx:
		return fmt.Errorf("the context of the request was replaced")
	}
	return nil
}

// Writes is a history of operations on a wrapped connection.
type Writes struct {
	Req  string      `json:"req"`
	Len  int64       `json:"len"` // declared length of the request body
	Conn resph.WSpec `json:"conn"`
	Ops  []WOp       `json:"ops"`
}

// WOp is one of them.
type WOp struct {
	K string `json:"k"` // write, readfrom, string, push, flush, header
	N int    `json:"n,omitempty"`

	M string     `json:"m,omitempty"` // push: method
	H []resph.KV `json:"h,omitempty"` // push: headers; none at all if N is negative
}

// lender is a reader that takes back what it put into the buffer lent to it:
// it may do so, since a buffer of a Read is scratch space only during the call.
type lender struct {
	p []byte
}

func (r *lender) Read(p []byte) (int, error) {
	n := copy(p, r.p)
	for i := n; i < len(p); i++ {
		p[i] = 0x5a // all of the buffer may be used as scratch space
	}
	r.p = r.p[n:]
	if len(r.p) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func data(n, salt int) []byte {
	p := make([]byte, n, n+16)
	for i := range p {
		p[i] = byte(i*11 + salt*37 + i>>8)
	}
	for i := n; i < cap(p); i++ {
		p[:cap(p)][i] = 0xee
	}
	return p
}

func runWrites(c Writes, o *core.Obs) error {
	// once with data of its own for every call, once with data that is overwritten
	var sent [2][]byte
	var counts [2][]int64
	for pass := range sent {
		conn := c.Conn.Conn()
		req := resph.Request(c.Req)
		im := image(req, c.Len)
		ww := response.NewWriter(conn.W(), req)
		for i, op := range c.Ops {
			p, want := data(max(op.N, 0), i), data(max(op.N, 0), i)
			var n int64
			switch op.K {
			case "write":
				k, _ := ww.Write(p)
				n = int64(k)
			case "string":
				k, _ := io.WriteString(ww, string(p))
				n = int64(k)
			case "readfrom":
				if rf, ok := ww.(io.ReaderFrom); ok {
					n, _ = rf.ReadFrom(&lender{p: p})
				}
			case "flush":
				if f, ok := ww.(http.Flusher); ok {
					f.Flush()
				}
			case "header":
				ww.MaybeWriteHeader(200)
			case "push":
				opts := &http.PushOptions{Method: op.M, Header: header(op.H)}
				if op.N < 0 {
					opts.Header = nil
				}
				hdr := opts.Header
				ww.Push("/x", opts)
				if opts.Method != op.M || reflect.ValueOf(opts.Header).Pointer() != reflect.ValueOf(hdr).Pointer() {
					return fmt.Errorf("operation %d (push): the options were changed to %+v", i, *opts)
				}
				o.NonTrivial()
				if err := sameRoom(hdr, op.H); err != nil && hdr != nil {
					return fmt.Errorf("operation %d (push): the headers of the options were changed: %w", i, err)
				}
			}
			if !bytes.Equal(p[:cap(p)], want[:cap(want)]) {
				return fmt.Errorf("operation %d (%s): the data handed in was changed", i, op.K)
			}
			counts[pass] = append(counts[pass], n)
			if pass == 1 {
				for j := range p[:cap(p)] {
					p[:cap(p)][j] = 0x5a
				}
			}
			if err := im.unchanged(); err != nil {
				return fmt.Errorf("operation %d (%s): %w", i, op.K, err)
			}
			if op.N > 0 {
				o.NonTrivial()
				o.Label("%s", op.K)
			}
		}
		sent[pass] = conn.Body()
	}
	if !bytes.Equal(sent[0], sent[1]) {
		return fmt.Errorf("what was sent depends on what becomes of the data after the call: %q, %q", clip(sent[0]), clip(sent[1]))
	}
	if !reflect.DeepEqual(counts[0], counts[1]) {
		return fmt.Errorf("the counts %v became %v when the data was overwritten after each call", counts[0], counts[1])
	}
	return nil
}

func genWrites(t *rapid.T) Writes {
	c := Writes{Req: resph.GenMethod(t), Len: core.Pick(t, reqLens), Conn: resph.GenWSpec(t, 5000, core.Chance(t, 3))}
	if core.Chance(t, 2) {
		c.Conn.Caps |= resph.CapFlush | resph.CapHijack | resph.CapNotify | resph.CapReadFrom
	}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) WOp {
		op := WOp{K: core.Pick(t, []string{"write", "write", "write", "readfrom", "readfrom", "string", "push", "flush", "header"})}
		if op.K == "write" || op.K == "readfrom" || op.K == "string" {
			op.N = core.Pick(t, []int{0, 1, 2, 5, 100, 1000, 4096, 4097, 33000})
		}
		if op.K == "push" {
			op.M = core.Pick(t, []string{"", "GET", "HEAD", "POST", "get"})
			op.H = resph.GenHeaders(t)
			op.N = -core.Uniform(t, 2)
		}
		return op
	}), 1, 12).Draw(t, "ops")
	return c
}

// Serves is a request that is answered, through the adaptor or not.
type Serves struct {
	Req   string          `json:"req"`
	Len   int64           `json:"len"`            // declared length of the request body
	Read  int             `json:"read,omitempty"` // bytes of it that the handler reads
	Resp  resph.ServeCase `json:"resp"`
	Adapt bool            `json:"adapt"`
	H     []resph.KV      `json:"h,omitempty"`
}

func runServes(c Serves, o *core.Obs) error {
	conn := c.Resp.Conn.Conn()
	req := resph.Request(c.Req)
	im := image(req, c.Len)
	given := header(c.H)
	var resp *response.Response
	var before http.Header
	var status int
	var rerr, got error
	make := func() *response.Response {
		bod, err := c.Resp.Body.Open()
		if err != nil {
			panic(core.Abandon{Label: "no body"})
		}
		bld := response.NewBuilder().WithStatus(c.Resp.Status).WithHeaders(given).WithBody(bod.Body)
		for _, p := range c.Resp.Push {
			bld.WithHeader("Push", p, true)
		}
		resp = bld.Build()
		before, status, rerr = resp.Headers().Clone(), resp.Status(), resp.Err()
		return resp
	}
	if c.Adapt {
		old := handler.OnPanic
		handler.OnPanic = func(error) {}
		defer func() { handler.OnPanic = old }()
		core.Try(func() {
			handler.Adaptor{Inner: handler.HandlerFunc(func(r *http.Request) response.Response {
				if r.Method != im.copy.Method || !reflect.DeepEqual(r.Header, im.header) {
					got = fmt.Errorf("the handler got another request: %+v", r)
				}
				if c.Read > 0 {
					p, err := io.ReadAll(io.LimitReader(r.Body, int64(c.Read)))
					if want := uploaded[:min(c.Read, len(uploaded))]; string(p) != want || err != nil {
						got = fmt.Errorf("the handler read %q, %v of the request body instead of %q", p, err, want)
					}
					im.body.reads = 0
					o.Label("handler reads the request")
				}
				return *make()
			})}.ServeHTTP(conn.W(), req)
		})
	} else {
		core.Try(func() { make().Serve(response.NewWriter(conn.W(), req)) })
	}
	if got != nil {
		return got
	}
	if resp == nil {
		panic(core.Abandon{Label: "no response"})
	}
	if err := im.unchanged(); err != nil {
		return err
	}
	if err := sameRoom(given, c.H); err != nil {
		return fmt.Errorf("the headers handed in were changed: %w", err)
	}
	if got := resp.Headers(); !equal(got, before) {
		return fmt.Errorf("serving changed the headers of the response from %q to %q", before, got)
	}
	if resp.Status() != status || resp.Err() != rerr {
		return fmt.Errorf("serving changed the status of the response from %d to %d, or its error", status, resp.Status())
	}
	o.Label("adaptor:%v connection changes headers:%v", c.Adapt, c.Resp.Conn.Adds)
	if len(c.H) > 0 {
		o.NonTrivial()
	}
	return nil
}

func genServes(t *rapid.T) Serves {
	c := Serves{Req: resph.GenMethod(t), Len: core.Pick(t, reqLens), Resp: resph.GenServe(t, core.Chance(t, 3)), Adapt: rapid.Bool().Draw(t, "adapt"), H: resph.GenHeaders(t)}
	c.Resp.Hdrs = nil
	c.Resp.Conn.Adds = core.Chance(t, 2)
	if c.Adapt && core.Chance(t, 3) {
		c.Read = 1 + core.Uniform(t, 20)
	}
	return c
}

func init() {
	core.Register(&core.Check{
		ID:   "C30",
		Rule: "a case is a history of body operations with lent buffers, of values, messages, options, digests and header maps handed in, of writes to a wrapped connection, or a served request; non-trivial if something that could be changed was handed in and accepted (for histories: a non-empty body was read)",
		Assumptions: []string{
			"the slice behind a bytes body is the one thing that the documentation asks its owner to leave alone",
			"a difference counts only if it does not occur when every call gets its own buffer",
		},
		Targets: []*core.Target{
			bodyh.LentTarget(),
			core.New("values", 8000, genValues, runValues),
			core.New("written-data", 12000, genWrites, runWrites),
			core.New("served-request", 12000, genServes, runServes),
		},
	})
}
