package resph

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"io"
	"maps"
	"mime"
	"net/http"
	"reflect"
	"slices"
	"strconv"
	"strings"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zverif/bodyh"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// BOp is a call on a builder, or on a response made by one.
type BOp struct {
	K     string     `json:"k"`
	B     int        `json:"b,omitempty"` // which builder or response
	I     int        `json:"i,omitempty"`
	S     string     `json:"s,omitempty"`
	V     string     `json:"v,omitempty"`
	Raw   []byte     `json:"raw,omitempty"`
	F     bool       `json:"f,omitempty"`
	H     []KV       `json:"h,omitempty"`
	Body  *BSpec     `json:"body,omitempty"`
	Val   *bodyh.Val `json:"val,omitempty"`
	Msg   *bodyh.Msg `json:"msg,omitempty"`
	Gen   *GenSpec   `json:"gen,omitempty"`
	Conn  *WSpec     `json:"conn,omitempty"`
	Bad   bool       `json:"bad,omitempty"` // the argument is invalid
	Value bool       `json:"value,omitempty"`
}

// GenSpec describes a custom page generator.
type GenSpec struct {
	H    []KV   `json:"h,omitempty"`
	Nil  bool   `json:"nil,omitempty"` // returns a nil header
	Text string `json:"text"`
}

// BCase is a history of calls.
type BCase struct {
	Ops   []BOp `json:"ops"`
	Quiet bool  `json:"quiet,omitempty"` // nothing is looked at before the end where that can be avoided
}

// pageGen is a recording page generator.
type pageGen struct {
	spec  *GenSpec
	calls []pageCall
	last  body.Body
}

type pageCall struct {
	redirect bool
	code     int
	loc      string
	err      error
}

func (g *pageGen) page() (http.Header, body.Body) {
	g.last = body.FromString(g.spec.Text)
	if g.spec.Nil {
		return nil, g.last
	}
	return toHeader(g.spec.H), g.last
}

func (g *pageGen) GenerateRedirectPage(code int, location string) (http.Header, body.Body) {
	g.calls = append(g.calls, pageCall{true, code, location, nil})
	return g.page()
}

func (g *pageGen) GenerateErrorPage(code int, err error) (http.Header, body.Body) {
	g.calls = append(g.calls, pageCall{false, code, "", err})
	return g.page()
}

func toHeader(kvs []KV) http.Header {
	h := http.Header{}
	for _, kv := range kvs {
		h[kv.K] = slices.Clone(kv.V)
	}
	return h
}

// mbody is what is known about the body of a builder or response.
type mbody struct {
	b      body.Body
	want   []byte
	closed bool
}

func (m *mbody) check() error {
	if m == nil || m.closed {
		return nil
	}
	if n := m.b.BytesRemaining(); n >= 0 && n != int64(len(m.want)) {
		return fmt.Errorf("%d body bytes remain instead of %d", n, len(m.want))
	}
	return nil
}

// read takes some bytes and compares them.
func (m *mbody) read(n int) error {
	p := make([]byte, n)
	k, err := io.ReadFull(m.b, p)
	x := min(n, len(m.want))
	if k != x || !bytes.Equal(p[:k], m.want[:x]) || (err != nil) != (k < n) {
		return fmt.Errorf("reading %d body bytes gave %d, %v; %d remained", n, k, err, len(m.want))
	}
	m.want = m.want[k:]
	return nil
}

func (m *mbody) drain() error {
	got, err := io.ReadAll(m.b)
	if err != nil || !bytes.Equal(got, m.want) {
		return fmt.Errorf("the body delivers %d bytes, %v, instead of the %d that remained", len(got), err, len(m.want))
	}
	m.want = nil
	return nil
}

type mbuilder struct {
	b    *response.Builder
	gen  response.PageGenerator // nil: default
	code int
	hdrs http.Header
	body *mbody
	err  error
}

type mresponse struct {
	r    *response.Response
	code int
	hdrs http.Header
	body *mbody
	err  error
}

type bmachine struct {
	builders  []*mbuilder
	responses []*mresponse
	handed    []handedIn
	defGen    *pageGen // replaces the default
	aspects   map[string]bool
	obs       *core.Obs
	where     string
	rejected  int
	built     int
	copies    int
	pages     int
	helpers   int
	fromCopy  bool
	quiet     bool
}

// handedIn is a header map given to a builder.
type handedIn struct{ given, want http.Header }

func (m *bmachine) fail(aspect, format string, args ...any) {
	msg := m.where + ": " + fmt.Sprintf(format, args...)
	for _, a := range strings.Split(aspect, "|") {
		if m.aspects[a] {
			panic(core.Failure{Msg: msg})
		}
	}
	panic(core.Abandon{Label: "offaspect:" + aspect})
}

func errAt(i int) error {
	switch i % 4 {
	case 0:
		return errors.New("secret-plain-text")
	case 1:
		return fmt.Errorf("secret-wrapping: %w", io.ErrUnexpectedEOF)
	case 2:
		return &secretError{"secret-pointer"}
	default:
		return secretValue{7}
	}
}

type secretError struct{ s string }

func (e *secretError) Error() string { return e.s }

type secretValue struct{ n int }

func (e secretValue) Error() string { return "secret-value " + strconv.Itoa(e.n) }

// observe compares a builder with its model.
func (m *bmachine) observe(x *mbuilder, aspect string) {
	if m.quiet {
		return
	}
	if got := x.b.Status(); got != x.code {
		m.fail(aspect, "builder status is %d instead of %d", got, x.code)
	}
	if got := x.b.Headers(); !headersEqual(got, x.hdrs) {
		m.fail(aspect, "builder headers are %q instead of %q", got, x.hdrs)
	}
	if got := x.b.Err(); got != x.err {
		m.fail(aspect, "builder error is %v instead of %v", got, x.err)
	}
	gen := x.gen
	if gen == nil {
		gen = response.DefaultPageGenerator
	}
	if x.b.PageGenerator() != gen {
		m.fail(aspect+"|page", "the page generator of the builder changed")
	}
	var want body.Body
	if x.body != nil {
		want = x.body.b
	}
	if got := x.b.Body(); got != want {
		m.fail(aspect, "builder body is %T instead of %T", got, want)
	}
	if err := x.body.check(); err != nil {
		m.fail(aspect, "builder: %v", err)
	}
}

func (m *bmachine) observeResponse(x *mresponse, aspect string) {
	if m.quiet {
		return
	}
	if got := x.r.Status(); got != x.code {
		m.fail(aspect, "response status is %d instead of %d", got, x.code)
	}
	if got := x.r.Headers(); !headersEqual(got, x.hdrs) {
		m.fail(aspect, "response headers are %q instead of %q", got, x.hdrs)
	}
	if got := x.r.Err(); got != x.err {
		m.fail(aspect, "response error is %v instead of %v", got, x.err)
	}
	if got := x.r.Body(); got != x.body.b {
		m.fail(aspect, "response body is %T instead of %T", got, x.body.b)
	}
	if err := x.body.check(); err != nil {
		m.fail(aspect, "response: %v", err)
	}
}

// observeAll looks at everything but the touched objects.
func (m *bmachine) observeAll(tb *mbuilder, tr *mresponse) {
	if m.quiet {
		return
	}
	for i, x := range m.builders {
		if x != tb {
			w := m.where
			m.where += fmt.Sprintf(" changed builder %d", i)
			m.observe(x, "copy")
			m.where = w
		}
	}
	for i, x := range m.responses {
		if x != tr {
			w := m.where
			m.where += fmt.Sprintf(" changed response %d", i)
			m.observeResponse(x, "copy")
			m.where = w
		}
	}
	for _, h := range m.handed {
		if !headersEqual(h.given, h.want) {
			m.fail("copy", "a header map handed in earlier is now %q instead of %q", h.given, h.want)
		}
	}
}

func (x *mbuilder) headers() http.Header {
	if x.hdrs == nil {
		x.hdrs = http.Header{}
	}
	return x.hdrs
}

// attempt makes a call; it reports whether it was accepted.
func (m *bmachine) attempt(x *mbuilder, bad bool, call func() *response.Builder) bool {
	var ret *response.Builder
	pv, panicked := core.Try(func() { ret = call() })
	if bad != panicked {
		if bad {
			m.fail("reject", "an invalid argument was accepted")
		}
		m.fail("state", "a valid call panicked: %v", pv)
	}
	if panicked {
		m.rejected++
		m.observe(x, "reject")
		return false
	}
	if ret != x.b {
		m.fail("state", "the call returned another builder")
	}
	return true
}

// helper looks at the header a call was to set.
func (m *bmachine) helperHeader(x *mbuilder, name string, keep []string, ok func(string) error) {
	m.helpers++
	if w := predicted(ok); m.quiet && w != "" {
		x.headers()[name] = append(slices.Clone(keep), w)
		return
	}
	got := x.b.Headers()[name]
	if len(got) != len(keep)+1 || !slices.Equal(got[:len(keep)], keep) {
		m.fail("helper|state", "header %s is %q after having been %q", name, got, keep)
	}
	if err := ok(got[len(keep)]); err != nil {
		m.fail("helper|state", "header %s: %v", name, err)
	}
	x.headers()[name] = slices.Clone(got)
}

// predicted gives the value an expectation made by is stands for.
func predicted(ok func(string) error) string {
	if e, is := ok(probe).(wantValue); is {
		return string(e)
	}
	return ""
}

const probe = "\x00probe"

type wantValue string

func (w wantValue) Error() string { return "expected " + string(w) }

func is(want string) func(string) error {
	return func(got string) error {
		if got == probe {
			return wantValue(want)
		}
		if got != want {
			return fmt.Errorf("%q instead of %q", got, want)
		}
		return nil
	}
}

func sameMedia(want string) func(string) error {
	return func(got string) error {
		t1, p1, e1 := mime.ParseMediaType(want)
		t2, p2, e2 := mime.ParseMediaType(got)
		if e1 != nil || e2 != nil || t1 != t2 || !reflect.DeepEqual(p1, p2) {
			return fmt.Errorf("%q does not mean %q: %s %v %v, %s %v %v", got, want, t2, p2, e2, t1, p1, e1)
		}
		if strings.ContainsAny(got, "\r\n\x00") {
			return fmt.Errorf("%q is not well-formed", got)
		}
		return nil
	}
}

// payload checks the body a payload helper made and adopts it.
func (m *bmachine) payload(x *mbuilder, same func(got []byte) error) {
	b := x.b.Body()
	if b == nil || (x.body != nil && b == x.body.b) {
		m.fail("helper|state", "no body was set")
	}
	cp, err := b.Copy()
	if err != nil {
		m.fail("helper|state", "body: %v", err)
	}
	raw, err := io.ReadAll(cp)
	if err == nil {
		err = same(raw)
	}
	if err != nil {
		m.fail("helper|state", "payload: %v", err)
	}
	cp.Close()
	x.body = &mbody{b: b, want: raw}
}

func (m *bmachine) step(i int, op BOp) {
	m.where = fmt.Sprintf("call %d (%s)", i, op.K)
	if strings.HasPrefix(op.K, "r-") {
		m.stepResponse(i, op)
		return
	}
	x := m.builders[op.B%len(m.builders)]
	b := x.b
	if x.body != nil && x.body.closed && (op.K == "build" || op.K == "copy" || op.K == "bread") {
		x.body = nil
		b.WithBody(body.Empty())
		x.body = &mbody{b: b.Body()}
	}
	switch op.K {
	case "status":
		if m.attempt(x, op.I < 200 || op.I > 999, func() *response.Builder { return b.WithStatus(op.I) }) {
			x.code = op.I
		}
	case "headers":
		h := toHeader(op.H)
		if op.F {
			h = nil
		}
		want := h.Clone()
		m.attempt(x, false, func() *response.Builder { return b.WithHeaders(h) })
		x.hdrs = want
		if h != nil {
			m.handed = append(m.handed, handedIn{h, h.Clone()})
			if op.Value { // the caller goes on using the map
				for k, vs := range h {
					for j := range vs {
						vs[j] = "changed by the caller"
					}
					h[k] = append(vs, "added by the caller")
				}
				h["X-Caller"] = []string{"later"}
				m.handed[len(m.handed)-1].want = h.Clone()
			}
		}
		x.hdrs = want.Clone()
	case "header":
		if m.attempt(x, op.S == "", func() *response.Builder { return b.WithHeader(op.S, op.V, op.F) }) {
			if op.F {
				x.headers().Add(op.S, op.V)
			} else {
				x.headers().Set(op.S, op.V)
			}
		}
	case "without":
		if m.attempt(x, op.S == "", func() *response.Builder { return b.WithoutHeader(op.S) }) {
			x.headers().Del(op.S)
		}
	case "mutate":
		// The caller may change the map and its contents in any way.
		change := func(h http.Header) {
			keys := slices.Sorted(maps.Keys(h))
			if op.I == 0 || len(keys) == 0 {
				h.Add(op.S, op.V)
				return
			}
			k := keys[len(op.V)%len(keys)]
			switch op.I {
			case 1:
				h[k][len(h[k])-1] = op.V + "!"
			case 2:
				delete(h, k)
			case 3:
				h[k] = append(h[k], op.V)
			case 4:
				if len(h[k]) > 1 {
					h[k] = h[k][1:]
				}
			}
		}
		change(b.Headers())
		change(x.headers())
	case "ctype":
		mt, ps, perr := mime.ParseMediaType(op.S)
		if perr == nil && mime.FormatMediaType(mt, ps) == "" {
			// Parses but cannot be written again: it may be refused.
			if _, panicked := core.Try(func() { response.NewBuilder().WithContentType(op.S) }); panicked {
				perr = errors.New("refused")
			}
		}
		if m.attempt(x, perr != nil, func() *response.Builder { return b.WithContentType(op.S) }) {
			m.helperHeader(x, "Content-Type", nil, sameMedia(op.S))
		}
	case "lang", "enc":
		name := "Content-Language"
		if op.K == "enc" {
			name = "Content-Encoding"
			m.attempt(x, false, func() *response.Builder { return b.WithContentEncoding(op.S) })
		} else {
			m.attempt(x, false, func() *response.Builder { return b.WithContentLanguage(op.S) })
		}
		m.helperHeader(x, name, nil, is(strings.TrimSpace(op.S)))
	case "etag":
		m.attempt(x, false, func() *response.Builder { return b.WithETag(op.S, op.F) })
		want := `"` + op.S + `"`
		if !op.F {
			want = "W/" + want
		}
		m.helperHeader(x, "Etag", nil, is(want))
	case "digest":
		sum := bytes.Clone(op.Raw)
		if m.attempt(x, op.S == "" || len(op.Raw) == 0, func() *response.Builder { return b.WithDigest(op.S, sum) }) {
			if !bytes.Equal(sum, op.Raw) {
				m.fail("helper", "the digest handed in was changed")
			}
			m.helperHeader(x, "Digest", x.hdrs["Digest"], func(got string) error {
				if got == probe {
					return wantValue(op.S + "=" + base64.StdEncoding.EncodeToString(op.Raw))
				}
				rest, ok := strings.CutPrefix(got, op.S+"=")
				dec, err := base64.StdEncoding.DecodeString(rest)
				if !ok || err != nil || !bytes.Equal(dec, op.Raw) {
					return fmt.Errorf("%q does not carry %x of %s", got, op.Raw, op.S)
				}
				return nil
			})
		}
	case "body":
		if op.Bad {
			m.attempt(x, true, func() *response.Builder { return b.WithBody(nil) })
			break
		}
		bod, err := op.Body.Open()
		if err != nil {
			return
		}
		m.attempt(x, false, func() *response.Builder { return b.WithBody(bod.Body) })
		x.body = &mbody{b: bod.Body, want: bod.Want}
	case "bread":
		if x.body != nil {
			if err := x.body.read(op.I); err != nil {
				m.fail("state", "%v", err)
			}
		}
	case "json":
		v := op.Val.Value()
		ref, jerr := json.Marshal(v)
		if m.attempt(x, jerr != nil, func() *response.Builder {
			if op.F {
				return b.WithPrettyJSON(v)
			}
			return b.WithJSON(v)
		}) {
			m.payload(x, func(got []byte) error {
				var b1, b2 bytes.Buffer
				if err := json.Compact(&b1, got); err != nil {
					return err
				}
				json.Compact(&b2, ref)
				var v1, v2 any
				d1, d2 := json.NewDecoder(&b1), json.NewDecoder(&b2)
				d1.UseNumber()
				d2.UseNumber()
				if e1, e2 := d1.Decode(&v1), d2.Decode(&v2); e1 != nil || e2 != nil || !reflect.DeepEqual(v1, v2) {
					return fmt.Errorf("not the value: %q", clip(got))
				}
				if pretty := bytes.Contains(bytes.TrimSpace(got), []byte("\n")); pretty && !op.F && !bytes.Contains(ref, []byte("\n")) {
					return fmt.Errorf("multi-line JSON was not asked for")
				} else if op.F && !pretty && len(ref) > 2 && (ref[0] == '{' || ref[0] == '[') {
					return fmt.Errorf("pretty JSON is on a single line: %q", clip(got))
				}
				return nil
			})
			m.helperHeader(x, "Content-Type", nil, sameMedia("application/json"))
		}
	case "proto", "text":
		msg := op.Msg.Message().(proto.Message)
		var opts *prototext.MarshalOptions
		var perr error
		if op.K == "proto" {
			_, perr = proto.Marshal(msg)
		} else {
			o2 := &prototext.MarshalOptions{Multiline: true, Indent: "  "}
			if p := bodyh.ProtoOptions[op.I%len(bodyh.ProtoOptions)]; p != nil {
				o3 := *p
				opts, o2 = &o3, p
			}
			_, perr = o2.Marshal(msg)
		}
		if m.attempt(x, perr != nil, func() *response.Builder {
			if op.K == "proto" {
				return b.WithProto(msg)
			}
			return b.WithProtoText(msg, opts)
		}) {
			m.payload(x, func(got []byte) error {
				back := msg.ProtoReflect().New().Interface()
				var err error
				if op.K == "proto" {
					err = proto.Unmarshal(got, back)
				} else {
					err = prototext.UnmarshalOptions{AllowPartial: true, DiscardUnknown: opts != nil && opts.EmitUnknown}.Unmarshal(got, back)
				}
				if err != nil {
					return err
				}
				if !proto.Equal(back, msg) {
					return fmt.Errorf("not the message: %q", clip(got))
				}
				return nil
			})
			ct := "application/vnd.google.protobuf"
			if op.K == "text" {
				ct = "text/plain; charset=utf-8"
			}
			m.helperHeader(x, "Content-Type", nil, sameMedia(ct))
		}
	case "error":
		var err error
		if op.I >= 0 {
			err = errAt(op.I)
		}
		m.attempt(x, false, func() *response.Builder { return b.WithError(err) })
		x.err = err
	case "defgen":
		// From now on, whoever has no generator of its own uses this one.
		if op.Gen == nil {
			break
		}
		m.defGen = &pageGen{spec: op.Gen}
		response.DefaultPageGenerator = m.defGen
	case "gen":
		if op.Bad {
			m.attempt(x, true, func() *response.Builder { return b.WithPageGenerator(nil) })
			break
		}
		g := &pageGen{spec: op.Gen}
		m.attempt(x, false, func() *response.Builder { return b.WithPageGenerator(g) })
		x.gen = g
	case "redirect", "errpage":
		m.page(x, op)
	case "build":
		m.build(x)
		return
	case "copy":
		m.copyBuilder(x)
		return
	}
	m.observe(x, "state")
	m.observeAll(x, nil)
}

func clip(p []byte) []byte {
	if len(p) > 200 {
		return p[:200]
	}
	return p
}

func (m *bmachine) page(x *mbuilder, op BOp) {
	b := x.b
	var err error
	loc := strings.TrimSpace(op.S)
	bad := op.I < 200 || op.I > 999
	if op.K == "redirect" {
		bad = op.I < 300 || op.I > 399 || loc == ""
	} else if op.V != "nil" {
		err = errAt(len(op.S))
	} else {
		bad = true
	}
	call := func(b *response.Builder) *response.Builder {
		if op.K == "redirect" {
			return b.RedirectPage(op.I, op.S)
		}
		return b.ErrorPage(op.I, err)
	}
	g, _ := x.gen.(*pageGen)
	if g == nil {
		g = m.defGen
	}
	calls := 0
	if g != nil {
		calls = len(g.calls)
	}
	if !m.attempt(x, bad, func() *response.Builder { return call(b) }) {
		return
	}
	m.pages++
	got := b.Headers()
	page := b.Body()
	if page == nil {
		m.fail("page|state", "no page body was set")
	}
	if g != nil {
		if len(g.calls) != calls+1 {
			m.fail("page", "the page generator was consulted %d times", len(g.calls)-calls)
		}
		c := g.calls[calls]
		if c.redirect != (op.K == "redirect") || c.code != op.I || c.loc != loc && op.K == "redirect" || c.err != err {
			m.fail("page", "the page generator was called with %+v", c)
		}
		if page != g.last {
			m.fail("page|state", "the body is not the one of the page generator")
		}
		want := http.Header{}
		if !g.spec.Nil {
			want = toHeader(g.spec.H)
		}
		if !headersEqual(got, want) {
			m.fail("page|state", "headers %q are not those of the page generator, %q", got, want)
		}
		x.body = &mbody{b: page, want: []byte(g.spec.Text)}
	} else {
		cp, cerr := page.Copy()
		if cerr != nil {
			m.fail("page", "page: %v", cerr)
		}
		raw, cerr := io.ReadAll(cp)
		cp.Close()
		if cerr != nil {
			m.fail("page", "page: %v", cerr)
		}
		if n := page.BytesRemaining(); n != int64(len(raw)) || got.Get("Content-Length") != strconv.Itoa(len(raw)) || len(got["Content-Length"]) != 1 {
			m.fail("page", "Content-Length %q, %d bytes remaining, for a page of %d bytes", got["Content-Length"], n, len(raw))
		}
		// Whatever the builder held before must be gone: a fresh one gives the same.
		fresh := call(response.NewBuilder())
		if !headersEqual(fresh.Headers(), got) {
			m.fail("page|state", "headers %q instead of %q", got, fresh.Headers())
		}
		fresh.Body().Close()
		var perr error
		if op.K == "redirect" {
			if l := got["Location"]; len(l) != 1 || l[0] != loc {
				m.fail("page", "Location is %q instead of %q", l, loc)
			}
			if t, _, e := mime.ParseMediaType(got.Get("Content-Type")); e != nil || t != "text/html" {
				m.fail("page", "the redirect page is %q", got.Get("Content-Type"))
			}
			perr = checkRedirectHTML(string(raw), loc)
			if d := directives(got); perr == nil && d["max-age"] != "86400" {
				perr = fmt.Errorf("the redirect page may not be cached for a day: %q", got["Cache-Control"])
			} else if _, ok := d["must-revalidate"]; perr == nil && !ok {
				perr = fmt.Errorf("the redirect page may be reused when stale: %q", got["Cache-Control"])
			}
		} else {
			perr = checkErrorPage(string(raw), got, op.I, err)
		}
		if perr != nil {
			m.fail("page", "%v", perr)
		}
		x.body = &mbody{b: page, want: raw}
	}
	x.hdrs = got.Clone()
	x.code = op.I
	x.err = err
	m.observe(x, "page|state")
}

// directives are those of a Cache-Control header, in lower case.
func directives(h http.Header) map[string]string {
	out := map[string]string{}
	for _, v := range h["Cache-Control"] {
		for _, d := range strings.Split(v, ",") {
			k, arg, _ := strings.Cut(strings.ToLower(strings.TrimSpace(d)), "=")
			out[k] = arg
		}
	}
	return out
}

func checkErrorPage(page string, h http.Header, code int, err error) error {
	if t, _, e := mime.ParseMediaType(h.Get("Content-Type")); e != nil || t != "text/plain" {
		return fmt.Errorf("the error page is %q", h.Get("Content-Type"))
	}
	d := directives(h)
	_, nc := d["no-cache"]
	_, ns := d["no-store"]
	if !nc && !ns {
		return fmt.Errorf("the error page may be cached: %q", h["Cache-Control"])
	}
	want := append([]string{strconv.Itoa(code)}, strings.Fields(http.StatusText(code))...)
	if !slices.Equal(strings.Fields(page), want) || strings.Count(page, "\n") != 1 || !strings.HasSuffix(page, "\n") {
		return fmt.Errorf("the error page for %d %s is %q", code, http.StatusText(code), page)
	}
	if !strings.Contains(page, strconv.Itoa(code)) || !strings.Contains(html.UnescapeString(page), http.StatusText(code)) {
		return fmt.Errorf("the error page for %d %s is %q", code, http.StatusText(code), page)
	}
	secrets := []string{"secret", err.Error()}
	for _, s := range secrets {
		if strings.Contains(page, s) || strings.Contains(html.UnescapeString(page), s) {
			return fmt.Errorf("the error page shows the error: %q", page)
		}
		for k, vs := range h {
			for _, v := range vs {
				if strings.Contains(v, s) {
					return fmt.Errorf("header %s of the error page shows the error: %q", k, v)
				}
			}
		}
	}
	return nil
}

func (m *bmachine) build(x *mbuilder) {
	if x.body == nil {
		_, panicked := core.Try(func() { x.b.Build() })
		if !panicked {
			m.fail("state", "building without a body did not panic")
		}
		m.rejected++
		x.b.WithBody(body.Empty())
		x.body = &mbody{b: x.b.Body()}
		return
	}
	rem := x.body.b.BytesRemaining()
	r := x.b.Build()
	m.built++
	y := &mresponse{r: r, code: x.code, hdrs: x.hdrs.Clone(), body: x.body, err: x.err}
	if y.code == 0 {
		y.code = 200
	}
	if y.hdrs == nil {
		y.hdrs = http.Header{}
	}
	if _, ok := y.hdrs["Content-Type"]; !ok {
		y.hdrs["Content-Type"] = []string{"application/octet-stream"}
	}
	if _, ok := y.hdrs["Content-Length"]; !ok && rem >= 0 {
		y.hdrs["Content-Length"] = []string{strconv.Itoa(len(x.body.want))}
	}
	m.observeResponse(y, "state")
	if s := r.String(); !strings.Contains(s, strconv.Itoa(y.code)) {
		m.fail("state", "String() is %q for status %d", s, y.code)
	}
	x.code, x.hdrs, x.body, x.err = 0, nil, nil, nil
	m.observe(x, "clean")
	m.responses = append(m.responses, y)
	if len(m.responses) > 6 {
		m.dropResponse(0)
	}
	m.observeAll(x, y)
}

func (m *bmachine) copyBuilder(x *mbuilder) {
	y := &mbuilder{gen: x.gen, code: x.code, hdrs: x.hdrs.Clone(), err: x.err}
	b2, err := x.b.Copy()
	if err != nil {
		m.fail("copy", "copying the builder failed: %v", err)
	}
	if b2 == x.b {
		m.fail("copy", "the copy is the builder itself")
	}
	y.b = b2
	if x.body != nil {
		if b2.Body() == nil {
			m.fail("copy", "the copy has no body")
		}
		y.body = &mbody{b: b2.Body(), want: x.body.want}
		if x.body.b == y.body.b {
			m.fail("copy", "the copy shares its body")
		}
	} else if b2.Body() != nil {
		m.fail("copy", "the copy has a body")
	}
	m.copies++
	m.observe(y, "copy")
	m.observe(x, "copy")
	if len(m.builders) >= 4 {
		m.builders = m.builders[1:]
	}
	m.builders = append(m.builders, y)
	m.observeAll(nil, nil)
}

func (m *bmachine) dropResponse(i int) {
	y := m.responses[i]
	m.responses = slices.Delete(m.responses, i, i+1)
	if !y.body.closed {
		if err := y.body.drain(); err != nil {
			m.fail("copy|state", "at last: %v", err)
		}
		if err := y.body.b.Close(); err != nil {
			m.fail("copy|state", "at last: %v", err)
		}
	}
}

func (m *bmachine) stepResponse(i int, op BOp) {
	if len(m.responses) == 0 {
		return
	}
	k := op.B % len(m.responses)
	x := m.responses[k]
	switch op.K {
	case "r-copy":
		r2, err := x.r.Copy()
		if x.body.closed {
			// A copy of a closed body is closed as well.
			if err == nil {
				if _, e := r2.Body().Read(make([]byte, 1)); !errors.Is(e, errClosed) {
					m.fail("copy", "the copy of a served response has a body that is open: %v", e)
				}
			}
			return
		}
		if err != nil {
			m.fail("copy", "copying the response failed: %v", err)
		}
		if r2 == x.r || r2.Body() == x.body.b {
			m.fail("copy", "the copy is not separate")
		}
		m.copies++
		y := &mresponse{r: r2, code: x.code, hdrs: x.hdrs.Clone(), err: x.err, body: &mbody{b: r2.Body(), want: x.body.want}}
		m.observeResponse(y, "copy")
		m.responses = append(m.responses, y)
		if len(m.responses) > 6 {
			m.dropResponse(0)
		}
		m.observeAll(nil, nil)
		return
	case "r-read":
		if !x.body.closed {
			if err := x.body.read(op.I); err != nil {
				m.fail("copy", "%v", err)
			}
		}
	case "r-close":
		if !x.body.closed {
			if err := x.body.b.Close(); err != nil {
				m.fail("copy", "Close: %v", err)
			}
			x.body.closed = true
		}
	case "r-serve":
		if x.body.closed {
			return
		}
		conn := op.Conn.Conn()
		var w http.ResponseWriter = conn.W()
		if op.F {
			w = response.NewWriter(w, Request("GET"))
		}
		served := x.body.want
		if err := x.r.Serve(w); err != nil {
			m.fail("copy", "serving failed: %v", err)
		}
		x.body.closed = true
		hs := conn.Events("header")
		if len(hs) != 1 || hs[0].Status != x.code {
			m.fail("copy", "status %d was sent as %v", x.code, hs)
		}
		for name, vs := range x.hdrs {
			if name != "Push" && !slices.Equal(vs, hs[0].Hdrs[name]) {
				m.fail("copy", "header %s: %q was sent as %q", name, vs, hs[0].Hdrs[name])
			}
		}
		if !bytes.Equal(conn.Body(), served) && !(op.F && x.code == 204) {
			m.fail("copy", "the client got %d body bytes that are not the %d remaining ones", len(conn.Body()), len(served))
		}
		// The connection is free to do with its header map as it likes.
		for name, vs := range conn.hdr {
			for j := range vs {
				vs[j] = "changed later"
			}
			conn.hdr[name] = append(vs, "added later")
		}
	}
	m.observeResponse(x, "copy")
	m.observeAll(nil, x)
}

func runBuilder(aspects []string, nontrivial func(m *bmachine) bool) func(BCase, *core.Obs) error {
	set := map[string]bool{}
	for _, a := range aspects {
		set[a] = true
	}
	every := map[string]bool{"state": true, "reject": true, "clean": true, "copy": true, "page": true, "helper": true}
	run := func(c BCase, o *core.Obs, set map[string]bool) error {
		m := &bmachine{aspects: set, obs: o, quiet: c.Quiet}
		old := response.DefaultPageGenerator
		defer func() { response.DefaultPageGenerator = old }()
		m.builders = append(m.builders, &mbuilder{b: response.NewBuilder()})
		for i, op := range c.Ops {
			o.Label("call:%s", op.K)
			m.step(i, op)
		}
		m.where, m.quiet = "end", false
		m.observeAll(nil, nil)
		for len(m.responses) > 0 {
			m.dropResponse(len(m.responses) - 1)
		}
		for _, x := range m.builders {
			if x.body != nil && !x.body.closed {
				if err := x.body.drain(); err != nil {
					m.fail("state|copy", "%v", err)
				}
			}
		}
		o.LabelIf(m.rejected > 0, "rejected calls")
		o.LabelIf(m.copies > 0, "copies")
		o.LabelIf(m.built > 1, "several responses built")
		if nontrivial(m) {
			o.NonTrivial()
		}
		return nil
	}
	return func(c BCase, o *core.Obs) (err error) {
		if c.Quiet {
			// What a quiet history meets at its end may belong to another property: the
			// same history, looked at after every call, tells.
			defer func() {
				switch x := recover().(type) {
				case nil:
				case core.Failure:
					c.Quiet = false
					if err = run(c, o, set); err == nil {
						panic(core.Failure{Msg: "with nothing looked at before the end: " + x.Msg})
					}
				default:
					panic(x)
				}
			}()
			return run(c, o, every)
		}
		return run(c, o, set)
	}
}

var mediaTypes = []string{"text/plain", "text/html; charset=utf-8", "TEXT/Html;Charset=\"UTF-8\"", "application/json", "multipart/form-data; boundary=\"a b;c\"", "text/plain; a=1; b=2", "application/x-foo; name*=UTF-8''na%C3%AFve", "text/plain;format=flowed ; delsp=yes", " text/css ", "form-data", "x/y; q=\"\\\"quoted\\\"\"", "image/svg+xml", "text/plain; charset=\"\"", "application/vnd.a.b+json;v=1", "application/json; charset=utf-8", "application/json; version=1", "image/png; q=0.5", "audio/ogg; codecs=opus", "attachment; filename=x", "a/b; c=1; d=2; e=3; f=4; g=5; h=6", "text/event-stream; charset=utf-8", "application/xml;charset=iso-8859-1", "video/mp4; codecs=\"avc1, mp4a\"", "*/*; q=1", "application/x-www-form-urlencoded; charset=x", "application/problem+json; a=b", "application/octet-stream; type=x; padding=4", "message/http; msgtype=request; version=\"1.1\"", "text/plain; title*0=part; title*1=two",
	"text/plain; *0=x", "text/plain; *0*=utf-8''x; a=b", "text/plain;\r\n charset=utf-8", "text/plain ;\n\tformat=flowed;\r\n", "\r\ntext/html\r\n"}
var badMedia = []string{"", ";", "text/", "/plain", "te xt/plain", "text/plain; charset", "text/plain; a=1; a=2", "text/plain; =x", "text/plain; x=\"unclosed", "text/pl{}ain", " ", "text/plain/extra"}
var locations = []string{"/", "/x", "https://example.com/a?b=c&d=e#f", "/\"><script>alert(1)</script>", "/' onmouseover='x", "javascript:alert(1)", "  /trimmed\t ", "/é/世界", "/<b>&amp;", "/a\"b'c<d>e&f", "&quot;", "//host", "/%22", "\" onclick=\"x", "</a></p><p>", "a\r\nb", "/&lt;x&gt;", "\x00\xff", "<!--", "]]>", "{{.}}", "mailto:a@b", "tel:1", "data:text/html,x", "?a=b", "#f", ".", "../x", "http://[::1]:80/", "HTTPS://EXAMPLE.COM", "ftp://x/", "/a b", "\\\\host\\x", "/a;b=c", "x:y"}

func genLocation(t *rapid.T) string {
	if core.Chance(t, 15) {
		return core.Pick(t, []string{"/", "/?q=", "https://example.com/", "#", "&"}) + strings.Repeat(core.Pick(t, []string{"a", "/b&", "%20", "é", "<"}), core.Pick(t, []int{100, 1000, 3000, 20000}))
	}
	switch core.Uniform(t, 4) {
	case 0:
		return rapid.StringOfN(rapid.RuneFrom([]rune("\"'<>&;/=ax -!`\t#")), 1, 12, -1).Draw(t, "loc")
	case 1:
		return rapid.String().Draw(t, "loc")
	default:
		return core.Pick(t, locations)
	}
}

func genHeaderValue(t *rapid.T) string {
	if core.Chance(t, 20) {
		return strings.Repeat("long value,", core.Pick(t, []int{12, 100, 500}))
	}
	return core.Pick(t, []string{"", "a", "b", "1", "0", "text/plain", "é", "a, b", "\"q\"", " a", "a\t", "  "})
}

var bHdrNames = []string{"X-A", "x-a", "X-B", "content-type", "Content-Type", "Content-Length", "CONTENT-length", "Etag", "ETag", "Digest", "Location", "Vary", "Set-Cookie", "Push", "Content-Language", "X-A-Name-That-Is-Longer-Than-Any-Name-Anybody-Uses", ""}

var hopNames = []string{"Transfer-Encoding", "Trailer", "Date", "Connection", "Upgrade", "Keep-Alive", "Te", "transfer-encoding", "Proxy-Connection", "Accept-Encoding", "Content-Transfer-Encoding", "Mime-Version"}

func genBName(t *rapid.T) string {
	if s := core.Pick(t, bHdrNames); s != "" {
		return s
	}
	if core.Chance(t, 2) {
		return core.Pick(t, hopNames)
	}
	return core.Pick(t, otherNames)
}

func genGenSpec(t *rapid.T) *GenSpec {
	g := &GenSpec{Text: core.Pick(t, []string{"", "page", "a longer page text"}), Nil: core.Chance(t, 4)}
	if !g.Nil {
		g.H = GenHeaders(t)
	}
	return g
}

func smallBody(t *rapid.T) *BSpec {
	s := BSpec{Src: bodyh.GenSource(t, bodyh.GenOpts{Small: true})}
	s.Src.CloseErr = false
	if s.Src.Len > 3000 && core.Uniform(t, 4) > 0 {
		s.Src.Len %= 3000
		if s.Src.Declared > s.Src.Len {
			s.Src.Declared = s.Src.Len
		}
	}
	if core.Chance(t, 3) {
		s.Pre = rapid.Int64Range(0, s.Src.Visible()).Draw(t, "pre")
	}
	return &s
}

func genBOp(t *rapid.T, kinds []string, badly int) BOp {
	op := BOp{K: core.Pick(t, kinds), B: core.Uniform(t, 8)}
	bad := core.Chance(t, badly)
	op.Bad = bad
	switch op.K {
	case "status":
		op.I = GenStatus(t)
		if bad {
			op.I = core.Pick(t, []int{0, 1, 100, 101, 199, 1000, 1001, -1, -200, 1 << 31})
		}
	case "headers":
		op.H = GenHeaders(t)
		op.F = core.Chance(t, 6)
		op.Value = rapid.Bool().Draw(t, "caller")
	case "header", "without":
		op.S, op.V, op.F = genBName(t), genHeaderValue(t), rapid.Bool().Draw(t, "append")
		if bad {
			op.S = ""
		}
	case "mutate":
		op.I = core.Uniform(t, 5)
		op.S, op.V = genBName(t), genHeaderValue(t)
	case "ctype":
		op.S = core.Pick(t, mediaTypes)
		if bad {
			op.S = core.Pick(t, badMedia)
		} else if core.Chance(t, 4) {
			op.S = mime.FormatMediaType(core.Pick(t, []string{"a/b", "text/plain", "x-y/z.w"}), rapid.MapOfN(rapid.StringMatching(`[a-z]{1,4}`), rapid.String(), 0, 3).Draw(t, "params"))
		} else if core.Chance(t, 8) {
			op.S = rapid.String().Draw(t, "ctype")
		}
	case "lang", "enc":
		op.S = core.Pick(t, []string{"en", " en-US, de ", "gzip", "\tbr\n", "", "  ", "identity", "*", "en, de;q=0.5, fr;q=0.1", "gzip, deflate, br", "zh-Hant-TW", "x-gzip", "zstd", "de-CH-1996", "mi, en"})
	case "etag":
		op.S, op.F = rapid.StringMatching(`[!#-~é]{0,12}`).Draw(t, "tag"), rapid.Bool().Draw(t, "strong")
		switch core.Uniform(t, 10) {
		case 0:
			op.S = strings.Repeat(op.S, core.Pick(t, []int{4, 10, 50}))
		case 1:
			op.S += core.Pick(t, []string{"-gzip", ";gzip", "--br", "*", "W/", "\\"})
		}
	case "digest":
		op.S = core.Pick(t, []string{"sha-256", "md5", "SHA-512", "unixsum", "SHA-256", "MD5", "sha-512", "SHA", "crc32c", "id-sha-256", "adler32", "Sha-256", "UNIXcksum"})
		op.Raw = rapid.SliceOfN(rapid.Byte(), 1, 70).Draw(t, "sum")
		if n := core.Pick(t, []int{0, 0, 4, 16, 20, 28, 32, 48, 64, 128}); n > 0 {
			op.Raw = append(op.Raw, make([]byte, 128)...)[:n]
		}
		if bad {
			if rapid.Bool().Draw(t, "which") {
				op.S = ""
			} else {
				op.Raw = nil
			}
		}
	case "body":
		if !bad {
			op.Body = smallBody(t)
		}
	case "bread", "r-read":
		op.I = core.Pick(t, []int{0, 1, 2, 5, 100, 3000})
	case "json":
		v := bodyh.GenValue(t, 2)
		if bad {
			v = bodyh.Val{T: core.Pick(t, bodyh.BadValues), L: []bodyh.Val{v}}
		}
		op.Val, op.F = &v, rapid.Bool().Draw(t, "pretty")
	case "proto", "text":
		m := bodyh.GenMessage(t, 2)
		if bad {
			m.Kind = core.Pick(t, []string{"missing", "badutf8"})
		}
		op.Msg, op.I = &m, core.Uniform(t, 8)
	case "error":
		op.I = core.Uniform(t, 5) - 1
	case "gen", "defgen":
		if !bad {
			op.Gen = genGenSpec(t)
		}
	case "redirect":
		op.I, op.S = rapid.IntRange(300, 399).Draw(t, "code"), genLocation(t)
		if bad {
			switch core.Uniform(t, 3) {
			case 0:
				op.S = core.Pick(t, []string{"", " ", "\t\r\n "})
			default:
				op.I = core.Pick(t, []int{0, 200, 299, 400, 404, 1000, -300})
			}
		}
	case "errpage":
		op.I = GenStatus(t)
		op.S = rapid.StringN(0, 4, -1).Draw(t, "salt")
		if bad {
			switch core.Uniform(t, 2) {
			case 0:
				op.V = "nil"
			default:
				op.I = core.Pick(t, []int{0, 100, 199, 1000, -404})
			}
		}
	case "r-serve":
		w := WSpec{Caps: core.Uniform(t, 64), Limit: -1, Chunk: 512, Adds: rapid.Bool().Draw(t, "adds"), Pre: core.Chance(t, 4)}
		op.Conn, op.F = &w, core.Chance(t, 4)
	}
	return op
}

// builderTarget makes a target out of a mix of calls.
func builderTarget(name string, quick int, mix []any, badly, minOps, maxOps int, aspects []string, nontrivial func(m *bmachine) bool) *core.Target {
	var kinds []string
	for i := 0; i+1 < len(mix); i += 2 {
		for n := 0; n < mix[i+1].(int); n++ {
			kinds = append(kinds, mix[i].(string))
		}
	}
	return core.New(name, quick, func(t *rapid.T) BCase {
		least := minOps + core.Uniform(t, maxOps-minOps+1)
		ops := rapid.Custom(func(t *rapid.T) BOp { return genBOp(t, kinds, badly) })
		c := BCase{Ops: rapid.SliceOfN(ops, least, maxOps).Draw(t, "ops"), Quiet: core.Chance(t, 3)}
		if core.Chance(t, 10) { // one call again and again
			op := ops.Draw(t, "again")
			for range 2 + core.Uniform(t, 10) {
				c.Ops = append(c.Ops, op)
			}
			c.Ops = append(c.Ops, rapid.SliceOfN(ops, 1, 4).Draw(t, "last")...)
		}
		return c
	}, runBuilder(aspects, nontrivial))
}

func init() {
	calls := []any{"status", 3, "headers", 2, "header", 5, "without", 2, "mutate", 1, "ctype", 2, "lang", 1, "enc", 1, "etag", 1, "digest", 2, "body", 5, "bread", 1, "json", 2, "proto", 1, "text", 1, "error", 2, "gen", 1, "defgen", 1, "redirect", 1, "errpage", 1, "build", 5, "copy", 1}
	helpers := []any{"ctype", 6, "lang", 2, "enc", 2, "etag", 4, "digest", 5, "json", 3, "proto", 2, "text", 2, "header", 2, "headers", 1, "without", 1, "build", 1}
	pages := []any{"redirect", 6, "errpage", 6, "gen", 2, "defgen", 1, "header", 3, "headers", 1, "body", 1, "error", 1, "status", 1, "build", 2, "copy", 1, "digest", 1}
	copies := []any{"copy", 4, "r-copy", 6, "r-serve", 4, "r-read", 3, "r-close", 2, "build", 5, "body", 4, "bread", 1, "header", 4, "headers", 2, "without", 1, "mutate", 5, "status", 1, "error", 1, "gen", 1, "redirect", 1, "errpage", 1, "digest", 2, "json", 1}
	core.Register(&core.Check{
		ID:          "C18",
		Rule:        "a case is a history of builder calls (valid and invalid, several builders, several builds); state is compared with a reference builder after every call and every response with what it was told; non-trivial if a response was built.  lengths: responses over foreign bodies with any number of bytes remaining, built one after another by one builder; non-trivial if more than one",
		Assumptions: []string{"header names handed in as a whole map are in canonical form and have values", "responses are not built over closed bodies"},
		Targets: []*core.Target{builderTarget("calls", 100000, calls, 12, 1, 24, []string{"state"},
			func(m *bmachine) bool { return m.built > 0 }), lengths()},
	})
	core.Register(&core.Check{
		ID:          "C19",
		Rule:        "a case is a history of builder calls with many invalid ones and several builds of the same builder; non-trivial if a call was rejected or a response was built",
		Assumptions: []string{"a nil error is invalid for an error page only (WithError documents that it may be nil)"},
		Targets: []*core.Target{builderTarget("rejections", 100000, calls, 3, 2, 24, []string{"reject", "clean"},
			func(m *bmachine) bool { return m.rejected > 0 || m.built > 0 })},
	})
	core.Register(&core.Check{
		ID:          "C20",
		Rule:        "sequential: a case is a history over up to four builders and six responses that are copied, changed, built, read, served (through connections that change the header map they are given) and closed, everything else being compared after every step; non-trivial if a copy was made and a response built.  concurrent (-race): copies of one response are served at the same time; non-trivial if there are at least two.  copy-failures: copies over a body that cannot always be copied; non-trivial if one failed",
		Assumptions: []string{"the headers of a response are not changed through Headers(), as documented"},
		Targets: []*core.Target{builderTarget("copies", 100000, copies, 40, 3, 30, []string{"copy"},
			func(m *bmachine) bool { return m.copies > 0 && m.built > 0 }), concurrentServe(), copyFailures()},
	})
	core.Register(&core.Check{
		ID:          "C21",
		Rule:        "a case is a history of page calls (codes, hostile and ordinary locations, errors of several types, default or recording generators) on builders that hold other things; non-trivial if a page was made",
		Assumptions: []string{"a page generator hands over the headers and the body it returns"},
		Targets: []*core.Target{builderTarget("pages", 100000, pages, 12, 1, 10, []string{"page"},
			func(m *bmachine) bool { return m.pages > 0 })},
	})
	core.Register(&core.Check{
		ID:          "C22",
		Rule:        "a case is a history of header and payload helper calls; non-trivial if one was accepted",
		Assumptions: []string{"entity tags consist of characters an entity tag may hold", "mime.ParseMediaType decides what a media type means"},
		Targets: []*core.Target{builderTarget("helpers", 100000, helpers, 8, 1, 12, []string{"helper", "reject"},
			func(m *bmachine) bool { return m.helpers > 0 })},
	})
}
