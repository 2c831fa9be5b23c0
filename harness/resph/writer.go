package resph

import (
	"bufio"
	"bytes"
	"cmp"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"syscall"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"pgregory.net/rapid"
)

// WOp is an operation on a wrapped writer.
type WOp struct {
	K string `json:"k"` // header, maybe, write, readfrom, flush, copy, string, push, set
	S int    `json:"s,omitempty"`
	N int    `json:"n,omitempty"`
	E int    `json:"e,omitempty"` // which error a failing reader reports
	F int    `json:"f,omitempty"` // readfrom, copy: 1 the reader fails, 2 it delivers its last bytes along with EOF, 3 it reads short, 4... it is one of the standard library or a body
}

// WCase is a history of operations on a wrapped writer.
type WCase struct {
	Method string `json:"method"`
	Conn   WSpec  `json:"conn"`
	Ops    []WOp  `json:"ops"`
	Quiet  bool   `json:"quiet,omitempty"` // the wrapper is only asked about its accounting at the end
}

func genWOp(t *rapid.T, body bool) WOp {
	kinds := []string{"header", "maybe", "write", "write", "write", "readfrom", "readfrom", "flush", "copy", "string", "push", "set", "wrap", "ask", "other"}
	op := WOp{K: core.Pick(t, kinds)}
	switch op.K {
	case "ask", "other":
		op.S = core.Uniform(t, 3)
	case "header", "maybe":
		op.S = GenStatus(t)
		if core.Chance(t, 3) {
			op.S = 204
		}
		if core.Chance(t, 12) {
			op.S = core.Pick(t, []int{99, 0, -1, 1000, 999, 200, 1, -200, 1 << 32, 200 + 1<<32, 20, 2000})
		}
	case "write", "readfrom", "copy", "string":
		op.N = core.Pick(t, []int{0, 1, 2, 5, 100, 1000, 4095, 4096, 4097, 32768, 32769, 70000})
		if rapid.Bool().Draw(t, "any") {
			op.N = rapid.IntRange(0, 40).Draw(t, "n")
		}
		op.F = core.Uniform(t, 4)
		if core.Chance(t, 3) {
			op.F = 4 + core.Uniform(t, 7)
		}
		if op.F == 1 {
			op.E = core.GenErr(t, false)
		}
	}
	return op
}

func genWCase(t *rapid.T) WCase {
	c := WCase{Method: GenMethod(t)}
	top := 14
	if core.Chance(t, 12) {
		top = 60
	}
	ops := rapid.Custom(func(t *rapid.T) WOp { return genWOp(t, true) })
	c.Ops = rapid.SliceOfN(ops, 1, top).Draw(t, "ops")
	if core.Chance(t, 6) { // one operation again and again
		op := ops.Draw(t, "again")
		if rapid.Bool().Draw(t, "only") {
			c.Ops = nil
		}
		for range 2 + core.Uniform(t, 10) {
			c.Ops = append(c.Ops, op)
		}
		c.Ops = append(c.Ops, rapid.SliceOfN(ops, 1, 4).Draw(t, "last")...)
	}
	c.Quiet = core.Chance(t, 2)
	limit := int64(3000)
	if core.Chance(t, 4) {
		limit = 100000
	}
	c.Conn = GenWSpec(t, limit, core.Chance(t, 2))
	if core.Chance(t, 3) {
		c.Conn.Caps |= CapFlush | CapHijack | CapNotify | CapReadFrom
	}
	if c.Conn.Style == 3 {
		c.Conn.Style = 0 // short writes without an error break the contract of io.Writer
	}
	if c.Conn.Chunk < 100 {
		c.Conn.Chunk = 100
	}
	return c
}

// piece is a reader with drawn manners.
type piece struct {
	p    []byte
	mode int
	err  error
}

var errPiece = errors.New("reader failure")

func (r *piece) Read(p []byte) (int, error) {
	if r.mode == 3 && len(p) > 7 {
		p = p[:7+len(p)/3]
	}
	n := copy(p, r.p)
	r.p = r.p[n:]
	if len(r.p) == 0 && (n == 0 || r.mode == 2) {
		if r.mode == 1 {
			return n, r.err
		}
		return n, io.EOF
	}
	return n, nil
}

// reader makes the reader that an operation streams.
func reader(data []byte, mode int, err error) io.Reader {
	data = bytes.Clone(data)
	more := append(bytes.Clone(data), "more"...)
	switch mode {
	case 4:
		return bytes.NewReader(data)
	case 5:
		return bytes.NewBuffer(data)
	case 6:
		return io.LimitReader(bytes.NewReader(more), int64(len(data)))
	case 7:
		return io.LimitReader(body.FromString(string(more)), int64(len(data)))
	case 8:
		return body.FromBytes(data)
	case 9:
		return bufio.NewReader(io.MultiReader(bytes.NewReader(data[:len(data)/2]), strings.NewReader(string(data[len(data)/2:]))))
	case 10:
		return io.NewSectionReader(bytes.NewReader(more), 0, int64(len(data)))
	}
	return &piece{data, mode, err}
}

func fill(n int, salt int) []byte {
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(i*7 + i>>8 + salt*31)
	}
	return p
}

// noStatus tells whether a number is not the status of any response.
func noStatus(n int) bool { return n < 100 || n > 999 }

func runWriter(c WCase, o *core.Obs) error {
	conn := c.Conn.Conn()
	defer conn.release()
	ww := response.NewWriter(conn.W(), Request(c.Method))
	var (
		status  int
		want    []byte // what the client must have been offered
		sawErr  bool
		unknown bool // the error indication is not determined: a reader failed while being streamed
		nsec    int
		nbad    int
		bodyOps int
	)
	for i, op := range c.Ops {
		id := fmt.Sprintf("operation %d (%s)", i, op.K)
		suppress := func() bool { return IsHead(c.Method) || status == 204 }
		failed, accepted := conn.Failed(), conn.Accepted()
		ensure := func() {
			if status == 0 {
				status = 200
			}
		}
		switch op.K {
		case "set":
			ww.Header().Set("X-Op", id)
			if conn.hdr.Get("X-Op") != id {
				return fmt.Errorf("%s: the header map is not the connection's", id)
			}
		case "push":
			ww.Push("/x", nil)
		case "wrap":
			ww = response.NewWriter(ww, Request([]string{"GET", "HEAD", c.Method}[i%3]))
		case "ask":
			switch op.S {
			case 0:
				ww.Status()
			case 1:
				ww.BytesWritten()
			default:
				ww.SawError()
			}
		case "other":
			switch hj, ok := ww.(http.Hijacker); {
			case op.S == 0 && ok:
				hj.Hijack() // fails
			case op.S == 1 && ok:
				ww.(http.CloseNotifier).CloseNotify()
			default:
				ww.Unwrap()
			}
		case "header":
			before := len(conn.Events("header"))
			_, panicked := core.Try(func() { ww.WriteHeader(op.S) })
			if noStatus(op.S) {
				if !panicked {
					return fmt.Errorf("%s: the impossible status %d was accepted", id, op.S)
				}
				if n := len(conn.Events("header")); n != before {
					return fmt.Errorf("%s: the impossible status %d was forwarded", id, op.S)
				}
				if status != 0 {
					unknown = true // it was a second status, too
				}
				nbad++
				break
			}
			if panicked != (status != 0) {
				return fmt.Errorf("%s: status %d after %d: panicked %v", id, op.S, status, panicked)
			}
			if status != 0 {
				sawErr = true
				nsec++
				if n := len(conn.Events("header")); n != before {
					return fmt.Errorf("%s: a second status was forwarded", id)
				}
			} else {
				status = op.S
			}
		case "maybe":
			_, panicked := core.Try(func() { ww.MaybeWriteHeader(op.S) })
			if noStatus(op.S) {
				if status == 0 && !panicked {
					return fmt.Errorf("%s: the impossible status %d was accepted", id, op.S)
				}
				nbad++
				break
			}
			if panicked {
				return fmt.Errorf("%s: panicked", id)
			}
			if status == 0 {
				status = op.S
			}
		case "flush":
			f, ok := ww.(http.Flusher)
			if !ok {
				continue
			}
			ensure()
			f.Flush()
		default:
			data := fill(op.N, i)
			var n int64
			var err error
			rmode := 0
			rerr := core.Err(op.E, errPiece)
			switch op.K {
			case "write":
				var k int
				k, err = ww.Write(bytes.Clone(data))
				n = int64(k)
			case "string":
				var k int
				k, err = io.WriteString(ww, string(data))
				n = int64(k)
			case "readfrom":
				rf, ok := ww.(io.ReaderFrom)
				if !ok {
					continue
				}
				rmode = op.F
				n, err = rf.ReadFrom(reader(data, op.F, rerr))
			case "copy":
				_, isRF := ww.(io.ReaderFrom)
				if len(data) == 0 && (!isRF || op.F > 3) {
					continue // nothing is written
				}
				rmode = op.F
				n, err = io.Copy(ww, reader(data, op.F, rerr))
			}
			bodyOps++
			ensure()
			if suppress() {
				if n != int64(len(data)) || (err != nil && rmode != 1) {
					return fmt.Errorf("%s: %d of %d bytes were accepted, %v, although none is sent for %s, status %d", id, n, len(data), err, c.Method, status)
				}
				if rmode == 1 {
					unknown = true
				}
			} else {
				got := conn.Accepted() - accepted
				want = append(want, data[:min(int64(len(data)), got)]...)
				wantErr := conn.Failed() > failed
				if wantErr {
					sawErr = true
				}
				readerFailed := rmode == 1 && !wantErr
				if readerFailed {
					unknown = true
				}
				switch {
				case wantErr && !errors.Is(err, c.Conn.ConnErr()):
					return fmt.Errorf("%s: a failed write was reported as %v", id, err)
				case readerFailed && !errors.Is(err, rerr):
					return fmt.Errorf("%s: a failed reader was reported as %v", id, err)
				case !wantErr && !readerFailed && err != nil:
					return fmt.Errorf("%s: %v although nothing failed", id, err)
				case err == nil && n != int64(len(data)):
					return fmt.Errorf("%s: accepted %d of %d bytes without an error", id, n, len(data))
				case n != got && op.K != "copy":
					return fmt.Errorf("%s: reported %d bytes, the connection accepted %d", id, n, got)
				}
			}
		}
		if !c.Quiet || i == len(c.Ops)-1 {
			if got := ww.Status(); got != status {
				return fmt.Errorf("%s: Status() is %d instead of %d", id, got, status)
			}
			if got := ww.BytesWritten(); got != conn.Accepted() {
				return fmt.Errorf("%s: BytesWritten() is %d but the connection accepted %d", id, got, conn.Accepted())
			}
			if got := ww.SawError(); got != sawErr && !(unknown && !sawErr) {
				return fmt.Errorf("%s: SawError() is %v instead of %v", id, got, sawErr)
			}
		}
		headers := conn.Events("header")
		if len(headers) > 1 || (status == 0) != (len(headers) == 0) {
			return fmt.Errorf("%s: forwarded statuses %v, expected %d", id, headers, status)
		}
		if status != 0 && headers[0].Status != status {
			return fmt.Errorf("%s: status %d was forwarded as %d", id, status, headers[0].Status)
		}
		if len(conn.Events("implicit")) != 0 {
			return fmt.Errorf("%s: reached the connection before a status", id)
		}
		if suppress() && len(conn.Events("body")) > 0 {
			for _, e := range conn.Events("body") {
				if e.N > 0 {
					return fmt.Errorf("%s: body bytes were forwarded for %s, status %d", id, c.Method, status)
				}
			}
		}
		if !bytes.Equal(conn.Body(), want) {
			return fmt.Errorf("%s: the client got other bytes than those written", id)
		}
	}
	o.Label("caps:%T", ww)
	o.LabelIf(conn.Failed() > 0, "write failed")
	o.LabelIf(nsec > 0, "second status")
	o.LabelIf(nbad > 0, "impossible status")
	o.LabelIf(IsHead(c.Method) || status == 204, "no body allowed")
	if status != 0 && (bodyOps > 0 || nsec > 0) {
		o.NonTrivial()
	}
	return nil
}

// CapsCase looks at what a wrapper offers.
type CapsCase struct {
	Caps   int    `json:"caps"`
	Method string `json:"method"`
	Twice  int    `json:"twice"` // how it is wrapped again: 0 not, 1 as it is, 2 with another request, 3 hidden in another Writer
	Use    []int  `json:"use"`
	Errs   []int  `json:"errs"`
	Limit  int64  `json:"limit"`
	Err    int    `json:"err,omitempty"`
	Decoy  bool   `json:"decoy,omitempty"`
	Quiet  bool   `json:"quiet,omitempty"` // the status is only asked for at the end
}

// ownWriter is a Writer that is not one of the package's own.
type ownWriter struct{ response.Writer }

func runCaps(c CapsCase, o *core.Obs) error {
	spec := WSpec{Caps: c.Caps & 63, Limit: c.Limit, Pushes: c.Errs, Chunk: 4096, Err: c.Err, PushErr: c.Err, Decoy: c.Decoy}
	conn := spec.Conn()
	defer conn.release()
	under := conn.W()
	for _, without := range []func(){
		func() { response.NewWriter(nil, Request(c.Method)) },
		func() { response.NewWriter(under, nil) },
	} {
		if _, panicked := core.Try(without); !panicked {
			return fmt.Errorf("wrapping without a writer or without a request was accepted")
		}
	}
	ww := response.NewWriter(under, Request(c.Method))
	switch c.Twice {
	case 1:
		if again := response.NewWriter(ww, Request(c.Method)); again != ww {
			return fmt.Errorf("wrapping a wrapper made another one")
		}
	case 2:
		if again := response.NewWriter(ww, Request("HEAD")); again != ww {
			return fmt.Errorf("wrapping a wrapper for another request made another one")
		}
	case 3:
		own := &ownWriter{ww}
		if again := response.NewWriter(own, Request(c.Method)); again != response.Writer(own) {
			return fmt.Errorf("wrapping a foreign Writer made another one")
		}
	}
	if !c.Quiet && ww.Unwrap() != under {
		return fmt.Errorf("Unwrap does not give back the writer")
	}
	fl, isF := ww.(http.Flusher)
	hj, isH := ww.(http.Hijacker)
	cn, isN := ww.(http.CloseNotifier)
	rf, isR := ww.(io.ReaderFrom)
	all := CapFlush | CapHijack | CapNotify | CapReadFrom
	full := spec.Caps&all == all
	for _, x := range []struct {
		name string
		bit  int
		has  bool
		must bool
	}{
		{"http.Flusher", CapFlush, isF, spec.Caps&CapFlush != 0},
		{"http.Hijacker", CapHijack, isH, full},
		{"http.CloseNotifier", CapNotify, isN, full},
		{"io.ReaderFrom", CapReadFrom, isR, full},
	} {
		if x.has && spec.Caps&x.bit == 0 {
			return fmt.Errorf("offers %s, which the writer lacks", x.name)
		}
		if x.must && !x.has {
			return fmt.Errorf("does not offer %s (capabilities %06b)", x.name, spec.Caps)
		}
	}
	headers := func() error {
		ww.Header().Set("X-Set", "through")
		if conn.hdr.Get("X-Set") != "through" {
			return fmt.Errorf("the header map is not the writer's own")
		}
		conn.hdr.Set("X-Under", "below")
		if ww.Header().Get("X-Under") != "below" {
			return fmt.Errorf("the header map is not the writer's own")
		}
		return nil
	}
	if !c.Quiet {
		if err := headers(); err != nil {
			return err
		}
	}
	status := 0
	count := func(k string) int { return len(conn.Events(k)) }
	for i, u := range c.Use {
		ev, flushes := len(conn.events), count("flush")
		switch u {
		case 0:
			if !isF {
				continue
			}
			fl.Flush()
			status = cmp.Or(status, 200)
			if len(conn.events) == ev || count("flush") != flushes+1 || conn.events[len(conn.events)-1].Kind != "flush" || count("header") != 1 {
				return fmt.Errorf("use %d: Flush was not forwarded", i)
			}
		case 1:
			if !isH {
				continue
			}
			nc, rw, err := hj.Hijack()
			if nc != net.Conn(conn.inner) || rw != (*bufio.ReadWriter)(conn.rw) || err != ErrHijack || len(conn.events) != ev+1 {
				return fmt.Errorf("use %d: Hijack was not forwarded or changed its results", i)
			}
		case 2:
			if !isN {
				continue
			}
			if ch := cn.CloseNotify(); ch != (<-chan bool)(conn.notify) || len(conn.events) != ev+1 {
				return fmt.Errorf("use %d: CloseNotify was not forwarded or changed its result", i)
			}
		case 3:
			if !isR {
				continue
			}
			data := fill(100+i, i)
			got := conn.Accepted()
			n, err := rf.ReadFrom(bytes.NewReader(data))
			status = cmp.Or(status, 200)
			if IsHead(c.Method) {
				if n != int64(len(data)) || err != nil || conn.Accepted() != got {
					return fmt.Errorf("use %d: ReadFrom for HEAD returned %d, %v", i, n, err)
				}
				continue
			}
			if n != conn.Accepted()-got || (err == nil) != (n == int64(len(data))) || (err != nil && !core.SameErr(err, spec.ConnErr())) {
				return fmt.Errorf("use %d: ReadFrom returned %d, %v; the writer accepted %d of %d", i, n, err, conn.Accepted()-got, len(data))
			}
		case 6:
			ww.Write(nil)
			status = cmp.Or(status, 200)
		case 7:
			if status == 0 {
				ww.WriteHeader(201)
				status = 201
			} else if _, panicked := core.Try(func() { ww.WriteHeader(202) }); !panicked {
				return fmt.Errorf("use %d: a second status was accepted", i)
			}
		case 8:
			ww.MaybeWriteHeader(202)
			status = cmp.Or(status, 202)
		case 9:
			if ww.Unwrap() != under {
				return fmt.Errorf("use %d: Unwrap does not give back the writer", i)
			}
		case 10:
			if again := response.NewWriter(ww, Request("HEAD")); again != ww {
				return fmt.Errorf("use %d: wrapping a wrapper made another one", i)
			}
		case 11:
			ww.Header().Set("X-Use", fmt.Sprint(i))
			if conn.hdr.Get("X-Use") != fmt.Sprint(i) {
				return fmt.Errorf("use %d: the header map is not the writer's own", i)
			}
		case 12:
			ww.BytesWritten()
		case 13:
			ww.SawError()
		default:
			opts := []*http.PushOptions{{Method: "GET", Header: http.Header{"X": {"y"}}}, {}, {Header: http.Header{"X": {"y", "z"}, "Accept": nil}}, {Method: "HEAD"}}[(i+c.Caps)%4]
			if u == 5 {
				opts = nil
			}
			was := fmt.Sprintf("%+v", opts)
			url := fmt.Sprintf("/push/%d", i)
			var want error = http.ErrNotSupported
			if spec.Caps&CapPush != 0 {
				want = nil
				if k := conn.pushes; k < len(spec.Pushes) {
					want = []error{nil, spec.PushFailure(), http.ErrNotSupported, errNotSup}[spec.Pushes[k]]
				}
			}
			err := ww.Push(url, opts)
			if !core.SameErr(err, want) && !(spec.Caps&CapPush == 0 && errors.Is(err, want)) {
				return fmt.Errorf("use %d: Push returned %v instead of %v", i, err, want)
			}
			if spec.Caps&CapPush != 0 {
				if len(conn.events) != ev+1 {
					return fmt.Errorf("use %d: Push was not forwarded once", i)
				}
				if e := conn.events[ev]; e.Kind != "push" || e.URL != url || e.Opts != opts || fmt.Sprintf("%+v", opts) != was {
					return fmt.Errorf("use %d: Push was forwarded as %+v", i, e)
				}
			}
		}
		if (!c.Quiet || i == len(c.Use)-1) && ww.Status() != status {
			return fmt.Errorf("use %d: status %d instead of %d", i, ww.Status(), status)
		}
	}
	if ww.Unwrap() != under {
		return fmt.Errorf("Unwrap does not give back the writer at last")
	}
	if err := headers(); err != nil {
		return err
	}
	o.Label("wrapper:%T", ww)
	o.NonTrivial()
	return nil
}

func genCaps(t *rapid.T) CapsCase {
	c := CapsCase{Caps: core.Uniform(t, 64), Method: GenMethod(t), Twice: core.Uniform(t, 4), Limit: -1}
	if core.Chance(t, 3) {
		c.Caps |= CapFlush | CapHijack | CapNotify | CapReadFrom
	}
	if core.Chance(t, 3) {
		c.Limit = int64(core.Uniform(t, 150))
	}
	c.Use = rapid.SliceOfN(rapid.IntRange(0, 13), 0, 8).Draw(t, "use")
	if core.Chance(t, 6) {
		again := core.Uniform(t, 14)
		for range 2 + core.Uniform(t, 12) {
			c.Use = append(c.Use, again)
		}
		c.Use = append(c.Use, rapid.SliceOfN(rapid.IntRange(0, 13), 1, 20).Draw(t, "use2")...)
	}
	c.Quiet = core.Chance(t, 2)
	if c.Quiet && core.Chance(t, 3) && len(c.Use) > 2 {
		c.Use = c.Use[len(c.Use)-2:]
	}
	c.Errs = rapid.SliceOfN(rapid.IntRange(0, 3), 0, 4).Draw(t, "errs")
	c.Err = core.GenErr(t, true)
	c.Decoy = core.Chance(t, 3)
	return c
}

// BogusW lets a connection report impossible counts.
type BogusW struct {
	Method string `json:"method"`
	Conn   WSpec  `json:"conn"`
	Ops    []WOp  `json:"ops"`
}

func runBogusW(c BogusW, o *core.Obs) error {
	conn := c.Conn.Conn()
	ww := response.NewWriter(conn.W(), Request(c.Method))
	for i, op := range c.Ops {
		var n, size int64
		var err error
		before := ww.BytesWritten()
		_, panicked := core.Try(func() {
			data := fill(op.N, i)
			size = int64(len(data))
			switch op.K {
			case "write":
				var k int
				k, err = ww.Write(data)
				n = int64(k)
			default:
				rf, ok := ww.(io.ReaderFrom)
				if !ok {
					n, size = 0, 0
					return
				}
				n, err = rf.ReadFrom(&piece{data, op.F, errPiece})
			}
		})
		if conn.bogus {
			o.NonTrivial()
			o.Label("%s", op.K)
			if !panicked {
				return fmt.Errorf("operation %d (%s): the connection reported %d bytes for %d and the wrapper returned %d, %v", i, op.K, c.Conn.Bogus, size, n, err)
			}
			if ww.BytesWritten() < before {
				return fmt.Errorf("operation %d (%s): BytesWritten went from %d to %d", i, op.K, before, ww.BytesWritten())
			}
			return nil
		}
		if panicked {
			return fmt.Errorf("operation %d (%s): panicked although all counts were possible", i, op.K)
		}
		if n < 0 || n > size {
			return fmt.Errorf("operation %d (%s): returned %d for %d bytes", i, op.K, n, size)
		}
	}
	return nil
}

// WriterBogus is the part of C16 that is about response writers.
func WriterBogus() *core.Target {
	return core.New("writer-counts", 4000, func(t *rapid.T) BogusW {
		c := BogusW{Method: "GET", Conn: WSpec{Caps: core.Uniform(t, 64), Limit: -1, Chunk: 50}}
		if rapid.Bool().Draw(t, "full") {
			c.Conn.Caps = 63
		}
		c.Conn.Bogus = core.Pick(t, []int64{-1, -2, -1000, -1 << 31, -1 << 62})
		c.Conn.At = core.Uniform(t, 4)
		c.Conn.BogusErr = core.Chance(t, 3)
		c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) WOp {
			return WOp{K: core.Pick(t, []string{"write", "readfrom"}), N: core.Uniform(t, 120), F: []int{0, 2, 3}[core.Uniform(t, 3)]}
		}), 1, 6).Draw(t, "ops")
		return c
	}, runBogusW)
}

// LargeW sends more bytes than 32 bits can count.
type LargeW struct {
	Caps  int   `json:"caps"`
	Limit int64 `json:"limit"` // MiB accepted before writes fail; -1 means no limit
	Ops   []int `json:"ops"`   // MiB written, or if negative streamed from a reader
}

// untouched is a reader that leaves the buffers it is given as they are.
type untouched struct{ n int64 }

func (r *untouched) Read(p []byte) (int, error) {
	if r.n == 0 {
		return 0, io.EOF
	}
	n := min(int64(len(p)), r.n)
	r.n -= n
	return int(n), nil
}

const hugeSize = 4500 << 20

// hugeBuffer is memory that nobody touches, so that it costs nothing.
var hugeBuffer = sync.OnceValue(func() []byte {
	p, err := syscall.Mmap(-1, 0, hugeSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		panic(core.Abandon{Label: "no address space"})
	}
	return p
})

func runLarge(c LargeW, o *core.Obs) error {
	const mib = 1 << 20
	spec := WSpec{Caps: c.Caps, Limit: c.Limit, Chunk: 8 * mib}
	if c.Limit >= 0 {
		spec.Limit = c.Limit * mib
	}
	conn := spec.Conn().Discard()
	defer conn.release()
	ww := response.NewWriter(conn.W(), Request("GET"))
	for i, op := range c.Ops {
		before, failed := conn.Accepted(), conn.Failed()
		var n, size int64
		var err error
		if op >= 0 {
			size = int64(op) * mib
			var k int
			k, err = ww.Write(hugeBuffer()[:size])
			n = int64(k)
		} else {
			size = int64(-op) * mib
			rf, ok := ww.(io.ReaderFrom)
			if !ok {
				continue
			}
			n, err = rf.ReadFrom(&untouched{size})
		}
		if got := conn.Accepted() - before; n != got || (err != nil) != (conn.Failed() > failed) {
			return fmt.Errorf("operation %d of %d bytes: reported %d, %v; the connection accepted %d", i, size, n, err, got)
		}
		if got := ww.BytesWritten(); got != conn.Accepted() {
			return fmt.Errorf("operation %d: BytesWritten() is %d but the connection accepted %d", i, got, conn.Accepted())
		}
		if got := ww.SawError(); got != (conn.Failed() > 0) {
			return fmt.Errorf("operation %d: SawError() is %v", i, got)
		}
	}
	o.LabelIf(conn.Accepted() > 1<<32, "over 4 GiB")
	if conn.Accepted() > 1<<31 {
		o.Label("over 2 GiB")
		o.NonTrivial()
	}
	return nil
}

func largeTarget() *core.Target {
	return core.New("large", 400, func(t *rapid.T) LargeW {
		c := LargeW{Caps: core.Uniform(t, 64), Limit: -1}
		if rapid.Bool().Draw(t, "full") {
			c.Caps = 63
		}
		if core.Chance(t, 3) {
			c.Limit = int64(core.Uniform(t, 6000))
		}
		for range 1 + core.Uniform(t, 6) {
			n := core.Uniform(t, 900)
			if core.Chance(t, 4) {
				n = 2000 + core.Uniform(t, 2500)
			}
			if rapid.Bool().Draw(t, "stream") {
				n = -n
			}
			c.Ops = append(c.Ops, n)
		}
		return c
	}, runLarge)
}

func init() {
	core.Register(&core.Check{
		ID:          "C24",
		Rule:        "a case is a request method, a client connection (capabilities, failing after some bytes) and a history of operations on the wrapper, its accounting being compared after every operation; non-trivial if a status went out and a body was written or a second status tried",
		Assumptions: []string{"connections that accept less than offered report an error", "final statuses (200 to 999)"},
		Targets:     []*core.Target{core.New("accounting", 40000, genWCase, runWriter), largeTarget()},
	})
	core.Register(&core.Check{
		ID:          "C25",
		Rule:        "a case is one of 64 capability sets of the connection, a request, a way of wrapping again and a sequence of uses of the capabilities; all count as non-trivial",
		Assumptions: []string{},
		Targets:     []*core.Target{core.New("capabilities", 30000, genCaps, runCaps)},
	})
}
