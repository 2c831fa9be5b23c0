package handh

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"net/http"
	"strconv"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/handler"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"github.com/chronos-tachyon/morehttp/zverif/resph"
	"pgregory.net/rapid"
)

// HugeReq is a request answered with more bytes than small number types hold.
type HugeReq struct {
	Size   int64  `json:"size"`
	Status int    `json:"status"`
	Method string `json:"method"`
	Plain  bool   `json:"plain,omitempty"` // the source can only be read forwards
	Stream bool   `json:"stream,omitempty"`
	Limit  int64  `json:"limit"` // bytes the connection accepts; -1 for all
}

// HugeHist is a sequence of them.
type HugeHist struct {
	Reqs []HugeReq `json:"reqs"`
}

// nothing is a source of bytes nobody looks at.
type nothing struct{ size, pos int64 }

func (s *nothing) Read(p []byte) (int, error) {
	n := min(int64(len(p)), s.size-s.pos)
	s.pos += n
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return int(n), nil
}

type nothingAt struct{ *nothing }

func (s nothingAt) ReadAt(p []byte, off int64) (int, error) {
	n := max(min(int64(len(p)), s.size-off), 0)
	if n < int64(len(p)) {
		return int(n), io.EOF
	}
	return int(n), nil
}

// counting is a client connection that counts.
type counting struct {
	hdr   http.Header
	limit int64
	n     int64
	code  int
}

func (c *counting) Header() http.Header { return c.hdr }
func (c *counting) WriteHeader(code int) {
	if c.code == 0 {
		c.code = code
	}
}

func (c *counting) Write(p []byte) (int, error) {
	if c.limit >= 0 && c.n+int64(len(p)) > c.limit {
		k := c.limit - c.n
		c.n = c.limit
		return int(k), resph.ErrConn
	}
	c.n += int64(len(p))
	return len(p), nil
}

// streaming is a connection that can do everything.
type streaming struct{ *counting }

func (c streaming) Flush()                                       {}
func (c streaming) CloseNotify() <-chan bool                     { return nil }
func (c streaming) Hijack() (net.Conn, *bufio.ReadWriter, error) { return nil, nil, resph.ErrHijack }

func (c streaming) ReadFrom(r io.Reader) (total int64, err error) {
	buf := make([]byte, 1<<20)
	for {
		n, rerr := r.Read(buf)
		k, werr := c.counting.Write(buf[:n])
		total += int64(k)
		switch {
		case werr != nil:
			return total, werr
		case rerr == io.EOF:
			return total, nil
		case rerr != nil:
			return total, rerr
		}
	}
}

func genHuge(t *rapid.T) (h HugeHist) {
	for range 1 + core.Uniform(t, 2) {
		r := HugeReq{Limit: -1, Method: core.Pick(t, []string{"GET", "GET", "GET", "POST", "HEAD"}), Status: core.Pick(t, []int{200, 200, 206, 404, 500, 204})}
		r.Plain, r.Stream = core.Chance(t, 4), rapid.Bool().Draw(t, "stream")
		edges := []int{24, 24, 25, 26, 27}
		if !r.Plain {
			edges = append(edges, 31, 32)
		}
		r.Size = int64(1)<<core.Pick(t, edges) + rapid.Int64Range(-3, 70000).Draw(t, "extra")
		if core.Chance(t, 4) {
			r.Limit = min(rapid.Int64Range(1<<24, r.Size+10).Draw(t, "limit"), r.Size)
		}
		h.Reqs = append(h.Reqs, r)
	}
	return h
}

func runHuge(h HugeHist, o *core.Obs) error {
	old := handler.OnPanic
	handler.OnPanic = func(error) {}
	defer func() { handler.OnPanic = old }()
	for i, r := range h.Reqs {
		src := &nothing{size: r.Size}
		var rd io.Reader = nothingAt{src}
		if r.Plain {
			rd = struct{ io.Reader }{src}
		}
		b, err := body.FromReaderAndLength(rd, r.Size)
		if err != nil {
			return err
		}
		c := &counting{hdr: http.Header{}, limit: r.Limit}
		var w http.ResponseWriter = c
		if r.Stream {
			w = streaming{c}
		}
		before := snap()
		if v, panicked := core.Try(func() {
			handler.Adaptor{Inner: handler.HandlerFunc(func(*http.Request) response.Response {
				return *response.NewBuilder().WithStatus(r.Status).WithBody(b).Build()
			})}.ServeHTTP(w, resph.Request(r.Method))
		}); panicked {
			panic(core.Abandon{Label: fmt.Sprintf("offaspect: panic %v", v)})
		}
		after := snap()
		code := strconv.Itoa(c.code)
		if d := delta(before.requests, after.requests); len(d) != 1 || d[code] != 1 {
			return fmt.Errorf("request %d: the request counter rose by %v", i, d)
		}
		if d := delta(before.sent, after.sent); d[code] != float64(c.n) || (c.n > 0) != (len(d) == 1) {
			return fmt.Errorf("request %d: the sent-bytes counter rose by %v instead of %v of %d", i, d, code, c.n)
		}
		if d := after.sentHist.GetSampleSum() - before.sentHist.GetSampleSum(); d != float64(c.n) {
			return fmt.Errorf("request %d: the sum of observed sizes rose by %v instead of %d", i, d, c.n)
		}
		for j, bk := range after.sentHist.Bucket {
			want := uint64(0)
			if float64(c.n) <= bk.GetUpperBound() {
				want = 1
			}
			if d := bk.GetCumulativeCount() - before.sentHist.Bucket[j].GetCumulativeCount(); d != want {
				return fmt.Errorf("request %d: bucket %v of sizes rose by %d for %d bytes", i, bk.GetUpperBound(), d, c.n)
			}
		}
		if c.n > 1<<24 {
			o.NonTrivial()
		}
		o.LabelIf(c.n > 1<<32, "over 4 GiB")
		o.LabelIf(r.Limit >= 0 && c.n == r.Limit, "connection failed")
	}
	return nil
}
