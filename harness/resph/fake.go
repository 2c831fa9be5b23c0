// Package resph checks the properties of package response.
package resph

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"sync"
	"time"

	"github.com/chronos-tachyon/morehttp/zverif/core"
	"pgregory.net/rapid"
)

// Capability bits of a client connection.
const (
	CapFlush = 1 << iota
	CapPush
	CapHijack
	CapNotify
	CapReadFrom
	CapString
)

// WSpec describes how a client connection behaves.
type WSpec struct {
	Caps     int    `json:"caps,omitempty"`
	Limit    int64  `json:"limit"`              // body bytes accepted before writes fail; -1 means no limit
	Style    int    `json:"style,omitempty"`    // 0: part and error, 1: nothing and error, 2: everything and error (once over the limit), 3: short without error
	Chunk    int    `json:"chunk,omitempty"`    // buffer size of ReadFrom
	Panic    string `json:"panic,omitempty"`    // header, write, push: panics there
	Pushes   []int  `json:"pushes,omitempty"`   // result of successive pushes: 0 nil, 1 failure, 2 not supported, 3 wraps not supported
	Pre      bool   `json:"pre,omitempty"`      // the header map has entries already
	Adds     bool   `json:"adds,omitempty"`     // the connection appends to the header values it is given
	Bogus    int64  `json:"bogus,omitempty"`    // if not zero, the BogusAt-th body write reports this count (relative to the size if positive)
	BogusErr bool   `json:"bogusErr,omitempty"` // and an error along with it
	At       int    `json:"at,omitempty"`
	Err      int    `json:"err,omitempty"`     // which error failing writes report
	PushErr  int    `json:"pushErr,omitempty"` // which error failing pushes report
	Decoy    bool   `json:"decoy,omitempty"`   // the connection has methods of other libraries, too
	Slow     int    `json:"slow,omitempty"`    // how long the first body write takes, in milliseconds
}

var (
	ErrConn   = errors.New("client connection failure")
	ErrPush   = errors.New("push failure")
	ErrHijack = errors.New("hijack result")
	errNotSup = fmt.Errorf("wrapped: %w", http.ErrNotSupported)
)

// ConnErr is what failing body writes report.
func (spec *WSpec) ConnErr() error { return core.Err(spec.Err, ErrConn) }

// PushFailure is what failing pushes report.
func (spec *WSpec) PushFailure() error { return core.Err(spec.PushErr, ErrPush) }

// WPanic is the value a connection panics with.
const WPanic = "client connection panic"

// Event is something a client connection was asked to do.
type Event struct {
	Kind   string // push, header, body, flush, hijack, notify
	Status int
	URL    string
	Opts   *http.PushOptions
	N      int // bytes offered
	Hdrs   http.Header
}

// Conn is a recording client connection.
type Conn struct {
	spec   WSpec
	mu     sync.Mutex
	hdr    http.Header
	events []Event
	body   []byte
	status int // first final status
	failed int // body writes that failed or were short
	writes int
	pushes int
	bogus  bool

	inner, outer net.Conn
	rw           *bufio.ReadWriter
	notify       chan bool
	discard      bool // do not keep the body
	accepted     int64
	busy         time.Time // when the last body write was under way
}

func (spec WSpec) Conn() *Conn {
	c := &Conn{spec: spec, hdr: http.Header{}, notify: make(chan bool)}
	if spec.Pre {
		c.hdr["X-Pre"] = []string{"kept"}
		c.hdr["Content-Type"] = []string{"text/replaced", "by/response"}
		c.hdr["Cache-Control"] = []string{"private"}
	}
	return c
}

func (c *Conn) event(e Event) {
	c.events = append(c.events, e)
}

func (c *Conn) Header() http.Header { return c.hdr }

func (c *Conn) WriteHeader(status int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.header(status)
	if c.spec.Panic == "header" {
		panic(WPanic)
	}
}

func (c *Conn) header(status int) {
	c.event(Event{Kind: "header", Status: status, Hdrs: c.hdr.Clone()})
	if c.status == 0 {
		c.status = status
	}
	if c.spec.Adds {
		// What follows must not be seen by anybody else.
		for k, v := range c.hdr {
			for i := range v {
				v[i] = "changed by the connection"
			}
			c.hdr[k] = append(v, "added by the connection")
		}
	}
}

// accept takes body bytes and says what the write reports.
func (c *Conn) accept(p []byte) (int, error) {
	if c.status == 0 {
		c.event(Event{Kind: "implicit", Status: 200})
		c.status = 200
	}
	c.event(Event{Kind: "body", N: len(p)})
	if c.spec.Slow > 0 && c.writes == 0 {
		time.Sleep(time.Duration(c.spec.Slow) * time.Millisecond)
	}
	c.busy = time.Now()
	if c.spec.Panic == "write" {
		panic(WPanic)
	}
	n := c.writes
	c.writes++
	if c.spec.Bogus != 0 && n == c.spec.At {
		c.bogus = true
		var err error
		if c.spec.BogusErr {
			err = c.spec.ConnErr()
		}
		if c.spec.Bogus > 0 {
			return len(p) + int(c.spec.Bogus), err
		}
		return int(c.spec.Bogus), err
	}
	room := c.spec.Limit - c.accepted
	if c.spec.Limit < 0 || int64(len(p)) <= room {
		c.take(p)
		return len(p), nil
	}
	if room < 0 {
		room = 0
	}
	c.failed++
	switch c.spec.Style {
	case 1:
		return 0, c.spec.ConnErr()
	case 2:
		c.take(p)
		return len(p), c.spec.ConnErr()
	case 3:
		c.take(p[:room])
		return int(room), nil
	default:
		c.take(p[:room])
		return int(room), c.spec.ConnErr()
	}
}

func (c *Conn) take(p []byte) {
	c.accepted += int64(len(p))
	if !c.discard {
		c.body = append(c.body, p...)
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.accept(p)
}

func (c *Conn) WriteString(s string) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.accept([]byte(s))
}

func (c *Conn) ReadFrom(r io.Reader) (total int64, err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	size := c.spec.Chunk
	if size <= 0 {
		size = 4096
	}
	buf := make([]byte, size)
	for {
		n, rerr := r.Read(buf)
		if n > 0 {
			k, werr := c.accept(buf[:n])
			if c.bogus {
				return int64(k), werr
			}
			total += int64(k)
			if werr != nil {
				return total, werr
			}
			if k < n {
				return total, io.ErrShortWrite
			}
		}
		if rerr == io.EOF {
			return total, nil
		}
		if rerr != nil {
			return total, rerr
		}
	}
}

func (c *Conn) Flush() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.status == 0 {
		c.event(Event{Kind: "implicit", Status: 200})
		c.status = 200
	}
	c.event(Event{Kind: "flush"})
}

func (c *Conn) Push(url string, opts *http.PushOptions) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.event(Event{Kind: "push", URL: url, Opts: opts})
	i := c.pushes
	c.pushes++
	if c.spec.Panic == "push" {
		panic(WPanic)
	}
	if i < len(c.spec.Pushes) {
		switch c.spec.Pushes[i] {
		case 1:
			return c.spec.PushFailure()
		case 2:
			return http.ErrNotSupported
		case 3:
			return errNotSup
		}
	}
	return nil
}

func (c *Conn) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.event(Event{Kind: "hijack"})
	if c.inner == nil {
		c.inner, c.outer = net.Pipe()
		c.rw = bufio.NewReadWriter(bufio.NewReader(c.inner), bufio.NewWriter(c.inner))
	}
	return c.inner, c.rw, ErrHijack
}

func (c *Conn) CloseNotify() <-chan bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.event(Event{Kind: "notify"})
	return c.notify
}

func (c *Conn) release() {
	if c.inner != nil {
		c.inner.Close()
		c.outer.Close()
	}
}

// Busy is a time when the last body write was under way.
func (c *Conn) Busy() time.Time { return c.busy }

// Status is the status the client was sent, or 0.
func (c *Conn) Status() int { c.mu.Lock(); defer c.mu.Unlock(); return c.status }

// Accepted is the number of body bytes the connection accepted.
func (c *Conn) Accepted() int64 { c.mu.Lock(); defer c.mu.Unlock(); return c.accepted }

// Body is what the client got.
func (c *Conn) Body() []byte { return c.body }

// Failed is the number of body writes that failed.
func (c *Conn) Failed() int { return c.failed }

// Events of a kind.
func (c *Conn) Events(kinds ...string) (out []Event) {
	for _, e := range c.events {
		for _, k := range kinds {
			if e.Kind == k {
				out = append(out, e)
			}
		}
	}
	return
}

// Discard stops the connection from keeping the body.
func (c *Conn) Discard() *Conn { c.discard = true; return c }

// GenWSpec draws a connection that may fail.
func GenWSpec(t *rapid.T, length int64, fail bool) WSpec {
	w := WSpec{Caps: core.Uniform(t, 64), Limit: -1, Chunk: core.Pick(t, []int{1, 7, 512, 4096, 32768, 65536, 100000})}
	if length > 20000 && w.Chunk < 100 {
		w.Chunk = 512
	}
	w.Pre = core.Chance(t, 3)
	w.Decoy = core.Chance(t, 4)
	if fail && core.Chance(t, 3) {
		w.Limit = rapid.Int64Range(0, max(length, 1)).Draw(t, "limit")
		w.Style = core.Uniform(t, 4)
		w.Err = core.GenErr(t, true)
	}
	return w
}
