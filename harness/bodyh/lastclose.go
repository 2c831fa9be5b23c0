package bodyh

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"pgregory.net/rapid"
)

// Tight is a short concurrent program over one body, run over and over again
// on fresh bodies by goroutines that start each round at the same moment, so
// that windows of a few instructions are met.
type Tight struct {
	Ctor   string     `json:"ctor"` // bytes, empty, reader, readerlen
	Caps   int        `json:"caps"`
	Len    int64      `json:"len"`
	Procs  [][]string `json:"procs"`
	Stride []int      `json:"stride"` // how the moment at which each goroutine starts varies
	Rounds int        `json:"rounds"`
}

func genTight(t *rapid.T) Tight {
	c := Tight{Ctor: core.Pick(t, []string{"reader", "readerlen", "readerlen", "readerlen", "bytes", "empty"}), Rounds: 2000}
	c.Len = core.Pick(t, []int64{1, 3, 8, 8, 64})
	if c.Ctor == "empty" {
		c.Len = 0
	}
	c.Caps = core.Pick(t, []int{0, 0, CapSeek, CapSeek, CapAt, CapSeek | CapAt})
	mix := ops("copy", 5, "close", 4, "remain", 1, "readat", 1, "unwrap", 1, "hold", 1)
	if core.Chance(t, 3) {
		mix = append(mix, ops("read", 4, "drain", 1)...)
	}
	n := 2 + core.Uniform(t, 2)
	for i := 0; i < n; i++ {
		var p []string
		for range 1 + core.Uniform(t, 2) {
			p = append(p, core.Pick(t, mix))
		}
		c.Procs = append(c.Procs, p)
		c.Stride = append(c.Stride, core.Uniform(t, 40))
	}
	return c
}

// tightBody is what a round works on.
type tightBody struct {
	b      body.Body
	src    *raw
	r      io.Reader
	closed atomic.Int32 // Close calls that did not report fs.ErrClosed
	got    atomic.Uint64
	held   atomic.Pointer[body.Body]
}

func runTight(c Tight, o *core.Obs) error {
	s := &Src{Ctor: c.Ctor, Caps: CapClose | c.Caps, Len: c.Len, Declared: c.Len}
	want := s.all(s.Len)
	reads := false
	for _, p := range c.Procs {
		for _, op := range p {
			reads = reads || op == "read" || op == "drain"
		}
	}
	rounds := make([]tightBody, c.Rounds)
	for i := range rounds {
		tb := &rounds[i]
		var err error
		switch c.Ctor {
		case "bytes":
			tb.b = body.FromBytes(want)
		case "empty":
			tb.b = body.Empty()
		default:
			tb.src = &raw{spec: s}
			tb.r = tb.src.wrap()
			length := int64(-1)
			if c.Ctor == "readerlen" {
				length = c.Len
			}
			tb.b, err = body.FromReaderAndLength(tb.r, length)
		}
		if err != nil {
			return err
		}
	}
	var wg sync.WaitGroup
	var arrived atomic.Int64
	var broken atomic.Bool
	errs := make([]error, len(c.Procs))
	for g := range c.Procs {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			var k int
			defer func() {
				if x := recover(); x != nil {
					errs[g] = fmt.Errorf("round %d: goroutine %d: panic: %v", k, g, x)
				}
				if errs[g] != nil {
					broken.Store(true)
				}
			}()
			for k = range rounds {
				arrived.Add(1)
				for spin := 1; arrived.Load() < int64((k+1)*len(c.Procs)); spin++ {
					if broken.Load() {
						return
					}
					if spin%200 == 0 {
						runtime.Gosched()
					}
				}
				for i := 0; i < k*c.Stride[g]%97; i++ {
					if broken.Load() {
						return
					}
				}
				for j, op := range c.Procs[g] {
					if err := tightOp(&rounds[k], op, want, reads); err != nil {
						errs[g] = fmt.Errorf("round %d: goroutine %d: op %d (%s): %w", k, g, j, op, err)
						return
					}
				}
			}
		}(g)
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	for k := range rounds {
		tb := &rounds[k]
		if h := tb.held.Load(); h != nil {
			if err := wholeCopy(*h, want, tb.closed.Load() > 0, reads); err != nil {
				return fmt.Errorf("round %d: held copy: %w", k, err)
			}
		}
		err := tb.b.Close()
		switch {
		case tb.closed.Load() == 0 && err != nil:
			return fmt.Errorf("round %d: Close returned %v", k, err)
		case tb.closed.Load() > 0 && !errors.Is(err, fs.ErrClosed):
			return fmt.Errorf("round %d: Close of the closed body returned %v", k, err)
		case tb.closed.Load() > 1:
			return fmt.Errorf("round %d: %d of the concurrent Close calls succeeded", k, tb.closed.Load())
		}
		if tb.src != nil && (tb.src.closes != 1 || tb.src.after > 0) {
			return fmt.Errorf("round %d: the source was closed %d times and used %d times after that", k, tb.src.closes, tb.src.after)
		}
	}
	if c.Len > 0 {
		o.NonTrivial()
	}
	o.Label("kind:%s", s.kind())
	return nil
}

// wholeCopy reads a copy to its end and closes it: it has a tail of the
// content, or is closed already when the original may have been.
func wholeCopy(d body.Body, want []byte, mayBeClosed, mayBeRead bool) error {
	got, err := io.ReadAll(d)
	if errors.Is(err, fs.ErrClosed) && len(got) == 0 && mayBeClosed {
		if err := d.Close(); !errors.Is(err, fs.ErrClosed) {
			return fmt.Errorf("reads of the copy fail as closed, but Close returned %v", err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("reading the copy: %d bytes, %v", len(got), err)
	}
	if len(got) > len(want) || string(got) != string(want[len(want)-len(got):]) {
		return fmt.Errorf("the copy delivered %x of %x", got, want)
	}
	if len(got) < len(want) && !mayBeRead {
		return fmt.Errorf("the copy delivered %d of %d bytes", len(got), len(want))
	}
	if err := d.Close(); err != nil {
		return fmt.Errorf("Close of the copy returned %v", err)
	}
	return nil
}

func tightOp(tb *tightBody, op string, want []byte, reads bool) error {
	switch op {
	case "close":
		if err := tb.b.Close(); err == nil {
			tb.closed.Add(1)
		} else if !errors.Is(err, fs.ErrClosed) {
			return fmt.Errorf("returned %v", err)
		}
	case "copy", "hold":
		d, err := tb.b.Copy()
		if err != nil || d == nil {
			return fmt.Errorf("returned %v", err)
		}
		if op == "hold" && tb.held.CompareAndSwap(nil, &d) {
			return nil
		}
		return wholeCopy(d, want, true, reads)
	case "read":
		p := make([]byte, 1)
		n, err := tb.b.Read(p)
		if n < 0 || n > 1 || (err != nil && err != io.EOF && !errors.Is(err, fs.ErrClosed)) {
			return fmt.Errorf("returned %d, %v", n, err)
		}
		if n > 0 && (len(want) == 0 || int(tb.got.Add(1)) > len(want)) {
			return fmt.Errorf("more bytes than there are")
		}
	case "remain":
		if n := tb.b.BytesRemaining(); n < -1 || n > int64(len(want)) {
			return fmt.Errorf("returned %d", n)
		}
	case "readat":
		if at, ok := tb.b.(io.ReaderAt); ok {
			p := make([]byte, len(want))
			n, err := at.ReadAt(p, 0)
			if !errors.Is(err, fs.ErrClosed) && ((err != nil && err != io.EOF) || n != len(want) || string(p) != string(want)) {
				return fmt.Errorf("returned %d, %v: %x", n, err, p)
			}
		}
	case "unwrap":
		if r := tb.b.Unwrap(); r != nil && r != tb.r {
			return fmt.Errorf("returned %T", r)
		}
	case "drain":
		n, err := io.Copy(io.Discard, tb.b)
		if n < 0 || n > int64(len(want)) || (err != nil && !errors.Is(err, fs.ErrClosed)) {
			return fmt.Errorf("wrote %d, %v", n, err)
		}
	}
	return nil
}
