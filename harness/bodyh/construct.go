package bodyh

import (
	"errors"
	"fmt"
	"io"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"pgregory.net/rapid"
)

// Construct is one construction of a body, possibly with a failing measurement.
type Construct struct {
	Src      Src    `json:"src"`
	Fail     string `json:"fail,omitempty"`     // stat, seekend, rewind
	StatSize *int64 `json:"statsize,omitempty"` // what Stat reports, if not the truth
	Buf      int64  `json:"buf"`
	Err      int    `json:"err,omitempty"` // which error measuring fails with
}

func genConstruct(t *rapid.T) Construct {
	p := profile{ctors: []string{"reader", "readerlen"}, declared: []string{"exact", "none", "none", "under", "over"}, huge: true}
	c := Construct{Src: genSrc(t, &p)}
	c.Buf = core.Pick(t, []int64{1, 100, 4096, 65536})
	c.Err = core.GenErr(t, true)
	switch core.Uniform(t, 8) {
	case 1, 2:
		c.Fail = "stat"
	case 3:
		c.Fail = "seekend"
	case 4:
		c.Fail = "rewind"
	case 5:
		n := core.Pick(t, []int64{0, 1, c.Src.Len / 2, max(c.Src.Len-1, 0), c.Src.Len})
		c.StatSize = &n
	}
	return c
}

func runConstruct(c Construct, o *core.Obs) error {
	s := &c.Src
	src := &source{spec: s, budget: 1000, statSize: c.StatSize}
	switch c.Fail {
	case "stat":
		src.statErr = core.Err(c.Err, errStat)
	case "seekend":
		src.seekErr = core.Err(c.Err, errSeek)
	case "rewind":
		src.seekErr, src.seekErrNth = core.Err(c.Err, errSeek), 1
	}
	r := src.wrap()
	var b body.Body
	var err error
	if s.Ctor == "readerlen" {
		b, err = body.FromReaderAndLength(r, s.Declared)
	} else {
		b, err = body.FromReader(r)
	}
	wantSeekErr := src.seekErr
	src.seekErr = nil // only construction fails
	explicit := s.Ctor == "readerlen" && s.Declared >= 0
	want := int64(-1)
	var wantErr error
	switch {
	case explicit:
		want = s.Declared
		o.Label("explicit length")
	case s.Caps&CapStat != 0:
		want, wantErr = s.Len, src.statErr
		if c.StatSize != nil {
			want = *c.StatSize
		}
		o.Label("stat")
	case s.Caps&CapSeek != 0:
		want, wantErr = s.Len, wantSeekErr
		o.Label("seek")
	default:
		o.Label("unknown length")
	}
	if explicit || s.Caps&(CapStat|CapSeek) != 0 {
		o.NonTrivial()
	}
	if src.reads > 0 {
		return fmt.Errorf("construction read from the source")
	}
	if explicit && (src.stats > 0 || src.seeks > 0) {
		return fmt.Errorf("construction with length %d measured the source (%d Stat, %d Seek calls)", s.Declared, src.stats, src.seeks)
	}
	if len(src.misuse) > 0 {
		return fmt.Errorf("misuse of the source: %v", src.misuse)
	}
	if wantErr != nil {
		o.Label("measuring failed")
		if err == nil || b != nil {
			return fmt.Errorf("construction succeeded (body: %v) although measuring failed", b != nil)
		}
		if !errors.Is(err, wantErr) {
			return fmt.Errorf("construction failed with %v, which does not wrap the source's error", err)
		}
		if src.closes > 0 {
			return fmt.Errorf("construction failed with %v and closed a source that is still the caller's", err)
		}
		return nil
	}
	if err != nil || b == nil {
		return fmt.Errorf("construction failed: %v", err)
	}
	if got := b.BytesRemaining(); got != want {
		return fmt.Errorf("the new body has %d bytes remaining, want %d", got, want)
	}
	// The body starts at the beginning, whatever measuring did to the source.
	visible := s.Len
	if want >= 0 && want < visible {
		visible = want
	}
	src.budget = int(4*int64(1+len(s.Chunks))*(c.Buf*3+131072) + 1000)
	pos := int64(0)
	p := make([]byte, c.Buf)
	for i, zeros := 0, 0; i < 3 && zeros < 10; {
		n, err := b.Read(p)
		if n < 0 || n > len(p) {
			return fmt.Errorf("Read returned the count %d", n)
		}
		if k := s.mismatch(p[:n], pos); k >= 0 {
			return fmt.Errorf("wrong byte at position %d of the new body", pos+int64(k))
		}
		pos += int64(n)
		if pos > visible {
			return fmt.Errorf("the new body delivered %d bytes, want %d", pos, visible)
		}
		if err == io.EOF {
			if pos != visible {
				return fmt.Errorf("the new body ended after %d bytes, want %d", pos, visible)
			}
			break
		}
		if err != nil {
			return fmt.Errorf("reading the new body: %v", err)
		}
		if n == 0 {
			zeros++
		} else {
			i++
		}
	}
	if err := b.Close(); err != nil && !errors.Is(err, s.CloseFailure()) {
		return fmt.Errorf("Close: %v", err)
	}
	return nil
}

// Bogus is a history with one impossible count.
type Bogus struct {
	H     Hist   `json:"h"`
	Where string `json:"where"` // source, writer, stat, seek, rewind
	Delta int64  `json:"delta"` // a count relative to the room if positive, else the count itself
	Pos   int64  `json:"pos,omitempty"`
	Err   bool   `json:"err,omitempty"` // the writer reports an error as well
}

func genBogus(t *rapid.T) Bogus {
	c := Bogus{Where: core.Pick(t, []string{"source", "source", "source", "writer", "stat", "seek"})}
	c.Delta = core.Pick(t, []int64{-1, 1, -2, 2, 100, 65536, -65536, 1 << 31, -1 << 31, 1 << 40, -1 << 62})
	switch c.Where {
	case "writer":
		c.H.Src = genSrc(t, &profile{ctors: []string{"bytes", "string"}})
		c.H.Src.Len++
		c.Err = core.Chance(t, 3)
		c.Pos = rapid.Int64Range(0, c.H.Src.Len).Draw(t, "pos")
	case "stat", "seek":
		c.Delta = core.Pick(t, []int64{-1, -2, -65536, -1 << 63})
		c.H.Src = genSrc(t, &profile{ctors: []string{"reader"}})
		if c.Where == "stat" {
			c.H.Src.Caps |= CapStat | CapClose
		} else {
			c.H.Src.Caps |= CapSeek
			c.H.Src.Caps &^= CapStat
		}
	default:
		p := profile{ctors: []string{"reader", "readerlen"}, ops: ops("read", 6, "readat", 3, "seek", 1, "copy", 1, "drain", 1, "toend", 1), minOps: 1, maxOps: 8}
		c.H = genHist(&p)(t)
		c.H.Src.Fault = Fault{Kind: "bogus", Nth: core.Uniform(t, 5), Delta: c.Delta, With: core.Chance(t, 3), Err: core.Uniform(t, 2)}
	}
	return c
}

// badWriter reports an impossible count.
type badWriter struct {
	delta int64
	err   error
	calls int
}

func (w *badWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.delta > 0 {
		return len(p) + int(w.delta), w.err
	}
	return int(w.delta), w.err
}

func runBogus(c Bogus, o *core.Obs) error {
	o.Label("where:%s", c.Where)
	switch c.Where {
	case "writer":
		b, _, _, _ := c.H.Src.open()
		b.(io.Seeker).Seek(c.Pos, io.SeekStart)
		n, err := int64(0), error(nil)
		w := &badWriter{delta: c.Delta}
		if c.Err {
			w.err = errSink
		}
		_, panicked := core.Try(func() { n, err = b.(io.WriterTo).WriteTo(w) })
		if w.calls == 0 {
			if panicked || n != 0 {
				return fmt.Errorf("WriteTo wrote nothing and returned %d, %v (panicked: %v)", n, err, panicked)
			}
			return nil // nothing to write
		}
		if !panicked {
			return fmt.Errorf("WriteTo accepted an impossible count (delta %d) from the writer and returned %d, %v", c.Delta, n, err)
		}
		o.NonTrivial()
		return nil
	case "stat", "seek":
		src := &source{spec: &c.H.Src, budget: 1000}
		if c.Where == "stat" {
			src.statSize = &c.Delta
		} else {
			src.seekRet = &c.Delta
		}
		var b body.Body
		var err error
		_, panicked := core.Try(func() { b, err = body.FromReader(src.wrap()) })
		if !panicked {
			return fmt.Errorf("construction accepted the size %d and returned %v, %v", c.Delta, b != nil, err)
		}
		o.NonTrivial()
		return nil
	}
	m := newMachine(&c.H.Src, o, aspectSet("data", "eof", "readat", "drain"))
	for i, op := range c.H.Ops {
		var v any
		panicked := false
		v, panicked = core.Try(func() { m.step(i, op) })
		m.src.mu.Lock()
		bogus := m.src.bogus
		m.src.mu.Unlock()
		if bogus == 0 && panicked {
			core.Failf("unexpected panic in %s: %v", m.what, v)
		}
		if bogus > 0 {
			o.NonTrivial()
			o.Label("op:%s kind:%s", op.K, c.H.Src.kind())
			if !panicked {
				return fmt.Errorf("%s: the source reported an impossible count (delta %d), but the operation did not panic", m.what, c.Delta)
			}
			return nil
		}
	}
	return nil
}

// BogusTargets are the body part of C16.
func BogusTargets() []*core.Target {
	return []*core.Target{core.New("body-counts", 24000, genBogus, runBogus)}
}

func init() {
	core.Register(&core.Check{
		ID:      "C17",
		Rule:    "a case is a reader with a drawn set of interfaces, an explicit or no length, and a failing or lying Stat, seek to the end or rewind; non-trivial if the length is given or measurable",
		Targets: []*core.Target{core.New("construction", 40000, genConstruct, runConstruct)},
	})
}
