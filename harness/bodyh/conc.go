package bodyh

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"runtime"
	"sort"
	"sync"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"pgregory.net/rapid"
)

// raw is a source without any synchronisation of its own, so that overlapping
// calls and missing locks in the code under test are visible to the race detector.
type raw struct {
	spec   *Src
	cursor int64
	chunk  int
	closes int
	after  int // calls after Close
}

func (r *raw) pause() {
	y := r.spec.Yield
	for i := 0; i < y%7; i++ {
		runtime.Gosched()
	}
	if y >= 90 {
		for i := 0; i < 40; i++ {
			runtime.Gosched()
		}
	}
}

func (r *raw) Read(p []byte) (int, error) {
	if r.closes > 0 {
		r.after++
	}
	n := int64(len(p))
	if c := r.spec.Chunks; len(c) > 0 && n > 0 {
		n = min(n, int64(max(c[r.chunk%len(c)], 4)))
		r.chunk++
	}
	off := r.cursor
	n = max(min(n, r.spec.Len-off), 0)
	r.pause()
	r.spec.fill(p[:n], off)
	r.cursor = off + n
	if len(p) > 0 && (n == 0 || (r.spec.EOFWith && off+n == r.spec.Len)) {
		return int(n), io.EOF
	}
	return int(n), nil
}

func (r *raw) Seek(off int64, whence int) (int64, error) {
	if r.closes > 0 {
		r.after++
	}
	switch whence {
	case io.SeekCurrent:
		off += r.cursor
	case io.SeekEnd:
		off += r.spec.Len
	}
	r.pause()
	r.cursor = off
	return off, nil
}

func (r *raw) ReadAt(p []byte, off int64) (int, error) {
	if r.closes > 0 {
		r.after++ // only written when broken: a racing write is then reported as well
	}
	r.pause()
	n := max(min(int64(len(p)), r.spec.Len-off), 0)
	r.spec.fill(p[:n], off)
	if n < int64(len(p)) {
		return int(n), io.EOF
	}
	return int(n), nil
}

func (r *raw) Close() error {
	r.pause()
	r.closes++
	if r.spec.CloseErr {
		return errCloser
	}
	return nil
}

func (r *raw) wrap() io.Reader {
	switch r.spec.Caps & (CapAt | CapSeek) {
	case CapAt:
		return &struct {
			io.ReadCloser
			io.ReaderAt
		}{r, r}
	case CapSeek:
		return &struct {
			io.ReadCloser
			io.Seeker
		}{r, r}
	case CapAt | CapSeek:
		return &struct {
			io.ReadCloser
			io.ReaderAt
			io.Seeker
		}{r, r, r}
	}
	return &struct{ io.ReadCloser }{r}
}

// Conc is a concurrent program over one source.
type Conc struct {
	Src   Src     `json:"src"`
	Procs []Proc  `json:"procs"`
	Pre   []int64 `json:"pre,omitempty"` // reads made before each private copy is taken
}

// Proc is the program of one goroutine.
type Proc struct {
	Shared bool `json:"shared,omitempty"` // works on the one shared body instead of a private copy
	Ops    []Op `json:"ops"`
	Spin   int  `json:"spin,omitempty"` // yields before it starts
}

func genConcSrc(t *rapid.T) Src {
	s := Src{Ctor: core.Pick(t, []string{"reader", "reader", "readerlen", "reader", "bytes", "empty"}), Words: true}
	s.Caps = CapClose | core.Pick(t, []int{0, 0, CapSeek, CapSeek, CapSeek | CapAt, CapAt})
	s.Len = 4 * core.Pick(t, []int64{0, 1, 5, 100, 1000, 16383, 16384, 16385, 20000, 33000, 50000})
	if s.Ctor == "readerlen" {
		s.Declared = s.Len + core.Pick(t, []int64{0, 0, 0, 4, 8, 65536, 100000})
	}
	if s.Ctor == "bytes" || s.Ctor == "empty" {
		s.Caps = 0
		if s.Ctor == "empty" {
			s.Len = 0
		}
		return s
	}
	if rapid.Bool().Draw(t, "chunked") {
		s.Chunks = []int{core.Pick(t, []int{4, 100, 4096, 65536, 20000})}
		if s.Len > 20000 && s.Chunks[0] < 4096 {
			s.Chunks[0] = 4096
		}
	}
	s.EOFWith = rapid.Bool().Draw(t, "eofwith")
	s.CloseErr = rapid.Bool().Draw(t, "closeerr")
	s.Yield = core.Pick(t, []int{0, 0, 1, 3, 6, 1, 3, 90})
	if s.Yield == 90 && len(s.Chunks) > 0 && s.Chunks[0] < 4096 {
		s.Yield = 2
	}
	return s
}

var concSizes = []int64{4, 8, 100, 400, 4096, 32768, 65536, 65540, 131072}

func genConc(t *rapid.T) Conc {
	c := Conc{Src: genConcSrc(t)}
	n := 2 + core.Uniform(t, 5)
	mode := core.Uniform(t, 3) // 0 private, 1 shared, 2 mixed
	for i := 0; i < n; i++ {
		p := Proc{Spin: core.Uniform(t, 8)}
		p.Shared = mode == 1 || (mode == 2 && rapid.Bool().Draw(t, "shared"))
		mix := ops("read", 8, "copy", 3, "seek", 2, "readat", 2, "remain", 5, "unwrap", 1, "drain", 1, "toend", 1)
		if p.Shared {
			mix = ops("read", 8, "copy", 3, "remain", 3, "readat", 1, "unwrap", 1, "drain", 1)
			if core.Chance(t, 4) {
				mix = append(mix, "close")
			}
		}
		k := 1 + core.Uniform(t, 8)
		for j := 0; j < k; j++ {
			op := Op{K: core.Pick(t, mix), N: core.Pick(t, concSizes)}
			switch op.K {
			case "seek":
				op.W = core.Uniform(t, 3)
				if c.Src.Ctor == "readerlen" {
					op.W = 0
				}
				op.Off = rapid.Int64Range(0, c.Src.Len+4).Draw(t, "off")
				if op.W > 0 {
					op.Off = -op.Off
				}
			case "readat":
				op.Off = rapid.Int64Range(0, c.Src.Len+4).Draw(t, "off")
			}
			p.Ops = append(p.Ops, op)
		}
		c.Procs = append(c.Procs, p)
		c.Pre = append(c.Pre, core.Pick(t, []int64{0, 0, 0, 4, 100, 65536}))
	}
	return c
}

type piece struct{ off, n int64 }

// shared gathers what the goroutines saw of the shared body.
type shared struct {
	mu     sync.Mutex
	pieces []piece
	firsts int // Close calls that did not report fs.ErrClosed
	closed bool
	start  int64
}

// locate finds the position of a piece of word-indexed content.
func locate(s *Src, p []byte) (int64, error) {
	if len(p)%4 != 0 {
		panic(core.Abandon{Label: "piece not aligned to words"})
	}
	off := int64(binary.BigEndian.Uint32(p)) * 4
	if i := s.mismatch(p, off); i >= 0 {
		return 0, fmt.Errorf("corrupted bytes: %d bytes starting at position %d differ at position %d", len(p), off, off+int64(i))
	}
	return off, nil
}

func runConc(c Conc, o *core.Obs) error {
	s := &c.Src
	if s.Len%4 != 0 {
		return nil
	}
	var b body.Body
	var src *raw
	var r io.Reader
	var err error
	switch s.Ctor {
	case "bytes", "empty":
		b, _, _, _ = s.open()
	default:
		src = &raw{spec: s}
		r = src.wrap()
		if s.Ctor == "readerlen" {
			b, err = body.FromReaderAndLength(r, s.Declared)
		} else {
			b, err = body.FromReader(r)
		}
		if err != nil {
			return err
		}
	}
	V, K := s.visible(), s.knownLen()
	aspects := aspectSet("data", "eof", "seek", "readat", "drain", "remain", "own", "fail", "closed")
	newM := func(b body.Body, pos int64, eof bool) *machine {
		m := &machine{spec: s, obs: &core.Obs{}, aspects: aspects, V: V, K: K, r: r, endSeen: false}
		m.bodies = []*mbody{{b: b, pos: pos, eof: eof}}
		return m
	}
	// The private copies are taken at various positions of the original, which then becomes the shared body.
	base := newM(b, 0, false)
	var ms []*machine
	anyShared := false
	for i, p := range c.Procs {
		if i < len(c.Pre) && c.Pre[i] > 0 {
			base.read(base.bodies[0], c.Pre[i])
		}
		if p.Shared {
			anyShared = true
			ms = append(ms, nil)
			continue
		}
		dup := base.copyOf(base.bodies[0])
		m := newM(dup.b, dup.pos, dup.eof)
		ms = append(ms, m)
	}
	sh := &shared{start: base.bodies[0].pos}
	startEOF := base.bodies[0].eof

	errs := make([]error, len(c.Procs))
	closeErrs := make([]int, len(c.Procs))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range c.Procs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				switch x := recover().(type) {
				case nil:
				case error:
					errs[i] = x
				case core.Abandon:
					o.Label("%s", x.Label)
				default:
					errs[i] = fmt.Errorf("panic: %v", x)
				}
			}()
			<-start
			for k := 0; k < c.Procs[i].Spin; k++ {
				runtime.Gosched()
			}
			if c.Procs[i].Shared {
				runShared(s, b, r, sh, &c.Procs[i], V, &closeErrs[i])
			} else {
				closeErrs[i] = runPrivate(ms[i], &c.Procs[i])
			}
		}(i)
	}
	close(start)
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			return fmt.Errorf("goroutine %d: %w", i, err)
		}
	}
	reported := 0
	for _, n := range closeErrs {
		reported += n
	}

	// What is left of the shared body.
	if sh.closed {
		if err := b.Close(); !errors.Is(err, fs.ErrClosed) {
			return fmt.Errorf("Close of the closed shared body returned %v", err)
		}
		if sh.firsts != 1 {
			return fmt.Errorf("%d of the concurrent Close calls succeeded", sh.firsts)
		}
	} else {
		rest, err := io.ReadAll(b)
		if err != nil {
			return fmt.Errorf("reading the rest of the shared body: %v", err)
		}
		if len(rest) > 0 {
			off, err := locate(s, rest)
			if err != nil {
				return err
			}
			sh.pieces = append(sh.pieces, piece{off, int64(len(rest))})
		}
		if got := b.BytesRemaining(); got != 0 {
			return fmt.Errorf("BytesRemaining of the shared body at its end is %d", got)
		}
		err = b.Close()
		if errors.Is(err, errCloser) {
			reported++
		} else if err != nil {
			return fmt.Errorf("Close of the shared body returned %v", err)
		}
	}
	// The pieces must be consecutive.
	sort.Slice(sh.pieces, func(i, j int) bool { return sh.pieces[i].off < sh.pieces[j].off })
	at := sh.start
	for _, p := range sh.pieces {
		if p.off != at {
			return fmt.Errorf("readers of the shared body together got bytes %d..%d next, but position %d is due (lost or repeated bytes)", p.off, p.off+p.n, at)
		}
		at += p.n
	}
	if !sh.closed && at != V && !startEOF {
		return fmt.Errorf("readers of the shared body together got the bytes up to %d of %d", at, V)
	}
	if src != nil {
		if src.closes != 1 {
			return fmt.Errorf("the source was closed %d times", src.closes)
		}
		if src.after > 0 {
			return fmt.Errorf("the source was used after it was closed")
		}
		if want := 0; s.CloseErr {
			want = 1
			if reported != want {
				return fmt.Errorf("%d Close calls returned the source's close error", reported)
			}
		}
	}
	if V > 0 && len(c.Procs) > 1 {
		o.NonTrivial()
	}
	o.LabelIf(anyShared, "shared body")
	o.LabelIf(sh.closed, "closed while in use")
	o.LabelIf(len(sh.pieces) > 3, "several readers' pieces")
	o.Label("kind:%s", s.kind())
	return nil
}

// runPrivate runs a program on a private copy and closes everything; it returns
// how many Close calls returned the source's error.
func runPrivate(m *machine, p *Proc) (reported int) {
	closeOne := func(mb *mbody) {
		if mb.closed {
			return
		}
		err := mb.b.Close()
		mb.closed = true
		if errors.Is(err, errCloser) {
			reported++
		} else if err != nil {
			m.fail("own", "Close returned %v", err)
		}
	}
	for i, op := range p.Ops {
		mb := m.bodies[i%len(m.bodies)]
		m.what = fmt.Sprintf("private op %d (%s)", i, op.K)
		switch op.K {
		case "read":
			m.read(mb, op.N)
		case "seek":
			m.seek(mb, op.Off, op.W)
		case "readat":
			m.readAt(mb, op.N, op.Off)
		case "remain":
			m.remainConc(mb)
		case "unwrap":
			m.unwrap(mb)
		case "drain":
			m.drain(mb, 0, 0, true, 0)
		case "toend":
			for m.read(mb, op.N) == nil {
			}
		case "copy":
			if len(m.bodies) < 4 {
				m.bodies = append(m.bodies, m.copyOf(mb))
			}
		}
	}
	for j, mb := range m.bodies {
		m.what = fmt.Sprintf("private final %d", j)
		if j%2 == 0 {
			for m.read(mb, 65536) == nil {
			}
			if mb.pos != m.V {
				m.fail("data", "ended at %d of %d", mb.pos, m.V)
			}
		}
		m.remainConc(mb)
	}
	for _, mb := range m.bodies {
		closeOne(mb)
	}
	return
}

// remainConc allows what other goroutines may or may not have discovered.
func (m *machine) remainConc(mb *mbody) {
	got := mb.b.BytesRemaining()
	rest := max(m.V-mb.pos, 0)
	if m.over() && !mb.eof && got >= rest && got <= max(m.K-mb.pos, 0) {
		return
	}
	if got != rest && !(got == -1 && m.K < 0 && !mb.eof) {
		m.fail("remain", "BytesRemaining is %d at position %d of %d", got, mb.pos, m.V)
	}
}

// runShared runs a program on the body all goroutines share.
func runShared(s *Src, b body.Body, r io.Reader, sh *shared, p *Proc, V int64, reported *int) {
	add := func(buf []byte) {
		if len(buf) == 0 {
			return
		}
		off, err := locate(s, buf)
		if err != nil {
			panic(core.Failure{Msg: err.Error()})
		}
		sh.mu.Lock()
		sh.pieces = append(sh.pieces, piece{off, int64(len(buf))})
		sh.mu.Unlock()
	}
	last := max(V, s.knownLen())
	for i, op := range p.Ops {
		what := fmt.Sprintf("shared op %d (%s)", i, op.K)
		switch op.K {
		case "read":
			buf := make([]byte, op.N&^3)
			n, err := b.Read(buf)
			if n < 0 || n > len(buf) {
				core.Failf("%s: count %d", what, n)
			}
			add(buf[:n])
			if err != nil && err != io.EOF && !errors.Is(err, fs.ErrClosed) {
				core.Failf("%s: Read returned %d, %v", what, n, err)
			}
		case "remain":
			got := b.BytesRemaining()
			if got < -1 || got > last {
				core.Failf("%s: BytesRemaining is %d, after %d", what, got, last)
			}
			if got >= 0 {
				last = got
			}
		case "readat":
			if at, ok := b.(io.ReaderAt); ok {
				buf := make([]byte, op.N)
				n, err := at.ReadAt(buf, op.Off)
				if errors.Is(err, fs.ErrClosed) {
					continue
				}
				want := max(min(op.N, V-op.Off), 0)
				if int64(n) != want || (err != nil && err != io.EOF) || (err == nil && want < op.N) || s.mismatch(buf[:n], op.Off) >= 0 {
					core.Failf("%s: ReadAt(%d bytes, offset %d) returned %d, %v", what, op.N, op.Off, n, err)
				}
			}
		case "unwrap":
			if got := b.Unwrap(); got != nil && got != r {
				core.Failf("%s: Unwrap returned %T", what, got)
			}
		case "drain":
			if wt, ok := b.(io.WriterTo); ok {
				w := &sink{}
				n, err := wt.WriteTo(w)
				if n != int64(len(w.got)) || (err != nil && !errors.Is(err, fs.ErrClosed)) {
					core.Failf("%s: WriteTo returned %d, %v", what, n, err)
				}
				add(w.got)
			}
		case "copy":
			dup, err := b.Copy()
			if err != nil || dup == nil {
				core.Failf("%s: Copy returned %v", what, err)
			}
			got, err := io.ReadAll(dup)
			if errors.Is(err, fs.ErrClosed) && len(got) == 0 {
				continue
			}
			if err != nil {
				core.Failf("%s: reading the copy: %v", what, err)
			}
			if len(got) > 0 {
				off, err := locate(s, got)
				if err != nil {
					core.Failf("%s: the copy has %v", what, err)
				}
				if off+int64(len(got)) != V {
					core.Failf("%s: the copy delivered bytes %d to %d of %d", what, off, off+int64(len(got)), V)
				}
			}
			if err := dup.Close(); errors.Is(err, errCloser) {
				*reported++
			} else if err != nil {
				core.Failf("%s: Close of the copy: %v", what, err)
			}
		case "close":
			err := b.Close()
			sh.mu.Lock()
			sh.closed = true
			if !errors.Is(err, fs.ErrClosed) {
				sh.firsts++
			}
			sh.mu.Unlock()
			if errors.Is(err, errCloser) {
				*reported++
			} else if err != nil && !errors.Is(err, fs.ErrClosed) {
				core.Failf("%s: Close: %v", what, err)
			}
		}
	}
}

func init() {
	core.Register(&core.Check{
		ID:          "C10",
		Rule:        "a case is a source and programs for two to six goroutines, each working on a private copy (compared step by step with a sequential model) or on one shared body (the pieces its users got must be consecutive); run under the race detector with sources that have no synchronisation of their own and yield inside calls; non-trivial if the content is not empty",
		Assumptions: []string{"schedules are those the Go scheduler produces under injected yields; none is enumerated", "pieces read from the shared body are whole words when buffers and source chunks are"},
		Targets: []*core.Target{
			core.New("concurrent", 3600, genConc, runConc).WithRace().WithFactor(30),
			core.New("tight", 800, genTight, runTight).WithFactor(20),
		},
	})
}
