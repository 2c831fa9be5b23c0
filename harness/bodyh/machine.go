package bodyh

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"strings"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/zverif/core"
)

// Op is one step of a history.
type Op struct {
	K   string `json:"k"`             // read, readat, seek, copy, close, remain, drain, unwrap, toend
	B   int    `json:"b"`             // which body (modulo the number of bodies)
	N   int64  `json:"n,omitempty"`   // buffer size
	Rel bool   `json:"rel,omitempty"` // N is relative to the remaining (read, drain) or following (readat) bytes
	Off int64  `json:"off,omitempty"` // offset of readat and seek; bytes accepted by the writer of drain
	End bool   `json:"end,omitempty"` // Off is relative to the end (readat, seek from start)
	W   int    `json:"w,omitempty"`   // whence; writer mode of drain
}

// Crowd makes many copies before a history starts: the i-th is taken from body
// i*Stride (modulo their number), which then reads Adv[i modulo its length] bytes.
type Crowd struct {
	N      int   `json:"n"`
	Stride int   `json:"stride"`
	Adv    []int `json:"adv,omitempty"`
}

// Hist is a source, a history over the bodies attached to it, and the order in
// which the surviving bodies are drained and closed at the end.
type Hist struct {
	Src   Src   `json:"src"`
	Ops   []Op  `json:"ops"`
	Final []int `json:"final,omitempty"`
	Buf   int64 `json:"buf,omitempty"` // buffer size of the final drain
	Crowd Crowd `json:"crowd,omitzero"`
	More  int   `json:"more,omitempty"`  // so many more bodies may be made
	Quiet bool  `json:"quiet,omitempty"` // nothing is observed between the operations
}

const maxBuf = 8 << 20

type mbody struct {
	b      body.Body
	pos    int64
	eof    bool  // reported end-of-file and not seeked since
	sticky error // reported another error and not seeked since
	closed bool
	stall  int
	isDue  bool // the source failed at due; the body must say so before it gets past
	due    int64
}

type machine struct {
	quiet   bool
	spec    *Src
	src     *source
	r       io.Reader
	bodies  []*mbody
	aspects map[string]bool
	obs     *core.Obs

	V       int64 // bytes visible
	K       int64 // length known from the start, or -1
	endSeen bool  // some body reported end-of-file
	metEnd  bool  // a body has read up to the end of the source and been told so
	copies  int
	nopen   int
	lend    int    // how buffers are lent
	buf     []byte // the caller's buffer
	given   []byte // the slice handed in
	limit   int    // of bodies
	what    string // current operation, for messages
}

// fail reports a disagreement; off-aspect ones end the case without a verdict.
func (m *machine) fail(aspect, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if !m.aspects[aspect] {
		panic(core.Abandon{Label: "offaspect:" + aspect})
	}
	panic(core.Failure{Msg: fmt.Sprintf("[%s] %s: %s", aspect, m.what, msg)})
}

// soft reports a disagreement that does not make the rest of the history meaningless.
func (m *machine) soft(aspect, format string, args ...any) {
	if m.aspects[aspect] {
		m.fail(aspect, format, args...)
	}
	m.obs.Label("offaspect:%s", aspect)
}

func aspectSet(list ...string) map[string]bool {
	s := map[string]bool{}
	for _, a := range list {
		s[a] = true
	}
	return s
}

func newMachine(spec *Src, o *core.Obs, aspects map[string]bool) *machine {
	m := &machine{}
	m.prepare(spec, o, aspects)
	return m
}

func (m *machine) prepare(spec *Src, o *core.Obs, aspects map[string]bool) {
	m.spec, m.obs, m.aspects, m.what = spec, o, aspects, "construction"
	b, src, r, err := spec.open()
	if spec.Ctor == "bytes" && m.lend == lendMarked {
		b = m.fromBytes()
	}
	if err != nil {
		core.Failf("construction failed: %v", err)
	}
	if b == nil {
		core.Failf("construction returned neither a body nor an error")
	}
	m.src, m.r = src, r
	m.V, m.K = spec.visible(), spec.knownLen()
	m.bodies = []*mbody{{b: b}}
	m.nopen, m.limit = 1, 8
	m.iface(m.bodies[0])
}

func (m *machine) over() bool { return m.K > m.V }

func (m *machine) budget(n int64) {
	if m.src != nil {
		m.src.mu.Lock()
		m.src.budget = int(4*int64(1+len(m.spec.Chunks))*(n+131072) + 1000)
		m.src.mu.Unlock()
	}
}

func (m *machine) snap() (raised, zero int) {
	if m.src != nil {
		m.src.mu.Lock()
		defer m.src.mu.Unlock()
		return m.src.raised, m.src.zero
	}
	return
}

// okError decides whether a non-EOF error of a cursor read that delivered n
// bytes is one the source really reported, at the place where it reported it.
func (m *machine) okError(mb *mbody, n int64, err error, raised0 int) bool {
	if m.src == nil {
		return false
	}
	if mb.sticky != nil && n == 0 && errors.Is(err, mb.sticky) {
		return true
	}
	m.src.mu.Lock()
	defer m.src.mu.Unlock()
	if !errors.Is(err, m.spec.Fault.error()) || m.src.raised == 0 {
		return false
	}
	if m.spec.kind() == "stream" {
		return mb.pos+n == m.src.failEnd
	}
	return m.src.raised > raised0 && (m.src.failEnd < 0 || mb.pos+n == m.src.failEnd)
}

// read performs one Read of size n and checks it; it returns the error.
func (m *machine) read(mb *mbody, n int64) error {
	p := m.buffer(n)
	defer m.unlend(p) // it belongs to the caller: what becomes of it must not matter
	raised0, zero0 := m.snap()
	m.budget(n)
	k, err := mb.b.Read(p)
	return m.didRead(mb, p, k, err, raised0, zero0)
}

func (m *machine) didRead(mb *mbody, p []byte, k int, err error, raised0, zero0 int) error {
	if k < 0 || k > len(p) {
		m.fail("data", "Read of %d bytes returned the count %d", len(p), k)
	}
	if mb.closed {
		if k != 0 || !errors.Is(err, fs.ErrClosed) {
			m.fail("closed", "Read of a closed body returned %d, %v", k, err)
		}
		return err
	}
	n := int64(k)
	if mb.pos+n > m.V && n > 0 {
		m.fail(m.pick("bound", "data"), "Read at %d delivered %d bytes, but the body ends at %d", mb.pos, k, m.V)
	}
	if i := m.spec.mismatch(p[:k], mb.pos); i >= 0 {
		m.fail("data", "Read at %d delivered a wrong byte at position %d (%#x instead of %#x)", mb.pos, mb.pos+int64(i), p[i], m.spec.at(mb.pos+int64(i)))
	}
	if mb.eof && n > 0 {
		m.fail("eof", "Read delivered %d bytes after end-of-file", k)
	}
	if mb.eof && len(p) > 0 && err != io.EOF {
		m.fail("eof", "Read after end-of-file returned %d, %v", k, err)
	}
	end := mb.pos + n
	if m.src != nil {
		m.src.mu.Lock()
		raised1, failEnd := m.src.raised, m.src.failEnd
		m.src.mu.Unlock()
		if raised1 > raised0 && failEnd >= 0 {
			if m.spec.kind() == "stream" {
				for _, other := range m.bodies {
					other.isDue, other.due = !other.closed, failEnd
				}
			} else {
				mb.isDue, mb.due = true, failEnd
			}
		}
		if mb.isDue && (end > mb.due || err == io.EOF) {
			m.fail(m.pick("fail", "eof"), "Read at %d returned %d, %v: the source failed at %d, which was never reported", mb.pos, k, err, mb.due)
		}
		if err != nil {
			mb.isDue = false
		}
	}
	switch {
	case err == nil:
	case err == io.EOF:
		if end < m.V {
			m.fail(m.pick("fail", "eof"), "Read at %d delivered %d bytes and end-of-file, but the body ends at %d", mb.pos, k, m.V)
		}
		if end == m.V && !mb.eof {
			m.metEnd = true
		}
		if end > m.V { // cursor was past the real end of an over-declared source
			end = m.V
		}
		mb.eof, m.endSeen = true, true
	default:
		if !m.okError(mb, n, err, raised0) {
			m.fail("fail", "Read at %d returned %d and the unexpected error %v", mb.pos, k, err)
		}
		mb.sticky = err
		m.obs.Label("source error surfaced")
	}
	if err == nil && n == 0 && len(p) > 0 {
		_, zero1 := m.snap()
		mb.stall++
		if zero1 > zero0 {
			mb.stall = 0
			m.obs.Label("empty read passed on")
		}
		if mb.stall > 3 {
			m.fail("eof", "Read at %d of %d keeps returning 0, nil", mb.pos, m.V)
		}
	} else {
		mb.stall = 0
	}
	mb.pos = end
	return err
}

// pick returns the first aspect if the check is about it, else the second.
func (m *machine) pick(a, b string) string {
	if m.aspects[a] {
		return a
	}
	return b
}

func (m *machine) readAt(mb *mbody, n, off int64) {
	at, ok := mb.b.(io.ReaderAt)
	if !ok {
		return
	}
	p := m.buffer(n)
	defer m.unlend(p)
	raised0, _ := m.snap()
	m.budget(n)
	k, err := at.ReadAt(p, off)
	if k < 0 || k > len(p) {
		m.fail("readat", "ReadAt of %d bytes returned the count %d", len(p), k)
	}
	if mb.closed {
		if k != 0 || !errors.Is(err, fs.ErrClosed) {
			m.fail("closed", "ReadAt of a closed body returned %d, %v", k, err)
		}
		return
	}
	if off < 0 {
		if k != 0 || (n > 0 && err == nil) {
			m.fail("readat", "ReadAt(%d bytes, offset %d) returned %d, %v", n, off, k, err)
		}
		return
	}
	want := n
	if want > m.V-off {
		want = m.V - off
	}
	if want < 0 {
		want = 0
	}
	if int64(k) > want {
		m.fail(m.pick("bound", "readat"), "ReadAt(%d bytes, offset %d) returned %d, but the body ends at %d", n, off, k, m.V)
	}
	if i := m.spec.mismatch(p[:k], off); i >= 0 {
		m.fail("readat", "ReadAt(%d bytes, offset %d) delivered a wrong byte at position %d", n, off, off+int64(i))
	}
	switch {
	case err == nil:
		if int64(k) != n {
			m.fail("readat", "ReadAt(%d bytes, offset %d) returned %d without an error", n, off, k)
		}
	case err == io.EOF:
		if int64(k) != want {
			m.fail(m.pick("fail", "readat"), "ReadAt(%d bytes, offset %d) returned %d and end-of-file, but the body ends at %d", n, off, k, m.V)
		}
		if off < m.V-n {
			m.fail(m.pick("fail", "readat"), "ReadAt(%d bytes, offset %d) returned end-of-file, but the body ends at %d", n, off, m.V)
		}
	default:
		raised1, _ := m.snap()
		if raised1 == raised0 || !errors.Is(err, m.spec.Fault.error()) {
			m.fail(m.pick("fail", "readat"), "ReadAt(%d bytes, offset %d) returned %d and the unexpected error %v", n, off, k, err)
		}
		m.obs.Label("source error surfaced")
	}
}

func (m *machine) seek(mb *mbody, off int64, whence int) {
	sk, ok := mb.b.(io.Seeker)
	if !ok {
		return
	}
	m.budget(0)
	ret, err := sk.Seek(off, whence)
	if mb.closed {
		if !errors.Is(err, fs.ErrClosed) {
			m.fail("closed", "Seek of a closed body returned %d, %v", ret, err)
		}
		return
	}
	target := off
	switch whence {
	case io.SeekStart:
		if off < 0 {
			var e body.NegativeStartOffsetSeekError
			if ret != -1 || !errors.As(err, &e) || e.Offset != off {
				m.fail("seek", "Seek(%d, start) returned %d, %#v", off, ret, err)
			}
			return
		}
	case io.SeekCurrent:
		target += mb.pos
	case io.SeekEnd:
		target += m.V
	default:
		var e body.UnknownWhenceSeekError
		if ret != -1 || !errors.As(err, &e) || e.Whence != whence {
			m.fail("seek", "Seek(%d, whence %d) returned %d, %#v", off, whence, ret, err)
		}
		return
	}
	if target < 0 {
		var e body.NegativeComputedOffsetSeekError
		if ret != -1 || !errors.As(err, &e) || e.Offset != target {
			m.fail("seek", "Seek(%d, whence %d) at %d of %d returned %d, %#v", off, whence, mb.pos, m.V, ret, err)
		}
		return
	}
	if err != nil {
		m.fail("seek", "Seek(%d, whence %d) at %d of %d returned %d, %v", off, whence, mb.pos, m.V, ret, err)
	}
	want := min(target, m.V)
	if ret != want {
		if !(m.over() && ret >= want && ret <= min(target, m.K)) {
			m.fail("seek", "Seek(%d, whence %d) at %d of %d returned %d", off, whence, mb.pos, m.V, ret)
		}
	}
	mb.pos = ret
	mb.eof = false
	mb.sticky = nil
	mb.isDue = false
}

func (m *machine) remain(mb *mbody) {
	m.budget(0)
	got := mb.b.BytesRemaining()
	if mb.closed {
		if got != 0 {
			m.soft(m.pick("closed", "remain"), "BytesRemaining of a closed body is %d", got)
		}
		return
	}
	if got < -1 {
		m.soft("remain", "BytesRemaining is %d", got)
		return
	}
	rest := max(m.V-mb.pos, 0)
	if got == rest {
		return
	}
	if mb.eof {
		m.soft("remain", "BytesRemaining is %d after end-of-file", got)
		return
	}
	if got == -1 && m.K < 0 && !m.endSeen {
		return
	}
	if m.over() && !m.metEnd && got >= rest && got <= max(m.K-mb.pos, 0) {
		return
	}
	if m.src != nil {
		if raised, _ := m.snap(); raised > 0 {
			// What remains of a body with a failed source is not specified beyond
			// the bytes up to the failure, or unknown.
			if mb.sticky != nil || m.spec.kind() == "stream" {
				return
			}
		}
	}
	m.soft("remain", "BytesRemaining is %d at position %d of a body of %d bytes", got, mb.pos, m.V)
}

func (m *machine) unwrap(mb *mbody) {
	got := mb.b.Unwrap()
	if mb.closed {
		if got != nil {
			m.soft(m.pick("closed", "own"), "Unwrap of a closed body returned %T", got)
		}
		return
	}
	if got != m.r {
		m.soft("own", "Unwrap returned %T instead of the original source", got)
	}
}

// iface checks the promised advanced interfaces.
func (m *machine) iface(mb *mbody) {
	if mb.closed {
		return
	}
	_, sk := mb.b.(io.Seeker)
	_, at := mb.b.(io.ReaderAt)
	_, wt := mb.b.(io.WriterTo)
	if m.spec.seekable() && (!sk || !at) {
		m.soft("iface", "a body over %s/%d offers Seek %v, ReadAt %v", m.spec.Ctor, m.spec.Caps, sk, at)
	}
	if m.src == nil && m.spec.Lib == "" && !wt {
		m.soft("iface", "a %s body offers no WriteTo", m.spec.Ctor)
	}
}

func ifaces(b body.Body) (s [3]bool) {
	_, s[0] = b.(io.Seeker)
	_, s[1] = b.(io.ReaderAt)
	_, s[2] = b.(io.WriterTo)
	return
}

func (m *machine) copyOf(mb *mbody) *mbody {
	m.budget(0)
	b, err := mb.b.Copy()
	if err != nil || b == nil {
		m.fail(m.pick("closed", "data"), "Copy returned %v, %v", b, err)
	}
	if !mb.closed && b == mb.b {
		m.fail("data", "Copy returned the body itself")
	}
	was, is := ifaces(mb.b), ifaces(b)
	for i := range was {
		if was[i] && !is[i] {
			m.soft("iface", "a copy lacks an interface of its original (%v, %v)", is, was)
		}
	}
	m.copies++
	if !mb.closed {
		m.nopen++
	}
	return &mbody{b: b, pos: mb.pos, eof: mb.eof, sticky: mb.sticky, closed: mb.closed, isDue: mb.isDue, due: mb.due}
}

func (m *machine) open() int { return m.nopen }

func (m *machine) close(mb *mbody) {
	m.budget(0)
	err := mb.b.Close()
	if mb.closed {
		if !errors.Is(err, fs.ErrClosed) {
			m.fail("closed", "a second Close returned %v", err)
		}
		return
	}
	mb.closed = true
	m.nopen--
	last := m.open() == 0
	if errors.Is(err, fs.ErrClosed) && !(last && m.closable() && m.spec.CloseErr && errors.Is(m.spec.CloseFailure(), fs.ErrClosed)) {
		m.fail("closed", "the first Close reported that the body was already closed")
	}
	var want error
	if last && m.closable() && m.spec.CloseErr {
		want = m.spec.CloseFailure()
	}
	if !core.SameErr(err, want) && !(want != nil && errors.Is(err, want)) {
		m.soft("own", "Close (last: %v) returned %v instead of %v", last, err, want)
	}
}

func (m *machine) closable() bool {
	return m.src != nil && m.spec.Caps&(CapClose|CapStat) != 0
}

// sink is the writer bodies are drained into.
type sink struct {
	mode  int   // 0 accepts everything, 1 fails after limit bytes, 2 accepts limit bytes without an error, 3 fails having accepted everything
	limit int64 // per sink
	err   int   // which error it fails with
	got   []byte
	trips int
}

var errSink = errors.New("writer failure")

func (s *sink) failure() error { return core.Err(s.err, errSink) }

func (s *sink) Write(p []byte) (int, error) {
	room := s.limit - int64(len(s.got))
	switch {
	case s.mode == 3 && len(p) > 0:
		s.got = append(s.got, p...)
		s.trips++
		return len(p), s.failure()
	case (s.mode == 1 || s.mode == 2) && int64(len(p)) > room:
		s.got = append(s.got, p[:room]...)
		s.trips++
		if s.mode == 1 {
			return int(room), s.failure()
		}
		return int(room), nil
	}
	s.got = append(s.got, p...)
	return len(p), nil
}

// recReader forwards reads and keeps the model of the body in step with them.
type recReader struct {
	m  *machine
	mb *mbody
	n  int64
}

func (r *recReader) Read(p []byte) (int, error) {
	raised0, zero0 := r.m.snap()
	r.m.budget(int64(len(p)))
	n, err := r.mb.b.Read(p)
	r.n++
	if r.n > 1<<20 {
		r.m.fail("eof", "draining does not come to an end")
	}
	return n, r.m.didRead(r.mb, p, n, err, raised0, zero0)
}

// drain copies the body into a writer.
func (m *machine) drain(mb *mbody, mode int, limit int64, direct bool, errno int) {
	rest := max(m.V-mb.pos, 0)
	if rest > 8<<20 {
		return // a huge virtual source
	}
	w := &sink{mode: mode, limit: max(limit, 0), err: errno}
	start := mb.pos
	var n int64
	var err error
	wt, isWT := mb.b.(io.WriterTo)
	m.budget(rest)
	raised0, _ := m.snap()
	switch {
	case isWT && direct:
		n, err = wt.WriteTo(w)
	case isWT:
		n, err = io.Copy(w, mb.b)
	default:
		n, err = io.Copy(w, &recReader{m: m, mb: mb})
	}
	if mb.closed {
		if n != 0 || !errors.Is(err, fs.ErrClosed) || len(w.got) != 0 {
			m.fail("closed", "draining a closed body returned %d, %v (%d bytes written)", n, err, len(w.got))
		}
		return
	}
	accepted := int64(len(w.got))
	if i := m.spec.mismatch(w.got, start); i >= 0 {
		m.fail("drain", "draining from %d delivered a wrong byte at position %d", start, start+int64(i))
	}
	if accepted > rest {
		m.fail("drain", "draining from %d of %d delivered %d bytes", start, m.V, accepted)
	}
	if n != accepted {
		m.fail("drain", "draining returned %d, but the writer accepted %d bytes", n, accepted)
	}
	switch {
	case w.trips > 0:
		if err == nil {
			m.fail("drain", "draining into a failing writer (mode %d, %d of %d bytes) returned no error", mode, accepted, rest)
		}
		if (mode == 1 || mode == 3) && !errors.Is(err, w.failure()) {
			m.fail("drain", "draining returned %v instead of the writer's error", err)
		}
		m.obs.Label("writer failed")
	case err == nil:
		if accepted != rest {
			m.fail("drain", "draining from %d of %d returned no error after %d bytes", start, m.V, accepted)
		}
		mb.eof, m.endSeen = true, true
	default:
		if isWT && m.okError(mb, accepted, err, raised0) {
			mb.sticky = err
		}
		if mb.sticky == nil || !errors.Is(err, mb.sticky) {
			m.fail("drain", "draining from %d of %d returned %d and the unexpected error %v", start, m.V, n, err)
		}
	}
	if isWT {
		mb.pos = start + accepted
		if err == nil {
			mb.stall = 0
		}
	}
	if mb.sticky == nil && !m.quiet {
		// The position is known: the rest must be what is reported.
		if got := mb.b.BytesRemaining(); got >= 0 && got != max(m.V-mb.pos, 0) && !(m.over() && !mb.eof) && m.src == nil && m.spec.Lib == "" {
			m.soft("drain", "after draining %d bytes (%v) from %d of %d, BytesRemaining is %d", accepted, err, start, m.V, got)
		}
	}
}

func resolve(n int64, rel bool, rest int64) int64 {
	if rel {
		n += min(max(rest, 0), 1<<20)
	}
	return min(max(n, 0), maxBuf)
}

func (m *machine) step(i int, op Op) {
	idx := op.B % len(m.bodies)
	if idx < 0 { // counted from the latest one
		idx += len(m.bodies)
	}
	mb := m.bodies[idx]
	m.what = fmt.Sprintf("op %d (%s on body %d)", i, op.K, idx)
	switch op.K {
	case "read":
		m.read(mb, resolve(op.N, op.Rel, m.V-mb.pos))
	case "all": // everybody moves on
		for k, b := range m.bodies {
			if b.closed || len(m.bodies) > 2000 {
				continue
			}
			m.what = fmt.Sprintf("op %d (read on each, body %d)", i, k)
			m.read(b, resolve(op.N, op.Rel, m.V-b.pos))
		}
		m.what = fmt.Sprintf("op %d (read on each)", i)
	case "readat":
		off := op.Off
		if op.End {
			off = addSat(off, m.V)
		}
		m.readAt(mb, resolve(op.N, op.Rel, m.V-off), off)
	case "seek":
		off, w := op.Off, op.W
		if m.over() && (w == io.SeekCurrent || w == io.SeekEnd) {
			w = io.SeekStart
		}
		if op.End && w == io.SeekStart {
			off = max(addSat(off, m.V), 0)
		}
		m.seek(mb, off, w)
	case "copy":
		if len(m.bodies) < m.limit {
			m.bodies = append(m.bodies, m.copyOf(mb))
		}
	case "close":
		m.close(mb)
	case "remain":
		m.remain(mb)
	case "unwrap":
		m.unwrap(mb)
	case "iface":
		m.iface(mb)
	case "drain":
		m.drain(mb, op.W&3, resolve(op.N, op.Rel, m.V-mb.pos), op.W&4 != 0, int(op.Off))
	case "toend":
		m.toEnd(mb, max(op.N, 1))
	}
	m.invariants(i)
}

func addSat(a, b int64) int64 {
	if a > 0 && b > math.MaxInt64-a {
		return math.MaxInt64
	}
	return a + b
}

// toEnd reads to the end of the body, or to its error.
func (m *machine) toEnd(mb *mbody, buf int64) {
	if mb.closed {
		m.read(mb, buf)
		return
	}
	rest := max(m.V-mb.pos, 0)
	if rest > 8<<20 {
		if m.spec.seekable() {
			m.seek(mb, m.V-70000, io.SeekStart)
			rest = 70000
		} else {
			return
		}
	}
	buf = min(max(buf, rest/2000+1), maxBuf)
	before := int64(-1)
	if !m.quiet {
		before = mb.b.BytesRemaining()
	}
	start := mb.pos
	for n := 0; ; n++ {
		if err := m.read(mb, buf); err != nil {
			break
		}
		if n > 1<<20 {
			m.fail("eof", "reading does not come to an end")
		}
	}
	if before >= 0 && mb.pos-start > before {
		m.soft("fail", "BytesRemaining was %d at %d, but reading delivered %d bytes", before, start, mb.pos-start)
	}
	if mb.eof && !m.over() && before >= 0 && before != mb.pos-start && start <= m.V {
		m.soft("remain", "BytesRemaining was %d at %d, but reading to the end delivered %d bytes", before, start, mb.pos-start)
	}
}

// invariants holds after every step.
func (m *machine) invariants(i int) {
	if m.aspects["remain"] && (!m.quiet || i >= 1000) {
		for j, mb := range m.bodies {
			m.what = fmt.Sprintf("after op %d, body %d", i, j)
			m.remain(mb)
		}
	}
	if m.src == nil {
		return
	}
	m.src.mu.Lock()
	closes, asked, misuse := m.src.closes, m.src.maxAsked, m.src.misuse
	m.src.mu.Unlock()
	if len(misuse) > 0 {
		m.fail("own", "misuse of the source: %v", misuse)
	}
	want := 0
	if m.closable() && m.open() == 0 {
		want = 1
	}
	if closes != want {
		m.fail("own", "source closed %d times with %d bodies open", closes, m.open())
	}
	if m.K >= 0 && asked > m.K {
		m.soft("bound", "source was asked for bytes up to %d, but the length is %d", asked, m.K)
	}
}

func (m *machine) crowd(c *Crowd) {
	m.limit += c.N
	for i := 0; i < c.N; i++ {
		k := i * c.Stride % len(m.bodies)
		m.what = fmt.Sprintf("copy %d of the crowd, of body %d", i, k)
		m.bodies = append(m.bodies, m.copyOf(m.bodies[k]))
		if len(c.Adv) > 0 {
			m.read(m.bodies[k], int64(c.Adv[i%len(c.Adv)]))
		}
	}
}

// finish drains and closes all bodies that are still open, in the drawn order.
func (m *machine) finish(order []int, buf int64) {
	done := map[int]bool{}
	ids := []int{}
	for _, k := range order {
		if k < 0 {
			k = -k
		}
		k %= len(m.bodies)
		if !done[k] {
			done[k] = true
			ids = append(ids, k)
		}
	}
	for k := range m.bodies {
		if !done[k] {
			ids = append(ids, k)
		}
	}
	for _, k := range ids {
		mb := m.bodies[k]
		if mb.closed {
			continue
		}
		m.what = fmt.Sprintf("final drain of body %d", k)
		m.toEnd(mb, max(buf, 1))
		m.invariants(1000 + k)
	}
	for n, k := range ids {
		mb := m.bodies[k]
		if mb.closed {
			continue
		}
		m.what = fmt.Sprintf("final close of body %d", k)
		m.unwrap(mb)
		m.close(mb)
		m.invariants(2000 + k)
		if n == 0 {
			m.remain(mb)
		}
	}
	for k, mb := range m.bodies {
		m.what = fmt.Sprintf("closed body %d at the end", k)
		m.remain(mb)
		m.unwrap(mb)
		m.read(mb, 3)
	}
	m.invariants(3000)
}

// runHist executes a history against the model.
func runHist(h Hist, o *core.Obs, aspects map[string]bool) *machine {
	m := newMachine(&h.Src, o, aspects)
	m.run(h)
	return m
}

func (m *machine) run(h Hist) {
	o := m.obs
	m.quiet = h.Quiet
	m.limit += h.More
	m.crowd(&h.Crowd)
	for i, op := range h.Ops {
		m.step(i, op)
	}
	m.finish(h.Final, h.Buf)
	if m.src != nil {
		o.Label("kind:%s caps:%d", m.spec.kind(), m.spec.Caps)
	} else {
		o.Label("%s", strings.TrimSpace("kind:"+m.spec.kind()+" "+m.spec.Lib))
	}
	o.LabelIf(m.spec.Len > 65536, "longer than a block")
	o.LabelIf(m.spec.Len > 1<<30, "huge")
	o.LabelIf(m.copies > 0, "copies")
	o.LabelIf(m.copies > 3, "many copies")
}
