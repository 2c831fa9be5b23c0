// Package bodyh checks the properties of package body.
package bodyh

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/zverif/core"
)

// Capability bits of a source.
const (
	CapAt = 1 << iota
	CapSeek
	CapStat // implies CapClose: fs.File has Close
	CapClose
)

// Fault describes how a source fails.
type Fault struct {
	// Kind is "" (none), "pos" (every read that touches position Pos fails there,
	// for as long as Times lasts), "read", "seek" (the Nth call of that kind fails),
	// "bogus" (the Nth read reports an impossible count).
	Kind  string `json:"kind,omitempty"`
	Pos   int64  `json:"pos,omitempty"`   // kind pos: position of the failing byte
	Nth   int    `json:"nth,omitempty"`   // kinds read, seek, bogus: which call, from 0
	Times int    `json:"times,omitempty"` // how often it fails; 0 means always
	With  bool   `json:"with,omitempty"`  // deliver the preceding bytes along with the error
	Err   int    `json:"err,omitempty"`   // which error value
	Delta int64  `json:"delta,omitempty"` // kind bogus: the count to report, relative to len(p) if positive
}

// Src describes a body's source and how the body is constructed from it.
type Src struct {
	Ctor     string `json:"ctor"` // bytes, string, empty, reader, readerlen
	Caps     int    `json:"caps,omitempty"`
	Len      int64  `json:"len"`
	Pat      uint64 `json:"pat,omitempty"`
	Declared int64  `json:"declared,omitempty"` // ctor readerlen
	Chunks   []int  `json:"chunks,omitempty"`   // sizes of successive reads of the source, cycled
	EOFWith  bool   `json:"eofwith,omitempty"`  // deliver EOF along with the last bytes
	AtEOF    bool   `json:"ateof,omitempty"`    // ReadAt ending exactly at the end reports EOF
	CloseErr bool   `json:"closeerr,omitempty"`
	CErr     int    `json:"cerr,omitempty"` // which error Close returns
	Fault    Fault  `json:"fault"`
	Yield    int    `json:"yield,omitempty"` // yields inside source calls (concurrent targets)
	Lib      string `json:"lib,omitempty"`   // a reader of the standard library
	Words    bool   `json:"words,omitempty"` // content is 4-byte big-endian word indexes
}

// content returns the byte of the source at position i.
func (s *Src) at(i int64) byte {
	if s.Words {
		w := uint32(i / 4)
		return byte(w >> (8 * uint(3-i%4)))
	}
	return byte(s.word(i>>3) >> (8 * uint(i&7)))
}

// word returns eight bytes of content.
func (s *Src) word(i int64) uint64 {
	x := uint64(i) + s.Pat*0x9E3779B97F4A7C15
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	return x ^ x>>31
}

func (s *Src) fill(p []byte, off int64) {
	i := 0
	for ; i < len(p) && (s.Words || (off+int64(i))&7 != 0); i++ {
		p[i] = s.at(off + int64(i))
	}
	for ; i+8 <= len(p); i += 8 {
		binary.LittleEndian.PutUint64(p[i:], s.word((off+int64(i))>>3))
	}
	for ; i < len(p); i++ {
		p[i] = s.at(off + int64(i))
	}
}

// mismatch returns the index of the first byte of p that is not the content at off, or -1.
func (s *Src) mismatch(p []byte, off int64) int {
	i := 0
	for ; i < len(p) && (s.Words || (off+int64(i))&7 != 0); i++ {
		if p[i] != s.at(off+int64(i)) {
			return i
		}
	}
	for ; i+8 <= len(p); i += 8 {
		if binary.LittleEndian.Uint64(p[i:]) != s.word((off+int64(i))>>3) {
			break
		}
	}
	for ; i < len(p); i++ {
		if p[i] != s.at(off+int64(i)) {
			return i
		}
	}
	return -1
}

func (s *Src) all(n int64) []byte {
	p := make([]byte, n)
	s.fill(p, 0)
	return p
}

type srcError struct{ n int }

func (e *srcError) Error() string { return fmt.Sprintf("source failure %d", e.n) }

var (
	errPlain      error = &srcError{1}
	errWrappedEOF       = fmt.Errorf("wrapped: %w", io.EOF)
	errCloser           = errors.New("source close failure")
	errStat             = errors.New("source stat failure")
	errSeek             = errors.New("source seek failure")
)

func (f Fault) error() error {
	switch f.Err {
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return io.ErrClosedPipe
	case 3:
		return errWrappedEOF // not io.EOF itself
	case 4:
		return io.ErrNoProgress
	case 5:
		return fs.ErrClosed // a source may be closed behind the body's back
	case 6:
		return os.ErrDeadlineExceeded // temporary
	case 7:
		return core.ErrList{"not", "comparable"}
	default:
		if f.Err > 7 {
			return core.Err(f.Err-7, errPlain)
		}
		return errPlain
	}
}

// call is one call the source received, as far as the checks need it.
type source struct {
	spec *Src

	mu       sync.Mutex
	cursor   int64
	chunk    int
	reads    int
	seeks    int
	raised   int   // errors other than EOF returned
	failEnd  int64 // end of the good bytes before the last error, or -1
	bogus    int   // impossible counts returned
	zero     int   // (0, nil) for a non-empty buffer
	sawEOF   bool
	closes   int
	misuse   []string
	maxAsked int64 // highest position asked for
	stats    int
	armed    bool // construction is over; injected faults are active
	calls    int
	budget   int // remaining calls; a body that loops for ever runs out of it

	inUse atomic.Int32
	inAt  atomic.Int32

	statErr, seekErr error // construction faults
	seekErrNth       int
	statSize         *int64
	seekRet          *int64
}

func (s *source) enter(op string, excl bool) {
	if excl {
		if s.inUse.Add(1) != 1 {
			s.note("overlapping calls: %s", op)
		}
		if s.inAt.Load() != 0 && op == "Close" {
			s.note("Close during ReadAt")
		}
	} else {
		s.inAt.Add(1)
	}
	if y := s.spec.Yield; y > 0 {
		for i := 0; i < y%7; i++ {
			runtime.Gosched()
		}
		if y >= 90 {
			time.Sleep(time.Duration(y-89) * 20 * time.Microsecond)
		}
	}
	s.mu.Lock()
	s.calls++
	s.budget--
	over := s.budget < 0
	closed := s.closes > 0
	s.mu.Unlock()
	if over {
		panic(core.Failure{Msg: "the body calls its source without bound"})
	}
	if closed {
		s.note("%s after Close", op)
	}
}

func (s *source) leave(excl bool) {
	if excl {
		s.inUse.Add(-1)
	} else {
		s.inAt.Add(-1)
	}
}

func (s *source) note(format string, args ...any) {
	s.mu.Lock()
	if len(s.misuse) < 10 {
		s.misuse = append(s.misuse, fmt.Sprintf(format, args...))
	}
	s.mu.Unlock()
}

func (s *source) asked(end int64) {
	if end > s.maxAsked {
		s.maxAsked = end
	}
}

// faultFor decides whether a read of n bytes at off fails, and how many bytes precede the failure.
func (s *source) faultFor(off, n int64) (fail bool, before int64) {
	f := &s.spec.Fault
	if f.Times > 0 && s.raised >= f.Times {
		return false, 0
	}
	switch f.Kind {
	case "pos":
		if f.Pos >= off && (f.Pos < off+n || f.Pos == s.spec.Len && f.Pos == off+n) {
			return true, f.Pos - off
		}
	case "read":
		if s.reads-1 >= f.Nth && (f.Times == 0 || s.reads-1 < f.Nth+f.Times) {
			return true, n / 2
		}
	}
	return false, 0
}

func (s *source) bogusFor(n int) (int, bool) {
	f := &s.spec.Fault
	if f.Kind == "bogus" && s.reads-1 == f.Nth {
		s.bogus++
		if f.Delta > 0 {
			return n + int(f.Delta), true
		}
		return int(f.Delta), true
	}
	return 0, false
}

func (s *source) bogusErr() error {
	switch {
	case !s.spec.Fault.With:
		return nil
	case s.spec.Fault.Err == 1:
		return io.EOF
	}
	return errPlain
}

func (s *source) Read(p []byte) (int, error) {
	s.enter("Read", true)
	defer s.leave(true)
	s.mu.Lock()
	defer s.mu.Unlock()
	off := s.cursor
	s.reads++
	s.asked(off + int64(len(p)))
	if n, ok := s.bogusFor(len(p)); ok {
		return n, s.bogusErr()
	}
	x := int64(len(p))
	if rest := s.spec.Len - off; x > rest {
		x = rest
	}
	if x < 0 {
		x = 0
	}
	if len(p) > 0 && len(s.spec.Chunks) > 0 {
		c := s.spec.Chunks[s.chunk%len(s.spec.Chunks)]
		s.chunk++
		if c == 0 && x > 0 {
			s.zero++
			return 0, nil
		}
		if c > 0 && x > int64(c) {
			x = int64(c)
		}
	}
	if fail, before := s.faultFor(off, x); fail && (len(p) > 0) {
		if s.spec.Fault.With || before == 0 {
			s.raised++
			s.failEnd = off + before
			s.spec.fill(p[:before], off)
			s.cursor += before
			return int(before), s.spec.Fault.error()
		}
		x = before // the bytes before the failure first; the next read fails
	}
	s.spec.fill(p[:x], off)
	s.cursor += x
	if len(p) == 0 {
		return 0, nil
	}
	if off+x >= s.spec.Len && (x == 0 || s.spec.EOFWith) {
		s.sawEOF = true
		return int(x), io.EOF
	}
	return int(x), nil
}

func (s *source) ReadAt(p []byte, off int64) (int, error) {
	s.enter("ReadAt", false)
	defer s.leave(false)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.reads++
	if off < 0 {
		s.misuse = append(s.misuse, fmt.Sprintf("ReadAt with negative offset %d", off))
		return 0, errors.New("negative offset")
	}
	s.asked(off + int64(len(p)))
	if n, ok := s.bogusFor(len(p)); ok {
		return n, s.bogusErr()
	}
	x := int64(len(p))
	if rest := s.spec.Len - off; x > rest {
		x = rest
	}
	if x < 0 {
		x = 0
	}
	if fail, before := s.faultFor(off, x); fail && len(p) > 0 {
		s.raised++
		if !s.spec.Fault.With {
			before = 0
		}
		s.failEnd = off + before
		s.spec.fill(p[:before], off)
		return int(before), s.spec.Fault.error()
	}
	s.spec.fill(p[:x], off)
	if x < int64(len(p)) || (s.spec.AtEOF && len(p) > 0 && off+x == s.spec.Len) {
		s.sawEOF = true
		return int(x), io.EOF
	}
	return int(x), nil
}

func (s *source) Seek(off int64, whence int) (int64, error) {
	s.enter("Seek", true)
	defer s.leave(true)
	s.mu.Lock()
	defer s.mu.Unlock()
	n := s.seeks
	s.seeks++
	if s.seekErr != nil && n == s.seekErrNth {
		return -1, s.seekErr
	}
	if s.seekRet != nil && n == s.seekErrNth {
		return *s.seekRet, nil
	}
	if f := s.spec.Fault; f.Kind == "seek" && n >= f.Nth && (f.Times == 0 || n < f.Nth+f.Times) && s.armed {
		s.raised++
		s.failEnd = -1
		return -1, f.error()
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += s.cursor
	case io.SeekEnd:
		off += s.spec.Len
	default:
		return -1, errors.New("source: bad whence")
	}
	if off < 0 {
		s.misuse = append(s.misuse, fmt.Sprintf("Seek to negative position %d", off))
		return -1, errors.New("source: negative position")
	}
	s.cursor = off
	return off, nil
}

func (s *source) Close() error {
	s.enter("Close", true)
	defer s.leave(true)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.closes++
	if s.spec.CloseErr {
		return s.spec.CloseFailure()
	}
	return nil
}

type fileInfo struct{ size int64 }

func (fi fileInfo) Name() string       { return "source" }
func (fi fileInfo) Size() int64        { return fi.size }
func (fi fileInfo) Mode() fs.FileMode  { return 0o444 }
func (fi fileInfo) ModTime() time.Time { return time.Time{} }
func (fi fileInfo) IsDir() bool        { return false }
func (fi fileInfo) Sys() any           { return nil }

func (s *source) Stat() (fs.FileInfo, error) {
	s.enter("Stat", true)
	defer s.leave(true)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.stats++
	if s.statErr != nil {
		return nil, s.statErr
	}
	if s.statSize != nil {
		return fileInfo{*s.statSize}, nil
	}
	return fileInfo{s.spec.Len}, nil
}

type statter interface {
	Stat() (fs.FileInfo, error)
}

// wrap returns a reader offering exactly the capabilities of the spec.
func (s *source) wrap() io.Reader {
	caps := s.spec.Caps
	if caps&CapStat != 0 {
		caps |= CapClose
	}
	switch caps {
	case 0:
		return &struct{ io.Reader }{s}
	case CapAt:
		return &struct {
			io.Reader
			io.ReaderAt
		}{s, s}
	case CapSeek:
		return &struct {
			io.Reader
			io.Seeker
		}{s, s}
	case CapAt | CapSeek:
		return &struct {
			io.Reader
			io.ReaderAt
			io.Seeker
		}{s, s, s}
	case CapClose:
		return &struct {
			io.Reader
			io.Closer
		}{s, s}
	case CapClose | CapAt:
		return &struct {
			io.Reader
			io.Closer
			io.ReaderAt
		}{s, s, s}
	case CapClose | CapSeek:
		return &struct {
			io.Reader
			io.Closer
			io.Seeker
		}{s, s, s}
	case CapClose | CapAt | CapSeek:
		return &struct {
			io.Reader
			io.Closer
			io.ReaderAt
			io.Seeker
		}{s, s, s, s}
	case CapClose | CapStat:
		return &struct {
			io.Reader
			io.Closer
			statter
		}{s, s, s}
	case CapClose | CapStat | CapAt:
		return &struct {
			io.Reader
			io.Closer
			statter
			io.ReaderAt
		}{s, s, s, s}
	case CapClose | CapStat | CapSeek:
		return &struct {
			io.Reader
			io.Closer
			statter
			io.Seeker
		}{s, s, s, s}
	default:
		return &struct {
			io.Reader
			io.Closer
			statter
			io.ReaderAt
			io.Seeker
		}{s, s, s, s, s}
	}
}

// Kind of body a source leads to, for labels only.
func (s *Src) kind() string {
	switch s.Ctor {
	case "bytes", "string":
		if s.Len == 0 {
			return "empty"
		}
		return "bytes"
	case "empty":
		return "empty"
	}
	known := s.knownLen() >= 0
	switch {
	case s.Caps&CapAt != 0 && known:
		return "readerat"
	case s.Caps&CapSeek != 0:
		return "seeker"
	default:
		return "stream"
	}
}

// knownLen is the length a body over this source knows from the start, or -1.
func (s *Src) knownLen() int64 {
	switch s.Ctor {
	case "bytes", "string":
		return s.Len
	case "empty":
		return 0
	case "readerlen":
		if s.Declared >= 0 {
			return s.Declared
		}
	}
	if s.Caps&(CapStat|CapSeek) != 0 {
		return s.Len
	}
	return -1
}

// visible is the number of bytes a fresh body over this source delivers (without faults).
func (s *Src) visible() int64 {
	if s.Ctor == "empty" {
		return 0
	}
	if l := s.knownLen(); l >= 0 && l < s.Len {
		return l
	}
	return s.Len
}

// seekable tells whether the documentation promises io.Seeker and io.ReaderAt.
func (s *Src) seekable() bool {
	switch s.Ctor {
	case "bytes", "string", "empty":
		return true
	}
	return s.Caps&CapSeek != 0 || s.Caps&(CapAt|CapStat) == CapAt|CapStat
}

// open builds the body.
func (s *Src) open() (b body.Body, src *source, r io.Reader, err error) {
	switch s.Ctor {
	case "bytes":
		return body.FromBytes(s.all(s.Len)), nil, nil, nil
	case "string":
		return body.FromString(string(s.all(s.Len))), nil, nil, nil
	case "empty":
		return body.Empty(), nil, nil, nil
	}
	if s.Lib != "" {
		if r, err = s.library(); err != nil {
			panic(core.Abandon{Label: "no source"})
		}
		if s.Ctor == "readerlen" {
			b, err = body.FromReaderAndLength(r, s.Declared)
		} else {
			b, err = body.FromReader(r)
		}
		return
	}
	src = &source{spec: s, budget: 1000}
	r = src.wrap()
	if s.Ctor == "readerlen" {
		b, err = body.FromReaderAndLength(r, s.Declared)
	} else {
		b, err = body.FromReader(r)
	}
	src.mu.Lock()
	src.seeks, src.reads, src.armed = 0, 0, true
	src.mu.Unlock()
	return
}
