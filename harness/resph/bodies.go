package resph

import (
	"errors"
	"io"
	"sync"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/zverif/bodyh"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"pgregory.net/rapid"
)

// BSpec describes the body of a response.
type BSpec struct {
	Src      bodyh.Src `json:"src"`
	Pre      int64     `json:"pre,omitempty"`     // bytes read before
	Tracked  bool      `json:"tracked,omitempty"` // wrapped into a Body that is not one of the package's own
	CloseErr bool      `json:"closeerr,omitempty"`
	FailErr  int       `json:"failerr,omitempty"` // which error the body fails with
	CErr     int       `json:"cerr,omitempty"`    // which error its Close returns
	FailAt   int64     `json:"failat,omitempty"`  // tracked: fails at this position if Fail
	Fail     int       `json:"fail,omitempty"`    // tracked: 0 never, 1 error, 2 panic
	Claim    int64     `json:"claim,omitempty"`   // tracked and failing: so many more bytes would have come
	Unknown  bool      `json:"unknown,omitempty"`
	Shared   bool      `json:"shared,omitempty"` // another copy is held elsewhere
}

var (
	ErrBody  = errors.New("body failure")
	ErrClose = errors.New("body close failure")
)

// Failure is the error the body fails with.
func (s *BSpec) Failure() error { return core.Err(s.FailErr, ErrBody) }

// CloseFailure is the error closing the body returns.
func (s *BSpec) CloseFailure() error { return core.Err(s.CErr, ErrClose) }

// BPanic is the value a tracked body panics with.
const BPanic = "body panic"

// Bod is a body for a response with what is known about it.
type Bod struct {
	Spec   BSpec
	Body   body.Body
	Want   []byte // what remains to be read
	opened *bodyh.Opened
	log    *bodyLog
	held   body.Body
}

type bodyLog struct {
	mu     sync.Mutex
	closes int
	fails  int
	late   int // uses after close
}

type tracked struct {
	body.Body
	spec *BSpec
	pos  int64
	log  *bodyLog
}

func (b *tracked) Read(p []byte) (int, error) {
	b.log.mu.Lock()
	closed := b.log.closes > 0
	if closed {
		b.log.late++
	}
	b.log.mu.Unlock()
	if b.spec.Fail != 0 && !closed {
		if room := b.spec.FailAt - b.pos; int64(len(p)) > room {
			if room <= 0 {
				b.log.mu.Lock()
				b.log.fails++
				b.log.mu.Unlock()
				if b.spec.Fail == 2 {
					panic(BPanic)
				}
				return 0, b.spec.Failure()
			}
			p = p[:room]
		}
	}
	n, err := b.Body.Read(p)
	b.pos += int64(n)
	return n, err
}

func (b *tracked) BytesRemaining() int64 {
	if b.spec.Unknown {
		return -1
	}
	n := b.Body.BytesRemaining()
	if n < 0 || b.spec.Claim <= 0 || b.spec.Fail != 1 {
		return n
	}
	b.log.mu.Lock()
	defer b.log.mu.Unlock()
	if b.log.closes > 0 {
		return n
	}
	return n + b.spec.Claim
}

func (b *tracked) Close() error {
	b.log.mu.Lock()
	b.log.closes++
	b.log.mu.Unlock()
	err := b.Body.Close()
	if b.spec.CloseErr {
		return b.spec.CloseFailure()
	}
	return err
}

// Open builds the body.
func (s *BSpec) Open() (*Bod, error) {
	o, err := s.Src.Open()
	if err != nil {
		return nil, err
	}
	o.Allow(50000000)
	b := &Bod{Spec: *s, Body: o.Body, opened: o}
	pre := s.Pre
	if v := s.Src.Visible(); pre > v {
		pre = v
	}
	n, _ := io.ReadFull(o.Body, make([]byte, pre)) // may meet a failure
	b.Want = s.Src.Content(int64(n))
	if s.Shared {
		b.held, err = o.Body.Copy()
		if err != nil {
			return nil, err
		}
	}
	if s.Tracked {
		b.log = &bodyLog{}
		b.Body = &tracked{Body: o.Body, spec: &b.Spec, log: b.log}
	}
	return b, nil
}

// Closes is how often the body was closed; ok is false if that cannot be observed.
func (b *Bod) Closes() (n int, ok bool) {
	if b.log != nil {
		return b.log.closes, true
	}
	if b.Spec.Src.Closable() && b.held == nil {
		return b.opened.Closes(), true
	}
	return 0, false
}

// IsClosed tells whether the body has been closed, however it is made.
func (b *Bod) IsClosed() bool {
	_, err := b.Body.Read(make([]byte, 1))
	return errors.Is(err, errClosed)
}

// Failures are the errors the body may have produced.
func (b *Bod) Failures() (certain bool, errs []error) {
	if b.log != nil && b.log.fails > 0 {
		certain = true
		if b.Spec.Fail == 1 {
			errs = append(errs, b.Spec.Failure())
		}
	}
	if b.opened.Raised() > 0 {
		errs = append(errs, b.Spec.Src.Fault.Error())
	}
	if n, ok := b.Closes(); ok && n > 0 {
		switch {
		case b.log != nil && b.Spec.CloseErr:
			certain = true
			errs = append(errs, b.Spec.CloseFailure())
		case b.held == nil && b.Spec.Src.Closable() && b.Spec.Src.CloseErr:
			certain = true
			errs = append(errs, b.Spec.Src.CloseFailure())
		}
	}
	return
}

// GenBSpec draws the body of a response.
func GenBSpec(t *rapid.T, fail, small bool) BSpec {
	s := BSpec{Src: bodyh.GenSource(t, bodyh.GenOpts{Faults: fail, Small: small})}
	if !fail {
		s.Src.CloseErr = false
	}
	if core.Chance(t, 3) {
		s.Pre = rapid.Int64Range(0, s.Src.Visible()+2).Draw(t, "pre")
	}
	s.Tracked = rapid.Bool().Draw(t, "tracked")
	s.Shared = core.Chance(t, 5)
	if s.Tracked {
		s.Unknown = core.Chance(t, 4)
		if fail {
			s.CloseErr = core.Chance(t, 4)
			if s.CloseErr {
				s.CErr = core.GenErr(t, true)
			}
			if core.Chance(t, 4) {
				s.Fail = 1 + core.Uniform(t, 2)
				s.FailErr = core.GenErr(t, false)
				s.FailAt = rapid.Int64Range(0, s.Src.Visible()).Draw(t, "failat")
				if core.Chance(t, 2) {
					s.Claim = core.Pick(t, []int64{1, 1 << 20, 1<<31 - 1, 1 << 31, 1 << 32, 1 << 40})
				}
			}
		}
	}
	return s
}

// Panicked tells whether a tracked body panicked.
func (b *Bod) Panicked() bool { return b.log != nil && b.log.fails > 0 && b.Spec.Fail == 2 }

// Release closes what else is held of the body.
func (b *Bod) Release() {
	if b.held != nil {
		b.held.Close()
	}
}
