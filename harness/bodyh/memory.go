package bodyh

import (
	"fmt"
	"io"
	"runtime"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"pgregory.net/rapid"
)

// MemStep moves some bodies of a long stream.
type MemStep struct {
	Bytes int64 `json:"bytes"`           // how far the moving bodies go
	Stay  int   `json:"stay"`            // bit mask of bodies that stay where they are
	Close int   `json:"close,omitempty"` // bit mask of bodies closed after the step
	Copy  int   `json:"copy"`            // body to copy after the step, or -1
	Buf   int64 `json:"buf"`
	Catch bool  `json:"catch,omitempty"` // first let all bodies catch up with the foremost one
	Rest  int   `json:"rest,omitempty"`  // all bodies from this one on are closed after the step
	Many  int   `json:"many,omitempty"`  // the body to copy is copied so many times more
}

// MemCase streams a lot of data through copies of one body.
type MemCase struct {
	Known  bool      `json:"known"`
	Copies int       `json:"copies"`
	Chunk  int       `json:"chunk"`
	Steps  []MemStep `json:"steps"`
}

const mib = 1 << 20

func genMem(t *rapid.T) MemCase {
	c := MemCase{Known: rapid.Bool().Draw(t, "known"), Copies: core.Uniform(t, 4), Chunk: core.Pick(t, []int{0, 1000, 4096, 65536, 100000})}
	crowd := core.Uniform(t, 5) == 4
	if crowd && rapid.Bool().Draw(t, "at once") {
		c.Copies = core.Uniform(t, 64)
	}
	n := 2 + core.Uniform(t, 5)
	for i := 0; i < n; i++ {
		s := MemStep{Copy: -1, Buf: core.Pick(t, []int64{32768, 4096, 1000, 65536, 65537, 200000, 1 << 20})}
		s.Bytes = core.Pick(t, []int64{8 * mib, 4 * mib, 12 * mib, 6*mib + 4321})
		s.Stay = core.Pick(t, []int{0, 0, 0, 1, 2, 3, 5, 14, 15})
		s.Catch = core.Uniform(t, 3) == 0
		if core.Uniform(t, 3) == 2 {
			s.Close = 1 << core.Uniform(t, 5)
		}
		if core.Uniform(t, 3) == 2 {
			s.Copy = core.Uniform(t, 5)
			if crowd {
				s.Many = core.Uniform(t, 40)
			}
		}
		if crowd && core.Uniform(t, 3) == 2 {
			s.Rest = 1 + core.Uniform(t, 30)
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

// endless is a forward-only source with cheap contents.
type endless struct {
	pos, limit int64
	chunk      int
}

func (s *endless) Read(p []byte) (int, error) {
	if s.chunk > 0 && len(p) > s.chunk {
		p = p[:s.chunk]
	}
	if int64(len(p)) > s.limit-s.pos {
		p = p[:s.limit-s.pos]
		if len(p) == 0 {
			return 0, io.EOF
		}
	}
	// one recognisable byte per 4096 positions
	for i := (4096 - s.pos%4096) % 4096; i < int64(len(p)); i += 4096 {
		p[i] = byte((s.pos + i) / 4096 * 31)
	}
	s.pos += int64(len(p))
	return len(p), nil
}

func liveHeap() int64 {
	var ms runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc)
}

func runMem(c MemCase, o *core.Obs) error {
	const limit = 1 << 30
	src := &endless{limit: limit, chunk: c.Chunk}
	length := int64(-1)
	if c.Known {
		length = limit
	}
	buf := make([]byte, 1<<20)
	base := liveHeap()
	b, err := body.FromReaderAndLength(src, length)
	if err != nil {
		return err
	}
	type mb struct {
		b      body.Body
		pos    int64
		closed bool
	}
	bodies := []*mb{{b: b}}
	dup := func(x *mb) error {
		d, err := x.b.Copy()
		if err != nil {
			return err
		}
		bodies = append(bodies, &mb{b: d, pos: x.pos})
		return nil
	}
	for i := 0; i < c.Copies && i < 64; i++ {
		if err := dup(bodies[0]); err != nil {
			return err
		}
	}
	advance := func(x *mb, to, size int64) error {
		for x.pos < to {
			n, err := x.b.Read(buf[:min(size, to-x.pos)])
			if err != nil {
				return fmt.Errorf("Read at %d: %v", x.pos, err)
			}
			for i := (4096 - x.pos%4096) % 4096; i < int64(n); i += 4096 {
				if buf[i] != byte((x.pos+i)/4096*31) {
					return fmt.Errorf("wrong byte at position %d", x.pos+i)
				}
			}
			x.pos += int64(n)
		}
		return nil
	}
	maxLag := int64(0)
	measured := 0
	for _, s := range c.Steps {
		s.Buf = min(max(s.Buf, 512), 1<<20)
		s.Bytes = min(max(s.Bytes, 0), 16*mib)
		front, low := int64(0), int64(limit)
		any := false
		for _, x := range bodies {
			if !x.closed {
				front = max(front, x.pos)
				low = min(low, x.pos)
				any = true
			}
		}
		if !any {
			break
		}
		if front > 200*mib {
			break
		}
		if s.Catch || front-low > 16*mib {
			for _, x := range bodies {
				if !x.closed {
					if err := advance(x, front, s.Buf); err != nil {
						return err
					}
				}
			}
		}
		// Bodies that do not stay advance together, in strides.
		target := front + s.Bytes
		if target-low > 24*mib {
			target = front + mib
		}
		moved := false
		for at := front; at < target; {
			at = min(at+256*1024, target)
			for j, x := range bodies {
				if !x.closed && s.Stay&(1<<j) == 0 {
					if err := advance(x, at, s.Buf); err != nil {
						return err
					}
					moved = true
				}
			}
		}
		for j, x := range bodies {
			if !x.closed && (s.Close&(1<<j) != 0 || s.Rest > 0 && j >= s.Rest) {
				if err := x.b.Close(); err != nil {
					return fmt.Errorf("Close: %v", err)
				}
				x.closed = true
			}
		}
		if s.Copy >= 0 && s.Copy < len(bodies) && !bodies[s.Copy].closed {
			for n := 0; n <= s.Many && (len(bodies) < 6 || s.Many > 0 && len(bodies) < 64); n++ {
				if err := dup(bodies[s.Copy]); err != nil {
					return err
				}
			}
		}
		// Streaming goes on a little, so that whatever was released is really gone.
		var foremost *mb
		low = limit
		for _, x := range bodies {
			if !x.closed && (foremost == nil || x.pos > foremost.pos) {
				foremost = x
			}
		}
		if foremost == nil {
			break
		}
		if err := advance(foremost, max(foremost.pos, src.pos)+s.Buf+3*65536, s.Buf); err != nil {
			return err
		}
		for _, x := range bodies {
			if !x.closed {
				low = min(low, x.pos)
			}
		}
		lag := src.pos - low
		maxLag = max(maxLag, lag)
		// A buffer that grows by doubling is still fine.
		bound := 2*lag + 4*s.Buf + 3*mib
		if got := liveHeap() - base; got > bound {
			return fmt.Errorf("%d bytes are retained after streaming %d bytes, although the open copies are at most %d bytes apart", got, foremost.pos, lag)
		}
		measured++
		if moved && front > 12*mib {
			o.NonTrivial()
		}
	}
	o.LabelIf(maxLag > 4*mib, "lag over 4 MiB")
	o.LabelIf(len(bodies) > 1, "copies")
	o.LabelIf(len(bodies) > 10, "more than ten copies")
	o.LabelIf(c.Known, "known length")
	o.LabelIf(measured > 2, "several measurements")
	for _, x := range bodies {
		if !x.closed {
			x.b.Close()
		}
	}
	if got := liveHeap() - base; got > 2*mib {
		return fmt.Errorf("%d bytes are retained after all bodies were closed", got)
	}
	runtime.KeepAlive(bodies)
	runtime.KeepAlive(buf)
	return nil
}

func init() {
	core.Register(&core.Check{
		ID:          "C15",
		Rule:        "a case streams up to 200 MiB of a forward-only source through up to six (a fifth of the cases: up to 64) copies, some of them lagging, catching up, being closed or copied; the live heap after garbage collection is compared with twice the distance between the open copies plus 3 MiB; non-trivial if more than 12 MiB had gone by when bodies moved on and memory was measured",
		Assumptions: []string{"runtime.MemStats after two garbage collections is the retained memory; a buffer that grows by doubling counts as bounded"},
		Targets:     []*core.Target{core.New("streaming", 140, genMem, runMem).WithFactor(10)},
	})
}
