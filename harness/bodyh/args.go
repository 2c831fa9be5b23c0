package bodyh

import (
	"bytes"
	"fmt"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/zverif/core"
)

// How a machine treats the buffers it lends to the bodies.
const (
	lendReused = iota // one buffer, zeroed after every call
	lendFresh         // a new buffer for every call
	lendMarked        // one buffer, filled with a pattern after every call that must still be there at the next
)

var marks = bytes.Repeat([]byte{0xa5}, 1<<16)

// buffer returns n bytes for one call.
func (m *machine) buffer(n int64) []byte {
	if m.lend == lendFresh {
		return make([]byte, n)
	}
	if int64(len(m.buf)) < n {
		m.marked()
		m.buf = make([]byte, n)
		m.unlend(m.buf)
	}
	if m.lend == lendMarked {
		m.marked()
		return m.buf[:n] // there is room behind it, which is nobody else's business
	}
	return m.buf[:n:n]
}

// unlend is called when a call is over and its results have been looked at.
func (m *machine) unlend(p []byte) {
	switch m.lend {
	case lendReused:
		clear(p)
	case lendMarked:
		for len(p) > 0 {
			p = p[copy(p, marks):]
		}
		m.marked()
	}
}

// marked checks that nobody wrote into the buffer while it was not lent.
func (m *machine) marked() {
	if m.lend != lendMarked {
		return
	}
	for p := m.buf; len(p) > 0; {
		n := min(len(p), len(marks))
		if !bytes.Equal(p[:n], marks[:n]) {
			m.fail("lent", "the caller's buffer was written to outside of the part that was lent, or after the call")
		}
		p = p[n:]
	}
}

// untouched checks the slice the first body was made from.
func (m *machine) untouched() {
	if i := m.spec.mismatch(m.given, 0); i >= 0 {
		m.fail("lent", "byte %d of the slice handed in was changed", i)
	}
}

// attempt runs a history in one of the lending modes and returns its failure.
func attemptHist(h *Hist, o *core.Obs, lend int) (m *machine, err error) {
	defer func() {
		switch f := recover().(type) {
		case nil:
		case core.Failure:
			err = f
		default:
			panic(f)
		}
	}()
	m = &machine{lend: lend}
	m.prepare(&h.Src, o, aspectSet("data", "eof", "seek", "readat", "drain", "remain", "lent"))
	m.run(*h)
	m.marked()
	m.untouched()
	return m, nil
}

// LentTarget runs histories with buffers that are overwritten as soon as a call
// is over: nothing may be different from when every call gets its own buffer.
func LentTarget() *core.Target {
	p := profile{ops: ops("read", 8, "copy", 4, "seek", 3, "readat", 4, "drain", 2, "toend", 1, "close", 2), minOps: 1, maxOps: 16}
	return core.New("lent-buffers", 8000, genHist(&p), func(h Hist, o *core.Obs) error {
		if _, err := attemptHist(&h, o, lendFresh); err != nil {
			panic(core.Abandon{Label: "offaspect:history"})
		}
		m, err := attemptHist(&h, o, lendMarked)
		if err != nil {
			return fmt.Errorf("only when the caller reuses its buffers: %w", err)
		}
		if m.V > 0 && has(&h, "read", "readat") {
			o.NonTrivial()
		}
		o.LabelIf(m.given != nil, "slice handed in")
		return nil
	})
}

// fromBytes hands in a slice and remembers it.
func (m *machine) fromBytes() body.Body {
	m.given = bytes.Clone(m.spec.all(m.spec.Len))
	return body.FromBytes(m.given)
}
