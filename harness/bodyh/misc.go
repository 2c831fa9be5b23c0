package bodyh

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"pgregory.net/rapid"
)

// closedTarget: AlreadyClosed() behaves as a closed body.
func closedTarget() *core.Target {
	type C struct {
		Ops []Op `json:"ops"`
	}
	p := profile{ops: ops("close", 1, "read", 2, "seek", 2, "readat", 2, "drain", 2, "remain", 1, "unwrap", 1, "copy", 1)}
	spec := &Src{Ctor: "empty"}
	return core.New("already-closed", 200, func(t *rapid.T) C {
		return C{rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op { return genOp(t, &p, spec) }), 1, 10).Draw(t, "ops")}
	}, func(c C, o *core.Obs) error {
		m := &machine{spec: spec, obs: o, aspects: aspectSet("closed", "data", "own", "remain", "iface")}
		m.bodies = []*mbody{{b: body.AlreadyClosed(), closed: true}}
		if f := ifaces(m.bodies[0].b); f != [3]bool{true, true, true} {
			return fmt.Errorf("AlreadyClosed offers Seek, ReadAt, WriteTo: %v", f)
		}
		for i, op := range c.Ops {
			m.step(i, op)
		}
		o.NonTrivial()
		return nil
	})
}

// ownBody is a Body that is not one of the package's own.
type ownBody struct{ body.Body }

// identityTarget: a reader that is a body is returned as it is, nil is rejected,
// and the package's own bodies offer what they promise.
func identityTarget() *core.Target {
	type C struct {
		What string `json:"what"`
		Len  int64  `json:"len"`
		Pos  int64  `json:"pos"`
	}
	return core.New("identity", 400, func(t *rapid.T) C {
		return C{
			What: rapid.SampledFrom([]string{"bytes", "empty", "closed", "stream", "seeker", "readerat", "own", "nil", "nillen", "nilptr", "json", "pretty"}).Draw(t, "what"),
			Len:  rapid.Int64Range(1, 50).Draw(t, "len"),
			Pos:  rapid.Int64Range(0, 50).Draw(t, "pos"),
		}
	}, func(c C, o *core.Obs) error {
		o.NonTrivial()
		o.Label("%s", c.What)
		var b body.Body
		src := &Src{Ctor: "reader", Len: c.Len}
		switch c.What {
		case "nil", "nillen", "nilptr":
			_, panicked := core.Try(func() {
				var r io.Reader
				if c.What == "nilptr" {
					r = (*bytes.Reader)(nil)
				}
				if c.What == "nillen" {
					body.FromReaderAndLength(r, c.Len)
				} else {
					body.FromReader(r)
				}
			})
			if !panicked {
				return fmt.Errorf("a nil reader was accepted")
			}
			return nil
		case "json", "pretty":
			if c.What == "json" {
				b = body.FromJSON(c)
			} else {
				b = body.FromPrettyJSON(c)
			}
			if f := ifaces(b); f != [3]bool{true, true, true} {
				return fmt.Errorf("a JSON body offers Seek, ReadAt, WriteTo: %v", f)
			}
			return nil
		case "bytes", "empty":
			b, _, _, _ = (&Src{Ctor: c.What, Len: c.Len}).open()
		case "closed":
			b = body.AlreadyClosed()
		case "stream", "own":
			b, _, _, _ = src.open()
			if c.What == "own" {
				b = &ownBody{b}
			}
		case "seeker":
			src.Caps = CapSeek
			b, _, _, _ = src.open()
		case "readerat":
			src.Caps = CapSeek | CapAt
			b, _, _, _ = src.open()
		}
		if c.What != "closed" {
			io.ReadFull(b, make([]byte, c.Pos))
		}
		rem := b.BytesRemaining()
		got, err := body.FromReader(b)
		if err != nil || got != b {
			return fmt.Errorf("FromReader of a body returned %T %v, %v", got, got == b, err)
		}
		if rem2 := got.BytesRemaining(); rem2 != rem {
			return fmt.Errorf("FromReader of a body changed its remaining count from %d to %d", rem, rem2)
		}
		if c.What != "closed" {
			if err := got.Close(); err != nil {
				return fmt.Errorf("Close: %v", err)
			}
		}
		if err := got.Close(); !errors.Is(err, fs.ErrClosed) {
			return fmt.Errorf("second Close: %v", err)
		}
		return nil
	})
}
