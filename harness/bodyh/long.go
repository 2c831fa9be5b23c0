package bodyh

import (
	"fmt"
	"io"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"pgregory.net/rapid"
)

// LongCase streams past the counts that 31 or 32 bits can hold.
type LongCase struct {
	Limit int64 `json:"limit"`
	Known bool  `json:"known"`
	Over  int64 `json:"over"` // declared too much by
	Mark  int64 `json:"mark"` // where the copy is made
	Buf   int64 `json:"buf"`
	Steps []int `json:"steps"` // sizes read around the mark; odd ones by the copy
	First bool  `json:"first"` // the original is closed there, and not the copy
}

func genLong(t *rapid.T) LongCase {
	edge := int64(1) << core.Pick(t, []int{31, 32, 32})
	c := LongCase{Known: rapid.Bool().Draw(t, "known"), Mark: edge - rapid.Int64Range(0, 100000).Draw(t, "before"), Buf: core.Pick(t, []int64{1 << 20, 2 << 20, 4 << 20})}
	c.Limit = c.Mark + rapid.Int64Range(100001, 3<<20).Draw(t, "after")
	if c.Known && core.Chance(t, 3) {
		c.Over = rapid.Int64Range(1, 70000).Draw(t, "over")
	}
	c.Steps = rapid.SliceOfN(rapid.IntRange(0, 70000), 1, 8).Draw(t, "steps")
	c.First = rapid.Bool().Draw(t, "first")
	return c
}

func runLong(c LongCase, o *core.Obs) error {
	src := &endless{limit: c.Limit}
	length := int64(-1)
	if c.Known {
		length = c.Limit + c.Over
	}
	b, err := body.FromReaderAndLength(src, length)
	if err != nil {
		return err
	}
	buf := make([]byte, c.Buf)
	type cur struct {
		b   body.Body
		pos int64
	}
	read := func(x *cur, n int64) error {
		for i := (4096 - x.pos%4096) % 4096; i < n; i += 4096 {
			buf[i] = ^byte((x.pos + i) / 4096 * 31)
		}
		k, err := x.b.Read(buf[:n])
		if k < 0 || int64(k) > n {
			return fmt.Errorf("Read of %d bytes at %d returned %d", n, x.pos, k)
		}
		for i := (4096 - x.pos%4096) % 4096; i < int64(k); i += 4096 {
			if buf[i] != byte((x.pos+i)/4096*31) {
				return fmt.Errorf("wrong byte at position %d", x.pos+i)
			}
		}
		x.pos += int64(k)
		switch {
		case err == io.EOF && x.pos == c.Limit:
		case err != nil:
			return fmt.Errorf("Read of %d bytes at %d of %d returned %d, %v", n, x.pos, c.Limit, k, err)
		case k == 0 && n > 0:
			return fmt.Errorf("Read of %d bytes at %d of %d returned nothing", n, x.pos, c.Limit)
		}
		if rem := x.b.BytesRemaining(); rem != c.Limit-x.pos && !(c.Over > 0 && rem == c.Limit+c.Over-x.pos) && !(!c.Known && rem == -1) {
			return fmt.Errorf("BytesRemaining is %d at %d of %d", rem, x.pos, c.Limit)
		}
		if err == io.EOF {
			return io.EOF
		}
		return nil
	}
	x := &cur{b: b}
	for x.pos < c.Mark {
		if err := read(x, min(c.Buf, c.Mark-x.pos)); err != nil {
			return err
		}
	}
	d, err := b.Copy()
	if err != nil {
		return err
	}
	y := &cur{b: d, pos: x.pos}
	for _, n := range c.Steps {
		z := x
		if n%2 == 1 {
			z = y
		}
		if err := read(z, int64(n)); err != nil && err != io.EOF {
			return err
		}
	}
	if c.First {
		x, y = y, x
	}
	if err := y.b.Close(); err != nil {
		return err
	}
	for n := 0; ; n++ {
		err := read(x, c.Buf)
		if err == io.EOF {
			break
		}
		if err != nil {
			return err
		}
		if n > 1000 {
			return fmt.Errorf("no end")
		}
	}
	o.LabelIf(c.Known, "known length")
	o.NonTrivial()
	return x.b.Close()
}

func longTarget() *core.Target {
	return core.New("beyond-32-bits", 4, genLong, runLong).WithFactor(10)
}
