package bodyh

import (
	"errors"
	"fmt"
	"io"
	"io/fs"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"pgregory.net/rapid"
)

// Nested is a body made, with a length, from a reader that is a body already.
type Nested struct {
	Src    Src   `json:"src"`    // of the inner body
	Own    bool  `json:"own"`    // the inner body is not one of the package's own
	Pre    int64 `json:"pre"`    // bytes read from the inner body before, if it only reads forwards
	Length int64 `json:"length"` // declared for the outer body
	Sizes  []int `json:"sizes"`  // of reads, cycled
	Copy   int   `json:"copy"`   // after how many reads a copy is made
}

// spyBody is a foreign Body that remembers how much was asked of it.
type spyBody struct {
	body.Body
	asked  int64 // read so far, and the room of the last read
	got    int64
	closes int
}

func (b *spyBody) Read(p []byte) (int, error) {
	b.asked = max(b.asked, b.got+int64(len(p)))
	n, err := b.Body.Read(p)
	b.got += int64(n)
	return n, err
}

func (b *spyBody) Close() error {
	b.closes++
	return b.Body.Close()
}

func genNested(t *rapid.T) Nested {
	p := profile{declared: []string{"exact", "none", "under"}, small: core.Chance(t, 2)}
	c := Nested{Src: genSrc(t, &p), Own: core.Chance(t, 3)}
	c.Src.Len = min(c.Src.Len, 300000)
	c.Src.Declared = min(c.Src.Declared, c.Src.Len)
	c.Pre = rapid.Int64Range(0, c.Src.visible()).Draw(t, "pre")
	c.Length = rapid.OneOf(
		rapid.Int64Range(0, c.Src.visible()),
		rapid.Int64Range(max(0, c.Src.visible()-2), c.Src.visible()+2),
		rapid.Just(c.Src.visible()/2),
		rapid.Just(int64(0)),
		rapid.Just(c.Src.visible()+1000),
	).Draw(t, "length")
	c.Sizes = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 100, 4096, 65536, 65537, 200000}), 1, 4).Draw(t, "sizes")
	if c.Src.Len > 20000 {
		for i := range c.Sizes {
			c.Sizes[i] = max(c.Sizes[i], 4096)
		}
	}
	c.Copy = core.Uniform(t, 4)
	return c
}

func runNested(c Nested, o *core.Obs) error {
	if len(c.Sizes) == 0 {
		return nil
	}
	inner, src, _, err := c.Src.open()
	if err != nil {
		return nil
	}
	if src != nil {
		src.budget = 1 << 26
	}
	_, seeks := inner.(io.Seeker)
	if c.Own {
		seeks = false
	}
	var from int64
	if !seeks {
		// A body that only reads forwards goes on from where it stands.
		n, _ := io.ReadFull(inner, make([]byte, min(c.Pre, c.Src.visible())))
		from = int64(n)
	}
	var r io.Reader = inner
	var spy *spyBody
	if c.Own {
		spy = &spyBody{Body: inner}
		r = spy
	}
	outer, err := body.FromReaderAndLength(r, c.Length)
	if err != nil {
		return fmt.Errorf("construction: %v", err)
	}
	want := min(c.Length, c.Src.visible()-from)
	if got := outer.BytesRemaining(); got != c.Length {
		return fmt.Errorf("a body of declared length %d over another body has %d bytes remaining", c.Length, got)
	}
	type user struct {
		b   body.Body
		pos int64
		eof bool
	}
	users := []*user{{b: outer}}
	for i := 0; ; i++ {
		if i == c.Copy {
			b2, err := outer.Copy()
			if err != nil {
				return fmt.Errorf("Copy: %v", err)
			}
			users = append(users, &user{b: b2, pos: users[0].pos, eof: users[0].eof})
		}
		u := users[i%len(users)]
		if u.eof {
			u = users[0]
			if u.eof && (len(users) == 2 && users[1].eof || i > c.Copy+4) {
				break
			}
			if u.eof {
				if len(users) < 2 {
					continue
				}
				u = users[1]
			}
		}
		p := make([]byte, c.Sizes[i%len(c.Sizes)])
		n, err := u.b.Read(p)
		if n < 0 || n > len(p) {
			return fmt.Errorf("Read returned the count %d", n)
		}
		if k := c.Src.mismatch(p[:n], from+u.pos); k >= 0 && u.pos+int64(k) < want {
			return fmt.Errorf("wrong byte at position %d", u.pos+int64(k))
		}
		u.pos += int64(n)
		if u.pos > want {
			return fmt.Errorf("%d bytes were delivered of a body of declared length %d over one of %d bytes", u.pos, c.Length, c.Src.visible()-from)
		}
		if err == io.EOF {
			if u.pos != want {
				return fmt.Errorf("end-of-file after %d of %d bytes", u.pos, want)
			}
			if got := u.b.BytesRemaining(); got != 0 {
				return fmt.Errorf("%d bytes remain at the end", got)
			}
			u.eof = true
			continue
		}
		if err != nil {
			return fmt.Errorf("Read: %v", err)
		}
		if i > 1<<20 {
			return fmt.Errorf("reading does not come to an end")
		}
	}
	if spy != nil && spy.asked > c.Length {
		return fmt.Errorf("%d bytes were asked of the inner body, declared were %d", spy.asked, c.Length)
	}
	for i, u := range users {
		err := u.b.Close()
		var rerr error
		if last := i == len(users)-1; last {
			if src != nil && c.Src.Closable() && c.Src.CloseErr {
				rerr = c.Src.CloseFailure()
			}
		} else if _, e := inner.Read(nil); errors.Is(e, fs.ErrClosed) {
			return fmt.Errorf("closing one copy closed the inner body")
		}
		if !core.SameErr(err, rerr) && !(rerr != nil && errors.Is(err, rerr)) {
			return fmt.Errorf("Close returned %v instead of %v", err, rerr)
		}
	}
	if _, e := inner.Read(make([]byte, 1)); !errors.Is(e, fs.ErrClosed) {
		return fmt.Errorf("the inner body was not closed by the last Close (it reads: %v)", e)
	}
	if spy != nil && spy.closes != 1 {
		return fmt.Errorf("the inner body was closed %d times", spy.closes)
	}
	o.Label("inner:%s own:%v", c.Src.kind(), c.Own)
	if want != c.Src.visible()-from {
		o.NonTrivial()
	}
	return nil
}
