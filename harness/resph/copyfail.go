package resph

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"pgregory.net/rapid"
)

// CopyFail is a response, or a builder, whose body cannot always be copied.
type CopyFail struct {
	Resp  ServeCase `json:"resp"`
	Fails []bool    `json:"fails"` // which copies of the body fail
	Who   []bool    `json:"who"`   // which of them are made of the builder
	Err   bool      `json:"err,omitempty"`
	Errno int       `json:"errno,omitempty"` // which error copying fails with
}

var errCopy = errors.New("copy failure")

// fickle is a body that cannot always be copied.
type fickle struct {
	body.Body
	fails []bool
	n     int
	err   error
}

func (b *fickle) Copy() (body.Body, error) {
	b.n++
	if b.n <= len(b.fails) && b.fails[b.n-1] {
		return nil, b.err
	}
	return b.Body.Copy()
}

func genCopyFail(t *rapid.T) CopyFail {
	c := CopyFail{Resp: GenServe(t, false), Err: rapid.Bool().Draw(t, "err"), Errno: core.GenErr(t, true)}
	c.Fails = rapid.SliceOfN(rapid.Bool(), 1, 5).Draw(t, "fails")
	c.Who = rapid.SliceOfN(rapid.Bool(), len(c.Fails), len(c.Fails)).Draw(t, "who")
	return c
}

func runCopyFail(c CopyFail, o *core.Obs) error {
	b, err := c.Resp.Body.Open()
	if err != nil {
		panic(core.Abandon{Label: "body not built"})
	}
	defer b.Release()
	f := &fickle{Body: b.Body, fails: c.Fails, err: core.Err(c.Errno, errCopy)}
	var cause error
	if c.Err {
		cause = errors.New("what provoked the response")
	}
	bld := response.NewBuilder().WithStatus(c.Resp.Status).WithBody(f).WithError(cause)
	for _, kv := range c.Resp.Hdrs {
		for _, v := range kv.V {
			bld.WithHeader(kv.K, v, true)
		}
	}
	hdrs := bld.Headers().Clone()
	var resp *response.Response
	var made []io.Closer
	defer func() {
		for _, m := range made {
			m.Close()
		}
		f.Close()
	}()
	for i, fails := range c.Fails {
		ofBuilder := i < len(c.Who) && c.Who[i] && resp == nil
		id := fmt.Sprintf("copy %d (of a builder: %v)", i, ofBuilder)
		var err error
		var isNil bool
		var code int
		var cp body.Body
		if ofBuilder {
			var b2 *response.Builder
			b2, err = bld.Copy()
			if isNil = b2 == nil; !isNil {
				cp, code = b2.Body(), b2.Status()
			}
			if !isNil && (!headersEqual(b2.Headers(), hdrs) || b2.Err() != cause) {
				return fmt.Errorf("%s: headers %q, error %v", id, b2.Headers(), b2.Err())
			}
		} else {
			if resp == nil {
				resp = bld.Build()
				hdrs = resp.Headers().Clone()
			}
			var r2 *response.Response
			r2, err = resp.Copy()
			if isNil = r2 == nil; !isNil {
				cp, code = r2.Body(), r2.Status()
			}
			if !isNil && (!headersEqual(r2.Headers(), hdrs) || r2.Err() != cause) {
				return fmt.Errorf("%s: headers %q, error %v", id, r2.Headers(), r2.Err())
			}
		}
		if f.n != i+1 {
			return fmt.Errorf("%s: the body was copied %d times", id, f.n-i)
		}
		if fails {
			o.NonTrivial()
			o.LabelIf(ofBuilder, "builder")
			o.LabelIf(!ofBuilder, "response")
			if !errors.Is(err, f.err) {
				return fmt.Errorf("%s: error %v although the body could not be copied", id, err)
			}
			if cp != nil {
				return fmt.Errorf("%s: failed, but there is a body", id)
			}
		} else {
			if err != nil || cp == nil || code != c.Resp.Status {
				return fmt.Errorf("%s: error %v, body %v, status %d", id, err, cp != nil, code)
			}
			made = append(made, cp)
			if all, err := io.ReadAll(cp); err != nil || !bytes.Equal(all, b.Want) {
				return fmt.Errorf("%s: the copy's body has %d bytes, %v, instead of %d", id, len(all), err, len(b.Want))
			}
		}
		// The original is as it was.
		if resp == nil {
			if bld.Status() != c.Resp.Status || !headersEqual(bld.Headers(), hdrs) || bld.Err() != cause || bld.Body() != body.Body(f) {
				return fmt.Errorf("%s: the builder was changed", id)
			}
		} else if resp.Status() != c.Resp.Status || !headersEqual(resp.Headers(), hdrs) || resp.Err() != cause || resp.Body() != body.Body(f) {
			return fmt.Errorf("%s: the response was changed", id)
		}
	}
	if all, err := io.ReadAll(f); err != nil || !bytes.Equal(all, b.Want) {
		return fmt.Errorf("after the copies the body has %d bytes, %v, instead of %d", len(all), err, len(b.Want))
	}
	return nil
}

func copyFailures() *core.Target {
	return core.New("copy-failures", 20000, genCopyFail, runCopyFail)
}
