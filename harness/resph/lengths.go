package resph

import (
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strconv"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"pgregory.net/rapid"
)

// LengthCase builds responses over foreign bodies that say how long they are.
type LengthCase struct {
	Remaining []int64 `json:"remaining"`        // one response each, built by the same builder
	Own       []int   `json:"own,omitempty"`    // responses with a Content-Length of the caller's
	Page      []int   `json:"page,omitempty"`   // responses made by a page generator: 1 error, 2 redirect
	Copied    []int   `json:"copied,omitempty"` // responses built from a copy of the builder
}

// lengthBody is a Body of somebody else's: Build must take its word.
type lengthBody struct {
	n      int64
	closed *int
}

func (b *lengthBody) BytesRemaining() int64      { return b.n }
func (b *lengthBody) Read(p []byte) (int, error) { return 0, io.EOF }
func (b *lengthBody) Close() error               { *b.closed++; return nil }
func (b *lengthBody) Copy() (body.Body, error)   { return &lengthBody{b.n, new(int)}, nil }
func (b *lengthBody) Unwrap() io.Reader          { return nil }

// lengthGen hands over a page without any header.
type lengthGen struct{ b body.Body }

func (g lengthGen) GenerateRedirectPage(int, string) (http.Header, body.Body) { return nil, g.b }
func (g lengthGen) GenerateErrorPage(int, error) (http.Header, body.Body)     { return nil, g.b }

func genLengths(t *rapid.T) LengthCase {
	var c LengthCase
	for n := 1 + core.Uniform(t, 5); n > 0; n-- {
		r := int64(-1)
		switch core.Uniform(t, 5) {
		case 0:
		case 1:
			r = rapid.Int64Range(0, 20).Draw(t, "small")
		case 2:
			r = rapid.Int64Range(0, 1<<63-1).Draw(t, "any")
		default: // around a power of two
			r = int64(1)<<core.Uniform(t, 63) + int64(core.Uniform(t, 3)) - 1
		}
		c.Remaining = append(c.Remaining, r)
		c.Own = append(c.Own, core.Uniform(t, 4)/3)
		c.Page = append(c.Page, core.Pick(t, []int{0, 0, 0, 1, 2}))
		c.Copied = append(c.Copied, core.Uniform(t, 4)/3)
	}
	return c
}

func runLengths(c LengthCase, obs *core.Obs) error {
	builder := response.NewBuilder()
	for i, n := range c.Remaining {
		b := &lengthBody{n, new(int)}
		status := 200
		switch at(c.Page, i) {
		case 1:
			status = 503
			builder.WithPageGenerator(lengthGen{b}).ErrorPage(503, io.ErrNoProgress)
		case 2:
			status = 307
			builder.WithPageGenerator(lengthGen{b}).RedirectPage(307, "/elsewhere")
		default:
			builder.WithBody(b)
		}
		want := http.Header{"Content-Type": {"application/octet-stream"}}
		if at(c.Own, i) != 0 {
			builder.WithHeader("Content-Length", "12", false)
			want["Content-Length"] = []string{"12"}
		} else if n >= 0 {
			want["Content-Length"] = []string{strconv.FormatInt(n, 10)}
		}
		if at(c.Page, i) == 2 {
			want["Location"] = []string{"/elsewhere"}
		}
		if builder.Body() != body.Body(b) {
			return fmt.Errorf("response %d: the builder holds another body than the one it was given", i)
		}
		from, expect := builder, body.Body(b)
		if at(c.Copied, i) != 0 {
			cp, err := builder.Copy()
			if err != nil {
				return fmt.Errorf("response %d: copying the builder: %v", i, err)
			}
			from, expect = cp, cp.Body()
			if cp.Body() == body.Body(b) {
				return fmt.Errorf("response %d: the copy of the builder shares the body", i)
			}
		}
		resp := from.Build()
		got := resp.Headers()
		if at(c.Page, i) == 2 && len(got["Location"]) == 0 {
			delete(want, "Location") // a generator's headers are its own business
		}
		if !reflect.DeepEqual(map[string][]string(got), map[string][]string(want)) {
			return fmt.Errorf("response %d over a body with %d bytes remaining has the headers %v, expected %v", i, n, got, want)
		}
		if resp.Status() != status {
			return fmt.Errorf("response %d has status %d, expected %d", i, resp.Status(), status)
		}
		if resp.Body() != expect {
			return fmt.Errorf("response %d holds another body than the builder did", i)
		}
		if *b.closed != 0 {
			return fmt.Errorf("response %d: building closed the body", i)
		}
		if at(c.Copied, i) != 0 {
			builder.Build() // empty it for the next one
		}
		rec := httptest.NewRecorder()
		if err := resp.Serve(rec); err != nil {
			return fmt.Errorf("response %d: serving: %v", i, err)
		}
		if h := map[string][]string(rec.Header()); !reflect.DeepEqual(h, map[string][]string(want)) {
			return fmt.Errorf("response %d over a body with %d bytes remaining was served with the headers %v, expected %v", i, n, h, want)
		}
	}
	if len(c.Remaining) > 1 {
		obs.NonTrivial()
	}
	return nil
}

func at(l []int, i int) int {
	if i < len(l) {
		return l[i]
	}
	return 0
}

func lengths() *core.Target { return core.New("lengths", 20000, genLengths, runLengths) }
