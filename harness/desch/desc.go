// Package desch checks what descriptions and error texts say.
package desch

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"net/http/httptest"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/handler"
	mock "github.com/chronos-tachyon/morehttp/internal/mockreader"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"github.com/chronos-tachyon/morehttp/zverif/mockh"
	"github.com/chronos-tachyon/morehttp/zverif/resph"
	"pgregory.net/rapid"
)

// number finds the integers of a text.
var number = regexp.MustCompile(`-?[0-9]+`)

func shows(text string, v int64) bool {
	for _, s := range number.FindAllString(text, -1) {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil && n == v {
			return true
		}
	}
	return false
}

// calls: scripted calls that differ are described differently.
type callsCase struct {
	Items []mockh.Item `json:"items"`
	Par   int          `json:"par,omitempty"`
}

var opName = map[string]string{"mark": "Mark", "stat": "Stat", "read": "Read", "readat": "ReadAt", "seek": "Seek", "close": "Close"}

func genCallsPar(t *rapid.T) callsCase {
	c := genCalls(t)
	c.Par = 2 + core.Uniform(t, 3)
	return c
}

func genCalls(t *rapid.T) callsCase {
	c := callsCase{Items: rapid.SliceOfN(rapid.Custom(mockh.GenItem), 1, 4).Draw(t, "items")}
	for n := len(c.Items); n > 0; n-- {
		it := c.Items[core.Uniform(t, len(c.Items))]
		switch core.Uniform(t, 8) {
		case 0:
			it.Data = append(bytes.Clone(it.Data), byte(core.Uniform(t, 256)))
		case 1:
			it.N = core.Uniform(t, len(it.Data)+1)
		case 2:
			it.Off += int64(core.Uniform(t, 3)) - 1
		case 3:
			it.W = core.Uniform(t, 5) - 1
		case 4:
			it.Ret++
		case 5:
			it.Err = core.Uniform(t, 6)
		case 6:
			it.Mark += core.Pick(t, []string{"x", "\"", ")", "\\", "\n", " "})
		default:
			if len(it.Data) > 0 {
				it.Data = bytes.Clone(it.Data)
				it.Data[core.Uniform(t, len(it.Data))] ^= byte(1 + core.Uniform(t, 255))
			}
		}
		c.Items = append(c.Items, it)
	}
	return c
}

// call is what a description has to tell apart; full adds what only GoString has to.
func call(it mockh.Item, full bool) string {
	s := it.K
	switch it.K {
	case "mark":
		return s + fmt.Sprintf(" %q", it.Mark)
	case "read", "readat":
		s += fmt.Sprintf(" %d -> %d", len(it.Data), it.N)
		if it.K == "readat" {
			s += fmt.Sprintf(" at %d", it.Off)
		}
		if full {
			s += fmt.Sprintf(" %x", it.Data)
		}
	case "seek":
		s += fmt.Sprintf(" %d %d -> %d", it.Off, it.W, it.Ret)
	}
	return s + fmt.Sprintf(" error %d", it.Err)
}

func runCalls(c callsCase, o *core.Obs) error {
	type desc struct{ plain, full string }
	xs := make([]mock.Expectation, len(c.Items))
	ds := make([]desc, len(c.Items))
	plains, fulls := map[string]string{}, map[string]string{}
	var fi mock.FileInfo
	for i, it := range c.Items {
		xs[i] = it.Expectation(&fi)
		ds[i] = desc{xs[i].String(), xs[i].GoString()}
		if !strings.Contains(ds[i].plain, opName[it.K]) || !strings.Contains(ds[i].full, opName[it.K]) {
			return fmt.Errorf("a %s is described as %q, %q", it.K, ds[i].plain, ds[i].full)
		}
		for _, v := range []struct {
			seen map[string]string
			text string
			call string
		}{{plains, ds[i].plain, call(it, false)}, {fulls, ds[i].full, call(it, true)}} {
			if old, ok := v.seen[v.text]; ok && old != v.call {
				return fmt.Errorf("both %s and %s are described as %q", old, v.call, v.text)
			}
			v.seen[v.text] = v.call
		}
		if again := (desc{xs[i].String(), fmt.Sprintf("%#v", xs[i])}); again != ds[i] {
			return fmt.Errorf("a %s is described as %q and then as %q", it.K, ds[i], again)
		}
	}
	o.LabelIf(len(plains) > 1, "several calls")
	if len(plains) > 1 {
		o.NonTrivial()
	}
	if c.Par == 0 {
		return nil
	}
	errs := make([]error, c.Par)
	var wg sync.WaitGroup
	for g := 0; g < c.Par; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := range xs {
				k := (i + g) % len(xs)
				if d := (desc{xs[k].String(), xs[k].GoString()}); d != ds[k] {
					errs[g] = fmt.Errorf("concurrently a %s is described as %q instead of %q", c.Items[k].K, d, ds[k])
				}
			}
		}(g)
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

// errors: error texts show the values they are about.
type errCase struct {
	Kind int   `json:"kind"`
	V    int64 `json:"v"`
	N    int   `json:"n,omitempty"`
}

func genErr(t *rapid.T) errCase {
	c := errCase{Kind: core.Uniform(t, 7), N: core.Uniform(t, 30)}
	c.V = rapid.OneOf(rapid.Int64(), rapid.Int64Range(-100, 100), rapid.SampledFrom([]int64{math.MinInt64, math.MaxInt64, -1, 0, 3, 1 << 31, 1 << 32})).Draw(t, "v")
	return c
}

type hostile struct{ p *int }

func (h hostile) Error() string { return strconv.Itoa(*h.p) }

type hostileText struct{}

func (hostileText) String() string { panic("not now") }

var plainValues = []any{"a string", 42, -7, 3.5, true, "x=%d %s %!", uint8(200), int64(-1 << 63), ""}
var otherValues = []any{struct{ A, B int }{1, 2}, []int{1, 2}, map[string]int{"a": 1}, func() {}, make(chan int), (*int)(nil), hostile{}, hostileText{}, &hostileText{},
	[]byte("bytes"), handler.PanicError{Value: "inner"}, &struct{ S string }{"s"}, complex(1, 2), [2]bool{true, false}, nil}

// open gives a body that can seek.
func open(kind int) (body.Body, error) {
	const data = "0123456789"
	switch kind % 4 {
	case 0:
		return body.FromString(data), nil
	case 1:
		return body.FromReader(strings.NewReader(data))
	case 2:
		return body.FromReader(struct{ io.ReadSeeker }{strings.NewReader(data)})
	default:
		return body.FromReaderAndLength(struct {
			io.Reader
			io.ReaderAt
			io.Seeker
		}{strings.NewReader(data), strings.NewReader(data), strings.NewReader(data)}, 10)
	}
}

func runErr(c errCase, o *core.Obs) error {
	o.Label("kind %d", c.Kind)
	o.NonTrivial()
	v := c.V
	var err error
	switch c.Kind {
	case 0:
		v = int64(int(v))
		err = body.UnknownWhenceSeekError{Whence: int(v)}
	case 1:
		err = body.NegativeStartOffsetSeekError{Offset: v}
	case 2:
		err = body.NegativeComputedOffsetSeekError{Offset: v}
	case 3: // the errors that seeking returns
		if v >= 0 {
			v = -1 - v
		}
		b, oerr := open(c.N)
		if oerr != nil {
			return oerr
		}
		defer b.Close()
		_, err = b.(io.Seeker).Seek(v, io.SeekStart)
		if err == nil {
			return fmt.Errorf("seeking to %d worked", v)
		}
	case 4:
		if v >= 0 {
			v = -1 - v
		}
		b, oerr := open(c.N)
		if oerr != nil {
			return oerr
		}
		defer b.Close()
		_, err = b.(io.ReaderAt).ReadAt(make([]byte, 3), v)
		if err == nil {
			return fmt.Errorf("reading at %d worked", v)
		}
	case 6: // a second status
		first := int(200 + uint64(v)%800)
		second := int(200 + uint64(v)/800%800)
		ww := response.NewWriter(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil))
		ww.WriteHeader(first)
		pv, panicked := core.Try(func() { ww.WriteHeader(second) })
		if text := fmt.Sprint(pv); !panicked || !shows(text, int64(first)) || !shows(text, int64(second)) {
			return fmt.Errorf("status %d after %d is refused (%v) with %q", second, first, panicked, text)
		}
		return nil
	default:
		if c.N < 15 {
			val := plainValues[c.N%len(plainValues)]
			text := handler.PanicError{Value: val}.Error()
			if !strings.Contains(text, fmt.Sprintf("%T", val)) || !strings.Contains(text, fmt.Sprint(val)) {
				return fmt.Errorf("panic value %#v is reported as %q", val, text)
			}
			return nil
		}
		val := otherValues[c.N%len(otherValues)]
		text := handler.PanicError{Value: val}.Error()
		if !strings.Contains(text, fmt.Sprintf("%T", val)) {
			return fmt.Errorf("panic value of type %T is reported as %q", val, text)
		}
		return nil
	}
	if !shows(err.Error(), v) {
		return fmt.Errorf("%T: %q does not show %d", err, err.Error(), v)
	}
	if g, ok := err.(fmt.GoStringer); ok {
		if text := g.GoString(); !shows(text, v) || !strings.Contains(text, reflect.TypeOf(err).Name()) {
			return fmt.Errorf("%T: %q does not show the type and %d", err, text, v)
		}
	}
	// Different kinds of errors are told apart.
	texts := map[string]bool{}
	for _, e := range []error{body.UnknownWhenceSeekError{Whence: int(v)}, body.NegativeStartOffsetSeekError{Offset: v}, body.NegativeComputedOffsetSeekError{Offset: v}} {
		texts[e.Error()] = true
	}
	if len(texts) != 3 {
		return fmt.Errorf("different seek errors read the same: %v", texts)
	}
	return nil
}

// responses: a response's description shows its status and how much remains.
type respCase struct {
	Resp resph.ServeCase `json:"resp"`
	Do   []int           `json:"do"`
}

func genResp(t *rapid.T) respCase {
	c := respCase{Resp: resph.GenServe(t, false)}
	c.Do = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 5, 100, 5000, -1, -2}), 1, 4).Draw(t, "do")
	return c
}

func runResp(c respCase, o *core.Obs) error {
	b, err := c.Resp.Body.Open()
	if err != nil {
		panic(core.Abandon{Label: "body not built"})
	}
	defer b.Release()
	resp := c.Resp.Respond(b)
	defer resp.Body().Close()
	list := []*response.Response{resp}
	want := b.Want
	check := func() error {
		for _, r := range list {
			rest := r.Body().BytesRemaining()
			text := fmt.Sprint(r)
			nums := number.FindAllString(strings.ReplaceAll(text, " - ", " "), -1)
			var got []int64
			for _, s := range nums {
				n, err := strconv.ParseInt(s, 10, 64)
				if err != nil {
					return fmt.Errorf("the description is %q", text)
				}
				got = append(got, n)
			}
			expect := []int64{int64(c.Resp.Status)}
			if rest >= 0 {
				expect = append(expect, rest)
			}
			o.LabelIf(rest < 0, "unknown length")
			if !reflect.DeepEqual(got, expect) {
				return fmt.Errorf("a response with status %d and %d bytes remaining is described as %q", c.Resp.Status, rest, text)
			}
			if s := r.String(); s != text {
				return fmt.Errorf("described as %q and then as %q", text, s)
			}
			if after := r.Body().BytesRemaining(); after != rest {
				return fmt.Errorf("describing changed the remaining count from %d to %d", rest, after)
			}
		}
		return nil
	}
	if err := check(); err != nil {
		return err
	}
	pos, closed := 0, false
	for _, d := range c.Do {
		switch {
		case d == -1:
			r2, err := resp.Copy()
			if err != nil {
				return fmt.Errorf("copying: %v", err)
			}
			defer r2.Body().Close()
			list = append(list, r2)
		case d == -2:
			resp.Body().Close()
			closed = true
		case !closed:
			n, err := io.ReadFull(resp.Body(), make([]byte, d))
			pos += n
			if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
				return fmt.Errorf("reading: %v", err)
			}
		}
		if err := check(); err != nil {
			return err
		}
	}
	o.LabelIf(pos > 0, "partly read")
	o.LabelIf(closed, "closed")
	if pos > 0 || closed {
		o.NonTrivial()
	}
	if !closed {
		rest, err := io.ReadAll(resp.Body())
		if err != nil || !bytes.Equal(rest, want[pos:]) {
			return fmt.Errorf("after describing %d bytes and %v were read instead of %d", len(rest), err, len(want)-pos)
		}
	}
	return nil
}

func init() {
	core.Register(&core.Check{
		ID:          "C31",
		Rule:        "a case is a group of scripted calls that differ in at most one respect from another of the group, described in sequence and concurrently; or an error with a drawn value; or a response whose body is read, copied and closed while it is described; non-trivial if there are two different calls, always, and if something was read or closed",
		Assumptions: []string{"the wording of descriptions is free"},
		Targets: []*core.Target{
			core.New("calls", 20000, genCalls, runCalls),
			core.New("calls-concurrent", 1500, genCallsPar, runCalls).WithRace().WithFactor(15),
			core.New("errors", 20000, genErr, runErr),
			core.New("responses", 20000, genResp, runResp),
		},
	})
}
