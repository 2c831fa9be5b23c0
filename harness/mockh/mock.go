// Package mockh checks the property of the scripted mock reader.
package mockh

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"strconv"
	"strings"
	"time"

	mock "github.com/chronos-tachyon/morehttp/internal/mockreader"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"pgregory.net/rapid"
)

// Item is an entry of a script, or a call.
type Item struct {
	K    string `json:"k"` // mark, stat, read, readat, seek, close
	Mark string `json:"mark,omitempty"`
	Data []byte `json:"data,omitempty"`
	N    int    `json:"n,omitempty"`
	Off  int64  `json:"off,omitempty"`
	W    int    `json:"w,omitempty"`
	Ret  int64  `json:"ret,omitempty"`
	Err  int    `json:"err,omitempty"` // 0: nil
	Via  int    `json:"via,omitempty"` // wrapper the call is made through
}

// Case is a script and the calls made.
type Case struct {
	Script []Item `json:"script"`
	Dev    int    `json:"dev"` // index of the deviating call; len(Script) is past the end; -1 none
	Call   Item   `json:"call"`
	NilFI  bool   `json:"nilfi,omitempty"`
}

var errs = []error{nil, io.EOF, errors.New("scripted"), fs.ErrClosed, io.ErrUnexpectedEOF, fmt.Errorf("wrapped: %w", io.EOF)}

func (it Item) err() error { return errs[it.Err%len(errs)] }

// GenItem draws an entry of a script.
func GenItem(t *rapid.T) Item {
	it := Item{K: core.Pick(t, []string{"mark", "stat", "read", "read", "readat", "seek", "close"}), Via: core.Uniform(t, 9)}
	switch it.K {
	case "mark":
		it.Mark = core.Pick(t, []string{"", "a", "b", "a longer mark", "Mark(\"x\")"})
	case "read", "readat":
		it.Data = rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "data")
		if core.Chance(t, 150) {
			it.Data = bytes.Repeat([]byte{byte(1 + len(it.Data)), 2, 3}, 90000)[:core.Pick(t, []int{13, 100, 255, 256, 257, 512, 4096, 65535, 65536, 65537, 200000})]
		}
		it.N = core.Uniform(t, len(it.Data)+1)
		if it.K == "readat" {
			it.Off = genOff(t)
		}
	case "seek":
		it.Off, it.W = genOff(t), core.Pick(t, []int{0, 1, 2, 3, -1})
		it.Ret = genOff(t)
	}
	it.Err = core.Uniform(t, len(errs))
	return it
}

func genOff(t *rapid.T) int64 {
	return core.Pick(t, []int64{0, 1, 2, -1, 4, 65536, 1 << 31, 1 << 32, 1<<32 + 1, -1 << 63, 1<<63 - 1})
}

func gen(t *rapid.T) Case {
	least := core.Uniform(t, 9)
	c := Case{Script: rapid.SliceOfN(rapid.Custom(GenItem), least, 12).Draw(t, "script"), Dev: -1}
	if core.Chance(t, 8) { // a long one
		item := rapid.Custom(GenItem)
		if rapid.Bool().Draw(t, "same") {
			item = rapid.Just(GenItem(t))
		}
		for range core.Uniform(t, 40) {
			c.Script = append(c.Script, item.Draw(t, "more"))
		}
		c.Script = append(c.Script, rapid.SliceOfN(rapid.Custom(GenItem), 1, 4).Draw(t, "last")...)
	}
	n := len(c.Script)
	switch core.Uniform(t, 5) {
	case 0: // no deviation
	case 1:
		c.Dev = n
		c.Call = GenItem(t)
	case 2: // any other call
		if n > 0 {
			c.Dev = core.Uniform(t, n)
			c.Call = GenItem(t)
		}
	default: // the scripted call with one change
		if n > 0 {
			c.Dev = core.Uniform(t, n)
			c.Call = c.Script[c.Dev]
			c.Call.Via = core.Uniform(t, 9)
			switch c.Call.K {
			case "mark":
				c.Call.Mark += "'"
			case "read":
				c.Call.Data = append(bytes.Clone(c.Call.Data), make([]byte, 1+core.Uniform(t, 3))...)
				if rapid.Bool().Draw(t, "shorter") {
					c.Call.Data = c.Script[c.Dev].Data[:core.Uniform(t, len(c.Script[c.Dev].Data)+1)]
				}
			case "readat":
				switch core.Uniform(t, 3) {
				case 0:
					c.Call.Off = genOff(t)
				case 1:
					c.Call.K = "read"
				default:
					c.Call.Data = append(bytes.Clone(c.Call.Data), 0)
				}
			case "seek":
				if rapid.Bool().Draw(t, "whence") {
					c.Call.W = core.Pick(t, []int{0, 1, 2, 3, -1})
				} else {
					c.Call.Off = genOff(t)
				}
			default:
				c.Call.K = map[string]string{"stat": "close", "close": "stat"}[c.Call.K]
			}
		}
	}
	c.NilFI = rapid.Bool().Draw(t, "nilfi")
	return c
}

// same tells whether two calls are the same as far as a script can tell.
func same(a, b Item) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case "mark":
		return a.Mark == b.Mark
	case "read":
		return len(a.Data) == len(b.Data)
	case "readat":
		return len(a.Data) == len(b.Data) && a.Off == b.Off
	case "seek":
		return a.Off == b.Off && a.W == b.W
	}
	return true
}

// Expectation is the entry as the mock takes it.
func (it Item) Expectation(fi fs.FileInfo) mock.Expectation {
	switch it.K {
	case "mark":
		return mock.ExpectMark(it.Mark)
	case "stat":
		return mock.ExpectStat(fi, it.err())
	case "read":
		return mock.ExpectRead(bytes.Clone(it.Data), it.N, it.err())
	case "readat":
		return mock.ExpectReadAt(bytes.Clone(it.Data), it.Off, it.N, it.err())
	case "seek":
		return mock.ExpectSeek(it.Off, it.W, it.Ret, it.err())
	default:
		return mock.ExpectClose(it.err())
	}
}

func wrappers(m *mock.MockReader) []io.Reader {
	return []io.Reader{
		m,
		mock.Wrapper000{Inner: m}, mock.Wrapper001{Inner: m}, mock.Wrapper010{Inner: m}, mock.Wrapper011{Inner: m},
		mock.Wrapper100{Inner: m}, mock.Wrapper101{Inner: m}, mock.Wrapper110{Inner: m}, mock.Wrapper111{Inner: m},
	}
}

type statter interface{ Stat() (fs.FileInfo, error) }

func run(c Case, o *core.Obs) error {
	var fi fs.FileInfo
	if !c.NilFI {
		fi = &mock.FileInfo{NameValue: "name", SizeValue: 1 << 40, ModeValue: fs.ModeDir | 0o700, ModTimeValue: time.Unix(5, 6)}
		if fi.Name() != "name" || fi.Size() != 1<<40 || !fi.IsDir() || fi.Mode() != fs.ModeDir|0o700 || !fi.ModTime().Equal(time.Unix(5, 6)) {
			return fmt.Errorf("FileInfo does not say what it was given")
		}
	}
	script := make([]mock.Expectation, len(c.Script))
	for i, it := range c.Script {
		script[i] = it.Expectation(fi)
	}
	m := mock.New(script...)
	via := wrappers(m)
	for i := 0; i <= len(c.Script); i++ {
		var call Item
		deviates := false
		switch {
		case i == c.Dev:
			call = c.Call
			deviates = i == len(c.Script) || !same(call, c.Script[i])
		case i == len(c.Script):
			return nil
		default:
			call = c.Script[i]
		}
		if i == len(c.Script) && call.K == "" {
			return nil
		}
		var want Item
		if i < len(c.Script) {
			want = c.Script[i]
		}
		buf := bytes.Repeat([]byte{0xA5}, len(call.Data)+4)
		p := buf[2 : 2+len(call.Data)]
		r := via[call.Via%len(via)]
		var n int64
		var err error
		var gotFI fs.FileInfo
		v, panicked := core.Try(func() {
			switch call.K {
			case "mark":
				m.Mark(call.Mark)
			case "stat":
				s, ok := r.(statter)
				if !ok {
					s = m
				}
				gotFI, err = s.Stat()
			case "read":
				var k int
				k, err = r.Read(p)
				n = int64(k)
			case "readat":
				ra, ok := r.(io.ReaderAt)
				if !ok {
					ra = m
				}
				var k int
				k, err = ra.ReadAt(p, call.Off)
				n = int64(k)
			case "seek":
				s, ok := r.(io.Seeker)
				if !ok {
					s = m
				}
				n, err = s.Seek(call.Off, call.W)
			case "close":
				cl, ok := r.(io.Closer)
				if !ok {
					cl = m
				}
				err = cl.Close()
			}
		})
		id := fmt.Sprintf("call %d (%s through %T)", i, call.K, r)
		if panicked != deviates {
			return fmt.Errorf("%s: deviates %v, panicked %v: %v", id, deviates, panicked, v)
		}
		if deviates {
			o.NonTrivial()
			o.LabelIf(i == len(c.Script), "past the end")
			o.Label("deviation: %s", call.K)
			e, ok := v.(mock.ExpectationFailedError)
			if !ok {
				perr, isErr := v.(error)
				if !isErr || !errors.As(perr, &e) {
					return fmt.Errorf("%s: panicked with %T", id, v)
				}
			}
			if e.Index != uint(i) {
				return fmt.Errorf("%s: the error names index %d", id, e.Index)
			}
			if !strings.Contains(e.Error(), "#"+strconv.Itoa(i)+" ") {
				return fmt.Errorf("%s: the error text does not name the index: %s", id, e.Error())
			}
			expect := mock.Expectation{}
			if i < len(c.Script) {
				expect = script[i]
			}
			if !e.Expect.Matches(expect) || e.Expect.String() != expect.String() {
				return fmt.Errorf("%s: the error names %v as expected instead of %v", id, e.Expect, expect)
			}
			call.N = 0 // an actual call has no scripted count
			actual := call.Expectation(fi)
			if !e.Actual.Matches(actual) {
				return fmt.Errorf("%s: the error names %v as the actual call", id, e.Actual)
			}
			if !bytes.Equal(buf, bytes.Repeat([]byte{0xA5}, len(buf))) {
				return fmt.Errorf("%s: the buffer was written although the call deviates", id)
			}
			for _, x := range []mock.Expectation{e.Expect, e.Actual} {
				if x.String() == "" || x.GoString() == "" || !strings.Contains(e.Error(), x.String()) {
					return fmt.Errorf("%s: the error text %q does not show %v", id, e.Error(), x)
				}
			}
			return nil
		}
		if call.K != "mark" && err != want.err() {
			return fmt.Errorf("%s: error %v instead of %v", id, err, want.err())
		}
		switch call.K {
		case "stat":
			if gotFI != fi {
				return fmt.Errorf("%s: another FileInfo", id)
			}
		case "read", "readat":
			exp := bytes.Repeat([]byte{0xA5}, len(buf))
			copy(exp[2:], want.Data[:want.N])
			if n != int64(want.N) || !bytes.Equal(buf, exp) {
				return fmt.Errorf("%s: returned %d bytes %x instead of %d, %x", id, n, buf, want.N, exp)
			}
		case "seek":
			if n != want.Ret {
				return fmt.Errorf("%s: returned %d instead of %d", id, n, want.Ret)
			}
		}
		if i > 0 {
			o.NonTrivial()
		}
	}
	return nil
}

// longTarget: scripts longer than small counters hold.
func longTarget() *core.Target {
	type C struct {
		Items []Item `json:"items"` // repeated, with growing offsets
		N     int    `json:"n"`
		Dev   int    `json:"dev"`
		Call  Item   `json:"call"`
	}
	gen := func(t *rapid.T) C {
		c := C{N: core.Pick(t, []int{255, 256, 257, 258, 300, 511, 513, 1000, 1025, 4097, 32769, 65535, 65536, 65537, 70000}), Dev: -1}
		c.Items = rapid.SliceOfN(rapid.Custom(GenItem), 1, 4).Draw(t, "items")
		for i := range c.Items {
			c.Items[i].Data = c.Items[i].Data[:min(len(c.Items[i].Data), 12)]
			c.Items[i].N = min(c.Items[i].N, len(c.Items[i].Data))
		}
		switch core.Uniform(t, 3) {
		case 0:
			c.Dev, c.Call = c.N, GenItem(t)
		case 1:
			c.Dev, c.Call = core.Uniform(t, c.N), GenItem(t)
		}
		return c
	}
	return core.New("long", 240, gen, func(c C, o *core.Obs) error {
		script := make([]Item, c.N)
		for i := range script {
			script[i] = c.Items[i%len(c.Items)]
			switch script[i].K {
			case "mark":
				script[i].Mark += strconv.Itoa(i)
			case "seek", "readat":
				script[i].Off = int64(i)
			}
		}
		return run(Case{Script: script, Dev: c.Dev, Call: c.Call}, o)
	}).WithFactor(10)
}

// capsTarget: each wrapper offers exactly the interfaces its name says.
func capsTarget() *core.Target {
	type C struct {
		Which int `json:"which"`
	}
	return core.New("wrappers", 60, func(t *rapid.T) C { return C{1 + core.Uniform(t, 8)} }, func(c C, o *core.Obs) error {
		r := wrappers(mock.New())[c.Which%9]
		bits := c.Which - 1
		_, stat := r.(statter)
		_, seek := r.(io.Seeker)
		_, at := r.(io.ReaderAt)
		_, cl := r.(io.Closer)
		if !cl || stat != (bits&4 != 0) || seek != (bits&2 != 0) || at != (bits&1 != 0) {
			return fmt.Errorf("%T offers Stat %v, Seek %v, ReadAt %v, Close %v", r, stat, seek, at, cl)
		}
		return nil
	})
}

// impossible: a script with a count that no call could return is refused.
func impossible() *core.Target {
	type C struct {
		Len int  `json:"len"`
		N   int  `json:"n"`
		Cap int  `json:"cap,omitempty"` // room behind the buffer
		At  bool `json:"at,omitempty"`
	}
	gen := func(t *rapid.T) C {
		c := C{Len: core.Uniform(t, 9), Cap: core.Pick(t, []int{0, 0, 1, 20}), At: rapid.Bool().Draw(t, "at")}
		c.N = core.Pick(t, []int{-1, c.Len, c.Len + 1, 0, -1 << 63, 1<<63 - 1, core.Uniform(t, 20) - 5})
		return c
	}
	return core.New("impossible", 3000, gen, func(c C, o *core.Obs) error {
		p := make([]byte, c.Len, c.Len+c.Cap)
		v, panicked := core.Try(func() {
			if c.At {
				mock.ExpectReadAt(p, 7, c.N, nil)
			} else {
				mock.ExpectRead(p, c.N, nil)
			}
		})
		bad := c.N < 0 || c.N > c.Len
		if bad {
			o.NonTrivial()
		}
		if panicked != bad {
			return fmt.Errorf("scripting %d of %d bytes: panicked %v: %v", c.N, c.Len, panicked, v)
		}
		return nil
	})
}

func init() {
	core.Register(&core.Check{
		ID:          "C29",
		Rule:        "a case is a script of up to twelve entries, sometimes of dozens and up to 70000, and a sequence of calls through the nine capability wrappers that follows it and deviates, in one respect or altogether or by going past the end, at a drawn call; or a scripted count that may be impossible; non-trivial if it deviates or has at least two calls or is impossible",
		Assumptions: []string{"nothing is said about calls after the first deviation"},
		Targets:     []*core.Target{core.New("scripts", 60000, gen, run), longTarget(), capsTarget(), impossible()},
	})
}
