package bodyh

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"mime/multipart"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"testing/iotest"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"pgregory.net/rapid"
)

// outlet is a writer of the standard library, and a way of getting at what was written.
type outlet struct {
	io.Writer
	finish func() ([]byte, error)
}

func fromBuffer(buf *bytes.Buffer) func() ([]byte, error) {
	return func() ([]byte, error) { return buf.Bytes(), nil }
}

// received reads what arrives at the other end of a connection.
func received(r io.Reader, close func() error) func() ([]byte, error) {
	type result struct {
		p   []byte
		err error
	}
	ch := make(chan result, 1)
	go func() {
		p, err := io.ReadAll(r)
		ch <- result{p, err}
	}()
	return func() ([]byte, error) {
		if err := close(); err != nil {
			return nil, err
		}
		x := <-ch
		return x.p, x.err
	}
}

var outlets = []struct {
	name string
	make func() (outlet, error)
}{
	{"bytes.Buffer", func() (outlet, error) {
		buf := new(bytes.Buffer)
		return outlet{buf, fromBuffer(buf)}, nil
	}},
	{"bytes.Buffer with content", func() (outlet, error) {
		buf := bytes.NewBufferString("before")
		return outlet{buf, func() ([]byte, error) {
			if p := buf.Next(6); string(p) != "before" {
				return nil, fmt.Errorf("what the buffer held before was changed to %q", p)
			}
			return buf.Bytes(), nil
		}}, nil
	}},
	{"strings.Builder", func() (outlet, error) {
		sb := new(strings.Builder)
		return outlet{sb, func() ([]byte, error) { return []byte(sb.String()), nil }}, nil
	}},
	{"bufio.Writer", func() (outlet, error) {
		buf := new(bytes.Buffer)
		w := bufio.NewWriterSize(buf, 16)
		return outlet{w, func() ([]byte, error) { err := w.Flush(); return buf.Bytes(), err }}, nil
	}},
	{"large bufio.Writer", func() (outlet, error) {
		buf := new(bytes.Buffer)
		w := bufio.NewWriterSize(buf, 100000)
		return outlet{w, func() ([]byte, error) { err := w.Flush(); return buf.Bytes(), err }}, nil
	}},
	{"io.MultiWriter", func() (outlet, error) {
		b1, b2 := new(bytes.Buffer), new(strings.Builder)
		return outlet{io.MultiWriter(b1, b2), func() ([]byte, error) {
			if b1.String() != b2.String() {
				return nil, errors.New("two writers got different bytes")
			}
			return b1.Bytes(), nil
		}}, nil
	}},
	{"gzip.Writer", func() (outlet, error) {
		buf := new(bytes.Buffer)
		w, _ := gzip.NewWriterLevel(buf, 1)
		return outlet{w, func() ([]byte, error) {
			w.Close()
			r, err := gzip.NewReader(buf)
			if err != nil {
				return nil, err
			}
			return io.ReadAll(r)
		}}, nil
	}},
	{"base64", func() (outlet, error) {
		buf := new(bytes.Buffer)
		w := base64.NewEncoder(base64.StdEncoding, buf)
		return outlet{w, func() ([]byte, error) {
			w.Close()
			return io.ReadAll(base64.NewDecoder(base64.StdEncoding, buf))
		}}, nil
	}},
	{"hex", func() (outlet, error) {
		buf := new(bytes.Buffer)
		return outlet{hex.NewEncoder(buf), func() ([]byte, error) { return io.ReadAll(hex.NewDecoder(buf)) }}, nil
	}},
	{"httptest.ResponseRecorder", func() (outlet, error) {
		rec := httptest.NewRecorder()
		return outlet{rec, func() ([]byte, error) { return rec.Body.Bytes(), nil }}, nil
	}},
	{"multipart", func() (outlet, error) {
		buf := new(bytes.Buffer)
		mw := multipart.NewWriter(buf)
		w, err := mw.CreateFormFile("field", "name")
		return outlet{w, func() ([]byte, error) {
			mw.Close()
			part, err := multipart.NewReader(buf, mw.Boundary()).NextPart()
			if err != nil {
				return nil, err
			}
			return io.ReadAll(part)
		}}, err
	}},
	{"io.Pipe", func() (outlet, error) {
		r, w := io.Pipe()
		return outlet{w, received(r, w.Close)}, nil
	}},
	{"net.Pipe", func() (outlet, error) {
		r, w := net.Pipe()
		return outlet{w, received(r, w.Close)}, nil
	}},
	{"os.File", func() (outlet, error) {
		f, err := os.CreateTemp("", "morehttp-check-file-")
		if err != nil {
			return outlet{}, err
		}
		os.Remove(f.Name())
		return outlet{f, func() ([]byte, error) {
			defer f.Close()
			if _, err := f.Seek(0, io.SeekStart); err != nil {
				return nil, err
			}
			return io.ReadAll(f)
		}}, nil
	}},
	{"os.Pipe", func() (outlet, error) {
		r, w, err := os.Pipe()
		if err != nil {
			return outlet{}, err
		}
		return outlet{w, received(r, w.Close)}, nil
	}},
	{"net.TCPConn", func() (outlet, error) {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return outlet{}, err
		}
		defer l.Close()
		w, err := net.Dial("tcp", l.Addr().String())
		if err != nil {
			return outlet{}, err
		}
		r, err := l.Accept()
		if err != nil {
			w.Close()
			return outlet{}, err
		}
		return outlet{w, received(r, w.Close)}, nil
	}},
}

// ConsumerCase hands bodies to the functions of the standard library that
// consume a reader.
type ConsumerCase struct {
	Src   Src       `json:"src"`
	Steps []Consume `json:"steps"`
	Out   [2]int    `json:"out"` // the writers: indices of outlets
}

type Consume struct {
	K string `json:"k"`
	B int    `json:"b"` // the body
	N int64  `json:"n"`
	O int64  `json:"o"`
	W int    `json:"w"` // the writer
}

var consumeKinds = []string{"copy", "copy", "writeto", "copybuffer", "copyn", "readfull", "atleast", "readall", "limit", "tee", "bufio", "multi",
	"section", "iotest", "dup", "dup", "seek", "request", "response", "onebyte", "scan"}

func genConsumer(kinds []string) func(t *rapid.T) ConsumerCase {
	return func(t *rapid.T) ConsumerCase {
		p := profile{ctors: []string{"reader", "reader", "readerlen", "bytes", "string", "empty"}, lib: true}
		c := ConsumerCase{Src: genSrc(t, &p)}
		c.Src.Len = min(c.Src.Len, 300000)
		if c.Src.Ctor == "readerlen" {
			c.Src.Declared = c.Src.Len
		}
		for i := range c.Out {
			c.Out[i] = core.Uniform(t, len(outlets)-3)
			if core.Chance(t, 20) {
				c.Out[i] = core.Uniform(t, len(outlets))
			}
		}
		for n := 1 + core.Uniform(t, 6); n > 0; n-- {
			x := Consume{K: core.Pick(t, kinds), B: core.Uniform(t, 3), W: core.Uniform(t, 2)}
			switch core.Uniform(t, 4) {
			case 0:
				x.N = rapid.Int64Range(0, 16).Draw(t, "n")
			case 1:
				x.N = c.Src.Len + rapid.Int64Range(-2, 2).Draw(t, "around")
			case 2:
				x.N = core.Pick(t, []int64{512, 4096, 32768, 65536, 131072}) + rapid.Int64Range(-1, 1).Draw(t, "block")
			default:
				x.N = rapid.Int64Range(0, c.Src.Len).Draw(t, "n")
			}
			x.N = max(x.N, 0)
			x.O = rapid.Int64Range(0, c.Src.Len).Draw(t, "o")
			c.Steps = append(c.Steps, x)
		}
		return c
	}
}

type consumed struct {
	b      body.Body
	pos    int64
	closed bool
}

func runConsumer(c ConsumerCase, o *core.Obs) (err error) {
	data := c.Src.all(c.Src.Len)
	first, _, _, err := c.Src.open()
	if err != nil {
		return fmt.Errorf("the constructor returned %v", err)
	}
	bodies := []*consumed{{b: first}}
	var outs [2]outlet
	var want [2][]byte
	for i := range outs {
		if outs[i], err = outlets[c.Out[i]%len(outlets)].make(); err != nil {
			panic(core.Abandon{Label: "no writer"})
		}
	}
	finished := false
	defer func() {
		if !finished {
			for _, w := range outs {
				w.finish()
			}
		}
	}()
	for i, x := range c.Steps {
		y := bodies[x.B%len(bodies)]
		if y.closed {
			continue
		}
		if err := consume(&c, x, y, &bodies, data, outs[x.W&1], &want[x.W&1], o); err != nil {
			return fmt.Errorf("step %d (%s): %w", i, x.K, err)
		}
		if y.closed {
			continue
		}
		if n := y.b.BytesRemaining(); n != int64(len(data))-y.pos && n != -1 {
			return fmt.Errorf("step %d (%s): BytesRemaining is %d at %d of %d", i, x.K, n, y.pos, len(data))
		}
	}
	for i, y := range bodies {
		if y.closed {
			continue
		}
		if p, err := io.ReadAll(y.b); err != nil || !bytes.Equal(p, data[y.pos:]) {
			return fmt.Errorf("the rest of body %d: %s, %v", i, diff(p, data[y.pos:]), err)
		}
		if err := y.b.Close(); err != nil {
			return fmt.Errorf("Close of body %d returned %v", i, err)
		}
	}
	finished = true
	for i, w := range outs {
		p, err := w.finish()
		if err != nil {
			return fmt.Errorf("writer %d (%s): %w", i, outlets[c.Out[i]%len(outlets)].name, err)
		}
		if !bytes.Equal(p, want[i]) {
			return fmt.Errorf("writer %d (%s): %s", i, outlets[c.Out[i]%len(outlets)].name, diff(p, want[i]))
		}
		o.LabelIf(len(p) > 0, "into %s", outlets[c.Out[i]%len(outlets)].name)
	}
	if len(data) > 0 {
		o.NonTrivial()
	}
	return nil
}

func diff(got, want []byte) string {
	for i := range got {
		if i < len(want) && got[i] != want[i] {
			return fmt.Sprintf("%d bytes instead of %d, differing at %d", len(got), len(want), i)
		}
	}
	return fmt.Sprintf("%d bytes instead of %d", len(got), len(want))
}

// plain hides all methods but Read.
type plain struct{ io.Reader }

func consume(c *ConsumerCase, x Consume, y *consumed, bodies *[]*consumed, data []byte, w outlet, want *[]byte, o *core.Obs) error {
	rest := data[y.pos:]
	head := rest[:min(x.N, int64(len(rest)))]
	drained := func(n int64, err error, part []byte) error {
		y.pos += int64(len(part))
		*want = append(*want, part...)
		if err != nil || n != int64(len(part)) {
			return fmt.Errorf("returned %d, %v instead of %d", n, err, len(part))
		}
		return nil
	}
	compare := func(p []byte, err error, part []byte) error {
		y.pos += int64(len(part))
		if err != nil || !bytes.Equal(p, part) {
			return fmt.Errorf("%s, %v", diff(p, part), err)
		}
		return nil
	}
	short := func(n int, err error, p []byte, least int64) error {
		switch {
		case least > int64(len(rest)) && len(rest) == 0 && err == io.EOF:
		case least > int64(len(rest)) && len(rest) > 0 && err == io.ErrUnexpectedEOF:
		case least <= int64(len(rest)) && err == nil:
		default:
			return fmt.Errorf("returned %d, %v with %d bytes left", n, err, len(rest))
		}
		if int64(n) < min(least, int64(len(rest))) || n > len(p) || n > len(rest) {
			return fmt.Errorf("returned %d, %v with %d bytes left", n, err, len(rest))
		}
		return compare(p[:n], nil, rest[:n])
	}
	switch x.K {
	case "copy":
		n, err := io.Copy(w.Writer, y.b)
		return drained(n, err, rest)
	case "writeto":
		if wt, ok := y.b.(io.WriterTo); ok {
			n, err := wt.WriteTo(w.Writer)
			return drained(n, err, rest)
		}
	case "copybuffer":
		n, err := io.CopyBuffer(w.Writer, plain{y.b}, make([]byte, x.N+1))
		return drained(n, err, rest)
	case "copyn":
		n, err := io.CopyN(w.Writer, y.b, x.N)
		if err == io.EOF && x.N > int64(len(rest)) {
			err = nil
		} else if err == nil && n < x.N {
			return fmt.Errorf("returned %d without an error", n)
		}
		return drained(n, err, head)
	case "readfull":
		p := make([]byte, x.N)
		n, err := io.ReadFull(y.b, p)
		return short(n, err, p, x.N)
	case "atleast":
		p := make([]byte, x.N+7)
		n, err := io.ReadAtLeast(y.b, p, int(x.N))
		return short(n, err, p, x.N)
	case "readall":
		p, err := io.ReadAll(y.b)
		return compare(p, err, rest)
	case "limit":
		p, err := io.ReadAll(io.LimitReader(y.b, x.N))
		return compare(p, err, head)
	case "tee":
		var buf bytes.Buffer
		n, err := io.Copy(&buf, io.TeeReader(y.b, w.Writer))
		if !bytes.Equal(buf.Bytes(), rest) {
			return errors.New(diff(buf.Bytes(), rest))
		}
		return drained(n, err, rest)
	case "bufio":
		n, err := bufio.NewReaderSize(y.b, int(x.N)).WriteTo(w.Writer)
		return drained(n, err, rest)
	case "onebyte":
		p, err := io.ReadAll(iotest.HalfReader(y.b))
		return compare(p, err, rest)
	case "scan":
		s := bufio.NewScanner(y.b)
		s.Buffer(nil, 1<<20)
		var p []byte
		for s.Split(bufio.ScanLines); s.Scan(); {
			p = append(append(p, s.Bytes()...), '\n')
		}
		var lines []byte
		for s := bufio.NewScanner(bytes.NewReader(rest)); s != nil; {
			s.Buffer(nil, 1<<20)
			for s.Scan() {
				lines = append(append(lines, s.Bytes()...), '\n')
			}
			break
		}
		y.pos = int64(len(data))
		if s.Err() != nil || !bytes.Equal(p, lines) {
			return fmt.Errorf("lines: %s, %v", diff(p, lines), s.Err())
		}
	case "multi":
		d, err := y.b.Copy()
		if err != nil {
			return err
		}
		n, err := io.Copy(w.Writer, io.MultiReader(d, io.LimitReader(y.b, x.N), strings.NewReader("|")))
		*want = append(append(append(*want, rest...), head...), '|')
		y.pos += int64(len(head))
		if err != nil || n != int64(len(rest)+len(head)+1) {
			return fmt.Errorf("returned %d, %v", n, err)
		}
		return d.Close()
	case "section":
		if at, ok := y.b.(io.ReaderAt); ok {
			end := min(x.O+x.N, int64(len(data)))
			p, err := io.ReadAll(io.NewSectionReader(at, x.O, x.N))
			if err != nil || !bytes.Equal(p, data[x.O:end]) {
				return fmt.Errorf("%d bytes at %d: %s, %v", x.N, x.O, diff(p, data[x.O:end]), err)
			}
		}
	case "iotest":
		if y.pos > 0 || len(data) > 3000 {
			return nil
		}
		d, err := y.b.Copy()
		if err != nil {
			return err
		}
		if err := iotest.TestReader(d, data); err != nil {
			return fmt.Errorf("iotest.TestReader: %w", err)
		}
		return d.Close()
	case "dup":
		if len(*bodies) < 4 {
			d, err := y.b.Copy()
			if err != nil {
				return err
			}
			*bodies = append(*bodies, &consumed{b: d, pos: y.pos})
		}
	case "seek":
		if s, ok := y.b.(io.Seeker); ok {
			n, err := s.Seek(x.O, io.SeekStart)
			if err != nil || n != x.O {
				return fmt.Errorf("to %d returned %d, %v", x.O, n, err)
			}
			y.pos = x.O
		}
	case "request", "response":
		length := int64(-1)
		if x.N&1 == 0 {
			length = int64(len(rest))
		}
		var buf bytes.Buffer
		var r io.ReadCloser
		var err error
		if x.K == "request" {
			var req *http.Request
			if req, err = http.NewRequest("PUT", "http://localhost/", y.b); err != nil {
				return err
			}
			if req.ContentLength = length; length == 0 {
				return nil // not known to http
			}
			if err = req.Write(&buf); err != nil {
				return err
			}
			if req, err = http.ReadRequest(bufio.NewReader(&buf)); err != nil {
				return err
			}
			r = req.Body
		} else {
			resp := &http.Response{StatusCode: 200, ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: y.b, ContentLength: length}
			if length < 0 {
				resp.TransferEncoding = []string{"chunked"}
			}
			if err = resp.Write(&buf); err != nil {
				return err
			}
			if resp, err = http.ReadResponse(bufio.NewReader(&buf), nil); err != nil {
				return err
			}
			r = resp.Body
		}
		y.closed = true
		p, err := io.ReadAll(r)
		if err := compare(p, err, rest); err != nil {
			return err
		}
		if x.K == "request" {
			if err := y.b.Close(); !errors.Is(err, fs.ErrClosed) {
				return fmt.Errorf("Close after the request returned %v", err)
			}
		} else {
			y.b.Close()
		}
	}
	o.Label("%s", x.K)
	return nil
}

const consumersRule = "; in the target consumers it is a sequence of ways in which the standard library consumes readers, non-trivial if the body is not empty"

// consumersTarget is a target whose bodies are consumed by the standard library.
func consumersTarget(quick int, kinds ...string) *core.Target {
	if len(kinds) == 0 {
		kinds = consumeKinds
	}
	return core.New("consumers", quick, genConsumer(kinds), runConsumer)
}
