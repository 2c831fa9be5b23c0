package bodyh

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/hex"
	"io"
	"os"
	"strings"
	"testing/fstest"

	"github.com/chronos-tachyon/morehttp/zverif/core"
	"pgregory.net/rapid"
)

// libs are readers of the standard library, and what they can do.
var libs = []struct {
	name string
	caps int
	make func(s *Src, data, around []byte) (io.Reader, error)
}{
	{"bytes.Buffer", 0, func(s *Src, data, around []byte) (io.Reader, error) { return bytes.NewBuffer(data), nil }},
	{"bytes.Buffer read before", 0, func(s *Src, data, around []byte) (io.Reader, error) {
		b := bytes.NewBuffer(append(bytes.Clone(around), data...))
		b.Next(len(around))
		return b, nil
	}},
	{"bufio.Reader", 0, func(s *Src, data, around []byte) (io.Reader, error) {
		b := bufio.NewReaderSize(bytes.NewReader(append(bytes.Clone(around), data...)), 64)
		b.Discard(len(around))
		b.Peek(20)
		return b, nil
	}},
	{"bufio.ReadWriter", 0, func(s *Src, data, around []byte) (io.Reader, error) {
		return bufio.NewReadWriter(bufio.NewReader(strings.NewReader(string(data))), bufio.NewWriter(io.Discard)), nil
	}},
	{"io.LimitedReader", 0, func(s *Src, data, around []byte) (io.Reader, error) {
		return io.LimitReader(bytes.NewBuffer(append(bytes.Clone(data), around...)), s.Len), nil
	}},
	{"io.LimitedReader in the middle", 0, func(s *Src, data, around []byte) (io.Reader, error) {
		r := bytes.NewReader(append(append(bytes.Clone(around), data...), around...))
		r.Seek(int64(len(around)), io.SeekStart)
		return io.LimitReader(r, s.Len), nil
	}},
	{"io.LimitedReader beyond the end", 0, func(s *Src, data, around []byte) (io.Reader, error) {
		return io.LimitReader(bytes.NewReader(data), s.Len+int64(len(around))), nil
	}},
	{"io.LimitedReader over io.SectionReader", 0, func(s *Src, data, around []byte) (io.Reader, error) {
		r := io.NewSectionReader(bytes.NewReader(append(append(bytes.Clone(around), data...), around...)), int64(len(around)), s.Len+int64(len(around)))
		return io.LimitReader(r, s.Len), nil
	}},
	{"io.TeeReader", 0, func(s *Src, data, around []byte) (io.Reader, error) {
		return io.TeeReader(bytes.NewReader(data), io.Discard), nil
	}},
	{"io.MultiReader", 0, func(s *Src, data, around []byte) (io.Reader, error) {
		k := len(data) / 3
		return io.MultiReader(bytes.NewReader(data[:k]), strings.NewReader(""), strings.NewReader(string(data[k:2*k])), bytes.NewBuffer(data[2*k:])), nil
	}},
	{"io.NopCloser", CapClose, func(s *Src, data, around []byte) (io.Reader, error) {
		return io.NopCloser(strings.NewReader(string(data))), nil
	}},
	{"io.NopCloser without WriteTo", CapClose, func(s *Src, data, around []byte) (io.Reader, error) {
		return io.NopCloser(struct{ io.Reader }{bytes.NewReader(data)}), nil
	}},
	{"gzip.Reader", CapClose, func(s *Src, data, around []byte) (io.Reader, error) {
		var buf bytes.Buffer
		w, _ := gzip.NewWriterLevel(&buf, 1)
		w.Write(data)
		w.Close()
		return gzip.NewReader(&buf)
	}},
	{"base64", 0, func(s *Src, data, around []byte) (io.Reader, error) {
		return base64.NewDecoder(base64.StdEncoding, strings.NewReader(base64.StdEncoding.EncodeToString(data))), nil
	}},
	{"hex", 0, func(s *Src, data, around []byte) (io.Reader, error) {
		return hex.NewDecoder(strings.NewReader(hex.EncodeToString(data))), nil
	}},
	{"bytes.Reader", CapAt | CapSeek, func(s *Src, data, around []byte) (io.Reader, error) { return bytes.NewReader(data), nil }},
	{"strings.Reader", CapAt | CapSeek, func(s *Src, data, around []byte) (io.Reader, error) { return strings.NewReader(string(data)), nil }},
	{"io.SectionReader", CapAt | CapSeek, func(s *Src, data, around []byte) (io.Reader, error) {
		return io.NewSectionReader(strings.NewReader(string(around)+string(data)+string(around)), int64(len(around)), s.Len), nil
	}},
	{"seekable only", CapSeek, func(s *Src, data, around []byte) (io.Reader, error) {
		return &struct{ io.ReadSeeker }{bytes.NewReader(data)}, nil
	}},
	{"positional only", CapAt, func(s *Src, data, around []byte) (io.Reader, error) {
		r := bytes.NewReader(data)
		return &struct {
			io.Reader
			io.ReaderAt
		}{r, r}, nil
	}},
	{"fstest.MapFS", CapAt | CapSeek | CapStat | CapClose, func(s *Src, data, around []byte) (io.Reader, error) {
		return fstest.MapFS{"dir/file": &fstest.MapFile{Data: data}}.Open("dir/file")
	}},
	{"os.File", CapAt | CapSeek | CapStat | CapClose, func(s *Src, data, around []byte) (io.Reader, error) {
		f, err := os.CreateTemp("", "morehttp-check-file-")
		if err != nil {
			return nil, err
		}
		os.Remove(f.Name())
		if _, err := f.Write(data); err != nil {
			return nil, err
		}
		_, err = f.Seek(0, io.SeekStart)
		return f, err
	}},
}

func genLib(t *rapid.T, s *Src) {
	i := core.Uniform(t, len(libs))
	if i == len(libs)-1 && !core.Chance(t, 4) { // files take longer
		i = core.Uniform(t, len(libs))
	}
	s.Lib, s.Caps = libs[i].name, libs[i].caps
	s.Len = min(s.Len, 300000)
}

func (s *Src) library() (io.Reader, error) {
	for _, l := range libs {
		if l.name == s.Lib {
			return l.make(s, s.all(s.Len), bytes.Repeat([]byte{0xd7}, 1+int(s.Pat)*9))
		}
	}
	panic(core.Abandon{Label: "no such reader"})
}

// libraryTarget is a target whose sources come from the standard library.
func libraryTarget(mix []string, aspects ...string) *core.Target {
	return hist("library", 6000, profile{ctors: []string{"reader", "reader", "readerlen"}, lib: true, ops: mix, minOps: 0, maxOps: 16}, aspects,
		func(h *Hist, m *machine) bool { return m.V > 0 })
}
