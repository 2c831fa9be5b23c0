package bodyh

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"time"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"
)

// Val describes a value to be encoded.
type Val struct {
	T string   `json:"t"`
	S []byte   `json:"s,omitempty"`
	F float64  `json:"f,omitempty"`
	I int64    `json:"i,omitempty"`
	L []Val    `json:"l,omitempty"`
	K [][]byte `json:"k,omitempty"`
}

type jsonStruct struct {
	Name  string         `json:"name"`
	Count int64          `json:"count,omitempty"`
	Inner any            `json:"inner"`
	Ptr   *string        `json:"ptr,omitempty"`
	Skip  string         `json:"-"`
	Time  time.Time      `json:"time"`
	M     map[string]any `json:"m,omitempty"`
	Raw   []byte         `json:"raw"`
}

type textKey string

func (k textKey) MarshalText() ([]byte, error) { return []byte("<" + string(k) + ">"), nil }

type customJSON struct{ s string }

func (c customJSON) MarshalJSON() ([]byte, error) {
	if c.s == "fail" {
		return nil, errors.New("cannot be encoded")
	}
	return json.Marshal(map[string]string{"custom & <special>": c.s})
}

// value builds the Go value.
func (v Val) value() any {
	switch v.T {
	case "null":
		return nil
	case "true":
		return true
	case "false":
		return false
	case "int":
		return v.I
	case "uint":
		return uint64(v.I)
	case "float":
		return v.F
	case "f32":
		return float32(v.I)
	case "str":
		return string(v.S)
	case "num":
		return json.Number(fmt.Sprint(v.I))
	case "raw":
		return json.RawMessage(v.S)
	case "bytes":
		return []byte(v.S)
	case "deep": // so many levels down
		x := any(nil)
		if len(v.L) > 0 {
			x = v.L[0].value()
		}
		for i := int64(0); i < min(v.I, 2000); i++ {
			if (v.I+i)%3 == 0 {
				x = map[string]any{"k": x}
			} else {
				x = []any{x}
			}
		}
		return x
	case "rep": // many times the same
		l := []any{}
		for i := int64(0); i < min(v.I, 100000) && len(v.L) > 0; i++ {
			l = append(l, v.L[0].value())
		}
		return l
	case "list":
		l := make([]any, 0, len(v.L))
		for _, e := range v.L {
			l = append(l, e.value())
		}
		return l
	case "map":
		m := map[string]any{}
		for i, e := range v.L {
			k := ""
			if i < len(v.K) {
				k = string(v.K[i])
			}
			m[k] = e.value()
		}
		return m
	case "tmap":
		m := map[textKey]any{}
		for i, e := range v.L {
			m[textKey(fmt.Sprint(i))] = e.value()
		}
		return m
	case "struct":
		s := string(v.S)
		js := &jsonStruct{Name: s, Count: v.I, Skip: "skipped", Ptr: &s, Time: time.Unix(v.I%1e9, 0).UTC(), Raw: v.S}
		if len(v.L) > 0 {
			js.Inner = v.L[0].value()
		}
		return js
	case "custom":
		return customJSON{string(v.S)}
	case "std":
		return stdValue(int(v.I), string(v.S))
	// values that cannot be encoded
	case "nan":
		return math.NaN()
	case "inf":
		return math.Inf(int(v.I))
	case "chan":
		return make(chan int)
	case "func":
		return func() {}
	case "fail":
		return customJSON{"fail"}
	case "badraw":
		return json.RawMessage("{\"unfinished\": [1, 2")
	case "complex":
		return map[string]any{"c": complex(1, 2)}
	case "deepbad":
		return []any{"a long prefix that is encoded before the failure", strings.Repeat("x", int(min(max(v.I, 0), 5000))), map[string]any{"bad": make(chan int)}}
	}
	return nil
}

const stdValues = 34

type (
	plainError  struct{ Code int }
	namedString string
	namedBytes  []byte
	embedding   struct {
		namedString
		*plainError
		Z int `json:",string"`
	}
)

func (e *plainError) Error() string { return "an error with a text" }

func (n namedString) String() string { return "the string of " + string(n) }

// stdValue is a value of a type that has more to it than its kind.
func stdValue(i int, s string) any {
	switch i {
	case 0:
		return errors.New(s)
	case 1:
		return &plainError{len(s)}
	case 2:
		return (*plainError)(nil)
	case 3:
		return namedString(s)
	case 4:
		return namedBytes(s)
	case 5:
		return embedding{namedString(s), &plainError{1}, len(s)}
	case 6:
		return time.Duration(len(s)) * time.Hour
	case 7:
		return time.Unix(int64(len(s))*1e6, 5e8).UTC()
	case 8:
		return big.NewInt(1).Lsh(big.NewInt(3), uint(len(s)))
	case 9:
		return net.IPv4(1, 2, 3, byte(len(s)))
	case 10:
		return &url.URL{Scheme: "http", Host: "host", Path: "/" + s, RawQuery: "a=b&c=<d>"}
	case 11:
		return http.Header{"A": {s, "<&>"}, "B": nil, "C": {}}
	case 12:
		return bytes.NewBufferString(s)
	case 13:
		return strings.NewReader(s)
	case 14:
		return struct{ io.Reader }{bytes.NewReader([]byte(s))}
	case 15:
		return [3]int{1, len(s), 3}
	case 16:
		return [4]byte{1, 2, 3, byte(len(s))}
	case 17:
		return (*jsonStruct)(nil)
	case 18:
		return map[string]any(nil)
	case 19:
		return []any(nil)
	case 20:
		return []string{s, "", s}
	case 21:
		return map[int]string{len(s): s, -1: "<", 10: ">"}
	case 22:
		return map[string]string{s: s, "a": "&"}
	case 23:
		p := any(s)
		q := &p
		return &q
	case 24:
		return []error{errors.New(s), nil}
	case 25:
		return map[string]error{"error": errors.New(s)}
	case 26:
		return []json.RawMessage{json.RawMessage("[1,  2]"), nil}
	case 27:
		raw := json.RawMessage("{ \"a\" : 1 }")
		return &raw
	case 28:
		return wrapperspb.String(s)
	case 29:
		return http.Cookie{Name: "n", Value: s}
	case 30:
		return [][]byte{[]byte(s), nil, {}}
	case 31:
		return body.Empty()
	case 32:
		return uintptr(len(s))
	case 33:
		return rune(len(s) + 'a')
	}
	return nil
}

var jsonStrings = []string{"", "a", "<script>alert(\"x\") & more</script>", "line\nbreak\r\nand\ttab", "\u2028\u2029", "\u0000\u001f\u007f", "é世界🎉", "\xff\xfe invalid", "\\\"/", "&lt;", "  "}

func genJSONString(t *rapid.T) []byte {
	switch core.Uniform(t, 4) {
	case 0:
		return []byte(core.Pick(t, jsonStrings))
	case 1:
		return rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "bytes")
	case 2:
		return []byte(strings.Repeat(core.Pick(t, jsonStrings), core.Uniform(t, 40)))
	default:
		return []byte(rapid.String().Draw(t, "string"))
	}
}

var rawDocs = []string{"1", "null", "{}", "[]", " [1,\n  2,\r\n\t3 ] ", "{\"a\" : {\"b\":\n[ ]}, \"c\": \"<&>\"}", "\"\\u003cb\\u003e\"", "1e3", "-0.0", "{\"k\":[{},{\"x\":[[[]]]}]}"}

func genVal(t *rapid.T, depth int) Val {
	leaf := []string{"null", "true", "false", "int", "uint", "float", "f32", "str", "str", "str", "num", "raw", "bytes", "custom", "std"}
	if depth > 0 {
		leaf = append(leaf, "list", "map", "tmap", "struct", "list", "map", "map", "struct")
	}
	if depth > 0 && core.Chance(t, 25) {
		return Val{T: "deep", I: core.Pick(t, []int64{3, 4, 5, 8, 16, 33, 100, 400}), L: []Val{genVal(t, 0)}}
	}
	v := Val{T: core.Pick(t, leaf)}
	switch v.T {
	case "int", "uint", "num", "f32":
		v.I = rapid.Int64().Draw(t, "i")
		if v.T == "f32" {
			v.I %= 1 << 20
		}
	case "float":
		v.F = rapid.Float64Range(-1e300, 1e300).Draw(t, "f")
	case "str", "bytes":
		v.S = genJSONString(t)
	case "custom":
		v.S = []byte(core.Pick(t, jsonStrings))
	case "std":
		v.I = int64(core.Uniform(t, stdValues))
		v.S = genJSONString(t)
	case "raw":
		v.S = []byte(core.Pick(t, rawDocs))
	case "struct":
		v.S = genJSONString(t)
		v.I = rapid.Int64Range(0, 1e9).Draw(t, "i")
		v.L = []Val{genVal(t, depth-1)}
	case "list", "map", "tmap":
		n := core.Uniform(t, 5)
		for i := 0; i < n; i++ {
			v.L = append(v.L, genVal(t, depth-1))
			if v.T == "map" {
				v.K = append(v.K, genJSONString(t))
			}
		}
	}
	return v
}

var badVals = []string{"nan", "inf", "chan", "func", "fail", "badraw", "complex", "deepbad"}

// JSONDoc is one body to build.
type JSONDoc struct {
	V      Val  `json:"v"`
	Pretty bool `json:"pretty,omitempty"`
}

// JSONCase builds several bodies and reads them afterwards.
type JSONCase struct {
	Docs  []JSONDoc `json:"docs"`
	Order []int     `json:"order,omitempty"`
	Via   int       `json:"via,omitempty"`
	Mut   bool      `json:"mut,omitempty"`
}

func genJSON(t *rapid.T) JSONCase {
	c := JSONCase{Via: core.Uniform(t, 3)}
	c.Docs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) JSONDoc {
		d := JSONDoc{Pretty: rapid.Bool().Draw(t, "pretty")}
		switch core.Uniform(t, 7) {
		case 6:
			d.V = Val{T: core.Pick(t, badVals), I: rapid.Int64Range(0, 5000).Draw(t, "i")}
		case 5:
			d.V = Val{T: "list"}
			for n := core.Uniform(t, 4); n > 0; n-- {
				d.V.L = append(d.V.L, genVal(t, 1))
			}
			d.V.L = append(d.V.L, Val{T: core.Pick(t, badVals), I: 3})
		default:
			d.V = genVal(t, 3)
		}
		return d
	}), 1, 5).Draw(t, "docs")
	c.Order = rapid.SliceOfN(rapid.IntRange(0, 4), 0, 5).Draw(t, "order")
	return c
}

func genLargeJSON(t *rapid.T) JSONCase {
	c := JSONCase{Via: core.Uniform(t, 3)}
	for n := 1 + core.Uniform(t, 3); n > 0; n-- {
		d := JSONDoc{Pretty: rapid.Bool().Draw(t, "pretty"), V: genVal(t, 1)}
		if rapid.Bool().Draw(t, "large") {
			unit, _ := encodeRef(d.V.value(), true)
			size := core.Pick(t, []int{4096, 32768, 65536, 65536, 131072, 1 << 20})
			d.V = Val{T: "rep", I: int64(size/(len(unit)+4)) + rapid.Int64Range(0, 10).Draw(t, "more"), L: []Val{d.V}}
		}
		c.Docs = append(c.Docs, d)
	}
	c.Order = rapid.SliceOfN(rapid.IntRange(0, 4), 0, 5).Draw(t, "order")
	return c
}

func encodeRef(v any, pretty bool) ([]byte, error) {
	var buf bytes.Buffer
	e := json.NewEncoder(&buf)
	e.SetEscapeHTML(false)
	if pretty {
		e.SetIndent("", "  ")
	}
	if err := e.Encode(v); err != nil {
		return nil, err
	}
	if pretty {
		return bytes.ReplaceAll(buf.Bytes(), []byte("\n"), []byte("\r\n")), nil
	}
	return buf.Bytes(), nil
}

func decode(b []byte) (v any, err error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err = d.Decode(&v); err == nil {
		if _, err2 := d.Token(); err2 != io.EOF {
			err = fmt.Errorf("data after the document")
		}
	}
	return
}

func runJSON(c JSONCase, o *core.Obs) error {
	type built struct {
		b    body.Body
		want []byte
		doc  JSONDoc
	}
	var all []built
	for i, d := range c.Docs {
		v := d.V.value()
		want, wantErr := encodeRef(v, d.Pretty)
		var b body.Body
		pv, panicked := core.Try(func() {
			if d.Pretty {
				b = body.FromPrettyJSON(v)
			} else {
				b = body.FromJSON(v)
			}
		})
		if (wantErr != nil) != panicked {
			return fmt.Errorf("document %d (pretty %v): panicked: %v (%v), encoding error: %v", i, d.Pretty, panicked, pv, wantErr)
		}
		if panicked {
			o.Label("rejected")
			continue
		}
		if got := b.BytesRemaining(); got < int64(len(want))-1 || got > int64(len(want)) {
			return fmt.Errorf("document %d (pretty %v): body has %d bytes, the encoding %d", i, d.Pretty, got, len(want))
		}
		if len(want) > 3 {
			o.NonTrivial()
		}
		o.LabelIf(d.Pretty, "pretty")
		o.LabelIf(!d.Pretty, "plain")
		all = append(all, built{b, want, d})
	}
	if len(all) == 0 {
		return nil
	}
	o.LabelIf(len(all) > 1, "several bodies alive")
	order := append([]int{}, c.Order...)
	for i := range all {
		order = append(order, i)
	}
	done := map[int]bool{}
	for _, i := range order {
		if i < 0 || i >= len(all) || done[i] {
			continue
		}
		done[i] = true
		x := all[i]
		var got []byte
		var err error
		switch c.Via {
		case 1:
			var buf bytes.Buffer
			_, err = io.Copy(&buf, x.b)
			got = buf.Bytes()
		case 2:
			dup, err2 := x.b.Copy()
			if err2 != nil {
				return fmt.Errorf("Copy: %v", err2)
			}
			got, err = io.ReadAll(dup)
		default:
			got, err = io.ReadAll(x.b)
		}
		if err != nil {
			return fmt.Errorf("reading document %d: %v", i, err)
		}
		if x.doc.Pretty {
			if !bytes.Equal(got, x.want) {
				return fmt.Errorf("document %d (pretty): got %q, want %q", i, clip(got), clip(x.want))
			}
		} else {
			if !bytes.Equal(bytes.TrimSuffix(got, []byte("\n")), bytes.TrimSuffix(x.want, []byte("\n"))) {
				return fmt.Errorf("document %d (plain): got %q, want %q", i, clip(got), clip(x.want))
			}
		}
		// The reference itself must satisfy the statement.
		gv, err := decode(got)
		if err != nil {
			return fmt.Errorf("document %d does not decode: %v", i, err)
		}
		wv, err := decode(x.want)
		if err != nil || !reflect.DeepEqual(gv, wv) {
			return fmt.Errorf("document %d decodes to a different value (%v)", i, err)
		}
		if err := x.b.Close(); err != nil {
			return fmt.Errorf("Close: %v", err)
		}
	}
	return nil
}

func clip(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

func init() {
	core.Register(&core.Check{
		ID:          "C12",
		Rule:        "a case is one to five JSON values (trees of maps, lists, strings with any bytes, numbers, raw messages, structs, custom marshalers; some not encodable; some up to a megabyte), all bodies being built before any is read, in a drawn order; non-trivial if some encoding is longer than three bytes",
		Assumptions: []string{"encoding/json is the reference encoder; a trailing line break of the plain form is optional"},
		Targets:     []*core.Target{core.New("json", 24000, genJSON, runJSON), core.New("json-large", 300, genLargeJSON, runJSON)},
	})
}
