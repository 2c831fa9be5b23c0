// Package argh checks that what is handed to the library stays as it was, and
// that what its owner does with it afterwards makes no difference.
package argh

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"slices"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zverif/bodyh"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"github.com/chronos-tachyon/morehttp/zverif/resph"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// Arg is something handed in through one of the functions that take a value.
type Arg struct {
	K   string     `json:"k"` // json, pretty, proto, text, digest, headers
	Bld bool       `json:"bld,omitempty"`
	Val *bodyh.Val `json:"val,omitempty"`
	Msg *bodyh.Msg `json:"msg,omitempty"`
	Opt int        `json:"opt,omitempty"`
	Raw []byte     `json:"raw,omitempty"`
	H   []resph.KV `json:"h,omitempty"`
}

// Values is a sequence of such calls.
type Values struct {
	Args  []Arg `json:"args"`
	Scrub bool  `json:"scrub,omitempty"` // the owner changes everything right after each call
	Adds  bool  `json:"adds,omitempty"`  // the connection changes the headers it was given
}

func clone[T any](v *T) *T {
	raw, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	c := new(T)
	if err := json.Unmarshal(raw, c); err != nil {
		panic(err)
	}
	return c
}

// spoil changes a JSON value in place, as far as it can be changed.
func spoil(v any) {
	switch x := v.(type) {
	case json.RawMessage:
		for i := range x {
			x[i] = '!'
		}
	case []byte:
		for i := range x {
			x[i] ^= 0xff
		}
	case []any:
		for i := range x {
			spoil(x[i])
			x[i] = "spoiled"
		}
	case map[string]any:
		for k := range x {
			spoil(x[k])
			x[k] = "spoiled"
		}
		if x != nil {
			x["spoiled"] = true
		}
	default:
		rv := reflect.ValueOf(v)
		if rv.Kind() == reflect.Pointer && !rv.IsNil() && rv.Elem().Kind() == reflect.Struct {
			for i := 0; i < rv.Elem().NumField(); i++ {
				f := rv.Elem().Field(i)
				if f.CanInterface() {
					spoil(f.Interface())
				}
				if f.CanSet() {
					f.SetZero()
				}
			}
		}
	}
}

func header(kvs []resph.KV) http.Header {
	h := http.Header{}
	for _, kv := range kvs {
		// room behind the values, which belongs to their owner
		vs := make([]string, len(kv.V), len(kv.V)+4)
		copy(vs, kv.V)
		for _, room := 0, vs[:cap(vs)]; len(room) > len(kv.V); room = room[:len(room)-1] {
			room[len(room)-1] = "owner's"
		}
		h[kv.K] = vs
	}
	return h
}

func sameRoom(h http.Header, kvs []resph.KV) error {
	if len(h) != len(kvs) {
		return fmt.Errorf("it has %d names instead of %d", len(h), len(kvs))
	}
	for _, kv := range kvs {
		vs := h[kv.K]
		if !slices.Equal(vs, kv.V) {
			return fmt.Errorf("%s is %q instead of %q", kv.K, vs, kv.V)
		}
		for _, v := range vs[:len(kv.V)+4][len(kv.V):] {
			if v != "owner's" {
				return fmt.Errorf("behind the values of %s there is %q", kv.K, v)
			}
		}
	}
	return nil
}

// made is one call that was made, with what it was given.
type made struct {
	arg    Arg
	val    any
	msg    proto.Message
	opts   *prototext.MarshalOptions
	raw    []byte
	hdr    http.Header
	b      body.Body
	want   []byte      // the content of the body right after the call
	wantH  http.Header // the headers of the builder right after the call
	bld    *response.Builder
	resp   *response.Response
	panics bool
}

// unchanged compares everything that was given with what it was.
func (d *made) unchanged() error {
	a := d.arg
	switch {
	case a.Val != nil:
		if twin := clone(a.Val).Value(); !reflect.DeepEqual(twin, d.val) {
			return fmt.Errorf("the value became %#v", d.val)
		}
	case a.Msg != nil:
		if !proto.Equal(a.Msg.Message().(proto.Message), d.msg) {
			return fmt.Errorf("the message became %v", d.msg)
		}
		if d.opts != nil && *d.opts != *bodyh.ProtoOptions[a.Opt] {
			return fmt.Errorf("the options became %+v instead of %+v", *d.opts, *bodyh.ProtoOptions[a.Opt])
		}
	case a.K == "digest":
		if !bytes.Equal(d.raw, a.Raw) {
			return fmt.Errorf("the digest became %x instead of %x", d.raw, a.Raw)
		}
	case a.K == "headers":
		if err := sameRoom(d.hdr, a.H); err != nil {
			return fmt.Errorf("the headers were changed: %w", err)
		}
	}
	return nil
}

func (d *made) call() {
	a := d.arg
	if d.bld == nil {
		switch a.K {
		case "json":
			d.b = body.FromJSON(d.val)
		case "pretty":
			d.b = body.FromPrettyJSON(d.val)
		case "proto":
			d.b = body.FromProto(d.msg)
		case "text":
			d.b = body.FromProtoText(d.msg, d.opts)
		}
		return
	}
	switch a.K {
	case "json":
		d.bld.WithJSON(d.val)
	case "pretty":
		d.bld.WithPrettyJSON(d.val)
	case "proto":
		d.bld.WithProto(d.msg)
	case "text":
		d.bld.WithProtoText(d.msg, d.opts)
	case "digest":
		d.bld.WithDigest("sha-256", d.raw)
	case "headers":
		d.bld.WithHeaders(d.hdr)
		d.bld.WithHeader("X-A", "added", true) // must not go into the owner's map
	}
	d.b = d.bld.Body()
}

func (d *made) spoil() {
	spoil(d.val)
	if d.msg != nil {
		bodyh.SpoilMessage(d.msg)
	}
	if d.opts != nil {
		*d.opts = prototext.MarshalOptions{Multiline: !d.opts.Multiline, EmitASCII: !d.opts.EmitASCII}
	}
	for i := range d.raw {
		d.raw[i] = 0
	}
	for k, vs := range d.hdr {
		for i := range vs {
			vs[i] = "spoiled"
		}
		d.hdr[k] = append(vs, "spoiled")
	}
	if d.hdr != nil {
		d.hdr["Spoiled"] = []string{"spoiled"}
	}
}

func runValues(c Values, o *core.Obs) error {
	var all []*made
	look := func(what string) error {
		if c.Scrub {
			return nil
		}
		for i, d := range all {
			if err := d.unchanged(); err != nil {
				return fmt.Errorf("%s: argument %d (%s): %w", what, i, d.arg.K, err)
			}
		}
		return nil
	}
	for i, a := range c.Args {
		d := &made{arg: a}
		if a.Val != nil {
			d.val = clone(a.Val).Value()
		}
		if a.Msg != nil {
			d.msg = a.Msg.Message().(proto.Message)
			if p := bodyh.ProtoOptions[a.Opt%len(bodyh.ProtoOptions)]; p != nil && a.K == "text" {
				opts := *p
				d.opts = &opts
			}
		}
		switch a.K {
		case "digest":
			d.raw = bytes.Clone(a.Raw)
		case "headers":
			d.hdr = header(a.H)
		}
		if a.Bld {
			d.bld = response.NewBuilder().WithStatus(200).WithBody(body.FromString("none"))
		}
		all = append(all, d)
		_, d.panics = core.Try(d.call)
		if err := look(fmt.Sprintf("after call %d", i)); err != nil {
			return err
		}
		o.LabelIf(d.panics, "rejected %s", a.K)
		if !d.panics {
			o.Label("%s builder:%v", a.K, a.Bld)
			o.NonTrivial()
			if d.b != nil {
				cp, err := d.b.Copy()
				if err != nil {
					panic(core.Abandon{Label: "offaspect:copy"})
				}
				d.want, _ = io.ReadAll(cp)
				cp.Close()
			}
			if d.bld != nil {
				d.wantH = d.bld.Headers().Clone()
			}
		}
		if c.Scrub {
			d.spoil()
		}
	}
	for i, d := range all {
		what := fmt.Sprintf("argument %d (%s)", i, d.arg.K)
		if d.panics {
			continue
		}
		if d.bld != nil {
			if got := d.bld.Headers(); !equal(got, d.wantH) {
				return fmt.Errorf("%s: the headers of the builder became %q instead of %q when their owner changed what was given", what, got, d.wantH)
			}
			d.resp = d.bld.Build()
			conn := resph.WSpec{Limit: -1, Adds: c.Adds}.Conn()
			want := d.resp.Headers().Clone()
			code := d.resp.Status()
			err := d.resp.Serve(conn.W())
			if got := d.resp.Headers(); !equal(got, want) {
				return fmt.Errorf("%s: serving changed the headers of the response from %q to %q", what, want, got)
			}
			if got := d.resp.Status(); got != code {
				return fmt.Errorf("%s: serving changed the status of the response from %d to %d", what, code, got)
			}
			if err == nil && !bytes.Equal(conn.Body(), d.want) {
				return fmt.Errorf("%s: %q was sent, but the body was %q", what, clip(conn.Body()), clip(d.want))
			}
		} else {
			got, err := io.ReadAll(d.b)
			if err != nil || !bytes.Equal(got, d.want) {
				return fmt.Errorf("%s: the body is %q (%v), but it was %q", what, clip(got), err, clip(d.want))
			}
			d.b.Close()
		}
		if err := look("after the use of " + what); err != nil {
			return err
		}
	}
	return nil
}

func clip(b []byte) []byte { return b[:min(len(b), 200)] }

func equal(a, b http.Header) bool {
	if len(a) != len(b) {
		return false
	}
	for k, vs := range a {
		if !slices.Equal(vs, b[k]) {
			return false
		}
	}
	return true
}

func genValues(t *rapid.T) Values {
	return Values{
		Scrub: rapid.Bool().Draw(t, "scrub"),
		Adds:  rapid.Bool().Draw(t, "adds"),
		Args: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Arg {
			a := Arg{K: core.Pick(t, []string{"json", "pretty", "proto", "text", "text", "digest", "headers"}), Bld: rapid.Bool().Draw(t, "bld")}
			switch a.K {
			case "json", "pretty":
				v := bodyh.GenValue(t, 3)
				a.Val = &v
			case "proto", "text":
				m := bodyh.GenMessage(t, 2)
				if core.Chance(t, 8) {
					m.Kind = core.Pick(t, []string{"missing", "badutf8"})
				}
				a.Msg = &m
				a.Opt = core.Uniform(t, len(bodyh.ProtoOptions))
			case "digest":
				a.Bld = true
				a.Raw = rapid.SliceOfN(rapid.Byte(), 1, 70).Draw(t, "raw")
			case "headers":
				a.Bld = true
				a.H = resph.GenHeaders(t)
			}
			return a
		}), 1, 6).Draw(t, "args"),
	}
}
