package resph

import (
	"bytes"
	"fmt"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"time"

	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"pgregory.net/rapid"
)

// RecordCase serves one response to the ResponseWriters of the standard library.
type RecordCase struct {
	C   ServeCase `json:"c"`
	Via int       `json:"via"`
}

func genRecord(t *rapid.T) RecordCase {
	c := RecordCase{GenServe(t, false), core.Uniform(t, 6)}
	if c.C.Status == 204 || c.C.Status == 304 {
		c.C.Status = 200 // these take no bodies
	}
	c.C.Hdrs = nil
	for _, kv := range GenEndHeaders(t) {
		if kv.K != "Content-Type" && !strings.ContainsAny(kv.K, " ") {
			c.C.Hdrs = append(c.C.Hdrs, kv)
		}
	}
	return c
}

func runRecord(rc RecordCase, o *core.Obs) error {
	c := &rc.C
	b, err := c.Body.Open()
	if err != nil {
		o.Label("body not built")
		return nil
	}
	defer b.Release()
	resp := c.Respond(b)
	want := resp.Headers().Clone()
	want.Del("Push")
	want2 := bytes.Clone(b.Want)
	rec := httptest.NewRecorder()
	calls := 0
	var inner http.Handler = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		calls++
		if rc.Via&1 != 0 {
			w = response.NewWriter(w, r)
		}
		err = resp.Serve(w)
	})
	switch rc.Via >> 1 {
	case 1:
		inner = http.TimeoutHandler(inner, time.Hour, "too late")
	case 2:
		inner = http.MaxBytesHandler(http.StripPrefix("", inner), 1<<20)
	}
	inner.ServeHTTP(rec, httptest.NewRequest("GET", "/", nil))
	if err != nil || calls != 1 {
		return fmt.Errorf("Serve returned %v", err)
	}
	if rec.Code != c.Status {
		return fmt.Errorf("status %d instead of %d", rec.Code, c.Status)
	}
	if got := map[string][]string(rec.Header()); !reflect.DeepEqual(got, map[string][]string(want)) {
		return fmt.Errorf("headers %v instead of %v", got, want)
	}
	if got := rec.Body.Bytes(); !bytes.Equal(got, want2) {
		return fmt.Errorf("%d bytes instead of the %d of the body", len(got), len(want2))
	}
	if !b.IsClosed() {
		return fmt.Errorf("the body was left open")
	}
	o.Label("via:%d", rc.Via)
	if len(want2) > 0 {
		o.NonTrivial()
	}
	return nil
}
