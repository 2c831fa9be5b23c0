// Package handh checks the properties of package handler.
package handh

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"reflect"
	"sync"
	"time"

	"github.com/chronos-tachyon/morehttp/handler"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	"github.com/chronos-tachyon/morehttp/zverif/resph"
	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
	"pgregory.net/rapid"
)

// Req is one request and what the handler does with it.
type Req struct {
	Method string          `json:"method"`
	Do     string          `json:"do"` // serve, panic, zero, closed, nilinner
	Panic  int             `json:"panic,omitempty"`
	Resp   resph.ServeCase `json:"resp"`
	Extra  bool            `json:"extra,omitempty"` // the writer is wrapped before it gets to the adaptor
	Slow   int             `json:"slow,omitempty"`  // how long the handler takes, in milliseconds
	Gone   int             `json:"gone,omitempty"`  // the request's context ends when its handler starts (1) or returns (2)
}

// Hist is a sequence of requests, or several concurrent ones.
type Hist struct {
	Reqs []Req `json:"reqs"`
	Par  int   `json:"par,omitempty"` // number of goroutines
	All  bool  `json:"all,omitempty"` // also look at what the default registry exports
}

type myErr struct{ s string }

func (e *myErr) Error() string { return e.s }

type sliceErr []string // an error type that cannot be compared

func (e sliceErr) Error() string { return fmt.Sprint([]string(e)) }

type aStruct struct{ A, B int }

type stringer struct{}

func (stringer) String() string { panic("String must not matter") }

var panicValues = []any{
	"a string", errors.New("an error"), &myErr{"pointer"}, sliceErr{"a", "b"}, 42, aStruct{1, 2}, &aStruct{3, 4}, http.ErrAbortHandler,
	fmt.Errorf("wrapping: %w", io.EOF), io.EOF, []int{1, 2, 3}, 3.5, map[string]int{"a": 1}, true, (*myErr)(nil), (*aStruct)(nil), func() {},
	handler.PanicError{Value: "inner"}, "", 0, false, response.Response{},
}

const (
	panicNil = 100 + iota
	panicNilMap
	panicIndex
	panicNilPtr
	panicDiv
	panicType
	panicAssert
)

func doPanic(n int) {
	switch n {
	case panicNil:
		panic(nil)
	case panicNilMap:
		var m map[string]int
		m["x"] = 1
	case panicIndex:
		var s []int
		_ = s[len(s)+3]
	case panicNilPtr:
		var r *response.Response
		_ = r.Status()
	case panicDiv:
		x := 0
		_ = 1 / x
	case panicType:
		var v any = "s"
		_ = v.(int)
	case panicAssert:
		response.NewBuilder().Build()
	default:
		panic(panicValues[n%len(panicValues)])
	}
}

const full = resph.CapFlush | resph.CapHijack | resph.CapNotify | resph.CapReadFrom

func genReq(t *rapid.T, metrics, big bool) Req {
	r := Req{Method: resph.GenMethod(t), Do: core.Pick(t, []string{"serve", "serve", "serve", "panic", "zero", "closed", "nilinner", "serve"})}
	if r.Do == "panic" || core.Chance(t, 10) {
		r.Do = "panic"
		r.Panic = core.Uniform(t, len(panicValues))
		if core.Chance(t, 3) {
			r.Panic = panicNil + core.Uniform(t, 7)
		}
	}
	if big {
		r.Resp = resph.GenLargeServe(t, core.Chance(t, 3))
	} else {
		r.Resp = resph.GenServe(t, core.Chance(t, 2))
	}
	r.Resp.Wrap = ""
	if r.Resp.Conn.Panic == "header" {
		r.Resp.Conn.Panic = "write" // a connection that cannot take a status cannot take a 500 either
	}
	if r.Resp.Conn.Style == 3 {
		r.Resp.Conn.Style = 0
	}
	if metrics && r.Resp.Conn.Caps&full == full {
		// When something panics inside ReadFrom of the connection, nobody learns
		// how many bytes it had accepted by then.
		r.Resp.Body.Fail &= 1
		if r.Resp.Conn.Panic == "write" {
			r.Resp.Conn.Panic = ""
		}
	}
	r.Extra = core.Chance(t, 5)
	if metrics && core.Chance(t, 25) {
		r.Slow = 1 + core.Uniform(t, 7)
	}
	if metrics && core.Chance(t, 25) {
		r.Resp.Conn.Slow = 1 + core.Uniform(t, 3)
	}
	if core.Chance(t, 4) {
		r.Gone = 1 + core.Uniform(t, 2)
	}
	return r
}

// result is what became of a request.
type result struct {
	conn    *resph.Conn
	failed  bool
	sure    bool // it is determined whether the request failed
	reports []error
	panicV  any
	bod     *resph.Bod
	code    int

	least, most time.Duration // bounds of the time it took
}

// hook collects what is reported, by goroutine-independent identity: in
// sequential runs the current request takes it.
type hook struct {
	mu   sync.Mutex
	errs []error
}

func (h *hook) report(err error) {
	h.mu.Lock()
	h.errs = append(h.errs, err)
	h.mu.Unlock()
}

func (h *hook) take() []error {
	h.mu.Lock()
	defer h.mu.Unlock()
	errs := h.errs
	h.errs = nil
	return errs
}

// perform serves a request.
func perform(r *Req) (res *result, escaped any, esc bool) {
	res = &result{}
	conn := r.Resp.Conn.Conn()
	res.conn = conn
	var inner handler.Handler
	gone := func(int) {}
	var began, ended time.Time
	if r.Do != "nilinner" {
		inner = handler.HandlerFunc(func(req *http.Request) response.Response {
			began = time.Now()
			defer func() { ended = time.Now() }()
			gone(1)
			defer gone(2)
			if r.Slow > 0 {
				time.Sleep(time.Duration(r.Slow) * time.Millisecond)
			}
			switch r.Do {
			case "panic":
				doPanic(r.Panic)
			case "zero":
				return response.Response{}
			}
			b, err := r.Resp.Body.Open()
			if err != nil {
				panic(fmt.Errorf("body not built: %w", err))
			}
			res.bod = b
			resp := r.Resp.Respond(b)
			if r.Do == "closed" {
				resp.Body().Close()
			}
			return *resp
		})
	}
	var w http.ResponseWriter = conn.W()
	req := resph.Request(r.Method)
	if r.Gone > 0 {
		ctx, cancel := context.WithCancel(req.Context())
		defer cancel()
		req = req.WithContext(ctx)
		gone = func(n int) {
			if n == r.Gone {
				cancel()
			}
		}
	}
	if r.Extra {
		w = response.NewWriter(w, req)
	}
	before := time.Now()
	escaped, esc = core.Try(func() { handler.Adaptor{Inner: inner}.ServeHTTP(w, req) })
	res.most = time.Since(before)
	if t := conn.Busy(); t.After(ended) {
		ended = t
	}
	if !began.IsZero() {
		res.least = ended.Sub(began)
	}
	res.code = conn.Status()
	return
}

// judge checks one request by itself; reports are what the hook got for it.
func (res *result) judge(r *Req, reports []error, o *core.Obs, aspect string) error {
	conn := res.conn
	headers := conn.Events("header")
	if len(headers) != 1 || len(conn.Events("implicit")) != 0 {
		return fmt.Errorf("the client got statuses %v", headers)
	}
	status := headers[0].Status
	// Whether and when it fails.
	var errs []error
	preHeader := false
	switch {
	case r.Do != "serve" && r.Do != "closed" || res.bod == nil:
		res.failed, res.sure, preHeader = true, true, true
	default:
		c := &r.Resp
		certain, bodyErrs := res.bod.Failures()
		errs = bodyErrs
		if c.Conn.Caps&resph.CapPush != 0 {
			for i := range c.Push {
				if c.Conn.Panic == "push" || (i < len(c.Conn.Pushes) && c.Conn.Pushes[i] == 1) {
					preHeader = true
					errs = append(errs, c.Conn.PushFailure())
				}
				if preHeader {
					break
				}
			}
		}
		if conn.Failed() > 0 {
			errs = append(errs, c.Conn.ConnErr())
		}
		writerPanicked := c.Conn.Panic == "write" && len(conn.Events("body")) > 0
		res.failed = certain || preHeader || conn.Failed() > 0 || r.Do == "closed" || writerPanicked
		res.sure = res.failed || len(errs) == 0
		if !res.sure {
			// The source failed; whether that mattered shows in what was delivered.
			o.Label("source failed")
			if suppressed := resph.IsHead(r.Method) || status == 204; !suppressed {
				res.failed = len(conn.Body()) < len(res.bod.Want)
				res.sure = res.failed
			}
		}
	}
	want := r.Resp.Status
	if preHeader {
		want = 500
	}
	if status != want {
		return fmt.Errorf("%s: status %d was sent instead of %d", r.Do, status, want)
	}
	if preHeader && conn.Accepted() > 0 {
		return fmt.Errorf("%s: a body was sent with the 500", r.Do)
	}
	if aspect == "metrics" {
		if !res.sure {
			res.failed = len(reports) > 0
		}
		return nil
	}
	if r.Do == "serve" && res.bod != nil {
		if n, ok := res.bod.Closes(); ok && n != 1 {
			return fmt.Errorf("%s: the source of the body was closed %d times", r.Do, n)
		}
		if !res.bod.IsClosed() {
			return fmt.Errorf("%s: the response's body was left open", r.Do)
		}
		o.Label("body closed afterwards")
	}
	if res.sure {
		if n := len(reports); res.failed && n != 1 || !res.failed && n != 0 {
			return fmt.Errorf("%s: failed: %v, but the hook was called %d times: %v", r.Do, res.failed, n, reports)
		}
	} else if len(reports) > 1 {
		return fmt.Errorf("%s: the hook was called %d times", r.Do, len(reports))
	}
	o.LabelIf(res.failed && preHeader, "failed before the status")
	o.LabelIf(res.failed && !preHeader, "failed after the status")
	o.LabelIf(!res.failed, "succeeded")
	if len(reports) == 0 {
		return nil
	}
	rep := reports[0]
	if rep == nil {
		return fmt.Errorf("%s: a nil error was reported", r.Do)
	}
	wrapped := func(v any) error {
		pe, ok := rep.(handler.PanicError)
		if !ok || !sameValue(pe.Value, v) {
			return fmt.Errorf("%s: %T %v was reported for panic value %T %v", r.Do, rep, safe(rep), v, v)
		}
		return nil
	}
	switch {
	case r.Do == "panic" && r.Panic < panicNil:
		v := panicValues[r.Panic%len(panicValues)]
		o.Label("panic:%T", v)
		if err, ok := v.(error); ok {
			if !sameValue(rep, err) {
				return fmt.Errorf("%T was reported for panic value %T", rep, v)
			}
			return nil
		}
		return wrapped(v)
	case r.Do == "panic":
		o.Label("runtime panic")
		if _, isPE := rep.(handler.PanicError); isPE {
			return fmt.Errorf("a runtime error was reported as %v", rep)
		}
	case r.Do == "serve" && res.bod != nil:
		o.Label("response failed")
		c := &r.Resp
		switch {
		case c.Conn.Panic == "push" && preHeader, c.Conn.Panic == "write" && len(conn.Events("body")) > 0:
			if errors.Is(rep, c.Body.CloseFailure()) {
				return nil
			}
			return wrapped(resph.WPanic)
		case c.Body.Fail == 2 && c.Body.Tracked && res.bod.Panicked():
			return wrapped(resph.BPanic)
		}
		for _, e := range errs {
			if errors.Is(rep, e) {
				return nil
			}
		}
		return fmt.Errorf("%v was reported; failures were %v", rep, errs)
	}
	return nil
}

func safe(err error) (s string) {
	defer func() { recover() }()
	return err.Error()
}

// sameValue compares values of any type, including those that cannot be compared.
func sameValue(a, b any) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if a == nil || reflect.TypeOf(a).Comparable() {
		return a == b
	}
	if reflect.TypeOf(a).Kind() == reflect.Func {
		return reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
	}
	return reflect.DeepEqual(a, b)
}

func runContain(h Hist, o *core.Obs) error {
	var hk hook
	old := handler.OnPanic
	handler.OnPanic = hk.report
	defer func() { handler.OnPanic = old }()
	for i := range h.Reqs {
		r := &h.Reqs[i]
		res, escaped, esc := perform(r)
		if esc {
			return fmt.Errorf("request %d (%s): panicked: %v", i, r.Do, escaped)
		}
		if err := res.judge(r, hk.take(), o, "contain"); err != nil {
			return fmt.Errorf("request %d: %v", i, err)
		}
		if res.failed {
			o.NonTrivial()
		}
	}
	return nil
}

// snapshot is the state of the metrics.
type snapshot struct {
	panics   float64
	requests map[string]float64
	latency  map[string]float64
	sent     map[string]float64
	latHist  *dto.Histogram
	sentHist *dto.Histogram
	recvHist *dto.Histogram
}

func value(c prometheus.Metric) *dto.Metric {
	var m dto.Metric
	if err := c.Write(&m); err != nil {
		panic(err)
	}
	return &m
}

func vec(v *prometheus.CounterVec) map[string]float64 {
	ch := make(chan prometheus.Metric, 4000)
	v.Collect(ch)
	close(ch)
	out := map[string]float64{}
	for m := range ch {
		d := value(m)
		out[d.Label[0].GetValue()] = d.Counter.GetValue()
	}
	return out
}

func snap() snapshot {
	return snapshot{
		panics:   value(handler.PromPanicsTotal).Counter.GetValue(),
		requests: vec(handler.PromRequestsTotal),
		latency:  vec(handler.PromLatencyTotal),
		sent:     vec(handler.PromSendBytesTotal),
		latHist:  value(handler.PromLatencyHist).Histogram,
		sentHist: value(handler.PromSendBytesHist).Histogram,
		recvHist: value(handler.PromRecvBytesHist).Histogram,
	}
}

// exported is what the default registry, from which metrics are usually served,
// says about the same metrics.
func exported() (s snapshot, err error) {
	families, err := prometheus.DefaultGatherer.Gather()
	if err != nil {
		return s, fmt.Errorf("gathering metrics: %v", err)
	}
	byName := map[string]*dto.MetricFamily{}
	for _, f := range families {
		byName[f.GetName()] = f
	}
	codes := func(name string) map[string]float64 {
		out := map[string]float64{}
		for _, m := range byName[name].GetMetric() {
			if len(m.Label) != 1 || m.Label[0].GetName() != "code" {
				err = fmt.Errorf("%s has labels %v", name, m.Label)
				return out
			}
			out[m.Label[0].GetValue()] = m.GetCounter().GetValue()
		}
		return out
	}
	one := func(name string) *dto.Metric {
		list := byName[name].GetMetric()
		if len(list) != 1 {
			if err == nil {
				err = fmt.Errorf("%d metrics %s are exported", len(list), name)
			}
			return &dto.Metric{}
		}
		return list[0]
	}
	s = snapshot{
		panics:   one("http_panics_total").GetCounter().GetValue(),
		requests: codes("http_requests_total"),
		latency:  codes("http_latency_total"),
		sent:     codes("http_send_bytes_total"),
		latHist:  one("http_latency_seconds_hist").GetHistogram(),
		sentHist: one("http_send_bytes_hist").GetHistogram(),
		recvHist: one("http_recv_bytes_hist").GetHistogram(),
	}
	return s, err
}

// sameExported compares what the default registry says with the metrics themselves.
func sameExported(s snapshot) error {
	e, err := exported()
	if err != nil {
		return err
	}
	if e.panics != s.panics || !reflect.DeepEqual(e.requests, s.requests) || !reflect.DeepEqual(e.latency, s.latency) || !reflect.DeepEqual(e.sent, s.sent) {
		return fmt.Errorf("the registry exports %v panics, requests %v, latencies %v, sent bytes %v instead of %v, %v, %v, %v", e.panics, e.requests, e.latency, e.sent, s.panics, s.requests, s.latency, s.sent)
	}
	for _, p := range [][2]*dto.Histogram{{e.latHist, s.latHist}, {e.sentHist, s.sentHist}, {e.recvHist, s.recvHist}} {
		if p[0].GetSampleCount() != p[1].GetSampleCount() || p[0].GetSampleSum() != p[1].GetSampleSum() {
			return fmt.Errorf("the registry exports histogram %v instead of %v", p[0], p[1])
		}
	}
	return nil
}

// expected is what a set of requests must add.
type expected struct {
	n        int
	panics   int
	requests map[string]float64
	sent     map[string]float64
	sizes    []int64
	times    map[string]bounds
	spans    []bounds
}

// bounds of a number of seconds.
type bounds struct{ least, most float64 }

// Sums of floating-point numbers are not exact.
const inexact = 1e-7

func (b bounds) has(v float64) bool { return v >= b.least-inexact && v <= b.most+inexact }

func delta(a, b map[string]float64) map[string]float64 {
	out := map[string]float64{}
	for k, v := range b {
		if d := v - a[k]; d != 0 {
			out[k] = d
		}
	}
	return out
}

func (e *expected) check(a, b snapshot) error {
	if d := b.panics - a.panics; d != float64(e.panics) {
		return fmt.Errorf("the panic counter rose by %v for %d failed requests", d, e.panics)
	}
	if d := delta(a.requests, b.requests); !reflect.DeepEqual(d, e.requests) {
		return fmt.Errorf("the request counter rose by %v instead of %v", d, e.requests)
	}
	sent := map[string]float64{}
	for k, v := range e.sent {
		if v != 0 {
			sent[k] = v
		}
	}
	if d := delta(a.sent, b.sent); !reflect.DeepEqual(d, sent) {
		return fmt.Errorf("the sent-bytes counter rose by %v instead of %v", d, sent)
	}
	latency := delta(a.latency, b.latency)
	for k := range latency {
		if e.requests[k] == 0 {
			return fmt.Errorf("the latency of %s rose by %v for no requests", k, latency[k])
		}
	}
	var all bounds
	for k, bd := range e.times {
		all.least += bd.least
		all.most += bd.most
		if v := latency[k]; v < 0 || !bd.has(v) {
			return fmt.Errorf("the latency of %s rose by %v for %v requests that took between %v and %v seconds", k, v, e.requests[k], bd.least, bd.most)
		}
	}
	if d := b.latHist.GetSampleCount() - a.latHist.GetSampleCount(); d != uint64(e.n) {
		return fmt.Errorf("%d latency observations for %d requests", d, e.n)
	}
	if d := b.latHist.GetSampleSum() - a.latHist.GetSampleSum(); d < 0 || !all.has(d) {
		return fmt.Errorf("the latency sum rose by %v for requests that took between %v and %v seconds", d, all.least, all.most)
	}
	for i, bk := range b.latHist.Bucket {
		low, high := uint64(0), uint64(0)
		for _, s := range e.spans {
			if s.most <= bk.GetUpperBound()-inexact {
				low++
			}
			if s.least <= bk.GetUpperBound()+inexact {
				high++
			}
		}
		if d := bk.GetCumulativeCount() - a.latHist.Bucket[i].GetCumulativeCount(); d < low || d > high {
			return fmt.Errorf("bucket %v of latencies rose by %d instead of %d to %d", bk.GetUpperBound(), d, low, high)
		}
	}
	if d := b.recvHist.GetSampleCount() - a.recvHist.GetSampleCount(); d != uint64(e.n) {
		return fmt.Errorf("%d request size observations for %d requests", d, e.n)
	}
	if d := b.sentHist.GetSampleCount() - a.sentHist.GetSampleCount(); d != uint64(e.n) {
		return fmt.Errorf("%d size observations for %d requests", d, e.n)
	}
	var sum int64
	for _, s := range e.sizes {
		sum += s
	}
	if d := b.sentHist.GetSampleSum() - a.sentHist.GetSampleSum(); math.Abs(d-float64(sum)) > 1e-6 {
		return fmt.Errorf("the sum of observed sizes rose by %v instead of %d", d, sum)
	}
	for i, bk := range b.sentHist.Bucket {
		want := 0
		for _, s := range e.sizes {
			if float64(s) <= bk.GetUpperBound() {
				want++
			}
		}
		if d := bk.GetCumulativeCount() - a.sentHist.Bucket[i].GetCumulativeCount(); d != uint64(want) {
			return fmt.Errorf("bucket %v of sizes rose by %d instead of %d", bk.GetUpperBound(), d, want)
		}
	}
	return nil
}

func (e *expected) add(res *result) {
	e.n++
	if res.failed {
		e.panics++
	}
	if e.requests == nil {
		e.requests, e.sent, e.times = map[string]float64{}, map[string]float64{}, map[string]bounds{}
	}
	code := fmt.Sprint(res.code)
	span := bounds{res.least.Seconds(), res.most.Seconds()}
	sum := e.times[code]
	e.times[code] = bounds{sum.least + span.least, sum.most + span.most}
	e.spans = append(e.spans, span)
	e.requests[code]++
	e.sent[code] += float64(res.conn.Accepted())
	e.sizes = append(e.sizes, res.conn.Accepted())
}

func runMetrics(h Hist, o *core.Obs) error {
	var hk hook
	old := handler.OnPanic
	handler.OnPanic = hk.report
	defer func() { handler.OnPanic = old }()
	handler.PromRequestsTotal.Reset()
	handler.PromLatencyTotal.Reset()
	handler.PromSendBytesTotal.Reset()
	handler.PromRecvBytesTotal.Reset()
	if h.Par > 1 {
		return runMetricsPar(h, o)
	}
	for i := range h.Reqs {
		r := &h.Reqs[i]
		before := snap()
		res, escaped, esc := perform(r)
		if esc {
			// That is for C26; the request has still to be counted.
			after := snap()
			total := 0.0
			for _, d := range delta(before.requests, after.requests) {
				total += d
			}
			if n := after.latHist.GetSampleCount() - before.latHist.GetSampleCount(); total != 1 || n != 1 {
				return fmt.Errorf("request %d (%s): panicked (%v), having been counted %v times, with %d latency observations", i, r.Do, escaped, total, n)
			}
			panic(core.Abandon{Label: fmt.Sprintf("offaspect: panic %v", escaped)})
		}
		var e expected
		if res.judge(r, hk.take(), o, "metrics") != nil {
			panic(core.Abandon{Label: "offaspect: status"})
		}
		e.add(res)
		after := snap()
		if err := e.check(before, after); err != nil {
			return fmt.Errorf("request %d (%s): %v", i, r.Do, err)
		}
		if h.All && i == len(h.Reqs)-1 {
			if err := sameExported(after); err != nil {
				return err
			}
			o.Label("registry compared")
		}
		o.LabelIf(res.least > time.Millisecond, "slow")
		o.LabelIf(res.conn.Accepted() > 0, "bytes sent")
		o.LabelIf(res.failed, "failed")
		if res.failed || res.conn.Accepted() > 0 {
			o.NonTrivial()
		}
	}
	return nil
}

func runMetricsPar(h Hist, o *core.Obs) error {
	before := snap()
	results := make([]*result, len(h.Reqs))
	var wg sync.WaitGroup
	start := make(chan struct{})
	var esc bool
	var mu sync.Mutex
	for g := 0; g < h.Par; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			for i := g; i < len(h.Reqs); i += h.Par {
				res, _, e := perform(&h.Reqs[i])
				results[i] = res
				if e {
					mu.Lock()
					esc = true
					mu.Unlock()
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	if esc {
		panic(core.Abandon{Label: "offaspect: panic"})
	}
	var e expected
	unsure := 0
	for i, res := range results {
		if res.judge(&h.Reqs[i], nil, o, "metrics") != nil {
			panic(core.Abandon{Label: "offaspect: status"})
		}
		if !res.sure {
			unsure++
		}
		e.add(res)
	}
	after := snap()
	if unsure > 0 {
		// How many of them failed is not known; the panic counter decides.
		d := int(after.panics - before.panics)
		if d < e.panics || d > e.panics+unsure {
			return fmt.Errorf("the panic counter rose by %d for %d to %d failed requests", d, e.panics, e.panics+unsure)
		}
		e.panics = d
	}
	if err := e.check(before, after); err != nil {
		return fmt.Errorf("%d concurrent requests: %v", len(h.Reqs), err)
	}
	o.NonTrivial()
	return nil
}

func genHist(minN, maxN int, metrics, par bool) func(*rapid.T) Hist {
	return func(t *rapid.T) Hist {
		h := Hist{All: metrics && !par && core.Chance(t, 20)}
		if par {
			h.Par = 2 + core.Uniform(t, 5)
		}
		n := minN + core.Uniform(t, maxN-minN+1)
		h.Reqs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Req { return genReq(t, metrics, false) }), n, maxN).Draw(t, "reqs")
		return h
	}
}

// genSlow makes requests that take so long that it shows in the upper buckets.
func genSlow(t *rapid.T) Hist {
	var h Hist
	for n := 1 + core.Uniform(t, 2); n > 0; n-- {
		r := genReq(t, true, false)
		r.Slow, r.Resp.Conn.Slow = core.Pick(t, []int{15, 40, 120, 300, 700, 1100, 2050}), 0
		h.Reqs = append(h.Reqs, r)
	}
	return h
}

func genLarge(t *rapid.T) Hist {
	return Hist{Reqs: []Req{genReq(t, true, true), genReq(t, true, core.Chance(t, 2))}}
}

func init() {
	core.Register(&core.Check{
		ID:          "C26",
		Rule:        "a case is a sequence of requests whose handlers panic with values of many types, return unusable responses or responses that fail while being pushed, streamed or closed, or succeed; non-trivial if a request failed",
		Assumptions: []string{"the hook does not panic itself", "client connections do not panic when given a status"},
		Targets:     []*core.Target{core.New("containment", 24000, genHist(1, 4, false, false), runContain)},
	})
	core.Register(&core.Check{
		ID:          "C27",
		Rule:        "a case is a sequence of requests, or requests spread over two to six goroutines (-race); metrics are read before and after and compared with what the recording connections saw; non-trivial if body bytes were sent or a request failed",
		Assumptions: []string{"received bytes are documented as not implemented (FIXME in the code) and not looked at", "nothing panics inside ReadFrom of a connection, where the number of accepted bytes would be lost"},
		Targets: []*core.Target{
			core.New("deltas", 20000, genHist(1, 5, true, false), runMetrics),
			core.New("slow", 24, genSlow, runMetrics).WithFactor(10),
			core.New("large", 160, genLarge, runMetrics),
			core.New("huge", 60, genHuge, runHuge).WithFactor(10),
			core.New("deltas-concurrent", 800, genHist(4, 16, true, true), runMetrics).WithRace().WithFactor(15),
		},
	})
}
