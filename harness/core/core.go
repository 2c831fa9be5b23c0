// Package core is the engine of the property checks: case generation and
// shrinking through rapid, execution of JSON-able cases against the real code,
// worker processes, deadlock classification, evidence and replay files.
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"pgregory.net/rapid"
)

// A Target is one generator plus executor.  Several targets may decide one property.
type Target struct {
	Name   string
	Quick  int  // number of cases in the quick tier (three times as many unless there is a Factor)
	Factor int  // the thorough tier runs so many times the cases of the quick tier (default 20)
	Race   bool // run in the -race build
	Serial bool // run in a single worker only

	gen    func(*rapid.T) any
	decode func([]byte) (any, error)
	run    func(any, *Obs) error
}

// New makes a Target out of a typed generator and executor.
func New[C any](name string, quick int, gen func(*rapid.T) C, run func(C, *Obs) error) *Target {
	return &Target{
		Name:  name,
		Quick: quick,
		gen:   func(t *rapid.T) any { return gen(t) },
		decode: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
		run: func(c any, o *Obs) error { return run(c.(C), o) },
	}
}

// Cases is the number of cases to run.
func (t *Target) Cases(thorough bool) int {
	n, f := t.Quick, t.Factor
	if f == 0 {
		n, f = n*3, 20
	}
	if thorough {
		n *= f
	}
	return n
}

func (t *Target) WithRace() *Target        { t.Race = true; return t }
func (t *Target) WithSerial() *Target      { t.Serial = true; return t }
func (t *Target) WithFactor(n int) *Target { t.Factor = n; return t }

// A Check decides one property.
type Check struct {
	ID          string
	Rule        string // what makes a case non-trivial
	Assumptions []string
	Targets     []*Target
	// Findings are probes for recorded defects: they report whether the defect is
	// still there exactly as recorded, or else an error if something else is wrong.
	Findings []Finding
}

// Finding is a probe for one recorded defect.
type Finding struct {
	Key   string // identifies the finding in the known-findings file
	Probe func() (present bool, what string, err error)
}

var registry = map[string]*Check{}

func Register(c *Check) {
	if registry[c.ID] != nil {
		panic("duplicate check " + c.ID)
	}
	registry[c.ID] = c
}

// Obs collects what one case exercised.
type Obs struct {
	mu         sync.Mutex
	labels     map[string]bool
	nontrivial bool
}

func (o *Obs) Label(format string, args ...any) {
	o.mu.Lock()
	if o.labels == nil {
		o.labels = map[string]bool{}
	}
	o.labels[fmt.Sprintf(format, args...)] = true
	o.mu.Unlock()
}

func (o *Obs) LabelIf(cond bool, format string, args ...any) {
	if cond {
		o.Label(format, args...)
	}
}

func (o *Obs) NonTrivial() {
	o.mu.Lock()
	o.nontrivial = true
	o.mu.Unlock()
}

// Failure is how an executor reports a violated property from deep inside.
type Failure struct{ Msg string }

func (f Failure) Error() string { return f.Msg }

// Abandon ends a case without a verdict.
type Abandon struct{ Label string }

func Failf(format string, args ...any) {
	panic(Failure{fmt.Sprintf(format, args...)})
}

// stack returns the current stack in short form.
func stack() string {
	buf := make([]byte, 8192)
	return string(buf[:runtime.Stack(buf, false)])
}

// progress counts executed cases, for the watchdog.
var progress atomic.Int64

// execute runs one case and turns every way of failing into an error.
func (t *Target) execute(c any, o *Obs) (err error) {
	defer progress.Add(1)
	defer func() {
		switch x := recover().(type) {
		case nil:
		case Failure:
			err = x
		case Abandon:
			o.Label("%s", x.Label)
		default:
			err = Failure{fmt.Sprintf("unexpected panic: %v\n%s", x, stack())}
		}
	}()
	if err := t.run(c, o); err != nil {
		return Failure{err.Error()}
	}
	return nil
}

// Try calls fn and returns the value it panicked with, if it did.
func Try(fn func()) (v any, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			v = recover()
			switch v.(type) {
			case Failure, Abandon:
				panic(v)
			}
		}
	}()
	fn()
	panicked = false
	return
}

type caseFile struct {
	Property string          `json:"property"`
	Target   string          `json:"target"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

func hash(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func fatal(code int, format string, args ...any) {
	fmt.Fprintf(os.Stderr, "ERROR: "+format+"\n", args...)
	os.Exit(code)
}

// recTB is the rapid.TB used outside "go test".
type recTB struct {
	name   string
	failed bool
	log    []string
}

type tbStop struct{}

func (t *recTB) Helper()      {}
func (t *recTB) Name() string { return t.name }
func (t *recTB) Logf(f string, a ...any) {
	if len(t.log) < 200 {
		t.log = append(t.log, fmt.Sprintf(f, a...))
	}
}
func (t *recTB) Log(a ...any)              { t.Logf("%s", fmt.Sprint(a...)) }
func (t *recTB) Skipf(f string, a ...any)  { panic(tbStop{}) }
func (t *recTB) Skip(a ...any)             { panic(tbStop{}) }
func (t *recTB) SkipNow()                  { panic(tbStop{}) }
func (t *recTB) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *recTB) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *recTB) Fatalf(f string, a ...any) { t.Logf(f, a...); t.FailNow() }
func (t *recTB) Fatal(a ...any)            { t.Log(a...); t.FailNow() }
func (t *recTB) FailNow()                  { t.failed = true; panic(tbStop{}) }
func (t *recTB) Fail()                     { t.failed = true }
func (t *recTB) Failed() bool              { return t.failed }
