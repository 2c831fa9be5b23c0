package core

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/metrics"
	"strconv"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

type sample struct {
	Target string          `json:"target"`
	Case   json.RawMessage `json:"case"`
}

type workerResult struct {
	Evals   map[string]int            `json:"evals"`
	Labels  map[string]map[string]int `json:"labels"`
	Samples []sample                  `json:"samples"`
	Failure *caseFile                 `json:"failure,omitempty"`
	Log     []string                  `json:"log,omitempty"`
}

// currentCase is a file holding the case being executed, so that the parent can
// attribute a crash of this process.
type currentCase struct{ f *os.File }

func (cc *currentCase) set(target string, js []byte) {
	if cc == nil || cc.f == nil {
		return
	}
	buf := make([]byte, 0, 12+len(target)+len(js))
	buf = binary.LittleEndian.AppendUint32(buf, uint32(len(target)))
	buf = binary.LittleEndian.AppendUint32(buf, uint32(len(js)))
	buf = append(buf, target...)
	buf = append(buf, js...)
	cc.f.WriteAt(buf, 0)
}

func readCurrentCase(path string) (target string, js []byte, ok bool) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return
	}
	n := int(binary.LittleEndian.Uint32(b))
	m := int(binary.LittleEndian.Uint32(b[4:]))
	if len(b) < 8+n+m {
		return
	}
	return string(b[8 : 8+n]), b[8+n : 8+n+m], true
}

const maxSampleLen = 1500

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("prop", "", "")
	dir := fs.String("dir", "", "")
	index := fs.Int("index", 0, "")
	workers := fs.Int("workers", 1, "")
	seed := fs.Uint64("seed", 1, "")
	thorough := fs.Bool("thorough", false, "")
	race := fs.Bool("race", false, "")
	fs.Parse(args)

	check := registry[*id]
	os.Chdir(*dir) // rapid looks for fail files below the working directory
	cf, err := os.Create(filepath.Join(*dir, fmt.Sprintf("current-%d", *index)))
	if err != nil {
		fatal(3, "%v", err)
	}
	cc := &currentCase{cf}
	resPath := filepath.Join(*dir, fmt.Sprintf("result-%d.json", *index))
	res := &workerResult{Evals: map[string]int{}, Labels: map[string]map[string]int{}}
	seen := map[uint64]bool{}

	startWatchdog(func(what, dump string) {
		target, js, ok := readCurrentCase(cf.Name())
		if !ok {
			fatal(3, "%s, outside a case\n%s", what, dump)
		}
		writeJSON(resPath, &workerResult{Failure: &caseFile{check.ID, target, what + "\n" + dump, js}})
		os.Exit(0)
	})

	for ti, t := range check.Targets {
		if t.Race != *race || (t.Serial && *index != 0) {
			continue
		}
		n := t.Cases(*thorough)
		if f, err := strconv.ParseFloat(os.Getenv("CHECK_SCALE"), 64); err == nil { // for experiments
			n = int(float64(n)*f) + 1
		}
		if !t.Serial {
			n = (n + *workers - 1) / *workers
		}
		s := *seed*1_000_003 + uint64(ti)*7919 + uint64(*index)*104729 + 1
		if *race {
			s += 500_009
		}
		flag.Set("rapid.seed", fmt.Sprint(s))
		flag.Set("rapid.checks", fmt.Sprint(n))
		flag.Set("rapid.nofailfile", "true")
		shrink := os.Getenv("CHECK_SHRINKTIME")
		if shrink == "" {
			shrink = "20s"
		}
		flag.Set("rapid.shrinktime", shrink)
		labels := map[string]int{}
		res.Labels[t.Name] = labels
		var last *caseFile
		samples := 0
		tb := &recTB{name: t.Name}
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(tbStop); !ok {
						panic(x)
					}
				}
			}()
			rapid.Check(tb, func(rt *rapid.T) {
				c := t.gen(rt)
				js, err := json.Marshal(c)
				if err != nil {
					fatal(3, "case of %s cannot be encoded: %v", t.Name, err)
				}
				cc.set(t.Name, js)
				o := &Obs{}
				err = t.execute(c, o)
				if last == nil { // not while shrinking
					res.Evals[t.Name]++
					for l := range o.labels {
						labels[l]++
					}
					if o.nontrivial {
						labels["(non-trivial)"]++
						seen[hash(append([]byte(t.Name+"|"), js...))] = true
						if k := labels["(non-trivial)"]; samples < 2 && len(js) < maxSampleLen && *index == 0 && (k == 1 || k >= 12) {
							samples++
							res.Samples = append(res.Samples, sample{t.Name, js})
						}
					}
				}
				if err != nil {
					last = &caseFile{check.ID, t.Name, err.Error(), js}
					rt.Fatalf("property failed")
				}
			})
		}()
		if last != nil {
			res.Failure = last
			break
		}
		if tb.failed {
			fatal(3, "rapid could not run target %s: %s", t.Name, strings.Join(tb.log, "\n"))
		}
	}

	hashes := make([]byte, 0, 8*len(seen))
	for h := range seen {
		hashes = binary.LittleEndian.AppendUint64(hashes, h)
	}
	os.WriteFile(filepath.Join(*dir, fmt.Sprintf("hashes-%d", *index)), hashes, 0o644)
	writeJSON(resPath, res)
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(path+".tmp", b, 0o644)
	}
	if err == nil {
		err = os.Rename(path+".tmp", path)
	}
	if err != nil {
		fatal(3, "writing %s: %v", path, err)
	}
}

var goroutineHead = regexp.MustCompile(`^goroutine \d+(?: gp=\S+ m=\S+(?: mp=\S+)?)? \[([^\],]+)`)

// blocked classifies a dump of all goroutines: it reports true if no goroutine
// that belongs to the case can run and at least one of them waits for a mutex
// inside the code under test.
func blocked(dump string) bool {
	mutex := false
	for _, g := range strings.Split(dump, "\n\n") {
		m := goroutineHead.FindStringSubmatch(g)
		if m == nil || strings.Contains(g, "core.startWatchdog") {
			continue
		}
		if !strings.Contains(g, "morehttp/") {
			continue
		}
		switch st := m[1]; st {
		case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "semacquire":
			for _, line := range strings.Split(g, "\n") {
				if inProduct(line) {
					mutex = true
				}
			}
		case "sync.WaitGroup.Wait", "chan receive", "chan send", "select", "sync.Cond.Wait", "select (no cases)", "chan receive (nil chan)", "chan send (nil chan)":
		default: // running, runnable, sleep, IO wait, syscall, ...
			return false
		}
	}
	return mutex
}

func allStacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// busyInside reports whether a goroutine is running inside the code under test.
func busyInside(dump string) bool {
	for _, g := range strings.Split(dump, "\n\n") {
		m := goroutineHead.FindStringSubmatch(g)
		if m == nil || (m[1] != "running" && m[1] != "runnable") || strings.Contains(g, "core.startWatchdog") {
			continue
		}
		if inProduct(g) {
			return true
		}
	}
	return false
}

func inProduct(s string) bool {
	return strings.Contains(s, "morehttp/body.") || strings.Contains(s, "morehttp/response.") || strings.Contains(s, "morehttp/handler.") || strings.Contains(s, "morehttp/internal/")
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func heapBytes() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

const (
	// A case costs milliseconds (the largest well under a second), so this much
	// processor time in one case, or this much memory, is a call that never ends.
	hangCPU  = 60 * time.Second
	hangHeap = 5 << 30
)

// startWatchdog reports a case that will never end: all of its goroutines are
// blocked, at least one of them on a mutex inside the code under test; or it
// uses up processor time or memory without end inside the code under test.
func startWatchdog(report func(what, dump string)) {
	go func() {
		lastSeen, since, cpu := progress.Load(), time.Now(), cpuTime()
		for i := 0; ; i++ {
			time.Sleep(100 * time.Millisecond)
			if p := progress.Load(); p != lastSeen {
				lastSeen, since, cpu = p, time.Now(), cpuTime()
				continue
			}
			if time.Since(since) < time.Second {
				continue
			}
			if h := heapBytes(); h > hangHeap {
				if d := allStacks(); busyInside(d) && progress.Load() == lastSeen {
					report(fmt.Sprintf("endless operation: the case has used %d MiB of memory and is still inside an operation", h>>20), d)
				}
			}
			if i%5 != 0 {
				continue
			}
			if time.Since(since) < 5*time.Second {
				continue
			}
			d1 := allStacks()
			if blocked(d1) {
				time.Sleep(time.Second)
				if d2 := allStacks(); progress.Load() == lastSeen && blocked(d2) {
					report("deadlock: all goroutines of the case are blocked", d2)
				}
				continue
			}
			if used := cpuTime() - cpu; used > hangCPU {
				busy := true
				var d string
				for k := 0; k < 5 && busy; k++ {
					d = allStacks()
					busy = busyInside(d)
					time.Sleep(200 * time.Millisecond)
				}
				if busy && progress.Load() == lastSeen {
					report(fmt.Sprintf("endless operation: one case has run for %v of processor time and is still inside an operation", used.Round(time.Second)), d)
				}
			}
		}
	}()
}
