package core

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// Main is the entry point of the check binary.
//
//	check run ID          run the check for a property (VERIF_SEED, VERIF_TIER)
//	check replay FILE     run one saved case
//	check needs ID        print "race" if the -race build is needed as well
//	check list            list the properties
func Main() {
	testing.Init()
	flag.CommandLine.Parse(nil)
	if len(os.Args) < 2 {
		fatal(2, "usage: check run ID | replay FILE | needs ID | list")
	}
	switch os.Args[1] {
	case "worker":
		workerMain(os.Args[2:])
	case "replay":
		replayMain(os.Args[2])
	case "needs":
		if c := registry[os.Args[2]]; c != nil {
			for _, t := range c.Targets {
				if t.Race {
					fmt.Println("race")
					return
				}
			}
		}
	case "israce":
		var cf caseFile
		if b, err := os.ReadFile(os.Args[2]); err == nil && json.Unmarshal(b, &cf) == nil {
			if t := findTarget(cf.Property, cf.Target); t != nil && t.Race {
				fmt.Println("race")
			}
		}
	case "list":
		ids := []string{}
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "run":
		runMain(os.Args[2])
	default:
		fatal(2, "unknown command %s", os.Args[1])
	}
}

func findTarget(prop, name string) *Target {
	if c := registry[prop]; c != nil {
		for _, t := range c.Targets {
			if t.Name == name {
				return t
			}
		}
	}
	return nil
}

func replayMain(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal(3, "%v", err)
	}
	var cf caseFile
	if err := json.Unmarshal(b, &cf); err != nil {
		fatal(3, "%v", err)
	}
	if key, isProbe := strings.CutPrefix(cf.Target, "probe:"); isProbe {
		for _, f := range registry[cf.Property].Findings {
			if f.Key != key {
				continue
			}
			present, what, err := f.Probe()
			if err == nil && present {
				err = fmt.Errorf("%s", what)
			}
			if err != nil {
				fmt.Printf("FAILED %s: %v\n", cf.Target, err)
				os.Exit(1)
			}
			fmt.Println("passed")
			return
		}
		fatal(3, "no probe %s", key)
	}
	t := findTarget(cf.Property, cf.Target)
	if t == nil {
		fatal(3, "no target %s of %s", cf.Target, cf.Property)
	}
	c, err := t.decode(cf.Case)
	if err != nil {
		fatal(3, "%v", err)
	}
	startWatchdog(func(what, dump string) {
		fmt.Printf("FAILED %s\n%s\n", what, dump)
		os.Exit(1)
	})
	n := 1
	if s := os.Getenv("CHECK_REPEAT"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	for i := 0; i < n; i++ {
		if err := t.execute(c, &Obs{}); err != nil {
			fmt.Printf("FAILED %s\n", err)
			os.Exit(1)
		}
	}
	fmt.Println("passed")
}

// runChild runs this or the race binary and reports how it ended.
func runChild(bin string, timeout time.Duration, env []string, args ...string) (code int, out string, timedOut bool) {
	cmd := exec.Command(bin, args...)
	var buf strings.Builder
	var mu sync.Mutex
	w := writerFunc(func(p []byte) (int, error) {
		mu.Lock()
		if buf.Len() < 1<<20 {
			buf.Write(p)
		}
		mu.Unlock()
		return len(p), nil
	})
	cmd.Stdout, cmd.Stderr = w, w
	cmd.Env = append(os.Environ(), env...)
	if err := cmd.Start(); err != nil {
		return -1, err.Error(), false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		timedOut = true
	}
	return cmd.ProcessState.ExitCode(), buf.String(), timedOut
}

type writerFunc func([]byte) (int, error)

func (f writerFunc) Write(p []byte) (int, error) { return f(p) }

// fatalCrash recognises fatal errors of the Go runtime that the code under test
// can cause and that cannot be recovered from in-process.
func fatalCrash(out string) string {
	for _, mark := range []string{
		"WARNING: DATA RACE",
		"fatal error: concurrent map",
		"fatal error: sync:",
		"fatal error: all goroutines are asleep",
		"fatal error: stack overflow",
		"goroutine stack exceeds",
		"\npanic: ",
		"panic: ",
		"[signal SIGSEGV",
	} {
		if i := strings.Index(out, mark); i >= 0 {
			// A crash is only attributed to the code under test if its frames show up.
			if !inProduct(out) {
				return ""
			}
			return out[i:]
		}
	}
	return ""
}

func runMain(id string) {
	start := time.Now()
	check := registry[id]
	if check == nil {
		fatal(2, "unknown property %s", id)
	}
	seedEnv := os.Getenv("VERIF_SEED")
	seed, err := strconv.ParseInt(seedEnv, 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "."
	}
	root, _ = filepath.Abs(root)
	bin, err := os.Executable()
	if err != nil {
		fatal(3, "%v", err)
	}
	raceBin := os.Getenv("CHECK_RACE_BIN")
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if workers < 4 {
		workers = 4 // the split of the work, and so the cases, must not depend much on the machine
	}
	if tier == "quick" {
		workers = 4
	}
	timeout := 400 * time.Second // per phase; there are at most two
	if tier == "thorough" {
		timeout = 3 * time.Hour
	}
	dir, err := os.MkdirTemp("", "morehttp-check-")
	if err != nil {
		fatal(3, "%v", err)
	}
	code := func() int {
		defer os.RemoveAll(dir)
		return runCheck(check, seed, tier, root, dir, bin, raceBin, workers, timeout, start)
	}()
	os.Exit(code)
}

func runCheck(check *Check, seed int64, tier, root, dir, bin, raceBin string, workers int, timeout time.Duration, start time.Time) int {
	id := check.ID
	var plain, race bool
	for _, t := range check.Targets {
		if t.Race {
			race = true
		} else {
			plain = true
		}
	}
	type outcome struct {
		res  *workerResult
		code int
		out  string
		late bool
		dir  string
		idx  int
		race bool
	}
	var outcomes []outcome
	phase := func(isRace bool, b string) {
		sub := filepath.Join(dir, fmt.Sprintf("race-%v", isRace))
		os.MkdirAll(sub, 0o755)
		os_ := make([]outcome, workers)
		var wg sync.WaitGroup
		for i := 0; i < workers; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				args := []string{"worker", "-prop", id, "-dir", sub, "-index", fmt.Sprint(i), "-workers", fmt.Sprint(workers), "-seed", fmt.Sprint(uint64(seed)), fmt.Sprintf("-thorough=%v", tier == "thorough"), fmt.Sprintf("-race=%v", isRace)}
				env := []string{"GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0"}
				c, out, late := runChild(b, timeout, env, args...)
				o := outcome{code: c, out: out, late: late, dir: sub, idx: i, race: isRace}
				if bs, err := os.ReadFile(filepath.Join(sub, fmt.Sprintf("result-%d.json", i))); err == nil {
					o.res = &workerResult{}
					if json.Unmarshal(bs, o.res) != nil {
						o.res = nil
					}
				}
				os_[i] = o
			}(i)
		}
		wg.Wait()
		outcomes = append(outcomes, os_...)
	}
	if plain {
		phase(false, bin)
	}
	if race {
		if raceBin == "" {
			fatal(3, "%s needs the race build (CHECK_RACE_BIN)", id)
		}
		phase(true, raceBin)
	}

	evals := map[string]int{}
	labels := map[string]map[string]int{}
	var samples []sample
	var failure *caseFile
	failRace := false
	var problem string
	distinct := map[uint64]bool{}
	for _, o := range outcomes {
		if o.res == nil || (o.code != 0 && o.res.Failure == nil) {
			if crash := fatalCrash(o.out); crash != "" && !o.late {
				if t, js, ok := readCurrentCase(filepath.Join(o.dir, fmt.Sprintf("current-%d", o.idx))); ok {
					if failure == nil {
						failure, failRace = &caseFile{id, t, crash, js}, o.race
						failure = shrinkInChildren(failure, chooseBin(o.race, bin, raceBin), dir)
					}
					continue
				}
			}
			problem = fmt.Sprintf("worker %d of %s ended with code %d (timed out: %v):\n%s", o.idx, id, o.code, o.late, o.out)
			continue
		}
		for t, n := range o.res.Evals {
			evals[t] += n
		}
		for t, m := range o.res.Labels {
			if labels[t] == nil {
				labels[t] = map[string]int{}
			}
			for l, n := range m {
				labels[t][l] += n
			}
		}
		samples = append(samples, o.res.Samples...)
		if o.res.Failure != nil && failure == nil {
			failure, failRace = o.res.Failure, o.race
		}
		if b, err := os.ReadFile(filepath.Join(o.dir, fmt.Sprintf("hashes-%d", o.idx))); err == nil {
			for ; len(b) >= 8; b = b[8:] {
				distinct[binary.LittleEndian.Uint64(b)] = true
			}
		}
	}

	// Probes of recorded defects.
	known := readKnown(filepath.Join(root, "known_findings.txt"))
	for _, f := range check.Findings {
		present, what, err := f.Probe()
		evals["probe:"+f.Key]++
		switch {
		case err != nil:
			if failure == nil {
				failure = &caseFile{id, "probe:" + f.Key, err.Error(), json.RawMessage("{}")}
			}
		case present && known[id+"/"+f.Key]:
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, what)
		case present:
			if failure == nil {
				failure = &caseFile{id, "probe:" + f.Key, what, json.RawMessage("{}")}
			}
		}
	}

	total := 0
	for _, n := range evals {
		total += n
	}
	violations := 0
	if failure != nil {
		violations = 1
	}
	if len(samples) > 6 {
		samples = samples[:6]
	}
	if samples == nil {
		samples = []sample{}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":          total,
			"distinct_nontrivial":  len(distinct),
			"rule":                 check.Rule,
			"samples":              samples,
			"evaluations_by_group": evals,
			"classes":              labels,
		},
		"assumptions": check.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	if check.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	writeJSON(filepath.Join(root, "evidence", id+".json"), ev)

	if failure != nil {
		os.MkdirAll(filepath.Join(root, "replays"), 0o755)
		rp := filepath.Join(root, "replays", fmt.Sprintf("%s-%016x.json", id, hash(append([]byte(failure.Target), failure.Case...))))
		writeJSON(rp, failure)
		fmt.Printf("%s: target %s: %s\n", id, failure.Target, firstLine(failure.Message))
		repeat := "1"
		if failRace {
			repeat = "50"
		}
		c, out, _ := runChild(chooseBin(failRace, bin, raceBin), 120*time.Second, []string{"CHECK_REPEAT=" + repeat, "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0"}, "replay", rp)
		if c == 0 {
			fmt.Printf("note: the replay in a fresh process did not fail again (schedule- or state-dependent)\n")
		} else {
			fmt.Printf("confirmed by replay in a fresh process: %s\n", firstLine(out))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	if problem != "" {
		fmt.Fprintln(os.Stderr, problem)
		return 3
	}
	fmt.Printf("%s: held on %d cases (%d distinct non-trivial), %.1fs\n", id, total, len(distinct), time.Since(start).Seconds())
	return 0
}

func chooseBin(race bool, bin, raceBin string) string {
	if race {
		return raceBin
	}
	return bin
}

// shrinkInChildren minimises a case that crashes the process, by dropping array
// elements of its JSON form as long as a child process still crashes.
func shrinkInChildren(cf *caseFile, bin, dir string) *caseFile {
	deadline := time.Now().Add(60 * time.Second)
	best := *cf
	path := filepath.Join(dir, "shrink.json")
	crashes := func(js []byte) (string, bool) {
		c := best
		c.Case = js
		writeJSON(path, &c)
		code, out, late := runChild(bin, 30*time.Second, []string{"CHECK_REPEAT=20", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0"}, "replay", path)
		if late || code == 0 {
			return "", false
		}
		msg := fatalCrash(out)
		return msg, msg != ""
	}
	for progress := true; progress && time.Now().Before(deadline); {
		progress = false
		var doc any
		dec := json.NewDecoder(strings.NewReader(string(best.Case)))
		dec.UseNumber()
		if dec.Decode(&doc) != nil {
			break
		}
		for _, cand := range dropOne(doc) {
			if time.Now().After(deadline) {
				break
			}
			js, err := json.Marshal(cand)
			if err != nil {
				continue
			}
			if msg, ok := crashes(js); ok {
				best.Case, best.Message = js, msg
				progress = true
				break
			}
		}
	}
	return &best
}

// dropOne returns all documents obtained by removing one element from one array.
func dropOne(doc any) []any {
	var out []any
	switch x := doc.(type) {
	case []any:
		for i := range x {
			y := append(append([]any{}, x[:i]...), x[i+1:]...)
			out = append(out, y)
		}
		for i := range x {
			for _, c := range dropOne(x[i]) {
				y := append([]any{}, x...)
				y[i] = c
				out = append(out, y)
			}
		}
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			for _, c := range dropOne(x[k]) {
				y := map[string]any{}
				for kk, v := range x {
					y[kk] = v
				}
				y[k] = c
				out = append(out, y)
			}
		}
	}
	return out
}

// readKnown returns the listed (not fixed) findings as "ID/key".
func readKnown(path string) map[string]bool {
	out := map[string]bool{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "finding: ")
		if !ok {
			continue
		}
		var prop, key string
		for _, f := range strings.Fields(rest) {
			if v, ok := strings.CutPrefix(f, "property="); ok {
				prop = v
			} else if v, ok := strings.CutPrefix(f, "key="); ok {
				key = v
			}
		}
		out[prop+"/"+key] = true
	}
	return out
}
