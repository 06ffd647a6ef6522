// Command simdrv drives the workers of one check: it hands out batches of
// seeds, confirms, minimises and files violations, and writes the evidence.
// It contains nothing of the code under test.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/draw"
)

type found struct {
	Case    int             `json:"case"`
	Class   string          `json:"class"`
	Msg     string          `json:"msg"`
	Choices []uint32        `json:"choices"`
	Sched   [][]schedSwitch `json:"sched,omitempty"`
	Trace   []string        `json:"trace,omitempty"`
	LogHash string          `json:"loghash"`
	Hints   json.RawMessage `json:"hints"`
	batch   int
	stderr  string
}

type schedSwitch struct {
	Step int64
	To   int32
}

type report struct {
	Cases    int              `json:"cases"`
	Runs     int64            `json:"runs"`
	Steps    int64            `json:"steps"`
	Clock    int64            `json:"clock"`
	Count    map[string]int64 `json:"count"`
	States   []uint64         `json:"states"`
	NonTriv  []uint64         `json:"nontriv"`
	Samples  []string         `json:"samples"`
	LogHash  string           `json:"loghash"`
	CaseLogs []string         `json:"caselogs"`
}

type replayFile struct {
	Property   string          `json:"property"`
	Class      string          `json:"class"`
	Message    string          `json:"message"`
	Found      string          `json:"found"`
	Seed       uint64          `json:"seed"`
	Batch      int             `json:"batch"`
	Case       int             `json:"case"`
	CaseSeed   uint64          `json:"case_seed"`
	Binary     string          `json:"binary"`
	Tier       string          `json:"tier"`
	Choices    []uint32        `json:"choices"`
	Sched      [][]schedSwitch `json:"sched,omitempty"`
	UseSched   bool            `json:"use_sched"`
	Prefix     [][]uint32      `json:"prefix,omitempty"`
	WholeBatch bool            `json:"whole_batch,omitempty"`
	Hints      json.RawMessage `json:"hints,omitempty"`
	LogHash    string          `json:"loghash"`
	Minimised  string          `json:"minimised"`
	Trace      []string        `json:"trace,omitempty"`
	Report     []string        `json:"report,omitempty"`
}

type plan struct {
	bin    string
	batch  int // cases per process
	cases  int // cases of the quick tier
	level  string
	rule   string
	real   []string
	stub   []string
	assume []string
	states string
}

const nWorkers = 8

var (
	binDir  string
	verif   string
	prop    string
	tier    string
	seed    uint64
	pl      plan
	tmp     string
	quickS  int
	thoroS  int
	started = time.Now()
)

func main() {
	flag.StringVar(&binDir, "bin", "", "")
	flag.StringVar(&verif, "verif", "/verif", "")
	flag.StringVar(&prop, "prop", "", "")
	flag.StringVar(&tier, "tier", "quick", "")
	flag.Uint64Var(&seed, "seed", 1, "")
	replay := flag.String("replay", "", "")
	factor := flag.Float64("factor", 1, "multiplies the number of cases")
	printBin := flag.Bool("which", false, "print the binary a property needs")
	flag.IntVar(&quickS, "quick-limit", 150, "wall limit of the quick exploration")
	flag.IntVar(&thoroS, "thorough-time", 660, "wall time of the thorough exploration")
	flag.Parse()
	var ok bool
	if *replay != "" {
		var rf replayFile
		b, err := os.ReadFile(*replay)
		if err != nil {
			die("%v", err)
		}
		if err := json.Unmarshal(b, &rf); err != nil {
			die("%v", err)
		}
		prop = rf.Property
		pl, ok = plans[prop]
		if !ok {
			die("unknown property %q", prop)
		}
		if *printBin {
			fmt.Println(pl.bin)
			return
		}
		tmp = mktemp()
		defer os.RemoveAll(tmp)
		doReplay(rf, *replay)
		return
	}
	pl, ok = plans[prop]
	if !ok {
		die("unknown property %q", prop)
	}
	if *printBin {
		fmt.Println(pl.bin)
		return
	}
	pl.cases = int(float64(pl.cases) * *factor)
	tmp = mktemp()
	code := explore()
	os.RemoveAll(tmp)
	os.Exit(code)
}

func mktemp() string {
	d, err := os.MkdirTemp("", "simdrv")
	if err != nil {
		die("%v", err)
	}
	return d
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simdrv: "+f+"\n", a...)
	if tmp != "" {
		os.RemoveAll(tmp)
	}
	os.Exit(2)
}

// ---- running workers ----

type outcome struct {
	v      *found
	r      *report
	last   int // last case begun
	crash  string
	stderr string
	hung   bool
}

func work(timeout time.Duration, args ...string) outcome {
	args = append([]string{"-prop", prop, "-tier", tier}, args...)
	cmd := exec.Command(filepath.Join(binDir, pl.bin), args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=4", "GOTRACEBACK=single")
	cmd.Dir = tmp
	var errb limited
	cmd.Stderr = &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	pr, pw, err := os.Pipe()
	if err != nil {
		die("%v", err)
	}
	cmd.ExtraFiles = []*os.File{pw}
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	pw.Close()
	o := outcome{last: -1}
	timer := time.AfterFunc(timeout, func() {
		o.hung = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	sc := bufio.NewReaderSize(pr, 1<<20)
	for {
		l, err := sc.ReadBytes('\n')
		if len(l) > 2 {
			switch l[0] {
			case '@':
				o.last, _ = strconv.Atoi(strings.TrimSpace(string(l[2:])))
			case 'V':
				var f found
				if json.Unmarshal(l[2:], &f) == nil && o.v == nil {
					o.v = &f
				}
			case 'R':
				var r report
				if json.Unmarshal(l[2:], &r) == nil {
					o.r = &r
				}
			}
		}
		if err != nil {
			break
		}
	}
	pr.Close()
	werr := cmd.Wait()
	timer.Stop()
	o.stderr = errb.String()
	if o.v != nil {
		o.v.stderr = o.stderr
	}
	if werr != nil && o.r == nil {
		o.crash = crashText(o.stderr, werr)
		if o.hung {
			o.crash = "no answer within " + timeout.String()
		}
	}
	return o
}

type limited struct{ b bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if k := 1<<18 - l.b.Len(); k > 0 {
		if k > len(p) {
			k = len(p)
		}
		l.b.Write(p[:k])
	}
	return len(p), nil
}
func (l *limited) String() string { return l.b.String() }

func crashText(s string, err error) string {
	for _, l := range strings.Split(s, "\n") {
		for _, p := range []string{"fatal error: ", "panic: ", "runtime: goroutine stack exceeds", "signal: "} {
			if strings.HasPrefix(l, p) {
				return l
			}
		}
	}
	return err.Error()
}

// ---- exploration ----

type known struct{ class, match, text string }

func loadKnown() []known {
	var r []known
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^KNOWN-FINDING: property=(\S+) class=(\S+) match="((?:[^"\\]|\\.)*)" (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		m := re.FindStringSubmatch(l)
		if m != nil && m[1] == prop {
			s, err := strconv.Unquote(`"` + m[3] + `"`)
			if err != nil || s == "" {
				continue
			}
			r = append(r, known{m[2], s, m[4]})
		}
	}
	return r
}

func explore() int {
	kn := loadKnown()
	for _, k := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
	}
	limit := time.Duration(quickS) * time.Second
	cases := pl.cases
	if tier == "thorough" {
		limit = time.Duration(thoroS) * time.Second
		cases = 1 << 40
	}
	var (
		mu      sync.Mutex
		wg      sync.WaitGroup
		next    int
		found_  []*found
		agg     = report{Count: map[string]int64{}}
		states  = map[uint64]bool{}
		nontriv = map[uint64]bool{}
		hashes  = map[int]string{}
		knownN  = map[string]int{}
		crashes int
	)
	stop := false
	for w := 0; w < nWorkers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next*pl.batch >= cases || time.Since(started) > limit {
					mu.Unlock()
					return
				}
				b := next
				next++
				mu.Unlock()
				from := 0
				for from < pl.batch {
					o := work(300*time.Second, "-seed", u(seed), "-batch", strconv.Itoa(b), "-from", strconv.Itoa(from), "-n", strconv.Itoa(pl.batch-from))
					if o.r == nil && o.v == nil {
						if o.last < 0 {
							mu.Lock()
							crashes++
							c := crashes
							mu.Unlock()
							if c > 2 {
								die("worker does not start: %s\n%s", o.crash, tail(o.stderr, 3000))
							}
							continue
						}
						// the process died: the case it died in is the culprit
						o.v = &found{Case: o.last, Class: "process-died", Msg: o.crash, stderr: o.stderr}
						if o.hung {
							o.v.Class = "hang"
						}
					}
					mu.Lock()
					if o.r != nil {
						agg.Cases += o.r.Cases
						agg.Runs += o.r.Runs
						agg.Steps += o.r.Steps
						agg.Clock += o.r.Clock
						for k, v := range o.r.Count {
							agg.Count[k] += v
						}
						if len(states) < 5000000 {
							for _, s := range o.r.States {
								states[s] = true
							}
						}
						for _, s := range o.r.NonTriv {
							nontriv[s] = true
						}
						if len(agg.Samples) < 4 {
							agg.Samples = append(agg.Samples, o.r.Samples...)
						}
						if from == 0 && o.v == nil {
							hashes[b] = o.r.LogHash
						}
					}
					if o.v == nil {
						mu.Unlock()
						break
					}
					isKnown := false
					for _, k := range kn {
						if k.class == o.v.Class && strings.Contains(o.v.Msg, k.match) {
							knownN[k.text]++
							isKnown = true
						}
					}
					if isKnown {
						from = o.v.Case + 1
						mu.Unlock()
						continue
					}
					o.v.batch = b
					found_ = append(found_, o.v)
					stop = true
					mu.Unlock()
					return
				}
			}
		}()
	}
	wg.Wait()
	exploreS := time.Since(started).Seconds()

	// the same seeds again must give the same executions
	redo, redoBad := 0, 0
	var badBatches []int
	if len(found_) == 0 {
		var bs []int
		for b := range hashes {
			bs = append(bs, b)
		}
		sort.Ints(bs)
		var pick []int
		for i := 0; i < len(bs) && len(pick) < nWorkers; i += 1 + len(bs)/nWorkers {
			pick = append(pick, bs[i])
		}
		var wg sync.WaitGroup
		for _, b := range pick {
			wg.Add(1)
			go func(b int) {
				defer wg.Done()
				o := work(300*time.Second, "-seed", u(seed), "-batch", strconv.Itoa(b), "-n", strconv.Itoa(pl.batch))
				mu.Lock()
				defer mu.Unlock()
				redo++
				if o.r == nil || o.r.LogHash != hashes[b] {
					redoBad++
					badBatches = append(badBatches, b)
				}
			}(b)
		}
		wg.Wait()
		if redoBad > 0 {
			if f := nondeterministic(badBatches); f != nil {
				found_ = append(found_, f)
			}
		}
	}

	viol := 0
	var lines []string
	if len(found_) > 0 {
		sort.Slice(found_, func(i, j int) bool {
			if found_[i].batch != found_[j].batch {
				return found_[i].batch < found_[j].batch
			}
			return found_[i].Case < found_[j].Case
		})
		seen := map[string]bool{}
		for _, f := range found_ {
			if seen[f.Class] || len(lines) >= 3 {
				continue
			}
			seen[f.Class] = true
			path, ok := file(f)
			if !ok {
				continue
			}
			viol++
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path))
		}
	}

	if tier == "quick" && len(found_) == 0 && next*pl.batch < cases {
		fmt.Fprintf(os.Stderr, "note: stopped by the wall limit after %d of %d cases\n", agg.Cases, cases)
	}
	faults := map[string]int64{}
	probes := map[string]int64{}
	for k, v := range agg.Count {
		if strings.HasPrefix(k, "skipped") || strings.HasPrefix(k, "probe") {
			probes[k] = v
		} else {
			faults[k] = v
		}
	}
	wall := time.Since(started).Seconds()
	samples := make([]interface{}, 0)
	for i, s := range agg.Samples {
		if i < 4 {
			samples = append(samples, s)
		}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": pl.level,
		"coverage": map[string]interface{}{
			"evaluations":         agg.Cases,
			"distinct_nontrivial": len(nontriv),
			"rule":                pl.rule,
			"samples":             samples,
			"simulated_runs":      agg.Runs,
			"runs_per_hour":       int64(float64(agg.Runs) / exploreS * 3600),
			"seeds_per_hour":      int64(float64(agg.Cases) / exploreS * 3600),
			"simulated_time": map[string]interface{}{
				"statements_executed_under_the_simulator": agg.Steps,
				"simulated_hours":                         agg.Clock / 3600000000,
				"note":                                    "a statement takes 50 ns; reads, writes, visits and system calls take from nothing to 15 minutes, a stall an hour",
			},
			"injected_and_fired":      faults,
			"other_counts":            probes,
			"distinct_states":         len(states),
			"distinct_states_measure": pl.states,
			"components_real":         pl.real,
			"components_stub":         pl.stub,
			"batches":                 next,
			"cases_per_process":       pl.batch,
			"determinism_self_test":   map[string]int{"batches_run_twice": redo, "differing": redoBad},
			"known_findings_seen":     knownN,
		},
		"wall_s":     wall,
		"violations": viol,
	}
	ev["assumptions"] = append([]string{
		"the simulated reader, writer and operating system behave as their contracts allow and nothing more",
		"seeded search: absence of violations is evidence, not proof",
	}, pl.assume...)
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	if viol > 0 {
		return 1
	}
	if len(found_) > 0 {
		fmt.Fprintln(os.Stderr, "a violation was seen once and could not be reproduced")
		return 2
	}
	if redoBad > 0 {
		fmt.Fprintf(os.Stderr, "warning: %d of %d batches ran differently the second time\n", redoBad, redo)
	}
	fmt.Printf("%s: %d cases, %d simulated runs, %d statements in %.0f s: no violation\n", prop, agg.Cases, agg.Runs, agg.Steps, exploreS)
	return 0
}

func u(v uint64) string { return strconv.FormatUint(v, 10) }

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// nondeterministic looks for a case that gives different observations in two
// fresh processes: with every source of nondeterminism simulated, the code
// under test itself must be the cause.
func nondeterministic(bs []int) *found {
	if !reportsNondeterminism[prop] {
		return nil
	}
	sort.Ints(bs)
	b := bs[0]
	var logs [][]string
	for k := 0; k < 3; k++ {
		o := work(300*time.Second, "-seed", u(seed), "-batch", strconv.Itoa(b), "-n", strconv.Itoa(pl.batch), "-caselogs")
		if o.r == nil {
			return nil
		}
		logs = append(logs, o.r.CaseLogs)
	}
	for i := range logs[0] {
		for k := 1; k < len(logs); k++ {
			if i >= len(logs[k]) || logs[k][i] != logs[0][i] {
				return &found{batch: b, Case: i, Class: "nondeterministic", Msg: fmt.Sprintf("batch %d case %d gives different results in two processes although everything it was given is the same", b, i)}
			}
		}
	}
	return nil
}

// ---- confirming, minimising, filing ----

func writeReplay(rf replayFile) string {
	f, err := os.CreateTemp(tmp, "r*.json")
	if err != nil {
		die("%v", err)
	}
	b, _ := json.Marshal(rf)
	f.Write(b)
	f.Close()
	return f.Name()
}

func try(rf replayFile, trace bool) *found {
	p := writeReplay(rf)
	defer os.Remove(p)
	args := []string{"-replay", p}
	if trace {
		args = append(args, "-trace")
	}
	o := work(120*time.Second, args...)
	return verdict(o)
}

func verdict(o outcome) *found {
	if o.v != nil {
		return o.v
	}
	if o.r == nil {
		f := &found{Class: "process-died", Msg: o.crash, stderr: o.stderr, Case: o.last}
		if o.hung {
			f.Class = "hang"
		}
		return f
	}
	return nil
}

func caseSeed(b, i int) uint64 {
	h := uint64(0xcbf29ce484222325)
	for k := 0; k < len(prop); k++ {
		h = (h ^ uint64(prop[k])) * 0x100000001b3
	}
	return draw.Mix(seed, h, uint64(b), uint64(i))
}

func file(f *found) (string, bool) {
	rf := replayFile{Property: prop, Class: f.Class, Message: f.Msg, Seed: seed, Batch: f.batch, Case: f.Case, CaseSeed: caseSeed(f.batch, f.Case), Binary: pl.bin, Tier: tier, Hints: f.Hints}
	rf.Found = fmt.Sprintf("seed %d, batch %d, case %d", seed, f.batch, f.Case)
	deadline := time.Now().Add(60 * time.Second)
	if tier == "thorough" {
		deadline = time.Now().Add(100 * time.Second)
	}
	if f.Class == "nondeterministic" {
		rf.WholeBatch = true
		rf.Minimised = "not minimised: the same seeds give different results from process to process"
		return save(rf), true
	}
	// choices of a case that died are not known: run it again from its seed
	alone := work(300*time.Second, "-seed", u(seed), "-batch", strconv.Itoa(f.batch), "-from", strconv.Itoa(f.Case), "-n", "1")
	v := verdict(alone)
	if v == nil || v.Class != f.Class {
		// it takes the cases before it
		for k := 0; k < 3; k++ {
			o := work(300*time.Second, "-seed", u(seed), "-batch", strconv.Itoa(f.batch), "-n", strconv.Itoa(f.Case+1))
			w := verdict(o)
			if w != nil && w.Class == f.Class {
				rf.WholeBatch = true
				rf.Case = w.Case
				rf.Message = w.Msg
				rf.LogHash = w.LogHash
				rf.Report = lines(w.stderr)
				rf = shrinkPrefix(rf, w, deadline)
				return save(rf), true
			}
		}
		fmt.Fprintf(os.Stderr, "not reproduced: %s (%s): %s\n", rf.Found, f.Class, f.Msg)
		return "", false
	}
	if len(v.Choices) == 0 {
		// died: find the choices by drawing them in a harmless way is not
		// possible, so the seed is the replay
		rf.WholeBatch = true
		rf.Message = v.Msg
		rf.Report = lines(v.stderr)
		rf.Minimised = "the process dies, so the case is replayed from its seed alone"
		rf.Prefix = nil
		return save(rf), true
	}
	rf.Choices, rf.Sched = v.Choices, v.Sched
	rf = shrink(rf, deadline)
	w := try(rf, true)
	if w == nil || w.Class != rf.Class {
		fmt.Fprintf(os.Stderr, "minimised case lost: %s\n", rf.Found)
		rf.Choices, rf.Sched, rf.UseSched = v.Choices, v.Sched, false
		w = try(rf, true)
		if w == nil {
			return "", false
		}
	}
	rf.Message, rf.LogHash, rf.Trace = w.Msg, w.LogHash, w.Trace
	if rf.Class == "data-race" {
		rf.Report = lines(w.stderr)
	}
	return save(rf), true
}

func lines(s string) []string { return strings.Split(tail(s, 6000), "\n") }

func save(rf replayFile) string {
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0o755)
	h := fnv.New32a()
	fmt.Fprint(h, rf.Choices, rf.Batch, rf.Case, rf.Seed)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%08x.json", prop, clean(rf.Class), h.Sum32()))
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(p, append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("%s: %s\n", rf.Class, rf.Message)
	return p
}

func clean(s string) string {
	return regexp.MustCompile(`[^A-Za-z0-9_-]+`).ReplaceAllString(s, "_")
}

// shrinkPrefix is for violations that need earlier cases in the process: it
// drops leading cases while the violation stays.
func shrinkPrefix(rf replayFile, f *found, deadline time.Time) replayFile {
	rf.Minimised = "the batch is replayed from its seed up to the failing case"
	return rf
}

// shrink minimises the choices, then the schedule, keeping the class.
func shrink(rf replayFile, deadline time.Time) replayFile {
	orig := len(rf.Choices)
	tries := 0
	ok := func(c []uint32) bool {
		r := rf
		r.Choices, r.UseSched, r.Sched = c, false, nil
		v := try(r, false)
		return v != nil && v.Class == rf.Class
	}
	// several candidates at a time; the first in order that works is taken
	first := func(cands [][]uint32) int {
		res := make([]bool, len(cands))
		var wg sync.WaitGroup
		sem := make(chan bool, nWorkers)
		for i := range cands {
			wg.Add(1)
			sem <- true
			go func(i int) {
				defer wg.Done()
				res[i] = ok(cands[i])
				<-sem
			}(i)
		}
		wg.Wait()
		tries += len(cands)
		for i, r := range res {
			if r {
				return i
			}
		}
		return -1
	}
	cur := rf.Choices
	for improved := true; improved && time.Now().Before(deadline); {
		improved = false
		// drop blocks
		for size := max(1, len(cur)/2); size >= 1 && time.Now().Before(deadline); size /= 2 {
			for lo := 0; lo < len(cur) && time.Now().Before(deadline); {
				var cands [][]uint32
				var los []int
				for k := 0; k < nWorkers && lo+k*size < len(cur); k++ {
					a := lo + k*size
					b := min(len(cur), a+size)
					c := append(append([]uint32{}, cur[:a]...), cur[b:]...)
					cands = append(cands, c)
					los = append(los, a)
				}
				if i := first(cands); i >= 0 {
					cur = cands[i]
					lo = los[i]
					improved = true
				} else {
					lo += nWorkers * size
				}
			}
		}
		// zero or lower single values
		for lo := 0; lo < len(cur) && time.Now().Before(deadline); lo++ {
			if cur[lo] == 0 {
				continue
			}
			var cands [][]uint32
			for _, v := range []uint32{0, 1, cur[lo] / 2, cur[lo] - 1} {
				if v < cur[lo] {
					c := append([]uint32{}, cur...)
					c[lo] = v
					cands = append(cands, c)
				}
			}
			if i := first(cands); i >= 0 {
				cur = cands[i]
				improved = true
			}
		}
		if len(cur) > 0 && cur[len(cur)-1] == 0 {
			c := cur
			for len(c) > 0 && c[len(c)-1] == 0 {
				c = c[:len(c)-1]
			}
			if first([][]uint32{c}) == 0 {
				cur = c
			}
		}
	}
	rf.Choices = cur
	// now fix the schedule and drop switches
	r := rf
	r.UseSched, r.Sched = false, nil
	v := try(r, false)
	nsw := 0
	if v != nil && v.Class == rf.Class {
		rf.Sched = v.Sched
		for _, s := range rf.Sched {
			nsw += len(s)
		}
	}
	after := nsw
	if nsw > 1 {
		okS := func(s [][]schedSwitch) bool {
			r := rf
			r.UseSched, r.Sched = true, s
			v := try(r, false)
			tries++
			return v != nil && v.Class == rf.Class
		}
		if okS(rf.Sched) {
			rf.UseSched = true
			best := rf.Sched
			for e := range best {
				for size := max(1, len(best[e])/2); size >= 1 && time.Now().Before(deadline); size /= 2 {
					for lo := 0; lo < len(best[e]) && time.Now().Before(deadline); {
						c := append([][]schedSwitch{}, best...)
						hi := min(len(best[e]), lo+size)
						c[e] = append(append([]schedSwitch{}, best[e][:lo]...), best[e][hi:]...)
						if okS(c) {
							best = c
						} else {
							lo = hi
						}
					}
				}
			}
			rf.Sched = best
			after = 0
			for _, s := range best {
				after += len(s)
			}
		}
	} else {
		rf.UseSched = false
		rf.Sched = nil
	}
	rf.Minimised = fmt.Sprintf("choices %d -> %d, context switches %d -> %d, %d replays", orig, len(cur), nsw, after, tries)
	return rf
}

func doReplay(rf replayFile, path string) {
	seed, tier = rf.Seed, rf.Tier
	var v *found
	if rf.Class == "nondeterministic" {
		v = nondeterministic([]int{rf.Batch})
	} else if rf.WholeBatch {
		from, n := 0, rf.Case+1
		if strings.Contains(rf.Minimised, "alone") {
			from, n = rf.Case, 1
		}
		v = verdict(work(300*time.Second, "-seed", u(seed), "-batch", strconv.Itoa(rf.Batch), "-from", strconv.Itoa(from), "-n", strconv.Itoa(n)))
	} else {
		v = try(rf, true)
	}
	if v == nil {
		fmt.Printf("%s: the replay shows no violation on this tree\n", rf.Property)
		os.RemoveAll(tmp)
		os.Exit(0)
	}
	for _, t := range v.Trace {
		fmt.Println(t)
	}
	if v.stderr != "" {
		io.WriteString(os.Stdout, tail(v.stderr, 6000)+"\n")
	}
	same := "same execution as recorded"
	if v.LogHash != rf.LogHash {
		same = "execution differs from the recorded one"
	}
	fmt.Printf("%s: %s\n", v.Class, v.Msg)
	fmt.Printf("log hash %s (%s)\n", v.LogHash, same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	os.RemoveAll(tmp)
	os.Exit(1)
}
