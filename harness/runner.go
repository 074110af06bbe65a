package main

// Supervisor: cases of a property are spread over worker processes. A worker
// that dies (stack overflow, out of memory, fatal error) or stops making
// progress is a failure of the case it was running, once that is confirmed by
// running the case again on its own.

import (
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

const (
	hangCPU      = 40.0  // CPU seconds a case may take in a shared worker
	hangCPUAlone = 90.0  // and on its own
	hangWall     = 400.0 // wall seconds without progress, such as a dead lock
	maxWorkerMem = 6 << 30
)

type ReplayFile struct {
	Property string
	Seed     int
	Tier     string
	Case     int // index of the case, when the choices could not be recorded
	Choices  []uint64
	Message  string
	Log      []string
}

type WorkerResult struct {
	Done       bool
	Cases      int
	Discarded  int
	NonTrivial int
	Hashes     []uint64
	Labels     map[string]int
	Samples    []Sample
	Knowns     map[string]string
	Failure    *ReplayFile
}

type Sample struct {
	Case int      `json:"case"`
	Ops  []string `json:"ops"`
}

func main() {
	var (
		prop    = flag.String("prop", "", "property")
		tier    = flag.String("tier", "quick", "quick or thorough")
		seed    = flag.Int("seed", 1, "seed")
		scratch = flag.String("scratch", "", "scratch directory")
		known   = flag.String("known", "", "known findings file")
		out     = flag.String("evidence", "", "evidence file to write")
		replays = flag.String("replays", "", "directory of replay files")
		replay  = flag.String("replay", "", "replay file to run")
		worker  = flag.Int("worker", -1, "internal: worker number")
		workers = flag.Int("workers", 0, "number of workers")
		only    = flag.Int("only", -1, "run a single case")
		cases   = flag.Int("cases", 0, "number of cases, instead of the tier's")
		maxWall = flag.Float64("wall", 0, "stop generating after that many seconds")
		list    = flag.Bool("list", false, "list properties")
	)
	save := flag.String("save-without", "", "internal: save a key pair while something fails")
	flag.Parse()

	if *save != "" {
		saveWithout(*save)
	}
	if *list {
		ids := []string{}
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}

	p := props[*prop]
	if p == nil {
		fatal("no property %q", *prop)
	}
	if *scratch == "" {
		fatal("-scratch is required")
	}
	etcRoot = filepath.Join(filepath.Dir(*scratch), "etc")
	readKnown(*known, p.ID)

	n := p.Quick
	wall := 240.0
	if *tier == "thorough" {
		n = p.Thorough
		wall = 780.0
	}
	if *cases > 0 {
		n = *cases
	}
	if *maxWall > 0 {
		wall = *maxWall
	}

	nw := *workers
	if nw == 0 {
		nw = p.Workers
	}
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}

	switch {
	case *replay != "":
		os.Exit(runReplay(p, *replay, *scratch, *tier, *seed))
	case *worker >= 0 || *only >= 0:
		runWorker(p, *tier, *seed, n, nw, *worker, *only, *scratch, wall)
	default:
		os.Exit(supervise(p, *tier, *seed, n, nw, *scratch, *known, *out, *replays, wall))
	}
}

func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "verif: "+format+"\n", a...)
	os.Exit(2)
}

func caseSeed(p *Prop, seed, idx int) uint64 { return mix("case", p.ID, ":", seed, ":", idx) }

func readKnown(path, id string) {
	if path == "" {
		return
	}
	data, err := ioutil.ReadFile(path)
	if err != nil {
		fatal("%s", err)
	}
	for _, line := range strings.Split(string(data), "\n") {
		// known: property=C05 id=<id> <description>
		f := strings.Fields(line)
		if len(f) < 4 || f[0] != "known:" || f[1] != "property="+id || !strings.HasPrefix(f[2], "id=") {
			continue
		}
		knownFindings[f[2][3:]] = strings.Join(f[3:], " ")
	}
}

////////////////////////////////////////////////////////////////////////////////
// worker

type status struct{ f *os.File }

func (s *status) set(idx, attempt int) {
	s.f.WriteAt([]byte(fmt.Sprintf("%-12d %-12d\n", idx, attempt)), 0)
}

func writeJSON(path string, v interface{}) {
	data, err := json.Marshal(v)
	if err != nil {
		fatal("%s", err)
	}
	if err = ioutil.WriteFile(path+".new", data, 0644); err == nil {
		err = os.Rename(path+".new", path)
	}
	if err != nil {
		fatal("%s", err)
	}
}

func limitMemory() {
	if !raceDetector { // which needs address space
		lim := &syscall.Rlimit{Cur: maxWorkerMem, Max: maxWorkerMem}
		syscall.Setrlimit(syscall.RLIMIT_AS, lim)
	}
	syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{Cur: 0, Max: 0})
	debug.SetGCPercent(200)
	debug.SetMaxStack(256 << 20)
	runtime.GOMAXPROCS(2)
}

func runWorker(p *Prop, tier string, seed, n, nw, worker, only int, scratch string, wall float64) {

	limitMemory()
	name := fmt.Sprintf("w%d", worker)
	if only >= 0 {
		name = fmt.Sprintf("only%d", only)
	}
	caseScratch = filepath.Join(scratch, name)
	if err := os.MkdirAll(caseScratch, 0755); err != nil {
		fatal("%s", err)
	}
	sf, err := os.Create(filepath.Join(scratch, name+".status"))
	if err != nil {
		fatal("%s", err)
	}
	st := &status{sf}
	resPath := filepath.Join(scratch, name+".json")

	// what the code under test prints is of no interest
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}

	res := &WorkerResult{Labels: map[string]int{}, Knowns: map[string]string{}}
	seen := map[uint64]bool{}
	start := time.Now()

	first, step := worker, nw
	if only >= 0 {
		first, step, n = only, 1, only+1
	}
	for idx := first; idx < n; idx += step {
		if time.Since(start).Seconds() > wall {
			break
		}
		st.set(idx, 0)
		o := runCase(p, caseSeed(p, seed, idx), nil)
		res.Cases += 1
		if o.Discarded {
			res.Discarded += 1
			continue
		}
		for l, c := range o.Labels {
			if c > 0 {
				res.Labels[l] += 1
			}
		}
		for k, v := range o.Knowns {
			res.Knowns[k] = v
		}
		if o.NonTrivial && !seen[o.hash()] {
			seen[o.hash()] = true
			if len(res.Samples) < 2 && len(o.Log) > 0 {
				lg := o.Log
				if len(lg) > 40 {
					lg = append(append([]string{}, lg[:40]...), fmt.Sprintf("... and %d more", len(lg)-40))
				}
				res.Samples = append(res.Samples, Sample{idx, lg})
			}
		}
		if o.Failed {
			mk := func(o *Outcome) *ReplayFile {
				return &ReplayFile{Property: p.ID, Seed: seed, Tier: tier, Case: idx, Choices: o.Choices, Message: o.Message, Log: o.Log}
			}
			res.Failure = mk(o)
			writeJSON(resPath, res)
			attempts := 0
			shrinkStart := time.Now()
			best := shrink(p, o,
				func(o *Outcome) { res.Failure = mk(o); writeJSON(resPath, res) },
				func() { attempts += 1; st.set(idx, attempts) },
				func() bool { return time.Since(shrinkStart).Seconds() > 25 })
			res.Failure = mk(best)
			break
		}
	}
	for h := range seen {
		res.Hashes = append(res.Hashes, h)
	}
	res.Done = true
	writeJSON(resPath, res)
	os.Exit(0)
}

////////////////////////////////////////////////////////////////////////////////
// supervisor

type proc struct {
	worker   int
	cmd      *exec.Cmd
	name     string
	scratch  string
	done     chan error
	lastStat string
	baseCPU  float64
	baseWall time.Time
	stderr   string
}

func startWorker(args []string, name, scratch string) *proc {
	pr := &proc{name: name, scratch: scratch, done: make(chan error, 1), baseWall: time.Now()}
	pr.stderr = filepath.Join(scratch, name+".stderr")
	ef, err := os.Create(pr.stderr)
	if err != nil {
		fatal("%s", err)
	}
	self, err := os.Executable()
	if err != nil {
		fatal("%s", err)
	}
	cmd := exec.Command(self, args...)
	cmd.Stderr = ef
	cmd.Env = append(os.Environ(), "GORACE=exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+filepath.Join(scratch, name, "race"))
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		fatal("%s", err)
	}
	ef.Close()
	pr.cmd = cmd
	go func() { pr.done <- cmd.Wait() }()
	return pr
}

func (pr *proc) kill() {
	syscall.Kill(-pr.cmd.Process.Pid, syscall.SIGKILL)
}

func (pr *proc) stat() string {
	data, _ := ioutil.ReadFile(filepath.Join(pr.scratch, pr.name+".status"))
	return string(data)
}

func (pr *proc) caseIdx() int {
	f := strings.Fields(pr.stat())
	if len(f) < 2 {
		return -1
	}
	i, err := strconv.Atoi(f[0])
	if err != nil {
		return -1
	}
	return i
}

func (pr *proc) result() *WorkerResult {
	data, err := ioutil.ReadFile(filepath.Join(pr.scratch, pr.name+".json"))
	if err != nil {
		return nil
	}
	res := &WorkerResult{}
	if json.Unmarshal(data, res) != nil {
		return nil
	}
	return res
}

func cpuSeconds(pid int) float64 {
	data, err := ioutil.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(data)
	if i := strings.LastIndex(s, ")"); i >= 0 {
		f := strings.Fields(s[i+1:])
		if len(f) > 13 {
			u, _ := strconv.ParseFloat(f[11], 64)
			k, _ := strconv.ParseFloat(f[12], 64)
			return (u + k) / 100
		}
	}
	return 0
}

// stuck reports whether the process has made no progress for too long
func (pr *proc) stuck(limit float64) bool {
	s := pr.stat()
	cpu := cpuSeconds(pr.cmd.Process.Pid)
	if s != pr.lastStat || cpu == 0 {
		pr.lastStat, pr.baseCPU, pr.baseWall = s, cpu, time.Now()
		return false
	}
	// mostly idle for a long time is a dead lock; a loaded machine still gives some CPU
	idle := time.Since(pr.baseWall).Seconds() > hangWall && cpu-pr.baseCPU < 1
	return cpu-pr.baseCPU > limit || idle
}

func supervise(p *Prop, tier string, seed, n, nw int, scratch, known, out, replays string, wall float64) int {

	begin := time.Now()
	common := []string{"-prop", p.ID, "-tier", tier, "-seed", strconv.Itoa(seed), "-scratch", scratch,
		"-known", known, "-workers", strconv.Itoa(nw), "-cases", strconv.Itoa(n), "-wall", fmt.Sprint(wall)}

	running := map[int]*proc{}
	for w := 0; w < nw; w++ {
		running[w] = startWorker(append(append([]string{}, common...), "-worker", strconv.Itoa(w)), fmt.Sprintf("w%d", w), scratch)
	}
	killAll := func() {
		for _, pr := range running {
			pr.kill()
		}
		for _, pr := range running {
			<-pr.done
		}
		running = map[int]*proc{}
	}

	results := []*WorkerResult{}
	var fail *ReplayFile
	trouble := ""

	confirm := func(idx int, how string, pr *proc) {
		// the case alone, to be certain that it is the case which does that
		alone := startWorker(append(append([]string{}, common...), "-only", strconv.Itoa(idx)), fmt.Sprintf("only%d", idx), scratch)
		tick := time.NewTicker(200 * time.Millisecond)
		defer tick.Stop()
		for {
			select {
			case err := <-alone.done:
				res := alone.result()
				if res != nil && res.Failure != nil {
					fail = res.Failure
				} else if err != nil {
					fail = &ReplayFile{Property: p.ID, Seed: seed, Tier: tier, Case: idx,
						Message: fmt.Sprintf("the process running the case died (%s): %s", err, tail(alone.stderr))}
				} else {
					trouble = fmt.Sprintf("worker %s, which did not happen again when case %d ran alone: %s", how, idx, tail(pr.stderr))
				}
				return
			case <-tick.C:
				if alone.stuck(hangCPUAlone) {
					alone.kill()
					<-alone.done
					res := alone.result()
					if res != nil && res.Failure != nil {
						fail = res.Failure
					} else {
						fail = &ReplayFile{Property: p.ID, Seed: seed, Tier: tier, Case: idx,
							Message: "the case does not terminate"}
					}
					return
				}
			}
		}
	}

	for len(running) > 0 && fail == nil && trouble == "" {
		time.Sleep(30 * time.Millisecond)
		for w, pr := range running {
			select {
			case err := <-pr.done:
				delete(running, w)
				res := pr.result()
				if res != nil && (res.Done || res.Failure != nil) {
					results = append(results, res)
					if res.Failure != nil {
						fail = res.Failure
					}
				} else if idx := pr.caseIdx(); idx < 0 {
					trouble = fmt.Sprintf("worker %d did not start: %v %s", w, err, tail(pr.stderr))
				} else {
					confirm(idx, fmt.Sprintf("died (%v)", err), pr)
				}
			default:
				if pr.stuck(hangCPU) {
					idx := pr.caseIdx()
					pr.kill()
					<-pr.done
					delete(running, w)
					if res := pr.result(); res != nil && res.Failure != nil {
						results = append(results, res)
						fail = res.Failure
					} else {
						confirm(idx, "hung", pr)
					}
				}
			}
			if fail != nil || trouble != "" {
				break
			}
		}
	}
	killAll()

	if trouble != "" && fail == nil {
		fmt.Fprintf(os.Stderr, "verif: %s: no answer: %s\n", p.ID, trouble)
		return 2
	}

	// merge
	total := &WorkerResult{Labels: map[string]int{}, Knowns: map[string]string{}}
	distinct := map[uint64]bool{}
	for _, r := range results {
		total.Cases += r.Cases
		total.Discarded += r.Discarded
		for l, c := range r.Labels {
			total.Labels[l] += c
		}
		for k, v := range r.Knowns {
			total.Knowns[k] = v
		}
		for _, h := range r.Hashes {
			distinct[h] = true
		}
		total.Samples = append(total.Samples, r.Samples...)
	}
	sort.Slice(total.Samples, func(i, j int) bool { return total.Samples[i].Case < total.Samples[j].Case })
	if len(total.Samples) > 5 {
		total.Samples = total.Samples[:5]
	}

	violations := 0
	if fail != nil {
		violations = 1
	}
	if out != "" {
		samples := []interface{}{}
		for _, s := range total.Samples {
			samples = append(samples, s)
		}
		ev := map[string]interface{}{
			"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
			"coverage": map[string]interface{}{
				"evaluations":         total.Cases,
				"distinct_nontrivial": len(distinct),
				"rule":                p.Rule,
				"samples":             samples,
				"discarded":           total.Discarded,
				"classes":             total.Labels,
				"known_findings_seen": total.Knowns,
			},
			"assumptions": append([]string{}, p.Assume...),
			"wall_s":      time.Since(begin).Seconds(),
			"violations":  violations,
		}
		data, err := json.MarshalIndent(ev, "", " ")
		if err == nil {
			err = ioutil.WriteFile(out, append(data, '\n'), 0644)
		}
		if err != nil {
			fatal("%s", err)
		}
	}

	ks := []string{}
	for k := range total.Knowns {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, k, total.Knowns[k])
	}

	if fail != nil {
		path := filepath.Join(replays, fmt.Sprintf("%s-seed%d-case%d.json", p.ID, fail.Seed, fail.Case))
		data, _ := json.MarshalIndent(fail, "", " ")
		if err := os.MkdirAll(replays, 0755); err != nil {
			fatal("%s", err)
		}
		if err := ioutil.WriteFile(path, append(data, '\n'), 0644); err != nil {
			fatal("%s", err)
		}
		for _, l := range fail.Log {
			fmt.Printf("  %s\n", l)
		}
		fmt.Printf("%s\n", fail.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}

	fmt.Printf("%s: %d cases, %d distinct and non-trivial, no violation, %.1f s\n", p.ID, total.Cases, len(distinct), time.Since(begin).Seconds())
	return 0
}

func tail(path string) string {
	data, _ := ioutil.ReadFile(path)
	lines := strings.Split(string(data), "\n")
	if len(lines) > 14 {
		lines = lines[:14]
	}
	return strings.Join(lines, "\n")
}

func runReplay(p *Prop, path, scratch, tier string, seed int) int {
	data, err := ioutil.ReadFile(path)
	if err != nil {
		fatal("%s", err)
	}
	rf := &ReplayFile{}
	if err := json.Unmarshal(data, rf); err != nil {
		fatal("%s", err)
	}
	limitMemory()
	caseScratch = filepath.Join(scratch, "replay")
	os.MkdirAll(caseScratch, 0755)
	var o *Outcome
	if rf.Choices != nil {
		o = runCase(p, 0, rf.Choices)
	} else {
		o = runCase(p, caseSeed(p, rf.Seed, rf.Case), nil)
	}
	for _, l := range o.Log {
		fmt.Printf("  %s\n", l)
	}
	if o.Failed {
		fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", o.Message, p.ID, path)
		return 1
	}
	fmt.Printf("%s: the replayed case passes\n", p.ID)
	return 0
}
