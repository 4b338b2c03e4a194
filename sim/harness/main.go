// The coordinator, the workers, minimisation and replay.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"gosim/core"

	log "github.com/sirupsen/logrus"
)

type scenario struct {
	name   string
	weight int
	fn     func()
}

type property struct {
	id    string
	level string
	runs  int // quick tier
	scen  []scenario
	real  string
	notes []string
}

var props []*property

func register(p *property) { props = append(props, p) }

func findProp(id string) *property {
	for _, p := range props {
		if p.id == id {
			return p
		}
	}
	return nil
}

func (p *property) pick(seed uint64) *scenario {
	total := 0
	for _, s := range p.scen {
		total += s.weight
	}
	x := seed*0x9E3779B97F4A7C15 + 77
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 32
	k := int(x % uint64(total))
	for i := range p.scen {
		k -= p.scen[i].weight
		if k < 0 {
			return &p.scen[i]
		}
	}
	return &p.scen[0]
}

func (p *property) named(n string) *scenario {
	for i := range p.scen {
		if p.scen[i].name == n {
			return &p.scen[i]
		}
	}
	return nil
}

// ---------------------------------------------------------------- records

type vioRec struct {
	Property string        `json:"property"`
	Scenario string        `json:"scenario"`
	Seed     uint64        `json:"seed"`
	Kind     string        `json:"kind"`
	Detail   string        `json:"violation"`
	Stack    string        `json:"stack,omitempty"`
	Report   string        `json:"race_report,omitempty"`
	Fatal    string        `json:"process_output,omitempty"`
	Orig     int           `json:"decisions_before_minimisation"`
	Choices  []core.Choice `json:"decisions"`
	Min      string        `json:"minimisation"`
	Hash     uint64        `json:"execution_hash"`
	SimTime  float64       `json:"simulated_seconds"`
	Trace    []string      `json:"trace"`
}

type sample struct {
	Seed     uint64  `json:"seed"`
	Scenario string  `json:"scenario"`
	Steps    int64   `json:"steps"`
	Switches int64   `json:"switches"`
	SimS     float64 `json:"simulated_s"`
	Hash     string  `json:"hash"`
}

type workRes struct {
	Runs      int64            `json:"runs"`
	Steps     int64            `json:"steps"`
	Switches  int64            `json:"switches"`
	SimTime   float64          `json:"sim"`
	Gs        int64            `json:"gs"`
	Counts    map[string]int64 `json:"counts"`
	Scen      map[string]int64 `json:"scen"`
	Samples   []sample         `json:"samples"`
	Rechecked int64            `json:"rechecked"`
	Mismatch  []string         `json:"mismatch"`
	MaxSteps  int64            `json:"maxsteps"`
	Vio       *vioRec          `json:"vio"`
	Done      bool             `json:"done"`
}

func setup() {
	log.SetLevel(log.PanicLevel)
	log.SetOutput(io.Discard)
	time.Local = time.FixedZone("CST", 8*3600)
	debug.SetGCPercent(300)
}

// drawLog turns the log on, at the level it has by default, in some runs; its
// lock would hide data races in the others.
func drawLog() {
	l := log.PanicLevel
	if core.W(24) == 23 {
		l = log.TraceLevel
		core.Count("log written at its default level")
	}
	log.SetLevel(l)
}

func runOne(s *scenario, c *core.Chooser, trace bool) core.Result {
	procN = 0
	return core.Run(c, trace, func() {
		drawSerMask()
		drawSessions()
		drawLog()
		s.fn()
	})
}

// raceReport returns the newest race report this process has written.
func raceReport() string {
	base := ""
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			base = f[len("log_path="):]
		}
	}
	if base == "" {
		return ""
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", base, os.Getpid()))
	if err != nil {
		return ""
	}
	i := bytes.LastIndex(b, []byte("WARNING: DATA RACE"))
	if i < 0 {
		return ""
	}
	r := string(b[i:])
	if len(r) > 6000 {
		r = r[:6000]
	}
	return r
}

func class(v *core.Violation) string {
	s := v.Kind + ":"
	if v.Kind == "property" || v.Kind == "crash" {
		n := 0
		for _, c := range v.Detail {
			if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == ' ' {
				s += string(c)
				n++
			}
			if n > 28 {
				break
			}
		}
	}
	return s
}

// ---------------------------------------------------------------- worker

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	pid := fs.String("prop", "", "")
	from := fs.Uint64("from", 0, "")
	stride := fs.Uint64("stride", 1, "")
	count := fs.Int("count", 1, "")
	secs := fs.Float64("secs", 60, "")
	out := fs.String("out", "", "")
	scen := fs.String("scen", "", "")
	hang := fs.Float64("hang", 90, "")
	shrinkS := fs.Float64("shrink", 40, "")
	fs.Parse(args)
	setup()
	p := findProp(*pid)
	res := &workRes{Counts: map[string]int64{}, Scen: map[string]int64{}}
	hashes := map[uint64]struct{}{}
	states := map[uint64]struct{}{}
	cur, err := os.OpenFile(*out+".cur", os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	var beat int64
	go watchdog(&beat, *hang)
	start := time.Now()
	for i := 0; i < *count; i++ {
		if time.Since(start).Seconds() > *secs {
			break
		}
		seed := *from + uint64(i)**stride
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], seed)
		cur.WriteAt(b[:], 0)
		beat++
		s := p.pick(seed)
		if *scen != "" {
			s = p.named(*scen)
		}
		r := runOne(s, core.NewSeeded(seed), false)
		res.Runs++
		res.Steps += r.Steps
		res.Switches += r.Switches
		res.SimTime += float64(r.SimTime) / 1e9
		res.Gs += int64(r.Gs)
		if r.Steps > res.MaxSteps {
			res.MaxSteps = r.Steps
		}
		res.Scen[s.name]++
		r.Counts.Each(func(k string, n int64) { res.Counts[k] += n })
		if r.Switches > 0 {
			hashes[r.Hash] = struct{}{}
		}
		if r.State != 0 {
			states[r.State] = struct{}{}
		}
		if len(res.Samples) < 3 {
			res.Samples = append(res.Samples, sample{seed, s.name, r.Steps, r.Switches, float64(r.SimTime) / 1e9, fmt.Sprintf("%016x", r.Hash)})
		}
		if r.Violation != nil {
			v := mkVio(p, s, seed, r)
			res.Vio = v
			writeJSON(*out, res)
			shrink(s, v, time.Duration(*shrinkS*1e9), &beat)
			break
		}
		if i%61 == 7 {
			res.Rechecked++
			beat++
			r2 := runOne(s, core.NewReplay(seed, r.Choices), false)
			if r2.Hash != r.Hash || r2.Steps != r.Steps || r2.Violation != nil {
				res.Mismatch = append(res.Mismatch, fmt.Sprintf("%s seed %d", s.name, seed))
			}
		}
	}
	res.Done = true
	writeJSON(*out, res)
	dumpSet(*out+".hash", hashes)
	dumpSet(*out+".state", states)
}

func watchdog(beat *int64, secs float64) {
	last := int64(-1)
	t := time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		if *beat != last {
			last = *beat
			t = time.Now()
		} else if time.Since(t).Seconds() > secs {
			fmt.Fprintf(os.Stderr, "watchdog: one simulated run takes more than %.0f s of real time\n", secs)
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			os.Stderr.Write(buf[:n])
			os.Exit(3)
		}
	}
}

func dumpSet(path string, m map[uint64]struct{}) {
	b := make([]byte, 0, len(m)*8)
	for h := range m {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	os.WriteFile(path, b, 0644)
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	os.WriteFile(path+".tmp", b, 0644)
	os.Rename(path+".tmp", path)
}

func mkVio(p *property, s *scenario, seed uint64, r core.Result) *vioRec {
	v := &vioRec{Property: p.id, Scenario: s.name, Seed: seed, Kind: r.Violation.Kind, Detail: r.Violation.Detail, Stack: r.Violation.Stack, Choices: r.Choices, Orig: len(r.Choices), Hash: r.Hash, SimTime: float64(r.SimTime) / 1e9, Min: "none"}
	if v.Kind == "race" {
		v.Report = raceReport()
	}
	return v
}

// shrink minimises the decisions of a failing run, keeping the same kind of
// violation, and fills in the trace of the minimal run.
func shrink(s *scenario, v *vioRec, budget time.Duration, beat *int64) {
	end := time.Now().Add(budget)
	want := class(&core.Violation{Kind: v.Kind, Detail: v.Detail})
	tries := 0
	try := func(c []core.Choice) ([]core.Choice, bool) {
		if time.Now().After(end) {
			return nil, false
		}
		tries++
		*beat++
		r := runOne(s, core.NewReplay(v.Seed, c), false)
		if r.Violation == nil || class(r.Violation) != want {
			return nil, false
		}
		return r.Choices, true
	}
	best := append([]core.Choice{}, v.Choices...)
	if b, ok := try(best); ok {
		best = b
		// whole streams first: schedule, faults, workload
		for _, st := range []uint8{core.SS, core.SF, core.SW} {
			var c []core.Choice
			for _, x := range best {
				if x.S != st {
					c = append(c, x)
				}
			}
			if b, ok := try(c); ok && len(b) < len(best) {
				best = b
			}
		}
		for changed := true; changed && time.Now().Before(end); {
			changed = false
			for size := len(best) / 2; size >= 1 && time.Now().Before(end); size /= 2 {
				for i := 0; i < len(best) && time.Now().Before(end); {
					j := min(i+size, len(best))
					c := append(append([]core.Choice{}, best[:i]...), best[j:]...)
					if b, ok := try(c); ok && len(b) < len(best) {
						best = b
						changed = true
					} else {
						i = j
					}
				}
			}
			// lower the values
			for i := 0; i < len(best) && time.Now().Before(end); i++ {
				if best[i].V > 1 {
					for _, nv := range []uint32{1, best[i].V / 2} {
						if i >= len(best) || nv == 0 || nv >= best[i].V {
							continue
						}
						c := append([]core.Choice{}, best...)
						c[i].V = nv
						if b, ok := try(c); ok && len(b) <= len(best) {
							best = b
							changed = changed || len(b) < len(c)
							break
						}
					}
				}
			}
		}
		v.Min = fmt.Sprintf("%d candidate runs, %d -> %d non-default decisions", tries, v.Orig, len(best))
	} else {
		v.Min = "the recorded run did not repeat in the same process; decisions kept as recorded"
	}
	*beat++
	r := runOne(s, core.NewReplay(v.Seed, best), true)
	if r.Violation != nil {
		v.Kind, v.Detail, v.Stack = r.Violation.Kind, r.Violation.Detail, r.Violation.Stack
		if v.Kind == "race" {
			v.Report = raceReport()
		}
		v.Hash, v.SimTime = r.Hash, float64(r.SimTime)/1e9
		v.Choices = best
	}
	v.Trace = r.Trace
}

// ---------------------------------------------------------------- coordinator

func spawn(scratch, tag string, args ...string) *exec.Cmd {
	self, _ := os.Executable()
	c := exec.Command(self, args...)
	c.Env = append(os.Environ(),
		"GOMAXPROCS=1", "GODEBUG=cryptocustomrand=1",
		"GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 atexit_sleep_ms=0 log_path="+filepath.Join(scratch, "race."+tag))
	f, _ := os.Create(filepath.Join(scratch, tag+".err"))
	c.Stderr = f
	c.Stdout = f
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return c
}

func tail(path string, n int) string {
	b, _ := os.ReadFile(path)
	if len(b) > n {
		b = b[:n]
	}
	return string(b)
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	pid := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	scratch := fs.String("scratch", "", "")
	root := fs.String("root", "", "")
	runs := fs.Int("runs", 0, "")
	secs := fs.Float64("secs", 0, "")
	scen := fs.String("scen", "", "")
	nw := fs.Int("workers", 8, "")
	shr := fs.Float64("shrink", 40, "")
	fs.Parse(args)
	p := findProp(*pid)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *pid)
		return 2
	}
	total := p.runs * 2
	limit := 200.0
	if *tier == "thorough" {
		total = p.runs * 80
		limit = 780
	}
	if *runs > 0 {
		total = *runs
	}
	if *secs > 0 {
		limit = *secs
	}
	start := time.Now()
	base := *seed << 32
	var results []*workRes
	var vio *vioRec
	var trouble string
	var mu sync.Mutex
	var wg sync.WaitGroup
	hashes := map[uint64]struct{}{}
	states := map[uint64]struct{}{}
	var cmds []*exec.Cmd
	stop := func() {
		for _, c := range cmds {
			if c.Process != nil {
				c.Process.Kill()
			}
		}
	}
	for w := 0; w < *nw; w++ {
		cnt := total / *nw
		if w < total%*nw {
			cnt++
		}
		out := filepath.Join(*scratch, fmt.Sprintf("w%d.json", w))
		c := spawn(*scratch, fmt.Sprintf("w%d", w), "worker", "-prop", p.id, "-from", fmt.Sprint(base+uint64(w)), "-stride", fmt.Sprint(*nw),
			"-count", fmt.Sprint(cnt), "-secs", fmt.Sprint(limit), "-out", out, "-scen", *scen, "-shrink", fmt.Sprint(*shr))
		if err := c.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			stop()
			return 2
		}
		mu.Lock()
		cmds = append(cmds, c)
		mu.Unlock()
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			err := c.Wait()
			mu.Lock()
			defer mu.Unlock()
			var r workRes
			if b, e := os.ReadFile(out); e == nil && json.Unmarshal(b, &r) == nil {
				results = append(results, &r)
				readSet(out+".hash", hashes)
				readSet(out+".state", states)
				if r.Vio != nil {
					if vio == nil {
						vio = r.Vio
						stop()
					}
					return
				}
				if r.Done {
					return
				}
			}
			if vio != nil {
				return
			}
			// the process died: find the run and repeat it alone
			b, _ := os.ReadFile(out + ".cur")
			if len(b) < 8 {
				trouble = fmt.Sprintf("worker %d failed: %v %s", w, err, tail(filepath.Join(*scratch, fmt.Sprintf("w%d.err", w)), 2000))
				return
			}
			sd := binary.LittleEndian.Uint64(b)
			mu.Unlock()
			v, why := confirmFatal(p, sd, *scen, *scratch, w)
			mu.Lock()
			if v != nil {
				if vio == nil {
					vio = v
					stop()
				}
			} else {
				trouble = fmt.Sprintf("worker %d died (%v) and the run did not repeat: %s", w, err, why)
			}
		}(w)
	}
	wg.Wait()
	wall := time.Since(start).Seconds()
	sum := &workRes{Counts: map[string]int64{}, Scen: map[string]int64{}}
	for _, r := range results {
		sum.Runs += r.Runs
		sum.Steps += r.Steps
		sum.Switches += r.Switches
		sum.SimTime += r.SimTime
		sum.Gs += r.Gs
		sum.Rechecked += r.Rechecked
		sum.Mismatch = append(sum.Mismatch, r.Mismatch...)
		sum.MaxSteps = max(sum.MaxSteps, r.MaxSteps)
		for k, n := range r.Counts {
			sum.Counts[k] += n
		}
		for k, n := range r.Scen {
			sum.Scen[k] += n
		}
		sum.Samples = append(sum.Samples, r.Samples...)
	}
	nv := 0
	if vio != nil {
		nv = 1
	}
	evidence(*root, p, *tier, *seed, total, sum, len(hashes), len(states), wall, nv)
	if len(sum.Mismatch) > 0 {
		fmt.Fprintf(os.Stderr, "warning: %d of %d repeated runs differ from their recording: %v\n", len(sum.Mismatch), sum.Rechecked, sum.Mismatch)
	}
	if vio != nil {
		dir := filepath.Join(*root, "replays")
		os.MkdirAll(dir, 0755)
		f := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", p.id, vio.Scenario, vio.Seed))
		writeJSON(f, vio)
		if !confirm(f, *scratch) {
			fmt.Fprintf(os.Stderr, "note: the violation did not repeat from %s in a fresh process\n", f)
		}
		fmt.Printf("%s [%s] seed %d scenario %s: %s\n", p.id, vio.Kind, vio.Seed, vio.Scenario, vio.Detail)
		if vio.Report != "" {
			fmt.Println(vio.Report)
		}
		if vio.Stack != "" {
			fmt.Println(firstLines(vio.Stack, 30))
		}
		fmt.Printf("minimised: %s; simulated %.3f s\n", vio.Min, vio.SimTime)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, f)
		return 1
	}
	if trouble != "" {
		fmt.Fprintln(os.Stderr, trouble)
		return 2
	}
	if sum.Runs == 0 {
		fmt.Fprintln(os.Stderr, "no run was made")
		return 2
	}
	fmt.Printf("%s holds on %d simulated runs (%.0f simulated s, %d distinct executions, %.1f s wall)\n", p.id, sum.Runs, sum.SimTime, len(hashes), wall)
	return 0
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func readSet(path string, m map[uint64]struct{}) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for ; len(b) >= 8; b = b[8:] {
		m[binary.LittleEndian.Uint64(b)] = struct{}{}
	}
}

// confirmFatal repeats a run whose process died.
func confirmFatal(p *property, seed uint64, scen, scratch string, w int) (*vioRec, string) {
	tag := fmt.Sprintf("fatal%d", w)
	out := filepath.Join(scratch, tag+".json")
	c := spawn(scratch, tag, "worker", "-prop", p.id, "-from", fmt.Sprint(seed), "-count", "1", "-out", out, "-scen", scen, "-hang", "120")
	err := c.Run()
	var r workRes
	if b, e := os.ReadFile(out); e == nil && json.Unmarshal(b, &r) == nil && r.Done {
		return r.Vio, "the run completes in a fresh process"
	}
	s := p.pick(seed)
	if scen != "" {
		s = p.named(scen)
	}
	o := tail(filepath.Join(scratch, tag+".err"), 6000)
	kind, d := "crash", "the process dies: "
	if strings.Contains(o, "watchdog:") {
		kind, d = "livelock", "the process hangs: "
	} else if !strings.Contains(o, "fatal error") && !strings.Contains(o, "panic") && !strings.Contains(o, "runtime: ") {
		return nil, fmt.Sprintf("%v %s", err, o)
	}
	return &vioRec{Property: p.id, Scenario: s.name, Seed: seed, Kind: kind, Detail: d + firstLines(o, 1), Fatal: o, Min: "none (the run ends the process); the replay repeats the seed"}, ""
}

// confirm replays a file in fresh processes.
func confirm(file, scratch string) bool {
	for i := 0; i < 3; i++ {
		c := spawn(scratch, fmt.Sprintf("confirm%d", i), "replay", "-quiet", file)
		err := c.Run()
		if e, ok := err.(*exec.ExitError); ok && e.ExitCode() == 1 {
			return true
		}
	}
	return false
}

func replay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	quiet := fs.Bool("quiet", false, "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	var v vioRec
	if err == nil {
		err = json.Unmarshal(b, &v)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := findProp(v.Property)
	if p == nil || p.named(v.Scenario) == nil {
		fmt.Fprintln(os.Stderr, "unknown property or scenario")
		return 2
	}
	setup()
	var beat int64
	go watchdog(&beat, 150)
	c := core.NewReplay(v.Seed, v.Choices)
	if len(v.Choices) == 0 && v.Fatal != "" {
		c = core.NewSeeded(v.Seed)
	}
	r := runOne(p.named(v.Scenario), c, !*quiet)
	if !*quiet {
		for _, l := range r.Trace {
			fmt.Println(l)
		}
	}
	if r.Violation == nil {
		fmt.Printf("%s: the replayed run does not violate the property\n", v.Property)
		return 0
	}
	if r.Violation.Kind == "race" {
		fmt.Println(raceReport())
	}
	if r.Violation.Stack != "" {
		fmt.Println(r.Violation.Stack)
	}
	fmt.Printf("%s [%s] %s\n", v.Property, r.Violation.Kind, r.Violation.Detail)
	if r.Hash != v.Hash {
		fmt.Printf("note: the execution differs from the recorded one (the code changed?)\n")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, fs.Arg(0))
	return 1
}

// ---------------------------------------------------------------- evidence

func evidence(root string, p *property, tier string, seed uint64, planned int, sum *workRes, nh, ns int, wall float64, nv int) {
	faults := map[string]int64{}
	probes := map[string]int64{}
	for k, n := range sum.Counts {
		if strings.HasPrefix(k, "probe: ") {
			probes[k[7:]] = n
		} else {
			faults[k] = n
		}
	}
	sort.Slice(sum.Samples, func(i, j int) bool { return sum.Samples[i].Seed < sum.Samples[j].Seed })
	if len(sum.Samples) > 8 {
		sum.Samples = sum.Samples[:8]
	}
	perHour := 0.0
	if wall > 0 {
		perHour = float64(sum.Runs) / wall * 3600
	}
	ev := map[string]any{
		"property": p.id, "tier": tier, "seed": seed, "level": p.level, "wall_s": wall, "violations": nv,
		"coverage": map[string]any{
			"evaluations":                  sum.Runs,
			"distinct_nontrivial":          nh,
			"rule":                         "one evaluation is one complete simulated run (one seed); a run is non-trivial when at least two goroutines interleave in it, and two runs are distinct when the hashes of their executions differ: the hash folds in every context switch, every simulated time at which an event fires, every workload decision, fault, network delivery and application observation",
			"samples":                      sum.Samples,
			"planned_runs":                 planned,
			"runs_and_seeds_per_hour":      int64(perHour),
			"first_seed":                   seed << 32,
			"simulated_seconds":            sum.SimTime,
			"scheduling_steps":             sum.Steps,
			"context_switches":             sum.Switches,
			"goroutines":                   sum.Gs,
			"longest_run_steps":            sum.MaxSteps,
			"distinct_final_states":        ns,
			"faults_injected":              faults,
			"probes":                       probes,
			"runs_per_scenario":            sum.Scen,
			"repeated_for_determinism":     sum.Rechecked,
			"repeats_that_differed":        len(sum.Mismatch),
			"components_running_real_code": "the whole of go808 (server, sessions, codec, timer, multipart store, message types) and the connection library github.com/funny/link, rewritten mechanically onto the simulator's primitives from the current tree; third-party pure libraries (decimal, x/text, logrus, crypto) unmodified",
			"components_stubbed":           "goroutine scheduler, channels, locks, atomics, clock and timers, TCP network, file system, randomness, process lifetime (simulator); terminals and the application (harness)",
		},
		"assumptions": append([]string{
			"the source rewriting preserves the meaning of the program except for who decides scheduling, time and I/O",
			"preemption happens at synchronisation, channel, timer, network, file and log operations; unsynchronised accesses in between are reported by the race detector instead of being interleaved",
			"the simulated TCP delivers each direction in order, loses nothing while the connection lives, and ends with FIN or RST",
		}, p.notes...),
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	writeJSON(filepath.Join(root, "evidence", p.id+".json"), ev)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check|worker|replay|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "list":
		for _, p := range props {
			fmt.Print(p.id)
			for _, s := range p.scen {
				fmt.Printf(" %s:%d", s.name, s.weight)
			}
			fmt.Println()
		}
	default:
		os.Exit(2)
	}
}
