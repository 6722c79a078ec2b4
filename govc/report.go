package main

// Obligations, evidence files and verdicts.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Obligation struct {
	Name    string  `json:"name"`
	Backend string  `json:"backend"`
	Status  string  `json:"status"` // discharged, refuted, undecided, unsupported
	Detail  string  `json:"detail,omitempty"`
	MS      float64 `json:"ms"`
	Bounded string  `json:"bounded,omitempty"`
	Cex     string  `json:"counterexample,omitempty"`
}

type Report struct {
	ID      string
	Tier    string
	Seed    int64
	Obs     []*Obligation
	Fns     map[string]int // functions executed symbolically
	Under   []string       // functions under contract
	Trusted []string
	Assume  []string
	Bounds  []string
	Known   []string // known findings printed
	SolverQ int
	SolverS time.Duration
	Extra   map[string]interface{}
	mu      sync.Mutex
	Replay  *ReplaySpec
	start   time.Time
	only    string
}

// Res is what an obligation's decision procedure answers.
type Res struct {
	OK      bool
	Status  string // when !OK: refuted / undecided / unsupported
	Detail  string
	Cex     string // JSON counterexample for the replay harness
	Bounded string
}

func ok() Res { return Res{OK: true} }
func okd(f string, a ...interface{}) Res {
	return Res{OK: true, Detail: fmt.Sprintf(f, a...)}
}
func refuted(f string, a ...interface{}) Res {
	return Res{Status: "refuted", Detail: fmt.Sprintf(f, a...)}
}
func undecided(f string, a ...interface{}) Res {
	return Res{Status: "undecided", Detail: fmt.Sprintf(f, a...)}
}

// Ob decides one obligation.
// time limits: an obligation that needs longer counts as not discharged
var obLimit, totalLimit = 240 * time.Second, 720 * time.Second

func (r *Report) Ob(name, backend string, f func() Res) bool {
	if r.only != "" && !strings.Contains(name, r.only) {
		return true
	}
	t0 := time.Now()
	var res Res
	limit := obLimit
	if d := time.Until(r.start.Add(totalLimit)); d < limit {
		limit = d
	}
	done := make(chan Res, 1)
	go func() {
		var res Res
		defer func() { done <- res }()
		defer func() {
			if p := recover(); p != nil {
				if e, ok := p.(execErr); ok {
					res = Res{Status: "unsupported", Detail: e.msg}
					return
				}
				if _, ok := p.(nfCap); ok {
					res = undecided("normal form too large")
					return
				}
				res = Res{Status: "unsupported", Detail: fmt.Sprintf("internal: %v\n%s", p, debug.Stack())}
			}
		}()
		res = f()
	}()
	select {
	case res = <-done:
	case <-time.After(limit):
		res = Res{Status: "timeout", Detail: fmt.Sprintf("not decided within %.0f s", limit.Seconds())}
	}
	o := &Obligation{Name: name, Backend: backend, Detail: res.Detail, Cex: res.Cex, Bounded: res.Bounded, MS: float64(time.Since(t0).Microseconds()) / 1000}
	if res.OK {
		o.Status = "discharged"
	} else {
		o.Status = res.Status
		if o.Status == "" {
			o.Status = "undecided"
		}
	}
	r.mu.Lock()
	r.Obs = append(r.Obs, o)
	r.mu.Unlock()
	if os.Getenv("GOVC_V") != "" || !res.OK {
		d := o.Detail
		if o.Bounded != "" {
			d += " [BOUNDED: " + o.Bounded + "]"
		}
		if len(d) > 1500 {
			d = d[:1500]
		}
		fmt.Printf("  [%s] %s (%s, %.0f ms) %s\n", o.Status, o.Name, o.Backend, o.MS, d)
	}
	return res.OK
}

// Par runs jobs on up to n goroutines.
func Par(n int, jobs ...func()) {
	sem := make(chan struct{}, n)
	var wg sync.WaitGroup
	for _, j := range jobs {
		j := j
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			j()
		}()
	}
	wg.Wait()
}

// Merge takes execution statistics of an executor into the report.
func (r *Report) Merge(x *Exec) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for k, v := range x.fnHits {
		r.Fns[shortFn(k)] += v
	}
	if x.solver != nil {
		r.SolverQ += x.solver.Queries
		r.SolverS += x.solver.Spent
	}
	for _, m := range x.illegal {
		r.Obs = append(r.Obs, &Obligation{Name: "feature-guard", Backend: "symbolic execution", Status: "refuted", Detail: m})
	}
	x.illegal = nil
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// ReplaySpec names the harness that runs the real code.
type ReplaySpec struct {
	Files map[string]string // path in /repo -> file under /verif/replay
	Pkg   []string          // go test packages, relative to /repo
	Tags  [][]string        // configurations: build tags
	Run   string
}

type replayOut struct {
	Failed bool // a failing input was shown
	Broken bool // harness did not run
	Out    string
	Cases  int
	Sample string
}

// RunReplay executes the harness against the real code.
func (r *Report) RunReplay(secs int, cexs []string) replayOut {
	if r.Replay == nil {
		return replayOut{}
	}
	dir, err := os.MkdirTemp("", "verif-replay")
	if err != nil {
		return replayOut{Broken: true, Out: err.Error()}
	}
	defer os.RemoveAll(dir)
	ov := map[string]map[string]string{"Replace": {}}
	for k := range r.Replay.Files {
		// the package's own tests are left out: they need not build in every configuration
		old, _ := filepath.Glob(filepath.Join(repoDir, filepath.Dir(k), "*_test.go"))
		for _, f := range old {
			ov["Replace"][f] = ""
		}
	}
	for k, v := range r.Replay.Files {
		ov["Replace"][filepath.Join(repoDir, k)] = filepath.Join(verifDir(), "replay", v)
	}
	b, _ := json.Marshal(ov)
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, b, 0644)
	cf := filepath.Join(dir, "cex.json")
	os.WriteFile(cf, []byte("["+strings.Join(cexs, ",")+"]"), 0644)
	tags := r.Replay.Tags
	if len(tags) == 0 {
		tags = [][]string{nil}
	}
	var res replayOut
	for _, tg := range tags {
		args := []string{"test", "-overlay", of, "-vet=off", "-count=1", "-v", "-run", r.Replay.Run, "-timeout", fmt.Sprintf("%ds", secs*4+120)}
		pk := r.Replay.Pkg
		if len(tg) > 0 {
			args = append(args, "-tags", tg[0])
			if len(tg) > 1 {
				pk = tg[1:]
			}
		}
		args = append(args, pk...)
		cmd := exec.Command("go", args...)
		cmd.Dir = repoDir
		cmd.Env = append(goEnv(), "VERIF_CEX="+cf, fmt.Sprintf("VERIF_SECS=%d", secs), fmt.Sprintf("VERIF_SEED=%d", r.Seed))
		out, err := cmd.CombinedOutput()
		so := string(out)
		for _, l := range strings.Split(so, "\n") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, "VERIF-CASES "); i >= 0 {
				n, _ := strconv.Atoi(strings.Fields(l[i+12:])[0])
				res.Cases += n
			}
			if i := strings.Index(l, "VERIF-SAMPLE "); i >= 0 && res.Sample == "" {
				res.Sample = l[i+13:]
			}
			if strings.Contains(l, "VERIF-FAIL") {
				res.Failed = true
			}
		}
		if err != nil && !res.Failed {
			if strings.Contains(so, "panic:") || strings.Contains(so, "SIGSEGV") || strings.Contains(so, "SIGILL") || strings.Contains(so, "fatal error:") {
				res.Failed = true
			} else {
				res.Broken = true
			}
		}
		res.Out += fmt.Sprintf("$ go %s\n%s\n", strings.Join(args, " "), so)
	}
	return res
}

// Finish writes the evidence and prints the verdict; returns the exit code.
func (r *Report) Finish() int {
	r.mu.Lock()
	var bad []*Obligation
	disch, bounded := 0, 0
	backends := map[string]int{}
	for _, o := range r.Obs {
		if o.Status == "discharged" {
			if o.Bounded != "" {
				bounded++
				continue
			}
			disch++
			backends[o.Backend]++
		} else {
			bad = append(bad, o)
		}
	}
	if len(r.Obs) == 0 {
		bad = append(bad, &Obligation{Name: "vacuity", Status: "unsupported", Detail: "no obligations were generated"})
	}
	secs := 2
	if r.Tier == "thorough" {
		secs = 40
	}
	var cexs []string
	for _, o := range bad {
		if o.Cex != "" {
			cexs = append(cexs, o.Cex)
		}
	}
	if len(bad) > 0 && secs < 20 {
		secs = 20
	}
	ro := r.RunReplay(secs, cexs)
	code := 0
	viol := 0
	if len(bad) > 0 || ro.Failed || ro.Broken {
		dir := filepath.Join(verifDir(), "evidence", "replay")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, r.ID+".txt")
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n", r.ID)
		for _, o := range bad {
			fmt.Fprintf(&b, "failed obligation: %s\n  back end: %s\n  status: %s\n  verifier output: %s\n", o.Name, o.Backend, o.Status, o.Detail)
			if o.Cex != "" {
				fmt.Fprintf(&b, "  counterexample: %s\n", o.Cex)
			}
		}
		if ro.Failed {
			fmt.Fprintf(&b, "\nreplayed on the real code: FAILS\n")
		} else if r.Replay != nil {
			fmt.Fprintf(&b, "\nreplayed on the real code: no failing input found in %d cases\n", ro.Cases)
		}
		b.WriteString(ro.Out)
		os.WriteFile(path, []byte(b.String()), 0644)
		sfx := ""
		if !ro.Failed {
			sfx = " no-failing-input-found"
		}
		if len(bad) > 0 || ro.Failed {
			code = 1
			viol = len(bad)
			if viol == 0 {
				viol = 1
			}
			name := "replay harness"
			if len(bad) > 0 {
				name = bad[0].Name
			}
			fmt.Printf("failed obligation: %s\n", name)
			fmt.Printf("VIOLATION property=%s replay=%s%s\n", r.ID, path, sfx)
		} else {
			fmt.Printf("note: the replay harness could not run (see %s)\n", path)
		}
	}
	for _, k := range r.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, k)
	}
	var fns []string
	for k := range r.Fns {
		fns = append(fns, k)
	}
	sort.Strings(fns)
	if r.Under == nil {
		for _, k := range fns {
			if !strings.HasPrefix(k, "[contract]") {
				r.Under = append(r.Under, k)
			}
		}
	}
	cov := map[string]interface{}{
		"obligations":              len(r.Obs),
		"discharged":               disch,
		"discharged_bounded":       bounded,
		"checker_cmd":              "/verif/bin/check " + r.ID,
		"trusted_base":             r.Trusted,
		"functions_under_contract": r.Under,
		"functions_executed":       fns,
		"backends":                 backends,
		"solver_queries":           r.SolverQ,
		"solver_time_s":            r.SolverS.Seconds(),
		"obligation_list":          r.Obs,
		"bounds":                   r.Bounds,
		"replay_harness_cases":     ro.Cases,
		"replay_harness_sample":    ro.Sample,
		"replay_harness_could_run": !ro.Broken,
	}
	for k, v := range r.Extra {
		cov[k] = v
	}
	if r.Trusted == nil {
		cov["trusted_base"] = []string{}
	}
	ev := map[string]interface{}{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": "proof",
		"coverage": cov, "assumptions": r.Assume, "wall_s": time.Since(r.start).Seconds(), "violations": viol,
	}
	if r.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	os.WriteFile(filepath.Join(verifDir(), "evidence", r.ID+".json"), b, 0644)
	fmt.Printf("%s: %d obligations, %d discharged (+%d bounded), %d failed, replay cases %d, %.1f s\n", r.ID, len(r.Obs), disch, bounded, len(bad), ro.Cases, time.Since(r.start).Seconds())
	return code
}
