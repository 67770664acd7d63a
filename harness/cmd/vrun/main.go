// vrun runs one property's workload under its monitors.
//
//	vrun check ID           supervise workers, write evidence, print the verdict
//	vrun worker ID k n DIR  (internal) run the cases i with i%n == k
//	vrun replay FILE        re-run the case of a replay file
//	vrun list
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	_ "time/tzdata" // zones do not depend on the machine

	"vharness/ref"
)

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

func seedTier() (int64, bool) {
	s, err := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		s = 1
	}
	return s, env("VERIF_TIER", "quick") == "thorough"
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vrun check|replay|list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "literals": // the text of corpus/literals.json for the present source
		json.NewEncoder(os.Stdout).Encode(map[string]any{"Words": mined().words, "Ints": mined().ints})
	case "check":
		p := props[os.Args[2]]
		if p == nil {
			fmt.Fprintln(os.Stderr, "no such property")
			os.Exit(2)
		}
		os.Exit(check(p))
	case "worker":
		p := props[os.Args[2]]
		k, _ := strconv.Atoi(os.Args[3])
		n, _ := strconv.Atoi(os.Args[4])
		worker(p, k, n, os.Args[5], -1)
	case "cold":
		n, _ := strconv.ParseInt(os.Args[2], 10, 64)
		cold(n, os.Args[3])
	case "replay":
		os.Exit(replay(os.Args[2]))
	default:
		os.Exit(2)
	}
}

const stopAfter = 1 // violations per worker

func newCtx(p *Prop, seed int64, thorough bool) *Ctx {
	c := &Ctx{p: p, seed: seed, thorough: thorough, nt: map[uint64]bool{}}
	c.st.Counters = map[string]int{}
	c.st.Rules = map[string]int{}
	c.cpuLimit.Store(90)
	return c
}

func worker(p *Prop, k, n int, dir string, only int) {
	debug.SetGCPercent(300)
	seed, thorough := seedTier()
	c := newCtx(p, seed, thorough)
	name := func(s string) string { return filepath.Join(dir, fmt.Sprintf("%s.%d", s, k)) }

	// The library must not write anything. Its stdout and stderr become a file
	// that is inspected; crash reports of the Go runtime end up there as well.
	c.quiet, _ = os.OpenFile(name("output"), os.O_CREATE|os.O_RDWR|os.O_TRUNC|os.O_APPEND, 0o644)
	syscall.Dup2(int(c.quiet.Fd()), 1)
	syscall.Dup2(int(c.quiet.Fd()), 2)
	c.journal, _ = os.OpenFile(name("journal"), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)

	var once sync.Once
	save := func() {
		c.st.CPU = cpuSeconds()
		for h := range c.nt {
			c.st.Nontrivial = append(c.st.Nontrivial, h)
		}
		b, _ := json.Marshal(&c.st)
		tmp := name("stats") + ".tmp"
		os.WriteFile(tmp, b, 0o644)
		os.Rename(tmp, name("stats"))
	}
	go c.watch(func(kind, detail string) {
		c.mu.Lock()
		in := c.curInput
		c.mu.Unlock()
		// The worker's own maps may be in use; report through a side file only.
		v := Violation{Property: p.ID, Case: c.caseNo, Seed: c.seed, Tier: c.tier(), Kind: kind,
			Input: fmt.Sprintf("%q", in), Want: "the call returns", Got: detail}
		b, _ := json.Marshal(v)
		os.WriteFile(name("stuck"), b, 0o644)
		os.Exit(9)
	})
	total := p.Cases(thorough)
	enough, stop := filepath.Join(dir, "enough"), false
	for i := k; i < total && !stop; i += n {
		c.begin(i)
		p.Run(c, i)
		c.end()
		if len(c.st.Violations) >= stopAfter || len(c.st.Broken) >= 5 {
			os.WriteFile(enough, nil, 0o644)
			stop = true
		} else if _, err := os.Stat(enough); err == nil {
			stop = true // another worker has an answer
		}
	}
	if p.Finish != nil && !stop && len(c.st.Violations) == 0 {
		c.begin(-1 - k)
		p.Finish(c)
		c.end()
	}
	once.Do(save)
	os.Exit(0)
}

func scratch() string {
	d, err := os.MkdirTemp("", "vrun-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return d
}

func check(p *Prop) int {
	t0 := time.Now()
	seed, thorough := seedTier()
	root := env("VERIF_ROOT", "/verif")
	dir := scratch()
	defer os.RemoveAll(dir)
	workers := p.Workers
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	if n := p.Cases(thorough); workers > n {
		workers = n
	}
	errs := make([]error, workers)
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			cmd := exec.Command(os.Args[0], "worker", p.ID, strconv.Itoa(k), strconv.Itoa(workers), dir)
			cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
			if !p.Race {
				cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
			} else {
				cmd.Env = append(cmd.Env, "GOMAXPROCS=6", fmt.Sprintf("GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path=%s/race.%d", dir, k))
			}
			cmd.Stderr = os.Stderr
			if errs[k] = cmd.Run(); errs[k] != nil {
				os.WriteFile(filepath.Join(dir, "enough"), nil, 0o644)
			}
		}(k)
	}
	wg.Wait()

	var sum Stats
	sum.Counters, sum.Rules = map[string]int{}, map[string]int{}
	distinct := map[uint64]bool{}
	var viol []Violation
	var broken []string
	outputBytes := 0
	for k := 0; k < workers; k++ {
		name := func(s string) string { return filepath.Join(dir, fmt.Sprintf("%s.%d", s, k)) }
		out, _ := os.ReadFile(name("output"))
		b, err := os.ReadFile(name("stats"))
		if err != nil {
			// The worker did not come to its end: stuck, or brought down by the
			// library (a fatal error cannot be recovered from), or killed.
			if s, err := os.ReadFile(name("stuck")); err == nil {
				var v Violation
				json.Unmarshal(s, &v)
				viol = append(viol, v)
				continue
			}
			var j struct {
				Case      int
				Op, Input string
			}
			jb, _ := os.ReadFile(name("journal"))
			json.Unmarshal(jb, &j)
			ee, _ := errs[k].(*exec.ExitError)
			if ee != nil && ee.Sys().(syscall.WaitStatus).Signaled() {
				broken = append(broken, fmt.Sprintf("worker %d: %v", k, errs[k]))
				continue
			}
			got := string(out)
			if crashInLibrary(got) {
				if len(got) > 4000 {
					got = got[:4000]
				}
				viol = append(viol, Violation{Property: p.ID, Case: j.Case, Seed: seed, Tier: tierName(thorough),
					Kind: "crash", Input: j.Input, Want: j.Op + " returns", Got: got})
			} else {
				if len(got) > 4000 {
					got = got[:4000]
				}
				broken = append(broken, fmt.Sprintf("worker %d ended: %v\n%s", k, errs[k], got))
			}
			continue
		}
		var st Stats
		if err := json.Unmarshal(b, &st); err != nil {
			broken = append(broken, fmt.Sprintf("worker %d: %v", k, err))
			continue
		}
		sum.Evaluations += st.Evaluations
		sum.CPU += st.CPU
		for n, v := range st.Counters {
			if strings.HasPrefix(n, "max.") {
				if v > sum.Counters[n] {
					sum.Counters[n] = v
				}
				continue
			}
			sum.Counters[n] += v
		}
		for n, v := range st.Rules {
			sum.Rules[n] += v
		}
		for _, h := range st.Nontrivial {
			distinct[h] = true
		}
		if len(sum.Samples) < 6 {
			sum.Samples = append(sum.Samples, st.Samples...)
		}
		viol = append(viol, st.Violations...)
		broken = append(broken, st.Broken...)
		outputBytes += len(out)
		if len(out) > 0 {
			if len(out) > 2000 {
				out = out[:2000]
			}
			if p.ID == "P15" && len(viol) == 0 {
				viol = append(viol, Violation{Property: p.ID, Case: -1, Seed: seed, Tier: tierName(thorough), Kind: "output",
					Want: "the library writes nothing to the process's stdout or stderr", Got: string(out)})
			}
		}
		if p.Race {
			logs, _ := filepath.Glob(filepath.Join(dir, fmt.Sprintf("race.%d.*", k)))
			for _, l := range logs {
				rb, _ := os.ReadFile(l)
				n := strings.Count(string(rb), "WARNING: DATA RACE")
				sum.Counters["race.reports"] += n
				if n > 0 && !raceInHarnessOnly(string(rb)) {
					s := string(rb)
					if len(s) > 6000 {
						s = s[:6000]
					}
					viol = append(viol, Violation{Property: p.ID, Case: -1, Seed: seed, Tier: tierName(thorough), Kind: "data-race",
						Want: "no data race", Got: s})
				}
			}
		}
	}

	min := 1
	if p.MinNontrivial != nil {
		min = p.MinNontrivial(thorough)
	}
	if len(viol) == 0 && len(broken) == 0 && len(distinct) < min {
		broken = append(broken, fmt.Sprintf("only %d distinct non-trivial cases observed, %d needed for an answer", len(distinct), min))
	}
	cov := map[string]any{
		"evaluations":          sum.Evaluations,
		"distinct_nontrivial":  len(distinct),
		"rule":                 p.Rule,
		"samples":              append([]string{}, sum.Samples...),
		"counters":             sum.Counters,
		"cpu_s":                sum.CPU,
		"library_output_bytes": outputBytes,
	}
	if len(sum.Rules) > 0 {
		cov["grammar_rules_reached"] = fmt.Sprintf("%d of %d", len(sum.Rules), len(ref.RuleNames()))
		cov["grammar_rule_counts"] = sum.Rules
	}
	level := "exploration"
	if p.ID == "P06" {
		level = "fault_enumeration"
	}
	ev := map[string]any{
		"property": p.ID, "tier": tierName(thorough), "seed": seed, "level": level,
		"coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": len(viol),
		"assumptions": append([]string{}, p.Assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	if len(viol) > 0 {
		os.MkdirAll(filepath.Join(root, "replays"), 0o755)
		for i, v := range viol {
			if i >= 5 {
				break
			}
			file := filepath.Join(root, "replays", fmt.Sprintf("%s-%d-%d.json", p.ID, v.Case, i))
			vb, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(file, append(vb, '\n'), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
			fmt.Printf("  %s: input %s\n    want %s\n    got  %s\n", v.Kind, clip(v.Input), clip(v.Want), clip(v.Got))
		}
		return 1
	}
	if len(broken) > 0 {
		fmt.Printf("INCONCLUSIVE property=%s\n", p.ID)
		for _, s := range broken {
			fmt.Println("  " + s)
		}
		return 2
	}
	fmt.Printf("HELD property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs cpu=%.1fs\n", p.ID, sum.Evaluations, len(distinct), time.Since(t0).Seconds(), sum.CPU)
	return 0
}

func crashInLibrary(out string) bool {
	if !strings.Contains(out, "fatal error:") && !strings.Contains(out, "panic:") && !strings.Contains(out, "goroutine stack exceeds") {
		return false
	}
	return strings.Contains(out, "go-rfc5322") || strings.Contains(out, "runtime/Go/antlr")
}

// raceInHarnessOnly says whether no report involves library code.
func raceInHarnessOnly(log string) bool {
	return !strings.Contains(log, "go-rfc5322") && !strings.Contains(log, "runtime/Go/antlr")
}

func clip(s string) string {
	if len(s) > 700 {
		return s[:700] + "..."
	}
	return s
}

func tierName(t bool) string {
	if t {
		return "thorough"
	}
	return "quick"
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[v.Property]
	c := newCtx(p, v.Seed, v.Tier == "thorough")
	if v.Case < 0 {
		fmt.Println("this violation belongs to the run as a whole; run the check again")
		return 2
	}
	c.begin(v.Case)
	p.Run(c, v.Case)
	for _, x := range c.st.Violations {
		fmt.Printf("%s: input %s\n  want %s\n  got  %s\n", x.Kind, clip(x.Input), clip(x.Want), clip(x.Got))
	}
	if len(c.st.Violations) > 0 {
		return 1
	}
	fmt.Println("the case holds now")
	return 0
}
