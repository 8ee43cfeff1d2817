package main

// The check of one property: verify every contract and lemma of the property
// and every contract they rely on, run the replay harness, write the evidence.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	osexec "os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type harnessResult struct {
	Ran      bool
	Evals    int
	Distinct int
	Samples  []string
	Fails    []string // "key|description"
	Err      string
	Rule     string
	Secs     float64
	Output   string
}

var harnessDirs = map[string]string{
	"amm":    "x/dex/amm",
	"types":  "x/dex/types",
	"keeper": "x/dex/keeper",
	"module": "x/dex/module",
}

func runHarness(root, repo, prop, tier string, seeds string) *harnessResult {
	h := &harnessResult{}
	t0 := time.Now()
	for _, d := range []string{"amm", "types", "keeper", "module"} {
		fs, _ := filepath.Glob(filepath.Join(root, "replay", d, "*.go"))
		use := false
		ov := map[string]string{}
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			if bytes.Contains(b, []byte("func TestVerif_"+prop+"(")) {
				use = true
			}
			ov[filepath.Join(repo, harnessDirs[d], filepath.Base(f))] = f
		}
		if !use {
			continue
		}
		h.Ran = true
		tmp, err := os.MkdirTemp("", "govc-replay")
		if err != nil {
			h.Err = err.Error()
			return h
		}
		ovf := filepath.Join(tmp, "overlay.json")
		jb, _ := json.Marshal(map[string]interface{}{"Replace": ov})
		os.WriteFile(ovf, jb, 0644)
		if seeds != "" {
			os.WriteFile(filepath.Join(tmp, "seeds"), []byte(seeds), 0644)
		}
		lim := 4 * time.Minute
		if tier == "thorough" {
			lim = 12 * time.Minute
		} else if l := 800*time.Second - time.Since(procStart); l < lim {
			lim = l
		}
		ctx, cancel := context.WithTimeout(context.Background(), lim+60*time.Second)
		cmd := osexec.CommandContext(ctx, goTool(), "test", "-vet=off", "-count=1", "-overlay", ovf, "-run", "^TestVerif_"+prop+"$", "-v", "-timeout", lim.String(), "./"+harnessDirs[d])
		cmd.Dir = repo
		cmd.Env = append(repoEnv(), "VERIF_SEED="+os.Getenv("VERIF_SEED"), "VERIF_TIER="+tier, "VERIF_SEEDS="+filepath.Join(tmp, "seeds"))
		out, err := cmd.CombinedOutput()
		cancel()
		os.RemoveAll(tmp)
		h.Output += string(out)
		sc := bufio.NewScanner(bytes.NewReader(out))
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		done := false
		for sc.Scan() {
			l := strings.TrimSpace(sc.Text())
			if k := strings.Index(l, "FAILING-INPUT "); k >= 0 {
				h.Fails = append(h.Fails, l[k+len("FAILING-INPUT "):])
			}
			if k := strings.Index(l, "EVALS "); k >= 0 {
				fl := strings.Fields(l[k:])
				if len(fl) >= 3 {
					a, _ := strconv.Atoi(fl[1])
					b, _ := strconv.Atoi(fl[2])
					h.Evals += a
					h.Distinct += b
					done = true
				}
			}
			if k := strings.Index(l, "SAMPLE "); k >= 0 && len(h.Samples) < 6 {
				h.Samples = append(h.Samples, l[k+7:])
			}
			if k := strings.Index(l, "RULE "); k >= 0 {
				h.Rule = l[k+5:]
			}
		}
		if err != nil && len(h.Fails) == 0 {
			tail := string(out)
			if len(tail) > 1500 {
				tail = tail[len(tail)-1500:]
			}
			if strings.Contains(string(out), "panic:") && !strings.Contains(string(out), "[build failed]") && !strings.Contains(string(out), "test timed out") {
				m := regexp.MustCompile(`panic: [^\n]*`).FindString(string(out))
				h.Fails = append(h.Fails, "panic|the code under test panicked: "+m)
			} else {
				h.Err = "harness: " + tail
			}
		} else if !done && len(h.Fails) == 0 {
			h.Err = "harness did not report"
		}
	}
	h.Secs = time.Since(t0).Seconds()
	return h
}

// procStart bounds the whole check.
var procStart = time.Now()

func checkProp(repo, prop string) int {
	t0 := time.Now()
	exe, _ := os.Executable()
	root, _ := filepath.Abs(filepath.Join(filepath.Dir(exe), ".."))
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	S, err := parseSpecs(specDir)
	die(err)
	byName := map[string]*Contract{}
	var todo []string
	for _, c := range S.contracts {
		byName[c.name] = c
		for _, p := range c.props {
			if p == prop {
				todo = append(todo, chunksOf(c)...)
			}
		}
	}
	done := map[string]bool{}
	var mu sync.Mutex
	var results []*UnitResult
	var wg sync.WaitGroup
	sem := make(chan struct{}, 7)
	var launch func(n string)
	launch = func(n string) {
		mu.Lock()
		if done[n] {
			mu.Unlock()
			return
		}
		done[n] = true
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			r := runUnit(S.contracts, exe, n)
			<-sem
			mu.Lock()
			results = append(results, r)
			mu.Unlock()
			for _, u := range r.Used {
				for _, w := range chunksOf(byName[u]) {
					launch(w)
				}
			}
		}()
	}
	var hr *harnessResult
	hdone := make(chan bool)
	go func() {
		hr = runHarness(root, repo, prop, tier, "")
		hdone <- true
	}()
	for _, n := range todo {
		launch(n)
	}
	wg.Wait()
	<-hdone
	sort.Slice(results, func(i, j int) bool { return results[i].Unit < results[j].Unit })

	type failure struct{ Unit, Name, Why, Model string }
	var fails []failure
	obl, disch, trivial := 0, 0, 0
	by := map[string]int{}
	solver := 0.0
	ext := map[string]bool{}
	inl := map[string]bool{}
	invs := map[string][]string{}
	var fns []string
	var slow []string
	for _, r := range results {
		con := byName[strings.SplitN(r.Unit, "@", 2)[0]]
		nm := r.Unit
		if con != nil && !con.lemma {
			nm = con.fn
			if k := strings.Index(r.Unit, "@"); k > 0 {
				nm += " cases " + r.Unit[k+1:]
			}
		} else if con != nil {
			nm = "lemma " + nm
		}
		fns = append(fns, fmt.Sprintf("%s (%d paths, %d obligations, %.1fs)", nm, r.Paths, len(r.Obls)+r.Trivial, r.Secs))
		if r.Err != "" {
			fails = append(fails, failure{r.Unit, r.Unit + "/not-verified", r.Err, ""})
			obl++
		}
		for _, v := range r.Vacuous {
			fails = append(fails, failure{r.Unit, r.Unit + "/vacuity", v, ""})
			obl++
		}
		obl += len(r.Obls) + r.Trivial
		disch += r.Trivial
		trivial += r.Trivial
		seen := map[string]bool{}
		solver += r.SessSecs
		for _, o := range r.Obls {
			solver += o.Secs
			if o.Verdict == "unsat" {
				disch++
				by[o.By]++
				if o.Secs > 3 {
					slow = append(slow, fmt.Sprintf("%s %.1fs", o.Name, o.Secs))
				}
				continue
			}
			if seen[o.Name] {
				continue
			}
			seen[o.Name] = true
			fails = append(fails, failure{r.Unit, o.Name, o.Verdict + " " + o.Case, o.Model})
		}
		for _, e := range r.Externals {
			ext[e] = true
		}
		for _, e := range r.Inlined {
			inl[e] = true
		}
		for k, v := range r.Invs {
			invs[k] = v
		}
	}
	if trivial > 0 {
		by["simplifier"] = trivial
	}
	// replay the verifier's counterexamples
	if len(fails) > 0 && hr.Ran && len(hr.Fails) == 0 {
		var sb strings.Builder
		for _, f := range fails {
			if f.Model != "" {
				fmt.Fprintf(&sb, "%s %s\n", f.Unit, f.Model)
			}
		}
		h2 := runHarness(root, repo, prop, tier, sb.String())
		h2.Evals += hr.Evals
		h2.Distinct += hr.Distinct
		hr = h2
	}
	// known findings
	known := loadKnown(filepath.Join(root, "known_findings.txt"), prop)
	var open []string
	knownHit := map[string]bool{}
	for _, f := range hr.Fails {
		key := f
		if k := strings.Index(f, "|"); k >= 0 {
			key = f[:k]
		}
		if d, ok := known[key]; ok {
			if !knownHit[key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, d)
			}
			knownHit[key] = true
			continue
		}
		open = append(open, f)
	}
	var openProof []failure
	for _, f := range fails {
		if d, ok := known[f.Name]; ok {
			if !knownHit[f.Name] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, d)
			}
			knownHit[f.Name] = true
			continue
		}
		openProof = append(openProof, f)
	}
	viol := len(open) + len(openProof)
	if hr.Err != "" {
		viol++
	}

	// evidence
	var trusted []string
	for e := range ext {
		trusted = append(trusted, e)
	}
	sort.Strings(trusted)
	trusted = append([]string{
		"golang.org/x/tools/go/ssa translation of /repo's source, this verifier (govc) and its encoding of Go semantics",
		"solvers: z3 4.8.12, z3 5.3.2, cvc5 1.1.2 (an obligation counts when one of them answers unsat)",
	}, trusted...)
	var inlined []string
	for e := range inl {
		inlined = append(inlined, e)
	}
	sort.Strings(inlined)
	cov := map[string]interface{}{
		"obligations":               obl,
		"discharged":                disch,
		"checker_cmd":               "govc/govc check " + prop,
		"trusted_base":              trusted,
		"discharged_by":             by,
		"solver_seconds":            float64(int(solver*10)) / 10,
		"functions_under_contract":  fns,
		"functions_executed_inline": inlined,
		"loop_invariants":           invs,
	}
	if len(slow) > 0 {
		cov["slow_obligations"] = slow
	}
	if hr.Ran {
		cov["bounded_replay"] = map[string]interface{}{
			"label": "bounded: random and seeded inputs run on the real code; not counted as proved", "evaluations": hr.Evals,
			"distinct_nontrivial": hr.Distinct, "rule": hr.Rule, "samples": hr.Samples, "seconds": hr.Secs,
		}
	}
	if len(knownHit) > 0 {
		var ks []string
		for k := range knownHit {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		cov["known_findings_reproduced"] = ks
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": levelOf(root, prop), "coverage": cov,
		"assumptions": assumptionsFor(trusted), "wall_s": time.Since(t0).Seconds(), "violations": viol,
	}
	if levelOf(root, prop) != "proof" {
		cov["explanation"] = "contract obligations discharged by SMT for the functions listed; the remainder of the property is covered by the bounded replay only (see DESIGN.md)"
		cov["evaluations"] = hr.Evals
		cov["distinct_nontrivial"] = hr.Distinct
		cov["rule"] = hr.Rule
		cov["samples"] = hr.Samples
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	jb, _ := json.MarshalIndent(ev, "", " ")
	die(os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(jb, '\n'), 0644))

	for _, r := range results {
		r.print()
	}
	fmt.Printf("property %s: %d units, %d obligations, %d discharged, harness %d evaluations, %.0fs\n", prop, len(results), obl, disch, hr.Evals, time.Since(t0).Seconds())
	if viol == 0 {
		return 0
	}
	rp := filepath.Join(root, "evidence", "replay", prop+".txt")
	os.MkdirAll(filepath.Dir(rp), 0755)
	var b strings.Builder
	for _, f := range open {
		fmt.Fprintf(&b, "failing input (real code): %s\n", f)
	}
	for _, f := range openProof {
		fmt.Fprintf(&b, "failed obligation: %s: %s\n", f.Name, f.Why)
		if f.Model != "" {
			fmt.Fprintf(&b, "  verifier model: %s\n", f.Model)
		}
	}
	if hr.Err != "" {
		fmt.Fprintf(&b, "%s\n", hr.Err)
	}
	if len(open) > 0 {
		fmt.Fprintf(&b, "replay: VERIF_SEED=%d ./check.sh %s   (harness in /verif/replay, test TestVerif_%s)\n%s\n", seed, prop, prop, hr.Output)
	}
	os.WriteFile(rp, []byte(b.String()), 0644)
	fmt.Print(b.String())
	if len(open) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
	}
	return 1
}

// runUnit runs a unit and, when that fails, once more with its invariants offered
// to all its loops.
func runUnit(cons []*Contract, exe, n string) *UnitResult {
	r := runWorker(exe, n)
	if r.ok() {
		return r
	}
	m := n
	if k := strings.Index(n, "@"); k > 0 {
		m = n[:k]
	}
	for _, c := range cons {
		if c.name == m && (len(c.LoopInv) > 0 || len(c.loopIn) > 0) {
			if r.Secs > 100 {
				break
			}
			if r2 := runWorker(exe, n, "GOVC_LOOSE=1"); r2.ok() {
				return r2
			}
			break
		}
	}
	return r
}

func runWorker(exe, n string, env ...string) *UnitResult {
	lim := 600 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		lim *= 3
	}
	left := lim - time.Since(procStart)
	if left < time.Second {
		return &UnitResult{Unit: n, Err: "time limit of the check reached before this unit"}
	}
	ctx, cancel := context.WithTimeout(context.Background(), left)
	defer cancel()
	cmd := osexec.CommandContext(ctx, exe, "worker", n)
	cmd.Env = append(os.Environ(), env...)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	r := &UnitResult{}
	if e := json.Unmarshal(bytes.TrimSpace(out), r); e != nil || r.Unit == "" {
		msg := fmt.Sprint("worker: ", err, " ", e)
		if s := eb.String(); s != "" {
			if len(s) > 600 {
				s = s[:600]
			}
			msg += " " + s
		}
		return &UnitResult{Unit: n, Err: msg}
	}
	r.Unit = n
	return r
}

func loadKnown(f, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(f)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C02 key=<key> <description>
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property="+prop+" key=") {
			continue
		}
		r := strings.TrimPrefix(l, "known: property="+prop+" key=")
		k, d := r, r
		if i := strings.Index(r, " "); i > 0 {
			k, d = r[:i], r[i+1:]
		}
		out[k] = d
	}
	return out
}

func levelOf(root, prop string) string {
	var m struct {
		Checks []struct{ Property, Level string }
	}
	b, err := os.ReadFile(filepath.Join(root, "MANIFEST.json"))
	if err == nil && json.Unmarshal(b, &m) == nil {
		for _, c := range m.Checks {
			if c.Property == prop {
				return c.Level
			}
		}
	}
	return "proof"
}

func assumptionsFor(trusted []string) []string {
	a := []string{
		"64-bit Go integers are treated as mathematical integers within their range (no wrap-around); narrower ones wrap",
		"math.Int / math.LegacyDec are integers (scaled by 10^18); values beyond their bit limits panic in the real code and are treated as arbitrary large numbers here",
		"partial correctness: runs that panic or do not terminate are outside the postconditions unless a unit is marked nopanic",
		"append copies: slices sharing a backing array are not modelled as aliased after append",
	}
	for _, t := range trusted {
		if strings.HasPrefix(t, "assumed contract:") || strings.Contains(t, "dispatch") || strings.Contains(t, "closed world") {
			a = append(a, t)
		}
	}
	return a
}

// goTool finds the go command on the PATH the repository is built with.
func goTool() string {
	for _, e := range repoEnv() {
		if !strings.HasPrefix(e, "PATH=") {
			continue
		}
		for _, d := range filepath.SplitList(strings.TrimPrefix(e, "PATH=")) {
			f := filepath.Join(d, "go")
			if st, err := os.Stat(f); err == nil && !st.IsDir() {
				return f
			}
		}
	}
	return "go"
}

// chunksOf names the worker runs that verify a contract.
func chunksOf(c *Contract) []string {
	if c == nil || c.NoVerify {
		return nil
	}
	n, _ := strconv.Atoi(c.opts["chunks"])
	if n < 2 {
		return []string{c.name}
	}
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprintf("%s@%d/%d", c.name, i, n))
	}
	return out
}
