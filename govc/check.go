package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// known findings: lines "property=<id> contract=<name> obligation=<text>"; lines starting with fixed: or # are ignored.
type finding struct{ prop, contract, obl, what string }

func knownFindings() []finding {
	var r []finding
	f, err := os.Open(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		p := strings.SplitN(strings.TrimPrefix(l, "finding: "), " | ", 4)
		if len(p) == 4 {
			r = append(r, finding{p[0], p[1], p[2], p[3]})
		}
	}
	return r
}

var backend = "z3 5.3.2, z3 4.8.12 and cvc5 1.1.2, generated by govc (/verif/govc) from the SSA form of /repo"

func check(prop, tier string) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.MkdirAll(filepath.Join(verifDir, "replays"), 0o755)
	replay := filepath.Join(verifDir, "replays", prop+".txt")
	violations, level := 0, "proof"
	var out strings.Builder
	violation := func(found bool, text string) {
		violations++
		fn := replay
		if violations > 1 {
			fn = filepath.Join(verifDir, "replays", fmt.Sprintf("%s-%d.txt", prop, violations))
		}
		os.WriteFile(fn, []byte(text), 0o644)
		l := "VIOLATION property=" + prop + " replay=" + fn
		if !found {
			l += " no-failing-input-found"
		}
		fmt.Fprintln(&out, l)
	}
	cov := map[string]interface{}{}
	var assumptions []string
	finish := func() int {
		ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
			"assumptions": assumptions, "wall_s": time.Since(t0).Seconds(), "violations": violations}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644)
		fmt.Print(out.String())
		if violations > 0 {
			return 1
		}
		return 0
	}
	cov["obligations"], cov["discharged"] = 0, 0
	cov["checker_cmd"] = fmt.Sprintf("cd %s && ./bin/govc check -prop %s -tier %s", verifDir, prop, tier)
	cov["trusted_base"] = []string{"govc's translation of Go SSA to SMT (golang.org/x/tools/go/ssa 0.52.0)", backend}
	ld, err := load()
	if err != nil {
		violation(false, "The contracts cannot be attached to the code: "+err.Error()+"\n")
		return finish()
	}
	for f := range droppedFiles {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "//verif:prop ") && hasWord(strings.TrimPrefix(l, "//verif:prop "), prop) {
				violation(false, "The contracts cannot be attached to the code: "+dropNote+"\n")
				return finish()
			}
		}
	}
	timeout := 40 * time.Second
	if tier == "thorough" {
		timeout = 150 * time.Second
	}
	proofDeadline = t0.Add(560 * time.Second)
	finished := make(chan bool)
	defer close(finished)
	go func() { // a change that sends the verifier out of bounds is reported, not waited for
		select {
		case <-finished:
		case <-time.After(820*time.Second - time.Since(t0)):
			fn := replay
			os.WriteFile(fn, []byte("property "+prop+": the obligations of the changed code were not discharged within the time limit\n"), 0o644)
			fmt.Println("VIOLATION property=" + prop + " replay=" + fn + " no-failing-input-found")
			os.Exit(1)
		}
	}()
	var work []*Contract
	inWork := map[*Contract]bool{}
	for _, c := range ld.contracts {
		if hasWord(strings.Join(c.props, " "), prop) {
			work = append(work, c)
			inWork[c] = true
		}
	}
	if len(work) == 0 {
		fmt.Println("no contract states property", prop)
		return 2
	}
	var bounded []*Contract
	for _, c := range work {
		if _, b := c.flags["bounded"]; b {
			bounded = append(bounded, c)
		}
	}
	var vs []*verdict
	var specs []string
	byProver := map[string]int{}
	funcs := map[string]bool{}
	notes := map[string]bool{}
	for i := 0; i < len(work); i++ {
		if f := work[i].flags["fnspec"]; f != "" {
			specs = append(specs, f+" meets "+work[i].name)
			continue
		}
		if _, b := work[i].flags["bounded"]; b {
			found := false
			for _, x := range bounded {
				found = found || x == work[i]
			}
			if !found {
				bounded = append(bounded, work[i])
			}
			continue
		}
		v := ld.verify(work[i], timeout)
		vs = append(vs, v)
		for _, u := range v.used {
			if !inWork[u] {
				inWork[u] = true
				work = append(work, u)
			}
		}
		fmt.Printf("%-60s %4d obligations %3d open  %.1fs %s\n", v.c.name, len(v.obls), len(v.failed), v.dur.Seconds(), v.err)
	}
	nob, ndis := 0, 0
	var cs []map[string]interface{}
	kinds := map[string]int{}
	for _, v := range vs {
		nob += len(v.obls)
		ndis += len(v.obls) - len(v.failed)
		for _, o := range v.obls {
			kinds[o.kind]++
			if o.res.status == "unsat" {
				byProver[o.res.prover]++
			}
		}
		for _, f := range v.funcs {
			funcs[f] = true
		}
		for _, n := range v.notes {
			notes[n] = true
		}
		m := map[string]interface{}{"contract": v.c.name, "obligations": len(v.obls), "open": len(v.failed), "seconds": v.dur.Seconds(), "loops_cut_at_invariants": v.loops}
		if v.c.subject != nil {
			m["subject"] = fnName(v.c.subject)
		}
		if v.err != "" {
			m["error"] = v.err
		}
		cs = append(cs, m)
	}
	known := knownFindings()
	nfail := 0
	for _, v := range vs {
		var open []*Obl
		for _, o := range v.failed {
			isKnown := false
			for _, k := range known {
				if k.prop == prop && k.contract == v.c.name && k.obl == o.name {
					isKnown = true
					fmt.Fprintf(&out, "KNOWN-FINDING: property=%s %s\n", prop, k.what)
				}
			}
			if !isKnown {
				open = append(open, o)
			}
		}
		if len(open) == 0 && v.err == "" {
			continue
		}
		nfail++
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s, contract %s", prop, v.c.name)
		if v.c.subject != nil {
			fmt.Fprintf(&sb, " of %s", fnName(v.c.subject))
		}
		sb.WriteString("\n")
		if v.err != "" {
			fmt.Fprintf(&sb, "the verifier could not discharge the contract: %s\n", v.err)
		}
		for _, o := range open {
			fmt.Fprintf(&sb, "open obligation: [%s] %s at %s\n  prover answer: %s\n", o.kind, o.name, o.pos, o.res.status)
			if g := termStr(o.goal, 0); g != "" {
				fmt.Fprintf(&sb, "  goal: %s\n", g)
			}
		}
		found := false
		if nfail <= 4 {
			secs := 45.0
			if time.Since(t0) > 600*time.Second {
				secs = 20
			}
			r := ld.native(v.c, 3000000, secs)
			if r.Found {
				found = true
				failText(&sb, v.c, r)
			} else {
				fmt.Fprintf(&sb, "\nno failing input found natively (%d inputs tried, %d satisfied the precondition)\n%s\n", r.Tried, r.Checked, r.log)
			}
		}
		violation(found, sb.String())
	}
	// contracts beyond the verifier's reach: bounded checks of the same contracts on the real code
	var bs []map[string]interface{}
	evals, distinct := 0, 0
	var samples []string
	if len(bounded) > 0 {
		secs := 7.0
		if len(bounded) > 4 {
			secs = 4
		}
		if tier == "thorough" {
			secs = 90
		}
		rs := make([]nativeResult, len(bounded))
		sem := make(chan bool, 4)
		var wg sync.WaitGroup
		for i := range bounded {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				rs[i] = ld.native(bounded[i], 3000000, secs)
				<-sem
			}()
		}
		wg.Wait()
		for i, c := range bounded {
			r := rs[i]
			fmt.Printf("%-60s bounded: %d inputs tried, %d checked, %d distinct\n", c.name, r.Tried, r.Checked, r.Distinct)
			evals += r.Checked
			distinct += r.Distinct
			for _, x := range r.Samples {
				samples = append(samples, c.name+": "+x)
			}
			m := map[string]interface{}{"contract": c.name, "why_not_proved": c.flags["bounded"], "inputs_tried": r.Tried,
				"inputs_satisfying_precondition": r.Checked, "distinct": r.Distinct, "bound": fmt.Sprintf("generated inputs, seed %d, %g s", seed, secs)}
			if c.subject != nil {
				m["subject"] = fnName(c.subject)
			}
			bs = append(bs, m)
			if r.Found || !r.ran {
				var sb strings.Builder
				fmt.Fprintf(&sb, "property %s, contract %s (bounded check)\n", prop, c.name)
				if r.Found {
					failText(&sb, c, r)
				} else {
					sb.WriteString("the contract could not be run:\n" + r.log)
				}
				violation(r.Found, sb.String())
			}
		}
		cov["bounded_standins"] = bs
		cov["evaluations"], cov["distinct_nontrivial"] = evals, distinct
		cov["rule"] = "inputs drawn by the contract's generator; counted when they satisfy the precondition, distinct by their full rendering"
		cov["samples"] = samples
		if len(vs) == 0 {
			level = "exploration"
			delete(cov, "obligations")
			delete(cov, "discharged")
		}
	}
	if violations > 1 { // inputs first: one line per failing contract, those with an input before the others
		ls := strings.Split(strings.TrimSpace(out.String()), "\n")
		sort.SliceStable(ls, func(i, j int) bool {
			return !strings.HasSuffix(ls[i], "no-failing-input-found") && strings.HasSuffix(ls[j], "no-failing-input-found")
		})
		// a failing input for the property settles it; open obligations without input are then only listed in the evidence
		var keep []string
		anyFound := false
		for _, l := range ls {
			nf := strings.HasSuffix(l, "no-failing-input-found")
			if nf && anyFound {
				continue
			}
			if strings.HasPrefix(l, "VIOLATION") && !nf {
				anyFound = true
			}
			keep = append(keep, l)
		}
		out.Reset()
		out.WriteString(strings.Join(keep, "\n") + "\n")
	}
	if len(vs) > 0 {
		cov["obligations"], cov["discharged"] = nob, ndis
	}
	cov["obligations_by_kind"] = kinds
	cov["discharged_by_backend"] = byProver
	cov["contracts"] = cs
	cov["functions_under_contract"] = keys(funcs)
	cov["solver_queries"] = stats.queries
	cov["solver_seconds"] = stats.time.Seconds()
	assumptions = append(assumptions, standingAssumptions...)
	assumptions = append(assumptions, keys(notes)...)
	for _, c := range bounded {
		if c.opaque {
			assumptions = append(assumptions, "the contract "+c.name+" is assumed at the calls of its function; it is checked by the bounded stand-in only")
		}
	}
	for _, s := range specs {
		assumptions = append(assumptions, "the functions stored in the field "+s)
	}
	return finish()
}

func failText(sb *strings.Builder, c *Contract, r nativeResult) {
	fmt.Fprintf(sb, "\nFAILING INPUT (found by running the contract natively against /repo, seed %d):\n", r.Seed)
	for i, in := range r.Inputs {
		nm := ""
		if i < len(c.fn.Params) {
			nm = c.fn.Params[i].Name()
		}
		fmt.Fprintf(sb, "  %s = %s\n", nm, in)
	}
	for _, f := range r.Failures {
		fmt.Fprintf(sb, "  violated: %s\n", f)
	}
	if r.Panic != "" {
		fmt.Fprintf(sb, "  panic: %s\n", r.Panic)
	}
}

var standingAssumptions = []string{
	"floating-point arithmetic is exact real arithmetic with explicit NaN and infinities: rounding, overflow to infinity and narrowing to float32 are not modelled; decimal literals denote their shortest decimal value",
	"signed and unsigned machine integers do not overflow (mod bit sets are exact 64-bit vectors)",
	"termination is not verified; functions are verified for the runs that return",
	"math.Sqrt, Pow, Log10, Cbrt, trigonometric functions: only the listed algebraic and monotonicity facts are used; strconv and strings functions are uninterpreted deterministic functions",
	"package variables keep their initial value unless the repository assigns them (then they are arbitrary); goroutine interleavings are not modelled",
}

func keys(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
