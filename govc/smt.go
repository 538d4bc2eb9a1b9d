package main

// Printing queries as SMT-LIB and running the solver portfolio.

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---------- axioms for uninterpreted functions

type axiomGen func(t *Term) []*Term

var axioms = map[string]axiomGen{}

// closeOver universally closes a formula over its free bound variables.
func closeOver(f *Term, binders map[int]*Term) *Term {
	for len(f.bvs) > 0 {
		f = Forall(binders[f.bvs[0]], f)
	}
	return f
}

var binderTab = map[int]*Term{}

func init() {
	_ = os.Stderr
}

type query struct {
	terms []*Term // asserted
}

type printer struct {
	sb      strings.Builder
	names   map[*Term]string
	decl    map[string]bool
	decls   strings.Builder
	defs    strings.Builder
	n       int
	strs    map[string]string
	harrs   []*Term
	count   map[*Term]int
	strBusy bool
	abs     bool // products and reciprocals print as constants
}

func sym(s string) string {
	switch s {
	case "sin", "cos", "tan", "exp", "sqrt", "pi", "arctan", "arccos", "arcsin", "abs": // cvc5 knows these names
		s = "f:" + s
	}
	return "|" + strings.ReplaceAll(s, "|", "!") + "|"
}

func ratSMT(r *big.Rat, s *Sort) string {
	if s == SInt {
		if r.Sign() < 0 {
			return "(- " + new(big.Int).Neg(r.Num()).String() + ")"
		}
		return r.Num().String()
	}
	f := func(x *big.Int) string { return x.String() + ".0" }
	a := new(big.Int).Abs(r.Num())
	t := f(a)
	if !r.IsInt() {
		t = "(/ " + f(a) + " " + f(r.Denom()) + ")"
	}
	if r.Sign() < 0 {
		t = "(- " + t + ")"
	}
	return t
}

func (p *printer) declare(name, sig string) {
	if !p.decl[name] {
		p.decl[name] = true
		fmt.Fprintf(&p.decls, "(declare-fun %s %s)\n", name, sig)
	}
}

func (p *printer) countRefs(t *Term) {
	p.count[t]++
	if p.count[t] > 1 {
		return
	}
	for _, a := range t.A {
		p.countRefs(a)
	}
}

// expr returns the text of a term; closed shared terms become define-funs.
func (p *printer) expr(t *Term, env map[*Term]string) string {
	if s, ok := p.names[t]; ok {
		return s
	}
	if env != nil {
		if s, ok := env[t]; ok {
			return s
		}
	}
	s := p.raw(t, env)
	if len(t.bvs) == 0 && len(t.A) > 0 {
		if p.count[t] > 1 && len(s) > 40 {
			p.n++
			n := fmt.Sprintf("d%d", p.n)
			fmt.Fprintf(&p.defs, "(define-fun %s () %s %s)\n", n, t.S.SMT(), s)
			p.names[t] = n
			return n
		}
		p.names[t] = s
	}
	return s
}

func (p *printer) raw(t *Term, env map[*Term]string) string {
	list := func(op string) string {
		var sb strings.Builder
		sb.WriteString("(" + op)
		for _, a := range t.A {
			sb.WriteByte(' ')
			sb.WriteString(p.expr(a, env))
		}
		sb.WriteByte(')')
		return sb.String()
	}
	switch t.Op {
	case ONum:
		return ratSMT(t.R, t.S)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OBV:
		return fmt.Sprintf("#x%016x", t.B)
	case OStr:
		if n, ok := p.strs[t.Name]; ok {
			return n
		}
		n := fmt.Sprintf("str%d", len(p.strs))
		p.strs[t.Name] = n
		p.declare(n, "() Str")
		return n
	case OVar:
		n := sym(t.Name)
		p.declare(n, "() "+t.S.SMT())
		return n
	case OBound:
		return t.Name
	case ONewRef:
		return fmt.Sprintf("(- %d)", t.N)
	case OApp:
		if len(t.A) == 0 {
			p.declare(sym(t.Name), "() "+t.S.SMT())
			return sym(t.Name)
		}
		var sig strings.Builder
		sig.WriteByte('(')
		for _, a := range t.A {
			sig.WriteString(a.S.SMT() + " ")
		}
		sig.WriteString(") " + t.S.SMT())
		p.declare(sym(t.Name), sig.String())
		return list(sym(t.Name))
	case ONot:
		return list("not")
	case OAnd:
		return list("and")
	case OOr:
		return list("or")
	case OIte:
		return list("ite")
	case OEq:
		return list("=")
	case OEq0, OGe0, OGt0:
		op := map[Op]string{OEq0: "=", OGe0: ">=", OGt0: ">"}[t.Op]
		x := t.A[0]
		if x.Op == OAdd {
			var l, r []string
			for i, a := range x.A {
				c := x.C[i]
				e := p.expr(a, env)
				ab := new(big.Rat).Abs(c)
				if ab.Cmp(rOne) != 0 {
					e = "(* " + ratSMT(ab, x.S) + " " + e + ")"
				}
				if c.Sign() > 0 {
					l = append(l, e)
				} else {
					r = append(r, e)
				}
			}
			if x.R.Sign() > 0 {
				l = append(l, ratSMT(x.R, x.S))
			} else if x.R.Sign() < 0 {
				r = append(r, ratSMT(new(big.Rat).Neg(x.R), x.S))
			}
			sum := func(xs []string) string {
				switch len(xs) {
				case 0:
					return ratSMT(rZero, x.S)
				case 1:
					return xs[0]
				}
				return "(+ " + strings.Join(xs, " ") + ")"
			}
			return "(" + op + " " + sum(l) + " " + sum(r) + ")"
		}
		return "(" + op + " " + p.expr(x, env) + " " + ratSMT(rZero, x.S) + ")"
	case OAdd:
		var xs []string
		for i, a := range t.A {
			e := p.expr(a, env)
			if t.C[i].Cmp(rOne) != 0 {
				e = "(* " + ratSMT(t.C[i], t.S) + " " + e + ")"
			}
			xs = append(xs, e)
		}
		if t.R.Sign() != 0 {
			xs = append(xs, ratSMT(t.R, t.S))
		}
		if len(xs) == 1 {
			return xs[0]
		}
		return "(+ " + strings.Join(xs, " ") + ")"
	case OMul:
		if p.abs && t.S == SReal && len(t.bvs) == 0 {
			n := fmt.Sprintf("nl%d", t.ID)
			p.declare(n, "() Real")
			return n
		}
		return list("*")
	case OInv:
		if p.abs && len(t.bvs) == 0 {
			n := fmt.Sprintf("nl%d", t.ID)
			p.declare(n, "() Real")
			return n
		}
		return "(/ 1.0 " + p.expr(t.A[0], env) + ")"
	case OIDiv:
		return fmt.Sprintf("(div %s %d)", p.expr(t.A[0], env), t.N)
	case OToReal:
		return list("to_real")
	case OFloor:
		return list("to_int")
	case OSelect:
		return list("select")
	case OStore:
		return list("store")
	case OConstArr:
		return "((as const " + t.S.SMT() + ") " + p.expr(t.A[0], env) + ")"
	case OHArr:
		n := sym(t.Name)
		p.declare(n, "() "+t.S.SMT())
		seen := false
		for _, h := range p.harrs {
			seen = seen || h == t
		}
		if !seen {
			p.harrs = append(p.harrs, t)
			p.countRefs(t.A[0])
		}
		return n
	case OBit:
		return fmt.Sprintf("(= ((_ extract %d %d) %s) #b1)", t.N, t.N, p.expr(t.A[0], env))
	case OBVAnd:
		return list("bvand")
	case OBVOr:
		return list("bvor")
	case OBVXor:
		return list("bvxor")
	case OBVNot:
		return list("bvnot")
	case OBVShl:
		return fmt.Sprintf("(bvshl %s #x%016x)", p.expr(t.A[0], env), t.N)
	case OBVShr:
		return fmt.Sprintf("(bvashr %s #x%016x)", p.expr(t.A[0], env), t.N)
	case OForall, OExists:
		return p.quant(t, env)
	}
	panic(fmt.Sprintf("print op %d", t.Op))
}

func (p *printer) quant(t *Term, env map[*Term]string) string {
	q := "forall"
	if t.Op == OExists {
		q = "exists"
	}
	body := t.A[0]
	// let-bind subterms of the body that mention the bound variable and occur more than once
	cnt := map[*Term]int{}
	var order []*Term
	var walk func(x *Term)
	walk = func(x *Term) {
		if !hasBV(x, t.N) {
			return
		}
		if env != nil {
			if _, ok := env[x]; ok {
				return
			}
		}
		cnt[x]++
		if cnt[x] > 1 {
			return
		}
		if x.Op != OForall && x.Op != OExists {
			for _, a := range x.A {
				walk(a)
			}
		}
		order = append(order, x)
	}
	walk(body)
	ne := map[*Term]string{}
	for k, v := range env {
		ne[k] = v
	}
	var lets []string
	for _, x := range order {
		if cnt[x] > 1 && len(x.A) > 0 && x != body {
			s := p.raw(x, ne)
			if len(s) > 30 {
				p.n++
				n := fmt.Sprintf("l%d", p.n)
				lets = append(lets, "("+n+" "+s+")")
				ne[x] = n
			}
		}
	}
	s := p.raw(body, ne)
	for i := len(lets) - 1; i >= 0; i-- {
		s = "(let (" + lets[i] + ") " + s + ")"
	}
	return fmt.Sprintf("(%s ((q%d %s)) %s)", q, t.N, t.Name, s)
}

// collectApps gathers all subterms of the given terms.
func collect(ts []*Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.A {
			walk(a)
		}
		f(t)
	}
	for _, t := range ts {
		walk(t)
	}
}

// withAxioms adds instances of the axioms of every uninterpreted application occurring.
func withAxioms(ts []*Term) []*Term {
	out := append([]*Term{}, ts...)
	seen := map[*Term]bool{}
	byName := map[string][]*Term{}
	for round := 0; round < 2; round++ {
		var newApps []*Term
		collect(out, func(t *Term) {
			if t.Op == OApp && !seen[t] {
				seen[t] = true
				newApps = append(newApps, t)
			}
		})
		if len(newApps) == 0 {
			break
		}
		for _, t := range newApps {
			if g, ok := axioms[t.Name]; ok {
				for _, f := range g(t) {
					out = append(out, closeOver(f, binderTab))
				}
			}
			if g, ok := pairAxioms[t.Name]; ok {
				for _, o := range byName[t.Name] {
					if len(byName[t.Name]) > 24 {
						break
					}
					for _, f := range g(t, o) {
						if len(f.bvs) == 0 {
							out = append(out, f)
						}
					}
				}
				if len(t.bvs) == 0 {
					byName[t.Name] = append(byName[t.Name], t)
				}
			}
		}
	}
	return out
}

var pairAxioms = map[string]func(a, b *Term) []*Term{}

func smtText(ts []*Term, getVals []*Term) string {
	return smtTextRaw(withAxioms(ts), getVals, false)
}

func smtTextRaw(ts []*Term, getVals []*Term, abs bool) string {
	p := &printer{abs: abs, names: map[*Term]string{}, decl: map[string]bool{}, strs: map[string]string{}, count: map[*Term]int{}}
	for _, t := range ts {
		p.countRefs(t)
	}
	var as strings.Builder
	for _, t := range ts {
		s := p.expr(t, nil)
		as.WriteString("(assert " + s + ")\n")
	}
	for i := 0; i < len(p.harrs); i++ {
		h := p.harrs[i]
		b := p.expr(h.A[0], nil)
		fmt.Fprintf(&as, "(assert (forall ((hi Int)) (! (=> (> hi (- %d)) (= (select %s hi) (select %s hi))) :pattern ((select %s hi)))))\n", h.N, sym(h.Name), b, sym(h.Name))
	}
	var vals strings.Builder
	if len(getVals) > 0 {
		vals.WriteString("(get-value (")
		for _, v := range getVals {
			vals.WriteString(p.expr(v, nil) + " ")
		}
		vals.WriteString("))\n")
	}
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	sb.WriteString("(declare-sort Str 0)\n")
	sb.WriteString(p.decls.String())
	if len(p.strs) > 0 {
		var ns []string
		for _, n := range p.strs {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		if len(ns) > 1 {
			sb.WriteString("(assert (distinct " + strings.Join(ns, " ") + "))\n")
		}
	}
	sb.WriteString(p.defs.String())
	sb.WriteString(as.String())
	sb.WriteString("(check-sat)\n")
	sb.WriteString(vals.String())
	return sb.String()
}

// ---------- solvers

type solverCfg struct {
	name string
	argv func(timeout time.Duration) []string
}

var z3new = solverCfg{"z3-5.3.2", func(t time.Duration) []string {
	return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", t.Milliseconds()), "-memory:3000"}
}}
var z3newNL = solverCfg{"z3-5.3.2(arith.solver=2)", func(t time.Duration) []string {
	return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", t.Milliseconds()), "-memory:3000", "smt.arith.solver=2", "smt.random_seed=7"}
}}
var z3old = solverCfg{"z3-4.8.12", func(t time.Duration) []string {
	return []string{"z3", "-in", fmt.Sprintf("-t:%d", t.Milliseconds()), "-memory:3000"}
}}
var cvc5s = solverCfg{"cvc5-1.1.2", func(t time.Duration) []string {
	return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", t.Milliseconds()), "--produce-models", "-"}
}}
var cvc5q = solverCfg{"cvc5-1.1.2(enum-inst)", func(t time.Duration) []string {
	return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", t.Milliseconds()), "--enum-inst", "-"}
}}

var solverSem = make(chan struct{}, 8)

type solveStats struct {
	sync.Mutex
	queries  int
	time     time.Duration
	byProver map[string]int
}

var stats = solveStats{byProver: map[string]int{}}

func runSolver(ctx context.Context, cfg solverCfg, text string, timeout time.Duration) (string, string) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return "unknown", ""
	}
	c2, cancel := context.WithTimeout(ctx, timeout+2*time.Second)
	defer cancel()
	av := cfg.argv(timeout)
	cmd := exec.CommandContext(c2, av[0], av[1:]...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	d := time.Since(t0)
	stats.Lock()
	stats.queries++
	stats.time += d
	stats.Unlock()
	o := out.String()
	// a warning or declaration echo may precede the verdict
	for _, l := range strings.Split(o, "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" {
			return l, o
		}
		if strings.HasPrefix(l, "(error") {
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "SOLVER ERROR", cfg.name, l)
				os.WriteFile("/tmp/govc_err.smt2", []byte(text), 0o644)
			}
			return "error", o
		}
	}
	return "unknown", o
}

type proofResult struct {
	status string // unsat sat unknown
	prover string
	out    string
	dur    time.Duration
}

// solve decides satisfiability of the conjunction.
func solve(ts []*Term, timeout time.Duration, getVals []*Term) proofResult {
	for _, t := range ts {
		if t == tFalse {
			return proofResult{"unsat", "simplifier", "", 0}
		}
	}
	text := smtText(ts, getVals)
	return solveText(text, timeout)
}

// proofDeadline: after it nothing more is proved in this run.
var proofDeadline time.Time

func solveText(text string, timeout time.Duration) proofResult {
	t0 := time.Now()
	if !proofDeadline.IsZero() && t0.After(proofDeadline) {
		return proofResult{"unknown", "", "out of time", 0}
	}
	ctx := context.Background()
	first := 1500 * time.Millisecond
	if timeout < first {
		first = timeout
	}
	r, o := runSolver(ctx, z3new, text, first)
	if r == "unsat" || r == "sat" {
		return proofResult{r, z3new.name, o, time.Since(t0)}
	}
	if timeout <= first {
		return proofResult{"unknown", "", o, time.Since(t0)}
	}
	ctx, cancel := context.WithCancel(ctx)
	defer cancel()
	type res struct{ r, o, n string }
	cfgs := []solverCfg{z3newNL, z3old, cvc5s, z3new}
	if timeout > 8*time.Second {
		cfgs = append(cfgs, cvc5q)
	}
	ch := make(chan res, len(cfgs))
	for _, c := range cfgs {
		c := c
		go func() {
			r, o := runSolver(ctx, c, text, timeout)
			ch <- res{r, o, c.name}
		}()
	}
	best := proofResult{"unknown", "", o, 0}
	for range cfgs {
		x := <-ch
		if x.r == "unsat" || x.r == "sat" {
			return proofResult{x.r, x.n, x.o, time.Since(t0)}
		}
	}
	best.dur = time.Since(t0)
	return best
}

// relevant filters facts to those connected with the goal through shared symbols, up to the given depth.
func relevant(facts []*Term, goal []*Term, depth int) []*Term {
	syms := func(t *Term) []*Term {
		var r []*Term
		collect([]*Term{t}, func(x *Term) {
			if x.Op == OVar || x.Op == OHArr || (x.Op == OApp && len(x.bvs) == 0) {
				r = append(r, x)
			}
		})
		return r
	}
	fs := make([][]*Term, len(facts))
	freq := map[*Term]int{}
	for i, f := range facts {
		fs[i] = syms(f)
		for _, s := range fs[i] {
			freq[s]++
		}
	}
	cur := map[*Term]bool{}
	for _, g := range goal {
		for _, s := range syms(g) {
			cur[s] = true
		}
	}
	in := make([]bool, len(facts))
	for d := 0; d < depth; d++ {
		var add []int
		for i := range facts {
			if in[i] {
				continue
			}
			for _, s := range fs[i] {
				if cur[s] {
					add = append(add, i)
					break
				}
			}
		}
		if len(add) == 0 {
			break
		}
		for _, i := range add {
			in[i] = true
			for _, s := range fs[i] {
				cur[s] = true
			}
		}
	}
	var out []*Term
	for i, f := range facts {
		if in[i] || len(fs[i]) == 0 {
			out = append(out, f)
		}
	}
	return out
}

func parseModel(out string) []string { // values of a get-value answer, in order
	i := strings.Index(out, "((")
	if i < 0 {
		return nil
	}
	s := out[i:]
	// tokenise s-expressions
	var pos int
	var parse func() interface{}
	skip := func() {
		for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t' || s[pos] == '\r') {
			pos++
		}
	}
	parse = func() interface{} {
		skip()
		if pos >= len(s) {
			return nil
		}
		if s[pos] == '(' {
			pos++
			var l []interface{}
			for {
				skip()
				if pos >= len(s) {
					return l
				}
				if s[pos] == ')' {
					pos++
					return l
				}
				l = append(l, parse())
			}
		}
		st := pos
		if s[pos] == '|' {
			pos++
			for pos < len(s) && s[pos] != '|' {
				pos++
			}
			pos++
			return s[st:pos]
		}
		for pos < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[pos])) {
			pos++
		}
		return s[st:pos]
	}
	l, ok := parse().([]interface{})
	if !ok {
		return nil
	}
	var r []string
	for _, e := range l {
		p, ok := e.([]interface{})
		if !ok || len(p) < 2 {
			r = append(r, "")
			continue
		}
		r = append(r, sexprVal(p[len(p)-1]))
	}
	return r
}

func sexprVal(x interface{}) string {
	switch v := x.(type) {
	case string:
		return v
	case []interface{}:
		if len(v) == 2 && v[0] == "-" {
			return "-" + sexprVal(v[1])
		}
		if len(v) == 3 && v[0] == "/" {
			a, e1 := strconv.ParseFloat(sexprVal(v[1]), 64)
			b, e2 := strconv.ParseFloat(sexprVal(v[2]), 64)
			if e1 == nil && e2 == nil && b != 0 {
				return strconv.FormatFloat(a/b, 'g', -1, 64)
			}
		}
	}
	return ""
}
