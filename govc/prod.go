package main

// Reasoning about products: linear abstraction with sign and monotonicity lemmas, and a rule that
// splits inequalities between products into inequalities between their factors.

import (
	"fmt"
	"math/big"
	"time"
)

// prodLemmas gives valid facts about the closed products and reciprocals occurring in the terms.
func prodLemmas(ts []*Term) []*Term {
	var muls, invs []*Term
	collect(ts, func(t *Term) {
		if len(t.bvs) > 0 || t.S != SReal {
			return
		}
		switch t.Op {
		case OMul:
			muls = append(muls, t)
		case OInv:
			invs = append(invs, t)
		}
	})
	if len(muls) > 80 {
		muls = muls[:80]
	}
	var out []*Term
	for _, v := range invs {
		x := v.A[0]
		out = append(out, Imp(Gt0(x), Gt0(v)), Imp(Gt0(Neg(x)), Gt0(Neg(v))))
	}
	for i, v := range invs {
		for _, w := range invs[:i] {
			x, y := v.A[0], w.A[0]
			out = append(out, Imp(And(Gt0(x), Le(x, y)), Le(w, v)), Imp(And(Gt0(y), Le(y, x)), Le(v, w)))
		}
	}
	for _, m := range muls {
		var ge, gt, z []*Term
		for _, f := range m.A {
			ge = append(ge, Ge0(f))
			gt = append(gt, Gt0(f))
			z = append(z, Eq0(f))
		}
		out = append(out, Imp(And(ge...), Ge0(m)), Imp(And(gt...), Gt0(m)), Imp(Or(z...), Eq0(m)))
		if len(m.A) == 2 {
			a, b := m.A[0], m.A[1]
			if a == b {
				out = append(out, Ge0(m))
			} else {
				na, nb := Ge0(Neg(a)), Ge0(Neg(b))
				out = append(out, Imp(And(na, nb), Ge0(m)), Imp(And(na, Ge0(b)), Ge0(Neg(m))), Imp(And(Ge0(a), nb), Ge0(Neg(m))))
			}
		}
		if len(m.A) <= 4 { // scaling by a factor on one side of 1
			for i, f := range m.A {
				rest := prodWithout(m, i)
				if rest == nil {
					continue
				}
				one := RealI(1)
				out = append(out, Imp(And(Ge0(rest), Le(f, one)), Le(m, rest)), Imp(And(Ge0(rest), Le(one, f)), Le(rest, m)))
				if f.Op == OInv {
					d := f.A[0]
					out = append(out, Imp(Gt0(d), And(Eq(Le(rest, d), Le(m, one)), Eq(Le(d, rest), Le(one, m)))))
					for j, g := range m.A {
						if g == f.A[0] {
							r := RealI(1)
							for k, h := range m.A {
								if k != i && k != j {
									r = Mul(r, h)
								}
							}
							out = append(out, Imp(Not(Eq0(g)), Eq0(Sub(m, r))))
							break
						}
					}
				}
			}
		}
	}
	// quotients compared with constants
	seen := map[string]bool{}
	collect(ts, func(t *Term) {
		if t.Op != OAdd || len(t.A) != 1 || t.R.Sign() == 0 || t.A[0].Op != OMul || len(t.bvs) > 0 {
			return
		}
		m := t.A[0]
		k := new(big.Rat).Neg(new(big.Rat).Quo(t.R, t.C[0]))
		for i, f := range m.A {
			if key := fmt.Sprintf("%d %d %s", m.ID, i, k); f.Op == OInv && !seen[key] && len(seen) < 60 {
				seen[key] = true
				rest, d, kt := prodWithout(m, i), f.A[0], Num(k, SReal)
				out = append(out, Imp(Gt0(d), And(Eq(Le(rest, Scale(d, k)), Le(m, kt)), Eq(Le(Scale(d, k), rest), Le(kt, m)))))
			}
		}
	})
	n, eqs := 0, 0
	for i, m := range muls {
		for _, o := range muls[:i] {
			common, a, b := splitCommon(m.A, o.A)
			if len(a) == len(b) && len(a) <= 2 && eqs < 300 && m.Op == OMul && o.Op == OMul {
				eqs++
				if len(a) == 1 {
					out = append(out, Imp(Eq(a[0], b[0]), Eq(m, o)))
				} else {
					out = append(out, Imp(Or(And(Eq(a[0], b[0]), Eq(a[1], b[1])), And(Eq(a[0], b[1]), Eq(a[1], b[0]))), Eq(m, o)))
				}
			}
			if len(a) != 1 || len(b) != 1 || len(common) == 0 || n > 300 {
				continue
			}
			n++
			var c []*Term
			for _, f := range common {
				c = append(c, Ge0(f))
			}
			cs := And(c...)
			out = append(out, Imp(And(cs, Le(a[0], b[0])), Le(m, o)), Imp(And(cs, Le(b[0], a[0])), Le(o, m)))
		}
	}
	return out
}

func prodWithout(m *Term, i int) *Term {
	r := RealI(1)
	for k, f := range m.A {
		if k != i {
			r = Mul(r, f)
		}
	}
	return r
}

// negLooking: a sum with a negative constant and no other negative part (x - 1)
func negLooking(f *Term) bool {
	if f.Op != OAdd || f.R.Sign() >= 0 {
		return false
	}
	for _, c := range f.C {
		if c.Sign() < 0 {
			return false
		}
	}
	return true
}

func prodOf(fs []*Term) *Term {
	r := RealI(1)
	for _, f := range fs {
		r = Mul(r, f)
	}
	return r
}

// splitCommon splits two factor multisets into their common part and the remainders.
func splitCommon(x, y []*Term) (common, a, b []*Term) {
	used := make([]bool, len(y))
	for _, f := range x {
		hit := false
		for j, g := range y {
			if !used[j] && f == g {
				used[j], hit = true, true
				break
			}
		}
		if hit {
			common = append(common, f)
		} else {
			a = append(a, f)
		}
	}
	for j, g := range y {
		if !used[j] {
			b = append(b, g)
		}
	}
	return
}

// linText is the query with products and reciprocals abstracted (sound: more models), or "" when there are none.
func linText(ts []*Term) string {
	ax := withAxioms(ts)
	has := false
	collect(ax, func(t *Term) {
		if (t.Op == OMul || t.Op == OInv) && t.S == SReal && len(t.bvs) == 0 {
			has = true
		}
	})
	if !has {
		return ""
	}
	ax = append(ax, prodLemmas(ax)...)
	return smtTextRaw(ax, nil, true)
}

// ---------- splitting goals

func simplifyBy(t *Term, known map[*Term]*Term) *Term { return Subst(t, known) }

func knownLits(facts []*Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, f := range facts {
		if f.Op == OAnd || f.Op == OTrue || f.Op == OFalse {
			continue
		}
		if f.Op == ONot {
			m[f.A[0]] = tFalse
			continue
		}
		m[f] = tTrue
		if n := Not(f); n.Op != ONot {
			m[n] = tFalse
		}
	}
	return m
}

type subGoal struct{ pc, goal *Term }

// alternatives gives lists of subgoals each of which suffices for the goal.
func (e *Exec) alternatives(facts []*Term, pc, goal *Term) [][]subGoal {
	switch goal.Op {
	case OAnd:
		var l []subGoal
		for _, g := range goal.A {
			l = append(l, subGoal{pc, g})
		}
		return [][]subGoal{l}
	case OOr:
		var res [][]subGoal
		for i, g := range goal.A {
			if g.Op == OGe0 || g.Op == OGt0 || g.Op == OAnd || g.Op == OOr || g.Op == OIte {
				p := pc
				for j, h := range goal.A {
					if j != i {
						p = And(p, Not(h))
					}
				}
				if hasMul(g) {
					res = append(res, []subGoal{{p, g}})
				}
			}
		}
		return res
	case OIte:
		return [][]subGoal{{{And(pc, goal.A[0]), goal.A[1]}, {And(pc, Not(goal.A[0])), goal.A[2]}}}
	case OEq0:
		x := goal.A[0]
		if x.Op == OIte {
			return [][]subGoal{{{And(pc, x.A[0]), Eq0(x.A[1])}, {And(pc, Not(x.A[0])), Eq0(x.A[2])}}}
		}
		if x.Op != OAdd || len(x.A) != 2 || x.R.Sign() != 0 || x.S != SReal {
			return nil
		}
		var res [][]subGoal
		_, fp := factor(x.A[0])
		_, fq := factor(x.A[1])
		common, a, b := splitCommon(fp, fq)
		p, q := Scale(prodOf(a), x.C[0]), Scale(prodOf(b), x.C[1])
		if len(common) > 0 {
			return [][]subGoal{{{pc, Eq0(Add(p, q))}}}
		}
		for _, t := range [][2]*Term{{p, q}, {q, p}} { // case split on a conditional factor
			_, ft := factor(t[0])
			for _, f := range ft {
				if f.Op == OIte {
					l := []subGoal{}
					for i, c := range []*Term{f.A[0], Not(f.A[0])} {
						l = append(l, subGoal{And(pc, c), Subst(goal, map[*Term]*Term{f: f.A[i+1]})})
					}
					return append(res, l)
				}
			}
		}
		if l := congruent(pc, x.A[0], x.A[1]); l != nil && x.C[0].Cmp(new(big.Rat).Neg(x.C[1])) == 0 {
			res = append(res, l)
		}
		return res
	case OGe0, OGt0:
		x := goal.A[0]
		rel := Ge0
		if goal.Op == OGt0 {
			rel = Gt0
		}
		if x.Op == OIte {
			return [][]subGoal{{{And(pc, x.A[0]), rel(x.A[1])}, {And(pc, Not(x.A[0])), rel(x.A[2])}}}
		}
		if x.Op == OMul {
			var res [][]subGoal
			if fs := oddFactors(x.A); len(fs) < len(x.A) && goal.Op == OGe0 { // squares
				return [][]subGoal{{{pc, rel(prodOf(fs))}}}
			}
			if fs, sign := e.positive(facts, pc, x.A); sign == 0 {
				var l []subGoal
				for _, f := range fs {
					l = append(l, subGoal{pc, rel(f)})
				}
				return append(res, l)
			}
			var l []subGoal
			for _, f := range x.A {
				l = append(l, subGoal{pc, rel(f)})
			}
			return append(res, l)
		}
		if x.Op != OAdd {
			return nil
		}
		if l := clearDenominator(pc, x, rel); l != nil {
			return [][]subGoal{l}
		}
		if goal.Op != OGe0 {
			return nil
		}
		var res [][]subGoal
		if len(x.A) == 2 && x.R.Sign() == 0 && x.C[0].Sign()*x.C[1].Sign() < 0 {
			p, q, cp, cq := x.A[0], x.A[1], x.C[0], new(big.Rat).Neg(x.C[1])
			if cp.Sign() < 0 {
				p, q, cp, cq = q, p, x.C[1], new(big.Rat).Neg(x.C[0])
			}
			if p.Op == OMul || q.Op == OMul {
				res = append(res, e.pairings(facts, pc, p, q, new(big.Rat).Quo(cp, cq))...)
			}
		}
		if len(x.A) == 1 && x.R.Sign() != 0 && x.A[0].Op == OMul { // c*M + k >= 0
			c, k := x.C[0], x.R
			if c.Sign() < 0 && k.Sign() > 0 { // M <= k/|c|
				res = append(res, e.pairings(facts, pc, RealI(1), x.A[0], new(big.Rat).Quo(k, new(big.Rat).Neg(c)))...)
			} else if c.Sign() > 0 && k.Sign() < 0 {
				res = append(res, e.pairings(facts, pc, x.A[0], RealI(1), new(big.Rat).Quo(c, new(big.Rat).Neg(k)))...)
			}
		}
		if l := monotone(pc, x); l != nil {
			res = append(res, l)
		}
		// a shared condition
		for i, a := range x.A {
			for j, b := range x.A {
				if i < j && a.Op == OIte && b.Op == OIte && a.A[0] == b.A[0] {
					var l []subGoal
					for k, c := range []*Term{a.A[0], Not(a.A[0])} {
						l = append(l, subGoal{And(pc, c), Subst(goal, map[*Term]*Term{a: a.A[k+1], b: b.A[k+1]})})
					}
					return append([][]subGoal{l}, res...)
				}
			}
		}
		if len(x.A) == 1 && x.R.Sign() == 0 && x.C[0].Sign() < 0 && x.A[0].Op == OMul { // -M >= 0
			if fs, sign := e.positive(facts, pc, x.A[0].A); sign == 1 {
				var l []subGoal
				for _, f := range fs {
					l = append(l, subGoal{pc, Ge0(f)})
				}
				res = append(res, l)
			}
		}
		// all summands non-negative
		opposite := len(x.A) == 2 && x.R.Sign() == 0 && x.C[0].Sign()*x.C[1].Sign() < 0
		if len(x.A) == 2 && x.R.Sign() == 0 && x.C[0].Sign() > 0 && x.C[1].Sign() > 0 {
			for i := range x.A { // p + c*m with m negative
				if x.A[i].Op != OMul {
					continue
				}
				if fs, sign := e.positive(facts, pc, x.A[i].A); sign == 1 {
					_, fp := factor(x.A[1-i])
					res = append(res, pairLists(pc, fp, fs, new(big.Rat).Quo(x.C[1-i], x.C[i]))...)
				}
			}
		}
		if f := undecided(pc, x); f != nil {
			res = append(res, []subGoal{{And(pc, Ge0(f)), goal}, {And(pc, Ge0(Neg(f))), goal}})
		}
		if x.R.Sign() >= 0 && !opposite {
			var l []subGoal
			for i, a := range x.A {
				l = append(l, subGoal{pc, Ge0(Scale(a, x.C[i]))})
			}
			if len(l) > 1 || x.R.Sign() > 0 {
				res = append(res, l)
			}
		}
		return res
	}
	return nil
}

// oddFactors leaves out pairs of equal factors.
func oddFactors(fs []*Term) []*Term {
	n := map[*Term]int{}
	for _, f := range fs {
		n[f]++
	}
	var r []*Term
	for _, f := range fs {
		if n[f]%2 == 1 {
			n[f] = 0
			r = append(r, f)
		}
	}
	return r
}

// undecided: a small factor of a product that looks negative and whose sign the path does not tell.
func undecided(pc, x *Term) *Term {
	known := knownLits(conj(pc))
	for _, a := range x.A {
		_, fs := factor(a)
		if len(fs) < 2 {
			continue
		}
		for _, f := range fs {
			if negLooking(f) && f.size < 6 && known[Ge0(f)] == nil && known[Ge0(Neg(f))] == nil {
				return f
			}
		}
	}
	return nil
}

// monotone: a difference of powers with the same exponent, or of sums compared summand by summand.
func monotone(pc, x *Term) []subGoal {
	if x.R.Sign() < 0 || x.S != SReal {
		return nil
	}
	var pos, neg []int
	for i, c := range x.C {
		if c.Sign() > 0 {
			pos = append(pos, i)
		} else {
			neg = append(neg, i)
		}
	}
	if len(pos) == 1 && len(neg) == 1 && x.R.Sign() == 0 && x.C[0].Cmp(new(big.Rat).Neg(x.C[1])) == 0 {
		a, b := x.A[pos[0]], x.A[neg[0]]
		if a.Op == OApp && a.Name == "pow" && b.Op == OApp && b.Name == "pow" && a.A[1] == b.A[1] {
			return []subGoal{{pc, Le(b.A[0], a.A[0])}, {pc, Ge0(b.A[0])}, {pc, Ge0(a.A[1])}}
		}
		return nil
	}
	if len(pos) < 2 || len(pos) != len(neg) || len(pos) > 6 {
		return nil
	}
	var l []subGoal
	used := map[int]bool{}
	for _, i := range pos {
		best, bs := -1, -1
		for _, j := range neg {
			if !used[j] && x.C[i].Cmp(new(big.Rat).Neg(x.C[j])) == 0 {
				if s := similar(x.A[i], x.A[j], 8); s > bs {
					best, bs = j, s
				}
			}
		}
		if best < 0 {
			return nil
		}
		used[best] = true
		l = append(l, subGoal{pc, Le(x.A[best], x.A[i])})
	}
	return l
}

func hasMul(t *Term) bool {
	r := false
	collect([]*Term{t}, func(x *Term) { r = r || x.Op == OMul })
	return r
}

// pairings: c*p >= q for products p and q, by factor-wise comparison.
func (e *Exec) pairings(facts []*Term, pc, p, q *Term, c *big.Rat) [][]subGoal {
	_, fp := factor(p)
	_, fq := factor(q)
	np, sp := e.positive(facts, pc, fp)
	nq, sq := e.positive(facts, pc, fq)
	var res [][]subGoal
	if sp >= 0 || sq >= 0 {
		switch {
		case sp != 1 && sq != 1:
			res = pairLists(pc, np, nq, c)
		case sp == 1 && sq == 1:
			res = pairLists(pc, nq, np, new(big.Rat).Inv(c))
		case sq == 1:
			var l []subGoal
			for _, f := range append(append([]*Term{}, np...), nq...) {
				l = append(l, subGoal{pc, Ge0(f)})
			}
			res = append(res, l)
		}
	}
	if len(res) > 0 {
		return res
	}
	return pairLists(pc, fp, fq, c)
}

// negative: a quick attempt to show that a factor is not positive.
func (e *Exec) negative(facts []*Term, pc, f *Term) bool {
	quick := func(goal *Term) bool {
		g := Subst(goal, knownLits(conj(pc)))
		if g.Op == OTrue || g.Op == OFalse {
			return g == tTrue
		}
		neg := []*Term{pc, Not(g)}
		ts := append(relevant(facts, neg, 2), neg...)
		if lt := linText(ts); lt != "" && cachedSolve(lt, 700*time.Millisecond) {
			return true
		}
		return cachedSolve(smtText(ts, nil), 700*time.Millisecond)
	}
	debugf("    sign of %s", dbgStr(f, 3))
	if f.size < 6 {
		return quick(Ge0(Neg(f)))
	}
	return !quick(Ge0(f)) && e.proveBySplitting(facts, pc, Ge0(Neg(f)), 3, time.Now().Add(5*time.Second), map[[2]*Term]bool{})
}

// positive replaces factors that look negative by their negations; the sign is -1 when there are none,
// otherwise the parity of their number.
func (e *Exec) positive(facts []*Term, pc *Term, fs []*Term) ([]*Term, int) {
	sign := -1
	var out []*Term
	for _, f := range fs {
		if negLooking(f) && e.negative(facts, pc, f) {
			f = Neg(f)
			if sign < 0 {
				sign = 0
			}
			sign ^= 1
		}
		out = append(out, f)
	}
	return out, sign
}

func pairLists(pc *Term, fp, fq []*Term, c *big.Rat) [][]subGoal {
	common, a, b := splitCommon(fp, fq)
	one := RealI(1)
	if c.Cmp(rOne) != 0 {
		n := 0
		for _, f := range b { // a constant that is a power goes to the repeated factors
			m := 0
			for _, g := range b {
				if f == g {
					m++
				}
			}
			if m > n {
				n = m
			}
		}
		if r := ratRoot(c, n); r != nil && n > 1 {
			for i := 0; i < n; i++ {
				a = append(a, Num(r, SReal))
			}
		} else {
			a = append(a, Num(c, SReal))
		}
	}
	for len(a) < len(b) {
		a = append(a, one)
	}
	for len(b) < len(a) {
		b = append(b, one)
	}
	if len(a) > 6 {
		return nil
	}
	// rank pairings by similarity
	n := len(a)
	sc := make([][]int, n)
	for i := range a {
		sc[i] = make([]int, n)
		for j := range b {
			sc[i][j] = similar(a[i], b[j], 8)
		}
	}
	type cand struct {
		p []int
		s int
	}
	var best []cand
	perm := make([]int, n)
	used := make([]bool, n)
	var rec func(i, s int)
	rec = func(i, s int) {
		if i == n {
			best = append(best, cand{append([]int{}, perm...), s})
			for k := len(best) - 1; k > 0 && best[k].s > best[k-1].s; k-- {
				best[k], best[k-1] = best[k-1], best[k]
			}
			if len(best) > 2 {
				best = best[:2]
			}
			return
		}
		for j := range b {
			if !used[j] {
				used[j] = true
				perm[i] = j
				rec(i+1, s+sc[i][j])
				used[j] = false
			}
		}
	}
	rec(0, 0)
	var res [][]subGoal
	for _, k := range best {
		var l []subGoal
		for _, f := range common {
			l = append(l, subGoal{pc, Ge0(f)})
		}
		for i := range a {
			l = append(l, subGoal{pc, Le(b[k.p[i]], a[i])}, subGoal{pc, Ge0(b[k.p[i]])})
		}
		res = append(res, l)
	}
	return res
}

func similar(a, b *Term, d int) int {
	if a == b {
		return 4
	}
	if a.Op != b.Op || a.Name != b.Name || len(a.A) != len(b.A) || d == 0 {
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if p[0].Op == OAdd && len(p[0].A) == 1 && p[0].A[0] == p[1] {
				return 3
			}
		}
		return 0
	}
	s := 1
	for i := range a.A {
		s += similar(a.A[i], b.A[i], d-1)
	}
	if s > 60 {
		s = 60
	}
	return s
}

// proveBySplitting tries to derive the goal from subgoals the solvers decide.
func (e *Exec) proveBySplitting(facts []*Term, pc, goal *Term, depth int, deadline time.Time, memo map[[2]*Term]bool) bool {
	if goal == tTrue || pc == tFalse {
		return true
	}
	if goal == tFalse || time.Now().After(deadline) {
		return false
	}
	if f := conj(pc); len(f) > 0 {
		goal = Subst(goal, knownLits(f))
	}
	if goal == tTrue {
		return true
	}
	key := [2]*Term{pc, goal}
	if e.shown[key] {
		return true
	}
	if _, ok := memo[key]; ok {
		return memo[key]
	}
	memo[key] = false
	first := depth > 0 && splitFirst(goal)
	if first {
		ok, n := e.splitGoal(facts, pc, goal, depth, deadline, memo)
		if ok {
			memo[key] = true
			return true
		}
		if n > 0 && depth < 8 && goal.size > 400 {
			return false
		}
	}
	t0 := time.Now()
	direct := e.proveDirect(facts, pc, goal, depth)
	debugf("    direct %v %v: %s", direct, time.Since(t0), dbgStr(goal, 3))
	if direct {
		memo[key] = true
		return true
	}
	if depth == 0 || first {
		return false
	}
	memo[key], _ = e.splitGoal(facts, pc, goal, depth, deadline, memo)
	return memo[key]
}

// clearDenominator multiplies a sum by a divisor shown positive.
func clearDenominator(pc, x *Term, rel func(*Term) *Term) []subGoal {
	if len(x.A) > 3 {
		return nil
	}
	var d *Term
	for _, a := range x.A {
		_, fs := factor(a)
		if len(fs) > 3 {
			return nil
		}
		for _, f := range fs {
			if f.Op == OInv && d == nil {
				d = f.A[0]
			}
		}
	}
	if d == nil {
		return nil
	}
	sum := Scale(d, x.R)
	for i, a := range x.A {
		k, fs := factor(a)
		r, done := Num(k, SReal), false
		for _, f := range fs {
			if !done && f.Op == OInv && f.A[0] == d {
				done = true
				continue
			}
			r = Mul(r, f)
		}
		if !done {
			r = Mul(r, d)
		}
		sum = Add(sum, Scale(r, x.C[i]))
	}
	return []subGoal{{pc, Gt0(d)}, {pc, rel(sum)}}
}

// splitFirst: goals over products of many factors are split before they are given to a solver.
func splitFirst(goal *Term) bool {
	if goal.Op == OOr {
		for _, g := range goal.A {
			if splitFirst(g) {
				return true
			}
		}
		return false
	}
	if goal.Op != OGe0 && goal.Op != OEq0 && goal.Op != OGt0 {
		return false
	}
	x := goal.A[0]
	big := func(t *Term) bool { return t.Op == OMul && len(t.A) > 2 || t.Op == OIte && hasMul(t) }
	if big(x) {
		return true
	}
	return x.Op == OAdd && len(x.A) == 2 && x.R.Sign() == 0 && (big(x.A[0]) || big(x.A[1]))
}

func (e *Exec) splitGoal(facts []*Term, pc, goal *Term, depth int, deadline time.Time, memo map[[2]*Term]bool) (bool, int) {
	alts := e.alternatives(facts, pc, goal)
	debugf("    %d alternatives (depth %d): %s", len(alts), depth, dbgStr(goal, 3))
	for _, alt := range alts {
		ok := true
		for _, s := range alt {
			if s.goal == tFalse {
				ok = false
			}
		}
		for _, s := range alt {
			if !ok || !e.proveBySplitting(facts, s.pc, s.goal, depth-1, deadline, memo) {
				ok = false
				debugf("    split %s: open %s", dbgStr(goal, 2), dbgStr(s.goal, 6))
				break
			}
		}
		if ok {
			return true, len(alts)
		}
	}
	return false, len(alts)
}

func (e *Exec) proveDirect(facts []*Term, pc, goal *Term, depth int) bool {
	neg := []*Term{pc, Not(goal)}
	full := append(append([]*Term{}, facts...), neg...)
	if lt := linText(append(relevant(facts, neg, 3), neg...)); lt != "" {
		if cachedSolve(lt, 1500*time.Millisecond) {
			return true
		}
	}
	if e.eagerFin {
		if gts := e.groundTexts(facts, pc, goal, 3); len(gts) > 0 && cachedSolve(gts[0], 1500*time.Millisecond) {
			return true
		}
	}
	near := append(relevant(facts, neg, 2), neg...)
	if len(near) < len(full) && cachedSolve(smtText(near, nil), 1200*time.Millisecond) {
		return true
	}
	if lt := linText(full); lt != "" && cachedSolve(lt, 1500*time.Millisecond) {
		return true
	}
	return cachedSolve(smtText(full, nil), 2500*time.Millisecond)
}

func cachedSolve(txt string, to time.Duration) bool {
	if v, ok := proofCache.Load(txt); ok {
		return v.(string) == "unsat"
	}
	r := solveText(txt, to)
	proofCache.Store(txt, r.status)
	return r.status == "unsat"
}

// finiteFV drops the non-finite flags of a float value when they are provably false here.
func (e *Exec) finiteFV(st *State, f *FV) *FV {
	if f.finite() || len(f.v.bvs) > 0 || len(st.pc.bvs) > 0 {
		return f
	}
	goal := And(Not(f.nan), Not(f.pinf), Not(f.ninf))
	if len(goal.bvs) > 0 {
		return f
	}
	if goal == tTrue {
		return fin(f.v)
	}
	var rest []*Term
	for _, g := range conj(goal) {
		if _, ok := e.factIdx[g]; !ok {
			rest = append(rest, g)
		}
	}
	g := Subst(And(rest...), knownLits(conj(st.pc)))
	t0 := time.Now()
	memo := map[[2]*Term]bool{}
	defer func() {
		for k, v := range memo {
			if v {
				e.shown[k] = true
			}
		}
	}()
	if g == tTrue || g != tFalse && e.proveBySplitting(e.facts, st.pc, g, 6, time.Now().Add(15*time.Second), memo) {
		e.assume(st.pc, goal)
		return fin(f.v)
	}
	debugf("  not shown finite (dry %d shape %d, %v): %s", e.dry, e.shape, time.Since(t0), dbgStr(g, 6))
	return f
}

// congruent: equalities between the differing parts of two terms of the same shape.
func congruent(pc, a, b *Term) []subGoal {
	var l []subGoal
	seen := map[[2]*Term]bool{}
	ok := true
	var walk func(a, b *Term, d int)
	walk = func(a, b *Term, d int) {
		if a == b || !ok || seen[[2]*Term{a, b}] {
			return
		}
		seen[[2]*Term{a, b}] = true
		if a.S != b.S || len(a.bvs) > 0 || len(b.bvs) > 0 || len(l) > 3 {
			ok = false
			return
		}
		same := a.Op == b.Op && a.Name == b.Name && len(a.A) == len(b.A) && len(a.A) > 0 && a.N == b.N && a.B == b.B && len(a.C) == len(b.C) && d < 12
		if same {
			for i := range a.C {
				same = same && a.C[i].Cmp(b.C[i]) == 0
			}
			if a.R != nil && b.R != nil {
				same = same && a.R.Cmp(b.R) == 0
			}
		}
		if !same {
			if d == 0 {
				ok = false
				return
			}
			g := Eq(a, b)
			if g == tFalse {
				ok = false
			}
			l = append(l, subGoal{pc, g})
			return
		}
		for i := range a.A {
			walk(a.A[i], b.A[i], d+1)
		}
	}
	walk(a, b, 0)
	if !ok || len(l) > 3 {
		return nil
	}
	return l
}

// ratRoot is the exact n-th root of a positive rational, or nil.
func ratRoot(c *big.Rat, n int) *big.Rat {
	if n < 2 || c.Sign() <= 0 {
		return nil
	}
	root := func(x *big.Int) *big.Int {
		lo, hi := big.NewInt(0), new(big.Int).Add(x, big.NewInt(1))
		for new(big.Int).Sub(hi, lo).Cmp(big.NewInt(1)) > 0 {
			m := new(big.Int).Rsh(new(big.Int).Add(lo, hi), 1)
			if new(big.Int).Exp(m, big.NewInt(int64(n)), nil).Cmp(x) <= 0 {
				lo = m
			} else {
				hi = m
			}
		}
		if new(big.Int).Exp(lo, big.NewInt(int64(n)), nil).Cmp(x) != 0 {
			return nil
		}
		return lo
	}
	a, b := root(c.Num()), root(c.Denom())
	if a == nil || b == nil {
		return nil
	}
	return new(big.Rat).SetFrac(a, b)
}
