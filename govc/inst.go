package main

// Quantifier instantiation: the negated goal is skolemised and the universally quantified facts are replaced by
// the instances suggested by the array cells and function applications in sight. Dropping the rest is sound
// (fewer assumptions), and leaves a query without quantifiers.

import (
	"math/big"
	"strings"
	"time"
)

type instQuant struct {
	q    *Term // the quantified formula
	bv   *Term
	body *Term
	pats []instPat
	done map[*Term]bool
}

// instPat: an occurrence key(index) with index = sign*bv + rest, rest ground.
type instPat struct {
	key  string
	rest *Term
	neg  bool
}

type inster struct {
	ground []*Term
	quants []*instQuant
	seen   map[*Term]bool
	cells  map[string][]*Term // indices seen under a key
	cseen  map[string]map[*Term]bool
	walked map[*Term]bool
	n      int
}

func hasQuant(t *Term) bool {
	r := false
	collect([]*Term{t}, func(x *Term) { r = r || x.Op == OForall || x.Op == OExists })
	return r
}

// nnf pushes negations down to where no quantifier is below.
func nnf(t *Term, pos bool) *Term {
	if !hasQuant(t) {
		if pos {
			return t
		}
		return Not(t)
	}
	switch t.Op {
	case ONot:
		return nnf(t.A[0], !pos)
	case OAnd, OOr:
		var l []*Term
		for _, a := range t.A {
			l = append(l, nnf(a, pos))
		}
		if (t.Op == OAnd) == pos {
			return And(l...)
		}
		return Or(l...)
	case OIte:
		return And(Or(nnf(t.A[0], false), nnf(t.A[1], pos)), Or(nnf(t.A[0], true), nnf(t.A[2], pos)))
	case OEq:
		if t.A[0].S == SBool {
			return And(Or(nnf(t.A[0], false), nnf(t.A[1], pos)), Or(nnf(t.A[0], true), nnf(t.A[1], !pos)))
		}
	case OForall, OExists:
		b := nnf(t.A[0], pos)
		if (t.Op == OForall) == pos {
			return Forall(binderTab[t.N], b)
		}
		return Exists(binderTab[t.N], b)
	}
	return nil // a quantifier inside a term
}

func (g *inster) add(t *Term) {
	if t == nil || t == tTrue || g.seen[t] || g.n > 6000 {
		return
	}
	g.seen[t] = true
	g.n++
	if !hasQuant(t) {
		if len(t.bvs) == 0 {
			g.ground = append(g.ground, t)
		}
		return
	}
	switch t.Op {
	case OAnd:
		for _, a := range t.A {
			g.add(a)
		}
	case OForall:
		bv := binderTab[t.N]
		if t.A[0].Op == OAnd {
			for _, a := range t.A[0].A {
				g.add(Forall(bv, a))
			}
			return
		}
		g.quants = append(g.quants, &instQuant{q: t, bv: bv, body: t.A[0], done: map[*Term]bool{}})
	case OExists:
		g.add(Subst(t.A[0], map[*Term]*Term{binderTab[t.N]: Var("sk", binderTab[t.N].S)}))
	case OOr:
		for i, a := range t.A {
			if !hasQuant(a) {
				continue
			}
			var l []*Term
			for j, b := range t.A {
				if j != i {
					l = append(l, b)
				}
			}
			rest := Or(l...)
			switch a.Op {
			case OForall:
				g.add(Forall(binderTab[a.N], Or(rest, a.A[0])))
			case OAnd:
				for _, x := range a.A {
					g.add(Or(rest, x))
				}
			case OExists:
				g.add(Or(rest, Subst(a.A[0], map[*Term]*Term{binderTab[a.N]: Var("sk", binderTab[a.N].S)})))
			}
			return
		}
	}
}

func rootKeys(t *Term, out map[string]bool, d int) {
	if d > 40 || len(out) > 4 {
		return
	}
	switch t.Op {
	case OSelect, OStore, OHArr:
		rootKeys(t.A[0], out, d+1)
	case OIte:
		rootKeys(t.A[1], out, d+1)
		rootKeys(t.A[2], out, d+1)
	case OVar:
		n := t.Name
		if i := strings.LastIndexByte(n, '!'); i > 0 {
			all := true
			for _, c := range n[i+1:] {
				all = all && c >= '0' && c <= '9'
			}
			if all {
				n = n[:i]
			}
		}
		if i := strings.IndexAny(n, ":!"); i >= 0 {
			n = n[i+1:]
		}
		out[n+"/"+t.S.SMT()] = true
	case OApp:
		out["@"+t.Name] = true
	default:
		out["?"+t.S.SMT()] = true
	}
}

// occ calls f for every indexed occurrence in t.
func occ(t *Term, f func(key string, idx *Term)) {
	collect([]*Term{t}, func(x *Term) {
		switch x.Op {
		case OSelect:
			if x.A[1].S != SInt {
				return
			}
			ks := map[string]bool{}
			rootKeys(x.A[0], ks, 0)
			depth := "#"
			for a := x.A[0]; a.Op == OSelect; a = a.A[0] {
				depth += "#"
			}
			for k := range ks {
				f(depth+k, x.A[1])
			}
		case OApp:
			for i, a := range x.A {
				if a.S == SInt {
					f("f"+x.Name+string(rune('0'+i)), a)
				}
			}
		}
	})
}

func (q *instQuant) patterns() {
	if q.pats != nil {
		return
	}
	q.pats = []instPat{}
	seen := map[string]map[*Term]bool{}
	occ(q.body, func(key string, idx *Term) {
		if !hasBV(idx, q.bv.N) || len(idx.bvs) != 1 {
			return
		}
		if seen[key] == nil {
			seen[key] = map[*Term]bool{}
		}
		if seen[key][idx] {
			return
		}
		seen[key][idx] = true
		if idx == q.bv {
			q.pats = append(q.pats, instPat{key, Int(0), false})
			return
		}
		if idx.Op != OAdd {
			return
		}
		for i, a := range idx.A {
			if a == q.bv && idx.C[i].IsInt() && (idx.C[i].Cmp(rOne) == 0 || idx.C[i].Cmp(big.NewRat(-1, 1)) == 0) {
				rest := Sub(idx, Scale(q.bv, idx.C[i]))
				if len(rest.bvs) == 0 {
					q.pats = append(q.pats, instPat{key, rest, idx.C[i].Sign() < 0})
				}
			}
		}
	})
}

// round adds the instances suggested by the cells seen so far.
func (g *inster) round() bool {
	for _, t := range g.ground {
		if g.walked[t] {
			continue
		}
		g.walked[t] = true
		occ(t, func(key string, idx *Term) {
			if len(idx.bvs) > 0 {
				return
			}
			if g.cseen[key] == nil {
				g.cseen[key] = map[*Term]bool{}
			}
			if !g.cseen[key][idx] {
				g.cseen[key][idx] = true
				g.cells[key] = append(g.cells[key], idx)
			}
		})
	}
	n0 := g.n
	for qi := 0; qi < len(g.quants); qi++ {
		q := g.quants[qi]
		if q.bv.S != SInt {
			continue
		}
		q.patterns()
		for _, p := range q.pats {
			for _, idx := range g.cells[p.key] {
				c := Sub(idx, p.rest)
				if p.neg {
					c = Neg(c)
				}
				if q.done[c] || len(q.done) > 120 {
					continue
				}
				q.done[c] = true
				g.add(Subst(q.body, map[*Term]*Term{q.bv: c}))
			}
		}
	}
	return g.n > n0
}

// groundTexts gives quantifier-free weakenings of the obligation, in growing size.
func (e *Exec) groundTexts(facts []*Term, pc, goal *Term, rounds int) []string {
	var out []string
	for _, l := range e.groundForms(facts, pc, goal, rounds) {
		if t := linText(l); t != "" {
			out = append(out, t)
		}
		out = append(out, smtText(l, nil))
	}
	return out
}

func (e *Exec) groundForms(facts []*Term, pc, goal *Term, rounds int) [][]*Term {
	neg := []*Term{pc, Not(goal)}
	if len(facts) > 400 {
		facts = relevant(facts, neg, 4)
	}
	g := &inster{seen: map[*Term]bool{}, cells: map[string][]*Term{}, cseen: map[string]map[*Term]bool{}, walked: map[*Term]bool{}}
	g.add(nnf(pc, true))
	g.add(nnf(goal, false))
	any := hasQuant(goal)
	for _, f := range facts {
		any = any || hasQuant(f)
		g.add(nnf(f, true))
	}
	if !any {
		return nil
	}
	t0 := time.Now()
	var out [][]*Term
	for r := 0; r < rounds; r++ {
		ch := g.round()
		if r >= 1 || !ch {
			out = append(out, append([]*Term{}, g.ground...))
		}
		if !ch || g.n > 6000 || time.Since(t0) > 10*time.Second {
			break
		}
	}
	debugf("    instances: %d quantifiers, %d formulas, %d texts, %v", len(g.quants), len(g.ground), len(out), time.Since(t0))
	return out
}
