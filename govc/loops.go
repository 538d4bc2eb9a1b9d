package main

// Loops: decided ones are unrolled; others are cut at their header with a verified hypothesis about the state
// after k iterations (closed forms found by abstract iteration, plus contract invariants that survive Houdini).

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	rpo      []*ssa.BasicBlock
	byHeader map[*ssa.BasicBlock]*loop
}

func (e *Exec) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := e.loops[fn]; ok {
		return li
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	pos := map[*ssa.BasicBlock]int{}
	for i, b := range li.rpo {
		pos[b] = i
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if pos[s] <= pos[b] {
				if !s.Dominates(b) {
					unsupported("irreducible loop in %s", fn)
				}
				lp := li.byHeader[s]
				if lp == nil {
					lp = &loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = lp
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if lp.body[x] {
						continue
					}
					lp.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	e.loops[fn] = li
	return li
}

// ---------- hypotheses

const (
	hConst = iota
	hAffine
	hLag
	hHavoc
)

type hyp struct {
	kind int
	f    *Term // affine: step; lag: value as a function of k
	lb   int
	ref  bool
}

// content hypothesis of a backing array
type contHyp struct {
	kind int   // 0 unchanged, 1 sweep, 2 havoc
	c    *Term // first index written
	s    int64 // direction
	v    *Term // value written in iteration k, nil unknown
	cur  *Term // array variable of the current pass
	a0   *Term
}

type ptHyp struct {
	ref *Term
	h   *hyp
	in  *contHyp // for two-level keys
}

type heapHyp struct {
	full  bool
	since int // 0: none
	pts   []*ptHyp
}

// a slice whose backing array may change during the loop
type sliceCell struct {
	name string
	elem types.Type
	conv map[string]*contHyp
}

type hypSet struct {
	phis  map[*ssa.Phi][]*hyp
	bad   map[*ssa.Phi]bool
	heap  map[string]*heapHyp
	cells map[string]*sliceCell
}

type loopCtx struct {
	key    string
	k      *Term
	lp     *loop
	fr     *Frame
	surv   []*cand
	clk    int
	s0     *State
	hs     *hypSet
	outerK []*Term
}

type invTemplate struct {
	fv   *FnV
	id   int
	heap map[string]*Term
}

type cand struct {
	id   string
	desc string
	eval func(st *State, k *Term) *Term // value in a state with header phis bound
}

func refFlags(v Val, t types.Type) []bool {
	switch x := v.(type) {
	case *Term:
		return []bool{isRefType(t)}
	case *FV:
		return []bool{false, false, false, false}
	case *SliceV:
		return []bool{true, false, false, false}
	case *IfaceV:
		if x.dyn != nil {
			return nil
		}
		return []bool{false, true}
	case *FnV:
		return []bool{false}
	case *StructV:
		var r []bool
		u := t.Underlying().(*types.Struct)
		for i, f := range x.fs {
			r = append(r, refFlags(f, u.Field(i).Type())...)
		}
		return r
	case *ArrV:
		var r []bool
		for _, f := range x.es {
			r = append(r, refFlags(f, t.Underlying().(*types.Array).Elem())...)
		}
		return r
	case *PtrV:
		if x.idx != nil {
			return []bool{true, false}
		}
		return []bool{true}
	case *TupV:
		return make([]bool, len(leafTerms(v)))
	}
	return nil
}

// onlyK: built from loop-invariant symbols and k.
func onlyK(t, k *Term, clk int) bool {
	if t.ub < clk {
		return true
	}
	memo := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == k || t.ub < clk {
			return true
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ok := len(t.A) > 0 && t.Op != OHArr
		for _, a := range t.A {
			if !ok {
				break
			}
			ok = rec(a)
		}
		if t.Op == OBound {
			ok = true
		}
		memo[t] = ok
		return ok
	}
	return rec(t)
}

func atK(t, k, n *Term) *Term { return Subst(t, map[*Term]*Term{k: n}) }

func (h *hyp) value(init, k *Term) *Term {
	switch h.kind {
	case hConst:
		return init
	case hAffine:
		if init.S == SReal {
			return Add(init, Mul(ToReal(k), h.f))
		}
		return Add(init, Mul(k, h.f))
	case hLag:
		return Ite(Eq0(k), init, atK(h.f, k, Sub(k, Int(1))))
	}
	l := -1
	if h.ref && h.lb >= 0 {
		l = h.lb
	}
	return VarLB("h", init.S, l)
}

// update weakens the hypothesis so that it admits the value nv after an iteration that started with cur.
func (h *hyp) update(init, cur, nv, k *Term, clk int) bool {
	ch := false
	if h.ref {
		l := lbOf(nv)
		if l < h.lb {
			h.lb = l
			ch = h.kind == hHavoc
		}
	}
	switch h.kind {
	case hConst:
		if nv == init {
			return ch
		}
		if (init.S == SInt && !h.ref) || init.S == SReal {
			d := Sub(nv, cur)
			if d.ub < clk && len(d.bvs) == 0 {
				h.kind, h.f = hAffine, d
				return true
			}
		}
		if onlyK(nv, k, clk) {
			h.kind, h.f = hLag, nv
			return true
		}
		h.kind = hHavoc
		return true
	case hAffine:
		if Sub(nv, cur) == h.f {
			return ch
		}
		if onlyK(nv, k, clk) {
			h.kind, h.f = hLag, nv
			return true
		}
		h.kind = hHavoc
		return true
	case hLag:
		if nv == h.f {
			return ch
		}
		h.kind = hHavoc
		return true
	}
	return ch
}

// sweep pattern: nv = Store(cur, g, v) with g = c + s*k
func (h *contHyp) update(a0, cur, nv, k *Term, clk int) bool {
	if nv == cur {
		return false
	}
	if h.kind == 2 {
		return false
	}
	if nv.Op == OStore && nv.A[0] == cur {
		g, v := nv.A[1], nv.A[2]
		d := Sub(atK(g, k, Add(k, Int(1))), g)
		if d.Op == ONum && onlyK(g, k, clk) {
			s := int64(0)
			if d.R.Cmp(rOne) == 0 {
				s = 1
			} else if Neg(d).R.Cmp(rOne) == 0 {
				s = -1
			}
			c := atK(g, k, Int(0))
			if s != 0 && (h.kind == 0 || (h.c == c && h.s == s)) {
				v = h.unwritten(v, a0, cur, g, s)
				if !onlyK(v, k, clk) {
					v = nil
				}
				if h.kind == 0 {
					h.kind, h.c, h.s, h.v = 1, c, s, v
					return true
				}
				if h.v == nil || h.v == v {
					return false
				}
				h.v = nil
				return true
			}
			if h.kind == 0 && s == 0 && d.R.Sign() == 0 {
				// same element every time
			}
		}
	}
	h.kind = 2
	return true
}

// unwritten replaces reads of not yet written elements by the initial content.
func (h *contHyp) unwritten(v, a0, cur, g *Term, s int64) *Term {
	if a0 == cur {
		return v
	}
	m := map[*Term]*Term{}
	collect([]*Term{v}, func(t *Term) {
		if t.Op == OSelect && t.A[0] == cur {
			d := Sub(t.A[1], g)
			if d.Op == ONum && d.R.Sign()*int(s) >= 0 {
				m[t] = Select(a0, t.A[1])
			}
		}
	})
	if len(m) == 0 {
		return v
	}
	return Subst(v, m)
}

func (h *contHyp) start(e *Exec, a0, k *Term, pc *Term) *Term {
	h.a0 = a0
	if h.kind == 0 {
		h.cur = a0
		return a0
	}
	c := Var("content", a0.S)
	h.cur = c
	if h.kind == 1 {
		j := Bound(SInt)
		var out *Term
		if h.s > 0 {
			out = Or(Lt(j, h.c), Le(Add(h.c, k), j))
		} else {
			out = Or(Lt(h.c, j), Le(j, Sub(h.c, k)))
		}
		e.assume(pc, Forall(j, Imp(out, Eq(Select(c, j), Select(a0, j)))))
		if h.v != nil {
			j := Bound(SInt) // index form, so that reads trigger it
			var it *Term
			if h.s > 0 {
				it = Sub(j, h.c)
			} else {
				it = Sub(h.c, j)
			}
			e.assume(pc, Forall(j, Imp(And(Ge0(it), Lt(it, k)), Eq(Select(c, j), atK(h.v, k, it)))))
		}
	}
	return c
}

// ---------- execution

func (e *Exec) execLoop(fr *Frame, lp *loop, es []edge) []edge {
	s0 := e.join(lp.header, es, false)
	if r, ok := e.unroll(fr, lp, s0); ok {
		return r
	}
	return e.cutLoop(fr, lp, s0)
}

const unrollCap = 80

func (e *Exec) unroll(fr *Frame, lp *loop, s0 *State) ([]edge, bool) {
	if os.Getenv("GOVC_NOUNROLL") != "" {
		return nil, false
	}
	nf, no := len(e.facts), len(e.obls)
	fail := func() ([]edge, bool) {
		e.truncate(nf)
		e.obls = e.obls[:no]
		return nil, false
	}
	ifi, ok := lp.header.Instrs[len(lp.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	// dry evaluation of the header condition
	probe := func(s *State) bool {
		p := s.clone()
		e.dry++
		defer func() { e.dry-- }()
		c := e.headerCond(fr, lp, p, ifi)
		return c != nil && (c == tTrue || c == tFalse)
	}
	var exits []edge
	cur := s0
	for n := 0; ; n++ {
		if n > unrollCap || !probe(cur) {
			return fail()
		}
		out := e.region(fr, lp.body, lp.header, []edge{{nil, lp.header, cur.clone()}})
		exits = append(exits, out.exits...)
		if len(out.backs) == 0 {
			return exits, true
		}
		cur = e.join(lp.header, out.backs, false)
	}
}

// headerCond evaluates the condition at the end of the header block.
func (e *Exec) headerCond(fr *Frame, lp *loop, st *State, ifi *ssa.If) (res *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsup); ok {
				res = nil
				return
			}
			panic(r)
		}
	}()
	nf := len(e.facts)
	defer e.truncate(nf)
	for _, in := range lp.header.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			return e.val(st, ifi.Cond).(*Term)
		default:
			e.instr(st, in)
		}
	}
	return nil
}

func headerPhis(lp *loop) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range lp.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return r
}

func (e *Exec) loopKey(fr *Frame, lp *loop) string {
	var sb strings.Builder
	for f := fr; f != nil; f = f.caller {
		fmt.Fprintf(&sb, "%s@%d<", f.fn.Name(), f.site)
	}
	fmt.Fprintf(&sb, "#%d", lp.header.Index)
	for _, c := range e.loopCtx {
		if c.fr != fr {
			fmt.Fprintf(&sb, "|%s", c.key)
		}
	}
	return sb.String()
}

func (e *Exec) startState(ctx *loopCtx) *State {
	s0, k, hs := ctx.s0, ctx.k, ctx.hs
	st := &State{pc: s0.pc, heap: copyHeap(s0.heap), env: make(map[ssa.Value]Val, len(s0.env))}
	for a, b := range s0.env {
		st.env[a] = b
	}
	clk0 := clock
	_ = clk0
	// heap
	keys := make([]string, 0, len(hs.heap))
	for key := range hs.heap {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	for _, key := range keys {
		hh := hs.heap[key]
		h0 := s0.heap[key]
		if h0 == nil {
			h0 = e.heapGet(st.heap, key, hh0Sort(key, hs, e))
			s0.heap[key] = h0
		}
		if hh.full {
			st.heap[key] = Var("H!"+key, h0.S)
			continue
		}
		t := h0
		if hh.since > 0 {
			t = HArr(t, hh.since)
		}
		for _, p := range hh.pts {
			old := Select(h0, p.ref)
			if p.in != nil {
				t = Store(t, p.ref, p.in.start(e, old, k, s0.pc))
			} else {
				t = Store(t, p.ref, p.h.value(old, k))
			}
		}
		st.heap[key] = t
	}
	// phis
	for _, p := range headerPhis(ctx.lp) {
		init := s0.env[p]
		if hs.bad[p] {
			st.env[p] = &BadV{"loop-carried value " + p.Name()}
			continue
		}
		i := 0
		hy := hs.phis[p]
		v := mapLeaves(init, func(t *Term) *Term {
			r := hy[i].value(t, k)
			i++
			return r
		})
		st.env[p] = v
		e.valFacts(v, p.Type())
	}
	// backing arrays of growing slices
	e.eachCell(ctx, st, func(name string, s, s0v *SliceV) {
		c := hs.cells[name]
		if c == nil {
			return
		}
		for _, lf := range leavesOf(s.elem, "E:"+tkey(s.elem)) {
			ch := c.conv[lf.path]
			if ch == nil {
				continue
			}
			a := e.heapGet(st.heap, lf.path, SArr(SArr(lf.s)))
			h0 := e.heapGet(s0.heap, lf.path, SArr(SArr(lf.s)))
			st.heap[lf.path] = Store(a, s.ref, ch.start(e, Select(h0, s0v.ref), k, s0.pc))
		}
	})
	// range facts of values read later are generated at the reads
	return st
}

func hh0Sort(key string, hs *hypSet, e *Exec) *Sort {
	if s, ok := keySort[key]; ok {
		return s
	}
	unsupported("unknown sort of %s", key)
	return nil
}

var keySort = map[string]*Sort{}

// eachCell enumerates slices carried by the loop whose reference changes: phis and pointwise fields.
func (e *Exec) eachCell(ctx *loopCtx, st *State, f func(name string, s, init *SliceV)) {
	for _, p := range headerPhis(ctx.lp) {
		if ctx.hs.bad[p] {
			continue
		}
		if s, ok := st.env[p].(*SliceV); ok {
			i := ctx.s0.env[p].(*SliceV)
			if ctx.hs.phis[p][0].kind != hConst {
				f("phi "+p.Name(), s, i)
			}
		}
	}
	var keys []string
	for key, hh := range ctx.hs.heap {
		if strings.HasSuffix(key, "#ref") && !hh.full {
			keys = append(keys, key)
		}
	}
	sort.Strings(keys)
	for _, key := range keys {
		base := strings.TrimSuffix(key, "#ref")
		el := sliceElem[base]
		if el == nil {
			continue
		}
		for _, p := range ctx.hs.heap[key].pts {
			if p.h == nil || p.h.kind == hConst {
				continue
			}
			rd := func(h map[string]*Term) *SliceV {
				g := func(sfx string) *Term { return Select(e.heapGet(h, base+sfx, SArr(SInt)), p.ref) }
				return &SliceV{el, g("#ref"), g("#off"), g("#len"), g("#cap")}
			}
			f(fmt.Sprintf("cell %s@%d", base, p.ref.ID), rd(st.heap), rd(ctx.s0.heap))
		}
	}
}

var sliceElem = map[string]types.Type{} // element type of slice leaves, by key

// suffixes of a store chain
func suffixes(t *Term) map[*Term]bool {
	m := map[*Term]bool{t: true}
	for t.Op == OStore {
		t = t.A[0]
		m[t] = true
	}
	return m
}

// writes lists the references written between two heap terms.
func writes(nw, start *Term) (idx []*Term, sinces []int, ok bool) {
	stop := suffixes(start)
	seen := map[*Term]bool{}
	ok = true
	var rec func(t *Term)
	rec = func(t *Term) {
		if !ok || seen[t] || stop[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case OStore:
			idx = append(idx, t.A[1])
			rec(t.A[0])
		case OIte:
			rec(t.A[1])
			rec(t.A[2])
		case OHArr:
			sinces = append(sinces, t.N)
			rec(t.A[0])
		default:
			ok = false
		}
	}
	rec(nw)
	return
}

// splitIdx expands a choice between references into its alternatives.
func splitIdx(t *Term) []*Term {
	if t.Op == OIte {
		return append(splitIdx(t.A[1]), splitIdx(t.A[2])...)
	}
	return []*Term{t}
}

// weaken makes the hypotheses admit the merged back state; reports whether anything changed.
func (e *Exec) weaken(ctx *loopCtx, start, back *State) bool {
	ch := false
	s0, k, hs, clk := ctx.s0, ctx.k, ctx.hs, ctx.clk
	why := func(f string, a ...interface{}) {
		ch = true
		debugf("  loop %s: "+f, append([]interface{}{ctx.lp.header.Parent().Name()}, a...)...)
	}
	for _, p := range headerPhis(ctx.lp) {
		if hs.bad[p] {
			continue
		}
		init, cur, nv := s0.env[p], start.env[p], back.env[p]
		li, lc, ln := leafTerms(init), leafTerms(cur), leafTerms(nv)
		if len(li) != len(ln) || !sameShape(init, nv) {
			hs.bad[p] = true
			why("phi %s is not representable", p.Name())
			continue
		}
		for i := range li {
			if hs.phis[p][i].update(li[i], lc[i], ln[i], k, clk) {
				why("phi %s %s leaf %d kind %d", p.Name(), p.Comment, i, hs.phis[p][i].kind)
			}
		}
	}
	if ch {
		return true // memory is looked at once the loop variables have a form
	}
	cellRefs := map[*Term]bool{}
	e.eachCell(ctx, start, func(name string, s, i *SliceV) { cellRefs[s.ref] = true })
	keys := make([]string, 0, len(back.heap))
	for key := range back.heap {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	for _, key := range keys {
		nw := back.heap[key]
		old := start.heap[key]
		if old == nil {
			old = VarOld("H:"+key, nw.S)
		}
		if _, ok := s0.heap[key]; !ok {
			s0.heap[key] = VarOld("H:"+key, nw.S)
		}
		keySort[key] = nw.S
		if nw == old {
			continue
		}
		hh := hs.heap[key]
		if hh == nil {
			hh = &heapHyp{}
			hs.heap[key] = hh
		}
		if hh.full {
			continue
		}
		idx, sinces, ok := writes(nw, old)
		if !ok {
			hh.full = true
			why("heap %s havoc", key)
			continue
		}
		minSince := 1 << 60
		for _, s := range sinces {
			if s < minSince {
				minSince = s
			}
		}
		var inv []*Term
		for _, ix := range idx {
			for _, x := range splitIdx(ix) {
				if isZero(x) {
					continue
				}
				if x.ub < clk {
					dup := false
					for _, y := range inv {
						dup = dup || y == x
					}
					if !dup && Select(nw, x) != Select(old, x) {
						inv = append(inv, x)
					}
					continue
				}
				if x.lb <= 0 {
					minSince = -1
					debugf("  loop: write of %s at %s lb %d", key, dbgStr(x, 3), x.lb)
				} else if x.lb < minSince {
					minSince = x.lb
				}
			}
		}
		if minSince < 0 {
			hh.full = true
			why("heap %s havoc (unknown reference)", key)
			continue
		}
		if minSince < 1<<60 && (hh.since == 0 || minSince < hh.since) {
			hh.since = minSince
			why("heap %s fresh since %d", key, minSince)
		}
		for _, x := range inv {
			found := false
			for _, p := range hh.pts {
				found = found || p.ref == x
			}
			if !found {
				p := &ptHyp{ref: x}
				if nw.S.Elem.Name == "Array" {
					p.in = &contHyp{}
				} else {
					p.h = &hyp{kind: hConst, ref: refKey[key], lb: clk}
					if p.h.ref {
						if l := lbOf(Select(s0.heap[key], x)); l < p.h.lb {
							p.h.lb = l
						}
					}
				}
				hh.pts = append(hh.pts, p)
				ch = true
			}
		}
		for _, p := range hh.pts {
			nv := Select(nw, p.ref)
			if p.in != nil {
				if p.in.a0 == nil {
					p.in.a0 = Select(s0.heap[key], p.ref)
					p.in.cur = p.in.a0
				}
				if p.in.update(p.in.a0, p.in.cur, nv, k, clk) {
					why("content of %s kind %d", key, p.in.kind)
				}
				continue
			}
			if p.h.update(Select(s0.heap[key], p.ref), Select(old, p.ref), nv, k, clk) {
				why("heap %s at %s kind %d lb %d ref %v nv %s", key, p.ref.Name, p.h.kind, p.h.lb, p.h.ref, dbgStr(nv, 5))
			}
		}
	}
	// contents of growing slices
	type ns struct {
		s *SliceV
	}
	backOf := func(name string) *SliceV {
		var r *SliceV
		for _, p := range headerPhis(ctx.lp) {
			if "phi "+p.Name() == name {
				r, _ = back.env[p].(*SliceV)
			}
		}
		return r
	}
	e.eachCell(ctx, start, func(name string, s, i *SliceV) {
		b := backOf(name)
		if b == nil {
			// heap cell
			rest := strings.TrimPrefix(name, "cell ")
			base := rest[:strings.LastIndex(rest, "@")]
			for _, p := range hs.heap[base+"#ref"].pts {
				if fmt.Sprintf("cell %s@%d", base, p.ref.ID) == name {
					b = &SliceV{s.elem, Select(e.heapGet(back.heap, base+"#ref", SArr(SInt)), p.ref), nil, nil, nil}
				}
			}
		}
		c := hs.cells[name]
		if c == nil {
			c = &sliceCell{name: name, elem: s.elem, conv: map[string]*contHyp{}}
			hs.cells[name] = c
			for _, lf := range leavesOf(s.elem, "E:"+tkey(s.elem)) {
				c.conv[lf.path] = &contHyp{}
				keySort[lf.path] = SArr(SArr(lf.s))
			}
			why("cell %s", name)
			return
		}
		for _, lf := range leavesOf(s.elem, "E:"+tkey(s.elem)) {
			ch := c.conv[lf.path]
			nv := Select(e.heapGet(back.heap, lf.path, SArr(SArr(lf.s))), b.ref)
			if ch.update(ch.a0, ch.cur, nv, k, clk) {
				why("content of %s %s kind %d", name, lf.path, ch.kind)
			}
		}
	})
	return ch
}

func sameShape(a, b Val) bool {
	switch x := a.(type) {
	case *PtrV:
		y, ok := b.(*PtrV)
		return ok && x.root == y.root && x.path == y.path && (x.idx == nil) == (y.idx == nil)
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && x.dyn == nil && y.dyn == nil
	case *BadV:
		return false
	}
	if _, bad := b.(*BadV); bad {
		return false
	}
	return fmt.Sprintf("%T", a) == fmt.Sprintf("%T", b)
}

func (e *Exec) cutLoop(fr *Frame, lp *loop, s0 *State) []edge {
	e.deaths++
	clk := tick()
	varCount["k"]++
	k := mk(&Term{Op: OVar, S: SInt, Name: fmt.Sprintf("k!%d", varCount["k"]), ub: clk, lb: -1})
	ctx := &loopCtx{key: e.loopKey(fr, lp), k: k, lp: lp, fr: fr, clk: clk, s0: s0,
		hs: &hypSet{phis: map[*ssa.Phi][]*hyp{}, bad: map[*ssa.Phi]bool{}, heap: map[string]*heapHyp{}, cells: map[string]*sliceCell{}}}
	e.loopsRun++
	for _, p := range headerPhis(lp) {
		v := s0.env[p]
		if _, bad := v.(*BadV); bad {
			ctx.hs.bad[p] = true
			continue
		}
		fl := refFlags(v, p.Type())
		for i, t := range leafTerms(v) {
			h := &hyp{kind: hConst, lb: clk}
			if i < len(fl) {
				h.ref = fl[i]
			}
			if l := lbOf(t); l < h.lb {
				h.lb = l
			}
			ctx.hs.phis[p] = append(ctx.hs.phis[p], h)
		}
	}
	e.loopCtx = append(e.loopCtx, ctx)
	defer func() { e.loopCtx = e.loopCtx[:len(e.loopCtx)-1] }()
	e.assume(tTrue, Ge0(k))
	nf, no := len(e.facts), len(e.obls)
	back0 := tTrue

	pass := func() (start *State, out regionOut, back *State) {
		start = e.startState(ctx)
		for _, c := range ctx.surv {
			f := e.evalCand(c, start, k)
			if f != nil {
				e.assume(s0.pc, f)
			}
		}
		if back0 != tTrue {
			p := atK(back0, k, Sub(k, Int(1)))
			e.assume(tTrue, Or(Eq0(k), p))
			j := Bound(SInt)
			if q := atK(back0, k, j); hasSelect(q) {
				e.assume(tTrue, Forall(j, Imp(And(Ge0(j), Lt(j, k)), q)))
			}
		}
		out = e.region(fr, lp.body, lp.header, []edge{{nil, lp.header, &State{pc: start.pc, heap: copyHeap(start.heap), env: copyEnv(start.env)}}})
		if len(out.backs) > 0 {
			back = e.join(lp.header, out.backs, false)
		}
		return
	}
	// closed forms, no solver
	e.shape++
	e.dry++
	var out regionOut
	var start, back *State
	for n := 0; ; n++ {
		start, out, back = pass()
		nb := tTrue
		ch := false
		if back != nil {
			ch = e.weaken(ctx, start, back)
			// what every completed iteration satisfied
			if !ch {
				pcs := map[*Term]bool{}
				for _, c := range conj(s0.pc) {
					pcs[c] = true
				}
				for _, c := range conj(back.pc) {
					if !pcs[c] && onlyK(c, k, clk) && len(c.bvs) == 0 {
						nb = And(nb, c)
					}
				}
				if nb != back0 {
					back0 = nb
					ch = true
				}
			}
		}
		e.truncate(nf)
		if !ch {
			break
		}
		if n > 60 {
			unsupported("loop hypotheses do not stabilise in %s", fr.fn)
		}
	}
	e.dry--
	e.shape--
	if os.Getenv("GOVC_DEBUG") != "" {
		debugf("loop %s stable: dry=%d shape=%d back0=%s", ctx.key, e.dry, e.shape, dbgStr(back0, 6))
	}

	if e.shape == 0 {
		ctx.surv = e.initialCands(ctx, start)
		for {
			start, out, back = pass()
			if back == nil {
				break
			}
			drop := e.preserved(ctx, back)
			if len(drop) == 0 {
				break
			}
			var keep []*cand
			for _, c := range ctx.surv {
				if drop[c] {
					e.dropped(ctx.key)[c.id] = true
				} else {
					keep = append(keep, c)
				}
			}
			ctx.surv = keep
			e.truncate(nf)
			e.obls = e.obls[:no]
		}
		// the hypotheses must hold for this very pass
		if back != nil && e.weaken(ctx, start, back) {
			unsupported("loop hypotheses changed in %s", fr.fn)
		}
		if e.dry == 0 && os.Getenv("GOVC_DEBUG") != "" {
			for _, c := range ctx.surv {
				debugf("  invariant %s", c.desc)
			}
		}
	} else {
		_, out, _ = pass()
	}
	// the loop ends through one of its exits (termination is not verified)
	or := tFalse
	for _, x := range out.exits {
		or = Or(or, x.st.pc)
	}
	e.assume(s0.pc, or)
	if len(out.exits) == 0 {
		e.assume(s0.pc, tFalse)
	}
	same := len(out.exits) > 0
	for _, x := range out.exits {
		same = same && x.to == out.exits[0].to
	}
	if same && len(out.exits) == 1 {
		out.exits[0].st.pc = s0.pc
	}
	return out.exits
}

func copyEnv(m map[ssa.Value]Val) map[ssa.Value]Val {
	r := make(map[ssa.Value]Val, len(m))
	for a, b := range m {
		r[a] = b
	}
	return r
}

func hasSelect(t *Term) bool {
	r := false
	collect([]*Term{t}, func(x *Term) {
		if x.Op == OSelect || x.Op == OApp {
			r = true
		}
	})
	return r
}

func (e *Exec) dropped(key string) map[string]bool {
	m := e.houdini[key]
	if m == nil {
		m = map[string]bool{}
		e.houdini[key] = m
	}
	return m
}

func (e *Exec) evalCand(c *cand, st *State, k *Term) (res *Term) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsup); ok {
				debugf("  candidate %s: %s", c.desc, u.msg)
				res = nil
				return
			}
			panic(r)
		}
	}()
	return c.eval(st, k)
}

// initialCands instantiates candidate invariants that hold on entry.
func (e *Exec) initialCands(ctx *loopCtx, start *State) []*cand {
	var cs []*cand
	dr := e.dropped(ctx.key)
	add := func(c *cand) {
		if !dr[c.id] {
			cs = append(cs, c)
		}
	}
	for _, c := range e.autoCands(ctx, start) {
		add(c)
	}
	for _, t := range e.invs {
		for _, c := range e.bindTemplate(ctx, t) {
			add(c)
		}
	}
	for _, o := range e.loopCtx[:len(e.loopCtx)-1] {
		for _, c := range o.surv {
			c, o := c, o
			add(&cand{id: "outer:" + o.key + ":" + c.id, desc: "outer " + c.desc, eval: func(st *State, _ *Term) *Term {
				return c.eval(st, o.k)
			}})
		}
	}
	// on entry
	nf := len(e.facts)
	type job struct {
		c *cand
		f *Term
	}
	var jobs []job
	for _, c := range cs {
		f := e.evalCand(c, ctx.s0, Int(0))
		if f == nil {
			dr[c.id] = true
			continue
		}
		jobs = append(jobs, job{c, f})
	}
	ok := make([]bool, len(jobs))
	var wg sync.WaitGroup
	facts := append([]*Term{}, e.facts...)
	for i, j := range jobs {
		if j.f == tTrue {
			ok[i] = true
			continue
		}
		i, j := i, j
		txt := proveText(facts, ctx.s0.pc, j.f)
		wg.Add(1)
		f := e.proveCand(j.c, facts, ctx.s0.pc, j.f, txt)
		go func() { defer wg.Done(); ok[i] = f() }()
	}
	wg.Wait()
	e.truncate(nf)
	var r []*cand
	for i, j := range jobs {
		if ok[i] {
			r = append(r, j.c)
		} else {
			debugf("  candidate %s fails on entry", j.c.desc)
			if strings.HasPrefix(j.c.desc, "inv") {
				debugf("    goal %s", dbgStr(j.f, 12))
			}
			dr[j.c.id] = true
		}
	}
	return r
}

var houdiniTimeout = 4 * time.Second

func (e *Exec) preserved(ctx *loopCtx, back *State) map[*cand]bool {
	drop := map[*cand]bool{}
	type job struct {
		c *cand
		f *Term
	}
	var jobs []job
	nf := len(e.facts)
	k1 := Add(ctx.k, Int(1))
	for _, c := range ctx.surv {
		f := e.evalCand(c, back, k1)
		if f == nil {
			drop[c] = true
			continue
		}
		jobs = append(jobs, job{c, f})
	}
	facts := append([]*Term{}, e.facts...)
	ok := make([]bool, len(jobs))
	var wg sync.WaitGroup
	for i, j := range jobs {
		if j.f == tTrue {
			ok[i] = true
			continue
		}
		i := i
		txt := proveText(facts, back.pc, j.f)
		if d := os.Getenv("GOVC_DUMP"); d != "" {
			os.WriteFile(fmt.Sprintf("%s/inv_%d_%s.smt2", d, len(e.facts), strings.Map(safeRune, j.c.id)), []byte(txt[0]), 0o644)
		}
		wg.Add(1)
		f := e.proveCand(j.c, facts, back.pc, j.f, txt)
		go func() { defer wg.Done(); ok[i] = f() }()
	}
	wg.Wait()
	for i, j := range jobs {
		if !ok[i] {
			debugf("  candidate %s is not preserved", j.c.desc)
			drop[j.c] = true
		}
	}
	e.truncate(nf)
	return drop
}

func (c *cand) offered() bool { return strings.HasPrefix(c.desc, "inv") }

// proveCand proves an invariant candidate; instances of the quantified facts are tried for the offered ones.
func (e *Exec) proveCand(c *cand, facts []*Term, pc, goal *Term, txt []string) func() bool {
	var gts []string
	key := [2]*Term{pc, goal}
	if _, bad := groundFailed.Load(key); !bad && c.offered() {
		gts = e.groundTexts(facts, pc, goal, 2)
		if d := os.Getenv("GOVC_DUMP"); d != "" {
			for i, t := range gts {
				os.WriteFile(fmt.Sprintf("%s/cand_%d_%d.smt2", d, tick(), i), []byte("; "+c.desc+"\n; "+dbgStr(goal, 10)+"\n"+t), 0o644)
			}
		}
	}
	return func() bool {
		res := make(chan bool, 2)
		go func() { res <- proveQuick(txt, houdiniTimeout) }()
		n := 1
		if gts != nil {
			n = 2
			go func() {
				for _, t := range gts {
					if proveQuick([]string{t}, houdiniTimeout/2) {
						res <- true
						return
					}
				}
				groundFailed.Store(key, true)
				res <- false
			}()
		}
		for ; n > 0; n-- {
			if <-res {
				return true
			}
		}
		return false
	}
}

var groundFailed sync.Map

func safeRune(r rune) rune {
	if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
		return r
	}
	return '_'
}

// proveText prepares the queries (staged by relevance) for a goal.
func proveText(facts []*Term, pc, goal *Term) []string {
	neg := []*Term{pc, Not(goal)}
	var out []string
	for _, d := range []int{2, 99} {
		fs := facts
		if d < 99 {
			fs = relevant(facts, neg, d)
			if len(fs) == len(facts) {
				continue
			}
		}
		out = append(out, smtText(append(append([]*Term{}, fs...), neg...), nil))
	}
	return out
}

var proofCache sync.Map

func proveQuick(txts []string, to time.Duration) bool {
	for i, txt := range txts {
		if v, ok := proofCache.Load(txt); ok {
			if v.(string) == "unsat" {
				return true
			}
			continue
		}
		t := to
		if i < len(txts)-1 {
			t = to / 2
		}
		r := solveText(txt, t)
		proofCache.Store(txt, r.status)
		if r.status == "unsat" {
			return true
		}
		if r.status == "sat" && i == len(txts)-1 {
			return false
		}
	}
	return false
}

// autoCands: simple bounds for values without a closed form.
func (e *Exec) autoCands(ctx *loopCtx, start *State) []*cand {
	var r []*cand
	for _, p := range headerPhis(ctx.lp) {
		if ctx.hs.bad[p] {
			continue
		}
		p := p
		init := leafTerms(ctx.s0.env[p])
		_, isSl := ctx.s0.env[p].(*SliceV)
		for i, h := range ctx.hs.phis[p] {
			if h.kind != hHavoc || h.ref || (isSl && i == 3) {
				continue
			}
			i := i
			in := init[i]
			get := func(st *State) *Term {
				ls := leafTerms(st.env[p])
				if i >= len(ls) {
					return nil
				}
				return ls[i]
			}
			mkc := func(nm string, f func(x, k *Term) *Term) {
				r = append(r, &cand{id: fmt.Sprintf("auto:%s:%d:%s", p.Name(), i, nm), desc: fmt.Sprintf("%s.%d %s", p.Comment, i, nm),
					eval: func(st *State, k *Term) *Term {
						x := get(st)
						if x == nil {
							return nil
						}
						return f(x, k)
					}})
			}
			switch in.S {
			case SInt:
				mkc(">=init", func(x, k *Term) *Term { return Ge0(Sub(x, in)) })
				mkc("<=init", func(x, k *Term) *Term { return Le(x, in) })
				mkc("<=init+k", func(x, k *Term) *Term { return Le(x, Add(in, k)) })
				mkc(">=0", func(x, k *Term) *Term { return Ge0(x) })
			case SReal:
				mkc(">=0", func(x, k *Term) *Term { return Ge0(x) })
			case SBool:
				if _, isF := ctx.s0.env[p].(*FV); isF && i < 3 {
					mkc("finite", func(x, k *Term) *Term { return Not(x) })
				}
			}
		}
	}
	// slices that grow: still the memory they had, or memory allocated by the subject
	if fs := e.frameAt; fs != nil && e.inSubj {
		same := func(a, b []*Term) *Term {
			return Or(Lt(a[0], Int(int64(-fs.clock-1))), And(Eq(a[0], b[0]), Eq(a[1], b[1]), Eq(a[3], b[3])))
		}
		for _, p := range headerPhis(ctx.lp) {
			if _, isSl := ctx.s0.env[p].(*SliceV); !isSl || ctx.hs.bad[p] || ctx.hs.phis[p][0].kind == hConst {
				continue
			}
			p := p
			init := leafTerms(ctx.s0.env[p])
			r = append(r, &cand{id: "grow:" + p.Name(), desc: p.Comment + " keeps or owns its memory", eval: func(st *State, k *Term) *Term {
				if st.env[p] == nil {
					return nil
				}
				return same(leafTerms(st.env[p]), init)
			}})
		}
		for key, hh := range ctx.hs.heap {
			base := strings.TrimSuffix(key, "#ref")
			if base == key || sliceElem[base] == nil {
				continue
			}
			for _, p := range hh.pts {
				if p.h == nil || p.h.kind == hConst {
					continue
				}
				at := p.ref
				get := func(st *State) []*Term {
					var ls []*Term
					for _, sf := range []string{"#ref", "#off", "#len", "#cap"} {
						ls = append(ls, Select(e.heapGet(st.heap, base+sf, SArr(SInt)), at))
					}
					return ls
				}
				init := get(ctx.s0)
				r = append(r, &cand{id: "grow:" + key + ":" + dbgStr(at, 3), desc: base + " keeps or owns its memory", eval: func(st *State, k *Term) *Term {
					return same(get(st), init)
				}})
			}
		}
	}
	// frames of fully unknown keys
	if fs := e.frameAt; fs != nil && fs.hasMods && e.inSubj {
		for key, hh := range ctx.hs.heap {
			if !hh.full {
				// contents of a window of a slice
				win := false
				for _, m := range fs.mods {
					for _, k := range m.keys {
						win = win || k.key == key && k.off != nil && m.kind != "any"
					}
				}
				for _, p := range hh.pts {
					win = win && p.in != nil
				}
				if !win {
					continue
				}
			}
			key := key
			r = append(r, &cand{id: "frame:" + key, desc: "frame of " + key, eval: func(st *State, k *Term) *Term {
				pre := copyHeap(fs.pre)
				rv := Bound(SInt)
				g := e.frameGoal(pre, st.heap, key, fs.mods)
				m := map[*Term]*Term{VarOld("frame!r", SInt): rv}
				jv := Bound(SInt)
				m[VarOld("frame!j", SInt)] = jv
				// only references that existed at the call
				g = Imp(Lt(Int(int64(-fs.clock-1)), rv), Subst(g, m))
				return Forall(rv, Forall(jv, g))
			}})
		}
	}
	return r
}

// bindTemplate: all type-compatible bindings of an invariant's parameters.
func (e *Exec) bindTemplate(ctx *loopCtx, t *invTemplate) []*cand {
	sig := t.fv.c.fn.Signature
	n := sig.Params().Len()
	type choice struct {
		name string
		get  func(st *State, k *Term) Val
	}
	var opts [][]choice
	for i := 0; i < n; i++ {
		pv := sig.Params().At(i)
		var cs []choice
		switch {
		case pv.Name() == "k":
			cs = append(cs, choice{"k", func(st *State, k *Term) Val { return k }})
		case pv.Name() == "k1":
			if len(e.loopCtx) < 2 {
				return nil
			}
			ok := e.loopCtx[len(e.loopCtx)-2].k
			cs = append(cs, choice{"k1", func(st *State, k *Term) Val { return ok }})
		default:
			named := false // a loop variable of that very name is preferred
			for _, c := range e.loopCtx {
				for _, p := range headerPhis(c.lp) {
					named = named || types.Identical(p.Type(), pv.Type()) && !c.hs.bad[p] && p.Comment == pv.Name()
				}
			}
			for ci, c := range e.loopCtx {
				own := ci == len(e.loopCtx)-1
				for _, p := range headerPhis(c.lp) {
					if !types.Identical(p.Type(), pv.Type()) || c.hs.bad[p] || named && p.Comment != pv.Name() {
						continue
					}
					p, c := p, c
					nm := fmt.Sprintf("%d.%s", ci, p.Name())
					if own {
						cs = append(cs, choice{nm, func(st *State, k *Term) Val { return st.env[p] }})
					} else if c.fr == ctx.fr {
						cs = append(cs, choice{nm, func(st *State, k *Term) Val { return st.env[p] }})
					} else {
						v := c.curEnv(p)
						if v != nil {
							cs = append(cs, choice{nm, func(st *State, k *Term) Val { return v }})
						}
					}
				}
			}
			// values computed before the loop and address-taken locals of this frame
			var locals []ssa.Value
			for v := range ctx.s0.env {
				locals = append(locals, v)
			}
			sort.Slice(locals, func(i, j int) bool { return locals[i].Name() < locals[j].Name() })
			var joins []ssa.Value // variables of that very name, joined before the loop
			for _, v := range locals {
				if p, ok := v.(*ssa.Phi); ok && !ctx.lp.body[p.Block()] && types.Identical(p.Type(), pv.Type()) && p.Parent() == ctx.fr.fn &&
					(p.Comment == pv.Name() || "l"+p.Comment == pv.Name()) {
					joins = append(joins, v)
				}
			}
			if len(joins) > 0 {
				locals = joins
			}
			for _, v := range locals {
				v := v
				if al, ok := v.(*ssa.Alloc); ok && al.Parent() == ctx.fr.fn {
					if types.Identical(pointee(al.Type()), pv.Type()) {
						cs = append(cs, choice{"*" + v.Name(), func(st *State, k *Term) Val { return e.load(st, st.env[v], pv.Type()) }})
					}
					continue
				}
				if _, isPhi := v.(*ssa.Phi); isPhi && ctx.lp.body[v.(*ssa.Phi).Block()] {
					continue
				}
				if in, ok := v.(ssa.Instruction); ok && in.Parent() == ctx.fr.fn && types.Identical(v.Type(), pv.Type()) && pv.Name()[0] != '_' && strings.HasPrefix(pv.Name(), "l") && pv.Name() != "l" {
					cs = append(cs, choice{v.Name(), func(st *State, k *Term) Val { return st.env[v] }})
				}
			}
		}
		if len(cs) == 0 {
			return nil
		}
		opts = append(opts, cs)
	}
	var r []*cand
	var rec func(i int, sel []choice)
	rec = func(i int, sel []choice) {
		if len(r) > 64 {
			return
		}
		if i == n {
			sel := append([]choice{}, sel...)
			var nm []string
			seen := map[string]bool{}
			for _, s := range sel {
				if seen[s.name] {
					return
				}
				seen[s.name] = true
				nm = append(nm, s.name)
			}
			id := fmt.Sprintf("inv%d(%s)", t.id, strings.Join(nm, ","))
			r = append(r, &cand{id: id, desc: id, eval: func(st *State, k *Term) *Term {
				var args []Val
				for _, s := range sel {
					v := s.get(st, k)
					if v == nil {
						return nil
					}
					if _, bad := v.(*BadV); bad {
						return nil
					}
					args = append(args, v)
				}
				return e.evalSpec(st, t.fv.c, args)
			}})
			return
		}
		for _, c := range opts[i] {
			rec(i+1, append(sel, c))
		}
	}
	rec(0, nil)
	return r
}

// curEnv: the value of an enclosing loop's phi in another frame (fixed during this loop).
func (c *loopCtx) curEnv(p *ssa.Phi) Val { return nil }

// evalSpec evaluates a boolean closure of a contract in a state, without obligations.
func (e *Exec) evalSpec(st *State, c *Closure, args []Val) *Term {
	e.spec++
	e.dry++
	old := e.fr
	defer func() { e.spec--; e.dry--; e.fr = old }()
	s := &State{pc: st.pc, heap: copyHeap(st.heap), env: map[ssa.Value]Val{}}
	v := e.inline(c.fn, args, c.bind, s)
	t, ok := v.(*Term)
	if !ok {
		return nil
	}
	return t
}

func termStr(t *Term, depth int) string {
	p := &printer{names: map[*Term]string{}, decl: map[string]bool{}, strs: map[string]string{}, count: map[*Term]int{}}
	p.countRefs(t)
	s := p.expr(t, nil)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func dbgStr(t *Term, depth int) string {
	if os.Getenv("GOVC_DEBUG") == "" {
		return ""
	}
	return termStr(t, depth)
}
