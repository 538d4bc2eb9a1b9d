package main

// Symbolic execution of SSA with state merging. One formula per function, no path enumeration.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Closure struct {
	fn   *ssa.Function
	bind []Val
	// symbolic function value of a specification (Memo): evaluated in a heap snapshot
	snap map[string]*Term
	nat  func(args []Val) Val
}

type State struct {
	pc   *Term
	heap map[string]*Term
	env  map[ssa.Value]Val
}

func (s *State) clone() *State {
	h := make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	en := make(map[ssa.Value]Val, len(s.env))
	for k, v := range s.env {
		en[k] = v
	}
	return &State{s.pc, h, en}
}

type Obl struct {
	name   string
	kind   string // ensures, safety, frame, requires, finite, assert
	pc     *Term
	goal   *Term
	nfacts int
	facts  []*Term // the facts simplified by the case, if it is one of a case distinction
	pos    string
	res    proofResult
}

type retState struct {
	st *State
	v  Val
}

type Frame struct {
	fn     *ssa.Function
	rets   []retState
	caller *Frame
	spec   bool
	depth  int
	site   int
}

type Exec struct {
	ld       *Loader
	facts    []*Term
	factIdx  map[*Term]int
	shown    map[[2]*Term]bool // goals shown by proveBySplitting
	obls     []*Obl
	dry      int
	shape    int
	spec     int
	fr       *Frame
	cur      *Contract
	mode     string // verify / assume
	globals  map[*ssa.Global]*Term
	closures []*Closure
	bound    map[string]*ssa.Function
	base     map[string]*Term
	invs     []*invTemplate
	frameAt  *frameSpec
	loops    map[*ssa.Function]*loopInfo
	loopCtx  []*loopCtx
	inSubj   bool
	subjPre  map[string]*Term
	usedCtr  map[*Contract]bool
	notes    map[string]bool
	nilcheck bool
	eagerFin bool
	pdTab    map[pdKey]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	deaths   int // paths given up and loops cut so far
	assumeFr []*assumeCtx
	sums    map[string][]sumTerm
	recSeen  map[*Term]bool
	recDepth int
	houdini  map[string]map[string]bool // dropped candidates per loop
	funcs    map[string]bool
	loopMemo map[string]*hypSet
	quiet    bool
	loopsRun int
	site     int
	memoTab  map[string]int
	subjClk  int
	lastPerm string
	heapIDs  map[string]int
	splits   []*Term
	sorts    []sortRec
	sortTab  map[[2]*Term]*FnV
}

type assumeCtx struct {
	c          *Contract
	mods       []modLoc
	hasMods    bool
	called     bool
	args       []Val
	fnParam    *Term
	fresh      bool
	result     Val
	callerSpec int
	clk        int
	site       *ssa.Call
}

type modLoc struct {
	kind string // ptr, elems, each
	keys []keyAt
	// each: index bound
	lo, hi *Term
	bv     *Term
}
type keyAt struct {
	key string
	s   *Sort
	ref *Term
	off *Term // elems: range
	len *Term
	two bool
	idx *Term // single element of a two-level array
}

type frameSpec struct {
	pre     map[string]*Term
	mods    []modLoc
	hasMods bool
	clock   int
}

var baseTab map[string]*Term
var baseCount int

// resetTerms makes every contract start from the same term numbering, so that its queries do not depend on
// which contracts were verified before it.
func resetTerms() {
	if baseTab == nil {
		baseTab, baseCount = map[string]*Term{}, termCount
		for k, t := range termTab {
			baseTab[k] = t
		}
	}
	termTab = make(map[string]*Term, len(baseTab))
	for k, t := range baseTab {
		termTab[k] = t
	}
	termCount, boundCount, permNo, clock = baseCount, 0, 0, 0
	varCount = map[string]int{}
	binderTab = map[int]*Term{}
}

func newExec(ld *Loader) *Exec {
	resetTerms()
	nonZero = map[*Term]bool{}
	e := &Exec{ld: ld, factIdx: map[*Term]int{}, shown: map[[2]*Term]bool{}, globals: map[*ssa.Global]*Term{}, bound: map[string]*ssa.Function{},
		loops: map[*ssa.Function]*loopInfo{}, usedCtr: map[*Contract]bool{}, notes: map[string]bool{}, recSeen: map[*Term]bool{},
		houdini: map[string]map[string]bool{}, funcs: map[string]bool{}, loopMemo: map[string]*hypSet{}, memoTab: map[string]int{}, sortTab: map[[2]*Term]*FnV{}}
	theExec = e
	for _, f := range ld.boundFns {
		e.bound[f.String()] = f
	}
	e.closures = []*Closure{nil} // id 0 = nil
	return e
}

var theExec *Exec

func mkFn(id *Term) *FnV {
	f := &FnV{id: id}
	e := theExec
	switch id.Op {
	case ONum:
		n := int(id.R.Num().Int64())
		if n > 0 && n < len(e.closures) {
			f.c = e.closures[n]
		}
	case OApp:
		if strings.HasPrefix(id.Name, "bound:") {
			if fn, ok := e.bound[id.Name[6:]]; ok {
				f.c = &Closure{fn: fn, bind: []Val{id.A[0]}}
			}
		}
	}
	return f
}

func (e *Exec) newClosure(c *Closure) *FnV {
	if c.fn == nil {
		e.closures = append(e.closures, c)
		return &FnV{id: Int(int64(len(e.closures) - 1)), c: c}
	}
	if strings.HasSuffix(c.fn.Name(), "$bound") && len(c.bind) == 1 {
		if r, ok := c.bind[0].(*Term); ok {
			e.bound[c.fn.String()] = c.fn
			id := App("bound:"+c.fn.String(), SInt, r)
			e.assume(tTrue, Not(Eq0(id))) // a method value is not nil
			return &FnV{id: id, c: c}
		}
	}
	if len(c.bind) == 0 && c.snap == nil {
		for i, o := range e.closures {
			if o != nil && o.fn == c.fn && len(o.bind) == 0 && o.snap == nil {
				return &FnV{id: Int(int64(i)), c: o}
			}
		}
	}
	e.closures = append(e.closures, c)
	return &FnV{id: Int(int64(len(e.closures) - 1)), c: c}
}

// ---------- facts and obligations

func (e *Exec) assume(pc, f *Term) {
	if f == nil {
		return
	}
	g := Imp(pc, f)
	g = closeOver(g, binderTab)
	if g == tTrue {
		return
	}
	if g.Op == OAnd {
		for _, x := range g.A {
			e.addFact(x)
		}
		return
	}
	e.addFact(g)
}

func (e *Exec) addFact(g *Term) {
	if _, ok := e.factIdx[g]; ok {
		return
	}
	e.factIdx[g] = len(e.facts)
	e.facts = append(e.facts, g)
	if a := nonZeroAtom(g); a != nil {
		nonZero[a] = true
	}
}

// nonZero holds the terms some fact says are positive.
var nonZero = map[*Term]bool{}

func nonZeroAtom(g *Term) *Term {
	if (g.Op != OGe0 && g.Op != OGt0) || len(g.bvs) > 0 {
		return nil
	}
	t := g.A[0]
	if g.Op == OGt0 && t.Op != OAdd {
		return t
	}
	if t.Op == OAdd && len(t.A) == 1 && t.C[0].Sign() > 0 && (t.R.Sign() < 0 || t.R.Sign() == 0 && g.Op == OGt0) {
		return t.A[0]
	}
	return nil
}

func knownNonZero(t *Term) bool {
	if t.Op == OToReal {
		t = t.A[0]
	}
	return nonZero[t]
}

func (e *Exec) truncate(n int) {
	for _, f := range e.facts[n:] {
		delete(e.factIdx, f)
		if a := nonZeroAtom(f); a != nil {
			delete(nonZero, a)
		}
	}
	e.facts = e.facts[:n]
	for len(e.sorts) > 0 && e.sorts[len(e.sorts)-1].at > n {
		e.sorts = e.sorts[:len(e.sorts)-1]
	}
	e.sortTab = map[[2]*Term]*FnV{}
	e.shown = map[[2]*Term]bool{}
	for t := range e.recSeen {
		delete(e.recSeen, t)
	}
}

func (e *Exec) posOf(in ssa.Instruction) string {
	if in == nil || !in.Pos().IsValid() {
		if e.fr != nil {
			return e.fr.fn.String()
		}
		return ""
	}
	p := e.ld.prog.Fset.Position(in.Pos())
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, repoDir+"/"), p.Line)
}

func (e *Exec) oblige(kind, name string, pc, goal *Term, pos string) {
	if e.dry > 0 || goal == tTrue || pc == tFalse {
		if e.dry == 0 {
			e.obls = append(e.obls, &Obl{name: name, kind: kind, pc: tTrue, goal: tTrue, pos: pos})
		}
		return
	}
	if len(pc.bvs) > 0 || len(goal.bvs) > 0 {
		goal = closeOver(Imp(pc, goal), binderTab)
		pc = tTrue
	}
	if (kind == "ensures" || kind == "assert") && len(e.splits) > 0 {
		// proved in each case of a case distinction
		for m := 0; m < 1<<len(e.splits); m++ {
			var cs []*Term
			for i, c := range e.splits {
				if m>>i&1 == 1 {
					c = Not(c)
				}
				cs = append(cs, c)
			}
			kn := knownLits(cs)
			o := &Obl{name: name, kind: kind, pc: And(append(cs, Subst(pc, kn))...), goal: Subst(goal, kn), nfacts: len(e.facts), pos: pos}
			if o.pc == tFalse {
				continue
			}
			for _, f := range e.facts {
				if f = Subst(f, kn); f != tTrue {
					o.facts = append(o.facts, f)
				}
			}
			e.obls = append(e.obls, o)
		}
		return
	}
	e.obls = append(e.obls, &Obl{name: name, kind: kind, pc: pc, goal: goal, nfacts: len(e.facts), pos: pos})
}

// hyps: the facts an obligation may use.
func (e *Exec) hyps(o *Obl) []*Term {
	if o.facts != nil {
		return o.facts
	}
	return e.facts[:o.nfacts]
}

// safety: obligation in code under verification, then assumed.
func (e *Exec) safety(st *State, in ssa.Instruction, what string, goal *Term) {
	if goal == tTrue {
		return
	}
	if e.spec == 0 {
		e.oblige("safety", what+" in "+fnName(e.fr.fn), st.pc, goal, e.posOf(in))
		e.assume(st.pc, goal)
	}
}

func fnName(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

// ---------- memory

func (e *Exec) heapGet(h map[string]*Term, key string, s *Sort) *Term {
	if t, ok := h[key]; ok {
		return t
	}
	t := VarOld("H:"+key, s)
	h[key] = t
	return t
}

// loc is a resolved location: key prefix, reference, optional element index
type loc struct {
	key string
	ref *Term
	idx *Term
	t   types.Type
}

func pointee(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

func (e *Exec) locOf(p Val, elem types.Type) loc {
	switch x := p.(type) {
	case *Term:
		if _, ok := elem.Underlying().(*types.Array); ok {
			unsupported("whole-array location")
		}
		return loc{tkey(elem), x, nil, elem}
	case *PtrV:
		return loc{x.root + x.path, x.ref, x.idx, elem}
	case *BadV:
		unsupported("%s", x.msg)
	}
	unsupported("pointer %T", p)
	return loc{}
}

func (e *Exec) readLeaf(h map[string]*Term, key string, s *Sort, ref, idx *Term) *Term {
	if idx != nil {
		a := e.heapGet(h, key, SArr(SArr(s)))
		return Select(Select(a, ref), idx)
	}
	return Select(e.heapGet(h, key, SArr(s)), ref)
}
func (e *Exec) writeLeaf(h map[string]*Term, key string, s *Sort, ref, idx, v *Term) {
	if idx != nil {
		a := e.heapGet(h, key, SArr(SArr(s)))
		h[key] = Store(a, ref, Store(Select(a, ref), idx, v))
		return
	}
	h[key] = Store(e.heapGet(h, key, SArr(s)), ref, v)
}

func (e *Exec) load(st *State, p Val, elem types.Type) Val {
	if at, ok := elem.Underlying().(*types.Array); ok {
		ref, ok := p.(*Term)
		if !ok {
			if pv, ok := p.(*PtrV); ok {
				return e.readLoc(st, loc{pv.root + pv.path, pv.ref, pv.idx, elem})
			}
			unsupported("array load through %T", p)
		}
		av := &ArrV{t: elem}
		for i := 0; i < int(at.Len()); i++ {
			av.es = append(av.es, e.readLoc(st, loc{"E:" + tkey(at.Elem()), ref, Int(int64(i)), at.Elem()}))
		}
		return av
	}
	return e.readLoc(st, e.locOf(p, elem))
}

func (e *Exec) readLoc(st *State, l loc) Val {
	v := build(l.t, l.key, func(k string, s *Sort) *Term { return e.readLeaf(st.heap, k, s, l.ref, l.idx) })
	e.typeFacts(st.pc, v, l.t)
	return v
}

// typeFacts: slices have 0 <= len <= cap, at most one non-finite flag holds.
func (e *Exec) typeFacts(pc *Term, v Val, t types.Type) {
	switch x := v.(type) {
	case *SliceV:
		if x.len.Op == ONum && x.cap.Op == ONum {
			return
		}
		e.assume(tTrue, And(sliceFacts(x)))
	case *StructV:
		if u, ok := t.Underlying().(*types.Struct); ok {
			for i := range x.fs {
				e.typeFacts(pc, x.fs[i], u.Field(i).Type())
			}
		}
	case *FV:
		if !x.finite() {
			e.assume(tTrue, And(Not(And(x.nan, x.pinf)), Not(And(x.nan, x.ninf)), Not(And(x.pinf, x.ninf))))
		}
	}
}

func sliceFacts(x *SliceV) *Term {
	nn := func(t *Term) *Term { // only state facts about terms that are not already built from others
		return Ge0(t)
	}
	return And(nn(x.off), nn(x.len), Ge0(Sub(x.cap, x.len)))
}

func (e *Exec) store(st *State, in ssa.Instruction, p Val, elem types.Type, v Val) {
	if at, ok := elem.Underlying().(*types.Array); ok {
		if ref, ok := p.(*Term); ok {
			av := v.(*ArrV)
			for i := 0; i < int(at.Len()); i++ {
				e.writeLoc(st, in, loc{"E:" + tkey(at.Elem()), ref, Int(int64(i)), at.Elem()}, av.es[i])
			}
			return
		}
	}
	e.writeLoc(st, in, e.locOf(p, elem), v)
}

func (e *Exec) writeLoc(st *State, in ssa.Instruction, l loc, v Val) {
	explode(l.t, l.key, v, func(k string, s *Sort, x *Term) {
		e.writeLeaf(st.heap, k, s, l.ref, l.idx, x)
	}, func(f *FV) {
		g := f.fin()
		if e.spec == 0 {
			e.oblige("finite", "value stored in "+l.key+" is finite in "+fnName(e.fr.fn), st.pc, g, e.posOf(in))
		}
		e.assume(st.pc, g)
	})
}

func (e *Exec) alloc(st *State, t types.Type) *Term {
	r := NewRef()
	if at, ok := t.Underlying().(*types.Array); ok {
		for _, lf := range leavesOf(at.Elem(), "E:"+tkey(at.Elem())) {
			a := e.heapGet(st.heap, lf.path, SArr(SArr(lf.s)))
			st.heap[lf.path] = Store(a, r, ConstArr(zeroTerm(lf.s)))
		}
		return r
	}
	for _, lf := range leavesOf(t, tkey(t)) {
		a := e.heapGet(st.heap, lf.path, SArr(lf.s))
		st.heap[lf.path] = Store(a, r, zeroTerm(lf.s))
	}
	return r
}

// allocElems makes a zeroed backing array.
func (e *Exec) allocElems(st *State, elem types.Type) *Term {
	r := NewRef()
	for _, lf := range leavesOf(elem, "E:"+tkey(elem)) {
		a := e.heapGet(st.heap, lf.path, SArr(SArr(lf.s)))
		st.heap[lf.path] = Store(a, r, ConstArr(zeroTerm(lf.s)))
	}
	return r
}

func (e *Exec) elemAt(st *State, s *SliceV, i *Term) Val {
	return e.readLoc(st, loc{"E:" + tkey(s.elem), s.ref, Add(s.off, i), s.elem})
}

// ---------- merging

func selector(a, b *Term) *Term {
	ca, cb := conj(a), conj(b)
	inB := map[*Term]bool{}
	for _, x := range cb {
		inB[x] = true
	}
	inA := map[*Term]bool{}
	for _, x := range ca {
		inA[x] = true
	}
	var d1, d2 []*Term
	for _, x := range ca {
		if !inB[x] {
			d1 = append(d1, x)
		}
	}
	for _, x := range cb {
		if !inA[x] {
			d2 = append(d2, x)
		}
	}
	for _, x := range d1 {
		nx := Not(x)
		for _, y := range d2 {
			if nx == y {
				return x
			}
		}
	}
	if len(d1) > 0 {
		return And(d1...)
	}
	return Not(And(d2...))
}

func (e *Exec) merge2(a, b *State) *State {
	if a.pc == tFalse {
		return b
	}
	if b.pc == tFalse {
		return a
	}
	c := selector(a.pc, b.pc)
	r := &State{pc: Or(a.pc, b.pc), heap: map[string]*Term{}, env: map[ssa.Value]Val{}}
	for k, v := range a.heap {
		w, ok := b.heap[k]
		if !ok {
			w = e.heapGet(b.heap, k, v.S)
		}
		r.heap[k] = Ite(c, v, w)
	}
	for k, w := range b.heap {
		if _, ok := a.heap[k]; !ok {
			r.heap[k] = Ite(c, e.heapGet(a.heap, k, w.S), w)
		}
	}
	for k, v := range a.env {
		if w, ok := b.env[k]; ok {
			if eqVal(v, w) {
				r.env[k] = v
			} else {
				r.env[k] = mergeVal(c, v, w)
			}
		} else {
			r.env[k] = v
		}
	}
	for k, w := range b.env {
		if _, ok := a.env[k]; !ok {
			r.env[k] = w
		}
	}
	return r
}

// ---------- running functions

type edge struct {
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
	st   *State
}

const maxDepth = 60

// call runs a function body inline; st is updated with the resulting heap.
func (e *Exec) inline(fn *ssa.Function, args []Val, bind []Val, st *State) Val {
	if len(fn.Blocks) == 0 {
		unsupported("no body for %s", fn)
	}
	d := 0
	if e.fr != nil {
		d = e.fr.depth + 1
	}
	if d > maxDepth {
		unsupported("call depth at %s", fn)
	}
	isSpec := e.ld.isContractFn(fn)
	fr := &Frame{fn: fn, caller: e.fr, spec: isSpec, depth: d, site: e.site}
	if !isSpec && e.spec == 0 && inRepo(fn) {
		e.funcs[fnName(fn)] = true
	}
	old := e.fr
	e.fr = fr
	deaths0 := e.deaths
	s := &State{pc: st.pc, heap: st.heap, env: map[ssa.Value]Val{}}
	for i, p := range fn.Params {
		s.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		s.env[f] = bind[i]
	}
	if len(fn.Blocks) == 1 {
		e.block(fr, fn.Blocks[0], s, nil)
	} else {
		e.region(fr, nil, nil, []edge{{nil, fn.Blocks[0], s}})
	}
	e.fr = old
	if len(fr.rets) == 0 {
		// no normal return
		e.assume(st.pc, tFalse)
		st.pc = tFalse
		e.deaths++
		var rt types.Type = fn.Signature.Results()
		return zeroResult(rt)
	}
	// merge the returns
	acc := fr.rets[0].st
	acc.env = map[ssa.Value]Val{}
	v := fr.rets[0].v
	for _, r := range fr.rets[1:] {
		if r.st.pc == tFalse {
			continue
		}
		if acc.pc == tFalse {
			acc, v = r.st, r.v
			acc.env = map[ssa.Value]Val{}
			continue
		}
		c := selector(acc.pc, r.st.pc)
		r.st.env = map[ssa.Value]Val{}
		m := e.merge2(acc, r.st)
		if v != nil && !eqVal(v, r.v) {
			v = mergeVal(c, v, r.v)
		}
		acc = m
	}
	if acc.pc != st.pc && acc.pc != tFalse {
		if e.deaths != deaths0 {
			e.assume(st.pc, acc.pc)
		}
		acc.pc = st.pc
	}
	st.heap = acc.heap
	st.pc = acc.pc
	return v
}

func zeroResult(t types.Type) Val {
	tu := t.(*types.Tuple)
	switch tu.Len() {
	case 0:
		return nil
	case 1:
		return zeroVal(tu.At(0).Type())
	}
	r := &TupV{}
	for i := 0; i < tu.Len(); i++ {
		r.vs = append(r.vs, zeroVal(tu.At(i).Type()))
	}
	return r
}

type pdKey struct{ fn, header interface{} }

// postDoms gives for every block of the region the blocks every way out of the region (by a return, to the
// header or to a block outside) passes; ways that only end in a panic do not count.
func (e *Exec) postDoms(fn *ssa.Function, in map[*ssa.BasicBlock]bool, header *ssa.BasicBlock) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if e.pdTab == nil {
		e.pdTab = map[pdKey]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	}
	k := pdKey{fn, header}
	if r, ok := e.pdTab[k]; ok {
		return r
	}
	r := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{} // nil: no way out known yet
	leaves := func(b, s *ssa.BasicBlock) bool { return header != nil && s == header || in != nil && !in[s] }
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if in != nil && !in[b] {
				continue
			}
			var acc map[*ssa.BasicBlock]bool
			out := false
			meet := func(m map[*ssa.BasicBlock]bool) {
				if acc == nil {
					acc = map[*ssa.BasicBlock]bool{}
					for x := range m {
						acc[x] = true
					}
					return
				}
				for x := range acc {
					if !m[x] {
						delete(acc, x)
					}
				}
			}
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				meet(nil)
				out = true
			}
			for _, s := range b.Succs {
				if leaves(b, s) {
					meet(nil)
					out = true
				} else if r[s] != nil {
					meet(r[s])
					out = true
				}
			}
			if !out {
				continue
			}
			if acc == nil {
				acc = map[*ssa.BasicBlock]bool{}
			}
			acc[b] = true
			if old := r[b]; old == nil || len(old) != len(acc) {
				r[b] = acc
				ch = true
			}
		}
	}
	e.pdTab[k] = r
	return r
}

type regionOut struct {
	exits []edge // edges leaving the region
	backs []edge // edges to the loop header
}

// region executes the blocks of a loop body (or the whole function when in == nil) once.
func (e *Exec) region(fr *Frame, in map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, start []edge) regionOut {
	li := e.loopsOf(fr.fn)
	pend := map[*ssa.BasicBlock][]edge{}
	for _, s := range start {
		pend[s.to] = append(pend[s.to], s)
	}
	var out regionOut
	first := true
	route := func(ed edge) {
		if ed.st.pc == tFalse {
			return
		}
		switch {
		case in != nil && !in[ed.to]:
			out.exits = append(out.exits, ed)
		case header != nil && ed.to == header:
			out.backs = append(out.backs, ed)
		default:
			pend[ed.to] = append(pend[ed.to], ed)
		}
	}
	skip := map[*ssa.BasicBlock]bool{}
	type visit struct {
		pc     *Term
		deaths int
	}
	seen := map[*ssa.BasicBlock]visit{}
	pd := e.postDoms(fr.fn, in, header)
	for _, b := range li.rpo {
		if in != nil && !in[b] || skip[b] {
			continue
		}
		es := pend[b]
		if len(es) == 0 {
			continue
		}
		if lp := li.byHeader[b]; lp != nil && !(b == header && first) {
			for x := range lp.body {
				skip[x] = true
			}
			for _, ed := range e.execLoop(fr, lp, es) {
				route(ed)
			}
			continue
		}
		if b == header {
			first = false
		}
		st := e.join(b, es, b == header && header != nil)
		if d := b.Idom(); d != nil && len(es) > 1 {
			// every path from d to the end passes b: the branches between them are over
			if v, ok := seen[d]; ok && pd[d][b] && v.pc != st.pc && st.pc != tFalse {
				if v.deaths != e.deaths {
					e.assume(v.pc, st.pc)
				}
				st.pc = v.pc
			}
		}
		seen[b] = visit{st.pc, e.deaths}
		e.block(fr, b, st, route)
	}
	return out
}

// join merges incoming edges, resolving phis (unless noPhi: the loop header's phis are already bound).
func (e *Exec) join(b *ssa.BasicBlock, es []edge, noPhi bool) *State {
	var acc *State
	for i := len(es) - 1; i >= 0; i-- { // innermost branches first
		s := es[i].st
		if !noPhi {
			s = e.applyPhis(b, es[i])
		}
		if acc == nil {
			acc = s
		} else {
			acc = e.merge2(s, acc)
		}
	}
	return acc
}

func (e *Exec) applyPhis(b *ssa.BasicBlock, ed edge) *State {
	s := ed.st
	if ed.from == nil {
		return s
	}
	idx := -1
	for i, p := range b.Preds {
		if p == ed.from {
			idx = i
		}
	}
	type pv struct {
		p *ssa.Phi
		v Val
	}
	var vs []pv
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, pv{p, e.val(s, p.Edges[idx])})
	}
	if len(vs) == 0 {
		return s
	}
	n := &State{pc: s.pc, heap: s.heap, env: make(map[ssa.Value]Val, len(s.env))}
	for k, v := range s.env {
		n.env[k] = v
	}
	for _, x := range vs {
		n.env[x.p] = x.v
	}
	return n
}

func decide(pc, c *Term) int {
	if c == tTrue {
		return 1
	}
	if c == tFalse {
		return 0
	}
	nc := Not(c)
	for _, x := range conj(pc) {
		if x == c {
			return 1
		}
		if x == nc {
			return 0
		}
	}
	return -1
}

func (e *Exec) block(fr *Frame, b *ssa.BasicBlock, st *State, route func(edge)) {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := e.val(st, x.Cond).(*Term)
			d := decide(st.pc, c)
			if d == -1 {
				d = e.decideByFacts(st, c)
			}
			switch d {
			case 1:
				route(edge{b, b.Succs[0], st})
			case 0:
				route(edge{b, b.Succs[1], st})
			default:
				s1 := st.clone()
				s1.pc = And(st.pc, c)
				st.pc = And(st.pc, Not(c))
				if s1.pc != tFalse {
					route(edge{b, b.Succs[0], s1})
				}
				if st.pc != tFalse {
					route(edge{b, b.Succs[1], st})
				}
			}
			return
		case *ssa.Jump:
			route(edge{b, b.Succs[0], st})
			return
		case *ssa.Return:
			var v Val
			if len(x.Results) == 1 {
				v = e.val(st, x.Results[0])
			} else if len(x.Results) > 1 {
				t := &TupV{}
				for _, r := range x.Results {
					t.vs = append(t.vs, e.val(st, r))
				}
				v = t
			}
			fr.rets = append(fr.rets, retState{st, v})
			return
		case *ssa.Panic:
			if e.spec == 0 {
				e.oblige("safety", "panic unreachable in "+fnName(fr.fn), st.pc, tFalse, e.posOf(in))
			}
			e.assume(st.pc, tFalse)
			e.deaths++
			return
		default:
			e.instr(st, in)
			if st.pc == tFalse {
				return
			}
		}
	}
}

// decideByFacts: an unconditional fact may settle a branch syntactically.
func (e *Exec) decideByFacts(st *State, c *Term) int {
	if _, ok := e.factIdx[c]; ok {
		return 1
	}
	if _, ok := e.factIdx[Not(c)]; ok {
		return 0
	}
	return -1
}

// ---------- operands

func (e *Exec) val(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return e.newClosure(&Closure{fn: x})
	case *ssa.Global:
		r, ok := e.globals[x]
		if !ok {
			r = NewRef()
			e.globals[x] = r
		}
		return r
	case *ssa.Builtin:
		return nil
	}
	r, ok := st.env[v]
	if !ok {
		unsupported("no value for %s in %s", v.Name(), e.fr.fn)
	}
	return r
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			i, ok := constant.Int64Val(constant.ToInt(c.Value))
			if !ok {
				if ui, ok2 := constant.Uint64Val(constant.ToInt(c.Value)); ok2 {
					if isBV(t) {
						return BV(ui)
					}
					return Num(new(big.Rat).SetInt(new(big.Int).SetUint64(ui)), SInt)
				}
			}
			if isBV(t) {
				return BV(uint64(i))
			}
			return Int(i)
		case u.Info()&types.IsFloat != 0:
			return fin(floatConst(c.Value, u.Kind() == types.Float32))
		case u.Info()&types.IsString != 0:
			return StrC(constant.StringVal(c.Value))
		}
	}
	unsupported("constant %s of type %s", c, t)
	return nil
}

func floatConst(v constant.Value, f32 bool) *Term {
	bits := 64
	if f32 {
		bits = 32
	}
	f, _ := constant.Float64Val(constant.ToFloat(v))
	return decTerm(f, bits)
}
func decTerm(f float64, bits int) *Term {
	return Num(ratOfFloat(strconv.FormatFloat(f, 'e', -1, bits)), SReal)
}

// ---------- instructions

func (e *Exec) instr(st *State, in ssa.Instruction) {
	if in.Pos().IsValid() {
		e.site = int(in.Pos())
	}
	set := func(v ssa.Value, x Val) {
		if f, ok := x.(*FV); ok && e.eagerFin && !f.finite() {
			x = e.finiteFV(st, f)
		}
		st.env[v] = x
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		set(x, e.alloc(st, pointee(x.Type())))
	case *ssa.BinOp:
		set(x, e.binop(st, x))
	case *ssa.UnOp:
		set(x, e.unop(st, x))
	case *ssa.Call:
		v := e.call(st, x)
		set(x, v)
	case *ssa.ChangeType:
		v := e.val(st, x.X)
		if sv, ok := v.(*StructV); ok {
			v = &StructV{x.Type(), sv.fs}
		}
		set(x, v)
	case *ssa.ChangeInterface:
		set(x, e.val(st, x.X))
	case *ssa.Convert:
		set(x, e.convert(st, e.val(st, x.X), x.X.Type(), x.Type()))
	case *ssa.Extract:
		set(x, e.val(st, x.Tuple).(*TupV).vs[x.Index])
	case *ssa.Field:
		set(x, e.val(st, x.X).(*StructV).fs[x.Field])
	case *ssa.FieldAddr:
		p := e.val(st, x.X)
		pt := pointee(x.X.Type())
		f := pt.Underlying().(*types.Struct).Field(x.Field)
		switch q := p.(type) {
		case *Term:
			e.nilDeref(st, in, q)
			set(x, &PtrV{tkey(pt), q, nil, "." + f.Name(), f.Type()})
		case *PtrV:
			set(x, &PtrV{q.root, q.ref, q.idx, q.path + "." + f.Name(), f.Type()})
		default:
			unsupported("field address of %T %v", p, p)
		}
	case *ssa.Index:
		v := e.val(st, x.X)
		i := e.val(st, x.Index).(*Term)
		if isString(x.X.Type()) {
			set(x, e.strAt(st, in, v.(*Term), i))
			return
		}
		av := v.(*ArrV)
		e.safety(st, in, "array index in range", And(Ge0(i), Lt(i, Int(int64(len(av.es))))))
		set(x, pickArr(av.es, i))
	case *ssa.IndexAddr:
		p := e.val(st, x.X)
		i := e.val(st, x.Index).(*Term)
		switch q := p.(type) {
		case *SliceV:
			e.safety(st, in, "slice index in range", And(Ge0(i), Lt(i, q.len)))
			set(x, &PtrV{"E:" + tkey(q.elem), q.ref, Add(q.off, i), "", q.elem})
		case *Term: // pointer to array
			at := pointee(x.X.Type()).Underlying().(*types.Array)
			e.safety(st, in, "array index in range", And(Ge0(i), Lt(i, Int(at.Len()))))
			set(x, &PtrV{"E:" + tkey(at.Elem()), q, i, "", at.Elem()})
		case *PtrV:
			at := pointee(x.X.Type()).Underlying().(*types.Array)
			e.safety(st, in, "array index in range", And(Ge0(i), Lt(i, Int(at.Len()))))
			if i.Op != ONum {
				unsupported("symbolic index into an embedded array")
			}
			set(x, &PtrV{q.root, q.ref, q.idx, fmt.Sprintf("%s[%s]", q.path, i.R.RatString()), at.Elem()})
		default:
			unsupported("index address of %T", p)
		}
	case *ssa.Lookup:
		if isString(x.X.Type()) {
			set(x, e.strAt(st, in, e.val(st, x.X).(*Term), e.val(st, x.Index).(*Term)))
			return
		}
		unsupported("map lookup")
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.bind = append(c.bind, e.val(st, b))
		}
		set(x, e.newClosure(c))
	case *ssa.MakeInterface:
		v := e.val(st, x.X)
		tag := Int(int64(e.ld.tag(x.X.Type())))
		if t, ok := v.(*Term); ok {
			if _, isP := x.X.Type().Underlying().(*types.Pointer); isP {
				set(x, &IfaceV{tag: tag, ref: t})
				return
			}
		}
		set(x, &IfaceV{tag: tag, ref: Int(-1), dyn: v, dynT: x.X.Type()})
	case *ssa.MakeSlice:
		n := e.val(st, x.Len).(*Term)
		c := e.val(st, x.Cap).(*Term)
		var fits func(t *Term, depth int)
		fits = func(t *Term, depth int) { // slices that exist fit into memory
			for a := range toLin(t).m {
				if a.Op == OIte && depth < 6 {
					fits(a.A[1], depth+1)
					fits(a.A[2], depth+1)
				}
				if a.Op == OVar && strings.Contains(a.Name, "#len") || a.Op == OSelect && a.A[0].Op == OVar && strings.Contains(a.A[0].Name, "#len") {
					e.notes["slices hold at most 2^40 elements"] = true
					e.assume(tTrue, Le(a, Int(1<<40)))
				}
			}
		}
		fits(c, 0)
		e.safety(st, in, "make with a valid length", And(Ge0(n), Le(n, c), Le(c, Int(1<<44))))
		el := x.Type().Underlying().(*types.Slice).Elem()
		r := e.allocElems(st, el)
		set(x, &SliceV{el, r, Int(0), n, c})
	case *ssa.Slice:
		set(x, e.slice(st, x))
	case *ssa.Store:
		p := e.val(st, x.Addr)
		if t, ok := p.(*Term); ok {
			e.nilDeref(st, in, t)
		}
		e.store(st, in, p, pointee(x.Addr.Type()), e.val(st, x.Val))
	case *ssa.TypeAssert:
		set(x, e.typeAssert(st, x))
	case *ssa.Range:
		s := e.val(st, x.X)
		t, ok := s.(*Term)
		if !ok || t.S != SStr {
			unsupported("range over a map")
		}
		r := NewRef()
		st.heap["iter.pos"] = Store(e.heapGet(st.heap, "iter.pos", SArr(SInt)), r, Int(0))
		set(x, &TupV{[]Val{r, t}})
	case *ssa.Next:
		it := e.val(st, x.Iter).(*TupV)
		r, s := it.vs[0].(*Term), it.vs[1].(*Term)
		pos := Select(e.heapGet(st.heap, "iter.pos", SArr(SInt)), r)
		ok := Lt(pos, strLen(s))
		w := App("runewidth", SInt, s, pos)
		e.assume(st.pc, Ge0(pos)) // an iterator starts at 0 and only moves on
		e.assume(tTrue, And(Ge0(Sub(w, Int(1))), Le(w, Int(4)), Imp(And(Ge0(pos), ok), Le(Add(pos, w), strLen(s)))))
		rn := App("runeat", SInt, s, pos)
		st.heap["iter.pos"] = Store(e.heapGet(st.heap, "iter.pos", SArr(SInt)), r, Ite(ok, Add(pos, w), pos))
		set(x, &TupV{[]Val{ok, pos, rn}})
	case *ssa.RunDefers:
	case *ssa.Defer:
		n := ""
		if f := x.Call.StaticCallee(); f != nil {
			n = f.String()
		}
		if !strings.HasPrefix(n, "(*sync.") {
			unsupported("defer of %s", n)
		}
	default:
		unsupported("instruction %T (%s)", in, in)
	}
}

func pickArr(es []Val, i *Term) Val {
	if i.Op == ONum {
		n := int(i.R.Num().Int64())
		if n >= 0 && n < len(es) {
			return es[n]
		}
		return es[0]
	}
	r := es[len(es)-1]
	for k := len(es) - 2; k >= 0; k-- {
		r = mergeVal(Eq(i, Int(int64(k))), es[k], r)
	}
	return r
}

func (e *Exec) nilDeref(st *State, in ssa.Instruction, r *Term) {
	if r.Op == ONewRef {
		return
	}
	if isZero(r) {
		e.safety(st, in, "nil dereference unreachable", tFalse)
		return
	}
	if e.nilcheck {
		e.safety(st, in, "no nil dereference", Not(Eq0(r)))
	}
}

func (e *Exec) unop(st *State, x *ssa.UnOp) Val {
	v := e.val(st, x.X)
	switch x.Op {
	case token.MUL:
		if t, ok := v.(*Term); ok {
			e.nilDeref(st, x, t)
		}
		return e.load(st, v, pointee(x.X.Type()))
	case token.NOT:
		return Not(v.(*Term))
	case token.SUB:
		if f, ok := v.(*FV); ok {
			return fNeg(f)
		}
		return Neg(v.(*Term))
	case token.XOR:
		t := v.(*Term)
		if t.S == SBV {
			return BVNot(t)
		}
		return Sub(Int(-1), t)
	}
	unsupported("unary %s", x.Op)
	return nil
}

func truncDiv(a *Term, c int64) *Term {
	if c < 0 {
		return Neg(truncDiv(a, -c))
	}
	if c == 1 {
		return a
	}
	if nonNeg(a) {
		return IDiv(a, c)
	}
	return Ite(Ge0(a), IDiv(a, c), Neg(IDiv(Neg(a), c)))
}

// nonNeg recognises terms that are certainly non-negative.
func nonNeg(a *Term) bool {
	switch a.Op {
	case ONum:
		return a.R.Sign() >= 0
	case OVar, OApp:
		return strings.HasPrefix(a.Name, "k!") || a.Name == "strlen"
	case OAdd:
		if a.R.Sign() < 0 {
			return false
		}
		for i, x := range a.A {
			if a.C[i].Sign() < 0 || !nonNeg(x) {
				return false
			}
		}
		return true
	}
	return false
}

func pow2(n uint64) *big.Rat {
	return new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(n)))
}

func (e *Exec) binop(st *State, x *ssa.BinOp) Val {
	a, b := e.val(st, x.X), e.val(st, x.Y)
	switch x.Op {
	case token.EQL:
		return e.equal(st, a, b)
	case token.NEQ:
		return Not(e.equal(st, a, b))
	}
	if fa, ok := a.(*FV); ok {
		fb := b.(*FV)
		switch x.Op {
		case token.ADD:
			return fAdd(fa, fb)
		case token.SUB:
			return fSub(fa, fb)
		case token.MUL:
			return fMul(fa, fb)
		case token.QUO:
			return fDiv(fa, fb)
		case token.LSS:
			return fLt(fa, fb)
		case token.GTR:
			return fLt(fb, fa)
		case token.LEQ:
			return fLe(fa, fb)
		case token.GEQ:
			return fLe(fb, fa)
		}
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsupported("binary %s on %T", x.Op, a)
	}
	if ta.S == SBool {
		switch x.Op {
		case token.AND:
			return And(ta, tb)
		case token.OR:
			return Or(ta, tb)
		}
	}
	if ta.S == SStr {
		switch x.Op {
		case token.ADD:
			return strConcat(ta, tb)
		case token.LSS:
			return App("strlt", SBool, ta, tb)
		case token.GTR:
			return App("strlt", SBool, tb, ta)
		}
		unsupported("string %s", x.Op)
	}
	if ta.S == SBV {
		shift := func() int {
			if tb.Op == ONum {
				return int(tb.R.Num().Int64())
			}
			if tb.Op == OBV {
				return int(tb.B)
			}
			unsupported("symbolic shift")
			return 0
		}
		switch x.Op {
		case token.AND:
			return BVAnd(ta, tb)
		case token.OR:
			return BVOr(ta, tb)
		case token.XOR:
			return BVXor(ta, tb)
		case token.AND_NOT:
			return BVAnd(ta, BVNot(tb))
		case token.SHL:
			if tb.Op != ONum && tb.Op != OBV && tb.S == SInt {
				// a shift by a variable amount: one of 64, or everything is shifted out
				r := BV(0)
				for i := 63; i >= 0; i-- {
					r = Ite(Eq(tb, Int(int64(i))), BVShl(ta, i), r)
				}
				return r
			}
			return BVShl(ta, shift())
		case token.SHR:
			return BVShr(ta, shift())
		case token.GTR:
			if tb == BV(0) {
				return BVSGt0(ta)
			}
		case token.LEQ:
			if tb == BV(0) {
				return Not(BVSGt0(ta))
			}
		case token.LSS:
			if tb == BV(0) {
				return Bit(ta, 63)
			}
			if ta == BV(0) {
				return BVSGt0(tb)
			}
		case token.GEQ:
			if tb == BV(0) {
				return Not(Bit(ta, 63))
			}
		}
		unsupported("Modifier %s", x.Op)
	}
	switch x.Op {
	case token.ADD:
		return Add(ta, tb)
	case token.SUB:
		return Sub(ta, tb)
	case token.MUL:
		return Mul(ta, tb)
	case token.QUO:
		return e.idiv(st, x, ta, tb, false)
	case token.REM:
		return e.idiv(st, x, ta, tb, true)
	case token.LSS:
		return Lt(ta, tb)
	case token.GTR:
		return Lt(tb, ta)
	case token.LEQ:
		return Le(ta, tb)
	case token.GEQ:
		return Le(tb, ta)
	case token.SHL:
		if tb.Op == ONum {
			return Scale(ta, pow2(tb.R.Num().Uint64()))
		}
		return App("shl", SInt, ta, tb)
	case token.SHR:
		if tb.Op == ONum {
			return IDiv(ta, 1<<tb.R.Num().Uint64())
		}
		return App("shr", SInt, ta, tb)
	case token.AND:
		if tb.Op != ONum {
			ta, tb = tb, ta
		}
		if tb.Op == ONum && tb.R.Sign() >= 0 {
			if ta.Op == ONum && ta.R.Sign() >= 0 {
				return Num(new(big.Rat).SetInt(new(big.Int).And(ta.R.Num(), tb.R.Num())), SInt)
			}
			return intAnd(ta, tb.R.Num().Uint64())
		}
		return App("iand", SInt, ta, tb)
	case token.OR:
		if ta.Op == ONum && tb.Op == ONum && ta.R.Sign() >= 0 && tb.R.Sign() >= 0 {
			return Num(new(big.Rat).SetInt(new(big.Int).Or(ta.R.Num(), tb.R.Num())), SInt)
		}
		return App("ior", SInt, ta, tb)
	case token.XOR:
		return App("ixor", SInt, ta, tb)
	}
	unsupported("binary %s", x.Op)
	return nil
}

// intAnd: x & mask on a mathematical integer (two's complement), as a sum over runs of bits.
func intAnd(x *Term, m uint64) *Term {
	r := Int(0)
	for i := 0; i < 63; {
		if m>>i&1 == 0 {
			i++
			continue
		}
		j := i
		for j < 63 && m>>j&1 == 1 {
			j++
		}
		run := IMod(IDiv(x, 1<<i), 1<<(j-i))
		r = Add(r, Scale(run, pow2(uint64(i))))
		i = j
	}
	return r
}

func (e *Exec) idiv(st *State, in ssa.Instruction, a, b *Term, rem bool) *Term {
	if b.Op == ONum {
		c := b.R.Num().Int64()
		if c == 0 {
			e.safety(st, in, "division by zero", tFalse)
			return Int(0)
		}
		q := truncDiv(a, c)
		if rem {
			return Sub(a, Scale(q, b.R))
		}
		return q
	}
	e.safety(st, in, "division by zero", Not(Eq0(b)))
	q := App("tdiv", SInt, a, b)
	r := App("trem", SInt, a, b)
	e.assume(tTrue, Or(Eq0(b), And(Eq(a, Add(Mul(b, q), r)),
		Imp(Ge0(a), Ge0(r)), Imp(Le(a, Int(0)), Le(r, Int(0))),
		Imp(Gt0(b), And(Lt(r, b), Lt(Neg(b), r))), Imp(Lt(b, Int(0)), And(Lt(r, Neg(b)), Lt(b, r))),
		Imp(And(Ge0(a), Gt0(b)), Ge0(q)))))
	if rem {
		return r
	}
	return q
}

func (e *Exec) equal(st *State, a, b Val) *Term {
	switch x := a.(type) {
	case *Term:
		switch y := b.(type) {
		case *Term:
			if x.S == SStr {
				return e.strEq(x, y)
			}
			return Eq(x, y)
		case *PtrV:
			if isZero(x) {
				return tFalse
			}
		}
	case *FV:
		return fEq(x, b.(*FV))
	case *SliceV:
		y := b.(*SliceV)
		if isZero(y.ref) {
			return Eq0(x.ref)
		}
		if isZero(x.ref) {
			return Eq0(y.ref)
		}
	case *StructV:
		y := b.(*StructV)
		r := tTrue
		for i := range x.fs {
			r = And(r, e.equal(st, x.fs[i], y.fs[i]))
		}
		return r
	case *ArrV:
		y := b.(*ArrV)
		r := tTrue
		for i := range x.es {
			r = And(r, e.equal(st, x.es[i], y.es[i]))
		}
		return r
	case *IfaceV:
		y := b.(*IfaceV)
		if isZero(y.tag) {
			return Eq0(x.tag)
		}
		if isZero(x.tag) {
			return Eq0(y.tag)
		}
		if x.dyn == nil && y.dyn == nil {
			return And(Eq(x.tag, y.tag), Eq(x.ref, y.ref))
		}
		if x.dyn != nil && y.dyn != nil && tkey(x.dynT) == tkey(y.dynT) {
			return e.equal(st, x.dyn, y.dyn)
		}
		return Var("ifaceeq", SBool)
	case *FnV:
		return Eq(x.id, b.(*FnV).id)
	case *PtrV:
		switch y := b.(type) {
		case *Term:
			if isZero(y) {
				return tFalse
			}
		case *PtrV:
			if x.root == y.root && x.path == y.path {
				r := Eq(x.ref, y.ref)
				if x.idx != nil {
					r = And(r, Eq(x.idx, y.idx))
				}
				return r
			}
		}
	}
	unsupported("comparison of %T and %T", a, b)
	return nil
}

func (e *Exec) convert(st *State, v Val, from, to types.Type) Val {
	switch {
	case isInt(from) && isFloat(to):
		return fin(ToReal(v.(*Term)))
	case isFloat(from) && isFloat(to):
		return v
	case isFloat(from) && isInt(to):
		f := v.(*FV)
		t := truncReal(f.v)
		if !f.finite() {
			t = Ite(f.fin(), t, App("f2i_undef", SInt, f.v))
		}
		if isBV(to) {
			unsupported("float to Modifier")
		}
		return t
	case isInt(from) && isInt(to):
		t := v.(*Term)
		if isBV(from) == isBV(to) {
			return t
		}
		if isBV(to) {
			if t.Op == ONum {
				return BV(uint64(t.R.Num().Int64()))
			}
			return App("int2bv", SBV, t)
		}
		if t.Op == OBV {
			return Int(int64(t.B))
		}
		return App("bv2int", SInt, t)
	case isInt(from) && isString(to):
		return e.runeStr(v.(*Term))
	case isString(from) && isString(to):
		return v
	case isString(from): // []byte, []rune
		sl, ok := to.Underlying().(*types.Slice)
		if !ok {
			break
		}
		s := v.(*Term)
		r := NewRef()
		key := "E:" + tkey(sl.Elem())
		a := e.heapGet(st.heap, key, SArr(SArr(SInt)))
		n := strLen(s)
		arr := App("strbytes", SArr(SInt), s)
		if tkey(sl.Elem()) != "byte" && tkey(sl.Elem()) != "uint8" {
			n = App("runecount", SInt, s)
			e.assume(tTrue, And(Ge0(n), Le(n, strLen(s))))
			arr = App("strrunes", SArr(SInt), s)
		}
		st.heap[key] = Store(a, r, arr)
		return &SliceV{sl.Elem(), r, Int(0), n, n}
	case isString(to):
		return Var("strconv", SStr)
	}
	if types.IdenticalIgnoreTags(from.Underlying(), to.Underlying()) {
		return v
	}
	unsupported("conversion %s to %s", from, to)
	return nil
}

func truncReal(r *Term) *Term {
	if i := asInt(r); i != nil {
		return i
	}
	return Ite(Ge0(r), Floor(r), Neg(Floor(Neg(r))))
}

func (e *Exec) slice(st *State, x *ssa.Slice) Val {
	v := e.val(st, x.X)
	get := func(o ssa.Value, d *Term) *Term {
		if o == nil {
			return d
		}
		return e.val(st, o).(*Term)
	}
	switch s := v.(type) {
	case *SliceV:
		lo := get(x.Low, Int(0))
		hi := get(x.High, s.len)
		mx := get(x.Max, s.cap)
		g := And(Ge0(lo), Le(lo, hi), Le(hi, mx))
		if x.Max != nil {
			g = And(g, Le(mx, s.cap))
		}
		e.safety(st, x, "slice bounds in range", g)
		return &SliceV{s.elem, s.ref, Add(s.off, lo), Sub(hi, lo), Sub(mx, lo)}
	case *Term:
		if s.S == SStr {
			lo := get(x.Low, Int(0))
			hi := get(x.High, strLen(s))
			e.safety(st, x, "string slice bounds in range", And(Ge0(lo), Le(lo, hi), Le(hi, strLen(s))))
			return strSub(s, lo, hi)
		}
		at := pointee(x.X.Type()).Underlying().(*types.Array)
		n := Int(at.Len())
		lo := get(x.Low, Int(0))
		hi := get(x.High, n)
		e.safety(st, x, "slice bounds in range", And(Ge0(lo), Le(lo, hi), Le(hi, n)))
		return &SliceV{at.Elem(), s, lo, Sub(hi, lo), Sub(n, lo)}
	}
	unsupported("slice of %T", v)
	return nil
}

func (e *Exec) typeAssert(st *State, x *ssa.TypeAssert) Val {
	iv, ok := e.val(st, x.X).(*IfaceV)
	if !ok {
		unsupported("type assertion on %T", e.val(st, x.X))
	}
	if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		okT := Not(Eq0(iv.tag))
		r := &IfaceV{tag: Ite(okT, iv.tag, Int(0)), ref: Ite(okT, iv.ref, Int(0)), dyn: iv.dyn, dynT: iv.dynT}
		impl := tFalse
		for _, t := range e.ld.implementers(x.AssertedType) {
			impl = Or(impl, Eq(iv.tag, Int(int64(e.ld.tag(t)))))
		}
		if x.CommaOk {
			r.tag = Ite(impl, iv.tag, Int(0))
			r.ref = Ite(impl, iv.ref, Int(0))
			return &TupV{[]Val{r, impl}}
		}
		e.safety(st, x, "type assertion holds", impl)
		return r
	}
	c := Eq(iv.tag, Int(int64(e.ld.tag(x.AssertedType))))
	if d := decide(st.pc, c); d == 1 {
		c = tTrue
	} else if d == 0 {
		c = tFalse
	}
	var v Val
	if iv.dyn != nil {
		v = iv.dyn
		if c != tTrue {
			v = zeroVal(x.AssertedType)
		}
	} else if _, isP := x.AssertedType.Underlying().(*types.Pointer); isP {
		if x.CommaOk {
			v = Ite(c, iv.ref, Int(0))
			// under the positive branch the value is simply the payload
			if c == tTrue {
				v = iv.ref
			}
		} else {
			v = iv.ref
		}
	} else {
		// boxed value of unknown origin
		v = e.symVal("unboxed", x.AssertedType)
	}
	if x.CommaOk {
		return &TupV{[]Val{v, c}}
	}
	e.safety(st, x, "type assertion holds", c)
	return v
}

// symVal makes an arbitrary value of a type.
func (e *Exec) symVal(hint string, t types.Type) Val { return e.symValLB(hint, t, -1) }
func (e *Exec) symValLB(hint string, t types.Type, lb int) Val {
	v := build(t, hint, func(k string, s *Sort) *Term {
		l := -1
		if lb >= 0 && s == SInt && (strings.HasSuffix(k, "#ref") || isRefType(t) && k == hint) {
			l = lb
		}
		return VarLB(k, s, l)
	})
	e.valFacts(v, t)
	return v
}

func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map:
		return true
	}
	return false
}

// valFacts: facts every Go value satisfies (references are not younger than the value).
func (e *Exec) valFacts(v Val, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if sv, ok := v.(*StructV); ok {
			for i := range sv.fs {
				e.valFacts(sv.fs[i], u.Field(i).Type())
			}
		}
	case *types.Slice:
		s := v.(*SliceV)
		e.assume(tTrue, And(Ge0(s.off), Ge0(s.len), Le(s.len, s.cap), Imp(Eq0(s.ref), Eq0(s.cap))))
		e.assume(tTrue, Lt(Int(int64(-s.ref.ub-1)), s.ref))
	case *types.Pointer:
		if p, ok := v.(*Term); ok {
			e.assume(tTrue, Lt(Int(int64(-p.ub-1)), p))
		}
	case *types.Interface:
		iv := v.(*IfaceV)
		if iv.ref != nil {
			e.assume(tTrue, And(Ge0(iv.tag), Lt(Int(int64(-iv.ref.ub-1)), iv.ref)))
			if im := e.ld.implementers(t); len(im) > 0 {
				or := Eq0(iv.tag)
				for _, x := range im {
					or = Or(or, Eq(iv.tag, Int(int64(e.ld.tag(x)))))
				}
				e.assume(tTrue, or)
			}
		}
	case *types.Basic:
		if f, ok := v.(*FV); ok {
			e.typeFacts(tTrue, f, t)
		}
		if u.Info()&types.IsUnsigned != 0 {
			if x, ok := v.(*Term); ok && x.S == SInt {
				e.assume(tTrue, Ge0(x))
			}
		}
	}
}

// ---------- calls

func (e *Exec) call(st *State, x *ssa.Call) Val {
	cc := x.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(st, x, b)
	}
	var args []Val
	if cc.IsInvoke() {
		recv := e.val(st, cc.Value).(*IfaceV)
		for _, a := range cc.Args {
			args = append(args, e.val(st, a))
		}
		return e.invoke(st, x, recv, cc, args)
	}
	for _, a := range cc.Args {
		args = append(args, e.val(st, a))
	}
	if f := cc.StaticCallee(); f != nil {
		var bind []Val
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				bind = append(bind, e.val(st, b))
			}
		}
		return e.callFn(st, x, f, args, bind)
	}
	fv, ok := e.val(st, cc.Value).(*FnV)
	if !ok {
		unsupported("call of %T", e.val(st, cc.Value))
	}
	// function-valued field?
	var recv Val
	field := ""
	if u, ok := cc.Value.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			pt := pointee(fa.X.Type())
			field = tkey(pt) + "." + pt.Underlying().(*types.Struct).Field(fa.Field).Name()
			recv = st.env[fa.X]
			if recv == nil {
				recv = e.val(st, fa.X)
			}
		}
	}
	return e.callFnVal(st, x, fv, args, field, recv)
}

func (e *Exec) callFnVal(st *State, in *ssa.Call, fv *FnV, args []Val, field string, recv Val) Val {
	if len(e.assumeFr) > 0 {
		a := e.assumeFr[len(e.assumeFr)-1]
		if a.fnParam != nil && a.fnParam == fv.id && e.fr.fn == a.c.fn {
			return e.assumeSubject(st, in, a, nil, args)
		}
	}
	if fv.c == nil && fv.id.Op != OIte {
		fv = e.resolveFn(st, fv)
	}
	if fv.c != nil {
		if fv.c.nat != nil {
			return fv.c.nat(args)
		}
		if fv.c.snap != nil {
			s2 := &State{pc: st.pc, heap: copyHeap(fv.c.snap), env: map[ssa.Value]Val{}}
			return e.inline(fv.c.fn, args, fv.c.bind, s2)
		}
		if fv.c.fn.Synthetic != "" && strings.HasSuffix(fv.c.fn.Name(), "$bound") {
			return e.inline(fv.c.fn, args, fv.c.bind, st)
		}
		return e.callFn(st, in, fv.c.fn, args, fv.c.bind)
	}
	if isZero(fv.id) {
		e.safety(st, in, "call of a nil function unreachable", tFalse)
		e.assume(st.pc, tFalse)
		st.pc = tFalse
		e.deaths++
		return zeroResult(in.Common().Signature().Results())
	}
	if fv.id.Op == OIte {
		return e.branch(st, fv.id.A[0], func(s *State) Val {
			return e.callFnVal(s, in, mkFn(fv.id.A[1]), args, field, recv)
		}, func(s *State) Val {
			return e.callFnVal(s, in, mkFn(fv.id.A[2]), args, field, recv)
		})
	}
	if c := e.ld.fnSpec(field, e.cur); c != nil {
		e.safety(st, in, "call of a nil function unreachable", Not(Eq0(fv.id)))
		all := append([]Val{recv, fv}, args...)
		return e.assumeContract(st, in, c, all, fv.id)
	}
	// closed world
	sig := in.Common().Signature()
	var cands []*ssa.Function
	for _, f := range e.ld.boundFns {
		if types.Identical(stripRecv(f.Signature), stripRecv(sig)) {
			cands = append(cands, f)
		}
	}
	if len(cands) == 0 {
		unsupported("call of an unknown function value of field %q", field)
	}
	kind := App("fnkind", SInt, fv.id)
	rc := App("fnrecv", SInt, fv.id)
	var rec func(s *State, i int) Val
	rec = func(s *State, i int) Val {
		f := cands[i]
		if i == len(cands)-1 {
			e.assume(s.pc, And(Eq(kind, Int(int64(e.fnNo(f)))), Eq(fv.id, App("bound:"+f.String(), SInt, rc))))
			return e.inline(f, args, []Val{rc}, s)
		}
		return e.branch(s, Eq(kind, Int(int64(e.fnNo(f)))), func(s *State) Val {
			e.assume(s.pc, Eq(fv.id, App("bound:"+f.String(), SInt, rc)))
			return e.inline(f, args, []Val{rc}, s)
		}, func(s *State) Val { return rec(s, i+1) })
	}
	e.safety(st, in, "call of a nil function unreachable", Not(Eq0(fv.id)))
	return rec(st, 0)
}

func stripRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func (e *Exec) fnNo(f *ssa.Function) int {
	for i, x := range e.ld.boundFns {
		if x.String() == f.String() {
			return i + 1
		}
	}
	return 0
}

// resolveFn looks for an assumed equality naming the function.
func (e *Exec) resolveFn(st *State, fv *FnV) *FnV {
	for _, f := range e.facts {
		if g := matchFnEq(f, fv.id); g != nil {
			return g
		}
	}
	for _, f := range conj(st.pc) {
		if g := matchFnEq(f, fv.id); g != nil {
			return g
		}
	}
	return fv
}

func matchFnEq(f, id *Term) *FnV {
	if f.Op != OEq0 || f.A[0].Op != OAdd {
		return nil
	}
	s := f.A[0]
	if len(s.A) != 2 || s.R.Sign() != 0 {
		return nil
	}
	for i := 0; i < 2; i++ {
		o := s.A[1-i]
		if s.A[i] == id && o.Op == OApp && strings.HasPrefix(o.Name, "bound:") {
			if g := mkFn(o); g.c != nil {
				return g
			}
		}
	}
	return nil
}

func copyHeap(h map[string]*Term) map[string]*Term {
	r := make(map[string]*Term, len(h))
	for k, v := range h {
		r[k] = v
	}
	return r
}

// branch executes two continuations under a condition and merges.
func (e *Exec) branch(st *State, c *Term, f, g func(*State) Val) Val {
	switch decide(st.pc, c) {
	case 1:
		return f(st)
	case 0:
		return g(st)
	}
	s1 := &State{pc: And(st.pc, c), heap: copyHeap(st.heap), env: map[ssa.Value]Val{}}
	s2 := &State{pc: And(st.pc, Not(c)), heap: copyHeap(st.heap), env: map[ssa.Value]Val{}}
	if s1.pc == tFalse {
		return g(st)
	}
	if s2.pc == tFalse {
		return f(st)
	}
	v1 := f(s1)
	v2 := g(s2)
	if s1.pc == tFalse {
		st.heap = s2.heap
		e.assume(st.pc, s2.pc)
		return v2
	}
	if s2.pc == tFalse {
		st.heap = s1.heap
		e.assume(st.pc, s1.pc)
		return v1
	}
	m := e.merge2(s1, s2)
	st.heap = m.heap
	if m.pc != st.pc {
		e.assume(st.pc, m.pc)
	}
	if v1 == nil && v2 == nil {
		return nil
	}
	if eqVal(v1, v2) {
		return v1
	}
	return mergeVal(c, v1, v2)
}

func (e *Exec) invoke(st *State, x *ssa.Call, recv *IfaceV, cc *ssa.CallCommon, args []Val) Val {
	if recv.dyn != nil {
		sel := e.ld.prog.MethodSets.MethodSet(recv.dynT).Lookup(cc.Method.Pkg(), cc.Method.Name())
		if sel == nil {
			unsupported("method %s on %s", cc.Method.Name(), recv.dynT)
		}
		return e.callFn(st, x, e.ld.prog.MethodValue(sel), append([]Val{recv.dyn}, args...), nil)
	}
	if n := tkey(cc.Value.Type()); n == "error" {
		return Var("errtext", SStr)
	}
	impl := e.ld.implementers(cc.Value.Type())
	var cands []types.Type
	or := tFalse
	for _, t := range impl {
		c := Eq(recv.tag, Int(int64(e.ld.tag(t))))
		if decide(st.pc, c) != 0 && c != tFalse {
			cands = append(cands, t)
			or = Or(or, c)
		}
	}
	if len(cands) == 0 {
		if isZero(recv.tag) {
			e.safety(st, x, "method call on a nil interface unreachable", tFalse)
			e.assume(st.pc, tFalse)
			st.pc = tFalse
			e.deaths++
			return zeroResult(cc.Signature().Results())
		}
		return e.external(st, x, "invoke "+cc.Method.FullName(), cc.Signature(), append([]Val{recv}, args...))
	}
	if e.nilcheck {
		e.safety(st, x, "method call on a nil interface unreachable", or)
	} else {
		e.assume(st.pc, or)
	}
	run := func(s *State, t types.Type) Val {
		sel := e.ld.prog.MethodSets.MethodSet(t).Lookup(cc.Method.Pkg(), cc.Method.Name())
		return e.callFn(s, x, e.ld.prog.MethodValue(sel), append([]Val{recv.ref}, args...), nil)
	}
	var rec func(s *State, i int) Val
	rec = func(s *State, i int) Val {
		if i == len(cands)-1 {
			return run(s, cands[i])
		}
		return e.branch(s, Eq(recv.tag, Int(int64(e.ld.tag(cands[i])))), func(s *State) Val { return run(s, cands[i]) },
			func(s *State) Val { return rec(s, i+1) })
	}
	return rec(st, 0)
}

func (e *Exec) callFn(st *State, x *ssa.Call, f *ssa.Function, args, bind []Val) Val {
	name := f.String()
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	if h, ok := intrinsics[name]; ok {
		return h(e, st, x, args)
	}
	if strings.HasPrefix(name, modPath+"/verifvf.") {
		return e.vfCall(st, x, f, strings.TrimPrefix(name, modPath+"/verifvf."), args)
	}
	if e.ld.recFns[f] {
		return e.recCall(st, f, args)
	}
	// the subject of the contract being assumed
	if len(e.assumeFr) > 0 {
		a := e.assumeFr[len(e.assumeFr)-1]
		if a.c.subject == f && e.fr.fn == a.c.fn {
			return e.assumeSubject(st, x, a, f, args)
		}
	}
	direct := e.cur != nil && e.fr.fn == e.cur.fn && len(e.assumeFr) == 0
	if direct && !e.ld.isContractFn(f) && inRepo(f) {
		if e.cur.subject == f {
			return e.runSubject(st, x, f, args)
		}
		if e.cur.subject == nil {
			old := e.spec
			e.spec = 0
			v := e.callReal(st, x, f, args, bind)
			e.spec = old
			return v
		}
	}
	return e.callReal(st, x, f, args, bind)
}

func (e *Exec) callReal(st *State, x *ssa.Call, f *ssa.Function, args, bind []Val) Val {
	if c := e.ld.subjectContract(f, e.cur); c != nil && !(e.inSubj && e.cur.subject == f) && !(e.cur != nil && e.cur.flags["inline"] != "" && hasWord(e.cur.flags["inline"], f.Name())) {
		return e.assumeContract(st, x, c, args, nil)
	}
	if len(f.Blocks) == 0 || !inRepo(f) {
		if inRepo(f) || (f.Pkg == nil && len(f.Blocks) > 0) {
			return e.inline(f, args, bind, st)
		}
		return e.external(st, x, f.String(), f.Signature, args)
	}
	return e.inline(f, args, bind, st)
}

func hasWord(s, w string) bool {
	for _, x := range strings.Fields(s) {
		if x == w {
			return true
		}
	}
	return false
}

// external: an unmodelled function outside the repository: result arbitrary, assumed to change nothing we look at.
func (e *Exec) external(st *State, x *ssa.Call, name string, sig *types.Signature, args []Val) Val {
	e.notes["external "+name+": result unconstrained, assumed not to panic and not to touch repository memory"] = true
	return e.freshResult("ext", sig, -1)
}

func (e *Exec) freshResult(hint string, sig *types.Signature, lb int) Val {
	rs := sig.Results()
	mk := func(t types.Type) Val { return e.symValLB(hint, t, lb) }
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return mk(rs.At(0).Type())
	}
	r := &TupV{}
	for i := 0; i < rs.Len(); i++ {
		r.vs = append(r.vs, mk(rs.At(i).Type()))
	}
	return r
}

// runSubject executes the function under contract with its body.
func (e *Exec) runSubject(st *State, x *ssa.Call, f *ssa.Function, args []Val) Val {
	e.subjPre = copyHeap(st.heap)
	if e.frameAt != nil {
		e.frameAt.pre = copyHeap(st.heap)
		e.frameAt.clock = tick()
	}
	clk := tick()
	e.subjClk = clk
	old, oi := e.spec, e.inSubj
	e.spec, e.inSubj = 0, true
	v := e.inline(f, args, nil, st)
	e.spec, e.inSubj = old, oi
	e.checkFrame(st)
	e.checkResult(st, v, f.Signature, clk)
	return v
}

func (e *Exec) checkResult(st *State, v Val, sig *types.Signature, clk int) {
	if v == nil {
		return
	}
	var vs []Val
	if t, ok := v.(*TupV); ok && sig.Results().Len() > 1 {
		vs = t.vs
	} else {
		vs = []Val{v}
	}
	_, nonfin := e.cur.flags["nonfinite"]
	_, fresh := e.cur.flags["fresh"]
	for _, r := range vs {
		switch y := r.(type) {
		case *FV:
			if !nonfin && !y.finite() {
				e.oblige("finite", "result of "+e.cur.subjStr+" is finite", st.pc, y.fin(), "")
			}
		case *StructV:
			mapFV(y, func(f *FV) {
				if !nonfin && !f.finite() {
					e.oblige("finite", "result of "+e.cur.subjStr+" is finite", st.pc, f.fin(), "")
				}
			})
		case *SliceV:
			if fresh && lbOf(y.ref) < clk {
				e.oblige("frame", "result of "+e.cur.subjStr+" is newly allocated", st.pc, Bool(false), "")
			}
		case *Term:
			if fresh && isRefType(sig.Results().At(0).Type()) && len(vs) == 1 && lbOf(y) < clk {
				e.oblige("frame", "result of "+e.cur.subjStr+" is newly allocated", st.pc, Bool(false), "")
			}
		}
	}
}

func mapFV(v Val, f func(*FV)) {
	switch x := v.(type) {
	case *FV:
		f(x)
	case *StructV:
		for _, y := range x.fs {
			mapFV(y, f)
		}
	case *ArrV:
		for _, y := range x.es {
			mapFV(y, f)
		}
	case *TupV:
		for _, y := range x.vs {
			mapFV(y, f)
		}
	}
}

// frameGoal: references not listed keep their content under key.
func (e *Exec) frameGoal(pre, post map[string]*Term, key string, mods []modLoc) *Term {
	n := post[key]
	o, ok := pre[key]
	if !ok {
		o = VarOld("H:"+key, n.S)
	}
	if n == o {
		return tTrue
	}
	r := VarOld("frame!r", SInt)
	two := n.S.Elem.Name == "Array"
	var j *Term
	ex := tFalse
	if two {
		j = VarOld("frame!j", SInt)
	}
	for _, m := range mods {
		for _, k := range m.keys {
			if k.key != key {
				continue
			}
			if m.kind == "any" {
				return tTrue
			}
			c := Eq(r, k.ref)
			if k.two {
				if k.idx != nil {
					c = And(c, Eq(j, k.idx))
				} else if k.off != nil {
					c = And(c, Le(k.off, j), Lt(j, Add(k.off, k.len)))
				}
			}
			if m.kind == "each" {
				c = Exists(m.bv, And(Le(m.lo, m.bv), Lt(m.bv, m.hi), c))
			}
			ex = Or(ex, c)
		}
	}
	a, b := Select(o, r), Select(n, r)
	if two {
		a, b = Select(a, j), Select(b, j)
	}
	return Or(ex, Eq(a, b))
}

func (e *Exec) checkFrame(st *State) {
	fs := e.frameAt
	if fs == nil || !fs.hasMods {
		return
	}
	keys := make([]string, 0, len(st.heap))
	for k := range st.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if k == "iter.pos" {
			continue
		}
		g := e.frameGoal(fs.pre, st.heap, k, fs.mods)
		if g == tTrue {
			continue
		}
		// only references that existed at the call
		g = Imp(Lt(Int(int64(-fs.clock-1)), VarOld("frame!r", SInt)), g)
		e.oblige("frame", "nothing else changes: "+k, st.pc, g, "")
	}
	e.oblige("frame", "frame of "+e.cur.subjStr, tTrue, tTrue, "")
}

func debugf(f string, a ...interface{}) {
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
