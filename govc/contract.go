package main

// Contracts: the verifvf vocabulary, modular use of opaque contracts, and the verification driver.

import (
	"go/token"
	"math/big"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (e *Exec) topAssume() *assumeCtx {
	if len(e.assumeFr) == 0 {
		return nil
	}
	return e.assumeFr[len(e.assumeFr)-1]
}

func strArg(v Val) string {
	if t, ok := v.(*Term); ok && t.Op == OStr {
		return t.Name
	}
	return "?"
}

func (e *Exec) vfCall(st *State, x *ssa.Call, f *ssa.Function, name string, args []Val) Val {
	if i := strings.Index(name, "["); i >= 0 {
		name = name[:i]
	}
	a := e.topAssume()
	switch name {
	case "Requires":
		c := args[0].(*Term)
		if a != nil {
			if a.callerSpec == 0 {
				e.oblige("requires", "precondition of "+a.c.name+" at its call", st.pc, c, e.posOf(a.site))
			}
			e.assume(st.pc, c)
			return nil
		}
		e.assume(st.pc, c)
		if st.pc == tTrue {
			e.nilFields(st, c)
		}
		return nil
	case "Ensures", "Assert":
		nm, c := strArg(args[0]), args[1].(*Term)
		if a == nil {
			e.oblige(strings.ToLower(name), nm, st.pc, c, e.posOf(x))
		}
		e.assume(st.pc, c)
		return nil
	case "Assume": // a stated, unchecked assumption
		e.notes["assumed: "+strArg(args[0])] = true
		e.assume(st.pc, args[1].(*Term))
		return nil
	case "Forall", "Exists":
		lo, hi, fv := args[0].(*Term), args[1].(*Term), args[2].(*FnV)
		if n, ok := smallRange(lo, hi); ok {
			r := tTrue
			if name == "Exists" {
				r = tFalse
			}
			for i := int64(0); i < n; i++ {
				b := e.callPure(st, x, fv, []Val{Add(lo, Int(i))}, st.pc, e.spec).(*Term)
				if name == "Forall" {
					r = And(r, b)
				} else {
					r = Or(r, b)
				}
			}
			return r
		}
		bv := Bound(SInt)
		in := And(Le(lo, bv), Lt(bv, hi))
		b := e.callPure(st, x, fv, []Val{bv}, And(st.pc, in), e.spec).(*Term)
		if name == "Forall" {
			return Forall(bv, Imp(in, b))
		}
		return Exists(bv, And(in, b))
	case "Eq":
		return fEq(args[0].(*FV), args[1].(*FV))
	case "SortOrder":
		return nil
	case "SortedDesc":
		return e.sortedDesc(st, x, args[0].(*Term), args[1].(*FnV))
	case "SortFrom":
		if e.lastPerm == "" {
			return App("perm!none", SInt, args[0].(*Term))
		}
		return App(e.lastPerm, SInt, args[0].(*Term))
	case "Same":
		p, q := args[0].(*FV), args[1].(*FV)
		return And(Eq(p.nan, q.nan), Eq(p.pinf, q.pinf), Eq(p.ninf, q.ninf), Or(p.nan, p.pinf, p.ninf, Eq(p.v, q.v)))
	case "Le":
		return fLe(args[0].(*FV), args[1].(*FV))
	case "Lt":
		return fLt(args[0].(*FV), args[1].(*FV))
	case "Fin":
		return args[0].(*FV).fin()
	case "Concrete":
		return tFalse
	case "Apart":
		p, q := refOf(args[0].(*IfaceV).dyn), refOf(args[1].(*IfaceV).dyn)
		if p == nil || q == nil {
			unsupported("Apart")
		}
		return Not(Eq(p, q))
	case "Split":
		if a == nil && len(args[0].(*Term).bvs) == 0 && len(e.splits) < 4 {
			e.splits = append(e.splits, args[0].(*Term))
		}
		return nil
	case "Memo":
		return e.memo(st, x, args[len(args)-1].(*FnV))
	case "Modifies", "ModifiesElems", "ModifiesAny", "ModifiesAnyElems":
		iv := args[0].(*IfaceV)
		if iv.dyn == nil {
			n := iv.tag
			if n.Op != ONum || n.R.Sign() <= 0 || n.R.Num().Int64() > int64(len(e.ld.tagType)) {
				unsupported("Modifies of an unknown value")
			}
			t := e.ld.tagType[n.R.Num().Int64()-1]
			if _, ok := t.Underlying().(*types.Pointer); !ok {
				unsupported("Modifies of a %s", t)
			}
			iv = &IfaceV{tag: iv.tag, ref: iv.ref, dyn: iv.ref, dynT: t}
		}
		m := e.modOf(st, iv, strings.HasSuffix(name, "Elems"))
		if strings.HasPrefix(name, "ModifiesAny") {
			m.kind = "any"
		}
		e.addMod(m)
		return nil
	case "ModifiesNothing":
		if a == nil && e.frameAt != nil {
			e.frameAt.hasMods = true
		}
		return nil
	case "ModifiesEach":
		n, fv := args[0].(*Term), args[1].(*FnV)
		bv := Bound(SInt)
		in := And(Ge0(bv), Lt(bv, n))
		iv, ok := e.callPure(st, x, fv, []Val{bv}, And(st.pc, in), 1).(*IfaceV)
		if ok && iv.dyn == nil && iv.tag.Op == ONum && iv.tag.R.Sign() > 0 && iv.tag.R.Num().Int64() <= int64(len(e.ld.tagType)) {
			iv = &IfaceV{tag: iv.tag, ref: iv.ref, dyn: iv.ref, dynT: e.ld.tagType[iv.tag.R.Num().Int64()-1]}
		}
		if !ok || iv.dyn == nil {
			unsupported("ModifiesEach")
		}
		m := e.modOf(st, iv, false)
		m.kind, m.bv, m.lo, m.hi = "each", bv, Int(0), n
		e.addMod(m)
		return nil
	case "Invariant":
		iv, ok := args[0].(*IfaceV)
		if !ok {
			unsupported("Invariant")
		}
		fv := iv.dyn.(*FnV)
		if a == nil {
			e.invs = append(e.invs, &invTemplate{fv: fv, id: len(e.invs), heap: copyHeap(st.heap)})
		}
		return nil
	case "Fresh": // newly allocated by the subject
		iv := args[0].(*IfaceV)
		r := refOf(iv.dyn)
		if a != nil {
			if r == nil {
				return tTrue
			}
			nilOr := Eq0(r)
			if sl, ok := iv.dyn.(*SliceV); ok {
				nilOr = And(nilOr, Eq0(sl.len))
			}
			return Or(nilOr, Le(r, Int(int64(-a.clk))))
		}
		if r == nil || e.subjClk == 0 {
			return tFalse
		}
		return Bool(lbOf(r) >= e.subjClk)
	}
	if e.ld.recFns[f] {
		return e.recCall(st, f, args)
	}
	return e.inline(f, args, nil, st)
}

func refOf(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *SliceV:
		return x.ref
	}
	return nil
}

func smallRange(lo, hi *Term) (int64, bool) {
	d := Sub(hi, lo)
	if d.Op == ONum && d.R.IsInt() {
		n := d.R.Num().Int64()
		if n <= 40 {
			if n < 0 {
				n = 0
			}
			return n, true
		}
	}
	return 0, false
}

func (e *Exec) addMod(m modLoc) {
	if a := e.topAssume(); a != nil {
		a.mods = append(a.mods, m)
		return
	}
	if e.frameAt != nil {
		e.frameAt.hasMods = true
		e.frameAt.mods = append(e.frameAt.mods, m)
	}
}

func (e *Exec) modOf(st *State, iv *IfaceV, elems bool) modLoc {
	m := modLoc{kind: "ptr"}
	if elems {
		s, ok := iv.dyn.(*SliceV)
		if !ok {
			unsupported("ModifiesElems of %T", iv.dyn)
		}
		m.kind = "elems"
		for _, lf := range leavesOf(s.elem, "E:"+tkey(s.elem)) {
			m.keys = append(m.keys, keyAt{key: lf.path, s: lf.s, ref: s.ref, off: s.off, len: s.len, two: true})
		}
		return m
	}
	el := pointee(iv.dynT)
	switch p := iv.dyn.(type) {
	case *Term:
		for _, lf := range leavesOf(el, tkey(el)) {
			m.keys = append(m.keys, keyAt{key: lf.path, s: lf.s, ref: p})
		}
	case *PtrV:
		for _, lf := range leavesOf(el, p.root+p.path) {
			k := keyAt{key: lf.path, s: lf.s, ref: p.ref}
			if p.idx != nil {
				k.two, k.idx = true, p.idx
			}
			m.keys = append(m.keys, k)
		}
	default:
		unsupported("Modifies of %T", iv.dyn)
	}
	return m
}

// memo snapshots a pure function of an index; equal bodies get equal identities.
func (e *Exec) memo(st *State, x *ssa.Call, fv *FnV) Val {
	if fv.c == nil {
		unsupported("Memo of an unknown function")
	}
	if fv.c.nat != nil {
		return fv
	}
	pv := VarOld("memo!i", SInt)
	snap := copyHeap(st.heap)
	s2 := &State{pc: st.pc, heap: snap, env: map[ssa.Value]Val{}}
	n0 := len(e.obls)
	old := e.spec
	e.spec = e.spec + 1
	v := e.callFnVal(&State{pc: st.pc, heap: copyHeap(snap), env: map[ssa.Value]Val{}}, x, fv, []Val{pv}, "", nil)
	e.spec = old
	e.obls = e.obls[:n0]
	var sb strings.Builder
	for _, t := range leafTerms(v) {
		fmt.Fprintf(&sb, "%d,", t.ID)
	}
	_ = s2
	if id, ok := e.memoTab[sb.String()]; ok {
		return &FnV{id: Int(int64(id)), c: e.closures[id]}
	}
	r := e.newClosure(&Closure{fn: fv.c.fn, bind: fv.c.bind, snap: snap})
	e.memoTab[sb.String()] = int(r.id.R.Num().Int64())
	return r
}

func (e *Exec) recCall(st *State, f *ssa.Function, args []Val) Val {
	var ts []*Term
	for _, a := range args {
		ts = append(ts, leafTerms(a)...)
	}
	nm := "rec:" + f.Name()
	rt := f.Signature.Results().At(0).Type()
	v := build(rt, nm, func(k string, s *Sort) *Term { return App(k, s, ts...) })
	key := App(nm+"#", SInt, ts...)
	if !e.recSeen[key] && e.recDepth < 1 {
		e.recSeen[key] = true
		e.recDepth++
		os := e.spec
		e.spec = 1
		b := e.inline(f, args, nil, &State{pc: tTrue, heap: map[string]*Term{}, env: map[ssa.Value]Val{}})
		e.spec = os
		e.recDepth--
		lv, lb := leafTerms(v), leafTerms(b)
		for i := range lv {
			e.assume(tTrue, Eq(lv[i], lb[i]))
		}
	}
	if f.Name() == "Sum" || f.Name() == "Count" {
		e.sumCongruence(f, args, v)
	}
	return v
}

type sumTerm struct {
	n, v *Term
	c    *FnV
}

// sumCongruence: two sums of as many terms are equal unless they differ in some term.
func (e *Exec) sumCongruence(f *ssa.Function, args []Val, v Val) {
	fv, ok := args[1].(*FnV)
	lv := leafTerms(v)
	if !ok || fv.c == nil || fv.c.snap == nil || f.Pkg == nil || f.Pkg.Pkg.Name() != "verifvf" {
		return
	}
	nt := sumTerm{args[0].(*Term), lv[len(lv)-1], fv}
	if e.sums == nil {
		e.sums = map[string][]sumTerm{}
	}
	at := func(c *FnV, i *Term) []*Term {
		n0, old := len(e.obls), e.spec
		e.spec++
		r := e.callFnVal(&State{pc: tTrue, heap: copyHeap(c.c.snap), env: map[ssa.Value]Val{}}, nil, c, []Val{i}, "", nil)
		e.spec, e.obls = old, e.obls[:n0]
		return leafTerms(r)
	}
	for _, o := range e.sums[f.Name()] {
		if o.v == nt.v {
			return
		}
	}
	for _, o := range e.sums[f.Name()] {
		eq := Eq(o.n, nt.n)
		if eq == tFalse || o.c.id == fv.id || hasBound(nt.n) || hasBound(o.n) {
			continue
		}
		if d := toLin(Sub(o.n, nt.n)); len(d.m) == 0 && eq != tTrue {
			continue
		}
		i := Var("differs", SInt)
		a, b := at(o.c, i), at(fv, i)
		same := tTrue
		for k := range a {
			same = And(same, Eq(a[k], b[k]))
		}
		e.assume(tTrue, Or(Not(eq), Eq(o.v, nt.v), And(Ge0(i), Lt(i, nt.n), Not(same))))
	}
	e.sums[f.Name()] = append(e.sums[f.Name()], nt)
}

func hasBound(t *Term) bool { return len(t.bvs) > 0 }

// ---------- modular calls

func (e *Exec) assumeContract(st *State, in *ssa.Call, c *Contract, args []Val, fnParam *Term) Val {
	e.usedCtr[c] = true
	a := &assumeCtx{c: c, args: args, fnParam: fnParam, callerSpec: e.spec, site: in}
	_, a.fresh = c.flags["fresh"]
	np := c.fn.Signature.Params().Len()
	if len(args) > np {
		unsupported("contract %s takes %d parameters, its subject %d", c.name, np, len(args))
	}
	cargs := append([]Val{}, args...)
	if len(args) < np {
		unsupported("contract %s has ghost parameters and cannot be used at a call", c.name)
	}
	if _, any := c.flags["allanyfloat"]; !any { // the contract was proved for finite arguments
		for i, x := range cargs {
			if x == nil {
				continue
			}
			mapFV(x, func(f *FV) {
				if g := f.fin(); g != tTrue {
					if hasBound(g) {
						e.assume(st.pc, g)
						return
					}
					e.oblige("finite", "argument of "+c.name+" is finite", st.pc, g, e.posOf(in))
					e.assume(st.pc, g)
				}
			})
			cargs[i] = finVal(x)
			if i < len(args) {
				args[i] = cargs[i]
			}
		}
	}
	e.assumeFr = append(e.assumeFr, a)
	old := e.spec
	e.spec = old + 1
	e.inline(c.fn, cargs, nil, st)
	e.spec = old
	e.assumeFr = e.assumeFr[:len(e.assumeFr)-1]
	if !a.called {
		unsupported("contract %s does not call its subject", c.name)
	}
	return a.result
}

func (e *Exec) assumeSubject(st *State, in *ssa.Call, a *assumeCtx, f *ssa.Function, args []Val) Val {
	a.called = true
	clk := tick()
	a.clk = clk
	for _, m := range a.mods {
		for _, k := range m.keys {
			e.havocAt(st, m, k)
		}
	}
	var sig *types.Signature
	if f != nil {
		sig = f.Signature
	} else {
		sig = in.Common().Signature()
	}
	lb := -1
	if a.fresh {
		lb = clk
	}
	// a pure function without effects and fresh results is a function of its arguments only when declared so
	var v Val
	if _, pure := a.c.flags["pure"]; pure && len(a.mods) == 0 && sig.Results().Len() == 1 {
		// the result of a deterministic function is a function of its arguments and of the memory
		var ts []*Term
		for _, x := range args {
			ts = append(ts, leafTerms(x)...)
		}
		nm := "pure:" + a.c.name
		if f == nil || readsMemory(f, map[*ssa.Function]bool{}) {
			nm = fmt.Sprintf("pure:%s@%d", a.c.name, e.heapID(st.heap, readSet(f)))
		}
		v = build(sig.Results().At(0).Type(), nm, func(k string, s *Sort) *Term { return App(k, s, ts...) })
	} else {
		v = e.freshResult("res:"+a.c.name, sig, lb)
	}
	_, nonfin := a.c.flags["nonfinite"]
	if !nonfin && v != nil {
		mapFV(v, func(fv *FV) { e.assume(st.pc, fv.fin()) })
		v = finVal(v)
	}
	a.result = v
	return v
}

// readsMemory: the result may depend on memory, not only on the values passed.
func readsMemory(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, p := range f.Params {
		if mayRefer(p.Type()) {
			return true
		}
	}
	if len(f.FreeVars) > 0 {
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if _, g := (*op).(*ssa.Global); g {
					return true
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				if _, bi := c.Common().Value.(*ssa.Builtin); bi {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil {
					return true
				}
				if len(g.Blocks) == 0 || g.Pkg != nil && g.Pkg.Pkg.Path() == "math" {
					continue
				}
				if readsMemory(g, seen) {
					return true
				}
			}
		}
	}
	return false
}

func mayRefer(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if mayRefer(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

// readSet lists the heap keys a function may read (by prefix), nil when unknown.
func readSet(f *ssa.Function) []string {
	if f == nil {
		return nil
	}
	set := map[string]bool{}
	if !collectReads(f, map[*ssa.Function]bool{}, set) {
		return nil
	}
	return append(keys(set), "none")
}

func collectReads(f *ssa.Function, seen map[*ssa.Function]bool, set map[string]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	var addr func(v ssa.Value) bool
	addr = func(v ssa.Value) bool { // an address that is dereferenced
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FreeVar:
			return seen[f.Parent()]
		case *ssa.FieldAddr:
			switch x.X.(type) {
			case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.FreeVar:
				return addr(x.X)
			}
			set[tkey(pointee(x.X.Type()))] = true
			return true
		case *ssa.IndexAddr:
			if sl, ok := x.X.Type().Underlying().(*types.Slice); ok {
				set["E:"+tkey(sl.Elem())] = true
				return true
			}
			return false
		case *ssa.Global:
			return false
		}
		set[tkey(pointee(v.Type()))] = true
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL && !addr(x.X) {
					return false
				}
			case *ssa.MakeClosure:
				if !collectReads(x.Fn.(*ssa.Function), seen, set) {
					return false
				}
			case *ssa.Lookup, *ssa.Range, *ssa.TypeAssert, *ssa.Go, *ssa.Defer, *ssa.Select:
				return false
			case *ssa.Call:
				if _, bi := x.Common().Value.(*ssa.Builtin); bi {
					if x.Common().Value.Name() == "copy" || x.Common().Value.Name() == "append" {
						return false
					}
					continue
				}
				g := x.Common().StaticCallee()
				if g == nil {
					return false
				}
				if g.Pkg != nil && (g.Pkg.Pkg.Path() == "math" || g.Pkg.Pkg.Path() == "sort" && g.Name() == "Search") || len(g.Blocks) == 0 {
					continue
				}
				if !collectReads(g, seen, set) {
					return false
				}
			}
		}
	}
	return true
}

// heapID identifies the contents of the memory read, apart from what was never touched.
func (e *Exec) heapID(h map[string]*Term, reads []string) int {
	var l []string
	for k, t := range h {
		if reads != nil {
			hit := false
			for _, r := range reads {
				hit = hit || k == r || strings.HasPrefix(k, r+".") || strings.HasPrefix(k, r+"#")
			}
			if !hit {
				continue
			}
		}
		if t.Op == OVar && t.Name == "H:"+k {
			continue
		}
		l = append(l, fmt.Sprintf("%s=%d", k, t.ID))
	}
	sort.Strings(l)
	key := strings.Join(l, ";")
	if e.heapIDs == nil {
		e.heapIDs = map[string]int{}
	}
	if _, ok := e.heapIDs[key]; !ok {
		e.heapIDs[key] = len(e.heapIDs)
	}
	return e.heapIDs[key]
}

// finVal drops the non-finite flags of a value known to be finite.
func finVal(v Val) Val {
	switch x := v.(type) {
	case *FV:
		return fin(x.v)
	case *StructV:
		r := &StructV{t: x.t}
		for _, f := range x.fs {
			r.fs = append(r.fs, finVal(f))
		}
		return r
	case *TupV:
		r := &TupV{}
		for _, f := range x.vs {
			r.vs = append(r.vs, finVal(f))
		}
		return r
	}
	return v
}

func (e *Exec) havocAt(st *State, m modLoc, k keyAt) {
	if m.kind == "any" {
		so := SArr(k.s)
		if k.two {
			so = SArr(so)
		}
		st.heap[k.key] = Var("havoc:"+k.key, e.heapGet(st.heap, k.key, so).S)
		return
	}
	if !k.two {
		h := e.heapGet(st.heap, k.key, SArr(k.s))
		if m.kind == "each" {
			n := Var("H!"+k.key, h.S)
			r := Bound(SInt)
			e.assume(tTrue, Or(Exists(m.bv, And(Le(m.lo, m.bv), Lt(m.bv, m.hi), Eq(r, k.ref))), Eq(Select(n, r), Select(h, r))))
			st.heap[k.key] = n
			return
		}
		st.heap[k.key] = Store(h, k.ref, Var("havoc:"+k.key, k.s))
		return
	}
	h := e.heapGet(st.heap, k.key, SArr(SArr(k.s)))
	if m.kind == "each" {
		unsupported("ModifiesEach of array elements")
	}
	in := Select(h, k.ref)
	if k.idx != nil {
		st.heap[k.key] = Store(h, k.ref, Store(in, k.idx, Var("havoc:"+k.key, k.s)))
		return
	}
	n := Var("havoc:"+k.key, SArr(k.s))
	j := Bound(SInt)
	e.assume(tTrue, Or(And(Le(k.off, j), Lt(j, Add(k.off, k.len))), Eq(Select(n, j), Select(in, j))))
	st.heap[k.key] = Store(h, k.ref, n)
}

// ---------- globals

// initGlobals runs the package initialisers of the repository; globals assigned elsewhere become arbitrary.
func (e *Exec) initGlobals(st *State) {
	defer func() { e.spec = 0 }()
	e.spec = 1
	for _, sp := range e.ld.initOrder {
		fn := sp.Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		fr := &Frame{fn: fn, spec: true}
		e.fr = fr
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.If, *ssa.Jump, *ssa.Return:
					continue
				case *ssa.Call:
					if f := x.Call.StaticCallee(); f != nil && f.Name() == "init" {
						continue
					}
				case *ssa.Store:
					if g, ok := x.Addr.(*ssa.Global); ok && g.Name() == "init$guard" {
						continue
					}
				case *ssa.UnOp:
					if g, ok := x.X.(*ssa.Global); ok && g.Name() == "init$guard" {
						continue
					}
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							if u, ok := r.(unsup); ok {
								if v, ok := in.(ssa.Value); ok {
									st.env[v] = &BadV{u.msg}
								}
								return
							}
							panic(r)
						}
					}()
					e.instr(st, in)
				}()
			}
		}
	}
	st.env = map[ssa.Value]Val{}
	e.fr = nil
	for g := range e.ld.mutGlobals {
		r := e.val(st, g).(*Term)
		t := pointee(g.Type())
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(unsup); !ok {
						panic(x)
					}
				}
			}()
			for _, lf := range leavesOf(t, tkey(t)) {
				st.heap[lf.path] = Store(e.heapGet(st.heap, lf.path, SArr(lf.s)), r, Var("global:"+g.Name(), lf.s))
			}
		}()
	}
}

// ---------- verification of one contract

type verdict struct {
	c       *Contract
	obls    []*Obl
	failed  []*Obl
	err     string
	notes   []string
	used    []*Contract
	funcs   []string
	dur     time.Duration
	vacuous bool
	loops   int
	invs    int
}

func (ld *Loader) verify(c *Contract, timeout time.Duration) (v *verdict) {
	v = &verdict{c: c}
	t0 := time.Now()
	_, allAnyFloat = c.flags["allanyfloat"]
	e := newExec(ld)
	e.cur = c
	_, e.nilcheck = c.flags["nilcheck"]
	_, e.eagerFin = c.flags["eagerfin"]
	defer func() {
		v.dur = time.Since(t0)
		if r := recover(); r != nil {
			if u, ok := r.(unsup); ok {
				w := ""
				for f := e.fr; f != nil; f = f.caller {
					w += " in " + fnName(f.fn)
				}
				v.err = "outside the verifier's reach: " + u.msg + w
				return
			}
			if os.Getenv("GOVC_DEBUG") != "" {
				panic(r)
			}
			v.err = fmt.Sprintf("internal error: %v", r)
		}
	}()
	st := &State{pc: tTrue, heap: map[string]*Term{}, env: map[ssa.Value]Val{}}
	e.initGlobals(st)
	var args []Val
	for _, p := range c.fn.Params {
		args = append(args, e.symVal("p:"+p.Name(), p.Type()))
	}
	tick()
	if c.subject != nil || c.opaque {
		e.frameAt = &frameSpec{hasMods: c.opaque}
	}
	_, frame := c.flags["frame"]
	if frame && c.subject == nil {
		e.frameAt = &frameSpec{pre: copyHeap(st.heap), clock: tick()}
	}
	e.spec = 1
	e.inline(c.fn, args, nil, st)
	e.spec = 0
	if frame && c.subject == nil {
		e.checkFrame(st)
	}
	v.obls = e.obls
	for k := range e.usedCtr {
		v.used = append(v.used, k)
	}
	sort.Slice(v.used, func(i, j int) bool { return v.used[i].name < v.used[j].name })
	for k := range e.notes {
		v.notes = append(v.notes, k)
	}
	sort.Strings(v.notes)
	for k := range e.funcs {
		v.funcs = append(v.funcs, k)
	}
	sort.Strings(v.funcs)
	v.loops = e.loopsRun
	debugf("%s: executed in %v, %d facts, %d obligations, %d terms", c.name, time.Since(t0), len(e.facts), len(e.obls), termCount)
	e.prove(v, timeout)
	if len(v.failed) == 0 {
		// consistency of what was assumed: the assumptions must not be contradictory
		r := solveText(smtText(append(append([]*Term{}, e.facts...), st.pc), nil), 2*time.Second)
		if r.status == "unsat" {
			v.vacuous = true
			v.err = "the assumptions of the contract are contradictory"
		}
	}
	return v
}

func (e *Exec) prove(v *verdict, timeout time.Duration) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i, o := range v.obls {
		if o.goal == tTrue || o.pc == tFalse {
			o.res = proofResult{"unsat", "simplifier", "", 0}
			continue
		}
		if _, known := e.factIdx[o.goal]; known && e.factIdx[o.goal] < o.nfacts {
			o.res = proofResult{"unsat", "simplifier", "", 0}
			continue
		}
		txts := e.oblTexts(o)
		if d := os.Getenv("GOVC_DUMP"); d != "" {
			for k, t := range txts {
				os.WriteFile(fmt.Sprintf("%s/%s_%d_%d.smt2", d, v.c.name, i, k), []byte("; "+o.kind+" "+o.name+"\n"+t), 0o644)
			}
		}
		lt := ""
		if hasMul(o.goal) || o.kind != "safety" {
			lt = linText(append(append([]*Term{}, e.hyps(o)...), o.pc, Not(o.goal)))
		}
		wg.Add(1)
		go func(o *Obl, lt string) {
			defer wg.Done()
			if lt != "" {
				t0 := time.Now()
				if cachedSolve(lt, 1500*time.Millisecond) {
					o.res = proofResult{"unsat", "z3-5.3.2(products abstracted)", "", time.Since(t0)}
					return
				}
			}
			o.res = proveStages(txts)
			if os.Getenv("GOVC_DEBUG") != "" && o.res.dur > time.Second {
				mu.Lock()
				debugf("  %s %s: %s by %s in %v", o.kind, o.name, o.res.status, o.res.prover, o.res.dur)
				mu.Unlock()
			}
		}(o, lt)
	}
	wg.Wait()
	for _, o := range v.obls {
		if o.res.status == "unsat" || o.res.status == "sat" {
			continue
		}
		gts := e.groundTexts(e.hyps(o), o.pc, o.goal, 4)
		txts := e.oblTexts(o)
		if d := os.Getenv("GOVC_DUMP"); d != "" {
			for k, t := range gts {
				os.WriteFile(fmt.Sprintf("%s/%s_%s_g%d.smt2", d, v.c.name, strings.ReplaceAll(o.name, " ", "_"), k), []byte(t), 0o644)
			}
		}
		wg.Add(1)
		go func(o *Obl) {
			defer wg.Done()
			t0 := time.Now()
			for _, txt := range gts {
				r := solveText(txt, 4*time.Second)
				debugf("    ground %s: %s in %v", o.name, r.status, r.dur)
				if r.status == "unsat" {
					o.res = proofResult{"unsat", r.prover + " (instances)", "", time.Since(t0)}
					return
				}
			}
			if !hasMul(o.goal) {
				o.res = proveLong(txts, timeout)
			}
		}(o)
	}
	wg.Wait()
	for _, o := range v.obls {
		if o.res.status != "unsat" && hasMul(o.goal) {
			t0 := time.Now()
			facts := e.hyps(o)
			goal := simplifyBy(o.goal, knownLits(facts))
			debugf("  splitting %s", o.name)
			if e.proveBySplitting(facts, o.pc, goal, 8, time.Now().Add(3*timeout), map[[2]*Term]bool{}) {
				o.res = proofResult{"unsat", "product rule and z3-5.3.2", "", time.Since(t0)}
			}
			debugf("  splitting took %v", time.Since(t0))
		}
	}
	for _, o := range v.obls {
		if o.res.status != "unsat" && o.res.status != "sat" && hasMul(o.goal) {
			txts := e.oblTexts(o)
			wg.Add(1)
			go func(o *Obl) {
				defer wg.Done()
				o.res = proveLong(txts, timeout)
			}(o)
		}
	}
	wg.Wait()
	for _, o := range v.obls {
		if o.res.status != "unsat" {
			v.failed = append(v.failed, o)
		}
	}
}

func (e *Exec) oblTexts(o *Obl) []string {
	facts := e.hyps(o)
	neg := []*Term{o.pc, Not(o.goal)}
	var out []string
	last := -1
	for _, d := range []int{1, 2, 4, 99} {
		fs := facts
		if d < 99 {
			fs = relevant(facts, neg, d)
		}
		if len(fs) == last {
			continue
		}
		last = len(fs)
		out = append(out, smtText(append(append([]*Term{}, fs...), neg...), nil))
	}
	return out
}

// proveStages: short passes over the stages.
func proveStages(txts []string) proofResult {
	t0 := time.Now()
	var last proofResult
	for i, txt := range txts {
		r := solveText(txt, 600*time.Millisecond)
		r.dur = time.Since(t0)
		last = r
		if r.status == "unsat" || r.status == "sat" && i == len(txts)-1 {
			return r
		}
	}
	if last.status == "sat" {
		last.status = "unknown"
	}
	return last
}

// proveLong: long passes, from the smallest stage.
func proveLong(txts []string, timeout time.Duration) proofResult {
	t0 := time.Now()
	var last proofResult
	for _, txt := range txts {
		r := solveText(txt, timeout/time.Duration(len(txts)))
		r.dur = time.Since(t0)
		last = r
		if r.status == "unsat" {
			return r
		}
	}
	return last
}

// nilFields rewrites memory known to hold nil so that it holds nil syntactically.
func (e *Exec) nilFields(st *State, c *Term) {
	for _, f := range conj(c) {
		if f.Op == OEq0 && f.A[0].Op == OAdd && len(f.A[0].A) == 1 && f.A[0].A[0].Op == OSelect {
			// a field known to hold a number
			s := f.A[0]
			h, r := s.A[0].A[0], s.A[0].A[1]
			v := new(big.Rat).Quo(new(big.Rat).Neg(s.R), s.C[0])
			for key, cur := range st.heap {
				if cur == h && !refKey[key] && !strings.Contains(key, "#") {
					st.heap[key] = Store(h, r, Num(v, s.A[0].S))
					break
				}
			}
			continue
		}
		if f.Op != OEq0 || f.A[0].Op != OSelect {
			continue
		}
		h, r := f.A[0].A[0], f.A[0].A[1]
		for key, cur := range st.heap {
			if cur != h || !refKey[key] {
				continue
			}
			st.heap[key] = Store(h, r, Int(0))
			if base := strings.TrimSuffix(key, "#ref"); base != key && sliceElem[base] != nil {
				for _, sf := range []string{"#len", "#cap"} {
					a := e.heapGet(st.heap, base+sf, SArr(SInt))
					e.assume(tTrue, Eq0(Select(a, r)))
					st.heap[base+sf] = Store(a, r, Int(0))
				}
			}
			break
		}
	}
}
