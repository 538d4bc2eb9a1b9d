package main

// Symbolic values and their layout as heap leaves.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

type Val interface{}

// FV is an extended real: NaN, an infinity, or the real v.
type FV struct{ nan, pinf, ninf, v *Term }

type StructV struct {
	t  types.Type
	fs []Val
}
type ArrV struct {
	t  types.Type
	es []Val
}
type SliceV struct {
	elem               types.Type
	ref, off, len, cap *Term
}
type IfaceV struct {
	tag, ref *Term
	dyn      Val // payload that is not a pointer (transient only)
	dynT     types.Type
}
type FnV struct {
	id *Term // 0 nil; see closures
	c  *Closure
}
type TupV struct{ vs []Val }

// PtrV is an interior pointer.
type PtrV struct {
	root string
	ref  *Term
	idx  *Term // element index (already including the slice offset) when root starts with "E:"
	path string
	t    types.Type // pointee
}
type BadV struct{ msg string }

type unsup struct{ msg string }

func unsupported(f string, a ...interface{}) { panic(unsup{fmt.Sprintf(f, a...)}) }

func qual(p *types.Package) string { return p.Name() }
func tkey(t types.Type) string     { return types.TypeString(types.Unalias(t), qual) }

func fin(v *Term) *FV { return &FV{tFalse, tFalse, tFalse, v} }
func (f *FV) fin() *Term {
	return And(Not(f.nan), Not(f.pinf), Not(f.ninf))
}
func (f *FV) finite() bool { return f.nan == tFalse && f.pinf == tFalse && f.ninf == tFalse }

var nanV = &FV{tTrue, tFalse, tFalse, RealI(0)}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBV(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Modifier"
}

func sortOf(t types.Type) *Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			if isBV(t) {
				return SBV
			}
			return SInt
		case u.Info()&types.IsFloat != 0:
			return SReal
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return SInt
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	}
	return nil
}

// ---------- float configuration

var anyFloatKeys = map[string]bool{}
var allAnyFloat = false
var refKey = map[string]bool{}

func anyFloat(key string) bool {
	if allAnyFloat || anyFloatKeys[key] {
		return true
	}
	return key == "float64" || key == "float32"
}

type leaf struct {
	path string
	s    *Sort
}

// leavesOf lists the leaves of a value of type t stored under key (a full heap key prefix).
func leavesOf(t types.Type, key string) []leaf {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var r []leaf
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, leavesOf(u.Field(i).Type(), key+"."+u.Field(i).Name())...)
		}
		return r
	case *types.Array:
		var r []leaf
		for i := 0; i < int(u.Len()); i++ {
			r = append(r, leavesOf(u.Elem(), fmt.Sprintf("%s[%d]", key, i))...)
		}
		return r
	case *types.Slice:
		sliceElem[key] = u.Elem()
		refKey[key+"#ref"] = true
		return []leaf{{key + "#ref", SInt}, {key + "#off", SInt}, {key + "#len", SInt}, {key + "#cap", SInt}}
	case *types.Interface:
		refKey[key+"#ref"] = true
		return []leaf{{key + "#tag", SInt}, {key + "#ref", SInt}}
	}
	s := sortOf(t)
	if s == nil {
		unsupported("type %s", t)
	}
	if isRefType(t) {
		refKey[key] = true
	}
	if s == SReal && anyFloat(key) {
		return []leaf{{key, SReal}, {key + "#nan", SBool}, {key + "#pinf", SBool}, {key + "#ninf", SBool}}
	}
	return []leaf{{key, s}}
}

// build makes a value of type t from a leaf reader.
func build(t types.Type, key string, rd func(k string, s *Sort) *Term) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := &StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.fs = append(sv.fs, build(u.Field(i).Type(), key+"."+u.Field(i).Name(), rd))
		}
		return sv
	case *types.Array:
		av := &ArrV{t: t}
		for i := 0; i < int(u.Len()); i++ {
			av.es = append(av.es, build(u.Elem(), fmt.Sprintf("%s[%d]", key, i), rd))
		}
		return av
	case *types.Slice:
		sliceElem[key] = u.Elem()
		refKey[key+"#ref"] = true
		return &SliceV{u.Elem(), rd(key+"#ref", SInt), rd(key+"#off", SInt), rd(key+"#len", SInt), rd(key+"#cap", SInt)}
	case *types.Interface:
		refKey[key+"#ref"] = true
		return &IfaceV{tag: rd(key+"#tag", SInt), ref: rd(key+"#ref", SInt)}
	case *types.Signature:
		return mkFn(rd(key, SInt))
	}
	s := sortOf(t)
	if s == nil {
		unsupported("type %s", t)
	}
	if isRefType(t) {
		refKey[key] = true
	}
	if s == SReal {
		f := fin(rd(key, SReal))
		if anyFloat(key) {
			f.nan, f.pinf, f.ninf = rd(key+"#nan", SBool), rd(key+"#pinf", SBool), rd(key+"#ninf", SBool)
		}
		return f
	}
	return rd(key, s)
}

// explode writes the leaves of v.
func explode(t types.Type, key string, v Val, wr func(k string, s *Sort, x *Term), needFin func(*FV)) {
	if b, ok := v.(*BadV); ok {
		unsupported("use of %s", b.msg)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := v.(*StructV)
		for i := 0; i < u.NumFields(); i++ {
			explode(u.Field(i).Type(), key+"."+u.Field(i).Name(), sv.fs[i], wr, needFin)
		}
		return
	case *types.Array:
		av := v.(*ArrV)
		for i := 0; i < int(u.Len()); i++ {
			explode(u.Elem(), fmt.Sprintf("%s[%d]", key, i), av.es[i], wr, needFin)
		}
		return
	case *types.Slice:
		sv := v.(*SliceV)
		wr(key+"#ref", SInt, sv.ref)
		wr(key+"#off", SInt, sv.off)
		wr(key+"#len", SInt, sv.len)
		wr(key+"#cap", SInt, sv.cap)
		return
	case *types.Interface:
		iv := v.(*IfaceV)
		if iv.dyn != nil {
			// boxed non-pointer payload: opaque identity
			wr(key+"#tag", SInt, iv.tag)
			wr(key+"#ref", SInt, Var("boxed", SInt))
			return
		}
		wr(key+"#tag", SInt, iv.tag)
		wr(key+"#ref", SInt, iv.ref)
		return
	case *types.Signature:
		wr(key, SInt, v.(*FnV).id)
		return
	}
	s := sortOf(t)
	if s == SReal {
		f := v.(*FV)
		wr(key, SReal, f.v)
		if anyFloat(key) {
			wr(key+"#nan", SBool, f.nan)
			wr(key+"#pinf", SBool, f.pinf)
			wr(key+"#ninf", SBool, f.ninf)
		} else if !f.finite() && needFin != nil {
			needFin(f)
		}
		return
	}
	x, ok := v.(*Term)
	if !ok {
		if p, ok := v.(*PtrV); ok {
			unsupported("interior pointer %s%s stored in memory", p.root, p.path)
		}
		unsupported("storing %T as %s", v, t)
	}
	wr(key, s, x)
}

func zeroTerm(s *Sort) *Term {
	switch s {
	case SBool:
		return tFalse
	case SInt:
		return Int(0)
	case SReal:
		return RealI(0)
	case SBV:
		return BV(0)
	case SStr:
		return StrC("")
	}
	return nil
}
func zeroVal(t types.Type) Val {
	return build(t, "", func(k string, s *Sort) *Term { return zeroTerm(s) })
}

func mergeVal(c *Term, a, b Val) Val {
	if a == b {
		return a
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.S == y.S {
			return Ite(c, x, y)
		}
	case *FV:
		if y, ok := b.(*FV); ok {
			return &FV{Ite(c, x.nan, y.nan), Ite(c, x.pinf, y.pinf), Ite(c, x.ninf, y.ninf), Ite(c, x.v, y.v)}
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.fs) == len(y.fs) {
			r := &StructV{t: x.t}
			for i := range x.fs {
				r.fs = append(r.fs, mergeVal(c, x.fs[i], y.fs[i]))
			}
			return r
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok && len(x.es) == len(y.es) {
			r := &ArrV{t: x.t}
			for i := range x.es {
				r.es = append(r.es, mergeVal(c, x.es[i], y.es[i]))
			}
			return r
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			return &SliceV{x.elem, Ite(c, x.ref, y.ref), Ite(c, x.off, y.off), Ite(c, x.len, y.len), Ite(c, x.cap, y.cap)}
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok && x.dyn == nil && y.dyn == nil {
			return &IfaceV{tag: Ite(c, x.tag, y.tag), ref: Ite(c, x.ref, y.ref)}
		}
	case *FnV:
		if y, ok := b.(*FnV); ok {
			if x.id == y.id {
				return x
			}
			return mkFn(Ite(c, x.id, y.id))
		}
	case *TupV:
		if y, ok := b.(*TupV); ok && len(x.vs) == len(y.vs) {
			r := &TupV{}
			for i := range x.vs {
				r.vs = append(r.vs, mergeVal(c, x.vs[i], y.vs[i]))
			}
			return r
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok && x.root == y.root && x.path == y.path && (x.idx == nil) == (y.idx == nil) {
			r := &PtrV{x.root, Ite(c, x.ref, y.ref), nil, x.path, x.t}
			if x.idx != nil {
				r.idx = Ite(c, x.idx, y.idx)
			}
			return r
		}
	}
	return &BadV{fmt.Sprintf("merge of %T and %T", a, b)}
}

func eqVal(a, b Val) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *FV:
		y, ok := b.(*FV)
		return ok && *x == *y
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.fs) != len(y.fs) {
			return false
		}
		for i := range x.fs {
			if !eqVal(x.fs[i], y.fs[i]) {
				return false
			}
		}
		return true
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok || len(x.es) != len(y.es) {
			return false
		}
		for i := range x.es {
			if !eqVal(x.es[i], y.es[i]) {
				return false
			}
		}
		return true
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && x.ref == y.ref && x.off == y.off && x.len == y.len && x.cap == y.cap
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && x.tag == y.tag && x.ref == y.ref && eqVal(x.dyn, y.dyn)
	case *FnV:
		y, ok := b.(*FnV)
		return ok && x.id == y.id
	case *TupV:
		y, ok := b.(*TupV)
		if !ok || len(x.vs) != len(y.vs) {
			return false
		}
		for i := range x.vs {
			if !eqVal(x.vs[i], y.vs[i]) {
				return false
			}
		}
		return true
	case *PtrV:
		y, ok := b.(*PtrV)
		return ok && x.root == y.root && x.ref == y.ref && x.idx == y.idx && x.path == y.path
	}
	return false
}

// mapLeaves rebuilds a value, mapping every leaf term.
func mapLeaves(v Val, f func(*Term) *Term) Val {
	switch x := v.(type) {
	case *Term:
		return f(x)
	case *FV:
		return &FV{f(x.nan), f(x.pinf), f(x.ninf), f(x.v)}
	case *StructV:
		r := &StructV{t: x.t}
		for _, a := range x.fs {
			r.fs = append(r.fs, mapLeaves(a, f))
		}
		return r
	case *ArrV:
		r := &ArrV{t: x.t}
		for _, a := range x.es {
			r.es = append(r.es, mapLeaves(a, f))
		}
		return r
	case *SliceV:
		return &SliceV{x.elem, f(x.ref), f(x.off), f(x.len), f(x.cap)}
	case *IfaceV:
		if x.dyn != nil {
			return x
		}
		return &IfaceV{tag: f(x.tag), ref: f(x.ref)}
	case *FnV:
		n := f(x.id)
		if n == x.id {
			return x
		}
		return mkFn(n)
	case *TupV:
		r := &TupV{}
		for _, a := range x.vs {
			r.vs = append(r.vs, mapLeaves(a, f))
		}
		return r
	case *PtrV:
		r := &PtrV{x.root, f(x.ref), nil, x.path, x.t}
		if x.idx != nil {
			r.idx = f(x.idx)
		}
		return r
	}
	return v
}

func leafTerms(v Val) []*Term {
	var r []*Term
	mapLeaves(v, func(t *Term) *Term { r = append(r, t); return t })
	return r
}

// ---------- float operations

func fNeg(a *FV) *FV { return &FV{a.nan, a.ninf, a.pinf, Neg(a.v)} }
func fAdd(a, b *FV) *FV {
	if a.finite() && b.finite() {
		return fin(Add(a.v, b.v))
	}
	nan := Or(a.nan, b.nan, And(a.pinf, b.ninf), And(a.ninf, b.pinf))
	return &FV{nan, And(Not(nan), Or(a.pinf, b.pinf)), And(Not(nan), Or(a.ninf, b.ninf)), Add(a.v, b.v)}
}
func fSub(a, b *FV) *FV { return fAdd(a, fNeg(b)) }

func posT(a *FV) *Term { return Or(a.pinf, And(a.fin(), Gt0(a.v))) }
func negT(a *FV) *Term { return Or(a.ninf, And(a.fin(), Gt0(Neg(a.v)))) }
func zerT(a *FV) *Term { return And(a.fin(), Eq0(a.v)) }
func infT(a *FV) *Term { return Or(a.pinf, a.ninf) }

func fMul(a, b *FV) *FV {
	if a.finite() && b.finite() {
		return fin(Mul(a.v, b.v))
	}
	nan := Or(a.nan, b.nan, And(infT(a), zerT(b)), And(zerT(a), infT(b)))
	inf := And(Not(nan), Or(infT(a), infT(b)))
	same := Or(And(posT(a), posT(b)), And(negT(a), negT(b)))
	return &FV{nan, And(inf, same), And(inf, Not(same)), Mul(a.v, b.v)}
}

// fDiv: division by a zero gives an infinity whose sign also depends on the (unmodelled) sign of zero.
func fDiv(a, b *FV) *FV {
	z := tFalse
	if !(b.v.Op == ONum && b.v.R.Sign() != 0) && !knownNonZero(b.v) {
		z = And(b.fin(), Eq0(b.v))
	} else {
		z = tFalse
	}
	if a.finite() && b.finite() && z == tFalse {
		return fin(Div(a.v, b.v))
	}
	nan := Or(a.nan, b.nan, And(infT(a), infT(b)), And(zerT(a), z))
	inf := And(Not(nan), Or(infT(a), z))
	neg := App("negzero", SBool, b.v)
	bneg := Ite(z, neg, negT(b))
	same := Ite(posT(a), Not(bneg), bneg)
	if a.v.Op == ONum && a.finite() {
		same = Ite(Bool(a.v.R.Sign() > 0), Not(bneg), bneg)
	}
	// x / inf = 0
	v := Div(a.v, b.v)
	bi := infT(b)
	v = Ite(bi, RealI(0), v)
	return &FV{nan, And(inf, same), And(inf, Not(same)), v}
}
func fLt(a, b *FV) *Term {
	if a.finite() && b.finite() {
		return Lt(a.v, b.v)
	}
	ok := And(Not(a.nan), Not(b.nan))
	return And(ok, Or(And(a.ninf, Not(b.ninf)), And(b.pinf, Not(a.pinf)), And(a.fin(), b.fin(), Lt(a.v, b.v))))
}
func fEq(a, b *FV) *Term {
	if a.finite() && b.finite() {
		return Eq(a.v, b.v)
	}
	return And(Not(a.nan), Not(b.nan), Or(And(a.pinf, b.pinf), And(a.ninf, b.ninf), And(a.fin(), b.fin(), Eq(a.v, b.v))))
}
func fLe(a, b *FV) *Term {
	if a.finite() && b.finite() {
		return Le(a.v, b.v)
	}
	return Or(fLt(a, b), fEq(a, b))
}
func fIte(c *Term, a, b *FV) *FV { return mergeVal(c, a, b).(*FV) }

func fMax(a, b *FV) *FV {
	if a.finite() && b.finite() {
		return fin(TMax(a.v, b.v))
	}
	r := fIte(fLt(a, b), b, a)
	nan := And(Or(a.nan, b.nan), Not(a.pinf), Not(b.pinf)) // Max(x, +Inf) = +Inf even for NaN
	pinf := Or(a.pinf, b.pinf)
	return &FV{nan, pinf, And(a.ninf, b.ninf), r.v}
}
func fMin(a, b *FV) *FV {
	if a.finite() && b.finite() {
		return fin(TMin(a.v, b.v))
	}
	r := fIte(fLt(b, a), b, a)
	nan := And(Or(a.nan, b.nan), Not(a.ninf), Not(b.ninf))
	ninf := Or(a.ninf, b.ninf)
	return &FV{nan, And(a.pinf, b.pinf), ninf, r.v}
}
func fAbs(a *FV) *FV {
	return &FV{a.nan, infT(a), tFalse, Ite(Ge0(a.v), a.v, Neg(a.v))}
}

func ratOfFloat(dec string) *big.Rat {
	r, ok := new(big.Rat).SetString(dec)
	if !ok {
		panic("bad decimal " + dec)
	}
	return r
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}
