package main

// Models of builtins and of the standard library functions the repository calls.

import (
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- strings

func strLen(s *Term) *Term {
	switch s.Op {
	case OStr:
		return Int(int64(len(s.Name)))
	case OIte:
		return Ite(s.A[0], strLen(s.A[1]), strLen(s.A[2]))
	case OApp:
		if s.Name == "concat" {
			return Add(strLen(s.A[0]), strLen(s.A[1]))
		}
		if s.Name == "bytestr" {
			return Int(1)
		}
	}
	return App("strlen", SInt, s)
}

func strAt(s, i *Term) *Term {
	if s.Op == OStr && i.Op == ONum {
		n := int(i.R.Num().Int64())
		if n >= 0 && n < len(s.Name) {
			return Int(int64(s.Name[n]))
		}
	}
	if s.Op == OIte {
		return Ite(s.A[0], strAt(s.A[1], i), strAt(s.A[2], i))
	}
	return App("strat", SInt, s, i)
}

func (e *Exec) strAt(st *State, in ssa.Instruction, s, i *Term) *Term {
	e.safety(st, in, "string index in range", And(Ge0(i), Lt(i, strLen(s))))
	return strAt(s, i)
}

func strConcat(a, b *Term) *Term {
	if a.Op == OStr && b.Op == OStr {
		return StrC(a.Name + b.Name)
	}
	if a.Op == OStr && a.Name == "" {
		return b
	}
	if b.Op == OStr && b.Name == "" {
		return a
	}
	if b.Op == OApp && b.Name == "concat" {
		return strConcat(strConcat(a, b.A[0]), b.A[1])
	}
	if a.Op == OIte {
		return Ite(a.A[0], strConcat(a.A[1], b), strConcat(a.A[2], b))
	}
	if b.Op == OIte {
		return Ite(b.A[0], strConcat(a, b.A[1]), strConcat(a, b.A[2]))
	}
	return App("concat", SStr, a, b)
}

func strSub(s, lo, hi *Term) *Term {
	if s.Op == OStr && lo.Op == ONum && hi.Op == ONum {
		l, h := int(lo.R.Num().Int64()), int(hi.R.Num().Int64())
		if 0 <= l && l <= h && h <= len(s.Name) {
			return StrC(s.Name[l:h])
		}
	}
	if isZero(lo) && hi == strLen(s) {
		return s
	}
	return App("substr", SStr, s, lo, hi)
}

func (e *Exec) strEq(a, b *Term) *Term {
	if a.Op == OStr && b.Op == OStr {
		return Bool(a.Name == b.Name)
	}
	if a.Op == OIte && b.Op == OStr {
		return Ite(a.A[0], e.strEq(a.A[1], b), e.strEq(a.A[2], b))
	}
	if b.Op == OIte && a.Op == OStr {
		return e.strEq(b, a)
	}
	return Eq(a, b)
}

func (e *Exec) runeStr(r *Term) *Term {
	if r.Op == ONum {
		return StrC(string(rune(r.R.Num().Int64())))
	}
	return App("runestr", SStr, r)
}

func init() {
	one := RealI(1)
	axioms["strlen"] = func(t *Term) []*Term {
		return []*Term{Ge0(t), Le(t, Int(1<<40)), Eq(Eq0(t), Eq(t.A[0], StrC("")))}
	}
	axioms["concat"] = func(t *Term) []*Term {
		return []*Term{Eq(App("strlen", SInt, t), strLen(t)),
			Imp(Eq(t.A[0], StrC("")), Eq(t, t.A[1])), Imp(Eq(t.A[1], StrC("")), Eq(t, t.A[0]))}
	}
	axioms["substr"] = func(t *Term) []*Term {
		return []*Term{Imp(And(Ge0(t.A[1]), Le(t.A[1], t.A[2]), Le(t.A[2], strLen(t.A[0]))), Eq(strLen(t), Sub(t.A[2], t.A[1])))}
	}
	axioms["strat"] = func(t *Term) []*Term {
		r := []*Term{Ge0(t), Le(t, Int(255))}
		if s := t.A[0]; s.Op == OApp && s.Name == "substr" {
			r = append(r, Imp(And(Ge0(t.A[1]), Lt(t.A[1], Sub(s.A[2], s.A[1]))), Eq(t, strAt(s.A[0], Add(s.A[1], t.A[1])))))
		}
		return r
	}
	axioms["split.len"] = func(t *Term) []*Term {
		sep := Not(Eq(t.A[1], StrC("")))
		r := []*Term{Ge0(t)}
		some, many := sep, sep
		if len(t.A) > 2 {
			n := t.A[2]
			some = And(sep, Not(Eq0(n)))
			many = And(sep, Or(Gt0(Neg(n)), Le(Int(2), n)))
		}
		return append(r, Imp(some, Ge0(Sub(t, Int(1)))), Imp(many, Eq(Le(Int(2), t), App("contains", SBool, t.A[0], t.A[1]))))
	}
	axioms["hasprefix"] = func(t *Term) []*Term { return []*Term{Imp(t, Le(strLen(t.A[1]), strLen(t.A[0])))} }
	axioms["sqrt"] = func(t *Term) []*Term {
		x := t.A[0]
		return []*Term{Imp(Ge0(x), And(Ge0(t), Eq(Mul(t, t), x))), Imp(Gt0(x), Gt0(t))}
	}
	pairAxioms["sqrt"] = func(a, b *Term) []*Term {
		x, y := a.A[0], b.A[0]
		return []*Term{Imp(And(Ge0(x), Le(x, y)), Le(a, b)), Imp(And(Ge0(y), Le(y, x)), Le(b, a))}
	}
	trig := func(t *Term) []*Term { return []*Term{Le(RealI(-1), t), Le(t, one)} }
	axioms["sin"], axioms["cos"] = trig, trig
	axioms["pow"] = func(t *Term) []*Term {
		b, x := t.A[0], t.A[1]
		zero := RealI(0)
		return []*Term{
			Imp(Gt0(b), Gt0(t)), Imp(Ge0(b), Ge0(t)),
			Imp(Eq(b, one), Eq(t, one)), Imp(Eq0(x), Eq(t, one)),
			Imp(And(Eq0(b), Gt0(x)), Eq0(t)),
			Imp(And(Le(one, b), Ge0(x)), Le(one, t)),
			Imp(And(Le(zero, b), Le(b, one), Ge0(x)), Le(t, one)),
			Imp(And(Le(one, b), Le(x, zero)), Le(t, one)),
			Imp(And(Gt0(b), Le(b, one), Le(x, zero)), Le(one, t)),
			Imp(Eq(x, one), Eq(t, b)),
			Imp(And(Le(one, b), Le(one, x)), Le(b, t)),
			Imp(And(Le(zero, b), Le(b, one), Le(one, x)), Le(t, b)),
		}
	}
	pairAxioms["pow"] = func(a, b *Term) []*Term {
		var r []*Term
		if a.A[1] == b.A[1] {
			x := a.A[1]
			r = append(r, Imp(And(Ge0(x), Ge0(a.A[0]), Le(a.A[0], b.A[0])), Le(a, b)),
				Imp(And(Ge0(x), Ge0(b.A[0]), Le(b.A[0], a.A[0])), Le(b, a)))
		}
		if a.A[0] == b.A[0] {
			b0 := a.A[0]
			x, y := a.A[1], b.A[1]
			r = append(r, Imp(Le(one, b0), And(Imp(Le(x, y), Le(a, b)), Imp(Le(y, x), Le(b, a)))),
				Imp(And(Gt0(b0), Le(b0, one)), And(Imp(Le(x, y), Le(b, a)), Imp(Le(y, x), Le(a, b)))))
		}
		if a.A[0] != b.A[0] && a.A[1] != b.A[1] {
			p, q, x, y := a.A[0], b.A[0], a.A[1], b.A[1]
			zero := RealI(0)
			r = append(r, Imp(And(Le(zero, p), Le(p, q), Le(q, one), Le(zero, y), Le(y, x)), Le(a, b)),
				Imp(And(Le(zero, q), Le(q, p), Le(p, one), Le(zero, x), Le(x, y)), Le(b, a)),
				Imp(And(Le(one, p), Le(p, q), Le(zero, x), Le(x, y)), Le(a, b)),
				Imp(And(Le(one, q), Le(q, p), Le(zero, y), Le(y, x)), Le(b, a)))
		}
		return r
	}
	axioms["log10"] = func(t *Term) []*Term {
		x := t.A[0]
		return []*Term{Imp(Le(one, x), Ge0(t)), Imp(And(Gt0(x), Le(x, one)), Le(t, RealI(0))), Imp(Eq(x, one), Eq0(t))}
	}
	pairAxioms["log10"] = func(a, b *Term) []*Term {
		x, y := a.A[0], b.A[0]
		return []*Term{Imp(And(Gt0(x), Le(x, y)), Le(a, b)), Imp(And(Gt0(y), Le(y, x)), Le(b, a))}
	}
	axioms["cbrt"] = func(t *Term) []*Term {
		return []*Term{Eq(Mul(Mul(t, t), t), t.A[0]), Eq(Ge0(t), Ge0(t.A[0])), Eq(Eq0(t), Eq0(t.A[0]))}
	}
	piHi := decTerm(3.2, 64)
	axioms["atan2"] = func(t *Term) []*Term {
		return []*Term{Le(Neg(piHi), t), Le(t, piHi)}
	}
}

// ---------- floating-point functions

func un(name string) func(e *Exec, st *State, x *ssa.Call, a []Val) Val {
	return func(e *Exec, st *State, x *ssa.Call, a []Val) Val {
		f := a[0].(*FV)
		if f.finite() {
			return fin(App(name, SReal, f.v))
		}
		return &FV{Or(f.nan, f.pinf, f.ninf), tFalse, tFalse, App(name, SReal, f.v)}
	}
}

func sqrtTerm(x *Term) *Term {
	if x.Op == ONum && x.R.Sign() >= 0 {
		n, d := new(big.Int).Sqrt(x.R.Num()), new(big.Int).Sqrt(x.R.Denom())
		if new(big.Int).Mul(n, n).Cmp(x.R.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(x.R.Denom()) == 0 {
			return Num(new(big.Rat).SetFrac(n, d), SReal)
		}
	}
	return App("sqrt", SReal, x)
}

func powInt(a *FV, n int) *FV {
	r := a
	for i := 1; i < n; i++ {
		r = fMul(r, a)
	}
	return r
}

func fPow(b, x *FV) *FV {
	if x.finite() && x.v.Op == ONum {
		if x.v.R.IsInt() {
			n := x.v.R.Num().Int64()
			switch {
			case n == 0:
				return fin(RealI(1))
			case n > 0 && n <= 8:
				return powInt(b, int(n))
			}
		}
		if x.v.R.Cmp(big.NewRat(1, 2)) == 0 {
			return fSqrt(b)
		}
	}
	if b.finite() && x.finite() && b.v.Op == ONum && x.v.Op == ONum {
		bf, _ := b.v.R.Float64()
		xf, _ := x.v.R.Float64()
		if bf > 0 && bf == 1 {
			return fin(RealI(1))
		}
		_ = xf
	}
	t := App("pow", SReal, b.v, x.v)
	isInt := tTrue
	if asInt(x.v) == nil {
		isInt = Eq(ToReal(Floor(x.v)), x.v)
	}
	if b.finite() && x.finite() {
		z := And(Eq0(b.v), Gt0(Neg(x.v)))
		return &FV{And(Gt0(Neg(b.v)), Not(isInt)), z, tFalse, t}
	}
	bf, xf := b.fin(), x.fin()
	both := And(bf, xf)
	nan := Ite(both, And(Gt0(Neg(b.v)), Not(isInt)), App("pow#nan", SBool, b.nan, b.pinf, b.ninf, b.v, x.nan, x.pinf, x.ninf, x.v))
	pinf := Ite(both, And(Eq0(b.v), Gt0(Neg(x.v))), And(Not(nan), App("pow#pinf", SBool, b.nan, b.pinf, b.ninf, b.v, x.nan, x.pinf, x.ninf, x.v)))
	ninf := Ite(both, tFalse, And(Not(nan), Not(pinf), App("pow#ninf", SBool, b.nan, b.pinf, b.ninf, b.v, x.nan, x.pinf, x.ninf, x.v)))
	return &FV{nan, pinf, ninf, Ite(both, t, App("pow#v", SReal, b.nan, b.pinf, b.ninf, b.v, x.nan, x.pinf, x.ninf, x.v))}
}

func fSqrt(a *FV) *FV {
	return &FV{Or(a.nan, negT(a)), a.pinf, tFalse, sqrtTerm(a.v)}
}

func fFloor(a *FV) *FV { return &FV{a.nan, a.pinf, a.ninf, ToReal(Floor(a.v))} }

func iface(e *Exec, isErr *Term) *IfaceV {
	return &IfaceV{tag: Ite(isErr, Int(900001), Int(0)), ref: Int(0)}
}

var intrinsics map[string]func(e *Exec, st *State, x *ssa.Call, a []Val) Val

func init() {
	type h = func(e *Exec, st *State, x *ssa.Call, a []Val) Val
	nop := func(e *Exec, st *State, x *ssa.Call, a []Val) Val { return nil }
	strFn := func(name string) h {
		return func(e *Exec, st *State, x *ssa.Call, a []Val) Val {
			var ts []*Term
			for _, v := range a {
				ts = append(ts, v.(*Term))
			}
			return App(name, sortOf(x.Type()), ts...)
		}
	}
	split := func(name string) h {
		return func(e *Exec, st *State, x *ssa.Call, a []Val) Val {
			var ts []*Term
			for _, v := range a {
				ts = append(ts, v.(*Term))
			}
			n := App("split.len", SInt, ts...)
			if name == "SplitN" {
				e.assume(tTrue, Imp(Gt0(ts[2]), Le(n, ts[2])))
			}
			r := NewRef()
			key := "E:string"
			st.heap[key] = Store(e.heapGet(st.heap, key, SArr(SArr(SStr))), r, App("split.arr", SArr(SStr), ts...))
			return &SliceV{types.Typ[types.String], r, Int(0), n, n}
		}
	}
	intrinsics = map[string]h{
		"math.Max": func(e *Exec, st *State, x *ssa.Call, a []Val) Val { return fMax(a[0].(*FV), a[1].(*FV)) },
		"math.Min": func(e *Exec, st *State, x *ssa.Call, a []Val) Val { return fMin(a[0].(*FV), a[1].(*FV)) },
		"math.Abs": func(e *Exec, st *State, x *ssa.Call, a []Val) Val { return fAbs(a[0].(*FV)) },
		"math.Floor": func(e *Exec, st *State, x *ssa.Call, a []Val) Val {
			return fFloor(a[0].(*FV))
		},
		"math.Ceil": func(e *Exec, st *State, x *ssa.Call, a []Val) Val { return fNeg(fFloor(fNeg(a[0].(*FV)))) },
		"math.Trunc": func(e *Exec, st *State, x *ssa.Call, a []Val) Val {
			f := a[0].(*FV)
			return &FV{f.nan, f.pinf, f.ninf, ToReal(truncReal(f.v))}
		},
		"math.Round": func(e *Exec, st *State, x *ssa.Call, a []Val) Val {
			f := a[0].(*FV)
			h := Num(big.NewRat(1, 2), SReal)
			return &FV{f.nan, f.pinf, f.ninf, Ite(Ge0(f.v), ToReal(Floor(Add(f.v, h))), Neg(ToReal(Floor(Sub(h, f.v)))))}
		},
		"math.Mod": func(e *Exec, st *State, x *ssa.Call, a []Val) Val {
			p, q := a[0].(*FV), a[1].(*FV)
			m := App("fmod", SReal, p.v, q.v)
			qa := Ite(Ge0(q.v), q.v, Neg(q.v))
			n := App("fmodq", SInt, p.v, q.v)
			ok := And(p.fin(), q.fin(), Not(Eq0(q.v)))
			e.assume(tTrue, Imp(ok, And(Eq(p.v, Add(m, Mul(ToReal(n), q.v))), Imp(Ge0(p.v), And(Ge0(m), Lt(m, qa))), Imp(Ge0(Neg(p.v)), And(Ge0(Neg(m)), Lt(Neg(m), qa))))))
			v := Ite(infT(q), p.v, m)
			return &FV{Or(p.nan, q.nan, infT(p), zerT(q)), tFalse, tFalse, v}
		},
		"math.IsNaN": func(e *Exec, st *State, x *ssa.Call, a []Val) Val { return a[0].(*FV).nan },
		"math.IsInf": func(e *Exec, st *State, x *ssa.Call, a []Val) Val {
			f, s := a[0].(*FV), a[1].(*Term)
			return Or(And(Ge0(s), f.pinf), And(Ge0(Neg(s)), f.ninf))
		},
		"math.NaN": func(e *Exec, st *State, x *ssa.Call, a []Val) Val { return nanV },
		"math.Inf": func(e *Exec, st *State, x *ssa.Call, a []Val) Val {
			s := a[0].(*Term)
			return &FV{tFalse, Ge0(s), Not(Ge0(s)), RealI(0)}
		},
		"math.Signbit": func(e *Exec, st *State, x *ssa.Call, a []Val) Val { return negT(a[0].(*FV)) },
		"math.Sqrt":    func(e *Exec, st *State, x *ssa.Call, a []Val) Val { return fSqrt(a[0].(*FV)) },
		"math.Pow":     func(e *Exec, st *State, x *ssa.Call, a []Val) Val { return fPow(a[0].(*FV), a[1].(*FV)) },
		"math.Exp": func(e *Exec, st *State, x *ssa.Call, a []Val) Val {
			return fPow(fin(decTerm(math.E, 64)), a[0].(*FV))
		},
		"math.Hypot": func(e *Exec, st *State, x *ssa.Call, a []Val) Val {
			p, q := a[0].(*FV), a[1].(*FV)
			return fSqrt(fAdd(fMul(p, p), fMul(q, q)))
		},
		"math.Sin":  un("sin"),
		"math.Cos":  un("cos"),
		"math.Tan":  un("tan"),
		"math.Cbrt": un("cbrt"),
		"math.Atan": un("atan"),
		"math.Acos": func(e *Exec, st *State, x *ssa.Call, a []Val) Val {
			f := a[0].(*FV)
			return &FV{Or(Not(f.fin()), Lt(RealI(1), f.v), Lt(f.v, RealI(-1))), tFalse, tFalse, App("acos", SReal, f.v)}
		},
		"math.Asin": func(e *Exec, st *State, x *ssa.Call, a []Val) Val {
			f := a[0].(*FV)
			return &FV{Or(Not(f.fin()), Lt(RealI(1), f.v), Lt(f.v, RealI(-1))), tFalse, tFalse, App("asin", SReal, f.v)}
		},
		"math.Log10": func(e *Exec, st *State, x *ssa.Call, a []Val) Val {
			f := a[0].(*FV)
			return &FV{Or(f.nan, negT(f)), f.pinf, zerT(f), App("log10", SReal, f.v)}
		},
		"math.Log": func(e *Exec, st *State, x *ssa.Call, a []Val) Val {
			f := a[0].(*FV)
			return &FV{Or(f.nan, negT(f)), f.pinf, zerT(f), App("log", SReal, f.v)}
		},
		"math.Atan2": func(e *Exec, st *State, x *ssa.Call, a []Val) Val {
			p, q := a[0].(*FV), a[1].(*FV)
			return &FV{Or(p.nan, q.nan), tFalse, tFalse, App("atan2", SReal, p.v, q.v)}
		},
		"sort.Search":      sortSearch,
		"sort.Slice":       func(e *Exec, st *State, x *ssa.Call, a []Val) Val { return sortSlice(e, st, x, a, false) },
		"sort.SliceStable": func(e *Exec, st *State, x *ssa.Call, a []Val) Val { return sortSlice(e, st, x, a, true) },
		"sort.Float64s": func(e *Exec, st *State, x *ssa.Call, a []Val) Val {
			s := a[0].(*SliceV)
			e.permute(st, s, func(u, v Val) *Term { return fLt(u.(*FV), v.(*FV)) }, false)
			return nil
		},
		"errors.New": func(e *Exec, st *State, x *ssa.Call, a []Val) Val { return iface(e, tTrue) },
		"fmt.Errorf": func(e *Exec, st *State, x *ssa.Call, a []Val) Val { return iface(e, tTrue) },
		"fmt.Sprintf": func(e *Exec, st *State, x *ssa.Call, a []Val) Val {
			return Var("sprintf", SStr)
		},
		"strings.TrimSpace":  strFn("trimspace"),
		"strings.TrimPrefix": strFn("trimprefix"),
		"strings.TrimSuffix": strFn("trimsuffix"),
		"strings.TrimRight":  strFn("trimright"),
		"strings.TrimLeft":   strFn("trimleft"),
		"strings.Trim":       strFn("trim"),
		"strings.Replace":    strFn("replace"),
		"strings.ReplaceAll": strFn("replaceall"),
		"strings.ToLower":    strFn("tolower"),
		"strings.ToUpper":    strFn("toupper"),
		"strings.Contains":   strFn("contains"),
		"strings.HasPrefix":  strFn("hasprefix"),
		"strings.HasSuffix":  strFn("hassuffix"),
		"strings.Index": func(e *Exec, st *State, x *ssa.Call, a []Val) Val {
			s := a[0].(*Term)
			r := App("strindex", SInt, s, a[1].(*Term))
			e.assume(tTrue, And(Ge0(Add(r, Int(1))), Or(Gt0(Neg(r)), Le(Add(r, strLen(a[1].(*Term))), strLen(s)))))
			return r
		},
		"strings.Split":  split("Split"),
		"strings.SplitN": split("SplitN"),
		"strconv.Atoi": func(e *Exec, st *State, x *ssa.Call, a []Val) Val {
			s := a[0].(*Term)
			return &TupV{[]Val{App("atoi", SInt, s), iface(e, App("atoi.err", SBool, s))}}
		},
		"strconv.ParseInt": func(e *Exec, st *State, x *ssa.Call, a []Val) Val {
			s, b, w := a[0].(*Term), a[1].(*Term), a[2].(*Term)
			return &TupV{[]Val{App("parseint", SInt, s, b, w), iface(e, App("parseint.err", SBool, s, b, w))}}
		},
		"strconv.ParseFloat": func(e *Exec, st *State, x *ssa.Call, a []Val) Val {
			s, w := a[0].(*Term), a[1].(*Term)
			f := &FV{App("parsefloat#nan", SBool, s, w), App("parsefloat#pinf", SBool, s, w), App("parsefloat#ninf", SBool, s, w), App("parsefloat", SReal, s, w)}
			e.typeFacts(tTrue, f, types.Typ[types.Float64])
			if w.Op == ONum && w.R.Num().Int64() == 32 { // the same number (up to float32 rounding) unless it overflows
				w64 := Int(64)
				g := &FV{App("parsefloat#nan", SBool, s, w64), App("parsefloat#pinf", SBool, s, w64), App("parsefloat#ninf", SBool, s, w64), App("parsefloat", SReal, s, w64)}
				e.typeFacts(tTrue, g, types.Typ[types.Float64])
				big := RealI(1 << 62)
				e.assume(tTrue, Eq(f.nan, g.nan))
				e.assume(tTrue, Imp(And(g.fin(), Le(g.v, big), Le(Neg(big), g.v)), And(f.fin(), Eq(f.v, g.v))))
			}
			return &TupV{[]Val{f, iface(e, App("parsefloat.err", SBool, s, w))}}
		},
		"(*sync.RWMutex).Lock": nop, "(*sync.RWMutex).Unlock": nop, "(*sync.RWMutex).RLock": nop, "(*sync.RWMutex).RUnlock": nop,
		"(*sync.Mutex).Lock": nop, "(*sync.Mutex).Unlock": nop,
		"(*bufio.Scanner).Scan": func(e *Exec, st *State, x *ssa.Call, a []Val) Val { return Var("scan", SBool) },
		"(*bufio.Scanner).Text": func(e *Exec, st *State, x *ssa.Call, a []Val) Val { return Var("line", SStr) },
	}
}

func (e *Exec) callPure(st *State, x *ssa.Call, f *FnV, args []Val, pc *Term, spec int) Val {
	s := &State{pc: pc, heap: copyHeap(st.heap), env: map[ssa.Value]Val{}}
	old := e.spec
	e.spec = spec
	v := e.callFnVal(s, x, f, args, "", nil)
	e.spec = old
	return v
}

func sortSearch(e *Exec, st *State, x *ssa.Call, a []Val) Val {
	n, f := a[0].(*Term), a[1].(*FnV)
	r := Var("search", SInt)
	e.assume(st.pc, Imp(Ge0(n), And(Ge0(r), Le(r, n))))
	e.assume(st.pc, Imp(Not(Ge0(n)), Eq0(r)))
	if e.spec == 0 {
		bv := Bound(SInt)
		e.callPure(st, x, f, []Val{bv}, And(st.pc, Ge0(bv), Lt(bv, n)), 0)
	}
	at := e.callPure(st, x, f, []Val{r}, And(st.pc, Ge0(r), Lt(r, n)), 1).(*Term)
	e.assume(And(st.pc, Lt(r, n)), at)
	r1 := Sub(r, Int(1))
	bf := e.callPure(st, x, f, []Val{r1}, And(st.pc, Ge0(r1), Lt(r1, n)), 1).(*Term)
	e.assume(And(st.pc, Gt0(r)), Not(bf))
	return r
}

func sortSlice(e *Exec, st *State, x *ssa.Call, a []Val, stable bool) Val {
	iv := a[0].(*IfaceV)
	s, ok := iv.dyn.(*SliceV)
	if !ok {
		unsupported("sort.Slice of an unknown slice")
	}
	f := a[1].(*FnV)
	i, j := Bound(SInt), Bound(SInt)
	pc := And(st.pc, Ge0(i), Lt(i, s.len), Ge0(j), Lt(j, s.len))
	if e.spec == 0 {
		e.callPure(st, x, f, []Val{i, j}, pc, 0)
	}
	k := Bound(SInt)
	pc3 := And(pc, Ge0(k), Lt(k, s.len))
	ls := func(p, q *Term) *Term { return e.callPure(st, x, f, []Val{p, q}, pc3, 1).(*Term) }
	if e.spec == 0 {
		pos := e.posOf(x)
		e.oblige("safety", "comparison passed to sort is irreflexive", pc3, Not(ls(i, i)), pos)
		e.oblige("safety", "comparison passed to sort is transitive", pc3, Imp(And(ls(i, j), ls(j, k)), ls(i, k)), pos)
		e.oblige("safety", "incomparability under the comparison passed to sort is transitive", pc3,
			Imp(And(Not(ls(i, j)), Not(ls(j, k))), Not(ls(i, k))), pos)
	}
	dir := 0
	var elemOld func(i *Term) *Term
	if lv := leavesOf(s.elem, "E:"+tkey(s.elem)); len(lv) == 1 && lv[0].s == SReal {
		old := Select(e.heapGet(st.heap, lv[0].path, SArr(SArr(lv[0].s))), s.ref)
		elemOld = func(i *Term) *Term { return Select(old, Add(s.off, i)) }
		l := ls(i, j)
		if l == Lt(elemOld(i), elemOld(j)) {
			dir = 1
		} else if l == Lt(elemOld(j), elemOld(i)) {
			dir = -1
		}
	}
	p, post := e.permuteRaw(st, s)
	if dir != 0 {
		e.sortedFloats(st, s, elemOld, dir)
	}
	// sortedness in the new heap
	less := e.callPure(post, x, f, []Val{j, i}, pc, 1).(*Term) // less(j,i)
	e.assume(tTrue, Imp(And(pc, Lt(i, j)), Not(less)))
	if stable {
		l2 := e.callPure(post, x, f, []Val{i, j}, pc, 1).(*Term)
		e.assume(tTrue, Imp(And(pc, Lt(i, j), Not(l2)), Lt(App(p, SInt, i), App(p, SInt, j))))
	}
	return nil
}

type sortRec struct {
	pc      *Term
	dir     int
	n       *Term
	old, nw func(i *Term) *Term
	at      int
}

// sortedFloats records that a slice of numbers was just sorted.
func (e *Exec) sortedFloats(st *State, s *SliceV, old func(i *Term) *Term, dir int) {
	lv := leavesOf(s.elem, "E:"+tkey(s.elem))
	nw := Select(e.heapGet(st.heap, lv[0].path, SArr(SArr(lv[0].s))), s.ref)
	e.addSort(sortRec{pc: st.pc, dir: dir, n: s.len, old: old, nw: func(i *Term) *Term { return Select(nw, Add(s.off, i)) }})
}

// addSort: sorting numbers is a function of the numbers, so equal contents give equal results (and sorting up
// gives the reverse of sorting down). The witness is an index at which the contents differ, if any.
func (e *Exec) addSort(a sortRec) {
	for _, b := range e.sorts {
		w, j := Var("differ", SInt), Bound(SInt)
		in := func(i *Term) *Term { return And(Ge0(i), Lt(i, a.n)) }
		other := j
		if a.dir != b.dir {
			other = Sub(Sub(a.n, Int(1)), j)
		}
		e.assume(And(a.pc, b.pc), Or(Not(Eq(a.n, b.n)), And(in(w), Not(Eq(a.old(w), b.old(w)))),
			Forall(j, Imp(in(j), Eq(a.nw(j), b.nw(other))))))
	}
	a.at = len(e.facts)
	e.sorts = append(e.sorts, a)
}

// sortedDesc is the specification's descending sort of f(0..n-1).
func (e *Exec) sortedDesc(st *State, x *ssa.Call, n *Term, f *FnV) Val {
	at := func(i *Term) *Term {
		v, ok := e.callPure(st, x, f, []Val{i}, st.pc, 1).(*FV)
		if !ok {
			unsupported("SortedDesc of a non-number")
		}
		return v.v
	}
	m := e.memo(st, x, f).(*FnV)
	if r, ok := e.sortTab[[2]*Term{n, m.id}]; ok {
		return r
	}
	nw := Var("spec!sorted", SArr(SReal))
	p := "perm!" + strconv.Itoa(tick())
	q := p + "inv"
	i, j := Bound(SInt), Bound(SInt)
	in := func(i *Term) *Term { return And(Ge0(i), Lt(i, n)) }
	pi, qi := App(p, SInt, i), App(q, SInt, i)
	e.assume(tTrue, Imp(in(i), And(in(pi), Eq(App(q, SInt, pi), i))))
	e.assume(tTrue, Imp(in(i), And(in(qi), Eq(App(p, SInt, qi), i))))
	e.assume(tTrue, Imp(in(i), Eq(Select(nw, i), at(pi))))
	e.assume(tTrue, Imp(And(in(i), in(j), Lt(i, j)), Le(Select(nw, j), Select(nw, i))))
	e.addSort(sortRec{pc: tTrue, dir: -1, n: n, old: at, nw: func(i *Term) *Term { return Select(nw, i) }})
	r := e.newClosure(&Closure{nat: func(a []Val) Val { return fin(Select(nw, a[0].(*Term))) }})
	e.sortTab[[2]*Term{n, m.id}] = r
	return r
}

var permNo int

// permuteRaw replaces the contents of a slice by a permutation; returns the name of the index map new->old.
func (e *Exec) permuteRaw(st *State, s *SliceV) (string, *State) {
	permNo++
	p := "perm!" + strconv.Itoa(tick())
	q := p + "inv"
	e.lastPerm = p
	for _, lf := range leavesOf(s.elem, "E:"+tkey(s.elem)) {
		E := e.heapGet(st.heap, lf.path, SArr(SArr(lf.s)))
		old := Select(E, s.ref)
		nw := Var("sorted", SArr(lf.s))
		i := Bound(SInt)
		in := And(Ge0(i), Lt(i, s.len))
		e.assume(st.pc, Imp(in, Eq(Select(nw, Add(s.off, i)), Select(old, Add(s.off, App(p, SInt, i))))))
		e.assume(st.pc, Imp(Or(Lt(i, s.off), Le(Add(s.off, s.len), i)), Eq(Select(nw, i), Select(old, i))))
		st.heap[lf.path] = Store(E, s.ref, nw)
	}
	i := Bound(SInt)
	in := And(Ge0(i), Lt(i, s.len))
	pi, qi := App(p, SInt, i), App(q, SInt, i)
	e.assume(st.pc, Imp(in, And(Ge0(pi), Lt(pi, s.len), Eq(App(q, SInt, pi), i))))
	e.assume(st.pc, Imp(in, And(Ge0(qi), Lt(qi, s.len), Eq(App(p, SInt, qi), i))))
	return p, st
}

func (e *Exec) permute(st *State, s *SliceV, less func(u, v Val) *Term, stable bool) {
	_, post := e.permuteRaw(st, s)
	i, j := Bound(SInt), Bound(SInt)
	e.assume(st.pc, Imp(And(Ge0(i), Lt(i, j), Lt(j, s.len)), Not(less(e.elemAt(post, s, j), e.elemAt(post, s, i)))))
}

// ---------- builtins

func (e *Exec) builtin(st *State, x *ssa.Call, b *ssa.Builtin) Val {
	var a []Val
	for _, v := range x.Call.Args {
		a = append(a, e.val(st, v))
	}
	switch b.Name() {
	case "len":
		switch s := a[0].(type) {
		case *SliceV:
			return s.len
		case *ArrV:
			return Int(int64(len(s.es)))
		case *Term:
			if s.S == SStr {
				return strLen(s)
			}
			if p, ok := x.Call.Args[0].Type().Underlying().(*types.Pointer); ok {
				return Int(p.Elem().Underlying().(*types.Array).Len())
			}
		}
		unsupported("len of %T", a[0])
	case "cap":
		if s, ok := a[0].(*SliceV); ok {
			return s.cap
		}
		unsupported("cap of %T", a[0])
	case "append":
		return e.appendTo(st, x, a[0], a[1])
	case "copy":
		return e.copyTo(st, x, a[0], a[1])
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		return a[0]
	case "min", "max":
		r := a[0]
		for _, y := range a[1:] {
			if f, ok := r.(*FV); ok {
				if b.Name() == "min" {
					r = fMin(f, y.(*FV))
				} else {
					r = fMax(f, y.(*FV))
				}
			} else if b.Name() == "min" {
				r = TMin(r.(*Term), y.(*Term))
			} else {
				r = TMax(r.(*Term), y.(*Term))
			}
		}
		return r
	}
	unsupported("builtin %s", b.Name())
	return nil
}

func (e *Exec) appendTo(st *State, x *ssa.Call, dst, src Val) Val {
	s := dst.(*SliceV)
	var n *Term
	var arr func(lf leaf) *Term // inner array and offset of the source
	off := Int(0)
	switch y := src.(type) {
	case *SliceV:
		n, off = y.len, y.off
		arr = func(lf leaf) *Term { return Select(e.heapGet(st.heap, lf.path, SArr(SArr(lf.s))), y.ref) }
	case *Term:
		if y.S != SStr {
			unsupported("append of %T", src)
		}
		n = strLen(y)
		arr = func(lf leaf) *Term { return App("strbytes", SArr(SInt), y) }
	default:
		unsupported("append of %T", src)
	}
	if isZero(n) {
		return s
	}
	nl := Add(s.len, n)
	fits := Le(nl, s.cap)
	if d := decide(st.pc, fits); d >= 0 {
		fits = Bool(d == 1)
	}
	nr := NewRef()
	ref := Ite(fits, s.ref, nr)
	nc := Var("newcap", SInt)
	if fits != tTrue {
		e.assume(tTrue, Le(nl, nc))
	}
	cp := Ite(fits, s.cap, nc)
	for _, lf := range leavesOf(s.elem, "E:"+tkey(s.elem)) {
		E := e.heapGet(st.heap, lf.path, SArr(SArr(lf.s)))
		in := Select(E, s.ref)
		from := arr(lf)
		if n.Op == ONum && n.R.Num().Int64() <= 16 {
			for i := int64(0); i < n.R.Num().Int64(); i++ {
				in = Store(in, Add(Add(s.off, s.len), Int(i)), Select(from, Add(off, Int(i))))
			}
		} else {
			nw := Var("appended", SArr(lf.s))
			i := Bound(SInt)
			at := Add(s.off, s.len)
			isNew := And(Le(at, i), Lt(i, Add(at, n)))
			e.assume(tTrue, Eq(Select(nw, i), Ite(isNew, Select(from, Add(off, Sub(i, at))), Select(in, i))))
			in = nw
		}
		st.heap[lf.path] = Store(E, ref, in)
	}
	r := &SliceV{s.elem, ref, s.off, nl, cp}
	return r
}

func (e *Exec) copyTo(st *State, x *ssa.Call, dst, src Val) Val {
	d := dst.(*SliceV)
	y, ok := src.(*SliceV)
	if !ok {
		unsupported("copy from %T", src)
	}
	n := TMin(d.len, y.len)
	for _, lf := range leavesOf(d.elem, "E:"+tkey(d.elem)) {
		E := e.heapGet(st.heap, lf.path, SArr(SArr(lf.s)))
		in, from := Select(E, d.ref), Select(E, y.ref)
		if n.Op == ONum && n.R.Num().Int64() <= 16 {
			for i := int64(0); i < n.R.Num().Int64(); i++ {
				in = Store(in, Add(d.off, Int(i)), Select(from, Add(y.off, Int(i))))
			}
		} else {
			nw := Var("copied", SArr(lf.s))
			i := Bound(SInt)
			isNew := And(Le(d.off, i), Lt(i, Add(d.off, n)))
			e.assume(tTrue, Eq(Select(nw, i), Ite(isNew, Select(from, Add(y.off, Sub(i, d.off))), Select(in, i))))
			in = nw
		}
		st.heap[lf.path] = Store(E, d.ref, in)
	}
	return n
}

func strKey(ss []string) string { return strings.Join(ss, ",") }
