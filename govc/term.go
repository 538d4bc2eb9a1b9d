package main

// Hash-consed terms with a light, sound simplifier. Int and Real are mathematical; references are Ints.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort struct {
	Name string
	Elem *Sort // for arrays (domain is Int)
}

var (
	SBool = &Sort{Name: "Bool"}
	SInt  = &Sort{Name: "Int"}
	SReal = &Sort{Name: "Real"}
	SBV   = &Sort{Name: "BV"}
	SStr  = &Sort{Name: "Str"}
)
var arrSorts = map[*Sort]*Sort{}

func SArr(e *Sort) *Sort {
	if s, ok := arrSorts[e]; ok {
		return s
	}
	s := &Sort{Name: "Array", Elem: e}
	arrSorts[e] = s
	return s
}

func (s *Sort) SMT() string {
	switch s.Name {
	case "BV":
		return "(_ BitVec 64)"
	case "Array":
		return "(Array Int " + s.Elem.SMT() + ")"
	}
	return s.Name
}

type Op int

const (
	ONum Op = iota
	OTrue
	OFalse
	OBV
	OStr
	OVar
	OBound
	ONewRef
	OApp
	ONot
	OAnd
	OOr
	OIte
	OEq  // non numeric
	OEq0 // numeric term == 0
	OGe0
	OGt0
	OAdd
	OMul
	OInv
	OIDiv
	OIMod
	OToReal
	OFloor // Real -> Int
	OSelect
	OStore
	OConstArr
	OHArr // array equal to A[0] on references older than N, arbitrary elsewhere
	OBit
	OBVAnd
	OBVOr
	OBVXor
	OBVNot
	OBVShl
	OBVShr
	OForall
	OExists
)

type Term struct {
	ID   int
	Op   Op
	S    *Sort
	A    []*Term
	Name string
	R    *big.Rat   // number; constant part of OAdd
	C    []*big.Rat // coefficients of OAdd
	B    uint64
	N    int
	lb   int // lower bound of allocation time when this denotes a reference, -1 unknown
	ub   int // upper bound of creation time of anything inside
	bvs  []int
	size int
}

var termTab = map[string]*Term{}
var termCount int
var clock int

func tick() int { clock++; return clock }

func mk(t *Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|%d|%d|", t.Op, t.Name, t.B, t.N)
	if t.S.Name == "Array" {
		fmt.Fprintf(&sb, "%p|", t.S)
	} else {
		sb.WriteString(t.S.Name)
		sb.WriteByte('|')
	}
	if t.R != nil {
		sb.WriteString(t.R.RatString())
	}
	for i, a := range t.A {
		fmt.Fprintf(&sb, ",%d", a.ID)
		if t.C != nil {
			sb.WriteByte('*')
			sb.WriteString(t.C[i].RatString())
		}
	}
	k := sb.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	termCount++
	t.ID = termCount
	if t.Op != OVar && t.Op != ONewRef && t.Op != OHArr {
		t.lb = -1
	}
	t.size = 1
	for _, a := range t.A {
		if a.ub > t.ub {
			t.ub = a.ub
		}
		t.size += a.size
		for _, b := range a.bvs {
			t.addBV(b)
		}
	}
	if t.size > 1<<40 {
		t.size = 1 << 40
	}
	if t.Op == OIte {
		l := lbOf(t.A[1])
		if l2 := lbOf(t.A[2]); l2 < l {
			l = l2
		}
		t.lb = l
		if l == maxLB {
			t.lb = -1
		}
	}
	if t.Op == OForall || t.Op == OExists {
		var n []int
		for _, b := range t.bvs {
			if b != t.N {
				n = append(n, b)
			}
		}
		t.bvs = n
	}
	termTab[k] = t
	return t
}

const maxLB = 1 << 50

func isZero(t *Term) bool { return t.Op == ONum && t.R.Sign() == 0 }

// lbOf treats the nil reference as arbitrarily fresh (no memory lives there).
func lbOf(t *Term) int {
	if isZero(t) {
		return maxLB
	}
	return t.lb
}

func (t *Term) addBV(b int) {
	for _, x := range t.bvs {
		if x == b {
			return
		}
	}
	t.bvs = append(append([]int{}, t.bvs...), b)
}

var (
	tTrue  = mk(&Term{Op: OTrue, S: SBool})
	tFalse = mk(&Term{Op: OFalse, S: SBool})
)

func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func Num(r *big.Rat, s *Sort) *Term { return mk(&Term{Op: ONum, S: s, R: r}) }
func Int(i int64) *Term             { return Num(new(big.Rat).SetInt64(i), SInt) }
func RealI(i int64) *Term           { return Num(new(big.Rat).SetInt64(i), SReal) }
func BV(b uint64) *Term             { return mk(&Term{Op: OBV, S: SBV, B: b}) }
func StrC(s string) *Term           { return mk(&Term{Op: OStr, S: SStr, Name: s}) }

var varCount = map[string]int{}

// Var creates a fresh variable born now.
func Var(hint string, s *Sort) *Term { return VarLB(hint, s, -1) }
func VarLB(hint string, s *Sort, lb int) *Term {
	varCount[hint]++
	n := hint
	if varCount[hint] > 1 {
		n = fmt.Sprintf("%s!%d", hint, varCount[hint])
	}
	return mk(&Term{Op: OVar, S: s, Name: n, ub: clock, lb: lb})
}

// VarOld is an initial-state variable, unique by name.
func VarOld(name string, s *Sort) *Term { return mk(&Term{Op: OVar, S: s, Name: name, ub: 0, lb: -1}) }

var boundCount int

func Bound(s *Sort) *Term {
	boundCount++
	t := mk(&Term{Op: OBound, S: s, Name: fmt.Sprintf("q%d", boundCount), N: boundCount})
	t.bvs = []int{boundCount}
	binderTab[boundCount] = t
	return t
}
func NewRef() *Term {
	n := tick()
	return mk(&Term{Op: ONewRef, S: SInt, N: n, lb: n, ub: n})
}
func HArr(base *Term, since int) *Term {
	varCount["harr"]++
	t := &Term{Op: OHArr, S: base.S, A: []*Term{base}, N: since, Name: fmt.Sprintf("harr!%d", varCount["harr"]), lb: -1, ub: clock}
	return mk(t)
}
func App(name string, s *Sort, a ...*Term) *Term {
	return mk(&Term{Op: OApp, S: s, Name: name, A: a})
}

func ConstArr(v *Term) *Term {
	return mk(&Term{Op: OConstArr, S: SArr(v.S), A: []*Term{v}})
}

// ---------- booleans

func Not(a *Term) *Term {
	switch a.Op {
	case OTrue:
		return tFalse
	case OFalse:
		return tTrue
	case ONot:
		return a.A[0]
	case OGe0: // not a>=0 : -a>0
		return Gt0(Neg(a.A[0]))
	case OGt0:
		return Ge0(Neg(a.A[0]))
	}
	return mk(&Term{Op: ONot, S: SBool, A: []*Term{a}})
}

func flat(op Op, xs []*Term, out []*Term) []*Term {
	for _, x := range xs {
		if x.Op == op {
			out = append(out, x.A...)
		} else {
			out = append(out, x)
		}
	}
	return out
}

func And(xs ...*Term) *Term { return junct(OAnd, xs) }
func Or(xs ...*Term) *Term  { return junct(OOr, xs) }

func junct(op Op, xs []*Term) *Term {
	unit, zero := tTrue, tFalse
	if op == OOr {
		unit, zero = tFalse, tTrue
	}
	fl := flat(op, xs, nil)
	seen := map[*Term]bool{}
	var out []*Term
	for _, x := range fl {
		if x == unit || seen[x] {
			continue
		}
		if x == zero || seen[Not(x)] {
			return zero
		}
		seen[x] = true
		out = append(out, x)
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	if op == OOr && len(out) <= 8 {
		// (p & c) | (p & !c) = p ; common conjunct factoring
		for i := 0; i < len(out); i++ {
			for j := i + 1; j < len(out); j++ {
				if r := mergeOr(out[i], out[j]); r != nil {
					n := append([]*Term{}, out[:i]...)
					n = append(n, out[i+1:j]...)
					n = append(n, out[j+1:]...)
					n = append(n, r)
					return junct(op, n)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return mk(&Term{Op: op, S: SBool, A: out})
}

func conj(a *Term) []*Term {
	if a.Op == OAnd {
		return a.A
	}
	return []*Term{a}
}

// mergeOr: a|b when they differ in exactly one complementary literal, or one absorbs the other.
func mergeOr(a, b *Term) *Term {
	ca, cb := conj(a), conj(b)
	sa, sb := map[*Term]bool{}, map[*Term]bool{}
	for _, x := range ca {
		sa[x] = true
	}
	for _, x := range cb {
		sb[x] = true
	}
	var da, db []*Term
	for _, x := range ca {
		if !sb[x] {
			da = append(da, x)
		}
	}
	for _, x := range cb {
		if !sa[x] {
			db = append(db, x)
		}
	}
	if len(da) == 0 {
		return a
	}
	if len(db) == 0 {
		return b
	}
	if len(da) == 1 && len(db) == 1 && da[0] == Not(db[0]) {
		var c []*Term
		for _, x := range ca {
			if sb[x] {
				c = append(c, x)
			}
		}
		return And(c...)
	}
	if len(da)+len(db) > 2 && (len(da) == 1 || len(db) == 1) && And(da...) == Not(And(db...)) {
		var c []*Term
		for _, x := range ca {
			if sb[x] {
				c = append(c, x)
			}
		}
		return And(c...)
	}
	// p&c | p&!c&d  = p & (c|d)
	if len(da) == 1 && len(db) > 1 {
		for i, x := range db {
			if x == Not(da[0]) {
				rest := append(append([]*Term{}, db[:i]...), db[i+1:]...)
				var c []*Term
				for _, y := range ca {
					if sb[y] {
						c = append(c, y)
					}
				}
				if len(c) == 0 {
					return nil
				}
				return And(append(c, Or(da[0], And(rest...)))...)
			}
		}
	}
	if len(db) == 1 && len(da) > 1 {
		return mergeOr(b, a)
	}
	return nil
}

func Imp(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if a == b || c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if c.Op == ONot {
		return Ite(c.A[0], b, a)
	}
	if a.S == SBool {
		if a == tTrue {
			return Or(c, b)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
		if b == tFalse {
			return And(c, a)
		}
		if a == Not(b) {
			return mk(&Term{Op: OEq, S: SBool, A: ord(c, a)})
		}
	}
	if a.Op == OIte && a.A[0] == c {
		a = a.A[1]
	}
	if b.Op == OIte && b.A[0] == c {
		b = b.A[2]
	}
	if nc := Not(c); a.Op == OIte && a.A[0] == nc {
		a = a.A[2]
	} else if b.Op == OIte && b.A[0] == nc {
		b = b.A[1]
	}
	if a == b {
		return a
	}
	if c.Op == OGt0 || c.Op == OGe0 { // canonical polarity
		if n := Not(c); n.ID < c.ID {
			return Ite(n, b, a)
		}
	}
	// nested: ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
	if b.Op == OIte && b.A[1] == a {
		return Ite(Or(c, b.A[0]), a, b.A[2])
	}
	if b.Op == OIte && b.A[2] == a {
		return Ite(And(Not(c), b.A[0]), b.A[1], a)
	}
	if a.Op == OIte && a.A[2] == b {
		return Ite(And(c, a.A[0]), a.A[1], b)
	}
	// common factors of products
	if a.S == SReal && (a.Op == OMul && len(a.A) > 1 || b.Op == OMul && len(b.A) > 1 || scaledProd(a) || scaledProd(b)) {
		ca, fa := factor(a)
		cb, fb := factor(b)
		if len(fa) > 0 && len(fb) > 0 {
			if common, x, y := splitCommon(fa, fb); len(common) > 0 {
				r := RealI(1)
				for _, f := range common {
					r = Mul(r, f)
				}
				p, q := Num(ca, SReal), Num(cb, SReal)
				for _, f := range x {
					p = Mul(p, f)
				}
				for _, f := range y {
					q = Mul(q, f)
				}
				return Mul(r, Ite(c, p, q))
			}
		}
	}
	// arrays: keep store structure
	if a.S.Name == "Array" {
		if a.Op == OStore && b.Op == OStore && a.A[1] == b.A[1] && a.A[0] == b.A[0] {
			return Store(a.A[0], a.A[1], Ite(c, a.A[2], b.A[2]))
		}
		if a.Op == OStore && a.A[0] == b {
			return Store(b, a.A[1], Ite(c, a.A[2], Select(b, a.A[1])))
		}
		if b.Op == OStore && b.A[0] == a {
			return Store(a, b.A[1], Ite(c, Select(a, b.A[1]), b.A[2]))
		}
		// deeper chains over a common base
		if r := mergeChains(c, a, b); r != nil {
			return r
		}
	}
	return mk(&Term{Op: OIte, S: a.S, A: []*Term{c, a, b}})
}

func chain(t *Term) (base *Term, idx, val []*Term) {
	for t.Op == OStore {
		idx = append(idx, t.A[1])
		val = append(val, t.A[2])
		t = t.A[0]
	}
	return t, idx, val
}

func mergeChains(c, a, b *Term) *Term {
	ba, ia, _ := chain(a)
	bb, ib, _ := chain(b)
	if ba != bb || len(ia)+len(ib) > 24 {
		return nil
	}
	base := ba
	// common prefix of stores (from the base outwards)
	r := base
	var idx []*Term
	add := func(i *Term) {
		for _, x := range idx {
			if x == i {
				return
			}
		}
		idx = append(idx, i)
	}
	for i := len(ia) - 1; i >= 0; i-- {
		add(ia[i])
	}
	for i := len(ib) - 1; i >= 0; i-- {
		add(ib[i])
	}
	// all indices must be pairwise decided (equal or distinct)
	for i := range idx {
		for j := range idx[:i] {
			if !distinctIdx(idx[i], idx[j]) {
				return nil
			}
		}
	}
	for _, i := range idx {
		r = Store(r, i, Ite(c, Select(a, i), Select(b, i)))
	}
	return r
}

func ord(a, b *Term) []*Term {
	if a.ID > b.ID {
		return []*Term{b, a}
	}
	return []*Term{a, b}
}

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	switch a.S.Name {
	case "Int", "Real":
		if a.Op == ONewRef && (b.Op == ONewRef || b.Op == ONum || b.ub < a.N) {
			return tFalse
		}
		if b.Op == ONewRef && (a.Op == ONum || a.ub < b.N) {
			return tFalse
		}
		if a.Op == OIte && b.Op == ONum || b.Op == OIte && a.Op == ONum {
			if a.Op == ONum {
				a, b = b, a
			}
			x, y := Eq(a.A[1], b), Eq(a.A[2], b)
			if isConstB(x) || isConstB(y) {
				return Ite(a.A[0], x, y)
			}
		}
		d := Sub(a, b)
		return Eq0(d)
	case "Bool":
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
		if a == Not(b) {
			return tFalse
		}
	case "BV":
		if a.Op == OBV && b.Op == OBV {
			return Bool(a.B == b.B)
		}
		if b.Op != OBV {
			a, b = b, a
		}
		if b.Op == OBV && a.Op == OBVAnd {
			if m := a.A[1]; m.Op == OBV {
				if b.B&^m.B != 0 {
					return tFalse
				}
				if popcount(m.B) <= 4 {
					r := tTrue
					for i := 0; i < 64; i++ {
						if m.B>>i&1 == 1 {
							bt := Bit(a.A[0], i)
							if b.B>>i&1 == 0 {
								bt = Not(bt)
							}
							r = And(r, bt)
						}
					}
					return r
				}
			}
		}
		if a.Op == OIte && b.Op == OBV {
			x, y := Eq(a.A[1], b), Eq(a.A[2], b)
			if isConstB(x) || isConstB(y) {
				return Ite(a.A[0], x, y)
			}
		}
	case "Str":
		if a.Op == OStr && b.Op == OStr {
			return tFalse
		}
	}
	return mk(&Term{Op: OEq, S: SBool, A: ord(a, b)})
}

func isConstB(t *Term) bool { return t == tTrue || t == tFalse }

func popcount(x uint64) int {
	n := 0
	for ; x != 0; x &= x - 1 {
		n++
	}
	return n
}

// ---------- arithmetic

var rOne = big.NewRat(1, 1)
var rZero = new(big.Rat)

type lin struct {
	k *big.Rat
	m map[*Term]*big.Rat
}

func toLin(t *Term) lin {
	l := lin{k: new(big.Rat), m: map[*Term]*big.Rat{}}
	l.add(t, rOne)
	return l
}

func (l *lin) add(t *Term, c *big.Rat) {
	switch t.Op {
	case ONum:
		l.k.Add(l.k, new(big.Rat).Mul(t.R, c))
	case OAdd:
		l.k.Add(l.k, new(big.Rat).Mul(t.R, c))
		for i, a := range t.A {
			l.addAtom(a, new(big.Rat).Mul(t.C[i], c))
		}
	default:
		l.addAtom(t, c)
	}
}

func (l *lin) addAtom(t *Term, c *big.Rat) {
	if o, ok := l.m[t]; ok {
		n := new(big.Rat).Add(o, c)
		if n.Sign() == 0 {
			delete(l.m, t)
		} else {
			l.m[t] = n
		}
		return
	}
	if c.Sign() != 0 {
		l.m[t] = new(big.Rat).Set(c)
	}
}

func (l lin) term(s *Sort) *Term {
	if len(l.m) == 0 {
		return Num(l.k, s)
	}
	var as []*Term
	for a := range l.m {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	if len(as) == 1 && l.k.Sign() == 0 && l.m[as[0]].Cmp(rOne) == 0 {
		return as[0]
	}
	cs := make([]*big.Rat, len(as))
	for i, a := range as {
		cs[i] = l.m[a]
	}
	return mk(&Term{Op: OAdd, S: s, A: as, C: cs, R: l.k})
}

func Add(a, b *Term) *Term {
	l := toLin(a)
	l.add(b, rOne)
	return l.term(a.S)
}
func Sub(a, b *Term) *Term {
	l := toLin(a)
	l.add(b, big.NewRat(-1, 1))
	return l.term(a.S)
}
func Neg(a *Term) *Term { return Scale(a, big.NewRat(-1, 1)) }
func Scale(a *Term, c *big.Rat) *Term {
	l := lin{k: new(big.Rat), m: map[*Term]*big.Rat{}}
	l.add(a, c)
	return l.term(a.S)
}

func factor(t *Term) (c *big.Rat, fs []*Term) {
	switch t.Op {
	case ONum:
		return t.R, nil
	case OMul:
		return rOne, t.A
	case OAdd:
		if len(t.A) == 1 && t.R.Sign() == 0 {
			_, f := factor(t.A[0])
			return t.C[0], f
		}
		// pull out the leading coefficient for canonicity
		lead := t.C[0]
		if lead.Cmp(rOne) != 0 && t.S == SReal {
			return lead, []*Term{Scale(t, new(big.Rat).Inv(lead))}
		}
	}
	return rOne, []*Term{t}
}

func scaledProd(t *Term) bool {
	return t.Op == OAdd && len(t.A) == 1 && t.R.Sign() == 0 && t.A[0].Op == OMul
}

func Mul(a, b *Term) *Term {
	if a.Op == ONum {
		return Scale(b, a.R)
	}
	if b.Op == ONum {
		return Scale(a, b.R)
	}
	ca, fa := factor(a)
	cb, fb := factor(b)
	fs := append(append([]*Term{}, fa...), fb...)
	sort.Slice(fs, func(i, j int) bool { return fs[i].ID < fs[j].ID })
	return Scale(mk(&Term{Op: OMul, S: a.S, A: fs}), new(big.Rat).Mul(ca, cb))
}

// Div on reals; the divisor is assumed non-zero by the caller (otherwise an unspecified real).
func Div(a, b *Term) *Term { return Mul(a, Inv(b)) }
func Inv(b *Term) *Term {
	if b.Op == ONum {
		if b.R.Sign() == 0 {
			return App("inv0", SReal)
		}
		return Num(new(big.Rat).Inv(b.R), SReal)
	}
	c, fs := factor(b)
	if len(fs) == 1 && fs[0].Op == OInv && false {
		return Scale(fs[0].A[0], new(big.Rat).Inv(c))
	}
	r := RealI(1)
	for _, f := range fs {
		r = Mul(r, mk(&Term{Op: OInv, S: SReal, A: []*Term{f}}))
	}
	return Scale(r, new(big.Rat).Inv(c))
}

func IDiv(a *Term, b int64) *Term { // Euclidean/floor by positive constant
	if b == 1 {
		return a
	}
	if a.Op == ONum {
		n := new(big.Int)
		m := new(big.Int)
		n.DivMod(a.R.Num(), big.NewInt(b), m)
		return Num(new(big.Rat).SetInt(n), SInt)
	}
	return mk(&Term{Op: OIDiv, S: SInt, A: []*Term{a}, N: int(b)})
}
func IMod(a *Term, b int64) *Term {
	return Sub(a, Scale(IDiv(a, b), new(big.Rat).SetInt64(b)))
}
func ToReal(a *Term) *Term {
	switch a.Op {
	case ONum:
		return Num(a.R, SReal)
	case OAdd:
		l := lin{k: new(big.Rat).Set(a.R), m: map[*Term]*big.Rat{}}
		for i, x := range a.A {
			l.add(ToReal(x), a.C[i])
		}
		return l.term(SReal)
	case OIte:
		return Ite(a.A[0], ToReal(a.A[1]), ToReal(a.A[2]))
	}
	return mk(&Term{Op: OToReal, S: SReal, A: []*Term{a}})
}
func Floor(a *Term) *Term {
	if a.Op == ONum {
		n := new(big.Int)
		m := new(big.Int)
		n.DivMod(a.R.Num(), a.R.Denom(), m)
		return Num(new(big.Rat).SetInt(n), SInt)
	}
	if a.Op == OToReal {
		return a.A[0]
	}
	if i := asInt(a); i != nil {
		return i
	}
	return mk(&Term{Op: OFloor, S: SInt, A: []*Term{a}})
}

// asInt: the integer term equal to a real term that is syntactically integral, or nil
func asInt(a *Term) *Term {
	switch a.Op {
	case ONum:
		if a.R.IsInt() {
			return Num(a.R, SInt)
		}
	case OToReal:
		return a.A[0]
	case OAdd:
		if !a.R.IsInt() {
			return nil
		}
		r := Num(a.R, SInt)
		for i, x := range a.A {
			xi := asInt(x)
			if xi == nil || !a.C[i].IsInt() {
				return nil
			}
			r = Add(r, Scale(xi, a.C[i]))
		}
		return r
	case OIte:
		if x := asInt(a.A[1]); x != nil {
			if y := asInt(a.A[2]); y != nil {
				return Ite(a.A[0], x, y)
			}
		}
	}
	return nil
}

// intSum: a real sum of integral terms as D*t = i + c with an integer term i and a rational c, or nil
func intSum(t *Term) (*Term, *big.Rat) {
	if t.S != SReal {
		return nil, nil
	}
	if t.Op == OToReal {
		return t.A[0], new(big.Rat)
	}
	if t.Op == OIte {
		if i := asInt(t); i != nil {
			return i, new(big.Rat)
		}
		return nil, nil
	}
	if t.Op != OAdd {
		return nil, nil
	}
	den := big.NewInt(1)
	for _, c := range t.C {
		den = lcm(den, c.Denom())
	}
	d := new(big.Rat).SetInt(den)
	r := Int(0)
	for i, x := range t.A {
		xi := asInt(x)
		if xi == nil {
			return nil, nil
		}
		r = Add(r, Scale(xi, new(big.Rat).Mul(t.C[i], d)))
	}
	return r, new(big.Rat).Mul(t.R, d)
}

func ratFloor(c *big.Rat) *big.Rat {
	n := new(big.Int)
	n.DivMod(c.Num(), c.Denom(), new(big.Int))
	return new(big.Rat).SetInt(n)
}

func canon0(t *Term, signed bool) *Term { // scale so that |leading coefficient| is 1 (Real) or coprime integers (Int)
	if t.Op == ONum {
		return t
	}
	if t.Op != OAdd {
		return t
	}
	var f *big.Rat
	if t.S == SReal {
		f = new(big.Rat).Abs(t.C[0])
		f.Inv(f)
	} else {
		den := big.NewInt(1)
		g := new(big.Int)
		for _, c := range t.C {
			den = lcm(den, c.Denom())
		}
		den = lcm(den, t.R.Denom())
		for _, c := range t.C {
			n := new(big.Rat).Mul(c, new(big.Rat).SetInt(den))
			g.GCD(nil, nil, g, new(big.Int).Abs(n.Num()))
		}
		n := new(big.Rat).Mul(t.R, new(big.Rat).SetInt(den))
		g.GCD(nil, nil, g, new(big.Int).Abs(n.Num()))
		if g.Sign() == 0 {
			g.SetInt64(1)
		}
		f = new(big.Rat).SetFrac(den, g)
	}
	if !signed && t.C[0].Sign() < 0 {
		f = new(big.Rat).Neg(f)
	}
	if f.Cmp(rOne) == 0 {
		return t
	}
	return Scale(t, f)
}
func lcm(a, b *big.Int) *big.Int {
	g := new(big.Int).GCD(nil, nil, a, b)
	r := new(big.Int).Div(a, g)
	return r.Mul(r, b)
}

func Eq0(t *Term) *Term {
	if s := signOf(t); s == 2 || s == -2 {
		return tFalse
	}
	if t.Op == ONum {
		return Bool(t.R.Sign() == 0)
	}
	if i, c := intSum(t); i != nil {
		if !c.IsInt() {
			return tFalse
		}
		return Eq0(Add(i, Num(c, SInt)))
	}
	t = canon0(t, false)
	return mk(&Term{Op: OEq0, S: SBool, A: []*Term{t}})
}

// lowB is a lower bound visible in the shape of a real term, or nil.
func lowB(t *Term, up bool) *big.Rat {
	switch t.Op {
	case ONum:
		return t.R
	case OIte:
		var c [2]*big.Rat
		for i := 0; i < 2; i++ {
			c[i] = lowB(t.A[1+i], up)
			if c[i] == nil && t.A[1+1-i].Op == ONum {
				// x where x is compared with the constant of the other branch
				x, n := t.A[1+i], t.A[1+1-i]
				g := Ge0b(Sub(x, n), !up)
				if i == 0 && g == t.A[0] || i == 1 && g == Not(t.A[0]) {
					c[i] = n.R
				}
			}
			if c[i] == nil {
				return nil
			}
		}
		if (c[0].Cmp(c[1]) < 0) == !up {
			return c[0]
		}
		return c[1]
	case OAdd:
		r := new(big.Rat).Set(t.R)
		for i, a := range t.A {
			b := lowB(a, up != (t.C[i].Sign() < 0))
			if b == nil {
				return nil
			}
			r.Add(r, new(big.Rat).Mul(t.C[i], b))
		}
		return r
	}
	return nil
}

func Ge0b(t *Term, ge bool) *Term {
	if !ge {
		t = Neg(t)
	}
	t = canon0(t, true)
	return mk(&Term{Op: OGe0, S: SBool, A: []*Term{t}})
}

// signOf: 1 when t >= 0 by its shape, 2 when t > 0, -1 and -2 likewise, 0 unknown
func signOf(t *Term) int {
	if t.S != SReal || (t.Op != OIte && t.Op != OAdd) {
		return 0
	}
	if s, ok := signTab[t]; ok {
		return s
	}
	s := 0
	if b := lowB(t, false); b != nil && b.Sign() >= 0 {
		s = 1 + b.Sign()
	} else if b := lowB(t, true); b != nil && b.Sign() <= 0 {
		s = -1 + b.Sign()
	}
	signTab[t] = s
	return s
}

var signTab = map[*Term]int{}

func Ge0(t *Term) *Term {
	switch s := signOf(t); {
	case s > 0:
		return tTrue
	case s == -2:
		return tFalse
	}
	if t.Op == ONum {
		return Bool(t.R.Sign() >= 0)
	}
	if t.Op == OIte {
		x, y := Ge0(t.A[1]), Ge0(t.A[2])
		if isConstB(x) || isConstB(y) {
			return Ite(t.A[0], x, y)
		}
	}
	if i, c := intSum(t); i != nil {
		return Ge0(Add(i, Num(ratFloor(c), SInt)))
	}
	t = canon0(t, true)
	return mk(&Term{Op: OGe0, S: SBool, A: []*Term{t}})
}
func Gt0(t *Term) *Term {
	switch s := signOf(t); {
	case s == 2:
		return tTrue
	case s < 0:
		return tFalse
	}
	if t.Op == ONum {
		return Bool(t.R.Sign() > 0)
	}
	if t.S == SInt {
		return Ge0(Sub(t, Int(1)))
	}
	if t.Op == OIte {
		x, y := Gt0(t.A[1]), Gt0(t.A[2])
		if isConstB(x) || isConstB(y) {
			return Ite(t.A[0], x, y)
		}
	}
	if i, c := intSum(t); i != nil { // i + c > 0: i >= 1 - ceil(c) + ... = i - (floor(-c)+1) >= 0
		n := ratFloor(new(big.Rat).Neg(c))
		return Ge0(Sub(i, Num(n.Add(n, rOne), SInt)))
	}
	t = canon0(t, true)
	return mk(&Term{Op: OGt0, S: SBool, A: []*Term{t}})
}
func Le(a, b *Term) *Term { return Ge0(Sub(b, a)) }
func Lt(a, b *Term) *Term { return Gt0(Sub(b, a)) }
func TMax(a, b *Term) *Term {
	return Ite(Le(a, b), b, a)
}
func TMin(a, b *Term) *Term { return Ite(Le(a, b), a, b) }

// ---------- arrays

// distinctIdx: certainly different (as far as memory is concerned: two nil slices do not matter)
func distinctIdx(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.lb > b.ub || b.lb > a.ub {
		return true
	}
	return Eq(a, b) == tFalse
}

func Select(a, i *Term) *Term {
	for {
		switch a.Op {
		case OStore:
			if a.A[1] == i {
				return a.A[2]
			}
			if distinctIdx(a.A[1], i) {
				a = a.A[0]
				continue
			}
		case OIte:
			x, y := Select(a.A[1], i), Select(a.A[2], i)
			return Ite(a.A[0], x, y)
		case OConstArr:
			return a.A[0]
		case OHArr:
			if i.ub < a.N {
				a = a.A[0]
				continue
			}
		}
		break
	}
	if i.Op == OIte && a.Op == OStore {
		// decide branchwise when the index is a choice between references
		x, y := Select(a, i.A[1]), Select(a, i.A[2])
		return Ite(i.A[0], x, y)
	}
	return mk(&Term{Op: OSelect, S: a.S.Elem, A: []*Term{a, i}})
}

func Store(a, i, v *Term) *Term {
	if v.Op == OSelect && v.A[0] == a && v.A[1] == i {
		return a
	}
	if a.Op == OStore {
		if a.A[1] == i {
			return Store(a.A[0], i, v)
		}
		// keep a canonical order of decided-distinct stores, and drop overwritten ones below
		if distinctIdx(a.A[1], i) {
			if hasStore(a.A[0], i, 12) || a.A[1].ID > i.ID {
				inner := Store(a.A[0], i, v)
				return mk(&Term{Op: OStore, S: a.S, A: []*Term{inner, a.A[1], a.A[2]}})
			}
		}
	}
	if Select(a, i) == v && a.Op != OIte {
		return a
	}
	return mk(&Term{Op: OStore, S: a.S, A: []*Term{a, i, v}})
}

func hasStore(a, i *Term, depth int) bool {
	for ; depth > 0 && a.Op == OStore; depth-- {
		if a.A[1] == i {
			return true
		}
		if !distinctIdx(a.A[1], i) {
			return false
		}
		a = a.A[0]
	}
	return false
}

// ---------- bit vectors

func Bit(x *Term, i int) *Term {
	switch x.Op {
	case OBV:
		return Bool(x.B>>uint(i)&1 == 1)
	case OBVAnd:
		return And(Bit(x.A[0], i), Bit(x.A[1], i))
	case OBVOr:
		return Or(Bit(x.A[0], i), Bit(x.A[1], i))
	case OBVXor:
		return Not(Eq(Bit(x.A[0], i), Bit(x.A[1], i)))
	case OBVNot:
		return Not(Bit(x.A[0], i))
	case OBVShl:
		if i-x.N < 0 {
			return tFalse
		}
		return Bit(x.A[0], i-x.N)
	case OBVShr: // arithmetic
		j := i + x.N
		if j > 63 {
			j = 63
		}
		return Bit(x.A[0], j)
	case OIte:
		return Ite(x.A[0], Bit(x.A[1], i), Bit(x.A[2], i))
	}
	return mk(&Term{Op: OBit, S: SBool, A: []*Term{x}, N: i})
}
func BVAnd(a, b *Term) *Term {
	if a.Op == OBV && b.Op == OBV {
		return BV(a.B & b.B)
	}
	if a.Op == OBV {
		a, b = b, a
	}
	if b.Op == OBV {
		if b.B == 0 {
			return b
		}
		if b.B == ^uint64(0) {
			return a
		}
		if a.Op == OBVAnd && a.A[1].Op == OBV {
			return BVAnd(a.A[0], BV(a.A[1].B&b.B))
		}
	}
	if a == b {
		return a
	}
	as := []*Term{a, b}
	if b.Op != OBV {
		as = ord(a, b)
	}
	return mk(&Term{Op: OBVAnd, S: SBV, A: as})
}
func BVOr(a, b *Term) *Term {
	if a.Op == OBV && b.Op == OBV {
		return BV(a.B | b.B)
	}
	if a.Op == OBV {
		a, b = b, a
	}
	if b.Op == OBV {
		if b.B == 0 {
			return a
		}
		if a.Op == OBVOr && a.A[1].Op == OBV {
			return BVOr(a.A[0], BV(a.A[1].B|b.B))
		}
	}
	if a == b {
		return a
	}
	as := []*Term{a, b}
	if b.Op != OBV {
		as = ord(a, b)
	}
	return mk(&Term{Op: OBVOr, S: SBV, A: as})
}
func BVXor(a, b *Term) *Term {
	if a.Op == OBV && b.Op == OBV {
		return BV(a.B ^ b.B)
	}
	return mk(&Term{Op: OBVXor, S: SBV, A: ord(a, b)})
}
func BVNot(a *Term) *Term {
	if a.Op == OBV {
		return BV(^a.B)
	}
	return mk(&Term{Op: OBVNot, S: SBV, A: []*Term{a}})
}
func BVShl(a *Term, n int) *Term {
	if a.Op == OBV {
		return BV(a.B << uint(n))
	}
	if n == 0 {
		return a
	}
	return mk(&Term{Op: OBVShl, S: SBV, A: []*Term{a}, N: n})
}
func BVShr(a *Term, n int) *Term {
	if a.Op == OBV {
		return BV(uint64(int64(a.B) >> uint(n)))
	}
	if n == 0 {
		return a
	}
	if a.Op == OBVShr {
		return BVShr(a.A[0], a.N+n)
	}
	return mk(&Term{Op: OBVShr, S: SBV, A: []*Term{a}, N: n})
}

// BVSGt0: x > 0 as signed
func BVSGt0(x *Term) *Term {
	nz := Not(Eq(x, BV(0)))
	if x.Op == OBVAnd && x.A[1].Op == OBV {
		m := x.A[1].B
		if m>>63 == 0 {
			r := tFalse
			for i := 0; i < 63; i++ {
				if m>>i&1 == 1 {
					r = Or(r, Bit(x.A[0], i))
				}
			}
			return r
		}
	}
	return And(nz, Not(Bit(x, 63)))
}

// ---------- quantifiers

func hasBV(t *Term, n int) bool {
	for _, b := range t.bvs {
		if b == n {
			return true
		}
	}
	return false
}
func Forall(bv *Term, body *Term) *Term {
	if !hasBV(body, bv.N) {
		return body
	}
	return mk(&Term{Op: OForall, S: SBool, A: []*Term{body}, N: bv.N, Name: bv.S.SMT()})
}
func Exists(bv *Term, body *Term) *Term {
	if !hasBV(body, bv.N) {
		return body
	}
	return mk(&Term{Op: OExists, S: SBool, A: []*Term{body}, N: bv.N, Name: bv.S.SMT()})
}

// Subst replaces terms (simultaneously) and re-simplifies.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.A) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		na := make([]*Term, len(t.A))
		ch := false
		for i, a := range t.A {
			na[i] = rec(a)
			ch = ch || na[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case OApp:
		return App(t.Name, t.S, a...)
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OEq:
		return Eq(a[0], a[1])
	case OEq0:
		return Eq0(a[0])
	case OGe0:
		return Ge0(a[0])
	case OGt0:
		return Gt0(a[0])
	case OAdd:
		l := lin{k: new(big.Rat).Set(t.R), m: map[*Term]*big.Rat{}}
		for i, x := range a {
			l.add(x, t.C[i])
		}
		return l.term(t.S)
	case OMul:
		r := a[0]
		for _, x := range a[1:] {
			r = Mul(r, x)
		}
		return r
	case OInv:
		return Inv(a[0])
	case OIDiv:
		return IDiv(a[0], int64(t.N))
	case OToReal:
		return ToReal(a[0])
	case OFloor:
		return Floor(a[0])
	case OSelect:
		return Select(a[0], a[1])
	case OStore:
		return Store(a[0], a[1], a[2])
	case OConstArr:
		return ConstArr(a[0])
	case OHArr:
		return mk(&Term{Op: OHArr, S: t.S, A: a, N: t.N, Name: t.Name, lb: t.lb, ub: t.ub})
	case OBit:
		return Bit(a[0], t.N)
	case OBVAnd:
		return BVAnd(a[0], a[1])
	case OBVOr:
		return BVOr(a[0], a[1])
	case OBVXor:
		return BVXor(a[0], a[1])
	case OBVNot:
		return BVNot(a[0])
	case OBVShl:
		return BVShl(a[0], t.N)
	case OBVShr:
		return BVShr(a[0], t.N)
	case OForall, OExists:
		return mk(&Term{Op: t.Op, S: SBool, A: a, N: t.N, Name: t.Name})
	}
	panic("rebuild")
}
