//go:build go1.21

package curves

// Contracts of the curves (C11, C12).

import (
	"math"
	"math/big"

	"github.com/Wieku/gosu-pp/math/vector"
	"github.com/Wieku/gosu-pp/verifvf"
)

func gen_vec(r *verifvf.Rand) vector.Vector2f {
	switch r.Intn(5) {
	case 0:
		return vector.NewVec2f(float32(r.Intn(4))*10, float32(r.Intn(4))*10)
	case 1:
		return vector.NewVec2f(float32(r.Intn(513)), float32(r.Intn(385)))
	}
	return vector.NewVec2f(float32(r.Float64()*512), float32(r.Float64()*384))
}

func gen_points(r *verifvf.Rand, max int) []vector.Vector2f {
	p := []vector.Vector2f{gen_vec(r)}
	for i := r.Intn(max); i > 0; i-- {
		if r.Intn(6) == 0 {
			p = append(p, p[len(p)-1])
		} else {
			p = append(p, gen_vec(r))
		}
	}
	return p
}

func gen_type(r *verifvf.Rand) string { return []string{"B", "L", "P", "C", "P", "X"}[r.Intn(6)] }

// ---------- C12: primitives

func gen_Linear(r *verifvf.Rand) Linear { return NewLinear(gen_vec(r), gen_vec(r)) }

//verif:lemma
//verif:prop C12
func ctr_Linear(l Linear) {
	p, q := l.PointAt(0), l.PointAt(1)
	verifvf.Ensures("a line starts at its first point", p == l.Point1)
	verifvf.Ensures("a line ends at its second point", s_close(q, l.Point2))
}

// s_close: equal, up to float32 rounding in the concrete meaning.
func s_close(p, q vector.Vector2f) bool {
	if verifvf.Concrete() {
		d := math.Hypot(float64(p.X)-float64(q.X), float64(p.Y)-float64(q.Y))
		return d <= 1e-3*(1+math.Abs(float64(p.X))+math.Abs(float64(p.Y)))
	}
	return p == q
}

// s_eq: equal, up to float32 rounding in the concrete meaning.
func s_eq(p, q float64) bool {
	if verifvf.Concrete() {
		return math.Abs(p-q) <= 1e-3*(1+math.Abs(p))
	}
	return p == q
}

//verif:contract Linear.GetLength
//verif:prop C11
//verif:opaque
//verif:pure
func ctr_GetLength(l Linear) {
	verifvf.ModifiesNothing()
	d := l.GetLength()
	dx, dy := l.Point2.X-l.Point1.X, l.Point2.Y-l.Point1.Y
	verifvf.Ensures("a length is not negative", d >= 0)
	verifvf.Ensures("a point has no length", l.Point1 != l.Point2 || d == 0)
	verifvf.Ensures("a length is the distance of the end points", s_eq(float64(d*d), float64(dx*dx+dy*dy)))
}

func gen_GetLength(r *verifvf.Rand) Linear { return NewLinear(gen_vec(r), gen_vec(r)) }

//verif:contract Linear.PointAt
//verif:prop C11 C12
//verif:opaque
//verif:pure
func ctr_LinearAt(l Linear, t float32) {
	verifvf.ModifiesNothing()
	p := l.PointAt(t)
	verifvf.Ensures("the point divides the line", p.X == (l.Point2.X-l.Point1.X)*t+l.Point1.X && p.Y == (l.Point2.Y-l.Point1.Y)*t+l.Point1.Y)
	verifvf.Ensures("the point at 0 is the first point", t != 0 || p == l.Point1)
	verifvf.Ensures("the point at 1 is the second point", t != 1 || s_close(p, l.Point2))
	verifvf.Ensures("the part up to the point has that share of the length", t < 0 || s_eq(float64(NewLinear(l.Point1, p).GetLength()), float64(t*l.GetLength())))
}

func gen_LinearAt(r *verifvf.Rand) (Linear, float32) { return gen_Linear(r), float32(r.Float64() * 2) }

func gen_Catmull(r *verifvf.Rand) []vector.Vector2f {
	return []vector.Vector2f{gen_vec(r), gen_vec(r), gen_vec(r), gen_vec(r)}
}

//verif:lemma
//verif:prop C12
func ctr_Catmull(points []vector.Vector2f) {
	verifvf.Requires(len(points) == 4)
	c := Catmull{points: points}
	verifvf.Ensures("a Catmull-Rom piece starts at its second point", s_close(c.PointAt(0), points[1]))
	verifvf.Ensures("a Catmull-Rom piece ends at its third point", s_close(c.PointAt(1), points[2]))
}

func gen_Bezier(r *verifvf.Rand) *Bezier { return &Bezier{Points: gen_points(r, 12)} }

//verif:lemma
//verif:prop C12
func ctr_Bezier(b *Bezier) {
	verifvf.Requires(b != nil)
	n := len(b.Points)
	verifvf.Requires(n > 0)
	verifvf.Invariant(func(k int, p vector.Vector2f) bool { return k == 0 && p.X == 0 && p.Y == 0 || k > 0 && p == b.Points[0] })
	p := b.PointAt(0)
	verifvf.Ensures("a Bezier curve starts at its first point", s_close(p, b.Points[0]))
}

func gen_BezierEnd(r *verifvf.Rand) *Bezier { return gen_Bezier(r) }

//verif:lemma
//verif:prop C12
func ctr_BezierEnd(b *Bezier) {
	verifvf.Requires(b != nil)
	n := len(b.Points)
	verifvf.Requires(n > 0)
	verifvf.Invariant(func(k int, p vector.Vector2f) bool { return k < n && p.X == 0 && p.Y == 0 || k >= n && p == b.Points[n-1] })
	q := b.PointAt(1)
	verifvf.Ensures("a Bezier curve ends at its last point", s_close(q, b.Points[n-1]))
}

func gen_Binomial(r *verifvf.Rand) (int64, int64) { return int64(r.Intn(61)), int64(r.Intn(63)) - 1 }

//verif:contract BinomialCoefficient
//verif:prop C12
//verif:opaque
func ctr_Binomial(n, k int64) {
	verifvf.ModifiesNothing()
	c := BinomialCoefficient(n, k)
	verifvf.Ensures("no coefficients outside the triangle", k >= 0 && k <= n || c == 0)
	verifvf.Ensures("the edges of the triangle are 1", k != 0 && k != n || n < 0 || c == 1)
}

func gen_BinomialExact(r *verifvf.Rand) (int64, int64) {
	n := int64(r.Intn(61))
	return n, int64(r.Intn(int(n) + 1))
}

//verif:lemma
//verif:prop C12
//verif:bounded exactness of the interleaved division needs an induction over Pascal's triangle; all n up to 60 are compared with math/big (from 62 on 64-bit products overflow)
func ctr_BinomialExact(n, k int64) {
	verifvf.Ensures("the coefficient is exact", new(big.Int).Binomial(n, k).Cmp(big.NewInt(BinomialCoefficient(n, k))) == 0)
}

// ---------- C12: subdivision

func gen_Subdivide(r *verifvf.Rand) (*BezierApproximator, []vector.Vector2f, []vector.Vector2f, []vector.Vector2f) {
	p := gen_points(r, 9)
	a := NewBezierApproximator(p)
	rt := make([]vector.Vector2f, len(p))
	if r.Bool() {
		rt = a.subdivisionBuffer1
	}
	return a, p, a.subdivisionBuffer2, rt
}

//verif:contract (*BezierApproximator).Subdivide
//verif:prop C12
//verif:opaque
func ctr_Subdivide(a *BezierApproximator, cp, l, r []vector.Vector2f) {
	verifvf.Requires(a != nil)
	n := a.count
	verifvf.Requires(n >= 1)
	verifvf.Requires(len(cp) >= n && len(l) >= n && len(r) >= n)
	verifvf.Requires(len(a.subdivisionBuffer1) >= n)
	verifvf.Requires(verifvf.Apart(a.subdivisionBuffer1, l))
	verifvf.Requires(verifvf.Apart(a.subdivisionBuffer1, cp))
	verifvf.Requires(verifvf.Apart(l, r))
	verifvf.Requires(verifvf.Apart(l, cp))
	verifvf.Requires(verifvf.Apart(r, cp))
	verifvf.Requires(verifvf.Apart(r, a.subdivisionBuffer1))
	verifvf.ModifiesElems(a.subdivisionBuffer1)
	verifvf.ModifiesElems(l)
	verifvf.ModifiesElems(r)
	first, last := cp[0], cp[n-1]
	mid := a.subdivisionBuffer1
	verifvf.Invariant(func(k int) bool {
		return verifvf.Forall(0, k, func(i int) bool { return mid[i] == cp[i] })
	})
	verifvf.Invariant(func(k int) bool { return k > 0 || mid[0] == first && mid[n-1] == last })
	verifvf.Invariant(func(k int) bool { return k == 0 || l[0] == first })
	verifvf.Invariant(func(k int) bool { return k == 0 || r[n-1] == last })
	verifvf.Invariant(func(k int) bool { return k < n || l[n-1] == r[0] })
	a.Subdivide(cp, l, r)
	verifvf.Ensures("the left half starts where the curve does", l[0] == cp[0])
	verifvf.Ensures("the right half ends where the curve does", r[n-1] == cp[n-1])
	verifvf.Ensures("the halves share the split point", l[n-1] == r[0])
}

// ---------- C12: flattening

func gen_CreateBezier(r *verifvf.Rand) *BezierApproximator { return NewBezierApproximator(gen_points(r, 9)) }

//verif:contract (*BezierApproximator).CreateBezier
//verif:prop C12
//verif:bounded the stack of reused buffers needs an ownership argument over a list of slices (every buffer in either stack is distinct from every other one) that the verifier cannot carry through the loop
func ctr_CreateBezier(a *BezierApproximator) {
	verifvf.Requires(a != nil)
	n := a.count
	cp := a.controlPoints
	verifvf.Requires(n >= 1)
	verifvf.Requires(len(cp) == n)
	verifvf.Requires(len(a.subdivisionBuffer1) == n)
	verifvf.Requires(len(a.subdivisionBuffer2) == 2*n-1)
	verifvf.Requires(verifvf.Apart(a.subdivisionBuffer1, a.subdivisionBuffer2))
	verifvf.Requires(verifvf.Apart(a.subdivisionBuffer1, cp))
	verifvf.Requires(verifvf.Apart(a.subdivisionBuffer2, cp))
	verifvf.ModifiesElems(a.subdivisionBuffer1)
	verifvf.ModifiesElems(a.subdivisionBuffer2)
	first, last := cp[0], cp[n-1]
	o := a.CreateBezier()
	verifvf.Ensures("at least two points", len(o) >= 2)
	verifvf.Ensures("the flattened curve starts at the first control point", o[0] == first)
	verifvf.Ensures("the flattened curve ends at the last control point", o[len(o)-1] == last)
}

func s_joined(l []Linear) bool {
	return verifvf.Forall(0, len(l)-1, func(i int) bool { return l[i].Point2 == l[i+1].Point1 })
}

func gen_processLinear(r *verifvf.Rand) []vector.Vector2f { return gen_points(r, 8) }

//verif:contract processLinear
//verif:prop C12
//verif:fresh
//verif:opaque
func ctr_processLinear(points []vector.Vector2f) {
	n := len(points)
	verifvf.Requires(n > 0)
	verifvf.ModifiesNothing()
	verifvf.Invariant(func(k int, lines []Linear) bool { return len(lines) > 0 || points[k] == points[0] })
	verifvf.Invariant(func(k int, lines []Linear) bool { return len(lines) == 0 || lines[0].Point1 == points[0] })
	verifvf.Invariant(func(k int, lines []Linear) bool { return len(lines) == 0 || lines[len(lines)-1].Point2 == points[k] })
	verifvf.Invariant(func(k int, lines []Linear) bool { return s_joined(lines) })
	l := processLinear(points)
	verifvf.Ensures("no lines only when all points coincide with the first", len(l) > 0 || points[n-1] == points[0])
	verifvf.Ensures("the first line starts at the first point", len(l) == 0 || l[0].Point1 == points[0])
	verifvf.Ensures("the last line ends at the last point", len(l) == 0 || l[len(l)-1].Point2 == points[n-1])
	verifvf.Ensures("the lines join", s_joined(l))
}

func gen_ApproximateBezier(r *verifvf.Rand) []vector.Vector2f { return gen_points(r, 9) }

//verif:contract ApproximateBezier
//verif:prop C12
//verif:fresh
//verif:opaque
//verif:bounded rests on CreateBezier
func ctr_ApproximateBezier(points []vector.Vector2f) {
	n := len(points)
	verifvf.Requires(n > 0)
	verifvf.ModifiesNothing()
	l := ApproximateBezier(points)
	verifvf.Ensures("at least one line", len(l) > 0)
	verifvf.Ensures("the first line starts at the first control point", l[0].Point1 == points[0])
	verifvf.Ensures("the last line ends at the last control point", l[len(l)-1].Point2 == points[n-1])
	verifvf.Ensures("the lines join", s_joined(l))
}

func gen_processBezier(r *verifvf.Rand) []vector.Vector2f { return gen_points(r, 12) }

//verif:contract processBezier
//verif:prop C12
//verif:fresh
//verif:opaque
func ctr_processBezier(points []vector.Vector2f) {
	n := len(points)
	verifvf.Requires(n > 0)
	verifvf.ModifiesNothing()
	verifvf.Invariant(func(i, lastIndex int) bool { return 0 <= lastIndex && lastIndex <= i && lastIndex < n })
	verifvf.Invariant(func(i, lastIndex int) bool { return i < n || i == n && lastIndex == n-1 })
	verifvf.Invariant(func(i, lastIndex int, lines []Linear) bool { return len(lines) > 0 || lastIndex == 0 && i < n })
	verifvf.Invariant(func(lastIndex int, lines []Linear) bool { return len(lines) == 0 || lines[len(lines)-1].Point2 == points[lastIndex] })
	verifvf.Invariant(func(lines []Linear) bool { return len(lines) == 0 || lines[0].Point1 == points[0] })
	verifvf.Invariant(func(lines []Linear) bool { return s_joined(lines) })
	l := processBezier(points)
	verifvf.Ensures("at least one line", len(l) > 0)
	verifvf.Ensures("the first line starts at the first control point", l[0].Point1 == points[0])
	verifvf.Ensures("the last line ends at the last control point", l[len(l)-1].Point2 == points[n-1])
	verifvf.Ensures("the lines join", s_joined(l))
}

func gen_processCatmull(r *verifvf.Rand) []vector.Vector2f { return gen_points(r, 8) }

//verif:contract processCatmull
//verif:prop C12
//verif:fresh
//verif:opaque
func ctr_processCatmull(points []vector.Vector2f) {
	n := len(points)
	verifvf.Requires(n > 0)
	verifvf.ModifiesNothing()
	verifvf.Invariant(func(k int, lines []Linear) bool { return len(lines) > 0 || k == 0 })
	verifvf.Invariant(func(k int, lines []Linear) bool { return len(lines) == 0 || s_close(lines[0].Point1, points[0]) })
	verifvf.Invariant(func(k int, lines []Linear) bool { return len(lines) == 0 || s_close(lines[len(lines)-1].Point2, points[k]) })
	verifvf.Invariant(func(k int, lines []Linear) bool { return s_joinedClosely(lines) })
	l := processCatmull(points)
	verifvf.Ensures("lines for two points or more", len(l) > 0 || n == 1)
	verifvf.Ensures("the first line starts at the first point", n == 1 || s_close(l[0].Point1, points[0]))
	verifvf.Ensures("the last line ends at the last point", n == 1 || s_close(l[len(l)-1].Point2, points[n-1]))
	verifvf.Ensures("the lines join", s_joinedClosely(l))
}

func s_joinedClosely(l []Linear) bool {
	return verifvf.Forall(0, len(l)-1, func(i int) bool { return s_close(l[i].Point2, l[i+1].Point1) })
}

func gen_Arc(r *verifvf.Rand) (vector.Vector2f, vector.Vector2f, vector.Vector2f, float32) {
	return gen_vec(r), gen_vec(r), gen_vec(r), []float32{0.125, 0.01, 1}[r.Intn(3)]
}

//verif:contract ApproximateCircularArc
//verif:prop C12
//verif:fresh
//verif:opaque
//verif:allanyfloat
func ctr_Arc(a, b, c vector.Vector2f, detail float32) {
	verifvf.ModifiesNothing()
	verifvf.Invariant(func(k int, lines []Linear) bool { return len(lines) >= 1 && len(lines) <= 100000 })
	verifvf.Invariant(func(k int, lines []Linear, larc *CirArc) bool {
		return verifvf.Forall(0, k, func(i int) bool {
			return lines[i].Point1 == larc.PointAt(float32(i)/float32(len(lines))) && lines[i].Point2 == larc.PointAt(float32(i+1)/float32(len(lines)))
		})
	})
	l := ApproximateCircularArc(a, b, c, detail)
	verifvf.Ensures("at least one line", len(l) > 0)
	verifvf.Ensures("at most 100000 lines", len(l) <= 100000)
	verifvf.Ensures("the lines join", s_joined(l))
}

func gen_ArcEnds(r *verifvf.Rand) (vector.Vector2f, vector.Vector2f, vector.Vector2f) {
	return gen_vec(r), gen_vec(r), gen_vec(r)
}

//verif:lemma
//verif:prop C12
//verif:bounded rounding of sines, cosines and arc tangents; the end points are compared up to a thousandth of the radius
func ctr_ArcEnds(a, b, c vector.Vector2f) {
	area := math.Abs(float64((b.Y-a.Y)*(c.X-a.X) - (b.X-a.X)*(c.Y-a.Y)))
	arc := NewCirArc(a, b, c)
	verifvf.Requires(!arc.Unstable && area > 1 && arc.r < 10000)
	near := func(p, q vector.Vector2f) bool { return float64(p.Dst(q)) <= 0.01+float64(arc.r)*1e-3 }
	l := ApproximateCircularArc(a, b, c, 0.125)
	verifvf.Ensures("an arc starts at its first point", near(arc.PointAt(0), a) && near(l[0].Point1, a))
	verifvf.Ensures("an arc ends at its last point", near(arc.PointAt(1), c) && near(l[len(l)-1].Point2, c))
	mid := false
	for i := 0; i <= 1000; i++ {
		mid = mid || float64(arc.PointAt(float32(i)/1000).Dst(b)) <= 0.1+float64(arc.r*arc.totalAngle)/900
	}
	verifvf.Ensures("an arc passes its second point", mid)
}

func gen_processPerfect(r *verifvf.Rand) []vector.Vector2f { return gen_points(r, 5) }

//verif:contract processPerfect
//verif:prop C12
//verif:fresh
//verif:opaque
func ctr_processPerfect(points []vector.Vector2f) {
	n := len(points)
	verifvf.Requires(n > 0)
	verifvf.ModifiesNothing()
	l := processPerfect(points)
	verifvf.Ensures("the lines join", s_joined(l))
	verifvf.Ensures("no lines only when all points coincide", len(l) > 0 || points[n-1] == points[0])
	straight := n != 3 || vector.IsStraightLine32(points[0], points[1], points[2])
	verifvf.Ensures("a path that is no arc starts at the first point", !straight || len(l) == 0 || l[0].Point1 == points[0])
	verifvf.Ensures("a path that is no arc ends at the last point", !straight || len(l) == 0 || l[len(l)-1].Point2 == points[n-1])
}

func gen_ApproximateCatmullRom(r *verifvf.Rand) ([]vector.Vector2f, int) {
	return gen_Catmull(r), 1 + r.Intn(60)
}

//verif:contract ApproximateCatmullRom
//verif:prop C12
//verif:fresh
//verif:opaque
func ctr_ApproximateCatmullRom(points []vector.Vector2f, detail int) {
	verifvf.Requires(len(points) == 4)
	verifvf.Requires(detail >= 1 && detail <= 1000000)
	verifvf.ModifiesNothing()
	verifvf.Invariant(func(k int, lines []Linear) bool { return len(lines) == detail })
	c := Catmull{points: points}
	verifvf.Invariant(func(k int, lines []Linear) bool {
		return verifvf.Forall(0, k, func(i int) bool {
			return lines[i].Point1 == c.PointAt(float32(i)/float32(detail)) && lines[i].Point2 == c.PointAt(float32(i+1)/float32(detail))
		})
	})
	l := ApproximateCatmullRom(points, detail)
	verifvf.Ensures("as many lines as asked for", len(l) == detail)
	verifvf.Ensures("the first line starts at the second point", s_close(l[0].Point1, points[1]))
	verifvf.Ensures("the last line ends at the third point", s_close(l[detail-1].Point2, points[2]))
	verifvf.Ensures("the lines join", s_joined(l))
}

// ---------- C11: length and parametrisation

// s_valid: the sections of a curve are the lengths of its lines, added up.
func s_valid(c *MultiCurve) bool {
	n := len(c.lines)
	return len(c.sections) == n+1 && c.sections[0] == 0 && c.length == c.sections[n]
}

func s_sections(c *MultiCurve) bool {
	return verifvf.Forall(0, len(c.lines), func(i int) bool { return c.sections[i+1] == c.sections[i]+c.lines[i].GetLength() })
}

// s_path: what the lines of a path are, as far as C12 says.
func s_path(l []Linear, typ string, points []vector.Vector2f) bool {
	n, m := len(points), len(l)
	if typ != "L" && typ != "B" && typ != "P" && typ != "C" {
		return m == 0
	}
	if typ == "C" {
		return s_joinedClosely(l) && (n == 1 || m > 0 && s_close(l[0].Point1, points[0]) && s_close(l[m-1].Point2, points[n-1]))
	}
	if !s_joined(l) {
		return false
	}
	if m == 0 {
		return points[n-1] == points[0]
	}
	return typ == "P" && n == 3 || l[0].Point1 == points[0] && l[m-1].Point2 == points[n-1]
}

func gen_NewMultiCurve(r *verifvf.Rand) (string, []vector.Vector2f) { return gen_type(r), gen_points(r, 8) }

func gen_curve(r *verifvf.Rand) *MultiCurve {
	p := gen_points(r, 6)
	if r.Bool() {
		return NewMultiCurve(gen_type(r), p)
	}
	return NewMultiCurveT(gen_type(r), p, r.Float64()*600-50)
}

// S_Curve: what the constructors of curves ensure (for contracts of other packages).
func S_Curve(c *MultiCurve) bool {
	n := len(c.lines)
	return len(c.sections) == n+1 && c.sections[0] == 0 && c.length == c.sections[n] && c.length >= 0 &&
		verifvf.Forall(0, n, func(i int) bool { return c.sections[i] <= c.sections[i+1] }) &&
		verifvf.Forall(0, n+1, func(i int) bool { return 0 <= c.sections[i] }) &&
		verifvf.Forall(0, n, func(i int) bool { return c.sections[i] <= c.sections[n-1] })
}

func S_GenCurve(r *verifvf.Rand) *MultiCurve { return gen_curve(r) }

func gen_PointAt(r *verifvf.Rand) (*MultiCurve, float32) {
	return gen_curve(r), []float32{0, 1, -1, 2, 0.5, float32(r.Float64()), float32(r.Float64()*3 - 1)}[r.Intn(7)]
}

//verif:contract (*MultiCurve).PointAt
//verif:prop C11
//verif:opaque
//verif:pure
func ctr_PointAt(c *MultiCurve, t float32) {
	verifvf.Requires(c != nil)
	n := len(c.lines)
	verifvf.Requires(len(c.sections) == n+1)
	verifvf.Requires(c.sections[0] == 0)
	verifvf.Requires(c.length == c.sections[n])
	verifvf.Requires(c.length >= 0)
	verifvf.Requires(verifvf.Forall(0, n, func(i int) bool { return c.sections[i] <= c.sections[i+1] }))
	verifvf.Requires(verifvf.Forall(0, n+1, func(i int) bool { return 0 <= c.sections[i] }))
	verifvf.Requires(verifvf.Forall(0, n, func(i int) bool { return c.sections[i] <= c.sections[n-1] }))
	verifvf.ModifiesNothing()
	p := c.PointAt(t)
	w := c.length * float32(math.Min(1, math.Max(0, float64(t))))
	verifvf.Ensures("an empty path is its first point", n != 0 && c.length != 0 || p == c.firstPoint)
	verifvf.Ensures("the point lies on the segment containing the distance travelled, as far along it", n == 0 || c.length == 0 ||
		verifvf.Exists(0, n, func(j int) bool {
			d := c.sections[j+1] - c.sections[j]
			return c.sections[j] <= w && w <= c.sections[j+1] &&
				(d > 0 && p == c.lines[j].PointAt((w-c.sections[j])/d) || d == 0 && p == c.lines[j].Point1)
		}))
	verifvf.Ensures("the path starts at its first line", n == 0 || c.length == 0 || t > 0 || p == c.lines[0].Point1)
	verifvf.Ensures("the path ends at the end of its last line, if that is not empty", n == 0 || c.length == 0 || t < 1 || c.sections[n-1] == c.sections[n] ||
		s_close(p, c.lines[n-1].Point2))
}

//verif:contract NewMultiCurve
//verif:prop C11
//verif:fresh
//verif:opaque
func ctr_NewMultiCurve(typ string, points []vector.Vector2f) {
	verifvf.Requires(len(points) > 0)
	verifvf.ModifiesNothing()
	verifvf.Invariant(func(k int, prev float32, lines []Linear) bool {
		return float64(prev) == verifvf.Sum(k, verifvf.Memo(len(lines), func(i int) float64 { return float64(lines[i].GetLength()) }))
	})
	verifvf.Invariant(func(k int, length float32, lines []Linear) bool {
		return float64(length) == verifvf.Sum(k, verifvf.Memo(len(lines), func(i int) float64 { return float64(lines[i].GetLength()) }))
	})
	verifvf.Invariant(func(k int, lsections []float32, prev float32) bool { return lsections[0] == 0 && lsections[k] == prev })
	verifvf.Invariant(func(k int, lsections []float32, lines []Linear) bool {
		return verifvf.Forall(0, k, func(i int) bool { return lsections[i+1] == lsections[i]+lines[i].GetLength() })
	})
	verifvf.Invariant(func(k int, lsections []float32) bool {
		return verifvf.Forall(0, k+1, func(i int) bool { return 0 <= lsections[i] })
	})
	verifvf.Invariant(func(k int, lsections []float32, prev float32) bool {
		return verifvf.Forall(0, k+1, func(i int) bool { return lsections[i] <= prev })
	})
	verifvf.Invariant(func(k int, lsections []float32) bool {
		return k == 0 || verifvf.Forall(0, k, func(i int) bool { return lsections[i] <= lsections[k-1] })
	})
	c := NewMultiCurve(typ, points)
	n := len(c.lines)
	verifvf.Ensures("there is a curve", c != nil)
	verifvf.Ensures("a curve remembers its first point", c.firstPoint == points[0])
	verifvf.Ensures("one section per line", len(c.sections) == n+1 && c.sections[0] == 0)
	verifvf.Ensures("the sections add the line lengths up", s_sections(c))
	verifvf.Ensures("the length is the total", c.length == c.sections[n])
	verifvf.Ensures("the length is the sum over the lines", s_eq(float64(c.length), verifvf.Sum(n, verifvf.Memo(n, func(i int) float64 { return float64(c.lines[i].GetLength()) }))))
	verifvf.Ensures("the lines are not shared", verifvf.Fresh(c.lines))
	verifvf.Ensures("the length is not negative", c.length >= 0)
	verifvf.Ensures("sections are not negative", verifvf.Forall(0, n+1, func(i int) bool { return 0 <= c.sections[i] }))
	verifvf.Ensures("sections are at most the length", verifvf.Forall(0, n+1, func(i int) bool { return c.sections[i] <= c.length }))
	verifvf.Ensures("the last section is the longest", verifvf.Forall(0, n, func(i int) bool { return c.sections[i] <= c.sections[n-1] }))
	verifvf.Ensures("sections do not decrease", verifvf.Forall(0, n, func(i int) bool { return c.sections[i] <= c.sections[i+1] }))
	verifvf.Ensures("the lines are those of the path type", s_path(c.lines, typ, points))
}

func gen_NewMultiCurveT(r *verifvf.Rand) (string, []vector.Vector2f, float64) {
	return gen_type(r), gen_points(r, 7), []float64{0, -5, 1e-5, 100, 1000, r.Float64() * 300}[r.Intn(6)]
}

//verif:contract NewMultiCurveT
//verif:prop C11
//verif:fresh
//verif:opaque
func ctr_NewMultiCurveT(typ string, points []vector.Vector2f, desired float64) {
	verifvf.Requires(len(points) > 0)
	verifvf.ModifiesNothing()
	verifvf.Invariant(func(diff float64, lmCurve *MultiCurve) bool {
		return diff == verifvf.Sum(len(lmCurve.lines), verifvf.Memo(len(lmCurve.lines), func(i int) float64 { return float64(lmCurve.lines[i].GetLength()) }))-desired
	})
	verifvf.Invariant(func(k int, diff float64) bool { return k == 0 || diff >= -minPartWidth })
	verifvf.Invariant(func(k int, prev float32, lmCurve *MultiCurve) bool {
		return float64(prev) == verifvf.Sum(k, verifvf.Memo(len(lmCurve.lines), func(i int) float64 { return float64(lmCurve.lines[i].GetLength()) }))
	})
	verifvf.Invariant(func(k int, lmCurve *MultiCurve) bool {
		return float64(lmCurve.length) == verifvf.Sum(k, verifvf.Memo(len(lmCurve.lines), func(i int) float64 { return float64(lmCurve.lines[i].GetLength()) }))
	})
	verifvf.Invariant(func(k int, lsections []float32, prev float32) bool { return lsections[0] == 0 && lsections[k] == prev })
	verifvf.Invariant(func(k int, lmCurve *MultiCurve, lsections []float32) bool {
		return verifvf.Forall(0, k, func(i int) bool { return lsections[i+1] == lsections[i]+lmCurve.lines[i].GetLength() })
	})
	verifvf.Invariant(func(k int, lsections []float32) bool {
		return verifvf.Forall(0, k+1, func(i int) bool { return 0 <= lsections[i] })
	})
	verifvf.Invariant(func(k int, lsections []float32, prev float32) bool {
		return verifvf.Forall(0, k+1, func(i int) bool { return lsections[i] <= prev })
	})
	verifvf.Invariant(func(k int, lsections []float32) bool {
		return k == 0 || verifvf.Forall(0, k, func(i int) bool { return lsections[i] <= lsections[k-1] })
	})
	c := NewMultiCurveT(typ, points, desired)
	n := len(c.lines)
	verifvf.Ensures("there is a curve", c != nil)
	verifvf.Ensures("a curve remembers its first point", c.firstPoint == points[0])
	verifvf.Ensures("one section per line", len(c.sections) == n+1 && c.sections[0] == 0)
	verifvf.Ensures("the sections add the line lengths up", s_sections(c))
	verifvf.Ensures("the length is the total", c.length == c.sections[n])
	verifvf.Ensures("the length is not negative", c.length >= 0)
	verifvf.Ensures("sections are not negative", verifvf.Forall(0, n+1, func(i int) bool { return 0 <= c.sections[i] }))
	verifvf.Ensures("sections are at most the length", verifvf.Forall(0, n+1, func(i int) bool { return c.sections[i] <= c.length }))
	verifvf.Ensures("the last section is the longest", verifvf.Forall(0, n, func(i int) bool { return c.sections[i] <= c.sections[n-1] }))
	verifvf.Ensures("sections do not decrease", verifvf.Forall(0, n, func(i int) bool { return c.sections[i] <= c.sections[i+1] }))
	verifvf.Assert("the total ends with the last line", n == 0 || s_eq(float64(c.length), float64(c.sections[n-1]+c.lines[n-1].GetLength())))
	verifvf.Assert("the last section is not negative", n == 0 || c.sections[n-1] >= 0)
	verifvf.Ensures("a path is cut or extended to the length asked for, unless its last line is a point",
		n == 0 || c.lines[n-1].GetLength() == 0 || s_len(c, typ, points, desired))
	verifvf.Ensures("a path of more than one point keeps a line, unless it is to have no length",
		n > 0 || desired <= minPartWidth || s_rounded(typ, points, desired) || !s_known(typ) || points[len(points)-1] == points[0])
}

func s_known(typ string) bool { return typ == "L" || typ == "B" || typ == "P" || typ == "C" }

// s_rounded: a length below the rounding of the 32-bit length of a long path, where no line may be left (native runs only).
func s_rounded(typ string, points []vector.Vector2f, desired float64) bool {
	return verifvf.Concrete() && desired <= 1e-3*(1+float64(NewMultiCurve(typ, points).length))
}

func s_len(c *MultiCurve, typ string, points []vector.Vector2f, desired float64) bool {
	if verifvf.Concrete() {
		return math.Abs(float64(c.length)-desired) <= 1e-3*(1+math.Abs(desired)+float64(NewMultiCurve(typ, points).length))
	}
	return float64(c.length) == desired
}
