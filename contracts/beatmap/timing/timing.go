//go:build go1.21

package timing

// Contracts of the timing points (C06, C07, C08).
//
//verif:anyfloat timing.ControlPoint.beatLength timing.ControlPoint.beatLengthBase timing.ControlPoint.SampleVolume

import (
	"math"
	"sort"

	"github.com/Wieku/gosu-pp/verifvf"
)

// s_rest compares everything but the base beat length.
func s_rest(a, b ControlPoint) bool {
	return verifvf.Same(a.Time, b.Time) && verifvf.Same(a.beatLength, b.beatLength) && a.SampleSet == b.SampleSet &&
		a.SampleIndex == b.SampleIndex && verifvf.Same(a.SampleVolume, b.SampleVolume) && a.Signature == b.Signature &&
		a.Inherited == b.Inherited && a.Kiai == b.Kiai && a.OmitFirstBarLine == b.OmitFirstBarLine
}

func s_same(a, b ControlPoint) bool {
	return s_rest(a, b) && verifvf.Same(a.beatLengthBase, b.beatLengthBase)
}

func s_sorted(ps []ControlPoint) bool {
	return verifvf.Forall(0, len(ps), func(i int) bool {
		return verifvf.Forall(i+1, len(ps), func(j int) bool { return ps[i].Time <= ps[j].Time })
	})
}

// s_lookup: p is the last point not later than time, or the first when all are later.
func s_lookup(ps []ControlPoint, time float64, p ControlPoint) bool {
	n := len(ps)
	return verifvf.Forall(0, n, func(i int) bool {
		return !(ps[i].Time <= time && (i == n-1 || ps[i+1].Time > time)) || s_same(p, ps[i])
	}) && (!(ps[0].Time > time) || s_same(p, ps[0]))
}

func gen_points(r *verifvf.Rand) []ControlPoint {
	n := 1 + r.Intn(7)
	var ps []ControlPoint
	for i := 0; i < n; i++ {
		p := verifvf.Gen[ControlPoint](r)
		if r.Bool() {
			p.Time = float64(r.Intn(5))
		}
		if r.Intn(12) == 0 {
			p.beatLength = math.NaN()
		}
		ps = append(ps, p)
	}
	return ps
}

func gen_sortedPoints(r *verifvf.Rand) []ControlPoint {
	ps := gen_points(r)
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].Time < ps[j].Time })
	return ps
}

func gen_GetPointAt(r *verifvf.Rand) (*Timings, float64) {
	t := NewTimings()
	t.points = gen_sortedPoints(r)
	t.originalPoints = gen_sortedPoints(r)
	x := r.Float()
	if r.Bool() {
		x = t.points[r.Intn(len(t.points))].Time
	}
	if r.Intn(3) == 0 {
		x = t.originalPoints[r.Intn(len(t.originalPoints))].Time
	}
	return t, x
}
func gen_GetOriginalPointAt(r *verifvf.Rand) (*Timings, float64) { return gen_GetPointAt(r) }

// S_Ready: there are points, in order (C07).
func S_Ready(tim *Timings) bool {
	return len(tim.points) > 0 && s_sorted(tim.points)
}

// S_Gen is a random list of points with usual beat lengths, ready for use.
func S_Gen(r *verifvf.Rand) *Timings {
	t := NewTimings()
	t.SliderMult = []float64{1.4, 1, 2, 0.5, 0.4 + 3*r.Float64()}[r.Intn(5)]
	t.TickRate = []float64{1, 2, 0.5, 4, 0.5 + 4*r.Float64()}[r.Intn(5)]
	at := 0.0
	for i := 1 + r.Intn(4); i > 0; i-- {
		if len(t.points) > 0 && r.Bool() {
			b := -100.0
			if r.Bool() {
				b = -(20 + 300*r.Float64())
			}
			if r.Intn(8) == 0 {
				b = math.NaN()
			}
			t.AddPoint(at, b, 1, 1, 100, 4, true, false, false)
		} else {
			t.AddPoint(at, []float64{500, 300, 1000, 200 + 600*r.Float64()}[r.Intn(4)], 1, 1, 100, 4, false, false, false)
		}
		at += float64(r.Intn(1000))
	}
	t.FinalizePoints()
	return t
}

//verif:contract (*Timings).GetPointAt
//verif:nonfinite
//verif:prop C06
//verif:opaque
//verif:pure
func ctr_GetPointAt(tim *Timings, time float64) {
	verifvf.Requires(tim != nil && len(tim.points) > 0 && s_sorted(tim.points))
	verifvf.ModifiesNothing()
	p := tim.GetPointAt(time)
	verifvf.Ensures("the point in force is returned", s_lookup(tim.points, time, p))
}

//verif:contract (*Timings).GetOriginalPointAt
//verif:nonfinite
//verif:prop C06
func ctr_GetOriginalPointAt(tim *Timings, time float64) {
	verifvf.Requires(tim != nil && len(tim.originalPoints) > 0 && s_sorted(tim.originalPoints))
	verifvf.ModifiesNothing()
	p := tim.GetOriginalPointAt(time)
	verifvf.Ensures("the uninherited point in force is returned", s_lookup(tim.originalPoints, time, p))
}

// ---------- C07

func gen_FinalizePoints(r *verifvf.Rand) *Timings {
	t := NewTimings()
	t.points = gen_points(r)
	if r.Intn(3) == 0 { // finalised before
		t.originalPoints = gen_points(r)
	}
	return t
}

//verif:contract (*Timings).FinalizePoints
//verif:prop C07
func ctr_FinalizePoints(tim *Timings) {
	verifvf.Requires(tim != nil)
	n := len(tim.points)
	old := verifvf.Memo(n, func(i int) ControlPoint { return tim.points[i] })
	verifvf.SortOrder(n, func(i, j int) bool { return old(i).Time < old(j).Time })
	// keeps its own base beat length
	own := func(i int) bool { return i == 0 || !old(verifvf.SortFrom(i)).Inherited }
	done := func(i int) bool {
		p := tim.points[i]
		o := old(verifvf.SortFrom(i))
		if own(i) {
			return s_same(p, o)
		}
		return s_rest(p, o) && verifvf.Same(p.beatLengthBase, tim.points[i-1].beatLengthBase)
	}
	listed := func(k int) bool {
		return len(tim.originalPoints) == verifvf.Count(k, verifvf.Memo(n, own)) && verifvf.Forall(0, k, func(i int) bool {
			return !own(i) || s_same(tim.originalPoints[verifvf.Count(i, verifvf.Memo(n, own))], tim.points[i])
		})
	}
	verifvf.Invariant(func(k int) bool {
		return len(tim.points) == n && verifvf.Forall(k, n, func(i int) bool { return s_same(tim.points[i], old(verifvf.SortFrom(i))) })
	})
	verifvf.Invariant(func(k int) bool { return verifvf.Forall(0, k, done) })
	verifvf.Invariant(func(k int) bool {
		return verifvf.Forall(0, k, func(i int) bool {
			c := verifvf.Count(i, verifvf.Memo(n, own))
			return c >= 0 && (!own(i) || c < verifvf.Count(k, verifvf.Memo(n, own)))
		})
	})
	verifvf.Invariant(func(k int) bool { return listed(k) })
	tim.FinalizePoints()
	verifvf.Ensures("no point is added or dropped", len(tim.points) == n && verifvf.Forall(0, n, func(i int) bool {
		o := verifvf.SortFrom(i)
		return 0 <= o && o < n && verifvf.Forall(0, i, func(j int) bool { return verifvf.SortFrom(j) != o })
	}))
	verifvf.Ensures("points are ordered by time", s_sorted(tim.points))
	verifvf.Ensures("points at equal times keep their order", verifvf.Forall(0, n, func(i int) bool {
		return verifvf.Forall(i+1, n, func(j int) bool {
			return tim.points[i].Time < tim.points[j].Time || verifvf.SortFrom(i) < verifvf.SortFrom(j)
		})
	}))
	verifvf.Ensures("attributes are kept and inherited points take the base of their predecessor", verifvf.Forall(0, n, done))
	verifvf.Ensures("the uninherited list holds exactly the points with their own base", listed(n))
}

// ---------- C08 (control points)

func gen_GetRatio(r *verifvf.Rand) ControlPoint {
	p := verifvf.Gen[ControlPoint](r)
	switch r.Intn(6) {
	case 0:
		p.beatLength = math.NaN()
	case 1:
		p.beatLength = -10 * r.Float64()
	case 2:
		p.beatLength = -1000 - r.Float64()
	case 3:
		p.beatLength = -1000 * r.Float64()
	}
	return p
}

func s_ratio(b float64) float64 {
	if b < 0 {
		return math.Min(math.Max(-b/100, 0.1), 10)
	}
	return 1
}

//verif:contract ControlPoint.GetRatio
//verif:prop C08
func ctr_GetRatio(p ControlPoint) {
	r := p.GetRatio()
	verifvf.Ensures("the ratio is the clamped velocity multiplier", math.Abs(r-s_ratio(p.beatLength)) <= 1e-6)
	verifvf.Ensures("the ratio lies in 0.1..10", r >= 0.0999999 && r <= 10.000001)
	verifvf.Ensures("exact ratio", verifvf.Concrete() || r == s_ratio(p.beatLength))
}

func gen_Speed(r *verifvf.Rand) (*Timings, ControlPoint, float64) {
	t := NewTimings()
	t.SliderMult, t.TickRate = r.Pos(), r.Pos()
	p := gen_GetRatio(r)
	p.beatLengthBase = r.Pos()
	return t, p, r.Pos()
}

func s_close(a, b float64) bool {
	if verifvf.Concrete() {
		return math.Abs(a-b) <= 1e-5*(math.Abs(a)+math.Abs(b))
	}
	return a == b
}

//verif:lemma
//verif:prop C08
func ctr_Speed(tim *Timings, p ControlPoint, length float64) {
	verifvf.Requires(tim != nil && tim.SliderMult > 0 && tim.TickRate > 0)
	verifvf.Requires(verifvf.Fin(p.beatLengthBase) && p.beatLengthBase > 0 && length > 0)
	ratio := s_ratio(p.beatLength)
	beat := p.beatLengthBase * ratio
	verifvf.Ensures("effective beat length", s_close(p.GetBeatLength(), beat))
	verifvf.Ensures("base beat length", p.GetBaseBeatLength() == p.beatLengthBase)
	verifvf.Ensures("raw beat length", verifvf.Same(p.GetRawBeatLength(), p.beatLength))
	v := tim.GetVelocity(p)
	verifvf.Ensures("velocity", s_close(v, 100*tim.SliderMult*1000/beat))
	verifvf.Ensures("tick distance", s_close(tim.GetTickDistance(p), 100*tim.SliderMult/tim.TickRate/ratio))
	verifvf.Ensures("time of one traversal is length over velocity", s_close(tim.GetSliderTimeP(p, length), 1000*length/v))
}

//verif:contract (*Timings).AddPoint
//verif:prop C07
func ctr_AddPoint(tim *Timings, time, beatLength float64, sampleSet, sampleIndex int, sampleVolume float64, signature int, inherited, kiai, omit bool) {
	verifvf.Requires(tim != nil)
	n := len(tim.points)
	old := verifvf.Memo(n, func(i int) ControlPoint { return tim.points[i] })
	tim.AddPoint(time, beatLength, sampleSet, sampleIndex, sampleVolume, signature, inherited, kiai, omit)
	verifvf.Ensures("one point is appended", len(tim.points) == n+1 && verifvf.Forall(0, n, func(i int) bool { return s_same(tim.points[i], old(i)) }))
	p := tim.points[n]
	verifvf.Ensures("the point carries the given attributes", p.Time == time && p.beatLengthBase == beatLength && p.beatLength == beatLength &&
		p.SampleSet == sampleSet && p.SampleIndex == sampleIndex && p.SampleVolume == sampleVolume && p.Signature == signature &&
		p.Inherited == inherited && p.Kiai == kiai && p.OmitFirstBarLine == omit)
}
