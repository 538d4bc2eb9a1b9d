//go:build go1.21

package objects

// Contracts of the hit objects (C09, C10, C16).

import (
	"fmt"
	"math"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap/timing"
	"github.com/Wieku/gosu-pp/math/curves"
	"github.com/Wieku/gosu-pp/math/vector"
	"github.com/Wieku/gosu-pp/verifvf"
)

//verif:fnspec objects.HitObject.PositionDelegate
//verif:lemma
func ctr_positionDelegate(h *HitObject, f func(time float64) vector.Vector2f, time float64) {
	verifvf.ModifiesNothing()
	f(time)
	verifvf.Ensures("a position is returned", true)
}

// gen_slider is a random slider, as parsed.
func gen_slider(r *verifvf.Rand) *Slider {
	x, y := r.Coord(512), r.Coord(384)
	l := []string{"100", "70", "140.5", "35", "0", "210", "-5"}[r.Intn(7)]
	if r.Bool() {
		l = fmt.Sprintf("%.3f", 10+400*r.Float64())
	}
	rep := 1
	if r.Bool() {
		rep = r.Intn(6)
	}
	line := fmt.Sprintf("%d,%d,%d,2,0,%s,%d,%s", x, y, r.Intn(2000), r.SliderPath(x, y), rep, l)
	return NewSlider(strings.Split(line, ","))
}

func gen_timedSlider(r *verifvf.Rand) *Slider {
	s := gen_slider(r)
	s.SetTiming(timing.S_Gen(r))
	return s
}

// s_wave: 0 at 0, 1 at 1, 0 at 2, ..., linear in between.
func s_wave(x float64) float64 {
	n := math.Floor(x)
	if n == 2*math.Floor(n/2) {
		return x - n
	}
	return n + 1 - x
}

//verif:contract s_wave
//verif:prop C10
//verif:opaque
//verif:pure
func ctr_wave(x float64) {
	verifvf.Requires(x >= 0)
	verifvf.ModifiesNothing()
	m := math.Mod(x, 2)
	w := s_wave(x)
	verifvf.Ensures("the wave goes up in even spans and down in odd ones", s_near(w, m) && m < 1 || s_near(w, 2-m) && m >= 1)
	whole := x == math.Floor(x)
	k := int64(math.Floor(x))
	verifvf.Ensures("the wave at whole numbers", !whole || x > 10000 || w == float64(k%2))
	verifvf.Ensures("the wave stays in range", w >= 0 && w <= 1)
}

func gen_wave(r *verifvf.Rand) float64 { return r.Float64() * 20 }

func s_near(a, b float64) bool {
	if verifvf.Concrete() {
		return math.Abs(a-b) <= 1e-6*(1+math.Abs(a))
	}
	return a == b
}

func s_closeTo(p, q vector.Vector2f) bool {
	if verifvf.Concrete() {
		return p.Dst(q) <= 0.1
	}
	return p == q
}

func gen_PositionAt(r *verifvf.Rand) (*Slider, float64) {
	s := gen_timedSlider(r)
	t := s.StartTime + (s.EndTime-s.StartTime)*(3*r.Float64()-1)
	switch r.Intn(5) {
	case 0:
		t = s.StartTime
	case 1:
		t = s.EndTime
	case 2:
		t = s.StartTime + float64(r.Intn(5))*s.spanDuration
	}
	return s, t
}

//verif:contract (*Slider).PositionAt
//verif:prop C10
//verif:opaque
//verif:pure
func ctr_PositionAt(s *Slider, time float64) {
	verifvf.Requires(s != nil && s.HitObject != nil && s.multiCurve != nil)
	verifvf.Requires(curves.S_Curve(s.multiCurve))
	verifvf.Requires(s.StartTime <= s.EndTime)
	verifvf.Requires(s.StartTime == s.EndTime || s.spanDuration > 0)
	verifvf.ModifiesNothing()
	none := s.StartTime == s.EndTime
	x := (math.Min(s.EndTime, math.Max(s.StartTime, time)) - s.StartTime) / s.spanDuration
	verifvf.Assert("time does not run backwards", none || x >= 0)
	want, first := s.StartPosRaw, s.StartPosRaw
	if !none {
		want, first = s.multiCurve.PointAt(float32(s_wave(x))), s.multiCurve.PointAt(0)
	}
	p := s.PositionAt(time)
	verifvf.Ensures("a slider of no duration stays at its start", !none || p == s.StartPosRaw)
	verifvf.Ensures("the ball runs along the path and back, span by span", none || s_closeTo(p, want))
	verifvf.Ensures("until the start the ball is at the path start", none || time > s.StartTime || p == first)
}

// ---------- C09, C10: timing

func gen_SetTiming(r *verifvf.Rand) (*Slider, *timing.Timings) {
	s := gen_slider(r)
	if r.Intn(3) == 0 { // timed before
		for i := r.Intn(4); i >= 0; i-- {
			s.ScorePoints = append(s.ScorePoints, TickPoint{Time: s.StartTime + 100*r.Float64(), IsReverse: r.Intn(2) == 0})
		}
	}
	return s, timing.S_Gen(r)
}

// s_ticks: the number of ticks of a span of the given path length.
func s_ticks(length, tick, margin float64) int {
	if tick <= 0 {
		return 0
	}
	return int(math.Max(0, math.Ceil((length-margin)/tick)-1))
}

//verif:contract (*Slider).SetTiming
//verif:prop C09 C10
func ctr_SetTiming(s *Slider, tim *timing.Timings) {
	verifvf.Requires(s != nil && s.HitObject != nil && s.multiCurve != nil && tim != nil)
	verifvf.Requires(curves.S_Curve(s.multiCurve))
	verifvf.Requires(timing.S_Ready(tim))
	r := s.RepeatCount
	verifvf.Requires(r >= 1 && r <= maxRepeats)
	p := tim.GetPointAt(s.StartTime)
	v := tim.GetVelocity(p)
	verifvf.Requires(verifvf.Fin(v) && v > 0)
	verifvf.Requires(verifvf.Fin(p.GetRawBeatLength()))
	tick := tim.GetTickDistance(p)
	verifvf.Requires(verifvf.Fin(tick) && tick > 0)
	l := float64(s.multiCurve.GetLength())
	if l > 0 && tick > s.pixelLength {
		tick = s.pixelLength
	}
	start := s.StartTime
	n := s_ticks(l, tick, v*0.01)
	verifvf.Invariant(func(d float64) bool { return d > 0 })
	verifvf.Invariant(func(k int, d float64) bool { return d == float64(k+1)*tick })
	verifvf.Invariant(func(k int) bool { return k <= n })
	verifvf.Invariant(func(k, k1 int) bool { return len(s.ScorePoints) == k1*(n+1)+k })
	verifvf.Invariant(func(k int, span int) bool { return k <= int(r) })
	verifvf.Invariant(func(k int, span int) bool { return len(s.ScorePoints) == k*(n+1) })
	verifvf.Invariant(func(k int, span int) bool {
		return verifvf.Forall(0, len(s.ScorePoints), func(i int) bool { return s.ScorePoints[i].Time >= start })
	})
	verifvf.Invariant(func(d float64, k int) bool {
		return verifvf.Forall(0, len(s.ScorePoints), func(i int) bool { return s.ScorePoints[i].Time >= start })
	})
	s.SetTiming(tim)
	verifvf.Ensures("a span takes the time the path takes at the velocity", s_near(s.spanDuration, l*1000/v))
	verifvf.Ensures("a slider lasts as long as its spans", s_near(s.EndTime, start+l*1000*float64(r)/v))
	verifvf.Ensures("every span has as many ticks, and every span ends with a point", len(s.ScorePoints) == int(r)*(n+1))
	verifvf.Ensures("no point comes before the start", verifvf.Forall(0, len(s.ScorePoints), func(i int) bool { return s.ScorePoints[i].Time >= start }))
	verifvf.Ensures("the points are in order of time", verifvf.Forall(1, len(s.ScorePoints), func(i int) bool { return s.ScorePoints[i-1].Time <= s.ScorePoints[i].Time }))
	none := s.StartTime == s.EndTime
	verifvf.Assert("the end is so many spans after the start", s_near(s.EndTime-s.StartTime, float64(r)*s.spanDuration))
	verifvf.Assert("spans are no shorter than nothing", s.spanDuration >= 0)
	x := (math.Min(s.EndTime, math.Max(s.StartTime, s.EndTime)) - s.StartTime) / s.spanDuration
	verifvf.Assert("the end is a whole number of spans away", none || s_near(x, float64(r)))
	m := 1.0
	if r%2 == 0 {
		m = 0
	}
	verifvf.Assert("the wave at the end", s_wave(float64(r)) == m)
	verifvf.Ensures("an odd number of spans ends at the path end and an even number at the path start", none || s_closeTo(s.EndPosRaw, s.multiCurve.PointAt(float32(m))))
	verifvf.Ensures("the start time stays", s.StartTime == start)
}

// s_points: the scoring points of a slider from the words of C09, in order.
func s_points(start, span, length, tick, velocity float64, r int) (times []float64, reverses int) {
	end := start + span*float64(r)
	for i := 0; i < r; i++ {
		var ticks []float64
		for k := 1; tick > 0 && span > 0; k++ {
			at := float64(k) * tick // where on the path
			if (length-at)/velocity*1000 <= 10 {
				break
			}
			off := at / length * span
			if i%2 == 1 {
				off = span - off
			}
			ticks = append(ticks, start+float64(i)*span+off)
		}
		if i%2 == 1 {
			for a, b := 0, len(ticks)-1; a < b; a, b = a+1, b-1 {
				ticks[a], ticks[b] = ticks[b], ticks[a]
			}
		}
		times = append(times, ticks...)
		if i < r-1 {
			times = append(times, start+float64(i+1)*span)
			reverses++
		} else {
			last := math.Max(start+(end-start)/2, end-36)
			at := len(times)
			for at > 0 && times[at-1] > last {
				at--
			}
			times = append(times[:at], append([]float64{last}, times[at:]...)...)
		}
	}
	return
}

// The exact times and the kinds of the points, which the proof above leaves out.
//
//verif:contract (*Slider).SetTiming
//verif:prop C09
//verif:bounded the exact times after the sort; random sliders, repeats and timings
func ctr_SetTimingExact(s *Slider, tim *timing.Timings) {
	verifvf.Requires(s != nil && s.HitObject != nil && s.multiCurve != nil && tim != nil)
	p := tim.GetPointAt(s.StartTime)
	v := tim.GetVelocity(p)
	l := float64(s.multiCurve.GetLength())
	r := int(s.RepeatCount)
	nan := math.IsNaN(p.GetRawBeatLength())
	verifvf.Requires(r >= 1 && r <= maxRepeats)
	verifvf.Requires(v > 0 && !math.IsInf(v, 0))
	tick := tim.GetTickDistance(p)
	if l > 0 && tick > s.pixelLength {
		tick = s.pixelLength
	}
	if nan || l <= 0 {
		tick = 0
	}
	verifvf.Requires(tick <= 0 || l/tick < 10000)
	// Not at the exact edge of the last 10 ms, where rounding decides.
	edge := math.Mod(l-v*0.01, tick)
	verifvf.Requires(tick <= 0 || edge > 1e-6*(1+l) && tick-edge > 1e-6*(1+l))
	want, reverses := s_points(s.StartTime, l*1000/v, l, tick, v, r)
	s.SetTiming(tim)
	verifvf.Ensures("as many points as the spans call for", len(s.ScorePoints) == len(want))
	rev := 0
	same := true
	inside := true
	for i, q := range s.ScorePoints {
		if q.IsReverse {
			rev++
		}
		eps := 1e-6 * (1 + math.Abs(q.Time))
		same = same && i < len(want) && math.Abs(q.Time-want[i]) <= eps
		inside = inside && q.Time >= s.StartTime-eps && q.Time <= s.EndTime+eps
	}
	verifvf.Ensures("one reverse point at the end of each span but the last", rev == reverses)
	verifvf.Ensures("the points are where the spans put them", same)
	verifvf.Ensures("the points are inside the slider", inside)
}

func gen_SetTimingExact(r *verifvf.Rand) (*Slider, *timing.Timings) { return gen_SetTiming(r) }
