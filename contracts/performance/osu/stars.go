//go:build go1.21

package osu

// Contracts of the star rating formula (C26).

import (
	"math"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/verifvf"
)

type s_raw struct{ aim, noSliders, speed, flashlight float64 }

func s_rawOK(v s_raw) bool { return v.aim >= 0 && v.noSliders >= 0 && v.speed >= 0 && v.flashlight >= 0 }

func gen_raw(r *verifvf.Rand) s_raw {
	f := func() float64 {
		switch r.Intn(6) {
		case 0:
			return 0
		case 1:
			return r.Float64() * 1e-7
		}
		return r.Float64() * 20000
	}
	return s_raw{f(), f(), f(), f()}
}

func s_stars(v s_raw, d *difficulty.Difficulty, a Attributes) Attributes {
	return getStarsFromRawValues(v.aim, v.noSliders, v.speed, v.flashlight, d, a)
}

func gen_Stars(r *verifvf.Rand) (s_raw, *difficulty.Difficulty, Attributes) {
	return gen_raw(r), gen_diff(r), gen_attr(r)
}

//verif:lemma
//verif:prop C26
//verif:eagerfin
func ctr_Stars(v s_raw, d *difficulty.Difficulty, a Attributes) {
	verifvf.Requires(d != nil && s_rawOK(v))
	relax := d.CheckModActive(difficulty.Relax)
	r := s_stars(v, d, a)
	verifvf.Ensures("aim rating", s_near(r.Aim, 0.0675*math.Sqrt(v.aim)))
	if relax {
		verifvf.Ensures("no speed rating under Relax", r.Speed == 0)
	} else {
		verifvf.Ensures("speed rating", s_near(r.Speed, 0.0675*math.Sqrt(v.speed)))
	}
	verifvf.Ensures("flashlight rating", s_near(r.Flashlight, 0.0675*math.Sqrt(v.flashlight)))
	if r.Aim > 0.00001 {
		verifvf.Ensures("slider factor", s_near(r.SliderFactor, 0.0675*math.Sqrt(v.noSliders)/r.Aim))
		verifvf.Ensures("slider factor is finite", verifvf.Fin(r.SliderFactor))
		if v.noSliders <= v.aim {
			verifvf.Ensures("slider factor is at most 1 when sliders do not lower the aim", r.SliderFactor <= 1.0000001 && (verifvf.Concrete() || r.SliderFactor <= 1))
		}
	} else {
		verifvf.Ensures("slider factor is 1 without aim", r.SliderFactor == 1)
	}
	verifvf.Ensures("ratings are not negative", r.Aim >= 0 && r.Speed >= 0 && r.Flashlight >= 0 && r.SliderFactor >= 0)
	verifvf.Ensures("the total is finite", verifvf.Fin(r.Total))
	verifvf.Ensures("the total is not negative", r.Total >= 0)
	verifvf.Ensures("the object counts are kept", r.ObjectCount == a.ObjectCount && r.Circles == a.Circles && r.Sliders == a.Sliders &&
		r.Spinners == a.Spinners && r.MaxCombo == a.MaxCombo)
}

func s_base(x float64) float64 { return math.Pow(5*math.Max(1, x/0.0675)-4, 3) / 100000 }

// s_total: the rating of the combined performance of the parts.
func s_total(aim, speed, fl float64, withFl bool) float64 {
	f := 0.0
	if withFl {
		f = math.Pow(fl, 2) * 25
	}
	p := math.Pow(math.Pow(s_base(aim), 1.1)+math.Pow(s_base(speed), 1.1)+math.Pow(f, 1.1), 1/1.1)
	if p > 0.00001 {
		return math.Cbrt(1.12) * 0.027 * (math.Cbrt(100000/math.Pow(2, 1/1.1)*p) + 4)
	}
	return 0
}

func gen_StarsTotal(r *verifvf.Rand) (s_raw, *difficulty.Difficulty, Attributes) { return gen_Stars(r) }

//verif:lemma
//verif:prop C26
//verif:eagerfin
func ctr_StarsTotal(v s_raw, d *difficulty.Difficulty, a Attributes) {
	verifvf.Requires(d != nil && s_rawOK(v))
	r := s_stars(v, d, a)
	verifvf.Ensures("the total combines the ratings", s_near(r.Total, s_total(r.Aim, r.Speed, r.Flashlight, d.CheckModActive(difficulty.Flashlight))))
}

func gen_StarsMonotone(r *verifvf.Rand) (s_raw, s_raw, *difficulty.Difficulty, Attributes) {
	v, w := gen_raw(r), gen_raw(r)
	if r.Bool() {
		w = v
		w.speed += r.Float64()
	}
	return s_raw{math.Min(v.aim, w.aim), v.noSliders, math.Min(v.speed, w.speed), math.Min(v.flashlight, w.flashlight)},
		s_raw{math.Max(v.aim, w.aim), w.noSliders, math.Max(v.speed, w.speed), math.Max(v.flashlight, w.flashlight)}, gen_diff(r), gen_attr(r)
}

//verif:lemma
//verif:prop C26
//verif:eagerfin
func ctr_StarsMonotone(v, w s_raw, d *difficulty.Difficulty, a Attributes) {
	verifvf.Requires(d != nil && s_rawOK(v) && s_rawOK(w))
	verifvf.Requires(v.aim <= w.aim && v.speed <= w.speed && v.flashlight <= w.flashlight)
	x, y := s_stars(v, d, a), s_stars(w, d, a)
	verifvf.Ensures("ratings do not decrease", s_below(x.Aim, y.Aim) && s_below(x.Speed, y.Speed) && s_below(x.Flashlight, y.Flashlight))
	verifvf.Ensures("the total does not decrease", s_below(x.Total, y.Total))
}

func gen_StarsFlashlight(r *verifvf.Rand) (s_raw, float64, *difficulty.Difficulty, Attributes) {
	return gen_raw(r), gen_raw(r).flashlight, gen_diff(r), gen_attr(r)
}

//verif:lemma
//verif:prop C26
func ctr_StarsFlashlight(v s_raw, fl float64, d *difficulty.Difficulty, a Attributes) {
	verifvf.Requires(d != nil && s_rawOK(v) && fl >= 0 && !d.CheckModActive(difficulty.Flashlight))
	x := s_stars(v, d, a)
	v.flashlight = fl
	verifvf.Ensures("the total ignores flashlight without the mod", verifvf.Same(x.Total, s_stars(v, d, a).Total))
}
