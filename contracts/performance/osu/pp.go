//go:build go1.21

package osu

// Contracts of the performance calculator (C23, C24, C25).

import (
	"math"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/verifvf"
)

type s_score struct{ combo, n300, n100, n50, miss int }

// s_rated: attributes of a rated map.
func s_rated(a Attributes) bool {
	return a.Aim >= 0 && a.Speed >= 0 && a.Flashlight >= 0 && a.SliderFactor >= 0 &&
		a.ObjectCount >= 0 && a.Circles >= 0 && a.Sliders >= 0 && a.Spinners >= 0 && a.MaxCombo >= 0 &&
		a.Circles+a.Sliders+a.Spinners == a.ObjectCount
}

// s_feasible: a score that can be set on the map, in its normal form (see ctr_NegativeCombo and ctr_NegativeGreat);
// no more spinners than judged objects.
func s_feasible(a Attributes, s s_score) bool {
	return s.n300 >= 0 && s.n100 >= 0 && s.n50 >= 0 && s.miss >= 0 && s.combo >= 0 &&
		a.Spinners <= s.n300+s.n100+s.n50+s.miss
}

// s_diff: real AR and OD are numbers below the values of a preempt and a hit window of 0.
func s_diff(d *difficulty.Difficulty) bool { return d != nil && verifvf.Fin(d.ARReal) && verifvf.Fin(d.ODReal) && d.ARReal <= 13 && d.ODReal <= 13.5 }

func gen_attr(r *verifvf.Rand) Attributes {
	a := Attributes{}
	f := func() float64 {
		if r.Intn(6) == 0 {
			return 0
		}
		return r.Float64() * 9
	}
	a.Aim, a.Speed, a.Flashlight, a.Total = f(), f(), f(), f()
	a.SliderFactor = r.Float64()
	if r.Intn(6) == 0 {
		a.SliderFactor = 1 + r.Float64()*0.2
	}
	n := []int{1, 5, 40, 900, 4000}[r.Intn(5)]
	a.Circles, a.Sliders, a.Spinners = r.Intn(n), r.Intn(n), r.Intn(5)
	if r.Intn(4) == 0 {
		a.Sliders = 0
	}
	if r.Intn(8) == 0 {
		a.Circles = 0
	}
	a.ObjectCount = a.Circles + a.Sliders + a.Spinners
	a.MaxCombo = a.ObjectCount + r.Intn(a.Sliders*3+1)
	if r.Intn(20) == 0 {
		a.MaxCombo = 0
	}
	return a
}

func gen_score(r *verifvf.Rand, a Attributes) s_score {
	n := a.ObjectCount
	part := func() int {
		if n <= 0 || r.Intn(3) == 0 {
			return 0
		}
		x := r.Intn(n + 1)
		if r.Bool() && x > 3 {
			x = r.Intn(3)
		}
		n -= x
		return x
	}
	s := s_score{}
	s.n100, s.n50, s.miss = part(), part(), part()
	s.n300 = n
	if r.Intn(3) == 0 && n > 0 {
		s.n300 = r.Intn(n + 1)
	}
	s.combo = r.Intn(a.MaxCombo + 2)
	if r.Intn(4) == 0 {
		s.combo = r.Intn(3)
	}
	if r.Intn(4) == 0 {
		s.combo = a.MaxCombo
	}
	return s
}

var gen_mods = []difficulty.Modifier{difficulty.NoFail, difficulty.SpunOut, difficulty.Relax, difficulty.Hidden, difficulty.Flashlight,
	difficulty.TouchDevice, difficulty.ScoreV2, difficulty.DoubleTime, difficulty.HalfTime, difficulty.Easy, difficulty.HardRock}

func gen_diff(r *verifvf.Rand) *difficulty.Difficulty {
	d := difficulty.NewDifficulty(r.Float64()*10, r.Float64()*10, r.Float64()*10, r.Float64()*10)
	m := difficulty.None
	for _, x := range gen_mods {
		if r.Intn(4) == 0 {
			m |= x
		}
	}
	d.SetMods(m)
	return d
}

func gen_pp(r *verifvf.Rand) *PPv2 {
	p := &PPv2{}
	if r.Bool() {
		a := gen_attr(r)
		s := gen_score(r, a)
		d := gen_diff(r)
		p.PPv2x(a, s.combo, s.n300, s.n100, s.n50, s.miss, d)
	}
	return p
}

func gen_Normalised(r *verifvf.Rand) (*PPv2, Attributes, s_score, *difficulty.Difficulty) {
	a := gen_attr(r)
	return gen_pp(r), a, gen_score(r, a), gen_diff(r)
}

func s_equal(a, b PPv2) bool {
	return verifvf.Same(a.Results.Aim, b.Results.Aim) && verifvf.Same(a.Results.Speed, b.Results.Speed) &&
		verifvf.Same(a.Results.Acc, b.Results.Acc) && verifvf.Same(a.Results.Flashlight, b.Results.Flashlight) &&
		verifvf.Same(a.Results.Total, b.Results.Total)
}

func s_run(p *PPv2, a Attributes, s s_score, d *difficulty.Difficulty) PPv2 {
	return p.PPv2x(a, s.combo, s.n300, s.n100, s.n50, s.miss, d)
}

// ---------- C23

//verif:lemma
//verif:prop C23
//verif:allanyfloat
func ctr_Normalised(p *PPv2, a Attributes, s s_score, d *difficulty.Difficulty) {
	verifvf.Requires(p != nil && d != nil)
	fresh := s_run(new(PPv2), a, s, d)
	reused := s_run(p, a, s, d)
	verifvf.Ensures("reusing a calculator gives the result of a fresh one", s_equal(fresh, reused))
	verifvf.Ensures("the calculator keeps its results", s_equal(*p, fresh))
}

func gen_NegativeCombo(r *verifvf.Rand) (*PPv2, *PPv2, Attributes, s_score, *difficulty.Difficulty) {
	a := gen_attr(r)
	s := gen_score(r, a)
	s.combo = -1 - r.Intn(3)
	return gen_pp(r), gen_pp(r), a, s, gen_diff(r)
}

//verif:lemma
//verif:prop C23 C24 C25
//verif:allanyfloat
func ctr_NegativeCombo(p, q *PPv2, a Attributes, s s_score, d *difficulty.Difficulty) {
	verifvf.Requires(p != nil && q != nil && d != nil && s.combo < 0)
	negative := s_run(p, a, s, d)
	s.combo = s_max(1, a.MaxCombo)
	verifvf.Ensures("a negative combo stands for the full combo", s_equal(negative, s_run(q, a, s, d)))
}

func gen_NegativeGreat(r *verifvf.Rand) (*PPv2, *PPv2, Attributes, s_score, *difficulty.Difficulty) {
	a := gen_attr(r)
	s := gen_score(r, a)
	s.n300 = -1 - r.Intn(3)
	return gen_pp(r), gen_pp(r), a, s, gen_diff(r)
}

//verif:lemma
//verif:prop C23 C24 C25
//verif:allanyfloat
func ctr_NegativeGreat(p, q *PPv2, a Attributes, s s_score, d *difficulty.Difficulty) {
	verifvf.Requires(p != nil && q != nil && d != nil && s.n300 < 0)
	verifvf.Requires(a.ObjectCount-s.n100-s.n50-s.miss >= 0)
	negative := s_run(p, a, s, d)
	s.n300 = a.ObjectCount - s.n100 - s.n50 - s.miss
	verifvf.Ensures("a negative great count stands for all objects not otherwise judged", s_equal(negative, s_run(q, a, s, d)))
}

func gen_Bounds(r *verifvf.Rand) (*PPv2, Attributes, s_score, *difficulty.Difficulty) { return gen_Normalised(r) }

// s_guess: misses and slider breaks guessed from the combo.
func s_guess(a Attributes, s s_score, total int) int {
	full := float64(s_max(1, a.MaxCombo)) - 0.1*float64(a.Sliders)
	if a.Sliders <= 0 || float64(s.combo) >= full {
		return 0
	}
	return int(math.Floor(math.Min(full/math.Max(1, float64(s.combo)), float64(total))))
}

func s_max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func s_min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

//verif:lemma
//verif:prop C23
//verif:eagerfin
func ctr_Bounds(p *PPv2, a Attributes, s s_score, d *difficulty.Difficulty) {
	verifvf.Requires(p != nil && s_diff(d) && s_rated(a) && s_feasible(a, s))
	relax := d.CheckModActive(difficulty.Relax)
	q := s_run(p, a, s, d)
	n := s
	total := n.n300 + n.n100 + n.n50 + n.miss
	if total == 0 {
		verifvf.Ensures("accuracy is 0 without hits", q.accuracy == 0)
	} else {
		acc := float64(50*n.n50+100*n.n100+300*n.n300) / float64(300*total)
		if verifvf.Concrete() {
			verifvf.Ensures("accuracy is the weighted hit fraction", math.Abs(q.accuracy-acc) < 1e-9)
		} else {
			verifvf.Ensures("accuracy is the weighted hit fraction", q.accuracy == acc)
		}
	}
	verifvf.Ensures("accuracy lies in 0..1", 0 <= q.accuracy && q.accuracy <= 1)
	e := q.effectiveMissCount
	verifvf.Ensures("effective misses are not below the misses", e >= n.miss)
	verifvf.Ensures("effective misses are not above the hits", e <= total)
	guess := s_max(n.miss, s_guess(a, n, total))
	if relax {
		verifvf.Ensures("effective misses under Relax", e == s_min(guess+n.n100+n.n50, total))
	} else {
		verifvf.Ensures("effective misses", e == guess)
		verifvf.Ensures("effective misses rise only on maps with sliders played below their full combo threshold",
			e == n.miss || a.Sliders > 0 && float64(n.combo) < float64(s_max(1, a.MaxCombo))-0.1*float64(a.Sliders))
	}
}

// ---------- C24

func gen_Values(r *verifvf.Rand) (*PPv2, Attributes, s_score, *difficulty.Difficulty) { return gen_Normalised(r) }

func s_near(a, b float64) bool {
	if verifvf.Concrete() {
		return math.Abs(a-b) <= 1e-9*(math.Abs(a)+math.Abs(b)) || a == b
	}
	return a == b
}

//verif:lemma
//verif:prop C24
//verif:eagerfin
func ctr_Values(p *PPv2, a Attributes, s s_score, d *difficulty.Difficulty) {
	verifvf.Requires(p != nil && s_diff(d) && s_rated(a) && s_feasible(a, s))
	q := s_run(p, a, s, d)
	r := q.Results
	verifvf.Ensures("aim is finite", verifvf.Fin(r.Aim))
	verifvf.Ensures("speed is finite", verifvf.Fin(r.Speed))
	verifvf.Ensures("accuracy is finite", verifvf.Fin(r.Acc))
	verifvf.Ensures("flashlight is finite", verifvf.Fin(r.Flashlight))
	verifvf.Ensures("aim is not negative", r.Aim >= 0)
	verifvf.Ensures("speed is not negative", r.Speed >= 0)
	verifvf.Ensures("accuracy is not negative", r.Acc >= 0)
	verifvf.Ensures("flashlight is not negative", r.Flashlight >= 0)
	if d.CheckModActive(difficulty.Relax) {
		verifvf.Ensures("no accuracy value under Relax", r.Acc == 0)
	}
	if !d.CheckModActive(difficulty.Flashlight) {
		verifvf.Ensures("no flashlight value without Flashlight", r.Flashlight == 0)
	}
	n := s
	total := n.n300 + n.n100 + n.n50 + n.miss
	mult := 1.12
	if d.CheckModActive(difficulty.NoFail) {
		mult *= math.Max(0.9, 1-0.02*float64(s_max(n.miss, s_guess(a, n, total))))
	}
	if d.CheckModActive(difficulty.SpunOut) && total > 0 {
		mult *= 1 - math.Pow(float64(a.Spinners)/float64(total), 0.85)
	}
	if d.CheckModActive(difficulty.Relax) {
		mult *= 0.6
	}
	norm := math.Pow(math.Pow(r.Aim, 1.1)+math.Pow(r.Speed, 1.1)+math.Pow(r.Acc, 1.1)+math.Pow(r.Flashlight, 1.1), 1/1.1)
	verifvf.Ensures("the total is finite", verifvf.Fin(r.Total))
	verifvf.Ensures("the total combines the components", s_near(r.Total, norm*mult))
	verifvf.Ensures("the total is not negative", r.Total >= 0)
}

// ---------- C25

func gen_Combo(r *verifvf.Rand) (*PPv2, Attributes, s_score, *difficulty.Difficulty, int) {
	p, a, s, d := gen_Normalised(r)
	a.SliderFactor = r.Float64()
	return p, a, s, d, r.Intn(s.combo + 1)
}

func s_below(a, b float64) bool {
	if verifvf.Concrete() {
		return a <= b*(1+1e-9)
	}
	return a <= b
}

func s_notMore(x, y PPv2Results) {
	verifvf.Ensures("results are finite", verifvf.Fin(x.Aim) && verifvf.Fin(x.Speed) && verifvf.Fin(x.Acc) && verifvf.Fin(x.Flashlight) &&
		verifvf.Fin(y.Aim) && verifvf.Fin(y.Speed) && verifvf.Fin(y.Acc) && verifvf.Fin(y.Flashlight))
	verifvf.Ensures("results are not negative", x.Aim >= 0 && x.Speed >= 0 && x.Acc >= 0 && x.Flashlight >= 0)
	verifvf.Ensures("aim does not increase", s_below(x.Aim, y.Aim))
	verifvf.Ensures("speed does not increase", s_below(x.Speed, y.Speed))
	verifvf.Ensures("accuracy does not increase", s_below(x.Acc, y.Acc))
	verifvf.Ensures("flashlight does not increase", s_below(x.Flashlight, y.Flashlight))
	verifvf.Ensures("the total is finite", verifvf.Fin(x.Total) && verifvf.Fin(y.Total))
	verifvf.Ensures("the total does not increase", s_below(x.Total, y.Total))
}

//verif:lemma
//verif:prop C25
//verif:eagerfin
func ctr_Combo(p *PPv2, a Attributes, s s_score, d *difficulty.Difficulty, combo int) {
	verifvf.Requires(p != nil && s_diff(d) && s_rated(a) && s_feasible(a, s) && a.SliderFactor <= 1)
	verifvf.Requires(0 <= combo && combo <= s.combo && s.combo <= a.MaxCombo)
	y := s_run(p, a, s, d).Results
	s.combo = combo
	x := s_run(p, a, s, d).Results
	s_notMore(x, y)
}

func gen_Misses(r *verifvf.Rand) (*PPv2, Attributes, s_score, *difficulty.Difficulty, int) {
	p, a, s, d := gen_Normalised(r)
	a.SliderFactor = r.Float64()
	return p, a, s, d, r.Intn(s.n300 + 1)
}

//verif:lemma
//verif:prop C25
//verif:eagerfin
func ctr_Misses(p *PPv2, a Attributes, s s_score, d *difficulty.Difficulty, k int) {
	verifvf.Requires(p != nil && s_diff(d) && s_rated(a) && s_feasible(a, s) && a.SliderFactor <= 1)
	verifvf.Requires(0 <= k && k <= s.n300 && s.combo >= 0 && s.combo <= a.MaxCombo)
	y := s_run(p, a, s, d).Results
	s.n300 -= k
	s.miss += k
	x := s_run(p, a, s, d).Results
	s_notMore(x, y)
}

func gen_Ratings(r *verifvf.Rand) (*PPv2, Attributes, s_score, *difficulty.Difficulty, float64, float64, float64) {
	p, a, s, d := gen_Normalised(r)
	f := func(x float64) float64 {
		if r.Bool() {
			return x
		}
		return x + r.Float64()
	}
	return p, a, s, d, f(a.Aim), f(a.Speed), f(a.Flashlight)
}

//verif:lemma
//verif:prop C25
//verif:eagerfin
func ctr_Ratings(p *PPv2, a Attributes, s s_score, d *difficulty.Difficulty, aim, speed, fl float64) {
	verifvf.Requires(p != nil && s_diff(d) && s_rated(a) && s_feasible(a, s))
	verifvf.Requires(a.Aim <= aim && a.Speed <= speed && a.Flashlight <= fl)
	x := s_run(p, a, s, d).Results
	a.Aim, a.Speed, a.Flashlight = aim, speed, fl
	y := s_run(p, a, s, d).Results
	s_notMore(x, y)
}
