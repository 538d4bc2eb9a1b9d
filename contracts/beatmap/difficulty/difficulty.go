//go:build go1.21

package difficulty

// Contracts of the difficulty settings (C01, C02, C03).

import (
	"math"

	"github.com/Wieku/gosu-pp/verifvf"
)

// the published mod bits (osu! API)
const (
	sNF = Modifier(1 << 0)
	sEZ = Modifier(1 << 1)
	sTD = Modifier(1 << 2)
	sHD = Modifier(1 << 3)
	sHR = Modifier(1 << 4)
	sSD = Modifier(1 << 5)
	sDT = Modifier(1 << 6)
	sRX = Modifier(1 << 7)
	sHT = Modifier(1 << 8)
	sNC = Modifier(1 << 9)
	sFL = Modifier(1 << 10)
	sAT = Modifier(1 << 11)
	sSO = Modifier(1 << 12)
	sAP = Modifier(1 << 13)
	sPF = Modifier(1 << 14)
	sTG = Modifier(1 << 23)
	sV2 = Modifier(1 << 29)
	sDC = Modifier(1 << 31)
)

func s_has(m, b Modifier) bool { return m&b != 0 }

// s_rate is the clock rate of a mod combination.
func s_rate(m Modifier, speed float64) float64 {
	if s_has(m, sDT) {
		return 1.5 * speed
	}
	if s_has(m, sHT) {
		return 0.75 * speed
	}
	return speed
}

func s_scale(m Modifier, x, hr float64) float64 {
	if s_has(m, sHR) {
		x = math.Min(x*hr, 10)
	}
	if s_has(m, sEZ) {
		x = x / 2
	}
	return x
}

// s_lin is the piecewise linear function through (0,a), (5,b), (10,c), extended beyond.
func s_lin(x, a, b, c float64) float64 {
	if x >= 5 {
		return b + (c-b)*(x-5)/5
	}
	return a + (b-a)*x/5
}

// s_inv inverts s_lin for a > b > c.
func s_inv(y, a, b, c float64) float64 {
	if y <= b {
		return 5 + (b-y)*5/(b-c)
	}
	return (a - y) * 5 / (a - b)
}

// s_fresh brings a new difficulty directly to the given settings.
func s_fresh(hp, cs, od, ar, speed float64, m Modifier) *Difficulty {
	e := NewDifficulty(hp, cs, od, ar)
	e.SetCustomSpeed(speed)
	e.SetMods(m)
	return e
}

func s_sameDerived(d, e *Difficulty) bool {
	return verifvf.Eq(d.HPMod, e.HPMod) && verifvf.Eq(d.CircleRadius, e.CircleRadius) && verifvf.Eq(d.Preempt, e.Preempt) &&
		verifvf.Eq(d.Hit50, e.Hit50) && verifvf.Eq(d.Hit100, e.Hit100) && verifvf.Eq(d.Hit300, e.Hit300) &&
		verifvf.Eq(d.SpinnerRatio, e.SpinnerRatio) && verifvf.Eq(d.Speed, e.Speed) &&
		verifvf.Eq(d.ARReal, e.ARReal) && verifvf.Eq(d.ODReal, e.ODReal)
}

// s_consistent is the data invariant of Difficulty: derived values are a function of the settings.
func s_consistent(d *Difficulty) bool {
	return s_sameDerived(d, s_fresh(d.hp, d.cs, d.od, d.ar, d.CustomSpeed, d.Mods))
}

func s_settings(d *Difficulty, hp, cs, od, ar, speed float64, m Modifier) bool {
	return verifvf.Eq(d.GetHP(), hp) && verifvf.Eq(d.GetCS(), cs) && verifvf.Eq(d.GetOD(), od) && verifvf.Eq(d.GetAR(), ar) &&
		verifvf.Eq(d.CustomSpeed, speed) && d.Mods == m
}

func gen_diff(r *verifvf.Rand) *Difficulty {
	return s_fresh(r.Float(), r.Float(), r.Float(), r.Float(), r.Pos(), Modifier(r.Bits()))
}
func gen_dv(r *verifvf.Rand) (*Difficulty, float64) {
	d := gen_diff(r)
	v := r.Float()
	switch r.Intn(8) {
	case 0:
		v = d.hp
	case 1:
		v = d.ar
	case 2:
		v = d.od
	case 3:
		v = d.cs
	}
	return d, v
}
func gen_SetHP(r *verifvf.Rand) (*Difficulty, float64) { return gen_dv(r) }
func gen_SetCS(r *verifvf.Rand) (*Difficulty, float64) { return gen_dv(r) }
func gen_SetOD(r *verifvf.Rand) (*Difficulty, float64) { return gen_dv(r) }
func gen_SetAR(r *verifvf.Rand) (*Difficulty, float64) { return gen_dv(r) }
func gen_SetCustomSpeed(r *verifvf.Rand) (*Difficulty, float64) {
	d := gen_diff(r)
	if r.Intn(3) == 0 {
		return d, d.CustomSpeed
	}
	return d, r.Pos()
}
func gen_SetMods(r *verifvf.Rand) (*Difficulty, Modifier) {
	d := gen_diff(r)
	if r.Intn(3) == 0 {
		return d, d.Mods ^ Modifier(1<<uint(r.Intn(32)))
	}
	return d, Modifier(r.Bits())
}

//verif:contract NewDifficulty
//verif:prop C01
func ctr_NewDifficulty(hp, cs, od, ar float64) {
	d := NewDifficulty(hp, cs, od, ar)
	verifvf.Ensures("base settings read back", s_settings(d, hp, cs, od, ar, 1, 0))
	verifvf.Ensures("derived values are those of the settings", s_consistent(d))
}

//verif:contract (*Difficulty).SetHP
//verif:prop C01
func ctr_SetHP(d *Difficulty, v float64) {
	verifvf.Requires(d != nil && d.CustomSpeed > 0 && s_consistent(d))
	cs, od, ar, sp, m := d.cs, d.od, d.ar, d.CustomSpeed, d.Mods
	d.SetHP(v)
	verifvf.Ensures("settings read back", s_settings(d, v, cs, od, ar, sp, m))
	verifvf.Ensures("derived values are those of the settings", s_consistent(d))
}

//verif:contract (*Difficulty).SetCS
//verif:prop C01
func ctr_SetCS(d *Difficulty, v float64) {
	verifvf.Requires(d != nil && d.CustomSpeed > 0 && s_consistent(d))
	hp, od, ar, sp, m := d.hp, d.od, d.ar, d.CustomSpeed, d.Mods
	d.SetCS(v)
	verifvf.Ensures("settings read back", s_settings(d, hp, v, od, ar, sp, m))
	verifvf.Ensures("derived values are those of the settings", s_consistent(d))
}

//verif:contract (*Difficulty).SetOD
//verif:prop C01
func ctr_SetOD(d *Difficulty, v float64) {
	verifvf.Requires(d != nil && d.CustomSpeed > 0 && s_consistent(d))
	hp, cs, ar, sp, m := d.hp, d.cs, d.ar, d.CustomSpeed, d.Mods
	d.SetOD(v)
	verifvf.Ensures("settings read back", s_settings(d, hp, cs, v, ar, sp, m))
	verifvf.Ensures("derived values are those of the settings", s_consistent(d))
}

//verif:contract (*Difficulty).SetAR
//verif:prop C01
func ctr_SetAR(d *Difficulty, v float64) {
	verifvf.Requires(d != nil && d.CustomSpeed > 0 && s_consistent(d))
	hp, cs, od, sp, m := d.hp, d.cs, d.od, d.CustomSpeed, d.Mods
	d.SetAR(v)
	verifvf.Ensures("settings read back", s_settings(d, hp, cs, od, v, sp, m))
	verifvf.Ensures("derived values are those of the settings", s_consistent(d))
}

//verif:contract (*Difficulty).SetCustomSpeed
//verif:prop C01
func ctr_SetCustomSpeed(d *Difficulty, v float64) {
	verifvf.Requires(d != nil && d.CustomSpeed > 0 && v > 0 && s_consistent(d))
	hp, cs, od, ar, m := d.hp, d.cs, d.od, d.ar, d.Mods
	d.SetCustomSpeed(v)
	verifvf.Ensures("settings read back", s_settings(d, hp, cs, od, ar, v, m))
	verifvf.Ensures("derived values are those of the settings", s_consistent(d))
}

//verif:contract (*Difficulty).SetMods
//verif:prop C01
func ctr_SetMods(d *Difficulty, m Modifier) {
	verifvf.Requires(d != nil && d.CustomSpeed > 0 && s_consistent(d))
	hp, cs, od, ar, sp := d.hp, d.cs, d.od, d.ar, d.CustomSpeed
	d.SetMods(m)
	verifvf.Ensures("settings read back", s_settings(d, hp, cs, od, ar, sp, m))
	verifvf.Ensures("derived values are those of the settings", s_consistent(d))
}

// ---------- C02

func gen_Formulas(r *verifvf.Rand) (hp, cs, od, ar, speed float64, m Modifier, t float64) {
	return r.Float(), r.Float(), r.Float(), r.Float(), r.Pos(), Modifier(r.Bits()), r.Float()
}

//verif:lemma
//verif:prop C02
func ctr_Formulas(hp, cs, od, ar, speed float64, m Modifier, t float64) {
	verifvf.Requires(speed > 0)
	d := NewDifficulty(hp, cs, od, ar)
	d.SetCustomSpeed(speed)
	d.SetMods(m)
	rate := s_rate(m, speed)
	sod, sar := s_scale(m, od, 1.4), s_scale(m, ar, 1.4)
	verifvf.Ensures("HP", verifvf.Eq(d.HPMod, s_scale(m, hp, 1.4)))
	verifvf.Ensures("circle radius", verifvf.Eq(d.CircleRadius, s_lin(s_scale(m, cs, 1.3), 54.4, 32, 9.6)))
	verifvf.Ensures("preempt", verifvf.Eq(d.Preempt, s_lin(sar, 1800, 1200, 450)))
	verifvf.Ensures("great window", verifvf.Eq(d.Hit300, s_lin(sod, 80, 50, 20)))
	verifvf.Ensures("ok window", verifvf.Eq(d.Hit100, s_lin(sod, 140, 100, 60)))
	verifvf.Ensures("meh window", verifvf.Eq(d.Hit50, s_lin(sod, 200, 150, 100)))
	verifvf.Ensures("spinner ratio", verifvf.Eq(d.SpinnerRatio, s_lin(sod, 3, 5, 7.5)))
	verifvf.Ensures("speed is the clock rate", verifvf.Eq(d.Speed, rate))
	verifvf.Ensures("modified time", verifvf.Eq(d.GetModifiedTime(t), t/rate))
	verifvf.Ensures("real AR", verifvf.Eq(d.ARReal, s_inv(s_lin(sar, 1800, 1200, 450)/rate, 1800, 1200, 450)))
	verifvf.Ensures("real OD", verifvf.Eq(d.ODReal, s_inv(s_lin(sod, 80, 50, 20)/rate, 80, 50, 20)))
}

//verif:contract (*Difficulty).CheckModActive
//verif:prop C02
func ctr_CheckModActive(d *Difficulty, m Modifier) {
	verifvf.Requires(d != nil && m >= 0)
	r := d.CheckModActive(m)
	verifvf.Ensures("a mod is active exactly when one of its bits is set", r == (d.Mods&m != 0))
}

// ---------- C03

func gen_Inverse(r *verifvf.Rand) (x, y, a, b, c float64) {
	c = r.Float()
	b = c + 1 + r.Pos()
	a = b + 1 + r.Pos()
	x = r.Float()
	y = r.Float()
	if r.Intn(3) == 0 {
		y = x + (r.Float64()-0.5)*0.02
	}
	if r.Intn(4) == 0 {
		return x, y, 1800, 1200, 450
	}
	return x, y, a, b, c
}

//verif:lemma
//verif:prop C03
func ctr_Inverse(x, y, a, b, c float64) {
	verifvf.Requires(a > b && b > c)
	r := DifficultyRate(x, a, b, c)
	verifvf.Ensures("converting there and back is the identity", verifvf.Eq(DiffFromRate(r, a, b, c), x))
	q := DifficultyRate(y, a, b, c)
	verifvf.Ensures("a larger setting gives a smaller rate", !(x < y-1e-4) || q < r)
	verifvf.Ensures("a strictly larger setting gives a strictly smaller rate", verifvf.Concrete() || !(x < y) || q < r)
	s := DiffFromRate(y, a, b, c)
	verifvf.Ensures("every rate is the rate of its setting", verifvf.Eq(DifficultyRate(s, a, b, c), y))
}

func gen_RealUnit(r *verifvf.Rand) (hp, cs, od, ar float64, m Modifier) {
	return r.Float(), r.Float(), r.Float(), r.Float(), Modifier(r.Bits())
}

//verif:lemma
//verif:prop C03
func ctr_RealUnit(hp, cs, od, ar float64, m Modifier) {
	verifvf.Requires(!s_has(m, sDT) && !s_has(m, sHT))
	d := NewDifficulty(hp, cs, od, ar)
	d.SetMods(m)
	verifvf.Ensures("real AR at rate 1", verifvf.Eq(d.ARReal, s_scale(m, ar, 1.4)))
	verifvf.Ensures("real OD at rate 1", verifvf.Eq(d.ODReal, s_scale(m, od, 1.4)))
}

func gen_FasterClock(r *verifvf.Rand) (od, ar, s1, s2 float64, m1, m2 Modifier) {
	m1 = Modifier(r.Bits())
	m2 = m1
	for _, b := range []Modifier{sDT, sHT} {
		if r.Bool() {
			m2 ^= b
		}
	}
	s1 = r.Pos()
	s2 = r.Pos()
	if r.Bool() {
		s2 = s1
	}
	return r.In(-5, 11), r.In(-5, 12), s1, s2, m1, m2
}

//verif:lemma
//verif:prop C03
func ctr_FasterClock(od, ar, s1, s2 float64, m1, m2 Modifier) {
	verifvf.Requires(s1 > 0 && s2 > 0 && s_rate(m1, s1) <= s_rate(m2, s2))
	verifvf.Requires(m1&(sHR|sEZ) == m2&(sHR|sEZ))
	verifvf.Requires(od <= 11 && ar <= 13) // positive preempt and hit window
	d := s_fresh(5, 5, od, ar, s1, m1)
	e := s_fresh(5, 5, od, ar, s2, m2)
	verifvf.Ensures("a faster clock never lowers real AR", verifvf.Le(d.ARReal, e.ARReal))
	verifvf.Ensures("a faster clock never lowers real OD", verifvf.Le(d.ODReal, e.ODReal))
}
