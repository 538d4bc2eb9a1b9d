//go:build go1.21

package osu

// What the calculations change (C22) and how they count (C20, C21): every object once, whatever the skills compute.

import (
	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"
	"github.com/Wieku/gosu-pp/performance/osu/skills"
	"github.com/Wieku/gosu-pp/verifvf"
)

func s_modifies() {
	skills.S_Modifies()
	var peaks []float64
	verifvf.ModifiesAnyElems(peaks)
	var prev []*preprocessing.DifficultyObject
	verifvf.ModifiesAnyElems(prev)
}

//verif:contract calculateSingle
//verif:opaque
//verif:nonfinite
//verif:allanyfloat
//verif:use preprocessing.ctr_CreateAny skills.ctr_ProcessAny osu.ctr_getStarsAny
//verif:prop C21 C22
func ctr_calculateSingle(os []objects.IHitObject, d *difficulty.Difficulty) {
	n := len(os)
	verifvf.Requires(d != nil)
	verifvf.Requires(verifvf.Forall(0, n, func(i int) bool { return preprocessing.S_Ready(os[i]) }))
	s_modifies()
	circle := verifvf.Memo(n, func(i int) bool { return s_isCircle(os[i]) })
	slider := verifvf.Memo(n, func(i int) bool { return s_isSlider(os[i]) })
	spinner := verifvf.Memo(n, func(i int) bool { return s_isSpinner(os[i]) })
	combo := verifvf.Memo(n, func(i int) float64 { return float64(1 + s_points(os[i])) })
	verifvf.Assert("nothing counted", verifvf.Count(0, circle) == 0 && verifvf.Count(0, slider) == 0 && verifvf.Count(0, spinner) == 0 && verifvf.Sum(0, combo) == 0)
	if n > 0 {
		verifvf.Assert("the first circle", verifvf.Count(1, circle) == s_b(s_isCircle(os[0])))
		verifvf.Assert("the first slider", verifvf.Count(1, slider) == s_b(s_isSlider(os[0])))
		verifvf.Assert("the first spinner", verifvf.Count(1, spinner) == s_b(s_isSpinner(os[0])))
		verifvf.Assert("the first combo", verifvf.Sum(1, combo) == float64(1+s_points(os[0])))
	}
	verifvf.Invariant(func(k int, attr Attributes) bool { return attr.ObjectCount == s_least(n, k+1) })
	verifvf.Invariant(func(k int, attr Attributes) bool { return n == 0 && attr.Circles == 0 || n > 0 && attr.Circles == verifvf.Count(k+1, circle) })
	verifvf.Invariant(func(k int, attr Attributes) bool { return n == 0 && attr.Sliders == 0 || n > 0 && attr.Sliders == verifvf.Count(k+1, slider) })
	verifvf.Invariant(func(k int, attr Attributes) bool { return n == 0 && attr.Spinners == 0 || n > 0 && attr.Spinners == verifvf.Count(k+1, spinner) })
	verifvf.Invariant(func(k int, attr Attributes) bool {
		return n == 0 && attr.MaxCombo == 0 || n > 0 && float64(attr.MaxCombo) == verifvf.Sum(k+1, combo)
	})
	a, aim, speed, fl := calculateSingle(os, d)
	verifvf.Ensures("all objects are counted", a.ObjectCount == n)
	verifvf.Ensures("all circles are counted", a.Circles == verifvf.Count(n, circle))
	verifvf.Ensures("all sliders are counted", a.Sliders == verifvf.Count(n, slider))
	verifvf.Ensures("all spinners are counted", a.Spinners == verifvf.Count(n, spinner))
	verifvf.Ensures("combo for every object and scoring point", float64(a.MaxCombo) == verifvf.Sum(n, combo))
	verifvf.Ensures("the skills are returned", aim != nil && speed != nil && (fl != nil) == d.CheckModActive(difficulty.Flashlight))
}

func gen_calculateSingle(r *verifvf.Rand) ([]objects.IHitObject, *difficulty.Difficulty) {
	for {
		t, m := gen_map(r)
		bm, err := beatmap.ParseFromByte([]byte(t))
		if err == nil {
			bm.Difficulty.SetMods(m)
			return bm.HitObjects, bm.Difficulty
		}
	}
}

func s_least(a, b int) int {
	if a < b {
		return a
	}
	return b
}

//verif:contract calculateStep
//verif:opaque
//verif:nonfinite
//verif:allanyfloat
//verif:use preprocessing.ctr_CreateAny skills.ctr_ProcessAny osu.ctr_getStarsAny
//verif:prop C20 C21 C22
func ctr_calculateStep(os []objects.IHitObject, d *difficulty.Difficulty) {
	n := len(os)
	verifvf.Requires(d != nil)
	verifvf.Requires(verifvf.Forall(0, n, func(i int) bool { return preprocessing.S_Ready(os[i]) }))
	s_modifies()
	circle := verifvf.Memo(n, func(i int) bool { return s_isCircle(os[i]) })
	slider := verifvf.Memo(n, func(i int) bool { return s_isSlider(os[i]) })
	spinner := verifvf.Memo(n, func(i int) bool { return s_isSpinner(os[i]) })
	combo := verifvf.Memo(n, func(i int) float64 { return float64(1 + s_points(os[i])) })
	verifvf.Assert("nothing counted", verifvf.Count(0, circle) == 0 && verifvf.Count(0, slider) == 0 && verifvf.Count(0, spinner) == 0 && verifvf.Sum(0, combo) == 0)
	if n > 0 {
		verifvf.Assert("the first circle", verifvf.Count(1, circle) == s_b(s_isCircle(os[0])))
		verifvf.Assert("the first slider", verifvf.Count(1, slider) == s_b(s_isSlider(os[0])))
		verifvf.Assert("the first spinner", verifvf.Count(1, spinner) == s_b(s_isSpinner(os[0])))
		verifvf.Assert("the first combo", verifvf.Sum(1, combo) == float64(1+s_points(os[0])))
	}
	verifvf.Invariant(func(k int, stars []Attributes) bool { return len(stars) == s_least(n, k+1) })
	verifvf.Invariant(func(k int, stars []Attributes) bool {
		return verifvf.Forall(0, len(stars), func(i int) bool { return stars[i].ObjectCount == i+1 })
	})
	verifvf.Invariant(func(k int, stars []Attributes) bool {
		return verifvf.Forall(0, len(stars), func(i int) bool { return stars[i].Circles == verifvf.Count(i+1, circle) })
	})
	verifvf.Invariant(func(k int, stars []Attributes) bool {
		return verifvf.Forall(0, len(stars), func(i int) bool { return stars[i].Sliders == verifvf.Count(i+1, slider) })
	})
	verifvf.Invariant(func(k int, stars []Attributes) bool {
		return verifvf.Forall(0, len(stars), func(i int) bool { return stars[i].Spinners == verifvf.Count(i+1, spinner) })
	})
	verifvf.Invariant(func(k int, stars []Attributes) bool {
		return verifvf.Forall(0, len(stars), func(i int) bool { return float64(stars[i].MaxCombo) == verifvf.Sum(i+1, combo) })
	})
	a, aim, speed, fl := calculateStep(os, d)
	verifvf.Ensures("one entry for every object", len(a) == n)
	verifvf.Ensures("an entry counts the objects so far", verifvf.Forall(0, n, func(i int) bool { return a[i].ObjectCount == i+1 }))
	verifvf.Ensures("an entry counts the circles so far", verifvf.Forall(0, n, func(i int) bool { return a[i].Circles == verifvf.Count(i+1, circle) }))
	verifvf.Ensures("an entry counts the sliders so far", verifvf.Forall(0, n, func(i int) bool { return a[i].Sliders == verifvf.Count(i+1, slider) }))
	verifvf.Ensures("an entry counts the spinners so far", verifvf.Forall(0, n, func(i int) bool { return a[i].Spinners == verifvf.Count(i+1, spinner) }))
	verifvf.Ensures("an entry has the combo so far", verifvf.Forall(0, n, func(i int) bool { return float64(a[i].MaxCombo) == verifvf.Sum(i+1, combo) }))
	verifvf.Ensures("the skills are returned", aim != nil && speed != nil && (fl != nil) == d.CheckModActive(difficulty.Flashlight))
}

func gen_calculateStep(r *verifvf.Rand) ([]objects.IHitObject, *difficulty.Difficulty) {
	return gen_calculateSingle(r)
}

//verif:contract getPeaks
//verif:opaque
//verif:nonfinite
//verif:allanyfloat
//verif:prop C18 C22
func ctr_getPeaks(aim *skills.AimSkill, speed *skills.SpeedSkill, fl *skills.Flashlight, d *difficulty.Difficulty) {
	verifvf.Requires(aim != nil && speed != nil && d != nil)
	verifvf.Requires(aim.Skill != nil && speed.Skill != nil && (fl == nil || fl.Skill != nil))
	n := aim.S_Sections()
	verifvf.Requires(speed.S_Sections() == n)
	verifvf.Requires(fl == nil || fl.S_Sections() == n)
	verifvf.ModifiesNothing()
	p := getPeaks(aim, speed, fl, d)
	verifvf.Ensures("one aim peak for every section", len(p.Aim) == n)
	verifvf.Ensures("one speed peak for every section", len(p.Speed) == n)
	verifvf.Ensures("one total for every section", len(p.Total) == n)
	verifvf.Ensures("one flashlight peak for every section", fl == nil || len(p.Flashlight) == n)
	verifvf.Ensures("no flashlight peaks without the mod", fl != nil || len(p.Flashlight) == 0)
}

//verif:contract CalculateStrainPeaks
//verif:nonfinite
//verif:use preprocessing.ctr_CreateAny skills.ctr_ProcessSections
//verif:prop C18 C22
func ctr_CalculateStrainPeaks(os []objects.IHitObject, d *difficulty.Difficulty) {
	n := len(os)
	verifvf.Requires(d != nil)
	verifvf.Requires(verifvf.Forall(0, n, func(i int) bool { return preprocessing.S_Ready(os[i]) }))
	verifvf.Requires(d.CheckModActive(difficulty.Flashlight))
	s_modifies()
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill) bool { return laimSkill.S_Started() == (k > 0) })
	verifvf.Invariant(func(k int, lspeedSkill *skills.SpeedSkill) bool { return lspeedSkill.S_Started() == (k > 0) })
	verifvf.Invariant(func(k int, lflashlightSkill *skills.Flashlight) bool {
		return lflashlightSkill == nil || lflashlightSkill.S_Started() == (k > 0)
	})
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill) bool { return k == 0 || laimSkill.S_Multiple() })
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill, lspeedSkill *skills.SpeedSkill) bool {
		return k == 0 || laimSkill.S_End() == lspeedSkill.S_End()
	})
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill, lflashlightSkill *skills.Flashlight) bool {
		return k == 0 || lflashlightSkill == nil || laimSkill.S_End() == lflashlightSkill.S_End()
	})
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill, lspeedSkill *skills.SpeedSkill) bool {
		return laimSkill.S_Sections() == lspeedSkill.S_Sections()
	})
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill, lflashlightSkill *skills.Flashlight) bool {
		return lflashlightSkill == nil || laimSkill.S_Sections() == lflashlightSkill.S_Sections()
	})
	p := CalculateStrainPeaks(os, d)
	verifvf.Ensures("aim and speed peaks line up", len(p.Aim) == len(p.Speed))
	verifvf.Ensures("totals line up", len(p.Aim) == len(p.Total))
	verifvf.Ensures("flashlight peaks line up", len(p.Flashlight) == len(p.Aim))
}

//verif:contract CalculateStrainPeaks
//verif:nonfinite
//verif:use preprocessing.ctr_CreateAny skills.ctr_ProcessSections
//verif:prop C18 C22
func ctr_CalculateStrainPeaksNoFlashlight(os []objects.IHitObject, d *difficulty.Difficulty) {
	n := len(os)
	verifvf.Requires(d != nil)
	verifvf.Requires(verifvf.Forall(0, n, func(i int) bool { return preprocessing.S_Ready(os[i]) }))
	verifvf.Requires(!d.CheckModActive(difficulty.Flashlight))
	s_modifies()
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill) bool { return laimSkill.S_Started() == (k > 0) })
	verifvf.Invariant(func(k int, lspeedSkill *skills.SpeedSkill) bool { return lspeedSkill.S_Started() == (k > 0) })
	verifvf.Invariant(func(k int, lflashlightSkill *skills.Flashlight) bool {
		return lflashlightSkill == nil || lflashlightSkill.S_Started() == (k > 0)
	})
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill) bool { return k == 0 || laimSkill.S_Multiple() })
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill, lspeedSkill *skills.SpeedSkill) bool {
		return k == 0 || laimSkill.S_End() == lspeedSkill.S_End()
	})
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill, lflashlightSkill *skills.Flashlight) bool {
		return k == 0 || lflashlightSkill == nil || laimSkill.S_End() == lflashlightSkill.S_End()
	})
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill, lspeedSkill *skills.SpeedSkill) bool {
		return laimSkill.S_Sections() == lspeedSkill.S_Sections()
	})
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill, lflashlightSkill *skills.Flashlight) bool {
		return lflashlightSkill == nil || laimSkill.S_Sections() == lflashlightSkill.S_Sections()
	})
	p := CalculateStrainPeaks(os, d)
	verifvf.Ensures("aim and speed peaks line up", len(p.Aim) == len(p.Speed))
	verifvf.Ensures("totals line up", len(p.Aim) == len(p.Total))
	verifvf.Ensures("no flashlight peaks without the mod", len(p.Flashlight) == 0)
}

func gen_CalculateStrainPeaks(r *verifvf.Rand) ([]objects.IHitObject, *difficulty.Difficulty) {
	os, d := gen_calculateSingle(r)
	d.SetMods(d.Mods | difficulty.Flashlight)
	return os, d
}

func gen_CalculateStrainPeaksNoFlashlight(r *verifvf.Rand) ([]objects.IHitObject, *difficulty.Difficulty) {
	os, d := gen_calculateSingle(r)
	d.SetMods(d.Mods &^ difficulty.Flashlight)
	return os, d
}

//verif:contract calculateSingle
//verif:alt
//verif:opaque
//verif:nonfinite
//verif:use preprocessing.ctr_CreateAny skills.ctr_ProcessSections osu.ctr_getStarsAny
//verif:prop C18
func ctr_linedUpSingle(os []objects.IHitObject, d *difficulty.Difficulty) {
	n := len(os)
	verifvf.Requires(d != nil)
	verifvf.Requires(verifvf.Forall(0, n, func(i int) bool { return preprocessing.S_Ready(os[i]) }))
	verifvf.Requires(d.CheckModActive(difficulty.Flashlight))
	s_modifies()
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill) bool { return laimSkill.S_Started() == (k > 0) })
	verifvf.Invariant(func(k int, lspeedSkill *skills.SpeedSkill) bool { return lspeedSkill.S_Started() == (k > 0) })
	verifvf.Invariant(func(k int, lflashlightSkill *skills.Flashlight) bool {
		return lflashlightSkill == nil || lflashlightSkill.S_Started() == (k > 0)
	})
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill) bool { return k == 0 || laimSkill.S_Multiple() })
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill, lspeedSkill *skills.SpeedSkill) bool {
		return k == 0 || laimSkill.S_End() == lspeedSkill.S_End()
	})
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill, lflashlightSkill *skills.Flashlight) bool {
		return k == 0 || lflashlightSkill == nil || laimSkill.S_End() == lflashlightSkill.S_End()
	})
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill, lspeedSkill *skills.SpeedSkill) bool {
		return laimSkill.S_Sections() == lspeedSkill.S_Sections()
	})
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill, lflashlightSkill *skills.Flashlight) bool {
		return lflashlightSkill == nil || laimSkill.S_Sections() == lflashlightSkill.S_Sections()
	})
	_, aim, speed, fl := calculateSingle(os, d)
	verifvf.Ensures("the skills are returned", aim != nil && aim.Skill != nil && speed != nil && speed.Skill != nil)
	verifvf.Ensures("aim and speed line up", aim.S_Sections() == speed.S_Sections())
	verifvf.Ensures("flashlight lines up", fl != nil && fl.Skill != nil && fl.S_Sections() == aim.S_Sections())
}

func gen_linedUpSingle(r *verifvf.Rand) ([]objects.IHitObject, *difficulty.Difficulty) {
	return gen_CalculateStrainPeaks(r)
}

//verif:contract CalculateSingleWithPeaks
//verif:nonfinite
//verif:use osu.ctr_linedUpSingle
//verif:prop C18 C22
func ctr_SinglePeaks(os []objects.IHitObject, d *difficulty.Difficulty) {
	n := len(os)
	verifvf.Requires(d != nil)
	verifvf.Requires(verifvf.Forall(0, n, func(i int) bool { return preprocessing.S_Ready(os[i]) }))
	verifvf.Requires(d.CheckModActive(difficulty.Flashlight))
	s_modifies()
	_, p := CalculateSingleWithPeaks(os, d)
	verifvf.Ensures("aim and speed peaks line up", len(p.Aim) == len(p.Speed))
	verifvf.Ensures("totals line up", len(p.Aim) == len(p.Total))
	verifvf.Ensures("flashlight peaks line up", len(p.Flashlight) == len(p.Aim))
}

func gen_SinglePeaks(r *verifvf.Rand) ([]objects.IHitObject, *difficulty.Difficulty) {
	return gen_CalculateStrainPeaks(r)
}

//verif:contract calculateSingle
//verif:alt
//verif:opaque
//verif:nonfinite
//verif:use preprocessing.ctr_CreateAny skills.ctr_ProcessSections osu.ctr_getStarsAny
//verif:prop C18
func ctr_linedUpSingleNoFlashlight(os []objects.IHitObject, d *difficulty.Difficulty) {
	n := len(os)
	verifvf.Requires(d != nil)
	verifvf.Requires(verifvf.Forall(0, n, func(i int) bool { return preprocessing.S_Ready(os[i]) }))
	verifvf.Requires(!d.CheckModActive(difficulty.Flashlight))
	s_modifies()
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill) bool { return laimSkill.S_Started() == (k > 0) })
	verifvf.Invariant(func(k int, lspeedSkill *skills.SpeedSkill) bool { return lspeedSkill.S_Started() == (k > 0) })
	verifvf.Invariant(func(k int, lflashlightSkill *skills.Flashlight) bool {
		return lflashlightSkill == nil || lflashlightSkill.S_Started() == (k > 0)
	})
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill) bool { return k == 0 || laimSkill.S_Multiple() })
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill, lspeedSkill *skills.SpeedSkill) bool {
		return k == 0 || laimSkill.S_End() == lspeedSkill.S_End()
	})
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill, lflashlightSkill *skills.Flashlight) bool {
		return k == 0 || lflashlightSkill == nil || laimSkill.S_End() == lflashlightSkill.S_End()
	})
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill, lspeedSkill *skills.SpeedSkill) bool {
		return laimSkill.S_Sections() == lspeedSkill.S_Sections()
	})
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill, lflashlightSkill *skills.Flashlight) bool {
		return lflashlightSkill == nil || laimSkill.S_Sections() == lflashlightSkill.S_Sections()
	})
	_, aim, speed, fl := calculateSingle(os, d)
	verifvf.Ensures("the skills are returned", aim != nil && aim.Skill != nil && speed != nil && speed.Skill != nil)
	verifvf.Ensures("aim and speed line up", aim.S_Sections() == speed.S_Sections())
	verifvf.Ensures("no flashlight skill without the mod", fl == nil)
}

func gen_linedUpSingleNoFlashlight(r *verifvf.Rand) ([]objects.IHitObject, *difficulty.Difficulty) {
	return gen_CalculateStrainPeaksNoFlashlight(r)
}

//verif:contract CalculateSingleWithPeaks
//verif:nonfinite
//verif:use osu.ctr_linedUpSingleNoFlashlight
//verif:prop C18 C22
func ctr_SinglePeaksNoFlashlight(os []objects.IHitObject, d *difficulty.Difficulty) {
	n := len(os)
	verifvf.Requires(d != nil)
	verifvf.Requires(verifvf.Forall(0, n, func(i int) bool { return preprocessing.S_Ready(os[i]) }))
	verifvf.Requires(!d.CheckModActive(difficulty.Flashlight))
	s_modifies()
	_, p := CalculateSingleWithPeaks(os, d)
	verifvf.Ensures("aim and speed peaks line up", len(p.Aim) == len(p.Speed))
	verifvf.Ensures("totals line up", len(p.Aim) == len(p.Total))
	verifvf.Ensures("no flashlight peaks without the mod", len(p.Flashlight) == 0)
}

func gen_SinglePeaksNoFlashlight(r *verifvf.Rand) ([]objects.IHitObject, *difficulty.Difficulty) {
	return gen_CalculateStrainPeaksNoFlashlight(r)
}

//verif:contract CalculateSingle
//verif:nonfinite
//verif:allanyfloat
//verif:prop C21 C22
func ctr_SingleRead(os []objects.IHitObject, d *difficulty.Difficulty) {
	n := len(os)
	verifvf.Requires(d != nil)
	verifvf.Requires(verifvf.Forall(0, n, func(i int) bool { return preprocessing.S_Ready(os[i]) }))
	s_modifies()
	a := CalculateSingle(os, d)
	verifvf.Ensures("all objects are counted", a.ObjectCount == n)
}

func gen_SingleRead(r *verifvf.Rand) ([]objects.IHitObject, *difficulty.Difficulty) { return gen_calculateSingle(r) }

//verif:contract calculateStep
//verif:alt
//verif:opaque
//verif:nonfinite
//verif:use preprocessing.ctr_CreateAny skills.ctr_ProcessSections osu.ctr_getStarsAny
//verif:prop C18
func ctr_linedUpStep(os []objects.IHitObject, d *difficulty.Difficulty) {
	n := len(os)
	verifvf.Requires(d != nil)
	verifvf.Requires(verifvf.Forall(0, n, func(i int) bool { return preprocessing.S_Ready(os[i]) }))
	verifvf.Requires(d.CheckModActive(difficulty.Flashlight))
	s_modifies()
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill) bool { return laimSkill.S_Started() == (k > 0) })
	verifvf.Invariant(func(k int, lspeedSkill *skills.SpeedSkill) bool { return lspeedSkill.S_Started() == (k > 0) })
	verifvf.Invariant(func(k int, lflashlightSkill *skills.Flashlight) bool {
		return lflashlightSkill == nil || lflashlightSkill.S_Started() == (k > 0)
	})
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill) bool { return k == 0 || laimSkill.S_Multiple() })
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill, lspeedSkill *skills.SpeedSkill) bool {
		return k == 0 || laimSkill.S_End() == lspeedSkill.S_End()
	})
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill, lflashlightSkill *skills.Flashlight) bool {
		return k == 0 || lflashlightSkill == nil || laimSkill.S_End() == lflashlightSkill.S_End()
	})
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill, lspeedSkill *skills.SpeedSkill) bool {
		return laimSkill.S_Sections() == lspeedSkill.S_Sections()
	})
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill, lflashlightSkill *skills.Flashlight) bool {
		return lflashlightSkill == nil || laimSkill.S_Sections() == lflashlightSkill.S_Sections()
	})
	_, aim, speed, fl := calculateStep(os, d)
	verifvf.Ensures("the skills are returned", aim != nil && aim.Skill != nil && speed != nil && speed.Skill != nil)
	verifvf.Ensures("aim and speed line up", aim.S_Sections() == speed.S_Sections())
	verifvf.Ensures("flashlight lines up", fl != nil && fl.Skill != nil && fl.S_Sections() == aim.S_Sections())
}

func gen_linedUpStep(r *verifvf.Rand) ([]objects.IHitObject, *difficulty.Difficulty) {
	return gen_CalculateStrainPeaks(r)
}

//verif:contract CalculateStepWithPeaks
//verif:nonfinite
//verif:use osu.ctr_linedUpStep
//verif:prop C18 C22
func ctr_StepPeaks(os []objects.IHitObject, d *difficulty.Difficulty) {
	n := len(os)
	verifvf.Requires(d != nil)
	verifvf.Requires(verifvf.Forall(0, n, func(i int) bool { return preprocessing.S_Ready(os[i]) }))
	verifvf.Requires(d.CheckModActive(difficulty.Flashlight))
	s_modifies()
	_, p := CalculateStepWithPeaks(os, d)
	verifvf.Ensures("aim and speed peaks line up", len(p.Aim) == len(p.Speed))
	verifvf.Ensures("totals line up", len(p.Aim) == len(p.Total))
	verifvf.Ensures("flashlight peaks line up", len(p.Flashlight) == len(p.Aim))
}

func gen_StepPeaks(r *verifvf.Rand) ([]objects.IHitObject, *difficulty.Difficulty) {
	return gen_CalculateStrainPeaks(r)
}

//verif:contract calculateStep
//verif:alt
//verif:opaque
//verif:nonfinite
//verif:use preprocessing.ctr_CreateAny skills.ctr_ProcessSections osu.ctr_getStarsAny
//verif:prop C18
func ctr_linedUpStepNoFlashlight(os []objects.IHitObject, d *difficulty.Difficulty) {
	n := len(os)
	verifvf.Requires(d != nil)
	verifvf.Requires(verifvf.Forall(0, n, func(i int) bool { return preprocessing.S_Ready(os[i]) }))
	verifvf.Requires(!d.CheckModActive(difficulty.Flashlight))
	s_modifies()
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill) bool { return laimSkill.S_Started() == (k > 0) })
	verifvf.Invariant(func(k int, lspeedSkill *skills.SpeedSkill) bool { return lspeedSkill.S_Started() == (k > 0) })
	verifvf.Invariant(func(k int, lflashlightSkill *skills.Flashlight) bool {
		return lflashlightSkill == nil || lflashlightSkill.S_Started() == (k > 0)
	})
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill) bool { return k == 0 || laimSkill.S_Multiple() })
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill, lspeedSkill *skills.SpeedSkill) bool {
		return k == 0 || laimSkill.S_End() == lspeedSkill.S_End()
	})
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill, lflashlightSkill *skills.Flashlight) bool {
		return k == 0 || lflashlightSkill == nil || laimSkill.S_End() == lflashlightSkill.S_End()
	})
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill, lspeedSkill *skills.SpeedSkill) bool {
		return laimSkill.S_Sections() == lspeedSkill.S_Sections()
	})
	verifvf.Invariant(func(k int, laimSkill *skills.AimSkill, lflashlightSkill *skills.Flashlight) bool {
		return lflashlightSkill == nil || laimSkill.S_Sections() == lflashlightSkill.S_Sections()
	})
	_, aim, speed, fl := calculateStep(os, d)
	verifvf.Ensures("the skills are returned", aim != nil && aim.Skill != nil && speed != nil && speed.Skill != nil)
	verifvf.Ensures("aim and speed line up", aim.S_Sections() == speed.S_Sections())
	verifvf.Ensures("no flashlight skill without the mod", fl == nil)
}

func gen_linedUpStepNoFlashlight(r *verifvf.Rand) ([]objects.IHitObject, *difficulty.Difficulty) {
	return gen_CalculateStrainPeaksNoFlashlight(r)
}

//verif:contract CalculateStepWithPeaks
//verif:nonfinite
//verif:use osu.ctr_linedUpStepNoFlashlight
//verif:prop C18 C22
func ctr_StepPeaksNoFlashlight(os []objects.IHitObject, d *difficulty.Difficulty) {
	n := len(os)
	verifvf.Requires(d != nil)
	verifvf.Requires(verifvf.Forall(0, n, func(i int) bool { return preprocessing.S_Ready(os[i]) }))
	verifvf.Requires(!d.CheckModActive(difficulty.Flashlight))
	s_modifies()
	_, p := CalculateStepWithPeaks(os, d)
	verifvf.Ensures("aim and speed peaks line up", len(p.Aim) == len(p.Speed))
	verifvf.Ensures("totals line up", len(p.Aim) == len(p.Total))
	verifvf.Ensures("no flashlight peaks without the mod", len(p.Flashlight) == 0)
}

func gen_StepPeaksNoFlashlight(r *verifvf.Rand) ([]objects.IHitObject, *difficulty.Difficulty) {
	return gen_CalculateStrainPeaksNoFlashlight(r)
}

//verif:contract CalculateStep
//verif:nonfinite
//verif:allanyfloat
//verif:prop C20 C21 C22
func ctr_StepRead(os []objects.IHitObject, d *difficulty.Difficulty) {
	n := len(os)
	verifvf.Requires(d != nil)
	verifvf.Requires(verifvf.Forall(0, n, func(i int) bool { return preprocessing.S_Ready(os[i]) }))
	s_modifies()
	a := CalculateStep(os, d)
	verifvf.Ensures("one entry for every object", len(a) == n)
	verifvf.Ensures("an entry counts the objects so far", verifvf.Forall(0, n, func(i int) bool { return a[i].ObjectCount == i+1 }))
}

func gen_StepRead(r *verifvf.Rand) ([]objects.IHitObject, *difficulty.Difficulty) { return gen_calculateSingle(r) }

//verif:contract getStars
//verif:alt
//verif:opaque
//verif:nonfinite
//verif:allanyfloat
//verif:use skills.ctr_ValueAny
//verif:prop C21 C22
func ctr_getStarsAny(aim *skills.AimSkill, aimNoSliders *skills.AimSkill, speed *skills.SpeedSkill, flashlight *skills.Flashlight, diff *difficulty.Difficulty, attr Attributes) {
	verifvf.Requires(aim != nil && aim.Skill != nil && aimNoSliders != nil && aimNoSliders.Skill != nil && speed != nil && speed.Skill != nil && diff != nil)
	verifvf.Requires(flashlight == nil || flashlight.Skill != nil)
	verifvf.ModifiesNothing()
	a := getStars(aim, aimNoSliders, speed, flashlight, diff, attr)
	verifvf.Ensures("the counts stay", s_sameCounts(a, attr))
}

func gen_getStarsAny(r *verifvf.Rand) (aim *skills.AimSkill, aimNoSliders *skills.AimSkill, speed *skills.SpeedSkill, flashlight *skills.Flashlight, diff *difficulty.Difficulty, attr Attributes) {
	os, d := gen_calculateSingle(r)
	attr, aim, speed, flashlight = calculateSingle(os, d)
	return aim, aim, speed, flashlight, d, attr
}
