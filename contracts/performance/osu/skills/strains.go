//go:build go1.21

package skills

// Contracts of the strain values (C18): they are finite and never negative, so neither are the peaks.
//
//verif:anyfloat preprocessing.DifficultyObject.Angle

import (
	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"
	"github.com/Wieku/gosu-pp/verifvf"
)

func s_spinner(o *preprocessing.DifficultyObject) bool {
	_, ok := o.BaseObject.(*objects.Spinner)
	return ok
}

func s_slider(o *preprocessing.DifficultyObject) bool {
	_, ok := o.BaseObject.(*preprocessing.LazySlider)
	return ok
}

// s_objOK is what C17 guarantees about a difficulty object.
func s_objOK(o *preprocessing.DifficultyObject) bool {
	return o.JumpDistance >= 0 && o.MovementDistance >= 0 && o.MovementDistance <= o.JumpDistance && o.TravelDistance >= 0 && o.StrainTime >= 25 &&
		(o.MovementTime == 0 || o.MovementTime >= 25) && (o.TravelTime == 0 || o.TravelTime >= 25)
}

// s_after: what C17 guarantees about an object following a slider.
func s_after(last, o *preprocessing.DifficultyObject) bool {
	return !s_slider(last) || s_spinner(o) || o.MovementTime >= 25 && o.TravelTime >= 25
}

func s_history(s *Skill, o *preprocessing.DifficultyObject) bool {
	n := len(s.Previous)
	return verifvf.Forall(0, n, func(i int) bool { return s.Previous[i] != nil && s_objOK(s.Previous[i]) }) &&
		(n == 0 || s_after(s.Previous[n-1], o)) && (n <= 1 || s_after(s.Previous[n-2], s.Previous[n-1]))
}

func gen_strain(r *verifvf.Rand, pick func(d *difficulty.Difficulty) *Skill) *preprocessing.DifficultyObject {
	for {
		bm, err := beatmap.ParseFromByte([]byte(r.BeatmapText(16)))
		if err != nil {
			continue
		}
		d := bm.Difficulty
		d.SetMods(difficulty.Modifier(r.Mods()))
		os := preprocessing.CreateDifficultyObjects(bm.HitObjects, d)
		if len(os) == 0 {
			continue
		}
		s := pick(d)
		k := r.Intn(len(os))
		for i := 0; i < k; i++ {
			s.Process(os[i])
		}
		return os[k]
	}
}

func gen_aimStrainValue(r *verifvf.Rand) (s *AimSkill, o *preprocessing.DifficultyObject) {
	o = gen_strain(r, func(d *difficulty.Difficulty) *Skill {
		s = NewAimSkill(d, r.Bool())
		return s.Skill
	})
	return
}

//verif:contract calcWideAngleBonus
//verif:prop C18
//verif:opaque
//verif:eagerfin
//verif:allanyfloat
func ctr_calcWideAngleBonus(angle float64) {
	verifvf.Requires(angle == angle)
	verifvf.ModifiesNothing()
	v := calcWideAngleBonus(angle)
	verifvf.Ensures("between 0 and 1", v >= 0 && v <= 1)
}

//verif:contract calcAcuteAngleBonus
//verif:prop C18
//verif:opaque
//verif:eagerfin
//verif:allanyfloat
func ctr_calcAcuteAngleBonus(angle float64) {
	verifvf.Requires(angle == angle)
	verifvf.ModifiesNothing()
	v := calcAcuteAngleBonus(angle)
	verifvf.Ensures("between 0 and 1", v >= 0 && v <= 1)
}

//verif:contract (*AimSkill).aimStrainValue
//verif:opaque
//verif:prop C18
//verif:eagerfin
func ctr_aimStrainValue(s *AimSkill, o *preprocessing.DifficultyObject) {
	verifvf.Requires(s != nil && s.Skill != nil && o != nil)
	verifvf.Requires(s_objOK(o))
	verifvf.Requires(s_history(s.Skill, o))
	verifvf.ModifiesNothing()
	if n := len(s.Previous); n >= 2 && s.withSliders {
		l, ll := s.Previous[n-1], s.Previous[n-2]
		if s_slider(l) && !s_spinner(o) {
			m, t := o.MovementDistance/o.MovementTime, o.TravelDistance/o.TravelTime
			verifvf.Assert("the velocity through the last slider is not negative", m >= 0)
			verifvf.Assert("the velocity through the last slider is not negative", t >= 0)
		}
		if s_slider(ll) && !s_spinner(l) {
			m, t := l.MovementDistance/l.MovementTime, l.TravelDistance/l.TravelTime
			verifvf.Assert("the velocity through the slider before is not negative", m >= 0)
			verifvf.Assert("the velocity through the slider before is not negative", t >= 0)
		}
	}
	v := s.aimStrainValue(o)
	verifvf.Split(s.withSliders)
	verifvf.Split(o.StrainTime > 100)
	verifvf.Assert("finite", verifvf.Fin(v))
	verifvf.Ensures("aim strain is not negative", v >= 0)
}

func gen_flashlightStrainValue(r *verifvf.Rand) (s *Flashlight, o *preprocessing.DifficultyObject) {
	o = gen_strain(r, func(d *difficulty.Difficulty) *Skill {
		s = NewFlashlightSkill(d)
		return s.Skill
	})
	return
}

//verif:contract (*Flashlight).flashlightStrainValue
//verif:opaque
//verif:prop C18
//verif:eagerfin
func ctr_flashlightStrainValue(s *Flashlight, o *preprocessing.DifficultyObject) {
	verifvf.Requires(s != nil && s.Skill != nil && o != nil && s.diff != nil)
	verifvf.Requires(s.diff.CircleRadius > 0)
	verifvf.Requires(s_objOK(o))
	verifvf.Requires(s_history(s.Skill, o))
	verifvf.ModifiesNothing()
	verifvf.Invariant(func(k int, cumulativeStrainTime float64) bool { return cumulativeStrainTime >= 0 })
	verifvf.Invariant(func(k int, result float64) bool { return verifvf.Fin(result) && result >= 0 })
	v := s.flashlightStrainValue(o)
	verifvf.Ensures("flashlight strain is not negative", v >= 0)
}

func gen_speedStrainValue(r *verifvf.Rand) (s *SpeedSkill, o *preprocessing.DifficultyObject) {
	o = gen_strain(r, func(d *difficulty.Difficulty) *Skill {
		s = NewSpeedSkill(d)
		return s.Skill
	})
	return
}
func gen_speedStrainBonus(r *verifvf.Rand) (*SpeedSkill, *preprocessing.DifficultyObject) {
	return gen_speedStrainValue(r)
}

//verif:contract (*SpeedSkill).speedStrainValue
//verif:opaque
//verif:prop C18
//verif:eagerfin
func ctr_speedStrainValue(s *SpeedSkill, o *preprocessing.DifficultyObject) {
	verifvf.Requires(s != nil && s.Skill != nil && o != nil && s.diff != nil)
	verifvf.Requires(s.diff.Hit300 > 0)
	verifvf.Requires(s.diff.Speed > 0)
	verifvf.Requires(s_objOK(o))
	verifvf.Requires(s_history(s.Skill, o))
	verifvf.ModifiesNothing()
	v := s.speedStrainValue(o)
	verifvf.Ensures("speed strain is not negative", v >= 0)
}

//verif:contract (*SpeedSkill).speedStrainBonus
//verif:opaque
//verif:prop C18
//verif:eagerfin
func ctr_speedStrainBonus(s *SpeedSkill, o *preprocessing.DifficultyObject) {
	verifvf.Requires(s != nil && s.Skill != nil && o != nil && s.diff != nil)
	verifvf.Requires(s.diff.Hit300 > 0)
	verifvf.Requires(s.diff.Speed > 0)
	verifvf.Requires(s_objOK(o))
	verifvf.Requires(s_history(s.Skill, o))
	verifvf.Modifies(&s.CurrentRhythm)
	verifvf.Invariant(func(k int, rhythmComplexitySum float64) bool { return rhythmComplexitySum >= 0 })
	verifvf.Invariant(func(k int, startRatio float64) bool { return startRatio >= 0 })
	verifvf.Invariant(func(k int, islandSize int) bool { return islandSize >= 0 })
	verifvf.Invariant(func(k int, previousIslandSize int) bool { return previousIslandSize >= 0 })
	v := s.speedStrainBonus(o)
	verifvf.Ensures("the rhythm bonus is not negative", v >= 0)
	verifvf.Ensures("the rhythm bonus is remembered", s.CurrentRhythm == v)
}
