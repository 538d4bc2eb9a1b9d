//go:build go1.21

package skills

// Contracts of the strain sections (C18).

import (
	"math"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"
	"github.com/Wieku/gosu-pp/verifvf"
)

//verif:fnspec skills.Skill.StrainValueOf
//verif:lemma
func ctr_strainValueOf(s *Skill, f func(obj *preprocessing.DifficultyObject) float64, o *preprocessing.DifficultyObject) {
	verifvf.Requires(o != nil)
	verifvf.Requires(s_objOK(o))
	verifvf.Requires(s_history(s, o))
	verifvf.ModifiesNothing()
	v := f(o)
	verifvf.Ensures("strain values are not negative", v >= 0)
}

//verif:fnspec skills.Skill.StrainBonusOf
//verif:lemma
func ctr_strainBonusOf(s *Skill, f func(obj *preprocessing.DifficultyObject) float64, o *preprocessing.DifficultyObject) {
	verifvf.Requires(o != nil)
	verifvf.Requires(s_objOK(o))
	verifvf.Requires(s_history(s, o))
	any := &SpeedSkill{}
	verifvf.ModifiesAny(&any.CurrentRhythm)
	v := f(o)
	verifvf.Ensures("strain bonuses are not negative", v >= 0)
}

//verif:fnspec skills.Skill.CalculateInitialStrain
//verif:lemma
func ctr_initialStrain(s *Skill, f func(time float64) float64, time float64) {
	verifvf.Requires(len(s.Previous) > 0)
	verifvf.Requires(s.Previous[len(s.Previous)-1] != nil)
	verifvf.Requires(s.CurrentStrain >= 0)
	verifvf.ModifiesNothing()
	v := f(time)
	verifvf.Ensures("initial strains are not negative", v >= 0)
}

// The delegates the constructors install meet these specifications, whatever the skill went through since.

//verif:lemma
//verif:prop C18
func ctr_aimDelegates(d *difficulty.Difficulty, withSliders bool, prev []*preprocessing.DifficultyObject, strain, time float64, o *preprocessing.DifficultyObject) {
	verifvf.Requires(o != nil)
	verifvf.Requires(s_objOK(o))
	s := NewAimSkill(d, withSliders)
	s.Previous, s.CurrentStrain = prev, strain
	verifvf.Requires(s_history(s.Skill, o))
	verifvf.Requires(strain >= 0)
	v := s.StrainValueOf(o)
	verifvf.Ensures("aim strain values are not negative", v >= 0)
	verifvf.Ensures("aim has no strain bonus", s.StrainBonusOf == nil)
	verifvf.Requires(len(prev) > 0)
	verifvf.Ensures("initial aim strains are not negative", s.CalculateInitialStrain(time) >= 0)
	verifvf.Ensures("the aim skill is ready to process objects", s_skillOK(s.Skill) && s.SectionLength == 400)
}

//verif:lemma
//verif:prop C18
func ctr_flashlightDelegates(d *difficulty.Difficulty, prev []*preprocessing.DifficultyObject, strain, time float64, o *preprocessing.DifficultyObject) {
	verifvf.Requires(o != nil && d != nil)
	verifvf.Requires(d.CircleRadius > 0)
	verifvf.Requires(s_objOK(o))
	s := NewFlashlightSkill(d)
	s.Previous, s.CurrentStrain = prev, strain
	verifvf.Requires(s_history(s.Skill, o))
	verifvf.Requires(strain >= 0)
	v := s.StrainValueOf(o)
	verifvf.Ensures("flashlight strain values are not negative", v >= 0)
	verifvf.Ensures("flashlight has no strain bonus", s.StrainBonusOf == nil)
	verifvf.Requires(len(prev) > 0)
	verifvf.Ensures("initial flashlight strains are not negative", s.CalculateInitialStrain(time) >= 0)
	verifvf.Ensures("the flashlight skill is ready to process objects", s_skillOK(s.Skill) && s.SectionLength == 400)
}

//verif:lemma
//verif:prop C18
func ctr_speedDelegates(d *difficulty.Difficulty, prev []*preprocessing.DifficultyObject, strain, rhythm, time float64, o *preprocessing.DifficultyObject) {
	verifvf.Requires(o != nil && d != nil)
	verifvf.Requires(d.Hit300 > 0)
	verifvf.Requires(d.Speed > 0)
	verifvf.Requires(s_objOK(o))
	s := NewSpeedSkill(d)
	s.Previous, s.CurrentStrain, s.CurrentRhythm = prev, strain, rhythm
	verifvf.Requires(s_history(s.Skill, o))
	verifvf.Requires(strain >= 0)
	verifvf.Requires(rhythm >= 0)
	v := s.StrainValueOf(o)
	verifvf.Ensures("speed strain values are not negative", v >= 0)
	b := s.StrainBonusOf(o)
	verifvf.Ensures("rhythm bonuses are not negative", b >= 0)
	verifvf.Requires(len(prev) > 0)
	verifvf.Ensures("initial speed strains are not negative", s.CalculateInitialStrain(time) >= 0)
	verifvf.Ensures("the speed skill is ready to process objects", s_skillOK(s.Skill) && s.SectionLength == 400)
}

// s_section is the index of the section a time lies in: section k ends at 400k.
func s_section(t float64) float64 { return math.Ceil(t / 400) }

func s_skillOK(s *Skill) bool {
	return s.HistoryLength >= 1 && s.StrainDecayBase > 0 && s.StrainDecayBase < 1 && s.SkillMultiplier >= 0
}

//verif:contract (*Skill).Process
//verif:prop C18
func ctr_Process(s *Skill, o *preprocessing.DifficultyObject) {
	verifvf.Requires(s != nil)
	verifvf.Requires(s.SectionLength == 400)
	verifvf.Requires(s_skillOK(s))
	verifvf.Requires(o != nil)
	verifvf.Requires(s.CurrentStrain >= 0)
	verifvf.Requires(s.currentSectionPeak >= 0)
	verifvf.Requires(s.StrainValueOf != nil && s.CalculateInitialStrain != nil)
	verifvf.Requires(verifvf.Forall(0, len(s.strainPeaks), func(i int) bool { return s.strainPeaks[i] >= 0 }))
	verifvf.Requires(s_objOK(o))
	verifvf.Requires(s_history(s, o))
	n := len(s.strainPeaks)
	old := verifvf.Memo(n, func(i int) float64 { return s.strainPeaks[i] })
	np := len(s.Previous)
	oldPeak := s.currentSectionPeak
	first := s_section(s.currentSectionEnd)
	if np == 0 {
		first = s_section(o.StartTime)
	}
	verifvf.Requires(np == 0 || s.currentSectionEnd == 400*first)
	last := math.Max(first, s_section(o.StartTime))
	any := &SpeedSkill{}
	verifvf.ModifiesAny(&any.CurrentRhythm)
	verifvf.Modifies(&s.Previous)
	verifvf.ModifiesElems(s.Previous[:cap(s.Previous)])
	verifvf.Modifies(&s.strainPeaks)
	verifvf.ModifiesElems(s.strainPeaks[:cap(s.strainPeaks)])
	verifvf.Modifies(&s.CurrentStrain)
	verifvf.Modifies(&s.currentSectionPeak)
	verifvf.Modifies(&s.currentSectionEnd)
	verifvf.Invariant(func() bool {
		return s.currentSectionEnd == 400*(first+float64(len(s.strainPeaks)-n)) && len(s.strainPeaks) >= n
	})
	verifvf.Invariant(func() bool { return s.currentSectionPeak >= 0 })
	verifvf.Invariant(func() bool {
		return s.currentSectionEnd == 400*first || s.currentSectionEnd-400 < o.StartTime
	})
	verifvf.Invariant(func() bool {
		return verifvf.Forall(0, len(s.strainPeaks), func(i int) bool { return s.strainPeaks[i] >= 0 })
	})
	verifvf.Invariant(func() bool {
		return verifvf.Forall(0, n, func(i int) bool { return s.strainPeaks[i] == old(i) })
	})
	verifvf.Invariant(func() bool { return len(s.strainPeaks) == n || s.strainPeaks[n] == oldPeak })
	verifvf.Invariant(func() bool { return len(s.strainPeaks) > n || s.currentSectionPeak == oldPeak })
	s.Process(o)
	m := float64(len(s.strainPeaks) - n)
	here := s_section(o.StartTime)
	verifvf.Assert("the end is a multiple", s.currentSectionEnd == 400*(first+m))
	verifvf.Assert("the object starts before the end", here <= first+m)
	verifvf.Assert("no section too many", m == 0 || here > first+m-1)
	verifvf.Assert("the section is reached", m == 0 || here == first+m)
	verifvf.Ensures("the current section contains the object or ends later", verifvf.Eq(s.currentSectionEnd, 400*last))
	verifvf.Ensures("one peak for every section left, empty ones included", float64(len(s.strainPeaks)-n) == last-first)
	verifvf.Ensures("finished peaks are kept", verifvf.Forall(0, n, func(i int) bool { return s.strainPeaks[i] == old(i) }))
	verifvf.Ensures("the peak of the section left is saved", len(s.strainPeaks) == n || s.strainPeaks[n] == oldPeak)
	verifvf.Ensures("the peak of a section never sinks", len(s.strainPeaks) > n || s.currentSectionPeak >= oldPeak)
	verifvf.Ensures("peaks are not negative", s.currentSectionPeak >= 0 && verifvf.Forall(0, len(s.strainPeaks), func(i int) bool { return s.strainPeaks[i] >= 0 }))
	verifvf.Ensures("the strain is not negative", s.CurrentStrain >= 0)
	verifvf.Ensures("the object is remembered", len(s.Previous) > 0 && s.Previous[len(s.Previous)-1] == o)
}

func gen_Process(r *verifvf.Rand) (*Skill, *preprocessing.DifficultyObject) {
	for {
		bm, err := beatmap.ParseFromByte([]byte(r.BeatmapText(16)))
		if err != nil {
			continue
		}
		d := bm.Difficulty
		d.SetMods(difficulty.Modifier(r.Mods()))
		os := preprocessing.CreateDifficultyObjects(bm.HitObjects, d)
		if len(os) == 0 {
			continue
		}
		s := []*Skill{NewAimSkill(d, true).Skill, NewAimSkill(d, false).Skill, NewSpeedSkill(d).Skill, NewFlashlightSkill(d).Skill}[r.Intn(4)]
		if r.Intn(4) == 0 {
			for _, o := range os {
				o.StartTime = 100 * math.Floor(o.StartTime/100) // on section borders
			}
		}
		k := r.Intn(len(os))
		for i := 0; i < k; i++ {
			s.Process(os[i])
		}
		return s, os[k]
	}
}

func gen_delegates(r *verifvf.Rand) (d *difficulty.Difficulty, prev []*preprocessing.DifficultyObject, o *preprocessing.DifficultyObject) {
	var s *Skill
	o = gen_strain(r, func(x *difficulty.Difficulty) *Skill {
		d = x
		s = []*Skill{NewAimSkill(d, true).Skill, NewAimSkill(d, false).Skill, NewSpeedSkill(d).Skill, NewFlashlightSkill(d).Skill}[r.Intn(4)]
		return s
	})
	return d, s.Previous, o
}

func gen_aimDelegates(r *verifvf.Rand) (*difficulty.Difficulty, bool, []*preprocessing.DifficultyObject, float64, float64, *preprocessing.DifficultyObject) {
	d, p, o := gen_delegates(r)
	return d, r.Bool(), p, r.Float64() * 100, o.StartTime, o
}

func gen_flashlightDelegates(r *verifvf.Rand) (*difficulty.Difficulty, []*preprocessing.DifficultyObject, float64, float64, *preprocessing.DifficultyObject) {
	d, p, o := gen_delegates(r)
	return d, p, r.Float64() * 100, o.StartTime, o
}

func gen_speedDelegates(r *verifvf.Rand) (*difficulty.Difficulty, []*preprocessing.DifficultyObject, float64, float64, float64, *preprocessing.DifficultyObject) {
	d, p, o := gen_delegates(r)
	return d, p, r.Float64() * 100, 1 + r.Float64(), o.StartTime, o
}
