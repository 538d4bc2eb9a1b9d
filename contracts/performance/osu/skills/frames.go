//go:build go1.21

package skills

// What processing objects can change at all, whatever the objects are (C18, C20, C21, C22): the skills' own fields, their
// lists of previous objects and of peaks. Weaker contracts than those of sections.go and strains.go, without their
// preconditions; the calculations name them in their use directives.

import (
	"math"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"
	"github.com/Wieku/gosu-pp/verifvf"
)

//verif:contract (*AimSkill).aimStrainValue
//verif:alt
//verif:opaque
//verif:nonfinite
//verif:allanyfloat
//verif:prop C22
func ctr_aimStrainAny(s *AimSkill, o *preprocessing.DifficultyObject) {
	verifvf.Requires(s != nil)
	verifvf.ModifiesNothing()
	s.aimStrainValue(o)
}

//verif:contract (*Flashlight).flashlightStrainValue
//verif:alt
//verif:opaque
//verif:nonfinite
//verif:allanyfloat
//verif:prop C22
func ctr_flashlightStrainAny(s *Flashlight, o *preprocessing.DifficultyObject) {
	verifvf.Requires(s != nil)
	verifvf.ModifiesNothing()
	s.flashlightStrainValue(o)
}

//verif:contract (*SpeedSkill).speedStrainValue
//verif:alt
//verif:opaque
//verif:nonfinite
//verif:allanyfloat
//verif:prop C22
func ctr_speedStrainAny(s *SpeedSkill, o *preprocessing.DifficultyObject) {
	verifvf.Requires(s != nil)
	verifvf.ModifiesNothing()
	s.speedStrainValue(o)
}

//verif:contract (*SpeedSkill).speedStrainBonus
//verif:alt
//verif:opaque
//verif:nonfinite
//verif:allanyfloat
//verif:prop C22
func ctr_speedBonusAny(s *SpeedSkill, o *preprocessing.DifficultyObject) {
	verifvf.Requires(s != nil)
	verifvf.Modifies(&s.CurrentRhythm)
	s.speedStrainBonus(o)
}

// ---------- the delegates

//verif:fnspec skills.Skill.StrainValueOf
//verif:alt
//verif:lemma
//verif:nonfinite
//verif:allanyfloat
func ctr_valueAny(s *Skill, f func(obj *preprocessing.DifficultyObject) float64, o *preprocessing.DifficultyObject) {
	verifvf.ModifiesNothing()
	f(o)
}

//verif:fnspec skills.Skill.StrainBonusOf
//verif:alt
//verif:lemma
//verif:nonfinite
//verif:allanyfloat
func ctr_bonusAny(s *Skill, f func(obj *preprocessing.DifficultyObject) float64, o *preprocessing.DifficultyObject) {
	any := &SpeedSkill{}
	verifvf.ModifiesAny(&any.CurrentRhythm)
	f(o)
}

//verif:fnspec skills.Skill.CalculateInitialStrain
//verif:alt
//verif:lemma
//verif:nonfinite
//verif:allanyfloat
func ctr_initialAny(s *Skill, f func(time float64) float64, time float64) {
	verifvf.ModifiesNothing()
	f(time)
}

//verif:lemma
//verif:frame
//verif:nonfinite
//verif:allanyfloat
//verif:use skills.ctr_aimStrainAny
//verif:prop C22
func ctr_aimDelegatesAny(d *difficulty.Difficulty, withSliders bool, prev []*preprocessing.DifficultyObject, strain, time float64, o *preprocessing.DifficultyObject) {
	verifvf.ModifiesNothing()
	s := NewAimSkill(d, withSliders)
	s.Previous, s.CurrentStrain = prev, strain
	s.StrainValueOf(o)
	s.CalculateInitialStrain(time)
	verifvf.Ensures("aim has no strain bonus", s.StrainBonusOf == nil)
}

//verif:lemma
//verif:frame
//verif:nonfinite
//verif:allanyfloat
//verif:use skills.ctr_flashlightStrainAny
//verif:prop C22
func ctr_flashlightDelegatesAny(d *difficulty.Difficulty, prev []*preprocessing.DifficultyObject, strain, time float64, o *preprocessing.DifficultyObject) {
	verifvf.ModifiesNothing()
	s := NewFlashlightSkill(d)
	s.Previous, s.CurrentStrain = prev, strain
	s.StrainValueOf(o)
	s.CalculateInitialStrain(time)
	verifvf.Ensures("flashlight has no strain bonus", s.StrainBonusOf == nil)
}

//verif:lemma
//verif:frame
//verif:nonfinite
//verif:allanyfloat
//verif:use skills.ctr_speedStrainAny skills.ctr_speedBonusAny
//verif:prop C22
func ctr_speedDelegatesAny(d *difficulty.Difficulty, prev []*preprocessing.DifficultyObject, strain, rhythm, time float64, o *preprocessing.DifficultyObject) {
	verifvf.ModifiesNothing()
	s := NewSpeedSkill(d)
	s.Previous, s.CurrentStrain, s.CurrentRhythm = prev, strain, rhythm
	s.StrainValueOf(o)
	s.StrainBonusOf(o)
	s.CalculateInitialStrain(time)
}

// ---------- processing

//verif:contract (*Skill).Process
//verif:alt
//verif:opaque
//verif:nonfinite
//verif:allanyfloat
//verif:use skills.ctr_valueAny skills.ctr_bonusAny skills.ctr_initialAny
//verif:prop C22
func ctr_ProcessAny(s *Skill, o *preprocessing.DifficultyObject) {
	verifvf.Requires(s != nil)
	verifvf.Requires(s.HistoryLength >= 1)
	verifvf.Requires(s.StrainValueOf != nil && s.CalculateInitialStrain != nil)
	any := &SpeedSkill{}
	verifvf.ModifiesAny(&any.CurrentRhythm)
	verifvf.Modifies(&s.Previous)
	verifvf.ModifiesAnyElems(s.Previous)
	verifvf.Modifies(&s.strainPeaks)
	verifvf.ModifiesAnyElems(s.strainPeaks)
	verifvf.Modifies(&s.CurrentStrain)
	verifvf.Modifies(&s.currentSectionPeak)
	verifvf.Modifies(&s.currentSectionEnd)
	s.Process(o)
}

//verif:contract (*Skill).Process
//verif:alt
//verif:opaque
//verif:nonfinite
//verif:allanyfloat
//verif:use skills.ctr_valueAny skills.ctr_bonusAny skills.ctr_initialAny
//verif:prop C18
func ctr_ProcessSections(s *Skill, o *preprocessing.DifficultyObject) {
	verifvf.Requires(s != nil)
	verifvf.Requires(s.HistoryLength >= 1)
	verifvf.Requires(s.SectionLength == 400)
	verifvf.Requires(s.StrainValueOf != nil && s.CalculateInitialStrain != nil)
	n, np := len(s.strainPeaks), len(s.Previous)
	verifvf.Requires(verifvf.Fin(o.StartTime))
	verifvf.Requires(np == 0 || verifvf.Fin(s.currentSectionEnd))
	first := s_section(s.currentSectionEnd)
	if np == 0 {
		first = s_section(o.StartTime)
	}
	verifvf.Requires(np == 0 || s.currentSectionEnd == 400*first)
	last := math.Max(first, s_section(o.StartTime))
	any := &SpeedSkill{}
	verifvf.ModifiesAny(&any.CurrentRhythm)
	verifvf.Modifies(&s.Previous)
	verifvf.ModifiesAnyElems(s.Previous)
	verifvf.Modifies(&s.strainPeaks)
	verifvf.ModifiesAnyElems(s.strainPeaks)
	verifvf.Modifies(&s.CurrentStrain)
	verifvf.Modifies(&s.currentSectionPeak)
	verifvf.Modifies(&s.currentSectionEnd)
	verifvf.Invariant(func() bool {
		return s.currentSectionEnd == 400*(first+float64(len(s.strainPeaks)-n)) && len(s.strainPeaks) >= n
	})
	verifvf.Invariant(func() bool {
		return s.currentSectionEnd == 400*first || s.currentSectionEnd-400 < o.StartTime
	})
	s.Process(o)
	m := float64(len(s.strainPeaks) - n)
	here := s_section(o.StartTime)
	verifvf.Assert("the end is a multiple", s.currentSectionEnd == 400*(first+m))
	verifvf.Assert("the object starts before the end", here <= first+m)
	verifvf.Assert("no section too many", m == 0 || here > first+m-1)
	verifvf.Assert("the section is reached", m == 0 || here == first+m)
	verifvf.Ensures("the current section contains the object or ends later", verifvf.Eq(s.currentSectionEnd, 400*last))
	verifvf.Assert("sections are whole", math.Ceil(last) == last)
	verifvf.Assert("the end is that of the last section", s.currentSectionEnd == 400*last)
	verifvf.Assert("the end divided", s.currentSectionEnd/400 == last)
	verifvf.Assert("the quotient is whole", math.Ceil(s.currentSectionEnd/400) >= last && math.Ceil(s.currentSectionEnd/400) <= last)
	verifvf.Ensures("the section end is finite", verifvf.Fin(s.currentSectionEnd))
	verifvf.Ensures("section ends are multiples", s.currentSectionEnd == 400*s_section(s.currentSectionEnd))
	verifvf.Ensures("one peak for every section left, empty ones included", float64(len(s.strainPeaks)-n) == last-first)
	verifvf.Ensures("the object is remembered", len(s.Previous) > 0)
}

//verif:contract (*Skill).DifficultyValue
//verif:alt
//verif:opaque
//verif:nonfinite
//verif:prop C22
func ctr_ValueAny(s *Skill) {
	verifvf.Requires(s != nil)
	verifvf.ModifiesNothing()
	s.DifficultyValue()
}

func gen_ProcessAny(r *verifvf.Rand) (*Skill, *preprocessing.DifficultyObject) { return gen_Process(r) }
func gen_ProcessSections(r *verifvf.Rand) (*Skill, *preprocessing.DifficultyObject) {
	return gen_Process(r)
}
func gen_ValueAny(r *verifvf.Rand) *Skill { return gen_peaks(r) }

// S_Modifies allows changes of the skills themselves.
func S_Modifies() {
	speed, s := &SpeedSkill{}, &Skill{}
	verifvf.ModifiesAny(&speed.CurrentRhythm)
	verifvf.ModifiesAny(&s.Previous)
	verifvf.ModifiesAny(&s.strainPeaks)
	verifvf.ModifiesAny(&s.CurrentStrain)
	verifvf.ModifiesAny(&s.currentSectionPeak)
	verifvf.ModifiesAny(&s.currentSectionEnd)
}

// S_Sections is the number of sections the skill has seen, the current one included.
func (s *Skill) S_Sections() int { return len(s.strainPeaks) + 1 }

// S_Started: the skill has processed an object.
func (s *Skill) S_Started() bool { return len(s.Previous) > 0 }

// S_End is where the current section ends.
func (s *Skill) S_End() float64 { return s.currentSectionEnd }

// S_Multiple: sections end at multiples of their length.
func (s *Skill) S_Multiple() bool { return s.currentSectionEnd == 400*s_section(s.currentSectionEnd) }
