//go:build go1.21

package skills

// Contracts of the strain skills (C18, C19).

import (
	"math"

	"github.com/Wieku/gosu-pp/verifvf"
)

// ---------- C19

func gen_peaks(r *verifvf.Rand) *Skill {
	s := NewSkill(nil)
	n := r.Intn(14)
	for i := 0; i < n; i++ {
		switch r.Intn(4) {
		case 0:
			s.strainPeaks = append(s.strainPeaks, float64(r.Intn(3)))
		default:
			s.strainPeaks = append(s.strainPeaks, r.Float64()*100)
		}
	}
	s.currentSectionPeak = r.Float64() * 100
	if r.Bool() {
		s.ReducedSectionCount = 1 + r.Intn(12)
		s.ReducedStrainBaseline = r.Float64()
		s.DecayWeight = r.Float64()
		s.DifficultyMultiplier = r.Float64() * 2
	}
	return s
}

func gen_GetCurrentStrainPeaks(r *verifvf.Rand) *Skill { return gen_peaks(r) }
func gen_DifficultyValue(r *verifvf.Rand) *Skill       { return gen_peaks(r) }

// s_peaks are the peaks of the finished sections followed by the current one.
func s_peak(s *Skill, i int) float64 {
	if i == len(s.strainPeaks) {
		return s.currentSectionPeak
	}
	return s.strainPeaks[i]
}

//verif:contract (*Skill).GetCurrentStrainPeaks
//verif:prop C19
func ctr_GetCurrentStrainPeaks(s *Skill) {
	verifvf.Requires(s != nil)
	verifvf.ModifiesNothing()
	n := len(s.strainPeaks)
	old := verifvf.Memo(n+1, func(i int) float64 { return s_peak(s, i) })
	p := s.GetCurrentStrainPeaks()
	verifvf.Ensures("one peak for each section including the current one", len(p) == n+1)
	verifvf.Ensures("the peaks are those of the sections in order", verifvf.Forall(0, n+1, func(i int) bool { return p[i] == old(i) }))
	verifvf.Ensures("the peaks are a private copy", verifvf.Fresh(p))
	if verifvf.Concrete() {
		for i := range p {
			p[i] = -1
		}
		verifvf.Ensures("changing the peaks does not change the skill", verifvf.Forall(0, n+1, func(i int) bool { return s_peak(s, i) == old(i) }))
	}
}

//verif:rec
func s_pow(b float64, n int) float64 {
	if n <= 0 {
		return 1
	}
	return s_pow(b, n-1) * b
}

func s_reduction(i, count int, baseline float64) float64 {
	return baseline + (1-baseline)*math.Log10(1+9*math.Min(1, math.Max(0, float64(i)/float64(count))))
}

//verif:contract (*Skill).DifficultyValue
//verif:eagerfin
//verif:prop C19
func ctr_DifficultyValue(s *Skill) {
	verifvf.Requires(s != nil)
	verifvf.Requires(s.ReducedSectionCount > 0)
	verifvf.Requires(s.ReducedStrainBaseline >= 0)
	verifvf.Requires(s.ReducedStrainBaseline <= 1)
	verifvf.Requires(s.DecayWeight >= 0)
	verifvf.Requires(s.DifficultyMultiplier >= 0)
	verifvf.Requires(s.currentSectionPeak >= 0)
	verifvf.Requires(verifvf.Forall(0, len(s.strainPeaks), func(i int) bool { return s.strainPeaks[i] >= 0 }))
	verifvf.ModifiesNothing()
	n := len(s.strainPeaks) + 1
	cnt, base, dw, mult := s.ReducedSectionCount, s.ReducedStrainBaseline, s.DecayWeight, s.DifficultyMultiplier
	hard := verifvf.SortedDesc(n, verifvf.Memo(n, func(i int) float64 { return s_peak(s, i) }))
	red := verifvf.Memo(n, func(i int) float64 {
		if i < cnt {
			return hard(i) * s_reduction(i, cnt, base)
		}
		return hard(i)
	})
	fin := verifvf.SortedDesc(n, red)
	verifvf.Assert("sorted peaks are not negative", verifvf.Forall(0, n, func(i int) bool { return hard(i) >= 0 }))
	verifvf.Assert("reductions are not negative", verifvf.Forall(0, n, func(i int) bool { return s_reduction(i, cnt, base) >= 0 }))
	verifvf.Assert("reduced peaks are not negative", verifvf.Forall(0, n, func(i int) bool { return red(i) >= 0 }))
	verifvf.Assert("sorted reduced peaks are not negative", verifvf.Forall(0, n, func(i int) bool { return fin(i) >= 0 }))
	term := verifvf.Memo(n, func(i int) float64 { return fin(i) * s_pow(dw, i) })
	verifvf.Invariant(func(k int, lstrains []float64) bool {
		return len(lstrains) == n && verifvf.Forall(0, k, func(i int) bool { return lstrains[i] == red(i) })
	})
	verifvf.Invariant(func(k int, lstrains []float64) bool {
		return verifvf.Forall(k, n, func(i int) bool { return lstrains[i] == hard(i) })
	})
	verifvf.Invariant(func(k int, lstrains []float64) bool {
		return len(lstrains) == n && verifvf.Forall(0, n, func(i int) bool { return lstrains[i] == fin(i) })
	})
	verifvf.Invariant(func(k int, weight float64) bool { return weight == s_pow(dw, k) && weight >= 0 })
	verifvf.Invariant(func(k int, diff float64) bool { return diff == verifvf.Sum(k, term) && diff >= 0 })
	v := s.DifficultyValue()
	verifvf.Ensures("the value is the weighted sum of the reduced peaks", verifvf.Eq(v, mult*verifvf.Sum(n, term)))
	verifvf.Ensures("the value is not negative", v >= 0)
	if verifvf.Concrete() {
		verifvf.Ensures("reading again gives the same value", s.DifficultyValue() == v)
	}
}
