//go:build go1.21

package difficulty

// Contracts of the mod rules (C05).

import "github.com/Wieku/gosu-pp/verifvf"

func s_incompatible(m Modifier) bool {
	nc, ht := m&(sNC|sDT) != 0, m&(sHT|sDC) != 0
	pf, rx := m&(sPF|sSD) != 0, m&(sRX|sAP) != 0
	return m&sTG != 0 ||
		m&sHR != 0 && m&sEZ != 0 ||
		nc && ht ||
		pf && m&sNF != 0 ||
		m&sRX != 0 && m&sAP != 0 ||
		rx && (pf || m&sAT != 0 || m&sNF != 0) ||
		m&sAP != 0 && m&sSO != 0
}

func gen_Compatible(r *verifvf.Rand) (m, k Modifier) { return Modifier(r.Bits()), Modifier(r.Bits()) }

//verif:lemma
//verif:prop C05
func ctr_Compatible(m, k Modifier) {
	verifvf.Requires(m >= 0)
	c := m.Compatible()
	verifvf.Ensures("incompatible exactly when it contains Target or a conflicting pair", c == !s_incompatible(m))
	verifvf.Ensures("removing mods keeps a compatible combination compatible", !c || (m&k).Compatible())
}

func gen_Multiplier(r *verifvf.Rand) Modifier { return Modifier(r.Bits()) }

//verif:contract Modifier.GetScoreMultiplier
//verif:prop C05
func ctr_Multiplier(m Modifier) {
	verifvf.Requires(m >= 0)
	r := m.GetScoreMultiplier()
	v2 := m&sV2 != 0
	f := func(b Modifier, x float64) float64 {
		if m&b != 0 {
			return x
		}
		return 1
	}
	or := func(c bool, x, y float64) float64 {
		if c {
			return x
		}
		return y
	}
	want := f(sEZ, 0.5) * f(sHT, 0.3) * f(sHD, 1.06) * f(sFL, 1.12) * f(sSO, 0.9) *
		f(sHR, or(v2, 1.10, 1.06)) * f(sDT, or(v2, 1.20, 1.12)) * f(sNF, or(v2, 1, 0.5))
	if m&(sRX|sAP) != 0 {
		want = 0
	}
	verifvf.Ensures("the multiplier is the product over the active mods", verifvf.Eq(r, want))
}

func gen_Active(r *verifvf.Rand) (m, k Modifier) { return Modifier(r.Bits()), Modifier(r.Bits()) }

//verif:contract Modifier.Active
//verif:prop C05
func ctr_Active(m, k Modifier) {
	verifvf.Requires(m >= 0 && k >= 0)
	r := m.Active(k)
	verifvf.Ensures("active exactly when a bit is shared", r == (m&k != 0))
}
