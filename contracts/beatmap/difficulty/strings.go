//go:build go1.21

package difficulty

// Contracts of the mod names (C04).

import (
	"strings"

	"github.com/Wieku/gosu-pp/verifvf"
)

// The named mods in bit order.
var s_short = strings.Fields("NF EZ TD HD HR SD DT RX HT NC FL AT SO AP PF K4 K5 K6 K7 K8 FI RN CN TG K9 K0 K1 K3 K2 V2 LM DC")

var s_full = strings.Fields("NoFail Easy TouchDevice Hidden HardRock SuddenDeath DoubleTime Relax HalfTime Nightcore Flashlight Autoplay SpunOut Relax2 Perfect Key4 Key5 Key6 Key7 Key8 FadeIn Random Cinema Target Key9 KeyCoop Key1 Key3 Key2 ScoreV2 LastMod Daycore")

const s_named = Modifier(1<<32 - 1)

// s_implied adds the mods implied by a combination.
func s_implied(m Modifier) Modifier {
	if m&(1<<9) != 0 {
		m |= 1 << 6
	}
	if m&(1<<14) != 0 {
		m |= 1 << 5
	}
	if m&(1<<31) != 0 {
		m |= 1 << 8
	}
	return m
}

func gen_named(r *verifvf.Rand) Modifier {
	m := Modifier(r.Bits()) & (1<<32 - 1)
	switch r.Intn(3) {
	case 0: // few mods
		m = 1<<uint(r.Intn(32)) | 1<<uint(r.Intn(32))
	case 1:
		m &= Modifier(r.Bits())
	}
	if r.Intn(8) == 0 {
		m = 0
	}
	return m
}

func gen_RoundTrip(r *verifvf.Rand) Modifier { return gen_named(r) }

//verif:lemma
//verif:prop C04
//verif:bounded strings are outside the prover; random combinations of the 32 bits, small ones preferred
func ctr_RoundTrip(m Modifier) {
	verifvf.Requires(m&^s_named == 0)
	verifvf.Ensures("parsing the short string gives the combination and what it implies", ParseMods(m.String()) == s_implied(m))
	short, full := m.String(), m.StringFull()
	verifvf.Ensures("the short and the full format name as many mods", len(short) == 2*len(full))
	same, last := true, -1
	for i, f := range full {
		at := -1
		for b := range s_full {
			if s_full[b] == f {
				at = b
			}
		}
		same = same && at > last && m&(1<<uint(at)) != 0 && short[2*i:2*i+2] == s_short[at]
		if at > last {
			last = at
		}
	}
	verifvf.Ensures("both formats name the same mods of the combination, in bit order", same)
}

func gen_ParseMods(r *verifvf.Rand) string {
	var sb strings.Builder
	for i := r.Intn(6); i > 0; i-- {
		switch r.Intn(8) {
		case 0:
			sb.WriteString([]string{"é", "€", "x", "NC", "D", "\xff", "H\x00", "dt", " ", "TD", "𝄞"}[r.Intn(11)])
		case 1:
			sb.WriteByte(byte(r.Intn(256)))
		default:
			sb.WriteString(s_short[r.Intn(32)])
		}
	}
	return sb.String()
}

//verif:contract ParseMods
//verif:prop C04
//verif:bounded strings are outside the prover; random strings of abbreviations, incomplete ones and other bytes
func ctr_ParseMods(text string) {
	want := Modifier(0)
	for i := 0; i+2 <= len(text); i += 2 {
		for b, s := range s_short {
			if text[i:i+2] == s {
				want |= 1 << uint(b)
			}
		}
	}
	got := ParseMods(text)
	verifvf.Ensures("the bits of the abbreviations at aligned positions and what they imply", got == s_implied(want))
}

// Parsing never fails and keeps the implied mods, whatever the text.
//
//verif:contract ParseMods
//verif:prop C04
func ctr_ParseModsClosed(text string) {
	verifvf.ModifiesNothing()
	verifvf.Invariant(func(m Modifier) bool { return m&^s_named == 0 })
	got := ParseMods(text)
	verifvf.Ensures("only the named mods", got&^s_named == 0)
	verifvf.Ensures("what is implied is there", got == s_implied(got))
}

func gen_ParseModsClosed(r *verifvf.Rand) string { return gen_ParseMods(r) }
