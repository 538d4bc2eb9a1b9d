//go:build go1.21

package beatmap

// Contracts of whole beatmaps (C15, C16).

import (
	"strconv"
	"strings"
	"unicode/utf16"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/verifvf"
)

func gen_Numbering(r *verifvf.Rand) string { return r.BeatmapText(14) }

//verif:lemma
//verif:prop C15
//verif:bounded the parser reads its text through the standard library; random beatmaps of up to 14 objects
func ctr_Numbering(text string) {
	b, err := ParseFromByte([]byte(text))
	verifvf.Requires(err == nil)
	ordered, ids, combos, sets, flags := true, true, true, true, true
	last, number, set, hax, pending := 0.0, 1, 0, 0, false
	raw, offsets := s_newCombos(text)
	colours := true
	for i, o := range b.HitObjects {
		h := objects.S_Base(o)
		colours = colours && h.ColorOffset == offsets[i]
		ordered = ordered && (i == 0 || last <= h.StartTime)
		last = h.StartTime
		ids = ids && h.HitObjectID == i
		if i > 0 {
			number++
		}
		if s_spinner(o) {
			pending = true
		} else {
			want := raw[i] || pending
			flags = flags && h.NewCombo == want
			if want {
				number, pending = 1, false
				set++
				hax += 1 + offsets[i]
			}
		}
		combos = combos && h.ComboNumber == number
		sets = sets && h.ComboSet == set && h.ComboSetHax == hax
	}
	verifvf.Ensures("all the objects of the text are there", len(raw) == len(b.HitObjects))
	verifvf.Ensures("the objects are in order of time", ordered)
	verifvf.Ensures("the identifiers count up from 0", ids)
	verifvf.Ensures("a combo starts where the text says or after a spinner", flags)
	verifvf.Ensures("the combo numbers count up and restart at each new combo", combos)
	verifvf.Ensures("colour offsets are those of the text", colours)
	verifvf.Ensures("the combo indices grow at each new combo", sets)
}

// s_newCombos are the new combo flags and colour offsets of the hit object lines of a well-formed text, in order of time.
func s_newCombos(text string) ([]bool, []int) {
	type obj struct {
		t      float64
		combo  bool
		offset int
	}
	var os []obj
	in := false
	for _, l := range s_lines(text) {
		if l == "[HitObjects]" {
			in = true
			continue
		}
		if f := s_fields(l); in && len(f) > 4 {
			o := obj{s_number(f[2]), s_atoi(f[3])&4 != 0, s_atoi(f[3]) >> 4 & 7}
			at := len(os)
			for at > 0 && os[at-1].t > o.t {
				at--
			}
			os = append(os, obj{})
			copy(os[at+1:], os[at:])
			os[at] = o
		}
	}
	r, c := make([]bool, len(os)), make([]int, len(os))
	for i, o := range os {
		r[i], c[i] = o.combo, o.offset
	}
	return r, c
}

func gen_StackAgain(r *verifvf.Rand) (string, []int) {
	hs := make([]int, 3*12)
	for i := range hs {
		hs[i] = r.Intn(7) - 2
	}
	return r.BeatmapText(12), hs
}

//verif:lemma
//verif:prop C16
//verif:bounded compares two runs of the stacking algorithm; random beatmaps of up to 12 objects and random earlier heights
func ctr_StackAgain(text string, heights []int) {
	b, err := ParseFromByte([]byte(text))
	verifvf.Requires(err == nil)
	before := verifvf.Deep(b)
	spoil := func() {
		for i, o := range b.HitObjects {
			h := objects.S_Base(o)
			h.StackIndex, h.StackIndexEZ, h.StackIndexHR = heights[3*i], heights[3*i+1], heights[3*i+2]
		}
	}
	own := true
	for _, m := range []difficulty.Modifier{difficulty.None, difficulty.Easy, difficulty.HardRock} {
		var want []int
		for _, o := range b.HitObjects {
			want = append(want, o.GetStackIndex(m))
		}
		spoil()
		d := difficulty.NewDifficulty(b.Difficulty.GetHP(), b.Difficulty.GetCS(), b.Difficulty.GetOD(), b.Difficulty.GetAR())
		d.SetMods(m)
		processStacking(b.HitObjects, b.FileVersion, d, b.StackLeniency)
		for i, o := range b.HitObjects {
			own = own && o.GetStackIndex(m) == want[i]
		}
		calculateStackLeniency(b)
	}
	verifvf.Ensures("the heights of a mode depend on no heights of this or another mode", own)
	spoil()
	calculateStackLeniency(b)
	verifvf.Ensures("stacking again gives the same beatmap, whatever the heights were", verifvf.Deep(b) == before)
	flat := true
	for _, o := range b.HitObjects {
		h := objects.S_Base(o)
		flat = flat && (!s_spinner(o) || s_flat(h) && h.StackOffset.Len()+h.StackOffsetEZ.Len()+h.StackOffsetHR.Len() == 0)
	}
	verifvf.Ensures("spinners are never displaced", flat)
}

func s_lines(text string) []string { return strings.Split(text, "\n") }

func s_fields(line string) []string { return strings.Split(line, ",") }

func s_atoi(s string) int {
	v, _ := strconv.Atoi(s)
	return v
}

func gen_Encodings(r *verifvf.Rand) (string, string) {
	var sb strings.Builder
	for i := r.Intn(7); i > 0; i-- {
		sb.WriteRune([]rune{'a', 'é', '日', '本', '𝄞', 'ß', 'Ω', '\u200b', '~', '\u3042'}[r.Intn(10)])
	}
	return r.BeatmapText(4), sb.String()
}

func s_utf16(text string, high, low int) []byte {
	var b []byte
	for _, u := range append([]uint16{0xFEFF}, utf16.Encode([]rune(text))...) {
		p := [2]byte{}
		p[high], p[low] = byte(u>>8), byte(u)
		b = append(b, p[0], p[1])
	}
	return b
}

//verif:lemma
//verif:prop C27
//verif:bounded the decoders are in golang.org/x/text, outside the repository; random beatmaps with names of mixed scripts
func ctr_Encodings(text, name string) {
	text = strings.Replace(text, "Title:t\n", "Title:t"+name+"\nTitleUnicode:"+name+"!\n", 1)
	plain, err := ParseFromByte([]byte(text))
	want := verifvf.Deep(plain)
	verifvf.Ensures("the names are those of the text", err != nil || plain.TitleUnicode == strings.TrimSpace(name+"!") && plain.Title == strings.TrimSpace("t"+name))
	same := func(what string, data []byte) {
		m, e := ParseFromByte(data)
		verifvf.Ensures(what, (e != nil) == (err != nil) && verifvf.Deep(m) == want)
	}
	same("UTF-8 with a byte order mark", append([]byte{0xEF, 0xBB, 0xBF}, text...))
	same("UTF-16, little end first", s_utf16(text, 1, 0))
	same("UTF-16, big end first", s_utf16(text, 0, 1))
}
