//go:build go1.21

package objects

// Contracts of the stack heights of the hit objects (C16).

import (
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/math/vector"
	"github.com/Wieku/gosu-pp/verifvf"
)

func s_hr(m difficulty.Modifier) bool { return m.Active(difficulty.HardRock) }

func s_ez(m difficulty.Modifier) bool { return !s_hr(m) && m.Active(difficulty.Easy) }

// S_Height is the stack height of an object in the mode of the mods.
func S_Height(h *HitObject, m difficulty.Modifier) int {
	if s_hr(m) {
		return h.StackIndexHR
	}
	if s_ez(m) {
		return h.StackIndexEZ
	}
	return h.StackIndex
}

// S_Offset is the displacement of an object in the mode of the mods.
func S_Offset(h *HitObject, m difficulty.Modifier) vector.Vector2f {
	if s_hr(m) {
		return h.StackOffsetHR
	}
	if s_ez(m) {
		return h.StackOffsetEZ
	}
	return h.StackOffset
}

func gen_hit(r *verifvf.Rand) *HitObject {
	v := func() vector.Vector2f { return vector.NewVec2f(float32(r.Intn(512)), float32(r.Intn(384))) }
	return &HitObject{StartPosRaw: v(), EndPosRaw: v(), StackOffset: v(), StackOffsetEZ: v(), StackOffsetHR: v(),
		StackIndex: r.Intn(9) - 2, StackIndexEZ: r.Intn(9) - 2, StackIndexHR: r.Intn(9) - 2}
}

func gen_stackMods(r *verifvf.Rand) difficulty.Modifier {
	m := difficulty.Modifier(r.Intn(1 << 20))
	switch r.Intn(3) {
	case 0:
		m &^= difficulty.Easy
	case 1:
		m &^= difficulty.HardRock
	}
	return m
}

//verif:contract (*HitObject).GetStackIndex
//verif:inline
//verif:prop C16
func ctr_GetStackIndex(h *HitObject, m difficulty.Modifier) {
	verifvf.Requires(h != nil && m >= 0)
	verifvf.ModifiesNothing()
	want := S_Height(h, m)
	got := h.GetStackIndex(m)
	verifvf.Ensures("the height of the mode", got == want)
}

func gen_GetStackIndex(r *verifvf.Rand) (*HitObject, difficulty.Modifier) {
	return gen_hit(r), gen_stackMods(r)
}

//verif:contract (*HitObject).SetStackIndex
//verif:inline
//verif:prop C16
func ctr_SetStackIndex(h *HitObject, index int, m difficulty.Modifier) {
	verifvf.Requires(h != nil && m >= 0)
	verifvf.Modifies(&h.StackIndex)
	verifvf.Modifies(&h.StackIndexEZ)
	verifvf.Modifies(&h.StackIndexHR)
	n, e, x := h.StackIndex, h.StackIndexEZ, h.StackIndexHR
	h.SetStackIndex(index, m)
	verifvf.Ensures("the height of the mode is set", S_Height(h, m) == index)
	verifvf.Ensures("the heights of Hard Rock stay in the other modes", s_hr(m) || h.StackIndexHR == x)
	verifvf.Ensures("the heights of Easy stay in the other modes", s_ez(m) || h.StackIndexEZ == e)
	verifvf.Ensures("the heights without mods stay in the other modes", !s_hr(m) && !s_ez(m) || h.StackIndex == n)
}

func gen_SetStackIndex(r *verifvf.Rand) (*HitObject, int, difficulty.Modifier) {
	return gen_hit(r), r.Intn(9) - 2, gen_stackMods(r)
}

//verif:contract (*HitObject).SetStackOffset
//verif:inline
//verif:prop C16
func ctr_SetStackOffset(h *HitObject, offset float32, m difficulty.Modifier) {
	verifvf.Requires(h != nil && m >= 0)
	verifvf.Modifies(&h.StackOffset)
	verifvf.Modifies(&h.StackOffsetEZ)
	verifvf.Modifies(&h.StackOffsetHR)
	n, e, x := h.StackOffset, h.StackOffsetEZ, h.StackOffsetHR
	h.SetStackOffset(offset, m)
	verifvf.Ensures("the object moves diagonally", S_Offset(h, m) == vector.Vector2f{X: offset, Y: offset})
	verifvf.Ensures("the offset of Hard Rock stays in the other modes", s_hr(m) || h.StackOffsetHR == x)
	verifvf.Ensures("the offset of Easy stays in the other modes", s_ez(m) || h.StackOffsetEZ == e)
	verifvf.Ensures("the offset without mods stays in the other modes", !s_hr(m) && !s_ez(m) || h.StackOffset == n)
}

func gen_SetStackOffset(r *verifvf.Rand) (*HitObject, float32, difficulty.Modifier) {
	return gen_hit(r), float32(r.Intn(90)-20) / 4, gen_stackMods(r)
}

func s_moved(p vector.Vector2f, h *HitObject, m difficulty.Modifier) vector.Vector2f {
	if s_hr(m) {
		p.Y = 384 - p.Y
	}
	o := S_Offset(h, m)
	return vector.Vector2f{X: p.X + o.X, Y: p.Y + o.Y}
}

//verif:contract (*HitObject).GetStackedStartPositionMod
//verif:prop C16
func ctr_GetStackedStartPositionMod(h *HitObject, m difficulty.Modifier) {
	verifvf.Requires(h != nil && m >= 0)
	verifvf.ModifiesNothing()
	want := s_moved(h.StartPosRaw, h, m)
	got := h.GetStackedStartPositionMod(m)
	verifvf.Ensures("the start is displaced by the offset of the mode", s_closeTo(got, want))
}

func gen_GetStackedStartPositionMod(r *verifvf.Rand) (*HitObject, difficulty.Modifier) {
	return gen_hit(r), gen_stackMods(r)
}

//verif:contract (*HitObject).GetStackedEndPositionMod
//verif:prop C16
func ctr_GetStackedEndPositionMod(h *HitObject, m difficulty.Modifier) {
	verifvf.Requires(h != nil && m >= 0)
	verifvf.ModifiesNothing()
	want := s_moved(h.EndPosRaw, h, m)
	got := h.GetStackedEndPositionMod(m)
	verifvf.Ensures("the end is displaced by the offset of the mode", s_closeTo(got, want))
}

func gen_GetStackedEndPositionMod(r *verifvf.Rand) (*HitObject, difficulty.Modifier) {
	return gen_hit(r), gen_stackMods(r)
}

// S_Base is the common part of a hit object.
func S_Base(o IHitObject) *HitObject {
	switch v := o.(type) {
	case *Circle:
		return v.HitObject
	case *Slider:
		return v.HitObject
	case *Spinner:
		return v.HitObject
	}
	return nil
}
