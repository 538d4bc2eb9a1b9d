//go:build go1.21

package verifvf

import (
	"fmt"
	"math"
	"reflect"
	"strings"
)

// Random .osu texts for the native runs.

// Coord is a playfield coordinate; coordinates coincide often so that stacks and overlaps arise.
func (r *Rand) Coord(max int) int {
	switch r.Intn(4) {
	case 0:
		return []int{0, 64, 100, 192, 256, max}[r.Intn(6)]
	case 1:
		return 100 + r.Intn(6)
	}
	return r.Intn(max + 1)
}

// SliderPath is a random "type|x:y|..." text.
func (r *Rand) SliderPath(x, y int) string {
	var sb strings.Builder
	sb.WriteString([]string{"B", "L", "P", "C", "B", "P", "X"}[r.Intn(7)])
	n := 1 + r.Intn(5)
	px, py := x, y
	for i := 0; i < n; i++ {
		if r.Intn(6) > 0 || i == 0 {
			px, py = px+r.Intn(161)-80, py+r.Intn(161)-80
		}
		if r.Intn(12) == 0 {
			px, py = x, y
		}
		fmt.Fprintf(&sb, "|%d:%d", px, py)
	}
	return sb.String()
}

// HitObjectLine is a random well-formed hit object at time t; it returns the line and the time it ends (sliders: a guess).
func (r *Rand) HitObjectLine(t int) (string, int) {
	x, y := r.Coord(512), r.Coord(384)
	typ := 0
	if r.Intn(4) == 0 {
		typ |= 4
		typ |= r.Intn(8) << 4
	}
	if r.Intn(6) == 0 { // a colour offset, whether or not a combo starts here
		typ = typ&^(7<<4) | r.Intn(8)<<4
	}
	at := fmt.Sprint(t)
	if r.Intn(6) == 0 { // times need not be whole
		at += []string{".5", ".25", ".9"}[r.Intn(3)]
	}
	switch r.Intn(8) {
	case 0:
		d := 1 + r.Intn(1500)
		if r.Intn(8) == 0 {
			at, d = fmt.Sprint(t), 0
		}
		return fmt.Sprintf("256,192,%s,%d,0,%d", at, typ|8, t+d), t + d
	case 1, 2, 3:
		rep := 1
		if r.Intn(3) == 0 {
			rep = r.Intn(6)
		}
		l := []string{"100", "70", "140.5", "35", "0", "210", "-5"}[r.Intn(7)]
		if r.Bool() {
			l = fmt.Sprintf("%.3f", 10+250*r.Float64())
		}
		return fmt.Sprintf("%d,%d,%s,%d,0,%s,%d,%s", x, y, at, typ|2, r.SliderPath(x, y), rep, l), t + rep*200
	}
	return fmt.Sprintf("%d,%d,%s,%d,0", x, y, at, typ|1), t
}

// BeatmapText is a random beatmap with up to max objects.
func (r *Rand) BeatmapText(max int) string {
	var sb strings.Builder
	v := 3 + r.Intn(12)
	fmt.Fprintf(&sb, "osu file format v%d\n\n[General]\nAudioFilename: a.mp3\nMode: 0\n", v)
	if r.Intn(4) > 0 {
		fmt.Fprintf(&sb, "StackLeniency: %.2f\n", r.Float64()*1.2)
	}
	sb.WriteString("\n[Metadata]\nTitle:t\nArtist:a\nCreator:c\n\n[Difficulty]\n")
	fmt.Fprintf(&sb, "HPDrainRate:%d\nCircleSize:%.1f\nOverallDifficulty:%.1f\n", r.Intn(11), r.Float64()*10, r.Float64()*10)
	if r.Intn(3) > 0 {
		fmt.Fprintf(&sb, "ApproachRate:%.1f\n", r.Float64()*10)
	}
	fmt.Fprintf(&sb, "SliderMultiplier:%.2f\nSliderTickRate:%d\n\n[TimingPoints]\n", 0.4+3.2*r.Float64(), 1+r.Intn(4))
	fmt.Fprintf(&sb, "%d,%.2f,4,2,0,50,1,0\n", r.Intn(300), 200+800*r.Float64())
	for i := r.Intn(5); i > 0; i-- {
		t := r.Intn(5000)
		switch r.Intn(4) {
		case 0:
			fmt.Fprintf(&sb, "%d,%.2f,4,2,0,50,1,0\n", t, 100+900*r.Float64())
		case 1:
			fmt.Fprintf(&sb, "%d,NaN,4,2,0,50,%d,0\n", t, r.Intn(2))
		default:
			fmt.Fprintf(&sb, "%d,-%d,4,2,0,50,0,0\n", t, []int{50, 100, 200, 5, 2000, 75}[r.Intn(6)])
		}
	}
	sb.WriteString("\n[HitObjects]\n")
	t := r.Intn(600)
	n := r.Intn(max + 1)
	scale := []int{60, 200, 600, 2000}[r.Intn(4)]
	prev := ""
	for i := 0; i < n; i++ {
		line, end := r.HitObjectLine(t)
		if prev != "" && r.Intn(4) == 0 { // stacked on the object before
			p, q := strings.SplitN(prev, ",", 3), strings.SplitN(line, ",", 3)
			if !strings.Contains(line, "|") {
				line = p[0] + "," + p[1] + "," + q[2]
			}
		}
		sb.WriteString(line + "\n")
		prev = line
		switch r.Intn(8) {
		case 0: // at the same time
		case 1:
			t = end + r.Intn(scale)
		case 2:
			t -= r.Intn(100) // out of order
			if t < 0 {
				t = 0
			}
		default:
			t += 30 + r.Intn(scale)
		}
	}
	return sb.String()
}

// Mods are the modifier bits of a random combination of difficulty-relevant mods.
func (r *Rand) Mods() int64 {
	m := int64(0)
	for _, b := range []int64{1 << 1, 1 << 3, 1 << 4, 1 << 6, 1 << 8, 1 << 10, 1 << 7, 1 << 0, 1 << 12} {
		if r.Intn(4) == 0 {
			m |= b
		}
	}
	if m&(1<<1) != 0 {
		m &^= 1 << 4
	}
	return m
}

// Deep is a complete textual picture of a value (functions by presence, shared and cyclic pointers by order of visit).
func Deep(x any) string {
	var sb strings.Builder
	deep(reflect.ValueOf(x), map[uintptr]int{}, &sb)
	return sb.String()
}

func deep(v reflect.Value, seen map[uintptr]int, sb *strings.Builder) {
	switch v.Kind() {
	case reflect.Invalid:
		sb.WriteString("nil")
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if n, ok := seen[v.Pointer()]; ok {
			fmt.Fprintf(sb, "#%d", n)
			return
		}
		seen[v.Pointer()] = len(seen)
		sb.WriteString("&")
		deep(v.Elem(), seen, sb)
	case reflect.Interface:
		deep(v.Elem(), seen, sb)
	case reflect.Struct:
		sb.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			sb.WriteString(v.Type().Field(i).Name + ":")
			deep(v.Field(i), seen, sb)
			sb.WriteString(" ")
		}
		sb.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			deep(v.Index(i), seen, sb)
			sb.WriteString(" ")
		}
		sb.WriteString("]")
	case reflect.Func:
		fmt.Fprintf(sb, "func(%v)", !v.IsNil())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(sb, "%x", math.Float64bits(v.Float()))
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Map:
		fmt.Fprintf(sb, "map(%d)", v.Len())
	default:
		fmt.Fprintf(sb, "%v", v)
	}
}

func apart(p, q any) bool {
	a, b := reflect.ValueOf(p), reflect.ValueOf(q)
	if a.Kind() != reflect.Slice || b.Kind() != reflect.Slice {
		return a.Pointer() != b.Pointer()
	}
	if a.Cap() == 0 || b.Cap() == 0 {
		return true
	}
	as, bs := a.Pointer(), b.Pointer()
	return as+uintptr(a.Cap())*a.Type().Elem().Size() <= bs || bs+uintptr(b.Cap())*b.Type().Elem().Size() <= as
}
