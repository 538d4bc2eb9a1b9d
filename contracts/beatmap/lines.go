//go:build go1.21

package beatmap

// Contracts of the line level of the parser (C13).
//
//verif:anyfloat beatmap.Pause.StartTime beatmap.Pause.EndTime beatmap.BeatMap.MinBPM beatmap.BeatMap.MaxBPM timing.ControlPoint.beatLength timing.ControlPoint.beatLengthBase timing.ControlPoint.SampleVolume E:timing.ControlPoint.beatLength E:timing.ControlPoint.beatLengthBase E:timing.ControlPoint.SampleVolume

import (
	"strings"

	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/verifvf"
)

func gen_raw(r *verifvf.Rand) string {
	var sb strings.Builder
	for i := r.Intn(8); i > 0; i-- {
		sb.WriteString([]string{",", ":", " ", "//", "[", "]", "5", "NaN", "-100", "Break", "2", "0", "1e400", "bg", "\t", "General"}[r.Intn(16)])
	}
	return sb.String()
}

func gen_getSection(r *verifvf.Rand) string { return gen_raw(r) }

//verif:contract getSection
//verif:prop C13
func ctr_getSection(line string) {
	verifvf.ModifiesNothing()
	s := getSection(line)
	verifvf.Ensures("only a line with an opening bracket names a section", s == "" || strings.HasPrefix(strings.TrimSpace(line), "["))
}

func gen_parseEvents(r *verifvf.Rand) ([]string, *BeatMap) {
	return strings.Split(gen_raw(r), ","), gen_map(r)
}

//verif:contract parseEvents
//verif:prop C13
//verif:nilcheck
func ctr_parseEvents(line []string, b *BeatMap) {
	verifvf.Requires(b != nil && len(line) > 0)
	n := len(b.Pauses)
	parseEvents(line, b)
	verifvf.Ensures("at most one pause is added, from a line of three fields", len(b.Pauses) == n || len(b.Pauses) == n+1 && len(line) >= 3)
}

func gen_parseHitObjects(r *verifvf.Rand) ([]string, *BeatMap) {
	l, _ := r.HitObjectLine(r.Intn(900))
	return strings.Split(l, ","), gen_map(r)
}

//verif:contract parseHitObjects
//verif:prop C13
//verif:nilcheck
func ctr_parseHitObjects(line []string, b *BeatMap) {
	verifvf.Requires(b != nil && objects.IsValidData(line))
	n := len(b.HitObjects)
	parseHitObjects(line, b)
	m := len(b.HitObjects)
	verifvf.Ensures("at most one object is added", m == n || m == n+1 && b.HitObjects[n] != nil)
}

func gen_ParsePoint(r *verifvf.Rand) (*BeatMap, string) { return gen_map(r), gen_raw(r) }

//verif:contract (*BeatMap).ParsePoint
//verif:prop C13
//verif:nilcheck
func ctr_ParsePoint(b *BeatMap, point string) {
	verifvf.Requires(b != nil && b.Timings != nil && strings.Contains(point, ","))
	b.ParsePoint(point)
}
