//go:build go1.21

package beatmap

// Contracts of the key/value sections of the parser (C14, C28).
//
//verif:anyfloat beatmap.BeatMap.StackLeniency beatmap.BeatMap.MinBPM beatmap.BeatMap.MaxBPM difficulty.Difficulty.ARReal difficulty.Difficulty.ODReal

import (
	"math"
	"strconv"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/timing"
	"github.com/Wieku/gosu-pp/verifvf"
)

// ---------- generators

func gen_map(r *verifvf.Rand) *BeatMap {
	b := NewBeatMap()
	w := func() string {
		if r.Intn(3) == 0 {
			return ""
		}
		return strconv.Itoa(r.Intn(1000))
	}
	b.Title, b.TitleUnicode, b.Artist, b.ArtistUnicode = w(), w(), w(), w()
	b.Creator, b.Version, b.Source, b.Tags, b.Audio, b.Bg = w(), w(), w(), w(), w(), w()
	b.MapID, b.SetID, b.PreviewTime, b.Mode = int64(r.Intn(9)), int64(r.Intn(9)), int64(r.Intn(9)), r.Intn(4)
	set := func() float64 {
		if r.Bool() {
			return float64(r.Intn(11))
		}
		return r.Float64() * 10
	}
	hp, cs, od, ar := set(), set(), set(), set()
	b.arSpecified = r.Bool()
	if !b.arSpecified {
		ar = od
	}
	b.Difficulty = difficulty.NewDifficulty(hp, cs, od, ar)
	return b
}

func gen_value(r *verifvf.Rand) string {
	vs := []string{"", "NaN", "nan", "Inf", "-inf", "-3", "11", "1e400", "abc", "0x10", "5,5", " 7", "2.5", "-0", "9999999999999999999999", "17", "0.5"}
	if r.Bool() {
		return vs[r.Intn(len(vs))]
	}
	if r.Bool() {
		return strconv.Itoa(r.Intn(13) - 1)
	}
	return strconv.FormatFloat(r.Float64()*12-1, 'g', -1, 64)
}

func gen_line(r *verifvf.Rand, keys ...string) []string {
	return []string{keys[r.Intn(len(keys))], gen_value(r)}
}

func gen_parseMetadata(r *verifvf.Rand) ([]string, *BeatMap) {
	return gen_line(r, "Title", "TitleUnicode", "Artist", "ArtistUnicode", "Creator", "Version", "Source", "Tags", "BeatmapID",
		"BeatmapSetID", "FileVersion", "title", "Name", "", "Mode", "Audio", "Bg"), gen_map(r)
}

func gen_parseGeneral(r *verifvf.Rand) ([]string, *BeatMap) {
	b := gen_map(r)
	return gen_line(r, "Mode", "StackLeniency", "AudioFilename", "PreviewTime", "SampleSet", "mode", "", "Title", "Countdown"), b
}

func gen_parseDifficulty(r *verifvf.Rand) ([]string, *BeatMap) {
	return gen_line(r, "HPDrainRate", "CircleSize", "OverallDifficulty", "ApproachRate", "SliderMultiplier", "SliderTickRate", "", "AR"), gen_map(r)
}

// ---------- C28

func s_int(s string) int64 {
	v, _ := strconv.ParseInt(s, 10, 64)
	return v
}

func s_pick(is bool, a, b string) string {
	if is {
		return a
	}
	return b
}

func s_pickI(is bool, a, b int64) int64 {
	if is {
		return a
	}
	return b
}

//verif:contract parseMetadata
//verif:prop C28
func ctr_parseMetadata(line []string, b *BeatMap) {
	verifvf.Requires(b != nil && len(line) > 1)
	key, val := line[0], line[1]
	ti, tu, ar, au, cr, ve, so, ta := b.Title, b.TitleUnicode, b.Artist, b.ArtistUnicode, b.Creator, b.Version, b.Source, b.Tags
	mi, si := b.MapID, b.SetID
	verifvf.Modifies(&b.Title)
	verifvf.Modifies(&b.TitleUnicode)
	verifvf.Modifies(&b.Artist)
	verifvf.Modifies(&b.ArtistUnicode)
	verifvf.Modifies(&b.Creator)
	verifvf.Modifies(&b.Version)
	verifvf.Modifies(&b.Source)
	verifvf.Modifies(&b.Tags)
	verifvf.Modifies(&b.MapID)
	verifvf.Modifies(&b.SetID)
	parseMetadata(line, b)
	verifvf.Ensures("Title", b.Title == s_pick(key == "Title", val, ti))
	verifvf.Ensures("TitleUnicode", b.TitleUnicode == s_pick(key == "TitleUnicode", val, tu))
	verifvf.Ensures("Artist", b.Artist == s_pick(key == "Artist", val, ar))
	verifvf.Ensures("ArtistUnicode", b.ArtistUnicode == s_pick(key == "ArtistUnicode", val, au))
	verifvf.Ensures("Creator", b.Creator == s_pick(key == "Creator", val, cr))
	verifvf.Ensures("Version", b.Version == s_pick(key == "Version", val, ve))
	verifvf.Ensures("Source", b.Source == s_pick(key == "Source", val, so))
	verifvf.Ensures("Tags", b.Tags == s_pick(key == "Tags", val, ta))
	verifvf.Ensures("BeatmapID", b.MapID == s_pickI(key == "BeatmapID", s_int(val), mi))
	verifvf.Ensures("BeatmapSetID", b.SetID == s_pickI(key == "BeatmapSetID", s_int(val), si))
}

//verif:contract parseGeneral
//verif:prop C28
func ctr_parseGeneral(line []string, b *BeatMap) {
	verifvf.Requires(b != nil && len(line) > 1)
	key, val := line[0], line[1]
	mo, au, pr, st := b.Mode, b.Audio, b.PreviewTime, b.StackLeniency
	verifvf.Modifies(&b.Mode)
	verifvf.Modifies(&b.Audio)
	verifvf.Modifies(&b.PreviewTime)
	verifvf.Modifies(&b.StackLeniency)
	parseGeneral(line, b)
	m, _ := strconv.Atoi(val)
	verifvf.Ensures("Mode", b.Mode == int(s_pickI(key == "Mode", int64(m), int64(mo))))
	verifvf.Ensures("AudioFilename", b.Audio == s_pick(key == "AudioFilename", val, au))
	verifvf.Ensures("PreviewTime", b.PreviewTime == s_pickI(key == "PreviewTime", s_int(val), pr))
	f, _ := strconv.ParseFloat(val, 64)
	if math.IsNaN(f) {
		f = 0
	}
	if key == "StackLeniency" {
		verifvf.Ensures("StackLeniency", verifvf.Same(b.StackLeniency, f))
	} else {
		verifvf.Ensures("StackLeniency unchanged", verifvf.Same(b.StackLeniency, st))
	}
}

func gen_tokenizeN(r *verifvf.Rand) (string, string, int) {
	s := ""
	for i := r.Intn(9); i > 0; i-- {
		s += []string{":", " ", "a", "Title", "//", ",", "\t", "b:c"}[r.Intn(8)]
	}
	return s, ":", 2
}

//verif:contract tokenizeN
//verif:prop C28 C13
func ctr_tokenizeN(line, delimiter string, n int) {
	verifvf.Requires(n == 2 && delimiter == ":")
	verifvf.ModifiesNothing()
	parts := tokenizeN(line, delimiter, n)
	raw := strings.SplitN(line, ":", 2)
	split := !strings.HasPrefix(line, "//") && strings.Contains(line, ":")
	verifvf.Ensures("only key/value lines that are no comments have parts", split == (len(parts) > 1))
	if split {
		verifvf.Ensures("the first colon separates a trimmed key from a trimmed value", len(parts) == 2 &&
			parts[0] == strings.TrimSpace(raw[0]) && parts[1] == strings.TrimSpace(raw[1]))
	}
}

// ---------- C14

func s_setting(text string) float64 {
	v, _ := strconv.ParseFloat(text, 64)
	if math.IsNaN(v) || v <= 0 {
		return 0
	}
	if v >= 10 {
		return 10
	}
	return v
}

func s_in(x float64) bool { return 0 <= x && x <= 10 }

// s_inv: what holds of the settings of a beatmap while its file is read.
func s_settings(b *BeatMap) bool {
	d := b.Difficulty
	return s_in(d.GetHP()) && s_in(d.GetCS()) && s_in(d.GetOD()) && s_in(d.GetAR()) && (b.arSpecified || d.GetAR() == d.GetOD())
}

func s_or(is bool, a, b float64) float64 {
	if is {
		return a
	}
	return b
}

//verif:lemma
//verif:prop C14
func ctr_NewBeatMap() {
	b := NewBeatMap()
	verifvf.Ensures("a new beatmap has settings in range and AR at OD", s_settings(b) && !b.arSpecified)
}

//verif:contract parseDifficulty
//verif:prop C14
func ctr_parseDifficulty(line []string, b *BeatMap) {
	verifvf.Requires(b != nil && len(line) > 1 && b.Difficulty != nil && b.Timings != nil && s_settings(b))
	key, val := line[0], line[1]
	d := b.Difficulty
	hp, cs, od, ar, spec := d.GetHP(), d.GetCS(), d.GetOD(), d.GetAR(), b.arSpecified
	mods := d.Mods
	tm := b.Timings
	verifvf.Modifies(d)
	verifvf.Modifies(&b.arSpecified)
	verifvf.Modifies(&b.SliderMultiplier)
	verifvf.Modifies(&tm.SliderMult)
	verifvf.Modifies(&tm.TickRate)
	parseDifficulty(line, b)
	v := s_setting(val)
	verifvf.Ensures("settings stay in range and AR at OD while no approach rate was given", s_settings(b))
	verifvf.Ensures("HP", d.GetHP() == s_or(key == "HPDrainRate", v, hp))
	verifvf.Ensures("CS", d.GetCS() == s_or(key == "CircleSize", v, cs))
	verifvf.Ensures("OD", d.GetOD() == s_or(key == "OverallDifficulty", v, od))
	verifvf.Ensures("AR", d.GetAR() == s_or(key == "ApproachRate", v, s_or(key == "OverallDifficulty" && !spec, v, ar)))
	verifvf.Ensures("approach rate given", b.arSpecified == (spec || key == "ApproachRate"))
	verifvf.Ensures("mods unchanged", d.Mods == mods)
}

var _ = timing.NewTimings
