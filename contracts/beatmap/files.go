//go:build go1.21

package beatmap

// Contracts of the key/value sections of whole files (C14, C28).

import (
	"strconv"
	"strings"

	"github.com/Wieku/gosu-pp/verifvf"
)

var s_words = []string{"General", "Metadata", "Difficulty"}

var s_keys = map[string][]string{
	"General":    {"Mode", "StackLeniency", "AudioFilename", "PreviewTime", "SampleSet"},
	"Metadata":   {"Title", "TitleUnicode", "Artist", "ArtistUnicode", "Creator", "Version", "Source", "Tags", "BeatmapID", "BeatmapSetID", "Name"},
	"Difficulty": {"HPDrainRate", "CircleSize", "OverallDifficulty", "ApproachRate", "Other"},
}

// gen_KeyLines gives lines "section|key|separator|value".
func gen_KeyLines(r *verifvf.Rand) []string {
	var ls []string
	for _, s := range s_words {
		for i := r.Intn(9); i > 0; i-- {
			key := s_keys[s][r.Intn(len(s_keys[s]))]
			sep := []string{":", ": ", " : ", ":\t"}[r.Intn(4)]
			vals := []string{"a: b.mp3", "x y", "", "a//b", "[x]", "a,b", "Title:Artist", "日本", "-12", "3", "7.5", "no"}
			switch {
			case s == "Difficulty":
				vals = []string{"5", "-3", "11.5", "no", "NaN", " 7.25 ", "0", "10", "3:4", "", "-Inf", "2.5"}
			case key == "Mode" || key == "BeatmapID" || key == "BeatmapSetID" || key == "PreviewTime" || key == "StackLeniency":
				vals = []string{"0", "3", "-1", "12345", "no", "", "NaN", " 2 "}
			}
			ls = append(ls, s+"|"+key+"|"+sep+"|"+vals[r.Intn(len(vals))])
		}
	}
	return ls
}

func s_number(v string) float64 {
	f, err := strconv.ParseFloat(v, 64)
	if err != nil || f != f {
		return 0
	}
	return f
}

func s_clamped(v string) float64 {
	f := s_number(v)
	if f < 0 {
		return 0
	}
	if f > 10 {
		return 10
	}
	return f
}

func s_whole(v string) int64 {
	i, err := strconv.ParseInt(v, 10, 64)
	if err != nil {
		return 0
	}
	return i
}

//verif:lemma
//verif:prop C14 C28
//verif:bounded whole files are read through the standard library; random lines of the three key/value sections
func ctr_KeyLines(lines []string) {
	var sb strings.Builder
	sb.WriteString("osu file format v14\n")
	last := map[string]string{}
	ar, od := "", "5"
	for _, s := range s_words {
		sb.WriteString("\n[" + s + "]\n")
		for _, l := range lines {
			f := strings.SplitN(l, "|", 4)
			if f[0] != s {
				continue
			}
			sb.WriteString(f[1] + f[2] + f[3] + "\n")
			v := strings.TrimSpace(f[3])
			last[f[1]] = v
			if f[1] == "ApproachRate" {
				ar = v + " "
			}
			if f[1] == "OverallDifficulty" {
				od = v
			}
		}
	}
	sb.WriteString("SliderMultiplier:1\nSliderTickRate:1\n\n[TimingPoints]\n0,500,4,1,0,50,1,0\n\n[HitObjects]\n0,0,100,1,0\n")
	b, err := ParseFromByte([]byte(sb.String()))
	verifvf.Requires(err == nil)
	text := func(key, have string) { verifvf.Ensures(key, have == last[key]) }
	whole := func(key string, have int64) { verifvf.Ensures(key, have == s_whole(last[key])) }
	text("Title", b.Title)
	text("TitleUnicode", b.TitleUnicode)
	text("Artist", b.Artist)
	text("ArtistUnicode", b.ArtistUnicode)
	text("Creator", b.Creator)
	text("Version", b.Version)
	text("Source", b.Source)
	text("Tags", b.Tags)
	text("AudioFilename", b.Audio)
	whole("BeatmapID", b.MapID)
	whole("BeatmapSetID", b.SetID)
	whole("PreviewTime", b.PreviewTime)
	whole("Mode", int64(b.Mode))
	if v, ok := last["StackLeniency"]; ok {
		verifvf.Ensures("StackLeniency", b.StackLeniency == s_number(v))
	}
	d := b.Difficulty
	if v, ok := last["HPDrainRate"]; ok {
		verifvf.Ensures("HPDrainRate", d.GetHP() == s_clamped(v))
	}
	if v, ok := last["CircleSize"]; ok {
		verifvf.Ensures("CircleSize", d.GetCS() == s_clamped(v))
	}
	verifvf.Ensures("OverallDifficulty", d.GetOD() == s_clamped(od))
	if ar == "" {
		ar = od
	}
	verifvf.Ensures("ApproachRate", d.GetAR() == s_clamped(strings.TrimSpace(ar)))
}
