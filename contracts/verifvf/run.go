//go:build go1.21

package verifvf

// Concrete search for a failing input of a contract (used only after a proof failed).

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

type Rand struct {
	*rand.Rand
	Floats []float64
	Ints   []int
	Strs   []string
}

func NewRand(seed int64) *Rand {
	r := &Rand{Rand: rand.New(rand.NewSource(seed))}
	r.Floats = []float64{0, 1, -1, 0.5, 2, 5, 10, 11, 100}
	r.Ints = []int{0, 1, 2, 3, 4, -1, 10}
	if b, err := os.ReadFile(os.Getenv("VERIF_POOL")); err == nil {
		var p struct {
			F []float64
			S []string
		}
		if json.Unmarshal(b, &p) == nil {
			r.Floats = append(r.Floats, p.F...)
			for _, f := range p.F {
				if f == math.Floor(f) && math.Abs(f) < 1e9 {
					r.Ints = append(r.Ints, int(f))
				}
			}
			r.Strs = append(r.Strs, p.S...)
		}
	}
	return r
}

// Float mixes literals of the code, their neighbours and random values.
func (r *Rand) Float() float64 {
	switch r.Intn(8) {
	case 0, 1, 2:
		return r.Floats[r.Intn(len(r.Floats))]
	case 3:
		f := r.Floats[r.Intn(len(r.Floats))]
		return f + (r.Float64()-0.5)*2e-3
	case 4:
		return float64(r.Intn(41) - 15)
	case 5:
		return r.Float64() * 12
	case 6:
		return (r.Float64() - 0.5) * 4000
	}
	return r.Float64()
}

// Pos is a positive float.
func (r *Rand) Pos() float64 {
	for {
		if f := math.Abs(r.Float()); f > 1e-6 {
			return f
		}
	}
}

// In is a float in [a,b], often an end.
func (r *Rand) In(a, b float64) float64 {
	switch r.Intn(8) {
	case 0:
		return a
	case 1:
		return b
	case 2, 3:
		for i := 0; i < 20; i++ {
			if f := r.Float(); a <= f && f <= b {
				return f
			}
		}
	}
	return a + (b-a)*r.Float64()
}

func (r *Rand) Int() int {
	switch r.Intn(4) {
	case 0:
		return r.Ints[r.Intn(len(r.Ints))]
	case 1:
		return r.Ints[r.Intn(len(r.Ints))] + r.Intn(3) - 1
	case 2:
		return r.Intn(2000) - 200
	}
	return r.Intn(12)
}

func (r *Rand) Bool() bool { return r.Intn(2) == 0 }

func (r *Rand) Str() string {
	var sb strings.Builder
	n := r.Intn(4)
	for i := 0; i < n; i++ {
		if len(r.Strs) > 0 && r.Intn(2) == 0 {
			sb.WriteString(r.Strs[r.Intn(len(r.Strs))])
		} else {
			const cs = "abcDTHRx0123456789.,:|- "
			m := r.Intn(5)
			for j := 0; j < m; j++ {
				sb.WriteByte(cs[r.Intn(len(cs))])
			}
		}
	}
	return sb.String()
}

// Bits is a sparse, dense or fully random bit set.
func (r *Rand) Bits() uint64 {
	switch r.Intn(5) {
	case 0:
		return 1 << uint(r.Intn(32))
	case 1:
		return 1<<uint(r.Intn(32)) | 1<<uint(r.Intn(32))
	case 2:
		return 1<<uint(r.Intn(32)) | 1<<uint(r.Intn(32)) | 1<<uint(r.Intn(32)) | 1<<uint(r.Intn(32))
	case 3:
		return uint64(r.Uint32())
	}
	if r.Intn(4) == 0 {
		return 0
	}
	return r.Uint64() & r.Uint64() >> 1
}

// Gen fills any value of a plain type.
func Gen[T any](r *Rand) T {
	var v T
	fill(r, reflect.ValueOf(&v).Elem(), 0)
	return v
}

func fill(r *Rand, v reflect.Value, depth int) {
	if !v.CanSet() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Bool())
	case reflect.Int, reflect.Int64, reflect.Int32:
		if v.Type().Name() == "Modifier" {
			v.SetInt(int64(r.Bits()))
		} else {
			v.SetInt(int64(r.Int()))
		}
	case reflect.Uint8, reflect.Uint, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(r.Intn(200)))
	case reflect.Float64, reflect.Float32:
		v.SetFloat(r.Float())
	case reflect.String:
		v.SetString(r.Str())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill(r, v.Field(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(r, v.Index(i), depth+1)
		}
	case reflect.Slice:
		if depth > 4 {
			return
		}
		n := r.Intn(6)
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			fill(r, s.Index(i), depth+1)
		}
		v.Set(s)
	case reflect.Ptr:
		if depth > 3 {
			return
		}
		p := reflect.New(v.Type().Elem())
		fill(r, p.Elem(), depth+1)
		v.Set(p)
	}
}

var inputs []any
var inputText []string

// Input records what the contract is run on.
func Input(xs ...any) {
	inputs = inputs[:0]
	for _, x := range xs {
		inputs = append(inputs, x)
	}
	if os.Getenv("VERIF_COUNT") != "" {
		inputText = describeInputs()
	}
}

func show(v reflect.Value, depth int, sb *strings.Builder) {
	if depth > 6 || sb.Len() > 6000 {
		sb.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Ptr {
			sb.WriteString("&")
		}
		show(v.Elem(), depth+1, sb)
	case reflect.Struct:
		sb.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				sb.WriteString(" ")
			}
			sb.WriteString(v.Type().Field(i).Name + ":")
			show(v.Field(i), depth+1, sb)
		}
		sb.WriteString("}")
	case reflect.Slice, reflect.Array:
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteString(" ")
			}
			show(v.Index(i), depth+1, sb)
		}
		sb.WriteString("]")
	case reflect.Func:
		sb.WriteString("func")
	case reflect.String:
		sb.WriteString(strconv.Quote(v.String()))
	default:
		fmt.Fprintf(sb, "%v", v)
	}
}

type Result struct {
	Tried, Checked, Skipped int
	Found                   bool
	Seed                    int64
	Failures                []string
	Inputs                  []string
	Panic                   string
	Distinct                int
	Samples                 []string
}

func describeInputs() []string {
	var r []string
	for _, x := range inputs {
		var sb strings.Builder
		if x == nil {
			sb.WriteString("nil")
		} else {
			show(reflect.ValueOf(x), 0, &sb)
		}
		r = append(r, sb.String())
	}
	return r
}

// Run tries a contract on generated inputs and writes the outcome to VERIF_OUT.
func Run(name string, run func(r *Rand)) {
	n, _ := strconv.Atoi(os.Getenv("VERIF_N"))
	secs, _ := strconv.ParseFloat(os.Getenv("VERIF_SECS"), 64)
	seed0, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	res := Result{}
	t0 := time.Now()
	base := NewRand(1)
	seen := map[uint64]bool{}
	count := os.Getenv("VERIF_COUNT") != ""
	for i := 0; i < n; i++ {
		if i%64 == 0 && time.Since(t0).Seconds() > secs {
			break
		}
		seed := seed0*1000003 + int64(i)
		r := *base
		r.Rand = rand.New(rand.NewSource(seed))
		Failures = Failures[:0]
		Checked = 0
		inputs = nil
		before := ""
		pan := ""
		skipped := false
		done := make(chan bool, 1)
		body := func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(skip); ok {
						skipped = true
					} else {
						pan = fmt.Sprint(x) + "\n" + string(debug.Stack())
					}
				}
				done <- true
			}()
			run(&r)
		}
		go body()
		hang := false
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			hang = true
		}
		res.Tried++
		if hang {
			pan = "no answer within 30 s"
			skipped = false
		}
		if skipped {
			res.Skipped++
			continue
		}
		res.Checked++
		if count && !hang {
			before = strings.Join(inputText, "; ")
			h := fnv.New64a()
			h.Write([]byte(before))
			seen[h.Sum64()] = true
			if len(res.Samples) < 2 {
				if len(before) > 1500 {
					before = before[:1500] + "..."
				}
				res.Samples = append(res.Samples, before)
			}
		}
		if len(Failures) > 0 || pan != "" {
			res.Found, res.Seed, res.Panic = true, seed, pan
			res.Failures = append([]string{}, Failures...)
			if !hang {
				res.Inputs = describeInputs()
			}
			break
		}
	}
	res.Distinct = len(seen)
	b, _ := json.MarshalIndent(map[string]any{"contract": name, "result": res}, "", " ")
	os.WriteFile(os.Getenv("VERIF_OUT"), b, 0o644)
}

func fillDoc() string { return "" }
