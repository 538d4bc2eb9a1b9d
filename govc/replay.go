package main

// Native search for a failing input: the contract runs as ordinary Go against the real code.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type nativeResult struct {
	Tried, Checked, Skipped int
	Found                   bool
	Seed                    int64
	Failures                []string
	Inputs                  []string
	Panic                   string
	Distinct                int
	Samples                 []string
	log                     string
	ran                     bool
}

func (ld *Loader) pool() []byte {
	fs := map[float64]bool{}
	ss := map[string]bool{}
	for _, p := range ld.pkgs {
		if !strings.HasPrefix(p.PkgPath, modPath) || strings.HasSuffix(p.PkgPath, "verifvf") {
			continue
		}
		for _, f := range p.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				if b, ok := n.(*ast.BasicLit); ok {
					switch b.Kind {
					case token.INT, token.FLOAT:
						if v, err := strconv.ParseFloat(b.Value, 64); err == nil && v < 1e12 {
							fs[v] = true
							fs[-v] = true
						}
					case token.STRING:
						if s, err := strconv.Unquote(b.Value); err == nil && len(s) < 20 && len(s) > 0 {
							ss[s] = true
						}
					}
				}
				return true
			})
		}
	}
	var o struct {
		F []float64
		S []string
	}
	for f := range fs {
		o.F = append(o.F, f)
	}
	for s := range ss {
		o.S = append(o.S, s)
	}
	sort.Float64s(o.F)
	sort.Strings(o.S)
	b, _ := json.Marshal(o)
	return b
}

func (ld *Loader) native(c *Contract, n int, secs float64) nativeResult {
	r := nativeResult{}
	dir, err := os.MkdirTemp("", "govc-replay")
	if err != nil {
		r.log = err.Error()
		return r
	}
	defer os.RemoveAll(dir)
	pkg := c.fn.Pkg
	q := func(p *types.Package) string {
		if p == pkg.Pkg {
			return ""
		}
		return p.Name()
	}
	imports := map[string]bool{"testing": true, modPath + "/verifvf": true}
	var sb strings.Builder
	var names []string
	sig := c.fn.Signature
	gen := pkg.Func("gen_" + strings.TrimPrefix(c.fn.Name(), "ctr_"))
	var args string
	var need func(t types.Type)
	need = func(t types.Type) {
		switch u := types.Unalias(t).(type) {
		case *types.Named:
			if p := u.Obj().Pkg(); p != nil && p != pkg.Pkg {
				imports[p.Path()] = true
			}
		case *types.Pointer:
			need(u.Elem())
		case *types.Slice:
			need(u.Elem())
		case *types.Array:
			need(u.Elem())
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		names = append(names, fmt.Sprintf("a%d", i))
	}
	args = strings.Join(names, ", ")
	if len(names) > 0 {
		if gen != nil {
			fmt.Fprintf(&sb, "%s := %s(r)\n", args, gen.Name())
		} else {
			for i := range names {
				t := sig.Params().At(i).Type()
				need(t)
				fmt.Fprintf(&sb, "a%d := verifvf.Gen[%s](r)\n", i, types.TypeString(t, q))
			}
		}
	}
	fmt.Fprintf(&sb, "verifvf.Input(%s)\n%s(%s)\n", args, c.fn.Name(), args)
	var is []string
	for p := range imports {
		is = append(is, strconv.Quote(p))
	}
	sort.Strings(is)
	src := fmt.Sprintf("//go:build go1.21\n\npackage %s\nimport (\n%s\n)\nfunc TestVerifReplay(t *testing.T) {\nverifvf.Run(%q, func(r *verifvf.Rand) {\n%s})\n}\n",
		pkg.Pkg.Name(), strings.Join(is, "\n"), c.name, sb.String())
	ov, _ := overlayFiles()
	rel := strings.TrimPrefix(strings.TrimPrefix(pkg.Pkg.Path(), modPath), "/")
	tf := filepath.Join(dir, "zz_verif_replay_test.go")
	os.WriteFile(tf, []byte(src), 0o644)
	ov[filepath.Join(repoDir, rel, "zz_verif_replay_test.go")] = tf
	ob, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, ob, 0o644)
	pf := filepath.Join(dir, "pool.json")
	os.WriteFile(pf, ld.pool(), 0o644)
	out := filepath.Join(dir, "out.json")
	cmd := exec.Command("go", "test", "-overlay", of, "-vet=off", "-count=1", "-run", "^TestVerifReplay$",
		"-timeout", fmt.Sprintf("%ds", int(secs)+60), "./"+rel)
	cmd.Dir = repoDir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local",
		"VERIF_OUT="+out, "VERIF_POOL="+pf, "VERIF_N="+strconv.Itoa(n), fmt.Sprintf("VERIF_SECS=%g", secs), "VERIF_SEED="+envOr("VERIF_SEED", "1"),
		"GOMEMLIMIT=6GiB")
	if _, b := c.flags["bounded"]; b {
		cmd.Env = append(cmd.Env, "VERIF_COUNT=1")
	}
	t := time.AfterFunc(time.Duration(secs+100)*time.Second, func() { cmd.Process.Kill() })
	b, err := cmd.CombinedOutput()
	t.Stop()
	r.log = string(b)
	if len(r.log) > 4000 {
		r.log = r.log[:4000]
	}
	if ob, e2 := os.ReadFile(out); e2 == nil {
		var x struct{ Result nativeResult }
		if json.Unmarshal(ob, &x) == nil {
			x.Result.log = r.log
			x.Result.ran = true
			return x.Result
		}
	} else if err != nil && (strings.Contains(r.log, "goroutine stack exceeds") || strings.Contains(r.log, "fatal error:")) {
		r.Found, r.ran = true, true
		r.Panic = r.log
	}
	return r
}

var _ = ssa.NaiveForm
