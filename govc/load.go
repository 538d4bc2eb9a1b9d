package main

// Loading /repo together with the contract files (through an overlay; nothing is written to /repo).

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/Wieku/gosu-pp"

var repoDir = envOr("GOVC_REPO", "/repo")
var verifDir = envOr("GOVC_VERIF", "/verif")

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

type Contract struct {
	name    string
	fn      *ssa.Function
	subject *ssa.Function
	subjStr string
	props   []string
	flags   map[string]string
	opaque  bool
	doc     []string
}

type Loader struct {
	pkgs       []*packages.Package
	prog       *ssa.Program
	spkgs      []*ssa.Package
	contracts  []*Contract
	bySubject  map[*ssa.Function]*Contract // opaque ones
	fnSpecs    map[string]*Contract        // by "Type.Field" for function-valued fields
	files      map[string]bool             // contract files (overlay paths)
	recFns     map[*ssa.Function]bool
	implOf     map[string][]types.Type
	tagOf      map[string]int
	tagType    []types.Type
	allFns     map[*ssa.Function]bool
	boundFns   []*ssa.Function // closed world of function values
	initOrder  []*ssa.Package
	mutGlobals map[*ssa.Global]bool
}

// overlay returns the overlay map path -> content source file.
func overlayFiles() (map[string]string, error) {
	m := map[string]string{}
	root := filepath.Join(verifDir, "contracts")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		if droppedFiles[p] {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		dir, base := filepath.Split(rel)
		if strings.HasPrefix(dir, "verifvf") {
			m[filepath.Join(repoDir, rel)] = p
		} else {
			m[filepath.Join(repoDir, dir, "zz_verif_"+base)] = p
		}
		return nil
	})
	return m, err
}

// droppedFiles: contract files that do not type-check against the code.
var droppedFiles = map[string]bool{}

// load drops contract files that do not fit the code, so that the other properties can still be decided.
func load() (*Loader, error) {
	for i := 0; ; i++ {
		ld, bad, err := load1()
		if err == nil || len(bad) == 0 || i >= 6 {
			return ld, err
		}
		for _, f := range bad {
			droppedFiles[f] = true
		}
		if dropNote == "" {
			dropNote = err.Error()
			fmt.Fprintln(os.Stderr, dropNote)
		}
	}
}

var dropNote string

func load1() (*Loader, []string, error) {
	ov, err := overlayFiles()
	if err != nil {
		return nil, nil, err
	}
	overlay := map[string][]byte{}
	ld := &Loader{bySubject: map[*ssa.Function]*Contract{}, files: map[string]bool{}, recFns: map[*ssa.Function]bool{},
		fnSpecs: map[string]*Contract{}, implOf: map[string][]types.Type{}, tagOf: map[string]int{}}
	for dst, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, nil, err
		}
		overlay[dst] = b
		ld.files[dst] = true
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repoDir,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local"),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, nil, err
	}
	var errs, bad []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
			f := e.Pos
			if i := strings.IndexByte(f, ':'); i > 0 {
				f = f[:i]
			}
			if src, ok := ov[f]; ok && !strings.Contains(f, "verifvf") {
				bad = append(bad, src)
			}
		}
	}
	if len(errs) > 0 {
		return nil, bad, fmt.Errorf("the contracts do not type-check against the code:\n%s", strings.Join(errs, "\n"))
	}
	ld.pkgs = ps
	prog, spkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	ld.prog, ld.spkgs = prog, spkgs
	ld.allFns = ssautil.AllFunctions(prog)
	for i, p := range ps {
		sp := spkgs[i]
		if sp == nil {
			continue
		}
		for _, f := range p.Syntax {
			fname := p.Fset.Position(f.Pos()).Filename
			if !ld.files[fname] {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				if err := ld.directives(sp, p, fd); err != nil {
					return nil, []string{ov[fname]}, err
				}
			}
		}
		for _, f := range p.Syntax {
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					if strings.HasPrefix(c.Text, "//verif:anyfloat ") {
						for _, k := range strings.Fields(c.Text)[1:] {
							anyFloatKeys[k] = true
						}
					}
				}
			}
		}
	}
	sort.Slice(ld.contracts, func(i, j int) bool { return ld.contracts[i].name < ld.contracts[j].name })
	ld.closedWorld()
	ld.globals()
	return ld, nil, nil
}

func (ld *Loader) directives(sp *ssa.Package, p *packages.Package, fd *ast.FuncDecl) error {
	c := &Contract{name: p.Name + "." + fd.Name.Name, flags: map[string]string{}}
	is := false
	for _, cm := range fd.Doc.List {
		t := cm.Text
		if !strings.HasPrefix(t, "//verif:") {
			c.doc = append(c.doc, strings.TrimSpace(strings.TrimPrefix(t, "//")))
			continue
		}
		fs := strings.Fields(strings.TrimPrefix(t, "//verif:"))
		arg := strings.Join(fs[1:], " ")
		switch fs[0] {
		case "contract", "lemma":
			is = true
			c.subjStr = arg
		case "prop":
			c.props = strings.FieldsFunc(arg, func(r rune) bool { return r == ' ' || r == ',' })
		case "opaque":
			c.opaque = true
		case "rec":
			ld.recFns[sp.Func(fd.Name.Name)] = true
		default:
			c.flags[fs[0]] = arg
		}
	}
	if !is {
		return nil
	}
	c.fn = sp.Func(fd.Name.Name)
	if c.subjStr != "" {
		c.subject = ld.findFn(sp, c.subjStr)
		if c.subject == nil {
			return fmt.Errorf("contract %s: no function %q", c.name, c.subjStr)
		}
	}
	_, alt := c.flags["alt"]
	if c.opaque && !alt {
		ld.bySubject[c.subject] = c
	}
	if f := c.flags["fnspec"]; f != "" && !alt {
		for _, k := range strings.Fields(f) {
			ld.fnSpecs[k] = c
		}
	}
	ld.contracts = append(ld.contracts, c)
	return nil
}

// subjectContract is the contract that stands for calls of f in the proof of cur: one cur names in its use directive, or the
// opaque one.
func (ld *Loader) subjectContract(f *ssa.Function, cur *Contract) *Contract {
	if cur != nil && cur.flags["use"] != "" {
		for _, c := range ld.contracts {
			if c.opaque && c.subject == f && hasWord(cur.flags["use"], c.name) {
				return c
			}
		}
	}
	return ld.bySubject[f]
}

func (ld *Loader) fnSpec(field string, cur *Contract) *Contract {
	if cur != nil && cur.flags["use"] != "" {
		for _, c := range ld.contracts {
			if hasWord(c.flags["fnspec"], field) && hasWord(cur.flags["use"], c.name) {
				return c
			}
		}
	}
	return ld.fnSpecs[field]
}

// findFn resolves "F", "(*T).M" or "T.M" in a package.
func (ld *Loader) findFn(sp *ssa.Package, s string) *ssa.Function {
	ptr := false
	tn, mn := "", s
	if strings.HasPrefix(s, "(*") {
		i := strings.Index(s, ").")
		tn, mn, ptr = s[2:i], s[i+2:], true
	} else if i := strings.Index(s, "."); i >= 0 {
		tn, mn = s[:i], s[i+1:]
	}
	if tn == "" {
		return sp.Func(mn)
	}
	t := sp.Type(tn)
	if t == nil {
		return nil
	}
	var rt types.Type = t.Type()
	if ptr {
		rt = types.NewPointer(rt)
	}
	sel := ld.prog.MethodSets.MethodSet(rt).Lookup(sp.Pkg, mn)
	if sel == nil {
		return nil
	}
	// only methods declared on the type itself
	f := ld.prog.MethodValue(sel)
	if f.Synthetic != "" {
		return nil
	}
	return f
}

func inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), modPath)
	}
	return false
}

// closedWorld lists the concrete types behind interfaces and the function values that exist.
func (ld *Loader) closedWorld() {
	var named []types.Type
	for _, sp := range ld.spkgs {
		if sp == nil || !strings.HasPrefix(sp.Pkg.Path(), modPath) || strings.HasSuffix(sp.Pkg.Path(), "verifvf") {
			continue
		}
		var ns []string
		for n := range sp.Members {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			if tm, ok := sp.Members[n].(*ssa.Type); ok {
				if _, isI := tm.Type().Underlying().(*types.Interface); !isI {
					named = append(named, tm.Type())
				}
			}
		}
	}
	for _, t := range named {
		ld.tag(t)
		ld.tag(types.NewPointer(t))
	}
	for f := range ld.allFns {
		if !inRepo(f) || ld.isContractFn(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					fn := mc.Fn.(*ssa.Function)
					if strings.HasSuffix(fn.Name(), "$bound") {
						ld.boundFns = append(ld.boundFns, fn)
					}
				}
			}
		}
	}
	sort.Slice(ld.boundFns, func(i, j int) bool { return ld.boundFns[i].String() < ld.boundFns[j].String() })
	var u []*ssa.Function
	for i, f := range ld.boundFns {
		if i == 0 || f.String() != ld.boundFns[i-1].String() {
			u = append(u, f)
		}
	}
	ld.boundFns = u
}

func (ld *Loader) tag(t types.Type) int {
	k := tkey(t)
	if n, ok := ld.tagOf[k]; ok {
		return n
	}
	ld.tagType = append(ld.tagType, t)
	ld.tagOf[k] = len(ld.tagType)
	return len(ld.tagType)
}

// implementers of an interface among pointer and value types known from the repository.
func (ld *Loader) implementers(t types.Type) []types.Type {
	k := tkey(t)
	if r, ok := ld.implOf[k]; ok {
		return r
	}
	it := t.Underlying().(*types.Interface)
	var r []types.Type
	if it.NumMethods() > 0 {
		for _, x := range append([]types.Type{}, ld.tagType...) {
			if !types.Implements(x, it) {
				continue
			}
			if _, isP := x.(*types.Pointer); !isP {
				// value implementers are covered through their pointer only when boxed by value somewhere; keep both
				if _, isS := x.Underlying().(*types.Struct); isS {
					continue
				}
			}
			r = append(r, x)
		}
	}
	ld.implOf[k] = r
	return r
}

func (ld *Loader) isContractFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "verifvf") {
		return true
	}
	if !f.Pos().IsValid() {
		return false
	}
	return ld.files[ld.prog.Fset.Position(f.Pos()).Filename]
}

// globals: initialisation order, and the package variables assigned after initialisation.
func (ld *Loader) globals() {
	ld.mutGlobals = map[*ssa.Global]bool{}
	seen := map[*types.Package]bool{}
	byT := map[*types.Package]*ssa.Package{}
	for _, sp := range ld.spkgs {
		if sp != nil {
			byT[sp.Pkg] = sp
		}
	}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		if sp := byT[p]; sp != nil && strings.HasPrefix(p.Path(), modPath) {
			ld.initOrder = append(ld.initOrder, sp)
		}
	}
	for _, sp := range ld.spkgs {
		if sp != nil {
			visit(sp.Pkg)
		}
	}
	var escapes func(v ssa.Value, in ssa.Instruction, depth int) bool
	escapes = func(v ssa.Value, in ssa.Instruction, depth int) bool {
		switch x := in.(type) {
		case *ssa.UnOp:
			return false
		case *ssa.Store:
			return true
		case *ssa.FieldAddr, *ssa.IndexAddr:
			for _, r := range *x.(ssa.Value).Referrers() {
				if escapes(x.(ssa.Value), r, depth+1) {
					return true
				}
			}
			return false
		case *ssa.DebugRef:
			return false
		}
		return true
	}
	for f := range ld.allFns {
		if !inRepo(f) || f.Name() == "init" && f.Parent() == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && escapes(g, in, 0) {
						ld.mutGlobals[g] = true
					}
				}
			}
		}
	}
}
