package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded program: /repo's packages in SSA form plus the contracts.
type World struct {
	findings func(id, unit string, f *Failure) bool

	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	tpkgs    map[string]*packages.Package
	db       *SpecDB
	repoPkgs []*ssa.Package // dependency order
	loadErrs []string
	mutGlob  map[*ssa.Global]bool // written outside package initialisation
	// struct fields (type.field) written by functions, with the writers
	fieldWriters map[string]map[*ssa.Function]bool
	buildMu      sync.Mutex
}

var repoDir = "/repo"

func goEnv() []string {
	env := append([]string{}, os.Environ()...)
	return append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
}

func skipInit(path string) bool {
	return strings.Contains(path, "/api/") || strings.Contains(path, "/mock")
}

func loadWorld(specDir string) (*World, error) {
	db, err := loadSpecs(specDir)
	if err != nil {
		return nil, err
	}
	w := &World{db: db, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*packages.Package{}, mutGlob: map[*ssa.Global]bool{}, fieldWriters: map[string]map[*ssa.Function]bool{}}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Env: goEnv(), Overlay: map[string][]byte{}}
	// lemmas: scenario functions over the public operations, compiled into the package they concern
	root := filepath.Join(verifDir, "lemmas")
	filepath.WalkDir(root, func(p string, d os.DirEntry, err error) error {
		if err == nil && !d.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(root, filepath.Dir(p))
			if b, err := os.ReadFile(p); err == nil {
				cfg.Overlay[filepath.Join(repoDir, rel, "zz_verif_lemma.go")] = b
			}
		}
		return nil
	})
	var pats []string
	filepath.WalkDir(repoDir, func(p string, d os.DirEntry, err error) error {
		if err != nil || !d.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(repoDir, p)
		if strings.HasPrefix(rel, ".") && rel != "." || d.Name() == "mock" || d.Name() == "testdata" || rel == "examples" || rel == "build" || rel == "tools" || strings.HasSuffix(rel, "sdk/token/paseto") {
			return filepath.SkipDir
		}
		m, _ := filepath.Glob(filepath.Join(p, "*.go"))
		n := 0
		for _, f := range m {
			if !strings.HasSuffix(f, "_test.go") {
				n++
			}
		}
		if n > 0 && rel != "." {
			pats = append(pats, "./"+rel)
		}
		return nil
	})
	pats = append(pats, "slices", "maps", "cmp")
	sort.Strings(pats)
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			w.loadErrs = append(w.loadErrs, e.Error())
		}
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	w.prog = prog
	// dependency order
	var order []*packages.Package
	packages.Visit(pkgs, nil, func(p *packages.Package) { order = append(order, p) })
	for _, p := range order {
		w.tpkgs[p.PkgPath] = p
		s := prog.Package(p.Types)
		if s == nil {
			continue
		}
		w.pkgs[p.PkgPath] = s
	}
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for _, p := range sp {
		if p == nil {
			continue
		}
		wg.Add(1)
		go func() {
			sem <- true
			defer func() { <-sem; wg.Done() }()
			p.Build()
		}()
	}
	wg.Wait()
	for _, p := range order {
		if s := w.pkgs[p.PkgPath]; s != nil && strings.HasPrefix(p.PkgPath, "zntr.io/solid") {
			w.repoPkgs = append(w.repoPkgs, s)
		}
	}
	defer noteURL(w)
	// all imported packages must be resolvable in contracts
	for _, s := range prog.AllPackages() {
		if _, ok := w.pkgs[s.Pkg.Path()]; !ok {
			w.pkgs[s.Pkg.Path()] = s
		}
	}
	w.scan()
	return w, nil
}

// scan records which package variables and struct fields are written, and where.
func (w *World) scan() {
	for fn := range ssautil.AllFunctions(w.prog) {
		if !inRepo(fn) {
			continue
		}
		isInit := fn.Synthetic == "package initializer"
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					switch a := x.Addr.(type) {
					case *ssa.Global:
						if !isInit {
							w.mutGlob[a] = true
						}
					case *ssa.FieldAddr:
						w.noteField(a, fn)
					}
				case *ssa.FieldAddr:
					if fieldEscapes(x) {
						w.noteField(x, fn)
					}
				case *ssa.MapUpdate:
					if l, ok := x.Map.(*ssa.UnOp); ok {
						if fa, ok := l.X.(*ssa.FieldAddr); ok {
							w.noteField2(fa, fn, "#map")
						}
						if g, ok := l.X.(*ssa.Global); ok && !isInit {
							w.mutGlob[g] = true
						}
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						if l, ok := x.Call.Args[0].(*ssa.UnOp); ok {
							if fa, ok := l.X.(*ssa.FieldAddr); ok {
								w.noteField2(fa, fn, "#map")
							}
						}
					}
				}
				if !isInit {
					for _, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						switch y := in.(type) {
						case *ssa.UnOp, *ssa.Store:
						case *ssa.FieldAddr:
							if fieldEscapes(y) {
								w.mutGlob[g] = true
							}
						case *ssa.IndexAddr:
						default:
							w.mutGlob[g] = true
						}
					}
				}
			}
		}
	}
}

// fieldEscapes: the field's address is used for something other than loading from it.
func fieldEscapes(x ssa.Value) bool {
	for _, r := range *x.Referrers() {
		switch y := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if y.Addr != x {
				return true
			}
			return true
		case *ssa.FieldAddr:
			if fieldEscapes(y) {
				return true
			}
		case *ssa.IndexAddr:
			if fieldEscapes(y) {
				return true
			}
		case ssa.CallInstruction:
			if f := y.Common().StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" {
				continue
			}
			return true
		default:
			return true
		}
	}
	return false
}

func (w *World) noteField(a *ssa.FieldAddr, fn *ssa.Function) { w.noteField2(a, fn, "") }

func (w *World) noteField2(a *ssa.FieldAddr, fn *ssa.Function, suf string) {
	k := fieldKey(deref(a.X.Type()), a.Field) + suf
	if w.fieldWriters[k] == nil {
		w.fieldWriters[k] = map[*ssa.Function]bool{}
	}
	w.fieldWriters[k][fn] = true
}

// modular returns the contract callers must use for fn, if it has one.
func (w *World) modular(fn *ssa.Function) *Contract {
	c := w.db.Funcs[fnName(fn)]
	if c != nil && c.Modular {
		return c
	}
	return nil
}

func (w *World) ifaceContract(name string) *Contract { return w.db.Ifaces[name] }

// findFn resolves "pkg.F", "(*pkg.T).M", "(pkg.T).M".
func (w *World) findFn(name string) (*ssa.Function, error) {
	if strings.HasPrefix(name, "(") {
		i := strings.Index(name, ")")
		tn := name[1:i]
		mn := strings.TrimPrefix(name[i+1:], ".")
		var t types.Type
		err := func() (err error) {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("%v", r)
				}
			}()
			t = w.findType(tn)
			return nil
		}()
		if err != nil {
			return nil, err
		}
		n := deref(t).(*types.Named)
		fn := w.prog.LookupMethod(t, n.Obj().Pkg(), mn)
		if fn == nil {
			return nil, fmt.Errorf("no method %s", name)
		}
		return fn, nil
	}
	i := strings.LastIndex(name, ".")
	p := w.pkgs[name[:i]]
	if p == nil {
		return nil, fmt.Errorf("no package %s", name[:i])
	}
	f := p.Func(name[i+1:])
	if f == nil {
		return nil, fmt.Errorf("no function %s", name)
	}
	return f, nil
}

// initState runs the package initialisers of /repo symbolically, so that package
// variables that are never written afterwards have their declared values.
func (ex *Exec) initState() *State {
	st := &State{h: newHeap("0"), ghost: map[string]Val{}}
	st.clock = ex.freshVar("clock", sInt, false)
	ex.fact(tLe(tInt(0), st.clock))
	need := ex.imports()
	for _, p := range ex.W.repoPkgs {
		if skipInit(p.Pkg.Path()) || (need != nil && !need[p.Pkg.Path()]) {
			continue
		}
		fn := p.Func("init")
		if fn == nil {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(Unsupported); ok {
						if debug {
							fmt.Println("init", p.Pkg.Path(), u.msg)
						}
						return
					}
					panic(r)
				}
			}()
			ex.inInit = p
			ex.callFn(st, fn, nil, nil, func(*State, []Val) {})
		}()
		ex.inInit = nil
		st.frames = nil
	}
	for g := range ex.W.mutGlob {
		t := deref(g.Type())
		st.h.storeObj(t, ex.globalRef(st, g), ex.symVal(t, "global."+g.Name()))
	}
	st.ev = nil
	st.trail = nil
	return st
}

// imports is the set of packages the unit's package depends on, itself included (nil: unknown).
func (ex *Exec) imports() map[string]bool {
	if ex.target == nil {
		return nil
	}
	name := ex.target.Fn
	if ex.target.New != "" {
		name = ex.target.New
	}
	fn, err := ex.W.findFn(name)
	if err != nil || fn.Pkg == nil {
		return nil
	}
	r := map[string]bool{}
	var walk func(p *types.Package)
	walk = func(p *types.Package) {
		if r[p.Path()] {
			return
		}
		r[p.Path()] = true
		for _, q := range p.Imports() {
			walk(q)
		}
	}
	walk(fn.Pkg.Pkg)
	return r
}
