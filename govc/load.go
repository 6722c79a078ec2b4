package main

// Loading of /repo: typed syntax -> SSA, and assembly listings.

import (
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"

const modPath = "github.com/henrydcase/nobs"

type Prog struct {
	name  string
	tags  string
	ssa   *ssa.Program
	pkgs  map[string]*ssa.Package
	src   map[string]*packages.Package
	sizes types.Sizes
	asm   map[string]*AsmFile // by package path
	order []*ssa.Package
}

var progCache = map[string]*Prog{}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOWORK=/opt/vp/go.work", "GOFLAGS=", "GOPROXY=off", "GO111MODULE=on", "GOTOOLCHAIN=local")
	return env
}

// LoadProg loads the packages of the repository. cfg is "amd64" or "noasm".
func LoadProg(cfg string) (*Prog, error) {
	loadMu.Lock()
	defer loadMu.Unlock()
	if p, ok := progCache[cfg]; ok {
		return p, nil
	}
	pc := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedModule,
		Dir:  repoDir, Env: goEnv(),
	}
	var pats []string
	p := &Prog{name: cfg, pkgs: map[string]*ssa.Package{}, src: map[string]*packages.Package{}, asm: map[string]*AsmFile{}}
	if cfg == "noasm" {
		pc.BuildFlags = []string{"-tags=noasm"}
		p.tags = "noasm"
		pats = []string{"./dh/csidh", "./dh/sidh/internal/p503", "./dh/sidh/internal/p751", "./hash/sha3"}
	} else if cfg == "generic" {
		// an architecture without assembly: the generic code of every field
		pc.Env = append(pc.Env, "GOARCH=ppc64le", "CGO_ENABLED=0")
		pats = []string{"./dh/sidh/internal/p434"}
	} else {
		pats = []string{"./dh/csidh", "./dh/sidh", "./dh/sidh/internal/p434", "./dh/sidh/internal/p503", "./dh/sidh/internal/p751", "./drbg", "./drbg/internal/aes", "./hash/sha3", "./hash/sm3", "./utils", "mkem"}
	}
	pk, err := packages.Load(pc, pats...)
	if err != nil {
		return nil, err
	}
	for _, q := range pk {
		for _, e := range q.Errors {
			return nil, fmt.Errorf("%s: %v", q.PkgPath, e)
		}
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	p.ssa = prog
	packages.Visit(pk, nil, func(q *packages.Package) {
		if !strings.HasPrefix(q.PkgPath, modPath) && q.PkgPath != "mkem" {
			return
		}
		sp := prog.Package(q.Types)
		if sp == nil {
			return
		}
		sp.Build()
		p.pkgs[q.PkgPath] = sp
		p.src[q.PkgPath] = q
		p.order = append(p.order, sp)
		if p.sizes == nil {
			p.sizes = q.TypesSizes
		}
	})
	sort.Slice(p.order, func(i, j int) bool { return p.order[i].Pkg.Path() < p.order[j].Pkg.Path() })
	if p.sizes == nil {
		return nil, fmt.Errorf("no packages loaded")
	}
	progCache[cfg] = p
	return p, nil
}

func pkgPath(short string) string {
	if short == "mkem" {
		return short
	}
	return modPath + "/" + short
}

// Fn finds a function "name" or method "Type.name"; nil when missing.
func (p *Prog) Fn(pkg, name string) *ssa.Function {
	sp := p.pkgs[pkgPath(pkg)]
	if sp == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn, ok := sp.Members[name[:i]].(*ssa.Type)
		if !ok {
			return nil
		}
		for _, t := range []types.Type{types.NewPointer(tn.Type()), tn.Type()} {
			if f := p.ssa.LookupMethod(t, sp.Pkg, name[i+1:]); f != nil {
				return f
			}
		}
		return nil
	}
	f, _ := sp.Members[name].(*ssa.Function)
	return f
}

func (p *Prog) MustFn(pkg, name string) *ssa.Function {
	f := p.Fn(pkg, name)
	if f == nil {
		unsup("function %s.%s not found", pkg, name)
	}
	return f
}

func (p *Prog) Type(pkg, name string) types.Type {
	sp := p.pkgs[pkgPath(pkg)]
	if sp == nil {
		unsup("package %s not found", pkg)
	}
	tn, ok := sp.Members[name].(*ssa.Type)
	if !ok {
		unsup("type %s.%s not found", pkg, name)
	}
	return tn.Type()
}

func (p *Prog) Global(pkg, name string) *ssa.Global {
	sp := p.pkgs[pkgPath(pkg)]
	if sp == nil {
		return nil
	}
	g, _ := sp.Members[name].(*ssa.Global)
	return g
}

// GlobalPtr returns the address of a package variable.
func (x *Exec) GlobalPtr(pkg, name string) Ptr {
	g := x.P.Global(pkg, name)
	if g == nil {
		unsup("variable %s.%s not found", pkg, name)
	}
	o, ok := x.globals[g]
	if !ok {
		unsup("variable %s.%s not initialised", pkg, name)
	}
	return Ptr{o, x.C.I(0)}
}

func isOurs(f *ssa.Function) bool {
	return f.Pkg != nil && (strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) || f.Pkg.Pkg.Path() == "mkem")
}

// initGlobals runs the package initialisers of the repository's packages.
func (x *Exec) initGlobals() {
	st := &State{}
	fns := map[*ssa.Function]bool{}
	for _, sp := range x.P.order {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				x.global(st, g)
			}
		}
	}
	for f := range ssautil.AllFunctions(x.P.ssa) {
		if isOurs(f) {
			fns[f] = true
		}
	}
	var ext []*ssa.Global
	seen := map[*ssa.Global]bool{}
	for f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && x.globals[g] == nil && !seen[g] {
						seen[g] = true
						ext = append(ext, g)
					}
				}
			}
		}
	}
	sort.Slice(ext, func(i, j int) bool { return ext[i].String() < ext[j].String() })
	for _, g := range ext {
		o := x.global(st, g)
		et := g.Type().Underlying().(*types.Pointer).Elem()
		if _, ok := et.Underlying().(*types.Interface); ok {
			st.os(o).cells[0] = Cell{Iface{types.NewPointer(types.Typ[types.String]), Opaque{name: g.String()}}, 16}
		}
	}
	// CPU feature flags: the configuration under verification (C08 proves how the real flags are set)
	if sp := x.P.pkgs[pkgPath("utils")]; sp != nil {
		x.H[sp.Func("init").String()] = lift(func(x *Exec, st *State, a []Value) Value { return nil })
		if g, ok := sp.Members["X86"].(*ssa.Global); ok {
			if u, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
				offs := x.fieldOffs(u)
				for i := 0; i < u.NumFields(); i++ {
					if f := u.Field(i); x.intWidth(f.Type()) == 1 {
						v := true
						if b, ok := x.cpuFlags[f.Name()]; ok {
							v = b
						}
						x.store(st, Ptr{x.globals[g], x.C.I(offs[i])}, f.Type(), x.C.Bool(v))
					}
				}
			}
		}
	}
	for _, g := range ext {
		if g.Pkg != nil && g.Pkg.Pkg.Path() == "golang.org/x/sys/cpu" && g.Name() == "X86" {
			if u, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
				offs := x.fieldOffs(u)
				for i := 0; i < u.NumFields(); i++ {
					if f := u.Field(i); x.intWidth(f.Type()) == 1 {
						v := true
						if b, ok := x.cpuFlags[f.Name()]; ok {
							v = b
						}
						x.store(st, Ptr{x.globals[g], x.C.I(offs[i])}, f.Type(), x.C.Bool(v))
					}
				}
			}
		}
	}
	saved := x.nosolver
	done := map[*ssa.Package]bool{}
	for _, sp := range x.P.order {
		if done[sp] || sp.Pkg.Path() == pkgPath("utils") {
			continue
		}
		fn := sp.Func("init")
		if fn == nil {
			continue
		}
		outs, err := x.Call(st, fn)
		if err != nil {
			unsup("initialising %s: %v", sp.Pkg.Path(), err)
		}
		if len(outs) != 1 || outs[0].kind != "ret" {
			var ok []*Outcome
			for _, o := range outs {
				if o.kind == "ret" {
					ok = append(ok, o)
				}
			}
			if len(ok) != 1 {
				unsup("initialising %s: %d outcomes", sp.Pkg.Path(), len(outs))
			}
			outs = ok
		}
		st = outs[0].st
	}
	x.nosolver = saved
	st.steps = 0
	x.base = st
	x.fnHits = map[string]int{}
}

// ---- assembly listings

type AsmInstr struct {
	op   string
	args []string
	pc   int
	line string
}
type AsmFunc struct {
	name  string
	frame int64
	ins   []AsmInstr
	byPC  map[int]int
	file  string
}
type AsmFile struct{ fns map[string]*AsmFunc }

var loadMu, asmMu sync.Mutex

func (p *Prog) asmFile(pkg *packages.Package) *AsmFile {
	asmMu.Lock()
	defer asmMu.Unlock()
	if f, ok := p.asm[pkg.PkgPath]; ok {
		return f
	}
	af := &AsmFile{fns: map[string]*AsmFunc{}}
	defer func() { p.asm[pkg.PkgPath] = af }()
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		unsup("go env: %v", err)
	}
	inc := filepath.Join(strings.TrimSpace(string(out)), "pkg", "include")
	for _, f := range pkg.OtherFiles {
		if !strings.HasSuffix(f, ".s") {
			continue
		}
		tmp, err := os.CreateTemp("", "govc*.o")
		if err != nil {
			unsup("temp: %v", err)
		}
		tmp.Close()
		cmd := exec.Command("go", "tool", "asm", "-S", "-p", "x", "-I", inc, "-I", filepath.Dir(f), "-D", "GOOS_linux", "-D", "GOARCH_amd64", "-o", tmp.Name(), f)
		cmd.Env = goEnv()
		cmd.Dir = repoDir
		b, err := cmd.Output()
		os.Remove(tmp.Name())
		if err != nil {
			unsup("go tool asm %s: %v", f, err)
		}
		var cur *AsmFunc
		for _, l := range strings.Split(string(b), "\n") {
			if !strings.HasPrefix(l, "\t0x") {
				continue
			}
			fs := strings.Split(l, "\t")
			// "", "0x0000 00000 (file:line)", OP, args
			if len(fs) < 3 || !strings.Contains(fs[1], "(") {
				continue
			}
			var hx, pc int
			fmt.Sscanf(fs[1], "0x%x %d", &hx, &pc)
			op := fs[2]
			var args []string
			if len(fs) > 3 {
				for _, a := range strings.Split(fs[3], ",") {
					args = append(args, strings.TrimSpace(a))
				}
			}
			switch op {
			case "TEXT":
				n := strings.TrimSuffix(args[0], "(SB)")
				n = strings.TrimPrefix(n, "x.")
				n = strings.TrimSuffix(n, "<>")
				cur = &AsmFunc{name: n, byPC: map[int]int{}, file: f}
				fmt.Sscanf(strings.TrimPrefix(args[len(args)-1], "$"), "%d", &cur.frame)
				af.fns[n] = cur
				continue
			case "FUNCDATA", "PCDATA", "NOP", "XCHGL":
				if op == "XCHGL" && !(len(args) == 2 && args[0] == args[1]) {
					break
				}
				continue
			}
			if cur == nil {
				continue
			}
			if _, ok := cur.byPC[pc]; !ok {
				cur.byPC[pc] = len(cur.ins)
			}
			i := strings.Index(fs[1], "(")
			cur.ins = append(cur.ins, AsmInstr{op, args, pc, strings.Trim(fs[1][i:], "()")})
		}
		// jump targets may fall on dropped pseudo-instructions: map to the next one
		for _, fn := range af.fns {
			// the assembler's stack-growth prologue (a call of runtime.morestack when
			// the goroutine stack is too small) has no effect on the function's result
			if len(fn.ins) > 0 && fn.ins[0].op == "MOVQ" && len(fn.ins[0].args) == 2 && fn.ins[0].args[0] == "(TLS)" {
				for i := 1; i < len(fn.ins) && i < 8; i++ {
					if fn.ins[i].op == "JLS" || fn.ins[i].op == "JCS" {
						for k := 0; k <= i; k++ {
							fn.ins[k].op = "VNOP"
						}
						break
					}
				}
			}
		}
	}
	return af
}

func (p *Prog) AsmFn(fn *ssa.Function) *AsmFunc {
	if fn.Pkg == nil {
		return nil
	}
	q := p.src[fn.Pkg.Pkg.Path()]
	if q == nil {
		return nil
	}
	return p.asmFile(q).fns[fn.Name()]
}

func (p *Prog) asmHandler(fn *ssa.Function) Handler {
	if fn.Name() == "init" && !isOurs(fn) {
		return lift(func(x *Exec, st *State, a []Value) Value { return nil })
	}
	af := p.AsmFn(fn)
	if af == nil {
		return nil
	}
	return func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []Alt {
		return x.runAsm(st, fn, af, args)
	}
}
