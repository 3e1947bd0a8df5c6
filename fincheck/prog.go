package main

// Loading of the repository.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/vanclief/finmod"

type Prog struct {
	dir      string
	pkgs     []*packages.Package
	prog     *ssa.Program
	ssas     map[string]*ssa.Package
	fset     *token.FileSet
	gconst   map[*ssa.Global]*ssa.Const
	initials map[*ssa.Global]*initValue
}

func loadProg(dir string, overlay map[string][]byte) (*Prog, error) {
	cfg := &packages.Config{
		Dir:     dir,
		Mode:    packages.LoadSyntax | packages.NeedModule | packages.NeedDeps | packages.NeedImports,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GONOSUMDB=*", "GOFLAGS=-mod=mod"),
		Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{dir: dir, ssas: map[string]*ssa.Package{}, gconst: map[*ssa.Global]*ssa.Const{}, initials: map[*ssa.Global]*initValue{}}
	var errs []string
	for _, k := range pkgs {
		for _, e := range k.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type checking failed: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	p.pkgs = pkgs
	p.fset = pkgs[0].Fset
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p.prog = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		sp.Build()
		p.ssas[pkgs[i].PkgPath] = sp
	}
	p.findGlobalConsts()
	return p, nil
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// fn finds "market.NewTrade" or "market.(*OrderBook).GetDepth" / "market.OrderBook.GetDepth".
func (p *Prog) fn(name string) *ssa.Function {
	i := strings.IndexByte(name, '.')
	sp := p.ssas[modPath+"/"+name[:i]]
	if sp == nil {
		return nil
	}
	rest := name[i+1:]
	if !strings.Contains(rest, ".") {
		return sp.Func(rest)
	}
	j := strings.IndexByte(rest, '.')
	tn := strings.Trim(rest[:j], "(*)")
	t := sp.Type(tn)
	if t == nil {
		return nil
	}
	for _, ty := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
		if f := p.prog.LookupMethod(ty, sp.Pkg, rest[j+1:]); f != nil {
			if f.Synthetic != "" && strings.Contains(f.Synthetic, "wrapper") {
				if g := p.prog.LookupMethod(t.Type(), sp.Pkg, rest[j+1:]); g != nil && g.Synthetic == "" {
					return g
				}
			}
			return f
		}
	}
	return nil
}

// global finds the package variable "market.PairMappings".
func (p *Prog) global(name string) *ssa.Global {
	i := strings.IndexByte(name, '.')
	if sp := p.ssas[modPath+"/"+name[:i]]; sp != nil {
		return sp.Var(name[i+1:])
	}
	return nil
}

func (p *Prog) typ(name string) types.Type {
	i := strings.IndexByte(name, '.')
	sp := p.ssas[modPath+"/"+name[:i]]
	if sp == nil {
		return nil
	}
	t := sp.Type(name[i+1:])
	if t == nil {
		return nil
	}
	return t.Type()
}

func (p *Prog) method(t types.Type, m *types.Func) *ssa.Function {
	sel := p.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	f := p.prog.MethodValue(sel)
	return f
}

// allFuncs lists the functions of the repository with bodies, including
// methods and closures.
func (p *Prog) allFuncs() []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(p.prog) {
		if f.Blocks != nil && inRepo(f) && f.Synthetic == "" {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].String() != out[j].String() {
			return out[i].String() < out[j].String()
		}
		return out[i].Pos() < out[j].Pos()
	})
	return out
}

// findGlobalConsts: package variables that are stored exactly once, in the
// package initialiser, with a constant, and whose address does not escape.
func (p *Prog) findGlobalConsts() {
	stores := map[*ssa.Global]int{}
	bad := map[*ssa.Global]bool{}
	val := map[*ssa.Global]*ssa.Const{}
	for f := range ssautil.AllFunctions(p.prog) {
		if !inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						stores[g]++
						v := s.Val
						for {
							if ct, ok := v.(*ssa.ChangeType); ok {
								v = ct.X
								continue
							}
							break
						}
						if c, ok := v.(*ssa.Const); ok && f.Name() == "init" {
							val[g] = c
						} else {
							bad[g] = true
						}
						if gv, ok := s.Val.(*ssa.Global); ok {
							bad[gv] = true
						}
						continue
					}
				}
				if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL {
					if _, ok := u.X.(*ssa.Global); ok {
						continue
					}
				}
				for _, op := range ins.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Global); ok {
						bad[g] = true
					}
				}
			}
		}
	}
	for g, n := range stores {
		if n == 1 && !bad[g] && val[g] != nil && g.Name() != "init$guard" {
			p.gconst[g] = val[g]
		}
	}
}

func (p *Prog) globalConst(g *ssa.Global) *ssa.Const { return p.gconst[g] }

// onlyInit: a package variable is assigned by the package initialiser only and
// what it holds is only read elsewhere.
func (p *Prog) onlyInit(g *ssa.Global) bool {
	for _, f := range p.allFuncs() {
		init := f.Name() == "init" && f.Signature.Recv() == nil
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if op == nil || *op != ssa.Value(g) {
						continue
					}
					if s, ok := ins.(*ssa.Store); ok && init && s.Addr == ssa.Value(g) {
						continue
					}
					if u, ok := ins.(*ssa.UnOp); !ok || !readsOnly(u) {
						return false
					}
				}
			}
		}
	}
	return true
}
