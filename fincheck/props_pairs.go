package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// The table of known pairs.

func init() {
	register("A02", "constant propagation through the package initialiser: every update of the map stored in the exported table has a constant key equal to base symbol + quote symbol of its value, each key once, no name or alternative symbol, a quote that other entries know; no other instruction of the repository writes the table", checkPairTable)
}

func checkPairTable(c *Ctx) {
	const name = "market.PairMappings"
	g := c.prog.global(name)
	if g == nil {
		c.ob(false, "anchor", name, "table not found")
		return
	}
	type entry struct{ key, base, quote, where string }
	var entries []entry
	var obj int
	var final V
	writes := map[int][]entry{}
	prep := func(e *Eng, st *State, args []V) {
		e.onMapSet = func(st *State, ins *ssa.MapUpdate, m MapV, key, v V) {
			if e.silent() {
				return
			}
			where := fmt.Sprintf("%s (entry at %s)", name, c.prog.pos(ins.Pos()))
			str := func(v V, what string) (string, bool) {
				a, ok := v.(*Atom)
				if ok {
					if n, is := st.f.normAtom(a).(*Atom); is {
						a = n
					}
				}
				ok = ok && a.kind == KConst
				if !ok {
					return "", c.ob(false, "constant", where, "the %s is not a constant", what)
				}
				return a.name, true
			}
			s, ok := v.(*Struct)
			if !ok {
				return
			}
			if s.typ.String() != modPath+"/market.Pair" {
				return
			}
			k, ok0 := str(key, "key")
			b, ok1 := str(field(field(s, "Base"), "Symbol"), "base symbol")
			q, ok2 := str(field(field(s, "Quote"), "Symbol"), "quote symbol")
			if !ok0 || !ok1 || !ok2 {
				return
			}
			for _, side := range []string{"Base", "Quote"} {
				for _, f := range []string{"Name", "AltSymbol"} {
					x, ok := str(field(field(s, side), f), f)
					c.ob(ok && x == "", "plain", where, "entry %q: the %s has a %s", k, side, f)
				}
			}
			writes[m.obj] = append(writes[m.obj], entry{k, b, q, where})
		}
		e.onStore = func(st *State, ins *ssa.Store, p Ptr) {
			if ins.Addr == ssa.Value(g) {
				final = st.val(ins.Val)
			}
		}
	}
	if r := c.run("market.init", runOpt{prep: prep, partial: true}); r == nil {
		return
	}
	m, ok := final.(MapV)
	if !c.ob(ok, "anchor", name, "the initial table is not tracked") {
		return
	}
	obj = m.obj
	entries = writes[obj]
	used := map[string]int{}
	for _, x := range entries {
		used[x.quote]++
	}
	bases := map[string]bool{}
	for _, x := range entries {
		bases[x.base] = true
	}
	keys := map[string]bool{}
	for _, x := range entries {
		c.ob(x.base != "" && x.quote != "", "symbols", x.where, "entry %q has an empty symbol", x.key)
		c.ob(x.key == x.base+x.quote, "key", x.where, "entry %q is the pair %s and %s", x.key, x.base, x.quote)
		c.ob(!keys[x.key], "unique", x.where, "entry %q occurs twice", x.key)
		c.ob(used[x.quote] > 1 || bases[x.quote], "quote", x.where, "entry %q is quoted in %q, which no other entry knows", x.key, x.quote)
		keys[x.key] = true
	}
	c.sites += len(entries)
	c.ob(len(entries) >= 1900, "count", name, "only %d entries found", len(entries))
	c.readOnly(g, name)
}

// readOnly: outside the package initialiser a package variable is only read,
// and what it holds is not modified or passed on.
func (c *Ctx) readOnly(g *ssa.Global, name string) {
	n := 0
	for _, f := range c.prog.allFuncs() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if op == nil || *op != ssa.Value(g) {
						continue
					}
					n++
					u, ok := ins.(*ssa.UnOp)
					c.ob(ok && onlyRead(u), "read-only", fmt.Sprintf("%s (%s)", fnName(f), c.prog.pos(ins.Pos())), "%s may be modified", name)
				}
			}
		}
	}
	c.sites += n
}

// onlyRead: the value of a map is used for lookups, iteration and len only.
func onlyRead(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	return true
}
