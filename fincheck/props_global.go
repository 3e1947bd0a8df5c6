package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Properties of the whole exported interface.

func init() {
	register("G01", "every index, slice, nil dereference, nil-map write, integer division and type assertion reachable from an exported function is shown to be in range, non-nil or guarded for arbitrary arguments", checkNoPanic)
	register("G02", "every loop reachable from an exported function moves an integer strictly toward a bound that is fixed during the loop, or leaves when its input is used up; there is no recursion", checkTermination)
	register("G03", "in every abstract outcome of every exported function all memory reachable from the arguments on entry has its entry content, except what the operation is there to change", checkArguments)
	register("G04", "effect analysis over the static call graph: package variables are only written by package initialisers, no goroutine, channel or map iteration occurs, and calls that depend on the outside (clock, identifiers, files, zones, console) occur only in the operations that are defined by them", checkEffects)
}

// api lists the exported functions with what they may change and the outside
// effects they may have.
type apiFn struct {
	name    string
	changes bool     // may change its receiver
	owns    bool     // the result is changed by later operations and shares no memory with the arguments
	effects []string // outside effects
}

var api = []apiFn{
	{name: "indicators.(*WilliamFractal).String"},
	{name: "indicators.WilliamFractals"},
	{name: "indicators.ExponentialWeightedVolatility"},
	{name: "indicators.MovingAverage"},
	{name: "indicators.ExponentialMovingAverage"},
	{name: "indicators.SmoothedMovingAverage"},
	{name: "indicators.RSI"},
	{name: "strategy.(*AddAnnotationsAction).String"},
	{name: "strategy.(*Annotation).String"},
	{name: "strategy.(*Annotation).GetSchema"},
	{name: "strategy.(*Annotation).GetID"},
	{name: "strategy.(*Annotation).Update", changes: true},
	{name: "strategy.NewAnnotation", effects: []string{"identifier"}},
	{name: "strategy.(*CreateOrderAction).GenerateID", changes: true, effects: []string{"identifier"}},
	{name: "strategy.(*UpdateOrderAction).GenerateID", changes: true, effects: []string{"identifier"}},
	{name: "strategy.(*CancelOrderAction).GenerateID", changes: true, effects: []string{"identifier"}},
	{name: "strategy.(*UpdatePositionAction).GenerateID", changes: true, effects: []string{"identifier"}},
	{name: "strategy.(*ClosePositionAction).GenerateID", changes: true, effects: []string{"identifier"}},
	{name: "strategy.(*Actions).AddCreateOrders", changes: true, effects: []string{"identifier"}},
	{name: "strategy.(*Actions).AddUpdateOrders", changes: true, effects: []string{"identifier"}},
	{name: "strategy.(*Actions).AddCancelOrders", changes: true, effects: []string{"identifier"}},
	{name: "strategy.(*Actions).AddUpdatePositions", changes: true, effects: []string{"identifier"}},
	{name: "strategy.(*Actions).AddClosePositions", changes: true, effects: []string{"identifier"}},
	{name: "strategy.(*Actions).AddAnnotations", changes: true},
	{name: "strategy.(*Tick).GetLocalTime", effects: []string{"zone"}},
	{name: "strategy.(*Tick).GetLocationTime", effects: []string{"zone"}},
	{name: "utils.RawDateToRFC3339"},
	{name: "market.(*BalanceSnapshot).String"},
	{name: "market.(*AssetsSnapshot).String"},
	{name: "market.(*Balance).String"},
	{name: "market.(*OrderBookRow).String"},
	{name: "market.(*Candle).String"},
	{name: "market.ModifyInterval"},
	{name: "market.GetMinInterval"},
	{name: "market.SaveCandlesToFile", effects: []string{"file"}},
	{name: "market.LoadCandlesFromFile", effects: []string{"file"}},
	{name: "market.NewOrderBook", owns: true, effects: []string{"clock"}},
	{name: "market.(*OrderBook).String"},
	{name: "market.(*OrderBook).Print", effects: []string{"console"}},
	{name: "market.(*OrderBook).ApplyUpdate", changes: true},
	{name: "market.(*OrderBook).GetDepth"},
	{name: "market.CalculateOverlap"},
	{name: "market.(*Asset).String"},
	{name: "market.NewAsset"},
	{name: "market.NewPair"},
	{name: "market.(*Pair).String"},
	{name: "market.(*Pair).Symbol"},
	{name: "market.(*Ticker).String"},
	{name: "market.NewOrderRequest"},
	{name: "market.(*OrderRequest).String"},
	{name: "market.(*OrderRequest).CalculateFields", owns: true},
	{name: "market.(*Order).GetSchema"},
	{name: "market.(*Order).GetID"},
	{name: "market.(*Order).Update", changes: true},
	{name: "market.(*Order).String"},
	{name: "market.(*Order).IsOpen"},
	{name: "market.NewCryptoAsset"},
	{name: "market.NewForexAsset"},
	{name: "market.NewStockAsset"},
	{name: "market.NewTrade"},
	{name: "market.(*Trade).GetSchema"},
	{name: "market.(*Trade).GetID"},
	{name: "market.(*Trade).Update", changes: true},
	{name: "market.(*Trade).String"},
	{name: "market.(*PositionCloseOrder).String"},
	{name: "market.NewPosition", owns: true, effects: []string{"identifier"}},
	{name: "market.(*Position).GetSchema"},
	{name: "market.(*Position).GetID"},
	{name: "market.(*Position).Update", changes: true},
	{name: "market.(*Position).String"},
	{name: "market.(*Position).UnrealizedProfit"},
	{name: "market.(*Position).Modify", changes: true},
}

// eachAPI analyses every exported function from an arbitrary entry state.
func (c *Ctx) eachAPI(f func(a apiFn, r *Run)) {
	c.assume = append(c.assume, "the candle of a tick is set and the maximum depth of a book is not negative (its constructor and updates keep it so)")
	for _, a := range api {
		a := a
		if onlyFns != nil && !onlyFns.MatchString(a.name) {
			continue
		}
		prep := func(e *Eng, st *State, args []V) {
			if strings.HasPrefix(a.name, "strategy.(*Tick)") {
				assumeSet(st, args[0], "Candle")
			}
			if strings.HasPrefix(a.name, "market.(*OrderBook)") {
				st.assume(cmpLit(">=", fieldN(st.load(args[0].(Ptr)), "MaxDepth"), IntN(0)))
			}
		}
		r := c.run(a.name, runOpt{prep: prep, partial: true})
		if r == nil {
			continue
		}
		c.sites++
		f(a, r)
	}
}

// assumeSet: a pointer field of a parameter is not nil.
func assumeSet(st *State, v V, name string) {
	s, ok := st.load(v.(Ptr)).(*Struct)
	if !ok {
		panic(undecided{"a parameter is not tracked"})
	}
	p, ok := field(s, name).(Ptr)
	if !ok {
		panic(undecided{"field " + name + " is not tracked"})
	}
	st.assume(p.nilL.Not())
}

func checkNoPanic(c *Ctx) {
	n := 0
	c.eachAPI(func(a apiFn, r *Run) {
		for _, k := range r.e.oblOrder {
			o := r.e.obl[k]
			if o.kind == "loop" {
				continue
			}
			n++
			c.rtObls++
			c.ob(o.ok, "no-panic/"+o.kind, o.where, "cannot be shown: %s", o.why)
		}
		c.ob(true, "analysed", a.name, "")
	})
	// explicit panics
	for _, f := range c.prog.allFuncs() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if p, ok := ins.(*ssa.Panic); ok {
					c.ob(false, "explicit", fmt.Sprintf("%s (%s)", fnName(f), c.prog.pos(p.Pos())), "panics on purpose")
				}
			}
		}
	}
	c.ob(n >= 60 || onlyFns != nil, "count", "exported functions", "only %d operations that could panic found", n)
}

func checkTermination(c *Ctx) {
	n := 0
	c.eachAPI(func(a apiFn, r *Run) {
		for _, k := range r.e.oblOrder {
			o := r.e.obl[k]
			if o.kind != "loop" {
				continue
			}
			n++
			c.ob(o.ok, "terminates", o.where, "cannot be shown: %s", o.why)
		}
		c.ob(true, "analysed", a.name, "") // recursion is reported as undecided
	})
	c.ob(n >= 12 || onlyFns != nil, "count", "exported functions", "only %d loops found", n)
}

func checkArguments(c *Ctx) {
	n := 0
	c.eachAPI(func(a apiFn, r *Run) {
		except := map[int]bool{}
		if a.changes {
			reach(r.st0, r.args[0], except)
		}
		r.each(func(o *Out) {
			o.mustPure("unmodified", except)
			if a.owns {
				kept := map[int]bool{}
				for _, v := range o.st.ret {
					reach(o.st, v, kept)
				}
				shared := ""
				for id := range kept {
					if ob := r.st0.mem[id]; ob != nil && ob.entry {
						shared = strings.TrimPrefix(ob.name, "*")
					}
				}
				c.ob(shared == "", "independent", o.where(), "the result shares memory with %s", shared)
			}
		})
		for id, ob := range r.st0.mem {
			if ob.entry && !except[id] {
				n++
			}
		}
	})
	c.ob(n >= 40 || onlyFns != nil, "count", "exported functions", "only %d arguments found", n)
}

// reach collects the objects reachable from a value.
func reach(st *State, v V, seen map[int]bool) {
	var obj func(id int)
	var val func(v V)
	obj = func(id int) {
		o, ok := st.mem[id]
		if !ok || seen[id] {
			return
		}
		seen[id] = true
		if o.kind == OCell {
			val(o.val)
		}
		for _, segs := range o.cols {
			for _, s := range segs {
				if s.arr == nil {
					val(s.val)
				}
			}
		}
	}
	val = func(v V) {
		switch x := v.(type) {
		case Ptr:
			obj(x.obj)
		case Slice:
			if !proveF(st.f, Eq(x.cap, IntN(0))) {
				obj(x.obj)
			}
		case MapV:
			obj(x.obj)
		case *Struct:
			for _, f := range x.f {
				val(f)
			}
		case Iface:
			val(x.val)
		case FuncV:
			for _, b := range x.bind {
				val(b)
			}
		case Tuple:
			for _, b := range x {
				val(b)
			}
		}
	}
	val(v)
}

// ---- effects ----

// effectOf classifies a library call: "" for none.
func effectOf(name, pkg string) string {
	switch name {
	case "time.Now", "time.Since", "time.Until", "time.Sleep", "time.After", "time.Tick", "time.NewTimer", "time.NewTicker", "time.AfterFunc":
		return "clock"
	case "time.LoadLocation", "(time.Time).Local":
		return "zone"
	case "fmt.Print", "fmt.Println", "fmt.Printf":
		return "console"
	case "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf":
		return "file"
	case "github.com/rs/xid.New":
		return "identifier"
	}
	switch pkg {
	case "os", "io", "bufio", "io/ioutil":
		return "file"
	case "fmt", "strings", "strconv", "math", "sort", "errors", "bytes", "unicode", "unicode/utf8", "time", "slices", "cmp",
		"github.com/vanclief/ez", "github.com/rs/xid", "container/list", "container/heap",
		"math/big", "math/bits", "regexp", "encoding/json", "encoding/csv", "maps", "iter":
		return ""
	}
	return "package " + pkg
}

// writerEffect classifies what is printed to.
func writerEffect(w ssa.Value) string {
	if m, ok := w.(*ssa.MakeInterface); ok {
		switch m.X.Type().String() {
		case "*strings.Builder", "*bytes.Buffer":
			return ""
		}
		if u, ok := m.X.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok && (g.String() == "os.Stdout" || g.String() == "os.Stderr") {
				return "console"
			}
		}
	}
	return "file"
}

func checkEffects(c *Ctx) {
	funcs := c.prog.allFuncs()
	// package variables
	globals := map[*ssa.Global]bool{}
	for _, sp := range c.prog.ssas {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && g.Name() != "init$guard" {
				globals[g] = true
			}
		}
	}
	vars, uses := 0, 0
	for range globals {
		vars++
	}
	for _, f := range funcs {
		if f.Name() == "init" && f.Signature.Recv() == nil || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				where := fmt.Sprintf("%s (%s)", fnName(f), c.prog.pos(ins.Pos()))
				for _, op := range ins.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Global)
					if !ok || !globals[g] {
						continue
					}
					uses++
					u, ok := ins.(*ssa.UnOp)
					good := ok
					if ok {
						switch under(u.Type()).(type) {
						case *types.Map, *types.Slice, *types.Pointer, *types.Chan:
							good = readsOnly(u)
						}
					}
					c.ob(good, "package-state", where, "package variable %s is written or passed on", g.Name())
				}
				switch x := ins.(type) {
				case *ssa.Go:
					c.ob(false, "goroutine", where, "a goroutine is started")
				case *ssa.Send, *ssa.Select, *ssa.MakeChan:
					c.ob(false, "channel", where, "a channel is used")
				case *ssa.Range:
					if _, isMap := under(x.X.Type()).(*types.Map); isMap {
						c.ob(false, "map-order", where, "the result may depend on the order of a map iteration")
					}
				}
			}
		}
	}
	c.sites += uses
	c.ob(vars >= 1, "package-state", "package variables", "none found")
	// effects through the call graph
	direct := map[*ssa.Function]map[string]string{}
	callees := map[*ssa.Function][]*ssa.Function{}
	calls := 0
	for _, f := range funcs {
		direct[f] = map[string]string{}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					calls++
					if inRepo(g) {
						callees[f] = append(callees[f], g)
						continue
					}
					pkg := ""
					if g.Pkg != nil {
						pkg = g.Pkg.Pkg.Path()
					} else if o := g.Object(); o != nil && o.Pkg() != nil {
						pkg = o.Pkg().Path()
					}
					ef := effectOf(g.String(), pkg)
					if cl, ok := ins.(ssa.CallInstruction); ok && strings.HasPrefix(g.String(), "fmt.Fprint") {
						ef = writerEffect(cl.Common().Args[0])
					}
					if ef != "" {
						direct[f][ef] = fmt.Sprintf("%s called by %s at %s", g.String(), fnName(f), c.prog.pos(ins.Pos()))
					}
				}
			}
		}
	}
	for _, a := range api {
		fn := c.prog.fn(a.name)
		if !c.ob(fn != nil, "anchor", a.name, "function not found") {
			continue
		}
		c.funcs[fnName(fn)] = true
		got := map[string]string{}
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			if seen[f] {
				return
			}
			seen[f] = true
			for k, w := range direct[f] {
				got[k] = w
			}
			for _, g := range callees[f] {
				walk(g)
			}
			for _, g := range f.AnonFuncs {
				walk(g)
			}
		}
		walk(fn)
		allowed := map[string]bool{}
		for _, e := range a.effects {
			allowed[e] = true
		}
		var ks []string
		for k := range got {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		bad := false
		for _, k := range ks {
			if !allowed[k] {
				bad = true
				c.ob(false, "effect", a.name, "depends on the outside (%s): %s", k, got[k])
			}
		}
		if !bad {
			c.ob(true, "effect", a.name, "")
		}
	}
	c.sites += calls
	c.ob(calls >= 60, "count", "call graph", "only %d calls found", calls)
}

// readsOnly: what a package variable refers to is only read.
func readsOnly(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		case *ssa.IndexAddr:
			for _, u := range *x.Referrers() {
				if l, ok := u.(*ssa.UnOp); !ok || l.X != ssa.Value(x) {
					return false
				}
			}
		case *ssa.BinOp:
		default:
			return false
		}
	}
	return true
}
