package main

// Models, strategy actions, annotations and tick times.

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("M01", "for every model, each abstract outcome of Update: accepted exactly for a non-nil pointer to the same model type, then every field equals the given model's, otherwise an invalid-argument error and no change", checkModelUpdate)
	register("M02", "for every model: the identifier returned is the value of the field whose JSON name is the schema's primary key; schema names are the specified ones, non-empty and pairwise different", checkModelSchema)
	register("M03", "query over the struct types: each exported field of an exchanged record is encoded under the snake_case form of its name, names are distinct ignoring case, nothing is skipped or conditionally omitted, and no custom encoder replaces the default", checkJSONTags)
	register("S01", "effect analysis of the action collectors: along the loop over the arguments the n-th map write stores the n-th action with a newly generated identifier under that identifier, exactly one write per action; nothing else changes", checkActions)
	register("S02", "every field of a new annotation equals its argument with a freshly generated identifier", checkNewAnnotation)
	register("S03", "the returned time terms denote the instant of the candle time in seconds, in the local or the requested location; the error result is non-nil exactly when the location lookup fails", checkTickTime)
}

var models4 = []struct{ name, schema string }{
	{"market.Order", "orders"}, {"market.Position", "positions"}, {"market.Trade", "trades"}, {"strategy.Annotation", "annotations"},
}

func checkModelUpdate(c *Ctx) {
	for _, m := range models4 {
		r := c.run(m.name+".Update", runOpt{})
		if r == nil {
			continue
		}
		acc := 0
		r.each(func(o *Out) {
			recv := o.arg(0).(Ptr)
			arg, ok := o.arg(1).(Iface)
			if !ok || arg.atom == nil {
				panic(undecided{"the argument is not an interface"})
			}
			pt := o.fn.Params[0].Type()
			is := L(boolAtomLit(fnAtom("is:"+pt.String(), SBool, arg.atom), true))
			st := o.st.clone()
			content := st.ifaceContent(arg, pt)
			e := o.ret(0)
			accept := And(is, Not(isNil(content)))
			o.mustIn(st, "rejects-iff", Iff(errNil(e), accept), "an update is accepted for something other than a non-nil pointer to the model, or rejected for one")
			if proveF(st.f, errNil(e)) {
				acc++
				src := st.load(content.(Ptr))
				dst := st.load(recv)
				for _, f := range structFields(dst) {
					o.mustIn(st, "field-"+f, eqF(field(dst, f), field(src, f)), "field %s is not taken over", f)
				}
				o.mustPure("argument-unchanged", map[int]bool{recv.obj: true})
			} else {
				o.mustCode(e, "invalid")
				o.mustPure("rejected-unchanged", nil)
			}
		})
		c.ob(acc > 0, "reachable", m.name+".Update", "no outcome accepts a model")
	}
}

func jsonName(s *types.Struct, i int) (name string, opts []string, skip bool) {
	tag := reflect.StructTag(s.Tag(i)).Get("json")
	if tag == "-" {
		return "", nil, true
	}
	parts := strings.Split(tag, ",")
	name = parts[0]
	if name == "" {
		name = s.Field(i).Name()
	}
	return name, parts[1:], false
}

func checkModelSchema(c *Ctx) {
	seen := map[string]string{}
	for _, m := range models4 {
		r := c.run(m.name+".GetSchema", runOpt{})
		if r == nil {
			continue
		}
		pkey := ""
		r.each(func(o *Out) {
			v := o.deref(o.ret(0))
			nm, _ := field(v, "Name").(*Atom)
			pk, _ := field(v, "PKey").(*Atom)
			o.must("schema", And(Not(isNil(o.ret(0))), Is(nm, m.schema)), "the schema is not named %q", m.schema)
			o.must("schema", Is(pk, "id"), "the primary key is not %q", "id")
			pkey = "id"
			o.mustPure("receiver-unchanged", nil)
		})
		if p, dup := seen[m.schema]; dup {
			c.ob(false, "distinct", m.name, "schema %q is also used by %s", m.schema, p)
		}
		seen[m.schema] = m.name
		g := c.run(m.name+".GetID", runOpt{})
		if g == nil {
			continue
		}
		g.each(func(o *Out) {
			v := o.old(o.arg(0))
			st := under(v.(*Struct).typ).(*types.Struct)
			f := ""
			for i := 0; i < st.NumFields(); i++ {
				if n, _, skip := jsonName(st, i); !skip && n == pkey {
					f = st.Field(i).Name()
				}
			}
			if f == "" {
				c.ob(false, "id", o.where(), "no field is encoded under the primary key %q", pkey)
				return
			}
			o.must("id", eqF(o.ret(0), field(v, f)), "the identifier is not the value of the primary key field %s", f)
			o.mustPure("receiver-unchanged", nil)
		})
	}
	// the models implement the storage interface
	for _, m := range models4 {
		fn := c.prog.fn(m.name + ".Update")
		if fn == nil {
			continue
		}
		ms := types.NewMethodSet(fn.Params[0].Type())
		for _, n := range []string{"GetSchema", "GetID", "Update"} {
			c.ob(ms.Lookup(fn.Pkg.Pkg, n) != nil, "interface", m.name, "method %s is missing", n)
		}
	}
}

func snake(s string) string {
	rs := []rune(s)
	var b strings.Builder
	for i, r := range rs {
		if unicode.IsUpper(r) {
			if i > 0 && (unicode.IsLower(rs[i-1]) || i+1 < len(rs) && unicode.IsLower(rs[i+1])) {
				b.WriteByte('_')
			}
			b.WriteRune(unicode.ToLower(r))
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// the records exchanged as JSON
var jsonRecords = map[string][]string{
	"market":   {"Asset", "AssetsSnapshot", "Balance", "BalanceSnapshot", "Candle", "Order", "OrderBook", "OrderBookRow", "OrderBookUpdate", "Pair", "Position", "PositionCloseOrder", "Ticker", "Trade"},
	"strategy": {"Annotation", "CancelOrderAction", "ClosePositionAction", "CreateOrderAction", "UpdateOrderAction", "UpdatePositionAction"},
}

func checkJSONTags(c *Ctx) {
	var pkgs []string
	for p := range jsonRecords {
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)
	for _, p := range pkgs {
		sp := c.prog.ssas[modPath+"/"+p]
		if sp == nil {
			c.ob(false, "anchor", p, "package not found")
			continue
		}
		done := map[string]bool{}
		check := func(n string) {
			done[n] = true
			tn, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				c.ob(false, "anchor", p+"."+n, "type not found")
				return
			}
			s, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				c.ob(false, "anchor", p+"."+n, "not a struct")
				return
			}
			c.jsonStruct(p+"."+n, tn.Type(), s)
		}
		for _, n := range jsonRecords[p] {
			check(n)
		}
		// other tagged records follow the same rule
		for _, n := range sp.Pkg.Scope().Names() {
			tn, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || done[n] || !tn.Exported() {
				continue
			}
			s, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if reflect.StructTag(s.Tag(i)).Get("json") != "" {
					check(n)
					break
				}
			}
		}
	}
}

func (c *Ctx) jsonStruct(name string, t types.Type, s *types.Struct) {
	seen := map[string]string{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		where := name + "." + f.Name() + " (" + c.prog.pos(f.Pos()) + ")"
		c.sites++
		if !f.Exported() {
			continue
		}
		jn, opts, skip := jsonName(s, i)
		if !c.ob(!skip, "encoded", where, "the field is not encoded") {
			continue
		}
		c.ob(jn == snake(f.Name()), "name", where, "the field is encoded as %q instead of %q", jn, snake(f.Name()))
		for _, o := range opts {
			c.ob(false, "options", where, "encoding option %q changes the record's form", o)
		}
		if p, dup := seen[strings.ToLower(jn)]; dup {
			c.ob(false, "distinct", where, "the field has the same encoded name as %s", p)
		} else {
			c.ob(true, "distinct", where, "")
		}
		seen[strings.ToLower(jn)] = f.Name()
		c.ob(jsonable(f.Type(), 0), "encodable", where, "the field's type cannot be encoded")
		c.defaultEncoding(where, f.Type())
	}
	c.defaultEncoding(name, t)
}

// defaultEncoding: no type of the library that t is made of encodes itself.
func (c *Ctx) defaultEncoding(where string, t types.Type) {
	switch x := t.(type) {
	case *types.Pointer:
		c.defaultEncoding(where, x.Elem())
	case *types.Slice:
		c.defaultEncoding(where, x.Elem())
	case *types.Array:
		c.defaultEncoding(where, x.Elem())
	case *types.Map:
		c.defaultEncoding(where, x.Key())
		c.defaultEncoding(where, x.Elem())
	case *types.Named:
		if p := x.Obj().Pkg(); p == nil || !strings.HasPrefix(p.Path(), modPath) {
			return
		}
		for _, tt := range []types.Type{t, types.NewPointer(t)} {
			ms := types.NewMethodSet(tt)
			for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
				c.ob(ms.Lookup(nil, m) == nil, "default-encoding", where, "method %s of %s replaces the default encoding", m, x.Obj().Name())
			}
		}
	}
}

func jsonable(t types.Type, d int) bool {
	if d > 8 {
		return true
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Info()&types.IsComplex == 0 && x.Kind() != types.UnsafePointer
	case *types.Chan, *types.Signature, *types.Interface:
		return false
	case *types.Slice:
		return jsonable(x.Elem(), d+1)
	case *types.Pointer:
		return jsonable(x.Elem(), d+1)
	}
	return true
}

func (e *Eng) silent() bool { return e.quiet > 0 }

func checkActions(c *Ctx) {
	for _, k := range []struct{ method, fld string }{
		{"AddCreateOrders", "CreateOrders"}, {"AddUpdateOrders", "UpdateOrders"}, {"AddCancelOrders", "CancelOrders"},
		{"AddUpdatePositions", "UpdatePositions"}, {"AddClosePositions", "ClosePositions"},
	} {
		name := "strategy.Actions." + k.method
		var run *Run
		var recv Ptr
		var acts Slice
		writes := 0
		targets := map[int]string{}
		prep := func(e *Eng, st *State, args []V) {
			recv, acts = args[0].(Ptr), args[1].(Slice)
			st.ghost["written"] = IntN(0)
			st.ghost["ids"] = IntN(0)
			run = &Run{c: c, name: name, e: e, st0: st.clone(), args: args}
			e.onCall = func(st *State, ins ssa.CallInstruction, callee string, args []V) {
				if callee == "github.com/rs/xid.New" {
					st.ghost["ids"] = Add(num(st.ghost["ids"]), IntN(1))
				}
			}
			e.onMapSet = func(st *State, ins *ssa.MapUpdate, m MapV, key, v V) {
				n := num(st.ghost["written"])
				st.ghost["written"] = Add(n, IntN(1))
				ids := num(st.ghost["ids"])
				st.ghost["ids"] = IntN(0)
				if e.silent() {
					return
				}
				writes++
				where := fmt.Sprintf("%s (map write at %s)", name, c.prog.pos(ins.Pos()))
				targets[m.obj] = where
				c.ob(freshID(key) && st.f.prove(cmpLit(">=", ids, IntN(1))), "fresh-id", where, "the key is not a newly generated identifier")
				s, ok := v.(*Struct)
				if !ok {
					c.ob(false, "value", where, "the stored value is not tracked")
					return
				}
				c.ob(proveF(st.f, eqF(field(s, "ID"), key)), "keyed", where, "the stored action's identifier is not its key")
				c.ob(st.f.prove(cmpLit("<", n, acts.len)), "value", where, "more writes than actions")
				src := run.oldElem(acts, n)
				for _, f := range structFields(s) {
					if f != "ID" {
						c.ob(proveF(st.f, eqF(field(s, f), field(src, f))), "value", where, "field %s of the stored action is not the given one", f)
					}
				}
			}
		}
		r := c.run(name, runOpt{prep: prep})
		if r == nil {
			continue
		}
		c.ob(writes > 0, "reachable", name, "no map write found")
		c.sites += writes
		r.each(func(o *Out) {
			o.must("all-stored", Eq(num(o.st.ghost["written"]), acts.len), "not every action is stored exactly once")
			v0, v1 := o.old(recv), o.deref(recv)
			for _, f := range structFields(v0) {
				if f != k.fld {
					o.must("others-unchanged", eqF(field(v1, f), field(v0, f)), "field %s changes", f)
				}
			}
			m0, m1 := field(v0, k.fld).(MapV), field(v1, k.fld).(MapV)
			for id, where := range targets {
				ob := o.st.mem[id]
				switch {
				case ob == nil, id == m1.obj:
				case id == m0.obj:
					o.must("target", L(m0.nilL), "a write does not go to %s", k.fld)
				default:
					c.ob(!ob.entry && !ob.havoc && len(ob.entries) == 0, "target", where, "the write does not go to %s", k.fld)
				}
			}
			o.must("kept", Imp(Not(L(m0.nilL)), eqF(m0, m1)), "an existing collection is replaced")
			o.must("created", Imp(Gt(acts.len, IntN(0)), Not(L(m1.nilL))), "the collection is nil")
			o.mustPure("inputs-unchanged", map[int]bool{recv.obj: true, m0.obj: true})
		})
	}
	r := c.run("strategy.Actions.AddAnnotations", runOpt{})
	if r != nil {
		r.each(func(o *Out) {
			recv, add := o.arg(0).(Ptr), o.arg(1).(Slice)
			v0, v1 := o.old(recv), o.deref(recv)
			old, now := field(v0, "Annotations").(Slice), field(v1, "Annotations").(Slice)
			for _, f := range structFields(v0) {
				if f != "Annotations" {
					o.must("others-unchanged", eqF(field(v1, f), field(v0, f)), "field %s changes", f)
				}
			}
			o.must("count", Eq(now.len, Add(old.len, add.len)), "the number of annotations is not the sum")
			c.ob(now.obj != add.obj, "independent", o.where(), "the collected annotations share memory with the given list")
			o.forall(now, "k", func(st *State, k Num, v V) {
				for _, f := range structFields(v) {
					o.mustIn(st, "kept", Imp(Lt(k, old.len), eqF(field(v, f), field(o.oldElem(old, k), f))), "field %s of an earlier annotation changes", f)
					o.mustIn(st, "added", Imp(Ge(k, old.len), eqF(field(v, f), field(o.oldElem(add, Sub(k, old.len)), f))), "field %s of an added annotation is not the given one", f)
				}
			})
		})
	}
	for _, n := range []string{"CreateOrderAction", "UpdateOrderAction", "CancelOrderAction", "UpdatePositionAction", "ClosePositionAction"} {
		r := c.run("strategy."+n+".GenerateID", runOpt{})
		if r == nil {
			continue
		}
		r.each(func(o *Out) {
			v0, v1 := o.old(o.arg(0)), o.deref(o.arg(0))
			c.ob(freshID(field(v1, "ID")), "fresh-id", o.where(), "the identifier is not freshly generated")
			o.mustOthers(v1, v0, "ID")
		})
	}
}

func checkNewAnnotation(c *Ctx) {
	r := c.run("strategy.NewAnnotation", runOpt{})
	if r == nil {
		return
	}
	r.each(func(o *Out) {
		v := o.deref(o.ret(0))
		o.must("result", Not(isNil(o.ret(0))), "no annotation is returned")
		c.ob(freshID(field(v, "ID")), "fresh-id", o.where(), "the identifier is not freshly generated")
		o.mustField(v, "Time", o.arg(0))
		o.mustField(v, "Price", o.arg(1))
		o.mustField(v, "Label", o.arg(2))
		o.mustField(v, "Tooltip", o.arg(3))
		o.mustField(v, "CreationTime", IntN(0))
		o.mustField(v, "ExecutionID", strConst(""))
	})
}

// instant strips the location of a time term.
func instant(v V) (at *Atom, loc Term, kind string) {
	a, ok := v.(*Atom)
	if !ok {
		return nil, nil, ""
	}
	kind = "local"
	for a.kind == KFn {
		switch a.name {
		case "in":
			if kind == "local" && loc == nil {
				loc, kind = a.args[1], "in"
			}
		case "utc":
			if kind == "local" && loc == nil {
				kind = "utc"
			}
		case "local":
		default:
			return a, loc, kind
		}
		n, ok := a.args[0].(*Atom)
		if !ok {
			return nil, nil, ""
		}
		a = n
	}
	return a, loc, kind
}

func candleSet(e *Eng, st *State, args []V) {
	cp := field(st.load(args[0].(Ptr)), "Candle").(Ptr)
	st.assume(cp.nilL.Not())
}

func checkTickTime(c *Ctx) {
	c.assume = append(c.assume, "the tick carries a candle")
	at := func(o *Out) (Num, V) {
		cp := field(o.old(o.arg(0)), "Candle").(Ptr)
		return fieldN(o.st0.load(cp), "Time"), cp
	}
	if r := c.run("strategy.Tick.GetLocalTime", runOpt{prep: candleSet}); r != nil {
		r.each(func(o *Out) {
			t, _ := at(o)
			a, _, kind := instant(o.ret(0))
			ok := a != nil && a.kind == KFn && a.name == "unix" && len(a.args) == 2
			c.ob(ok, "instant", o.where(), "the result is not a point in time made from seconds (%s)", vStr(o.ret(0)))
			if ok {
				o.must("instant", And(Eq(num(a.args[0].(V)), t), Eq(num(a.args[1].(V)), IntN(0))), "the result is not the candle's time")
			}
			c.ob(kind == "local", "location", o.where(), "the result is not in the local time zone")
			o.mustPure("inputs-unchanged", nil)
		})
	}
	if r := c.run("strategy.Tick.GetLocationTime", runOpt{prep: candleSet}); r != nil {
		acc := 0
		r.each(func(o *Out) {
			t, _ := at(o)
			name := o.arg(1).(*Atom)
			known := L(boolAtomLit(fnAtom("isNil", SBool, fnAtom("location.err", SOpq, name)), true))
			e := o.ret(1)
			if !proveF(o.st.f, errNil(e)) {
				o.must("error", Not(errNil(e)), "undetermined error")
				o.must("rejects-iff", Not(known), "an error is returned although the location is known")
				return
			}
			acc++
			o.must("rejects-iff", known, "an unknown location is accepted")
			a, loc, kind := instant(o.ret(0))
			ok := a != nil && a.kind == KFn && a.name == "unix" && len(a.args) == 2
			c.ob(ok, "instant", o.where(), "the result is not a point in time made from seconds (%s)", vStr(o.ret(0)))
			if ok {
				o.must("instant", And(Eq(num(a.args[0].(V)), t), Eq(num(a.args[1].(V)), IntN(0))), "the result is not the candle's time")
			}
			c.ob(kind == "in" && loc != nil, "location", o.where(), "the result is not in the requested location")
			if kind == "in" && loc != nil {
				id := 0
				fmt.Sscanf(fmt.Sprint(loc), "P%d", &id)
				ob := o.st.mem[id]
				c.ob(ob != nil && ob.name == "*location"+fmt.Sprint([]Term{name}), "location", o.where(), "the location is not the requested one")
			}
		})
		c.ob(acc > 0, "reachable", "strategy.Tick.GetLocationTime", "no accepting outcome")
	}
}
