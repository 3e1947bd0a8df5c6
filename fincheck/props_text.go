package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Text forms, dates and enumerated values.

func init() {
	register("T01", "in every abstract outcome the returned text is a concatenation in which each expected label is directly followed by the rendering of its own field (decimals included), in the expected order", checkTexts)
	register("T02", "typestate with a ghost line counter: the printed values are the asks from the last to the first, then the bids from the first to the last, each row once", checkPrint)
	register("U01", "in every abstract outcome the returned time is the parse of the given date followed by midnight UTC, and the error is nil exactly when that parse has no error", checkDate)
	register("T03", "in every abstract outcome the text of a record that holds lists shows each list, after its label, with the elements it has on entry; the text of a group of annotations is its heading followed by the texts of the annotations, by the invariant of the loop: the text after k+1 annotations is the text after k followed by the values of annotation k", checkListTexts)
	register("M04", "the type-checked constants and variables of the enumerated types have the expected values, distinct within their type", checkEnums)
}

// shown is one labelled value: how is "s" (as text), "d" (integer), a number of
// decimals, "time", "bool", "len", "pair", "id8",
// "asset" or "any".
type shown struct{ label, field, how string }

var texts = []struct {
	name string
	vals []shown
}{
	{"market.(*Candle).String", []shown{{"Time", "Time", "unix"}, {"Open", "Open", "4"}, {"High", "High", "4"}, {"Low", "Low", "4"}, {"Close", "Close", "4"}, {"Volume", "Volume", "4"}}},
	{"market.(*Ticker).String", []shown{{"Time", "Time", "d"}, {"Ask", "Ask", "6"}, {"Bid", "Bid", "6"}, {"Last", "Last", "6"}, {"Volume", "Volume", "6"}, {"VWAP", "VWAP", "6"}}},
	{"market.(*BalanceSnapshot).String", []shown{{"Balance", "Balance", "6"}, {"Equity", "Equity", "6"}, {"Margin", "Margin", "6"}, {"Free Margin", "FreeMargin", "6"}}},
	{"market.(*Balance).String", []shown{{"Asset", "Asset", "asset"}, {"Amount", "Amount", "6"}}},
	{"market.(*OrderBookRow).String", []shown{{"Price", "Price", "3"}, {"Volume", "Volume", "3"}, {"AccumVolume", "AccumVolume", "3"}}},
	{"market.(*Asset).String", []shown{{"", "Name", "s"}, {"", "Symbol", "s"}}},
	{"market.(*Pair).String", []shown{{"", "Base.Symbol", "s"}, {"", "Quote.Symbol", "s"}}},
	{"market.(*PositionCloseOrder).String", []shown{{"Price", "Price", "6"}, {"OrderID", "OrderID", "s"}}},
	{"market.(*OrderRequest).String", []shown{{"Action", "Action", "s"}, {"Type", "Type", "s"}, {"Pair", "Pair", "pair"}, {"Quantity", "Quantity", "4"}, {"Price", "Price", "4"}, {"Total", "Total", "4"}}},
	{"market.(*Order).String", []shown{{"ID", "ID", "s"}, {"Action", "Action", "s"}, {"Type", "Type", "s"}, {"Pair", "Pair", "pair"}, {"Price", "Price", "4"}, {"Volume", "Volume", "4"}, {"ExecVolume", "ExecutedVolume", "4"}, {"Fee", "Fee", "4"}, {"Cost", "Cost", "4"}, {"Status", "Status", "s"}, {"OT", "OpenTime", "time"}, {"CT", "CloseTime", "time"}}},
	{"market.(*Trade).String", []shown{{"ID", "ID", "s"}, {"Execution Time", "ExecutionTime", "time"}, {"Action", "Action", "s"}, {"Type", "OrderType", "s"}, {"Pair", "Pair", "any"}, {"Price", "Price", "2"}, {"Quantity", "Quantity", "4"}, {"Fee", "Fee", "2"}, {"Cost", "Cost", "2"}}},
	{"market.(*Position).String", []shown{{"ID", "ID", "id8"}, {"Type", "Type", "s"}, {"Pair", "Pair", "pair"}, {"Open", "Open", "bool"}, {"OpenPrice", "OpenPrice", "2"}, {"ClosePrice", "ClosePrice", "2"}, {"Quantity", "Quantity", "4"}, {"Profit", "Profit", "2"}, {"OpenTime", "OpenTime", "time"}, {"CloseTime", "CloseTime", "time"}, {"Trades", "Trades", "len"}}},
	{"strategy.(*Annotation).String", []shown{{"ID", "ID", "s"}, {"Time", "Time", "d"}, {"Creation Time", "CreationTime", "d"}, {"Price", "Price", "6"}, {"ExecutionID", "ExecutionID", "s"}, {"Label", "Label", "s"}, {"Tooltip", "Tooltip", "s"}}},
	{"indicators.(*WilliamFractal).String", []shown{{"", "Time", "d"}, {"", "Price", "6"}, {"", "Type", "s"}}},
}

func checkTexts(c *Ctx) {
	for _, t := range texts {
		t := t
		r := c.run(t.name, runOpt{})
		if r == nil {
			continue
		}
		r.each(func(o *Out) {
			a, ok := o.ret(0).(*Atom)
			if !c.ob(ok, "text", o.where(), "the text is not tracked") {
				return
			}
			parts := textParts(o.st, a)
			rec, ok := r.old(r.args[0]).(*Struct)
			if !c.ob(ok, "text", o.where(), "the record is not tracked") {
				return
			}
			c.matchText(o, rec, t.vals, parts)
		})
	}
	c.sites = len(texts)
}

// textParts splits a text into the parts it is put together from.
func textParts(st *State, a *Atom) []*Atom {
	if n, is := st.f.normAtom(a).(*Atom); is {
		a = n
	}
	if a.kind != KFn || a.name != "concat" {
		return []*Atom{a}
	}
	var parts []*Atom
	for _, x := range a.args {
		parts = append(parts, x.(*Atom))
	}
	return parts
}

// matchText demands that the parts show the values of a record.
func (c *Ctx) matchText(o *Out, rec *Struct, vals []shown, parts []*Atom) {
	i := 0
	for _, s := range vals {
		want := showValue(o, rec, s)
		if want != nil && len(want) == 0 { // nothing to show
			c.ob(true, "value", o.where(), "")
			continue
		}
		j := i
		for j < len(parts) {
			if p := parts[j]; p.kind == KConst == (s.label != "") && (s.label == "" || endsInLabel(p.name, s.label)) {
				break
			}
			j++
		}
		if s.label != "" {
			j++
		}
		if !c.ob(j < len(parts), "label", o.where(), "the label %s is missing or out of order", s.label) {
			return
		}
		ok := j+len(want) <= len(parts)
		if ok && want == nil {
			ok = onlyFrom(parts[j], field(rec, s.field))
		}
		for k := 0; ok && k < len(want); k++ {
			p, w := parts[j+k], want[k]
			if k == len(want)-1 && w.kind == KConst && p.kind == KConst {
				ok = strings.HasPrefix(p.name, w.name)
			} else {
				ok = proveF(o.st.f, SEq(p, w))
			}
		}
		c.ob(ok, "value", o.where(), "the value shown as %q is not field %s", s.label, s.field)
		i = j
		if len(want) <= 1 {
			i = j + 1
		}
	}
}

// endsInLabel: a constant part of the text ends in the label and punctuation.
func endsInLabel(text, label string) bool {
	t := strings.TrimRight(text, " :$=\t")
	if !strings.HasSuffix(t, label) {
		return false
	}
	t = strings.TrimSuffix(t, label)
	if t == "" {
		return true
	}
	last := t[len(t)-1]
	return !(last >= 'a' && last <= 'z' || last >= 'A' && last <= 'Z' || last >= '0' && last <= '9')
}

// showValue gives the parts of the rendering of a field; nil when any
// rendering of it will do, empty when there is nothing to show.
func showValue(o *Out, rec *Struct, s shown) []*Atom {
	v := field(rec, s.field)
	one := func(a *Atom) []*Atom { return []*Atom{a} }
	str := func(v V) *Atom {
		a, ok := v.(*Atom)
		if !ok {
			panic(undecided{"field " + s.field + " is not tracked"})
		}
		return a
	}
	set := func(v V) V {
		p, ok := v.(Ptr)
		if !ok {
			return v
		}
		if o.st.f.prove(p.nilL) {
			return nil
		}
		return o.st.load(p)
	}
	switch s.how {
	case "s":
		return one(str(v))
	case "d":
		return one(fnAtom("itoa", SStr, o.st.f.norm(num(v))))
	case "len":
		return one(fnAtom("itoa", SStr, o.st.f.norm(v.(Slice).len)))
	case "time":
		return one(fnAtom("timeString", SStr, str(v)))
	case "unix":
		return one(fnAtom("timeString", SStr, fnAtom("unix", SOpq, o.st.f.norm(num(v)), IntN(0))))
	case "bool":
		return one(fnAtom("verb:t", SStr, litTerm{v.(Lit)}))
	case "any":
		return nil
	case "id8":
		a := str(v)
		if o.st.f.prove(cmpLit(">=", lenOf(a), IntN(9))) {
			return one(fnAtom("substr", SStr, a, IntN(0), IntN(8)))
		}
		if o.st.f.prove(cmpLit("<=", lenOf(a), IntN(8))) {
			return one(a)
		}
		return nil
	case "pair":
		w := set(v)
		if w == nil {
			return []*Atom{}
		}
		return []*Atom{str(field(w, "Base.Symbol")), strConst("/"), str(field(w, "Quote.Symbol"))}
	case "asset":
		w := set(v)
		if w == nil {
			return []*Atom{}
		}
		return []*Atom{str(field(w, "Name")), strConst(": "), str(field(w, "Symbol"))}
	}
	return one(fnAtom("fixed:"+s.how, SStr, o.st.f.norm(num(v))))
}

// onlyFrom: a rendering mentions a value and nothing else.
func onlyFrom(p *Atom, v V) bool {
	from := map[*Atom]bool{}
	var walk func(v V)
	walk = func(v V) {
		switch x := v.(type) {
		case Num:
			deep(x, func(a *Atom) { from[a] = true })
		case *Atom:
			deep(x, func(a *Atom) { from[a] = true })
		case Lit:
			x.deep(func(a *Atom) { from[a] = true })
		case *Struct:
			for _, f := range x.f {
				walk(f)
			}
		}
	}
	walk(v)
	hit, other := false, false
	deep(p, func(a *Atom) {
		if a.kind == KFn || a.kind == KConst {
			return
		}
		if from[a] {
			hit = true
		} else {
			other = true
		}
	})
	return hit && !other
}

func checkPrint(c *Ctx) {
	name := "market.(*OrderBook).Print"
	var r0 *Run
	var asks, bids Slice
	rows := 0
	prep := func(e *Eng, st *State, args []V) {
		r0 = &Run{c: c, name: name, e: e, st0: st.clone(), args: args}
		b := r0.old(args[0])
		asks, bids = field(b, "Asks").(Slice), field(b, "Bids").(Slice)
		st.ghost["rows"] = IntN(0)
		e.onCall = func(st *State, ins ssa.CallInstruction, call string, args []V) {
			if call != "fmt.Println" && call != "fmt.Printf" && call != "fmt.Print" {
				return
			}
			va := args[len(args)-1].(Slice)
			k, ok := va.len.ConstInt()
			if !ok {
				c.ob(e.silent(), "row", name, "the printed values are not tracked")
				return
			}
			for i := int64(0); i < k; i++ {
				x, ok := st.readElem(st.obj(va.obj), Add(va.off, IntN(i)), "", va.elem).(Iface)
				if !ok || x.dyn == nil || !types.Identical(x.dyn, asks.elem) {
					continue
				}
				n := num(st.ghost["rows"])
				st.ghost["rows"] = Add(n, IntN(1))
				if e.silent() {
					continue
				}
				rows++
				where := fmt.Sprintf("%s (%s)", name, c.prog.pos(ins.Pos()))
				var w V
				if st.f.prove(cmpLit("<", n, asks.len)) {
					w = r0.oldElem(asks, Sub(Sub(asks.len, IntN(1)), n))
				} else {
					if !c.ob(st.f.prove(cmpLit(">=", n, asks.len)), "order", where, "a bid may be printed before the asks are") {
						continue
					}
					w = r0.oldElem(bids, Sub(n, asks.len))
				}
				c.ob(proveF(st.f, eqF(x.val, w)), "row", where, "the row printed is not the next one")
			}
		}
	}
	r := c.run(name, runOpt{prep: prep})
	if r == nil {
		return
	}
	c.sites += rows
	c.ob(rows > 0, "rows", name, "no row is printed")
	r.each(func(o *Out) {
		o.must("complete", Eq(num(o.st.ghost["rows"]), Add(asks.len, bids.len)), "not every row is printed once")
	})
}

// checkListTexts decides the texts of records that hold lists.
func checkListTexts(c *Ctx) {
	for _, t := range []struct {
		name string
		time shown
		list []string
	}{
		{"market.(*OrderBook).String", shown{"Time", "Time", "d"}, []string{"Asks", "Bids"}},
		{"market.(*AssetsSnapshot).String", shown{"Time", "Time", "6"}, []string{"Assets"}},
	} {
		r := c.run(t.name, runOpt{})
		if r == nil {
			continue
		}
		r.each(func(o *Out) {
			a, ok := o.ret(0).(*Atom)
			if !c.ob(ok, "text", o.where(), "the text is not tracked") {
				return
			}
			parts := textParts(o.st, a)
			rec := r.old(r.args[0]).(*Struct)
			c.matchText(o, rec, []shown{t.time}, parts)
			i := 0
			for _, f := range t.list {
				for i < len(parts) && !(parts[i].kind == KConst && endsInLabel(parts[i].name, f)) {
					i++
				}
				i++
				if !c.ob(i < len(parts), "label", o.where(), "the label %s is missing or out of order", f) {
					return
				}
				entry := o.st.clone()
				entry.own()
				entry.mem = r.st0.mem
				l, ok := r.e.lists[parts[i]]
				c.ob(ok && vKey(l) == vKey(contents(entry, field(rec, f).(Slice))), "list", o.where(), "the list shown as %q is not the elements of %s in order", f, f)
				c.sites++
			}
		})
	}
	c.annotationTexts()
}

// elemText: what the facts about all elements of a list say about one.
func elemText(st *State, el *Atom) *Atom {
	if n, ok := st.f.normAtom(el).(*Atom); ok {
		el = n
	}
	if el.kind != KSel {
		return el
	}
	for shift := int64(0); shift < 2; shift++ {
		self := selAtom(el.arr, Add(atomNum(qv), IntN(shift)))
		at := Sub(el.args[0].(Num), IntN(shift))
		for _, q := range st.f.qs {
			l := q.body
			if q.pair || len(q.guards) > 0 || l.op != LSEq || l.a != self && l.b != self {
				continue
			}
			if l.a == self {
				l.a = l.b
			}
			if st.f.prove(cmpLit("<=", q.lo, at)) && st.f.prove(cmpLit(">", q.hi, at)) {
				if x, ok := substTerm(l.a, func(x *Atom) (Term, bool) { return at, x == qv }).(*Atom); ok {
					return x
				}
			}
		}
	}
	return el
}

// annotationTexts: the text of a group of annotations after k of them is the
// text after k-1 followed by the text of annotation k.
func (c *Ctx) annotationTexts() {
	name := "strategy.(*AddAnnotationsAction).String"
	var vals []shown
	for _, t := range texts {
		if t.name == "strategy.(*Annotation).String" {
			vals = t.vals
		}
	}
	r := c.run(name, runOpt{})
	if r == nil {
		return
	}
	some, none := 0, 0
	r.each(func(o *Out) {
		a, ok := o.ret(0).(*Atom)
		if !c.ob(ok, "text", o.where(), "the text is not tracked") {
			return
		}
		list := field(r.old(r.args[0]), "Annotations").(Slice)
		// one annotation after the other
		item := func(st *State, k Num, parts []*Atom) {
			x := *o
			x.st = st
			shown := 0
			for _, p := range parts {
				if p.kind != KConst {
					shown++
				}
			}
			c.ob(shown == len(vals), "once", o.where(), "an annotation is left out or something else is shown")
			c.matchText(&x, r.oldElem(list, k).(*Struct), vals, parts)
			last := parts[len(parts)-1]
			c.ob(last.kind == KConst && strings.HasSuffix(last.name, "\n"), "line", o.where(), "an annotation does not end its line")
		}
		parts := textParts(o.st, a)
		if s, ok := r.e.joins[parts[len(parts)-1]]; ok && len(parts) == 2 && parts[0].kind == KConst {
			// a list of texts, joined
			some++
			none++
			o.must("all", Eq(s.len, list.len), "the text does not show all annotations")
			if o.st.f.prove(cmpLit("==", s.len, IntN(0))) {
				return
			}
			later := atomNum(freshSym("k", SInt))
			for _, k := range []Num{{}, later} {
				st := o.st.clone()
				st.own()
				st.assumeSafe(cmpLit("<", k, s.len))
				st.assumeSafe(cmpLit(">=", later, IntN(1)))
				if st.f.dead || st.f.unsat(nil, 2) {
					continue
				}
				el, _ := st.readElem(st.obj(s.obj), Add(s.off, k), "", s.elem).(*Atom)
				if c.ob(el != nil, "step", o.where(), "the texts of the annotations are not tracked") {
					item(st, k, textParts(st, elemText(st, el)))
				}
			}
			return
		}
		var head []*Atom
		if len(parts) > 1 && parts[0].kind == KConst && parts[1].kind == KSel {
			head, parts = parts[:1], parts[1:]
		}
		sel := parts[0]
		if sel.kind != KSel {
			// a fixed number of annotations
			n, ok := o.st.f.norm(list.len).ConstInt()
			if !c.ob(ok && sel.kind == KConst && n <= 1, "text", o.where(), "the text does not show all annotations: %v", sel) {
				return
			}
			if n == 0 {
				none++
				c.ob(len(parts) == 1, "empty", o.where(), "something is shown although there are no annotations")
				return
			}
			some++
			item(o.st, IntN(0), parts)
			return
		}
		some++
		rest := parts[1:]
		i := sel.args[0].(Num)
		d, ok := o.st.f.norm(Sub(list.len, i)).ConstInt()
		if !c.ob(ok && d >= 0 && d <= 1 && len(rest) == 0, "all", o.where(), "the text does not end with the last annotation") {
			return
		}
		// the beginning
		first := append(head, textParts(o.st, selAtom(sel.arr, Num{}))...)
		if len(first) == 2 && first[1] == strConst("") {
			first = first[:1]
		}
		if d == 0 {
			none++
			c.ob(len(first) == 1 && first[0].kind == KConst, "first", o.where(), "the text does not begin with its heading")
		} else if c.ob(first[0].kind == KConst, "first", o.where(), "the text does not begin with its heading") {
			item(o.st, IntN(0), first)
		}
		// any step
		next := selAtom(sel.arr, Add(atomNum(qv), IntN(1)))
		step := false
		for _, q := range o.st.f.qs {
			l := q.body
			if q.pair || len(q.guards) > 0 || l.op != LSEq || l.a != next && l.b != next {
				continue
			}
			body := l.a
			if body == next {
				body = l.b
			}
			if !o.st.f.prove(cmpLit("<=", q.lo, IntN(0))) || !o.st.f.prove(cmpLit(">=", q.hi, i)) {
				continue
			}
			k := atomNum(freshSym("k", SInt))
			st := o.st.clone()
			st.own()
			st.assumeSafe(cmpLit(">=", k, IntN(0)))
			st.assumeSafe(cmpLit("<", k, i))
			at := func(x *Atom) (Term, bool) { return k, x == qv }
			b, ok := substTerm(body, at).(*Atom)
			if !ok || b.kind != KFn || b.name != "concat" || b.args[0] != Term(selAtom(sel.arr, k)) {
				continue
			}
			step = true
			var ps []*Atom
			for _, x := range b.args[1:] {
				ps = append(ps, x.(*Atom))
			}
			item(st, Add(k, IntN(d)), ps)
			break
		}
		c.ob(step, "step", o.where(), "the text does not grow by one annotation at a time")
	})
	c.sites += some
	c.ob(some > 0 && none > 0, "outcomes", name, "%d outcomes with and %d without annotations found", some, none)
}

func checkDate(c *Ctx) {
	name := "utils.RawDateToRFC3339"
	r := c.run(name, runOpt{})
	if r == nil {
		return
	}
	good, bad := 0, 0
	r.each(func(o *Out) {
		d := r.args[0].(*Atom)
		full := concatS(d, strConst("T00:00:00Z"))
		var alts []Fm
		er := o.ret(1)
		for _, p := range [][]Term{{strConst("2006-01-02T15:04:05Z07:00"), full}, {strConst("2006-01-02"), d}} {
			perr := boolAtomLit(fnAtom("isNil", SBool, fnAtom("timeParse.err", SOpq, p...)), true)
			val, ok := o.ret(0).(*Atom)
			if !ok {
				continue
			}
			alts = append(alts, And(Iff(errNil(er), L(perr)), Imp(L(perr), SEq(val, fnAtom("timeParse", SOpq, p...)))))
		}
		okF := false
		for _, a := range alts {
			okF = okF || proveF(o.st.f, a)
		}
		c.ob(okF, "date", o.where(), "the result is not the parse of the date at midnight UTC")
		if o.st.f.prove(er.(Iface).nilL) {
			good++
		} else {
			bad++
		}
	})
	c.ob(good > 0 && bad > 0, "outcomes", name, "%d successful and %d failed outcomes found", good, bad)
}

var enums = map[string]map[string]string{
	"market.ActionType":      {"BuyAction": "buy", "SellAction": "sell"},
	"market.OrderType":       {"MarketOrder": "market", "ClosePosition": "close_position", "LimitOrder": "limit", "TakeProfit": "take_profit", "StopLoss": "stop_loss"},
	"market.OrderStatus":     {"FulfilledOrder": "fulfilled", "PartialyFilledOrder": "partial_fill", "UnfilledOrder": "unfilled", "CanceledOrder": "canceled"},
	"market.PositionType":    {"LongPosition": "long", "ShortPosition": "short"},
	"indicators.FractalType": {"FractalUp": "up", "FractalDown": "down"},
}

func checkEnums(c *Ctx) {
	var ts []string
	for t := range enums {
		ts = append(ts, t)
	}
	sortStrings(ts)
	for _, t := range ts {
		i := strings.IndexByte(t, '.')
		sp := c.prog.ssas[modPath+"/"+t[:i]]
		typ := c.prog.typ(t)
		if !c.ob(sp != nil && typ != nil, "anchor", t, "type not found") {
			continue
		}
		var names []string
		for n := range enums[t] {
			names = append(names, n)
		}
		sortStrings(names)
		for _, n := range names {
			where := t[:i+1] + n
			want := enums[t][n]
			var got constant.Value
			var ty types.Type
			if k := sp.Const(n); k != nil {
				got, ty = k.Value.Value, k.Type()
			} else if g := sp.Var(n); g != nil {
				if k := c.prog.globalConst(g); k != nil {
					got, ty = k.Value, g.Type().(*types.Pointer).Elem()
				}
			}
			if !c.ob(got != nil && got.Kind() == constant.String, "constant", where, "the value is not a fixed string") {
				continue
			}
			c.sites++
			c.ob(types.Identical(ty, typ), "type", where, "the value is not of type %s", t)
			c.ob(constant.StringVal(got) == want, "value", where, "the value is %s, not %q", got, want)
		}
	}
}
