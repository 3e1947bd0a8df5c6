package main

// Orders, trades, positions, assets and pairs.

import (
	"fmt"
	"go/types"
	"math/big"
)

func init() {
	register("O01", "for every abstract outcome of the order request constructor: the error is nil exactly when the arguments satisfy the acceptance condition; accepted requests carry the arguments unchanged", checkOrderRequest)
	register("O02", "for every abstract outcome of the field calculation: acceptance condition, total = quantity x price and quantity = total / price as rational identities, other fields and the receiver unchanged", checkCalculateFields)
	register("O03", "the result literal of the open test is equivalent to status not in {fulfilled, canceled}; the status constants are pairwise different", checkIsOpen)
	register("P01", "every field of the returned trade equals its argument; the fee is the polynomial cost - price*quantity for buys and its negation otherwise", checkNewTrade)
	register("P02", "every field of the opened position is derived from the trade as specified; the type follows the action; the id is freshly generated", checkNewPosition)
	register("P03", "in every outcome where a same-direction trade is accepted, quantity and quantity-weighted price satisfy the rational identities", checkModifyAdd)
	register("P04", "in every outcome of an opposite trade: reduction, closing and rejection happen exactly under the specified linear conditions with the specified field values", checkModifyReduce)
	register("P05", "realised profit on close and unrealised profit are the polynomial (exit - open)*quantity for longs and its negation for shorts", checkProfit)
	register("P06", "in every outcome with an error the position and the trade are unchanged; in every other outcome the trade id is appended to the trade list exactly once", checkModifyAtomic)
	register("P07", "a modification succeeds only for an open position, a trade on the same pair and a buy or sell action; otherwise the error code is as specified", checkModifyAccept)
	register("A01", "every outcome of the asset constructor and lookups: the symbol is the argument and the name non-empty, or a not-found/invalid error with a zero asset", checkAssets)
	register("A03", "the symbol of a pair is base + separator + quote, or the base alone when the quote symbol is empty, as string terms", checkPairSymbol)
}

func (o *Out) mustErrIff(v V, reject Fm, what string) {
	o.must("rejects-iff", Iff(Not(errNil(v)), reject), "%s: an error is returned although the input is acceptable, or no error although it is not", what)
}

// isNil is the formula "v is nil".
func isNil(v V) Fm {
	switch x := v.(type) {
	case Ptr:
		return L(x.nilL)
	case Slice:
		return L(x.nilL)
	case Iface:
		return L(x.nilL)
	case MapV:
		return L(x.nilL)
	}
	panic(undecided{fmt.Sprintf("nil test of %T", v)})
}

func (o *Out) mustField(v V, name string, want V) {
	o.must("field-"+name, eqF(field(v, name), want), "field %s is not as specified (%s instead of %s)", name, vStr(field(v, name)), vStr(want))
}

// mustOnly: all leaf fields of v except the listed ones equal those of w.
func (o *Out) mustOthers(v, w V, except ...string) {
	s := v.(*Struct)
	st := under(s.typ).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		skip := false
		for _, x := range except {
			if x == n {
				skip = true
			}
		}
		if !skip {
			o.must("field-"+n, eqF(field(v, n), field(w, n)), "field %s is changed", n)
		}
	}
}

func param(r *Run, name string) V {
	for i, p := range r.fn.Params {
		if p.Name() == name {
			return r.args[i]
		}
	}
	panic(undecided{"no parameter " + name})
}

// paramAt gives a parameter by position (receiver first).
func (r *Run) arg(i int) V {
	if i >= len(r.args) {
		panic(undecided{"missing parameter"})
	}
	return r.args[i]
}

func checkOrderRequest(c *Ctx) {
	r := c.run("market.NewOrderRequest", runOpt{})
	if r == nil {
		return
	}
	r.each(func(o *Out) {
		pair, action, typ := o.arg(0), o.arg(1), o.arg(2)
		qty, price, total := num(o.arg(3)), num(o.arg(4)), num(o.arg(5))
		zero := IntN(0)
		reject := Or(
			Is(field(pair, "Base.Symbol"), ""),
			Is(action, ""), Is(typ, ""),
			And(Is(typ, "limit"), Eq(price, zero)),
			And(Eq(qty, zero), Eq(total, zero)),
		)
		e := o.ret(1)
		o.mustErrIff(e, reject, "order request")
		o.must("result", Iff(errNil(e), Not(isNil(o.ret(0)))), "request and error are not mutually exclusive")
		if proveF(o.st.f, errNil(e)) {
			v := o.deref(o.ret(0))
			o.mustField(v, "Action", action)
			o.mustField(v, "Type", typ)
			o.mustField(v, "Pair", pair)
			o.mustField(v, "Price", price)
			o.mustField(v, "Quantity", qty)
			o.mustField(v, "Total", total)
			o.mustField(v, "TakeProfit", zero)
			o.mustField(v, "StopLoss", zero)
		} else {
			o.mustCode(e, "invalid")
		}
	})
}

func checkCalculateFields(c *Ctx) {
	r := c.run("market.OrderRequest.CalculateFields", runOpt{})
	if r == nil {
		return
	}
	r.each(func(o *Out) {
		in := o.old(o.arg(0))
		cur := num(o.arg(1))
		zero := IntN(0)
		q, t, p, typ := fieldN(in, "Quantity"), fieldN(in, "Total"), fieldN(in, "Price"), field(in, "Type")
		noPrice := Or(And(Is(typ, "market"), Eq(cur, zero)), And(Not(Is(typ, "market")), Eq(p, zero)))
		reject := Or(
			And(Eq(q, zero), Eq(t, zero)),
			And(Ne(q, zero), Ne(t, zero)),
			And(Eq(q, zero), noPrice),
		)
		e := o.ret(1)
		o.mustErrIff(e, reject, "field calculation")
		o.mustPure("receiver-unchanged", nil)
		o.must("result", Iff(errNil(e), Not(isNil(o.ret(0)))), "request and error are not mutually exclusive")
		if !proveF(o.st.f, errNil(e)) {
			o.mustCode(e, "invalid")
			return
		}
		v := o.deref(o.ret(0))
		o.mustOthers(v, in, "Quantity", "Total")
		nq, nt := fieldN(v, "Quantity"), fieldN(v, "Total")
		for _, k := range []struct {
			f  Fm
			pr Num
		}{{Is(typ, "market"), cur}, {Not(Is(typ, "market")), p}} {
			o.must("total", Imp(And(k.f, Ne(q, zero)), And(Eq(nq, q), Eq(nt, Mul(q, k.pr)))), "a request with a quantity does not get total = quantity x price")
			o.must("quantity", Imp(And(k.f, Eq(q, zero)), And(Eq(nt, t), Eq(Mul(nq, k.pr), t))), "a request with a total does not get quantity = total / price")
		}
	})
}

func checkIsOpen(c *Ctx) {
	r := c.run("market.Order.IsOpen", runOpt{})
	if r == nil {
		return
	}
	r.each(func(o *Out) {
		s := field(o.old(o.arg(0)), "Status")
		res, ok := o.ret(0).(Lit)
		if !ok {
			panic(undecided{"untracked boolean"})
		}
		o.must("open", Iff(L(res), Not(Or(Is(s, "fulfilled"), Is(s, "canceled")))), "the open test does not agree with the status")
		o.mustPure("receiver-unchanged", nil)
	})
	c.enum("market", "OrderStatus", map[string]string{"FulfilledOrder": "fulfilled", "PartialyFilledOrder": "partial_fill", "UnfilledOrder": "unfilled", "CanceledOrder": "canceled"})
}

// enum: the constants of a named string type are as listed.
func (c *Ctx) enum(pkg, typ string, want map[string]string) {
	sp := c.prog.ssas[modPath+"/"+pkg]
	if sp == nil {
		c.ob(false, "anchor", pkg, "package not found")
		return
	}
	for _, n := range sortedKeys(want) {
		k, ok := sp.Pkg.Scope().Lookup(n).(*types.Const)
		if !ok {
			c.ob(false, "anchor", pkg+"."+n, "constant not found")
			continue
		}
		got := k.Val().ExactString()
		c.ob(got == fmt.Sprintf("%q", want[n]), "constant", pkg+"."+n+" ("+c.prog.pos(k.Pos())+")", "value is %s instead of %q", got, want[n])
	}
}

func checkNewTrade(c *Ctx) {
	r := c.run("market.NewTrade", runOpt{})
	if r == nil {
		return
	}
	r.each(func(o *Out) {
		v := o.deref(o.ret(0))
		id, at, action, typ, pair := o.arg(0), o.arg(1), o.arg(2), o.arg(3), o.arg(4)
		price, qty, cost := num(o.arg(5)), num(o.arg(6)), num(o.arg(7))
		o.must("result", Not(isNil(o.ret(0))), "no trade is returned")
		o.mustField(v, "ID", id)
		o.mustField(v, "ExecutionTime", at)
		o.mustField(v, "Action", action)
		o.mustField(v, "OrderType", typ)
		o.mustField(v, "Pair", pair)
		o.mustField(v, "Price", price)
		o.mustField(v, "Quantity", qty)
		o.mustField(v, "Cost", cost)
		o.mustField(v, "ExecutionID", strConst(""))
		fee := fieldN(v, "Fee")
		d := Sub(cost, Mul(price, qty))
		o.must("fee", Imp(Is(action, "buy"), Eq(fee, d)), "the fee of a buy is not cost - price x quantity")
		o.must("fee", Imp(Not(Is(action, "buy")), Eq(fee, Neg(d))), "the fee of a sell is not price x quantity - cost")
	})
	c.enum("market", "ActionType", map[string]string{"BuyAction": "buy", "SellAction": "sell"})
}

// freshID: the value is a newly generated identifier.
func freshID(v V) bool {
	a, ok := v.(*Atom)
	return ok && a.kind == KFn && a.name == "xidString" && len(a.args) == 1 && isFreshSym(a.args[0], "xid")
}

func isFreshSym(t Term, prefix string) bool {
	a, ok := t.(*Atom)
	if !ok {
		if n, isN := t.(Num); isN {
			_ = n
		}
		return false
	}
	return a.kind == KSym && len(a.name) > len(prefix) && a.name[:len(prefix)+1] == prefix+"'"
}

func checkNewPosition(c *Ctx) {
	r := c.run("market.NewPosition", runOpt{})
	if r == nil {
		return
	}
	r.each(func(o *Out) {
		tr := o.old(o.arg(0))
		v := o.deref(o.ret(0))
		o.must("result", Not(isNil(o.ret(0))), "no position is returned")
		o.c.ob(freshID(field(v, "ID")), "fresh-id", o.where(), "the id is not freshly generated")
		a, ty := field(tr, "Action"), field(v, "Type")
		o.must("type", Imp(Is(a, "buy"), Is(ty, "long")), "a buy does not open a long position")
		o.must("type", Imp(Is(a, "sell"), Is(ty, "short")), "a sell does not open a short position")
		o.must("type", Imp(And(Not(Is(a, "buy")), Not(Is(a, "sell"))), And(Not(Is(ty, "long")), Not(Is(ty, "short")))), "an unknown action opens a long or short position")
		o.mustField(v, "Pair", field(tr, "Pair"))
		o.mustField(v, "OpenPrice", field(tr, "Price"))
		o.mustField(v, "Quantity", field(tr, "Quantity"))
		o.mustField(v, "Open", litTrue)
		o.mustField(v, "OpenTime", field(tr, "ExecutionTime"))
		z := zeroV(v.(*Struct).typ)
		for _, n := range []string{"TakeProfit", "StopLoss", "ClosePrice", "Profit", "CloseTime", "ExecutionID", "Data"} {
			o.mustField(v, n, field(z, n))
		}
		ts := field(v, "Trades").(Slice)
		o.must("trades", Eq(ts.len, IntN(1)), "the trade list does not have exactly one entry")
		o.forall(ts, "k", func(st *State, k Num, x V) {
			o.mustIn(st, "trades", eqF(x, field(tr, "ID")), "the trade list does not hold the id of the opening trade")
		})
		o.mustPure("trade-unchanged", nil)
	})
	c.enum("market", "PositionType", map[string]string{"LongPosition": "long", "ShortPosition": "short"})
}

type modOut struct {
	*Out
	p0, p1, tr V
	err        V
	same, opp  Fm // same or opposite direction
	pairEq     Fm
	open       Fm
	valid      Fm
}

func (c *Ctx) modify(f func(m *modOut)) {
	r := c.run("market.Position.Modify", runOpt{})
	if r == nil {
		return
	}
	r.each(func(o *Out) {
		m := &modOut{Out: o, p0: o.old(o.arg(0)), tr: o.old(o.arg(1)), err: o.ret(0)}
		m.p1 = o.deref(o.arg(0))
		ty, a := field(m.p0, "Type"), field(m.tr, "Action")
		m.same = Or(And(Is(ty, "long"), Is(a, "buy")), And(Is(ty, "short"), Is(a, "sell")))
		m.opp = Or(And(Is(ty, "long"), Is(a, "sell")), And(Is(ty, "short"), Is(a, "buy")))
		m.pairEq = eqF(field(m.p0, "Pair"), field(m.tr, "Pair"))
		m.open = L(field(m.p0, "Open").(Lit))
		m.valid = And(m.pairEq, m.open)
		f(m)
	})
}

// the machine value of the closing tolerance
var tolerance = RatN(new(big.Rat).SetFloat64(-0.0001))

func checkModifyAdd(c *Ctx) {
	n := 0
	c.modify(func(o *modOut) {
		q, t := fieldN(o.p0, "Quantity"), fieldN(o.tr, "Quantity")
		pr, tp := fieldN(o.p0, "OpenPrice"), fieldN(o.tr, "Price")
		cond := And(o.valid, o.same)
		o.with(cond, func(st *State) {
			n++
			o.mustIn(st, "accepted", errNil(o.err), "a same-direction trade on an open position is rejected")
			q1, p1 := fieldN(o.p1, "Quantity"), fieldN(o.p1, "OpenPrice")
			o.mustIn(st, "quantity", Eq(q1, Add(q, t)), "the quantity is not the sum of both quantities")
			o.mustIn(st, "average", Eq(p1, Div(Add(Mul(pr, q), Mul(tp, t)), Add(q, t))), "the open price is not the quantity-weighted average")
			for _, nm := range []string{"ID", "Type", "Pair", "Open", "TakeProfit", "StopLoss", "ClosePrice", "Profit", "OpenTime", "CloseTime", "ExecutionID", "Data"} {
				o.mustIn(st, "field-"+nm, eqF(field(o.p1, nm), field(o.p0, nm)), "field %s is changed by an increase", nm)
			}
		})
	})
	c.ob(n > 0, "reachable", "market.Position.Modify", "no outcome for a same-direction trade")
}

func checkModifyReduce(c *Ctx) {
	n := 0
	c.modify(func(o *modOut) {
		q, t := fieldN(o.p0, "Quantity"), fieldN(o.tr, "Quantity")
		pr, tp := fieldN(o.p0, "OpenPrice"), fieldN(o.tr, "Price")
		rest := Sub(q, t)
		cond := And(o.valid, o.opp)
		o.with(cond, func(st *State) {
			n++
			zero := IntN(0)
			tooBig := Lt(rest, tolerance)
			o.mustIn(st, "rejects-iff", Iff(Not(errNil(o.err)), tooBig), "a closing trade is rejected although it is not larger than the position, or accepted although it is")
			closes := And(Ge(rest, tolerance), Le(rest, zero))
			p1 := o.p1
			open := L(field(p1, "Open").(Lit))
			o.mustIn(st, "closes-iff", Imp(Not(tooBig), Iff(Not(open), Le(rest, zero))), "the position is not closed exactly when the trade covers its quantity")
			o.mustIn(st, "close", Imp(closes, And(Eq(fieldN(p1, "ClosePrice"), tp), eqF(field(p1, "CloseTime"), field(o.tr, "ExecutionTime")), Eq(fieldN(p1, "OpenPrice"), pr), Eq(fieldN(p1, "Quantity"), q))), "closing does not record price and time of the trade or changes open price or quantity")
			part := Gt(rest, zero)
			o.mustIn(st, "reduce", Imp(part, And(Eq(fieldN(p1, "Quantity"), rest), Eq(Mul(fieldN(p1, "OpenPrice"), rest), Sub(Mul(pr, q), Mul(tp, t))))), "a partial close does not leave the remaining quantity at the remaining value")
			for _, nm := range []string{"ClosePrice", "Profit", "CloseTime"} {
				o.mustIn(st, "field-"+nm, Imp(part, eqF(field(p1, nm), field(o.p0, nm))), "field %s is changed by a partial close", nm)
			}
			for _, nm := range []string{"ID", "Type", "Pair", "TakeProfit", "StopLoss", "OpenTime", "ExecutionID", "Data"} {
				o.mustIn(st, "field-"+nm, eqF(field(p1, nm), field(o.p0, nm)), "field %s is changed by an opposite trade", nm)
			}
			if proveF(st.f, Not(errNil(o.err))) {
				o.mustCode(o.err, "invalid")
			}
		})
	})
	c.ob(n > 0, "reachable", "market.Position.Modify", "no outcome for an opposite trade")
}

func checkProfit(c *Ctx) {
	n := 0
	c.modify(func(o *modOut) {
		q := fieldN(o.p0, "Quantity")
		pr, tp := fieldN(o.p0, "OpenPrice"), fieldN(o.tr, "Price")
		ty := field(o.p0, "Type")
		was, is := o.open, L(field(o.p1, "Open").(Lit))
		o.with(And(was, Not(is)), func(st *State) {
			n++
			d := Mul(Sub(tp, pr), q)
			got := fieldN(o.p1, "Profit")
			o.mustIn(st, "profit-long", Imp(Is(ty, "long"), Eq(got, d)), "profit of a closed long is not (close - open) x quantity")
			o.mustIn(st, "profit-short", Imp(Not(Is(ty, "long")), Eq(got, Neg(d))), "profit of a closed short is not (open - close) x quantity")
		})
		o.with(And(was, is), func(st *State) {
			o.mustIn(st, "profit-open", eqF(field(o.p1, "Profit"), field(o.p0, "Profit")), "profit changes although the position stays open")
		})
	})
	c.ob(n > 0, "reachable", "market.Position.Modify", "no outcome closes a position")
	r := c.run("market.Position.UnrealizedProfit", runOpt{})
	if r == nil {
		return
	}
	r.each(func(o *Out) {
		p := o.old(o.arg(0))
		cur := num(o.arg(1))
		d := Mul(Sub(cur, fieldN(p, "OpenPrice")), fieldN(p, "Quantity"))
		got := num(o.ret(0))
		o.must("unrealised-long", Imp(Is(field(p, "Type"), "long"), Eq(got, d)), "unrealised profit of a long is not (current - open) x quantity")
		o.must("unrealised-short", Imp(Is(field(p, "Type"), "short"), Eq(got, Neg(d))), "unrealised profit of a short is not (open - current) x quantity")
		o.mustPure("receiver-unchanged", nil)
	})
}

func checkModifyAtomic(c *Ctx) {
	c.modify(func(o *modOut) {
		recv := o.arg(0).(Ptr)
		old := field(o.p0, "Trades").(Slice)
		o.with(Not(errNil(o.err)), func(st *State) {
			for _, l := range structFields(o.p0) {
				o.mustIn(st, "rejected-unchanged", eqF(field(o.p1, l), field(o.p0, l)), "a rejected trade changes %s", l)
			}
			o.c.ob(objKey(o.st.mem[old.obj]) == objKey(o.st0.mem[old.obj]), "rejected-unchanged", o.where(), "a rejected trade changes the trade list")
		})
		o.mustPure("trade-unchanged", map[int]bool{recv.obj: true, old.obj: true})
		if proveF(o.st.f, errNil(o.err)) {
			ts := field(o.p1, "Trades").(Slice)
			o.must("trade-recorded", Eq(ts.len, Add(old.len, IntN(1))), "the trade list does not grow by one")
			o.forall(ts, "k", func(st *State, k Num, x V) {
				o.mustIn(st, "trade-recorded", Imp(Eq(k, old.len), eqF(x, field(o.tr, "ID"))), "the last entry of the trade list is not the trade's id")
				o.mustIn(st, "trade-kept", Imp(Lt(k, old.len), eqF(x, o.oldElem(old, k))), "an earlier entry of the trade list changes")
			})
		}
	})
}

func structFields(v V) []string {
	s := under(v.(*Struct).typ).(*types.Struct)
	var r []string
	for i := 0; i < s.NumFields(); i++ {
		r = append(r, s.Field(i).Name())
	}
	return r
}

func checkModifyAccept(c *Ctx) {
	c.modify(func(o *modOut) {
		o.must("pair", Imp(Not(o.pairEq), Not(errNil(o.err))), "a trade on another pair is accepted")
		o.must("open", Imp(Not(o.open), Not(errNil(o.err))), "a closed position is modified")
		o.must("action", Imp(Not(Or(o.same, o.opp)), Not(errNil(o.err))), "a trade that neither buys nor sells is accepted")
		o.with(Not(errNil(o.err)), func(st *State) {
			a := o.errCode(o.err)
			if a == nil {
				o.c.ob(false, "error-code", o.where(), "the code of the returned error is unknown")
				return
			}
			o.mustIn(st, "error-code", Imp(Not(o.pairEq), Is(a, "invalid")), "a trade on another pair is not rejected as invalid")
			o.mustIn(st, "error-code", Imp(And(o.pairEq, Not(o.open)), Is(a, "conflict")), "a trade on a closed position is not rejected as conflict")
			o.mustIn(st, "error-code", Imp(o.valid, Is(a, "invalid")), "an invalid trade is not rejected as invalid")
		})
	})
}

func checkAssets(c *Ctx) {
	if r := c.run("market.NewAsset", runOpt{}); r != nil {
		r.each(func(o *Out) {
			sym, name := o.arg(0), o.arg(1)
			o.mustErrIff(o.ret(1), Or(Is(sym, ""), Is(name, "")), "asset")
			v := o.ret(0)
			ok := errNil(o.ret(1))
			o.must("asset", Imp(ok, And(eqF(field(v, "Symbol"), sym), eqF(field(v, "Name"), name), Is(field(v, "AltSymbol"), ""))), "the asset does not carry its symbol and name")
			o.must("asset", Imp(Not(ok), eqF(v, zeroV(v.(*Struct).typ))), "a rejected asset is not empty")
			if proveF(o.st.f, Not(ok)) {
				o.mustCode(o.ret(1), "invalid")
			}
		})
	}
	for _, n := range []string{"market.NewCryptoAsset", "market.NewForexAsset", "market.NewStockAsset"} {
		r := c.run(n, runOpt{})
		if r == nil {
			continue
		}
		accepted := 0
		names := map[string]string{}
		r.each(func(o *Out) {
			sym := o.arg(0)
			v, e := o.ret(0), o.ret(1)
			if proveF(o.st.f, errNil(e)) {
				accepted++
				nm, _ := field(v, "Name").(*Atom)
				o.must("symbol", eqF(field(v, "Symbol"), sym), "the asset's symbol is not the requested one")
				o.must("name", Not(Is(nm, "")), "the asset has no name")
				o.must("alt", Is(field(v, "AltSymbol"), ""), "the asset has an alternative symbol")
				// each name belongs to one symbol
				t := o.st.f.normAtom(sym.(*Atom))
				s, isA := t.(*Atom)
				if isA && s.kind == KConst && nm != nil && nm.kind == KConst {
					if prev, dup := names[nm.name]; dup && prev != s.name {
						c.ob(false, "distinct-names", o.where(), "symbols %s and %s have the same asset name %q", prev, s.name, nm.name)
					}
					names[nm.name] = s.name
					c.ob(true, "distinct-names", o.where(), "")
				} else {
					c.ob(false, "known-symbol", o.where(), "an asset is returned for a symbol that is not one specific known symbol")
				}
			} else {
				o.must("not-found", Not(errNil(e)), "undetermined error")
				o.mustCode(e, "not_found")
				o.must("zero", eqF(v, zeroV(v.(*Struct).typ)), "an unknown symbol yields a non-empty asset")
			}
		})
		c.ob(accepted > 0, "reachable", n, "no symbol is accepted")
		c.sites += accepted
	}
}

func checkPairSymbol(c *Ctx) {
	if r := c.run("market.Pair.Symbol", runOpt{}); r != nil {
		r.each(func(o *Out) {
			p := o.old(o.arg(0))
			b, q := field(p, "Base.Symbol").(*Atom), field(p, "Quote.Symbol").(*Atom)
			sep := o.arg(1).(*Atom)
			got := o.ret(0).(*Atom)
			o.must("symbol", Imp(Is(q, ""), SEq(got, b)), "the symbol of a pair without quote is not the base symbol")
			o.must("symbol", Imp(Not(Is(q, "")), SEq(got, concatS(b, sep, q))), "the symbol is not base + separator + quote")
			o.mustPure("receiver-unchanged", nil)
		})
	}
	if r := c.run("market.NewPair", runOpt{}); r != nil {
		r.each(func(o *Out) {
			o.mustField(o.ret(0), "Base", o.arg(0))
			o.mustField(o.ret(0), "Quote", o.arg(1))
		})
	}
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}
