package main

// Technical indicators.

func init() {
	register("I01", "in every abstract outcome of each indicator the error is nil exactly when the linear conditions on number of candles and period hold; errors carry the invalid-argument code and no values", checkIndicatorArgs)
	register("I02", "the accepted outcome satisfies, for an arbitrary output index k, period * out[k] = sum of closes k..k+period-1 (prefix-sum terms), and the output length is n-period+1", checkMA)
	register("I03", "the accepted outcome satisfies the recurrence of the exponential average for an arbitrary output index, seeded with the simple average of the first period closes; output length n-period", checkEMA)
	register("I04", "the accepted outcome satisfies the recurrence of the smoothed average for an arbitrary output index, seeded with the simple average; output length n-period+1", checkSMMA)
	register("I05", "the accepted outcome satisfies, for an arbitrary output index, the relative strength formula over exactly the period following changes (sums of positive parts), with the flat and no-loss cases; output length n-period", checkRSI)
	register("I06", "the result is the left fold v -> beta*v + (1-beta)*(high-low) from 0 over all candles in order", checkEWV)
	register("K05", "the result is the minimum over all adjacent pairs of the absolute time difference, divided by 60 with truncation; 0 for fewer than two candles", checkMinInterval)
}

// at reads one element of a slice in an outcome (splitting the state when
// the index may fall into several segments).
func (o *Out) at(st *State, s Slice, idx Num, f func(st *State, v V)) {
	for _, x := range o.e.fork(st, func(x *State) {
		x.ghost["$at"] = x.readElem(x.obj(s.obj), Add(s.off, idx), "", s.elem)
	}) {
		if x.f.prove(litFalse) {
			continue
		}
		v := x.ghost["$at"]
		delete(x.ghost, "$at")
		f(x, v)
	}
}

func (o *Out) closeAt(cs Slice, i Num) Num { return fieldN(o.oldElem(cs, i), "Close") }

func (o *Out) closeSum(cs Slice, lo, hi Num) Num {
	v := freshSym("s", SInt)
	return SumN(o.closeAt(cs, atomNum(v)), v, lo, hi)
}

var indicatorArgs = []struct {
	name   string
	reject func(cs Slice, p Num) Fm
}{
	{"indicators.MovingAverage", maReject},
	{"indicators.ExponentialMovingAverage", maReject},
	{"indicators.SmoothedMovingAverage", maReject},
	{"indicators.RSI", func(cs Slice, p Num) Fm {
		return Or(L(cs.nilL), Lt(cs.len, IntN(14)), Le(p, IntN(0)), Le(cs.len, p))
	}},
}

func maReject(cs Slice, p Num) Fm {
	return Or(L(cs.nilL), Lt(cs.len, p), Le(p, IntN(0)))
}

func checkIndicatorArgs(c *Ctx) {
	for _, k := range indicatorArgs {
		r := c.run(k.name, runOpt{})
		if r == nil {
			continue
		}
		acc := 0
		r.each(func(o *Out) {
			cs, p := o.arg(0).(Slice), num(o.arg(1))
			e := o.ret(1)
			o.mustErrIff(e, k.reject(cs, p), k.name)
			if proveF(o.st.f, errNil(e)) {
				acc++
				o.mustPure("candles-unchanged", nil)
				return
			}
			o.mustCode(e, "invalid")
			o.must("no-values", Eq(o.ret(0).(Slice).len, IntN(0)), "values are returned together with an error")
		})
		c.ob(acc > 0, "reachable", k.name, "no accepting outcome")
	}
}

// accepted runs f on the outcomes without error.
func (c *Ctx) accepted(name string, f func(o *Out)) {
	r := c.run(name, runOpt{})
	if r == nil {
		return
	}
	n := 0
	r.each(func(o *Out) {
		e := o.ret(len(o.st.ret) - 1)
		if proveF(o.st.f, Not(errNil(e))) {
			return
		}
		o.must("error", errNil(e), "undetermined error")
		n++
		f(o)
	})
	c.ob(n > 0, "reachable", name, "no accepting outcome")
}

func checkMA(c *Ctx) {
	c.accepted("indicators.MovingAverage", func(o *Out) {
		cs, p, out := o.arg(0).(Slice), num(o.arg(1)), o.ret(0).(Slice)
		o.must("length", Eq(out.len, Add(Sub(cs.len, p), IntN(1))), "the number of values is not candles - period + 1")
		o.forall(out, "k", func(st *State, k Num, v V) {
			o.mustIn(st, "value", Eq(Mul(p, num(v)), o.closeSum(cs, k, Add(k, p))), "a value is not the mean of the closes of its window")
		})
	})
}

func checkEMA(c *Ctx) {
	c.accepted("indicators.ExponentialMovingAverage", func(o *Out) {
		cs, p, out := o.arg(0).(Slice), num(o.arg(1)), o.ret(0).(Slice)
		o.must("length", Eq(out.len, Sub(cs.len, p)), "the number of values is not candles - period")
		one, two := IntN(1), IntN(2)
		step := func(k, v, prev Num) Fm {
			// v = close*2/(p+1) + prev*(1-2/(p+1))
			return Eq(Mul(v, Add(p, one)), Add(Mul(two, o.closeAt(cs, Add(k, p))), Mul(prev, Sub(p, one))))
		}
		o.forall(out, "k", func(st *State, k Num, v V) {
			seed := Div(o.closeSum(cs, IntN(0), p), p)
			o.mustIn(st, "seed", Imp(Eq(k, IntN(0)), step(k, num(v), seed)), "the first value does not continue the simple average of the first period closes")
			st.own()
			next := Add(k, one)
			st.assume(cmpLit("<", next, out.len))
			if st.f.prove(litFalse) {
				return
			}
			o.at(st, out, next, func(st *State, w V) {
				o.mustIn(st, "recurrence", step(next, num(w), num(v)), "a value does not weigh its close with 2/(period+1) against the preceding value")
			})
		})
	})
}

func checkSMMA(c *Ctx) {
	c.accepted("indicators.SmoothedMovingAverage", func(o *Out) {
		cs, p, out := o.arg(0).(Slice), num(o.arg(1)), o.ret(0).(Slice)
		one := IntN(1)
		o.must("length", Eq(out.len, Add(Sub(cs.len, p), one)), "the number of values is not candles - period + 1")
		o.forall(out, "k", func(st *State, k Num, v V) {
			o.mustIn(st, "seed", Imp(Eq(k, IntN(0)), Eq(Mul(p, num(v)), o.closeSum(cs, IntN(0), p))), "the first value is not the simple average of the first period closes")
			st.own()
			next := Add(k, one)
			st.assume(cmpLit("<", next, out.len))
			if st.f.prove(litFalse) {
				return
			}
			o.at(st, out, next, func(st *State, w V) {
				want := Add(Mul(num(v), Sub(p, one)), o.closeAt(cs, Add(k, p)))
				o.mustIn(st, "recurrence", Eq(Mul(p, num(w)), want), "a value is not (previous*(period-1) + close)/period")
			})
		})
	})
}

func checkRSI(c *Ctx) {
	c.accepted("indicators.RSI", func(o *Out) {
		cs, p, out := o.arg(0).(Slice), num(o.arg(1)), o.ret(0).(Slice)
		one, zero := IntN(1), IntN(0)
		o.must("length", Eq(out.len, Sub(cs.len, p)), "the number of values is not candles - period")
		o.forall(out, "k", func(st *State, k Num, v V) {
			sum := func(sign int64) Num {
				s := freshSym("s", SInt)
				d := Sub(o.closeAt(cs, atomNum(s)), o.closeAt(cs, Sub(atomNum(s), one)))
				return SumN(posN(Mul(IntN(sign), d)), s, Add(k, one), Add(Add(k, p), one))
			}
			up, down := sum(1), sum(-1)
			got := num(v)
			o.mustIn(st, "flat", Imp(And(Eq(down, zero), Eq(up, zero)), Eq(got, IntN(50))), "a window without changes does not give 50")
			o.mustIn(st, "no-loss", Imp(And(Eq(down, zero), Ne(up, zero)), Eq(got, IntN(100))), "a window without losses does not give 100")
			h := IntN(100)
			want := f32(Sub(h, Div(h, Add(one, Div(up, down)))))
			o.mustIn(st, "value", Imp(Ne(down, zero), Eq(got, want)), "a value is not 100 - 100/(1 + gains/losses) of the period changes of its window")
		})
	})
}

func checkEWV(c *Ctx) {
	r := c.run("indicators.ExponentialWeightedVolatility", runOpt{})
	if r == nil {
		return
	}
	r.each(func(o *Out) {
		cs, beta := o.arg(0).(Slice), num(o.arg(1))
		i, prev := freshSym("i", SInt), freshSym("v", SReal)
		el := o.oldElem(cs, atomNum(i))
		body := Add(Mul(beta, atomNum(prev)), Mul(Sub(IntN(1), beta), Sub(fieldN(el, "High"), fieldN(el, "Low"))))
		want := FoldN(IntN(0), body, prev, i, IntN(0), cs.len)
		o.must("value", Eq(num(o.ret(0)), want), "the result is not the exponentially weighted fold of the candle ranges (%s)", vStr(o.ret(0)))
		o.mustPure("candles-unchanged", nil)
	})
}

func checkMinInterval(c *Ctx) {
	r := c.run("market.GetMinInterval", runOpt{})
	if r == nil {
		return
	}
	r.each(func(o *Out) {
		cs := o.arg(0).(Slice)
		got := num(o.ret(0))
		o.must("few", Imp(Lt(cs.len, IntN(2)), Eq(got, IntN(0))), "fewer than two candles do not give 0")
		i := freshSym("i", SInt)
		tm := func(x Num) Num { return fieldN(o.oldElem(cs, x), "Time") }
		d := absN(Sub(tm(atomNum(i)), tm(Sub(atomNum(i), IntN(1)))))
		o.with(Ge(cs.len, IntN(2)), func(st *State) {
			want := idivN(OverN("min", d, i, IntN(1), cs.len), IntN(60))
			o.mustIn(st, "value", Eq(got, want), "the result is not the smallest time difference of adjacent candles in minutes (%s)", got)
		})
		o.mustPure("candles-unchanged", nil)
	})
}
