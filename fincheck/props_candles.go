package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Changing the interval of candles.

func init() {
	register("K01", "at every append to the result (all paths, loop states covered by the invariant) the appended candle is the aggregate of a run s..e-1 of the input: Time and Open of s, Close of e-1, max of High, min of Low over s..e-1 and the sum of Volume rounded to 5 decimals; the returned slice is the one appended to and none of its candles is written, copied over or sorted afterwards", checkCandleGroups)
	register("K02", "ghost position $next: every appended run starts where the previous one ended, the first at the first aligned candle, and at an accepted return the last one ended at the number of candles", checkCandleCover)
	register("K03", "the first run starts at the first candle whose UTC minute is a multiple of the alignment; every appended run is one interval counted from that candle, ending at the input's end or before a candle of a different interval", checkCandleSplit)
	register("K04", "in every abstract outcome the error is nil exactly when the argument conditions hold, with the error code of the first condition violated; at most one candle is returned as given; the input is not modified", checkCandleArgs)
}

// intervalCase is a range of target intervals with its alignment in minutes.
type intervalCase struct {
	name string
	cond func(i Num) []Lit
	mod  func(i Num) Num
}

var intervalCases = []intervalCase{
	{"up to an hour", func(i Num) []Lit {
		return []Lit{cmpLit(">=", i, IntN(1)), cmpLit("<=", i, IntN(60))}
	}, func(i Num) Num { return i }},
	{"whole hours", func(i Num) []Lit {
		return []Lit{cmpLit(">", i, IntN(60)), cmpLit("==", imodN(i, IntN(60)), IntN(0))}
	}, func(i Num) Num { return IntN(60) }},
	{"more than an hour", func(i Num) []Lit {
		return []Lit{cmpLit(">", i, IntN(60)), cmpLit("!=", imodN(i, IntN(60)), IntN(0))}
	}, func(i Num) Num { return imodN(i, IntN(60)) }},
}

// minuteOf is the minute within the hour, in UTC, of a Unix time.
func minuteOf(t Num) Num {
	sec := fnAtom("unix", SOpq, t, IntN(0))
	return atomNum(fnAtom("minute", SInt, fnAtom("utc", SOpq, sec)))
}

// resample runs the interval change for one case with ghosts for the runs
// appended so far.
type resample struct {
	c        *Ctx
	run      *Run
	cs       Slice
	iv       Num
	first    Num
	appended int
	name     string
}

func (z *resample) old(i Num, f string) Num { return fieldN(z.run.oldElem(z.cs, i), f) }

// bucket is the number of the interval of candle i, counted from the first.
func (z *resample) bucket(i Num) Num {
	return idivN(Sub(z.old(i, "Time"), z.old(z.first, "Time")), Mul(z.iv, IntN(60)))
}

func (z *resample) aligned(i, mod Num) Lit {
	return cmpLit("==", imodN(minuteOf(z.old(i, "Time")), mod), IntN(0))
}

type runFn func(z *resample, st *State, where string, n, next, s, e Num, v *Struct)

func (c *Ctx) resample(ic intervalCase, each runFn) *resample {
	name := "market.ModifyInterval"
	z := &resample{c: c, name: name}
	prep := func(e *Eng, st *State, args []V) {
		z.cs, z.iv = args[0].(Slice), num(args[1])
		z.run = &Run{c: c, name: name, e: e, st0: st.clone(), args: args}
		st.assume(cmpLit(">", z.cs.len, IntN(1)))
		for _, l := range ic.cond(z.iv) {
			st.assume(l)
		}
		mod := ic.mod(z.iv)
		z.first = atomNum(freshSym("first", SInt))
		st.assume(cmpLit(">=", z.first, IntN(0)))
		st.assume(cmpLit("<", z.first, z.cs.len))
		st.f.assumeQ(mkQF(IntN(0), z.first, nil, z.aligned(atomNum(qv), mod).Not(), false))
		st.assume(z.aligned(z.first, mod))
		st.ghost["next"] = z.first
		st.ghost["runs"] = IntN(0)
		e.onLoop = func(st *State) {
			if n := st.f.norm(z.first); n.Key() != z.first.Key() {
				return
			}
			var cands []Num
			for k, v := range st.env {
				if n, ok := v.(Num); ok && sortOf(k.Type()) == SInt {
					cands = append(cands, n)
				}
			}
			sortNums(cands)
			pin(st, z.first, IntN(0), cands...)
		}
		e.onChange = func(st *State, pos token.Pos, o *Obj) {
			if e.silent() || o.kind != OArr || o.entry || o.typ.String() != z.cs.elem.String() || strings.HasSuffix(o.name, "varargs") {
				return
			}
			c.ob(false, "final", fmt.Sprintf("%s (store at %s)", name, c.prog.pos(pos)), "a candle of the result is changed after it was appended")
		}
		e.onAppend = func(st *State, fn *ssa.Function, ins ssa.Instruction, dst Slice, els []V) {
			if dst.elem.String() != z.cs.elem.String() {
				return
			}
			where := fmt.Sprintf("%s (append at %s)", name, c.prog.pos(ins.Pos()))
			n, next := num(st.ghost["runs"]), num(st.ghost["next"])
			st.ghost["runs"] = Add(n, IntN(int64(len(els))))
			if len(els) != 1 {
				c.ob(e.silent(), "one-run", where, "not a single candle is appended")
				return
			}
			v := els[0].(*Struct)
			s, ok1 := z.index(st, field(v, "Time"), "Time")
			l, ok2 := z.index(st, field(v, "Close"), "Close")
			end := Add(l, IntN(1))
			if !ok2 {
				end = atomNum(freshSym("end", SInt))
			}
			st.ghost["next"] = end
			if e.silent() {
				return
			}
			z.appended++
			c.ob(ok1, "first-of-run", where, "the time of the new candle is not that of a given candle")
			c.ob(ok2, "last-of-run", where, "the close of the new candle is not that of a given candle")
			if ok1 && ok2 {
				c.ob(proveF(st.f, And(Eq(dst.len, n))), "same-result", where, "the candle is appended to something else than the runs so far")
				each(z, st, where, n, next, s, end, v)
			}
		}
	}
	r := c.run(name, runOpt{prep: prep})
	if r == nil {
		return nil
	}
	z.run = r
	c.ob(z.appended > 0, "reachable", name+" ("+ic.name+")", "no candle is appended")
	c.sites += z.appended
	return z
}

// index finds i such that v is the field of candle i.
func (z *resample) index(st *State, v V, f string) (Num, bool) {
	n, ok := v.(Num)
	if !ok {
		return Num{}, false
	}
	var res Num
	found := false
	want := z.old(IntN(0), f)
	var arr *Arr
	deep(want, func(a *Atom) {
		if a.kind == KSel {
			arr = a.arr
		}
	})
	deep(n, func(a *Atom) {
		if a.kind == KSel && a.arr == arr && !found {
			i := Sub(a.args[0].(Num), z.cs.off)
			if Sub(n, z.old(i, f)).IsZero() {
				res, found = i, true
			}
		}
	})
	return res, found
}

func (z *resample) accepted(f func(o *Out, ret Slice)) {
	acc := 0
	z.run.each(func(o *Out) {
		o.with(errNil(o.ret(1)), func(st *State) {
			acc++
			x := &Out{o.Run, st, o.i}
			ret := o.ret(0).(Slice)
			if ro, ok := st.mem[ret.obj]; ok && !ret.len.IsZero() {
				z.c.ob(!ro.entry, "returned", x.where(), "the given candles are returned")
			}
			f(x, ret)
		})
	})
	z.c.ob(acc > 0, "reachable", z.name, "no accepted outcome")
}

func checkCandleGroups(c *Ctx) {
	for _, ic := range intervalCases {
		z := c.resample(ic, func(z *resample, st *State, where string, n, next, s, e Num, v *Struct) {
			must := func(rule string, f Fm, msg string) {
				ok := proveF(st.f, f)
				if !ok && c.log {
					fmt.Printf("---- %s: %s\n goal %v\n%s", rule, msg, f, st.dump())
				}
				c.ob(ok, rule, where, "%s", msg)
			}
			must("run", And(Ge(s, IntN(0)), Lt(s, e), Le(e, z.cs.len)), "the run of candles is empty or outside the input")
			must("open", Eq(fieldN(v, "Open"), z.old(s, "Open")), "the open is not that of the first candle of the run")
			over := func(f string, op string) Num {
				q := freshSym("i", SInt)
				if op == "sum" {
					return SumN(z.old(atomNum(q), f), q, s, e)
				}
				return OverN(op, z.old(atomNum(q), f), q, s, e)
			}
			must("high", Eq(fieldN(v, "High"), over("High", "max")), "the high is not the highest of the run")
			must("low", Eq(fieldN(v, "Low"), over("Low", "min")), "the low is not the lowest of the run")
			vol := over("Volume", "sum")
			must("volume", Eq(fieldN(v, "Volume"), atomNum(fnAtom("roundDec:5", SReal, vol))), "the volume is not the sum of the run rounded to 5 decimals")
		})
		if z != nil {
			z.accepted(func(o *Out, ret Slice) {
				o.must("returned", Eq(ret.len, num(o.st.ghost["runs"])), "the result is not the list of new candles")
			})
		}
	}
}

func checkCandleCover(c *Ctx) {
	for _, ic := range intervalCases {
		z := c.resample(ic, func(z *resample, st *State, where string, n, next, s, e Num, v *Struct) {
			ok := proveF(st.f, And(Eq(s, next), Lt(s, e)))
			if !ok && c.log {
				fmt.Printf("---- contiguous: s=%v next=%v\n%s", s, next, st.dump())
			}
			c.ob(ok, "contiguous", where, "the run does not start where the previous one ended (or at the first aligned candle)")
		})
		if z != nil {
			z.accepted(func(o *Out, ret Slice) {
				o.must("complete", Eq(num(o.st.ghost["next"]), z.cs.len), "the last run does not end with the last candle")
				o.must("returned", Eq(ret.len, num(o.st.ghost["runs"])), "the result is not the list of new candles")
			})
		}
	}
}

func checkCandleSplit(c *Ctx) {
	for _, ic := range intervalCases {
		z := c.resample(ic, func(z *resample, st *State, where string, n, next, s, e Num, v *Struct) {
			must := func(st *State, rule string, f Fm, msg string) {
				ok := proveF(st.f, f)
				if !ok && c.log {
					fmt.Printf("---- %s: %s\n goal %v\n%s", rule, msg, f, st.dump())
				}
				c.ob(ok, rule, where, "%s", msg)
			}
			must(st, "start", Eq(s, next), "the run does not start at the first aligned candle or where the previous one ended")
			q := atomNum(freshSym("i", SInt))
			in := st.clone()
			in.own()
			in.f = in.f.clone()
			in.assumeSafe(cmpLit(">=", q, s))
			in.assumeSafe(cmpLit("<", q, e))
			if !in.f.dead {
				must(in, "same-interval", Eq(z.bucket(q), z.bucket(s)), "a run mixes candles of different intervals")
			}
			must(st, "whole-interval", Imp(Lt(e, z.cs.len), Ne(z.bucket(e), z.bucket(s))), "a run ends before a candle of the same interval")
		})
		if z != nil {
			z.accepted(func(o *Out, ret Slice) {
				o.must("returned", Eq(ret.len, num(o.st.ghost["runs"])), "the result is not the list of new candles")
			})
		}
	}
}

func checkCandleArgs(c *Ctx) {
	name := "market.ModifyInterval"
	acc, rej := 0, map[string]int{}
	r := c.run(name, runOpt{})
	if r == nil {
		return
	}
	cs, iv := r.args[0].(Slice), num(r.args[1])
	at := func(i int64) Num { return fieldN(r.oldElem(cs, IntN(i)), "Time") }
	delta := idivN(Sub(at(1), at(0)), IntN(60))
	few := Le(cs.len, IntN(1))
	r.each(func(o *Out) {
		o.mustPure("input-kept", nil)
		ret := o.ret(0).(Slice)
		o.with(errNil(o.ret(1)), func(st *State) {
			acc++
			x := &Out{o.Run, st, o.i}
			x.must("few", Imp(few, And(Eq(ret.len, cs.len), eqF(ret, cs))), "fewer than two candles are not returned as they are")
			x.must("accepts", Or(few, And(Gt(iv, IntN(0)), Ne(delta, IntN(0)), Or(Eq(delta, IntN(1)), Ne(iv, IntN(1))), Eq(imodN(iv, delta), IntN(0)))), "an interval that does not fit the candles is accepted")
			x.must("some", Or(few, Ge(ret.len, IntN(1))), "no candle is returned")
		})
		o.with(Not(errNil(o.ret(1))), func(st *State) {
			x := &Out{o.Run, st, o.i}
			x.must("rejects", Not(few), "fewer than two candles are rejected")
			x.must("no-result", L(ret.nilL), "candles are returned with an error")
			a := x.errCode(o.ret(1))
			if a == nil {
				c.ob(false, "error-code", x.where(), "the code of the returned error is unknown")
				return
			}
			conflict := Or(And(Ne(delta, IntN(1)), Eq(iv, IntN(1))), Eq(delta, IntN(0)), Ne(imodN(iv, delta), IntN(0)))
			x.must("conflict", Iff(Is(a, "conflict"), And(Gt(iv, IntN(0)), conflict)), "the conflict code does not mean that the interval does not fit the candles")
			x.must("error-code", Or(Is(a, "conflict"), Is(a, "invalid")), "the error code is neither conflict nor invalid")
			x.with(And(Is(a, "invalid"), Gt(iv, IntN(0))), func(st *State) {
				rej["unaligned"]++
				for _, ic := range intervalCases {
					y := st.clone()
					y.own()
					y.f = y.f.clone()
					for _, l := range ic.cond(iv) {
						y.assumeSafe(l)
					}
					k := atomNum(freshSym("k", SInt))
					y.assumeSafe(cmpLit(">=", k, IntN(0)))
					y.assumeSafe(cmpLit("<", k, cs.len))
					if y.f.dead || y.f.refute([]Term{iv}, 3) {
						continue
					}
					al := cmpLit("==", imodN(minuteOf(fieldN(r.oldElem(cs, k), "Time")), ic.mod(iv)), IntN(0))
					x.mustIn(y, "unaligned", Not(L(al)), "candles are rejected although one is aligned with the interval")
				}
			})
		})
	})
	c.ob(acc > 1, "reachable", name, "no accepted outcome")
	c.ob(rej["unaligned"] > 0, "reachable", name, "no outcome without aligned candles")
}

func sortNums(xs []Num) {
	sort.Slice(xs, func(i, j int) bool { return xs[i].Key() < xs[j].Key() })
}
