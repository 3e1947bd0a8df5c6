package main

// Literals, fact sets and entailment. The fact set of an abstract state is a
// conjunction of linear (in)equalities over monomials, string/boolean facts and
// bounded quantified facts about array columns. Entailment is decided with
// equality substitution, instantiation at the index terms present, and
// Fourier-Motzkin elimination.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type LOp uint8

const (
	LTrue LOp = iota
	LFalse
	LEq // n == 0
	LNe
	LLe // n <= 0
	LLt
	LSEq // a == b (strings, opaque)
	LSNe
	LB  // a
	LNB // !a
)

type Lit struct {
	op   LOp
	n    Num
	a, b *Atom
	k    string
}

var litTrue = Lit{op: LTrue, k: "T"}
var litFalse = Lit{op: LFalse, k: "F"}

func boolLit(b bool) Lit {
	if b {
		return litTrue
	}
	return litFalse
}

func (l Lit) Key() string { return l.k }

func (l Lit) constVal() int {
	switch l.op {
	case LTrue:
		return 1
	case LFalse:
		return 0
	}
	return -1
}

func (l Lit) lvl() int {
	switch l.op {
	case LEq, LNe, LLe, LLt:
		return l.n.lvl()
	case LSEq, LSNe:
		m := l.a.maxLv
		if l.b.maxLv > m {
			m = l.b.maxLv
		}
		return m
	case LB, LNB:
		return l.a.maxLv
	}
	return 0
}

func (l Lit) deep(f func(*Atom)) {
	switch l.op {
	case LEq, LNe, LLe, LLt:
		deep(l.n, f)
	case LSEq, LSNe:
		deepAtom(l.a, f)
		deepAtom(l.b, f)
	case LB, LNB:
		deepAtom(l.a, f)
	}
}

// top visits the outermost atoms.
func (l Lit) top(f func(*Atom)) {
	switch l.op {
	case LEq, LNe, LLe, LLt:
		l.n.atoms(f)
	case LSEq, LSNe:
		f(l.a)
		f(l.b)
	case LB, LNB:
		f(l.a)
	}
}

func (l Lit) meets(m bits) bool {
	switch l.op {
	case LEq, LNe, LLe, LLt:
		return l.n.meets(m)
	case LSEq, LSNe:
		return l.a.deps.meets(m) || l.b.deps.meets(m)
	case LB, LNB:
		return l.a.deps.meets(m)
	}
	return false
}

func (l Lit) occurs(a *Atom) bool {
	switch l.op {
	case LEq, LNe, LLe, LLt:
		return occurs(l.n, a)
	case LSEq, LSNe:
		return l.a.deps.has(a.id) || l.b.deps.has(a.id)
	case LB, LNB:
		return l.a.deps.has(a.id)
	}
	return false
}

func (l Lit) subst(f substF) (r Lit) {
	masked(nil, func() { r = l.substR(f) })
	return
}

// at replaces one atom.
func (l Lit) at(a *Atom, t Term) (r Lit) {
	if !l.occurs(a) {
		return l
	}
	key := atKey{a: a, l: l.k, t: t.Key()}
	if r, ok := atCache[key]; ok {
		return r
	}
	f := func(b *Atom) (Term, bool) {
		if b == a {
			return t, true
		}
		return nil, false
	}
	var m bits
	m.set(a.id)
	masked(m, func() { r = l.substR(f) })
	if len(atCache) > 300000 {
		atCache = map[atKey]Lit{}
	}
	atCache[key] = r
	return
}

type atKey struct {
	a    *Atom
	l, t string
}

// atCache remembers substitutions into literals.
var atCache = map[atKey]Lit{}

func (l Lit) substR(f substF) Lit {
	if curMask != nil && !l.meets(curMask) {
		return l
	}
	switch l.op {
	case LEq, LNe, LLe, LLt:
		return numLit(l.op, substNumR(l.n, f))
	case LSEq, LSNe:
		a, ok1 := substTermR(l.a, f).(*Atom)
		b, ok2 := substTermR(l.b, f).(*Atom)
		if !ok1 || !ok2 {
			return l
		}
		if l.op == LSEq {
			return strEq(a, b)
		}
		return strEq(a, b).Not()
	case LB, LNB:
		switch t := substTermR(l.a, f).(type) {
		case *Atom:
			return boolAtomLit(t, l.op == LB)
		case litTerm:
			if l.op == LB {
				return t.l
			}
			return t.l.Not()
		}
	}
	return l
}

// litTerm lets a boolean atom be replaced by a literal.
type litTerm struct{ l Lit }

func (t litTerm) Key() string { return "L:" + t.l.k }

func boolAtomLit(a *Atom, v bool) Lit {
	if v {
		return Lit{op: LB, a: a, k: "+" + a.key}
	}
	return Lit{op: LNB, a: a, k: "-" + a.key}
}

func (l Lit) Not() Lit {
	switch l.op {
	case LTrue:
		return litFalse
	case LFalse:
		return litTrue
	case LEq:
		return numLit(LNe, l.n)
	case LNe:
		return numLit(LEq, l.n)
	case LLe:
		return numLit(LLt, Neg(l.n))
	case LLt:
		return numLit(LLe, Neg(l.n))
	case LSEq:
		return Lit{op: LSNe, a: l.a, b: l.b, k: "n" + l.a.key + "~" + l.b.key}
	case LSNe:
		return Lit{op: LSEq, a: l.a, b: l.b, k: "e" + l.a.key + "~" + l.b.key}
	case LB:
		return boolAtomLit(l.a, false)
	case LNB:
		return boolAtomLit(l.a, true)
	}
	panic("not")
}

func strEq(a, b *Atom) Lit {
	if a == b {
		return litTrue
	}
	if a.kind == KConst && b.kind == KConst {
		return litFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return Lit{op: LSEq, a: a, b: b, k: "e" + a.key + "~" + b.key}
}

func numLit(op LOp, n Num) Lit {
	if n.q != nil {
		switch op {
		case LEq, LNe:
			// denominators are assumed non-zero where the value is used
			n = Num{p: n.p}
		default:
			n = clearDen(n)
		}
	}
	if c, ok := n.Const(); ok {
		s := c.Sign()
		switch op {
		case LEq:
			return boolLit(s == 0)
		case LNe:
			return boolLit(s != 0)
		case LLe:
			return boolLit(s <= 0)
		case LLt:
			return boolLit(s < 0)
		}
	}
	// scale to coprime integer coefficients
	l := new(big.Int).SetInt64(1)
	for _, t := range n.p {
		l = lcm(l, t.c.Denom())
	}
	g := new(big.Int)
	for _, t := range n.p {
		if t.m == monoOne && n.isIntMonos() {
			continue
		}
		x := new(big.Int).Mul(t.c.Num(), l)
		x.Div(x, t.c.Denom())
		x.Abs(x)
		if g.Sign() == 0 {
			g.Set(x)
		} else {
			g.GCD(nil, nil, g, x)
		}
	}
	if g.Sign() == 0 {
		g.SetInt64(1)
	}
	f := new(big.Rat).SetFrac(l, g)
	p := scalePoly(n.p, f)
	isI := true
	for _, t := range p {
		if !t.m.isI {
			isI = false
		}
	}
	if op == LEq || op == LNe {
		if p[len(p)-1].c.Sign() < 0 {
			p = scalePoly(p, big.NewRat(-1, 1))
		}
		if isI {
			for _, t := range p {
				if t.m == monoOne && !t.c.IsInt() {
					return boolLit(op == LNe)
				}
			}
		}
	} else if isI {
		if op == LLt {
			// n < 0 over integers; with scaled constant c/g
			n2 := Num{p: p}
			c := n2.cst()
			// sum + c < 0  <=>  sum <= ceil(-c)-1  <=> sum + (1 - ceil(-c)) <= 0
			k := ceilRat(new(big.Rat).Neg(c))
			nc := new(big.Rat).SetInt(new(big.Int).Sub(big.NewInt(1), k))
			p = addPoly(p, Poly{{monoOne, new(big.Rat).Sub(nc, c)}}, ratOne)
			p = dropZero(p)
			op = LLe
		} else {
			n2 := Num{p: p}
			c := n2.cst()
			// sum <= floor(-c)
			k := floorRat(new(big.Rat).Neg(c))
			nc := new(big.Rat).SetInt(new(big.Int).Neg(k))
			d := new(big.Rat).Sub(nc, c)
			if d.Sign() != 0 {
				p = dropZero(addPoly(p, Poly{{monoOne, d}}, ratOne))
			}
		}
	}
	n = Num{p: p}
	return Lit{op: op, n: n, k: string('0'+rune(op)) + n.Key()}
}

func dropZero(p Poly) Poly {
	var r Poly
	for _, t := range p {
		if t.c.Sign() != 0 {
			r = append(r, t)
		}
	}
	return r
}

func (n Num) isIntMonos() bool {
	for _, t := range n.p {
		if !t.m.isI {
			return false
		}
	}
	return true
}

func lcm(a, b *big.Int) *big.Int {
	g := new(big.Int).GCD(nil, nil, a, b)
	r := new(big.Int).Div(a, g)
	return r.Mul(r, b)
}

func floorRat(r *big.Rat) *big.Int {
	q, m := new(big.Int).DivMod(r.Num(), r.Denom(), new(big.Int))
	_ = m
	return q
}

func ceilRat(r *big.Rat) *big.Int {
	n := floorRat(new(big.Rat).Neg(r))
	return n.Neg(n)
}

// clearDen replaces p/q by p*inv(q), inv uninterpreted.
func clearDen(n Num) Num {
	if n.q == nil {
		return n
	}
	inv := fnAtom("inv", SReal, Num{p: n.q})
	return Mul(Num{p: n.p}, atomNum(inv))
}

func cmpLit(op string, a, b Num) Lit {
	switch op {
	case "==":
		return numLit(LEq, Sub(a, b))
	case "!=":
		return numLit(LNe, Sub(a, b))
	case "<":
		return numLit(LLt, Sub(a, b))
	case "<=":
		return numLit(LLe, Sub(a, b))
	case ">":
		return numLit(LLt, Sub(b, a))
	case ">=":
		return numLit(LLe, Sub(b, a))
	}
	panic("cmp " + op)
}

func (l Lit) String() string {
	switch l.op {
	case LTrue:
		return "true"
	case LFalse:
		return "false"
	case LEq:
		return l.n.String() + " == 0"
	case LNe:
		return l.n.String() + " != 0"
	case LLe:
		return l.n.String() + " <= 0"
	case LLt:
		return l.n.String() + " < 0"
	case LSEq:
		return l.a.String() + " == " + l.b.String()
	case LSNe:
		return l.a.String() + " != " + l.b.String()
	case LB:
		return l.a.String()
	case LNB:
		return "!" + l.a.String()
	}
	return "?"
}

// QF is a bounded quantified fact: for all q in [lo,hi) with guards: body.
// With two variables (pair), it ranges over lo <= q < r < hi.
type QF struct {
	lo, hi Num
	guards []Lit
	body   Lit
	pair   bool
	k      string
}

var (
	qv = namedSym("$q", SInt)
	rv = namedSym("$r", SInt)
)

func mkQF(lo, hi Num, guards []Lit, body Lit, pair bool) QF {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%v|%s|%s|%s", pair, lo.Key(), hi.Key(), body.k)
	for _, g := range guards {
		sb.WriteString("|" + g.k)
	}
	return QF{lo, hi, guards, body, pair, sb.String()}
}

func (q QF) String() string {
	s := fmt.Sprintf("forall q in [%v, %v)", q.lo, q.hi)
	if q.pair {
		s = fmt.Sprintf("forall %v <= q < r < %v", q.lo, q.hi)
	}
	for _, g := range q.guards {
		s += fmt.Sprintf(" with %v", g)
	}
	return s + ": " + q.body.String()
}

func (q QF) subst(f substF) (r QF) {
	masked(nil, func() { r = q.substR(f) })
	return
}

func (q QF) substR(f substF) QF {
	var g []Lit
	for _, l := range q.guards {
		g = append(g, l.substR(f))
	}
	return mkQF(substNumR(q.lo, f), substNumR(q.hi, f), g, q.body.substR(f), q.pair)
}

func (q QF) occurs(a *Atom) bool {
	if occurs(q.lo, a) || occurs(q.hi, a) || q.body.occurs(a) {
		return true
	}
	for _, g := range q.guards {
		if g.occurs(a) {
			return true
		}
	}
	return false
}

type eqn struct {
	a *Atom
	t Term
}

// Facts is an immutable-by-convention fact set; copy before changing.
type Facts struct {
	lits []Lit
	has  map[string]bool
	eqs  map[*Atom]Term
	qs   []QF
	dead bool
	mask bits // atoms with a solved equality
	memo map[string]bool

	pos0, neg0 map[string]bool // answers of the linear prover
	up         *Facts          // facts this set extends (during a proof)
	aside      bool            // the extension does not speak about indices
}

func newFacts() *Facts {
	return &Facts{has: map[string]bool{}, eqs: map[*Atom]Term{}}
}

func (f *Facts) clone() *Facts {
	g := &Facts{lits: append([]Lit(nil), f.lits...), has: make(map[string]bool, len(f.has)), eqs: make(map[*Atom]Term, len(f.eqs)), qs: append([]QF(nil), f.qs...), dead: f.dead, mask: append(bits(nil), f.mask...)}
	for k := range f.has {
		g.has[k] = true
	}
	for k, v := range f.eqs {
		g.eqs[k] = v
	}
	return g
}

func (f *Facts) sub() substF {
	return func(a *Atom) (Term, bool) {
		t, ok := f.eqs[a]
		return t, ok
	}
}

// norm applies the solved equalities until nothing changes.
func (f *Facts) norm(n Num) Num {
	for i := 0; i < 6; i++ {
		if !n.meets(f.mask) {
			return n
		}
		m := n
		masked(f.mask, func() { m = substNumR(n, f.sub()) })
		if m.Key() == n.Key() {
			return m
		}
		n = m
	}
	return n
}

func (f *Facts) normLit(l Lit) Lit {
	for i := 0; i < 6; i++ {
		if !l.meets(f.mask) {
			return l
		}
		m := l
		masked(f.mask, func() { m = l.substR(f.sub()) })
		if m.k == l.k {
			return m
		}
		l = m
	}
	return l
}

func (f *Facts) normAtom(a *Atom) Term {
	var t Term = a
	for i := 0; i < 6; i++ {
		var u Term
		masked(f.mask, func() { u = substTermR(t, f.sub()) })
		if u.Key() == t.Key() {
			return u
		}
		t = u
	}
	return t
}

func solvable(n Num) (*Atom, Num, bool) {
	var best *Atom
	bestScore := -1
	for _, t := range n.p {
		if len(t.m.f) != 1 || t.m.f[0].e != 1 {
			continue
		}
		a := t.m.f[0].a
		if _, ok := n.linCoef(a); !ok {
			continue
		}
		if a.sort == SInt && n.isIntMonos() {
			// keep integrality: coefficient must divide everything
			ok := true
			for _, u := range n.p {
				if !new(big.Rat).Quo(u.c, t.c).IsInt() {
					ok = false
				}
			}
			if !ok {
				continue
			}
		}
		// a must not occur nested in the other terms
		nested := false
		for _, u := range n.p {
			for _, x := range u.m.f {
				if x.a != a && occurs(x.a, a) {
					nested = true
				}
			}
		}
		if nested {
			continue
		}
		score := 0
		switch a.kind {
		case KSym:
			score = 1000000 + a.id
		case KSel:
			score = 500000
			// prefer the newest
			score += a.id % 400000
		case KPrefix, KOver, KFold, KInd:
			score = 10
		default:
			score = 100
		}
		if score > bestScore {
			best, bestScore = a, score
		}
	}
	if best == nil {
		return nil, Num{}, false
	}
	c, _ := n.linCoef(best)
	rest := Sub(n, Mul(RatN(c), atomNum(best)))
	return best, Neg(Div(rest, RatN(c))), true
}

func (f *Facts) addEq(a *Atom, t Term) {
	s := func(b *Atom) (Term, bool) {
		if b == a {
			return t, true
		}
		return nil, false
	}
	f.memo, f.neg0 = nil, nil
	var m bits
	m.set(a.id)
	var keys []*Atom
	masked(m, func() {
		for k, v := range f.eqs {
			if occurs(v, a) {
				f.eqs[k] = substTermR(v, s)
			}
			if k != a && k.deps.has(a.id) {
				keys = append(keys, k)
			}
		}
	})
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	f.eqs[a] = t
	f.mask.set(a.id)
	old := f.lits
	f.lits = nil
	f.has = map[string]bool{}
	var redo []Lit
	for _, l := range old {
		if !l.occurs(a) {
			f.lits = append(f.lits, l)
			f.has[l.k] = true
		} else {
			redo = append(redo, l)
		}
	}
	for i, q := range f.qs {
		if q.occurs(a) {
			masked(m, func() { f.qs[i] = q.substR(s) })
		}
	}
	for _, l := range redo {
		f.assume(l.at(a, t))
	}
	// What an equality says of x[i] it says of x[t] once i is t.
	for _, k := range keys {
		f.assume(eqLit(k, f.eqs[k]).at(a, t))
	}
}

// assume adds a literal (no feasibility check beyond the syntactic one).
func (f *Facts) assume(l Lit) {
	if f.dead {
		return
	}
	l = f.normLit(l)
	switch l.op {
	case LTrue:
		return
	case LFalse:
		f.dead = true
		return
	}
	if f.has[l.k] {
		return
	}
	if f.has[l.Not().k] {
		f.dead = true
		return
	}
	switch l.op {
	case LEq:
		if a, t, ok := solvable(l.n); ok {
			f.addEq(a, t)
			if a.kind == KFn && a.name == "len" && NumEq(t, Num{}) {
				f.assume(strEq(a.args[0].(*Atom), strConst("")))
			}
			return
		}
	case LSNe:
		for _, x := range [][2]*Atom{{l.a, l.b}, {l.b, l.a}} {
			if x[0].kind == KConst && x[0].name == "" {
				f.assume(cmpLit(">=", lenOf(x[1]), IntN(1)))
			}
		}
	case LSEq:
		a, b := l.a, l.b
		// replace the non-constant, preferring to keep the older atom
		if a.kind == KConst {
			a, b = b, a
		} else if b.kind != KConst && a.id < b.id {
			a, b = b, a
		}
		if !occurs(b, a) {
			f.addEq(a, b)
			return
		}
		if !occurs(a, b) && b.kind != KConst {
			f.addEq(b, a)
			return
		}
	case LLe:
		// a <= 0 and -a <= 0 make an equality
		opp := numLit(LLe, Neg(l.n))
		if f.has[opp.k] {
			f.assume(numLit(LEq, l.n))
			return
		}
		if f.has[numLit(LNe, l.n).k] {
			l = numLit(LLt, l.n)
		}
	case LNe:
		for _, s := range []Num{l.n, Neg(l.n)} {
			le := numLit(LLe, s)
			if f.has[le.k] {
				l2 := numLit(LLt, s)
				f.lits = append(f.lits, l2)
				f.has[l2.k] = true
			}
		}
	}
	f.lits = append(f.lits, l)
	f.has[l.k] = true
	f.memo, f.neg0 = nil, nil
}

func (f *Facts) assumeQ(q QF) {
	f.memo, f.neg0 = nil, nil
	masked(f.mask, func() { q = q.substR(f.sub()) })
	if q.body.op == LTrue {
		return
	}
	for _, o := range f.qs {
		if o.k == q.k {
			return
		}
	}
	f.qs = append(f.qs, q)
}

// ---- Fourier-Motzkin ----

type lin struct {
	p      Poly // p <= 0 or p < 0
	strict bool
}

var fmCalls, fmBudget int

func unsatLin(cs []lin) bool {
	fmCalls++
	if r, ok := unsatFast(cs); ok {
		return r
	}
	fmSlow++
	// quick constant check and dedupe
	work := map[string]lin{}
	add := func(c lin) bool {
		if k, ok := c.p.isConst(); ok {
			if k.Sign() > 0 || (k.Sign() == 0 && c.strict) {
				return true
			}
			return false
		}
		// normalise scale
		g := new(big.Rat)
		for _, t := range c.p {
			if t.m != monoOne {
				g.Abs(t.c)
				break
			}
		}
		if g.Cmp(ratOne) != 0 {
			c.p = scalePoly(c.p, new(big.Rat).Inv(g))
		}
		// key without constant
		var cst *big.Rat
		var np Poly
		for _, t := range c.p {
			if t.m == monoOne {
				cst = t.c
			} else {
				np = append(np, t)
			}
		}
		if cst == nil {
			cst = new(big.Rat)
		}
		k := polyKey(np)
		if o, ok := work[k]; ok {
			oc := Num{p: o.p}.cst()
			d := cst.Cmp(oc)
			if d < 0 || (d == 0 && !c.strict) {
				return false
			}
		}
		work[k] = c
		return false
	}
	for _, c := range cs {
		if add(c) {
			return true
		}
	}
	for round := 0; round < 60; round++ {
		// pick variable with the fewest products
		type cnt struct{ pos, neg int }
		m := map[*Mono]*cnt{}
		for _, c := range work {
			for _, t := range c.p {
				if t.m == monoOne {
					continue
				}
				x := m[t.m]
				if x == nil {
					x = &cnt{}
					m[t.m] = x
				}
				if t.c.Sign() > 0 {
					x.pos++
				} else {
					x.neg++
				}
			}
		}
		if len(m) == 0 {
			return false
		}
		var best *Mono
		bs := 0
		for k, x := range m {
			s := x.pos*x.neg - x.pos - x.neg
			if best == nil || s < bs || (s == bs && k.id < best.id) {
				best, bs = k, s
			}
		}
		var pos, neg []lin
		old := work
		work = map[string]lin{}
		keys := make([]string, 0, len(old))
		for k := range old {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			c := old[k]
			s := 0
			for _, t := range c.p {
				if t.m == best {
					s = t.c.Sign()
				}
			}
			switch {
			case s > 0:
				pos = append(pos, c)
			case s < 0:
				neg = append(neg, c)
			default:
				work[k] = c
			}
		}
		if len(pos)*len(neg) > 600 {
			return false
		}
		for _, a := range pos {
			var ca *big.Rat
			for _, t := range a.p {
				if t.m == best {
					ca = t.c
				}
			}
			for _, b := range neg {
				var cb *big.Rat
				for _, t := range b.p {
					if t.m == best {
						cb = t.c
					}
				}
				// a/ca - b/cb  (cb negative => adding b/(-cb))
				np := addPoly(scalePoly(a.p, new(big.Rat).Inv(ca)), b.p, new(big.Rat).Inv(new(big.Rat).Neg(cb)))
				if add(lin{np, a.strict || b.strict}) {
					return true
				}
			}
		}
		if len(work) > 500 {
			return false
		}
	}
	return false
}

// litLins turns a literal into linear constraints (nil for disequalities and
// non-numeric literals).
func litLins(l Lit) []lin {
	switch l.op {
	case LLe:
		return []lin{{l.n.p, false}}
	case LLt:
		return []lin{{l.n.p, true}}
	case LEq:
		return []lin{{l.n.p, false}, {Neg(l.n).p, false}}
	}
	return nil
}

// ---- entailment ----

type prover struct {
	f     *Facts
	depth int
}

var proveMemo = map[string]bool{}

// prove reports whether the facts entail l.
func (f *Facts) prove(l Lit) bool {
	if f.dead {
		return true
	}
	l = f.normLit(l)
	switch l.op {
	case LTrue:
		return true
	case LFalse:
		return f.unsat(nil, 3)
	}
	if f.has[l.k] {
		return true
	}
	if v, ok := f.memo[l.k]; ok {
		return v
	}
	r := f.proveN(l, 3)
	if f.memo == nil {
		f.memo = map[string]bool{}
	}
	f.memo[l.k] = r
	return r
}

// prove0 is the linear prover without instantiation. Answers are remembered;
// what the facts a clone was made from entail, the clone entails as well.
func (f *Facts) prove0(l Lit) bool {
	if f.dead {
		return true
	}
	l = f.normLit(l)
	if l.op == LTrue || f.has[l.k] {
		return true
	}
	for g, n := f, 0; g != nil && n < 6; g, n = g.up, n+1 {
		if g.pos0[l.k] {
			return true
		}
		if g.neg0[l.k] && (g == f || (f.aside && g == f.up)) {
			return false
		}
	}
	g := f
	if f.aside && f.up != nil {
		// the literal the clone was made for does not speak about indices
		if l.n.isIntMonos() && (l.op == LLe || l.op == LLt || l.op == LEq || l.op == LNe) {
			g = f.up
		}
	}
	r := g.proveN(l, 0)
	if g.pos0 == nil {
		g.pos0 = map[string]bool{}
	}
	if g.neg0 == nil {
		g.neg0 = map[string]bool{}
	}
	if r {
		g.pos0[l.k] = true
	} else {
		g.neg0[l.k] = true
	}
	return r
}

func (f *Facts) proveN(l Lit, depth int) bool {
	l = f.normLit(l)
	switch l.op {
	case LTrue:
		return true
	}
	if f.has[l.k] {
		return true
	}
	if l.op == LEq {
		// both inequalities, unless the difference normalises to zero
		return f.proveN(numLit(LLe, l.n), depth) && f.proveN(numLit(LLe, Neg(l.n)), depth)
	}
	n := l.Not()
	return f.unsat(&n, depth)
}

// unsat: the facts together with extra are contradictory.
func (f *Facts) unsat(extra *Lit, depth int) bool {
	g := f
	if extra != nil {
		g = f.clone()
		g.aside = false
		switch extra.op {
		case LLe, LLt, LNe:
			g.aside = !extra.n.isIntMonos()
		}
		up, aside := f, g.aside
		g.assume(*extra)
		g.up, g.aside = up, aside
	}
	if g.dead {
		return true
	}
	var focus []Term
	if extra != nil {
		e := g.normLit(*extra)
		if e.op == LFalse {
			return true
		}
		focus = append(focus, litTerms(*extra)...)
		focus = append(focus, litTerms(e)...)
	}
	return g.refute(focus, depth)
}

func litTerms(l Lit) []Term {
	switch l.op {
	case LEq, LNe, LLe, LLt:
		return []Term{l.n}
	case LSEq, LSNe:
		return []Term{l.a, l.b}
	case LB, LNB:
		return []Term{l.a}
	}
	return nil
}

func (g *Facts) refute(focus []Term, depth int) bool {
	// numeric part with relevance from focus
	if g.refuteLin(focus) {
		return true
	}
	if depth <= 0 {
		return false
	}
	// instantiate quantified facts, simplify special atoms, retry
	if g.instantiate(focus, depth) {
		if g.dead || g.refuteLin(focus) {
			return true
		}
		// second round: instances may mention new index terms
		if g.instantiate(focus, depth-1) {
			if g.dead || g.refuteLin(focus) {
				return true
			}
		}
	}
	// case split on a special atom
	if a := g.specialAtom(focus); a != nil {
		return g.splitSpecial(a, focus, depth)
	}
	return false
}

var ratHuge = func() *big.Rat { r, _ := new(big.Rat).SetString("1e306"); return r }()

// relevant collects linear constraints connected to the focus.
func (g *Facts) relevant(focus []Term) ([]lin, []Lit) {
	seenM := map[*Mono]bool{}
	for _, t := range focus {
		if n, ok := t.(Num); ok {
			n = g.norm(n)
			for _, x := range n.p {
				seenM[x.m] = true
			}
		}
	}
	var cs []lin
	var nes []Lit
	used := make([]bool, len(g.lits))
	for round := 0; round < 5; round++ {
		ch := false
		var newM []*Mono
		for i, l := range g.lits {
			if used[i] {
				continue
			}
			if l.op != LLe && l.op != LLt && l.op != LEq && l.op != LNe {
				continue
			}
			rel := len(focus) == 0
			for _, t := range l.n.p {
				if t.m != monoOne && seenM[t.m] {
					rel = true
				}
			}
			if !rel {
				continue
			}
			used[i] = true
			ch = true
			if l.op == LNe {
				nes = append(nes, l)
			} else {
				cs = append(cs, litLins(l)...)
			}
			for _, t := range l.n.p {
				newM = append(newM, t.m)
			}
		}
		for _, m := range newM {
			seenM[m] = true
		}
		if !ch {
			break
		}
	}
	// built-in bounds of special atoms
	var ms []*Mono
	for m := range seenM {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].id < ms[j].id })
	// input values are finite and smaller than the sentinels of the code
	huge := false
	for _, c := range cs {
		for _, t := range c.p {
			if t.m == monoOne && new(big.Rat).Abs(t.c).Cmp(ratHuge) >= 0 {
				huge = true
			}
		}
	}
	if huge {
		for _, m := range ms {
			if len(m.f) != 1 || m.f[0].e != 1 {
				continue
			}
			if a := m.f[0].a; a.kind == KSel || a.kind == KSym {
				x := atomNum(a)
				cs = append(cs, lin{Sub(x, RatN(ratHuge)).p, false}, lin{Sub(Neg(x), RatN(ratHuge)).p, false})
			}
		}
	}
	for _, m := range ms {
		if len(m.f) == 1 && m.f[0].e == 1 {
			cs = append(cs, g.axioms(m.f[0].a)...)
		}
		if len(m.f) == 1 && m.f[0].e == 2 {
			cs = append(cs, lin{Neg(Num{p: Poly{{m, ratOne}}}).p, false})
		}
	}
	return append(cs, g.counts(ms)...), nes
}

var inCounts bool

// counts: a count over a longer range is at least the count over a shorter
// one, and exceeds it by at most the difference of the ends.
func (g *Facts) counts(ms []*Mono) []lin {
	if inCounts {
		return nil
	}
	groups := map[string][]*Atom{}
	var order []string
	for _, m := range ms {
		if len(m.f) != 1 || m.f[0].e != 1 {
			continue
		}
		a := m.f[0].a
		if a.kind != KPrefix || termLvl(a.args[1]) != 0 {
			continue
		}
		b := a.args[0].(Num)
		if len(b.p) != 1 || len(b.q) != 0 || len(b.p[0].m.f) != 1 || b.p[0].c.Cmp(ratOne) != 0 || b.p[0].m.f[0].a.kind != KInd {
			continue
		}
		k := fmt.Sprint(a.lvl, b.Key())
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], a)
	}
	if len(order) == 0 {
		return nil
	}
	inCounts = true
	defer func() { inCounts = false }()
	var cs []lin
	for _, k := range order {
		as := groups[k]
		if len(as) > 6 {
			as = as[:6]
		}
		for _, a := range as {
			for _, b := range as {
				if a == b {
					continue
				}
				x, y := a.args[1].(Num), b.args[1].(Num)
				// sums end at a canonical offset, so later ends are tried too
				for i := int64(0); i <= 3; i++ {
					end := Add(y, IntN(i))
					if g.prove0(cmpLit("<=", x, end)) {
						d := Sub(prefixN(b.args[0].(Num), b.lvl, end), atomNum(a))
						cs = append(cs, lin{Neg(d).p, false}, lin{Sub(d, Sub(end, x)).p, false})
						break
					}
				}
			}
		}
	}
	return cs
}

func (g *Facts) axioms(a *Atom) []lin {
	x := atomNum(a)
	ge0 := lin{Neg(x).p, false}
	switch a.kind {
	case KInd:
		return []lin{ge0, {Sub(x, IntN(1)).p, false}}
	case KFn:
		switch a.name {
		case "len", "abs", "pos":
			r := []lin{ge0}
			if a.name == "pos" {
				r = append(r, lin{Sub(a.args[0].(Num), x).p, false})
			}
			if a.name == "abs" {
				y := a.args[0].(Num)
				r = append(r, lin{Sub(y, x).p, false}, lin{Sub(Neg(y), x).p, false})
			}
			return polyOnly(r)
		case "max2":
			return polyOnly([]lin{{Sub(a.args[0].(Num), x).p, false}, {Sub(a.args[1].(Num), x).p, false}})
		case "min2":
			return polyOnly([]lin{{Sub(x, a.args[0].(Num)).p, false}, {Sub(x, a.args[1].(Num)).p, false}})
		case "imod":
			if c, ok := a.args[1].(Num).ConstInt(); ok && c > 0 {
				return []lin{{Sub(x, IntN(c-1)).p, false}, {Sub(IntN(-c+1), x).p, false}}
			}
		case "ftoi":
			// truncation toward zero of a non-negative value
			y := a.args[0].(Num)
			if g.depthSafeNonNeg(y) {
				return polyOnly([]lin{ge0, {Sub(x, y).p, false}})
			}
		}
	}
	return nil
}

func (g *Facts) depthSafeNonNeg(y Num) bool {
	return g.proveN(numLit(LLe, Neg(y)), 0)
}

func polyOnly(l []lin) []lin { return l }

func (g *Facts) refuteLin(focus []Term) bool {
	cs, nes := g.relevant(focus)
	if unsatLin(cs) {
		return true
	}
	// disequalities: strengthen where one side is excluded
	for i := 0; i < 2 && len(nes) > 0; i++ {
		ch := false
		var rest []Lit
		for _, l := range nes {
			lt := lin{l.n.p, true}
			gt := lin{Neg(l.n).p, true}
			if l.n.isIntMonos() {
				lt = litLins(numLit(LLt, l.n))[0]
				gt = litLins(numLit(LLt, Neg(l.n)))[0]
			}
			u1 := unsatLin(append(append([]lin(nil), cs...), lt))
			u2 := unsatLin(append(append([]lin(nil), cs...), gt))
			switch {
			case u1 && u2:
				return true
			case u1:
				cs = append(cs, gt)
				ch = true
			case u2:
				cs = append(cs, lt)
				ch = true
			default:
				rest = append(rest, l)
			}
		}
		nes = rest
		if !ch {
			break
		}
		if unsatLin(cs) {
			return true
		}
	}
	return false
}

// arrays mentioned by a term, literal or quantified fact
func arrsOf(deepF func(func(*Atom))) map[*Arr]bool {
	r := map[*Arr]bool{}
	deepF(func(a *Atom) {
		if a.kind == KSel {
			r[a.arr] = true
		}
	})
	return r
}

// near computes the arrays connected to the focus through the facts.
func (g *Facts) near(focus []Term) map[*Arr]bool {
	if len(focus) == 0 {
		return nil
	}
	r := map[*Arr]bool{}
	add := func(m map[*Arr]bool) {
		for a := range m {
			r[a] = true
		}
	}
	seenM := map[*Mono]bool{}
	for _, t := range focus {
		t := t
		add(arrsOf(func(v func(*Atom)) { deep(t, v) }))
		var u Term = t
		if n, ok := t.(Num); ok {
			n = g.norm(n)
			u = n
			for _, x := range n.p {
				seenM[x.m] = true
			}
		} else if a, ok := t.(*Atom); ok {
			u = g.normAtom(a)
		}
		add(arrsOf(func(v func(*Atom)) { deep(u, v) }))
	}
	// literals that share a monomial
	for round := 0; round < 2; round++ {
		var more []*Mono
		for _, l := range g.lits {
			if l.op != LLe && l.op != LLt && l.op != LEq && l.op != LNe {
				continue
			}
			for _, t := range l.n.p {
				if t.m != monoOne && seenM[t.m] {
					l := l
					add(arrsOf(l.deep))
					for _, t := range l.n.p {
						more = append(more, t.m)
					}
					break
				}
			}
		}
		for _, m := range more {
			seenM[m] = true
		}
	}
	for round := 0; round < 3; round++ {
		n := len(r)
		touch := func(m map[*Arr]bool) {
			for a := range m {
				if r[a] {
					add(m)
					return
				}
			}
		}
		for _, q := range g.qs {
			touch(q.arrs())
		}
		for a, t := range g.eqs {
			m := arrsOf(func(v func(*Atom)) { deep(a, v); deep(t, v) })
			if len(m) > 1 {
				touch(m)
			}
		}
		if len(r) == n {
			break
		}
	}
	return r
}

var qArrs = map[string]map[*Arr]bool{}

func (q QF) arrs() map[*Arr]bool {
	if m, ok := qArrs[q.k]; ok {
		return m
	}
	m := arrsOf(func(v func(*Atom)) {
		q.body.deep(v)
		for _, g := range q.guards {
			g.deep(v)
		}
	})
	qArrs[q.k] = m
	return m
}

// selIndex collects the column selections visible in focus and facts.
func (g *Facts) sels(focus []Term, near map[*Arr]bool) map[*Arr][]Num {
	seen := map[string]bool{}
	res := map[*Arr][]Num{}
	visit := func(a *Atom) {
		if a.kind == KSel && a.maxLv == 0 && (near == nil || near[a.arr]) {
			idx := g.norm(a.args[0].(Num))
			if occurs(idx, qv) || occurs(idx, rv) {
				return
			}
			k := fmt.Sprint(a.arr.id, "@", idx.Key())
			if !seen[k] {
				seen[k] = true
				res[a.arr] = append(res[a.arr], idx)
			}
		}
	}
	for _, t := range focus {
		deep(t, visit)
		if n, ok := t.(Num); ok {
			deep(g.norm(n), visit)
		} else if a, ok := t.(*Atom); ok {
			deep(g.normAtom(a), visit)
		}
	}
	for _, l := range g.lits {
		l.deep(visit)
	}
	for _, a := range g.eqAtoms() {
		deep(a, visit)
		deep(g.eqs[a], visit)
	}
	return res
}

func (g *Facts) eqAtoms() []*Atom {
	out := make([]*Atom, 0, len(g.eqs))
	for a := range g.eqs {
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func sortedArrs(m map[*Arr][]Num) []*Arr {
	var out []*Arr
	for a := range m {
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// offsets of Sel(arr, v + c) in a literal
func selOffsets(l Lit, v *Atom) map[*Arr][]Num {
	key := atKey{a: v, l: l.k}
	if r, ok := offsCache[key]; ok {
		return r
	}
	res := map[*Arr][]Num{}
	if len(offsCache) > 100000 {
		offsCache = map[atKey]map[*Arr][]Num{}
	}
	offsCache[key] = res
	l.deep(func(a *Atom) {
		if a.kind != KSel {
			return
		}
		idx := a.args[0].(Num)
		c, ok := idx.linCoef(v)
		if !ok || c.Cmp(ratOne) != 0 {
			return
		}
		off := Sub(idx, atomNum(v))
		if occurs(off, v) || occurs(off, rv) || occurs(off, qv) {
			return
		}
		res[a.arr] = append(res[a.arr], off)
	})
	return res
}

var offsCache = map[atKey]map[*Arr][]Num{}

// prefixTriggers lists instances for descending selections and for sums that
// end at the bound variable.
func (g *Facts) prefixTriggers(l Lit, sels map[*Arr][]Num, focus []Term) []Num {
	var out []Num
	sums := map[string]bool{}
	type end struct {
		key  string
		sign int64
		off  Num
	}
	var ends []end
	l.deep(func(a *Atom) {
		var idx Num
		switch a.kind {
		case KSel:
			idx = a.args[0].(Num)
		case KPrefix:
			idx = a.args[1].(Num)
		default:
			return
		}
		c, ok := idx.linCoef(qv)
		if !ok || !c.IsInt() {
			return
		}
		s := c.Num().Int64()
		if s != 1 && s != -1 {
			return
		}
		off := Sub(idx, Mul(IntN(s), atomNum(qv)))
		if occurs(off, qv) || occurs(off, rv) {
			return
		}
		if a.kind == KSel {
			if s == -1 {
				for _, i := range sels[a.arr] {
					out = append(out, Sub(off, i))
				}
			}
			return
		}
		k := fmt.Sprint(a.lvl, a.args[0].(Num).Key())
		sums[k] = true
		ends = append(ends, end{k, s, off})
	})
	if len(ends) == 0 {
		return out
	}
	seen := map[string]bool{}
	visit := func(a *Atom) {
		if a.kind != KPrefix || termLvl(a.args[1]) != 0 {
			return
		}
		k := fmt.Sprint(a.lvl, a.args[0].(Num).Key())
		if !sums[k] {
			return
		}
		x := g.norm(a.args[1].(Num))
		if occurs(x, qv) || occurs(x, rv) || seen[k+"@"+x.Key()] {
			return
		}
		seen[k+"@"+x.Key()] = true
		for _, e := range ends {
			if e.key == k {
				out = append(out, Mul(IntN(e.sign), Sub(x, e.off)), Mul(IntN(e.sign), Sub(Sub(x, IntN(1)), e.off)))
			}
		}
	}
	for _, t := range focus {
		deep(t, visit)
	}
	for _, l := range g.lits {
		l.deep(visit)
	}
	for _, a := range g.eqAtoms() {
		deep(a, visit)
		deep(g.eqs[a], visit)
	}
	return out
}

func inst1(v *Atom, t Num) substF {
	return func(a *Atom) (Term, bool) {
		if a == v {
			return t, true
		}
		return nil, false
	}
}

var instCap = 40

// instantiate adds instances of quantified facts; true when something was added.
func (g *Facts) instantiate(focus []Term, depth int) bool {
	if len(g.qs) == 0 {
		return false
	}
	near := g.near(focus)
	sels := g.sels(focus, near)
	before := len(g.lits) + len(g.eqs)
	type pending struct{ l Lit }
	var out []Lit
	for _, q := range g.qs {
		if near != nil {
			rel := len(q.arrs()) == 0
			for a := range q.arrs() {
				if near[a] {
					rel = true
				}
			}
			if !rel {
				continue
			}
		}
		if !q.pair {
			cand := map[string]Num{}
			var order []string
			add := func(n Num) {
				k := n.Key()
				if _, ok := cand[k]; !ok {
					cand[k] = n
					order = append(order, k)
				}
			}
			offs := selOffsets(q.body, qv)
			for _, arr := range sortedArrs(offs) {
				os := offs[arr]
				for _, idx := range sels[arr] {
					for _, o := range os {
						add(g.norm(Sub(idx, o)))
					}
				}
			}
			for _, x := range g.prefixTriggers(q.body, sels, focus) {
				add(g.norm(x))
			}
			if len(offs) == 0 {
				add(g.norm(q.lo))
				add(g.norm(Sub(q.hi, IntN(1))))
			}
			if len(order) > instCap {
				order = order[:instCap]
			}
			for _, k := range order {
				x := cand[k]
				l := g.normLit(q.body.at(qv, x))
				if l.op == LTrue || g.has[l.k] {
					continue
				}
				if !g.prove0(cmpLit("<=", q.lo, x)) || !g.prove0(cmpLit("<", x, q.hi)) {
					continue
				}
				ok := true
				for _, gd := range q.guards {
					if !g.prove0(gd.at(qv, x)) {
						ok = false
						break
					}
				}
				if ok {
					out = append(out, l)
				}
			}
		} else {
			offs := selOffsets(q.body, qv)
			for _, arr := range sortedArrs(offs) {
				idxs := sels[arr]
				n := 0
				for i := 0; i < len(idxs); i++ {
					for j := 0; j < len(idxs); j++ {
						if i == j || n > 60 {
							continue
						}
						a, b := idxs[i], idxs[j]
						two := func(at *Atom) (Term, bool) {
							if at == qv {
								return a, true
							}
							if at == rv {
								return b, true
							}
							return nil, false
						}
						l := g.normLit(q.body.subst(two))
						if l.op == LTrue || g.has[l.k] {
							continue
						}
						if l.op == LFalse {
							// same element: only meaningful when a < b
						}
						le := g.prove0(cmpLit("<=", a, b))
						if !le {
							continue
						}
						n++
						if !g.prove0(cmpLit("<=", q.lo, a)) || !g.prove0(cmpLit("<", b, q.hi)) {
							continue
						}
						if g.prove0(cmpLit("<", a, b)) {
							out = append(out, l)
						} else if l.op == LLt {
							out = append(out, numLit(LLe, l.n))
						} else if l.op == LLe {
							out = append(out, l)
						}
					}
				}
			}
		}
	}
	for _, l := range out {
		g.assume(l)
		if g.dead {
			return true
		}
	}
	return len(g.lits)+len(g.eqs) != before
}

// specialAtom finds a max/min/pos/abs/indicator atom in the focus or in the
// relevant facts to split on.
func (g *Facts) specialAtom(focus []Term) *Atom {
	var found *Atom
	visit := func(a *Atom) {
		if found != nil {
			return
		}
		if a.kind == KInd || (a.kind == KFn && (a.name == "max2" || a.name == "min2" || a.name == "pos" || a.name == "abs")) {
			if _, done := g.eqs[a]; !done {
				found = a
			}
		}
	}
	for _, t := range focus {
		if n, ok := t.(Num); ok {
			n = g.norm(n)
			n.atoms(visit)
		}
	}
	return found
}

func (g *Facts) splitSpecial(a *Atom, focus []Term, depth int) bool {
	var cases []struct {
		l Lit
		v Num
	}
	add := func(l Lit, v Num) {
		cases = append(cases, struct {
			l Lit
			v Num
		}{l, v})
	}
	switch {
	case a.kind == KInd:
		add(*a.lit, IntN(1))
		add(a.lit.Not(), IntN(0))
	case a.name == "max2":
		x, y := a.args[0].(Num), a.args[1].(Num)
		add(cmpLit(">=", x, y), x)
		add(cmpLit("<", x, y), y)
	case a.name == "min2":
		x, y := a.args[0].(Num), a.args[1].(Num)
		add(cmpLit("<=", x, y), x)
		add(cmpLit(">", x, y), y)
	case a.name == "pos":
		x := a.args[0].(Num)
		add(cmpLit(">", x, IntN(0)), x)
		add(cmpLit("<=", x, IntN(0)), IntN(0))
	case a.name == "abs":
		x := a.args[0].(Num)
		add(cmpLit(">=", x, IntN(0)), x)
		add(cmpLit("<", x, IntN(0)), Neg(x))
	}
	for _, c := range cases {
		h := g.clone()
		h.up = g
		h.assume(c.l)
		if h.dead {
			continue
		}
		h.addEq(a, c.v)
		if h.dead {
			continue
		}
		fc := append(append([]Term(nil), focus...), litTerms(c.l)...)
		if !h.refute(fc, depth-1) {
			return false
		}
	}
	return true
}

// proveQ: the facts entail a quantified fact (generalise over a fresh index).
func (f *Facts) proveQ(q QF) bool {
	if f.dead {
		return true
	}
	q = q.subst(f.sub())
	for _, o := range f.qs {
		if o.k == q.k {
			return true
		}
	}
	if q.body.op == LTrue {
		return true
	}
	x := freshSym("x", SInt)
	g := f.clone()
	g.assume(cmpLit("<=", q.lo, atomNum(x)))
	if !q.pair {
		g.assume(cmpLit("<", atomNum(x), q.hi))
		for _, gd := range q.guards {
			g.assume(gd.subst(inst1(qv, atomNum(x))))
		}
		return g.dead || g.proveCases(q.body.subst(inst1(qv, atomNum(x))), x)
	}
	y := freshSym("y", SInt)
	g.assume(cmpLit("<", atomNum(x), atomNum(y)))
	g.assume(cmpLit("<", atomNum(y), q.hi))
	body := q.body.subst(func(a *Atom) (Term, bool) {
		if a == qv {
			return atomNum(x), true
		}
		if a == rv {
			return atomNum(y), true
		}
		return nil, false
	})
	if g.dead {
		return true
	}
	if g.proveCases(body, x) {
		return true
	}
	return g.proveSplitPoints(body, []*Atom{x, y}, 2)
}

// proveCases proves body about index x, splitting x against the bounds of the
// quantified facts when the direct attempt fails.
func (g *Facts) proveCases(body Lit, x *Atom) bool {
	if g.prove(body) {
		return true
	}
	return g.proveSplitPoints(body, []*Atom{x}, 1)
}

func (g *Facts) proveSplitPoints(body Lit, xs []*Atom, depth int) bool {
	if g.dead || g.prove(body) {
		return true
	}
	if depth == 0 {
		return false
	}
	pts := map[string]Num{}
	var keys []string
	for _, q := range g.qs {
		for _, b := range []Num{q.lo, q.hi, Sub(q.hi, IntN(1))} {
			k := b.Key()
			if _, ok := pts[k]; !ok {
				pts[k] = b
				keys = append(keys, k)
			}
		}
	}
	for _, x := range xs {
		for _, k := range keys {
			p := pts[k]
			if occurs(p, x) {
				continue
			}
			xn := g.norm(atomNum(x))
			lt, ge := cmpLit("<", xn, p), cmpLit(">=", xn, p)
			if g.prove0(lt) || g.prove0(ge) {
				continue
			}
			a := g.clone()
			a.assume(lt)
			b := g.clone()
			b.assume(ge)
			if a.proveSplitPoints(body, xs, depth-1) && b.proveSplitPoints(body, xs, depth-1) {
				return true
			}
		}
	}
	return false
}
