package main

// Terms of the abstract domain: rational functions over interned atoms
// (numeric terms) and atoms of other sorts (strings, booleans, opaque values).

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort uint8

const (
	SInt Sort = iota
	SReal
	SStr
	SBool
	SOpq
)

type AKind uint8

const (
	KSym    AKind = iota
	KConst        // string constant
	KSel          // element of a column array: arr[args[0]]
	KFn           // uninterpreted (or lazily simplified) function
	KBound        // bound variable of a binder
	KPrefix       // formal prefix sum: P(x+1) = P(x) + body(x)
	KOver         // max / min of body over [lo,hi)
	KFold         // left fold
	KInd          // indicator of a literal, 0 or 1
)

// Arr names an immutable column of leaf values.
type Arr struct {
	id   int
	name string
	sort Sort
	typ  types.Type
	view bool
	segs []seg // of a view
}

type Term interface{ Key() string }

type Atom struct {
	id    int
	key   string
	kind  AKind
	sort  Sort
	name  string
	arr   *Arr
	args  []Term
	lit   *Lit // KInd
	lvl   int  // binder level (KBound, KPrefix, KOver, KFold)
	maxLv int  // highest binder level inside
	typ   types.Type
	mono  *Mono
	clock bool
	deps  bits // ids of all atoms inside, itself included
}

type bits []uint64

func (b bits) has(i int) bool { return i>>6 < len(b) && b[i>>6]&(1<<(uint(i)&63)) != 0 }

func (b *bits) set(i int) {
	for len(*b) <= i>>6 {
		*b = append(*b, 0)
	}
	(*b)[i>>6] |= 1 << (uint(i) & 63)
}

func (b *bits) or(o bits) {
	for len(*b) < len(o) {
		*b = append(*b, 0)
	}
	for i, w := range o {
		(*b)[i] |= w
	}
}

func (b bits) meets(o bits) bool {
	n := len(b)
	if len(o) < n {
		n = len(o)
	}
	for i := 0; i < n; i++ {
		if b[i]&o[i] != 0 {
			return true
		}
	}
	return false
}

func (a *Atom) Key() string { return a.key }

type fac struct {
	a *Atom
	e int
}

type Mono struct {
	id  int
	f   []fac
	isI bool
}

type term struct {
	m *Mono
	c *big.Rat
}

type Poly []term

type Num struct {
	p, q Poly // q nil: 1
	k    *string
}

var (
	atomTab  = map[string]*Atom{}
	atomList []*Atom
	monoTab  = map[string]*Mono{}
	monoOne  = &Mono{id: 0, isI: true}
	monoCnt  = 1
	arrCnt   int
	symCnt   int
	ratOne   = big.NewRat(1, 1)
)

func internAtom(a *Atom, key string) *Atom {
	if o, ok := atomTab[key]; ok {
		return o
	}
	a.key = key
	a.id = len(atomList) + 1
	a.maxLv = 0
	up := func(l int) {
		if l > a.maxLv {
			a.maxLv = l
		}
	}
	for _, t := range a.args {
		up(termLvl(t))
	}
	if a.lit != nil {
		up(a.lit.lvl())
	}
	if a.kind == KBound || a.kind == KPrefix || a.kind == KOver || a.kind == KFold {
		up(a.lvl)
	}
	a.deps.set(a.id)
	inner := func(b *Atom) { a.deps.or(b.deps) }
	for _, t := range a.args {
		switch t := t.(type) {
		case Num:
			t.atoms(inner)
		case *Atom:
			inner(t)
		}
	}
	if a.lit != nil {
		a.lit.top(inner)
	}
	atomList = append(atomList, a)
	atomTab[key] = a
	return a
}

func termLvl(t Term) int {
	switch t := t.(type) {
	case *Atom:
		return t.maxLv
	case Num:
		return t.lvl()
	}
	return 0
}

func (n Num) lvl() int {
	l := 0
	n.atoms(func(a *Atom) {
		if a.maxLv > l {
			l = a.maxLv
		}
	})
	return l
}

// atoms visits the top-level atoms of n.
func (n Num) atoms(f func(*Atom)) {
	for _, p := range []Poly{n.p, n.q} {
		for _, t := range p {
			for _, x := range t.m.f {
				f(x.a)
			}
		}
	}
}

// deep visits all atoms of a term, including nested ones.
func deep(t Term, f func(*Atom)) {
	switch t := t.(type) {
	case Num:
		t.atoms(func(a *Atom) { deepAtom(a, f) })
	case *Atom:
		deepAtom(t, f)
	}
}

func deepAtom(a *Atom, f func(*Atom)) {
	f(a)
	for _, t := range a.args {
		deep(t, f)
	}
	if a.lit != nil {
		a.lit.deep(f)
	}
}

func monoOf(fs []fac) *Mono {
	if len(fs) == 0 {
		return monoOne
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].a.id < fs[j].a.id })
	var sb strings.Builder
	isI := true
	for _, x := range fs {
		sb.WriteString(strconv.Itoa(x.a.id))
		sb.WriteByte('^')
		sb.WriteString(strconv.Itoa(x.e))
		sb.WriteByte('.')
		if x.a.sort != SInt {
			isI = false
		}
	}
	k := sb.String()
	if m, ok := monoTab[k]; ok {
		return m
	}
	m := &Mono{id: monoCnt, f: append([]fac(nil), fs...), isI: isI}
	monoCnt++
	monoTab[k] = m
	return m
}

func mulMono(a, b *Mono) *Mono {
	if a == monoOne {
		return b
	}
	if b == monoOne {
		return a
	}
	var fs []fac
	fs = append(fs, a.f...)
outer:
	for _, x := range b.f {
		for i := range fs {
			if fs[i].a == x.a {
				fs[i].e += x.e
				continue outer
			}
		}
		fs = append(fs, x)
	}
	return monoOf(fs)
}

func addPoly(a, b Poly, s *big.Rat) Poly {
	// a + s*b
	var r Poly
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].m.id < b[j].m.id):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j].m.id < a[i].m.id:
			r = append(r, term{b[j].m, new(big.Rat).Mul(b[j].c, s)})
			j++
		default:
			c := new(big.Rat).Mul(b[j].c, s)
			c.Add(c, a[i].c)
			if c.Sign() != 0 {
				r = append(r, term{a[i].m, c})
			}
			i++
			j++
		}
	}
	return r
}

func mulPoly(a, b Poly) Poly {
	if len(a) == 1 && a[0].m == monoOne {
		return scalePoly(b, a[0].c)
	}
	if len(b) == 1 && b[0].m == monoOne {
		return scalePoly(a, b[0].c)
	}
	m := map[*Mono]*big.Rat{}
	for _, x := range a {
		for _, y := range b {
			mm := mulMono(x.m, y.m)
			c := new(big.Rat).Mul(x.c, y.c)
			if o, ok := m[mm]; ok {
				c.Add(c, o)
			}
			m[mm] = c
		}
	}
	return fromMap(m)
}

func fromMap(m map[*Mono]*big.Rat) Poly {
	var r Poly
	for k, c := range m {
		if c.Sign() != 0 {
			r = append(r, term{k, c})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].m.id < r[j].m.id })
	return r
}

func scalePoly(a Poly, s *big.Rat) Poly {
	if s.Sign() == 0 {
		return nil
	}
	r := make(Poly, len(a))
	for i, t := range a {
		r[i] = term{t.m, new(big.Rat).Mul(t.c, s)}
	}
	return r
}

func (p Poly) isConst() (*big.Rat, bool) {
	if len(p) == 0 {
		return new(big.Rat), true
	}
	if len(p) == 1 && p[0].m == monoOne {
		return p[0].c, true
	}
	return nil, false
}

func polyKey(p Poly) string {
	var sb strings.Builder
	for _, t := range p {
		sb.WriteString(strconv.Itoa(t.m.id))
		sb.WriteByte('*')
		sb.WriteString(t.c.RatString())
		sb.WriteByte('+')
	}
	return sb.String()
}

func polyEq(a, b Poly) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].m != b[i].m || a[i].c.Cmp(b[i].c) != 0 {
			return false
		}
	}
	return true
}

func mk(p, q Poly) Num {
	if q != nil {
		if c, ok := q.isConst(); ok {
			if c.Sign() == 0 {
				// division by the constant zero: an opaque value
				return atomNum(fnAtom("div0", SReal, Num{p: p}))
			}
			return Num{p: scalePoly(p, new(big.Rat).Inv(c))}
		}
		if len(p) == 0 {
			return Num{}
		}
		// cancel common monomial factors
		p, q = cancelMono(p, q)
		if c, ok := q.isConst(); ok {
			return Num{p: scalePoly(p, new(big.Rat).Inv(c))}
		}
		// exact division
		if d, ok := divPoly(p, q); ok {
			return Num{p: d}
		}
		// common factors of a one-variable denominator
		if g := contentGCD(p, q); g != nil {
			a, ok1 := divPoly(p, g)
			b, ok2 := divPoly(q, g)
			if ok1 && ok2 {
				p, q = a, b
				if c, ok := q.isConst(); ok {
					return Num{p: scalePoly(p, new(big.Rat).Inv(c))}
				}
			}
		}
		// leading coefficient of q is 1
		lc := q[len(q)-1].c
		if lc.Cmp(ratOne) != 0 {
			inv := new(big.Rat).Inv(lc)
			p, q = scalePoly(p, inv), scalePoly(q, inv)
		}
	}
	return Num{p: p, q: q}
}

func cancelMono(p, q Poly) (Poly, Poly) {
	common := map[*Atom]int{}
	first := true
	for _, pl := range []Poly{p, q} {
		for _, t := range pl {
			if first {
				for _, x := range t.m.f {
					common[x.a] = x.e
				}
				first = false
				continue
			}
			for a, e := range common {
				f := 0
				for _, x := range t.m.f {
					if x.a == a {
						f = x.e
					}
				}
				if f < e {
					if f == 0 {
						delete(common, a)
					} else {
						common[a] = f
					}
				}
			}
		}
	}
	if len(common) == 0 {
		return p, q
	}
	div := func(pl Poly) Poly {
		m := map[*Mono]*big.Rat{}
		for _, t := range pl {
			var fs []fac
			for _, x := range t.m.f {
				e := x.e - common[x.a]
				if e > 0 {
					fs = append(fs, fac{x.a, e})
				}
			}
			m[monoOf(fs)] = t.c
		}
		return fromMap(m)
	}
	return div(p), div(q)
}

// monomial order for division: by total degree then by factors
func monoDeg(m *Mono) int {
	d := 0
	for _, x := range m.f {
		d += x.e
	}
	return d
}

func monoLess(a, b *Mono) bool {
	da, db := monoDeg(a), monoDeg(b)
	if da != db {
		return da < db
	}
	// lexicographic on atom ids
	for i := 0; i < len(a.f) && i < len(b.f); i++ {
		if a.f[i].a.id != b.f[i].a.id {
			return a.f[i].a.id > b.f[i].a.id
		}
		if a.f[i].e != b.f[i].e {
			return a.f[i].e < b.f[i].e
		}
	}
	return len(a.f) < len(b.f)
}

func lead(p Poly) term {
	l := p[0]
	for _, t := range p[1:] {
		if monoLess(l.m, t.m) {
			l = t
		}
	}
	return l
}

func divMono(a, b *Mono) (*Mono, bool) {
	var fs []fac
	for _, x := range b.f {
		ok := false
		for _, y := range a.f {
			if y.a == x.a && y.e >= x.e {
				ok = true
			}
		}
		if !ok {
			return nil, false
		}
	}
	for _, y := range a.f {
		e := y.e
		for _, x := range b.f {
			if x.a == y.a {
				e -= x.e
			}
		}
		if e > 0 {
			fs = append(fs, fac{y.a, e})
		}
	}
	return monoOf(fs), true
}

func divPoly(p, q Poly) (Poly, bool) {
	var quo Poly
	rem := p
	lq := lead(q)
	for n := 0; len(rem) > 0; n++ {
		if n > 40 {
			return nil, false
		}
		lr := lead(rem)
		m, ok := divMono(lr.m, lq.m)
		if !ok {
			return nil, false
		}
		c := new(big.Rat).Quo(lr.c, lq.c)
		t := Poly{{m, c}}
		quo = addPoly(quo, t, ratOne)
		rem = addPoly(rem, mulPoly(t, q), big.NewRat(-1, 1))
	}
	return quo, true
}

func (n Num) Key() string {
	s := polyKey(n.p)
	if n.q != nil {
		s += "/" + polyKey(n.q)
	}
	return "(" + s + ")"
}

func atomNum(a *Atom) Num {
	if a.mono == nil {
		a.mono = monoOf([]fac{{a, 1}})
	}
	return Num{p: Poly{{a.mono, ratOne}}}
}

func IntN(i int64) Num {
	if i == 0 {
		return Num{}
	}
	return Num{p: Poly{{monoOne, big.NewRat(i, 1)}}}
}

func RatN(r *big.Rat) Num {
	if r.Sign() == 0 {
		return Num{}
	}
	return Num{p: Poly{{monoOne, new(big.Rat).Set(r)}}}
}

var one = Poly{{monoOne, ratOne}}

func qq(n Num) Poly {
	if n.q == nil {
		return one
	}
	return n.q
}

func Add(a, b Num) Num { return addS(a, b, ratOne) }
func Sub(a, b Num) Num { return addS(a, b, big.NewRat(-1, 1)) }

func addS(a, b Num, s *big.Rat) Num {
	if a.q == nil && b.q == nil {
		return Num{p: addPoly(a.p, b.p, s)}
	}
	if a.q != nil && b.q != nil && polyEq(a.q, b.q) {
		return mk(addPoly(a.p, b.p, s), a.q)
	}
	// one denominator a multiple of the other
	if d, ok := divPoly(qq(a), qq(b)); ok {
		return mk(addPoly(a.p, mulPoly(b.p, d), s), qq(a))
	}
	if d, ok := divPoly(qq(b), qq(a)); ok {
		return mk(addPoly(mulPoly(a.p, d), b.p, s), qq(b))
	}
	return mk(addPoly(mulPoly(a.p, qq(b)), mulPoly(b.p, qq(a)), s), mulPoly(qq(a), qq(b)))
}

func Mul(a, b Num) Num {
	if a.q == nil && b.q == nil {
		return Num{p: mulPoly(a.p, b.p)}
	}
	return mk(mulPoly(a.p, b.p), mulPoly(qq(a), qq(b)))
}

func Div(a, b Num) Num {
	return mk(mulPoly(a.p, qq(b)), mulPoly(qq(a), b.p))
}

func Neg(a Num) Num { return Num{p: scalePoly(a.p, big.NewRat(-1, 1)), q: a.q} }

func (n Num) Const() (*big.Rat, bool) {
	if n.q != nil {
		return nil, false
	}
	return n.p.isConst()
}

func (n Num) ConstInt() (int64, bool) {
	c, ok := n.Const()
	if !ok || !c.IsInt() || !c.Num().IsInt64() {
		return 0, false
	}
	return c.Num().Int64(), true
}

func (n Num) IsZero() bool { return len(n.p) == 0 }

func (n Num) isInt() bool {
	if n.q != nil {
		return false
	}
	for _, t := range n.p {
		if !t.m.isI || !t.c.IsInt() {
			return false
		}
	}
	return true
}

func NumEq(a, b Num) bool { return Sub(a, b).IsZero() }

// constant part
func (n Num) cst() *big.Rat {
	for _, t := range n.p {
		if t.m == monoOne {
			return t.c
		}
	}
	return new(big.Rat)
}

// linCoef returns the coefficient of atom a if n is linear in a (a occurs
// only as a degree-one monomial), and whether a occurs elsewhere at top level.
func (n Num) linCoef(a *Atom) (*big.Rat, bool) {
	c := new(big.Rat)
	for _, t := range n.p {
		for _, x := range t.m.f {
			if x.a == a {
				if len(t.m.f) != 1 || x.e != 1 {
					return nil, false
				}
				c = t.c
			}
		}
	}
	if n.q != nil {
		for _, t := range n.q {
			for _, x := range t.m.f {
				if x.a == a {
					return nil, false
				}
			}
		}
	}
	return c, true
}

func occurs(t Term, a *Atom) bool {
	switch t := t.(type) {
	case Num:
		for _, p := range [2]Poly{t.p, t.q} {
			for _, x := range p {
				for _, fc := range x.m.f {
					if fc.a.deps.has(a.id) {
						return true
					}
				}
			}
		}
	case *Atom:
		return t.deps.has(a.id)
	}
	return false
}

func (n Num) meets(m bits) bool {
	for _, p := range [2]Poly{n.p, n.q} {
		for _, x := range p {
			for _, fc := range x.m.f {
				if fc.a.deps.meets(m) {
					return true
				}
			}
		}
	}
	return false
}

// ---- atom constructors ----

func freshSym(name string, s Sort) *Atom {
	symCnt++
	a := &Atom{kind: KSym, sort: s, name: name + "'" + strconv.Itoa(symCnt)}
	return internAtom(a, "y:"+a.name)
}

func namedSym(name string, s Sort) *Atom {
	a := &Atom{kind: KSym, sort: s, name: name}
	return internAtom(a, fmt.Sprintf("y%d:%s", s, name))
}

func strConst(s string) *Atom {
	a := &Atom{kind: KConst, sort: SStr, name: s}
	return internAtom(a, "c:"+s)
}

func newArr(name string, s Sort, t types.Type) *Arr {
	arrCnt++
	return &Arr{id: arrCnt, name: name + "#" + strconv.Itoa(arrCnt), sort: s, typ: t}
}

var arrTab = map[string]*Arr{}

func namedArr(name string, s Sort, t types.Type) *Arr {
	if a, ok := arrTab[name]; ok {
		return a
	}
	a := newArr(name, s, t)
	arrTab[name] = a
	return a
}

func selAtom(arr *Arr, idx Num) *Atom {
	a := &Atom{kind: KSel, sort: arr.sort, arr: arr, args: []Term{idx}, typ: arr.typ, name: arr.name}
	return internAtom(a, "s:"+strconv.Itoa(arr.id)+"["+idx.Key()+"]")
}

func fnAtom(name string, s Sort, args ...Term) *Atom {
	var sb strings.Builder
	sb.WriteString("f:")
	sb.WriteString(name)
	sb.WriteByte('(')
	for _, t := range args {
		sb.WriteString(t.Key())
		sb.WriteByte(',')
	}
	sb.WriteByte(')')
	sb.WriteByte(byte('0' + s))
	return internAtom(&Atom{kind: KFn, sort: s, name: name, args: args}, sb.String())
}

func boundAtom(lvl int) *Atom {
	return internAtom(&Atom{kind: KBound, sort: SInt, lvl: lvl, name: "k" + strconv.Itoa(lvl)}, "b:"+strconv.Itoa(lvl))
}

func boundPrev(lvl int) *Atom {
	return internAtom(&Atom{kind: KBound, sort: SReal, lvl: lvl, name: "prev" + strconv.Itoa(lvl)}, "bp:"+strconv.Itoa(lvl))
}

func indAtom(l Lit) Num {
	switch l.constVal() {
	case 1:
		return IntN(1)
	case 0:
		return IntN(0)
	}
	return atomNum(internAtom(&Atom{kind: KInd, sort: SInt, lit: &l}, "i:"+l.Key()))
}

// abstractVar turns term body, in which atom v stands for the index, into a
// body over the bound variable of a fresh level, shifted so that the first
// array access is at the bound variable itself. The returned shift r satisfies
// body(v) == canon[k := v + r].
func abstractVar(body Num, v *Atom) (canon Num, lvl int, r Num) {
	lvl = body.lvl() + 1
	k := boundAtom(lvl)
	// find canonical selector
	var best *Atom
	var bestR Num
	deep(body, func(a *Atom) {
		if a.kind == KSel {
			idx := a.args[0].(Num)
			c, ok := idx.linCoef(v)
			if ok && c.Cmp(ratOne) == 0 {
				rest := Sub(idx, atomNum(v))
				if best == nil || a.arr.id < best.arr.id || (a.arr.id == best.arr.id && lessNum(bestR, rest)) {
					best, bestR = a, rest
				}
			}
		}
	})
	if best == nil || occurs(bestR, v) {
		bestR = Num{}
	}
	r = bestR
	canon = SubstNum(body, func(a *Atom) (Term, bool) {
		if a == v {
			return Sub(atomNum(k), r), true
		}
		return nil, false
	})
	return
}

// lessNum orders index offsets: numerically where the difference is constant,
// otherwise by key. It is used only to pick a canonical representative.
func lessNum(a, b Num) bool {
	if c, ok := Sub(a, b).Const(); ok {
		return c.Sign() < 0
	}
	return a.Key() < b.Key()
}

// SumN is the formal sum of body (over atom v) for v in [lo,hi).
func SumN(body Num, v *Atom, lo, hi Num) Num {
	if body.IsZero() {
		return Num{}
	}
	if !occurs(body, v) {
		return Mul(body, Sub(hi, lo))
	}
	if body.q == nil && len(body.p) > 1 {
		// linearity: sum term by term
		res := Num{}
		for _, t := range body.p {
			res = Add(res, SumN(Num{p: Poly{t}}, v, lo, hi))
		}
		return res
	}
	// pull out factors that do not depend on v
	if body.q == nil && len(body.p) == 1 {
		t := body.p[0]
		var in, out []fac
		for _, x := range t.m.f {
			if occurs(x.a, v) {
				in = append(in, x)
			} else {
				out = append(out, x)
			}
		}
		if len(out) > 0 || t.c.Cmp(ratOne) != 0 {
			f := Num{p: Poly{{monoOf(out), t.c}}}
			return Mul(f, SumN(Num{p: Poly{{monoOf(in), ratOne}}}, v, lo, hi))
		}
	}
	if descending(body, v) {
		// v = -w, w in [1-hi, 1-lo)
		b := SubstNum(body, inst1(v, Neg(atomNum(v))))
		return SumN(b, v, Sub(IntN(1), hi), Sub(IntN(1), lo))
	}
	canon, lvl, r := abstractVar(body, v)
	return Sub(prefixN(canon, lvl, Add(hi, r)), prefixN(canon, lvl, Add(lo, r)))
}

// descending: array elements are selected at indices falling with v.
func descending(body Num, v *Atom) bool {
	pos, neg := false, false
	deep(body, func(a *Atom) {
		if a.kind == KSel {
			if c, ok := a.args[0].(Num).linCoef(v); ok {
				pos = pos || c.Sign() > 0
				neg = neg || c.Sign() < 0
			}
		}
	})
	return neg && !pos
}

func instBound(body Num, lvl int, x Num) Num {
	k := boundAtom(lvl)
	return SubstNum(body, func(a *Atom) (Term, bool) {
		if a == k {
			return x, true
		}
		return nil, false
	})
}

func prefixN(canon Num, lvl int, x Num) Num {
	// normalise the constant offset of x to zero
	c := x.cst()
	if x.isInt() && c.IsInt() && c.Sign() != 0 && c.Num().IsInt64() {
		n := c.Num().Int64()
		if n >= -12 && n <= 12 {
			base := Sub(x, IntN(n))
			res := prefixAtom(canon, lvl, base)
			for i := int64(0); i < n; i++ {
				res = Add(res, instBound(canon, lvl, Add(base, IntN(i))))
			}
			for i := int64(-1); i >= n; i-- {
				res = Sub(res, instBound(canon, lvl, Add(base, IntN(i))))
			}
			return res
		}
	}
	return prefixAtom(canon, lvl, x)
}

func prefixAtom(canon Num, lvl int, x Num) Num {
	s := SReal
	if canon.isInt() {
		s = SInt
	}
	a := &Atom{kind: KPrefix, sort: s, lvl: lvl, args: []Term{canon, x}, name: "P"}
	return atomNum(internAtom(a, fmt.Sprintf("P%d:%s@%s", lvl, canon.Key(), x.Key())))
}

// OverN is max/min ("max","min") of body over v in [lo,hi).
func OverN(op string, body Num, v *Atom, lo, hi Num) Num {
	if descending(body, v) {
		b := SubstNum(body, inst1(v, Neg(atomNum(v))))
		return OverN(op, b, v, Sub(IntN(1), hi), Sub(IntN(1), lo))
	}
	canon, lvl, r := abstractVar(body, v)
	return overN(op, canon, lvl, Add(lo, r), Add(hi, r))
}

func overN(op string, canon Num, lvl int, lo, hi Num) Num {
	if d, ok := Sub(hi, lo).ConstInt(); ok && d >= 1 && d <= 8 {
		res := instBound(canon, lvl, lo)
		for i := int64(1); i < d; i++ {
			res = max2(op, res, instBound(canon, lvl, Add(lo, IntN(i))))
		}
		return res
	}
	s := SReal
	if canon.isInt() {
		s = SInt
	}
	a := &Atom{kind: KOver, sort: s, lvl: lvl, name: op, args: []Term{canon, lo, hi}}
	return atomNum(internAtom(a, fmt.Sprintf("O%s%d:%s@%s,%s", op, lvl, canon.Key(), lo.Key(), hi.Key())))
}

func max2(op string, a, b Num) Num {
	if NumEq(a, b) {
		return a
	}
	if c, ok := Sub(a, b).Const(); ok {
		if (c.Sign() > 0) == (op == "max") {
			return a
		}
		return b
	}
	if a.Key() > b.Key() {
		a, b = b, a
	}
	s := SReal
	if a.isInt() && b.isInt() {
		s = SInt
	}
	return atomNum(fnAtom(op+"2", s, a, b))
}

// FoldN: left fold with body over (prev, v), after n steps from index base.
func FoldN(init, body Num, prev, v *Atom, base, n Num) Num {
	// canonical body over bound variables
	b1, lvl, r := abstractVar(body, v)
	kp := boundPrev(lvl)
	b2 := SubstNum(b1, func(a *Atom) (Term, bool) {
		if a == prev {
			return atomNum(kp), true
		}
		return nil, false
	})
	return foldN(init, b2, lvl, Add(base, r), n)
}

func foldN(init, canon Num, lvl int, base, n Num) Num {
	c := n.cst()
	if n.isInt() && c.IsInt() && c.Sign() > 0 && c.Num().IsInt64() && c.Num().Int64() <= 12 {
		k := c.Num().Int64()
		m := Sub(n, IntN(k))
		res := foldN(init, canon, lvl, base, m)
		for i := int64(0); i < k; i++ {
			idx := Add(base, Add(m, IntN(i)))
			prev := res
			res = SubstNum(canon, func(a *Atom) (Term, bool) {
				if a == boundAtom(lvl) {
					return idx, true
				}
				if a == boundPrev(lvl) {
					return prev, true
				}
				return nil, false
			})
		}
		return res
	}
	if n.IsZero() {
		return init
	}
	a := &Atom{kind: KFold, sort: SReal, lvl: lvl, args: []Term{init, canon, base, n}, name: "Fold"}
	return atomNum(internAtom(a, fmt.Sprintf("F%d:%s@%s@%s@%s", lvl, init.Key(), canon.Key(), base.Key(), n.Key())))
}

func absN(x Num) Num {
	if c, ok := x.Const(); ok {
		return RatN(new(big.Rat).Abs(c))
	}
	y := Neg(x)
	if y.Key() < x.Key() {
		x = y
	}
	s := SReal
	if x.isInt() {
		s = SInt
	}
	return atomNum(fnAtom("abs", s, x))
}

func posN(x Num) Num {
	if c, ok := x.Const(); ok {
		if c.Sign() > 0 {
			return x
		}
		return Num{}
	}
	return atomNum(fnAtom("pos", SReal, x))
}

func concatS(parts ...*Atom) *Atom {
	var flat []Term
	var add func(a *Atom)
	add = func(a *Atom) {
		if a.kind == KFn && a.name == "concat" {
			for _, t := range a.args {
				add(t.(*Atom))
			}
			return
		}
		if a.kind == KConst {
			if a.name == "" {
				return
			}
			if len(flat) > 0 {
				if l := flat[len(flat)-1].(*Atom); l.kind == KConst {
					flat[len(flat)-1] = strConst(l.name + a.name)
					return
				}
			}
		}
		flat = append(flat, a)
	}
	for _, p := range parts {
		add(p)
	}
	if len(flat) == 0 {
		return strConst("")
	}
	if len(flat) == 1 {
		return flat[0].(*Atom)
	}
	return fnAtom("concat", SStr, flat...)
}

// ---- substitution ----

type substF func(*Atom) (Term, bool)

// curMask restricts the running substitution to terms that contain one of
// its atoms.
var curMask bits

func masked(m bits, g func()) {
	old := curMask
	curMask = m
	g()
	curMask = old
}

func SubstNum(n Num, f substF) (r Num) {
	masked(nil, func() { r = substNumR(n, f) })
	return
}

func substTerm(t Term, f substF) (r Term) {
	masked(nil, func() { r = substTermR(t, f) })
	return
}

func substAtom(a *Atom, f substF) (r Term) {
	masked(nil, func() { r = substAtomR(a, f) })
	return
}

func substNumR(n Num, f substF) Num {
	if curMask != nil && !n.meets(curMask) {
		return n
	}
	changed := false
	memo := map[*Atom]Num{}
	n.atoms(func(a *Atom) {
		if _, ok := memo[a]; ok {
			return
		}
		t := substAtomR(a, f)
		if m, ok := t.(Num); ok {
			memo[a] = m
		} else {
			memo[a] = atomNum(t.(*Atom))
		}
		if !(len(memo[a].p) == 1 && memo[a].q == nil && a.mono != nil && memo[a].p[0].m == a.mono && memo[a].p[0].c.Cmp(ratOne) == 0) {
			changed = true
		}
	})
	if !changed {
		return n
	}
	ev := func(p Poly) Num {
		res := Num{}
		for _, t := range p {
			x := RatN(t.c)
			for _, fc := range t.m.f {
				for i := 0; i < fc.e; i++ {
					x = Mul(x, memo[fc.a])
				}
			}
			res = Add(res, x)
		}
		return res
	}
	r := ev(n.p)
	if n.q != nil {
		return Div(r, ev(n.q))
	}
	return r
}

func substTermR(t Term, f substF) Term {
	switch t := t.(type) {
	case Num:
		return substNumR(t, f)
	case *Atom:
		return substAtomR(t, f)
	}
	return t
}

func substAtomR(a *Atom, f substF) Term {
	if curMask != nil && !a.deps.meets(curMask) {
		return wrapA(a)
	}
	if r, ok := f(a); ok {
		return r
	}
	if len(a.args) == 0 && a.lit == nil {
		return wrapA(a)
	}
	if a.kind == KInd {
		return indAtom(a.lit.substR(f))
	}
	args := make([]Term, len(a.args))
	ch := false
	for i, t := range a.args {
		args[i] = substTermR(t, f)
		if args[i].Key() != t.Key() {
			ch = true
		}
	}
	if !ch {
		return wrapA(a)
	}
	switch a.kind {
	case KSel:
		return wrapA(selAtom(a.arr, args[0].(Num)))
	case KPrefix:
		// the body may capture nothing: bound levels are disjoint from f's domain
		return rebuildPrefix(args[0].(Num), a.lvl, args[1].(Num))
	case KOver:
		return rebuildOver(a.name, args[0].(Num), a.lvl, args[1].(Num), args[2].(Num))
	case KFold:
		return foldN(args[0].(Num), args[1].(Num), a.lvl, args[2].(Num), args[3].(Num))
	case KFn:
		return rebuildFn(a.name, a.sort, args)
	}
	return wrapA(a)
}

// After substitution the body of a binder may contain binders of other levels
// (or offsets); renormalise by abstracting again over a temporary symbol.
func rebuildPrefix(body Num, lvl int, x Num) Num {
	v := namedSym("$pv", SInt)
	b := instBound(body, lvl, atomNum(v))
	canon, l2, r := abstractVar(b, v)
	return prefixN(canon, l2, Add(x, r))
}

func rebuildOver(op string, body Num, lvl int, lo, hi Num) Num {
	v := namedSym("$pv", SInt)
	b := instBound(body, lvl, atomNum(v))
	canon, l2, r := abstractVar(b, v)
	return overN(op, canon, l2, Add(lo, r), Add(hi, r))
}

func rebuildFn(name string, s Sort, args []Term) Term {
	switch name {
	case "concat":
		var ps []*Atom
		for _, t := range args {
			ps = append(ps, t.(*Atom))
		}
		return concatS(ps...)
	case "len":
		return lenOf(args[0].(*Atom))
	case "max2", "min2":
		return max2(name[:3], args[0].(Num), args[1].(Num))
	case "abs":
		return absN(args[0].(Num))
	case "pos":
		return posN(args[0].(Num))
	case "idiv":
		return idivN(args[0].(Num), args[1].(Num))
	case "imod":
		return imodN(args[0].(Num), args[1].(Num))
	}
	return wrapA(fnAtom(name, s, args...))
}

func wrapA(a *Atom) Term {
	if a.sort == SInt || a.sort == SReal {
		return atomNum(a)
	}
	return a
}

func idivN(a, b Num) Num {
	x, ok1 := a.ConstInt()
	y, ok2 := b.ConstInt()
	if ok1 && ok2 && y != 0 {
		return IntN(x / y)
	}
	if (ok2 && y == 1) || a.IsZero() {
		return a
	}
	return atomNum(fnAtom("idiv", SInt, a, b))
}

func imodN(a, b Num) Num {
	x, ok1 := a.ConstInt()
	y, ok2 := b.ConstInt()
	if ok1 && ok2 && y != 0 {
		return IntN(x % y)
	}
	if (ok2 && (y == 1 || y == -1)) || a.IsZero() {
		return Num{}
	}
	return atomNum(fnAtom("imod", SInt, a, b))
}

// ---- printing ----

func (a *Atom) String() string {
	switch a.kind {
	case KSym:
		return a.name
	case KConst:
		return strconv.Quote(a.name)
	case KSel:
		return fmt.Sprintf("%s[%v]", a.arr.name, a.args[0])
	case KBound:
		return a.name
	case KPrefix:
		return fmt.Sprintf("Σ{%v}<%v", a.args[0], a.args[1])
	case KOver:
		return fmt.Sprintf("%s{%v | %v..%v}", a.name, a.args[0], a.args[1], a.args[2])
	case KFold:
		return fmt.Sprintf("fold{%v; %v; from %v; %v steps}", a.args[0], a.args[1], a.args[2], a.args[3])
	case KInd:
		return fmt.Sprintf("[%v]", *a.lit)
	}
	var s []string
	for _, t := range a.args {
		s = append(s, fmt.Sprint(t))
	}
	return a.name + "(" + strings.Join(s, ", ") + ")"
}

func (p Poly) String() string {
	if len(p) == 0 {
		return "0"
	}
	var sb strings.Builder
	for i, t := range p {
		c := t.c
		if i > 0 {
			if c.Sign() < 0 {
				sb.WriteString(" - ")
				c = new(big.Rat).Neg(c)
			} else {
				sb.WriteString(" + ")
			}
		}
		if t.m == monoOne {
			sb.WriteString(ratStr(c))
			continue
		}
		if c.Cmp(ratOne) != 0 {
			if c.Cmp(big.NewRat(-1, 1)) == 0 {
				sb.WriteString("-")
			} else {
				sb.WriteString(ratStr(c) + "*")
			}
		}
		for j, x := range t.m.f {
			if j > 0 {
				sb.WriteByte('*')
			}
			sb.WriteString(x.a.String())
			if x.e > 1 {
				sb.WriteString("^" + strconv.Itoa(x.e))
			}
		}
	}
	return sb.String()
}

func ratStr(c *big.Rat) string {
	if c.IsInt() && len(c.Num().String()) > 20 {
		f, _ := c.Float64()
		return fmt.Sprintf("%g", f)
	}
	return c.RatString()
}

func (n Num) String() string {
	if n.q == nil {
		return n.p.String()
	}
	return "(" + n.p.String() + ")/(" + n.q.String() + ")"
}

// contentGCD gives the common factor of p and a polynomial q in one variable,
// nil when there is none (or q has several variables).
func contentGCD(p, q Poly) Poly {
	var x *Atom
	for _, t := range q {
		for _, f := range t.m.f {
			if x == nil {
				x = f.a
			} else if x != f.a {
				return nil
			}
		}
	}
	if x == nil {
		return nil
	}
	coef := map[*Mono][]*big.Rat{}
	g := uniOf(q, x)
	for _, t := range p {
		var fs []fac
		d := 0
		for _, f := range t.m.f {
			if f.a == x {
				d = f.e
			} else {
				fs = append(fs, f)
			}
		}
		if d > 12 {
			return nil
		}
		m := monoOf(fs)
		c := coef[m]
		for len(c) <= d {
			c = append(c, new(big.Rat))
		}
		c[d] = new(big.Rat).Add(c[d], t.c)
		coef[m] = c
	}
	for _, c := range coef {
		g = uniGCD(g, c)
		if len(g) <= 1 {
			return nil
		}
	}
	// back to a polynomial
	var r Poly
	xn := atomNum(x).p
	pw := one
	for _, c := range g {
		if c.Sign() != 0 {
			r = addPoly(r, pw, c)
		}
		pw = mulPoly(pw, xn)
	}
	return r
}

func uniOf(q Poly, x *Atom) []*big.Rat {
	var c []*big.Rat
	for _, t := range q {
		d := 0
		for _, f := range t.m.f {
			d = f.e
		}
		for len(c) <= d {
			c = append(c, new(big.Rat))
		}
		c[d] = t.c
	}
	return c
}

// uniGCD is Euclid's algorithm on coefficient lists (lowest degree first).
func uniGCD(a, b []*big.Rat) []*big.Rat {
	trim := func(c []*big.Rat) []*big.Rat {
		for len(c) > 0 && c[len(c)-1].Sign() == 0 {
			c = c[:len(c)-1]
		}
		return c
	}
	a, b = trim(a), trim(b)
	for len(b) > 0 {
		r := append([]*big.Rat(nil), a...)
		for len(r) >= len(b) {
			k := new(big.Rat).Quo(r[len(r)-1], b[len(b)-1])
			d := len(r) - len(b)
			for i := range b {
				r[d+i] = new(big.Rat).Sub(r[d+i], new(big.Rat).Mul(k, b[i]))
			}
			r = trim(r[:len(r)-1])
		}
		a, b = b, trim(r)
	}
	return a
}
