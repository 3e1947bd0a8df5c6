package main

import (
	"math/big"
	mbits "math/bits"
	"sort"
)

// Fourier–Motzkin elimination over machine integers. Rows have integer
// coefficients with gcd one; whenever a coefficient would overflow the caller
// falls back to the arbitrary precision version.

type fmTerm struct {
	col int32
	c   int64
}

type fmRow struct {
	t      []fmTerm
	k      int64 // constant: sum t + k <= 0 (or < 0)
	strict bool
	h      uint64
}

var fmSlow int

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func mul64(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	neg := (a < 0) != (b < 0)
	x, y := uint64(a), uint64(b)
	if a < 0 {
		x = uint64(-a)
	}
	if b < 0 {
		y = uint64(-b)
	}
	hi, lo := mbits.Mul64(x, y)
	if hi != 0 || lo >= 1<<62 {
		return 0, false
	}
	if neg {
		return -int64(lo), true
	}
	return int64(lo), true
}

func (r *fmRow) normalise() {
	var g int64
	for _, t := range r.t {
		g = gcd64(g, t.c)
		if g == 1 {
			break
		}
	}
	if g != 1 {
		g = gcd64(g, r.k)
	}
	if g > 1 {
		for i := range r.t {
			r.t[i].c /= g
		}
		r.k /= g
	}
	h := uint64(14695981039346656037)
	for _, t := range r.t {
		h = (h ^ uint64(t.col)) * 1099511628211
		h = (h ^ uint64(t.c)) * 1099511628211
		h ^= h >> 29
	}
	r.h = h
}

// leftScale brings rows with the same direction to a comparable form: the
// coefficients divided by their gcd; the constant becomes k/g.
func (r *fmRow) sameDir(o *fmRow) bool {
	if len(r.t) != len(o.t) {
		return false
	}
	for i := range r.t {
		if r.t[i] != o.t[i] {
			return false
		}
	}
	return true
}

type fmSys struct {
	rows []*fmRow
	idx  map[uint64][]int
	bad  bool
}

// add inserts a row; reports a contradiction.
func (s *fmSys) add(r *fmRow) bool {
	if len(r.t) == 0 {
		return r.k > 0 || (r.k == 0 && r.strict)
	}
	r.normalise()
	for _, i := range s.idx[r.h] {
		o := s.rows[i]
		if o.sameDir(r) {
			if r.k > o.k || (r.k == o.k && r.strict) {
				s.rows[i] = r
			}
			return false
		}
	}
	s.idx[r.h] = append(s.idx[r.h], len(s.rows))
	s.rows = append(s.rows, r)
	return false
}

// combine eliminates col from a (positive coefficient ca) and b (negative cb).
func fmCombine(a, b *fmRow, ca, cb int64, col int32) (*fmRow, bool) {
	g := gcd64(ca, cb)
	fa, fb := -cb/g, ca/g // both positive
	r := &fmRow{strict: a.strict || b.strict, t: make([]fmTerm, 0, len(a.t)+len(b.t)-2)}
	x, ok1 := mul64(a.k, fa)
	y, ok2 := mul64(b.k, fb)
	if !ok1 || !ok2 {
		return nil, false
	}
	r.k = x + y
	if r.k >= 1<<62 || r.k <= -(1<<62) {
		return nil, false
	}
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j == len(b.t) || (i < len(a.t) && a.t[i].col < b.t[j].col):
			c, ok := mul64(a.t[i].c, fa)
			if !ok {
				return nil, false
			}
			r.t = append(r.t, fmTerm{a.t[i].col, c})
			i++
		case i == len(a.t) || b.t[j].col < a.t[i].col:
			c, ok := mul64(b.t[j].c, fb)
			if !ok {
				return nil, false
			}
			r.t = append(r.t, fmTerm{b.t[j].col, c})
			j++
		default:
			if a.t[i].col != col {
				c1, ok1 := mul64(a.t[i].c, fa)
				c2, ok2 := mul64(b.t[j].c, fb)
				if !ok1 || !ok2 {
					return nil, false
				}
				c := c1 + c2
				if c >= 1<<62 || c <= -(1<<62) {
					return nil, false
				}
				if c != 0 {
					r.t = append(r.t, fmTerm{a.t[i].col, c})
				}
			}
			i++
			j++
		}
	}
	return r, true
}

func (r *fmRow) coef(col int32) int64 {
	for _, t := range r.t {
		if t.col == col {
			return t.c
		}
		if t.col > col {
			break
		}
	}
	return 0
}

// unsatFast reports whether the constraints have no solution; ok is false when
// machine integers do not suffice.
func unsatFast(cs []lin) (res, ok bool) {
	cols := map[*Mono]int32{}
	var monos []*Mono
	for _, c := range cs {
		for _, t := range c.p {
			if t.m != monoOne {
				if _, ok := cols[t.m]; !ok {
					cols[t.m] = 0
					monos = append(monos, t.m)
				}
			}
		}
	}
	sort.Slice(monos, func(i, j int) bool { return monos[i].id < monos[j].id })
	for i, m := range monos {
		cols[m] = int32(i)
	}
	s := &fmSys{idx: map[uint64][]int{}}
	// huge constants (the sentinels of minimum and maximum searches) become
	// variables of their own, related by their order of magnitude only
	var hs []*big.Rat
	hugeCol := func(c *big.Rat) int {
		for i, h := range hs {
			if h.Num().CmpAbs(c.Num()) == 0 && h.Denom().Cmp(c.Denom()) == 0 {
				return i
			}
		}
		return -1
	}
	for _, c := range cs {
		for _, t := range c.p {
			if t.m == monoOne && isHuge(t.c) {
				if hugeCol(t.c) < 0 {
					hs = append(hs, new(big.Rat).Abs(t.c))
				}
			}
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Cmp(hs[j]) < 0 })
	for i, a := range hs {
		col := int32(len(monos) + i)
		if i == 0 {
			s.add(&fmRow{t: []fmTerm{{col, -1}}, k: 1 << 40})
		} else {
			q := floorRat(new(big.Rat).Quo(a, hs[i-1]))
			f := int64(1 << 20)
			if q.IsInt64() && q.Int64() < f {
				f = q.Int64()
			}
			s.add(&fmRow{t: []fmTerm{{col - 1, f}, {col, -1}}})
		}
	}
	ncols := len(monos) + len(hs)
	for _, c := range cs {
		d := int64(1)
		for _, t := range c.p {
			if t.m == monoOne && len(hs) > 0 && isHuge(t.c) {
				continue
			}
			if !t.c.Denom().IsInt64() || !t.c.Num().IsInt64() {
				return false, false
			}
			x := t.c.Denom().Int64()
			var ok bool
			d, ok = mul64(d/gcd64(d, x), x)
			if !ok {
				return false, false
			}
		}
		r := &fmRow{strict: c.strict}
		for _, t := range c.p {
			if t.m == monoOne && len(hs) > 0 && isHuge(t.c) {
				v := d
				if t.c.Sign() < 0 {
					v = -d
				}
				r.t = append(r.t, fmTerm{int32(len(monos) + hugeCol(t.c)), v})
				continue
			}
			v, ok := mul64(t.c.Num().Int64(), d/t.c.Denom().Int64())
			if !ok {
				return false, false
			}
			if v == 0 {
				continue
			}
			if t.m == monoOne {
				r.k = v
			} else {
				r.t = append(r.t, fmTerm{cols[t.m], v})
			}
		}
		sort.Slice(r.t, func(i, j int) bool { return r.t[i].col < r.t[j].col })
		if s.add(r) {
			return true, true
		}
	}
	pos := make([]int, ncols)
	neg := make([]int, ncols)
	for round := 0; round < 80; round++ {
		for i := range pos {
			pos[i], neg[i] = 0, 0
		}
		for _, r := range s.rows {
			for _, t := range r.t {
				if t.c > 0 {
					pos[t.col]++
				} else {
					neg[t.col]++
				}
			}
		}
		best, bs := -1, 0
		for i := range pos {
			if pos[i] == 0 && neg[i] == 0 {
				continue
			}
			sc := pos[i]*neg[i] - pos[i] - neg[i]
			if best < 0 || sc < bs {
				best, bs = i, sc
			}
		}
		if best < 0 {
			return false, true
		}
		if pos[best]*neg[best] > 900 {
			return false, true
		}
		col := int32(best)
		n := &fmSys{idx: map[uint64][]int{}}
		var ps, ns []*fmRow
		for _, r := range s.rows {
			switch c := r.coef(col); {
			case c > 0:
				ps = append(ps, r)
			case c < 0:
				ns = append(ns, r)
			default:
				n.idx[r.h] = append(n.idx[r.h], len(n.rows))
				n.rows = append(n.rows, r)
			}
		}
		if len(n.rows) == 0 && (len(ps) == 0 || len(ns) == 0) {
			return false, true
		}
		for _, a := range ps {
			ca := a.coef(col)
			for _, b := range ns {
				r, ok := fmCombine(a, b, ca, b.coef(col), col)
				if !ok {
					return false, false
				}
				if n.add(r) {
					return true, true
				}
			}
		}
		s = n
		if len(s.rows) > 900 {
			return false, true
		}
	}
	return false, true
}

func isHuge(r *big.Rat) bool {
	return r.Num().BitLen()-r.Denom().BitLen() > 900
}
