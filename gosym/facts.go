package main

// Cheap exact reasoning used before a solver is asked: finite domains for
// variables of at most 8 bits, and intervals learned from the path condition
// for wider machine integers. Both only strengthen what the path condition
// already implies, so an "unsat" from here is an "unsat" of the query.

import (
	"math/big"
	"math/bits"
)

type vmask [4]uint64

type bnd struct {
	ulo, uhi uint64
	slo, shi int64
}

type facts struct {
	dom   map[int32]*vmask
	multi map[int32]bool
	b     map[*Term]bnd
	lit   map[*Term]bool
}

func newFacts() *facts {
	return &facts{dom: map[int32]*vmask{}, multi: map[int32]bool{}, b: map[*Term]bnd{}, lit: map[*Term]bool{}}
}

// smallVar returns the only variable of t when it has at most 256 values.
func (ts *Terms) smallVar(t *Term) *Term {
	if len(t.vars) != 1 {
		return nil
	}
	v := ts.varsBy[int(t.vars[0])]
	if v == nil || v.w > 8 {
		return nil
	}
	return v
}

// truth tabulates a boolean term over its single small variable.
func (ts *Terms) truth(t *Term, v *Term) *vmask {
	if t.tt != nil {
		return t.tt
	}
	r := &vmask{}
	// combine tables where possible
	switch t.op {
	case OpNot:
		if len(t.a.vars) == 1 {
			a := ts.truth(t.a, v)
			for i := range r {
				r[i] = ^a[i]
			}
			ts.clip(r, v)
			t.tt = r
			return r
		}
	case OpAnd, OpOr:
		if len(t.a.vars) == 1 && len(t.b.vars) == 1 {
			a, b := ts.truth(t.a, v), ts.truth(t.b, v)
			for i := range r {
				if t.op == OpAnd {
					r[i] = a[i] & b[i]
				} else {
					r[i] = a[i] | b[i]
				}
			}
			t.tt = r
			return r
		}
	}
	t.tt = ts.tabulate(t, v)
	return t.tt
}

func (ts *Terms) clip(r *vmask, v *Term) {
	if v.w >= 8 {
		return
	}
	n := uint(2)
	if v.w > 0 {
		n = uint(1) << uint(v.w)
	}
	for i := range r {
		switch {
		case n <= uint(i)*64:
			r[i] = 0
		case n < uint(i+1)*64:
			r[i] &= 1<<(n&63) - 1
		}
	}
}

// tabulate evaluates t for every value of its only variable.
func (ts *Terms) tabulate(t *Term, v *Term) *vmask {
	r := &vmask{}
	n := uint64(2)
	if v.w > 0 {
		n = uint64(1) << uint(v.w)
	}
	model, gen := ts.model, ts.gen
	md := &Model{}
	val := new(big.Int)
	md.set(v.p, val)
	ts.model = md
	for x := uint64(0); x < n; x++ {
		val.SetUint64(x)
		ts.gctr++
		ts.gen = ts.gctr
		ts.eval(t)
		if t.eu != 0 {
			r[x>>6] |= 1 << (x & 63)
		}
	}
	ts.model, ts.gen = model, gen
	return r
}

func (p *Path) learn(t *Term) {
	f := p.facts
	ts := p.m.ts
	if v := ts.smallVar(t); v != nil {
		tt := ts.truth(t, v)
		d := f.dom[int32(v.p)]
		n := *tt
		if d != nil {
			for i := range n {
				n[i] &= d[i]
			}
		}
		f.dom[int32(v.p)] = &n
	} else if len(t.vars) > 1 {
		for _, v := range t.vars {
			f.multi[v] = true
		}
	}
	p.learnLit(t, true)
}

func (p *Path) learnLit(t *Term, val bool) {
	f := p.facts
	if t.op == OpNot {
		p.learnLit(t.a, !val)
		return
	}
	f.lit[t] = val
	switch t.op {
	case OpAnd:
		if val {
			p.learnLit(t.a, true)
			p.learnLit(t.b, true)
		}
	case OpOr:
		if !val {
			p.learnLit(t.a, false)
			p.learnLit(t.b, false)
		}
	case OpEq:
		if t.a.w == 0 || t.a.w > 64 {
			return
		}
		a, b := t.a, t.b
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op != OpConst {
			return
		}
		if val {
			p.narrow(a, b.u, b.u, signed64(b.u, b.w), signed64(b.u, b.w), 0)
		} else {
			// a value at the edge of an interval is cut off
			x := p.bound(a, 0)
			ulo, uhi, slo, shi := x.ulo, x.uhi, x.slo, x.shi
			s := signed64(b.u, b.w)
			if ulo == b.u && ulo < uhi {
				ulo++
			}
			if uhi == b.u && ulo < uhi {
				uhi--
			}
			if slo == s && slo < shi {
				slo++
			}
			if shi == s && slo < shi {
				shi--
			}
			p.narrow(a, ulo, uhi, slo, shi, 0)
		}
	case OpUlt, OpUle, OpSlt, OpSle:
		if t.a.w > 64 {
			return
		}
		a, b, strict := t.a, t.b, t.op == OpUlt || t.op == OpSlt
		if !val {
			a, b, strict = t.b, t.a, !strict
		}
		// a < b or a <= b
		x, y := p.bound(a, 0), p.bound(b, 0)
		if t.op == OpUlt || t.op == OpUle {
			hi, lo := y.uhi, x.ulo
			if strict {
				if hi == 0 || lo == ^uint64(0) {
					return
				}
				hi--
				lo++
			}
			p.narrow(a, x.ulo, min(hi, x.uhi), x.slo, x.shi, 0)
			p.narrow(b, max(lo, y.ulo), y.uhi, y.slo, y.shi, 0)
		} else {
			hi, lo := y.shi, x.slo
			if strict {
				if hi == -1<<63 || lo == 1<<63-1 {
					return
				}
				hi--
				lo++
			}
			p.narrow(a, x.ulo, x.uhi, x.slo, min(hi, x.shi), 0)
			p.narrow(b, y.ulo, y.uhi, max(lo, y.slo), y.shi, 0)
		}
	}
}

// narrow records bounds of t.
func (p *Path) narrow(t *Term, ulo, uhi uint64, slo, shi int64, depth int) {
	if t.op == OpConst || depth > 6 || t.w == 0 || t.w > 64 {
		return
	}
	x := p.bound(t, 0)
	n := bnd{max(x.ulo, ulo), min(x.uhi, uhi), max(x.slo, slo), min(x.shi, shi)}
	n = n.norm(t.w)
	if n == x {
		return
	}
	p.facts.b[t] = n
	switch t.op {
	case OpZext:
		if n.ulo <= mask64(t.a.w) {
			w := t.a.w
			p.narrow(t.a, n.ulo, min(n.uhi, mask64(w)), -1<<uint(w-1), 1<<uint(w-1)-1, depth+1)
		}
	case OpSext:
		p.narrow(t.a, 0, mask64(t.a.w), n.slo, n.shi, depth+1)
	case OpAdd:
		a, c := t.a, t.b
		if a.op == OpConst {
			a, c = c, a
		}
		if c.op != OpConst {
			return
		}
		k := signed64(c.u, c.w)
		ax := p.bound(a, 0)
		// only when the addition cannot wrap for any value of a
		lo, hi := ax.slo+k, ax.shi+k
		min64, max64 := int64(-1)<<uint(t.w-1), int64(uint64(1)<<uint(t.w-1)-1)
		if k >= 0 && (hi < ax.shi || hi > max64) || k < 0 && (lo > ax.slo || lo < min64) {
			return
		}
		slo, shi := max(n.slo, lo), min(n.shi, hi)
		if slo <= shi {
			p.narrow(a, 0, mask64(t.w), slo-k, shi-k, depth+1)
		}
	}
}

func (b bnd) norm(w int) bnd {
	half := uint64(1) << uint(w-1)
	if b.uhi < half {
		b.slo, b.shi = max(b.slo, int64(b.ulo)), min(b.shi, int64(b.uhi))
	} else if b.ulo >= half {
		b.slo, b.shi = max(b.slo, signed64(b.ulo, w)), min(b.shi, signed64(b.uhi, w))
	}
	if b.slo >= 0 {
		b.ulo, b.uhi = max(b.ulo, uint64(b.slo)), min(b.uhi, uint64(b.shi))
	} else if b.shi < 0 {
		b.ulo, b.uhi = max(b.ulo, uint64(b.slo)&mask64(w)), min(b.uhi, uint64(b.shi)&mask64(w))
	}
	return b
}

// bound returns bounds of a machine-word term under the facts.
func (p *Path) bound(t *Term, depth int) bnd {
	w := t.w
	x := bnd{t.lo, t.hi, int64(-1) << uint(w-1), int64(uint64(1)<<uint(w-1) - 1)}
	if t.op == OpConst {
		s := signed64(t.u, w)
		return bnd{t.u, t.u, s, s}
	}
	if f, ok := p.facts.b[t]; ok {
		x = bnd{max(x.ulo, f.ulo), min(x.uhi, f.uhi), max(x.slo, f.slo), min(x.shi, f.shi)}
	}
	x = x.norm(w)
	if depth > 8 || x.ulo == x.uhi {
		return x
	}
	var y bnd
	ok := true
	switch t.op {
	case OpVar:
		if w <= 8 {
			if d := p.facts.dom[int32(t.p)]; d != nil {
				lo, hi := d.lo(), d.hi()
				if lo <= hi {
					y = bnd{uint64(lo), uint64(hi), x.slo, x.shi}
					break
				}
			}
		}
		ok = false
	case OpZext:
		a := p.bound(t.a, depth+1)
		y = bnd{a.ulo, a.uhi, int64(-1) << uint(w-1), int64(uint64(1)<<uint(w-1) - 1)}
	case OpSext:
		a := p.bound(t.a, depth+1)
		y = bnd{0, mask64(w), a.slo, a.shi}
	case OpExtract:
		if t.q != 0 || t.a.w > 64 {
			ok = false
			break
		}
		a := p.bound(t.a, depth+1)
		if a.uhi > mask64(w) {
			ok = false
			break
		}
		y = bnd{a.ulo, a.uhi, x.slo, x.shi}
	case OpIte:
		if c, known := p.decideFacts(t.a, depth+1); known {
			if c {
				y = p.bound(t.b, depth+1)
			} else {
				y = p.bound(t.c, depth+1)
			}
		} else {
			a, b := p.bound(t.b, depth+1), p.bound(t.c, depth+1)
			y = bnd{min(a.ulo, b.ulo), max(a.uhi, b.uhi), min(a.slo, b.slo), max(a.shi, b.shi)}
		}
	case OpAdd:
		a, b := p.bound(t.a, depth+1), p.bound(t.b, depth+1)
		y = bnd{0, mask64(w), x.slo, x.shi}
		hi, c := bits.Add64(a.uhi, b.uhi, 0)
		if c == 0 && hi <= mask64(w) {
			y.ulo, y.uhi = a.ulo+b.ulo, hi
		}
		if w <= 62 || (a.slo > -1<<61 && b.slo > -1<<61 && a.shi < 1<<61 && b.shi < 1<<61) {
			lo, hi := a.slo+b.slo, a.shi+b.shi
			if lo >= int64(-1)<<uint(w-1) && hi <= int64(uint64(1)<<uint(w-1)-1) {
				y.slo, y.shi = lo, hi
			}
		}
	case OpSub:
		a, b := p.bound(t.a, depth+1), p.bound(t.b, depth+1)
		y = bnd{0, mask64(w), x.slo, x.shi}
		if a.ulo >= b.uhi {
			y.ulo, y.uhi = a.ulo-b.uhi, a.uhi-b.ulo
		}
		if a.slo > -1<<61 && b.slo > -1<<61 && a.shi < 1<<61 && b.shi < 1<<61 {
			lo, hi := a.slo-b.shi, a.shi-b.slo
			if lo >= int64(-1)<<uint(w-1) && hi <= int64(uint64(1)<<uint(w-1)-1) {
				y.slo, y.shi = lo, hi
			}
		}
	default:
		ok = false
	}
	if ok {
		x = bnd{max(x.ulo, y.ulo), min(x.uhi, y.uhi), max(x.slo, y.slo), min(x.shi, y.shi)}.norm(w)
	}
	return x
}

func (d *vmask) lo() int {
	for i, x := range d {
		if x != 0 {
			return i*64 + bits.TrailingZeros64(x)
		}
	}
	return 256
}

func (d *vmask) hi() int {
	for i := 3; i >= 0; i-- {
		if d[i] != 0 {
			return i*64 + 63 - bits.LeadingZeros64(d[i])
		}
	}
	return -1
}

// decideFacts evaluates a boolean under the facts.
func (p *Path) decideFacts(t *Term, depth int) (val, known bool) {
	if t.op == OpConst {
		return t.u == 1, true
	}
	if v, ok := p.facts.lit[t]; ok {
		return v, true
	}
	if depth > 8 {
		return false, false
	}
	switch t.op {
	case OpNot:
		v, k := p.decideFacts(t.a, depth+1)
		return !v, k
	case OpAnd:
		a, ka := p.decideFacts(t.a, depth+1)
		if ka && !a {
			return false, true
		}
		b, kb := p.decideFacts(t.b, depth+1)
		if kb && !b {
			return false, true
		}
		return true, ka && kb
	case OpOr:
		a, ka := p.decideFacts(t.a, depth+1)
		if ka && a {
			return true, true
		}
		b, kb := p.decideFacts(t.b, depth+1)
		if kb && b {
			return true, true
		}
		return false, ka && kb
	case OpIte:
		c, k := p.decideFacts(t.a, depth+1)
		if !k {
			return false, false
		}
		if c {
			return p.decideFacts(t.b, depth+1)
		}
		return p.decideFacts(t.c, depth+1)
	case OpEq:
		if t.a.w == 0 {
			a, ka := p.decideFacts(t.a, depth+1)
			if !ka {
				return false, false
			}
			b, kb := p.decideFacts(t.b, depth+1)
			return a == b, kb
		}
		if t.a.w > 64 {
			return false, false
		}
		x, y := p.bound(t.a, depth+1), p.bound(t.b, depth+1)
		if x.uhi < y.ulo || y.uhi < x.ulo || x.shi < y.slo || y.shi < x.slo {
			return false, true
		}
		if x.ulo == x.uhi && y.ulo == y.uhi && x.ulo == y.ulo {
			return true, true
		}
	case OpUlt, OpUle:
		if t.a.w > 64 {
			return false, false
		}
		x, y := p.bound(t.a, depth+1), p.bound(t.b, depth+1)
		if t.op == OpUlt {
			if x.uhi < y.ulo {
				return true, true
			}
			if x.ulo >= y.uhi {
				return false, true
			}
		} else {
			if x.uhi <= y.ulo {
				return true, true
			}
			if x.ulo > y.uhi {
				return false, true
			}
		}
	case OpSlt, OpSle:
		if t.a.w > 64 {
			return false, false
		}
		x, y := p.bound(t.a, depth+1), p.bound(t.b, depth+1)
		if t.op == OpSlt {
			if x.shi < y.slo {
				return true, true
			}
			if x.slo >= y.shi {
				return false, true
			}
		} else {
			if x.shi <= y.slo {
				return true, true
			}
			if x.slo > y.shi {
				return false, true
			}
		}
	}
	if v := p.m.ts.smallVar(t); v != nil {
		if d := p.facts.dom[int32(v.p)]; d != nil {
			tt := p.m.ts.truth(t, v)
			any, all := false, true
			for i := range tt {
				any = any || tt[i]&d[i] != 0
				all = all && d[i]&^tt[i] == 0
			}
			if !any {
				return false, true
			}
			if all {
				return true, true
			}
		}
	}
	return false, false
}

// quick answers a query without a solver when it can.
func (p *Path) quick(t *Term) (Result, *Model, bool) {
	if v, known := p.decideFacts(t, 0); known && !v {
		return Unsat, nil, true
	}
	ts := p.m.ts
	if v := ts.smallVar(t); v != nil {
		tt := *ts.truth(t, v)
		if d := p.facts.dom[int32(v.p)]; d != nil {
			for i := range tt {
				tt[i] &= d[i]
			}
		}
		if tt == (vmask{}) {
			return Unsat, nil, true
		}
		if !p.facts.multi[int32(v.p)] {
			// prefer printable values, for readable examples
			x := tt.lo()
			if v.w == 8 {
				for c := 'a'; c < 'a'+26; c++ {
					if tt[c>>6]&(1<<uint(c&63)) != 0 {
						x = int(c)
						break
					}
				}
			}
			nm := p.model.clone()
			nm.set(v.p, big.NewInt(int64(x)))
			return Sat, nm, true
		}
	}
	return Unknown, nil, false
}
