package main

// Normal forms for real-valued terms: polynomials over atoms (variable values,
// entries of operands, finite sums and products), with indicator atoms for
// conditions and polynomial exponents.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type fac struct {
	a *Term
	e *Poly // exponent
}

type mono struct {
	c *big.Rat
	f []fac
}

type Poly struct {
	m   map[string]*mono
	key string
}

func (p *Poly) String() string {
	if len(p.m) == 0 {
		return "0"
	}
	var ks []string
	for k := range p.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var s []string
	for _, k := range ks {
		m := p.m[k]
		var t []string
		if m.c.Cmp(big.NewRat(1, 1)) != 0 || len(m.f) == 0 {
			t = append(t, m.c.RatString())
		}
		for _, f := range m.f {
			x := f.a.String()
			if v, ok := f.e.isConst(); !ok || v.Cmp(big.NewRat(1, 1)) != 0 {
				x += "^(" + f.e.String() + ")"
			}
			t = append(t, x)
		}
		s = append(s, strings.Join(t, "·"))
	}
	return strings.Join(s, " + ")
}

func mkey(f []fac) string {
	var sb strings.Builder
	for _, x := range f {
		fmt.Fprintf(&sb, "%d^{%s};", x.a.id, x.e.Key())
	}
	return sb.String()
}

func (p *Poly) Key() string {
	if p.key != "" {
		return p.key
	}
	if len(p.m) == 0 {
		p.key = "0"
		return p.key
	}
	var ks []string
	for k, m := range p.m {
		ks = append(ks, m.c.RatString()+"*"+k)
	}
	sort.Strings(ks)
	p.key = strings.Join(ks, "+")
	return p.key
}

func (p *Poly) isZero() bool { return len(p.m) == 0 }

func (p *Poly) isConst() (*big.Rat, bool) {
	if len(p.m) == 0 {
		return new(big.Rat), true
	}
	if len(p.m) == 1 {
		if m, ok := p.m[""]; ok {
			return m.c, true
		}
	}
	return nil, false
}

func (p *Poly) single() *mono {
	if len(p.m) != 1 {
		return nil
	}
	for _, m := range p.m {
		return m
	}
	return nil
}

func (p *Poly) monos() []*mono {
	var ks []string
	for k := range p.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*mono
	for _, k := range ks {
		out = append(out, p.m[k])
	}
	return out
}

func pconst(r *big.Rat) *Poly {
	p := &Poly{m: map[string]*mono{}}
	if r.Sign() != 0 {
		p.m[""] = &mono{c: r}
	}
	return p
}
func pint(i int64) *Poly { return pconst(big.NewRat(i, 1)) }

func patom(a *Term) *Poly { return pmono(big.NewRat(1, 1), []fac{{a, pint(1)}}) }

func ppow(a *Term, e *Poly) *Poly {
	if e.isZero() {
		return pint(1)
	}
	return pmono(big.NewRat(1, 1), []fac{{a, e}})
}

func pmono(c *big.Rat, f []fac) *Poly {
	p := &Poly{m: map[string]*mono{}}
	p.addMono(c, f)
	return p
}

func (p *Poly) addMono(c *big.Rat, f []fac) {
	if c.Sign() == 0 {
		return
	}
	k := mkey(f)
	if o := p.m[k]; o != nil {
		s := new(big.Rat).Add(o.c, c)
		if s.Sign() == 0 {
			delete(p.m, k)
		} else {
			p.m[k] = &mono{c: s, f: o.f}
		}
		return
	}
	p.m[k] = &mono{c: c, f: f}
}

func padd(a, b *Poly, kb int64) *Poly {
	r := &Poly{m: make(map[string]*mono, len(a.m)+len(b.m))}
	for k, m := range a.m {
		r.m[k] = m
	}
	s := big.NewRat(kb, 1)
	for _, m := range b.m {
		r.addMono(new(big.Rat).Mul(m.c, s), m.f)
	}
	return r
}

// mulFac merges factor lists; nil means the product is identically zero.
func mulFac(a, b []fac) ([]fac, bool) {
	var out []fac
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i].a.id < b[j].a.id:
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j].a.id < a[i].a.id:
			out = append(out, b[j])
			j++
		default:
			if a[i].a.op == "ind" {
				out = append(out, a[i])
			} else if e := padd(a[i].e, b[j].e, 1); !e.isZero() {
				out = append(out, fac{a[i].a, e})
			}
			i++
			j++
		}
	}
	return out, zeroFacs(out)
}

// zeroFacs detects contradictory indicators and an atom that an indicator says is zero.
func zeroFacs(fs []fac) bool {
	for i, x := range fs {
		if x.a.op != "ind" {
			continue
		}
		c := x.a.args[0]
		for j, y := range fs {
			if i == j {
				continue
			}
			if y.a.op == "ind" && j > i && exclusive(c, y.a.args[0]) {
				return true
			}
			if c.op == "fz" && y.a == c.args[0] {
				return true
			}
		}
	}
	return false
}

func exclusive(a, b *Term) bool {
	if a.op == "typeis" && b.op == "typeis" && a.args[0] == b.args[0] {
		return concreteDiff(a, b)
	}
	if a.op == "eq0" && b.op == "eq0" {
		return constDiff(a.args[0], b.args[0])
	}
	return false
}

func pmul(a, b *Poly) *Poly {
	r := &Poly{m: map[string]*mono{}}
	for _, x := range a.m {
		for _, y := range b.m {
			f, z := mulFac(x.f, y.f)
			if z {
				continue
			}
			r.addMono(new(big.Rat).Mul(x.c, y.c), f)
		}
	}
	return r
}

func pscale(a *Poly, c *big.Rat) *Poly {
	r := &Poly{m: map[string]*mono{}}
	for _, x := range a.m {
		r.addMono(new(big.Rat).Mul(x.c, c), x.f)
	}
	return r
}

// pinv inverts a single monomial.
func pinv(a *Poly) *Poly {
	m := a.single()
	if m == nil {
		return nil
	}
	var f []fac
	for _, x := range m.f {
		if x.a.op == "ind" {
			return nil
		}
		f = append(f, fac{x.a, padd(pint(0), x.e, -1)})
	}
	return pmono(new(big.Rat).Inv(m.c), f)
}

// ---- encoding as terms (needed under binders) ----------------------------

func (T *Terms) PolyTerm(p *Poly) *Term {
	if m := p.single(); m != nil && len(m.f) == 1 && m.c.Cmp(big.NewRat(1, 1)) == 0 {
		if v, ok := m.f[0].e.isConst(); ok && v.Cmp(big.NewRat(1, 1)) == 0 {
			return m.f[0].a
		}
	}
	var ms []*Term
	for _, m := range p.monos() {
		var fs []*Term
		for _, f := range m.f {
			fs = append(fs, T.mk(Term{op: "pw", args: []*Term{f.a, T.PolyTerm(f.e)}}))
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
		ms = append(ms, T.mk(Term{op: "mono", name: m.c.RatString(), args: fs}))
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].id < ms[j].id })
	return T.mk(Term{op: "poly", args: ms})
}

// closeMono encodes a monomial under a binder on k, canonically.
func (T *Terms) closePoly(p *Poly, k *Term) *Term {
	var ms []*Term
	for _, m := range p.monos() {
		var fs []*Term
		for _, f := range m.f {
			fs = append(fs, T.mk(Term{op: "pw", args: []*Term{T.close(f.a, []*Term{k}), T.closePoly(f.e, k)}}))
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
		ms = append(ms, T.mk(Term{op: "mono", name: m.c.RatString(), args: fs}))
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].id < ms[j].id })
	return T.mk(Term{op: "poly", args: ms})
}

func (p *Poly) free(a *Term) bool {
	for _, m := range p.m {
		if monoFree(m, a) {
			return true
		}
	}
	return false
}

func monoFree(m *mono, a *Term) bool {
	for _, f := range m.f {
		if f.a.free[a] || f.e.free(a) {
			return true
		}
	}
	return false
}

// mapAtoms rebuilds a polynomial with atoms replaced by polynomials.
func (p *Poly) mapAtoms(T *Terms, f func(a *Term) *Poly) *Poly {
	r := pint(0)
	for _, m := range p.monos() {
		t := pconst(m.c)
		for _, x := range m.f {
			e := x.e.mapAtoms(T, f)
			t = pmul(t, T.ppowP(f(x.a), e))
		}
		r = padd(r, t, 1)
	}
	return r
}

// ppowP raises a polynomial to a possibly symbolic exponent.
func (T *Terms) ppowP(b *Poly, e *Poly) *Poly {
	if v, ok := e.isConst(); ok && v.IsInt() {
		n := v.Num().Int64()
		if n >= 0 && n <= 12 {
			r := pint(1)
			for i := int64(0); i < n; i++ {
				r = pmul(r, b)
			}
			return r
		}
	}
	if m := b.single(); m != nil {
		var fs []fac
		r := pint(1)
		if m.c.Cmp(big.NewRat(1, 1)) != 0 {
			if v, ok := e.isConst(); ok && v.IsInt() && v.Num().Int64() == -1 {
				r = pconst(new(big.Rat).Inv(m.c))
			} else {
				r = ppow(T.mk(Term{op: "pbox", args: []*Term{T.PolyTerm(pconst(m.c))}}), e)
			}
		}
		hasInd := false
		for _, x := range m.f {
			if x.a.op == "ind" {
				hasInd = true
			}
			fs = append(fs, fac{x.a, pmul(x.e, e)})
		}
		if !hasInd {
			return pmul(r, pmono(big.NewRat(1, 1), fs))
		}
	}
	// a selection between alternatives is raised alternative by alternative
	for _, m := range b.monos() {
		for _, x := range m.f {
			if x.a.op != "ind" {
				continue
			}
			i := patom(x.a)
			hi, lo := b.setAtom(x.a, 1), b.setAtom(x.a, 0)
			return padd(pmul(i, T.ppowP(hi, e)), pmul(padd(pint(1), i, -1), T.ppowP(lo, e)), 1)
		}
	}
	return ppow(T.mk(Term{op: "pbox", args: []*Term{T.PolyTerm(b)}}), e)
}

// setAtom replaces an indicator atom by a constant.
func (p *Poly) setAtom(a *Term, v int64) *Poly {
	r := pint(0)
	for _, m := range p.monos() {
		t := pconst(m.c)
		for _, x := range m.f {
			if x.a == a {
				t = pmul(t, pint(v))
				continue
			}
			t = pmul(t, pmono(big.NewRat(1, 1), []fac{x}))
		}
		r = padd(r, t, 1)
	}
	return r
}

func concreteDiff(a, b *Term) bool {
	if types.IsInterface(a.typ) || types.IsInterface(b.typ) {
		return false
	}
	return !types.Identical(a.typ, b.typ)
}

func constDiff(a, b *Term) bool {
	m := map[*Term]int64{}
	add := func(t *Term, k int64) int64 {
		if t.op == "lin" {
			for i, x := range t.args {
				m[x] += k * t.coefs[i]
			}
			return k * t.c0
		}
		m[t] += k
		return 0
	}
	c := add(a, 1) + add(b, -1)
	for _, v := range m {
		if v != 0 {
			return false
		}
	}
	return c != 0
}
