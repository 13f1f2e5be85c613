package main

// Mode R: rational normal forms, canonical terms, symbolic derivatives, and
// the axioms that go with uninterpreted functions in every mode.

import (
	"encoding/binary"
	"math"
	"math/big"
	"sort"
)

// A Laurent polynomial: monomial key -> coefficient. A key is a sequence of
// (atom id, exponent) pairs, 4+4 bytes each, sorted by atom id.
type Poly map[string]*big.Rat

// RF is a rational function: a Laurent polynomial over atoms, where the inverse
// of a polynomial P of several terms is an atom of its own (invs maps it to P,
// which contains no such atoms). Such atoms never have negative exponents.
type RF struct {
	n   Poly
	big bool // too large; n is the single opaque atom
}

const maxMono = 6000

type polyBig struct{}

func pConst(r *big.Rat) Poly {
	if r.Sign() == 0 {
		return Poly{}
	}
	return Poly{"": r}
}

type fac struct{ id, e int32 }

func decode(k string) []fac {
	out := make([]fac, len(k)/8)
	for i := range out {
		out[i] = fac{int32(binary.BigEndian.Uint32([]byte(k[8*i : 8*i+4]))), int32(binary.BigEndian.Uint32([]byte(k[8*i+4 : 8*i+8])))}
	}
	return out
}

func encode(fs []fac) string {
	buf := make([]byte, 0, 8*len(fs))
	for _, f := range fs {
		if f.e == 0 {
			continue
		}
		var t [8]byte
		binary.BigEndian.PutUint32(t[:4], uint32(f.id))
		binary.BigEndian.PutUint32(t[4:], uint32(f.e))
		buf = append(buf, t[:]...)
	}
	return string(buf)
}

func mulKey(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	x, y := decode(a), decode(b)
	out := make([]fac, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) || j < len(y) {
		switch {
		case j == len(y) || (i < len(x) && x[i].id < y[j].id):
			out = append(out, x[i])
			i++
		case i == len(x) || y[j].id < x[i].id:
			out = append(out, y[j])
			j++
		default:
			out = append(out, fac{x[i].id, x[i].e + y[j].e})
			i++
			j++
		}
	}
	return encode(out)
}

func invKey(k string) string {
	fs := decode(k)
	for i := range fs {
		fs[i].e = -fs[i].e
	}
	return encode(fs)
}

func (p Poly) add(k string, c *big.Rat) {
	if o, ok := p[k]; ok {
		s := new(big.Rat).Add(o, c)
		if s.Sign() == 0 {
			delete(p, k)
		} else {
			p[k] = s
		}
	} else if c.Sign() != 0 {
		p[k] = c
	}
}

func pAdd(a, b Poly) Poly {
	out := make(Poly, len(a)+len(b))
	for k, c := range a {
		out[k] = c
	}
	for k, c := range b {
		out.add(k, c)
	}
	if len(out) > maxMono {
		panic(polyBig{})
	}
	return out
}

func pMul(a, b Poly) Poly {
	if len(a)*len(b) > 40*maxMono {
		panic(polyBig{})
	}
	out := make(Poly, len(a)*len(b))
	for k1, c1 := range a {
		for k2, c2 := range b {
			out.add(mulKey(k1, k2), new(big.Rat).Mul(c1, c2))
		}
	}
	if len(out) > maxMono {
		panic(polyBig{})
	}
	return out
}

func pScale(a Poly, k string, c *big.Rat) Poly {
	out := make(Poly, len(a))
	for m, x := range a {
		out[mulKey(m, k)] = new(big.Rat).Mul(x, c)
	}
	return out
}

func pEq(a, b Poly) bool {
	if len(a) != len(b) {
		return false
	}
	for k, c := range a {
		o, ok := b[k]
		if !ok || o.Cmp(c) != 0 {
			return false
		}
	}
	return true
}

func (p Poly) keys() []string {
	ks := make([]string, 0, len(p))
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// lexicographic order of monomials by exponents, smallest atom id first
func monoCmp(a, b string) int {
	fa, fb := decode(a), decode(b)
	i, j := 0, 0
	for i < len(fa) || j < len(fb) {
		switch {
		case j >= len(fb) || i < len(fa) && fa[i].id < fb[j].id:
			if fa[i].e > 0 {
				return 1
			} else if fa[i].e < 0 {
				return -1
			}
			i++
		case i >= len(fa) || fb[j].id < fa[i].id:
			if fb[j].e > 0 {
				return -1
			} else if fb[j].e < 0 {
				return 1
			}
			j++
		default:
			if fa[i].e != fb[j].e {
				if fa[i].e > fb[j].e {
					return 1
				}
				return -1
			}
			i++
			j++
		}
	}
	return 0
}

func (p Poly) ends() (lead, tail string) {
	first := true
	for k := range p {
		if first {
			lead, tail, first = k, k, false
			continue
		}
		if monoCmp(k, lead) > 0 {
			lead = k
		}
		if monoCmp(k, tail) < 0 {
			tail = k
		}
	}
	return
}

// pDiv is the exact quotient c/d of Laurent polynomials, if there is one.
func pDiv(c, d Poly) (Poly, bool) {
	if len(c) == 0 {
		return Poly{}, true
	}
	if len(c) > 800 || len(d) > 200 {
		return nil, false
	}
	dl, dt := d.ends()
	_, ct := c.ends()
	last := mulKey(ct, invKey(dt))
	inv := invKey(dl)
	li := new(big.Rat).Inv(d[dl])
	rem := make(Poly, len(c))
	for k, v := range c {
		rem[k] = v
	}
	q := Poly{}
	for steps := 0; len(rem) > 0; steps++ {
		rl, _ := rem.ends()
		k := mulKey(rl, inv)
		if steps > 400 || len(rem) > 2000 || monoCmp(k, last) < 0 {
			return nil, false
		}
		x := new(big.Rat).Mul(rem[rl], li)
		q[k] = x
		nx := new(big.Rat).Neg(x)
		for m, v := range d {
			rem.add(mulKey(k, m), new(big.Rat).Mul(nx, v))
		}
	}
	return q, true
}

// maxInv lists the inverse atoms of p with their largest exponents.
func (b *Builder) maxInv(p Poly) map[int32]int32 {
	if len(b.invs) == 0 {
		return nil
	}
	var m map[int32]int32
	for k := range p {
		for _, f := range decode(k) {
			if _, ok := b.invs[f.id]; ok && f.e > 0 {
				if m == nil {
					m = map[int32]int32{}
				}
				if f.e > m[f.id] {
					m[f.id] = f.e
				}
			}
		}
	}
	return m
}

func atomExp(k string, id int32) int32 {
	for _, f := range decode(k) {
		if f.id == id {
			return f.e
		}
	}
	return 0
}

func sortedIDs(m map[int32]int32) []int32 {
	var ids []int32
	for id := range m {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

func pPow(p Poly, e int32) Poly {
	r := Poly{"": big.NewRat(1, 1)}
	for ; e > 0; e-- {
		r = pMul(r, p)
	}
	return r
}

// clear multiplies p by powers of the denominators until no inverse atom is
// left, and returns that factor too.
func (b *Builder) clear(p Poly) (Poly, Poly) {
	f := Poly{"": big.NewRat(1, 1)}
	mi := b.maxInv(p)
	for _, id := range sortedIDs(mi) {
		k := mi[id]
		P := b.invs[id]
		pw := make([]Poly, k+1)
		for e := int32(0); e <= k; e++ {
			pw[e] = pPow(P, e)
		}
		out := Poly{}
		for m, c := range p {
			e := atomExp(m, id)
			base := mulKey(m, encode([]fac{{id, -e}}))
			for m2, c2 := range pw[k-e] {
				out.add(mulKey(base, m2), new(big.Rat).Mul(c, c2))
			}
			if len(out) > maxMono {
				panic(polyBig{})
			}
		}
		p = out
		f = pMul(f, pw[k])
	}
	return p, f
}

// collapse cancels denominators where a coefficient is a multiple of one.
func (b *Builder) collapse(p Poly) Poly {
	mi := b.maxInv(p)
	for _, id := range sortedIDs(mi) {
		P := b.invs[id]
		for k := mi[id]; k > 0; k-- {
			c := Poly{}
			key := encode([]fac{{id, -k}})
			for m, v := range p {
				if atomExp(m, id) == k {
					c[mulKey(m, key)] = v
				}
			}
			if len(c) < len(P) {
				continue
			}
			q, ok := pDiv(c, P)
			if !ok {
				continue
			}
			out := make(Poly, len(p))
			for m, v := range p {
				if atomExp(m, id) != k {
					out[m] = v
				}
			}
			low := encode([]fac{{id, k - 1}})
			if k == 1 {
				low = ""
			}
			for m, v := range q {
				out.add(mulKey(m, low), v)
			}
			p = out
		}
	}
	return p
}

// content splits p into coefficient, monomial and a normalised polynomial.
func content(p Poly) (*big.Rat, string, Poly) {
	mn := map[int32]int32{}
	first := true
	for k := range p {
		cur := map[int32]int32{}
		for _, f := range decode(k) {
			cur[f.id] = f.e
		}
		if first {
			for id, e := range cur {
				mn[id] = e
			}
			first = false
			continue
		}
		for id, e := range mn {
			if cur[id] < e {
				mn[id] = cur[id]
			}
		}
		for id, e := range cur {
			if _, ok := mn[id]; !ok && e < 0 {
				mn[id] = e
			}
		}
	}
	var fs []fac
	for id, e := range mn {
		if e != 0 {
			fs = append(fs, fac{id, e})
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	mono := encode(fs)
	ks := p.keys()
	lead := p[ks[0]]
	return lead, mono, pScale(p, invKey(mono), new(big.Rat).Inv(lead))
}

func (b *Builder) rAdd(x, y *RF) *RF { return &RF{n: b.collapse(pAdd(x.n, y.n))} }

func (b *Builder) rMul(x, y *RF) *RF {
	n := pMul(x.n, y.n)
	if len(x.n) > 1 || len(y.n) > 1 {
		n = b.collapse(n)
	}
	return &RF{n: n}
}

func (b *Builder) rInv(x *RF) *RF {
	if len(x.n) == 0 {
		panic(engErr{kind: "nonreal", msg: "division by zero"})
	}
	p, f := b.clear(x.n)
	if len(p) == 0 {
		panic(engErr{kind: "nonreal", msg: "division by zero"})
	}
	c, mono, P := content(p)
	r := &RF{n: pScale(f, invKey(mono), new(big.Rat).Inv(c))}
	// powers of known denominators
	for _, id := range b.invIDs {
		for len(P) > 1 && len(b.invs[id]) <= len(P) {
			q, ok := pDiv(P, b.invs[id])
			if !ok {
				break
			}
			c, mono, q2 := content(q)
			r = b.rMul(r, &RF{n: Poly{mulKey(encode([]fac{{id, 1}}), invKey(mono)): new(big.Rat).Inv(c)}})
			P = q2
		}
	}
	if len(P) > 1 {
		at := b.mk(OFDiv, fS, 0, "", b.Rat(big.NewRat(1, 1)), b.polyTerm(P))
		if _, ok := b.invs[at.id]; !ok {
			b.invs[at.id] = P
			b.atoms[at.id] = at
			b.invIDs = append(b.invIDs, at.id)
			b.nf[at] = &RF{n: Poly{encode([]fac{{at.id, 1}}): big.NewRat(1, 1)}}
		}
		r = b.rMul(r, &RF{n: Poly{encode([]fac{{at.id, 1}}): big.NewRat(1, 1)}})
	}
	return r
}

func rNeg(a *RF) *RF { return &RF{n: pScale(a.n, "", big.NewRat(-1, 1))} }

// isZero decides whether a normal form is identically zero.
func (b *Builder) isZero(p Poly) (zero bool) {
	if len(p) == 0 {
		return true
	}
	if len(b.maxInv(p)) == 0 || b.phash(p) != 0 {
		return false
	}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(polyBig); ok {
				zero = false
				return
			}
			panic(e)
		}
	}()
	// groups of terms connected by shared inverse atoms, each cleared alone
	for _, g := range b.groups(p) {
		if b.phash(g) != 0 {
			// not separable: clear everything
			q, _ := b.clear(p)
			return len(q) == 0
		}
	}
	for _, g := range b.groups(p) {
		if q, _ := b.clear(g); len(q) != 0 {
			return false
		}
	}
	return true
}

func (b *Builder) groups(p Poly) []Poly {
	parent := map[int32]int32{}
	var find func(x int32) int32
	find = func(x int32) int32 {
		if y, ok := parent[x]; ok && y != x {
			r := find(y)
			parent[x] = r
			return r
		}
		parent[x] = x
		return x
	}
	first := map[string]int32{}
	for k := range p {
		root := int32(0)
		for _, f := range decode(k) {
			if _, ok := b.invs[f.id]; ok {
				if root == 0 {
					root = find(f.id)
				} else {
					parent[find(f.id)] = root
					root = find(root)
				}
			}
		}
		first[k] = root
	}
	by := map[int32]Poly{}
	for k, c := range p {
		r := first[k]
		if r != 0 {
			r = find(r)
		}
		if by[r] == nil {
			by[r] = Poly{}
		}
		by[r][k] = c
	}
	var out []Poly
	for _, g := range by {
		out = append(out, g)
	}
	return out
}

func (b *Builder) atomRF(t *Term) *RF {
	b.atoms[t.id] = t
	return &RF{n: Poly{encode([]fac{{t.id, 1}}): big.NewRat(1, 1)}}
}

func (b *Builder) RFof(t *Term) *RF {
	if r, ok := b.nf[t]; ok {
		return r
	}
	r := b.rf1(t)
	b.nf[t] = r
	return r
}

func (b *Builder) rf1(t *Term) (r *RF) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(polyBig); ok {
				r = b.atomRF(t)
				r.big = true
				return
			}
			panic(e)
		}
	}()
	switch t.op {
	case OConst:
		return &RF{n: pConst(t.rat)}
	case OFAdd:
		return b.redSqrt(b.rAdd(b.RFof(t.a[0]), b.RFof(t.a[1])))
	case OFMul:
		return b.redSqrt(b.rMul(b.RFof(t.a[0]), b.RFof(t.a[1])))
	case OFDiv:
		return b.redSqrt(b.rMul(b.RFof(t.a[0]), b.rInv(b.RFof(t.a[1]))))
	case OFNeg:
		return rNeg(b.RFof(t.a[0]))
	case OFUF:
		if t.name == "exp" {
			if r := b.expRF(b.RFof(t.a[0])); r != nil {
				return r
			}
		}
	case OIte:
		x, y := b.Canon(t.a[1]), b.Canon(t.a[2])
		u := b.Ite(t.a[0], x, y)
		if u.op != OIte {
			return b.RFof(u)
		}
		return b.atomRF(u)
	}
	return b.atomRF(t)
}

// expRF splits exp of a polynomial with integer coefficients into powers.
func (b *Builder) expRF(a *RF) *RF {
	if len(a.n) > 12 {
		return nil
	}
	var fs []fac
	for k, c := range a.n {
		e, cc := int64(1), c
		if c.IsInt() && c.Num().IsInt64() && c.Num().Int64() > -20 && c.Num().Int64() < 20 {
			e, cc = c.Num().Int64(), big.NewRat(1, 1)
		} else if c.Sign() < 0 {
			e, cc = -1, new(big.Rat).Neg(c)
		}
		at := b.mk(OFUF, fS, 0, "exp", b.polyTerm(Poly{k: cc}))
		b.atoms[at.id] = at
		fs = append(fs, fac{at.id, int32(e)})
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	// merge duplicates
	out := fs[:0]
	for _, f := range fs {
		if len(out) > 0 && out[len(out)-1].id == f.id {
			out[len(out)-1].e += f.e
		} else {
			out = append(out, f)
		}
	}
	return &RF{n: Poly{encode(out): big.NewRat(1, 1)}}
}

// redSqrt replaces even powers of square roots.
func (b *Builder) redSqrt(r *RF) *RF {
	if !b.hasSqrt {
		return r
	}
	for round := 0; round < 4; round++ {
		changed := false
		red := func(p Poly) *RF {
			acc := &RF{n: Poly{}}
			for k, c := range p {
				var rest []fac
				var m *RF
				for _, f := range decode(k) {
					t := b.atoms[f.id]
					if t.op == OFSqrt && (f.e >= 2 || f.e <= -2) {
						changed = true
						h := f.e / 2
						arg := b.RFof(t.a[0])
						if h < 0 {
							arg = b.rInv(arg)
							h = -h
						}
						for i := int32(0); i < h; i++ {
							if m == nil {
								m = arg
							} else {
								m = b.rMul(m, arg)
							}
						}
						f.e = f.e % 2
					}
					rest = append(rest, f)
				}
				x := &RF{n: Poly{encode(rest): c}}
				if m != nil {
					x = b.rMul(x, m)
				}
				acc = b.rAdd(acc, x)
			}
			return acc
		}
		n := red(r.n)
		if !changed {
			return r
		}
		r = n
	}
	return r
}

func (b *Builder) polyTerm(p Poly) *Term {
	var out *Term
	for _, k := range p.keys() {
		var num, den *Term
		for _, f := range decode(k) {
			t := b.atoms[f.id]
			e := f.e
			if e < 0 {
				e = -e
			}
			for i := int32(0); i < e; i++ {
				if f.e > 0 {
					if num == nil {
						num = t
					} else {
						num = b.mk(OFMul, fS, 0, "", num, t)
					}
				} else if den == nil {
					den = t
				} else {
					den = b.mk(OFMul, fS, 0, "", den, t)
				}
			}
		}
		c := b.Rat(p[k])
		m := c
		if num != nil {
			m = num
			if !b.isF(c, 1) {
				m = b.mk(OFMul, fS, 0, "", num, c)
			}
		}
		if den != nil {
			m = b.mk(OFDiv, fS, 0, "", m, den)
		}
		if out == nil {
			out = m
		} else {
			out = b.mk(OFAdd, fS, 0, "", out, m)
		}
	}
	if out == nil {
		return b.Rat(new(big.Rat))
	}
	return out
}

const prime = (1 << 61) - 1

func mulmod(a, b uint64) uint64 {
	var x, y, m big.Int
	x.SetUint64(a)
	y.SetUint64(b)
	m.SetUint64(prime)
	x.Mul(&x, &y).Mod(&x, &m)
	return x.Uint64()
}

func powmod(a uint64, e uint64) uint64 {
	r := uint64(1)
	for e > 0 {
		if e&1 == 1 {
			r = mulmod(r, a)
		}
		a = mulmod(a, a)
		e >>= 1
	}
	return r
}

func invmod(a uint64) uint64 { return powmod(a, prime-2) }

func atomHash(id int32) uint64 {
	x := uint64(id)*0x9e3779b97f4a7c15 + 0x1234567
	x ^= x >> 31
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 29
	return x%(prime-2) + 2
}

// phash evaluates p at a pseudo-random point modulo a prime. Inverse atoms get
// the inverse of their polynomial's value, so equal functions hash alike.
func (b *Builder) phash(p Poly) uint64 {
	h := uint64(0)
	var m big.Int
	m.SetUint64(prime)
	for k, c := range p {
		n := new(big.Int).Mod(c.Num(), &m).Uint64()
		d := new(big.Int).Mod(c.Denom(), &m).Uint64()
		v := mulmod(n, invmod(d))
		for _, f := range decode(k) {
			a, ok := b.invHash[f.id]
			if !ok {
				if P, is := b.invs[f.id]; is {
					a = invmod(b.phash(P))
				} else {
					a = atomHash(f.id)
				}
				b.invHash[f.id] = a
			}
			e := f.e
			if e < 0 {
				a, e = invmod(a), -e
			}
			v = mulmod(v, powmod(a, uint64(e)))
		}
		h = (h + v) % prime
	}
	return h
}

// rEq decides equality of two normal forms.
func (b *Builder) rEq(x, y *RF) (eq bool) {
	if pEq(x.n, y.n) {
		return true
	}
	if len(x.n)+len(y.n) > maxMono {
		return false
	}
	return b.isZero(pAdd(x.n, pScale(y.n, "", big.NewRat(-1, 1))))
}

// Canon returns the representative term of all terms with the same normal form.
func (b *Builder) Canon(t *Term) *Term {
	if b.mode != R || t.s.K != SF || t.op == OConst || t.op == OVar {
		return t
	}
	if c, ok := b.canonOf[t]; ok {
		return c
	}
	r := b.RFof(t)
	if len(b.maxInv(r.n)) == 0 {
		c := b.polyTerm(r.n)
		b.canonOf[t] = c
		return c
	}
	h := b.phash(r.n)
	for _, c := range b.reps[h] {
		if b.rEq(b.nf[c], r) {
			b.canonOf[t] = c
			return c
		}
	}
	c := b.fracTerm(r)
	b.nf[c] = r
	b.reps[h] = append(b.reps[h], c)
	b.canonOf[t] = c
	return c
}

func (b *Builder) iteConds(t *Term, set map[*Term]bool, seen map[*Term]bool) {
	if seen[t] || len(set) > 8 {
		return
	}
	seen[t] = true
	if t.op == OIte {
		set[t.a[0]] = true
	}
	for _, x := range t.a {
		b.iteConds(x, set, seen)
	}
}

// subst rebuilds t with boolean terms replaced by constants.
func (b *Builder) substBool(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.a) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	a := make([]*Term, len(t.a))
	same := true
	for i, x := range t.a {
		a[i] = b.substBool(x, m, memo)
		if a[i] != x {
			same = false
		}
	}
	r := t
	if !same {
		sv := b.assume
		b.assume = nil
		r = b.rebuild(t, a)
		b.assume = sv
	}
	memo[t] = r
	return r
}

func (b *Builder) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case ONot:
		return b.Not(a[0])
	case OAnd:
		return b.And(a[0], a[1])
	case OIte:
		return b.Ite(a[0], a[1], a[2])
	case OFAdd:
		return b.FAdd(a[0], a[1])
	case OFMul:
		return b.FMul(a[0], a[1])
	case OFDiv:
		return b.FDiv(a[0], a[1])
	case OFNeg:
		return b.FNeg(a[0])
	case OFLt:
		return b.FLt(a[0], a[1])
	case OFSqrt:
		return b.FSqrt(a[0])
	case OFUF:
		return b.UF(t.name, a...)
	case OEq:
		return b.Eq(a[0], a[1])
	}
	return b.mk(t.op, t.s, t.c, t.name, a...)
}

// zeroUnder decides whether d is zero where the conditions have the values
// given. Divisions by zero are left out: a denominator is assumed not to be zero
// when a division is met.
func (b *Builder) zeroUnder(d *Term, mp map[*Term]*Term) (zero bool) {
	sv := b.assume
	defer func() {
		if e := recover(); e != nil {
			b.assume = sv
			if x, ok := e.(engErr); ok && x.kind == "nonreal" && x.msg == "division by zero" {
				zero = true
				return
			}
			panic(e)
		}
	}()
	rr := b.RFof(b.substBool(d, mp, map[*Term]*Term{}))
	return !rr.big && b.isZero(rr.n)
}

// eqR decides equality of two reals by normal form where it can.
func (b *Builder) eqR(x, y *Term) *Term {
	d := b.mkSubR(x, y)
	r := b.RFof(d)
	if !r.big {
		if b.isZero(r.n) {
			return b.True
		}
		if len(r.n) == 1 {
			if _, ok := r.n[""]; ok {
				return b.False
			}
		}
	}
	// case split on ite conditions
	if !b.noSplit {
		set := map[*Term]bool{}
		b.iteConds(d, set, map[*Term]bool{})
		if len(set) > 0 && len(set) <= 6 {
			var cs []*Term
			for c := range set {
				cs = append(cs, c)
			}
			sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
			all := true
			b.noSplit = true
			for m := 0; m < 1<<len(cs) && all; m++ {
				mp := map[*Term]*Term{}
				for i, c := range cs {
					mp[c] = b.Bool(m>>i&1 == 1)
				}
				if !b.zeroUnder(d, mp) {
					all = false
				}
			}
			b.noSplit = false
			if all {
				return b.True
			}
		}
	}
	if r.big {
		return b.mk(OEq, bS, 0, "", x, y)
	}
	n := b.polyTerm(clearNeg(b.tryClear(r.n)))
	return b.mk(OEq, bS, 0, "", n, b.Rat(new(big.Rat)))
}

func (b *Builder) tryClear(p Poly) (r Poly) {
	if len(b.maxInv(p)) == 0 {
		return p
	}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(polyBig); !ok {
				panic(e)
			}
			r = p
		}
	}()
	q, _ := b.clear(p)
	if len(q) > 200 {
		return p
	}
	return q
}

// fracTerm writes a normal form as one fraction where that is small.
func (b *Builder) fracTerm(r *RF) (t *Term) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(polyBig); !ok {
				panic(e)
			}
			t = b.polyTerm(r.n)
		}
	}()
	if len(b.maxInv(r.n)) == 0 {
		return b.polyTerm(r.n)
	}
	n, d := b.clear(r.n)
	if len(n) > 60 || len(d) > 60 {
		return b.polyTerm(r.n)
	}
	return b.mk(OFDiv, fS, 0, "", b.polyTerm(n), b.polyTerm(d))
}

// clearNeg multiplies by a monomial (non-zero by assumption) to remove negative exponents.
func clearNeg(p Poly) Poly {
	mn := map[int32]int32{}
	for k := range p {
		for _, f := range decode(k) {
			if f.e < 0 && f.e < mn[f.id] {
				mn[f.id] = f.e
			}
		}
	}
	if len(mn) == 0 {
		return p
	}
	var fs []fac
	for id, e := range mn {
		fs = append(fs, fac{id, -e})
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return pScale(p, encode(fs), big.NewRat(1, 1))
}

func (b *Builder) mkSubR(x, y *Term) *Term {
	return b.mk(OFAdd, fS, 0, "", x, b.mk(OFNeg, fS, 0, "", y))
}

// ltR builds 0 < y-x with a canonical right-hand side.
func (b *Builder) ltR(x, y *Term) *Term {
	r := b.RFof(b.mkSubR(y, x))
	zero := b.Rat(new(big.Rat))
	if r.big {
		return b.mk(OFLt, bS, 0, "", x, y)
	}
	if b.isZero(r.n) {
		return b.False
	}
	if len(b.maxInv(r.n)) > 0 {
		// keep exactness: compare the canonical fraction with zero
		t := b.mk(OFLt, bS, 0, "", zero, b.Canon(b.mkSubR(y, x)))
		if b.lins[t] == nil {
			b.lins[t] = b.linForm(r.n)
		}
		return t
	}
	if len(r.n) == 1 {
		if c, ok := r.n[""]; ok {
			return b.Bool(c.Sign() > 0)
		}
	}
	ks := r.n.keys()
	lead := new(big.Rat).Inv(new(big.Rat).Abs(r.n[ks[len(ks)-1]]))
	p := pScale(r.n, "", lead)
	// single exponential monomials are positive
	if len(p) == 1 {
		fs := decode(ks[0])
		pos := true
		for _, f := range fs {
			t := b.atoms[f.id]
			if !(t.op == OFUF && t.name == "exp") && f.e%2 != 0 {
				pos = false
			} else if !(t.op == OFUF && t.name == "exp") {
				pos = false // may be zero
			}
		}
		if pos {
			return b.Bool(p[ks[0]].Sign() > 0)
		}
	}
	return b.mk(OFLt, bS, 0, "", zero, b.polyTerm(p))
}

func (t *Term) dependsOn(v *Term, memo map[*Term]bool) bool {
	if t == v {
		return true
	}
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = false
	for _, x := range t.a {
		if x.dependsOn(v, memo) {
			memo[t] = true
			return true
		}
	}
	return false
}

// Deriv is the symbolic derivative of t with respect to the variable v.
func (b *Builder) Deriv(t, v *Term) *Term {
	dep := map[*Term]bool{}
	memo := map[*Term]*Term{}
	zero, one := b.Rat(new(big.Rat)), b.Rat(big.NewRat(1, 1))
	var d func(t *Term) *Term
	d = func(t *Term) *Term {
		if t == v {
			return one
		}
		if !t.dependsOn(v, dep) {
			return zero
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		switch t.op {
		case OFAdd:
			r = b.FAdd(d(t.a[0]), d(t.a[1]))
		case OFNeg:
			r = b.FNeg(d(t.a[0]))
		case OFMul:
			r = b.FAdd(b.FMul(d(t.a[0]), t.a[1]), b.FMul(t.a[0], d(t.a[1])))
		case OFDiv:
			// a'/b - a*b'/b^2
			r = b.FSub(b.FDiv(d(t.a[0]), t.a[1]), b.FDiv(b.FMul(t.a[0], d(t.a[1])), b.FMul(t.a[1], t.a[1])))
		case OIte:
			r = b.Ite(t.a[0], d(t.a[1]), d(t.a[2]))
		case OFSqrt:
			r = b.FDiv(d(t.a[0]), b.FMul(b.Float(2), t))
		case OFUF:
			switch t.name {
			case "exp":
				r = b.FMul(t, d(t.a[0]))
			case "log":
				r = b.FDiv(d(t.a[0]), t.a[0])
			case "log1p":
				r = b.FDiv(d(t.a[0]), b.FAdd(one, t.a[0]))
			case "expm1":
				r = b.FMul(b.FAdd(t, one), d(t.a[0]))
			case "tanh":
				r = b.FMul(b.FSub(one, b.FMul(t, t)), d(t.a[0]))
			case "pow":
				if !t.a[1].dependsOn(v, dep) {
					r = b.FMul(b.FMul(t.a[1], b.UF("pow", t.a[0], b.FSub(t.a[1], one))), d(t.a[0]))
				}
			}
		}
		if r == nil {
			unsupported("derivative of op %d %s", t.op, t.name)
		}
		memo[t] = r
		return r
	}
	return d(t)
}

// ---- axioms for opaque terms

func (b *Builder) axioms(t *Term) []*Term {
	if t.op == OMul {
		// a product that cannot wrap around is no smaller than its positive factors
		x, y := t.a[0], t.a[1]
		if !b.noWrap(OMul, x, y) || x.isConst() || y.isConst() {
			return nil
		}
		one := b.BV(1, t.s.W)
		bx, by := b.cmp(OSle, one, x), b.cmp(OSle, one, y)
		return []*Term{b.Or(b.Not(bx), b.Or(b.Not(by), b.And(b.cmp(OSle, x, t), b.cmp(OSle, y, t))))}
	}
	if b.mode == R {
		zero, one := b.Rat(new(big.Rat)), b.Rat(big.NewRat(1, 1))
		lt := func(x, y *Term) *Term { return b.mk(OFLt, bS, 0, "", x, y) }
		le := func(x, y *Term) *Term { return b.Not(lt(y, x)) }
		sub := func(x, y *Term) *Term { return b.mkSubR(x, y) }
		switch t.op {
		case OFSqrt:
			return []*Term{le(zero, t), b.Or(lt(t.a[0], zero), b.mk(OEq, bS, 0, "", b.mk(OFMul, fS, 0, "", t, t), t.a[0]))}
		case OFUF:
			switch t.name {
			case "round32":
				// as close as single precision is, subnormal numbers included
				x := t.a[0]
				e := b.mk(OFAdd, fS, 0, "", b.mk(OFMul, fS, 0, "", b.FAbs(x), b.Rat(big.NewRat(1, 1<<24))), b.Rat(new(big.Rat).SetFloat64(0x1p-149)))
				return []*Term{le(sub(t, x), e), le(sub(x, t), e), b.Or(lt(x, zero), le(zero, t)), b.Or(lt(zero, x), le(t, zero))}
			case "exp":
				return []*Term{lt(zero, t), le(one, sub(t, t.a[0]))}
			case "log":
				return []*Term{le(one, sub(t.a[0], t))}
			case "pow":
				return []*Term{b.Or(le(t.a[0], zero), lt(zero, t))}
			case "tanh":
				return []*Term{lt(t, one), lt(b.Rat(big.NewRat(-1, 1)), t)}
			}
		}
		return nil
	}
	C := b.Float
	le, lt := b.FLe, b.FLt
	imp := func(p, q *Term) *Term { return b.Or(b.Not(p), q) }
	fin := b.FIsFinite
	nan := b.FIsNaN
	zero, one := C(0), C(1)
	and := func(ts ...*Term) *Term {
		r := b.True
		for _, t := range ts {
			r = b.And(r, t)
		}
		return r
	}
	var out []*Term
	add := func(t *Term) { out = append(out, t) }
	switch t.op {
	case OF32Bits:
		return []*Term{b.mk(OEq, bS, 0, "", b.mk(OB32F, fS, 0, "", t), t.a[0])}
	case OFBits:
		return []*Term{b.mk(OEq, bS, 0, "", b.mk(OBitsF, fS, 0, "", t), t.a[0])}
	case OFUF:
		x := t.a[0]
		switch t.name {
		case "exp":
			add(b.Eq(nan(t), nan(x)))
			add(imp(b.Not(nan(x)), le(zero, t)))
			add(imp(le(x, zero), le(t, one)))
			add(imp(le(zero, x), le(one, t)))
			add(imp(b.FEq(x, zero), b.Eq(t, one)))
			add(imp(le(x, C(709)), fin(t)))
			add(imp(le(C(710), x), b.Eq(t, C(math.Inf(1)))))
			add(imp(le(x, C(-746)), b.Eq(t, zero)))
			add(imp(le(C(-700), x), le(C(1e-305), t)))
			add(imp(le(x, C(20)), le(t, C(5e8))))
		case "log":
			add(b.Eq(nan(t), b.Or(nan(x), lt(x, zero))))
			add(imp(b.FEq(x, zero), b.Eq(t, C(math.Inf(-1)))))
			add(imp(and(lt(zero, x), fin(x)), and(le(C(-746), t), le(t, C(710)))))
			add(imp(le(x, one), le(t, zero)))
			add(imp(le(one, x), le(zero, t)))
			add(imp(le(C(1e-8), x), le(C(-19), t)))
			add(imp(b.FEq(x, one), b.Eq(t, zero)))
		case "pow":
			add(imp(b.And(fin(x), b.Eq(t.a[1], C(2))), b.And(le(zero, t), b.Not(nan(t)))))
		case "tanh":
			add(b.Eq(nan(t), nan(x)))
			add(imp(b.Not(nan(x)), and(le(C(-1), t), le(t, one))))
		}
	}
	if b.mode != FU || !b.lemmas {
		return out
	}
	abs := b.FAbs
	pow2 := func(e int) *Term { return C(math.Ldexp(1, e)) }
	inf := func(x *Term) *Term { return b.FIsInf(x) }
	switch t.op {
	case OFAdd:
		x, y := t.a[0], t.a[1]
		nn := b.Not(nan(t))
		add(b.Eq(nan(t), b.Or(b.Or(nan(x), nan(y)), and(inf(x), inf(y), b.Not(b.Eq(x, y))))))
		for _, e := range []int{1, 4, 20, 200, 1000} {
			add(imp(and(le(abs(x), pow2(e)), le(abs(y), pow2(e))), le(abs(t), pow2(e+1))))
		}
		for _, p := range [][2]*Term{{x, y}, {y, x}} {
			add(imp(and(nn, le(zero, p[1])), le(p[0], t)))
			add(imp(and(nn, le(p[1], zero)), le(t, p[0])))
		}
		for _, p := range [][2]*Term{{x, y}, {y, x}} {
			// rounding is monotone
			if c := p[0]; c.isConst() && !math.IsNaN(c.fconst()) && !math.IsInf(c.fconst(), 0) {
				for _, k := range b.marks {
					for _, k := range []float64{k, -k} {
						add(imp(le(p[1], C(k)), le(t, C(c.fconst()+k))))
						add(imp(le(C(k), p[1]), le(C(c.fconst()+k), t)))
					}
				}
			}
		}
		f := and(fin(x), fin(y))
		add(imp(f, b.Eq(le(t, zero), le(x, b.FNeg(y)))))
		add(imp(f, b.Eq(le(zero, t), le(b.FNeg(y), x))))
	case OFMul:
		x, y := t.a[0], t.a[1]
		add(b.Eq(nan(t), b.Or(b.Or(nan(x), nan(y)), b.Or(and(inf(x), b.FEq(y, zero)), and(inf(y), b.FEq(x, zero))))))
		nn := b.Not(nan(t))
		add(imp(and(nn, b.Eq(le(zero, x), le(zero, y))), le(zero, t)))
		add(imp(and(nn, b.Not(b.Eq(le(zero, x), le(zero, y)))), le(t, zero)))
		add(imp(and(nn, b.Or(b.FEq(x, zero), b.FEq(y, zero))), b.FEq(t, zero)))
		for _, p := range [][2]*Term{{x, y}, {y, x}} {
			add(imp(and(nn, le(abs(p[1]), one)), le(abs(t), abs(p[0]))))
			add(imp(and(nn, le(one, abs(p[1]))), le(abs(p[0]), abs(t))))
		}
		for _, e := range []int{1, 30, 200} {
			for _, g := range []int{1, 30, 200} {
				add(imp(and(le(abs(x), pow2(e)), le(abs(y), pow2(g))), le(abs(t), pow2(e+g))))
			}
		}
	case OFDiv:
		x, y := t.a[0], t.a[1]
		add(b.Eq(nan(t), b.Or(b.Or(nan(x), nan(y)), b.Or(and(inf(x), inf(y)), and(b.FEq(y, zero), b.FEq(x, zero))))))
		nn := b.Not(nan(t))
		add(imp(and(nn, le(abs(x), abs(y))), le(abs(t), one)))
		add(imp(and(nn, le(abs(y), abs(x))), le(one, abs(t))))
		add(imp(and(nn, le(zero, x), lt(zero, y)), le(zero, t)))
		add(imp(and(nn, le(x, zero), lt(zero, y)), le(t, zero)))
		add(imp(and(nn, le(zero, x), lt(y, zero)), le(t, zero)))
		add(imp(and(nn, le(x, zero), lt(y, zero)), le(zero, t)))
		add(imp(and(nn, le(one, abs(y))), le(abs(t), abs(x))))
		for _, e := range []int{1, 30, 200} {
			for _, g := range []int{0, -30, -60} {
				add(imp(and(le(abs(x), pow2(e)), le(pow2(g), abs(y))), le(abs(t), pow2(e-g))))
			}
		}
	case OFSqrt:
		x := t.a[0]
		add(b.Eq(nan(t), b.Or(nan(x), lt(x, zero))))
		add(imp(le(zero, x), le(zero, t)))
		add(imp(and(le(zero, x), fin(x)), fin(t)))
	}
	return out
}
