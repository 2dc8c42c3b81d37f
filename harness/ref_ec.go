package main

import (
	"crypto/hmac"
	"crypto/sha256"
	"math/big"
)

// Reference model of secp256k1: plain affine arithmetic over math/big.

func hexInt(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return v
}

var (
	ecP     = hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F")
	ecN     = hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
	ecGx    = hexInt("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798")
	ecGy    = hexInt("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")
	ecHalfN = new(big.Int).Rsh(ecN, 1)
	ecG     = pt{ecGx, ecGy}
	bigOne  = big.NewInt(1)
	bigTwo  = big.NewInt(2)
)

// pt is an affine point; x == nil is the point at infinity.
type pt struct{ x, y *big.Int }

func (a pt) inf() bool { return a.x == nil }

func (a pt) eq(b pt) bool {
	if a.inf() || b.inf() {
		return a.inf() == b.inf()
	}
	return a.x.Cmp(b.x) == 0 && a.y.Cmp(b.y) == 0
}

func ecOnCurve(x, y *big.Int) bool {
	if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(ecP) >= 0 || y.Cmp(ecP) >= 0 {
		return false
	}
	return new(big.Int).Mod(new(big.Int).Mul(y, y), ecP).Cmp(ecRHS(x)) == 0
}

func ecRHS(x *big.Int) *big.Int {
	r := new(big.Int).Mul(x, x)
	r.Mul(r, x)
	r.Add(r, big.NewInt(7))
	return r.Mod(r, ecP)
}

// ecLift returns the point with the given x and y parity.
func ecLift(x *big.Int, odd bool) (pt, bool) {
	if x.Cmp(ecP) >= 0 {
		return pt{}, false
	}
	rhs := ecRHS(x)
	e := new(big.Int).Add(ecP, bigOne)
	e.Rsh(e, 2)
	y := new(big.Int).Exp(rhs, e, ecP)
	if new(big.Int).Mod(new(big.Int).Mul(y, y), ecP).Cmp(rhs) != 0 {
		return pt{}, false
	}
	if (y.Bit(0) == 1) != odd {
		y.Sub(ecP, y)
	}
	return pt{x, y}, true
}

func ecNeg(a pt) pt {
	if a.inf() {
		return a
	}
	return pt{a.x, new(big.Int).Mod(new(big.Int).Neg(a.y), ecP)}
}

func ecAdd(a, b pt) pt {
	if a.inf() {
		return b
	}
	if b.inf() {
		return a
	}
	var l *big.Int
	if a.x.Cmp(b.x) == 0 {
		if new(big.Int).Mod(new(big.Int).Add(a.y, b.y), ecP).Sign() == 0 {
			return pt{}
		}
		l = new(big.Int).Mul(a.x, a.x)
		l.Mul(l, big.NewInt(3))
		d := new(big.Int).ModInverse(new(big.Int).Lsh(a.y, 1), ecP)
		l.Mul(l, d)
	} else {
		l = new(big.Int).Sub(b.y, a.y)
		d := new(big.Int).Sub(b.x, a.x)
		d.Mod(d, ecP)
		d.ModInverse(d, ecP)
		l.Mul(l, d)
	}
	l.Mod(l, ecP)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.x)
	x.Sub(x, b.x)
	x.Mod(x, ecP)
	y := new(big.Int).Sub(a.x, x)
	y.Mul(y, l)
	y.Sub(y, a.y)
	y.Mod(y, ecP)
	return pt{x, y}
}

var ecTable [256]pt // 2^i * G

func init() {
	p := ecG
	for i := range ecTable {
		ecTable[i] = p
		p = ecAdd(p, p)
	}
}

// jac is a Jacobian point used to keep the reference multiplication fast.
type jac struct{ x, y, z *big.Int }

func mulP(a, b *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, ecP) }
func subP(a, b *big.Int) *big.Int { r := new(big.Int).Sub(a, b); return r.Mod(r, ecP) }

func (j jac) inf() bool { return j.z.Sign() == 0 }

func toJac(a pt) jac {
	if a.inf() {
		return jac{big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	}
	return jac{a.x, a.y, big.NewInt(1)}
}

func (j jac) affine() pt {
	if j.inf() {
		return pt{}
	}
	zi := new(big.Int).ModInverse(j.z, ecP)
	z2 := mulP(zi, zi)
	return pt{mulP(j.x, z2), mulP(j.y, mulP(z2, zi))}
}

func (j jac) dbl() jac {
	if j.inf() || j.y.Sign() == 0 {
		return toJac(pt{})
	}
	yy := mulP(j.y, j.y)
	s := mulP(j.x, yy)
	s.Lsh(s, 2)
	m := mulP(j.x, j.x)
	m.Mul(m, big.NewInt(3))
	m.Mod(m, ecP)
	x := subP(mulP(m, m), new(big.Int).Lsh(s, 1))
	y4 := mulP(yy, yy)
	y4.Lsh(y4, 3)
	y := subP(mulP(m, subP(s, x)), y4)
	z := mulP(j.y, j.z)
	z.Lsh(z, 1)
	z.Mod(z, ecP)
	return jac{x, y, z}
}

// addAff adds an affine point.
func (j jac) addAff(b pt) jac {
	if b.inf() {
		return j
	}
	if j.inf() {
		return toJac(b)
	}
	z2 := mulP(j.z, j.z)
	u2 := mulP(b.x, z2)
	s2 := mulP(b.y, mulP(z2, j.z))
	h := subP(u2, j.x)
	r := subP(s2, j.y)
	if h.Sign() == 0 {
		if r.Sign() == 0 {
			return j.dbl()
		}
		return toJac(pt{})
	}
	h2 := mulP(h, h)
	h3 := mulP(h2, h)
	v := mulP(j.x, h2)
	x := subP(subP(mulP(r, r), h3), new(big.Int).Lsh(v, 1))
	y := subP(mulP(r, subP(v, x)), mulP(j.y, h3))
	return jac{x, y, mulP(j.z, h)}
}

func ecMul(a pt, k *big.Int) pt {
	k = new(big.Int).Mod(k, ecN)
	r := toJac(pt{})
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.dbl()
		if k.Bit(i) == 1 {
			r = r.addAff(a)
		}
	}
	return r.affine()
}

func ecMulG(k *big.Int) pt {
	k = new(big.Int).Mod(k, ecN)
	r := toJac(pt{})
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			r = r.addAff(ecTable[i])
		}
	}
	return r.affine()
}

func ecCompressed(a pt) []byte {
	return append([]byte{2 + byte(a.y.Bit(0))}, pad32(a.x)...)
}

func ecUncompressed(a pt) []byte {
	return append(append([]byte{4}, pad32(a.x)...), pad32(a.y)...)
}

func ecHybrid(a pt) []byte {
	return append(append([]byte{6 + byte(a.y.Bit(0))}, pad32(a.x)...), pad32(a.y)...)
}

// refParsePub is the strict SEC1 parser including hybrid forms.
func refParsePub(b []byte) (pt, bool) {
	switch {
	case len(b) == 33 && (b[0] == 2 || b[0] == 3):
		return ecLift(new(big.Int).SetBytes(b[1:]), b[0] == 3)
	case len(b) == 65 && (b[0] == 4 || b[0] == 6 || b[0] == 7):
		x, y := new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:])
		if !ecOnCurve(x, y) {
			return pt{}, false
		}
		if b[0] != 4 && byte(y.Bit(0)) != b[0]&1 {
			return pt{}, false
		}
		return pt{x, y}, true
	}
	return pt{}, false
}

// ---- ECDSA ----

func refHashToInt(h []byte) *big.Int {
	if len(h) > 32 {
		h = h[:32]
	}
	return new(big.Int).SetBytes(h)
}

func refEcdsaVerify(pub pt, hash []byte, r, s *big.Int) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(ecN) >= 0 || s.Cmp(ecN) >= 0 || pub.inf() {
		return false
	}
	e := refHashToInt(hash)
	w := new(big.Int).ModInverse(s, ecN)
	u1 := new(big.Int).Mul(e, w)
	u2 := new(big.Int).Mul(r, w)
	p := ecAdd(ecMulG(u1), ecMul(pub, u2.Mod(u2, ecN)))
	if p.inf() {
		return false
	}
	return new(big.Int).Mod(p.x, ecN).Cmp(r) == 0
}

// refRFC6979 is the deterministic nonce for a 256-bit order and SHA-256.
func refRFC6979(q, x *big.Int, hash []byte) *big.Int {
	hm := func(k []byte, parts ...[]byte) []byte {
		m := hmac.New(sha256.New, k)
		for _, p := range parts {
			m.Write(p)
		}
		return m.Sum(nil)
	}
	b2i := func(b []byte) *big.Int {
		v := new(big.Int).SetBytes(b)
		if n := len(b)*8 - q.BitLen(); n > 0 {
			v.Rsh(v, uint(n))
		}
		return v
	}
	rolen := (q.BitLen() + 7) / 8
	i2o := func(v *big.Int) []byte {
		b := v.Bytes()
		o := make([]byte, rolen)
		copy(o[rolen-len(b):], b)
		return o
	}
	z := b2i(hash)
	if z.Cmp(q) >= 0 {
		z = new(big.Int).Sub(z, q)
	}
	xo, ho := i2o(x), i2o(z)
	v, k := make([]byte, 32), make([]byte, 32)
	for i := range v {
		v[i] = 1
	}
	k = hm(k, v, []byte{0}, xo, ho)
	v = hm(k, v)
	k = hm(k, v, []byte{1}, xo, ho)
	v = hm(k, v)
	for {
		var t []byte
		for len(t)*8 < q.BitLen() {
			v = hm(k, v)
			t = append(t, v...)
		}
		c := b2i(t[:rolen])
		if c.Sign() > 0 && c.Cmp(q) < 0 {
			return c
		}
		k = hm(k, v, []byte{0})
		v = hm(k, v)
	}
}

// refEcdsaSign is the RFC 6979 signature with low S.
func refEcdsaSign(d *big.Int, hash []byte) (*big.Int, *big.Int) {
	k := refRFC6979(ecN, d, hash)
	R := ecMulG(k)
	r := new(big.Int).Mod(R.x, ecN)
	s := new(big.Int).Mul(d, r)
	s.Add(s, refHashToInt(hash))
	s.Mul(s, new(big.Int).ModInverse(k, ecN))
	s.Mod(s, ecN)
	if s.Cmp(ecHalfN) > 0 {
		s.Sub(ecN, s)
	}
	return r, s
}

// refSignWithNonce is an ECDSA signature for an arbitrary nonce, S left as it is.
func refSignWithNonce(d *big.Int, hash []byte, k *big.Int) (*big.Int, *big.Int) {
	R := ecMulG(k)
	r := new(big.Int).Mod(R.x, ecN)
	s := new(big.Int).Mul(d, r)
	s.Add(s, refHashToInt(hash))
	s.Mul(s, new(big.Int).ModInverse(k, ecN))
	return r, s.Mod(s, ecN)
}

func derInt(x *big.Int) []byte {
	b := x.Bytes()
	if len(b) == 0 {
		b = []byte{0}
	}
	if b[0]&0x80 != 0 {
		b = append([]byte{0}, b...)
	}
	return append([]byte{2, byte(len(b))}, b...)
}

// refDER is the DER encoding of a signature.
func refDER(r, s *big.Int) []byte {
	body := append(derInt(r), derInt(s)...)
	return append([]byte{0x30, byte(len(body))}, body...)
}

// refParseDER parses a strict DER pair of non-negative integers.
func refParseDER(b []byte) (*big.Int, *big.Int, bool) {
	if len(b) < 8 || b[0] != 0x30 || b[1] >= 0x80 || int(b[1]) != len(b)-2 {
		return nil, nil, false
	}
	p := b[2:]
	one := func() (*big.Int, bool) {
		if len(p) < 3 || p[0] != 2 || p[1] == 0 || p[1] >= 0x80 || int(p[1]) > len(p)-2 {
			return nil, false
		}
		v := p[2 : 2+int(p[1])]
		p = p[2+len(v):]
		if v[0]&0x80 != 0 {
			return nil, false
		}
		if len(v) > 1 && v[0] == 0 && v[1]&0x80 == 0 {
			return nil, false
		}
		return new(big.Int).SetBytes(v), true
	}
	r, ok := one()
	if !ok {
		return nil, nil, false
	}
	s, ok := one()
	if !ok || len(p) != 0 {
		return nil, nil, false
	}
	return r, s, true
}

// ---- the Schnorr scheme of the library's documentation (the first BIP-Schnorr draft) ----

func jacobiY(y *big.Int) int { return big.Jacobi(y, ecP) }

func refSchnorrE(Rx *big.Int, P pt, m []byte) *big.Int {
	h := sha256.New()
	h.Write(pad32(Rx))
	h.Write(ecCompressed(P))
	h.Write(m)
	e := new(big.Int).SetBytes(h.Sum(nil))
	return e.Mod(e, ecN)
}

func refSchnorrSign(d *big.Int, m []byte) []byte {
	h := sha256.New()
	h.Write(pad32(d))
	h.Write(m)
	k := new(big.Int).SetBytes(h.Sum(nil))
	k.Mod(k, ecN)
	R := ecMulG(k)
	if jacobiY(R.y) != 1 {
		k.Sub(ecN, k)
	}
	e := refSchnorrE(R.x, ecMulG(d), m)
	s := new(big.Int).Mul(e, d)
	s.Add(s, k)
	s.Mod(s, ecN)
	return append(pad32(R.x), pad32(s)...)
}

func refSchnorrVerify(P pt, m []byte, sig []byte) bool {
	if len(sig) != 64 || P.inf() {
		return false
	}
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
	if r.Cmp(ecP) >= 0 || s.Cmp(ecN) >= 0 {
		return false
	}
	e := refSchnorrE(r, P, m)
	R := ecAdd(ecMulG(s), ecNeg(ecMul(P, e)))
	return !R.inf() && jacobiY(R.y) == 1 && R.x.Cmp(r) == 0
}
