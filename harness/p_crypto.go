package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	stdpbkdf2 "crypto/pbkdf2"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"hash"
	"math/big"
	"sync"

	"github.com/keyfuse/tokucore/xcrypto"
	xecdsa "github.com/keyfuse/tokucore/xcrypto/ecdsa"
	"github.com/keyfuse/tokucore/xcrypto/paillier"
	"github.com/keyfuse/tokucore/xcrypto/pbkdf2"
	"github.com/keyfuse/tokucore/xcrypto/ripemd160"
	"github.com/keyfuse/tokucore/xcrypto/schnorr"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
)

func init() {
	register(&Prop{
		ID:   "C14",
		Rule: "points (random, G, small multiples, infinity, inverses, equal) and scalars (0, 1, edges of the order, any length, leading zeros) through the real curve and an affine reference; keys and encodings of every form, mutated, against a strict SEC1 parser; non-trivial: distinct operands",
		Kinds: []Kind{
			{Name: "group", N: 2500, TN: 60000, Run: c14group},
			{Name: "scalar", N: 1200, TN: 30000, Run: c14scalar},
			{Name: "key", N: 1200, TN: 30000, Run: c14key},
			{Name: "encoding", N: 2500, TN: 60000, Run: c14enc},
			{Name: "siblings", N: 500, TN: 10000, Run: c14siblings},
			{Name: "hostile", N: 5000, TN: 200000, Run: c14hostile},
		},
	})
	register(&Prop{
		ID:   "C15",
		Rule: "keys and digests (edges of the order, any digest length) are signed and compared byte for byte with an RFC 6979 reference; signatures made with chosen nonces (short R or S, high S) and mutated signatures, digests and keys are decided by a reference verifier; non-trivial: distinct (key, digest, signature)",
		Kinds: []Kind{
			{Name: "sign", N: 1200, TN: 30000, Run: c15sign},
			{Name: "verify", N: 1200, TN: 30000, Run: c15verify},
			{Name: "der", N: 12000, TN: 300000, Run: c15der},
			{Name: "nonce", N: 3000, TN: 60000, Run: c15nonce},
			{Name: "rare", N: 24, TN: 24, Run: c15rare},
			{Name: "points", N: 200, TN: 4000, Run: c15points},
			{Name: "history", N: 70, TN: 3000, Run: c15history},
		},
	})
	register(&Prop{
		ID:   "C16",
		Rule: "keys and messages are signed and compared with a reference of the scheme; altered, re-encoded, non-residue and other-length signatures are decided by the reference verifier; non-trivial: distinct (key, message, signature)",
		Kinds: []Kind{
			{Name: "sign", N: 1500, TN: 30000, Run: c16sign},
			{Name: "verify", N: 2000, TN: 40000, Run: c16verify},
			{Name: "length", N: 400, TN: 4000, Run: c16len},
			{Name: "rare", N: 24, TN: 24, Run: c16rare},
			{Name: "history", N: 50, TN: 3000, Run: c16history},
		},
	})
	register(&Prop{
		ID:   "C17",
		Rule: "key pairs of 128 to 2048 bits; plaintexts at and around 0, the modulus and random; chains of homomorphic operations are decrypted and compared with modular arithmetic on the plaintexts; non-trivial: distinct (modulus, operands)",
		Kinds: []Kind{
			{Name: "homomorphic", N: 2800, TN: 12000, Run: c17homo},
			{Name: "chain", N: 2000, TN: 8000, Run: c17chain},
			{Name: "range", N: 2000, TN: 8000, Run: c17range},
			{Name: "large", N: 8, TN: 64, Run: c17large},
		},
	})
	register(&Prop{
		ID:   "C18",
		Rule: "complete two-party runs over random and edge keys and digests, in both orders of phases, with the results decided by the reference verifier; tampered runs must not verify; non-trivial: distinct (keys, digest)",
		Kinds: []Kind{
			{Name: "run", N: 60, TN: 600, Run: c18run},
			{Name: "tamper", N: 28, TN: 300, Run: c18tamper},
		},
	})
	register(&Prop{
		ID:   "C19",
		Rule: "complete runs of 1 to 36 parties over random, edge, equal and opposite keys, any message length and any order of aggregation, decided by the reference verifier; missing, altered and foreign shares must not verify; non-trivial: distinct (keys, message)",
		Kinds: []Kind{
			{Name: "run", N: 500, TN: 10000, Run: c19run},
			{Name: "tamper", N: 300, TN: 6000, Run: c19tamper},
		},
	})
	register(&Prop{
		ID:   "C20",
		Rule: "complete adaptor-signature runs over random and edge keys, digests and secrets; signature validity by the reference verifier, the recovered secret compared with Bob's; non-trivial: distinct (keys, digest, secret)",
		Kinds: []Kind{
			{Name: "run", N: 72, TN: 700, Run: c20run},
			{Name: "tamper", N: 24, TN: 300, Run: c20tamper},
		},
	})
	register(&Prop{
		ID:   "C24",
		Rule: "inputs of every length around block boundaries and random ones, random splittings, interleaved Sum and Reset, against an independent RIPEMD-160 and the standard library; non-trivial: distinct (function, input)",
		Kinds: []Kind{
			{Name: "oneshot", N: 16000, TN: 100000, Run: c24oneshot},
			{Name: "lengths", N: 800, TN: 3200, Run: c24lengths},
			{Name: "stream", N: 12000, TN: 100000, Run: c24stream},
			{Name: "pbkdf2", N: 6000, TN: 30000, Run: c24pbkdf2},
			{Name: "pbkdf2long", N: 24, TN: 200, Run: c24pbkdf2long},
			{Name: "long", N: 1, TN: 2, Run: c24long},
		},
	})
	register(&Prop{
		ID:   "C25",
		Rule: "lists of 1 to 300 hashes (every size, powers of two and their neighbours, repeated leaves) and some of up to 70001 against a reference root; every leaf's proof is checked by the library and by an independent fold; altered proofs must fail in both; non-trivial: distinct lists and proofs",
		Kinds: []Kind{
			{Name: "tree", N: 3600, TN: 20000, Run: c25tree},
			{Name: "sizes", N: 300, TN: 1100, Run: c25sizes},
			{Name: "large", N: 12, TN: 60, Run: c25large},
			{Name: "tamper", N: 15000, TN: 100000, Run: c25tamper},
		},
	})
}

// theCurve is not kept in a variable, so that the first use of the library may be a concurrent one (C30).
func theCurve() elliptic.Curve { return secp256k1.SECP256K1() }

func (r *Rand) Point() pt {
	switch r.N(8) {
	case 0:
		return ecG
	case 1:
		return ecMulG(big.NewInt(int64(1 + r.N(10))))
	case 2:
		for { // small x, hence leading zero bytes
			if p, ok := ecLift(new(big.Int).SetBytes(r.Bytes(r.Range(1, 31))), r.Bool()); ok {
				return p
			}
		}
	}
	for {
		if p, ok := ecLift(r.Big(ecP), r.Bool()); ok {
			return p
		}
	}
}

func xy(a pt) (*big.Int, *big.Int) {
	if a.inf() {
		return new(big.Int), new(big.Int)
	}
	return new(big.Int).Set(a.x), new(big.Int).Set(a.y)
}

func fromXY(x, y *big.Int) pt {
	if x == nil || y == nil {
		return pt{big.NewInt(-1), big.NewInt(-1)}
	}
	if x.Sign() == 0 && y.Sign() == 0 {
		return pt{}
	}
	return pt{x, y}
}

func ptStr(a pt) string {
	if a.inf() {
		return "infinity"
	}
	return fmt.Sprintf("(%x,%x)", a.x, a.y)
}

// ---- C14 ----

func c14group(c *Ctx) {
	a, b := c.Point(), c.Point()
	switch c.N(8) {
	case 0:
		a = pt{}
	case 1:
		b = pt{}
	case 2:
		b = a
	case 3:
		b = ecNeg(a)
	case 4:
		a, b = pt{}, pt{}
	case 5:
		b = ecAdd(a, a)
	case 6:
		b = ecNeg(ecAdd(a, a))
	}
	c.Note(func() string { return ptStr(a) + " " + ptStr(b) })
	ax, ay := xy(a)
	bx, by := xy(b)
	got := fromXY(theCurve().Add(ax, ay, bx, by))
	c.Check(got.eq(ecAdd(a, b)), "curve-add", "sum is %s, want %s", ptStr(got), ptStr(ecAdd(a, b)))
	got = fromXY(theCurve().Add(bx, by, ax, ay))
	c.Check(got.eq(ecAdd(a, b)), "curve-add-comm", "exchanged sum is %s", ptStr(got))
	got = fromXY(theCurve().Double(ax, ay))
	c.Check(got.eq(ecAdd(a, a)), "curve-double", "double is %s, want %s", ptStr(got), ptStr(ecAdd(a, a)))
	s := secp256k1.NewScalar(ax, ay).Add(theCurve(), secp256k1.NewScalar(bx, by))
	got = fromXY(s.X, s.Y)
	c.Check(got.eq(ecAdd(a, b)), "scalar-add", "Scalar.Add is %s", ptStr(got))
	a2x, a2y := xy(a)
	b2x, b2y := xy(b)
	c.Check(ax.Cmp(a2x) == 0 && ay.Cmp(a2y) == 0 && bx.Cmp(b2x) == 0 && by.Cmp(b2y) == 0, "curve-operands", "the operands changed")
	if !a.inf() {
		c.Check(theCurve().IsOnCurve(ax, ay), "curve-on", "a point of the curve is not on it")
		y := new(big.Int).Add(ay, big.NewInt(int64(1+c.N(3))))
		c.Check(theCurve().IsOnCurve(ax, y) == ecOnCurve(ax, new(big.Int).Mod(y, ecP)), "curve-on", "IsOnCurve of (x, y') wrong")
	}
	// associativity on the real curve
	if !a.inf() && !b.inf() {
		d := c.Point()
		dx, dy := xy(d)
		l := fromXY(theCurve().Add(ax, ay, bx, by))
		lx, ly := xy(l)
		l = fromXY(theCurve().Add(lx, ly, dx, dy))
		r := fromXY(theCurve().Add(bx, by, dx, dy))
		rx, ry := xy(r)
		r = fromXY(theCurve().Add(ax, ay, rx, ry))
		c.Check(l.eq(r), "curve-assoc", "(a+b)+d=%s a+(b+d)=%s", ptStr(l), ptStr(r))
	}
	c.NT(ptStr(a), ptStr(b))
	c.Sample("%s + %s", ptStr(a), ptStr(b))
}

func c14scalarBytes(c *Ctx) []byte {
	switch c.N(10) {
	case 0:
		return nil
	case 1:
		return make([]byte, c.N(40))
	case 2:
		return ecN.Bytes()
	case 3:
		return new(big.Int).Add(ecN, big.NewInt(int64(c.N(7)-3))).Bytes()
	case 4:
		return append(make([]byte, c.N(10)), c.Scalar().Bytes()...)
	case 5:
		return c.Bytes(c.Range(33, 70))
	case 6:
		return new(big.Int).Mul(ecN, big.NewInt(int64(c.Range(1, 1000)))).Bytes()
	case 7:
		return []byte{byte(c.N(256))}
	case 8:
		return bytes.Repeat([]byte{0xff}, c.Range(1, 40))
	}
	return c.Scalar().Bytes()
}

func c14scalar(c *Ctx) {
	k := c14scalarBytes(c)
	a := c.Point()
	if c.P(12) {
		a = pt{}
	}
	c.Note(func() string { return fmt.Sprintf("k=%x P=%s", k, ptStr(a)) })
	kk := new(big.Int).SetBytes(k)
	arg, g := guarded(k, 5)
	ax, ay := xy(a)
	got := fromXY(theCurve().ScalarMult(ax, ay, arg))
	want := ecMul(a, kk)
	if a.inf() {
		want = pt{}
	}
	c.Check(got.eq(want), "curve-mult", "product is %s, want %s", ptStr(got), ptStr(want))
	got = fromXY(theCurve().ScalarBaseMult(arg))
	c.Check(got.eq(ecMulG(kk)), "curve-basemult", "base product is %s, want %s", ptStr(got), ptStr(ecMulG(kk)))
	c.Check(g.ok(), "curve-mult-writes", "the scalar was overwritten")
	bx, by := xy(a)
	c.Check(ax.Cmp(bx) == 0 && ay.Cmp(by) == 0, "curve-mult-writes", "the point was overwritten")
	p := theCurve().Params()
	c.Check(p.P.Cmp(ecP) == 0 && p.N.Cmp(ecN) == 0 && p.Gx.Cmp(ecGx) == 0 && p.Gy.Cmp(ecGy) == 0 && p.B.Cmp(big.NewInt(7)) == 0 && p.BitSize == 256, "curve-params", "the curve's parameters changed")
	c.NT(k, ptStr(a))
}

func prvOf(d *big.Int) *xcrypto.PrvKey { return xcrypto.PrvKeyFromBytes(pad32(d)) }

func pubPt(p *xcrypto.PubKey) pt { return fromXY(p.X, p.Y) }

func toPub(a pt) *xcrypto.PubKey {
	x, y := xy(a)
	return &xcrypto.PubKey{Curve: theCurve(), X: x, Y: y}
}

func c14key(c *Ctx) {
	d, n := c.Scalar(), c.Scalar()
	c.Note(func() string { return fmt.Sprintf("d=%x n=%x", d, n) })
	prv := xcrypto.PrvKeyFromBytes(pad32(d))
	if c.Bool() {
		prv = xcrypto.PrvKeyFromBytes(d.Bytes())
	}
	c.Check(pubPt(prv.PubKey()).eq(ecMulG(d)), "key-pub", "public key is %s", ptStr(pubPt(prv.PubKey())))
	c.Check(bytes.Equal(prv.Serialize(), pad32(d)), "key-serialize", "Serialize is %x", prv.Serialize())
	again := xcrypto.PrvKeyFromBytes(prv.Serialize())
	c.Check(again.D.Cmp(d) == 0 && pubPt(again.PubKey()).eq(ecMulG(d)), "key-roundtrip", "the serialised key reads back as %x", again.D)
	sum := new(big.Int).Add(d, n)
	sum.Mod(sum, ecN)
	if sum.Sign() != 0 {
		nb := pad32(n)
		if c.Bool() {
			nb = n.Bytes()
		}
		arg, g := guarded(nb, 4)
		s := prv.Add(arg)
		c.Check(s.D.Cmp(sum) == 0 && pubPt(s.PubKey()).eq(ecMulG(sum)), "key-add", "sum key is %x", s.D)
		c.Check(bytes.Equal(s.Serialize(), pad32(sum)), "key-add-serialize", "sum serialises to %x", s.Serialize())
		p := prv.PubKey().Add(prvOf(n).PubKey())
		c.Check(pubPt(p).eq(ecMulG(sum)), "pub-add", "sum of the public keys is %s", ptStr(pubPt(p)))
		c.Check(bytes.Equal(p.SerializeCompressed(), s.PubKey().SerializeCompressed()), "pub-add", "the sums differ")
		c.Check(g.ok() && prv.D.Cmp(d) == 0 && pubPt(prv.PubKey()).eq(ecMulG(d)), "key-add-writes", "adding changed an operand")
	}
	c.NT(d, n)
}

func c14enc(c *Ctx) {
	a := c.Point()
	p := toPub(a)
	c.Note(func() string { return ptStr(a) })
	for _, t := range []struct {
		n    string
		got  []byte
		want []byte
	}{
		{"compressed", p.SerializeCompressed(), ecCompressed(a)},
		{"serialize", p.Serialize(), ecCompressed(a)},
		{"uncompressed", p.SerializeUncompressed(), ecUncompressed(a)},
		{"hybrid", p.SerializeHybrid(), ecHybrid(a)},
		{"secmarshal", secp256k1.SecMarshal(theCurve(), a.x, a.y), ecCompressed(a)},
	} {
		c.Check(bytes.Equal(t.got, t.want), "pub-"+t.n, "%s encoding is %x, want %x", t.n, t.got, t.want)
		q, err := xcrypto.PubKeyFromBytes(t.want)
		c.Check(err == nil && pubPt(q).eq(a), "pub-decode-"+t.n, "%x decodes to %v, error %v", t.want, q, err)
	}
	x, y := secp256k1.SecUnmarshal(theCurve(), ecCompressed(a))
	c.Check(fromXY(x, y).eq(a), "sec-unmarshal", "SecUnmarshal gives %s", ptStr(fromXY(x, y)))
	c.Check(bytes.Equal(p.Hash160(), refHash160(ecCompressed(a))), "pub-hash160", "Hash160 is %x", p.Hash160())
	c.Check(fromXY(new(big.Int).SetBytes(p.XBytes()), new(big.Int).SetBytes(p.YBytes())).eq(a), "pub-coordinates", "XBytes and YBytes are %x %x", p.XBytes(), p.YBytes())
	c.NT(ecCompressed(a))
}

// ecBeta is a cube root of one: (beta*x, y) is on the curve whenever (x, y) is.
var ecBeta = func() *big.Int {
	for g := int64(2); ; g++ {
		e := new(big.Int).Div(new(big.Int).Sub(ecP, big.NewInt(1)), big.NewInt(3))
		if b := e.Exp(big.NewInt(g), e, ecP); b.Cmp(big.NewInt(1)) != 0 {
			return b
		}
	}
}()

// c14siblings: encodings of a few points that share coordinates (opposite points, one parity after the other, the
// endomorphism's equal Y) are decoded over and over in any order, and each must give its own point whatever came before.
func c14siblings(c *Ctx) {
	a := c.Point()
	var l []pt
	for _, p := range []pt{a, ecNeg(a), pt{new(big.Int).Mod(new(big.Int).Mul(a.x, ecBeta), ecP), a.y}, c.Point(), ecAdd(a, a)} {
		l = append(l, p)
	}
	c.Note(func() string { return ptStr(a) })
	for i := 0; i < 24; i++ {
		p := l[c.N(len(l))]
		b := [][]byte{ecCompressed(p), ecUncompressed(p), ecHybrid(p)}[c.N(3)]
		switch c.N(6) {
		case 0: // the right point under a format that is not its own
			b[0] ^= 1
		case 1:
			b[0] = byte(c.N(9))
		}
		in := dup(b)
		q, err := xcrypto.PubKeyFromBytes(in)
		w, ok := refParsePub(b)
		c.Check((err == nil) == ok, "pub-history-accept", "step %d: %x: error %v, valid %v", i, b, err, ok)
		if ok {
			c.Check(pubPt(q).eq(w), "pub-history", "step %d: %x decodes to %s, want %s", i, b, ptStr(pubPt(q)), ptStr(w))
			if c.N(3) == 0 { // what is done with the result does not reach later decodings
				q.X.SetInt64(1)
				q.Y.SetInt64(2)
			}
		}
		if len(b) == 33 {
			x, y := secp256k1.SecUnmarshal(theCurve(), b)
			c.Check((x != nil) == ok && (!ok || fromXY(x, y).eq(w)), "sec-history", "step %d: SecUnmarshal of %x gives %v, %v", i, b, x, y)
		}
	}
	c.NT(ecCompressed(a))
}

func c14hostile(c *Ctx) {
	a := c.Point()
	var b []byte
	switch c.N(8) {
	case 0, 1:
		b = c.mutate([][]byte{ecCompressed(a), ecUncompressed(a), ecHybrid(a)}[c.N(3)])
	case 2: // any format byte
		b = [][]byte{ecCompressed(a), ecUncompressed(a)}[c.N(2)]
		b[0] = byte(c.N(256))
		if c.Bool() {
			b[0] = byte(c.N(9))
		}
	case 3: // random x
		b = append([]byte{byte(2 + c.N(2))}, c.Blob(32)...)
	case 4: // coordinates at and above P
		d := big.NewInt(int64(c.N(977)))
		x := new(big.Int).Add(ecP, d)
		if c.Bool() {
			b = append([]byte{byte(2 + c.N(2))}, pad32(x)...)
		} else {
			// the same residue as a valid point, but above P
			p, ok := ecLift(big.NewInt(int64(c.N(900))), c.Bool())
			if !ok {
				p = a
			}
			xx := new(big.Int).Add(p.x, ecP)
			if xx.BitLen() > 256 {
				xx = p.x
			}
			b = append(append([]byte{byte(c.Pick(4, 6, 7))}, pad32(xx)...), pad32(p.y)...)
		}
	case 5: // wrong parity or wrong y
		b = ecHybrid(a)
		if c.Bool() {
			b[0] ^= 1
		} else {
			copy(b[33:], pad32(new(big.Int).Sub(ecP, a.y)))
		}
	case 6: // right content, wrong length or form
		b = [][]byte{
			append([]byte{2}, ecUncompressed(a)[1:]...),
			append([]byte{4}, pad32(a.x)...),
			append(ecCompressed(a), 0),
			ecCompressed(a)[:32],
			append(ecUncompressed(a), 0),
			ecUncompressed(a)[:64],
			append([]byte{3}, ecUncompressed(a)[1:]...),
			append([]byte{6}, pad32(a.x)...),
			ecCompressed(a)[1:],
			{},
			{0},
		}[c.N(11)]
	case 7:
		b = c.Blob(c.Pick(0, 1, 32, 33, 34, 64, 65, 66))
	}
	c.Note(func() string { return "bytes=" + hx(b) })
	want, ok := refParsePub(b)
	arg, g := guarded(b, 3)
	p, err := xcrypto.PubKeyFromBytes(arg)
	c.Check((err == nil) == ok, "pub-accept", "error %v, valid is %v", err, ok)
	if ok {
		c.Check(pubPt(p).eq(want), "pub-accept-value", "decodes to %s", ptStr(pubPt(p)))
		c.Count("valid")
	} else {
		c.Count("invalid")
	}
	x, y := secp256k1.SecUnmarshal(theCurve(), arg)
	if ok && len(b) == 33 {
		c.Check(x != nil && fromXY(x, y).eq(want), "sec-unmarshal", "SecUnmarshal gives (%x,%x)", x, y)
	} else {
		c.Check(x == nil, "sec-unmarshal-accept", "SecUnmarshal accepts it as (%x,%x)", x, y)
	}
	c.Check(g.ok(), "pub-decode-writes", "decoding wrote into its argument")
	c.NT(b)
}

// ---- C15 ----

func (r *Rand) Digest() []byte {
	switch r.N(11) {
	case 10:
		return r.kin(32)
	case 0:
		return make([]byte, 32)
	case 1:
		return bytes.Repeat([]byte{0xff}, 32)
	case 2:
		return pad32(new(big.Int).Add(ecN, big.NewInt(int64(r.N(5)-2))))
	case 3:
		return pad32(big.NewInt(int64(r.N(5))))
	case 4:
		return r.Bytes(r.Pick(20, 31, 33, 48, 64))
	case 5:
		b := r.Bytes(32)
		for i := 0; i < r.Range(1, 8); i++ {
			b[i] = 0
		}
		return b
	}
	return r.Bytes(32)
}

func c15sign(c *Ctx) {
	d, h := c.Scalar(), c.Digest()
	c.Note(func() string { return fmt.Sprintf("d=%x hash=%x", d, h) })
	prv := prvOf(d)
	arg, g := guarded(h, 8)
	sig, err := xcrypto.EcdsaSign(prv, arg)
	c.Check(err == nil, "ecdsa-sign", "signing fails: %v", err)
	r, s := refEcdsaSign(d, h)
	want := refDER(r, s)
	c.Check(bytes.Equal(sig, want), "ecdsa-sign", "signature is %x, RFC 6979 gives %x", sig, want)
	c.Check(s.Cmp(ecHalfN) <= 0, "ecdsa-low-s", "S is high")
	sig2, err := xcrypto.EcdsaSign(prv, h)
	c.Check(err == nil && bytes.Equal(sig, sig2), "ecdsa-repeat", "signing again gives %x", sig2)
	c.Check(xcrypto.EcdsaVerify(prv.PubKey(), h, sig) == nil, "ecdsa-verify-own", "the signature does not verify")
	c.Check(xcrypto.EcdsaVerify(prv.PubKey(), h, sig) == nil, "ecdsa-verify-own", "the signature does not verify the second time")
	c.Check(g.ok() && prv.D.Cmp(d) == 0, "ecdsa-sign-writes", "signing wrote into its arguments")
	er, es, err := xecdsa.Sign((*ecdsa.PrivateKey)(prv), h)
	c.Check(err == nil && er.Cmp(r) == 0 && es.Cmp(s) == 0, "ecdsa-raw-sign", "ecdsa.Sign gives %x %x", er, es)
	c.Check(xecdsa.HashToInt(theCurve(), h).Cmp(refHashToInt(h)) == 0, "hash-to-int", "HashToInt is %x", xecdsa.HashToInt(theCurve(), h))
	so := xcrypto.NewSignatureEcdsa()
	c.Check(so.Deserialize(want) == nil && so.R.Cmp(r) == 0 && so.S.Cmp(s) == 0, "ecdsa-deserialize", "the signature does not decode to its numbers")
	c.NT(d, h)
	c.Sample("d=%x hash=%x sig=%x", d, h, sig)
}

func cmpVerify(c *Ctx, P pt, h, sig []byte) {
	if len(h) == 0 { // no digest at all: the standard library refuses it whatever the equation says
		c.NoPanic("ecdsa-verify", func() { xcrypto.EcdsaVerify(toPub(P), h, sig) })
		return
	}
	r, s, ok := refParseDER(sig)
	if ok {
		ok = refEcdsaVerify(P, h, r, s)
	}
	err := xcrypto.EcdsaVerify(toPub(P), h, sig)
	c.Check((err == nil) == ok, "ecdsa-verify", "verification of %x over %x under %s: error %v, valid is %v", sig, h, ptStr(P), err, ok)
	if ok {
		c.Count("valid")
	} else {
		c.Count("invalid")
	}
	c.NT(sig, h, P.x)
}

func c15verify(c *Ctx) {
	d, h := c.Scalar(), c.Digest()
	P := ecMulG(d)
	r, s := refSignWithNonce(d, h, c.Scalar())
	if r.Sign() == 0 || s.Sign() == 0 {
		return
	}
	sig := refDER(r, s) // S high or low: both satisfy the equation
	cmpVerify(c, P, h, sig)
	hi := new(big.Int).Sub(ecN, s)
	cmpVerify(c, P, h, refDER(r, hi))
	switch c.N(9) {
	case 0:
		cmpVerify(c, P, h, c.mutate(sig))
	case 1:
		cmpVerify(c, P, c.mutate(h), sig)
	case 2:
		cmpVerify(c, ecMulG(c.Scalar()), h, sig)
	case 3:
		cmpVerify(c, ecNeg(P), h, sig)
	case 4: // out-of-range representatives of the same residues
		cmpVerify(c, P, h, refDER(new(big.Int).Add(r, ecN), s))
		cmpVerify(c, P, h, refDER(r, new(big.Int).Add(s, ecN)))
	case 5:
		cmpVerify(c, P, h, refDER(new(big.Int), s))
		cmpVerify(c, P, h, refDER(r, new(big.Int)))
		cmpVerify(c, P, h, refDER(new(big.Int), new(big.Int)))
		cmpVerify(c, P, h, refDER(ecN, s))
		cmpVerify(c, P, h, refDER(r, ecN))
	case 6:
		cmpVerify(c, P, h, refDER(s, r))
	case 7: // trailing bytes outside and inside
		cmpVerify(c, P, h, append(append([]byte{}, sig...), c.Bytes(c.Range(1, 3))...))
		in := append(append([]byte{}, sig...), 0)
		in[1]++
		cmpVerify(c, P, h, in)
		cmpVerify(c, P, h, append(append([]byte{}, sig...), 1))
	case 8: // negative numbers
		b := append([]byte{}, sig...)
		b[4] |= 0x80
		cmpVerify(c, P, h, b)
	}
	if len(h) != 32 { // only the leftmost 32 bytes count
		cmpVerify(c, P, append(append([]byte{}, h...), 0), sig)
	}
}

// strict DER decoding against every kind of malformed encoding
func c15der(c *Ctx) {
	num := func() *big.Int {
		switch c.N(5) {
		case 0:
			return big.NewInt(int64(c.N(300)))
		case 1:
			return new(big.Int).SetBytes(c.Blob(c.Range(0, 34)))
		}
		return c.Scalar()
	}
	r, s := num(), num()
	good := refDER(r, s)
	b := good
	enc := func(v []byte) []byte { return append([]byte{2, byte(len(v))}, v...) }
	wrap := func(parts ...[]byte) []byte {
		var body []byte
		for _, p := range parts {
			body = append(body, p...)
		}
		return append([]byte{0x30, byte(len(body))}, body...)
	}
	switch c.N(12) {
	case 0, 1:
		b = c.mutate(good)
	case 2: // superfluous zero
		b = wrap(enc(append([]byte{0}, derInt(r)[2:]...)), derInt(s))
	case 3:
		b = wrap(derInt(r), enc(append([]byte{0}, derInt(s)[2:]...)))
	case 4: // long-form lengths
		body := good[2:]
		b = append([]byte{0x30, 0x81, byte(len(body))}, body...)
	case 5:
		ri := derInt(r)
		b = wrap(append([]byte{2, 0x81, ri[1]}, ri[2:]...), derInt(s))
	case 6: // indefinite
		b = append(append([]byte{0x30, 0x80}, good[2:]...), 0, 0)
	case 7: // empty integers
		b = wrap([]byte{2, 0}, derInt(s))
		if c.Bool() {
			b = wrap(derInt(r), []byte{2, 0})
		}
	case 8: // more or fewer elements
		switch c.N(3) {
		case 0:
			b = wrap(derInt(r))
		case 1:
			b = wrap(derInt(r), derInt(s), derInt(big.NewInt(int64(c.N(500)))))
		case 2:
			b = wrap(derInt(r), derInt(s), []byte{5, 0})
		}
	case 9: // other tags
		b = append([]byte{}, good...)
		b[c.Pick(0, 2, 4+len(derInt(r))-2)] = byte(c.Pick(0x31, 0x10, 0x0a, 0x04, 0xa0, 0x22, 0x24, 0x03))
	case 10: // missing sign byte: negative
		v := append([]byte{}, derInt(r)[2:]...)
		v[0] |= 0x80
		b = wrap(enc(v), derInt(s))
	}
	c.Note(func() string { return fmt.Sprintf("bytes=%x", b) })
	wr, ws, ok := refParseDER(b)
	arg, g := guarded(b, 6)
	so := xcrypto.NewSignatureEcdsa()
	err := so.Deserialize(arg)
	c.Check(g.ok(), "der-writes", "decoding wrote into its argument")
	if ok {
		c.Check(err == nil && so.R.Cmp(wr) == 0 && so.S.Cmp(ws) == 0, "der-decode", "canonical encoding rejected or misread: %v", err)
		out, err := so.Serialize()
		c.Check(err == nil && bytes.Equal(out, b), "der-encode", "encodes again to %x, %v", out, err)
		c.Count("canonical")
	} else {
		// negative numbers have a DER encoding of their own; they are outside every range
		if err == nil {
			neg := so.R.Sign() < 0 || so.S.Sign() < 0
			out, _ := so.Serialize()
			c.Check(neg && bytes.Equal(out, b), "der-accept", "malformed encoding is accepted as (%x,%x)", so.R, so.S)
		}
		e2 := xcrypto.EcdsaVerify(prvOf(big.NewInt(7)).PubKey(), make([]byte, 32), b)
		c.Check(e2 != nil, "der-verify", "malformed encoding verifies")
		c.Count("malformed")
	}
	c.NT(b)
}

func c15nonce(c *Ctx) {
	q := ecN
	switch c.N(6) {
	case 0:
		q = elliptic.P256().Params().N
	case 1:
		q = elliptic.P224().Params().N
	case 2:
		q = elliptic.P384().Params().N
	case 3, 4: // any order of a whole number of bytes; just above a power of two every other candidate is too large
		b := c.Hash(c.Range(8, 64))
		b[0] |= 0x80
		if c.Bool() {
			b[0] = 0x80
		}
		q = new(big.Int).SetBytes(b)
	}
	x := c.Big(new(big.Int).Sub(q, bigOne))
	x.Add(x, bigOne)
	h := c.Digest()
	want := refRFC6979(q, x, h)
	got := xecdsa.NonceRFC6979(q, x, h)
	c.Check(got.Cmp(want) == 0, "rfc6979", "q=%x x=%x hash=%x: nonce %x, want %x", q, x, h, got, want)
	c.NT(q, x, h)
}

// A signature whose s is zero or r is zero cannot be made here; but the digest that makes s tiny can:
// e = s*k - r*d for chosen k and s. Such signatures have short numbers in their encodings.
func c15rare(c *Ctx) {
	d, k := c.Scalar(), c.Scalar()
	s := big.NewInt(int64(1 + c.Idx*37))
	if c.Idx%3 == 1 {
		s = new(big.Int).Rsh(ecHalfN, uint(8*c.N(20)))
	}
	R := ecMulG(k)
	r := new(big.Int).Mod(R.x, ecN)
	e := new(big.Int).Mul(s, k)
	e.Sub(e, new(big.Int).Mul(r, d))
	e.Mod(e, ecN)
	P := ecMulG(d)
	cmpVerify(c, P, pad32(e), refDER(r, s))
	c.Check(xcrypto.EcdsaVerify(toPub(P), pad32(e), refDER(r, s)) == nil, "ecdsa-short-s", "a signature with S=%x does not verify", s)
	// s = 0 for this digest: must not verify
	e0 := new(big.Int).Mul(r, d)
	e0.Neg(e0)
	e0.Mod(e0, ecN)
	cmpVerify(c, P, pad32(e0), refDER(r, new(big.Int)))
	// a digest congruent to the same number verifies too
	if e.BitLen() < 200 {
		cmpVerify(c, P, pad32(new(big.Int).Add(e, ecN)), refDER(r, s))
	}
}

// ---- C16 ----

func (r *Rand) Message() []byte {
	if r.P(40) {
		return r.Bytes(r.Pick(1000, 4096, 5000, 65536, 70001, r.N(20000)))
	}
	if r.P(3) {
		return r.Blob(r.Len(300))
	}
	return r.Hash(32)
}

func c16sign(c *Ctx) {
	d, m := c.Scalar(), c.Message()
	c.Note(func() string { return fmt.Sprintf("d=%x m=%x", d, m) })
	prv := prvOf(d)
	arg, g := guarded(m, 40)
	sig, err := xcrypto.SchnorrSign(prv, arg)
	want := refSchnorrSign(d, m)
	c.Check(err == nil && bytes.Equal(sig, want), "schnorr-sign", "signature is %x (%v), the scheme gives %x", sig, err, want)
	c.Check(g.ok() && prv.D.Cmp(d) == 0, "schnorr-sign-writes", "signing wrote into its arguments")
	c.Check(xcrypto.SchnorrVerify(prv.PubKey(), m, sig) == nil, "schnorr-verify-own", "the signature does not verify")
	c.Check(xcrypto.SchnorrVerify(prv.PubKey(), m, sig) == nil, "schnorr-verify-own", "the signature does not verify again")
	sig2, _ := xcrypto.SchnorrSign(prv, m)
	c.Check(bytes.Equal(sig, sig2), "schnorr-repeat", "signing again gives %x", sig2)
	r, s, err := schnorr.Sign((*ecdsa.PrivateKey)(prv), m)
	c.Check(err == nil && bytes.Equal(append(pad32(r), pad32(s)...), want), "schnorr-raw", "schnorr.Sign gives %x %x", r, s)
	c.Check(refSchnorrVerify(ecMulG(d), m, want), "model", "the model rejects its own signature")
	// the steps of the scheme, as the package offers them for signing in several parties
	h := sha256.Sum256(append(append([]byte{}, pad32(d)...), m...))
	wk0 := new(big.Int).SetBytes(h[:])
	wk0.Mod(wk0, ecN)
	k0, err := schnorr.GetK0(m, pad32(d), ecN)
	c.Check(err == nil && k0.Cmp(wk0) == 0, "schnorr-k0", "GetK0 gives %x (%v), the scheme %x", k0, err, wk0)
	if err == nil {
		R, P := ecMulG(wk0), ecMulG(d)
		wk := new(big.Int).Set(wk0)
		if jacobiY(R.y) != 1 {
			wk.Sub(ecN, wk)
		}
		k := schnorr.GetK(theCurve(), R.y, k0)
		c.Check(k.Cmp(wk) == 0, "schnorr-k", "GetK gives %x, the scheme %x", k, wk)
		c.Check(bytes.Equal(schnorr.IntToByte(R.x), pad32(R.x)), "schnorr-bytes", "IntToByte(%x) is %x", R.x, schnorr.IntToByte(R.x))
		e := schnorr.GetE(theCurve(), m, P.x, P.y, pad32(R.x))
		c.Check(e.Cmp(refSchnorrE(R.x, P, m)) == 0, "schnorr-e", "GetE gives %x, the scheme %x", e, refSchnorrE(R.x, P, m))
	}
	c.NT(d, m)
	c.Sample("d=%x m=%x sig=%x", d, m, sig)
}

func cmpSchnorr(c *Ctx, P pt, m, sig []byte) bool {
	ok := refSchnorrVerify(P, m, sig)
	err := xcrypto.SchnorrVerify(toPub(P), m, sig)
	c.Check((err == nil) == ok, "schnorr-verify", "verification of %x over %x under %s: error %v, valid is %v", sig, m, ptStr(P), err, ok)
	if ok {
		c.Count("valid")
	} else {
		c.Count("invalid")
	}
	c.NT(sig, m, P.x)
	return ok
}

// schnorrWith signs with a chosen nonce, with the right or the wrong square-root of R.
func schnorrWith(d, k *big.Int, m []byte, residue bool) []byte {
	R := ecMulG(k)
	if (jacobiY(R.y) == 1) != residue {
		k = new(big.Int).Sub(ecN, k)
	}
	e := refSchnorrE(R.x, ecMulG(d), m)
	s := new(big.Int).Mul(e, d)
	s.Add(s, k)
	return append(pad32(R.x), pad32(s.Mod(s, ecN))...)
}

// relatedKeys gives a few keys, among them one and its negative (which share their X).
func (c *Ctx) relatedKeys() []*big.Int {
	d := c.Scalar()
	return []*big.Int{d, new(big.Int).Sub(ecN, d), c.Scalar()}
}

// c15points makes the sum inside the verification take its special cases.
func c15points(c *Ctx) {
	d, k := c.Scalar(), c.Scalar()
	P := ecMulG(d)
	r := new(big.Int).Mod(ecMulG(k).x, ecN)
	rd := new(big.Int).Mul(r, d)
	rd.Mod(rd, ecN)
	h := pad32(rd)
	if c.Bool() { // both terms are the same point
		s := new(big.Int).Lsh(rd, 1)
		s.Mul(s, new(big.Int).ModInverse(k, ecN)).Mod(s, ecN)
		if s.Sign() == 0 {
			return
		}
		cmpVerify(c, P, h, refDER(r, s))
		cmpVerify(c, P, h, refDER(r, new(big.Int).Sub(ecN, s)))
		cmpVerify(c, ecNeg(P), h, refDER(r, s))
		return
	}
	// the terms cancel out
	h = pad32(new(big.Int).Sub(ecN, rd))
	cmpVerify(c, P, h, refDER(r, c.Scalar()))
	cmpVerify(c, P, h, refDER(r, bigOne))
	cmpVerify(c, P, h, refDER(r, r))
}

// c15history verifies and signs, again and again, things that differ in little.
func c15history(c *Ctx) {
	ds := c.relatedKeys()
	h := c.Digest()
	hs := [][]byte{h, c.mutate(h), append(dup(h), 0), c.Bytes(32)}
	k := c.Scalar()
	type sample struct {
		d   *big.Int
		h   []byte
		sig []byte
	}
	var l []sample
	for _, d := range ds {
		for _, h := range hs {
			if r, s := refSignWithNonce(d, h, k); r.Sign() != 0 && s.Sign() != 0 {
				l = append(l, sample{d, h, refDER(r, s)}, sample{d, h, refDER(r, new(big.Int).Sub(ecN, s))})
			}
		}
	}
	for i := 0; i < 16; i++ {
		x := l[c.N(len(l))]
		y := x
		switch c.N(5) {
		case 0:
			y.d = ds[c.N(len(ds))]
		case 1:
			y.h = hs[c.N(len(hs))]
		case 2:
			y.sig = l[c.N(len(l))].sig
		case 3:
			got, err := xcrypto.EcdsaSign(prvOf(x.d), x.h)
			r, s := refEcdsaSign(x.d, x.h)
			c.Check(err == nil && bytes.Equal(got, refDER(r, s)), "ecdsa-sign", "signature is %x, RFC 6979 gives %x", got, refDER(r, s))
		}
		cmpVerify(c, ecMulG(y.d), y.h, y.sig)
		cmpVerify(c, ecMulG(x.d), x.h, x.sig)
	}
}

func c16history(c *Ctx) {
	ds := c.relatedKeys()
	m := c.Message()
	ms := [][]byte{m, c.mutate(m), append(dup(m), 0), c.Hash(32)}
	k := c.Scalar()
	type sample struct {
		d   *big.Int
		m   []byte
		sig []byte
	}
	var l []sample
	for _, d := range ds {
		for _, m := range ms {
			l = append(l, sample{d, m, schnorrWith(d, k, m, true)}, sample{d, m, schnorrWith(d, k, m, false)})
		}
	}
	for i := 0; i < 16; i++ {
		x := l[c.N(len(l))]
		y := x
		switch c.N(5) {
		case 0:
			y.d = ds[c.N(len(ds))]
		case 1:
			y.m = ms[c.N(len(ms))]
		case 2:
			y.sig = l[c.N(len(l))].sig
		case 3:
			got, err := xcrypto.SchnorrSign(prvOf(x.d), x.m)
			c.Check(err == nil && bytes.Equal(got, refSchnorrSign(x.d, x.m)), "schnorr-sign", "signature is %x, the scheme gives %x", got, refSchnorrSign(x.d, x.m))
		}
		cmpSchnorr(c, ecMulG(y.d), y.m, y.sig)
		cmpSchnorr(c, ecMulG(x.d), x.m, x.sig)
	}
}

func c16verify(c *Ctx) {
	d, m := c.Scalar(), c.Message()
	P := ecMulG(d)
	k := c.Scalar()
	sig := schnorrWith(d, k, m, true)
	if !cmpSchnorr(c, P, m, sig) {
		c.Fail("model", "the model rejects a signature with a chosen nonce")
	}
	switch c.N(9) {
	case 0:
		cmpSchnorr(c, P, m, c.mutate(sig))
	case 1:
		cmpSchnorr(c, P, c.mutate(m), sig)
	case 2:
		cmpSchnorr(c, ecMulG(c.Scalar()), m, sig)
	case 3:
		cmpSchnorr(c, ecNeg(P), m, sig)
	case 4: // Y is not a quadratic residue
		cmpSchnorr(c, P, m, schnorrWith(d, k, m, false))
	case 5: // s' = n - s
		b := append([]byte{}, sig...)
		copy(b[32:], pad32(new(big.Int).Sub(ecN, new(big.Int).SetBytes(sig[32:]))))
		cmpSchnorr(c, P, m, b)
	case 6: // swapped halves, zero halves
		cmpSchnorr(c, P, m, append(append([]byte{}, sig[32:]...), sig[:32]...))
		cmpSchnorr(c, P, m, append(make([]byte, 32), sig[32:]...))
		cmpSchnorr(c, P, m, append(append([]byte{}, sig[:32]...), make([]byte, 32)...))
		cmpSchnorr(c, P, m, make([]byte, 64))
	case 8: // the nonce point of this one is the identity
		for _, r := range []*big.Int{new(big.Int), bigOne, new(big.Int).SetBytes(sig[:32])} {
			s := new(big.Int).Mul(refSchnorrE(r, P, m), d)
			cmpSchnorr(c, P, m, append(pad32(r), pad32(s.Mod(s, ecN))...))
		}
	case 7: // halves at their limits
		cmpSchnorr(c, P, m, append(pad32(ecP), sig[32:]...))
		cmpSchnorr(c, P, m, append(append([]byte{}, sig[:32]...), pad32(ecN)...))
		cmpSchnorr(c, P, m, bytes.Repeat([]byte{0xff}, 64))
		cmpSchnorr(c, P, m, append(pad32(new(big.Int).Sub(ecP, bigOne)), pad32(new(big.Int).Sub(ecN, bigOne))...))
	}
}

// representatives above the limits: choose k so that s+n or r+p still fits 256 bits
func c16rare(c *Ctx) {
	m := c.Hash(32)
	d := c.Scalar()
	k := big.NewInt(int64(1 + c.Idx))
	if c.Idx%2 == 1 {
		k = new(big.Int).Sub(ecN, k)
	}
	sig := schnorrWith(d, k, m, true)
	cmpSchnorr(c, ecMulG(d), m, sig)
	c.Check(xcrypto.SchnorrVerify(toPub(ecMulG(d)), m, sig) == nil, "schnorr-edge-nonce", "a signature with nonce %x does not verify", k)
}

func c16len(c *Ctx) {
	d, m := c.Scalar(), c.Message()
	sig := refSchnorrSign(d, m)
	P := ecMulG(d)
	n := c.N(130)
	b := make([]byte, n)
	switch c.N(3) {
	case 0:
		copy(b, sig)
	case 1:
		if n > 64 {
			copy(b[n-64:], sig)
		} else {
			copy(b, sig[64-n:])
		}
	case 2:
		b = append(append([]byte{}, sig...), c.Bytes(c.Range(1, 66))...)
	}
	so := xcrypto.NewSignatureSchnorr()
	err := so.Deserialize(b)
	c.Check((err == nil) == (len(b) == 64), "schnorr-length", "a signature of %d bytes: %v", len(b), err)
	if err == nil {
		out, err := so.Serialize()
		c.Check(err == nil && bytes.Equal(out, b), "schnorr-serialize", "serialises again to %x", out)
	}
	cmpSchnorr(c, P, m, b)
}

// ---- C17 ----

type pkp struct {
	pub *paillier.PubKey
	prv *paillier.PrvKey
}

var (
	pkMu    sync.Mutex
	pkCache = map[int][]pkp{}
)

// keyPair returns one of a few generated key pairs of a size (generation is random, not seeded).
func keyPair(c *Ctx, bitlen int) pkp {
	slot := c.N(4)
	pkMu.Lock()
	for _, k := range pkCache[bitlen] {
		if slot == 0 {
			pkMu.Unlock()
			return k
		}
		slot--
	}
	pkMu.Unlock()
	pub, prv, err := paillier.GenerateKeyPair(bitlen)
	c.Check(err == nil, "paillier-keygen", "%d-bit key pair: %v", bitlen, err)
	c.Check(pub.N.BitLen() >= bitlen-1 && pub.N.BitLen() <= bitlen, "paillier-keysize", "modulus of a %d-bit key has %d bits", bitlen, pub.N.BitLen())
	c.Check(new(big.Int).Mul(pub.N, pub.N).Cmp(pub.NN) == 0 && !pub.N.ProbablyPrime(10), "paillier-key", "modulus %x is not a composite with its square", pub.N)
	k := pkp{pub, prv}
	pkMu.Lock()
	if len(pkCache[bitlen]) < 3 {
		pkCache[bitlen] = append(pkCache[bitlen], k)
	}
	pkMu.Unlock()
	return k
}

func (r *Rand) plain(n *big.Int) *big.Int {
	switch r.N(8) {
	case 0:
		return big.NewInt(0)
	case 1:
		return big.NewInt(1)
	case 2:
		return new(big.Int).Sub(n, big.NewInt(int64(1+r.N(3))))
	case 3:
		return new(big.Int).Rsh(n, 1)
	case 4:
		return big.NewInt(int64(r.N(1000)))
	}
	return r.Big(n)
}

var paillierBits = []int{128, 192, 256, 384, 512}

func c17homo(c *Ctx) { c17ops(c, paillierBits[c.N(len(paillierBits))]) }

func c17large(c *Ctx) { c17ops(c, []int{1024, 2048}[c.Idx%2]) }

func c17ops(c *Ctx, bits int) {
	k := keyPair(c, bits)
	N := k.pub.N
	a, b := c.plain(N), c.plain(N)
	c.Note(func() string { return fmt.Sprintf("N=%x a=%x b=%x", N, a, b) })
	a0, b0 := new(big.Int).Set(a), new(big.Int).Set(b)
	ea, err := k.pub.Encrypt(a)
	c.Check(err == nil, "paillier-encrypt", "a is refused: %v", err)
	eb, err := k.pub.Encrypt(b)
	c.Check(err == nil, "paillier-encrypt", "b is refused: %v", err)
	ea2, _ := k.pub.Encrypt(a)
	c.Check(ea.Cmp(ea2) != 0, "paillier-randomized", "two encryptions of the same plaintext are equal")
	ea0, eb0 := new(big.Int).Set(ea), new(big.Int).Set(eb)
	NN := new(big.Int).Set(k.pub.NN)
	dec := func(name string, ct, want *big.Int) {
		want = new(big.Int).Mod(want, N)
		got, err := k.prv.Decrypt(ct)
		c.Check(err == nil && got.Cmp(want) == 0, "paillier-"+name, "%s decrypts to %x (%v), want %x", name, got, err, want)
	}
	dec("decrypt", ea, a)
	dec("decrypt", ea2, a)
	dec("decrypt", eb, b)
	s, err := k.pub.Add(ea, eb)
	c.Check(err == nil, "paillier-add", "Add: %v", err)
	dec("add", s, new(big.Int).Add(a, b))
	dec("sub", k.pub.Sub(ea, eb), new(big.Int).Sub(a, b))
	s, err = k.pub.AddPlaintext(ea, b)
	c.Check(err == nil, "paillier-addplain", "AddPlaintext: %v", err)
	dec("addplain", s, new(big.Int).Add(a, b))
	for _, o := range []*big.Int{new(big.Int).Neg(b), new(big.Int).Add(b, N), new(big.Int).Sub(b, N)} {
		o0 := new(big.Int).Set(o)
		s, err = k.pub.AddPlaintext(ea, o)
		c.Check(err == nil, "paillier-addplain-unreduced", "AddPlaintext %x: %v", o, err)
		dec("addplain-unreduced", s, new(big.Int).Add(a, o))
		s, err = k.pub.MultPlaintext(ea, o)
		c.Check(err == nil, "paillier-multplain-unreduced", "MultPlaintext %x: %v", o, err)
		dec("multplain-unreduced", s, new(big.Int).Mul(a, o))
		c.Check(o.Cmp(o0) == 0, "paillier-operands", "an operand was changed")
	}
	s, err = k.pub.MultPlaintext(ea, b)
	c.Check(err == nil, "paillier-multplain", "MultPlaintext: %v", err)
	dec("multplain", s, new(big.Int).Mul(a, b))
	if inv := new(big.Int).ModInverse(b, N); inv != nil {
		s, err = k.pub.DivPlaintext(ea, b)
		c.Check(err == nil, "paillier-divplain", "DivPlaintext: %v", err)
		dec("divplain", s, new(big.Int).Mul(a, inv))
	} else {
		s, err = k.pub.DivPlaintext(ea, b)
		c.Check(err != nil, "paillier-divplain-zero", "dividing by %x gives %x", b, s)
	}
	c.Check(a.Cmp(a0) == 0 && b.Cmp(b0) == 0 && ea.Cmp(ea0) == 0 && eb.Cmp(eb0) == 0, "paillier-operands", "an operand was changed")
	c.Check(k.pub.NN.Cmp(NN) == 0 && k.pub.G.Cmp(new(big.Int).Add(N, bigOne)) == 0, "paillier-key-changed", "the key was changed")
	dec("decrypt-after", ea, a)
	c.NT(N, a, b)
	c.Sample("%d bits a=%x b=%x", bits, a, b)
}

func c17chain(c *Ctx) {
	k := keyPair(c, paillierBits[c.N(len(paillierBits))])
	N := k.pub.N
	v := c.plain(N)
	ct, err := k.pub.Encrypt(v)
	c.Check(err == nil, "paillier-encrypt", "%v", err)
	var ops []string
	step := c.Range(2, 12)
	if c.P(40) {
		step = c.Range(30, 150)
	}
	for ; step > 0; step-- {
		o := c.plain(N)
		if c.P(5) { // plaintext operands need not be reduced
			o = new(big.Int).Add(o, N)
		} else if c.P(5) {
			o = new(big.Int).Neg(o)
		}
		switch c.N(5) {
		case 0:
			e, err := k.pub.Encrypt(new(big.Int).Mod(o, N))
			c.Check(err == nil, "paillier-encrypt", "%v", err)
			ct, err = k.pub.Add(ct, e)
			c.Check(err == nil, "paillier-chain", "%v", err)
			v = new(big.Int).Add(v, o)
			ops = append(ops, "add")
		case 1:
			e, err := k.pub.Encrypt(new(big.Int).Mod(o, N))
			c.Check(err == nil, "paillier-encrypt", "%v", err)
			ct = k.pub.Sub(ct, e)
			v = new(big.Int).Sub(v, o)
			ops = append(ops, "sub")
		case 2:
			ct, err = k.pub.AddPlaintext(ct, o)
			c.Check(err == nil, "paillier-chain", "%v", err)
			v = new(big.Int).Add(v, o)
			ops = append(ops, "addplain")
		case 3:
			ct, err = k.pub.MultPlaintext(ct, o)
			c.Check(err == nil, "paillier-chain", "%v", err)
			v = new(big.Int).Mul(v, o)
			ops = append(ops, "multplain")
		case 4:
			inv := new(big.Int).ModInverse(o, N)
			if inv == nil {
				continue
			}
			ct, err = k.pub.DivPlaintext(ct, o)
			c.Check(err == nil, "paillier-chain", "%v", err)
			v = new(big.Int).Mul(v, inv)
			ops = append(ops, "divplain")
		}
		v.Mod(v, N)
	}
	got, err := k.prv.Decrypt(ct)
	c.Check(err == nil && got.Cmp(v) == 0, "paillier-chain", "after %v: %x (%v), want %x", ops, got, err, v)
	c.NT(fmt.Sprint(ops), N, v)
}

func c17range(c *Ctx) {
	k := keyPair(c, paillierBits[c.N(len(paillierBits))])
	N := k.pub.N
	bad := []*big.Int{N, new(big.Int).Add(N, bigOne), big.NewInt(-1), big.NewInt(-int64(1 + c.N(1000))), new(big.Int).Add(N, c.Big(N)), new(big.Int).Mul(N, N), new(big.Int).Neg(N)}[c.N(7)]
	ct, err := k.pub.Encrypt(bad)
	c.Check(err != nil, "paillier-range", "plaintext %x of modulus %x is accepted: %x", bad, N, ct)
	for _, ct := range []*big.Int{nil, big.NewInt(0), big.NewInt(-5)} {
		_, err := k.prv.Decrypt(ct)
		c.Check(err != nil, "paillier-ciphertext", "ciphertext %v is accepted", ct)
	}
	good, err := k.pub.Encrypt(c.plain(N))
	c.Check(err == nil, "paillier-range-edge", "%v", err)
	for _, ct := range []*big.Int{nil, big.NewInt(0), big.NewInt(-5)} {
		_, err1 := k.pub.Add(ct, good)
		_, err2 := k.pub.Add(good, ct)
		_, err3 := k.pub.AddPlaintext(ct, bigTwo)
		_, err4 := k.pub.MultPlaintext(ct, bigTwo)
		_, err5 := k.pub.DivPlaintext(ct, bigTwo)
		c.Check(err1 != nil && err2 != nil && err3 != nil && err4 != nil && err5 != nil, "paillier-operand", "an operation takes %v for a ciphertext: %v %v %v %v %v", ct, err1, err2, err3, err4, err5)
	}
	m := c.plain(N)
	e, err := k.pub.Encrypt(m)
	c.Check(err == nil, "paillier-range-edge", "plaintext %x is refused: %v", m, err)
	got, err := k.prv.Decrypt(e)
	c.Check(err == nil && got.Cmp(m) == 0, "paillier-roundtrip", "%x decrypts to %x %v", m, got, err)
	c.NT(bad, N)
}

// ---- C18 and C20 ----

func scalarPt(s *secp256k1.Scalar) pt { return fromXY(s.X, s.Y) }

// largest gives keys and a digest for which the numbers that are encrypted are about as large as they get.
func (c *Ctx) largest() (*big.Int, *big.Int, []byte) {
	c.Count("largest operands")
	d1 := new(big.Int).Sub(ecN, big.NewInt(int64(1+c.N(1000))))
	d2 := new(big.Int).Sub(ecN, big.NewInt(int64(1+c.N(1000))))
	var h []byte
	for i := 0; i < 200; i++ {
		h = c.Hash(32)
		h[0] |= 0xc0
		kinv := new(big.Int).ModInverse(refRFC6979(ecN, []*big.Int{d1, d2}[i%2], h), ecN)
		if kinv.Rsh(kinv, 248).Int64() >= 0xf8 {
			break
		}
	}
	return d1, d2, h
}

func c18run(c *Ctx) {
	d1, d2, h := c.Scalar(), c.Scalar(), c.Hash(32)
	if c.P(3) {
		h = c.Digest()
	}
	if c.P(8) {
		d2 = d1
	}
	if c.P(2) {
		d1, d2, h = c.largest()
	}
	c.Note(func() string { return fmt.Sprintf("d1=%x d2=%x hash=%x", d1, d2, h) })
	c.NT(d1, d2, h)
	h0 := append([]byte{}, h...)
	p1, p2 := xcrypto.NewEcdsaParty(prvOf(d1)), xcrypto.NewEcdsaParty(prvOf(d2))
	defer p1.Close()
	defer p2.Close()
	pub1, pub2 := toPub(ecMulG(d1)), toPub(ecMulG(d2))
	s1, s2 := p1.Phase1(pub2), p2.Phase1(pub1)
	Q := ecMulG(new(big.Int).Mul(d1, d2))
	c.Check(pubPt(s1).eq(Q) && pubPt(s2).eq(Q), "mpc-ecdsa-pub", "shared keys are %s and %s, want %s", ptStr(pubPt(s1)), ptStr(pubPt(s2)), ptStr(Q))
	var e1, e2 *big.Int
	var k1, k2 *paillier.PubKey
	var r1, r2 *secp256k1.Scalar
	if c.Bool() {
		e1, k1, r1 = p1.Phase2(h)
		e2, k2, r2 = p2.Phase2(h)
	} else {
		e2, k2, r2 = p2.Phase2(h)
		e1, k1, r1 = p1.Phase2(h)
	}
	c.Check(e1 != nil && e2 != nil && r1 != nil && r2 != nil, "mpc-ecdsa-phase2", "phase 2 gives nothing")
	c.Check(k1 != nil && k2 != nil, "mpc-ecdsa-phase2", "phase 2 gives no encryption key")
	R1, R2 := p1.Phase3(r2), p2.Phase3(r1)
	c.Check(scalarPt(R1).eq(scalarPt(R2)) && ecOnCurve(R1.X, R1.Y), "mpc-ecdsa-nonce", "shared nonce points are %s and %s", ptStr(scalarPt(R1)), ptStr(scalarPt(R2)))
	c1, err := p1.Phase4(e2, k2, R1)
	c.Check(err == nil, "mpc-ecdsa-phase4", "%v", err)
	c2, err := p2.Phase4(e1, k1, R2)
	c.Check(err == nil, "mpc-ecdsa-phase4", "%v", err)
	sig1, err := p1.Phase5(R1, c2)
	c.Check(err == nil, "mpc-ecdsa-phase5", "%v", err)
	sig2, err := p2.Phase5(R2, c1)
	c.Check(err == nil, "mpc-ecdsa-phase5", "%v", err)
	for i, sig := range [][]byte{sig1, sig2} {
		r, s, ok := refParseDER(sig)
		c.Check(ok && s.Cmp(ecHalfN) <= 0 && refEcdsaVerify(Q, h0, r, s), "mpc-ecdsa-sig", "signature %x of party %d is not a strict low-S signature of the shared key", sig, i+1)
		c.Check(xcrypto.EcdsaVerify(s1, h0, sig) == nil, "mpc-ecdsa-verify", "signature %x of party %d does not verify", sig, i+1)
	}
	c.Check(bytes.Equal(sig1, sig2), "mpc-ecdsa-same", "the parties' signatures differ: %x %x", sig1, sig2)
	c.Check(bytes.Equal(h, h0), "mpc-ecdsa-writes", "the digest was changed")
	// repeating the final phase gives the same signature
	again, err := p1.Phase5(R1, c2)
	c.Check(err == nil && bytes.Equal(again, sig1), "mpc-ecdsa-repeat", "repeating phase 5 gives %x", again)
	// and so does repeating the earlier ones
	c.Check(scalarPt(p1.Phase3(r2)).eq(scalarPt(R1)), "mpc-ecdsa-repeat3", "repeating phase 3 gives another point")
	c.Check(pubPt(p1.Phase1(pub2)).eq(Q), "mpc-ecdsa-repeat1", "repeating phase 1 gives another key")
	c1b, err := p1.Phase4(e2, k2, R1)
	c.Check(err == nil, "mpc-ecdsa-repeat4", "%v", err)
	again, err = p2.Phase5(R2, c1b)
	c.Check(err == nil && bytes.Equal(again, sig2), "mpc-ecdsa-repeat4", "after repeating phase 4 the signature is %x (%v)", again, err)
	c.Sample("d1=%x d2=%x hash=%x sig=%x", d1, d2, h, sig1)
}

func c18tamper(c *Ctx) {
	d1, d2, h := c.Scalar(), c.Scalar(), c.Hash(32)
	p1, p2 := xcrypto.NewEcdsaParty(prvOf(d1)), xcrypto.NewEcdsaParty(prvOf(d2))
	s1 := p1.Phase1(toPub(ecMulG(d2)))
	p2.Phase1(toPub(ecMulG(d1)))
	h2 := h
	mode := c.Idx % 6
	if mode == 0 {
		h2 = c.mutate(h)
		h2 = append(h2, make([]byte, 32)...)[:32]
		if bytes.Equal(h, h2) {
			h2[0] ^= 1
		}
	}
	e1, k1, r1 := p1.Phase2(h)
	e2, k2, r2 := p2.Phase2(h2)
	switch mode {
	case 1: // altered encrypted key
		e2 = new(big.Int).Mod(new(big.Int).Add(e2, bigOne), k2.NN)
		e1, _ = k1.AddPlaintext(e1, bigOne)
	case 2: // altered nonce point
		x := ecAdd(scalarPt(r2), ecG)
		r2 = secp256k1.NewScalar(x.x, x.y)
	}
	R1, R2 := p1.Phase3(r2), p2.Phase3(r1)
	c1, err1 := p1.Phase4(e2, k2, R1)
	c2, err2 := p2.Phase4(e1, k1, R2)
	if err1 != nil || err2 != nil {
		c.Count("error")
		return
	}
	switch mode {
	case 3: // altered signature share
		c1, _ = k2.AddPlaintext(c1, bigOne)
		c2, _ = k1.AddPlaintext(c2, bigOne)
	case 4: // share for another digest
		c1, _ = k2.MultPlaintext(c1, bigTwo)
		c2, _ = k1.MultPlaintext(c2, bigTwo)
	}
	if mode == 5 { // no ciphertexts
		for _, v := range []*big.Int{nil, new(big.Int), big.NewInt(-1), new(big.Int).Neg(c2)} {
			sig, err := p1.Phase5(R1, v)
			c.Check(err != nil && sig == nil, "mpc-ecdsa-range", "phase 5 takes %v for a ciphertext and gives %x", v, sig)
		}
		c.NT(d1, d2, h, mode)
		return
	}
	sig1, err1 := p1.Phase5(R1, c2)
	sig2, err2 := p2.Phase5(R2, c1)
	n := 0
	for i, hh := range [][]byte{h, h2} {
		sig := [][]byte{sig1, sig2}[i]
		if sig == nil {
			continue
		}
		n++
		c.Check(xcrypto.EcdsaVerify(s1, hh, sig) != nil, "mpc-ecdsa-tamper", "a tampered run (mode %d) gives party %d a signature that verifies", mode, i+1)
	}
	c.Check(n > 0 || err1 != nil || err2 != nil, "mpc-ecdsa-tamper", "no result and no error")
	c.NT(d1, d2, h, mode)
}

func c20run(c *Ctx) {
	d1, d2, h := c.Scalar(), c.Scalar(), c.Hash(32)
	t := c.Scalar()
	for t.Cmp(bigOne) == 0 || new(big.Int).Add(t, bigOne).Cmp(ecN) == 0 {
		t = c.Scalar()
	}
	if c.P(3) {
		h = c.Digest()
	}
	if c.P(2) {
		d1, d2, h = c.largest()
	}
	c.Note(func() string { return fmt.Sprintf("d1=%x d2=%x hash=%x secret=%x", d1, d2, h, t) })
	c.NT(d1, d2, h, t)
	secret := new(big.Int).Set(t)
	alice, bob := xcrypto.NewEcdsaAlice(prvOf(d1)), xcrypto.NewEcdsaBob(prvOf(d2), secret)
	pa, pb := alice.ScriptlessPhase1(toPub(ecMulG(d2))), bob.ScriptlessPhase1(toPub(ecMulG(d1)))
	Q := ecMulG(new(big.Int).Mul(d1, d2))
	c.Check(pubPt(pa).eq(Q) && pubPt(pb).eq(Q), "scriptless-pub", "shared keys differ")
	e1, k1, r1 := alice.ScriptlessPhase2(h)
	e2, k2, r2 := bob.ScriptlessPhase2(h)
	c.Check(e1 != nil && e2 != nil, "scriptless-phase2", "phase 2 gives nothing")
	R1, R2 := alice.ScriptlessPhase3(r2), bob.ScriptlessPhase3(r1)
	c.Check(scalarPt(R1).eq(scalarPt(R2)) && ecOnCurve(R1.X, R1.Y), "scriptless-nonce", "shared nonce points differ")
	c1, err := alice.ScriptlessPhase4(e2, k2, R1)
	c.Check(err == nil, "scriptless-phase4", "%v", err)
	c2, err := bob.ScriptlessPhase4(e1, k1, R2)
	c.Check(err == nil, "scriptless-phase4", "%v", err)
	fa, err := alice.ScriptlessPhase5(R1, c2)
	c.Check(err == nil, "scriptless-phase5", "%v", err)
	fb, err := bob.ScriptlessPhase5(R2, c1)
	c.Check(err == nil, "scriptless-phase5", "%v", err)
	fa0, fb0 := new(big.Int).Set(fa), new(big.Int).Set(fb)
	sig, err := bob.ScriptlessPhase6(R2, fb)
	c.Check(err == nil, "scriptless-phase6", "%v", err)
	r, s, ok := refParseDER(sig)
	c.Check(ok && s.Cmp(ecHalfN) <= 0 && refEcdsaVerify(Q, h, r, s), "scriptless-sig", "the completed signature %x is not valid", sig)
	c.Check(xcrypto.EcdsaVerify(pa, h, sig) == nil, "scriptless-verify", "the completed signature %x does not verify", sig)
	got := alice.ScriptlessPhase6(fa, fb)
	c.Check(got.Cmp(t) == 0, "scriptless-secret", "Alice recovers %x", got)
	c.Check(fa.Cmp(fa0) == 0 && fb.Cmp(fb0) == 0 && secret.Cmp(t) == 0, "scriptless-writes", "a share or the secret was changed")
	// without the secret Alice's value is no signature
	for _, v := range []*big.Int{fa, new(big.Int).Sub(ecN, fa)} {
		bad := refDER(new(big.Int).Mod(R1.X, ecN), v)
		c.Check(xcrypto.EcdsaVerify(pa, h, bad) != nil, "scriptless-presig", "the incomplete signature verifies")
	}
	got = alice.ScriptlessPhase6(fa, fb)
	c.Check(got.Cmp(t) == 0, "scriptless-secret-again", "Alice recovers %x the second time", got)
	// repeated phases
	c.Check(scalarPt(alice.ScriptlessPhase3(r2)).eq(scalarPt(R1)) && scalarPt(bob.ScriptlessPhase3(r1)).eq(scalarPt(R1)), "scriptless-repeat3", "repeating phase 3 gives another point")
	fa2, err := alice.ScriptlessPhase5(R1, c2)
	c.Check(err == nil && fa2.Cmp(fa) == 0, "scriptless-repeat5", "Alice's repeated phase 5 gives %x (%v) after %x", fa2, err, fa)
	fb2, err := bob.ScriptlessPhase5(R2, c1)
	c.Check(err == nil && fb2.Cmp(fb) == 0, "scriptless-repeat5", "Bob's repeated phase 5 gives %x (%v) after %x", fb2, err, fb)
	sig2, err := bob.ScriptlessPhase6(R2, fb2)
	c.Check(err == nil && bytes.Equal(sig2, sig), "scriptless-repeat6", "Bob's repeated phase 6 gives %x (%v) after %x", sig2, err, sig)
	c.Sample("d1=%x d2=%x hash=%x secret=%x sig=%x", d1, d2, h, t, sig)
}

// c20tamper: no altered message of the protocol leads to a completed signature over the party's digest, and values that are
// no ciphertexts at all are errors.
func c20tamper(c *Ctx) {
	d1, d2, h := c.Scalar(), c.Scalar(), c.Hash(32)
	t := c.Scalar()
	alice, bob := xcrypto.NewEcdsaAlice(prvOf(d1)), xcrypto.NewEcdsaBob(prvOf(d2), new(big.Int).Set(t))
	pa := alice.ScriptlessPhase1(toPub(ecMulG(d2)))
	bob.ScriptlessPhase1(toPub(ecMulG(d1)))
	mode := c.Idx % 6
	h2 := dup(h)
	if mode == 0 {
		h2[c.N(32)] ^= byte(1 << uint(c.N(8)))
	}
	c.Note(func() string { return fmt.Sprintf("mode=%d d1=%x d2=%x hash=%x secret=%x", mode, d1, d2, h, t) })
	e1, k1, r1 := alice.ScriptlessPhase2(h2)
	e2, k2, r2 := bob.ScriptlessPhase2(h)
	switch mode {
	case 1:
		e1, _ = k1.AddPlaintext(e1, bigOne)
	case 2:
		x := ecAdd(scalarPt(r1), ecG)
		r1 = secp256k1.NewScalar(x.x, x.y)
	}
	R1, R2 := alice.ScriptlessPhase3(r2), bob.ScriptlessPhase3(r1)
	c1, err1 := alice.ScriptlessPhase4(e2, k2, R1)
	c2, err2 := bob.ScriptlessPhase4(e1, k1, R2)
	c.Check(err1 == nil && err2 == nil, "scriptless-phase4", "%v %v", err1, err2)
	switch mode {
	case 3:
		c1, _ = k2.AddPlaintext(c1, bigOne)
	case 4:
		c1, _ = k2.MultPlaintext(c1, bigTwo)
	case 5:
		for _, v := range []*big.Int{nil, new(big.Int), big.NewInt(-1), new(big.Int).Neg(c2)} {
			v := v
			if f, err := alice.ScriptlessPhase5(R1, v); err == nil {
				c.Fail("scriptless-range", "Alice's phase 5 takes %v for a ciphertext and gives %x", v, f)
			}
			if f, err := bob.ScriptlessPhase5(R2, v); err == nil {
				c.Fail("scriptless-range", "Bob's phase 5 takes %v for a ciphertext and gives %x", v, f)
			}
		}
		c.Count("range")
		c.NT(d1, d2, mode)
		return
	}
	fb, err := bob.ScriptlessPhase5(R2, c1)
	if err == nil {
		sig, err := bob.ScriptlessPhase6(R2, fb)
		c.Check(err != nil || mode == 1 || xcrypto.EcdsaVerify(pa, h, sig) != nil, "scriptless-tamper", "a tampered run (mode %d) completes to %x, which verifies", mode, sig)
	}
	if mode == 1 { // Bob's share, not Alice's, is built on the altered key: what Alice recovers is not the secret
		fa, err := alice.ScriptlessPhase5(R1, c2)
		c.Check(err != nil || fb == nil || alice.ScriptlessPhase6(fa, fb).Cmp(t) != 0, "scriptless-tamper-secret", "Alice recovers the secret from an altered run")
	}
	c.Count("tampered")
	c.NT(d1, d2, mode)
}

// ---- C19 ----

type schnorrRun struct {
	ds     []*big.Int
	party  []*xcrypto.SchnorrParty
	R      *secp256k1.Scalar
	P      *xcrypto.PubKey
	m      []byte
	shares [][]byte
}

func runSchnorr(c *Ctx, ds []*big.Int, m []byte) *schnorrRun {
	s := &schnorrRun{ds: ds, m: m}
	n := len(ds)
	sum := new(big.Int)
	var pubs []*xcrypto.PubKey
	for _, d := range ds {
		sum.Add(sum, d)
		p, err := xcrypto.NewSchnorrParty(prvOf(d))
		c.Check(err == nil, "mpc-schnorr-new", "%v", err)
		s.party = append(s.party, p)
		pubs = append(pubs, toPub(ecMulG(d)))
	}
	want := ecMulG(sum)
	var Rs []*secp256k1.Scalar
	for _, p := range s.party {
		r := p.Phase2(m)
		c.Check(r != nil && ecOnCurve(r.X, r.Y), "mpc-schnorr-nonce", "phase 2 gives no point")
		r2 := p.Phase2(m)
		c.Check(scalarPt(r).eq(scalarPt(r2)), "mpc-schnorr-repeat2", "repeating phase 2 gives another nonce point")
		Rs = append(Rs, r)
	}
	Rsum := pt{}
	for _, r := range Rs {
		Rsum = ecAdd(Rsum, scalarPt(r))
	}
	for i, p := range s.party {
		P, R := pubs[i], Rs[i]
		if n > 1 {
			var others *xcrypto.PubKey
			var othersR *secp256k1.Scalar
			for _, j := range c.Perm(n) {
				if j == i {
					continue
				}
				if others == nil {
					others, othersR = pubs[j], Rs[j]
				} else {
					others, othersR = others.Add(pubs[j]), othersR.Add(theCurve(), Rs[j])
				}
			}
			P, R = p.Phase1(others), p.Phase3(othersR)
			P2, R2 := p.Phase1(others), p.Phase3(othersR)
			c.Check(pubPt(P).eq(pubPt(P2)), "mpc-schnorr-repeat1", "repeating phase 1 gives %s after %s", ptStr(pubPt(P2)), ptStr(pubPt(P)))
			c.Check(scalarPt(R).eq(scalarPt(R2)), "mpc-schnorr-repeat3", "repeating phase 3 gives %s after %s", ptStr(scalarPt(R2)), ptStr(scalarPt(R)))
		}
		c.Check(pubPt(P).eq(want), "mpc-schnorr-pub", "party %d derives %s, want %s", i, ptStr(pubPt(P)), ptStr(want))
		c.Check(scalarPt(R).eq(Rsum), "mpc-schnorr-shared-nonce", "party %d derives nonce point %s, want %s", i, ptStr(scalarPt(R)), ptStr(Rsum))
		s.P, s.R = P, R
		sh, err := p.Phase4(P, R)
		c.Check(err == nil && len(sh) == 32, "mpc-schnorr-share", "share %x, %v", sh, err)
		sh2, err := p.Phase4(P, R)
		c.Check(err == nil && bytes.Equal(sh, sh2), "mpc-schnorr-repeat4", "repeating phase 4 gives %x after %x", sh2, sh)
		s.shares = append(s.shares, sh)
	}
	return s
}

func schnorrKeys(c *Ctx) ([]*big.Int, bool) {
	n := c.Range(2, 7)
	if c.P(12) {
		n = 1
	} else if c.P(40) {
		n = c.Range(8, 36)
	}
	var ds []*big.Int
	sum := new(big.Int)
	for i := 0; i < n; i++ {
		d := c.Scalar()
		if i > 0 && c.P(8) {
			d = ds[0]
		}
		if i > 0 && c.P(12) {
			d = new(big.Int).Sub(ecN, ds[0])
		}
		ds = append(ds, d)
		sum.Add(sum, d)
	}
	return ds, new(big.Int).Mod(sum, ecN).Sign() != 0
}

func c19run(c *Ctx) {
	ds, ok := schnorrKeys(c)
	if !ok {
		return
	}
	m := c.Message()
	c.Note(func() string { return fmt.Sprintf("keys=%x m=%x", ds, m) })
	m0 := append([]byte{}, m...)
	s := runSchnorr(c, ds, m)
	for k, p := range s.party {
		var sh [][]byte
		for _, i := range c.Perm(len(ds)) {
			sh = append(sh, s.shares[i])
		}
		sig, err := p.Phase5(s.R, sh...)
		c.Check(err == nil && len(sig) == 64, "mpc-schnorr-combine", "party %d: %x %v", k, sig, err)
		again, err := p.Phase5(s.R, sh...)
		c.Check(err == nil && bytes.Equal(sig, again), "mpc-schnorr-repeat5", "repeating phase 5 gives %x (%v) after %x", again, err, sig)
		c.Check(refSchnorrVerify(pubPt(s.P), m0, sig), "mpc-schnorr-sig", "the combined signature %x of %d parties is not valid", sig, len(ds))
		c.Check(xcrypto.SchnorrVerify(s.P, m0, sig) == nil, "mpc-schnorr-verify", "the combined signature %x of %d parties does not verify", sig, len(ds))
	}
	c.Check(bytes.Equal(m, m0), "mpc-schnorr-writes", "the message was changed")
	if len(ds) > 1 {
		c.CountN("parties", len(ds))
	}
	// the same parties sign another message afterwards
	if c.P(3) {
		m2 := c.Message()
		var Rs []*secp256k1.Scalar
		for _, p := range s.party {
			Rs = append(Rs, p.Phase2(m2))
		}
		R := Rs[0]
		for _, r := range Rs[1:] {
			R = R.Add(theCurve(), r)
		}
		var sh [][]byte
		for _, p := range s.party {
			x, err := p.Phase4(s.P, R)
			c.Check(err == nil, "mpc-schnorr-reuse", "%v", err)
			sh = append(sh, x)
		}
		sig, err := s.party[0].Phase5(R, sh...)
		c.Check(err == nil && refSchnorrVerify(pubPt(s.P), m2, sig), "mpc-schnorr-reuse", "the second message's signature is not valid")
	}
	for _, p := range s.party {
		p.Close()
	}
	c.NT(fmt.Sprint(ds), m)
	c.Sample("%d parties, message %x", len(ds), m)
}

func c19tamper(c *Ctx) {
	ds, ok := schnorrKeys(c)
	if !ok || len(ds) < 2 {
		return
	}
	s := runSchnorr(c, ds, c.Message())
	sh := append([][]byte{}, s.shares...)
	i := c.N(len(sh))
	R := s.R
	m := s.m
	mode := c.N(6)
	switch mode {
	case 0: // missing
		sh = append(sh[:i], sh[i+1:]...)
	case 1: // altered
		b := append([]byte{}, sh[i]...)
		b[c.N(32)] ^= 1 << uint(c.N(8))
		sh[i] = b
	case 2: // share of a foreign key
		b := c.Hash(32)
		sh[i] = b
	case 3: // doubled
		sh = append(sh, sh[i])
	case 4: // other nonce point
		x := ecAdd(scalarPt(R), ecG)
		if x.inf() {
			return
		}
		R = secp256k1.NewScalar(x.x, x.y)
	case 5: // other message
		m = c.mutate(m)
	}
	sig, err := s.party[0].Phase5(R, sh...)
	if err == nil {
		ok := refSchnorrVerify(pubPt(s.P), m, sig)
		e := xcrypto.SchnorrVerify(s.P, m, sig)
		c.Check(!ok && e != nil, "mpc-schnorr-tamper", "a tampered run (mode %d) gives a valid signature", mode)
	}
	c.NT(fmt.Sprint(ds), mode, i)
}

// ---- C24 ----

func c24one(c *Ctx, b []byte) {
	arg, g := guarded(b, 70)
	c.Note(func() string { return "input=" + hx(b) })
	c.Check(bytes.Equal(xcrypto.Ripemd160(arg), refRipemd160(b)), "ripemd160", "RIPEMD-160 is %x, want %x", xcrypto.Ripemd160(b), refRipemd160(b))
	c.Check(bytes.Equal(xcrypto.Sha256(arg), sha256b(b)), "sha256", "SHA-256 is %x", xcrypto.Sha256(b))
	c.Check(bytes.Equal(xcrypto.DoubleSha256(arg), sha256d(b)), "sha256d", "double SHA-256 is %x", xcrypto.DoubleSha256(b))
	c.Check(bytes.Equal(xcrypto.Hash160(arg), refHash160(b)), "hash160", "HASH160 is %x", xcrypto.Hash160(b))
	c.Check(g.ok(), "hash-writes", "hashing wrote into its argument")
	c.NT(b)
}

func c24oneshot(c *Ctx) {
	b := c.Blob(c.Len(2000))
	c24one(c, b)
	c.Check(xcrypto.BytesToBigInt(b).Cmp(new(big.Int).SetBytes(b)) == 0, "bytestobigint", "BytesToBigInt is wrong")
	c.Check(xcrypto.Ripemd160Size() == 20, "ripemd160-size", "size")
	c.Sample("%s -> %x", hx(b), xcrypto.Ripemd160(b))
}

func c24lengths(c *Ctx) { c24one(c, c.Blob(c.Idx)) }

func c24stream(c *Ctx) {
	h := ripemd160.New()
	var data []byte
	var trace []string
	c.Note(func() string { return fmt.Sprint(trace) })
	c.Check(h.Size() == 20 && h.BlockSize() == 64, "ripemd160-size", "Size %d BlockSize %d", h.Size(), h.BlockSize())
	for step := c.Range(2, 12); step > 0; step-- {
		switch c.N(6) {
		case 0:
			pre := c.Blob(c.N(5))
			arg, g := guarded(pre, c.Pick(0, 0, 25))
			got := h.Sum(arg)
			trace = append(trace, fmt.Sprintf("sum@%d", len(data)))
			c.Check(bytes.Equal(got, append(append([]byte{}, pre...), refRipemd160(data)...)), "ripemd160-stream", "Sum gives %x, want %x", got, refRipemd160(data))
			c.Check(bytes.Equal(g.full[:g.n], g.orig[:g.n]), "ripemd160-sum-writes", "Sum changed its prefix")
		case 1:
			if c.P(3) {
				h.Reset()
				data = nil
				trace = append(trace, "reset")
				continue
			}
			fallthrough
		default:
			p := c.Blob(c.Len(200))
			arg, g := guarded(p, 5)
			n, err := h.Write(arg)
			trace = append(trace, fmt.Sprintf("write(%d)", len(p)))
			c.Check(n == len(p) && err == nil, "ripemd160-write", "Write returns %d %v", n, err)
			c.Check(g.ok(), "ripemd160-write-writes", "Write changed its argument")
			data = append(data, p...)
		}
	}
	got := h.Sum(nil)
	c.Check(bytes.Equal(got, refRipemd160(data)), "ripemd160-stream", "digest of %d bytes is %x, want %x", len(data), got, refRipemd160(data))
	c.Check(bytes.Equal(h.Sum(nil), got), "ripemd160-sum-again", "Sum disturbs the stream")
	c.NT(data)
}

func c24pbkdf2(c *Ctx) {
	pw, salt := c.Blob(c.Len(300)), c.Blob(c.Len(300))
	iter := c.Range(1, 20)
	if c.P(40) {
		iter = c.Pick(100, 1000, 2048)
	}
	n := c.Range(1, 140)
	var hf func() hash.Hash
	var name string
	switch c.N(3) {
	case 0:
		hf, name = sha1.New, "sha1"
	case 1:
		hf, name = sha256.New, "sha256"
	case 2:
		hf, name = sha512.New, "sha512"
	}
	if c.P(10) {
		n = c.Pick(20, 32, 64, 65, 128, 40)
	}
	c.Note(func() string { return fmt.Sprintf("password=%x salt=%x iter=%d len=%d %s", pw, salt, iter, n, name) })
	want, err := stdpbkdf2.Key(hf, string(pw), salt, iter, n)
	if err != nil {
		panic(err)
	}
	a, g := guarded(pw, 10)
	s, g2 := guarded(salt, 10)
	got := pbkdf2.Key(a, s, iter, n, hf)
	c.Check(bytes.Equal(got, want), "pbkdf2", "key is %x, want %x", got, want)
	c.Check(g.ok() && g2.ok(), "pbkdf2-writes", "PBKDF2 wrote into its arguments")
	c.NT(pw, salt, iter, n, name)
	c.Sample("pbkdf2-%s iter=%d len=%d -> %x", name, iter, n, got)
}

// c24pbkdf2long asks for so much key that the block counter passes its byte boundaries.
func c24pbkdf2long(c *Ctx) {
	pw, salt := c.Blob(c.Len(100)), c.Blob(c.Len(100))
	hf, size, name := sha1.New, 20, "sha1"
	if c.Bool() {
		hf, size, name = sha256.New, 32, "sha256"
	}
	n := 255*size + c.N(3*size)
	switch {
	case c.Idx%6 == 0:
		n = 65535*size + c.N(3*size)
	case c.Idx == 191:
		n = 16777215*size + c.N(3*size)
	}
	c.Note(func() string { return fmt.Sprintf("password=%x salt=%x len=%d %s", pw, salt, n, name) })
	want, err := stdpbkdf2.Key(hf, string(pw), salt, 1, n)
	if err != nil {
		panic(err)
	}
	got := pbkdf2.Key(pw, salt, 1, n, hf)
	c.Check(len(got) == n, "pbkdf2", "key of %d bytes has %d", n, len(got))
	at := 0
	for at < n && got[at] == want[at] {
		at++
	}
	c.Check(at == n, "pbkdf2", "key of %d bytes differs from byte %d on", n, at)
	c.NT(pw, salt, n, name)
}

// message lengths whose bit count needs more than 32 bits (digests of zero bytes, from an independent implementation)
const (
	longRmd1 = "1df8acef7fb35d39ae9dd0e246715c5d597a8453"
	longRmd2 = "2da30c05a09f35cd5d2c72ed3eae7966e88572d2"
)

func c24long(c *Ctx) {
	total := 1<<29 + 13
	want := longRmd1
	if c.Idx == 1 {
		total = 1<<32 + 5
		want = longRmd2
	}
	h := ripemd160.New()
	chunk := make([]byte, 1<<20+1)
	for left := total; left > 0; {
		n := len(chunk)
		if n > left {
			n = left
		}
		h.Write(chunk[:n])
		left -= n
	}
	got := hex.EncodeToString(h.Sum(nil))
	c.Check(got == want, "ripemd160-long", "digest of %d zero bytes is %s, want %s", total, got, want)
	c.NT(total)
}

// ---- C25 ----

func c25leaves(c *Ctx, n int) [][]byte {
	l := make([][]byte, n)
	dup := c.Pick(0, 0, 3, 12)
	for i := range l {
		if i > 0 && dup > 0 && c.P(dup) {
			l[i] = append([]byte{}, l[c.N(i)]...)
			if c.Bool() {
				l[i] = append([]byte{}, l[i-1]...)
			}
			continue
		}
		l[i] = c.Hash(32)
		if c.P(40) {
			l[i] = c.Blob(32)
		}
	}
	return l
}

func c25n(c *Ctx) int {
	switch c.N(4) {
	case 0:
		return 1 + c.N(12)
	case 1:
		v := 1<<uint(c.N(9)) + c.N(3) - 1
		if v < 1 {
			v = 1
		}
		return v
	case 2:
		return 1 + c.N(70)
	}
	return 1 + c.N(300)
}

// merkleBlocks folds a proof independently; ok is false when a node is inconsistent.
func merkleBlocks(leaf []byte, path []xcrypto.Node) (root []byte, blocks []string, ok bool) {
	h := leaf
	for _, n := range path {
		var b []byte
		sib := n.Hash
		if sib == nil && n.Position == "right" {
			sib = h
		}
		if len(sib) != 32 || len(h) != 32 {
			return nil, nil, false
		}
		switch n.Position {
		case "left":
			b = append(append([]byte{}, sib...), h...)
		case "right":
			b = append(append([]byte{}, h...), sib...)
		default:
			return nil, nil, false
		}
		h = sha256d(b)
		if !bytes.Equal(h, n.Parent) {
			return nil, nil, false
		}
		blocks = append(blocks, string(b))
	}
	return h, blocks, true
}

func c25check(c *Ctx, l [][]byte, stride int) {
	var orig [][]byte
	args := make([][]byte, len(l))
	var gs []*guard
	for i := range l {
		orig = append(orig, append([]byte{}, l[i]...))
		a, g := guarded(l[i], 33)
		args[i] = a
		gs = append(gs, g)
	}
	c.Note(func() string { return fmt.Sprintf("%d leaves, first %x", len(l), l[0]) })
	m := xcrypto.NewMerkle(args)
	want := refMerkleRoot(l)
	c.Check(bytes.Equal(m.Root(), want), "merkle-root", "root of %d leaves is %x, want %x", len(l), m.Root(), want)
	depth := 0
	for 1<<uint(depth) < len(l) {
		depth++
	}
	off := 0
	if stride > 1 {
		off = c.N(stride)
	}
	for i := 0; i < len(l); i++ {
		if stride > 1 && i%stride != off && i < len(l)-3 {
			continue
		}
		p := m.Proofs(args[i])
		c.Check(len(p) == depth, "merkle-proof-depth", "the proof of leaf %d of %d has %d nodes", i, len(l), len(p))
		root, _, ok := merkleBlocks(l[i], p)
		c.Check(ok && bytes.Equal(root, want), "merkle-proof", "the proof of leaf %d of %d folds to %x, want %x", i, len(l), root, want)
		c.Check(m.Verify(args[i], want, p), "merkle-verify", "the proof of leaf %d of %d does not verify", i, len(l))
	}
	c.Check(bytes.Equal(m.Root(), want), "merkle-root-again", "the root changed to %x", m.Root())
	if x := c.Bytes(32); depth > 0 {
		p := m.Proofs(x)
		c.Check(!m.Verify(x, want, p), "merkle-foreign", "a hash that is no leaf has a proof")
	}
	for i, g := range gs {
		c.Check(g.ok() && bytes.Equal(args[i], orig[i]), "merkle-writes", "leaf %d was written to", i)
	}
	c.CountN("leaves", len(l))
	c.NT(want)
	c.Sample("%d leaves, root %x", len(l), want)
}

func c25tree(c *Ctx) { c25check(c, c25leaves(c, c25n(c)), 7) }

// every list size, every leaf
func c25sizes(c *Ctx) { c25check(c, c25leaves(c, c.Idx+1), 1) }

// long lists, past every width an index could have been squeezed into
func c25large(c *Ctx) {
	n := []int{65535, 65536, 65537, 70001, 32768, 4095, 4096, 4097, 1000 + c.N(3000), 5000 + c.N(20000), 511 + c.N(4), 1023 + c.N(4)}[c.Idx%12]
	c25check(c, c25leaves(c, n), 1+n/12)
}

func c25tamper(c *Ctx) {
	l := c25leaves(c, c25n(c))
	m := xcrypto.NewMerkle(l)
	root := m.Root()
	i := c.N(len(l))
	if c.P(3) {
		i = len(l) - 1 - c.N(3)%len(l)
	}
	leaf := append([]byte{}, l[i]...)
	path := m.Proofs(leaf)
	_, goodBlocks, ok := merkleBlocks(leaf, path)
	c.Check(ok && m.Verify(leaf, root, path), "merkle-verify", "the proof of leaf %d of %d does not verify", i, len(l))
	p := make([]xcrypto.Node, len(path))
	for k, n := range path {
		p[k] = xcrypto.Node{Hash: append([]byte{}, n.Hash...), Parent: append([]byte{}, n.Parent...), Position: n.Position}
	}
	tr := append([]byte{}, root...)
	mode := c.N(14)
	k := 0
	if len(p) > 0 {
		k = c.N(len(p))
	} else if mode > 1 {
		mode = c.N(2)
	}
	flip := func(b []byte) { b[c.N(len(b))] ^= 1 << uint(c.N(8)) }
	// chain recomputes the parents from node k on, as a forger would
	chain := func() {
		h := leaf
		for j := range p {
			s := p[j].Hash
			if s == nil {
				s = h
			}
			if p[j].Position == "left" {
				h = sha256d(append(append([]byte{}, s...), h...))
			} else {
				h = sha256d(append(append([]byte{}, h...), s...))
			}
			p[j].Parent = h
		}
	}
	switch mode {
	case 0:
		leaf = [][]byte{l[c.N(len(l))], c.Bytes(32)}[c.N(2)]
		if c.P(3) && len(p) > 0 {
			leaf = p[c.N(len(p))].Hash
		}
		if c.P(4) {
			leaf = append([]byte{}, l[i]...)
			flip(leaf)
		}
		if c.P(8) {
			leaf = append(append([]byte{}, l[i]...), make([]byte, c.Range(1, 8))...)
		}
		if c.P(8) {
			leaf = append([]byte{}, l[i][:c.N(32)]...)
		}
		if c.P(8) {
			leaf = nil
		}
	case 1:
		tr = c.mutate(tr)
		if c.P(3) {
			tr = xcrypto.NewMerkle(c25leaves(c, len(l))).Root()
		}
		if c.P(4) {
			tr = nil
		}
	case 2:
		flip(p[k].Hash)
		if c.Bool() {
			chain()
		}
	case 3:
		flip(p[k].Parent)
	case 4:
		p = append(p[:k:k], p[k+1:]...)
		if c.Bool() {
			chain()
		}
	case 5:
		j := c.N(len(p))
		p[k], p[j] = p[j], p[k]
		if c.Bool() {
			chain()
		}
	case 6:
		if p[k].Position == "left" {
			p[k].Position = "right"
		} else {
			p[k].Position = "left"
		}
		if c.Bool() {
			chain()
		}
	case 7:
		p[k].Position = []string{"", "Left", "RIGHT", "l", "middle"}[c.N(5)]
	case 8:
		p[k].Hash = nil
		if c.Bool() {
			chain()
		}
	case 9: // other sizes
		p[k].Hash = append(p[k].Hash, c.Blob(c.Range(1, 33))...)
	case 10:
		p[k].Hash = p[k].Hash[:c.N(32)]
	case 11: // a node added
		n := p[k]
		p = append(p[:k:k], append([]xcrypto.Node{n}, p[k:]...)...)
		if c.Bool() {
			chain()
		}
	case 12: // the whole chain of another leaf
		p = m.Proofs(l[c.N(len(l))])
	case 13:
		p[k].Parent = [][]byte{nil, {}, p[k].Hash, tr, leaf}[c.N(5)]
	}
	c.Note(func() string {
		return fmt.Sprintf("%d leaves, leaf %d, tampering %d of node %d: leaf=%x root=%x path=%x", len(l), i, mode, k, leaf, tr, p)
	})
	fold, blocks, ok := merkleBlocks(leaf, p)
	same := ok && fmt.Sprint(blocks) == fmt.Sprint(goodBlocks) && bytes.Equal(fold, tr) && bytes.Equal(leaf, l[i]) && bytes.Equal(tr, root)
	if !same && mode == 0 && len(leaf) == 32 && ok && bytes.Equal(fold, tr) {
		same = true // the other leaf lies beside an equal one
	}
	got := m.Verify(leaf, tr, p)
	if same {
		c.Check(got, "merkle-verify", "an equal proof does not verify")
		c.Count("equal proof")
	} else {
		c.Check(!got, "merkle-tamper", "a tampered proof verifies (%d)", mode)
		c.Count("tampered proof")
	}
	c.NT(root, i, mode, k)
}
