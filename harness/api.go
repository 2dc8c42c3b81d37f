package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"hash"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcore/bip32"
	"github.com/keyfuse/tokucore/xcore/bip39"
	"github.com/keyfuse/tokucore/xcrypto"
	xecdsa "github.com/keyfuse/tokucore/xcrypto/ecdsa"
	"github.com/keyfuse/tokucore/xcrypto/pbkdf2"
	"github.com/keyfuse/tokucore/xcrypto/ripemd160"
	"github.com/keyfuse/tokucore/xcrypto/schnorr"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
	"github.com/keyfuse/tokucore/xprotocol"
	"github.com/keyfuse/tokucore/xvm"
)

// A catalogue of the library's operations, for the properties that speak of all of them.
// make builds the objects and arguments of one use; each read is an operation on them that must give
// the same answer whenever it runs, whatever ran in between and wherever.

type read struct {
	name string
	f    func() []interface{}
	rnd  bool // random by nature: only its arguments are watched
}

type apiOp struct {
	name   string
	heavy  bool
	random bool // values differ between two uses made from the same seed
	shared bool // works on values that several goroutines may share
	make   func(c *Ctx, a *args) []read
}

// overwritten is an answer that says that a value changed while its object was used further.
type overwritten string

// kept looks at a value before and after something else is done.
func kept(what string, v interface{}, then func()) interface{} {
	was := dumpDeep(v)
	then()
	if now := dumpDeep(v); now != was {
		return overwritten(fmt.Sprintf("%s was %s and became %s", what, short(was), short(now)))
	}
	return what + " kept"
}

// args hands out arguments with spare capacity and watches them.
type args struct {
	r    *Rand
	gs   []*guard
	more []func() string
}

func (a *args) b(x []byte) []byte {
	if x == nil {
		return nil
	}
	spare := 0
	if !a.r.P(4) {
		spare = a.r.Pick(1, 4, 8, 33, 64, 100)
	}
	y, g := guarded(x, spare)
	a.gs = append(a.gs, g)
	return y
}

func (a *args) bb(l [][]byte) [][]byte {
	full := make([][]byte, len(l)+a.r.N(5))
	for i := range l {
		full[i] = a.b(l[i])
	}
	mark := []byte("spare")
	for i := len(l); i < len(full); i++ {
		full[i] = mark
	}
	a.watch("slice of slices", full)
	return full[:len(l)]
}

func (a *args) big(x *big.Int) *big.Int {
	y := new(big.Int).Set(x)
	a.watch("number", y)
	return y
}

func (a *args) key(d *big.Int) *xcrypto.PrvKey {
	k := prvOf(d)
	a.watchKey(k)
	return k
}

func (a *args) watchKey(k *xcrypto.PrvKey) {
	d, x, y := dumpDeep(k.D), dumpDeep(k.X), dumpDeep(k.Y)
	a.more = append(a.more, func() string {
		if dumpDeep(k.D) != d || dumpDeep(k.X) != x || dumpDeep(k.Y) != y {
			return "private key " + d + " is now " + dumpDeep(k.D)
		}
		return ""
	})
}

func (a *args) pub(p pt) *xcrypto.PubKey {
	k := toPub(p)
	a.watchPub(k)
	return k
}

func (a *args) watchPub(k *xcrypto.PubKey) {
	x, y := dumpDeep(k.X), dumpDeep(k.Y)
	a.more = append(a.more, func() string {
		if dumpDeep(k.X) != x || dumpDeep(k.Y) != y {
			return "public key " + x + " is now " + dumpDeep(k.X)
		}
		return ""
	})
}

func (a *args) scalar(p pt) *secp256k1.Scalar {
	x, y := xy(p)
	s := secp256k1.NewScalar(a.big(x), a.big(y))
	a.watch("point", s)
	return s
}

// watch remembers the exported content of a value.
func (a *args) watch(what string, v interface{}) {
	was := dumpDeep(v)
	a.more = append(a.more, func() string {
		if now := dumpDeep(v); now != was {
			return what + " " + short(was) + " is now " + short(now)
		}
		return ""
	})
}

// changed tells the first argument that was written to.
func (a *args) changed() string {
	for _, g := range a.gs {
		if !g.ok() {
			return fmt.Sprintf("bytes %s (%d of them spare) are now %s", hx(g.orig), len(g.orig)-g.n, hx(g.full))
		}
	}
	for _, f := range a.more {
		if s := f(); s != "" {
			return s
		}
	}
	return ""
}

// dumpDeep prints a value: bytes, numbers, strings and the exported fields of structures.
func dumpDeep(v interface{}) string {
	var b strings.Builder
	dumpTo(&b, reflect.ValueOf(v), 0)
	return b.String()
}

var bigType = reflect.TypeOf(big.Int{})

func dumpTo(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 12 {
		b.WriteString("...")
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if v.Kind() == reflect.Ptr && v.Type().Elem() == bigType {
		if v.IsNil() {
			b.WriteString("nil")
		} else {
			b.WriteString(v.Interface().(*big.Int).Text(16))
		}
		return
	}
	if v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if _, ok := v.Interface().(error); ok {
			b.WriteString("error")
			return
		}
		if v.Type().PkgPath() == "crypto/elliptic" {
			b.WriteString("curve")
			return
		}
		dumpTo(b, v.Elem(), depth+1)
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		b.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				b.WriteString(v.Type().Field(i).Name + ":")
				dumpTo(b, v.Field(i), depth+1)
				b.WriteByte(' ')
			}
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Kind() == reflect.Slice {
			b.WriteString("x" + hex.EncodeToString(v.Bytes()))
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dumpTo(b, v.Index(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		fmt.Fprintf(b, "%v", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float64, reflect.Float32:
		b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			l = append(l, dumpDeep(k.Interface())+"="+dumpDeep(v.MapIndex(k).Interface()))
		}
		sort.Strings(l)
		b.WriteString(fmt.Sprint(l))
	default:
		b.WriteString(v.Kind().String())
	}
}

func vals(v ...interface{}) []interface{} { return v }

// okErr makes an error comparable: only whether there is one.
func okErr(err error) bool { return err == nil }

// msgErr keeps the text too.
func msgErr(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func one(name string, f func() []interface{}) []read { return []read{{name: name, f: f}} }

func refSigs(c *Ctx, d *big.Int, h []byte) []byte {
	r, s := refEcdsaSign(d, h)
	return refDER(r, s)
}

func signedLibTx(c *Ctx, max int) (*xcore.Transaction, *rtx, []inSpec) {
	t, specs := newTx(c, randKinds(c, c.Range(1, max)), c.Range(1, 3))
	for i, s := range specs {
		refSign(t, i, s)
	}
	tx, err := libLoad(t, t.ser(t.hasWitness()))
	c.Check(err == nil, "api-load", "%v", err)
	return tx, t, specs
}

// noSighash takes out the signature hash made last, which a printed transaction shows.
func noSighash(s string) string {
	l := strings.Split(s, "\n")
	for i := range l {
		if strings.Contains(l[i], `"sighash":`) {
			l[i] = ""
		}
	}
	return strings.Join(l, "\n")
}

var apiOps = []apiOp{
	// ---- text encodings ----
	{name: "base58", shared: true, make: func(c *Ctx, a *args) []read {
		d := a.b(c.Blob(c.N(60)))
		ver := byte(c.U32())
		s, sc := refB58Encode(d), refB58CheckEncode(d, ver)
		if c.P(4) {
			sc += "1"
		}
		return []read{
			{name: "Base58Encode", f: func() []interface{} { return vals(xbase.Base58Encode(d)) }},
			{name: "Base58Decode", f: func() []interface{} { return vals(xbase.Base58Decode(s)) }},
			{name: "Base58CheckEncode", f: func() []interface{} { return vals(xbase.Base58CheckEncode(d, ver)) }},
			{name: "Base58CheckDecode", f: func() []interface{} {
				b, v, err := xbase.Base58CheckDecode(sc)
				return vals(b, v, msgErr(err))
			}},
		}
	}},
	{name: "bech32", shared: true, make: func(c *Ctx, a *args) []read {
		d := c.Bytes(c.N(50))
		for i := range d {
			d[i] &= 31
		}
		s := refBechEncode("bc", d)
		d = a.b(d)
		prog := a.b(c.Blob(c.Pick(20, 32, 2, 40, 41, 1)))
		ver := byte(c.N(18))
		ws := refSegwitEncode("tb", byte(c.N(2)), c.Bytes(32))
		return []read{
			{name: "Bech32Encode", f: func() []interface{} { s, err := xbase.Bech32Encode("bc", d); return vals(s, msgErr(err)) }},
			{name: "Bech32Decode", f: func() []interface{} { h, b, err := xbase.Bech32Decode(s); return vals(h, b, msgErr(err)) }},
			{name: "WitnessEncode", f: func() []interface{} { s, err := xbase.WitnessEncode("bc", ver, prog); return vals(s, msgErr(err)) }},
			{name: "WitnessDecode", f: func() []interface{} {
				h, v, p, err := xbase.WitnessDecode(ws)
				return vals(h, v, p, msgErr(err))
			}},
		}
	}},
	{name: "ids", shared: true, make: func(c *Ctx, a *args) []read {
		h := a.b(c.Bytes(32))
		s := hex.EncodeToString(c.Bytes(32))
		return []read{
			{name: "NewIDToString", f: func() []interface{} { return vals(xbase.NewIDToString(h)) }},
			{name: "NewIDFromString", f: func() []interface{} { b, err := xbase.NewIDFromString(s); return vals(b, msgErr(err)) }},
		}
	}},
	{name: "buffer", shared: true, make: func(c *Ctx, a *args) []read {
		w := &wbuf{}
		p := c.Blob(c.N(300))
		w.u32(c.U32())
		w.u64(c.U64())
		w.bytes(p)
		w.raw(p)
		in := a.b(w.b)
		out := a.b(p)
		return []read{
			{name: "Buffer reading", f: func() []interface{} {
				b := xbase.NewBufferReader(in)
				x, e1 := b.ReadU32()
				y, e2 := b.ReadU64()
				v, e3 := b.ReadVarBytes()
				w, e4 := b.ReadBytes(len(p))
				_, e5 := b.ReadU8()
				return vals(x, y, v, w, b.Seek(), b.Len(), b.End(), b.Bytes(), b.Remaining(), okErr(e1), okErr(e2), okErr(e3), okErr(e4), okErr(e5))
			}},
			{name: "Buffer writing", f: func() []interface{} {
				b := xbase.NewBuffer()
				b.WriteVarBytes(out)
				k := kept("Bytes", b.Bytes(), func() {
					b.WriteBytes(out)
					b.WriteU16(7)
					b.WriteVarString("text")
					b.WriteVarInt(uint64(len(out)))
				})
				end := dup(b.Bytes())
				k2 := kept("Bytes", b.Bytes(), func() {
					b.Reset()
					b.WriteU32(0xffffffff)
					b.WriteVarBytes(out)
				})
				return vals(end, k, k2, b.Len())
			}},
			{name: "Buffer written after reading", f: func() []interface{} {
				b := xbase.NewBufferReader(in)
				b.ReadU32()
				b.WriteU64(0x0123456789abcdef)
				end := dup(b.Bytes())
				b.Reset()
				b.WriteVarBytes(out)
				b.WriteVarBytes(out)
				return vals(end, b.Bytes())
			}},
		}
	}},
	// ---- hashes ----
	{name: "hashes", shared: true, make: func(c *Ctx, a *args) []read {
		d := a.b(c.Blob(c.Len(300)))
		salt := a.b(c.Bytes(c.N(20)))
		return []read{
			{name: "Hash160", f: func() []interface{} { return vals(xcrypto.Hash160(d)) }},
			{name: "Ripemd160", f: func() []interface{} { return vals(xcrypto.Ripemd160(d)) }},
			{name: "Sha256", f: func() []interface{} { return vals(xcrypto.Sha256(d), xcrypto.DoubleSha256(d)) }},
			{name: "BytesToBigInt", f: func() []interface{} { return vals(xcrypto.BytesToBigInt(d)) }},
			{name: "pbkdf2", f: func() []interface{} {
				return vals(pbkdf2.Key(d, salt, 3, 50, func() hash.Hash { return sha256.New() }))
			}},
			{name: "ripemd160.New", f: func() []interface{} {
				h := ripemd160.New()
				h.Write(d)
				s1 := h.Sum(salt[:len(salt):len(salt)])
				s2 := h.Sum(nil)
				k := kept("Sum", vals(s1, s2), func() { h.Write(d); h.Sum(nil); h.Reset(); h.Write(salt) })
				return vals(s1, s2, h.Sum(nil), k)
			}},
		}
	}},
	{name: "merkle", shared: true, make: func(c *Ctx, a *args) []read {
		n := c.Range(1, 20)
		var l [][]byte
		for i := 0; i < n; i++ {
			l = append(l, c.Bytes(32))
		}
		l = a.bb(l)
		leaf := a.b(l[c.N(n)])
		m := xcrypto.NewMerkle(l)
		root := a.b(refMerkleRoot(l))
		path := m.Proofs(leaf)
		a.watch("proof", path)
		return []read{
			{name: "NewMerkle", f: func() []interface{} { return vals(xcrypto.NewMerkle(l).Root()) }},
			{name: "Root", f: func() []interface{} { return vals(m.Root()) }},
			{name: "Proofs", f: func() []interface{} { return vals(m.Proofs(leaf)) }},
			{name: "Merkle.Verify", f: func() []interface{} { return vals(m.Verify(leaf, root, path)) }},
		}
	}},
	// ---- keys and signatures ----
	{name: "keys", shared: true, make: func(c *Ctx, a *args) []read {
		d, e := c.Scalar(), c.Scalar()
		raw, add := a.b(pad32(d)), a.b(pad32(e))
		k, p2 := a.key(d), a.pub(ecMulG(e))
		p := k.PubKey()
		a.watchPub(p)
		comp := a.b(ecCompressed(ecMulG(d)))
		return []read{
			{name: "PrvKeyFromBytes", f: func() []interface{} { return vals(xcrypto.PrvKeyFromBytes(raw).Serialize()) }},
			{name: "PrvKey.PubKey", f: func() []interface{} { return vals(k.PubKey().Serialize()) }},
			{name: "PrvKey.Add", f: func() []interface{} { return vals(k.Add(add).Serialize(), k.Serialize()) }},
			{name: "PrvKey.Serialize", f: func() []interface{} { return vals(k.Serialize()) }},
			{name: "PubKeyFromBytes", f: func() []interface{} {
				q, err := xcrypto.PubKeyFromBytes(comp)
				if err != nil {
					return vals(err)
				}
				return vals(q.SerializeUncompressed())
			}},
			{name: "PubKey.Add", f: func() []interface{} { return vals(p.Add(p2).X, p.Add(p2).Y, p2.Serialize()) }},
			{name: "PubKey.Serialize", f: func() []interface{} {
				return vals(p.Serialize(), p.SerializeCompressed(), p.SerializeUncompressed(), p.SerializeHybrid(), p.XBytes(), p.YBytes(), p.Hash160())
			}},
		}
	}},
	{name: "curve", shared: true, make: func(c *Ctx, a *args) []read {
		p, q := c.Point(), c.Point()
		for p.x == nil {
			p = c.Point()
		}
		for q.x == nil {
			q = c.Point()
		}
		px, py := xy(p)
		qx, qy := xy(q)
		x1, y1, x2, y2 := a.big(px), a.big(py), a.big(qx), a.big(qy)
		k := a.b(pad32(c.Scalar()))
		enc := a.b(ecCompressed(p))
		s1, s2 := a.scalar(p), a.scalar(q)
		return []read{
			{name: "curve.Add", f: func() []interface{} { x, y := secp256k1.SECP256K1().Add(x1, y1, x2, y2); return vals(x, y) }},
			{name: "curve.Double", f: func() []interface{} { x, y := secp256k1.SECP256K1().Double(x1, y1); return vals(x, y) }},
			{name: "curve.ScalarMult", f: func() []interface{} { x, y := secp256k1.SECP256K1().ScalarMult(x1, y1, k); return vals(x, y) }},
			{name: "curve.ScalarBaseMult", f: func() []interface{} { x, y := secp256k1.SECP256K1().ScalarBaseMult(k); return vals(x, y) }},
			{name: "curve.IsOnCurve", f: func() []interface{} { return vals(secp256k1.SECP256K1().IsOnCurve(x1, y1)) }},
			{name: "curve.Params", f: func() []interface{} {
				p := secp256k1.SECP256K1().Params()
				return vals(p.P, p.N, p.B, p.Gx, p.Gy, p.BitSize)
			}},
			{name: "SecMarshal", f: func() []interface{} { return vals(secp256k1.SecMarshal(secp256k1.SECP256K1(), x1, y1)) }},
			{name: "SecUnmarshal", f: func() []interface{} { x, y := secp256k1.SecUnmarshal(secp256k1.SECP256K1(), enc); return vals(x, y) }},
			{name: "Scalar.Add", f: func() []interface{} { return vals(s1.Add(secp256k1.SECP256K1(), s2)) }},
		}
	}},
	{name: "ecdsa", shared: true, make: func(c *Ctx, a *args) []read {
		d := c.Scalar()
		h := a.b(c.Bytes(32))
		k, p := a.key(d), a.pub(ecMulG(d))
		good := refSigs(c, d, h)
		bad := dup(good)
		bad[c.N(len(bad))] ^= 1 << uint(c.N(8))
		good, bad = a.b(good), a.b(bad)
		other := a.b(refSigs(c, d, c.Bytes(32)))
		r, s := refEcdsaSign(d, h)
		r, s = a.big(r), a.big(s)
		q, x := a.big(ecN), a.big(d)
		pk := (*ecdsa.PrivateKey)(k)
		return []read{
			{name: "EcdsaSign", f: func() []interface{} { b, err := xcrypto.EcdsaSign(k, h); return vals(b, msgErr(err)) }},
			{name: "EcdsaVerify", f: func() []interface{} { return vals(msgErr(xcrypto.EcdsaVerify(p, h, good))) }},
			{name: "EcdsaVerify (bad)", f: func() []interface{} { return vals(msgErr(xcrypto.EcdsaVerify(p, h, bad))) }},
			{name: "ecdsa.Sign", f: func() []interface{} { r, s, err := xecdsa.Sign(pk, h); return vals(r, s, msgErr(err)) }},
			{name: "ecdsa.Verify", f: func() []interface{} { return vals(xecdsa.Verify(&pk.PublicKey, h, r, s)) }},
			{name: "HashToInt", f: func() []interface{} { return vals(xecdsa.HashToInt(secp256k1.SECP256K1(), h)) }},
			{name: "NonceRFC6979", f: func() []interface{} { return vals(xecdsa.NonceRFC6979(q, x, h)) }},
			{name: "SignatureEcdsa", f: func() []interface{} {
				sg := xcrypto.NewSignatureEcdsa()
				err := sg.Deserialize(good)
				b, err2 := sg.Serialize()
				return vals(b, msgErr(err), msgErr(err2), sg.R, sg.S)
			}},
			{name: "SignatureEcdsa used again", f: func() []interface{} {
				sg := xcrypto.NewSignatureEcdsa()
				err := sg.Deserialize(good)
				return vals(msgErr(err), kept("R and S", vals(sg.R, sg.S), func() { sg.Deserialize(other) }), sg.R, sg.S)
			}},
			{name: "SignatureEcdsa.Serialize", f: func() []interface{} {
				sg := xcrypto.NewSignatureEcdsa()
				sg.R, sg.S = r, s
				b, err := sg.Serialize()
				return vals(b, msgErr(err))
			}},
		}
	}},
	{name: "schnorr", shared: true, make: func(c *Ctx, a *args) []read {
		d := c.Scalar()
		h := a.b(c.Bytes(32))
		k, p := a.key(d), a.pub(ecMulG(d))
		pk := (*ecdsa.PrivateKey)(k)
		good := refSchnorrSign(d, h)
		other := a.b(refSchnorrSign(d, c.Bytes(32)))
		r, s := bigFrom(good[:32]), bigFrom(good[32:])
		bad := dup(good)
		bad[c.N(len(bad))] ^= 1 << uint(c.N(8))
		good, bad = a.b(good), a.b(bad)
		r, s = a.big(r), a.big(s)
		db := a.b(pad32(d))
		px, py := xy(ecMulG(d))
		px, py = a.big(px), a.big(py)
		N := a.big(ecN)
		k0 := a.big(c.Scalar())
		rx := a.b(pad32(r))
		return []read{
			{name: "SchnorrSign", f: func() []interface{} { b, err := xcrypto.SchnorrSign(k, h); return vals(b, msgErr(err)) }},
			{name: "SchnorrVerify", f: func() []interface{} { return vals(msgErr(xcrypto.SchnorrVerify(p, h, good))) }},
			{name: "SchnorrVerify (bad)", f: func() []interface{} { return vals(msgErr(xcrypto.SchnorrVerify(p, h, bad))) }},
			{name: "schnorr.Sign", f: func() []interface{} { r, s, err := schnorr.Sign(pk, h); return vals(r, s, msgErr(err)) }},
			{name: "schnorr.Verify", f: func() []interface{} { return vals(schnorr.Verify(&pk.PublicKey, h, r, s)) }},
			{name: "GetK0", f: func() []interface{} { v, err := schnorr.GetK0(h, db, N); return vals(v, msgErr(err)) }},
			{name: "GetK", f: func() []interface{} { return vals(schnorr.GetK(secp256k1.SECP256K1(), py, k0)) }},
			{name: "GetE", f: func() []interface{} { return vals(schnorr.GetE(secp256k1.SECP256K1(), h, px, py, rx)) }},
			{name: "IntToByte", f: func() []interface{} { return vals(schnorr.IntToByte(r)) }},
			{name: "SignatureSchnorr", f: func() []interface{} {
				sg := xcrypto.NewSignatureSchnorr()
				err := sg.Deserialize(good)
				b, err2 := sg.Serialize()
				return vals(b, msgErr(err), msgErr(err2))
			}},
			{name: "SignatureSchnorr used again", f: func() []interface{} {
				sg := xcrypto.NewSignatureSchnorr()
				err := sg.Deserialize(good)
				return vals(msgErr(err), kept("R and S", vals(sg.R, sg.S), func() { sg.Deserialize(other) }), sg.R, sg.S)
			}},
		}
	}},
	{name: "paillier", random: true, shared: true, make: func(c *Ctx, a *args) []read {
		kp := keyPair(c, c.Pick(128, 256, 512))
		a.watch("paillier public key", kp.pub)
		m1, m2 := a.big(c.plain(kp.pub.N)), a.big(c.plain(kp.pub.N))
		c1, err1 := kp.pub.Encrypt(m1)
		c2, err2 := kp.pub.Encrypt(m2)
		c.Check(err1 == nil && err2 == nil, "api-encrypt", "%v %v", err1, err2)
		a.watch("ciphertext", c1)
		a.watch("ciphertext", c2)
		k := a.big(big.NewInt(int64(c.Range(1, 1000))))
		return []read{
			{name: "Paillier.Encrypt", rnd: true, f: func() []interface{} { v, _ := kp.pub.Encrypt(m1); return vals(v) }},
			{name: "Paillier.Decrypt", f: func() []interface{} { v, err := kp.prv.Decrypt(c1); return vals(v, msgErr(err)) }},
			{name: "Paillier.Add", f: func() []interface{} { v, err := kp.pub.Add(c1, c2); return vals(v, msgErr(err)) }},
			{name: "Paillier.Sub", f: func() []interface{} { return vals(kp.pub.Sub(c1, c2)) }},
			{name: "Paillier.AddPlaintext", f: func() []interface{} { v, err := kp.pub.AddPlaintext(c1, m2); return vals(v, msgErr(err)) }},
			{name: "Paillier.MultPlaintext", f: func() []interface{} { v, err := kp.pub.MultPlaintext(c1, k); return vals(v, msgErr(err)) }},
			{name: "Paillier.DivPlaintext", f: func() []interface{} { v, err := kp.pub.DivPlaintext(c1, k); return vals(v, msgErr(err)) }},
		}
	}},
	{name: "mpc-schnorr", make: func(c *Ctx, a *args) []read {
		d1, d2 := c.Scalar(), c.Scalar()
		for new(big.Int).Mod(new(big.Int).Add(d1, d2), ecN).Sign() == 0 {
			d2 = c.Scalar()
		}
		h := a.b(c.Bytes(32))
		k1, k2 := a.key(d1), a.key(d2)
		q1, q2 := a.pub(ecMulG(d1)), a.pub(ecMulG(d2))
		p1, e1 := xcrypto.NewSchnorrParty(k1)
		p2, e2 := xcrypto.NewSchnorrParty(k2)
		c.Check(e1 == nil && e2 == nil, "api-party", "%v %v", e1, e2)
		P := p1.Phase1(q2)
		r1, r2 := p1.Phase2(h), p2.Phase2(h)
		a.watch("nonce point", r1)
		a.watch("nonce point", r2)
		R := p1.Phase3(r2)
		R2 := p2.Phase3(r1)
		_ = R2
		P2 := p2.Phase1(q1)
		s1, err1 := p1.Phase4(P, R)
		s2, err2 := p2.Phase4(P2, R)
		c.Check(err1 == nil && err2 == nil, "api-party", "%v %v", err1, err2)
		s1, s2 = a.b(s1), a.b(s2)
		a.watch("shared point", R)
		a.watchPub(P)
		return []read{
			{name: "SchnorrParty.Phase1", f: func() []interface{} { return vals(p1.Phase1(q2).Serialize()) }},
			{name: "SchnorrParty.Phase2", f: func() []interface{} { return vals(p1.Phase2(h)) }},
			{name: "SchnorrParty.Phase3", f: func() []interface{} { return vals(p1.Phase3(r2)) }},
			{name: "SchnorrParty.Phase4", f: func() []interface{} { b, err := p1.Phase4(P, R); return vals(b, msgErr(err)) }},
			{name: "SchnorrParty.Phase5", f: func() []interface{} { b, err := p1.Phase5(R, s1, s2); return vals(b, msgErr(err)) }},
		}
	}},
	{name: "mpc-ecdsa", random: true, heavy: true, make: func(c *Ctx, a *args) []read {
		d1, d2 := c.Scalar(), c.Scalar()
		h := a.b(c.Bytes(32))
		k1, k2 := a.key(d1), a.key(d2)
		q1, q2 := a.pub(ecMulG(d1)), a.pub(ecMulG(d2))
		p1, p2 := xcrypto.NewEcdsaParty(k1), xcrypto.NewEcdsaParty(k2)
		p1.Phase1(q2)
		p2.Phase1(q1)
		e1, n1, r1 := p1.Phase2(h)
		e2, n2, r2 := p2.Phase2(h)
		R1, R2 := p1.Phase3(r2), p2.Phase3(r1)
		c1, err := p1.Phase4(e2, n2, R1)
		c.Check(err == nil, "api-party", "%v", err)
		c2, err := p2.Phase4(e1, n1, R2)
		c.Check(err == nil, "api-party", "%v", err)
		for _, v := range []interface{}{e1, e2, n1, n2, r1, r2, R1, R2, c1, c2} {
			a.watch("phase value", v)
		}
		return []read{
			{name: "EcdsaParty.Phase1", f: func() []interface{} { return vals(p1.Phase1(q2).Serialize()) }},
			{name: "EcdsaParty.Phase3", f: func() []interface{} { return vals(p1.Phase3(r2)) }},
			{name: "EcdsaParty.Phase5", f: func() []interface{} { b, err := p1.Phase5(R1, c2); return vals(b, msgErr(err)) }},
			{name: "EcdsaParty.Phase5 (2)", f: func() []interface{} { b, err := p2.Phase5(R2, c1); return vals(b, msgErr(err)) }},
		}
	}},
	{name: "scriptless", random: true, heavy: true, make: func(c *Ctx, a *args) []read {
		d1, d2 := c.Scalar(), c.Scalar()
		h, secret := a.b(c.Bytes(32)), a.big(c.Scalar())
		k1, k2 := a.key(d1), a.key(d2)
		q1, q2 := a.pub(ecMulG(d1)), a.pub(ecMulG(d2))
		p1, p2 := xcrypto.NewEcdsaAlice(k1), xcrypto.NewEcdsaBob(k2, secret)
		p1.ScriptlessPhase1(q2)
		p2.ScriptlessPhase1(q1)
		e1, n1, r1 := p1.ScriptlessPhase2(h)
		e2, n2, r2 := p2.ScriptlessPhase2(h)
		R1, R2 := p1.ScriptlessPhase3(r2), p2.ScriptlessPhase3(r1)
		c1, err := p1.ScriptlessPhase4(e2, n2, R1)
		c.Check(err == nil, "api-party", "%v", err)
		c2, err := p2.ScriptlessPhase4(e1, n1, R2)
		c.Check(err == nil, "api-party", "%v", err)
		fa, err := p1.ScriptlessPhase5(R1, c2)
		c.Check(err == nil, "api-party", "%v", err)
		fb, err := p2.ScriptlessPhase5(R2, c1)
		c.Check(err == nil, "api-party", "%v", err)
		for _, v := range []interface{}{e1, e2, n1, n2, r1, r2, R1, R2, c1, c2, fa, fb} {
			a.watch("phase value", v)
		}
		return []read{
			{name: "ScriptlessPhase1", f: func() []interface{} {
				return vals(p1.ScriptlessPhase1(q2).Serialize(), p2.ScriptlessPhase1(q1).Serialize())
			}},
			{name: "ScriptlessPhase3", f: func() []interface{} { return vals(p1.ScriptlessPhase3(r2), p2.ScriptlessPhase3(r1)) }},
			{name: "ScriptlessPhase5", f: func() []interface{} {
				x, e1 := p1.ScriptlessPhase5(R1, c2)
				y, e2 := p2.ScriptlessPhase5(R2, c1)
				return vals(x, y, msgErr(e1), msgErr(e2))
			}},
			{name: "ScriptlessPhase6", f: func() []interface{} {
				b, err := p2.ScriptlessPhase6(R2, fb)
				return vals(p1.ScriptlessPhase6(fa, fb), b, msgErr(err))
			}},
		}
	}},
	// ---- hierarchical keys and mnemonics ----
	{name: "hdkey", shared: true, make: func(c *Ctx, a *args) []read {
		seed := a.b(c.hdSeed())
		k := bip32.NewHDKey(seed)
		net := netByName(c.netName())
		a.watch("network", net)
		switch c.N(5) {
		case 0:
			k, _ = k.Derive(c.U32())
		case 1:
			k, _ = k.DeriveByPath("m/5'/7")
			k, _ = k.Derive(c.U32())
		case 2:
			k, _ = bip32.NewHDKeyFromString(k.ToString(net))
		case 3:
			k, _ = k.DeriveByPath("m/0/2147483647'")
			k, _ = bip32.NewHDKeyFromString(k.ToString(net))
		}
		i, j := c.U32()&0x7fffffff, c.U32()|0x80000000
		pub := k.HDPublicKey()
		s := k.ToString(net)
		text := func(k *bip32.HDKey, err error) []interface{} {
			if err != nil {
				return vals(err.Error())
			}
			return vals(k.ToString(net), k.PublicKey().Serialize())
		}
		return []read{
			{name: "NewHDKey", f: func() []interface{} { return vals(bip32.NewHDKey(seed).ToString(net)) }},
			{name: "HDKey.ToString", f: func() []interface{} { return vals(k.ToString(net), pub.ToString(net)) }},
			{name: "HDKey.Derive", f: func() []interface{} { return text(k.Derive(i)) }},
			{name: "HDKey.Derive (hardened)", f: func() []interface{} { return text(k.Derive(j)) }},
			{name: "HDKey.Derive (public)", f: func() []interface{} { return text(pub.Derive(i)) }},
			{name: "HDKey.DeriveByPath", f: func() []interface{} { return text(k.DeriveByPath("m/1/2'/3")) }},
			{name: "HDPublicKey", f: func() []interface{} { return vals(k.HDPublicKey().ToString(net)) }},
			{name: "HDKey.PublicKey", f: func() []interface{} { return vals(k.PublicKey().Serialize(), pub.PublicKey().Serialize()) }},
			{name: "HDKey.PrivateKey", f: func() []interface{} { return vals(k.PrivateKey().Serialize()) }},
			{name: "NewHDKeyFromString", f: func() []interface{} { return text(bip32.NewHDKeyFromString(s)) }},
		}
	}},
	{name: "mnemonic", shared: true, make: func(c *Ctx, a *args) []read {
		ent := a.b(c.Blob(c.Pick(16, 20, 24, 28, 32)))
		list := bip39.GetWordList()
		m := toSentence(list, refWords(ent))
		bad := strings.Replace(m, " ", " "+list[c.N(2048)]+" ", 1)
		w := list[c.N(2048)]
		return []read{
			{name: "NewMnemonic", f: func() []interface{} { s, err := bip39.NewMnemonic(ent); return vals(s, msgErr(err)) }},
			{name: "EntropyFromMnemonic", f: func() []interface{} { b, err := bip39.EntropyFromMnemonic(m); return vals(b, msgErr(err)) }},
			{name: "MnemonicToByteArray", f: func() []interface{} {
				b, err := bip39.MnemonicToByteArray(m)
				d, err2 := bip39.MnemonicToByteArray(m, true)
				return vals(b, d, msgErr(err), msgErr(err2))
			}},
			{name: "NewSeed", f: func() []interface{} { return vals(bip39.NewSeed(m, "pass")) }},
			{name: "NewSeedWithErrorChecking", f: func() []interface{} {
				b, err := bip39.NewSeedWithErrorChecking(bad, "pass")
				return vals(b, msgErr(err))
			}},
			{name: "IsMnemonicValid", f: func() []interface{} { return vals(bip39.IsMnemonicValid(m), bip39.IsMnemonicValid(bad)) }},
			{name: "GetWordIndex", f: func() []interface{} { i, ok := bip39.GetWordIndex(w); return vals(i, ok) }},
			{name: "GetWordList", f: func() []interface{} { l := bip39.GetWordList(); return vals(len(l), l[0], l[2047]) }},
			{name: "NewEntropy", rnd: true, f: func() []interface{} { b, _ := bip39.NewEntropy(128); return vals(b) }},
		}
	}},
	// ---- scripts ----
	{name: "engine", make: func(c *Ctx, a *args) []read {
		unlocking, locking := c.anyScript(), c.anyScript()
		switch c.N(3) {
		case 0:
			unlocking, locking = c.live(&refVM{check: toyCheck}, c.N(4)), c.live(&refVM{check: toyCheck}, c.N(6))
		case 1: // pay to script hash
			redeem := append([]byte{0x51}, c.live(&refVM{check: toyCheck}, c.N(3))...)
			unlocking = refPush(redeem)
			locking = refLock(1, refHash160(redeem))
		}
		unlocking, locking = a.b(unlocking), a.b(locking)
		mode := c.N(3)
		vm := libEngine(mode)
		dbg := libEngine(mode)
		dbg.EnableDebug()
		return []read{
			{name: "Engine.Verify", f: func() []interface{} { return vals(msgErr(libEngine(mode).Verify(unlocking, locking))) }},
			{name: "Engine.Verify (used engine)", f: func() []interface{} { return vals(msgErr(vm.Verify(unlocking, locking))) }},
			{name: "Engine.Execute", f: func() []interface{} { return vals(msgErr(libEngine(mode).Execute(locking))) }},
			{name: "Engine.Traces", f: func() []interface{} {
				e := libEngine(mode)
				e.EnableDebug()
				err := e.Verify(unlocking, locking)
				return vals(msgErr(err), e.Traces())
			}},
		}
	}},
	{name: "scripts", shared: true, make: func(c *Ctx, a *args) []read {
		s := a.b(c.anyScript())
		op := byte(c.N(256))
		d1, d2 := a.b(c.Blob(c.Len(600))), a.b(c.Blob(c.N(80)))
		n := c.int64e()
		num := a.b(c.Blob(c.N(6)))
		return []read{
			{name: "DisasmString", f: func() []interface{} { return vals(xvm.DisasmString(s)) }},
			{name: "ScriptReader", f: func() []interface{} {
				r := xvm.NewScriptReader(s)
				l, err := r.AllInstructions()
				var out []interface{}
				for i := range l {
					out = append(out, l[i].OpCode(), l[i].Data())
				}
				return append(out, msgErr(err))
			}},
			{name: "NextInstruction", f: func() []interface{} {
				r := xvm.NewScriptReader(s)
				i, err := r.NextInstruction()
				if err != nil {
					return vals(err.Error())
				}
				if i == nil { // the end
					return vals(r.DisasmRemaining())
				}
				return vals(i.OpCode(), i.Data(), r.DisasmRemaining(), r.DisasmRemaining())
			}},
			{name: "RemoveOpcode", f: func() []interface{} { return vals(xvm.RemoveOpcode(s, op)) }},
			{name: "ScriptBuilder", f: func() []interface{} {
				b := xvm.NewScriptBuilder().AddOp(xvm.OP_DUP).AddData(d1)
				one, e1 := b.Script()
				was := dup(one)
				b.AddInt64(n).AddData(d2)
				two, e2 := b.Script()
				h, e3 := b.Hash160()
				more := append(two, 0x51, 0x52) // what the caller makes of it is the caller's
				k1 := kept("Script", vals(one, two, more, h), func() { b.AddData(d1).AddData(d2) })
				k2 := kept("Script", vals(one, two, more, h), func() { b.Reset().AddData(d2).AddInt64(n).AddData(d2).Script() })
				return vals(one, bytes.Equal(one, was), k1, k2, two, h, msgErr(e1), msgErr(e2), msgErr(e3))
			}},
			{name: "MakeScriptNum", f: func() []interface{} {
				v, err := xvm.MakeScriptNum(num, 5)
				return vals(int64(v), msgErr(err), v.Bytes(), v.Int32())
			}},
			{name: "BoolBytes", f: func() []interface{} { return vals(xvm.BoolBytes(true), xvm.BoolBytes(false)) }},
			{name: "Stack", f: func() []interface{} {
				st := xvm.NewStack()
				st.PushByteArray(d1)
				st.PushByteArray(d2)
				st.PushInt(7)
				st.DupN(2)
				cp := st.Copy()
				was := cp.String()
				text := st.String()
				x, _ := st.PopByteArray()
				st.SwapN(1)
				y, _ := st.PeekByteArray(0)
				st.DropN(1)
				st.PushBool(true)
				var k interface{}
				if now := cp.String(); now != was {
					k = overwritten("a copied stack was " + was + " and became " + now)
				}
				return vals(text, x, y, st.String(), st.Depth(), cp.String(), k)
			}},
		}
	}},
	// ---- addresses and locking scripts ----
	{name: "addresses", shared: true, make: func(c *Ctx, a *args) []read {
		kind := c.N(4)
		n := 20
		if kind == 3 {
			n = 32
		}
		h := a.b(c.Blob(n))
		net := netByName(c.netName())
		ad := newAddr(kind, h)
		s := newAddr(kind, dup(h)).ToString(net)
		lock := a.b(refLock(kind, h))
		redeem := a.b(multisigScript(1, [][]byte{c.Bytes(33), c.Bytes(33)}))
		script := func() xcore.Script {
			s, err := xcore.ParseLockingScript(lock)
			if err != nil {
				panic(err)
			}
			return s
		}
		sc := script()
		sigs := []xcore.PubKeySign{{PubKey: a.b(c.Bytes(33)), Signature: a.b(c.Bytes(71))}, {PubKey: a.b(c.Bytes(33)), Signature: a.b(c.Bytes(72))}}
		a.watch("signatures", sigs)
		wit := a.bb([][]byte{{}, c.Bytes(71), c.Bytes(33), redeem})
		return []read{
			{name: "Address.ToString", f: func() []interface{} { return vals(ad.ToString(net), newAddr(kind, h).ToString(net)) }},
			{name: "Address.Hash160", f: func() []interface{} { return vals(ad.Hash160()) }},
			{name: "Address.LockingScript", f: func() []interface{} { b, err := ad.LockingScript(); return vals(b, msgErr(err)) }},
			{name: "DecodeAddress", f: func() []interface{} {
				x, err := xcore.DecodeAddress(s, net)
				if err != nil {
					return vals(err.Error())
				}
				return vals(x.Hash160(), x.ToString(net))
			}},
			{name: "ParseLockingScript", f: func() []interface{} { b, err := script().GetRawLockingScriptBytes(); return vals(b, msgErr(err)) }},
			{name: "Script.GetAddress", f: func() []interface{} { return vals(sc.GetAddress().ToString(net), int(sc.GetScriptVersion())) }},
			{name: "Script.GetRawLockingScriptBytes", f: func() []interface{} { b, err := sc.GetRawLockingScriptBytes(); return vals(b, msgErr(err)) }},
			{name: "Script.GetFinalLockingScriptBytes", f: func() []interface{} { b, err := sc.GetFinalLockingScriptBytes(redeem); return vals(b, msgErr(err)) }},
			{name: "Script.GetRawUnlockingScriptBytes", f: func() []interface{} {
				b, err := sc.GetRawUnlockingScriptBytes(sigs, redeem)
				return vals(b, msgErr(err))
			}},
			{name: "Script.GetWitnessUnlockingScriptBytes", f: func() []interface{} {
				b, err := sc.GetWitnessUnlockingScriptBytes(sigs, redeem)
				return vals(b, msgErr(err))
			}},
			{name: "Script.GetWitnessScriptCode", f: func() []interface{} { b, err := sc.GetWitnessScriptCode(redeem); return vals(b, msgErr(err)) }},
			{name: "Script.WitnessToUnlockingScriptBytes", f: func() []interface{} { b, err := sc.WitnessToUnlockingScriptBytes(wit); return vals(b, msgErr(err)) }},
		}
	}},
	{name: "multisig script", shared: true, make: func(c *Ctx, a *args) []read {
		n := c.Range(1, 5)
		m := c.Range(1, n)
		var l [][]byte
		for i := 0; i < n; i++ {
			l = append(l, c.Bytes(33))
		}
		l = a.bb(l)
		s := xcore.NewPayToMultiSigScript(m, l...)
		return []read{
			{name: "GenMultiSigScript", f: func() []interface{} { b, err := xcore.GenMultiSigScript(m, l...); return vals(b, msgErr(err)) }},
			{name: "PayToMultiSigScript", f: func() []interface{} {
				b, err := s.GetLockingScriptBytes()
				x, err2 := s.Hash160()
				y, err3 := s.Sha256()
				return vals(b, x, y, msgErr(err), msgErr(err2), msgErr(err3))
			}},
		}
	}},
	// ---- transactions ----
	{name: "transaction", make: func(c *Ctx, a *args) []read {
		tx, t, specs := signedLibTx(c, 3)
		i := c.N(len(specs))
		ht := xcore.SigHashType(specs[i].ht)
		wit := specs[i].kind == kP2WPKH || specs[i].kind == kP2WSH
		data, noWit := a.b(t.ser(t.hasWitness())), a.b(t.ser(false))
		k := ring()[specs[i].keys[0]].prv
		a.watchKey(k)
		l := []read{
			{name: "Serialize", f: func() []interface{} { return vals(tx.Serialize()) }},
			{name: "SerializeNoWitness", f: func() []interface{} { return vals(tx.SerializeNoWitness()) }},
			{name: "ID", f: func() []interface{} { return vals(tx.Hash(), tx.ID(), tx.WitnessHash(), tx.WitnessID()) }},
			{name: "sizes", f: func() []interface{} {
				return vals(tx.Size(), tx.BaseSize(), tx.WitnessSize(), tx.Weight(), tx.Vsize())
			}},
			{name: "Fees", f: func() []interface{} { return vals(tx.Fees(), tx.HasWitness()) }},
			{name: "ToString", f: func() []interface{} { return vals(noSighash(tx.ToString())) }},
			{name: "Verify", f: func() []interface{} { return vals(msgErr(tx.Verify())) }},
			{name: "RawSignatureHash", f: func() []interface{} { return vals(tx.RawSignatureHash(i, ht)) }},
			{name: "RawSignatureHash (other type)", f: func() []interface{} { return vals(tx.RawSignatureHash(i, xcore.SigHashNone|xcore.SigHashAnyOneCanPay)) }},
			{name: "RawSignature", f: func() []interface{} { b, err := tx.RawSignature(i, ht, k); return vals(b, msgErr(err)) }},
			{name: "Deserialize", f: func() []interface{} {
				x := xcore.NewTransaction()
				var err error
				if t.hasWitness() {
					err = x.Deserialize(data)
				} else {
					err = x.DeserializeNoWitness(data)
				}
				return vals(msgErr(err), x.Serialize())
			}},
			{name: "DeserializeNoWitness", f: func() []interface{} {
				x := xcore.NewTransaction()
				err := x.DeserializeNoWitness(noWit)
				return vals(msgErr(err), x.SerializeNoWitness())
			}},
		}
		if wit {
			l = append(l,
				read{name: "WitnessV0SignatureHash", f: func() []interface{} { return vals(tx.WitnessV0SignatureHash(i, ht)) }},
				read{name: "WitnessV0SignatureHash (other type)", f: func() []interface{} { return vals(tx.WitnessV0SignatureHash(i, xcore.SigHashSingle)) }},
				read{name: "WitnessSignature", f: func() []interface{} { b, err := tx.WitnessSignature(i, ht, k); return vals(b, msgErr(err)) }})
		}
		return l
	}},
	{name: "transaction building", shared: true, make: func(c *Ctx, a *args) []read {
		t, specs := newTx(c, randKinds(c, c.Range(1, 2)), c.Range(1, 3))
		type in struct{ hash, lock, redeem []byte }
		var ins []in
		var keys [][]*xcrypto.PrvKey
		for i := range t.ins {
			x := &t.ins[i]
			ins = append(ins, in{a.b(x.hash), a.b(x.lock), a.b(x.redeem)})
			var l []*xcrypto.PrvKey
			for _, p := range specs[i].signers {
				k := ring()[specs[i].keys[p]].prv
				a.watchKey(k)
				l = append(l, k)
			}
			keys = append(keys, l)
		}
		var outs [][]byte
		for i := range t.outs {
			outs = append(outs, a.b(t.outs[i].script))
		}
		build := func(sign bool) (*xcore.Transaction, error) {
			tx := xcore.NewTransaction()
			tx.SetVersion(t.version)
			tx.SetLockTime(t.lock)
			for i := range ins {
				x, err := xcore.NewTxIn(ins[i].hash, t.ins[i].index, t.ins[i].value, ins[i].lock, ins[i].redeem)
				if err != nil {
					return nil, err
				}
				tx.AddInput(x)
			}
			for i := range outs {
				tx.AddOutput(xcore.NewTxOut(t.outs[i].value, outs[i]))
			}
			if sign {
				for i, s := range specs {
					if err := tx.SignIndex(i, s.kind != kP2PKHU, xcore.SigHashType(s.ht), keys[i]...); err != nil {
						return nil, err
					}
				}
			}
			return tx, nil
		}
		der := a.b(refSigs(c, c.Scalar(), c.Bytes(32)))
		pub := a.pub(ecMulG(c.Scalar()))
		tx0, err := build(true)
		c.Check(err == nil, "api-build", "%v", err)
		raw := a.b(tx0.Serialize())
		witForm := tx0.HasWitness()
		sigs := []xcore.PubKeySign{{PubKey: a.b(c.Bytes(33)), Signature: a.b(c.Bytes(71))}}
		a.watch("signatures", sigs)
		return []read{
			{name: "build", f: func() []interface{} {
				tx, err := build(false)
				return vals(msgErr(err), tx.SerializeNoWitness(), tx.ToString())
			}},
			{name: "sign", f: func() []interface{} {
				tx, err := build(true)
				return vals(msgErr(err), tx.Serialize(), msgErr(tx.Verify()))
			}},
			{name: "EmbedIdxEcdsaSignature", f: func() []interface{} {
				tx, _ := build(false)
				err := tx.EmbedIdxEcdsaSignature(0, pub, der, xcore.SigHashAll)
				return vals(msgErr(err), tx.Serialize())
			}},
			{name: "EmbedIdxSignature", f: func() []interface{} {
				tx, _ := build(false)
				err := tx.EmbedIdxSignature(0, sigs)
				s := tx.Serialize()
				tx.Verify()
				return vals(msgErr(err), s, tx.Serialize())
			}},
			{name: "SetTxIn", f: func() []interface{} {
				tx := xcore.NewTransaction()
				var err error
				if witForm {
					err = tx.Deserialize(raw)
				} else {
					err = tx.DeserializeNoWitness(raw)
				}
				res := vals(msgErr(err))
				for i := range ins {
					res = append(res, msgErr(tx.SetTxIn(i, t.ins[i].value, ins[i].lock, ins[i].redeem)))
				}
				return append(res, msgErr(tx.Verify()), tx.Serialize())
			}},
			{name: "estimates", f: func() []interface{} {
				var ti []*xcore.TxIn
				for i := range ins {
					x, _ := xcore.NewTxIn(ins[i].hash, t.ins[i].index, t.ins[i].value, ins[i].lock, ins[i].redeem)
					ti = append(ti, x)
				}
				to := []*xcore.TxOut{xcore.NewTxOut(1, outs[0])}
				return vals(xcore.EstimateSize(ti, to), xcore.EstimateNormalSize(len(ti), 2), xcore.EstimateFees(300, 1000))
			}},
		}
	}},
	{name: "transaction builder", shared: true, make: func(c *Ctx, a *args) []read {
		t, specs := newTx(c, randKinds(c, c.Range(1, 2)), 0)
		cb := xcore.NewCoinBuilder()
		var total uint64
		for i := range t.ins {
			v := 100000 + uint64(c.N(100000))
			total += v
			cb.AddOutput(hex.EncodeToString(rev(t.ins[i].hash)), t.ins[i].index, v, hex.EncodeToString(t.ins[i].lock))
		}
		coins := cb.ToCoins()
		toHash, chHash, data := a.b(c.Bytes(20)), a.b(c.Bytes(20)), a.b(c.Bytes(c.N(70)))
		to, ch := newAddr(c.N(3), toHash), newAddr(c.N(3), chHash)
		var redeems [][]byte
		for i := range t.ins {
			redeems = append(redeems, a.b(t.ins[i].redeem))
		}
		build := func() *xcore.TransactionBuilder {
			b := xcore.NewTransactionBuilder()
			for i, s := range specs {
				if i > 0 {
					b.Then()
				}
				var keys []*xcrypto.PrvKey
				for _, p := range s.signers {
					keys = append(keys, ring()[s.keys[p]].prv)
				}
				b.AddCoin(coins[i]).AddKeys(keys...).SetSigHashType(xcore.SigHashType(s.ht))
				if s.kind == kP2PKHU {
					b.SetPubKeyUncompressed()
				}
				if redeems[i] != nil {
					b.SetRedeemScript(redeems[i])
				}
			}
			return b.To(to, total/3).SetChange(ch).SendFees(2000).AddPushData(data).Sign()
		}
		return []read{
			{name: "BuildTransaction", f: func() []interface{} {
				tx, err := build().BuildTransaction()
				if err != nil {
					return vals(err.Error())
				}
				return vals(tx.Serialize())
			}},
			{name: "BuildTransaction twice", f: func() []interface{} {
				b := build()
				tx1, e1 := b.BuildTransaction()
				if e1 != nil {
					return vals(e1.Error())
				}
				s1 := tx1.Serialize()
				tx2, e2 := b.BuildTransaction()
				if e2 != nil {
					return vals(e2.Error())
				}
				return vals(s1, bytes.Equal(s1, tx2.Serialize()), bytes.Equal(s1, tx1.Serialize()), msgErr(tx1.Verify()))
			}},
		}
	}},
	// ---- peer protocol ----
	{name: "messages", make: func(c *Ctx, a *args) []read {
		cmd := msgKinds[c.N(len(msgKinds))]
		g := c.genMessage(cmd, true)
		p := a.b(g.payload)
		p2 := a.b(c.genMessage(cmd, true).payload)
		a.watch("message", g.msg)
		return []read{
			{name: "Encode " + cmd, f: func() []interface{} { return vals(g.msg.Encode()) }},
			{name: "Size " + cmd, f: func() []interface{} { return vals(g.msg.Size(), g.msg.Command()) }},
			{name: "Decode " + cmd, f: func() []interface{} {
				m := emptyMsg(cmd)
				err := m.Decode(p)
				return vals(m, msgErr(err), m.Encode())
			}},
			{name: "Decode again " + cmd, f: func() []interface{} {
				m := emptyMsg(cmd)
				err := m.Decode(p)
				enc := m.Encode()
				copied := reflect.ValueOf(m).Elem().Interface()
				return vals(okErr(err), kept("message", copied, func() { m.Decode(p2); m.Encode() }), kept("encoding", enc, func() { m.Encode() }))
			}},
		}
	}},
	{name: "message parts", shared: true, make: func(c *Ctx, a *args) []read {
		h, _ := c.blockHeader()
		a.watch("header", h)
		hash := a.b(c.Bytes(32))
		hs := make([]*xprotocol.BlockHeader, 3, 6)
		invs := make([]*xprotocol.InvVect, 3, 6)
		for i := range hs {
			hs[i] = h
			invs[i] = xprotocol.NewInvVect(xprotocol.InvType(i), hash)
		}
		a.watch("headers", hs[:6])
		a.watch("inventory", invs[:6])
		net := netByName(c.netName())
		a.watch("network", net)
		d := a.b(c.Blob(c.N(100)))
		return []read{
			{name: "BlockHash", f: func() []interface{} { return vals(h.BlockHash(), h.Size()) }},
			{name: "AddBlockHeader", f: func() []interface{} {
				m := xprotocol.NewMsgHeaders()
				e1 := m.AddBlockHeader(hs...)
				e2 := m.AddBlockHeader(h)
				return vals(msgErr(e1), msgErr(e2), m.Encode())
			}},
			{name: "AddInvVect", f: func() []interface{} {
				m, n := xprotocol.NewMsgInv(), xprotocol.NewMsgGetData()
				e1 := m.AddInvVect(invs...)
				e2 := n.AddInvVect(invs...)
				m.AddInvVect(invs[0])
				n.AddInvVect(invs[0])
				return vals(msgErr(e1), msgErr(e2), m.Encode(), n.Encode())
			}},
			{name: "AddBlockLocatorHash", f: func() []interface{} {
				m := xprotocol.NewMsgGetHeaders(net)
				one := m.Encode()
				e1 := m.AddBlockLocatorHash(hash)
				return vals(one, msgErr(e1), m.Encode(), m.Size(), m.Encode())
			}},
			{name: "NewMsgTx", f: func() []interface{} { m := xprotocol.NewMsgTx(d); return vals(m.Encode(), m.Size()) }},
			{name: "NewMsgVersion", rnd: true, f: func() []interface{} { m := xprotocol.NewMsgVersion(net); return vals(m.Size()) }},
			{name: "NewMsgUnhandle", f: func() []interface{} {
				m := xprotocol.NewMsgUnhandle("x")
				err := m.Decode(d)
				return vals(msgErr(err), m.Command(), m.Size())
			}},
		}
	}},
	{name: "networks", shared: true, make: func(c *Ctx, a *args) []read {
		a.watch("network", network.MainNet)
		a.watch("network", network.TestNet)
		h := a.b(c.Bytes(20))
		return []read{
			{name: "networks", f: func() []interface{} {
				return vals(xcore.NewPayToPubKeyHashAddress(h).ToString(network.MainNet), xcore.NewPayToPubKeyHashAddress(h).ToString(network.TestNet), network.MainNet, network.TestNet)
			}},
			{name: "stream of one message", f: func() []interface{} {
				w := &memConn{room: -1}
				err := xprotocol.NewStream(w, network.TestNet.Magic).WriteMessage(xprotocol.NewMsgPing(7))
				return vals(msgErr(err), dup(w.out))
			}},
		}
	}},
}
