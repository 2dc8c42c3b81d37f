package main

import (
	"bytes"
	"crypto/hmac"
	stdpbkdf2 "crypto/pbkdf2"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"math"
	"math/big"
	mrand "math/rand/v2"
	"strconv"
	"strings"
	"sync"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xcore/bip32"
	"github.com/keyfuse/tokucore/xcore/bip39"
	wlists "github.com/keyfuse/tokucore/xcore/bip39/words"
	"github.com/keyfuse/tokucore/xcrypto/paillier"
)

func init() {
	register(&Prop{
		ID:   "C21",
		Rule: "seeds of any length and paths (normal, hardened, edge indexes, keys with leading zero bytes, depths to the limit) are derived by the real code and by a BIP32 reference, on the private and the public branch, step by step, by path and through exported texts; key texts (valid and corrupted, with the checksum made good again) and path texts are decided by reference parsers; non-trivial: distinct derived or imported keys",
		Kinds: []Kind{
			{Name: "derive", N: 250, TN: 6000, Run: c21derive},
			{Name: "zeros", N: 40, TN: 600, Run: c21zeros},
			{Name: "deep", N: 16, TN: 100, Run: c21deep},
			{Name: "kin", N: 60, TN: 1500, Run: c21kin},
			{Name: "import", N: 6000, TN: 150000, Run: c21import},
			{Name: "paths", N: 700, TN: 20000, Run: c21paths},
		},
	})
	register(&Prop{
		ID:   "C22",
		Rule: "entropies of every length (leading zeros, edges) and sentences (altered, reordered, truncated, spaced, of another list) through the real code and a bit-string reference of BIP39, with all built-in lists (compared with the published ones by digest) and a custom one; seeds against an independent PBKDF2; non-trivial: distinct sentences",
		Kinds: []Kind{
			{Name: "english", N: 20000, TN: 100000, Run: func(c *Ctx) { c22one(c, 0) }},
			{Name: "set1", N: 1, TN: 1, Run: func(c *Ctx) { c22set(c, 1) }, Serial: true},
			{Name: "chinese", N: 10000, TN: 50000, Run: func(c *Ctx) { c22one(c, 1) }},
			{Name: "set2", N: 1, TN: 1, Run: func(c *Ctx) { c22set(c, 2) }, Serial: true},
			{Name: "japanese", N: 10000, TN: 50000, Run: func(c *Ctx) { c22one(c, 2) }},
			{Name: "set3", N: 1, TN: 1, Run: func(c *Ctx) { c22set(c, 3) }, Serial: true},
			{Name: "custom", N: 5000, TN: 20000, Run: func(c *Ctx) { c22one(c, 3) }},
			{Name: "set0", N: 1, TN: 1, Run: func(c *Ctx) { c22set(c, 0) }, Serial: true},
			{Name: "sizes", N: 600, TN: 600, Run: c22sizes},
			{Name: "seed", N: 2500, TN: 10000, Run: c22seed},
			{Name: "object", N: 60, TN: 1000, Run: c22object, Serial: true},
		},
	})
	register(&Prop{
		ID:   "C23",
		Rule: "the system random source is replaced by a recording one whose bits are flipped one at a time, also one that gives a byte at a time, to count the random bits every generated secret depends on; with the real source, thousands of secrets generated sequentially and by concurrent callers are compared for repeats and their bits for bias (six sigma); Paillier nonces and primes are recovered and examined the same way; non-trivial: distinct secrets",
		Kinds: []Kind{
			{Name: "stream", N: 60, TN: 400, Run: c23stream, Serial: true},
			{Name: "bias", N: 16, TN: 80, Run: c23bias, Serial: true},
			{Name: "concurrent", N: 12, TN: 80, Run: c23conc, Serial: true},
			{Name: "paillier", N: 8, TN: 40, Run: c23paillier, Serial: true},
		},
	})
}

// ---- BIP32 reference ----

type refHD struct {
	depth byte
	fp    []byte
	num   uint32
	cc    []byte
	d     *big.Int // nil for a public key
	p     pt
	hasP  bool
}

func refMaster(seed []byte) *refHD {
	m := hmac.New(sha512.New, []byte("Bitcoin seed"))
	m.Write(seed)
	I := m.Sum(nil)
	return &refHD{fp: make([]byte, 4), cc: I[32:], d: bigFrom(I[:32])}
}

func (k *refHD) pt() pt {
	if !k.hasP {
		k.p, k.hasP = ecMulG(k.d), true
	}
	return k.p
}

func (k *refHD) child(i uint32) (*refHD, bool) {
	if k.depth == 255 || (i >= 1<<31 && k.d == nil) {
		return nil, false
	}
	m := hmac.New(sha512.New, k.cc)
	if i >= 1<<31 {
		m.Write([]byte{0})
		m.Write(pad32(k.d))
	} else {
		m.Write(ecCompressed(k.pt()))
	}
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], i)
	m.Write(b[:])
	I := m.Sum(nil)
	c := &refHD{depth: k.depth + 1, fp: refHash160(ecCompressed(k.pt()))[:4], num: i, cc: I[32:]}
	il := bigFrom(I[:32])
	if k.d != nil {
		c.d = new(big.Int).Add(il, k.d)
		c.d.Mod(c.d, ecN)
	} else {
		c.p, c.hasP = ecAdd(k.pt(), ecMulG(il)), true
	}
	return c, true
}

func (k *refHD) public() *refHD {
	c := *k
	c.p, c.hasP, c.d = k.pt(), true, nil
	return &c
}

var hdVersions = map[string][2]uint32{"main": {0x0488ade4, 0x0488b21e}, "test": {0x04358394, 0x043587cf}}

func (k *refHD) payload(net string) []byte {
	var b []byte
	ver := hdVersions[net][0]
	if k.d == nil {
		ver = hdVersions[net][1]
	}
	b = binary.BigEndian.AppendUint32(b, ver)
	b = append(b, k.depth)
	b = append(b, k.fp...)
	b = binary.BigEndian.AppendUint32(b, k.num)
	b = append(b, k.cc...)
	if k.d != nil {
		b = append(append(b, 0), pad32(k.d)...)
	} else {
		b = append(b, ecCompressed(k.pt())...)
	}
	return b
}

func hdText(payload []byte) string {
	return refB58Encode(append(dup(payload), sha256d(payload)[:4]...))
}

func (k *refHD) text(net string) string { return hdText(k.payload(net)) }

// refHDParse decides a key text as BIP32 says, and returns its network.
func refHDParse(s string) (*refHD, string, bool) {
	b, ok := refB58Decode(s)
	if !ok || len(b) != 82 || !bytes.Equal(sha256d(b[:78])[:4], b[78:]) {
		return nil, "", false
	}
	ver := binary.BigEndian.Uint32(b)
	net, private := "", false
	for n, v := range hdVersions {
		if v[0] == ver {
			net, private = n, true
		}
		if v[1] == ver {
			net = n
		}
	}
	if net == "" {
		return nil, "", false
	}
	k := &refHD{depth: b[4], fp: b[5:9], num: binary.BigEndian.Uint32(b[9:]), cc: b[13:45]}
	if k.depth == 0 && (k.num != 0 || !bytes.Equal(k.fp, make([]byte, 4))) {
		return nil, "", false
	}
	key := b[45:78]
	if private {
		k.d = bigFrom(key[1:])
		if key[0] != 0 || k.d.Sign() == 0 || k.d.Cmp(ecN) >= 0 {
			return nil, "", false
		}
		return k, net, true
	}
	if key[0] != 2 && key[0] != 3 {
		return nil, "", false
	}
	p, ok := ecLift(bigFrom(key[1:]), key[0] == 3)
	if !ok || bigFrom(key[1:]).Cmp(ecP) >= 0 {
		return nil, "", false
	}
	k.p, k.hasP = p, true
	return k, net, true
}

func netByName(n string) *network.Network {
	if n == "main" {
		return network.MainNet
	}
	return network.TestNet
}

func (r *Rand) netName() string {
	if r.Bool() {
		return "main"
	}
	return "test"
}

func (r *Rand) childIdx(hard bool) uint32 {
	var i uint32
	switch r.N(6) {
	case 0:
		i = 0
	case 1:
		i = 0x7fffffff
	case 2:
		i = uint32(r.N(300))
	case 3:
		i = uint32(1) << r.N(31)
	default:
		i = r.U32() & 0x7fffffff
	}
	if hard {
		i |= 1 << 31
	}
	return i
}

func (r *Rand) hdSeed() []byte {
	switch r.N(5) {
	case 0:
		return r.Hash(16)
	case 1:
		return r.Hash(32)
	case 2:
		return r.Hash(64)
	case 3:
		return r.Blob(r.Len(300))
	}
	return r.Blob(r.Range(1, 80))
}

// cmpHD compares every observable of a key with the reference.
func cmpHD(c *Ctx, what string, k *bip32.HDKey, ref *refHD) {
	c.Check(k != nil, "hd-key", "%s: no key", what)
	pub := ref.public()
	c.Check(bytes.Equal(k.PublicKey().Serialize(), ecCompressed(ref.pt())), "hd-public", "%s: public key %x, reference %x", what, k.PublicKey().Serialize(), ecCompressed(ref.pt()))
	for net := range hdVersions {
		n := netByName(net)
		got, want := k.ToString(n), ref.text(net)
		c.Check(got == want, "hd-text", "%s: %s text %s, reference %s", what, net, got, want)
		got, want = k.HDPublicKey().ToString(n), pub.text(net)
		c.Check(got == want, "hd-public-text", "%s: %s public text %s, reference %s", what, net, got, want)
	}
	if c.P(6) { // a network of the user's own
		own := network.Network{HDPrivateKeyID: c.Bytes(4), HDPublicKeyID: c.Bytes(4)}
		for _, x := range []*refHD{ref, pub} {
			b, key, id := x.payload("main"), k, own.HDPrivateKeyID
			if x == pub {
				key = k.HDPublicKey()
			}
			if x.d == nil {
				id = own.HDPublicKeyID
			}
			copy(b, id)
			c.Check(key.ToString(&own) == hdText(b), "hd-text-own", "%s: %x/%x text %s, reference %s", what, own.HDPrivateKeyID, own.HDPublicKeyID, key.ToString(&own), hdText(b))
		}
	}
	if ref.d != nil {
		c.Check(bytes.Equal(k.PrivateKey().Serialize(), pad32(ref.d)), "hd-private", "%s: private key %x, reference %x", what, k.PrivateKey().Serialize(), pad32(ref.d))
	} else {
		c.Check(k.PrivateKey() == nil, "hd-public-private", "%s: a public key has a private key", what)
	}
	c.Count("keys compared")
}

func c21derive(c *Ctx) {
	seed := c.hdSeed()
	c.Note(func() string { return "seed " + hx(seed) })
	arg, g := guarded(seed, c.N(3)*16)
	ref := refMaster(seed)
	k := bip32.NewHDKey(arg)
	c.Check(g.ok(), "hd-seed-written", "NewHDKey wrote into its seed")
	cmpHD(c, "master", k, ref)
	master, mref := k, ref
	path := "m"
	steps := c.Range(1, 6)
	pubRef := ref.public()
	pubKey := k.HDPublicKey()
	pubPath, chain := "m", true
	for i := 0; i < steps; i++ {
		hard := c.P(3)
		idx := c.childIdx(hard)
		nref, _ := ref.child(idx)
		nk, err := k.Derive(idx)
		c.Check(err == nil, "hd-derive", "%s/%d: %v", path, idx, err)
		if hard {
			path += "/" + strconv.FormatUint(uint64(idx&0x7fffffff), 10) + "'"
		} else {
			path += "/" + strconv.FormatUint(uint64(idx), 10)
		}
		cmpHD(c, path, nk, nref)
		// public branch
		pk, err := k.HDPublicKey().Derive(idx)
		if hard {
			c.Check(err != nil, "hd-hardened-public", "%s derived from the public key", path)
			chain = false
		} else {
			c.Check(err == nil, "hd-derive-public", "%s from the public key: %v", path, err)
			cmpHD(c, "public "+path, pk, nref.public())
			c.Count("public derivations")
			if chain {
				// a chain that has never seen a private key
				pubRef, _ = pubRef.child(idx)
				pubKey, err = pubKey.Derive(idx)
				c.Check(err == nil, "hd-derive-public", "public chain %s: %v", path, err)
				pubPath = path
				cmpHD(c, "public chain "+path, pubKey, pubRef)
			}
		}
		// export, import, and go on from the imported key
		net := c.netName()
		imp, err := bip32.NewHDKeyFromString(nk.ToString(netByName(net)))
		c.Check(err == nil, "hd-import", "%s: import of its export: %v", path, err)
		cmpHD(c, "imported "+path, imp, nref)
		impPub, err := bip32.NewHDKeyFromString(nk.HDPublicKey().ToString(netByName(net)))
		c.Check(err == nil, "hd-import", "%s: import of its public export: %v", path, err)
		cmpHD(c, "imported public "+path, impPub, nref.public())
		if c.Bool() {
			sib := c.childIdx(c.Bool())
			sref, _ := nref.child(sib)
			sk, err := imp.Derive(sib)
			c.Check(err == nil, "hd-derive", "child %d of imported %s: %v", sib, path, err)
			cmpHD(c, "child of imported "+path, sk, sref)
		}
		if c.Bool() {
			nk = imp
		}
		// the parent is not changed by any of it
		if c.P(3) {
			cmpHD(c, "parent of "+path, k, ref)
		}
		ref, k = nref, nk
		c.NT(ref.cc)
	}
	byPath, err := master.DeriveByPath(path)
	c.Check(err == nil, "hd-path", "DeriveByPath(%s): %v", path, err)
	cmpHD(c, "by path "+path, byPath, ref)
	pubBy, err := master.HDPublicKey().DeriveByPath(path)
	if strings.Contains(path, "'") {
		c.Check(err != nil, "hd-path-public", "DeriveByPath(%s) of a public key works", path)
	} else {
		c.Check(err == nil, "hd-path-public", "DeriveByPath(%s) of a public key: %v", path, err)
		cmpHD(c, "public by path "+path, pubBy, ref.public())
	}
	pubBy, err = master.HDPublicKey().DeriveByPath(pubPath)
	c.Check(err == nil, "hd-path-public", "DeriveByPath(%s) of a public key: %v", pubPath, err)
	cmpHD(c, "public by path "+pubPath, pubBy, pubRef)
	cmpHD(c, "master afterwards", master, mref)
	c.Sample("%s -> %s", path, ref.text("main"))
}

// c21zeros derives through keys whose private key, chain code, public x or intermediate value begins with zero bytes.
func c21zeros(c *Ctx) {
	seed := c.Hash(32)
	ref := refMaster(seed)
	k := bip32.NewHDKey(seed)
	c.Note(func() string { return "seed " + hx(seed) })
	for depth := 0; depth < 3; depth++ {
		var nref *refHD
		var idx uint32
		what := []string{"private key", "chain code", "intermediate value"}[c.N(3)]
		start := c.U32() & 0x7fffffff
		for j := uint32(0); ; j++ {
			idx = (start + j) | 1<<31
			if !c.Bool() && depth > 0 {
				idx = (start + j) & 0x7fffffff
			}
			n, _ := ref.child(idx)
			z := false
			switch what {
			case "private key":
				z = n.d.BitLen() <= 248
			case "chain code":
				z = n.cc[0] == 0
			default:
				il := new(big.Int).Sub(n.d, ref.d)
				z = il.Mod(il, ecN).BitLen() <= 248
			}
			if z {
				nref = n
				break
			}
		}
		nk, err := k.Derive(idx)
		c.Check(err == nil, "hd-derive", "child %d: %v", idx, err)
		cmpHD(c, "key with a leading zero in its "+what, nk, nref)
		for _, i := range []uint32{0, 1 << 31, c.childIdx(false), c.childIdx(true)} {
			cref, _ := nref.child(i)
			ck, err := nk.Derive(i)
			c.Check(err == nil, "hd-derive", "child %d: %v", i, err)
			cmpHD(c, "child of a key with a leading zero in its "+what, ck, cref)
			imp, err := bip32.NewHDKeyFromString(nk.ToString(network.MainNet))
			c.Check(err == nil, "hd-import", "%v", err)
			ck, err = imp.Derive(i)
			c.Check(err == nil, "hd-derive", "child %d of the imported key: %v", i, err)
			cmpHD(c, "child of an imported key with a leading zero", ck, cref)
			if i < 1<<31 {
				pk, err := nk.HDPublicKey().Derive(i)
				c.Check(err == nil, "hd-derive-public", "child %d: %v", i, err)
				cmpHD(c, "public child of a key with a leading zero", pk, cref.public())
			}
		}
		c.NT(nref.cc)
		c.Count("leading zero: " + what)
		ref, k = nref, nk
	}
}

// c21deep goes down to the depth limit.
func c21deep(c *Ctx) {
	ref := refMaster(c.Hash(32))
	k := bip32.NewHDKey(nil)
	ref = refMaster(nil)
	if c.Idx%2 == 0 {
		// start from an imported key near the limit
		ref = &refHD{depth: byte(c.Range(246, 253)), fp: c.Hash(4), num: c.U32(), cc: c.Hash(32), d: c.Scalar()}
		if ref.d.Sign() == 0 || ref.d.Cmp(ecN) >= 0 {
			ref.d = big.NewInt(5)
		}
		var err error
		k, err = bip32.NewHDKeyFromString(ref.text("test"))
		c.Check(err == nil, "hd-import", "%v", err)
	} else {
		s := c.Bytes(16)
		ref, k = refMaster(s), bip32.NewHDKey(s)
	}
	pub := k.HDPublicKey()
	pubRef := ref.public()
	top, topPub, path := k, pub, "m"
	whole := c.Pick(255, c.Range(int(ref.depth)+1, 255))
	for ref.depth < 255 {
		idx := c.childIdx(false)
		path += "/" + strconv.Itoa(int(idx))
		if int(ref.depth)+1 == whole {
			// the same at once, by a path of as many steps
			n, _ := ref.child(idx)
			got, err := top.DeriveByPath(path)
			c.Check(err == nil, "hd-path", "a path of %d steps: %v", whole, err)
			cmpHD(c, fmt.Sprintf("path to depth %d", whole), got, n)
			got, err = topPub.DeriveByPath(path)
			c.Check(err == nil, "hd-path", "a public path of %d steps: %v", whole, err)
			cmpHD(c, fmt.Sprintf("public path to depth %d", whole), got, n.public())
		}
		nref, _ := ref.child(idx)
		nk, err := k.Derive(idx)
		c.Check(err == nil, "hd-derive", "depth %d: %v", nref.depth, err)
		npub, err := pub.Derive(idx)
		c.Check(err == nil, "hd-derive-public", "depth %d: %v", nref.depth, err)
		ref, k, pub = nref, nk, npub
		pubRef = ref.public()
		if ref.depth > 250 || c.P(20) {
			cmpHD(c, fmt.Sprintf("depth %d", ref.depth), k, ref)
			cmpHD(c, fmt.Sprintf("public depth %d", ref.depth), pub, pubRef)
		}
	}
	c.NT(ref.cc)
	for _, idx := range []uint32{0, 1, c.childIdx(false), c.childIdx(true)} {
		_, err := k.Derive(idx)
		c.Check(err != nil, "hd-depth", "a key of depth 255 has a child")
		_, err = pub.Derive(idx)
		c.Check(err != nil, "hd-depth", "a public key of depth 255 has a child")
		_, err = k.DeriveByPath("m/" + strconv.Itoa(int(idx&0x7fffffff)))
		c.Check(err != nil, "hd-depth", "a key of depth 255 has a child by path")
	}
	_, err := top.DeriveByPath(path + "/0")
	c.Check(err != nil, "hd-depth", "a path to depth 256 derives")
	imp, err := bip32.NewHDKeyFromString(k.ToString(network.MainNet))
	c.Check(err == nil, "hd-import", "depth 255: %v", err)
	_, err = imp.Derive(0)
	c.Check(err != nil, "hd-depth", "an imported key of depth 255 has a child")
	cmpHD(c, "depth 255 afterwards", k, ref)
}

// c21kin imports keys that have much in common (place in the tree, parts of the chain code or of the
// key) and derives the same children of all of them.
func c21kin(c *Ctx) {
	base := &refHD{depth: byte(c.N(250)), fp: c.Bytes(4), num: c.childIdx(c.Bool()), cc: c.Bytes(32), d: c.Scalar()}
	if base.depth == 0 {
		base.fp, base.num = make([]byte, 4), 0
	}
	part := func(b []byte) []byte {
		b = dup(b)
		switch c.N(4) {
		case 0:
			copy(b[16:], c.Bytes(16))
		case 1:
			copy(b, c.Bytes(16))
		case 2:
			b[c.N(32)] ^= byte(1 + c.N(255))
		case 3:
			copy(b[4:28], c.Bytes(24))
		}
		return b
	}
	var refs []*refHD
	var keys []*bip32.HDKey
	for i := 0; i < 4; i++ {
		k := *base
		if i > 0 {
			w := c.N(8)
			if w&1 == 0 {
				k.cc = part(k.cc)
			}
			if w > 2 {
				k.d = new(big.Int).Mod(new(big.Int).SetBytes(part(pad32(k.d))), ecN)
				if k.d.Sign() == 0 {
					k.d.SetInt64(3)
				}
			}
			if c.P(4) {
				k.depth, k.fp, k.num = byte(1+c.N(250)), c.Bytes(4), c.U32()
			}
		}
		r := &k
		if c.P(3) {
			r = r.public()
		}
		net := c.netName()
		hk, err := bip32.NewHDKeyFromString(r.text(net))
		c.Check(err == nil, "hd-import", "%v", err)
		refs, keys = append(refs, r), append(keys, hk)
	}
	idx := []uint32{c.childIdx(false), c.childIdx(true), 0}
	for _, ix := range idx {
		for _, i := range c.Perm(len(keys)) {
			if refs[i].d == nil && ix >= 1<<31 {
				continue
			}
			want, ok := refs[i].child(ix)
			if !ok {
				continue
			}
			got, err := keys[i].Derive(ix)
			c.Check(err == nil, "hd-derive", "%v", err)
			cmpHD(c, fmt.Sprintf("child %d of key %d among kin", ix, i), got, want)
		}
	}
	for i := range keys {
		cmpHD(c, fmt.Sprintf("key %d among kin afterwards", i), keys[i], refs[i])
	}
	c.NT(base.cc)
}

const b58chars = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func c21import(c *Ctx) {
	k := &refHD{depth: byte(c.U32()), fp: c.Hash(4), num: c.U32(), cc: c.Blob(32), d: c.Scalar()}
	if c.P(6) {
		k.depth = 0
	}
	if k.depth == 0 && !c.P(6) {
		k.fp, k.num = make([]byte, 4), 0
	} else if k.depth == 0 && c.Bool() {
		if c.Bool() {
			k.fp = make([]byte, 4)
		} else {
			k.num = 0
		}
	}
	k.d.Mod(k.d, ecN)
	if k.d.Sign() == 0 {
		k.d.SetInt64(1)
	}
	net := c.netName()
	if c.Bool() {
		k = k.public()
	}
	b := k.payload(net)
	text := ""
	how := "unchanged"
	switch c.N(12) {
	case 0: // version
		how = "version"
		switch c.N(4) {
		case 0:
			copy(b, c.Bytes(4))
		case 1:
			b[c.N(4)] ^= 1 << c.N(8)
		case 2: // the other kind's version
			v := hdVersions[net][0]
			if k.d != nil {
				v = hdVersions[net][1]
			}
			binary.BigEndian.PutUint32(b, v)
		default: // versions of other coins and schemes
			binary.BigEndian.PutUint32(b, []uint32{0x049d7cb2, 0x049d7878, 0x04b24746, 0x04b2430c, 0x045f1cf6, 0x02fd3929, 0x019d9cfe, 0}[c.N(8)])
		}
	case 1: // key data
		how = "key"
		switch c.N(5) {
		case 0:
			b[45] = byte(c.N(8))
		case 1:
			b[45] = 0
			copy(b[46:], pad32(new(big.Int).Add(ecN, big.NewInt(int64(c.N(5)-2)))))
		case 2:
			b[45] = 0
			copy(b[46:], pad32(big.NewInt(int64(c.N(3)))))
		case 3:
			copy(b[46:], c.Bytes(32))
		default:
			copy(b[46:], pad32(new(big.Int).Add(ecP, big.NewInt(int64(c.N(9)-3)))))
		}
	case 2:
		how = "field"
		copy(b[4:], c.Blob(c.Range(1, 41)))
	case 3:
		how = "length"
		if c.Bool() {
			b = b[:c.N(len(b)+1)]
		} else {
			b = append(b, c.Blob(c.Range(1, 40))...)
		}
	case 4:
		how = "mutated"
		b = c.mutate(b)
	case 5: // wrong checksum
		how = "checksum"
		full := append(dup(b), sha256d(b)[:4]...)
		i := 78 + c.N(4)
		full[i] ^= 1 << c.N(8)
		text = refB58Encode(full)
	case 6: // one character
		how = "character"
		t := []byte(hdText(b))
		t[c.N(len(t))] = b58chars[c.N(58)]
		text = string(t)
	case 7:
		how = "text"
		t := []byte(hdText(b))
		switch c.N(5) {
		case 0:
			i, j := c.N(len(t)), c.N(len(t))
			t[i], t[j] = t[j], t[i]
		case 1:
			t = t[:c.N(len(t)+1)]
		case 2:
			t[c.N(len(t))] = "0OIl +/-\x00\xff\n"[c.N(11)]
		case 3:
			t = append(t, b58chars[c.N(58)])
		default:
			t = append([]byte(strings.Repeat("1", c.Range(1, 3))), t...)
		}
		text = string(t)
	case 8:
		how = "single or no checksum"
		h := sha256.Sum256(b)
		text = refB58Encode(append(dup(b), h[:4]...))
	}
	if text == "" && how != "text" {
		text = hdText(b)
	}
	c.Note(func() string { return how + " " + text })
	ref, rnet, ok := refHDParse(text)
	got, err := bip32.NewHDKeyFromString(text)
	c.NT(text)
	if !ok {
		c.Check(err != nil, "hd-import-bad:"+how, "a bad key text (%s) imports: %s", how, text)
		c.Count("rejected: " + how)
		return
	}
	c.Count("imported: " + how)
	c.Check(err == nil, "hd-import", "a good key text (%s) does not import: %v", how, err)
	c.Check(got.ToString(netByName(rnet)) == text, "hd-export", "imported %s exports as %s", text, got.ToString(netByName(rnet)))
	cmpHD(c, "imported", got, ref)
	if c.P(8) {
		idx := c.childIdx(c.Bool())
		cref, cok := ref.child(idx)
		ck, err := got.Derive(idx)
		c.Check((err == nil) == cok, "hd-derive", "child %d of an imported key: %v", idx, err)
		if cok {
			cmpHD(c, "child of an imported key", ck, cref)
		}
	}
}

// refPath parses m/1/2'/... ; amb is set when an index of 2^31 or more is written without a mark, or digits have leading zeros.
func refPath(p string) (idx []uint32, ok, amb bool) {
	steps := strings.Split(p, "/")
	if steps[0] != "m" {
		return nil, false, false
	}
	for _, s := range steps[1:] {
		hard := strings.HasSuffix(s, "'")
		s = strings.TrimSuffix(s, "'")
		if s == "" {
			return nil, false, false
		}
		v := new(big.Int)
		for _, ch := range []byte(s) {
			if ch < '0' || ch > '9' {
				return nil, false, false
			}
			v.Mul(v, big.NewInt(10)).Add(v, big.NewInt(int64(ch-'0')))
		}
		if v.BitLen() > 32 || (hard && v.BitLen() > 31) {
			return nil, false, false
		}
		if v.BitLen() == 32 || (len(s) > 1 && s[0] == '0') {
			amb = true
		}
		i := uint32(v.Uint64())
		if hard {
			i |= 1 << 31
		}
		idx = append(idx, i)
	}
	return idx, true, amb
}

func c21paths(c *Ctx) {
	var parts []string
	n := c.Range(0, 3)
	for i := 0; i < n; i++ {
		s := strconv.FormatUint(uint64(c.childIdx(false)), 10)
		switch c.N(12) {
		case 0:
			s = []string{"2147483647", "2147483648", "4294967295", "4294967296", "18446744073709551616", "99999999999999999999999", "9223372036854775808", "8589934592"}[c.N(8)]
		case 1:
			s = []string{"", "-1", "+1", " 1", "1 ", "0x1", "1_0", "1e1", "h", "1.0", "٣", "０", "1\x00", "m", "*", "0", "00", "01"}[c.N(18)]
		}
		switch c.N(8) {
		case 0, 1:
			s += "'"
		case 2:
			if c.P(3) {
				s += []string{"''", "h", "H", "p", "`", "’", "'x", "' "}[c.N(8)]
			}
		}
		parts = append(parts, s)
	}
	head := "m"
	if c.P(8) {
		head = []string{"", "M", "mm", "m ", " m", "0", "n", "/m"}[c.N(8)]
	}
	path := strings.Join(append([]string{head}, parts...), "/")
	if c.P(10) {
		path += "/"
	}
	if c.P(10) {
		path = string(c.mutate([]byte(path)))
	}
	seed := c.Bytes(16)
	c.Note(func() string { return fmt.Sprintf("seed %x path %q", seed, path) })
	k, ref := bip32.NewHDKey(seed), refMaster(seed)
	if c.P(4) {
		k, ref = k.HDPublicKey(), ref.public()
	}
	idx, ok, amb := refPath(path)
	got, err := k.DeriveByPath(path)
	c.NT(path)
	if path == "" {
		// The empty path is the key itself (documented by the tests).
		c.Check(err == nil && got.ToString(network.MainNet) == ref.text("main"), "hd-path-empty", "empty path: %v", err)
		return
	}
	if !ok {
		c.Check(err != nil, "hd-path-bad", "invalid path %q derives", path)
		c.Count("invalid paths")
		return
	}
	if amb && err != nil {
		c.Eval(1)
		return
	}
	for _, i := range idx {
		n, can := ref.child(i)
		if !can {
			c.Check(err != nil, "hd-path-public", "%q derives from a public key", path)
			return
		}
		ref = n
	}
	c.Check(err == nil, "hd-path", "%q: %v", path, err)
	cmpHD(c, path, got, ref)
	c.Count("valid paths")
}

// ---- BIP39 ----

// digests of the published lists: each word followed by a newline
var listDigest = []string{
	"2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda",
	"5c5942792bd8340cb8b27cd592f1015edf56a8c5b26276ee18a482428e7c5726",
	"2eed0aef492291e061633d7ad8117f1a2b03eb80a29d0e4e3117ac2528d05ffd",
}

var customList = func() []string {
	var l []string
	for i := 0; i < 2048; i++ {
		l = append(l, fmt.Sprintf("w%dx", (i*1201+77)%2048))
	}
	return l
}()

func wordListOf(i int) []string {
	return [][]string{wlists.English, wlists.Chinese, wlists.Japanese, customList}[i]
}

func c22set(c *Ctx, i int) {
	l := wordListOf(i)
	if i < 3 {
		h := sha256.New()
		for _, w := range l {
			h.Write([]byte(w + "\n"))
		}
		c.Check(hex.EncodeToString(h.Sum(nil)) == listDigest[i], "list", "word list %d is not the published one", i)
	}
	bip39.SetWordList(l)
	got := bip39.GetWordList()
	c.Check(len(got) == 2048, "list-len", "the word list has %d words", len(got))
	for j, w := range l {
		x, ok := bip39.GetWordIndex(w)
		c.Check(ok && x == j && got[j] == w, "list-index", "word %q of list %d has index %d %v", w, i, x, ok)
	}
	_, ok := bip39.GetWordIndex("zzzz")
	c.Check(!ok, "list-index", "an unknown word is listed")
	c.Count("lists")
}

// refWords gives the indexes of the words for an entropy.
func refWords(ent []byte) []int {
	cs := sha256.Sum256(ent)
	var bits []byte
	for _, x := range ent {
		for j := 7; j >= 0; j-- {
			bits = append(bits, x>>j&1)
		}
	}
	for j := 0; j < len(ent)/4; j++ {
		bits = append(bits, cs[j/8]>>(7-j%8)&1)
	}
	var idx []int
	for i := 0; i+11 <= len(bits); i += 11 {
		v := 0
		for _, b := range bits[i : i+11] {
			v = v<<1 | int(b)
		}
		idx = append(idx, v)
	}
	return idx
}

// refEntropy decides a list of word indexes.
func refEntropy(idx []int) (ent, full []byte, ok bool) {
	n := len(idx)
	if n%3 != 0 || n < 12 || n > 24 {
		return nil, nil, false
	}
	v := new(big.Int)
	for _, i := range idx {
		v.Lsh(v, 11).Or(v, big.NewInt(int64(i)))
	}
	cs := uint(n / 3)
	full = make([]byte, (n*11+7)/8)
	v.FillBytes(full)
	e := new(big.Int).Rsh(v, cs)
	ent = make([]byte, n*11*32/33/8)
	e.FillBytes(ent)
	h := sha256.Sum256(ent)
	want := int64(h[0] >> (8 - cs))
	got := new(big.Int).And(v, big.NewInt(1<<cs-1)).Int64()
	return ent, full, got == want
}

func (r *Rand) entropy() []byte {
	n := r.Pick(16, 20, 24, 28, 32)
	e := r.Hash(n)
	switch r.N(6) {
	case 0:
		for i := 0; i < r.Range(1, n); i++ {
			e[i] = 0
		}
	case 1:
		for i := range e {
			e[i] = byte(r.Pick(0, 0xff, 0x7f, 0x80))
		}
	case 2:
		e = make([]byte, n)
		e[r.N(n)] = 1 << r.N(8)
	case 3:
		for i := n - 1 - r.N(n); i < n; i++ {
			e[i] = 0
		}
	}
	return e
}

func toSentence(list []string, idx []int) string {
	var w []string
	for _, i := range idx {
		w = append(w, list[i])
	}
	return strings.Join(w, " ")
}

// judgeSentence compares every decision about a sentence with the reference.
func judgeSentence(c *Ctx, list []string, s string) {
	index := refIndex(list)
	var idx []int
	known := true
	for _, w := range strings.Fields(s) {
		i, ok := index[w]
		if !ok {
			known = false
		}
		idx = append(idx, i)
	}
	ent, full, ok := refEntropy(idx)
	ok = ok && known
	count := len(idx)%3 == 0 && len(idx) >= 12 && len(idx) <= 24
	c.Note(func() string { return fmt.Sprintf("sentence %q", s) })
	c.Check(bip39.IsMnemonicValid(s) == (known && count), "words-valid", "IsMnemonicValid is %v with %d words, all listed %v", bip39.IsMnemonicValid(s), len(idx), known)
	got, err := bip39.EntropyFromMnemonic(s)
	c.Check((err == nil) == ok, "entropy-accept", "EntropyFromMnemonic: %v, reference valid=%v", err, ok)
	raw, err2 := bip39.MnemonicToByteArray(s, true)
	c.Check((err2 == nil) == ok, "raw-accept", "MnemonicToByteArray(raw): %v, reference valid=%v", err2, ok)
	f, err3 := bip39.MnemonicToByteArray(s)
	c.Check((err3 == nil) == ok, "bytes-accept", "MnemonicToByteArray: %v, reference valid=%v", err3, ok)
	if ok {
		c.Check(bytes.Equal(got, ent), "entropy", "EntropyFromMnemonic gives %x, reference %x", got, ent)
		c.Check(bytes.Equal(raw, ent), "raw", "MnemonicToByteArray(raw) gives %x, reference %x", raw, ent)
		c.Check(bytes.Equal(f, full), "bytes", "MnemonicToByteArray gives %x, reference %x", f, full)
		f2, _ := bip39.MnemonicToByteArray(s, false)
		c.Check(bytes.Equal(f2, full), "bytes", "MnemonicToByteArray(false) gives %x, reference %x", f2, full)
		c.Count("accepted")
	} else {
		c.Count("rejected")
	}
	if c.P(40) {
		seed, err := bip39.NewSeedWithErrorChecking(s, "x")
		c.Check((err == nil) == ok, "seed-accept", "NewSeedWithErrorChecking: %v, reference valid=%v", err, ok)
		if ok {
			c.Check(bytes.Equal(seed, refSeed(s, "x")), "seed", "seed %x", seed)
		}
	}
	c.NT(s)
}

var (
	idxMu    sync.Mutex
	idxCache = map[*string]map[string]int{}
)

func refIndex(list []string) map[string]int {
	idxMu.Lock()
	defer idxMu.Unlock()
	m := idxCache[&list[0]]
	if m == nil {
		m = map[string]int{}
		for i, w := range list {
			m[w] = i
		}
		idxCache[&list[0]] = m
	}
	return m
}

func refSeed(sentence, pass string) []byte {
	k, err := stdpbkdf2.Key(sha512.New, sentence, []byte("mnemonic"+pass), 2048, 64)
	if err != nil {
		panic(err)
	}
	return k
}

func c22one(c *Ctx, li int) {
	list := wordListOf(li)
	ent := c.entropy()
	idx := refWords(ent)
	want := toSentence(list, idx)
	c.Note(func() string { return fmt.Sprintf("entropy %x", ent) })
	arg, g := guarded(ent, c.N(2)*8)
	got, err := bip39.NewMnemonic(arg)
	c.Check(err == nil, "mnemonic", "NewMnemonic: %v", err)
	c.Check(got == want, "mnemonic", "NewMnemonic gives %q, reference %q", got, want)
	c.Check(g.ok(), "entropy-written", "NewMnemonic wrote into the entropy")
	c.Count(fmt.Sprintf("%d words", len(idx)))
	judgeSentence(c, list, got)
	// altered sentences
	w := dupInts(idx)
	s := ""
	switch c.N(10) {
	case 0:
		w[c.N(len(w))] = c.N(2048)
	case 1:
		w[len(w)-1] ^= 1 << c.N(11)
	case 2:
		i, j := c.N(len(w)), c.N(len(w))
		w[i], w[j] = w[j], w[i]
	case 3:
		w = w[:c.N(len(w)+1)]
	case 4:
		for i, n := 0, c.Range(1, 12); i < n; i++ {
			w = append(w, c.N(2048))
		}
	case 5:
		for i := range w {
			w[i] = c.N(2048)
		}
	case 6: // an unlisted word
		ws := strings.Fields(want)
		ws[c.N(len(ws))] = []string{"", "abandonn", "Abandon", "zzz", "的", "あ", "abandon\u0301", wordListOf((li + 1) % 3)[c.N(2048)]}[c.N(8)]
		s = strings.Join(ws, " ")
	case 7: // white space
		sp := []string{" ", "  ", "\t", "\n", "\u3000", " \r\n"}
		if c.Bool() {
			w[c.N(len(w))] = c.N(2048)
		}
		for i, x := range w {
			if i > 0 {
				s += sp[c.N(len(sp))]
			}
			s += list[x]
		}
		if c.Bool() {
			s = sp[c.N(len(sp))] + s
		}
		if c.Bool() {
			s += sp[c.N(len(sp))]
		}
	case 8: // one kind of white space
		sp := []string{"  ", "\t", "\n", "\u3000"}[c.N(4)]
		if c.Bool() {
			w[c.N(len(w))] = c.N(2048)
		}
		s = strings.ReplaceAll(toSentence(list, w), " ", sp)
	default: // drop or repeat words
		if c.Bool() {
			i := c.N(len(w))
			w = append(w[:i], w[i+1:]...)
		} else {
			w = append(w, w[:3]...)
		}
	}
	if s == "" {
		s = toSentence(list, w)
	}
	judgeSentence(c, list, s)
	c.Sample("%x -> %s", ent, want)
}

func dupInts(a []int) []int { return append([]int{}, a...) }

func c22sizes(c *Ctx) {
	n := c.Idx
	if n <= 80 {
		e := c.Blob(n)
		s, err := bip39.NewMnemonic(e)
		ok := n%4 == 0 && n >= 16 && n <= 32
		c.Check((err == nil) == ok, "entropy-length", "NewMnemonic of %d bytes: %v", n, err)
		c.Check(ok || s == "", "entropy-length", "NewMnemonic of %d bytes gives %q", n, s)
	}
	bits := n - 20
	e, err := bip39.NewEntropy(bits)
	ok := bits%32 == 0 && bits >= 128 && bits <= 256
	c.Check((err == nil) == ok, "entropy-bits", "NewEntropy(%d): %v", bits, err)
	if ok {
		c.Check(len(e)*8 == bits, "entropy-bits", "NewEntropy(%d) gives %d bytes", bits, len(e))
	}
	c.NT("size", n)
}

// composed characters and what NFKD makes of them
var nfkd = [][2]string{
	{"\u00e9", "e\u0301"}, {"\u00c5", "A\u030a"}, {"\ufb01", "fi"}, {"\uff21", "A"}, {"\u2460", "1"}, {"\u304c", "\u304b\u3099"},
	{"\uac00", "\u1100\u1161"}, {"\u00f1", "n\u0303"}, {"\u3000", " "}, {"\u00b5", "\u03bc"}, {"\u1e69", "s\u0323\u0307"},
}

func c22seed(c *Ctx) {
	list := wordListOf(c.N(3))
	s := toSentence(list, refWords(c.entropy()))
	if c.P(5) {
		s = string(c.Blob(c.Len(300))) // NewSeed does not look at its sentence
	}
	pass := ""
	switch c.N(6) {
	case 0:
	case 1:
		pass = "TREZOR"
	case 2:
		pass = strings.Repeat("p", c.Range(100, 400))
	case 3:
		pass = fmt.Sprintf("%x", c.Bytes(c.N(20)))
	case 4:
		pass = "日本語 \x00 " + string([]byte{byte(33 + c.N(90))})
	default:
		pass = string(c.Blob(c.Len(200)))
	}
	c.Note(func() string { return fmt.Sprintf("sentence %q passphrase %q", s, pass) })
	got := bip39.NewSeed(s, pass)
	if c.P(10) {
		p := nfkd[c.N(len(nfkd))]
		a, b := bip39.NewSeed(s, "x"+p[0]+"y"), bip39.NewSeed(s, "x"+p[1]+"y")
		c.Eval(1)
		if !bytes.Equal(a, b) {
			// the seed of the text as it is, which must still be PBKDF2's
			c.Check(bytes.Equal(a, refSeed(s, "x"+p[0]+"y")), "seed", "passphrase %q: seed %x", p[0], a)
			c.Fail("seed-nfkd", "passphrases %q and %q, equal in NFKD, give different seeds", p[0], p[1])
		}
		return
	}
	if isASCII(s) && isASCII(pass) || !isASCII(s+pass) && strings.HasPrefix(pass, "日") || !isASCII(s) && isASCII(pass) {
		c.Check(bytes.Equal(got, refSeed(s, pass)), "seed", "seed %x, reference %x", got, refSeed(s, pass))
	}
	c.Check(len(got) == 64, "seed", "seed of %d bytes", len(got))
	c.NT(s, pass)
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] > 127 {
			return false
		}
	}
	return true
}

func c22object(c *Ctx) {
	which := []bip39.Wordlists{bip39.ENGLISH, bip39.CHINESE, bip39.JAPANESE}[c.Idx%3]
	list := wordListOf(c.Idx % 3)
	o, err := bip39.NewBIP39(which)
	c.Check(err == nil, "object", "NewBIP39: %v", err)
	defer bip39.SetWordList(wlists.English)
	s := o.ToString()
	c.Check(len(strings.Fields(s)) == 12 && s == o.ToString(), "object", "sentence %q", s)
	judgeSentence(c, list, s)
	_, err = bip39.EntropyFromMnemonic(s)
	c.Check(err == nil, "object-list", "the sentence of list %d is not valid: %v", which, err)
	c.Check(bytes.Equal(o.Seed(), refSeed(s, "TREZOR")), "object-seed", "seed %x of %q", o.Seed(), s)
	// the sentence is of the requested list
	index := refIndex(list)
	for _, w := range strings.Fields(s) {
		_, ok := index[w]
		c.Check(ok, "object-list", "word %q is not in the list %d", w, which)
	}
}

// ---- secrets ----

// recorder is a random source that is a deterministic stream with chosen bits flipped, and counts what is taken.
type recorder struct {
	mu    sync.Mutex
	src   *mrand.ChaCha8
	taken int
	flip  int // bit to flip, or -1
	chunk int // largest read, or 0
}

func newRecorder(seed uint64, flip, chunk int) *recorder {
	var k [32]byte
	binary.LittleEndian.PutUint64(k[:], seed)
	return &recorder{src: mrand.NewChaCha8(k), flip: flip, chunk: chunk}
}

func (r *recorder) Read(p []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.chunk > 0 && len(p) > r.chunk {
		p = p[:r.chunk]
	}
	for i := range p {
		p[i] = byte(r.src.Uint64())
		if r.flip >= 0 && r.flip/8 == r.taken {
			p[i] ^= 1 << (r.flip % 8)
		}
		r.taken++
	}
	return len(p), nil
}

// withReader runs f with the system random source replaced.
func withReader(r io.Reader, f func()) {
	old := rand.Reader
	rand.Reader = r
	defer func() { rand.Reader = old }()
	f()
}

var secretNames = []string{"NewEntropy", "NewBIP39", "NewHDKeyRand"}

// secret generates one secret and returns what is unpredictable of it and its number of random bits.
func secret(c *Ctx, which, size int) (string, int) {
	switch secretNames[which] {
	case "NewEntropy":
		e, err := bip39.NewEntropy(size)
		c.Check(err == nil && len(e)*8 == size, "secret", "NewEntropy(%d): %v", size, err)
		return string(e), size
	case "NewBIP39":
		o, err := bip39.NewBIP39([]bip39.Wordlists{bip39.ENGLISH, bip39.CHINESE, bip39.JAPANESE}[size%3])
		c.Check(err == nil, "secret", "NewBIP39: %v", err)
		// read the entropy back with the reference
		index := refIndex(wordListOf(size % 3))
		var idx []int
		for _, w := range strings.Fields(o.ToString()) {
			i, ok := index[w]
			c.Check(ok, "secret-list", "word %q is not in list %d", w, size%3)
			idx = append(idx, i)
		}
		ent, _, ok := refEntropy(idx)
		c.Check(ok, "secret-sentence", "generated sentence %q is invalid", o.ToString())
		return string(ent), 128
	}
	k, err := bip32.NewHDKeyRand()
	c.Check(err == nil && k != nil, "secret", "NewHDKeyRand: %v", err)
	return k.ToString(network.MainNet), 256
}

// c23stream counts the random bits a secret depends on.
func c23stream(c *Ctx) {
	defer bip39.SetWordList(wlists.English)
	which := c.Idx % 3
	size := c.Pick(128, 160, 192, 224, 256)
	if which == 1 {
		size = c.N(3)
	}
	chunk := 0
	if c.Idx%2 == 1 {
		chunk = c.Range(1, 7)
	}
	seed := c.U64()
	gen := func(flip int) (out string, bits, taken int) {
		rec := newRecorder(seed, flip, chunk)
		withReader(rec, func() { out, bits = secret(c, which, size) })
		return out, bits, rec.taken
	}
	c.Note(func() string { return fmt.Sprintf("%s size %d, reads of at most %d", secretNames[which], size, chunk) })
	base, bits, taken := gen(-1)
	c.Check(taken*8 >= bits, "secret-source", "%d random bytes are taken for %d bits", taken, bits)
	again, _, _ := gen(-1)
	if again != base {
		// more randomness than the recorded source: fine, but then it cannot be examined bit by bit
		c.Count("not determined by the source")
	}
	deps := 0
	outs := map[string]bool{base: true}
	limit := taken * 8
	if limit > 2048 {
		limit = 2048
	}
	stride := 1
	if which == 2 && !c.Thor {
		stride = 8 // key derivation is slower: every eighth bit
	}
	tried := 0
	for i := c.N(stride); i < limit; i += stride {
		o, _, _ := gen(i)
		tried++
		if o != base {
			deps++
		}
		outs[o] = true
	}
	c.CountN("bits flipped", tried)
	c.CountN("bits that matter", deps)
	c.Check(deps*stride >= bits, "secret-bits", "of %d random bits taken only %d (of %d tried) matter; %d are needed", taken*8, deps, tried, bits)
	c.Check(len(outs) == deps+1, "secret-repeat", "%d flipped bits give only %d different secrets", deps, len(outs))
	c.NT(base)
}

// biasCheck looks for constant or biased bits and repeats.
func biasCheck(c *Ctx, what string, vals [][]byte) {
	seen := map[string]bool{}
	n := len(vals[0]) * 8
	ones := make([]int, n)
	pair := make([]int, n)
	for _, v := range vals {
		c.Check(!seen[string(v)], "secret-repeat", "%s: %x repeats", what, v)
		seen[string(v)] = true
		prev := byte(0)
		for i := 0; i < n; i++ {
			b := v[i/8] >> (7 - i%8) & 1
			ones[i] += int(b)
			pair[i] += int(b ^ prev)
			prev = b
		}
	}
	N := float64(len(vals))
	lim := 6.5 * math.Sqrt(N) / 2
	for i := 0; i < n; i++ {
		c.Check(math.Abs(float64(ones[i])-N/2) < lim, "secret-bias", "%s: bit %d is set in %d of %d", what, i, ones[i], len(vals))
		if i > 0 {
			c.Check(math.Abs(float64(pair[i])-N/2) < lim, "secret-bias", "%s: bits %d and %d differ in %d of %d", what, i-1, i, pair[i], len(vals))
		}
	}
	c.CountN("secrets examined", len(vals))
}

func c23bias(c *Ctx) {
	defer bip39.SetWordList(wlists.English)
	switch c.Idx % 4 {
	case 0, 1:
		bits := []int{128, 160, 192, 224, 256}[c.N(5)]
		var v [][]byte
		for i := 0; i < 6000; i++ {
			e, err := bip39.NewEntropy(bits)
			c.Check(err == nil, "secret", "%v", err)
			v = append(v, e)
		}
		biasCheck(c, fmt.Sprintf("NewEntropy(%d)", bits), v)
		c.NT(v[0])
	case 2:
		var v [][]byte
		for i := 0; i < 600; i++ {
			s, _ := secret(c, 1, c.Idx/4)
			v = append(v, []byte(s))
		}
		biasCheck(c, "NewBIP39", v)
		c.NT(v[0])
	default:
		var v [][]byte
		for i := 0; i < 800; i++ {
			k, err := bip32.NewHDKeyRand()
			c.Check(err == nil, "secret", "%v", err)
			b, _ := refB58Decode(k.ToString(network.MainNet))
			v = append(v, append(dup(b[13:45]), b[46:78]...))
		}
		biasCheck(c, "NewHDKeyRand", v)
		c.NT(v[0])
	}
}

// c23conc generates secrets from many goroutines at the same moment.
func c23conc(c *Ctx) {
	defer bip39.SetWordList(wlists.English)
	which := c.Idx % 4
	const G, per = 32, 12
	var mu sync.Mutex
	seen := map[string]int{}
	var wg sync.WaitGroup
	start := make(chan struct{})
	bad := ""
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					bad = fmt.Sprint(e)
					mu.Unlock()
				}
			}()
			<-start
			for i := 0; i < per; i++ {
				s := ""
				switch which {
				case 0:
					e, err := bip39.NewEntropy(128 + 32*(i%5))
					if err != nil {
						panic(err)
					}
					s = string(e[:16])
				case 1:
					o, err := bip39.NewBIP39(bip39.Wordlists(i % 3))
					if err != nil {
						panic(err)
					}
					s = o.ToString()
					index := refIndex(wordListOf(i % 3))
					var idx []int
					for _, w := range strings.Fields(s) {
						x, ok := index[w]
						if !ok {
							panic(fmt.Sprintf("word %q is not in list %d", w, i%3))
						}
						idx = append(idx, x)
					}
					ent, _, ok := refEntropy(idx)
					if !ok {
						panic(fmt.Sprintf("sentence %q is invalid", s))
					}
					s = string(ent)
				case 2:
					k, err := bip32.NewHDKeyRand()
					if err != nil {
						panic(err)
					}
					s = k.ToString(network.MainNet)
				default:
					p, _, err := paillier.GenerateKeyPair(128)
					if err != nil {
						panic(err)
					}
					s = p.N.String()
				}
				mu.Lock()
				seen[s]++
				mu.Unlock()
			}
		}()
	}
	close(start)
	wg.Wait()
	c.Check(bad == "", "secret-concurrent", "%s", bad)
	c.Check(len(seen) == G*per, "secret-repeat", "%d secrets generated at the same time, only %d different (source %d)", G*per, len(seen), which)
	c.CountN("concurrent secrets", G*per)
	for s := range seen {
		c.NT(s)
		break
	}
}

// c23paillier recovers the primes and nonces of the encryption from what the code gives out.
func c23paillier(c *Ctx) {
	// keys: no repeats, no shared primes, and the source is used
	prod := big.NewInt(1)
	var keys []*paillier.PubKey
	for i := 0; i < 40; i++ {
		rec := &countReader{r: rand.Reader}
		var pub *paillier.PubKey
		var err error
		withReader(rec, func() { pub, _, err = paillier.GenerateKeyPair(128) })
		c.Check(err == nil, "paillier", "%v", err)
		c.Check(rec.n*8 >= 120, "paillier-key-source", "a 128-bit key takes %d bytes of the random source", rec.n)
		g := new(big.Int).GCD(nil, nil, prod, pub.N)
		c.Check(g.Cmp(big.NewInt(1)) == 0, "paillier-shared", "two keys share the prime %v", g)
		prod.Mul(prod, pub.N)
		keys = append(keys, pub)
	}
	// the prime factors: factor 64-bit moduli, look at the free bits of the primes
	var primes [][]byte
	for i := 0; i < 120; i++ {
		pub, _, err := paillier.GenerateKeyPair(48)
		c.Check(err == nil, "paillier", "%v", err)
		p, q := factor(pub.N.Uint64())
		c.Check(p > 1, "paillier", "%v does not factor", pub.N)
		for _, x := range []uint64{p, q} {
			b := make([]byte, 2)
			binary.BigEndian.PutUint16(b, uint16(x>>2)) // 24-bit primes: top two and the last bit are fixed
			primes = append(primes, b)
		}
	}
	counts := map[string]int{}
	for _, p := range primes {
		counts[string(p)]++
	}
	for p, n := range counts {
		c.Check(n < 12, "paillier-prime-repeat", "prime bits %x occur in %d of %d primes", p, n, len(primes))
	}
	n := len(primes)
	for i := 0; i < 16; i++ {
		ones := 0
		for _, p := range primes {
			ones += int(p[i/8] >> (7 - i%8) & 1)
		}
		c.Check(math.Abs(float64(ones)-float64(n)/2) < 6.5*math.Sqrt(float64(n))/2, "paillier-prime-bias", "bit %d of the primes is set in %d of %d", i, ones, n)
	}
	c.CountN("primes examined", n)
	// nonces: c * (1+mn)^-1 = r^n mod n^2; mod n: r = (c mod n)^(n^-1 mod lambda) needs the factors, so use a small key
	pub, _, err := paillier.GenerateKeyPair(48)
	c.Check(err == nil, "paillier", "%v", err)
	p, q := factor(pub.N.Uint64())
	phi := new(big.Int).Mul(new(big.Int).SetUint64(p-1), new(big.Int).SetUint64(q-1))
	inv := new(big.Int).ModInverse(pub.N, phi)
	if inv == nil {
		return
	}
	const M = 2000
	buckets := make([]int, 16)
	repeat := map[uint64]int{}
	for i := 0; i < M; i++ {
		m := big.NewInt(7)
		ct, err := pub.Encrypt(m)
		c.Check(err == nil, "paillier", "%v", err)
		r := new(big.Int).Exp(new(big.Int).Mod(ct, pub.N), inv, pub.N).Uint64()
		repeat[r]++
		b := new(big.Int).SetUint64(r)
		b.Mul(b, big.NewInt(16)).Div(b, pub.N)
		buckets[b.Uint64()]++
	}
	for r, k := range repeat {
		c.Check(k < 3, "paillier-nonce-repeat", "nonce %d is used %d times in %d encryptions", r, k, M)
	}
	for i, k := range buckets {
		sd := math.Sqrt(M * (1.0 / 16) * (15.0 / 16))
		c.Check(math.Abs(float64(k)-M/16) < 6.5*sd, "paillier-nonce-bias", "%d of %d nonces lie in sixteenth %d of the range", k, M, i)
	}
	c.CountN("nonces examined", M)
	// the encryption takes its nonce from the system source: every bit of the nonce depends on it
	big1 := keys[0]
	rec := &countReader{r: rand.Reader}
	withReader(rec, func() { big1.Encrypt(big.NewInt(5)) })
	c.Check(rec.n*8 >= big1.N.BitLen()-8, "paillier-nonce-source", "a nonce for a %d-bit key takes %d bytes of the random source", big1.N.BitLen(), rec.n)
	a, _ := big1.Encrypt(big.NewInt(5))
	b, _ := big1.Encrypt(big.NewInt(5))
	c.Check(a.Cmp(b) != 0, "paillier-deterministic", "two encryptions of one number are equal")
	c.NT(big1.N.String())
}

type countReader struct {
	r io.Reader
	n int
}

func (r *countReader) Read(p []byte) (int, error) {
	n, err := r.r.Read(p)
	r.n += n
	return n, err
}

// factor splits a product of two primes by Pollard's rho.
func factor(n uint64) (uint64, uint64) {
	if n%2 == 0 {
		return 2, n / 2
	}
	N := new(big.Int).SetUint64(n)
	f := func(x, cst uint64) uint64 {
		v := new(big.Int).SetUint64(x)
		v.Mul(v, v).Add(v, new(big.Int).SetUint64(cst)).Mod(v, N)
		return v.Uint64()
	}
	for cst := uint64(1); cst < 30; cst++ {
		x, y, d := uint64(2), uint64(2), uint64(1)
		for d == 1 {
			x = f(x, cst)
			y = f(f(y, cst), cst)
			diff := x - y
			if y > x {
				diff = y - x
			}
			d = new(big.Int).GCD(nil, nil, new(big.Int).SetUint64(diff), N).Uint64()
		}
		if d != n && d != 0 {
			return d, n / d
		}
	}
	return 0, 0
}
