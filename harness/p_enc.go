package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"strings"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/xcore"
)

func init() {
	register(&Prop{
		ID:   "C01",
		Rule: "byte strings (biased to leading/trailing zeros, block boundaries, up to 600 bytes) and texts (valid, mutated, foreign characters, random) go through the real encoder/decoder and are compared with a schoolbook base-58 model; non-trivial: at least one byte",
		Kinds: []Kind{
			{Name: "roundtrip", N: 60000, TN: 240000, Run: c01round},
			{Name: "text", N: 60000, TN: 240000, Run: c01text},
			{Name: "check", N: 40000, TN: 160000, Run: c01check},
			{Name: "singlechar", N: 200, TN: 800, Run: c01single},
		},
	})
	register(&Prop{
		ID:   "C02",
		Rule: "human-readable parts, data, versions and programs of every length, their encodings, up-to-four-character alterations, and structurally hostile texts are compared with a bit-string model of BIP173; non-trivial: text of 8 characters or more",
		Kinds: []Kind{
			{Name: "bech32", N: 60000, TN: 240000, Run: c02bech},
			{Name: "segwit", N: 60000, TN: 240000, Run: c02segwit},
			{Name: "alter", N: 30000, TN: 200000, Run: c02alter},
			{Name: "rawdata", N: 60000, TN: 240000, Run: c02raw},
			{Name: "grid", N: 17 * 64, TN: 17 * 64, Run: c02grid},
			{Name: "charrange", N: 256, TN: 256, Run: c02chars},
		},
	})
	register(&Prop{
		ID:   "C03",
		Rule: "hashes of every kind on both networks go address -> text -> address -> script -> address and are compared with reference texts and scripts; mutated, foreign-network and wrong-length texts and scripts are classified by a reference; non-trivial: distinct (kind, network, hash) or text",
		Kinds: []Kind{
			{Name: "roundtrip", N: 80000, TN: 320000, Run: c03round},
			{Name: "reject", N: 80000, TN: 320000, Run: c03reject},
			{Name: "script", N: 60000, TN: 240000, Run: c03script},
			{Name: "networks", N: 2, TN: 2, Run: c03networks},
		},
	})
	register(&Prop{
		ID:   "C04",
		Rule: "random sequences of typed writes are read back and compared with an independent codec; readers over random, truncated and hostile-length bytes are run in lockstep with a reference reader while allocation is measured; non-trivial: a sequence of two or more operations",
		Kinds: []Kind{
			{Name: "sequence", N: 32000, TN: 200000, Run: c04seq},
			{Name: "interleave", N: 24000, TN: 100000, Run: c04inter},
			{Name: "varint", N: 24000, TN: 100000, Run: c04varint},
			{Name: "lockstep", N: 64000, TN: 300000, Run: c04lock},
			{Name: "hostile", N: 1500, TN: 20000, Run: c04hostile, Serial: true},
			{Name: "large", N: 6, TN: 24, Run: c04large},
		},
	})
}

// ---- C01 ----

func c01round(c *Ctx) {
	b := c.Blob(c.Len(600))
	if c.P(30) {
		b = c.Blob(c.Len(3000))
	}
	c.Note(func() string { return "bytes=" + hx(b) })
	s := xbase.Base58Encode(b)
	c.Check(s == refB58Encode(b), "b58-encode", "Base58Encode gives %q, standard is %q", s, refB58Encode(b))
	back := xbase.Base58Decode(s)
	c.Check(bytes.Equal(back, b), "b58-roundtrip", "Base58Decode(Base58Encode(b)) = %s", hx(back))
	if len(b) > 0 {
		c.NT(b)
	}
	c.Sample("%s -> %s", hx(b), s)
}

func randText(c *Ctx, alpha string, n int) string {
	o := make([]byte, n)
	for i := range o {
		o[i] = alpha[c.N(len(alpha))]
	}
	return string(o)
}

func c01text(c *Ctx) {
	s := randText(c, b58alpha, c.Len(200))
	if c.P(4) {
		s = strings.Repeat("1", c.N(6)) + s
	}
	for c.P(2) && len(s) < 400 { // runs of the lowest, the highest or any digit
		i := c.N(len(s) + 1)
		s = s[:i] + strings.Repeat(b58alpha[c.Pick(0, 0, 57, c.N(58)):][:1], c.Range(1, 30)) + s[i:]
	}
	if c.P(2) && len(s) > 0 {
		o := []byte(s)
		for k := c.Range(1, 2); k > 0; k-- {
			i := c.N(len(o))
			switch c.N(3) {
			case 0:
				o[i] = "0OIl"[c.N(4)]
			case 1:
				o[i] = byte(c.N(256))
			case 2:
				o[i] = " +/-_\n\t\x00\x7f\x80\xff:;@[`{"[c.N(17)]
			}
		}
		s = string(o)
		if c.P(6) { // a character whose code ends in that of a digit
			i := c.N(len(s))
			s = s[:i] + string(rune(c.Range(1, 0x10f))<<8|rune(b58alpha[c.N(58)])) + s[i+1:]
		}
	}
	c.Note(func() string { return fmt.Sprintf("text=%q", s) })
	want, ok := refB58Decode(s)
	got := xbase.Base58Decode(s)
	if !ok {
		c.Check(len(got) == 0, "b58-foreign", "text with a foreign character decodes to %s", hx(got))
		c.Count("foreign")
	} else {
		c.Check(bytes.Equal(got, want), "b58-decode", "decodes to %s, want %s", hx(got), hx(want))
		c.Check(xbase.Base58Encode(got) == s, "b58-text-roundtrip", "encodes again to %q", xbase.Base58Encode(got))
	}
	if s != "" {
		c.NT(s)
	}
}

func c01check(c *Ctx) {
	p := c.Blob(c.Len(120))
	ver := byte(c.N(256))
	if c.P(3) {
		ver = []byte{0, 5, 0x6f, 0xc4, 0x80, 0xff}[c.N(6)]
	}
	s := xbase.Base58CheckEncode(p, ver)
	c.Note(func() string { return fmt.Sprintf("payload=%s version=%d text=%q", hx(p), ver, s) })
	c.Check(s == refB58CheckEncode(p, ver), "b58check-encode", "standard text is %q", refB58CheckEncode(p, ver))
	got, v, err := xbase.Base58CheckDecode(s)
	c.Check(err == nil && v == ver && bytes.Equal(got, p), "b58check-roundtrip", "decodes to %s version %d err %v", hx(got), v, err)
	c.NT(s)
	for k := 0; k < 6; k++ {
		var t string
		switch c.N(5) {
		case 0:
			t = string(c.mutate([]byte(s)))
		case 1: // corrupt the bytes, then encode: every text is well formed
			t = refB58Encode(c.mutate(append(append([]byte{ver}, p...), sha256d(append([]byte{ver}, p...))[:4]...)))
		case 2: // short
			t = refB58Encode(c.Blob(c.N(6)))
		case 3: // checksum of one byte flipped
			raw, _ := refB58Decode(s)
			raw = append([]byte{}, raw...)
			raw[len(raw)-1-c.N(4)] ^= 1 << uint(c.N(8))
			t = refB58Encode(raw)
		case 4: // valid check text of short content
			q := c.Blob(c.N(4))
			t = refB58Encode(append(q, sha256d(q)[:4]...))
		}
		wp, wv, ok := refB58CheckDecode(t)
		gp, gv, err := xbase.Base58CheckDecode(t)
		c.Check((err == nil) == ok, "b58check-accept", "%q: error %v, valid is %v", t, err, ok)
		if ok {
			c.Check(gv == wv && bytes.Equal(gp, wp), "b58check-value", "%q decodes to %d %s", t, gv, hx(gp))
			c.Count("accepted")
		} else {
			c.Count("rejected")
		}
	}
	c.Sample("%s", s)
}

// every byte value in every position of a text
func c01single(c *Ctx) {
	p := c.Hash(c.Range(1, 21))
	s := refB58CheckEncode(p, byte(c.N(256)))
	for i := 0; i < len(s); i++ {
		for v := 0; v < 256; v++ {
			t := s[:i] + string([]byte{byte(v)}) + s[i+1:]
			wp, wv, ok := refB58CheckDecode(t)
			gp, gv, err := xbase.Base58CheckDecode(t)
			c.Check((err == nil) == ok && (!ok || gv == wv && bytes.Equal(gp, wp)), "b58check-onechar", "%q: error %v, valid is %v", t, err, ok)
			d, ok2 := refB58Decode(t)
			g := xbase.Base58Decode(t)
			c.Check(ok2 && bytes.Equal(g, d) || !ok2 && len(g) == 0, "b58-onechar", "%q decodes to %s", t, hx(g))
			c.NT(t)
		}
	}
}

// ---- C02 ----

func randHrp(c *Ctx) string {
	switch c.N(5) {
	case 0:
		return "bc"
	case 1:
		return "tb"
	case 2:
		return "bcrt"
	}
	n := c.Range(1, 12)
	if c.P(10) {
		n = c.Range(60, 84)
	}
	o := make([]byte, n)
	for i := range o {
		for {
			o[i] = byte(c.Range(33, 126))
			if o[i] < 'A' || o[i] > 'Z' {
				break
			}
		}
		if c.P(8) {
			o[i] = '1'
		}
	}
	return string(o)
}

func cmpBech(c *Ctx, t string) {
	wh, wd, ok := refBechDecode(t)
	gh, gd, err := xbase.Bech32Decode(t)
	c.Check((err == nil) == ok, "bech32-accept", "%q: error %v, valid is %v", t, err, ok)
	if ok {
		c.Check(gh == wh && bytes.Equal(gd, wd), "bech32-value", "%q gives %q %v, want %q %v", t, gh, gd, wh, wd)
		c.Count("bech32-accepted")
	} else {
		c.Count("bech32-rejected")
	}
	if len(t) >= 8 {
		c.NT(t)
	}
}

func cmpSegwit(c *Ctx, t string) {
	wh, wv, wp, ok := refSegwitDecode(t)
	gh, gv, gp, err := xbase.WitnessDecode(t)
	c.Check((err == nil) == ok, "segwit-accept", "%q: error %v, valid is %v", t, err, ok)
	if ok {
		c.Check(gh == wh && gv == wv && bytes.Equal(gp, wp), "segwit-value", "%q gives %q %d %s, want %q %d %s", t, gh, gv, hx(gp), wh, wv, hx(wp))
		c.Count("segwit-accepted")
	} else {
		c.Count("segwit-rejected")
	}
	if len(t) >= 8 {
		c.NT(t)
	}
}

func c02bech(c *Ctx) {
	hrp := randHrp(c)
	max := 90 - len(hrp) - 7
	if max < 0 {
		max = 0
	}
	if c.P(6) {
		max += 3
	}
	d := make([]byte, c.N(max+1))
	if c.P(4) {
		d = make([]byte, max)
	}
	for i := range d {
		d[i] = byte(c.N(32))
	}
	want := refBechEncode(hrp, d)
	arg, g := guarded(d, 12)
	got, err := xbase.Bech32Encode(hrp, arg)
	c.Check(g.ok(), "bech32-encode-writes", "Bech32Encode wrote into its argument")
	if len(want) <= 90 {
		c.Check(err == nil && got == want, "bech32-encode", "Bech32Encode(%q,%v)=%q,%v want %q", hrp, d, got, err, want)
	}
	cmpBech(c, want)
	cmpBech(c, strings.ToUpper(want))
	for k := 0; k < 6; k++ {
		cmpBech(c, hostileBech(c, want))
	}
	if len(d) > 0 {
		bad := append([]byte{}, d...)
		bad[c.N(len(bad))] = byte(c.Range(32, 255))
		s, err := xbase.Bech32Encode(hrp, bad)
		c.Check(err != nil, "bech32-encode-range", "data value above 31 encodes to %q", s)
	}
	c.Sample("%s", want)
}

func hostileBech(c *Ctx, s string) string {
	o := []byte(s)
	switch c.N(9) {
	case 0:
		return string(c.mutate(o))
	case 1: // mixed case
		for i := range o {
			if o[i] >= 'a' && o[i] <= 'z' && c.P(4) {
				o[i] -= 32
			}
		}
	case 2: // one upper-case letter
		i := c.N(len(o))
		if o[i] >= 'a' && o[i] <= 'z' {
			o[i] -= 32
		}
	case 3: // character outside the range
		o[c.N(len(o))] = []byte{0, 31, 32, 127, 128, 255, 'b', 'i', 'o', '1'}[c.N(10)]
	case 4: // length: valid checksum with other lengths
		hrp, d, ok := refBechDecode(s)
		if !ok {
			return s
		}
		n := c.Range(0, 95)
		nd := make([]byte, n)
		copy(nd, d)
		return refBechEncode(hrp, nd)
	case 5: // empty or odd hrp, checksum right for it
		d := make([]byte, c.N(10))
		return refBechEncode([]string{"", "1", "11", "a", "\x20", "\x7f", "A", "aB", "é"}[c.N(9)], d)
	case 6: // no separator
		return strings.ReplaceAll(s, "1", "")
	case 7: // short
		return s[:c.N(len(s)+1)]
	case 8: // bech32m constant
		hrp, d, ok := refBechDecode(s)
		if !ok {
			return s
		}
		v := append(bechExpand(hrp), d...)
		m := bechPoly(append(v, 0, 0, 0, 0, 0, 0)) ^ 0x2bc830a3
		t := []byte(s[:len(s)-6])
		for i := 0; i < 6; i++ {
			t = append(t, bechAlpha[m>>uint(5*(5-i))&31])
		}
		return string(t)
	}
	return string(o)
}

func c02segwit(c *Ctx) {
	hrp := []string{"bc", "tb", "bcrt", "x"}[c.N(4)]
	ver := byte(c.N(17))
	n := c.Range(2, 40)
	if c.P(2) {
		ver = 0
	}
	if ver == 0 {
		n = c.Pick(20, 32)
	}
	p := c.Blob(n)
	arg, g := guarded(p, 9)
	s, err := xbase.WitnessEncode(hrp, ver, arg)
	c.Check(g.ok(), "segwit-encode-writes", "WitnessEncode wrote into its argument")
	want := refSegwitEncode(hrp, ver, p)
	c.Check(err == nil && s == want, "segwit-encode", "WitnessEncode(%q,%d,%s)=%q,%v want %q", hrp, ver, hx(p), s, err, want)
	cmpSegwit(c, want)
	cmpSegwit(c, strings.ToUpper(want))
	for k := 0; k < 4; k++ {
		cmpSegwit(c, hostileBech(c, want))
	}
	c.Sample("version %d program %s -> %s", ver, hx(p), s)
}

// valid checksums around arbitrary 5-bit data: versions, paddings and program lengths of every kind
func c02raw(c *Ctx) {
	hrp := []string{"bc", "tb", "x"}[c.N(3)]
	var d []byte
	switch c.N(4) {
	case 0:
		n := c.N(70)
		d = make([]byte, n)
		for i := range d {
			d[i] = byte(c.N(32))
		}
	case 1: // right length, random padding bits
		n := c.Range(0, 42)
		d = append([]byte{byte(c.N(20))}, to5(c.Hash(n))...)
		if len(d) > 1 && c.Bool() {
			d[len(d)-1] ^= byte(c.N(32))
		}
	case 2: // extra zero group
		n := c.Pick(20, 32, 2, 40, 10)
		d = append([]byte{byte(c.N(17))}, to5(c.Hash(n))...)
		for k := c.Range(1, 2); k > 0; k-- {
			d = append(d, 0)
		}
	case 3:
		n := c.Range(0, 45)
		d = append([]byte{byte(c.N(32))}, to5(c.Hash(n))...)
		if c.Bool() {
			d[0] = 0
		}
	}
	t := refBechEncode(hrp, d)
	cmpBech(c, t)
	cmpSegwit(c, t)
}

// every version with every program length
func c02grid(c *Ctx) {
	ver, n := byte(c.Idx%17), c.Idx/17
	p := c.Hash(n)
	t := refSegwitEncode("bc", ver, p)
	cmpSegwit(c, t)
	if n >= 2 && n <= 40 && (ver > 0 || n == 20 || n == 32) {
		s, err := xbase.WitnessEncode("bc", ver, p)
		c.Check(err == nil && s == t, "segwit-encode-grid", "version %d length %d: %q %v", ver, n, s, err)
	}
}

// every character value in the prefix, in the data and as an upper-case text
func c02chars(c *Ctx) {
	ch := byte(c.Idx)
	hrp := "a" + string([]byte{ch}) + "c"
	d := []byte{1, 2, 3}
	cmpBech(c, refBechEncode(hrp, d))
	low := string([]byte{ch})
	cmpBech(c, refBechEncode(low, d))
	cmpBech(c, strings.ToUpper(refBechEncode(low, d)))
	v := refSegwitEncode("bc", 0, c.Hash(20))
	for i := 0; i < len(v); i++ {
		t := v[:i] + string([]byte{ch}) + v[i+1:]
		cmpBech(c, t)
		cmpSegwit(c, t)
	}
}

// up to four substituted characters are always detected
func c02alter(c *Ctx) {
	ver := byte(c.N(17))
	n := c.Range(2, 40)
	if ver == 0 {
		n = c.Pick(20, 32)
	}
	s := refSegwitEncode([]string{"bc", "tb"}[c.N(2)], ver, c.Blob(n))
	for k := 0; k < 8; k++ {
		o := []byte(s)
		m := c.Range(1, 4)
		for _, p := range c.Perm(len(o) - 3)[:m] {
			i := 3 + p
			for {
				ch := bechAlpha[c.N(32)]
				if ch != o[i] {
					o[i] = ch
					break
				}
			}
		}
		t := string(o)
		_, _, err := xbase.Bech32Decode(t)
		c.Check(err != nil, "bech32-altered", "%q with %d altered characters is accepted: %q", s, m, t)
		_, _, _, err = xbase.WitnessDecode(t)
		c.Check(err != nil, "segwit-altered", "%q with %d altered characters is accepted: %q", s, m, t)
		c.NT(t)
	}
	// swapped neighbours and one-character changes of the prefix
	o := []byte(s)
	i := c.N(len(o) - 1)
	o[i], o[i+1] = o[i+1], o[i]
	cmpSegwit(c, string(o))
}

// ---- C03 ----

type netRef struct {
	net        *network.Network
	p2pkh, p2s byte
	hrp        string
	name       string
}

var netRefs = []netRef{
	{network.MainNet, 0x00, 0x05, "bc", "main"},
	{network.TestNet, 0x6f, 0xc4, "tb", "test"},
	// networks of a user's own
	{ownNet(0x6f, 0xc4, "bcrt"), 0x6f, 0xc4, "bcrt", "regtest"},
	{ownNet(0x30, 0x32, "ltc"), 0x30, 0x32, "ltc", "litecoin"},
	{ownNet(0xff, 0x7f, "b1c"), 0xff, 0x7f, "b1c", "own"},
}

func ownNet(pkh, sh byte, hrp string) *network.Network {
	return &network.Network{PubKeyHashAddrID: pkh, ScriptHashAddrID: sh, Bech32HRPSegwit: hrp, Magic: []byte{1, 2, 3, 4}}
}

// anyNet gives one of the two networks, sometimes another.
func (c *Ctx) anyNet() netRef {
	if c.P(4) {
		return netRefs[c.N(len(netRefs))]
	}
	return netRefs[c.N(2)]
}

// apart: no address of the kind is one of both networks.
func apart(a, b netRef, kind int) bool {
	if kind >= 2 {
		return a.hrp != b.hrp
	}
	return a.p2pkh != b.p2pkh
}

func refAddrText(n netRef, kind int, h []byte) string {
	switch kind {
	case 0:
		return refB58CheckEncode(h, n.p2pkh)
	case 1:
		return refB58CheckEncode(h, n.p2s)
	}
	return refSegwitEncode(n.hrp, 0, h)
}

func refLock(kind int, h []byte) []byte {
	switch kind {
	case 0:
		return append(append([]byte{0x76, 0xa9, 20}, h...), 0x88, 0xac)
	case 1:
		return append(append([]byte{0xa9, 20}, h...), 0x87)
	case 2:
		return append([]byte{0, 20}, h...)
	}
	return append([]byte{0, 32}, h...)
}

func addrKind(a xcore.Address) int {
	switch a.(type) {
	case *xcore.PayToPubKeyHashAddress:
		return 0
	case *xcore.PayToScriptHashAddress:
		return 1
	case *xcore.PayToWitnessV0PubKeyHashAddress:
		return 2
	case *xcore.PayToWitnessV0ScriptHashAddress:
		return 3
	}
	return -1
}

func newAddr(kind int, h []byte) xcore.Address {
	switch kind {
	case 0:
		return xcore.NewPayToPubKeyHashAddress(h)
	case 1:
		return xcore.NewPayToScriptHashAddress(h)
	case 2:
		return xcore.NewPayToWitnessV0PubKeyHashAddress(h)
	}
	return xcore.NewPayToWitnessV0ScriptHashAddress(h)
}

var kindNames = []string{"p2pkh", "p2sh", "p2wpkh", "p2wsh"}

// c03networks compares the predefined networks with Bitcoin's published parameters.
func c03networks(c *Ctx) {
	type params struct {
		p2pkh, p2sh, wif, wpkh, wsh byte
		hrp, prv, pub, magic        string
		port                        uint32
	}
	n := []*network.Network{network.MainNet, network.TestNet}[c.Idx]
	want := []params{
		{0x00, 0x05, 0x80, 0x06, 0x0a, "bc", "0488ade4", "0488b21e", "f9beb4d9", 8333},
		{0x6f, 0xc4, 0xef, 0x03, 0x28, "tb", "04358394", "043587cf", "0b110907", 18333},
	}[c.Idx]
	got := params{n.PubKeyHashAddrID, n.ScriptHashAddrID, n.PrivateKeyID, n.WitnessPubKeyHashAddrID, n.WitnessScriptHashAddrID,
		n.Bech32HRPSegwit, hex.EncodeToString(n.HDPrivateKeyID), hex.EncodeToString(n.HDPublicKeyID), hex.EncodeToString(n.Magic), n.Port}
	c.Check(got == want, "network-params", "the network has %+v, published are %+v", got, want)
	c.NT(c.Idx)
}

func c03round(c *Ctx) {
	kind := c.N(4)
	n := 20
	if kind == 3 {
		n = 32
	}
	h := c.Blob(n)
	nr := c.anyNet()
	other := c.anyNet()
	for !apart(nr, other, kind) {
		other = c.anyNet()
	}
	c.Note(func() string { return fmt.Sprintf("%s %s hash=%s", nr.name, kindNames[kind], hx(h)) })
	c.NT(kind, nr.name, h)
	a := newAddr(kind, append([]byte{}, h...))
	text := a.ToString(nr.net)
	c.Check(text == refAddrText(nr, kind, h), "addr-text", "text is %q, standard is %q", text, refAddrText(nr, kind, h))
	c.Check(bytes.Equal(a.Hash160(), h), "addr-hash", "Hash160 is %s", hx(a.Hash160()))
	lock, err := a.LockingScript()
	c.Check(err == nil && bytes.Equal(lock, refLock(kind, h)), "addr-lock", "locking script %s, %v", hx(lock), err)
	d, err := xcore.DecodeAddress(text, nr.net)
	c.Check(err == nil, "addr-decode", "%q does not decode: %v", text, err)
	c.Check(addrKind(d) == kind && bytes.Equal(d.Hash160(), h), "addr-decode", "%q decodes to kind %d hash %s", text, addrKind(d), hx(d.Hash160()))
	c.Check(d.ToString(nr.net) == text && d.ToString(other.net) == refAddrText(other, kind, h), "addr-text-again", "decoded address prints %q", d.ToString(nr.net))
	_, err = xcore.DecodeAddress(text, other.net)
	c.Check(err != nil, "addr-network", "%q is accepted on the other network", text)
	if kind >= 2 {
		u, err := xcore.DecodeAddress(strings.ToUpper(text), nr.net)
		c.Check(err == nil && addrKind(u) == kind && bytes.Equal(u.Hash160(), h), "addr-upper", "upper-case text: %v", err)
		_, err = xcore.DecodeAddress(strings.ToUpper(text), other.net)
		c.Check(err != nil, "addr-network-upper", "upper-case text accepted on the other network")
	}
	sc, err := xcore.ParseLockingScript(lock)
	c.Check(err == nil, "addr-parse", "locking script does not parse: %v", err)
	pa := sc.GetAddress()
	c.Check(pa != nil && addrKind(pa) == kind && bytes.Equal(pa.Hash160(), h) && pa.ToString(nr.net) == text, "addr-parse", "script parses to another address")
	raw, err := sc.GetRawLockingScriptBytes()
	c.Check(err == nil && bytes.Equal(raw, refLock(kind, h)), "script-lock", "the parsed script's bytes are %s, %v", hx(raw), err)
	made := []func([]byte) xcore.Script{xcore.NewPayToPubKeyHashScript, xcore.NewPayToScriptHashScript, xcore.NewPayToWitnessV0PubKeyHashScript, xcore.NewPayToWitnessV0ScriptHashScript}[kind](dup(h))
	raw, err = made.GetRawLockingScriptBytes()
	c.Check(err == nil && bytes.Equal(raw, refLock(kind, h)), "script-lock", "the script of the hash is %s, %v", hx(raw), err)
	pa = made.GetAddress()
	c.Check(pa != nil && addrKind(pa) == kind && pa.ToString(nr.net) == text, "script-address", "the script of the hash has another address")
	c.Sample("%s %s %s -> %s -> %s", nr.name, kindNames[kind], hx(h), text, hx(lock))
}

// refDecodeAddr classifies a text under a network.
func refDecodeAddr(s string, n netRef) (int, []byte, bool) {
	if hrp, ver, p, ok := refSegwitDecode(s); ok && hrp == n.hrp {
		if ver != 0 {
			return 0, nil, false
		}
		if len(p) == 20 {
			return 2, p, true
		}
		return 3, p, true
	}
	p, ver, ok := refB58CheckDecode(s)
	if !ok || len(p) != 20 {
		return 0, nil, false
	}
	switch ver {
	case n.p2pkh:
		return 0, p, true
	case n.p2s:
		return 1, p, true
	}
	return 0, nil, false
}

func c03reject(c *Ctx) {
	var s string
	nr := c.anyNet()
	src := c.anyNet()
	switch c.N(8) {
	case 0: // other version bytes
		s = refB58CheckEncode(c.Blob(20), byte(c.N(256)))
	case 1: // other hash lengths
		s = refB58CheckEncode(c.Blob(c.N(40)), []byte{src.p2pkh, src.p2s}[c.N(2)])
	case 2: // other versions and lengths of witness programs
		s = refSegwitEncode(src.hrp, byte(c.N(18)), c.Blob(c.N(42)))
	case 3: // other prefixes
		s = refSegwitEncode([]string{"bcrx", "b", "bc1", "tb1", "ltc", "xbc", "bcc", "1bc", "t", "btb"}[c.N(10)], 0, c.Blob(c.Pick(20, 32)))
	case 4:
		s = string(c.mutate([]byte(refAddrText(src, c.N(2), c.Blob(20)))))
	case 5:
		s = string(c.mutate([]byte(refAddrText(src, 2, c.Blob(c.Pick(20, 32))))))
	case 6:
		s = randText(c, b58alpha+bechAlpha, c.Len(100))
	case 7:
		s = refSegwitEncode(src.hrp, 0, c.Blob(c.Pick(20, 32)))
		s = hostileBech(c, s)
	}
	c.Note(func() string { return fmt.Sprintf("%q on %s", s, nr.name) })
	kind, h, ok := refDecodeAddr(s, nr)
	a, err := xcore.DecodeAddress(s, nr.net)
	c.Check((err == nil) == ok, "addr-accept", "error %v, valid is %v", err, ok)
	if ok {
		c.Check(addrKind(a) == kind && bytes.Equal(a.Hash160(), h), "addr-accept-value", "kind %d hash %s", addrKind(a), hx(a.Hash160()))
		c.Count("accepted")
	} else {
		c.Count("rejected")
	}
	c.NT(s, nr.name)
}

// refClassify returns the kind of a standard locking script.
func refClassify(s []byte) (int, []byte) {
	switch {
	case len(s) == 25 && s[0] == 0x76 && s[1] == 0xa9 && s[2] == 20 && s[23] == 0x88 && s[24] == 0xac:
		return 0, s[3:23]
	case len(s) == 23 && s[0] == 0xa9 && s[1] == 20 && s[22] == 0x87:
		return 1, s[2:22]
	case len(s) == 22 && s[0] == 0 && s[1] == 20:
		return 2, s[2:]
	case len(s) == 34 && s[0] == 0 && s[1] == 32:
		return 3, s[2:]
	}
	return -1, nil
}

func c03script(c *Ctx) {
	kind := c.N(4)
	n := 20
	if kind == 3 {
		n = 32
	}
	s := refLock(kind, c.Blob(n))
	switch c.N(6) {
	case 4: // the hash pushed in another way
		h := c.Blob(n)
		push := [][]byte{{0x4c, byte(n)}, {0x4d, byte(n), 0}, {0x4e, byte(n), 0, 0, 0}}[c.N(3)]
		t := refLock(kind, h)
		i := bytes.Index(t, append([]byte{byte(n)}, h...))
		s = append(append(append([]byte{}, t[:i]...), push...), t[i+1:]...)
	case 5: // something inserted or left out
		i := c.N(len(s) + 1)
		if c.Bool() || i == len(s) {
			x := [][]byte{{0x61}, {0x00}, {0x51}, {0x75}, {0x4c, 0}, {1, 7}, {0xac}, {0x76}}[c.N(8)]
			s = append(append(append([]byte{}, s[:i]...), x...), s[i:]...)
		} else {
			s = append(append([]byte{}, s[:i]...), s[i+1:]...)
		}
	case 1:
		s = c.mutate(s)
	case 2: // change one opcode
		p := map[int][]int{0: {0, 1, 2, 23, 24}, 1: {0, 1, 22}, 2: {0, 1}, 3: {0, 1}}[kind]
		s[p[c.N(len(p))]] = byte(c.N(256))
	case 3: // wrong hash length
		h := c.Blob(c.Range(1, 40))
		switch kind {
		case 0:
			s = append(append([]byte{0x76, 0xa9, byte(len(h))}, h...), 0x88, 0xac)
		case 1:
			s = append(append([]byte{0xa9, byte(len(h))}, h...), 0x87)
		default:
			s = append([]byte{byte(c.Pick(0, 0, 0, 0x51, 0x60, 0x4f)), byte(len(h))}, h...)
		}
	}
	c.Note(func() string { return "script=" + hx(s) })
	want, h := refClassify(s)
	sc, err := xcore.ParseLockingScript(s)
	if want >= 0 {
		c.Check(err == nil, "script-parse", "standard %s script is rejected: %v", kindNames[want], err)
		a := sc.GetAddress()
		c.Check(a != nil && addrKind(a) == want && bytes.Equal(a.Hash160(), h), "script-parse-kind", "parses to another kind or hash")
		l, err := a.LockingScript()
		c.Check(err == nil && bytes.Equal(l, s), "script-parse-roundtrip", "its address' locking script is %s", hx(l))
		c.Count("standard")
	} else if err == nil {
		// other scripts may be of a kind without an address (multisig), but never of an address kind
		switch sc.(type) {
		case *xcore.PayToPubKeyHashScript, *xcore.PayToScriptHashScript, *xcore.PayToWitnessV0PubKeyHashScript, *xcore.PayToWitnessV0ScriptHashScript:
			c.Fail("script-parse-nonstandard", "non-standard script parses as %T", sc)
		}
		c.Count("other")
	} else {
		c.Count("rejected")
	}
	c.NT(s)
}

// ---- C04 ----

type bop struct {
	k int
	v uint64
	b []byte
}

func randOp(c *Ctx) bop {
	o := bop{k: c.N(8), v: c.Uint()}
	switch o.k {
	case 5, 6, 7:
		o.b = c.Blob(c.Len(600))
		if c.P(200) {
			o.b = c.Blob(65533 + c.N(6))
		}
	}
	return o
}

func writeOp(b *xbase.Buffer, w *wbuf, o bop) {
	switch o.k {
	case 0:
		b.WriteU8(uint8(o.v))
		w.u8(uint8(o.v))
	case 1:
		b.WriteU16(uint32(uint16(o.v)))
		w.u16(uint16(o.v))
	case 2:
		b.WriteU32(uint32(o.v))
		w.u32(uint32(o.v))
	case 3:
		b.WriteU64(o.v)
		w.u64(o.v)
	case 4:
		b.WriteVarInt(o.v)
		w.varint(o.v)
	case 5:
		b.WriteBytes(o.b)
		w.raw(o.b)
	case 6:
		b.WriteVarBytes(o.b)
		w.bytes(o.b)
	case 7:
		b.WriteVarString(string(o.b))
		w.bytes(o.b)
	}
}

func c04seq(c *Ctx) {
	b := xbase.NewBuffer()
	w := &wbuf{}
	var held, was []byte
	if c.P(4) { // a buffer that was used before
		if c.P(3) { // for reading
			held = append(c.Blob(c.N(40)), c.Blob(20)...)
			b = xbase.NewBufferReader(held[:len(held)-20])
		}
		for k := c.N(5); k > 0; k-- {
			writeOp(b, &wbuf{}, randOp(c))
		}
		if c.Bool() {
			b.ReadU8()
		}
		if held == nil {
			held = b.Bytes()
		}
		was = dup(held)
		b.Reset()
		c.Check(b.Len() == 0 && b.End() && b.Seek() == 0 && len(b.Bytes()) == 0, "buffer-reset", "Reset leaves len %d seek %d", b.Len(), b.Seek())
	}
	ops := make([]bop, c.Range(1, 14))
	for i := range ops {
		ops[i] = randOp(c)
		writeOp(b, w, ops[i])
	}
	c.Note(func() string { return fmt.Sprintf("ops=%+v", opsString(ops)) })
	c.Check(bytes.Equal(held, was), "buffer-overwrites", "writing after Reset changed bytes given to or taken from the buffer: %s, were %s", hx(held), hx(was))
	c.Check(bytes.Equal(b.Bytes(), w.b), "buffer-bytes", "written %s, the protocol's encoding is %s", hx(b.Bytes()), hx(w.b))
	c.Check(b.Len() == len(w.b), "buffer-len", "Len %d of %d bytes", b.Len(), len(w.b))
	rd := xbase.NewBufferReader(append([]byte{}, w.b...))
	if c.P(3) {
		rd = b // read back from the writing buffer itself
	}
	pos := 0
	for i, o := range ops {
		var err error
		var got uint64
		var gb []byte
		switch o.k {
		case 0:
			var v uint8
			v, err = rd.ReadU8()
			got, o.v, pos = uint64(v), uint64(uint8(o.v)), pos+1
		case 1:
			var v uint32
			v, err = rd.ReadU16()
			got, o.v, pos = uint64(v), uint64(uint16(o.v)), pos+2
		case 2:
			var v uint32
			v, err = rd.ReadU32()
			got, o.v, pos = uint64(v), uint64(uint32(o.v)), pos+4
		case 3:
			got, err = rd.ReadU64()
			pos += 8
		case 4:
			got, err = rd.ReadVarInt()
			pos += varintLen(o.v)
		case 5:
			gb, err = rd.ReadBytes(len(o.b))
			pos += len(o.b)
		case 6:
			gb, err = rd.ReadVarBytes()
			pos += varintLen(uint64(len(o.b))) + len(o.b)
		case 7:
			var s string
			s, err = rd.ReadVarString()
			gb = []byte(s)
			pos += varintLen(uint64(len(o.b))) + len(o.b)
		}
		c.Check(err == nil, "buffer-readback", "operation %d cannot be read back: %v", i, err)
		if o.k < 5 {
			c.Check(got == o.v, "buffer-value", "operation %d reads %d, written %d", i, got, o.v)
		} else {
			c.Check(bytes.Equal(gb, o.b), "buffer-value", "operation %d reads %s, written %s", i, hx(gb), hx(o.b))
		}
		c.Check(rd.Seek() == pos, "buffer-seek", "after operation %d the position is %d, want %d", i, rd.Seek(), pos)
		c.Check(bytes.Equal(rd.Remaining(), w.b[pos:]), "buffer-remaining", "Remaining is wrong after operation %d", i)
		c.Check(rd.End() == (pos == len(w.b)), "buffer-end", "End is %v at %d of %d", rd.End(), pos, len(w.b))
	}
	_, err := rd.ReadU8()
	c.Check(err != nil, "buffer-past-end", "reading past the end succeeds")
	if len(ops) > 1 {
		c.NT(w.b)
	}
	c.Sample("%s", opsString(ops))
}

// writes and reads alternate on one buffer
func c04inter(c *Ctx) {
	b := xbase.NewBuffer()
	w := &wbuf{}
	rf := &rbuf{}
	for step := c.Range(3, 25); step > 0; step-- {
		n := len(w.b)
		o := randOp(c)
		if len(o.b) > 300 {
			o.b = o.b[:300]
		}
		writeOp(b, w, o)
		rf.b = append(append([]byte{}, rf.b...), w.b[n:]...)
		for len(rf.b) > 0 && c.P(2) {
			k := c.N(len(rf.b)) + 1
			want := rf.raw(uint64(k))
			got, err := b.ReadBytes(k)
			c.Check(err == nil && bytes.Equal(got, want), "buffer-interleave", "reads %s (%v), want %s", hx(got), err, hx(want))
		}
		c.Check(b.Len() == len(w.b) && b.End() == (len(rf.b) == 0) && bytes.Equal(b.Remaining(), rf.b), "buffer-interleave-state", "length %d end %v", b.Len(), b.End())
	}
	c.NT(w.b)
}

func opsString(ops []bop) string {
	var s []string
	for _, o := range ops {
		n := []string{"u8", "u16", "u32", "u64", "varint", "bytes", "varbytes", "varstring"}[o.k]
		if o.k < 5 {
			s = append(s, fmt.Sprintf("%s(%d)", n, o.v))
		} else {
			s = append(s, fmt.Sprintf("%s(%d bytes)", n, len(o.b)))
		}
	}
	return strings.Join(s, " ")
}

func c04varint(c *Ctx) {
	v := c.Uint()
	if c.Idx < 20 {
		v = []uint64{0, 1, 252, 253, 254, 255, 256, 65534, 65535, 65536, 65537, math.MaxUint32 - 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64, 0x100fd, 0xfd00, 0xfe0000}[c.Idx]
	}
	b := xbase.NewBuffer()
	b.WriteVarInt(v)
	var w wbuf
	w.varint(v)
	c.Check(bytes.Equal(b.Bytes(), w.b), "varint-bytes", "%d encodes to %s, want %s", v, hx(b.Bytes()), hx(w.b))
	c.Check(xbase.VarIntSerializeSize(v) == len(w.b), "varint-size", "size of %d is %d, want %d", v, xbase.VarIntSerializeSize(v), len(w.b))
	g, err := xbase.NewBufferReader(w.b).ReadVarInt()
	c.Check(err == nil && g == v, "varint-read", "%d reads back %d %v", v, g, err)
	for i := 0; i < len(w.b); i++ {
		_, err := xbase.NewBufferReader(w.b[:i]).ReadVarInt()
		c.Check(err != nil, "varint-truncated", "%d truncated to %d bytes is accepted", v, i)
	}
	c.NT(v)
}

// the real reader and the reference reader over the same bytes and the same reads
func c04lock(c *Ctx) {
	data := c.Blob(c.Len(80))
	if c.P(2) { // something structured, then cut or changed
		var w wbuf
		for k := c.Range(1, 5); k > 0; k-- {
			writeOp(xbase.NewBuffer(), &w, randOp(c))
		}
		data = w.b
		if len(data) > 400 {
			data = data[:400]
		}
		if c.Bool() {
			data = c.mutate(data)
		}
	}
	arg, g := guarded(data, 16)
	rd := xbase.NewBufferReader(arg)
	rf := &rbuf{b: data}
	c.Note(func() string { return "data=" + hx(data) })
	for step := 0; step < 30; step++ {
		k := c.N(8)
		n := c.N(10)
		if c.P(4) {
			n = c.N(len(data) + 5)
		}
		if k == 5 && c.P(5) {
			n = []int{-1, -100, math.MinInt64, math.MaxInt64, math.MaxInt64 - 1, math.MaxInt32, -1 << 32, len(rf.b) + 1}[c.N(8)]
		}
		var err error
		var gv, wv uint64
		var gb, wb []byte
		before := len(rf.b)
		switch k {
		case 0:
			var v uint8
			v, err = rd.ReadU8()
			gv, wv = uint64(v), uint64(rf.u8())
		case 1:
			var v uint32
			v, err = rd.ReadU16()
			gv, wv = uint64(v), uint64(rf.u16())
		case 2:
			var v uint32
			v, err = rd.ReadU32()
			gv, wv = uint64(v), uint64(rf.u32())
		case 3:
			gv, err = rd.ReadU64()
			wv = rf.u64()
		case 4:
			gv, err = rd.ReadVarInt()
			wv = rf.varint()
		case 5:
			gb, err = rd.ReadBytes(n)
			if n < 0 {
				rf.bad = true
			} else {
				wb = rf.raw(uint64(n))
			}
		case 6:
			gb, err = rd.ReadVarBytes()
			wb = rf.bytes()
		case 7:
			var s string
			s, err = rd.ReadVarString()
			gb = []byte(s)
			wb = rf.bytes()
		}
		c.Check((err != nil) == rf.bad, "buffer-lockstep-err", "step %d (operation %d, n=%d, %d bytes left): error %v, want error %v", step, k, n, before, err, rf.bad)
		if rf.bad {
			c.Count("overrun-rejected")
			break
		}
		c.Check(gv == wv && bytes.Equal(gb, wb), "buffer-lockstep-value", "step %d: %d %s, want %d %s", step, gv, hx(gb), wv, hx(wb))
		c.Check(rd.Seek() == len(data)-len(rf.b), "buffer-lockstep-seek", "step %d: position %d", step, rd.Seek())
		c.Check(bytes.Equal(rd.Remaining(), rf.b), "buffer-lockstep-remaining", "step %d: Remaining %s", step, hx(rd.Remaining()))
		c.Eval(1)
	}
	c.Check(g.ok(), "buffer-reader-writes", "reading wrote into the data")
	if len(data) > 1 {
		c.NT(data)
	}
}

// a declared length must not be believed
func c04hostile(c *Ctx) {
	var w wbuf
	left := c.N(64)
	var n uint64
	switch c.N(4) {
	case 0:
		n = uint64(left) + 1 + uint64(c.N(3))
	case 1:
		n = c.Uint()
		if n <= uint64(left) {
			n = 1 << 31
		}
	case 2:
		n = uint64(1)<<63 + uint64(c.N(1000)) - 500
	case 3:
		n = ^uint64(0) - uint64(c.N(200))
	}
	pre := c.Bytes(c.N(20))
	w.raw(pre)
	w.varint(n)
	w.raw(c.Bytes(left))
	c.Note(func() string { return fmt.Sprintf("declared=%d left=%d", n, left) })
	rd := xbase.NewBufferReader(w.b)
	rd.ReadBytes(len(pre))
	var err error
	k := c.N(3)
	alloc := allocated(func() {
		switch k {
		case 0:
			_, err = rd.ReadVarBytes()
		case 1:
			_, err = rd.ReadVarString()
		case 2:
			_, err = rd.ReadVarInt()
			if err == nil {
				_, err = rd.ReadBytes(int(n))
			}
		}
	})
	c.Check(err != nil, "hostile-length", "a declared length beyond the data is accepted")
	c.Check(alloc < 1<<20, "hostile-alloc", "%d bytes allocated", alloc)
	c.NT(n, left, k)
}

// lengths at and above 2^16, so that every compact size form is used for real content
func c04large(c *Ctx) {
	n := []int{65535, 65536, 65537, 1 << 20, 1<<24 + 1, 3 << 20}[c.Idx%6]
	v := c.Bytes(n)
	b := xbase.NewBuffer()
	b.WriteVarBytes(v)
	b.WriteU32(0xdeadbeef)
	var w wbuf
	w.bytes(v)
	w.u32(0xdeadbeef)
	c.Check(bytes.Equal(b.Bytes(), w.b), "buffer-large", "%d bytes are not encoded as the protocol says", n)
	rd := xbase.NewBufferReader(w.b)
	g, err := rd.ReadVarBytes()
	c.Check(err == nil && bytes.Equal(g, v), "buffer-large-read", "%d bytes do not read back: %v", n, err)
	x, err := rd.ReadU32()
	c.Check(err == nil && x == 0xdeadbeef && rd.End(), "buffer-large-next", "the value after %d bytes reads %x %v", n, x, err)
	c.NT(n, c.Idx)
}
