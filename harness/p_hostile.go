package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"time"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcore/bip32"
	"github.com/keyfuse/tokucore/xcore/bip39"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
	"github.com/keyfuse/tokucore/xerror"
	"github.com/keyfuse/tokucore/xprotocol"
	"github.com/keyfuse/tokucore/xrpc"
	"github.com/keyfuse/tokucore/xvm"
)

func init() {
	register(&Prop{
		ID:   "C32",
		Rule: "every decoding entry point is given well-formed inputs with structural mutations (lengths, counts, versions, nested fields, with the checksum made right again), spliced, cut, random and long inputs; what it accepts is printed, measured, encoded, executed and verified; panics, crashes, allocated bytes and time are watched; non-trivial: distinct inputs",
		Kinds: []Kind{
			{Name: "mutate", N: 60000, TN: 1500000, Run: c32mutate},
			{Name: "memory", N: 6000, TN: 100000, Run: c32memory, Serial: true},
			{Name: "long", N: 60, TN: 600, Run: c32long, Serial: true},
			{Name: "engine", N: 3000, TN: 60000, Run: c32engine, Serial: true},
			{Name: "counts", N: 2000, TN: 20000, Run: c32counts, Serial: true},
			{Name: "rpc", N: 60, TN: 2000, Run: c32rpc},
			{Name: "errors", N: 300, TN: 3000, Run: c32errors},
		},
	})
}

// decoder is one entry point: run returns nil for a rejected input, else a function that uses the value.
type decoder struct {
	name string
	seed func(c *Ctx) []byte
	run  func(c *Ctx, b []byte) func()
	base uint64 // bytes it may allocate for any input
	per  uint64 // and for each input byte
	max  int    // longest input given (0: no limit)
}

func useScript(s []byte) {
	xvm.DisasmString(s)
	r := xvm.NewScriptReader(s)
	for i := 0; i < 3; i++ {
		in, err := r.NextInstruction()
		if err != nil || in == nil {
			break
		}
		in.OpCode()
		in.Data()
		r.DisasmRemaining()
	}
}

func useAddress(a xcore.Address) {
	a.ToString(network.MainNet)
	a.ToString(network.TestNet)
	a.Hash160()
	a.LockingScript()
}

func useLocking(c *Ctx, s xcore.Script, raw []byte) {
	useAddress(s.GetAddress())
	s.GetScriptVersion()
	s.GetRawLockingScriptBytes()
	for _, redeem := range [][]byte{nil, raw, c.anyScript()} {
		s.GetFinalLockingScriptBytes(redeem)
		s.GetWitnessScriptCode(redeem)
		for _, sg := range [][]xcore.PubKeySign{nil, {{}}, {{PubKey: raw, Signature: raw}, {PubKey: nil, Signature: c.Bytes(71)}}} {
			s.GetRawUnlockingScriptBytes(sg, redeem)
			s.GetWitnessUnlockingScriptBytes(sg, redeem)
		}
	}
	for _, w := range [][][]byte{nil, {nil}, {raw}, {raw, raw}, {{}, raw, c.Bytes(33)}} {
		s.WitnessToUnlockingScriptBytes(w)
	}
}

func usePub(c *Ctx, k *xcrypto.PubKey) {
	k.Serialize()
	k.SerializeCompressed()
	k.SerializeUncompressed()
	k.SerializeHybrid()
	k.Hash160()
	k.XBytes()
	k.YBytes()
	switch c.N(4) {
	case 0:
		k.Add(toPub(ecMulG(c.Scalar())))
	case 1:
		xcrypto.EcdsaVerify(k, c.Bytes(32), refSigs(c, c.Scalar(), c.Bytes(32)))
	case 2:
		xcrypto.SchnorrVerify(k, c.Bytes(32), c.Bytes(64))
	}
}

// useTx does everything one can do with a decoded transaction.
func useTx(c *Ctx, tx *xcore.Transaction, sign bool) {
	tx.ToString()
	tx.Serialize()
	tx.SerializeNoWitness()
	tx.Hash()
	tx.ID()
	tx.WitnessHash()
	tx.WitnessID()
	tx.Size()
	tx.BaseSize()
	tx.WitnessSize()
	tx.Weight()
	tx.Vsize()
	tx.HasWitness()
	tx.Fees()
	tx.Verify()
	for i := -1; i < 4; i++ {
		if i >= 0 && c.Bool() {
			continue
		}
		var redeem []byte
		kind := c.N(nKinds)
		in := &rin{}
		newSpec(c, kind, in)
		lock := in.lock
		redeem = in.redeem
		switch c.N(6) {
		case 0:
			lock = c.mutate(lock)
		case 1:
			redeem = c.anyScript()
		case 2:
			lock, redeem = c.anyScript(), nil
		}
		err := tx.SetTxIn(i, c.Uint(), lock, redeem)
		if err != nil && i >= 0 {
			continue
		}
		ht := xcore.SigHashType(c.N(256))
		if err == nil {
			tx.RawSignatureHash(i, ht)
		}
		if sign {
			k := ring()[c.N(len(ring()))].prv
			tx.RawSignature(i, ht, k)
			tx.WitnessSignature(i, ht, k)
			tx.SignIndex(i, c.Bool(), ht, k)
		}
		if c.Bool() {
			tx.ToString()
			tx.Verify()
		}
		if c.P(3) {
			continue
		}
		tx.EmbedIdxEcdsaSignature(i, ring()[c.N(len(ring()))].prv.PubKey(), c.Bytes(70), ht)
	}
	tx.Verify()
	tx.ToString()
	tx.Serialize()
	tx.Vsize()
}

func useMessage(m xprotocol.Message) {
	m.Command()
	m.Size()
	m.Encode()
	_ = fmt.Sprintf("%+v", m)
}

func (c *Ctx) hdPayload() []byte {
	k := refMaster(c.hdSeed())
	for n := c.N(3); n > 0; n-- {
		if x, ok := k.child(c.childIdx(true)); ok {
			k = x
		}
	}
	if c.Bool() {
		k = k.public()
	}
	return k.payload(c.netName())
}

func (c *Ctx) sentence() string {
	list := bip39.GetWordList()
	if c.P(3) {
		var l []int
		for n := c.N(30); n > 0; n-- {
			l = append(l, c.N(2048))
		}
		return toSentence(list, l)
	}
	return toSentence(list, refWords(c.entropy()))
}

func (c *Ctx) addrText() string {
	kind := c.N(4)
	h := c.Blob(20)
	if kind == 3 {
		h = c.Blob(32)
	}
	switch c.N(6) {
	case 0: // right checksums around anything
		return refB58CheckEncode(c.Blob(c.N(40)), byte(c.Pick(0, 5, 0x6f, 0xc4, c.N(256))))
	case 1:
		d := c.Bytes(c.N(60))
		for i := range d {
			d[i] &= 31
		}
		return refBechEncode([]string{"bc", "tb", "", "bcrt", "x"}[c.N(5)], d)
	case 2:
		return refSegwitEncode([]string{"bc", "tb"}[c.N(2)], byte(c.N(32)), c.Blob(c.N(42)))
	}
	return newAddr(kind, h).ToString(netByName(c.netName()))
}

func (c *Ctx) hostileTx() []byte {
	t := rawTx(c, 3, 3)
	b := t.ser(t.hasWitness() && !c.P(4))
	if c.P(3) { // a count or length in place of a byte
		v := &wbuf{}
		v.varint([]uint64{0, 0xfc, 0xfd, 0xffff, 0x10000, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40, 1<<63 - 1, 1 << 63, 1<<64 - 1}[c.N(12)])
		i := c.N(len(b))
		if c.Bool() {
			i = 4
		}
		b = append(b[:i:i], append(v.b, b[i+1:]...)...)
	}
	return b
}

var decoders []decoder

func init() {
	add := func(d decoder) { decoders = append(decoders, d) }
	text := func(name string, seed func(c *Ctx) string, run func(c *Ctx, s string) func()) decoder {
		return decoder{name: name, seed: func(c *Ctx) []byte { return []byte(seed(c)) },
			run: func(c *Ctx, b []byte) func() { return run(c, string(b)) }, base: 16 << 20, per: 8 << 10, max: 6000}
	}
	yes := func() {}
	add(text("Base58Decode", func(c *Ctx) string { return refB58Encode(c.Blob(c.N(80))) }, func(c *Ctx, s string) func() {
		b := xbase.Base58Decode(s)
		if len(b) == 0 {
			return nil
		}
		return func() { xbase.Base58Encode(b) }
	}))
	add(text("Base58CheckDecode", func(c *Ctx) string { return refB58CheckEncode(c.Blob(c.N(60)), byte(c.N(256))) }, func(c *Ctx, s string) func() {
		b, v, err := xbase.Base58CheckDecode(s)
		if err != nil {
			return nil
		}
		return func() { xbase.Base58CheckEncode(b, v) }
	}))
	bech := func(c *Ctx) string {
		d := c.Bytes(c.N(80))
		for i := range d {
			d[i] &= 31
		}
		return refBechEncode(randHrp(c), d)
	}
	add(text("Bech32Decode", bech, func(c *Ctx, s string) func() {
		h, d, err := xbase.Bech32Decode(s)
		if err != nil {
			return nil
		}
		return func() { xbase.Bech32Encode(h, d) }
	}))
	add(text("WitnessDecode", func(c *Ctx) string { return c.addrText() }, func(c *Ctx, s string) func() {
		h, v, p, err := xbase.WitnessDecode(s)
		if err != nil {
			return nil
		}
		return func() { xbase.WitnessEncode(h, v, p) }
	}))
	add(text("NewIDFromString", func(c *Ctx) string { return hex.EncodeToString(c.Blob(c.Pick(32, 32, 31, 33, 0, c.N(80)))) }, func(c *Ctx, s string) func() {
		b, err := xbase.NewIDFromString(s)
		if err != nil {
			return nil
		}
		return func() { xbase.NewIDToString(b) }
	}))
	add(text("DecodeAddress", func(c *Ctx) string { return c.addrText() }, func(c *Ctx, s string) func() {
		a, err := xcore.DecodeAddress(s, netByName(c.netName()))
		if err != nil {
			return nil
		}
		return func() { useAddress(a) }
	}))
	add(text("NewHDKeyFromString", func(c *Ctx) string {
		p := c.hdPayload()
		if c.Bool() {
			p = c.mutate(p)
		}
		return hdText(p)
	}, func(c *Ctx, s string) func() {
		k, err := bip32.NewHDKeyFromString(s)
		if err != nil {
			return nil
		}
		return func() {
			k.ToString(network.MainNet)
			k.HDPublicKey().ToString(network.TestNet)
			k.Derive(c.childIdx(c.Bool()))
			usePub(c, k.PublicKey())
			if p := k.PrivateKey(); p != nil {
				p.Serialize()
				p.PubKey()
			}
		}
	}))
	path := text("DeriveByPath", func(c *Ctx) string {
		return []string{"m/0/1'", "m/2147483647'/4294967295", "m", "0/1/2", "m/", "m//1", "M/1", "m/0x1", "m/-1", "m/1''", "m/'", "m/99999999999999999999"}[c.N(12)]
	}, func(c *Ctx, s string) func() {
		k := bip32.NewHDKey([]byte("0123456789abcdef"))
		x, err := k.DeriveByPath(s)
		y, err2 := k.HDPublicKey().DeriveByPath(s)
		if err2 == nil {
			y.ToString(network.MainNet)
		}
		if err != nil {
			return nil
		}
		return func() { x.ToString(network.MainNet) }
	})
	path.per = 1 << 20 // every step is a derivation
	add(path)
	add(text("mnemonics", func(c *Ctx) string { return c.sentence() }, func(c *Ctx, s string) func() {
		b, err := bip39.EntropyFromMnemonic(s)
		bip39.MnemonicToByteArray(s)
		bip39.MnemonicToByteArray(s, true)
		bip39.IsMnemonicValid(s)
		if err != nil {
			if c.P(20) {
				bip39.NewSeedWithErrorChecking(s, "p")
			}
			return nil
		}
		return func() { bip39.NewMnemonic(b) }
	}))
	add(text("NewMnemonic", func(c *Ctx) string { return string(c.entropy()) }, func(c *Ctx, s string) func() {
		m, err := bip39.NewMnemonic([]byte(s))
		if err != nil {
			return nil
		}
		return func() { bip39.IsMnemonicValid(m) }
	}))
	add(text("ScriptBuilder.Load", func(c *Ctx) string {
		if c.P(3) {
			return []string{"OP_DUP OP_HASH160", "OP_DATA_20 00", "OP_PUSHDATA1 ff", "OP_PUSHDATA4", "OP_0 OP_16 OP_1NEGATE", "OP_DATA_1", " ", "OP_DATA_75 \t\n zz"}[c.N(8)]
		}
		return xvm.DisasmString(c.anyScript())
	}, func(c *Ctx, s string) func() {
		b, err := xvm.NewScriptBuilder().Load(s).Script()
		if err != nil {
			return nil
		}
		return func() { useScript(b) }
	}))
	add(decoder{name: "PubKeyFromBytes", base: 16 << 20, per: 64, seed: func(c *Ctx) []byte {
		p := ecMulG(c.Scalar())
		b := [][]byte{ecCompressed(p), ecUncompressed(p), ecHybrid(p)}[c.N(3)]
		if c.P(4) {
			b[0] = byte(c.N(9))
		}
		if c.P(6) { // coordinates out of the field
			copy(b[1:33], pad32(new(big.Int).Add(ecP, big.NewInt(int64(c.N(5))))))
		}
		return b
	}, run: func(c *Ctx, b []byte) func() {
		k, err := xcrypto.PubKeyFromBytes(b)
		if err != nil {
			return nil
		}
		return func() { usePub(c, k) }
	}})
	add(decoder{name: "SecUnmarshal", base: 16 << 20, per: 64, seed: func(c *Ctx) []byte { return ecCompressed(ecMulG(c.Scalar())) }, run: func(c *Ctx, b []byte) func() {
		x, y := secp256k1.SecUnmarshal(secp256k1.SECP256K1(), b)
		if x == nil {
			return nil
		}
		return func() { secp256k1.SecMarshal(secp256k1.SECP256K1(), x, y) }
	}})
	add(decoder{name: "PrvKeyFromBytes", base: 16 << 20, per: 1 << 10, seed: func(c *Ctx) []byte {
		return [][]byte{pad32(c.Scalar()), pad32(new(big.Int)), pad32(ecN), pad32(new(big.Int).Add(ecN, big.NewInt(1))), {}}[c.N(5)]
	}, max: 100, run: func(c *Ctx, b []byte) func() {
		k := xcrypto.PrvKeyFromBytes(b)
		return func() {
			k.Serialize()
			k.Add(c.Bytes(32)).Serialize()
			k.PubKey()
		}
	}})
	add(decoder{name: "SignatureEcdsa", base: 1 << 20, per: 64, seed: func(c *Ctx) []byte { return refSigs(c, c.Scalar(), c.Bytes(32)) }, run: func(c *Ctx, b []byte) func() {
		s := xcrypto.NewSignatureEcdsa()
		if s.Deserialize(b) != nil {
			return nil
		}
		return func() { s.Serialize() }
	}})
	add(decoder{name: "SignatureSchnorr", base: 1 << 20, per: 64, seed: func(c *Ctx) []byte { return c.Bytes(64) }, run: func(c *Ctx, b []byte) func() {
		s := xcrypto.NewSignatureSchnorr()
		if s.Deserialize(b) != nil {
			return nil
		}
		return func() { s.Serialize() }
	}})
	add(decoder{name: "EcdsaVerify", base: 16 << 20, per: 1 << 8, max: 3000, seed: func(c *Ctx) []byte {
		r, s := refEcdsaSign(c.Scalar(), c.Bytes(32))
		switch c.N(6) {
		case 0:
			r = new(big.Int)
		case 1:
			s = new(big.Int)
		case 2:
			s = new(big.Int).Add(s, ecN)
		case 3:
			r = new(big.Int).SetBytes(c.Bytes(32))
		}
		return refDER(r, s)
	}, run: func(c *Ctx, b []byte) func() {
		k := ring()[c.N(len(ring()))].prv.PubKey()
		xcrypto.EcdsaVerify(k, c.Blob(c.Pick(32, 32, 32, 0, 20, 64, 100)), b)
		return yes
	}})
	add(decoder{name: "SchnorrVerify", base: 16 << 20, per: 1 << 8, max: 3000, seed: func(c *Ctx) []byte {
		b := refSchnorrSign(c.Scalar(), c.Bytes(32))
		switch c.N(6) {
		case 0:
			copy(b, pad32(ecP))
		case 1:
			copy(b[32:], pad32(ecN))
		case 2:
			copy(b, make([]byte, 64))
		}
		return b
	}, run: func(c *Ctx, b []byte) func() {
		k := ring()[c.N(len(ring()))].prv.PubKey()
		xcrypto.SchnorrVerify(k, c.Blob(c.Pick(32, 32, 32, 0, 20, 64, 100)), b)
		return yes
	}})
	script := func(c *Ctx) []byte {
		switch c.N(4) {
		case 0:
			in := &rin{}
			newSpec(c, c.N(nKinds), in)
			if c.Bool() && in.redeem != nil {
				return in.redeem
			}
			return in.lock
		case 1: // a push whose length is not there
			l := c.Bytes(c.N(5))
			return append(append(c.anyScript(), byte(c.Range(1, 78))), l...)
		}
		return c.anyScript()
	}
	add(decoder{name: "scripts", base: 1 << 20, per: 2 << 10, seed: script, run: func(c *Ctx, b []byte) func() {
		_, err := xvm.NewScriptReader(b).AllInstructions()
		xvm.DisasmString(b)
		xvm.RemoveOpcode(b, byte(c.N(256)))
		if err != nil {
			return nil
		}
		return func() { useScript(b) }
	}})
	add(decoder{name: "ParseLockingScript", base: 1 << 20, per: 1 << 10, seed: script, run: func(c *Ctx, b []byte) func() {
		s, err := xcore.ParseLockingScript(b)
		if err != nil {
			return nil
		}
		return func() { useLocking(c, s, b) }
	}})
	add(decoder{name: "Transaction", base: 1 << 20, per: 1 << 10, seed: (*Ctx).hostileTx, run: func(c *Ctx, b []byte) func() {
		tx := xcore.NewTransaction()
		if tx.Deserialize(b) != nil {
			return nil
		}
		return func() { useTx(c, tx, c.P(10)) }
	}})
	add(decoder{name: "Transaction (no witness)", base: 1 << 20, per: 1 << 10, seed: func(c *Ctx) []byte {
		if c.Bool() {
			return c.hostileTx()
		}
		t, specs := newTx(c, randKinds(c, c.Range(1, 3)), c.N(3))
		for i, s := range specs {
			if !c.P(3) {
				refSign(t, i, s)
			}
		}
		return t.ser(false)
	}, run: func(c *Ctx, b []byte) func() {
		tx := xcore.NewTransaction()
		if tx.DeserializeNoWitness(b) != nil {
			return nil
		}
		return func() { useTx(c, tx, c.P(10)) }
	}})
	for _, k := range append([]string{"other"}, msgKinds...) {
		k := k
		add(decoder{name: k + " message", base: 1 << 20, per: 1 << 10, seed: func(c *Ctx) []byte {
			if k == "other" {
				return c.Blob(c.N(100))
			}
			return c.genMessage(k, true).payload
		}, run: func(c *Ctx, b []byte) func() {
			var m xprotocol.Message = xprotocol.NewMsgUnhandle("other")
			if k != "other" {
				m = emptyMsg(k)
			}
			if err := m.Decode(b); err != nil {
				return func() { useMessage(m) } // what is left of it
			}
			return func() {
				useMessage(m)
				if h, ok := m.(*xprotocol.MsgHeaders); ok {
					for _, x := range h.Headers {
						x.BlockHash()
					}
				}
				m.Decode(nil)
				useMessage(m)
			}
		}})
	}
	add(decoder{name: "Stream", base: 34 << 20, per: 1 << 10, seed: func(c *Ctx) []byte {
		var f []byte
		for n := c.Range(1, 3); n > 0; n-- {
			k := msgKinds[c.N(len(msgKinds))]
			p := c.genMessage(k, true).payload
			if c.P(3) {
				p = c.mutate(p)
			}
			f = append(f, refFrame(network.TestNet.Magic, k, p)...)
		}
		return f
	}, run: func(c *Ctx, b []byte) func() {
		s := xprotocol.NewStream(&memConn{in: b, room: -1}, network.TestNet.Magic)
		var got []xprotocol.Message
		for i := 0; i < 100; i++ {
			m, err := s.ReadMessage()
			if err != nil {
				break
			}
			got = append(got, m)
		}
		if got == nil {
			return nil
		}
		return func() {
			for _, m := range got {
				useMessage(m)
			}
		}
	}})
	add(decoder{name: "Merkle proof", base: 1 << 20, per: 1 << 10, seed: func(c *Ctx) []byte { return c.Bytes(32 * c.N(6)) }, run: func(c *Ctx, b []byte) func() {
		var l [][]byte
		for i := 0; i < c.N(9)+1; i++ {
			l = append(l, c.Bytes(c.Pick(32, 32, 32, 0, 31, 33)))
		}
		m := xcrypto.NewMerkle(l)
		root := m.Root()
		path := m.Proofs(l[c.N(len(l))])
		for i := 0; i+32 <= len(b); i += 32 {
			path = append(path, xcrypto.Node{Hash: b[i:][:c.N(33)], Parent: c.Bytes(c.N(33)), Position: []string{"left", "right", "", "x"}[c.N(4)]})
		}
		m.Verify(b, root, path)
		m.Verify(l[0], b, path)
		m.Proofs(b)
		return yes
	}})
	add(decoder{name: "Buffer", base: 1 << 20, per: 64, seed: func(c *Ctx) []byte {
		w := &wbuf{}
		for n := c.N(5); n > 0; n-- {
			w.bytes(c.Blob(c.Len(300)))
		}
		if c.Bool() {
			w.varint([]uint64{0xfd, 0xffff, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}[c.N(7)])
		}
		return w.b
	}, run: func(c *Ctx, b []byte) func() {
		r := xbase.NewBufferReader(b)
		for i := 0; i < 20; i++ {
			var err error
			switch c.N(7) {
			case 0:
				_, err = r.ReadU8()
			case 1:
				_, err = r.ReadU32()
			case 2:
				_, err = r.ReadVarInt()
			case 3:
				_, err = r.ReadVarString()
			case 4:
				_, err = r.ReadBytes(int(c.int64e()))
			default:
				_, err = r.ReadVarBytes()
			}
			r.Seek()
			r.End()
			r.Remaining()
			if err != nil && c.Bool() {
				return nil
			}
		}
		return yes
	}})
	add(decoder{name: "coins in hex", base: 1 << 20, per: 64, seed: func(c *Ctx) []byte { return []byte(hex.EncodeToString(c.anyScript())) }, run: func(c *Ctx, b []byte) func() {
		id := hex.EncodeToString(c.Bytes(32))
		if c.P(3) {
			id = string(b)
		}
		coins := xcore.NewCoinBuilder().AddOutput(id, c.U32e(), c.Uint(), string(b)).ToCoins()
		return func() {
			k := ring()[c.N(len(ring()))].prv
			tx, err := xcore.NewTransactionBuilder().AddCoin(coins[0]).AddKeys(k).To(xcore.NewPayToPubKeyHashAddress(c.Bytes(20)), c.Uint()).SetChange(xcore.NewPayToPubKeyHashAddress(c.Bytes(20))).Sign().BuildTransaction()
			if err == nil {
				useTx(c, tx, false)
			}
		}
	}})
}

// hostile makes an input for a decoder.
func (c *Ctx) hostile(d *decoder) []byte {
	var b []byte
	switch c.N(10) {
	case 0:
		b = d.seed(c)
	case 1:
		x, y := d.seed(c), d.seed(c)
		b = append(dup(x[:c.N(len(x)+1)]), y[c.N(len(y)+1):]...)
	case 2:
		b = c.Blob(c.Len(300))
	case 3:
		x := d.seed(c)
		b = dup(x[:c.N(len(x)+1)])
	case 4: // a part again and again
		x := d.seed(c)
		i := c.N(len(x) + 1)
		j := i + c.N(len(x)-i+1)
		b = dup(x[:j])
		for n := c.N(20); n > 0; n-- {
			b = append(b, x[i:j]...)
		}
		b = append(b, x[j:]...)
	default:
		b = d.seed(c)
		for n := c.Range(1, 4); n > 0; n-- {
			b = c.mutate(b)
		}
	}
	if d.max > 0 && len(b) > d.max {
		b = b[:d.max]
	}
	return b
}

func c32mutate(c *Ctx) {
	d := &decoders[c.Idx%len(decoders)]
	b := c.hostile(d)
	c.Note(func() string { return fmt.Sprintf("%s of %x (%q)", d.name, b, string(b)) })
	use := d.run(c, b)
	c.Eval(1)
	c.NT(d.name, b)
	if use == nil {
		c.Count(d.name + " rejected")
		return
	}
	use()
	c.Count(d.name + " accepted")
	c.Sample("%s: %x", d.name, b)
}

func (d *decoder) limit(n int) uint64 { return d.base + d.per*uint64(n) }

func c32memory(c *Ctx) {
	d := &decoders[c.Idx%len(decoders)]
	b := c.hostile(d)
	c.Note(func() string { return fmt.Sprintf("%s of %x", d.name, b) })
	seed := c.U64()
	d.run(c.twin(seed), dup(b)) // first use of anything in it
	t := c.twin(seed)
	got := allocated(func() { d.run(t, b) })
	c.Check(got <= d.limit(len(b)), "memory:"+d.name, "%d input bytes: %d bytes allocated", len(b), got)
	c.NT(d.name, b)
	c.CountN("bytes allocated", int(got))
}

func c32long(c *Ctx) {
	d := &decoders[c.Idx%len(decoders)]
	n := 2000000
	if d.max > 0 {
		n = d.max
	}
	x := d.seed(c)
	var b []byte
	switch c.N(3) {
	case 0:
		b = c.Blob(n)
	case 1:
		b = dup(x)
		for len(b) < n && len(x) > 0 {
			b = append(b, x...)
		}
	case 2:
		b = append(dup(x), make([]byte, n)...)
	}
	c.Note(func() string { return fmt.Sprintf("%s of %d bytes from %x", d.name, len(b), b[:min(len(b), 200)]) })
	t0 := time.Now()
	got := allocated(func() { d.run(c, b) })
	dt := time.Since(t0)
	c.Check(got <= d.limit(len(b)), "memory:"+d.name, "%d input bytes: %d bytes allocated", len(b), got)
	if dt > 20*time.Second {
		c.TimedFail("slow:"+d.name, "%d input bytes took %v", len(b), dt)
	}
	c.NT(d.name, b[:min(len(b), 1000)])
	c.CountN("input bytes", len(b))
}

// c32engine watches what running scripts allocates and takes.
func c32engine(c *Ctx) {
	var u, l []byte
	switch c.N(5) {
	case 0:
		u, l = c.anyScript(), c.anyScript()
	case 1:
		u, l = c.live(&refVM{check: toyCheck}, c.N(4)), c.live(&refVM{check: toyCheck}, c.Range(1, 40))
	case 2: // growing stacks
		for i := 0; i < 3; i++ {
			u = append(u, refPush(c.Blob(c.Pick(1, 100, 520)))...)
		}
		for i := c.N(260); i > 0; i-- {
			l = append(l, []byte{0x6e, 0x6f, 0x6f, 0x6f, 0x70, 0x76, 0x7d, 0x74}[c.N(8)]) // 2dup 3dup 2over dup tuck depth
		}
		for i := c.N(700); i > 0; i-- {
			l = append(l, 0x51)
		}
	case 3: // counts and depths from the stack
		for i := c.N(6); i > 0; i-- {
			u = append(u, refPush(c.Pick2(refNumEncode(c.int64e()), c.Blob(c.N(6))))...)
		}
		for i := c.Range(1, 6); i > 0; i-- {
			l = append(l, []byte{0x79, 0x7a, 0xae, 0xaf, 0x63, 0x68, 0xba, 0x50}[c.N(8)]) // pick roll multisig(verify) if endif
		}
	case 4: // deep conditionals and long scripts
		n := c.Pick(10, 1000, 5000, 9990)
		for i := 0; i < n; i++ {
			l = append(l, []byte{0x51, 0x63, 0x67, 0x68, 0x00, 0x64, 0x61}[c.N(7)])
		}
	}
	c.Note(func() string { return fmt.Sprintf("unlocking %x locking %x", u, l) })
	limit := uint64(32<<20) + 1000*uint64(len(u)+len(l))
	for mode := 0; mode < nVMModes; mode++ {
		e := libEngine(mode)
		t0 := time.Now()
		got := allocated(func() { e.Verify(u, l) })
		c.Check(got < limit, "engine-memory", "%d bytes allocated", got)
		if dt := time.Since(t0); dt > 10*time.Second {
			c.TimedFail("engine-slow", "%v", dt)
		}
		e = libEngine(mode)
		e.Execute(l)
		c.CountN("bytes allocated", int(got))
		if m := int64(got >> 10); m > c.w.counts["largest kB"] {
			c.w.counts["largest kB"] = m
		}
	}
	xvm.NewEngine().Verify(u, l) // with no way to check signatures
	if len(l) < 300 {
		e := libEngine(0)
		e.EnableDebug()
		e.Verify(u, l)
		for _, t := range e.Traces() {
			_ = fmt.Sprint(t)
		}
	}
	c.NT(u, l)
}

func (r *Rand) Pick2(a, b []byte) []byte {
	if r.Bool() {
		return a
	}
	return b
}

// c32counts gives every declared count and length its extreme values with few bytes behind.
func c32counts(c *Ctx) {
	var v wbuf
	v.varint([]uint64{0xfc, 0xfd, 2000, 2001, 50000, 50001, 0xffff, 0x10000, 1 << 24, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40, 1 << 58, 1<<63 - 1, 1 << 63, 1<<64 - 1}[c.N(17)])
	tail := c.Bytes(c.N(200))
	var w wbuf
	where := c.N(8)
	tx := func(f func()) {
		w.u32(2)
		f()
	}
	in := func() { w.raw(c.Bytes(36)) }
	noWit := true
	switch where {
	case 0:
		tx(func() { w.raw(v.b) })
	case 1:
		tx(func() { w.u8(1); in(); w.raw(v.b) })
	case 2:
		tx(func() { w.u8(1); in(); w.u8(0); w.u32(0); w.raw(v.b) })
	case 3:
		tx(func() {
			w.u8(1)
			in()
			w.u8(0)
			w.u32(0)
			w.u8(1)
			w.u64(1)
			w.raw(v.b)
		})
	case 4:
		noWit = false
		tx(func() { w.u8(0); w.u8(1); w.raw(v.b) })
	case 5:
		noWit = false
		tx(func() {
			w.u8(0)
			w.u8(1)
			w.u8(1)
			in()
			w.u8(0)
			w.u32(0)
			w.raw(v.b)
		})
	case 6:
		noWit = false
		tx(func() {
			w.u8(0)
			w.u8(1)
			w.u8(1)
			in()
			w.u8(0)
			w.u32(0)
			w.u8(0)
			w.raw(v.b)
		})
	case 7:
		noWit = false
		tx(func() {
			w.u8(0)
			w.u8(1)
			w.u8(1)
			in()
			w.u8(0)
			w.u32(0)
			w.u8(0)
			w.u8(1)
			w.raw(v.b)
		})
	}
	w.raw(tail)
	c.Note(func() string { return fmt.Sprintf("place %d: %x", where, w.b) })
	x := xcore.NewTransaction()
	var err error
	got := allocated(func() {
		if noWit {
			err = x.DeserializeNoWitness(w.b)
		} else {
			err = x.Deserialize(w.b)
		}
	})
	c.Check(got < 1<<20, "count-memory", "transaction of %d bytes: %d bytes allocated (%v)", len(w.b), got, err)
	// messages
	k := msgKinds[c.N(len(msgKinds))]
	p := c.genMessage(k, true).payload
	i := c.N(len(p) + 1)
	if c.Bool() {
		i = []int{0, 4, 80, 16}[c.N(4)]
	}
	if i < len(p) {
		p = append(append(dup(p[:i]), v.b...), p[i+1:]...)
	}
	m := emptyMsg(k)
	c.Note(func() string { return fmt.Sprintf("%s payload %x", k, p) })
	got = allocated(func() { err = m.Decode(p) })
	c.Check(got < 2<<20+1000*uint64(len(p)), "count-memory", "%s payload of %d bytes: %d bytes allocated (%v)", k, len(p), got, err)
	useMessage(m)
	c.NT(w.b)
}

// c32rpc: answers of any bytes.
func c32rpc(c *Ctx) {
	s, err := newRPCServer(nil)
	if err != nil {
		return
	}
	defer s.close()
	cl := xrpc.NewClient(s.host(), "u", "p")
	for i := 0; i < 12; i++ {
		k := c.rpcCall()
		body := []byte(c.envelope(k.result, nil, c.Bool()))
		switch c.N(4) {
		case 0: // deep nesting
			n := c.Pick(10, 1000, 11000, 100000)
			o := []string{"[", `{"result":`, `{"a":[`}[c.N(3)]
			body = []byte(`{"result":` + strings.Repeat(o, n))
		case 1: // huge numbers
			body = []byte(strings.Replace(string(body), "0", "1e"+strconv.Itoa(c.N(100000)), 1))
		default:
			for n := c.Range(1, 5); n > 0; n-- {
				body = c.mutate(body)
			}
		}
		raw := c.httpAnswer(body)
		raw = []byte(strings.Replace(string(raw), "X-Keep", "X-Kept", 1)) // the connection is closed after it
		if c.P(4) {
			raw = c.mutate(raw)
		}
		c.Note(func() string { return k.name + " answered with " + short(string(raw)) })
		s.set(func(int, []byte) ([]byte, bool) { return raw, false })
		var e error
		done := make(chan struct{})
		go func() {
			defer close(done)
			_, e = k.call(cl)
		}()
		select {
		case <-done:
		case <-time.After(50 * time.Second):
			c.TimedFail("rpc-stuck", "%s has not returned 50 s after a broken answer", k.name)
		}
		c.Eval(1)
		s.take()
		if e != nil {
			_ = fmt.Sprintf("%+v", e)
			c.Count("errors")
		} else {
			c.Count("values")
		}
		c.NT(raw)
	}
}

// c32errors prints errors.
func c32errors(c *Ctx) {
	tables := []map[int]*xerror.Error{xcore.Errors, xvm.Errors, xerror.Errors, nil}
	t := tables[c.N(len(tables))]
	n := c.Pick(1000, 1001, 2000, 3000, 4000, 5000, 0, -1) + c.N(30)
	var args []interface{}
	for i := c.N(4); i > 0; i-- {
		args = append(args, []interface{}{nil, 7, "text %d %s", c.Bytes(3), fmt.Errorf("x")}[c.N(5)])
	}
	e := xerror.NewError(t, n, args...)
	c.Check(e != nil && e.Error() != "", "error-text", "no text")
	for _, f := range []string{"%v", "%+v", "%s", "%q", "%d", "%#v", "%x", "%10v"} {
		s := fmt.Sprintf(f, e)
		c.Check(!strings.Contains(s, "PANIC="), "error-print", "printed with %s: %s", f, short(s))
	}
	c.Check(strings.Contains(fmt.Sprintf("%+v", e), e.Message) && fmt.Sprintf("%v", e) == e.Error(), "error-print", "%+v does not show %s", e, e.Message)
	c.NT(n, len(args), e.Error())
	c.Sample("%v", e)
}
