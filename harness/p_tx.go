package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
	"sync"

	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"
)

func init() {
	register(&Prop{
		ID:   "C05",
		Rule: "transactions with any counts (around every compact-size boundary), script lengths and witnesses, built through the API and as canonical bytes, compared byte for byte with an independent codec of both forms; every kind of truncation and mutation is decided by the independent decoder; non-trivial: distinct encodings",
		Kinds: []Kind{
			{Name: "roundtrip", N: 9000, TN: 60000, Run: c05round},
			{Name: "api", N: 6000, TN: 30000, Run: c05api},
			{Name: "history", N: 1800, TN: 10000, Run: c05history},
			{Name: "counts", N: 60, TN: 300, Run: c05counts},
			{Name: "ids", N: 3000, TN: 30000, Run: c05ids},
			{Name: "truncate", N: 1800, TN: 8000, Run: c05truncate},
			{Name: "hostile", N: 18000, TN: 200000, Run: c05hostile},
		},
	})
	register(&Prop{
		ID:   "C06",
		Rule: "the sizes of decoded, built, partly and fully signed transactions of any shape against the lengths of the bytes they really serialise to and of an independent encoder; non-trivial: distinct transactions",
		Kinds: []Kind{
			{Name: "decoded", N: 12000, TN: 60000, Run: c06decoded},
			{Name: "signed", N: 750, TN: 4000, Run: c06signed},
			{Name: "history", N: 1800, TN: 10000, Run: c06history},
			{Name: "counts", N: 60, TN: 300, Run: c06counts},
		},
	})
	register(&Prop{
		ID:   "C07",
		Rule: "digests of transactions with mixed inputs for every hash type byte (and 32-bit types), every input, with content changed and other digests, signatures and serialisations taken in between, against reference algorithms that rebuild the preimage from scratch; non-trivial: distinct (transaction, input, hash type)",
		Kinds: []Kind{
			{Name: "digest", N: 9000, TN: 60000, Run: c07digest},
			{Name: "types", N: 256, TN: 2560, Run: c07types},
			{Name: "history", N: 3600, TN: 20000, Run: c07history},
		},
	})
	register(&Prop{
		ID:   "C08",
		Rule: "transactions with 1 to 6 inputs of mixed kinds (and a few with hundreds), any hash types, m-of-n up to 15 or 20 keys, signed through the library, verified, serialised, decoded, restored, verified again and decided by the independent verifier; non-trivial: distinct signed transactions",
		Kinds: []Kind{
			{Name: "sign", N: 240, TN: 6000, Run: c08sign},
			{Name: "multisig", N: 80, TN: 1500, Run: c08multisig},
			{Name: "embed", N: 120, TN: 1500, Run: c08embed},
			{Name: "large", N: 5, TN: 24, Run: c08large},
			{Name: "builder", N: 120, TN: 2000, Run: c08builder},
			{Name: "oversize", N: 60, TN: 1000, Run: c08oversize},
		},
	})
	register(&Prop{
		ID:   "C09",
		Rule: "properly signed transactions with one or more structural, authorisation or field changes, and contract scripts with right and wrong unlocking data, decided by the independent verifier; every verdict must agree; non-trivial: distinct tampered transactions",
		Kinds: []Kind{
			{Name: "tamper", N: 1500, TN: 30000, Run: c09tamper},
			{Name: "fields", N: 500, TN: 10000, Run: c09fields},
			{Name: "multisig", N: 500, TN: 10000, Run: c09multisig},
			{Name: "contract", N: 700, TN: 12000, Run: c09contract},
			{Name: "script", N: 2500, TN: 50000, Run: c09script},
			{Name: "object", N: 300, TN: 5000, Run: c09object},
			{Name: "many", N: 96, TN: 1500, Run: c09many},
		},
	})
	register(&Prop{
		ID:   "C12",
		Rule: "builder configurations with any number of groups, coins, outputs, data outputs, fees (fixed and rate), limits and omissions, including amounts at and beyond every bound, against an independent balance sheet; non-trivial: distinct configurations",
		Kinds: []Kind{
			{Name: "balance", N: 60000, TN: 400000, Run: c12balance},
			{Name: "signed", N: 450, TN: 2500, Run: c12signed},
		},
	})
	register(&Prop{
		ID:   "C13",
		Rule: "sizes and rates of any magnitude against exact arithmetic; signed transactions' virtual sizes against the estimates made before signing, over the input kinds and counts outside the recorded shortfalls; non-trivial: distinct (size, rate) and transactions",
		Kinds: []Kind{
			{Name: "fees", N: 60000, TN: 1000000, Run: c13fees},
			{Name: "size", N: 200, TN: 3000, Run: c13size},
			{Name: "normal", N: 8000, TN: 40000, Run: c13normal},
			{Name: "estimate", N: 12000, TN: 60000, Run: c13estimate},
			{Name: "builder", N: 300, TN: 2000, Run: c13builder},
			{Name: "known", N: 4, TN: 4, Run: c13known},
		},
	})
}

// ---- keys ----

type keyInfo struct {
	d            *big.Int
	prv          *xcrypto.PrvKey
	comp, uncomp []byte
}

var (
	keyring     []keyInfo
	keyringOnce sync.Once
)

// keys of the signing workloads: a fixed set with small, large and short ones.
func ring() []keyInfo {
	keyringOnce.Do(func() {
		r := newRand(0x746f6b75)
		for i := 0; i < 40; i++ {
			d := r.Scalar()
			P := ecMulG(d)
			keyring = append(keyring, keyInfo{d, prvOf(d), ecCompressed(P), ecUncompressed(P)})
		}
	})
	return keyring
}

// ---- input kinds ----

const (
	kP2PKH = iota
	kP2PKHU
	kP2WPKH
	kP2SH
	kP2WSH
	nKinds
)

type inSpec struct {
	kind    int
	keys    []int // keys of the script in order
	signers []int // positions in keys, ascending
	ht      uint32
}

var stdTypes = []uint32{1, 2, 3, 0x81, 0x82, 0x83}

func (c *Ctx) hashType() uint32 {
	if c.P(5) {
		return uint32(c.N(256))
	}
	return stdTypes[c.N(len(stdTypes))]
}

func multisigScript(m int, pubs [][]byte) []byte {
	s := refPush(refNumEncode(int64(m)))
	for _, p := range pubs {
		s = append(s, refPush(p)...)
	}
	s = append(s, refPush(refNumEncode(int64(len(pubs))))...)
	return append(s, oCMS)
}

// newSpec chooses keys for an input of a kind and fills in the spent output.
func newSpec(c *Ctx, kind int, in *rin) inSpec {
	k := ring()
	s := inSpec{kind: kind, ht: c.hashType()}
	switch kind {
	case kP2PKH, kP2PKHU, kP2WPKH:
		i := c.N(len(k))
		s.keys, s.signers = []int{i}, []int{0}
		switch kind {
		case kP2PKH:
			in.lock = refLock(0, refHash160(k[i].comp))
		case kP2PKHU:
			in.lock = refLock(0, refHash160(k[i].uncomp))
		case kP2WPKH:
			in.lock = refLock(2, refHash160(k[i].comp))
		}
		if kind != kP2WPKH && c.P(10) { // has no meaning for these
			in.redeem = c.Bytes(c.Range(1, 40))
		}
	default:
		max := 15
		if kind == kP2WSH {
			max = 20
		}
		n := c.Range(1, 4)
		if c.P(6) {
			n = c.Range(1, max)
		}
		m := c.Range(1, n)
		if m > 4 && !c.P(4) {
			m = c.Range(1, 4)
		}
		setMultisig(c, &s, in, n, m)
	}
	return s
}

func setMultisig(c *Ctx, s *inSpec, in *rin, n, m int) {
	k := ring()
	size := 3
	var pubs [][]byte
	for i := 0; i < n; i++ {
		j := c.N(len(k))
		if i > 0 && c.P(15) {
			j = s.keys[c.N(i)]
		}
		s.keys = append(s.keys, j)
		p := k[j].comp
		if c.P(5) && size+66+(n-i-1)*34 <= 500 {
			p = k[j].uncomp
		}
		size += len(p) + 1
		pubs = append(pubs, p)
	}
	perm := c.Perm(n)[:m]
	have := map[int]bool{}
	for _, i := range perm {
		have[i] = true
	}
	for i := 0; i < n; i++ {
		if have[i] {
			s.signers = append(s.signers, i)
		}
	}
	in.redeem = multisigScript(m, pubs)
	if s.kind == kP2SH {
		in.lock = refLock(1, refHash160(in.redeem))
	} else {
		in.lock = refLock(3, sha256b(in.redeem))
	}
}

func (c *Ctx) seq() uint32 {
	if c.Bool() {
		return 0xffffffff
	}
	return c.U32e()
}

func (c *Ctx) amount() uint64 {
	switch c.N(4) {
	case 0:
		return uint64(c.N(3))
	case 1:
		return 2100000000000000 - uint64(c.N(3))
	case 2:
		return c.U64() % 2100000000000001
	}
	return c.U64() % 1000000000
}

func (c *Ctx) outScript() []byte {
	switch c.N(5) {
	case 0:
		return refLock(0, c.Hash(20))
	case 1:
		return refLock(1, c.Hash(20))
	case 2:
		return refLock(2, c.Hash(20))
	case 3:
		return refLock(3, c.Hash(32))
	}
	return append([]byte{oRETURN}, refPush(c.Bytes(c.Len(80)))...)
}

// newTx makes an unsigned transaction with inputs of the given kinds.
func newTx(c *Ctx, kinds []int, nout int) (*rtx, []inSpec) {
	t := &rtx{version: 1, lock: 0}
	if c.P(2) {
		t.version, t.lock = c.U32e(), c.U32e()
	}
	var specs []inSpec
	for _, k := range kinds {
		in := rin{hash: c.Hash(32), index: c.U32e(), seq: c.seq(), value: c.amount()}
		sp := newSpec(c, k, &in)
		if n := len(t.ins); n > 0 && c.P(4) {
			o := c.N(n)
			in.hash = dup(t.ins[o].hash) // another output of the same transaction
			if in.index == t.ins[o].index {
				in.index++
			}
			if c.Bool() && specs[o].kind == k { // which has the same owner
				sp, in.lock, in.redeem = specs[o], t.ins[o].lock, t.ins[o].redeem
				if c.Bool() {
					in.value, in.seq = t.ins[o].value, t.ins[o].seq
				}
			}
		}
		specs = append(specs, sp)
		t.ins = append(t.ins, in)
	}
	for i := 0; i < nout; i++ {
		o := rout{c.amount(), c.outScript()}
		if i > 0 && c.P(5) {
			o = t.outs[c.N(i)]
		}
		t.outs = append(t.outs, o)
	}
	return t, specs
}

func randKinds(c *Ctx, n int) []int {
	k := make([]int, n)
	for i := range k {
		k[i] = c.N(nKinds)
	}
	if c.P(4) {
		for i := range k {
			k[i] = k[0]
		}
	}
	return k
}

// libTx builds the library's transaction from the content and spent outputs of t.
func libTx(c *Ctx, t *rtx) (*xcore.Transaction, []*xcore.TxIn, []*xcore.TxOut) {
	tx := xcore.NewTransaction()
	tx.SetVersion(t.version)
	tx.SetLockTime(t.lock)
	var ins []*xcore.TxIn
	var outs []*xcore.TxOut
	for i := range t.ins {
		in := &t.ins[i]
		x, err := xcore.NewTxIn(in.hash, in.index, in.value, in.lock, in.redeem)
		c.Check(err == nil, "newtxin", "NewTxIn of input %d (%x): %v", i, in.lock, err)
		x.Sequence = in.seq
		tx.AddInput(x)
		ins = append(ins, x)
	}
	for i := range t.outs {
		o := xcore.NewTxOut(t.outs[i].value, t.outs[i].script)
		tx.AddOutput(o)
		outs = append(outs, o)
	}
	return tx, ins, outs
}

// libLoad decodes bytes and restores the spent outputs.
func libLoad(t *rtx, b []byte) (*xcore.Transaction, error) {
	tx := xcore.NewTransaction()
	var err error
	if t.hasWitness() {
		err = tx.Deserialize(b)
	} else {
		err = tx.DeserializeNoWitness(b)
	}
	if err != nil {
		return nil, err
	}
	for i := range t.ins {
		if err := tx.SetTxIn(i, t.ins[i].value, t.ins[i].lock, t.ins[i].redeem); err != nil {
			return nil, err
		}
	}
	return tx, nil
}

// libVerdict is the library's answer on a transaction given as bytes with its spent outputs.
func libVerdict(t *rtx) error {
	tx, err := libLoad(t, t.ser(t.hasWitness()))
	if err != nil {
		return err
	}
	return tx.Verify()
}

func (t *rtx) String() string {
	s := fmt.Sprintf("tx=%x", t.ser(t.hasWitness()))
	for i, in := range t.ins {
		s += fmt.Sprintf(" spent[%d]=%d:%x redeem=%x", i, in.value, in.lock, in.redeem)
	}
	return s
}

// refSign signs an input with the reference.
func refSign(t *rtx, idx int, s inSpec) {
	k := ring()
	in := &t.ins[idx]
	sig := func(pos int, ht uint32) []byte {
		var h []byte
		switch s.kind {
		case kP2PKH, kP2PKHU:
			h = refLegacyHash(t, idx, in.lock, ht)
		case kP2SH:
			h = refLegacyHash(t, idx, in.redeem, ht)
		case kP2WPKH:
			h = refSegwitHash(t, idx, refLock(0, in.lock[2:]), in.value, ht)
		case kP2WSH:
			h = refSegwitHash(t, idx, in.redeem, in.value, ht)
		}
		r, x := refEcdsaSign(k[s.keys[pos]].d, h)
		return append(refDER(r, x), byte(ht))
	}
	switch s.kind {
	case kP2PKH:
		in.script = append(refPush(sig(0, s.ht)), refPush(k[s.keys[0]].comp)...)
	case kP2PKHU:
		in.script = append(refPush(sig(0, s.ht)), refPush(k[s.keys[0]].uncomp)...)
	case kP2WPKH:
		in.witness = [][]byte{sig(0, s.ht), dup(k[s.keys[0]].comp)}
	case kP2SH:
		in.script = []byte{0}
		for _, p := range s.signers {
			in.script = append(in.script, refPush(sig(p, s.ht))...)
		}
		in.script = append(in.script, refPush(in.redeem)...)
	case kP2WSH:
		in.witness = [][]byte{{}}
		for _, p := range s.signers {
			in.witness = append(in.witness, sig(p, s.ht))
		}
		in.witness = append(in.witness, dup(in.redeem))
	}
}

// ---- C05 ----

// rawTx makes a transaction of arbitrary content (scripts need not mean anything).
func rawTx(c *Ctx, maxIn, maxOut int) *rtx {
	t := &rtx{version: c.U32e(), lock: c.U32e()}
	n := c.Range(1, maxIn)
	if c.P(12) {
		n = c.Range(1, 50)
	}
	for i := 0; i < n; i++ {
		in := rin{hash: c.Blob(32), index: c.U32e(), seq: c.seq(), script: c.Blob(c.Len(c.Pick(10, 110, 300, 300, 70000)))}
		if i > 0 && c.P(6) {
			o := t.ins[c.N(i)]
			in.hash = dup(o.hash)
			if c.Bool() {
				in = o
			}
		}
		t.ins = append(t.ins, in)
	}
	n = c.N(maxOut + 1)
	if c.P(12) {
		n = c.N(50)
	}
	for i := 0; i < n; i++ {
		v := c.amount()
		if c.P(4) {
			v = c.Uint()
		}
		o := rout{v, c.Blob(c.Len(c.Pick(10, 40, 300, 70000)))}
		if i > 0 && c.P(6) {
			o = t.outs[c.N(i)]
		}
		t.outs = append(t.outs, o)
	}
	if c.Bool() {
		for i := range t.ins {
			w := c.N(4)
			if c.P(30) {
				w = c.Pick(252, 253, 254, 300, c.Range(4, 251))
			}
			for j := 0; j < w; j++ {
				l := c.Pick(0, 1, 33, 72, 80)
				if c.P(3) {
					l = c.Len(c.Pick(80, 300, 70000))
				}
				t.ins[i].witness = append(t.ins[i].witness, c.Blob(l))
			}
		}
	}
	return t
}

// checkTx compares everything observable of a library transaction with the reference content.
func checkTx(c *Ctx, tx *xcore.Transaction, t *rtx, what string) {
	base := t.ser(false)
	c.Check(bytes.Equal(tx.SerializeNoWitness(), base), "tx-legacy-"+what, "legacy form is %s, want %s", hx(tx.SerializeNoWitness()), hx(base))
	full := t.ser(t.hasWitness())
	c.Check(bytes.Equal(tx.Serialize(), full), "tx-witness-"+what, "witness form is %s, want %s", hx(tx.Serialize()), hx(full))
	id := sha256d(base)
	c.Check(bytes.Equal(tx.Hash(), id), "tx-hash-"+what, "hash is %x, want %x", tx.Hash(), id)
	c.Check(tx.ID() == hex.EncodeToString(rev(id)), "tx-id-"+what, "id is %s, want %x", tx.ID(), rev(id))
	wid := sha256d(full)
	c.Check(bytes.Equal(tx.WitnessHash(), wid), "tx-whash-"+what, "witness hash is %x, want %x", tx.WitnessHash(), wid)
	c.Check(tx.WitnessID() == hex.EncodeToString(rev(wid)), "tx-wid-"+what, "witness id is %s, want %x", tx.WitnessID(), rev(wid))
	c.Check(tx.HasWitness() == t.hasWitness(), "tx-haswitness-"+what, "HasWitness is %v", tx.HasWitness())
}

// dirtyTx is a transaction object that already holds other content.
func dirtyTx(c *Ctx) *xcore.Transaction {
	tx := xcore.NewTransaction()
	if c.P(3) {
		o := rawTx(c, 3, 3)
		if o.hasWitness() {
			tx.Deserialize(o.ser(true))
		} else {
			tx.DeserializeNoWitness(o.ser(false))
		}
	}
	return tx
}

func decodeBoth(c *Ctx, t *rtx) {
	c.Note(func() string { return "bytes=" + hx(t.ser(t.hasWitness())) })
	b := t.ser(t.hasWitness())
	arg, g := guarded(b, c.Pick(0, 16))
	tx := dirtyTx(c)
	var err error
	if t.hasWitness() {
		err = tx.Deserialize(arg)
		c.Count("witness form")
	} else {
		err = tx.DeserializeNoWitness(arg)
		c.Count("legacy form")
	}
	c.Check(err == nil, "tx-decode", "decoding canonical bytes fails: %v", err)
	checkTx(c, tx, t, "decoded")
	c.Check(g.ok(), "tx-decode-writes", "decoding wrote into its argument")
	if t.hasWitness() {
		// the stripped form names the same transaction
		s := t.clone()
		for i := range s.ins {
			s.ins[i].witness = nil
		}
		tx2 := xcore.NewTransaction()
		err = tx2.DeserializeNoWitness(s.ser(false))
		c.Check(err == nil && tx2.ID() == tx.ID(), "tx-id-stripped", "the id depends on the witness: %s %s", tx.ID(), tx2.ID())
	}
	c.NT(b)
}

func c05round(c *Ctx) {
	t := rawTx(c, 5, 5)
	decodeBoth(c, t)
	c.Sample("%d inputs, %d outputs, witness %v: %s", len(t.ins), len(t.outs), t.hasWitness(), hx(t.ser(t.hasWitness())))
}

// counts around the compact-size boundaries

// c05ids: the text of an id is its bytes in reverse, both ways.
func c05ids(c *Ctx) {
	h := c.Blob(c.Pick(32, 32, 32, 32, c.N(66)))
	text := hex.EncodeToString(rev(h))
	arg, g := guarded(h, 8)
	got := xbase.NewIDToString(arg)
	c.Check(got == text && g.ok(), "id-text", "the id %x is printed as %s", h, got)
	if c.P(4) {
		text = strings.ToUpper(text)
	}
	b, err := xbase.NewIDFromString(text)
	c.Check(err == nil && bytes.Equal(b, h), "id-bytes", "the id %s is read as %x, %v", text, b, err)
	bad := []byte(text)
	switch c.N(3) {
	case 0:
		bad = append(bad, "0gx "[c.N(4)])
	default:
		if len(bad) == 0 {
			return
		}
		bad[c.N(len(bad))] = "ghxz /:@G\x00\xff"[c.N(11)]
	}
	_, err = xbase.NewIDFromString(string(bad))
	c.Check(err != nil, "id-accepts", "%q is read as an id", bad)
	c.NT(h)
}
func c05counts(c *Ctx) {
	decodeBoth(c, countTx(c))
}

func countTx(c *Ctx) *rtx {
	n := []int{0, 1, 252, 253, 254, 255, 256, 257, 300, 1000, c.Range(2, 251), c.Range(2, 251), c.Range(2, 40)}
	if c.Idx%20 == 19 {
		n = []int{65534, 65535, 65536, 65537}
	}
	t := &rtx{version: 2}
	nin, nout := n[c.N(len(n))], c.Pick(0, 1, 2, 252, 253, 254)
	if c.Bool() {
		nin, nout = nout, nin
	}
	for i := 0; i < nin; i++ {
		t.ins = append(t.ins, rin{hash: c.Bytes(32), index: uint32(i), seq: c.seq()})
	}
	for i := 0; i < nout; i++ {
		t.outs = append(t.outs, rout{c.amount(), c.Bytes(c.N(3))})
	}
	if nin > 0 && c.Bool() {
		for k := 0; k < 3; k++ {
			i := c.N(nin)
			for w := c.Pick(1, 252, 253, 254); w > 0; w-- {
				t.ins[i].witness = append(t.ins[i].witness, c.Bytes(c.N(2)))
			}
		}
	}
	return t
}

// transactions put together from exported parts
func c05api(c *Ctx) {
	t := rawTx(c, 4, 4)
	tx := xcore.NewTransaction()
	if c.Bool() {
		t.version = 1
	} else {
		tx.SetVersion(t.version)
	}
	tx.SetLockTime(t.lock)
	for _, in := range t.ins {
		tx.AddInput(&xcore.TxIn{Hash: in.hash, Index: in.index, Sequence: in.seq, RawUnlockingScript: in.script, Witness: in.witness})
	}
	for _, o := range t.outs {
		tx.AddOutput(xcore.NewTxOut(o.value, o.script))
	}
	c.Note(func() string { return "bytes=" + hx(t.ser(t.hasWitness())) })
	checkTx(c, tx, t, "built")
	// restoring spent outputs does not change the bytes
	for i := range t.ins {
		if !t.hasWitness() && len(t.ins[i].script) > 0 {
			lock := refLock(c.N(2), c.Bytes(20))
			c.Check(tx.SetTxIn(i, c.amount(), lock, nil) == nil, "tx-settxin", "SetTxIn fails")
		}
	}
	checkTx(c, tx, t, "restored")
	c.NT(t.ser(t.hasWitness()))
}

func c05history(c *Ctx) { txHistory(c, false) }
func c06history(c *Ctx) { txHistory(c, true) }

// one object through a life of changes, signatures, decodings and readings: whatever is read is that of its present content
func txHistory(c *Ctx, sizes bool) {
	t, specs := newTx(c, randKinds(c, c.Range(1, 3)), c.Range(0, 3))
	tx, ins, outs := libTx(c, t)
	loose := true // ins and outs are the object's own parts
	var trace []string
	c.Note(func() string { return fmt.Sprintf("%v now %s", trace, t.String()) })
	look := func() {
		wit := t.hasWitness()
		if loose {
			wit = wit || hasWitKind(specs)
		}
		base, full := t.ser(false), t.ser(wit)
		if sizes {
			b, f := len(base), len(full)
			c.Check(tx.BaseSize() == b && tx.Size() == f && tx.WitnessSize() == f-b && tx.Weight() == 3*b+f && tx.Vsize() == (3*b+f+3)/4, "size-history", "base %d, total %d, witness %d, weight %d, virtual %d; the encodings have %d and %d bytes", tx.BaseSize(), tx.Size(), tx.WitnessSize(), tx.Weight(), tx.Vsize(), b, f)
			return
		}
		id, wid := sha256d(base), sha256d(full)
		switch c.N(6) {
		case 0:
			c.Check(bytes.Equal(tx.SerializeNoWitness(), base), "tx-legacy-history", "legacy form is %s, want %s", hx(tx.SerializeNoWitness()), hx(base))
		case 1:
			c.Check(bytes.Equal(tx.Serialize(), full), "tx-witness-history", "witness form is %s, want %s", hx(tx.Serialize()), hx(full))
		case 2:
			c.Check(bytes.Equal(tx.Hash(), id), "tx-hash-history", "hash is %x, want %x", tx.Hash(), id)
		case 3:
			c.Check(tx.ID() == hex.EncodeToString(rev(id)), "tx-id-history", "id is %s, want %x", tx.ID(), rev(id))
		case 4:
			c.Check(bytes.Equal(tx.WitnessHash(), wid), "tx-whash-history", "witness hash is %x, want %x", tx.WitnessHash(), wid)
		case 5:
			c.Check(tx.WitnessID() == hex.EncodeToString(rev(wid)), "tx-wid-history", "witness id is %s, want %x", tx.WitnessID(), rev(wid))
		}
	}
	for step := c.Range(4, 14); step > 0; step-- {
		op := c.N(11)
		if !loose && op < 6 {
			op = 6 + c.N(5)
		}
		i := 0
		if len(t.ins) > 0 {
			i = c.N(len(t.ins))
		}
		trace = append(trace, fmt.Sprintf("%d@%d", op, i))
		switch op {
		case 0, 1:
			libSign(c, tx, i, specs[i])
			refSign(t, i, specs[i])
		case 2:
			t.ins[i].seq, t.ins[i].index = c.seq(), c.U32e()
			ins[i].Sequence, ins[i].Index = t.ins[i].seq, t.ins[i].index
		case 3:
			if len(outs) > 0 {
				k := c.N(len(outs))
				t.outs[k].value, t.outs[k].script = c.amount(), c.outScript()
				outs[k].Value, outs[k].Script = t.outs[k].value, t.outs[k].script
			}
		case 4:
			in := rin{hash: c.Hash(32), index: c.U32e(), seq: c.seq(), value: c.amount()}
			s := newSpec(c, c.N(nKinds), &in)
			x, err := xcore.NewTxIn(in.hash, in.index, in.value, in.lock, in.redeem)
			c.Check(err == nil, "newtxin", "%v", err)
			x.Sequence = in.seq
			t.ins, specs, ins = append(t.ins, in), append(specs, s), append(ins, x)
			tx.AddInput(x)
		case 5:
			tx.Verify()
			tx.ToString()
			tx.RawSignatureHash(i, 1)
		case 6:
			t.version = c.U32e()
			tx.SetVersion(t.version)
		case 7:
			t.lock = c.U32e()
			tx.SetLockTime(t.lock)
		case 8:
			o := rout{c.amount(), c.outScript()}
			t.outs = append(t.outs, o)
			x := xcore.NewTxOut(o.value, o.script)
			outs = append(outs, x)
			tx.AddOutput(x)
		case 9, 10:
			if c.P(3) {
				t = rawTx(c, 2, 2)
				loose = false
				var err error
				if t.hasWitness() {
					err = tx.Deserialize(t.ser(true))
				} else {
					err = tx.DeserializeNoWitness(t.ser(false))
				}
				c.Check(err == nil, "tx-decode", "decoding canonical bytes fails: %v", err)
			}
		}
		for k := c.N(4); k > 0; k-- {
			look()
		}
	}
	for k := 0; k < 8; k++ {
		look()
	}
	c.NT(t.ser(t.hasWitness()))
	c.Sample("%v", trace)
}

func c05truncate(c *Ctx) {
	t := rawTx(c, 3, 3)
	b := t.ser(t.hasWitness())
	step := 1
	if len(b) > 600 {
		step = len(b)/300 + 1
	}
	for n := c.N(step); n < len(b); n += step {
		tx := xcore.NewTransaction()
		var err error
		if t.hasWitness() {
			err = tx.Deserialize(b[:n:n])
		} else {
			err = tx.DeserializeNoWitness(b[:n:n])
		}
		c.Check(err != nil, "tx-truncated", "%d of %d bytes decode without error: %s", n, len(b), hx(b))
	}
	c.NT(b)
}

func c05hostile(c *Ctx) {
	t := rawTx(c, 2, 2)
	for i := range t.ins {
		if len(t.ins[i].script) > 200 {
			t.ins[i].script = t.ins[i].script[:200]
		}
	}
	b := t.ser(t.hasWitness())
	for k := c.Range(1, 3); k > 0; k-- {
		b = c.mutate(b)
	}
	if c.P(4) {
		b = c.Blob(c.Len(200))
	}
	for _, wit := range []bool{false, true} {
		want, ok := refParseTx(b, wit)
		c.Note(func() string { return fmt.Sprintf("witness=%v bytes=%s", wit, hx(b)) })
		tx := dirtyTx(c)
		var err error
		if wit {
			err = tx.Deserialize(b)
		} else {
			err = tx.DeserializeNoWitness(b)
		}
		c.Check((err == nil) == ok, "tx-hostile", "decoding gives %v, the independent decoder accepts: %v", err, ok)
		if ok {
			checkTx(c, tx, want, "hostile")
			c.Count("accepted")
		} else {
			c.Count("rejected")
		}
	}
	c.NT(b)
}

// ---- C06 ----

func checkSizes(c *Ctx, tx *xcore.Transaction, what string) {
	base, full := len(tx.SerializeNoWitness()), len(tx.Serialize())
	c.Check(tx.BaseSize() == base, "size-base-"+what, "BaseSize is %d, the legacy form has %d bytes", tx.BaseSize(), base)
	c.Check(tx.Size() == full, "size-total-"+what, "Size is %d, the full form has %d bytes", tx.Size(), full)
	c.Check(tx.WitnessSize() == full-base, "size-witness-"+what, "WitnessSize is %d, want %d", tx.WitnessSize(), full-base)
	w := 3*base + full
	c.Check(tx.Weight() == w, "size-weight-"+what, "Weight is %d, want %d", tx.Weight(), w)
	c.Check(tx.Vsize() == (w+3)/4, "size-vsize-"+what, "Vsize is %d, want %d", tx.Vsize(), (w+3)/4)
}

func c06decodedTx(c *Ctx, t *rtx) {
	tx := dirtyTx(c)
	var err error
	if t.hasWitness() {
		err = tx.Deserialize(t.ser(true))
	} else {
		err = tx.DeserializeNoWitness(t.ser(false))
	}
	c.Note(func() string { return "bytes=" + hx(t.ser(t.hasWitness())) })
	c.Check(err == nil, "tx-decode", "%v", err)
	checkSizes(c, tx, "decoded")
	base, full := len(t.ser(false)), len(t.ser(t.hasWitness()))
	c.Check(tx.BaseSize() == base && tx.Size() == full && tx.Vsize() == (3*base+full+3)/4, "size-reference", "sizes %d/%d, reference %d/%d", tx.BaseSize(), tx.Size(), base, full)
	c.NT(t.ser(t.hasWitness()))
}

func c06decoded(c *Ctx) { c06decodedTx(c, rawTx(c, 5, 5)) }

func c06counts(c *Ctx) { c06decodedTx(c, countTx(c)) }

func c06signed(c *Ctx) {
	t, specs := newTx(c, randKinds(c, c.Range(1, 4)), c.N(4))
	tx, _, _ := libTx(c, t)
	c.Note(func() string { return t.String() })
	checkSizes(c, tx, "unsigned")
	for _, i := range c.Perm(len(specs)) {
		libSign(c, tx, i, specs[i])
		checkSizes(c, tx, "partly")
	}
	b := tx.Serialize()
	full, ok := refParseTx(b, hasWitKind(specs))
	c.Check(ok, "size-signed-bytes", "the signed bytes do not parse")
	checkSizes(c, tx, "signed")
	for i := range t.ins {
		full.ins[i].value, full.ins[i].lock, full.ins[i].redeem = t.ins[i].value, t.ins[i].lock, t.ins[i].redeem
	}
	l, err := libLoad(full, b)
	c.Check(err == nil, "tx-decode", "%v", err)
	checkSizes(c, l, "restored")
	c.NT(b)
	c.Sample("vsize %d size %d weight %d: %s", tx.Vsize(), tx.Size(), tx.Weight(), hx(b))
}

func hasWitKind(specs []inSpec) bool {
	for _, s := range specs {
		if s.kind == kP2WPKH || s.kind == kP2WSH {
			return true
		}
	}
	return false
}

func libSign(c *Ctx, tx *xcore.Transaction, i int, s inSpec) {
	var keys []*xcrypto.PrvKey
	for _, p := range s.signers {
		keys = append(keys, ring()[s.keys[p]].prv)
	}
	err := tx.SignIndex(i, s.kind != kP2PKHU, xcore.SigHashType(s.ht), keys...)
	c.Check(err == nil, "sign-error", "signing input %d (kind %d, type %x, %d of %d keys): %v", i, s.kind, s.ht, len(s.signers), len(s.keys), err)
}

// ---- C07 ----

// scriptCode is the script an input's signatures commit to.
func scriptCode(in *rin, kind int) []byte {
	switch kind {
	case kP2SH, kP2WSH:
		return in.redeem
	case kP2WPKH:
		return refLock(0, in.lock[2:])
	}
	return in.lock
}

func checkDigest(c *Ctx, tx *xcore.Transaction, t *rtx, specs []inSpec, i int, ht uint32, what string) {
	code := scriptCode(&t.ins[i], specs[i].kind)
	if specs[i].kind == kP2WPKH || specs[i].kind == kP2WSH {
		got, want := tx.WitnessV0SignatureHash(i, xcore.SigHashType(ht)), refSegwitHash(t, i, code, t.ins[i].value, ht)
		c.Check(bytes.Equal(got, want), "sighash-bip143"+what, "BIP143 digest of input %d, type %x is %x, want %x", i, ht, got, want)
		c.Count("bip143 digest")
	} else {
		got, want := tx.RawSignatureHash(i, xcore.SigHashType(ht)), refLegacyHash(t, i, code, ht)
		c.Check(bytes.Equal(got, want), "sighash-legacy"+what, "legacy digest of input %d of kind %d, type %x is %x, want %x", i, specs[i].kind, ht, got, want)
		c.Count("legacy digest")
	}
}

// otherScript makes the spent script hash of some inputs that of any script, of any length.
// OP_CODESEPARATOR is left out: the engine does not know it.
func otherScript(c *Ctx, s *inSpec, in *rin) {
	if s.kind != kP2SH && s.kind != kP2WSH || !c.P(4) {
		return
	}
	b := []byte{byte(c.U64())}
	switch c.N(4) {
	case 0:
		b = c.Blob(c.Len(40))
	case 1:
		b = c.Bytes(c.Pick(252, 253, 254, 520, 521, 600, 10000))
	case 2:
		b = c.Bytes(c.N(6))
	}
	for i := range b {
		if b[i] == 0xab {
			b[i] = 0xac
		}
	}
	*s = inSpec{kind: s.kind, ht: s.ht}
	in.redeem = b
	in.lock = refLock(1, refHash160(b))
	if s.kind == kP2WSH {
		in.lock = refLock(3, sha256b(b))
	}
}

func c07digest(c *Ctx) {
	nin := c.Range(1, 5)
	nout := c.N(5)
	if c.P(60) {
		nin, nout = c.Pick(252, 253, 260), c.Pick(2, 252, 253)
	} else if c.P(12) {
		nin, nout = c.Range(1, 40), c.N(40)
	} else if c.P(60) {
		nin, nout = c.Range(1, 251), c.N(251)
	}
	t, specs := newTx(c, randKinds(c, nin), nout)
	for i := range specs {
		otherScript(c, &specs[i], &t.ins[i])
	}
	tx, _, _ := libTx(c, t)
	c.Note(func() string { return t.String() })
	for k := 0; k < 4; k++ {
		i := c.N(nin)
		ht := c.hashType()
		if c.P(10) {
			ht = c.U32()
		}
		checkDigest(c, tx, t, specs, i, ht, "")
		c.NT(t.ser(false), i, ht)
	}
	c.Sample("%d inputs, %d outputs", nin, nout)
}

// every hash type byte on every kind of input, with and without a matching output
func c07types(c *Ctx) {
	t, specs := newTx(c, []int{0, 1, 2, 3, 4}, c.Pick(1, 2, 3, 4, 5, 6))
	tx, _, _ := libTx(c, t)
	c.Note(func() string { return t.String() })
	for i := range specs {
		checkDigest(c, tx, t, specs, i, uint32(c.Idx%256), "-types")
		c.NT(t.ser(false), i, c.Idx%256)
	}
}

// digests follow the current content whatever was done before
func c07history(c *Ctx) {
	t, specs := newTx(c, randKinds(c, c.Range(1, 4)), c.Range(0, 4))
	tx, ins, outs := libTx(c, t)
	var trace []string
	c.Note(func() string { return fmt.Sprintf("%v now %s", trace, t.String()) })
	for step := c.Range(3, 12); step > 0; step-- {
		i := c.N(len(t.ins))
		op := c.N(16)
		trace = append(trace, fmt.Sprintf("%d@%d", op, i))
		switch op {
		case 0:
			t.ins[i].seq = c.seq()
			ins[i].Sequence = t.ins[i].seq
		case 1:
			t.ins[i].index = c.U32e()
			ins[i].Index = t.ins[i].index
		case 2:
			t.ins[i].hash = c.Bytes(32)
			ins[i].Hash = t.ins[i].hash
		case 3:
			t.ins[i].value = c.amount()
			ins[i].Value = t.ins[i].value
		case 4:
			t.version = c.U32e()
			tx.SetVersion(t.version)
		case 5:
			t.lock = c.U32e()
			tx.SetLockTime(t.lock)
		case 6:
			if len(outs) > 0 {
				k := c.N(len(outs))
				t.outs[k].value = c.amount()
				outs[k].Value = t.outs[k].value
			}
		case 7:
			if len(outs) > 0 {
				k := c.N(len(outs))
				t.outs[k].script = c.outScript()
				outs[k].Script = t.outs[k].script
			}
		case 8:
			o := rout{c.amount(), c.outScript()}
			t.outs = append(t.outs, o)
			x := xcore.NewTxOut(o.value, o.script)
			outs = append(outs, x)
			tx.AddOutput(x)
		case 9:
			in := rin{hash: c.Hash(32), index: c.U32e(), seq: c.seq(), value: c.amount()}
			s := newSpec(c, c.N(nKinds), &in)
			x, err := xcore.NewTxIn(in.hash, in.index, in.value, in.lock, in.redeem)
			c.Check(err == nil, "newtxin", "%v", err)
			x.Sequence = in.seq
			t.ins, specs, ins = append(t.ins, in), append(specs, s), append(ins, x)
			tx.AddInput(x)
		case 10:
			// another spent output for the same input
			specs[i] = newSpec(c, specs[i].kind, &t.ins[i])
			otherScript(c, &specs[i], &t.ins[i])
			t.ins[i].value = c.amount()
			err := tx.SetTxIn(i, t.ins[i].value, t.ins[i].lock, t.ins[i].redeem)
			c.Check(err == nil, "settxin", "%v", err)
		case 11:
			if len(specs[i].keys) > 0 {
				libSign(c, tx, i, specs[i])
			}
		case 12:
			tx.Serialize()
			tx.SerializeNoWitness()
			tx.ToString()
		case 13:
			tx.Verify()
		case 14: // changed in place
			if k := c.N(len(outs) + 1); k < len(outs) && len(outs[k].Script) > 0 {
				outs[k].Script = dup(outs[k].Script)
				checkDigest(c, tx, t, specs, i, c.hashType(), "-history")
				outs[k].Script[c.N(len(outs[k].Script))] ^= byte(1 + c.N(255))
				t.outs[k].script = dup(outs[k].Script)
			} else {
				ins[i].Hash = dup(ins[i].Hash)
				checkDigest(c, tx, t, specs, i, c.hashType(), "-history")
				ins[i].Hash[c.N(32)] ^= byte(1 + c.N(255))
				t.ins[i].hash = dup(ins[i].Hash)
			}
		default:
			checkDigest(c, tx, t, specs, c.N(len(t.ins)), c.hashType(), "-history")
		}
		checkDigest(c, tx, t, specs, c.N(len(t.ins)), c.hashType(), "-history")
		checkDigest(c, tx, t, specs, i, specs[i].ht, "-history")
	}
	c.NT(t.ser(false))
}

// ---- C08 ----

// checkSigned verifies a signed library transaction in every way the property names.
func checkSigned(c *Ctx, tx *xcore.Transaction, t *rtx, specs []inSpec) {
	c.Check(tx.Verify() == nil, "sign-verify", "a properly signed transaction does not verify: %v", tx.Verify())
	wit := hasWitKind(specs)
	var b []byte
	if wit {
		b = tx.Serialize()
	} else {
		b = tx.SerializeNoWitness()
	}
	got, ok := refParseTx(b, wit)
	c.Check(ok && len(got.ins) == len(t.ins) && len(got.outs) == len(t.outs), "sign-bytes", "the signed bytes do not parse: %s", hx(b))
	c.Note(func() string { return got.String() })
	// only the unlocking data was added
	strip := got.clone()
	want := t.clone()
	for i := range strip.ins {
		strip.ins[i].script, strip.ins[i].witness = nil, nil
		want.ins[i].script, want.ins[i].witness = nil, nil
		got.ins[i].value, got.ins[i].lock, got.ins[i].redeem = t.ins[i].value, t.ins[i].lock, t.ins[i].redeem
	}
	c.Check(bytes.Equal(strip.ser(false), want.ser(false)), "sign-changes", "signing changed the transaction")
	for i, s := range specs {
		in := got.ins[i]
		shape := false
		switch s.kind {
		case kP2PKH, kP2PKHU:
			ops, ok := refParse(in.script)
			pub := ring()[s.keys[0]].comp
			if s.kind == kP2PKHU {
				pub = ring()[s.keys[0]].uncomp
			}
			shape = ok && len(ops) == 2 && bytes.Equal(ops[1].data, pub) && len(in.witness) == 0
		case kP2WPKH:
			shape = len(in.script) == 0 && len(in.witness) == 2 && bytes.Equal(in.witness[1], ring()[s.keys[0]].comp)
		case kP2SH:
			ops, ok := refParse(in.script)
			shape = ok && len(ops) == len(s.signers)+2 && ops[0].op == 0 && bytes.Equal(ops[len(ops)-1].data, in.redeem) && len(in.witness) == 0
		case kP2WSH:
			shape = len(in.script) == 0 && len(in.witness) == len(s.signers)+2 && len(in.witness[0]) == 0 && bytes.Equal(in.witness[len(in.witness)-1], in.redeem)
		}
		c.Check(shape, "sign-shape", "the unlocking data of input %d (kind %d) is not the standard one: %x %x", i, s.kind, in.script, in.witness)
		ok, why := refVerifyInput(got, i)
		c.Check(ok, "sign-independent", "the independent verifier rejects input %d (kind %d, type %x): %s", i, s.kind, s.ht, why)
		c.CountN("inputs signed", 1)
	}
	l, err := libLoad(got, b)
	c.Check(err == nil, "sign-reload", "decoding or restoring the signed transaction fails: %v", err)
	c.Check(l.Verify() == nil, "sign-reverify", "the decoded transaction does not verify: %v", l.Verify())
	c.Check(l.ID() == tx.ID() && bytes.Equal(l.Serialize(), tx.Serialize()), "sign-reencode", "the decoded transaction encodes differently")
	c.Check(l.Verify() == nil && tx.Verify() == nil, "sign-verify-again", "verifying again fails")
	c.NT(b)
}

func c08sign(c *Ctx) {
	t, specs := newTx(c, randKinds(c, c.Range(1, 4)), c.Range(0, 4))
	tx, ins, outs := libTx(c, t)
	c.Note(func() string { return t.String() })
	if c.P(2) { // signed earlier, with other content
		for i := range specs {
			libSign(c, tx, i, specs[i])
		}
		for n := c.Range(1, 3); n > 0; n-- {
			switch c.N(6) {
			case 0:
				t.outs = append(t.outs, rout{c.amount(), c.outScript()})
				outs = append(outs, xcore.NewTxOut(t.outs[len(outs)].value, t.outs[len(outs)].script))
				tx.AddOutput(outs[len(outs)-1])
			case 1:
				if len(outs) > 0 {
					i := c.N(len(outs))
					t.outs[i] = rout{c.amount(), c.outScript()}
					outs[i].Value, outs[i].Script = t.outs[i].value, t.outs[i].script
				}
			case 2:
				t.version = c.U32e()
				tx.SetVersion(t.version)
			case 3:
				t.lock = c.U32e()
				tx.SetLockTime(t.lock)
			case 4:
				i := c.N(len(ins))
				t.ins[i].seq = c.seq()
				ins[i].Sequence = t.ins[i].seq
			case 5:
				in := rin{hash: c.Hash(32), index: c.U32e(), seq: c.seq(), value: c.amount()}
				specs = append(specs, newSpec(c, c.N(nKinds), &in))
				t.ins = append(t.ins, in)
				x, err := xcore.NewTxIn(in.hash, in.index, in.value, in.lock, in.redeem)
				c.Check(err == nil, "newtxin", "NewTxIn of %x: %v", in.lock, err)
				x.Sequence = in.seq
				tx.AddInput(x)
				ins = append(ins, x)
			}
		}
		c.Count("signed again after a change")
	}
	for _, i := range c.Perm(len(specs)) {
		libSign(c, tx, i, specs[i])
		if c.P(4) {
			libSign(c, tx, i, specs[i]) // signing again replaces the signature
		}
		if c.P(4) {
			tx.Serialize()
			tx.Verify()
		}
	}
	checkSigned(c, tx, t, specs)
	c.Sample("%d inputs, %d outputs, %s", len(t.ins), len(t.outs), hx(tx.Serialize()))
}

func c08multisig(c *Ctx) {
	kind := kP2SH + c.Idx%2
	t, specs := newTx(c, []int{kind}, c.Range(0, 2))
	max := 15
	if kind == kP2WSH {
		max = 20
	}
	n := c.Range(1, max)
	m := c.Range(1, n)
	if c.Idx < 8 {
		n = max - c.Idx/4
		m = []int{1, n, n - 1, n/2 + 1}[c.Idx/2%4]
	}
	specs[0].keys, specs[0].signers = nil, nil
	setMultisig(c, &specs[0], &t.ins[0], n, m)
	var pubs [][]byte
	for _, o := range mustOps(t.ins[0].redeem) {
		if len(o.data) > 30 {
			pubs = append(pubs, o.data)
		}
	}
	// the library's own script builder gives the same script
	r, err := xcore.NewPayToMultiSigScript(m, pubs...).GetLockingScriptBytes()
	c.Check(err == nil && bytes.Equal(r, t.ins[0].redeem), "multisig-script", "%d-of-%d script is %x, want %x (%v)", m, n, r, t.ins[0].redeem, err)
	// and its hashes, which addresses are made of
	ms := xcore.NewPayToMultiSigScript(m, pubs...)
	h, err := ms.Hash160()
	c.Check(err == nil && bytes.Equal(h, refHash160(t.ins[0].redeem)), "multisig-hash", "%d-of-%d script %x has Hash160 %x (%v)", m, n, r, h, err)
	h, err = ms.Sha256()
	c.Check(err == nil && bytes.Equal(h, sha256b(t.ins[0].redeem)), "multisig-hash", "%d-of-%d script %x has Sha256 %x (%v)", m, n, r, h, err)
	tx, _, _ := libTx(c, t)
	libSign(c, tx, 0, specs[0])
	checkSigned(c, tx, t, specs)
	c.NT(m, n, kind)
}

func mustOps(s []byte) []rop {
	o, ok := refParse(s)
	if !ok {
		panic("bad script")
	}
	return o
}

// signatures made outside and embedded
func c08embed(c *Ctx) {
	t, specs := newTx(c, randKinds(c, c.Range(1, 3)), c.Range(1, 3))
	tx, _, _ := libTx(c, t)
	c.Note(func() string { return t.String() })
	for i, s := range specs {
		var signs []xcore.PubKeySign
		for _, p := range s.signers {
			k := ring()[s.keys[p]]
			var sig []byte
			var err error
			var h []byte
			ht := xcore.SigHashType(s.ht)
			if s.kind == kP2WPKH || s.kind == kP2WSH {
				sig, err = tx.WitnessSignature(i, ht, k.prv)
				h = tx.WitnessV0SignatureHash(i, ht)
			} else {
				sig, err = tx.RawSignature(i, ht, k.prv)
				h = tx.RawSignatureHash(i, ht)
			}
			c.Check(err == nil, "sign-raw", "%v", err)
			pub := k.comp
			if s.kind == kP2PKHU {
				pub = k.uncomp
			}
			r, x := refEcdsaSign(k.d, h)
			c.Check(bytes.Equal(sig, append(refDER(r, x), byte(s.ht))), "sign-raw", "raw signature is %x", sig)
			signs = append(signs, xcore.PubKeySign{PubKey: pub, Signature: sig})
		}
		if (s.kind == kP2PKH || s.kind == kP2WPKH) && c.P(4) {
			// no signature is not a success
			c.Check(tx.EmbedIdxSignature(i, nil) != nil, "sign-nothing", "embedding no signature in input %d (kind %d) reports success", i, s.kind)
			c.Check(tx.SignIndex(i, true, xcore.SigHashType(s.ht)) != nil, "sign-nothing", "signing input %d (kind %d) with no key reports success", i, s.kind)
		}
		if (s.kind == kP2PKH || s.kind == kP2WPKH) && c.Bool() {
			der, g := guarded(signs[0].Signature[:len(signs[0].Signature)-1], 3)
			err := tx.EmbedIdxEcdsaSignature(i, ring()[s.keys[0]].prv.PubKey(), der, xcore.SigHashType(s.ht))
			c.Check(err == nil && g.ok(), "sign-embed", "embedding: %v, argument intact %v", err, g.ok())
		} else {
			err := tx.EmbedIdxSignature(i, signs)
			c.Check(err == nil, "sign-embed", "%v", err)
		}
	}
	checkSigned(c, tx, t, specs)
}

func c08large(c *Ctx) {
	var kinds []int
	n := c.Pick(252, 253, 256)
	if c.Idx > 1 {
		n = c.Range(7, 80)
	}
	for i := 0; i < n; i++ {
		kinds = append(kinds, c.Pick(kP2PKH, kP2WPKH, kP2PKH, kP2PKHU))
	}
	t, specs := newTx(c, kinds, c.Pick(1, 253, 300))
	tx, _, _ := libTx(c, t)
	for i := range specs {
		libSign(c, tx, i, specs[i])
	}
	checkSigned(c, tx, t, specs)
}

// c08oversize: redeem scripts around the largest push.
func c08oversize(c *Ctx) {
	t, specs := newTx(c, []int{kP2SH}, c.Range(1, 3))
	k := ring()
	s, in := &specs[0], &t.ins[0]
	var pubs [][]byte
	s.keys, s.signers = nil, nil
	n := c.Range(7, 15)
	for i := 0; i < n; i++ {
		j := c.N(len(k))
		s.keys = append(s.keys, j)
		if c.P(3) {
			pubs = append(pubs, k[j].comp)
		} else {
			pubs = append(pubs, k[j].uncomp)
		}
	}
	m := c.Range(1, 3)
	for i := 0; i < m; i++ {
		s.signers = append(s.signers, i)
	}
	in.redeem = multisigScript(m, pubs)
	in.lock = refLock(1, refHash160(in.redeem))
	tx, _, _ := libTx(c, t)
	c.Note(func() string { return t.String() })
	var keys []*xcrypto.PrvKey
	for _, p := range s.signers {
		keys = append(keys, k[s.keys[p]].prv)
	}
	err := tx.SignIndex(0, true, xcore.SigHashType(s.ht), keys...)
	if len(in.redeem) <= 520 {
		c.Check(err == nil, "sign-error", "signing for a redeem script of %d bytes: %v", len(in.redeem), err)
	}
	if len(in.redeem) <= 520 {
		checkSigned(c, tx, t, specs)
		c.Count("large redeem scripts signed")
	} else {
		// no unlocking can push it
		c.Check(tx.Verify() != nil, "sign-oversize", "a spend that pushes %d bytes verifies", len(in.redeem))
		c.Count("redeem scripts too large to spend")
	}
	c.NT(m, in.redeem)
}

// what the builder signs verifies too
func c08builder(c *Ctx) {
	n := c.Range(1, 4)
	t, specs := newTx(c, randKinds(c, n), 0)
	cb := xcore.NewCoinBuilder()
	var total uint64
	for i := range t.ins {
		t.ins[i].value = 10000 + uint64(c.N(100000))
		t.ins[i].seq = 0xffffffff
		total += t.ins[i].value
		cb.AddOutput(hex.EncodeToString(rev(t.ins[i].hash)), t.ins[i].index, t.ins[i].value, hex.EncodeToString(t.ins[i].lock))
	}
	coins := cb.ToCoins()
	b := xcore.NewTransactionBuilder()
	to := c.N(4)
	h := c.Hash(20)
	if to == 3 {
		h = c.Hash(32)
	}
	b.To(newAddr(to, h), total/2)
	t.version, t.lock = 1, 0
	if c.P(3) {
		t.lock = c.U32e()
		b.SetLockTime(t.lock)
	}
	for i, s := range specs {
		if i > 0 {
			b.Then()
		}
		var keys []*xcrypto.PrvKey
		for _, p := range s.signers {
			keys = append(keys, ring()[s.keys[p]].prv)
		}
		b.AddCoin(coins[i]).AddKeys(keys...).SetSigHashType(xcore.SigHashType(s.ht))
		if s.kind == kP2PKHU {
			b.SetPubKeyUncompressed()
		}
		if t.ins[i].redeem != nil {
			b.SetRedeemScript(t.ins[i].redeem)
		}
	}
	ch := c.Hash(20)
	b.SetChange(newAddr(0, ch)).SendFees(uint64(c.N(4000)))
	b.Sign()
	tx, err := b.BuildTransaction()
	c.Check(err == nil, "builder-sign", "building fails: %v", err)
	got, ok := refParseTx(tx.SerializeNoWitness(), false)
	c.Check(ok, "builder-sign", "bytes do not parse")
	t.outs = got.outs
	checkSigned(c, tx, t, specs)
}

// ---- C09 ----

// compareVerdict checks that the library and the independent verifier agree.
func compareVerdict(c *Ctx, t *rtx, what string) bool {
	want, why := refVerifyTx(t)
	err := libVerdict(t)
	c.Note(func() string { return what + " " + t.String() })
	if want {
		c.Check(err == nil, "verify-rejects", "%s: the library rejects a valid spend: %v", what, err)
		c.Count("still valid")
	} else {
		c.Check(err != nil, "verify-accepts", "%s: the library accepts a spend that is not authorised (%s)", what, why)
		c.Count("invalid")
	}
	c.NT(t.ser(t.hasWitness()))
	return want
}

func flipBit(c *Ctx, b []byte) {
	if len(b) > 0 {
		b[c.N(len(b))] ^= 1 << uint(c.N(8))
	}
}

// joinOps puts a script together again.
func joinOps(parts [][]byte) []byte {
	var s []byte
	for _, p := range parts {
		s = append(s, p...)
	}
	return s
}

// tamperInput changes the unlocking data of an input.
func tamperInput(c *Ctx, t *rtx, i int, specs []inSpec) string {
	in := &t.ins[i]
	s := specs[i]
	// the unlocking data as a list of stack items
	var items [][]byte
	wit := s.kind == kP2WPKH || s.kind == kP2WSH
	if wit {
		items = in.witness
	} else {
		for _, o := range mustOps(in.script) {
			items = append(items, append([]byte{}, o.data...))
		}
	}
	put := func() {
		if wit {
			in.witness = items
		} else {
			in.script = nil
			for _, x := range items {
				in.script = append(in.script, plainPush(x)...)
			}
		}
	}
	isSig := func(k int) bool {
		switch s.kind {
		case kP2SH, kP2WSH:
			return k >= 1 && k < len(items)-1
		}
		return k == 0
	}
	var sigs []int
	for k := range items {
		if isSig(k) {
			sigs = append(sigs, k)
		}
	}
	k := sigs[c.N(len(sigs))]
	last := len(items) - 1
	op := c.N(26)
	name := fmt.Sprintf("unlocking %d of kind %d", op, s.kind)
	switch op {
	case 0:
		flipBit(c, items[k])
	case 1: // hash type byte
		items[k][len(items[k])-1] = byte(c.hashType())
	case 2:
		items[k] = nil
	case 3:
		items[k] = items[k][:len(items[k])-1-c.N(3)]
	case 4: // the same signature again
		items[k] = items[sigs[c.N(len(sigs))]]
	case 5: // signature of another key over the same digest
		s2 := s
		s2.keys = append([]int{}, s.keys...)
		for j := range s2.keys {
			s2.keys[j] = (s2.keys[j] + 1 + c.N(30)) % len(ring())
		}
		o := t.clone()
		refSign(o, i, s2)
		if wit {
			items[k] = o.ins[i].witness[k]
		} else {
			items[k] = append([]byte{}, mustOps(o.ins[i].script)[k].data...)
		}
	case 6: // key or redeem script altered
		flipBit(c, items[last])
	case 7:
		items[last] = nil
	case 8: // key of someone else
		items[last] = dup(ring()[c.N(len(ring()))].comp)
	case 9: // the other form of the key
		kk := ring()[s.keys[0]]
		if bytes.Equal(items[last], kk.comp) {
			items[last] = dup(kk.uncomp)
		} else {
			items[last] = dup(kk.comp)
		}
	case 10: // a redeem script that always succeeds
		items[last] = []byte{o1}
	case 11: // reorder
		p := c.Perm(len(items))
		var n [][]byte
		for _, j := range p {
			n = append(n, items[j])
		}
		items = n
	case 12: // drop one
		j := c.N(len(items))
		items = append(items[:j:j], items[j+1:]...)
	case 13: // duplicate one
		j := c.N(len(items))
		items = append(items[:j+1:j+1], items[j:]...)
	case 14: // surplus below
		items = append([][]byte{c.Bytes(c.N(40))}, items...)
	case 15: // surplus on top
		items = append(items, [][]byte{{1}, {}, c.Bytes(c.N(40))}[c.N(3)])
	case 16:
		items = nil
	case 17: // only the redeem script or key
		items = items[last:]
	case 18: // S negated: still a signature, only not low
		r, x, ok := refParseDER(items[k][:len(items[k])-1])
		if ok {
			items[k] = append(refDER(r, new(big.Int).Sub(ecN, x)), items[k][len(items[k])-1])
		}
	case 19: // padded DER
		d := items[k]
		n := append([]byte{}, d[:len(d)-1]...)
		n = append(n, 0)
		n[1]++
		items[k] = append(n, d[len(d)-1])
	case 20: // surplus byte before the hash type
		d := items[k]
		items[k] = append(append(append([]byte{}, d[:len(d)-1]...), byte(c.N(256))), d[len(d)-1])
	case 21: // true and nothing else
		items = [][]byte{{1}}
	case 22: // one signature less
		items = append(items[:k:k], items[k+1:]...)
	case 23: // a whole other input's data
		j := c.N(len(t.ins))
		if t.ins[j].witness != nil {
			items = t.ins[j].witness
		} else if ops, ok := refParse(t.ins[j].script); ok {
			items = nil
			for _, o := range ops {
				items = append(items, o.data)
			}
		}
	case 24: // the dummy
		items[0] = c.Bytes(c.Range(1, 3))
	case 25: // signature over another transaction
		o := t.clone()
		o.lock ^= 1
		refSign(o, i, s)
		if wit {
			items[k] = o.ins[i].witness[k]
		} else {
			items[k] = append([]byte{}, mustOps(o.ins[i].script)[k].data...)
		}
	}
	put()
	// how the data is carried
	switch c.N(14) {
	case 0: // moved to the other place
		if wit {
			in.script = nil
			for _, x := range items {
				in.script = append(in.script, plainPush(x)...)
			}
			if c.Bool() {
				in.witness = nil
			}
			name += " in scriptSig"
		} else {
			in.witness = items
			if c.Bool() {
				in.script = nil
			}
			name += " in witness"
		}
	case 1: // opcodes that manipulate the stack
		tail := [][]byte{{oDUP}, {oDROP}, {o1}, {0}, {o1, oDROP}, {oSWAP}, {o1, oIF}, {oENDIF}, {0, oIF, oENDIF}, {o1, oIF}, {oELSE}, {oHASH160}, {o1, oNOTIF}, {0xff}, {5}, {o1, o1, oADD, oDROP}, {o2DUP}, {oEQUAL}}[c.N(18)]
		if c.Bool() {
			in.script = append(in.script, tail...)
		} else {
			in.script = append(append([]byte{}, tail...), in.script...)
		}
		name += fmt.Sprintf(" with opcodes %x", tail)
	}
	return name
}

// tamperFields changes the transaction around the unlocking data.
func tamperFields(c *Ctx, t *rtx) string {
	i := c.N(len(t.ins))
	op := c.N(18)
	name := fmt.Sprintf("field %d of input %d", op, i)
	switch op {
	case 0:
		t.version ^= 1 << uint(c.N(32))
	case 1:
		t.lock ^= 1 << uint(c.N(32))
	case 2:
		t.ins[i].seq ^= 1 << uint(c.N(32))
	case 3:
		t.ins[i].index ^= 1 << uint(c.N(32))
	case 4:
		flipBit(c, t.ins[i].hash)
	case 5:
		t.ins[i].value ^= 1 << uint(c.N(50))
	case 6, 7:
		if len(t.outs) > 0 {
			k := c.N(len(t.outs))
			if op == 6 {
				t.outs[k].value ^= 1 << uint(c.N(64))
			} else {
				if c.Bool() {
					flipBit(c, t.outs[k].script)
				} else {
					t.outs[k].script = c.outScript()
				}
			}
		}
	case 8:
		t.outs = append(t.outs, rout{c.amount(), c.outScript()})
	case 9:
		if len(t.outs) > 0 {
			k := c.N(len(t.outs))
			t.outs = append(t.outs[:k:k], t.outs[k+1:]...)
		}
	case 10:
		if len(t.outs) > 1 {
			a, b := c.N(len(t.outs)), c.N(len(t.outs))
			t.outs[a], t.outs[b] = t.outs[b], t.outs[a]
		}
	case 11: // another, properly restored input joins
		in := rin{hash: c.Hash(32), index: c.U32e(), seq: c.seq(), value: c.amount()}
		s := newSpec(c, c.N(3), &in)
		j := c.N(len(t.ins) + 1)
		t.ins = append(t.ins[:j:j], append([]rin{in}, t.ins[j:]...)...)
		refSign(t, j, s)
	case 12:
		if len(t.ins) > 1 {
			t.ins = append(t.ins[:i:i], t.ins[i+1:]...)
		}
	case 13:
		j := c.N(len(t.ins))
		t.ins[i], t.ins[j] = t.ins[j], t.ins[i]
	case 14: // the unlocking data of two inputs exchanged
		j := c.N(len(t.ins))
		t.ins[i].script, t.ins[j].script = t.ins[j].script, t.ins[i].script
		t.ins[i].witness, t.ins[j].witness = t.ins[j].witness, t.ins[i].witness
	case 15: // the spent output is another one
		t.ins[i].lock = append([]byte{}, t.ins[i].lock...)
		k, h := refClassify(t.ins[i].lock)
		h = append([]byte{}, h...)
		h[c.N(len(h))] ^= 1 << uint(c.N(8))
		t.ins[i].lock = refLock(k, h)
		if k == 3 {
			t.ins[i].redeem = append([]byte{}, t.ins[i].redeem...)
		}
	case 16: // of another kind with the same hash
		k, h := refClassify(t.ins[i].lock)
		if k == 3 {
			return name
		}
		t.ins[i].lock = refLock((k+1+c.N(2))%3, h)
	case 17:
		t.outs = append([]rout{{c.amount(), c.outScript()}}, t.outs...)
	}
	return name
}

func signedTx(c *Ctx, maxIn int) (*rtx, []inSpec) {
	t, specs := newTx(c, randKinds(c, c.Range(1, maxIn)), c.Range(0, 3))
	for i, s := range specs {
		refSign(t, i, s)
	}
	return t, specs
}

func c09tamper(c *Ctx) {
	t, specs := signedTx(c, 2)
	i := c.N(len(specs))
	what := tamperInput(c, t, i, specs)
	if c.P(12) {
		what += " " + tamperFields(c, t)
	}
	compareVerdict(c, t, what)
	c.Sample("%s: %s", what, hx(t.ser(t.hasWitness())))
}

func c09fields(c *Ctx) {
	t, _ := signedTx(c, 3)
	what := tamperFields(c, t)
	if c.P(8) {
		what += " " + tamperFields(c, t)
	}
	compareVerdict(c, t, what)
}

// any arrangement of signatures and dummies in a multisig spend

// c09many has up to some thousand inputs, most of them free to take, a few signed, at most one or two of them not authorised.
func c09many(c *Ctx) {
	n := c.Pick(17, 65, 101, 129, 200, 253, 257, 300, 513, 1025, c.Range(10, 2000))
	t := &rtx{version: c.U32e(), lock: c.U32e()}
	specs := map[int]inSpec{}
	id := c.Bytes(32)
	free := func(in *rin, ok bool) { // a script without signatures
		in.redeem = append(refPush(c.Bytes(4)), oDROP, o1)
		if !ok {
			in.redeem[len(in.redeem)-1] = 0
		}
		if c.Bool() {
			in.lock = refLock(1, refHash160(in.redeem))
			in.script, in.witness = refPush(in.redeem), nil
		} else {
			in.lock = refLock(3, sha256b(in.redeem))
			in.script, in.witness = nil, [][]byte{in.redeem}
		}
	}
	for i := 0; i < n; i++ {
		in := rin{hash: id, index: uint32(i), seq: c.seq(), value: c.amount()}
		if c.P(n/4 + 1) {
			specs[i] = newSpec(c, c.Pick(kP2PKH, kP2WPKH), &in)
			in.redeem = nil
		} else {
			free(&in, true)
		}
		t.ins = append(t.ins, in)
	}
	for i := c.Pick(0, 1, 2, 3, 3, 300); i > 0; i-- {
		t.outs = append(t.outs, rout{c.amount(), refLock(0, c.Bytes(20))})
	}
	var order []int
	for i := range t.ins {
		if s, ok := specs[i]; ok {
			refSign(t, i, s)
			order = append(order, i)
		}
	}
	at := c.Pick(n-1, n-1, n/2, c.N(n), c.N(n))
	what := fmt.Sprintf("%d inputs", n)
	switch mode := c.N(7); {
	case mode == 0:
		what += ", all authorised"
	case mode == 1:
		free(&t.ins[at], false)
		what += fmt.Sprintf(", input %d false", at)
	case mode == 2: // another script than the one committed to
		lock := t.ins[at].lock
		free(&t.ins[at], true)
		t.ins[at].lock = lock
		what += fmt.Sprintf(", input %d with another script", at)
	case mode == 3:
		t.ins[at].script, t.ins[at].witness = nil, nil
		what += fmt.Sprintf(", input %d without unlocking data", at)
	case len(order) > 0 && mode == 4:
		at = order[len(order)-1]
		t.ins[at].script, t.ins[at].witness = dup(t.ins[at].script), append([][]byte{}, t.ins[at].witness...)
		if len(t.ins[at].script) > 0 {
			t.ins[at].script[c.Range(5, 60)] ^= 1 << uint(c.N(8))
		} else {
			t.ins[at].witness[0] = c.mutate(t.ins[at].witness[0])
		}
		what += fmt.Sprintf(", signature of input %d changed", at)
	case len(order) > 0 && mode == 5:
		t.ins[at].seq ^= 1
		what += fmt.Sprintf(", sequence of input %d changed", at)
	default:
		if k := len(t.outs); k > 0 {
			t.outs[c.Pick(k-1, c.N(k))].value ^= 1 << uint(c.N(30))
			what += ", an output changed"
		}
	}
	if compareVerdict(c, t, what) {
		c.Count("many inputs accepted")
	} else {
		c.Count("many inputs refused")
	}
}
func c09multisig(c *Ctx) {
	kind := kP2SH + c.N(2)
	t, specs := newTx(c, []int{kind}, c.Range(0, 2))
	s := specs[0]
	s.keys, s.signers = nil, nil
	n := c.Range(1, 4)
	m := c.Range(1, n)
	setMultisig(c, &s, &t.ins[0], n, m)
	if c.P(4) { // a threshold of zero or other odd scripts
		m = c.Pick(0, 0, n+1, n)
		var pubs [][]byte
		for _, k := range s.keys {
			pubs = append(pubs, ring()[k].comp)
		}
		switch c.N(3) {
		case 0:
			pubs = pubs[:c.N(len(pubs)+1)]
		case 1:
			pubs[c.N(len(pubs))] = c.Bytes(c.Pick(0, 1, 33, 65))
		}
		t.ins[0].redeem = multisigScript(m, pubs)
		if kind == kP2SH {
			t.ins[0].lock = refLock(1, refHash160(t.ins[0].redeem))
		} else {
			t.ins[0].lock = refLock(3, sha256b(t.ins[0].redeem))
		}
	}
	sign := func(pos int, ht uint32) []byte {
		var h []byte
		if kind == kP2SH {
			h = refLegacyHash(t, 0, t.ins[0].redeem, ht)
		} else {
			h = refSegwitHash(t, 0, t.ins[0].redeem, t.ins[0].value, ht)
		}
		r, x := refEcdsaSign(ring()[s.keys[pos]].d, h)
		return append(refDER(r, x), byte(ht))
	}
	items := [][]byte{nil}
	var poss []int
	for k := 0; k < m; k++ {
		poss = append(poss, c.N(n))
	}
	if c.Bool() { // ascending, as they should be
		for a := range poss {
			for b := a + 1; b < len(poss); b++ {
				if poss[b] < poss[a] {
					poss[a], poss[b] = poss[b], poss[a]
				}
			}
		}
	}
	if c.P(5) && len(poss) > 0 {
		poss = poss[1:]
	}
	if c.P(8) {
		poss = append(poss, c.N(n))
	}
	for _, p := range poss {
		ht := c.hashType()
		x := sign(p, ht)
		switch c.N(12) {
		case 0:
			x = nil
		case 1:
			flipBit(c, x)
		}
		items = append(items, x)
	}
	if c.P(15) {
		items = items[1:]
	}
	items = append(items, t.ins[0].redeem)
	if kind == kP2WSH {
		t.ins[0].witness = items
	} else {
		t.ins[0].script = nil
		for _, x := range items {
			t.ins[0].script = append(t.ins[0].script, refPush(x)...)
		}
	}
	if compareVerdict(c, t, fmt.Sprintf("%d-of-%d signed by %v", m, n, poss)) {
		c.Count("multisig accepted")
	}
}

// arbitrary redeem and witness scripts: conditionals, arithmetic, empty results, OP_RETURN, bad signatures, limits
func c09script(c *Ctx) {
	kind := kP2SH + c.N(2)
	t, _ := newTx(c, []int{kP2PKH}, c.Range(1, 2))
	in := &t.ins[0]
	k := ring()[c.N(len(ring()))]
	v := &refVM{check: func(sig, pub []byte) bool { return false }}
	var items [][]byte
	for n := c.N(4); n > 0; n-- {
		x := c.stackItem()
		items = append(items, x)
		v.stack = append(v.stack, x)
	}
	var script []byte
	what := ""
	switch c.N(10) {
	case 0, 1, 2, 3:
		what = "live script"
		script = c.live(v, c.Range(0, 6))
	case 4:
		what = "nothing left"
		script = [][]byte{nil, {oDROP}, {o1, oDROP}, {o1, oRETURN}, {oRETURN, o1}, {0, oIF, oRETURN, oENDIF, o1}, {oDUP, oEQVERIFY}}[c.N(7)]
		if c.Bool() {
			items = [][]byte{{1}}
		}
	case 5: // a malformed signature whose result is thrown away
		what = "ignored signature"
		script = joinOps([][]byte{refPush(k.comp), {oCHECKSIG, oDROP, o1}})
		items = [][]byte{c.Bytes(c.Pick(0, 1, 8, 9, 71, 72, 73, 74))}
	case 6:
		what = "ignored DER signature"
		script = joinOps([][]byte{refPush(k.comp), {oCHECKSIG, oNOTIF, o1, oENDIF}})
		items = [][]byte{append(refDER(new(big.Int).SetBytes(c.Bytes(c.Pick(0, 1, 32, 33, 34))), new(big.Int).SetBytes(c.Bytes(c.Pick(1, 32, 33)))), 1)}
		if c.Bool() {
			d := items[0]
			switch c.N(5) {
			case 0:
				d[c.N(len(d))] ^= 1 << uint(c.N(8))
			case 1:
				d[1]++
			case 2:
				items[0] = append(d, 1)
			case 3: // negative R
				d[4] |= 0x80
			case 4:
				items[0] = append([]byte{0x30, d[1] + 1, 2, d[3] + 1, 0}, d[4:]...)
			}
		}
	case 7:
		what = "limits"
		n := c.Pick(519, 520, 521)
		items = [][]byte{c.Bytes(n)}
		script = []byte{oDROP, o1}
		if c.Bool() {
			script = append(bytes.Repeat([]byte{o1, oDROP}, c.Pick(100, 199, 200, 201)), oDROP, o1)
			items = [][]byte{{1}}
		}
	case 8:
		what = "script size"
		script = joinOps([][]byte{bytes.Repeat(refPush(append([]byte{7}, c.Bytes(74)...)), c.Pick(6, 131, 132)), bytes.Repeat([]byte{0}, c.N(60)), {o1}})
		for pops := 0; pops < 150; pops++ {
			script = append(script, oDROP)
		}
		script = append(script, o1)
		items = nil
	case 9: // pay-to-script-hash of a witness program or something like it
		what = "witness program inside"
		script = refLock(2, c.Bytes(20))
		switch c.N(8) {
		case 0:
			script = refLock(2, refHash160(k.comp))
		case 1:
			script = refLock(3, sha256b([]byte{o1}))
		case 2:
			script = append([]byte{o1}, script[1:]...) // a later version
		case 3:
			script = append([]byte{0}, refPush(c.Bytes(c.Pick(19, 21, 31, 33, 2, 40)))...)
		case 4:
			script = append(script, []byte{oDROP, 0, oDUP, o1}[c.N(4)])
		}
		if c.Bool() {
			items = nil
		}
	}
	in.redeem = script
	if kind == kP2SH {
		in.lock = refLock(1, refHash160(script))
	} else {
		in.lock = refLock(3, sha256b(script))
	}
	items = append(items, dup(script))
	if kind == kP2WSH {
		in.witness = items
	} else {
		in.script = nil
		for _, x := range items {
			in.script = append(in.script, c.push(x)...)
		}
	}
	if compareVerdict(c, t, what) {
		c.Count("script accepted: " + what)
	}
}

// contract scripts under pay-to-script-hash and witness script hash
func c09contract(c *Ctx) {
	kind := kP2SH + c.N(2)
	t, _ := newTx(c, []int{kP2PKH}, c.Range(1, 2))
	in := &t.ins[0]
	k := ring()
	a, b := c.N(len(k)), c.N(len(k))
	secret := c.Bytes(c.Pick(1, 16, 32, 80))
	var script []byte
	cat := func(parts ...[]byte) { script = joinOps(parts) }
	tmpl := c.N(10)
	switch tmpl {
	case 0: // hash lock
		cat([]byte{oHASH160}, refPush(refHash160(secret)), []byte{oEQVERIFY}, refPush(k[a].comp), []byte{oCHECKSIG})
	case 1: // either a or b with the secret
		cat([]byte{oIF}, refPush(k[a].comp), []byte{oCSVERIFY, oELSE, oHASH160}, refPush(refHash160(secret)), []byte{oEQVERIFY}, refPush(k[b].comp), []byte{oCSVERIFY, oENDIF, o1})
	case 2: // both
		cat(refPush(k[a].comp), []byte{oCSVERIFY}, refPush(k[b].comp), []byte{oCHECKSIG})
	case 3: // multisig then a key
		cat([]byte{o1}, refPush(k[a].comp), refPush(k[b].comp), []byte{o1 + 1, oCMSVERIFY}, refPush(k[a].comp), []byte{oCHECKSIG})
	case 4: // size check
		cat([]byte{oSIZE}, refPush(refNumEncode(int64(len(secret)))), []byte{oEQVERIFY, oHASH160}, refPush(refHash160(secret)), []byte{oEQVERIFY}, refPush(k[a].comp), []byte{oCHECKSIG})
	case 5: // NOTIF
		cat([]byte{oNOTIF}, refPush(k[a].comp), []byte{oELSE}, refPush(k[b].comp), []byte{oENDIF, oCHECKSIG})
	case 6: // sum
		cat([]byte{oADD, o1 + 4, oEQVERIFY}, refPush(k[a].comp), []byte{oCHECKSIG})
	case 7: // only a key
		cat(refPush(k[a].uncomp), []byte{oCHECKSIG})
	case 8: // checksig that must fail
		cat(refPush(k[a].comp), []byte{oCHECKSIG, oNOTIF, o1, oELSE, 0, oENDIF})
	case 9: // multisig with stack work
		cat([]byte{oDUP, oHASH160}, refPush(refHash160(secret)), []byte{oEQVERIFY, oDROP, o1 + 1}, refPush(k[a].comp), refPush(k[b].comp), []byte{o1 + 1, oCMS})
	}
	in.redeem = script
	if kind == kP2SH {
		in.lock = refLock(1, refHash160(script))
	} else {
		in.lock = refLock(3, sha256b(script))
	}
	sign := func(key int) []byte {
		ht := c.hashType()
		var h []byte
		if kind == kP2SH {
			h = refLegacyHash(t, 0, script, ht)
		} else {
			h = refSegwitHash(t, 0, script, in.value, ht)
		}
		r, x := refEcdsaSign(k[key].d, h)
		return append(refDER(r, x), byte(ht))
	}
	var items [][]byte
	switch tmpl {
	case 0, 4:
		items = [][]byte{sign(a), secret}
	case 1:
		if c.Bool() {
			items = [][]byte{sign(a), {1}}
		} else {
			items = [][]byte{sign(b), secret, nil}
		}
	case 2:
		items = [][]byte{sign(b), sign(a)}
	case 3:
		items = [][]byte{sign(a), nil, sign([]int{a, b}[c.N(2)])}
	case 5:
		if c.Bool() {
			items = [][]byte{sign(a), nil}
		} else {
			items = [][]byte{sign(b), {1}}
		}
	case 6:
		x := int64(c.N(300) - 150)
		items = [][]byte{sign(a), refNumEncode(x), refNumEncode(5 - x)}
	case 7:
		items = [][]byte{sign(a)}
	case 8:
		items = [][]byte{[][]byte{nil, sign(b), sign(a), c.Bytes(9)}[c.N(4)]}
	case 9:
		items = [][]byte{nil, sign(a), sign(b), secret}
	}
	what := fmt.Sprintf("contract %d", tmpl)
	if !c.P(3) {
		op := c.N(9)
		j := c.N(len(items))
		what += fmt.Sprintf(" changed %d at %d", op, j)
		switch op {
		case 0:
			items[j] = append([]byte{}, items[j]...)
			if len(items[j]) == 0 {
				items[j] = []byte{byte(c.N(256))}
			} else {
				flipBit(c, items[j])
			}
		case 1:
			items = append(items[:j:j], items[j+1:]...)
		case 2:
			items = append(items[:j:j], append([][]byte{c.Bytes(c.N(3))}, items[j:]...)...)
		case 3:
			items[j] = [][]byte{nil, {0}, {1}, {2}, {0x80}, {1, 0}, {0, 0}}[c.N(7)]
		case 4:
			p := c.Perm(len(items))
			var n [][]byte
			for _, q := range p {
				n = append(n, items[q])
			}
			items = n
		case 5:
			items[j] = append(append([]byte{}, items[j]...), 0)
		case 6:
			items = append([][]byte{{1}}, items...)
		case 7:
			items[j] = sign(c.N(len(k)))
		case 8:
			items = append(items, []byte{1})
		}
	}
	items = append(items, script)
	if kind == kP2WSH {
		in.witness = items
	} else {
		in.script = nil
		for _, x := range items {
			in.script = append(in.script, plainPush(x)...)
		}
	}
	if compareVerdict(c, t, what) {
		c.Count("contract accepted")
	}
}

// changes to a signed object (without going through bytes)
func c09object(c *Ctx) {
	t, specs := newTx(c, randKinds(c, c.Range(1, 3)), c.Range(1, 3))
	tx, ins, outs := libTx(c, t)
	for i, s := range specs {
		refSign(t, i, s)
		libSign(c, tx, i, s)
	}
	if err := tx.Verify(); err != nil {
		c.Fail("sign-verify", "a signed transaction does not verify: %v: specs %+v: %s", err, specs, t.String())
	}
	i := c.N(len(ins))
	op := c.N(9)
	c.Note(func() string { return fmt.Sprintf("change %d of input %d: %s", op, i, t.String()) })
	switch op {
	case 0:
		t.ins[i].seq ^= 1 << uint(c.N(32))
		ins[i].Sequence = t.ins[i].seq
	case 1:
		t.ins[i].value++
		ins[i].Value = t.ins[i].value
	case 2:
		t.ins[i].index++
		ins[i].Index = t.ins[i].index
	case 3:
		k := c.N(len(outs))
		t.outs[k].value ^= 1 << uint(c.N(40))
		outs[k].Value = t.outs[k].value
	case 4:
		k := c.N(len(outs))
		t.outs[k].script = c.outScript()
		outs[k].Script = t.outs[k].script
	case 5:
		t.lock ^= 1
		tx.SetLockTime(t.lock)
	case 6:
		t.version ^= 1
		tx.SetVersion(t.version)
	case 7:
		o := rout{c.amount(), c.outScript()}
		t.outs = append(t.outs, o)
		tx.AddOutput(xcore.NewTxOut(o.value, o.script))
	case 8: // an input nobody signed
		in := rin{hash: c.Bytes(32), index: 1, seq: 0xffffffff, value: 5}
		newSpec(c, c.N(nKinds), &in)
		x, err := xcore.NewTxIn(in.hash, in.index, in.value, in.lock, in.redeem)
		c.Check(err == nil, "newtxin", "%v", err)
		t.ins = append(t.ins, in)
		tx.AddInput(x)
	}
	want, why := refVerifyTx(t)
	err := tx.Verify()
	if want {
		c.Check(err == nil, "verify-rejects", "the library rejects a valid spend: %v", err)
		c.Count("still valid")
	} else {
		c.Check(err != nil, "verify-accepts", "the library accepts a spend that is not authorised (%s)", why)
		c.Count("invalid")
	}
	c.NT(t.ser(t.hasWitness()))
}
