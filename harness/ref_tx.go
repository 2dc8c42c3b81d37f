package main

import (
	"bytes"
	"math/big"
)

type rin struct {
	hash    []byte // internal byte order
	index   uint32
	script  []byte
	seq     uint32
	witness [][]byte
	// the spent output
	value  uint64
	lock   []byte
	redeem []byte // of pay-to-script-hash and witness script hash
}

type rout struct {
	value  uint64
	script []byte
}

type rtx struct {
	version, lock uint32
	ins           []rin
	outs          []rout
}

func (t *rtx) hasWitness() bool {
	for _, in := range t.ins {
		if len(in.witness) > 0 {
			return true
		}
	}
	return false
}

func (t *rtx) ser(wit bool) []byte {
	w := &wbuf{}
	w.u32(t.version)
	if wit {
		w.raw([]byte{0, 1})
	}
	w.varint(uint64(len(t.ins)))
	for _, in := range t.ins {
		w.raw(in.hash)
		w.u32(in.index)
		w.bytes(in.script)
		w.u32(in.seq)
	}
	w.varint(uint64(len(t.outs)))
	for _, o := range t.outs {
		w.u64(o.value)
		w.bytes(o.script)
	}
	if wit {
		for _, in := range t.ins {
			w.varint(uint64(len(in.witness)))
			for _, x := range in.witness {
				w.bytes(x)
			}
		}
	}
	w.u32(t.lock)
	return w.b
}

// refParseTx reads a transaction; the form is told by the caller.
func refParseTx(b []byte, wit bool) (*rtx, bool) {
	r := &rbuf{b: b}
	t := &rtx{}
	t.version = r.u32()
	if wit {
		m := r.raw(2)
		if r.bad || m[0] != 0 || m[1] != 1 {
			return nil, false
		}
	}
	n := r.varint()
	for i := uint64(0); i < n && !r.bad; i++ {
		var in rin
		in.hash = r.raw(32)
		in.index = r.u32()
		in.script = r.bytes()
		in.seq = r.u32()
		t.ins = append(t.ins, in)
	}
	n = r.varint()
	for i := uint64(0); i < n && !r.bad; i++ {
		var o rout
		o.value = r.u64()
		o.script = r.bytes()
		t.outs = append(t.outs, o)
	}
	if wit {
		for i := range t.ins {
			n = r.varint()
			for k := uint64(0); k < n && !r.bad; k++ {
				t.ins[i].witness = append(t.ins[i].witness, r.bytes())
			}
		}
	}
	t.lock = r.u32()
	return t, !r.bad
}

func (t *rtx) clone() *rtx {
	n := &rtx{version: t.version, lock: t.lock}
	cp := func(b []byte) []byte {
		if b == nil {
			return nil
		}
		return append([]byte{}, b...)
	}
	for _, in := range t.ins {
		x := in
		x.hash, x.script, x.lock, x.redeem = cp(in.hash), cp(in.script), cp(in.lock), cp(in.redeem)
		x.witness = nil
		for _, y := range in.witness {
			x.witness = append(x.witness, append([]byte{}, y...))
		}
		n.ins = append(n.ins, x)
	}
	for _, o := range t.outs {
		n.outs = append(n.outs, rout{o.value, cp(o.script)})
	}
	return n
}

// refLegacyHash is the original signature hash: a modified copy of the transaction is serialised.
func refLegacyHash(t *rtx, idx int, code []byte, ht uint32) []byte {
	one := append([]byte{1}, make([]byte, 31)...)
	if idx >= len(t.ins) {
		return one
	}
	if ht&0x1f == 3 && idx >= len(t.outs) {
		return one
	}
	m := t.clone()
	for i := range m.ins {
		m.ins[i].script = nil
	}
	m.ins[idx].script = code
	switch ht & 0x1f {
	case 2:
		m.outs = nil
		for i := range m.ins {
			if i != idx {
				m.ins[i].seq = 0
			}
		}
	case 3:
		m.outs = m.outs[:idx+1]
		for i := 0; i < idx; i++ {
			m.outs[i] = rout{^uint64(0), nil}
		}
		for i := range m.ins {
			if i != idx {
				m.ins[i].seq = 0
			}
		}
	}
	if ht&0x80 != 0 {
		m.ins = []rin{m.ins[idx]}
	}
	w := &wbuf{b: m.ser(false)}
	w.u32(ht)
	return sha256d(w.b)
}

func refSegwitHash(t *rtx, idx int, code []byte, value uint64, ht uint32) []byte {
	zero := make([]byte, 32)
	prevouts, seqs, outs := zero, zero, zero
	base := ht & 0x1f
	if ht&0x80 == 0 {
		w := &wbuf{}
		for _, in := range t.ins {
			w.raw(in.hash)
			w.u32(in.index)
		}
		prevouts = sha256d(w.b)
		if base != 2 && base != 3 {
			w := &wbuf{}
			for _, in := range t.ins {
				w.u32(in.seq)
			}
			seqs = sha256d(w.b)
		}
	}
	one := func(o rout, w *wbuf) {
		w.u64(o.value)
		w.bytes(o.script)
	}
	if base == 3 {
		if idx < len(t.outs) {
			w := &wbuf{}
			one(t.outs[idx], w)
			outs = sha256d(w.b)
		}
	} else if base != 2 {
		w := &wbuf{}
		for _, o := range t.outs {
			one(o, w)
		}
		outs = sha256d(w.b)
	}
	w := &wbuf{}
	w.u32(t.version)
	w.raw(prevouts)
	w.raw(seqs)
	w.raw(t.ins[idx].hash)
	w.u32(t.ins[idx].index)
	w.bytes(code)
	w.u64(value)
	w.u32(t.ins[idx].seq)
	w.raw(outs)
	w.u32(t.lock)
	w.u32(ht)
	return sha256d(w.b)
}

// sigOK decides an ECDSA signature with its hash type byte under an encoded key.
func sigOK(sig, pub []byte, hash func(ht uint32) []byte) bool {
	if len(sig) == 0 {
		return false
	}
	P, ok := refParsePub(pub)
	if !ok {
		return false
	}
	r, s, ok := refParseDER(sig[:len(sig)-1])
	if !ok {
		return false
	}
	return refEcdsaVerify(P, hash(uint32(sig[len(sig)-1])), r, s)
}

// bip66 is the strict encoding rule for signatures with their hash type byte.
func bip66(sig []byte) bool {
	n := len(sig)
	if n < 9 || n > 73 || sig[0] != 0x30 || int(sig[1]) != n-3 {
		return false
	}
	lr := int(sig[3])
	if 5+lr >= n {
		return false
	}
	ls := int(sig[5+lr])
	if lr+ls+7 != n {
		return false
	}
	num := func(at, l int) bool {
		if sig[at-2] != 2 || l == 0 || sig[at]&0x80 != 0 {
			return false
		}
		return !(l > 1 && sig[at] == 0 && sig[at+1]&0x80 == 0)
	}
	return num(4, lr) && num(6+lr, ls)
}

// refVerifyInput decides one input with the outputs being spent as noted in the transaction.
func refVerifyInput(t *rtx, idx int) (bool, string) {
	in := t.ins[idx]
	if kind, h := refClassify(in.lock); kind == 2 || kind == 3 {
		if len(in.script) != 0 {
			return false, "scriptSig of a witness program not empty"
		}
		return refVerifyWitness(t, idx, kind, h, in.witness)
	}
	vm := &refVM{sigEnc: bip66}
	code := in.lock
	vm.check = func(sig, pub []byte) bool {
		return sigOK(sig, pub, func(ht uint32) []byte { return refLegacyHash(t, idx, code, ht) })
	}
	if refIsP2SH(in.lock) {
		// the script code of the signatures is the script that is pushed last
		ops, ok := refParse(in.script)
		if ok && len(ops) > 0 {
			code = ops[len(ops)-1].data
			if kind, _ := refClassify(code); kind == 2 || kind == 3 {
				return false, "nested witness"
			}
		}
	}
	if !vm.verify(in.script, in.lock) {
		return false, vm.why
	}
	return true, ""
}

func refVerifyWitness(t *rtx, idx, kind int, prog []byte, wit [][]byte) (bool, string) {
	var code []byte
	var st [][]byte
	if kind == 2 {
		if len(wit) != 2 {
			return false, "witness has not two items"
		}
		code = refLock(0, prog)
		st = wit
	} else {
		if len(wit) == 0 {
			return false, "witness is empty"
		}
		code = wit[len(wit)-1]
		if !bytes.Equal(sha256b(code), prog) {
			return false, "witness script does not match"
		}
		st = wit[:len(wit)-1]
	}
	vm := &refVM{sigEnc: bip66}
	for _, x := range st {
		if len(x) > 520 {
			return false, "witness item of more than 520 bytes"
		}
	}
	vm.check = func(sig, pub []byte) bool {
		return sigOK(sig, pub, func(ht uint32) []byte { return refSegwitHash(t, idx, code, t.ins[idx].value, ht) })
	}
	vm.stack = append([][]byte{}, st...)
	if !vm.eval(code) {
		return false, vm.why
	}
	if len(vm.stack) != 1 {
		return false, "stack not clean"
	}
	if !vm.final() {
		return false, vm.why
	}
	return true, ""
}

func refVerifyTx(t *rtx) (bool, string) {
	for i := range t.ins {
		if ok, why := refVerifyInput(t, i); !ok {
			return false, why
		}
	}
	return true, ""
}

var _ = big.NewInt
