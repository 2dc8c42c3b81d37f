package main

import (
	"encoding/hex"
	"errors"
	"fmt"
	"runtime"
	"strings"

	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcore/bip39"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xerror"
	"github.com/keyfuse/tokucore/xvm"
)

func init() {
	register(&Prop{
		ID:   "C33",
		Rule: "errors are made from the library's and from random tables with known, unknown and mismatched codes and values and compared with the formatted entry, in every printed form, before and after more errors are made; the builder, transactions and addresses are given requests with exactly one thing wrong, at every position, and the code and values of the answer are compared with the thing that is wrong; non-trivial: distinct errors",
		Kinds: []Kind{
			{Name: "made", N: 20000, TN: 300000, Run: c33made},
			{Name: "table", N: 1, TN: 1, Run: c33table},
			{Name: "builder", N: 15000, TN: 200000, Run: c33builder},
			{Name: "tx", N: 1500, TN: 20000, Run: c33tx},
			{Name: "verify", N: 800, TN: 12000, Run: c33verify},
			{Name: "address", N: 20000, TN: 300000, Run: c33address},
			{Name: "text", N: 3000, TN: 40000, Run: c33text},
		},
	})
}

// one error entry as the check knows it.
type errEntry struct {
	num        int
	state, msg string
}

func tableOf(t map[int]*xerror.Error) map[int]errEntry {
	m := map[int]errEntry{}
	for k, e := range t {
		m[k] = errEntry{e.Num, e.State, e.Message}
	}
	return m
}

// the libraries' tables when the program starts.
var (
	coreErrors = tableOf(xcore.Errors)
	vmErrors   = tableOf(xvm.Errors)
	baseErrors = tableOf(xerror.Errors)
)

func sameTable(c *Ctx, t map[int]*xerror.Error, want map[int]errEntry, what string) {
	c.Check(len(t) == len(want), "error-table", "the %s table has %d entries, had %d", what, len(t), len(want))
	for k, w := range want {
		e := t[k]
		c.Check(e != nil && (errEntry{e.Num, e.State, e.Message}) == w, "error-table", "entry %d of the %s table is %v, was %v", k, what, e, w)
	}
}

//go:noinline
func c33raise(t map[int]*xerror.Error, n int, args ...interface{}) *xerror.Error {
	e := xerror.NewError(t, n, args...)
	runtime.KeepAlive(t)
	return e
}

func c33made(c *Ctx) {
	t := xcore.Errors
	what := "core"
	switch c.N(4) {
	case 0:
		t, what = xvm.Errors, "vm"
	case 1, 2:
		t, what = map[int]*xerror.Error{}, "random"
		for i := c.N(6); i >= 0; i-- {
			msg := ""
			for j := c.N(5); j > 0; j-- {
				msg += []string{"[%v]", "[%x]", "[%d]", ".word", "100%%", "[%s]", "[%5d]", "é", "[%q]"}[c.N(9)]
			}
			k := c.Pick(c.N(20), -c.N(20), c.N(1<<30), xerror.ER_UNKNOWN)
			t[k] = &xerror.Error{Num: k, State: fmt.Sprintf("S%d", c.N(100)), Message: msg}
			if c.P(3) {
				t[k].Num = c.N(5000)
			}
			if c.P(5) {
				t[k].State = "%d"
			}
		}
	}
	was := tableOf(t)
	var keys []int
	for k := range was {
		keys = append(keys, k)
	}
	// the order of a map is not the seed's
	for i := range keys {
		for j := i; j > 0 && keys[j] < keys[j-1]; j-- {
			keys[j], keys[j-1] = keys[j-1], keys[j]
		}
	}
	type made struct {
		e    *xerror.Error
		w    errEntry
		long string
	}
	var all []made
	look := func(m made, when string) {
		c.Check(m.e.Num == m.w.num && m.e.State == m.w.state && m.e.Message == m.w.msg, "error-values",
			"%s the error is %d %q %q, expected %d %q %q", when, m.e.Num, m.e.State, m.e.Message, m.w.num, m.w.state, m.w.msg)
		text := m.e.Error()
		short := fmt.Sprintf("%v", m.e)
		c.Check(text == short, "error-text", "Error gives %q, %%v gives %q", text, short)
		c.Check(fmt.Sprintf("%s", m.e) == text && fmt.Sprintf("%q", m.e) == fmt.Sprintf("%q", text), "error-verb", "printed with %%s as %q, with %%q as %s, the text is %q",
			fmt.Sprintf("%s", m.e), fmt.Sprintf("%q", m.e), text)
		for _, part := range []string{m.w.msg, fmt.Sprint(m.w.num), m.w.state} {
			c.Check(strings.Contains(text, part), "error-text", "%q of the error is not in its text %q", part, text)
		}
		long := fmt.Sprintf("%+v", m.e)
		c.Check(strings.HasPrefix(long, short), "error-text", "%%+v gives %q, %%v gives %q", long, short)
		c.Check(m.long == "" || m.long == long, "error-text", "%s %%+v gives %q, gave %q", when, long, m.long)
	}
	for n := c.Range(1, 4); n > 0; n-- {
		k := keys[c.N(len(keys))]
		if c.P(4) {
			k = c.Pick(0, -1, 999, 1000, 1001, 5109, 1<<40, k+1)
		}
		var args []interface{}
		for i := c.N(5); i > 0; i-- {
			args = append(args, []interface{}{7, -1, "text %d %s", c.Bytes(c.N(6)), fmt.Errorf("x%%"), uint64(1) << 63, nil, int64(c.U64()), 'x'}[c.N(9)])
		}
		var w errEntry
		entry, known := was[k]
		if known {
			w = errEntry{entry.num, entry.state, fmt.Sprintf(entry.msg, args...)}
		} else {
			w = baseErrors[xerror.ER_UNKNOWN]
		}
		e := c33raise(t, k, args...)
		c.Check(e != nil, "error-values", "no error is made for code %d", k)
		m := made{e: e, w: w}
		look(m, "new")
		m.long = fmt.Sprintf("%+v", e)
		if known {
			c.Check(strings.Contains(m.long, "c33made") && strings.Contains(m.long, "p_err.go"), "error-stack",
				"the printed call stack does not show who made the error: %q", m.long)
		}
		all = append(all, m)
		c.Sample("%v", e)
		c.NT(what, w.num, w.msg)
	}
	for _, m := range all {
		look(m, "later")
	}
	sameTable(c, t, was, what)
}

func c33table(c *Ctx) {
	for _, t := range []struct {
		what  string
		t     map[int]*xerror.Error
		codes []int
	}{
		{"base", xerror.Errors, []int{xerror.ER_UNKNOWN}},
		{"core", xcore.Errors, []int{
			xcore.ER_KEY_SIGNATURE_VERIFY_FAILED, xcore.ER_ADDRESS_CHECKSUM_MISMATCH, xcore.ER_ADDRESS_TYPE_UNKNOWN, xcore.ER_ADDRESS_FORMAT_MALFORMED,
			xcore.ER_ADDRESS_SIZE_MALFORMED, xcore.ER_ADDRESS_WITNESS_VERSION_UNSUPPORTED, xcore.ER_SCRIPT_TYPE_UNKNOWN,
			xcore.ER_SCRIPT_STANDARD_ADDRESS_TYPE_UNSUPPORTED, xcore.ER_SCRIPT_STANDARD_PUBKEYS_LE_NREQUIRED, xcore.ER_SCRIPT_SIGNATURE_TYPE_UNKNOW,
			xcore.ER_TRANSACTION_SIGN_OUT_INDEX, xcore.ER_TRANSACTION_SIGN_REDEEM_EMPTY, xcore.ER_TRANSACTION_VERIFY_FAILED,
			xcore.ER_TRANSACTION_BUILDER_AMOUNT_NOT_ENOUGH_ERROR, xcore.ER_TRANSACTION_BUILDER_FROM_EMPTY, xcore.ER_TRANSACTION_BUILDER_CHANGETO_EMPTY,
			xcore.ER_TRANSACTION_BUILDER_SENDTO_EMPTY, xcore.ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY, xcore.ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH,
			xcore.ER_TRANSACTION_BUILDER_FEE_TOO_HIGH, xcore.ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH, xcore.ER_MICROPAYMENT_LOCKTIME_MISMATCH,
			xcore.ER_MICROPAYMENT_REFUND_BOND_MISMATCH}},
		{"vm", xvm.Errors, []int{
			xvm.ER_SCRIPT_INSTRUCTION_UNKNOWN, xvm.ER_SCRIPT_INSTRUCTION_READ_ERROR, xvm.ER_SCRIPT_OPCODE_READ_ERROR, xvm.ER_SCRIPT_OPCODE_SIZE_MALFORMED,
			xvm.ER_SCRIPT_STACK_INDEX_INVALID, xvm.ER_SCRIPT_STACK_OPERATION_INVALID, xvm.ER_SCRIPTNUM_TOO_BIG, xvm.ER_SCRIPTNUM_MINIMAL_DATA, xvm.ER_VM_EXEC_OPCODE_FAILED}},
	} {
		seen := map[int]bool{}
		for _, k := range t.codes {
			e := t.t[k]
			c.Check(e != nil && e.Num == k && e.Message != "" && e.State != "", "error-table", "the %s table has %+v for code %d", t.what, e, k)
			c.Check(!seen[k], "error-table", "the code %d of the %s table stands for two errors", k, t.what)
			seen[k] = true
			c.NT(t.what, k, e.Message)
		}
		for k, e := range t.t {
			c.Check(e != nil && e.Num == k, "error-table", "the %s table has %+v for code %d", t.what, e, k)
		}
	}
}

// isErr judges an answer: the error of one code with its values.
func isErr(c *Ctx, err error, code int, what string, values ...interface{}) {
	var e *xerror.Error
	w, ok := coreErrors[code]
	if !ok {
		w = vmErrors[code]
	}
	c.Check(err != nil, "error-missing", "%s: no error, expected %v", what, w)
	c.Check(errors.As(err, &e) && e != nil, "error-cause", "%s: the answer is %v, expected %v", what, err, w)
	c.Check(e.Num == code, "error-cause", "%s: the answer is %v, expected %v", what, err, w)
	msg := fmt.Sprintf(w.msg, values...)
	c.Check(e.Message == msg && e.State == w.state, "error-values", "%s: the answer is %q (%s), the actual values give %q (%s)", what, e.Message, e.State, msg, w.state)
	c.NT(code, msg)
	c.Count(fmt.Sprintf("code-%d", code))
	c.Sample("%s: %v", what, err)
}

func c33addr(c *Ctx) xcore.Address {
	k := c.N(4)
	n := 20
	if k == 3 {
		n = 32
	}
	return newAddr(k, c.Hash(n))
}

// c33builder asks for a transaction with one thing wrong.
func c33builder(c *Ctx) {
	const (
		noCoin = iota
		bigCoin
		noKey
		noOutput
		nobody
		bigOutput
		tooMuch
		smallFee
		highFee
		noChange
		fine
		modes
	)
	mode := c.N(modes)
	n := c.Range(1, 4)
	wrong := c.N(n)
	b := xcore.NewTransactionBuilder()
	key := ring()[c.N(len(ring()))]
	lockBytes := refLock(0, refHash160(key.comp))
	lock := hex.EncodeToString(lockBytes)
	var txins []*xcore.TxIn
	var txouts []*xcore.TxOut
	var totalIn, totalOut, bad, limit int64
	inputs, at := 0, 0
	for i := 0; i < n; i++ {
		if i > 0 {
			b.Then()
		}
		if mode != noCoin && (i == wrong || i == n-1 && totalIn == 0 || !c.P(4)) {
			if i == wrong {
				at = inputs
			}
			inputs++
			v := int64(200000 + c.N(1000000))
			if mode == bigCoin && i == wrong {
				v = maxMoney + 1 + int64(c.N(3))
				if c.Bool() {
					v = maxMoney + 1 + int64(c.U64()%(1<<62))
				}
				bad = v
			}
			x, err := xcore.NewTxIn(c.Hash(32), 0, uint64(v), lockBytes, nil)
			c.Check(err == nil, "newtxin", "%v", err)
			txins = append(txins, x)
			b.AddCoin(xcore.NewCoinBuilder().AddOutput(hex.EncodeToString(c.Hash(32)), c.U32e(), uint64(v), lock).ToCoins()[0])
			totalIn += v
			if mode != noKey || i != wrong {
				b.AddKeys(key.prv)
			}
		}
		special := i == wrong && (mode == nobody || mode == bigOutput || mode == tooMuch)
		if mode == noOutput || i > 0 && c.P(3) && !special {
			continue
		}
		v := int64(c.N(90000))
		if limit += 90000; limit > 90000*int64(inputs) && mode != noCoin {
			v = 0 // paid for by a later coin
		}
		switch {
		case special && mode == bigOutput:
			v = maxMoney + 1 + int64(c.N(3))
			bad = v
		case special && mode == tooMuch:
			v = int64(200000+1000000)*int64(n) + int64(c.N(1000000))
		}
		if special && mode == nobody {
			b.To(nil, uint64(v))
		} else {
			a := c33addr(c)
			b.To(a, uint64(v))
			s, err := a.LockingScript()
			c.Check(err == nil, "locking", "%v", err)
			txouts = append(txouts, xcore.NewTxOut(uint64(v), s))
		}
		totalOut += v
	}
	fee, max := int64(1000), int64(100000000)
	if c.Bool() {
		fee = int64(c.N(100000))
		b.SendFees(uint64(fee))
	}
	rate, rest := int64(0), totalIn-totalOut
	if c.P(3) && (mode == smallFee || mode == highFee) { // the fee is worked out from a rate
		size := xcore.EstimateSize(txins, txouts)
		if c.Bool() {
			data := c.Bytes(c.N(80))
			b.AddPushData(data)
			size += int64(len(data))
		}
		rate = rest*1000/size + 1000 + int64(c.N(100000))
		fee = xcore.EstimateFees(size, rate)
		b.SetRelayFeePerKb(rate)
		c.Check(fee > rest, "fees", "the fee of %d bytes at %d is %d", size, rate, fee)
	}
	switch {
	case mode == smallFee && rate > 0:
		max = fee + int64(c.N(2))
		b.SetMaxFees(max)
	case mode == smallFee: // what is left does not pay the fee
		fee = totalIn - totalOut + 1 + int64(c.N(1000))*int64(c.N(2))
		b.SendFees(uint64(fee))
	case mode == highFee:
		max = fee - 1 - int64(c.N(1000))*int64(c.N(2))
		b.SetMaxFees(max)
	case mode == fine:
		max = fee
		b.SetMaxFees(max)
	}
	if mode != noChange {
		b.SetChange(c33addr(c))
	} else if c.Bool() {
		b.SetChange(nil)
	}
	if mode == noKey || c.P(8) {
		b.Sign()
	}
	what := fmt.Sprintf("builder of %d groups, case %d at %d", n, mode, wrong)
	c.Note(func() string { return what })
	tx, err := b.BuildTransaction()
	c.Check(err == nil || tx == nil, "error-missing", "%s: a transaction and an error", what)
	switch mode {
	case noCoin:
		isErr(c, err, xcore.ER_TRANSACTION_BUILDER_FROM_EMPTY, what)
	case bigCoin, bigOutput:
		isErr(c, err, xcore.ER_TRANSACTION_BUILDER_AMOUNT_OUT_OF_RANGE, what, bad)
	case noKey:
		isErr(c, err, xcore.ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY, what, at)
	case noOutput, nobody:
		isErr(c, err, xcore.ER_TRANSACTION_BUILDER_SENDTO_EMPTY, what)
	case tooMuch:
		isErr(c, err, xcore.ER_TRANSACTION_BUILDER_AMOUNT_NOT_ENOUGH_ERROR, what, totalOut, totalIn)
	case smallFee:
		isErr(c, err, xcore.ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH, what, fee, totalIn-totalOut)
	case highFee:
		isErr(c, err, xcore.ER_TRANSACTION_BUILDER_FEE_TOO_HIGH, what, fee, max)
	case noChange:
		isErr(c, err, xcore.ER_TRANSACTION_BUILDER_CHANGETO_EMPTY, what)
	case fine:
		c.Check(err == nil && tx != nil, "error-cause", "%s: refused: %v", what, err)
	}
}

// c33tx gives the operations on a transaction one thing they refuse.
func c33tx(c *Ctx) {
	kinds := randKinds(c, c.Range(1, 6))
	t, specs := newTx(c, kinds, c.N(4))
	tx, ins, _ := libTx(c, t)
	n := len(kinds)
	idx := c.N(n)
	for i := range specs {
		if c.Bool() {
			libSign(c, tx, i, specs[i])
		}
	}
	prv := ring()[c.N(40)].prv
	ht := xcore.SigHashType(specs[idx].ht)
	out := c.Pick(-1, n, n+1, -c.N(1000)-1, n+c.N(1000), 1<<31-1, -1<<31)
	what := fmt.Sprintf("input %d or %d of %v", idx, out, kinds)
	c.Note(func() string { return what + " " + t.String() })
	before := tx.Serialize()
	switch c.N(10) {
	case 9: // a script where only a witness belongs
		if kinds[idx] != kP2WPKH && kinds[idx] != kP2WSH {
			return
		}
		for i := range specs {
			refSign(t, i, specs[i])
		}
		in := &t.ins[idx]
		in.script = c.Bytes(c.Range(1, 80))
		got := xcore.NewTransaction()
		err := got.Deserialize(t.ser(true))
		c.Check(err == nil, "decode", "%v", err)
		for i := range t.ins {
			err := got.SetTxIn(i, t.ins[i].value, t.ins[i].lock, t.ins[i].redeem)
			if i == idx {
				isErr(c, err, xcore.ER_TRANSACTION_WITNESS_UNLOCKING_NOT_EMPTY, "SetTxIn "+what, idx)
			} else {
				c.Check(err == nil, "error-cause", "SetTxIn %d of %s: %v", i, what, err)
			}
		}
	case 0:
		isErr(c, tx.SignIndex(out, c.Bool(), ht, prv), xcore.ER_TRANSACTION_SIGN_OUT_INDEX, "SignIndex "+what, out, n)
	case 1:
		isErr(c, tx.EmbedIdxSignature(out, []xcore.PubKeySign{{PubKey: ring()[0].comp, Signature: c.Bytes(71)}}), xcore.ER_TRANSACTION_SIGN_OUT_INDEX, "EmbedIdxSignature "+what, out, n)
	case 2:
		_, err := tx.RawSignature(out, ht, prv)
		isErr(c, err, xcore.ER_TRANSACTION_SIGN_OUT_INDEX, "RawSignature "+what, out, n)
	case 3:
		_, err := tx.WitnessSignature(out, ht, prv)
		isErr(c, err, xcore.ER_TRANSACTION_SIGN_OUT_INDEX, "WitnessSignature "+what, out, n)
	case 4:
		in := t.ins[idx]
		isErr(c, tx.SetTxIn(out, in.value, in.lock, in.redeem), xcore.ER_TRANSACTION_SIGN_OUT_INDEX, "SetTxIn "+what, out, n)
	case 5:
		k := c.Range(2, 5)
		if t.ins[idx].redeem != nil {
			return
		}
		if c.Bool() {
			var keys []*xcrypto.PrvKey
			for i := 0; i < k; i++ {
				keys = append(keys, ring()[c.N(40)].prv)
			}
			isErr(c, tx.SignIndex(idx, c.Bool(), ht, keys...), xcore.ER_TRANSACTION_SIGN_REDEEM_EMPTY, "SignIndex "+what, idx, k)
		} else {
			isErr(c, tx.EmbedIdxSignature(idx, make([]xcore.PubKeySign, k)), xcore.ER_TRANSACTION_SIGN_REDEEM_EMPTY, "EmbedIdxSignature "+what, idx, k)
		}
	case 6:
		l := c.Pick(0, 1, 31, 33, 64, c.N(100))
		if l == 32 {
			return
		}
		in := t.ins[idx]
		x, err := xcore.NewTxIn(c.Bytes(l), in.index, in.value, in.lock, in.redeem)
		isErr(c, err, xcore.ER_TRANSACTION_TXID_LENGTH, fmt.Sprintf("NewTxIn with a hash of %d bytes", l), l)
		c.Check(x == nil, "error-missing", "an input and an error")
	case 7:
		k := c.N(5)
		req := k + 1 + c.N(4)
		var pubs [][]byte
		for i := 0; i < k; i++ {
			pubs = append(pubs, ring()[c.N(40)].comp)
		}
		ms := xcore.NewPayToMultiSigScript(req, pubs...)
		_, err := [](func() ([]byte, error)){ms.GetLockingScriptBytes, ms.Hash160, ms.Sha256,
			func() ([]byte, error) { return xcore.GenMultiSigScript(req, pubs...) }}[c.N(4)]()
		isErr(c, err, xcore.ER_SCRIPT_STANDARD_PUBKEYS_LE_NREQUIRED, fmt.Sprintf("%d of %d", req, k), k, req)
	case 8: // an output script of no standard kind
		s := [][]byte{{}, {0x51}, {0x6a, 1, 2}, append([]byte{33}, append(dup(ring()[idx].comp), 0xac)...), append([]byte{0x76, 0xa9, 20}, c.Bytes(20)...)}[c.N(5)]
		text := xvm.DisasmString(s)
		in := t.ins[idx]
		var err error
		switch c.N(3) {
		case 0:
			_, err = xcore.NewTxIn(in.hash, in.index, in.value, s, in.redeem)
		case 1:
			err = tx.SetTxIn(idx, in.value, s, in.redeem)
		case 2:
			_, err = xcore.ParseLockingScript(s)
		}
		isErr(c, err, xcore.ER_SCRIPT_TYPE_UNKNOWN, fmt.Sprintf("locking script %x", s), text)
	}
	c.Check(string(before) == string(tx.Serialize()), "error-effect", "a refused operation changed the transaction")
	_ = ins
}

// c33verify damages some inputs of a signed transaction.
func c33verify(c *Ctx) {
	kinds := randKinds(c, c.Range(1, 8))
	t, specs := newTx(c, kinds, c.Range(1, 3))
	tx, ins, _ := libTx(c, t)
	damaged := make([]int, len(kinds))
	first := -1
	for n := c.N(3); n >= 0; n-- {
		damaged[c.N(len(kinds))] = 1 + c.N(3)
	}
	for i := range kinds {
		if damaged[i] == 1 {
			continue // never signed
		}
		libSign(c, tx, i, specs[i])
		wit := kinds[i] == kP2WPKH || kinds[i] == kP2WSH
		switch {
		case damaged[i] == 2 && wit:
			ins[i].Value ^= 1 << uint(c.N(50)) // the signatures of this input commit to it
		case damaged[i] != 0:
			// signed with the keys of somebody else
			mine := map[int]bool{}
			for _, k := range specs[i].keys {
				mine[k] = true
			}
			o := specs[i]
			o.keys = append([]int{}, specs[i].keys...)
			p := o.signers[c.N(len(o.signers))]
			for mine[o.keys[p]] {
				o.keys[p] = c.N(40)
			}
			libSign(c, tx, i, o)
		}
	}
	for i := range damaged {
		if damaged[i] != 0 && first < 0 {
			first = i
		}
	}
	what := fmt.Sprintf("inputs %v with damage %v", kinds, damaged)
	c.Note(func() string { return what + " " + t.String() })
	for again := 0; again < 2; again++ {
		err := tx.Verify()
		if first < 0 {
			c.Check(err == nil, "error-cause", "%s: refused: %v", what, err)
			continue
		}
		isErr(c, err, xcore.ER_TRANSACTION_VERIFY_FAILED, what, first, hex.EncodeToString(rev(t.ins[first].hash)), t.ins[first].index)
	}
}

// c33address decodes texts with one thing wrong.
func c33address(c *Ctx) {
	nr := c.anyNet()
	what, text := "", ""
	code := 0
	var value interface{}
	switch c.N(5) {
	case 0: // the checksum
		payload := c.Bytes(20)
		text = refB58CheckEncode(payload, nr.p2pkh)
		i := c.N(len(text))
		ch := b58alpha[c.N(len(b58alpha))]
		if ch == text[i] {
			return
		}
		text = text[:i] + string(ch) + text[i+1:]
		if _, _, ok := refB58CheckDecode(text); ok {
			return
		}
		what, code, value = "checksum", xcore.ER_ADDRESS_FORMAT_MALFORMED, text
	case 1: // the characters
		b := c.Bytes(c.Range(1, 40))
		for i := range b {
			b[i] = "0OIl+/ _-%vd[]é"[int(b[i])%15]
		}
		text = string(b)
		what, code, value = "characters", xcore.ER_ADDRESS_FORMAT_MALFORMED, text
	case 2: // the version byte
		v := byte(c.N(256))
		if v == nr.p2pkh || v == nr.p2s {
			return
		}
		text = refB58CheckEncode(c.Hash(20), v)
		what, code, value = "version", xcore.ER_ADDRESS_TYPE_UNKNOWN, v
	case 3: // the size
		l := c.Pick(0, 1, 19, 21, 32, 33, c.N(80))
		if l == 20 {
			return
		}
		v := nr.p2pkh
		if c.Bool() {
			v = nr.p2s
		}
		text = refB58CheckEncode(c.Bytes(l), v)
		what, code, value = "size", xcore.ER_ADDRESS_SIZE_MALFORMED, l
	case 4: // the witness version
		v := byte(c.Range(1, 16))
		text = refSegwitEncode(nr.hrp, v, c.Bytes(c.Range(2, 40)))
		if c.Bool() {
			text = strings.ToUpper(text)
		}
		what, code, value = "witness version", xcore.ER_ADDRESS_WITNESS_VERSION_UNSUPPORTED, v
	}
	if code != xcore.ER_ADDRESS_WITNESS_VERSION_UNSUPPORTED {
		if i := strings.LastIndexByte(text, '1'); i > 0 && strings.EqualFold(text[:i], nr.hrp) {
			return
		}
	}
	c.Note(func() string { return nr.name + " " + what + " " + text })
	a, err := xcore.DecodeAddress(text, nr.net)
	c.Check(err == nil || a == nil, "error-missing", "%s of %q: an address and an error", what, text)
	isErr(c, err, code, fmt.Sprintf("%s of %q on %s", what, text, nr.name), value)
}

// c33text decodes checked texts and mnemonics with one thing wrong.
func c33text(c *Ctx) {
	is := func(err, want error, what string) {
		c.Check(err != nil && errors.Is(err, want), "error-cause", "%s: the answer is %v, expected %v", what, err, want)
		c.NT(what, want.Error())
		c.Count(want.Error())
	}
	switch c.N(6) {
	case 0: // too short to hold a version and a checksum
		text := refB58Encode(c.Blob(c.N(5)))
		_, _, err := xbase.Base58CheckDecode(text)
		is(err, xbase.ErrBase58InvalidFormat, fmt.Sprintf("Base58Check of %q", text))
	case 1:
		b := append(c.Blob(c.Range(1, 60)), 0, 0, 0, 0)
		n := len(b)
		copy(b[n-4:], sha256d(b[:n-4])[:4])
		b[c.N(n)] ^= 1 << uint(c.N(8))
		text := refB58Encode(b)
		if _, _, ok := refB58CheckDecode(text); ok {
			return
		}
		_, _, err := xbase.Base58CheckDecode(text)
		is(err, xbase.ErrBase58Checksum, fmt.Sprintf("Base58Check of %q", text))
	case 2: // a size no mnemonic has
		n := c.Pick(0, 1, 15, 17, 18, 19, 33, 36, c.N(64))
		if n%4 == 0 && n >= 16 && n <= 32 {
			return
		}
		_, err := bip39.NewMnemonic(c.Blob(n))
		is(err, bip39.ErrEntropyLengthInvalid, fmt.Sprintf("mnemonic of %d bytes", n))
		_, err = bip39.NewEntropy(n * 8)
		is(err, bip39.ErrEntropyLengthInvalid, fmt.Sprintf("%d bits of entropy", n*8))
	default:
		list := bip39.GetWordList()
		idx := refWords(c.Blob(c.Range(4, 8) * 4))
		mode := c.N(3)
		switch mode {
		case 0: // one word is another one of the list
			idx[c.N(len(idx))] = c.N(2048)
			if _, _, ok := refEntropy(idx); ok {
				return
			}
		case 1: // a wrong number of words
			idx = idx[:len(idx)-1-c.N(2)]
		}
		var w []string
		for _, i := range idx {
			w = append(w, list[i])
		}
		strange := ""
		if mode == 2 {
			strange = "tokucore" + fmt.Sprint(c.N(1000))
			w[c.N(len(w))] = strange
		}
		text := strings.Join(w, " ")
		what := fmt.Sprintf("mnemonic %q", text)
		c.Note(func() string { return what })
		_, err1 := bip39.EntropyFromMnemonic(text)
		_, err2 := bip39.MnemonicToByteArray(text, c.Bool())
		_, err3 := bip39.NewSeedWithErrorChecking(text, "x")
		switch mode {
		case 0:
			is(err1, bip39.ErrChecksumIncorrect, what)
			is(err2, bip39.ErrChecksumIncorrect, what)
			is(err3, bip39.ErrChecksumIncorrect, what)
		case 1:
			is(err1, bip39.ErrInvalidMnemonic, what)
			is(err2, bip39.ErrInvalidMnemonic, what)
			is(err3, bip39.ErrInvalidMnemonic, what)
		case 2:
			c.Check(err1 != nil && strings.Contains(err1.Error(), strange), "error-values", "%s: the answer %v does not name the word %s", what, err1, strange)
			is(err2, bip39.ErrInvalidMnemonic, what)
			is(err3, bip39.ErrInvalidMnemonic, what)
		}
	}
}
