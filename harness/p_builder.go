package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"sort"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"
)

const maxMoney = 2100000000000000

func wildAmount(c *Ctx) uint64 {
	switch c.N(14) {
	case 0:
		return 0
	case 1:
		return maxMoney + uint64(c.N(5)) - 2
	case 2:
		return c.Uint()
	case 3:
		return math.MaxInt64 - uint64(c.N(3)) + 1
	case 4:
		return maxMoney / 2
	}
	return uint64(c.N(1000000))
}

type bout struct {
	value  uint64
	script string
}

// dest is a place to pay to.
type dest struct {
	kind int
	hash []byte
}

// lockDest gives the address of a locking script.
func lockDest(lock []byte) (dest, bool) {
	for kind := 0; kind < 4; kind++ {
		for _, at := range []int{2, 3} {
			for _, n := range []int{20, 32} {
				if at+n <= len(lock) && bytes.Equal(refLock(kind, lock[at:at+n]), lock) {
					return dest{kind, lock[at : at+n]}, true
				}
			}
		}
	}
	return dest{}, false
}

func sortedOuts(o []bout) []bout {
	s := append([]bout{}, o...)
	sort.Slice(s, func(i, j int) bool {
		if s[i].value != s[j].value {
			return s[i].value < s[j].value
		}
		return s[i].script < s[j].script
	})
	return s
}

// builderCase drives the builder and decides its result by a balance sheet of its own.
func builderCase(c *Ctx, sign bool) {
	type coin struct {
		hash   []byte
		n      uint32
		value  uint64
		lock   []byte
		redeem []byte
	}
	b := xcore.NewTransactionBuilder()
	var coins []coin
	var outs []bout
	var txins []*xcore.TxIn
	var txouts []*xcore.TxOut
	var log []string
	say := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
	c.Note(func() string { return fmt.Sprint(log) })
	malformed := "" // reason the builder must refuse whatever its settings
	spoil := func(r string) {
		if malformed == "" {
			malformed = r
		}
	}
	var keyed []bool
	groups := c.Range(1, 4)
	if c.P(40) {
		groups = c.Range(5, 20)
	}
	if !sign && c.P(500) {
		groups = c.Range(260, 400) // counts of more than one byte
	}
	wild := c.P(4)
	big0 := c.P(8)
	// now and then coins share their transactions and outputs their scripts
	var txids [][]byte
	var dests []dest
	shareTx, shareOut := c.P(2), c.P(2)
	usedPoints := map[string]bool{}
	// and they come from one list
	var pool *xcore.CoinBuilder
	pooled, sharePool := 0, c.P(2)
	somewhere := func() dest {
		if shareOut && len(dests) > 0 && c.P(2) {
			return dests[c.N(len(dests))]
		}
		d := dest{kind: c.N(4)}
		d.hash = c.Hash(20)
		if d.kind == 3 {
			d.hash = c.Hash(32)
		}
		dests = append(dests, d)
		return d
	}
	group := func(first bool) {
		if !first {
			b.Then()
		}
		order := c.Bool()
		addCoin := func() {
			if c.P(10) {
				return
			}
			var in rin
			var spec inSpec
			if sign {
				spec = newSpec(c, c.N(nKinds), &in)
			} else {
				spec = newSpec(c, c.Pick(kP2PKH, kP2PKH, kP2WPKH, kP2WSH, kP2SH), &in)
			}
			k := coin{hash: c.Hash(32), n: c.U32e(), lock: in.lock, redeem: in.redeem}
			if shareTx {
				if len(txids) > 0 && !c.P(3) {
					k.hash = txids[c.N(len(txids))]
				}
				txids = append(txids, k.hash)
				if !c.P(3) {
					k.n = uint32(c.N(8))
				}
			}
			for usedPoints[fmt.Sprintf("%x:%d", k.hash, k.n)] {
				k.n++ // an output is spent once
			}
			usedPoints[fmt.Sprintf("%x:%d", k.hash, k.n)] = true
			if d, ok := lockDest(k.lock); ok && shareOut {
				dests = append(dests, d)
			}
			k.value = uint64(c.N(2000000))
			if shareTx && len(coins) > 0 && c.P(3) {
				k.value = coins[c.N(len(coins))].value
			} else if wild {
				k.value = wildAmount(c)
			} else if big0 {
				k.value = 100000000 * uint64(1+c.N(10))
			}
			txid := hex.EncodeToString(rev(k.hash))
			lockHex := hex.EncodeToString(k.lock)
			if c.P(60) {
				switch c.N(4) {
				case 0:
					txid = txid[:62]
				case 1:
					lockHex = "6a"
				case 2:
					lockHex = lockHex[1:]
				case 3:
					txid = "zz" + txid[2:]
				}
				spoil("malformed coin " + txid + " " + lockHex)
			}
			if !sharePool || pool == nil {
				pool, pooled = xcore.NewCoinBuilder(), 0
			}
			pool = pool.AddOutput(txid, k.n, k.value, lockHex)
			pooled++
			all := pool.ToCoins()
			c.Check(len(all) == pooled, "coin-builder", "%d outputs added one after the other are %d coins", pooled, len(all))
			b.AddCoin(all[pooled-1])
			say("coin %d of %x", k.value, k.lock)
			if spec.kind == kP2PKHU {
				b.SetPubKeyUncompressed()
			}
			if k.redeem != nil {
				b.SetRedeemScript(k.redeem)
			}
			if c.P(5) || sign {
				b.SetSigHashType(xcore.SigHashType(spec.ht))
			}
			has := false
			if !c.P(15) || sign && !c.P(10) {
				var keys []*xcrypto.PrvKey
				for _, p := range spec.signers {
					keys = append(keys, ring()[spec.keys[p]].prv)
				}
				b.AddKeys(keys...)
				has = true
			}
			keyed = append(keyed, has)
			coins = append(coins, k)
			if ti, err := xcore.NewTxIn(k.hash, k.n, k.value, k.lock, k.redeem); err == nil {
				txins = append(txins, ti)
			}
		}
		addOut := func() {
			if c.P(4) {
				return
			}
			v := uint64(c.N(600000))
			if wild && c.Bool() {
				v = wildAmount(c)
			}
			d := somewhere()
			kind, h := d.kind, d.hash
			if c.P(100) {
				b.To(nil, v)
				spoil("no address")
				say("to nobody %d", v)
				return
			}
			b.To(newAddr(kind, h), v)
			say("to %s %d", kindNames[kind], v)
			outs = append(outs, bout{v, string(refLock(kind, h))})
			txouts = append(txouts, xcore.NewTxOut(v, refLock(kind, h)))
		}
		if order {
			addCoin()
			addOut()
		} else {
			addOut()
			addCoin()
		}
	}
	var changeLock []byte
	var datas []bout
	var dataLen int64
	var rate int64
	var lockTime uint32
	var lastData []byte
	sendFee, maxFee := big.NewInt(1000), big.NewInt(100000000)
	// a builder is used once or several times, with something changed in between
	rounds := 1
	if c.P(4) {
		rounds = c.Range(2, 4)
		c.Count("builders used again")
	}
	type builtTx struct {
		tx   *xcore.Transaction
		was  []byte
		fees interface{}
	}
	var built []builtTx
	defer func() { // what was built before is as it was
		for i, t := range built {
			c.Check(bytes.Equal(t.tx.Serialize(), t.was) && fmt.Sprint(t.tx.Fees()) == t.fees, "builder-earlier", "transaction %d of %d of the same builder is now %s, was %s", i+1, len(built), hx(t.tx.Serialize()), hx(t.was))
		}
	}()
	for round := 0; round < rounds; round++ {
		again := round > 0
		if again {
			say("build")
			if c.P(3) {
				group(false)
			}
		} else {
			for g := 0; g < groups; g++ {
				group(g == 0)
			}
		}
		bad := malformed
		refuse := func(r string) {
			if bad == "" {
				bad = r
			}
		}
		if len(coins) == 0 {
			refuse("no coins")
		}
		if len(outs) == 0 {
			refuse("no outputs")
		}
		if again && c.P(2) {
			// as before
		} else if !c.P(8) {
			d := somewhere()
			kind, h := d.kind, d.hash
			changeLock = refLock(kind, h)
			b.SetChange(newAddr(kind, h))
			say("change to %s", kindNames[kind])
		} else if c.Bool() {
			changeLock = nil
			b.SetChange(nil)
			say("change to nil")
		}
		for c.P(4) && len(datas) < 5 {
			d := c.Bytes(c.Len(c.Pick(80, 300)))
			if lastData != nil && c.P(3) {
				d = dup(lastData) // the same data once more
			}
			lastData = d
			if len(d) == 1 && d[0] == 0 {
				d[0] = 7 // AddData({0}) is a recorded finding of C11
			}
			b.AddPushData(d)
			say("data of %d bytes", len(d))
			datas = append(datas, bout{0, string(append([]byte{oRETURN}, refPush(d)...))})
			dataLen += int64(len(d))
		}
		// sums in exact arithmetic
		totIn, totOut := new(big.Int), new(big.Int)
		max := big.NewInt(maxMoney)
		for _, k := range coins {
			totIn.Add(totIn, new(big.Int).SetUint64(k.value))
		}
		for _, o := range outs {
			totOut.Add(totOut, new(big.Int).SetUint64(o.value))
		}
		if totIn.Cmp(max) > 0 || totOut.Cmp(max) > 0 {
			refuse("above the money supply")
		}
		// fees
		if c.Bool() {
			var f uint64
			switch c.N(8) {
			case 0:
				f = wildAmount(c)
			case 1: // exactly the remainder, or one off
				d := new(big.Int).Sub(totIn, totOut)
				d.Add(d, big.NewInt(int64(c.N(3)-1)))
				if d.Sign() >= 0 && d.IsUint64() {
					f = d.Uint64()
				}
			case 2:
				f = uint64(math.MaxUint64) - uint64(c.N(2000))
			default:
				f = uint64(c.N(5000))
			}
			b.SendFees(f)
			sendFee = new(big.Int).SetUint64(f)
			say("fee %d", f)
		}
		fee := sendFee
		if c.P(3) || again && c.Bool() {
			switch c.N(8) {
			case 0:
				rate = -int64(c.N(1000))
			case 1:
				rate = int64(c.Uint())
			case 2:
				rate = math.MaxInt64 - int64(c.N(10))
			case 3:
				rate = 0
			default:
				rate = int64(c.N(100000))
			}
			b.SetRelayFeePerKb(rate)
			say("rate %d", rate)
		}
		if rate > 0 && bad == "" {
			size := xcore.EstimateSize(txins, txouts) + dataLen
			fee = new(big.Int).Mul(big.NewInt(size), big.NewInt(rate))
			if !fee.IsInt64() {
				fee = big.NewInt(math.MaxInt64)
			} else {
				fee.Div(fee, big.NewInt(1000))
			}
		}
		if c.P(3) {
			var m int64
			switch c.N(4) {
			case 0:
				m = int64(c.Uint())
			case 1: // at the fee
				if fee.IsInt64() {
					m = fee.Int64() + int64(c.N(3)) - 1
				}
			case 2:
				m = -1
			default:
				m = int64(c.N(3000))
			}
			b.SetMaxFees(m)
			maxFee = big.NewInt(m)
			say("max fee %d", m)
		}
		if fee.Cmp(maxFee) > 0 {
			refuse("fee above the maximum")
		}
		rest := new(big.Int).Sub(totIn, totOut)
		rest.Sub(rest, fee)
		if rest.Sign() < 0 {
			refuse("not enough value")
		}
		if rest.Sign() > 0 && changeLock == nil {
			refuse("no change address")
		}
		if c.P(3) {
			lockTime = c.U32e()
			b.SetLockTime(lockTime)
		}
		if sign {
			b.Sign()
			for _, h := range keyed {
				if !h {
					refuse("no keys")
				}
			}
		}
		tx, err := b.BuildTransaction()
		if bad != "" {
			c.Check(err != nil, "builder-accepts", "the builder returns a transaction although: %s", bad)
			c.Check(tx == nil, "builder-partial", "the builder returns a transaction with its error")
			c.Count("refused")
			c.NT(fmt.Sprint(log))
			continue
		}
		c.Check(err == nil, "builder-refuses", "the builder refuses a proper configuration: %v", err)
		got, ok := refParseTx(tx.SerializeNoWitness(), false)
		c.Check(ok, "builder-bytes", "the transaction does not parse")
		c.Check(got.lock == lockTime, "builder-locktime", "lock time is %d, want %d", got.lock, lockTime)
		var gi, wi []string
		for _, in := range got.ins {
			gi = append(gi, fmt.Sprintf("%x:%d", in.hash, in.index))
			c.Check(in.seq == 0xffffffff, "builder-sequence", "sequence is %x", in.seq)
		}
		for _, k := range coins {
			wi = append(wi, fmt.Sprintf("%x:%d", k.hash, k.n))
		}
		sort.Strings(gi)
		sort.Strings(wi)
		c.Check(fmt.Sprint(gi) == fmt.Sprint(wi), "builder-inputs", "inputs are %v, want %v", gi, wi)
		want := append(append([]bout{}, outs...), datas...)
		if rest.Sign() > 0 {
			want = append(want, bout{rest.Uint64(), string(changeLock)})
			c.Count("with change")
		} else {
			c.Count("without change")
		}
		var have []bout
		sum := new(big.Int)
		for _, o := range got.outs {
			have = append(have, bout{o.value, string(o.script)})
			sum.Add(sum, new(big.Int).SetUint64(o.value))
		}
		c.Check(fmt.Sprintf("%x", sortedOuts(have)) == fmt.Sprintf("%x", sortedOuts(want)), "builder-outputs", "outputs are %x, want %x", have, want)
		c.Check(new(big.Int).Sub(totIn, sum).Cmp(fee) == 0, "builder-fee", "the fee paid is %v, asked for %v", new(big.Int).Sub(totIn, sum), fee)
		c.Check(big.NewInt(int64(tx.Fees())).Cmp(fee) == 0, "builder-fees-method", "Fees() is %d, want %v", tx.Fees(), fee)
		if sign {
			c.Check(tx.Verify() == nil, "builder-verify", "the signed transaction does not verify: %v", tx.Verify())
		}
		// building again gives the same transaction
		if c.P(4) {
			tx2, err := b.BuildTransaction()
			c.Check(err == nil && bytes.Equal(tx2.Serialize(), tx.Serialize()), "builder-again", "building again gives another transaction (%v)", err)
		}
		built = append(built, builtTx{tx, tx.Serialize(), fmt.Sprint(tx.Fees())})
		c.NT(fmt.Sprint(log))
		c.Sample("%v -> %s", log, hx(tx.SerializeNoWitness()))
	}
}

func c12balance(c *Ctx) { builderCase(c, false) }
func c12signed(c *Ctx)  { builderCase(c, true) }

// ---- C13 ----

func exactFee(size, rate int64) *big.Int {
	if size <= 0 || rate <= 0 {
		return new(big.Int)
	}
	p := new(big.Int).Mul(big.NewInt(size), big.NewInt(rate))
	return p.Div(p, big.NewInt(1000))
}

func (c *Ctx) rate() int64 {
	switch c.N(4) {
	case 0:
		return int64(c.Uint())
	case 1:
		return int64(c.N(2000)) - 500
	}
	return int64(c.U64() >> uint(c.N(64)))
}

func c13fees(c *Ctx) {
	s, r := c.rate(), c.rate()
	if c.Bool() {
		s, r = int64(c.N(200000)), int64(c.N(2000000))
	}
	c.Note(func() string { return fmt.Sprintf("size=%d rate=%d", s, r) })
	got := xcore.EstimateFees(s, r)
	want := exactFee(s, r)
	c.Check(got >= 0, "fees-negative", "the fee is %d", got)
	if p := new(big.Int).Mul(big.NewInt(s), big.NewInt(r)); p.IsInt64() {
		c.Check(big.NewInt(got).Cmp(want) == 0, "fees-exact", "the fee is %d, want %v", got, want)
	} else if s > 0 && r > 0 {
		c.Check(got == math.MaxInt64 || big.NewInt(got).Cmp(want) == 0, "fees-wrap", "the fee is %d, want %v or the largest number", got, want)
		c.Count("beyond 64 bits")
	}
	// monotone
	ds, dr := int64(c.N(5)), int64(c.N(5))
	if s < math.MaxInt64-5 && r < math.MaxInt64-5 {
		c.Check(xcore.EstimateFees(s+ds, r+dr) >= got || s < 0 || r < 0, "fees-monotone", "size %d rate %d costs %d, less than %d", s+ds, r+dr, xcore.EstimateFees(s+ds, r+dr), got)
	}
	c.NT(s, r)
}

// documentedSize is the estimate as it is known to be made; the shortfalls are recorded findings.
func documentedSize(kinds []int, outs [][]byte) int64 {
	base := 4 + varintLen(uint64(len(kinds))) + varintLen(uint64(len(outs))) + 4
	wit := 0
	has := false
	for _, k := range kinds {
		if k == kP2WPKH || k == kP2WSH {
			has = true
		} else {
			base += 32 + 4 + 1 + 108 + 4
		}
	}
	for _, o := range outs {
		base += 8 + len(o)
	}
	if has {
		for _, k := range kinds {
			if k == kP2WPKH || k == kP2WSH {
				wit += 3
			} else {
				wit++
			}
		}
	}
	return int64((base*4 + wit) / 4)
}

// estimates for any inputs are at least what is documented, and enough where nothing is missing
func c13estimate(c *Ctx) {
	var kinds []int
	var ins []*xcore.TxIn
	nin := c.Range(0, 6)
	if c.P(100) {
		nin = c.Pick(252, 253, 254, 255, 256, 257, 300, 512)
	} else if c.P(8) {
		nin = c.Range(7, 120)
	}
	for n := nin; n > 0; n-- {
		if n < nin-6 { // more of the same
			ins = append(ins, ins[len(ins)%6])
			kinds = append(kinds, kinds[len(kinds)%6])
			continue
		}
		var in rin
		s := newSpec(c, c.N(nKinds), &in)
		ti, err := xcore.NewTxIn(c.Hash(32), 0, 1, in.lock, in.redeem)
		c.Check(err == nil, "newtxin", "%v", err)
		ins = append(ins, ti)
		kinds = append(kinds, s.kind)
	}
	var outs []*xcore.TxOut
	var scripts [][]byte
	nout := c.Range(0, 6)
	if c.P(50) { // counts that take more than one byte, and their low parts
		nout = c.Pick(252, 253, 254, 255, 256, 257, 300, 511, 512, 65535, 65536, 65537)
		if nout > 60000 && !c.P(10) {
			nout = c.Range(250, 800)
		}
	} else if c.Idx%4 == 0 { // every count up to 251
		nout = c.Idx / 4 % 252
	}
	for n := nout; n > 0; n-- {
		s := []byte{}
		if n <= 6 {
			s = c.outScript()
		}
		scripts = append(scripts, s)
		outs = append(outs, xcore.NewTxOut(1, s))
	}
	c.Note(func() string { return fmt.Sprintf("kinds=%v outs=%x", kinds, scripts) })
	got := xcore.EstimateSize(ins, outs)
	c.Check(got >= documentedSize(kinds, scripts), "estimate-shrinks", "the estimate is %d, less than the documented %d", got, documentedSize(kinds, scripts))
	c.Check(got == xcore.EstimateSize(ins, outs), "estimate-again", "estimating again differs")
	c.NT(fmt.Sprint(kinds), fmt.Sprintf("%x", scripts))
}

// inputs of pay-to-pubkey-hash with compressed keys and no more outputs than inputs
func c13size(c *Ctx) {
	n := c.Range(1, 8)
	if c.Idx == 0 {
		n = 254
	}
	kinds := make([]int, n)
	t, specs := newTx(c, kinds, c.N(n+1))
	for i := range t.outs {
		if len(t.outs[i].script) > 252 {
			t.outs[i].script = t.outs[i].script[:0]
		}
	}
	tx, ins, outs := libTx(c, t)
	est := xcore.EstimateSize(ins, outs)
	for i, s := range specs {
		libSign(c, tx, i, s)
	}
	c.Note(func() string { return t.String() })
	w := (3*len(tx.SerializeNoWitness()) + len(tx.Serialize()) + 3) / 4
	c.Check(est >= int64(w), "estimate-size", "the estimate is %d, the signed transaction has %d virtual bytes", est, w)
	rate := int64(c.N(100000))
	c.Check(xcore.EstimateFees(est, rate) >= exactFee(int64(w), rate).Int64(), "estimate-fee", "the fee for the estimate is below the rate")
	c.NT(tx.Serialize())
	c.Sample("estimate %d, virtual size %d", est, w)
}

// the estimate for plain transactions, without change beyond the inputs
func c13normal(c *Ctx) {
	ins := c.Range(1, 40)
	if c.P(20) {
		ins = c.Pick(252, 253, 300, 1000)
	}
	outs := c.N(ins + 1)
	got := xcore.EstimateNormalSize(ins, outs)
	// the largest a signed compressed pay-to-pubkey-hash transaction gets: 72 byte signatures
	worst := 8 + varintLen(uint64(ins)) + varintLen(uint64(outs)) + ins*(36+1+107+4) + outs*34
	c.Check(got >= int64(worst), "estimate-normal", "the estimate for %d inputs and %d outputs is %d, the largest size %d", ins, outs, got, worst)
	c.Check(xcore.EstimateNormalSize(ins+1, outs) >= got && xcore.EstimateNormalSize(ins, outs+1) >= got, "estimate-normal-monotone", "the estimate is not monotone")
	o2 := c.N(2000)
	c.Check(xcore.EstimateNormalSize(ins, o2) >= int64(8+varintLen(uint64(ins))+varintLen(uint64(o2))+149*ins+33*o2), "estimate-normal-shrinks", "the estimate for %d inputs and %d outputs is below the documented one", ins, o2)
	c.NT(ins, outs, o2)
}

// built with a rate: the signed transaction pays it (exact change, or enough inputs to cover the change output)
func c13builder(c *Ctx) {
	n := c.Range(36, 50)
	exact := c.Bool()
	if exact {
		n = c.Range(1, 6)
	}
	rate := int64(c.Range(1, 50000))
	var total uint64
	b := xcore.NewTransactionBuilder()
	var ins []*xcore.TxIn
	var outs []*xcore.TxOut
	nout := 1
	for i := 0; i < n; i++ {
		if i > 0 {
			b.Then()
		}
		k := ring()[c.N(len(ring()))]
		lock := refLock(0, refHash160(k.comp))
		v := uint64(100000000)
		total += v
		h := c.Hash(32)
		b.AddCoin(xcore.NewCoinBuilder().AddOutput(hex.EncodeToString(h), 0, v, hex.EncodeToString(lock)).ToCoins()[0]).AddKeys(k.prv)
		ti, err := xcore.NewTxIn(h, 0, v, lock, nil)
		c.Check(err == nil, "newtxin", "%v", err)
		ins = append(ins, ti)
	}
	h := c.Hash(20)
	outs = append(outs, xcore.NewTxOut(0, refLock(0, h)))
	// data outputs: their contents count, their overhead is part of the recorded shortfall of outputs
	var dataLen, dataOver, datas int64
	var lastData []byte
	for c.Bool() && datas < 6 {
		d := c.Bytes(c.Range(2, 200))
		if lastData != nil && c.P(2) {
			d = lastData
		}
		lastData = d
		b.AddPushData(d)
		datas++
		dataLen += int64(len(d))
		dataOver += 8 + 1 + 1 + int64(len(refPush(d))-len(d))
	}
	nout += int(datas)
	fee := xcore.EstimateFees(xcore.EstimateSize(ins, outs)+dataLen, rate)
	if exact {
		b.To(newAddr(0, h), total-uint64(fee))
	} else {
		b.To(newAddr(0, h), total/2)
		b.SetChange(newAddr(0, c.Hash(20)))
		nout++
	}
	b.SetRelayFeePerKb(rate).SetMaxFees(math.MaxInt64).Sign()
	tx, err := b.BuildTransaction()
	c.Note(func() string {
		return fmt.Sprintf("%d inputs, rate %d, exact %v, %d data outputs of %d bytes", n, rate, exact, datas, dataLen)
	})
	c.Check(err == nil, "builder-rate", "building fails: %v", err)
	got, ok := refParseTx(tx.SerializeNoWitness(), false)
	c.Check(ok && len(got.outs) == nout, "builder-rate-outs", "%d outputs, want %d", len(got.outs), nout)
	var sum uint64
	for _, o := range got.outs {
		sum += o.value
	}
	paid := int64(total - sum)
	need := exactFee(int64(len(tx.Serialize()))-dataOver, rate).Int64()
	c.Check(paid >= need, "builder-rate-paid", "the transaction of %d bytes pays %d, the rate asks for %d", len(tx.Serialize()), paid, need)
	c.NT(tx.Serialize())
}

// the recorded shortfalls of the estimates, one case each
func c13known(c *Ctx) {
	k := ring()[3]
	switch c.Idx {
	case 0: // witness inputs
		t := &rtx{version: 1, ins: []rin{{hash: make([]byte, 32), seq: 1, value: 5, lock: refLock(2, refHash160(k.comp))}}, outs: []rout{{1, refLock(0, make([]byte, 20))}}}
		tx, ins, outs := libTx(c, t)
		est := xcore.EstimateSize(ins, outs)
		libSign(c, tx, 0, inSpec{kind: kP2WPKH, keys: []int{3}, signers: []int{0}, ht: 1})
		if est < int64(tx.Vsize()) {
			c.Soft("estimate-witness-input", "the estimate for a witness input is %d, the signed transaction has %d virtual bytes", est, tx.Vsize())
		}
	case 1: // outputs' script length bytes: more outputs than inputs
		if got := xcore.EstimateNormalSize(1, 40); got < 8+2+148+40*34 {
			c.Soft("estimate-output-length", "the estimate for 1 input and 40 outputs is %d, the transaction has up to %d bytes", got, 8+2+148+40*34)
		}
	case 2: // the builder's change output
		b := xcore.NewTransactionBuilder()
		lock := refLock(0, refHash160(k.comp))
		b.AddCoin(xcore.NewCoinBuilder().AddOutput(hex.EncodeToString(make([]byte, 32)), 0, 1000000, hex.EncodeToString(lock)).ToCoins()[0]).AddKeys(k.prv)
		b.To(newAddr(0, make([]byte, 20)), 5000).SetChange(newAddr(0, make([]byte, 20))).SetRelayFeePerKb(1000).Sign()
		tx, err := b.BuildTransaction()
		c.Check(err == nil, "builder-rate", "%v", err)
		if tx.Fees() < tx.Vsize() {
			c.Soft("estimate-change-output", "with a rate of 1000 the signed transaction of %d virtual bytes pays %d", tx.Vsize(), tx.Fees())
		}
	case 3: // multisig inputs
		in := rin{hash: make([]byte, 32), seq: 1, value: 5}
		s := inSpec{kind: kP2SH, ht: 1}
		setMultisig(c, &s, &in, 3, 2)
		t := &rtx{version: 1, ins: []rin{in}, outs: []rout{{1, refLock(0, make([]byte, 20))}}}
		tx, ins, outs := libTx(c, t)
		est := xcore.EstimateSize(ins, outs)
		libSign(c, tx, 0, s)
		if est < int64(tx.Vsize()) {
			c.Soft("estimate-multisig-input", "the estimate for a 2-of-3 input is %d, the signed transaction has %d virtual bytes", est, tx.Vsize())
		}
	}
}
