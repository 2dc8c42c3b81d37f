package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/keyfuse/tokucore/xvm"
)

func init() {
	register(&Prop{
		ID:   "C10",
		Rule: "pairs of unlocking and locking scripts (random opcodes, state-tracking generation that keeps scripts alive, nested conditionals, multisig with every arrangement of signatures, pay-to-script-hash, malformed bytes, sizes around every limit), run by the engine in its default, strict and clean-stack modes and by an independent interpreter; verdicts and traced stacks must agree, engines reused for many scripts must behave as fresh ones; non-trivial: distinct script pairs",
		Kinds: []Kind{
			{Name: "random", N: 30000, TN: 1000000, Run: c10random},
			{Name: "live", N: 20000, TN: 600000, Run: c10live},
			{Name: "multisig", N: 8000, TN: 200000, Run: c10multisig},
			{Name: "p2sh", N: 8000, TN: 200000, Run: c10p2sh},
			{Name: "numbers", N: 8000, TN: 200000, Run: c10numbers},
			{Name: "malformed", N: 10000, TN: 300000, Run: c10malformed},
			{Name: "limits", N: 500, TN: 6000, Run: c10limits},
			{Name: "nest", N: 2500, TN: 60000, Run: c10nest},
			{Name: "deep", N: 700, TN: 40000, Run: c10deep},
			{Name: "history", N: 1500, TN: 40000, Run: c10history},
			{Name: "stack", N: 20000, TN: 300000, Run: c10stack},
			{Name: "known", N: 2, TN: 2, Run: c10known},
		},
	})
	register(&Prop{
		ID:   "C11",
		Rule: "data of every length class and value class and integers of the whole 64-bit range added to scripts, listings assembled from tokens with known meaning, random and mutated scripts parsed, printed and filtered, numbers encoded and decoded at every width; all against independent encoders and parsers; non-trivial: distinct inputs",
		Kinds: []Kind{
			{Name: "push", N: 24000, TN: 96000, Run: c11push},
			{Name: "ints", N: 32000, TN: 200000, Run: c11ints},
			{Name: "nums", N: 80000, TN: 600000, Run: c11nums},
			{Name: "load", N: 24000, TN: 100000, Run: c11load},
			{Name: "parse", N: 48000, TN: 300000, Run: c11parse},
			{Name: "remove", N: 24000, TN: 100000, Run: c11remove},
			{Name: "known", N: 2, TN: 2, Run: c11known},
			{Name: "constants", N: 1, TN: 1, Run: c11constants},
		},
	})
}

// ---- a toy signature scheme: cheap, but bound to key and hash type ----

var toyPubs = func() [][]byte {
	var p [][]byte
	for i := 0; i < 24; i++ {
		p = append(p, sha256b([]byte{byte(i)})[:3+i%4])
	}
	return p
}()

func toyHash(ht byte) []byte { return sha256b([]byte{'h', ht}) }

func toyTag(pub []byte, ht byte) []byte {
	return sha256b(append(append([]byte{}, pub...), toyHash(ht)...))[:5]
}

func toySig(pub []byte, ht byte) []byte { return append(toyTag(pub, ht), ht) }

func toyCheck(sig, pub []byte) bool {
	ht := sig[len(sig)-1]
	return bytes.Equal(sig[:len(sig)-1], toyTag(pub, ht))
}

var errToy = errors.New("toy signature")

func toyEngine() *xvm.Engine {
	e := xvm.NewEngine()
	e.SetSigHashFn(func(ht byte) ([]byte, error) { return toyHash(ht), nil })
	e.SetSigVerifyFn(func(hash, sig, pub []byte) error {
		if !bytes.Equal(sig, sha256b(append(append([]byte{}, pub...), hash...))[:5]) {
			return errToy
		}
		return nil
	})
	return e
}

// vm modes
const (
	vmDefault = iota
	vmStrict
	vmClean
	nVMModes
)

func refRun(mode int, unlocking, locking []byte) (bool, *refVM) {
	v := &refVM{check: toyCheck, nopRet: mode == vmDefault, emptyOK: mode == vmDefault, clean: mode == vmClean}
	return v.verify(unlocking, locking), v
}

func libEngine(mode int) *xvm.Engine {
	e := toyEngine()
	if mode >= vmStrict {
		e.EnableStrict()
	}
	if mode == vmClean {
		e.EnableCleanStack()
	}
	return e
}

// checkRun compares one pair of scripts in every mode, and the traced stacks.
func checkRun(c *Ctx, unlocking, locking []byte) bool {
	c.Note(func() string { return fmt.Sprintf("unlocking %x locking %x", unlocking, locking) })
	res := false
	var okDefault bool
	for mode := 0; mode < nVMModes; mode++ {
		if mode == vmClean && len(unlocking) > 500 {
			continue
		}
		want, v := refRun(mode, unlocking, locking)
		b1, g1 := guarded(unlocking, 8)
		b2, g2 := guarded(locking, 8)
		err := libEngine(mode).Verify(b1, b2)
		c.Check(g1.ok() && g2.ok(), "args", "running changed the scripts")
		if want {
			c.Check(err == nil, "rejects", "mode %d: the engine fails with %v, the script is valid", mode, err)
			c.Count("valid")
			res = true
		} else {
			c.Check(err != nil, "accepts", "mode %d: the engine succeeds, the script is invalid (%s)", mode, v.why)
			c.Count("invalid: " + whyClass(v.why))
		}
		if mode == vmDefault {
			okDefault = want
		}
	}
	// each script executed on its own
	for _, s := range [][]byte{unlocking, locking} {
		mode := c.N(nVMModes)
		v := &refVM{check: toyCheck, nopRet: mode == vmDefault, emptyOK: mode == vmDefault}
		want := v.eval(s) && v.final()
		err := libEngine(mode).Execute(s)
		c.Check((err == nil) == want, "execute", "mode %d: executing %x gives %v, want %v (%s)", mode, s, err, want, v.why)
	}
	c.NT(unlocking, []byte{0xff}, locking)
	// tracing: same outcome, true stacks (long scripts rarely, a trace grows with the square)
	if n := len(unlocking) + len(locking); n > 3000 || (n > 150 && !c.P(20)) {
		return res
	}
	e := libEngine(vmDefault)
	e.EnableDebug()
	err := e.Verify(unlocking, locking)
	c.Check((err == nil) == okDefault, "trace-outcome", "with tracing the outcome is %v", err)
	want := refTraces(unlocking, locking)
	got := e.Traces()
	c.Check(len(got) == len(want), "trace-count", "%d traced steps, want %d", len(got), len(want))
	for i := range got {
		g, w := got[i], want[i]
		c.Check(g.Executed == w.name, "trace-op", "step %d is %s, want %s", i, g.Executed, w.name)
		c.Check(g.Stack == w.stack, "trace-stack", "stack after step %d (%s) is %q, want %q", i, w.name, g.Stack, w.stack)
		if w.remaining != "?" {
			c.Check(words(g.Remaining) == w.remaining, "trace-remaining", "remaining after step %d is %q, want %q", i, g.Remaining, w.remaining)
		}
		c.Count("traced step")
	}
	return res
}

func whyClass(s string) string {
	f := strings.Fields(s)
	if len(f) > 2 {
		f = f[:2]
	}
	return strings.Join(f, " ")
}

// refTraces gives the steps of the second pass (unlocking and locking) and of the redeem script.
func refTraces(unlocking, locking []byte) []refTrace {
	v := &refVM{check: toyCheck, nopRet: true, emptyOK: true}
	if len(unlocking) > 10000 || len(locking) > 10000 || !v.eval(unlocking) {
		return nil
	}
	saved := append([][]byte{}, v.stack...)
	v.stack = nil
	v.trace = true
	v.suffix, v.suffixOK = "", true
	if ops, ok := refParse(locking); ok {
		v.suffix = refDisasm(ops)
	} else {
		v.suffixOK = false
	}
	v.eval(unlocking)
	v.suffix, v.suffixOK = "", true
	if !v.eval(locking) || !v.final() {
		return v.traces
	}
	if refIsP2SH(locking) && refPushOnly(unlocking) && len(saved) > 0 {
		v.stack = saved
		v.eval(v.pop())
	}
	return v.traces
}

// ---- generators ----

var supportedOps = []byte{0, 0, o1NEGATE, o1, o1, o1 + 1, o1 + 2, o16, oIF, oIF, oNOTIF, oELSE, oELSE, oENDIF, oENDIF, oRETURN, o2DUP, o3DUP, oDROP, oDROP, oDUP, oDUP, oSWAP, oSWAP, oSIZE, oEQUAL, oEQVERIFY, oADD, oADD, oHASH160, oCHECKSIG, oCSVERIFY, oCMS, oCMSVERIFY}

// numItem is an encoded number, often near a bound, sometimes not minimal.
func (c *Ctx) numItem() []byte {
	var v int64
	switch c.N(6) {
	case 0:
		v = int64(c.N(40) - 20)
	case 1:
		v = int64(c.Pick(127, 128, 129, 255, 256, 32767, 32768, 65535, 8388607, 8388608, math.MaxInt32, math.MaxInt32-1, math.MaxInt32+1))
	case 2:
		v = -int64(c.Pick(127, 128, 129, 255, 256, 32767, 32768, 65535, 8388607, 8388608, math.MaxInt32, math.MaxInt32-1, math.MaxInt32+1))
	case 3:
		v = int64(c.U32())
	case 4:
		v = int64(c.U64()) >> uint(c.N(64))
	default:
		v = int64(c.N(4))
	}
	b := refNumEncode(v)
	switch c.N(12) {
	case 0:
		b = append(b, 0)
	case 1:
		b = append(b, 0x80)
	case 2:
		if len(b) > 0 {
			b[len(b)-1] ^= 0x80
		}
	}
	return b
}

func (c *Ctx) stackItem() []byte {
	switch c.N(8) {
	case 0:
		return nil
	case 1:
		return []byte{1}
	case 2:
		return [][]byte{{0}, {0x80}, {2}, {0, 0}, {0, 0x80}, {1, 0}, {0x81}, {0, 1}}[c.N(8)]
	case 3, 4:
		return c.numItem()
	case 5:
		return toyPubs[c.N(len(toyPubs))]
	case 6:
		return toySig(toyPubs[c.N(len(toyPubs))], byte(c.Pick(0, 1, 2, 3, 0x81, 255)))
	}
	return c.Blob(c.N(24))
}

// push uses the shortest opcode mostly, and other encodings of the same push otherwise.
func (c *Ctx) push(d []byte) []byte {
	switch c.N(12) {
	case 0:
		return plainPush(d)
	case 1:
		if len(d) < 256 {
			return append([]byte{oPUSHDATA1, byte(len(d))}, d...)
		}
	case 2:
		if len(d) < 65536 {
			return append([]byte{oPUSHDATA2, byte(len(d)), byte(len(d) >> 8)}, d...)
		}
	case 3:
		n := len(d)
		return append([]byte{oPUSHDATA4, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}, d...)
	}
	return refPush(d)
}

func (c *Ctx) vmOp() []byte {
	if c.N(5) < 2 {
		return c.push(c.stackItem())
	}
	return []byte{supportedOps[c.N(len(supportedOps))]}
}

func c10random(c *Ctx) {
	var u, l []byte
	for n := c.N(6); n > 0; n-- {
		if c.P(6) {
			u = append(u, c.vmOp()...)
		} else {
			u = append(u, c.push(c.stackItem())...)
		}
	}
	for n := c.N(14); n > 0; n-- {
		l = append(l, c.vmOp()...)
	}
	checkRun(c, u, l)
	c.Sample("%x / %x", u, l)
}

// snippets that succeed on a suitable stack
func (c *Ctx) snippet() []byte {
	cat := func(p ...[]byte) []byte { return joinOps(p) }
	a, b := c.numItem(), c.stackItem()
	pub := toyPubs[c.N(len(toyPubs))]
	ht := byte(c.Pick(0, 1, 2, 3, 0x81, 255))
	switch c.N(11) {
	case 0:
		return cat(c.push(a), c.push(b), []byte{oADD})
	case 1:
		return cat(c.push(b), []byte{oDUP, oEQUAL})
	case 2:
		return cat(c.push(toySig(pub, ht)), c.push(pub), []byte{oCHECKSIG})
	case 3:
		return cat(c.push(toySig(pub, ht)), c.push(pub), []byte{oCSVERIFY})
	case 4:
		return cat(c.push(b), []byte{oHASH160}, c.push(refHash160(b)), []byte{[]byte{oEQUAL, oEQVERIFY}[c.N(2)]})
	case 5:
		return cat(c.push(b), []byte{oSIZE, oSWAP, oDROP}, c.push(refNumEncode(int64(len(b)))), []byte{[]byte{oEQUAL, oEQVERIFY}[c.N(2)]})
	case 6:
		v := [][]byte{nil, {1}, c.stackItem()}[c.N(3)]
		return cat(c.push(v), []byte{[]byte{oIF, oNOTIF}[c.N(2)]})
	case 7:
		return []byte{oELSE}
	case 8:
		return []byte{oENDIF}
	case 9:
		return c.multisigPart()
	}
	return c.vmOp()
}

// multisigPart is a whole multisig check: dummy, signatures, keys.
func (c *Ctx) multisigPart() []byte {
	n := c.Pick(0, 1, 2, 3, 3, 5, 15, 16, 17, 20, 21, 22)
	m := c.N(n + 1)
	var keys, sigs [][]byte
	for i := 0; i < n; i++ {
		keys = append(keys, toyPubs[c.N(len(toyPubs))])
	}
	// ascending positions
	need := m
	for i := 0; i < n && need > 0; i++ {
		if c.N(n-i) < need {
			sigs = append(sigs, toySig(keys[i], byte(c.Pick(1, 2, 0x83))))
			need--
		}
	}
	if c.P(3) && m > 0 { // spoil
		j := c.N(m)
		switch c.N(6) {
		case 0:
			sigs[j] = nil
		case 1:
			sigs[j] = toySig(toyPubs[c.N(len(toyPubs))], 1)
		case 2:
			k := c.N(m)
			sigs[j], sigs[k] = sigs[k], sigs[j]
		case 3:
			sigs[j] = c.Blob(c.N(9))
		case 4:
			sigs[j] = sigs[c.N(m)]
		case 5:
			keys[c.N(n)] = c.Blob(c.N(5))
		}
	}
	dummy := []byte(nil)
	if c.P(12) {
		dummy = c.stackItem()
	}
	out := c.push(dummy)
	for _, s := range sigs {
		out = append(out, c.push(s)...)
	}
	num := func(v int) []byte {
		switch c.N(30) {
		case 0:
			return c.push(c.numItem())
		case 1:
			return c.push(refNumEncode(int64(v + 1)))
		case 2:
			return c.push(refNumEncode(int64(v - 1)))
		}
		return c.push(refNumEncode(int64(v)))
	}
	out = append(out, num(m)...)
	for _, k := range keys {
		out = append(out, c.push(k)...)
	}
	out = append(out, num(n)...)
	return append(out, []byte{oCMS, oCMS, oCMSVERIFY}[c.N(3)])
}

// live generates a script that mostly does not fail, by trying each part on the state so far.
func (c *Ctx) live(v *refVM, parts int) []byte {
	var s []byte
	for i := 0; i < parts; i++ {
		for try := 0; try < 4; try++ {
			p := c.snippet()
			w := &refVM{check: v.check, nopRet: v.nopRet, emptyOK: v.emptyOK, ops: v.ops}
			w.stack = append([][]byte{}, v.stack...)
			w.cond = append([]bool{}, v.cond...)
			ops, ok := refParse(p)
			for _, o := range ops {
				if ok = ok && w.step(o); !ok {
					break
				}
			}
			if ok || c.P(60) {
				s = append(s, p...)
				v.stack, v.cond, v.ops = w.stack, w.cond, w.ops
				break
			}
		}
	}
	for range v.cond {
		if !c.P(40) {
			if c.P(3) {
				s = append(s, oELSE)
			}
			s = append(s, oENDIF)
		}
	}
	if c.Bool() {
		s = append(s, o1)
	}
	return s
}

func c10live(c *Ctx) {
	v := &refVM{check: toyCheck, nopRet: c.P(4)}
	var u []byte
	for n := c.N(5); n > 0; n-- {
		d := c.stackItem()
		u = append(u, c.push(d)...)
		v.stack = append(v.stack, d)
	}
	if c.P(5) {
		u = append(u, c.live(v, c.N(3))...)
		v = &refVM{check: toyCheck}
		v.eval(u)
		v.cond, v.ops = nil, 0
	}
	l := c.live(v, c.Range(1, c.Pick(3, 8, 20, 40)))
	if checkRun(c, u, l) {
		c.Count("live success")
	}
	c.Sample("%x / %x", u, l)
}

func c10multisig(c *Ctx) {
	l := c.multisigPart()
	if l[len(l)-1] == oCMSVERIFY || c.P(10) {
		l = append(l, o1)
	}
	// cut somewhere so that a part is in the unlocking script
	var u []byte
	if ops, ok := refParse(l); ok {
		k := c.N(len(ops))
		for _, o := range ops[:k] {
			u = append(u, o.raw...)
		}
		l = l[len(u):]
	}
	if checkRun(c, u, l) {
		c.Count("multisig success")
	}
}

func c10p2sh(c *Ctx) {
	v := &refVM{check: toyCheck, nopRet: c.P(4)}
	var u []byte
	for n := c.N(4); n > 0; n-- {
		d := c.stackItem()
		u = append(u, c.push(d)...)
		v.stack = append(v.stack, d)
	}
	if c.P(12) {
		u = append(u, c.vmOp()...)
	}
	redeem := c.live(v, c.Range(0, 6))
	switch c.N(12) {
	case 0:
		redeem = nil
	case 1:
		redeem = c.Blob(c.N(30))
	}
	h := refHash160(redeem)
	if c.P(15) {
		h[c.N(20)] ^= 1 << uint(c.N(8))
	}
	u = append(u, c.push(redeem)...)
	l := refLock(1, h)
	switch c.N(14) {
	case 0: // not the exact template: no redeem evaluation
		l = append(append([]byte{oHASH160, oPUSHDATA1, 20}, h...), oEQUAL)
	case 1:
		l = append(l, oDUP, oDROP)
	case 2:
		l = append(append([]byte{oHASH160}, refPush(h)...), oEQVERIFY, o1)
	case 3:
		l = append([]byte{oDUP}, l...)
	}
	if c.P(30) {
		u = nil
	}
	if checkRun(c, u, l) {
		c.Count("p2sh success")
	}
}

// arithmetic and conditionals on any two items
func c10numbers(c *Ctx) {
	a, b := c.numItem(), c.numItem()
	if c.P(4) {
		a = c.stackItem()
	}
	u := joinOps([][]byte{c.push(a), c.push(b)})
	var l []byte
	switch c.N(6) {
	case 0:
		x, ok1 := refNumDecode(a, 4)
		y, ok2 := refNumDecode(b, 4)
		if ok1 && ok2 {
			sum := x + y
			if c.P(6) {
				sum ^= 1
			}
			l = joinOps([][]byte{{oADD}, c.push(refNumEncode(sum)), {oEQUAL}})
		} else {
			l = []byte{oADD, oDROP, o1}
		}
	case 1:
		l = []byte{oADD, c.bytePick(oIF, oNOTIF), o1, oELSE, 0, oENDIF}
	case 2:
		l = []byte{c.bytePick(oIF, oNOTIF), o1, oELSE, 0, oENDIF}
	case 3:
		l = []byte{oADD} // the sum as verdict
	case 4:
		l = nil // any item as verdict
	case 5:
		l = joinOps([][]byte{{oSIZE}, c.push(refNumEncode(int64(len(b)))), {oEQUAL}})
	}
	checkRun(c, u, l)
}

func (c *Ctx) bytePick(v ...byte) byte { return v[c.N(len(v))] }

func c10malformed(c *Ctx) {
	var u, l []byte
	switch c.N(4) {
	case 0:
		u, l = c.Blob(c.N(10)), c.Blob(c.N(30))
	case 1: // an unsupported opcode somewhere, possibly skipped
		l = joinOps([][]byte{c.vmOp(), {0, oIF}, {byte(c.N(256))}, {oENDIF}, c.vmOp(), {o1}})
	case 2: // cut short
		v := &refVM{check: toyCheck}
		l = c.live(v, c.Range(1, 6))
		l = append(l, c.push(c.Blob(c.N(100)))...)
		l = l[:c.N(len(l)+1)]
	case 3: // a declared length beyond the end
		l = append([]byte{o1}, [][]byte{{oPUSHDATA1, 5, 1}, {oPUSHDATA2, 255, 255, 0}, {oPUSHDATA4, 255, 255, 255, 255}, {oPUSHDATA4, 0, 0, 0, 128, 1}, {oPUSHDATA1}, {oPUSHDATA2, 0}, {oPUSHDATA4, 0, 0, 0}, {75}, {oPUSHDATA4, 1, 0, 0, 0, 7}}[c.N(9)]...)
		if c.P(3) {
			u, l = l, []byte{o1}
		}
	}
	if c.P(4) {
		u = append(u, c.push(c.stackItem())...)
	}
	checkRun(c, u, l)
}

// scripts around the limits of size, element size, operations and stack depth
func c10limits(c *Ctx) {
	rep := func(b byte, n int) []byte { return bytes.Repeat([]byte{b}, n) }
	var u, l []byte
	switch c.N(9) {
	case 0: // element size
		n := c.Pick(519, 520, 521, 522, 5000)
		l = joinOps([][]byte{c.push(c.Blob(n)), {oDROP, o1}})
	case 1: // in a skipped branch
		n := c.Pick(519, 520, 521)
		l = joinOps([][]byte{{0, oIF}, c.push(c.Blob(n)), {oENDIF, o1}})
	case 2: // operations
		n := c.Pick(198, 199, 200, 201, 202)
		l = joinOps([][]byte{{o1, o1}, rep(oSWAP, n)})
	case 3: // skipped operations count too
		n := c.Pick(198, 199, 200)
		l = joinOps([][]byte{{o1, 0, oIF}, rep(oDUP, n), {oENDIF}})
	case 4: // keys count as operations
		n := c.Pick(178, 179, 180, 181)
		keys := c.Pick(20, 20, 19)
		l = joinOps([][]byte{{o1, o1}, rep(oSWAP, n), {0, 0}})
		for i := 0; i < keys; i++ {
			l = append(l, refPush(toyPubs[i])...)
		}
		l = append(append(l, refPush(refNumEncode(int64(keys)))...), oCMS)
	case 5: // each script has its own count
		n := c.Pick(100, 150, 200, 201)
		u = joinOps([][]byte{{o1, o1}, rep(oSWAP, n)})
		l = rep(oSWAP, c.Pick(100, 199, 200, 201, 202))
	case 6: // stack depth
		n := c.Pick(998, 999, 1000, 1001)
		l = rep(o1, n)
		if c.Bool() {
			l = append(l, oDUP, oDROP)
		}
	case 7: // split between the scripts
		u = rep(o1, c.Pick(499, 500, 998))
		l = rep(o1, c.Pick(499, 500, 501, 2, 3))
	case 8: // script size
		n := c.Pick(9999, 10000, 10001) - 1
		for n > 0 {
			k := n - 3
			if k > 520 {
				k = 520
			}
			if n-3-k == 1 || n-3-k == 2 || n-3-k == 3 || n-3-k == 4 {
				k -= 5
			}
			if k < 256 {
				l = append(l, rep(o1, n)...)
				break
			}
			l = append(l, refPush(c.Blob(k))...)
			n -= 3 + k
		}
		l = append(l, o1)
		if c.P(3) {
			u, l = l, []byte{o1}
		}
	}
	if checkRun(c, u, l) {
		c.Count("within limits")
	} else {
		c.Count("beyond limits")
	}
}

// a used engine gives what a fresh one gives

// c10nest opens up to a hundred branches, one inside the other, some of them not taken.
func c10nest(c *Ctx) {
	n := c.Pick(c.Range(1, 12), c.Range(1, 101), c.Range(30, 101), 16, 17, 32, 33, 64, 65, 66, 100)
	spare := 201 - 2*n
	var l []byte
	taken := c.Pick(n, n, n-1, c.N(n)) // the first branch that is not taken
	var stack []byte                   // the branches of which the second half is open
	for i := 0; i < n; i++ {
		cond, op := byte(o1), byte(oIF)
		if c.Bool() {
			cond, op = 0, oNOTIF
		}
		if i == taken {
			cond = o1 - cond
		}
		els := byte(0)
		if spare > 0 && c.P(4) { // enter by the else branch
			els = 1
			spare--
			cond = o1 - cond
		}
		if i <= taken || c.P(4) {
			l = append(l, cond)
		}
		l = append(l, op)
		if els == 1 {
			if spare > 0 && c.Bool() {
				l = append(l, oRETURN)
				spare--
			}
			l = append(l, oELSE)
		}
		stack = append(stack, els)
	}
	l = append(l, c.push(c.Blob(c.N(4)))...)
	ends := n
	if c.P(8) {
		ends += c.Pick(-1, 1)
	}
	for i := 0; i < ends; i++ {
		if spare > 0 && c.P(6) {
			l = append(l, oELSE)
			spare--
			if c.Bool() {
				l = append(l, c.push(c.Blob(c.N(3)))...)
			}
		}
		l = append(l, oENDIF)
	}
	if c.P(3) {
		l = append(l, o1)
	}
	var u []byte
	if c.P(4) {
		u = c.push(c.stackItem())
	}
	if checkRun(c, u, l) {
		c.Count("nested branches accepted")
	}
	c.CountN("nested branches", n)
}

// c10deep works on hundreds of items.
func c10deep(c *Ctx) {
	n := c.Pick(c.Range(1, 60), c.Range(100, 300), c.Range(1, 900), 127, 128, 255, 256, 257)
	var l []byte
	for i := 0; i < n; i++ {
		if c.P(20) {
			l = append(l, c.push(c.stackItem())...)
		} else {
			l = append(l, refPush([]byte{byte(i), byte(i>>8) | 0x40})...)
		}
	}
	for i := c.Range(1, 190); i > 0; i-- {
		switch c.N(12) {
		case 0:
			l = append(l, o1)
		case 1:
			l = append(l, oHASH160)
		case 2:
			l = append(l, oSIZE)
		case 3:
			l = append(l, oDUP, oEQVERIFY)
			i--
		case 4:
			l = append(l, o2DUP)
		case 5:
			l = append(l, o3DUP)
		case 6:
			l = append(l, oDUP)
		case 7:
			l = append(l, oSWAP)
		case 8:
			if c.Bool() {
				l = append(l, oSIZE, oADD)
			} else {
				l = append(l, oEQUAL)
			}
			i--
		default:
			l = append(l, oDROP)
		}
	}
	for k := c.Pick(0, 0, n/2, n-1, c.N(n+1)); k > 0 && k < 100; k-- {
		l = append(l, oDROP)
	}
	if c.P(3) {
		l = append(l, o1)
	}
	var u []byte
	if c.P(3) && len(l) > 20 { // the first half comes from the unlocking script
		u, l = l[:3*(n/3)], l[3*(n/3):]
	}
	if checkRun(c, u, l) {
		c.Count("deep stacks accepted")
	}
	c.CountN("deep stack items", n)
}

func c10history(c *Ctx) {
	mode := c.N(nVMModes)
	e := libEngine(mode)
	for i := c.Range(3, 9); i > 0; i-- {
		var u, l []byte
		switch c.N(4) {
		case 0:
			for n := c.N(4); n > 0; n-- {
				u = append(u, c.push(c.stackItem())...)
			}
			for n := c.N(10); n > 0; n-- {
				l = append(l, c.vmOp()...)
			}
		case 1:
			v := &refVM{check: toyCheck}
			for n := c.N(4); n > 0; n-- {
				d := c.stackItem()
				u = append(u, c.push(d)...)
				v.stack = append(v.stack, d)
			}
			l = c.live(v, c.Range(1, 10))
		case 2:
			redeem := c.live(&refVM{check: toyCheck}, c.N(5))
			u = c.push(redeem)
			l = refLock(1, refHash160(redeem))
		case 3: // leaves conditionals open, or a deep stack
			u = bytes.Repeat([]byte{o1}, c.N(60))
			l = [][]byte{{o1, oIF}, {0, oIF}, {o1, o1}, {oDUP}, nil, {0, oIF, oDUP}}[c.N(6)]
		}
		if len(u) > 500 {
			continue
		}
		if c.P(4) {
			e.EnableDebug()
		} else if c.P(3) {
			e.DisableDebug()
		}
		want, v := refRun(mode, u, l)
		err := e.Verify(u, l)
		c.Note(func() string { return fmt.Sprintf("unlocking %x locking %x", u, l) })
		c.Check((err == nil) == want, "history", "a used engine (mode %d) gives %v, want %v (%s)", mode, err, want, v.why)
		c.Count("reused run")
		c.NT(u, l)
	}
	// a single script run on its own
	x := c.live(&refVM{check: toyCheck}, c.N(6))
	v := &refVM{check: toyCheck, nopRet: mode == 0, emptyOK: mode == 0}
	want := v.eval(x) && v.final()
	err := libEngine(mode).Execute(x)
	c.Note(func() string { return fmt.Sprintf("script %x", x) })
	c.Check((err == nil) == want, "execute", "Execute gives %v, want %v (%s)", err, want, v.why)
	err = e.Execute(x)
	c.Check((err == nil) == want, "execute-again", "Execute of a used engine gives %v, want %v (%s)", err, want, v.why)
	err = e.Execute(x)
	c.Check((err == nil) == want, "execute-again", "executing a second time gives %v, want %v (%s)", err, want, v.why)
}

func c10known(c *Ctx) {
	e := toyEngine()
	switch c.Idx {
	case 0:
		if e.Verify([]byte{o1}, []byte{oDROP}) == nil {
			c.Soft("empty-stack", "OP_1 / OP_DROP leaves an empty stack and succeeds")
		}
	case 1:
		if e.Verify([]byte{o1}, []byte{oRETURN}) == nil {
			c.Soft("op-return", "OP_1 / OP_RETURN succeeds")
		}
	}
	c.Eval(1)
	c.NT(c.Idx)
}

// ---- C11 ----

// topAfter runs a script and returns the traced stack at its end.
func topAfter(c *Ctx, script []byte) string {
	e := toyEngine()
	e.EnableDebug()
	e.Execute(append(append([]byte{}, script...), o1))
	t := e.Traces()
	c.Check(len(t) >= 2, "push-exec", "the script %x does not run", script)
	return t[len(t)-2].Stack
}

func c11push(c *Ctx) {
	n := c.Len(70000)
	if c.Idx < 256 {
		n = 1
	} else if c.Idx < 800 {
		n = c.Idx - 256
	} else if c.Idx < 820 {
		n = 65526 + c.Idx - 800
	}
	d := c.Blob(n)
	if c.Idx < 256 {
		d = []byte{byte(c.Idx)}
	}
	if n == 1 && d[0] == 0 {
		d[0] = 1 // recorded finding
	}
	gb, g := guarded(d, 8)
	var pre []byte
	b := xvm.NewScriptBuilder()
	if c.P(3) {
		pre = []byte{oDUP, oHASH160}
		b.AddOp(oDUP).AddOp(oHASH160)
	}
	b.AddData(gb)
	s, err := b.Script()
	c.Note(func() string { return fmt.Sprintf("data %s", hx(d)) })
	c.Check(g.ok(), "push-args", "AddData changed its argument")
	want := append(pre, refPush(d)...)
	c.Check(err == nil && bytes.Equal(s, want), "push-bytes", "pushing %d bytes gives %s, want %s", n, hx(s), hx(want))
	h, err := b.Hash160()
	c.Check(err == nil && bytes.Equal(h, refHash160(want)), "push-hash", "Hash160 of the script is %x", h)
	// parsing gives it back
	one := want[len(pre):]
	ins, err := xvm.NewScriptReader(one).AllInstructions()
	c.Check(err == nil && len(ins) == 1, "push-parse", "%d instructions, %v", len(ins), err)
	if len(one) > 1 {
		c.Check(bytes.Equal(ins[0].Data(), d), "push-parse", "parsed data is %s", hx(ins[0].Data()))
	} else {
		c.Check(ins[0].OpCode() == one[0], "push-parse", "parsed opcode is %x", ins[0].OpCode())
	}
	// running it puts it on the stack
	if n <= 520 {
		c.Check(topAfter(c, one) == refStackString([][]byte{d}), "push-exec", "executing leaves %q", topAfter(c, one))
		c.Count("pushed value executed")
	}
	// parts of a builder
	if c.Bool() { // an error stays until then
		_, err = b.Load("OP_NOSUCHTHING").Script()
		_, err2 := b.Hash160()
		c.Check(err != nil && err2 != nil, "load-unknown", "an unknown word gives %v, and %v for the hash", err, err2)
	}
	b.Reset()
	s2, err := b.AddOp(oDROP).Script()
	c.Check(bytes.Equal(s, want), "push-kept", "starting the next script changed this one into %s", hx(s))
	s = s2
	c.Check(err == nil && bytes.Equal(s, []byte{oDROP}), "push-reset", "after Reset the script is %x (%v)", s, err)
	c.NT(d)
	c.Sample("%d bytes %s", n, hx(d))
}

func (c *Ctx) int64e() int64 {
	switch c.N(7) {
	case 0:
		return int64(c.N(70) - 35)
	case 1:
		return []int64{math.MinInt64, math.MaxInt64, math.MinInt64 + 1, math.MaxInt64 - 1, math.MaxInt32, math.MinInt32, 1 << 31, -(1 << 31), 1<<39 - 1, 1 << 39, 0, -1}[c.N(12)]
	case 2, 3: // around powers of 128 and 256
		v := int64(1) << uint(c.N(63))
		v += int64(c.N(5) - 2)
		if c.Bool() {
			v = -v
		}
		return v
	}
	return int64(c.U64()) >> uint(c.N(64))
}

func c11ints(c *Ctx) {
	v := c.int64e()
	if c.Idx < 600 {
		v = int64(c.Idx - 300)
	}
	s, err := xvm.NewScriptBuilder().AddInt64(v).Script()
	c.Note(func() string { return fmt.Sprintf("%d", v) })
	want := refPush(refNumEncode(v))
	c.Check(err == nil && bytes.Equal(s, want), "int-bytes", "AddInt64 gives %x, want %x", s, want)
	c.Check(topAfter(c, s) == refStackString([][]byte{refNumEncode(v)}), "int-exec", "executing leaves %q", topAfter(c, s))
	// arithmetic sees the number
	if v > -(1<<31) && v < 1<<31 {
		e := toyEngine()
		sc := joinOps([][]byte{s, {0, oADD}, want, {oEQUAL}})
		c.Check(e.Execute(sc) == nil, "int-add", "n + 0 == n fails")
	}
	c.NT(v)
}

func c11nums(c *Ctx) {
	if c.Bool() {
		v := c.int64e()
		c.Note(func() string { return fmt.Sprintf("%d", v) })
		b := xvm.ScriptNum(v).Bytes()
		want := refNumEncode(v)
		c.Check(bytes.Equal(b, want), "num-encode", "encodes to %x, want %x", b, want)
		for _, w := range []int{len(b), len(b) + 1, 9} {
			n, err := xvm.MakeScriptNum(dup(b), w)
			c.Check(err == nil && int64(n) == v, "num-roundtrip", "%x decodes to %d at width %d: %v", b, int64(n), w, err)
		}
		if len(b) > 0 {
			_, err := xvm.MakeScriptNum(b, len(b)-1)
			c.Check(err != nil, "num-overlong", "%x is accepted with width %d", b, len(b)-1)
		}
		i := xvm.ScriptNum(v).Int32()
		w := v
		if w > math.MaxInt32 {
			w = math.MaxInt32
		} else if w < math.MinInt32 {
			w = math.MinInt32
		}
		c.Check(int64(i) == w, "num-int32", "clamps to %d, want %d", i, w)
		c.NT(v)
		return
	}
	b := c.numItem()
	if c.P(4) {
		b = c.Blob(c.N(9))
	}
	w := c.Pick(4, 4, 5, 8)
	c.Note(func() string { return fmt.Sprintf("%x width %d", b, w) })
	gb, g := guarded(b, 8)
	n, err := xvm.MakeScriptNum(gb, w)
	c.Check(g.ok(), "num-args", "decoding changed its argument")
	want, ok := refNumDecode(b, w)
	if !ok {
		c.Check(err != nil, "num-accepts", "accepted as %d", int64(n))
		c.Count("refused encoding")
	} else {
		c.Check(err == nil && int64(n) == want, "num-decode", "decodes to %d (%v), want %d", int64(n), err, want)
		c.Check(bytes.Equal(n.Bytes(), b), "num-reencode", "encodes again to %x", n.Bytes())
		c.Count("accepted encoding")
	}
	c.NT(b, w)
}

func c11load(c *Ctx) {
	var toks []string
	var want []byte
	bad := c.P(8)
	n := c.Range(1, 12)
	at := c.N(n)
	for i := 0; i < n; i++ {
		if bad && i == at {
			toks = append(toks, []string{"OP_FOO", "op_1", "0xabc", "0xzz", "x12", "'", "1.5", "OP_DATA_76", "OP_17", "9223372036854775808", "-9223372036854775809", "0x1g", "deadbeef", "'ab", "ab'", "OP_"}[c.N(16)])
			continue
		}
		switch c.N(6) {
		case 0: // any name
			ops := supportedOps
			op := ops[c.N(len(ops))]
			if c.P(3) {
				op = byte(c.Range(1, 75)) // a bare OP_DATA_n, data follows as hex
				d := c.Blob(int(op))
				toks = append(toks, refOpNames[op], fmt.Sprintf("0x%x", d))
				want = append(append(want, op), d...)
				break
			}
			toks = append(toks, refOpNames[op])
			want = append(want, op)
		case 1:
			name := []string{"OP_FALSE", "OP_TRUE"}[c.N(2)]
			toks = append(toks, name)
			want = append(want, map[string]byte{"OP_FALSE": 0, "OP_TRUE": o1}[name])
		case 2:
			v := c.int64e()
			toks = append(toks, fmt.Sprint(v))
			want = append(want, refPush(refNumEncode(v))...)
		case 3: // raw bytes
			d := c.Blob(c.N(30))
			toks = append(toks, fmt.Sprintf("0x%x", d))
			want = append(want, d...)
		case 4: // data
			d := c.Blob(c.Len(c.Pick(700, 700, 700, 3000)))
			if len(d) == 0 || (len(d) == 1 && d[0] == 0) {
				d = []byte{9, 9}
			}
			f := "'%x'"
			if c.P(3) {
				f = "'%X'"
			}
			toks = append(toks, fmt.Sprintf(f, d))
			want = append(want, refPush(d)...)
		case 5:
			d := c.Blob(c.Range(76, 200))
			toks = append(toks, "OP_PUSHDATA1", fmt.Sprintf("0x%02x%x", len(d), d))
			want = append(append(want, oPUSHDATA1, byte(len(d))), d...)
		}
	}
	var sb strings.Builder
	for i, t := range toks {
		if i > 0 {
			sb.WriteString([]string{" ", " ", " ", "\n", "\t"}[c.N(5)])
		}
		sb.WriteString(t)
	}
	text := sb.String()
	c.Note(func() string { return fmt.Sprintf("%q", text) })
	s, err := xvm.NewScriptBuilder().Load(text).Script()
	if bad {
		c.Check(err != nil, "load-accepts", "the listing is accepted as %x", s)
		c.Count("bad listing")
	} else {
		c.Check(err == nil && bytes.Equal(s, want), "load-bytes", "gives %s (%v), want %s", hx(s), err, hx(want))
		c.Count("listing")
	}
	c.NT(text)
	c.Sample("%q", text)
}

func (c *Ctx) anyScript() []byte {
	switch c.N(4) {
	case 0:
		return c.Blob(c.N(60))
	case 1:
		s := c.live(&refVM{check: toyCheck}, c.Range(1, 10))
		return s[:c.N(len(s)+1)]
	}
	var s []byte
	for n := c.N(12); n > 0; n-- {
		if c.P(4) {
			s = append(s, c.push(c.Blob(c.Len(300)))...)
		} else {
			s = append(s, c.vmOp()...)
		}
	}
	return s
}

func c11parse(c *Ctx) {
	s := c.anyScript()
	if c.P(3) {
		s = c.mutate(s)
	}
	c.Note(func() string { return hx(s) })
	gb, g := guarded(s, 8)
	ins, err := xvm.NewScriptReader(gb).AllInstructions()
	text := xvm.DisasmString(gb)
	ops, ok := refParse(s)
	c.Check((err == nil) == ok, "parse-verdict", "parsing gives %v, the script is valid: %v", err, ok)
	// step by step
	r := xvm.NewScriptReader(gb)
	for i := 0; ; i++ {
		in, err := r.NextInstruction()
		if err != nil {
			c.Check(!ok && i == len(ops), "parse-step", "instruction %d of %d: %v", i, len(ops), err)
			break
		}
		if in == nil {
			c.Check(ok && i == len(ops), "parse-step", "the script ends after %d of %d instructions", i, len(ops))
			break
		}
		c.Check(i < len(ops) && in.OpCode() == ops[i].op && bytes.Equal(in.Data(), ops[i].data), "parse-step", "instruction %d is %x %x", i, in.OpCode(), in.Data())
		if ok {
			c.Check(words(r.DisasmRemaining()) == refDisasm(ops[i+1:]), "disasm-remaining", "after instruction %d: %q", i, r.DisasmRemaining())
		}
	}
	if ok {
		c.Check(len(ins) == len(ops), "parse-count", "%d instructions, want %d", len(ins), len(ops))
		for i := range ins {
			c.Check(ins[i].OpCode() == ops[i].op && bytes.Equal(ins[i].Data(), ops[i].data), "parse-content", "instruction %d is %x %x", i, ins[i].OpCode(), ins[i].Data())
		}
		c.Check(words(text) == refDisasm(ops), "disasm", "prints %q, want %q", text, refDisasm(ops))
		// the printed form of a plain listing gives the script back
		var toks []string
		plain := true
		for _, o := range ops {
			toks = append(toks, refOpNames[o.op])
			if o.isPush {
				if o.op > 75 {
					plain = false
				}
				toks = append(toks, fmt.Sprintf("0x%x", o.data))
			}
		}
		if plain && len(toks) > 0 {
			back, err := xvm.NewScriptBuilder().Load(strings.Join(toks, " ")).Script()
			c.Check(err == nil && bytes.Equal(back, s), "load-print", "the listing loads as %x (%v)", back, err)
			c.Count("reloaded listing")
		}
		c.Count("valid script")
	} else {
		c.Check(text != "", "disasm-error", "a malformed script prints as nothing")
		c.Count("malformed script")
	}
	c.Check(g.ok(), "parse-args", "parsing changed the script")
	c.NT(s)
}

func c11remove(c *Ctx) {
	s := c.anyScript()
	ops, ok := refParse(s)
	op := supportedOps[c.N(len(supportedOps))]
	if len(ops) > 0 && c.N(3) > 0 {
		op = ops[c.N(len(ops))].op
	}
	c.Note(func() string { return fmt.Sprintf("%x without %x", s, op) })
	want := s
	if ok {
		want = nil
		for _, o := range ops {
			if o.op != op {
				want = append(want, o.raw...)
			}
		}
	}
	gb, g := guarded(s, 8)
	got := xvm.RemoveOpcode(gb, op)
	c.Check(bytes.Equal(got, want), "remove", "gives %x, want %x", got, want)
	c.Check(g.ok(), "remove-args", "removing changed the script")
	c.NT(s, op)
}

func c11known(c *Ctx) {
	switch c.Idx {
	case 0:
		s, _ := xvm.NewScriptBuilder().AddData([]byte{0}).Script()
		if !bytes.Equal(s, []byte{1, 0}) {
			c.Soft("push-zero-byte", "AddData of the single byte 00 emits %x, which pushes an empty item", s)
		}
	case 1:
		s, err := xvm.NewScriptBuilder().Load("'abc'").Script()
		if err == nil {
			c.Soft("load-odd-hex", "the listing 'abc' loads as %x", s)
		}
	}
	c.Eval(1)
	c.NT(c.Idx)
}

// c10stack uses the stack type on its own, against a slice of values.
func c10stack(c *Ctx) {
	s := xvm.NewStack()
	var m [][]byte
	var trace []string
	c.Note(func() string { return fmt.Sprint(trace) })
	var copies []*xvm.Stack
	var copied [][][]byte
	for k := c.Range(5, 40); k > 0; k-- {
		n := c.Range(-1, 5)
		op := c.N(13)
		trace = append(trace, fmt.Sprintf("%d(%d)", op, n))
		switch op {
		case 0, 1, 2:
			d := c.stackItem()
			s.PushByteArray(d)
			m = append(m, dup(d))
		case 3:
			v := c.int64e()
			s.PushInt(xvm.ScriptNum(v))
			m = append(m, refNumEncode(v))
		case 4:
			b := c.Bool()
			s.PushBool(b)
			m = append(m, map[bool][]byte{true: {1}, false: {}}[b])
		case 5:
			got, err := s.PopByteArray()
			c.Check((err == nil) == (len(m) > 0), "stack-pop", "popping from %d items: %v", len(m), err)
			if len(m) > 0 {
				c.Check(bytes.Equal(got, m[len(m)-1]), "stack-pop", "popped %x, want %x", got, m[len(m)-1])
				m = m[:len(m)-1]
			}
		case 6:
			got, err := s.PopInt()
			if len(m) == 0 {
				c.Check(err != nil, "stack-int", "a number from an empty stack")
				break
			}
			want, ok := refNumDecode(m[len(m)-1], 4)
			c.Check((err == nil) == ok && (!ok || int64(got) == want), "stack-int", "the number of %x is %d, %v", m[len(m)-1], got, err)
			m = m[:len(m)-1]
		case 7:
			got, err := s.PopBool()
			c.Check((err == nil) == (len(m) > 0), "stack-bool", "a boolean from %d items: %v", len(m), err)
			if len(m) > 0 {
				c.Check(got == refBool(m[len(m)-1]), "stack-bool", "%x as boolean is %v", m[len(m)-1], got)
				m = m[:len(m)-1]
			}
		case 8:
			got, err := s.PeekByteArray(n)
			ok := n >= 0 && n < len(m)
			c.Check((err == nil) == ok && (!ok || bytes.Equal(got, m[len(m)-1-n])), "stack-peek", "item %d of %d is %x, %v", n, len(m), got, err)
		case 9:
			if ok := n >= 1 && n <= len(m); ok {
				c.Check(s.DupN(n) == nil, "stack-dup", "duplicating %d of %d fails", n, len(m))
				m = append(m, m[len(m)-n:]...)
			} else if n < 1 {
				c.Check(s.DupN(n) != nil, "stack-dup", "duplicating %d", n)
			} else {
				c.Check(s.Copy().DupN(n) != nil, "stack-dup", "duplicating %d of %d", n, len(m))
			}
		case 10:
			if ok := n >= 1 && n <= len(m); ok {
				c.Check(s.DropN(int32(n)) == nil, "stack-drop", "dropping %d of %d fails", n, len(m))
				m = m[:len(m)-n]
			} else if n < 1 {
				c.Check(s.DropN(int32(n)) != nil, "stack-drop", "dropping %d", n)
			} else {
				c.Check(s.Copy().DropN(int32(n)) != nil, "stack-drop", "dropping %d of %d", n, len(m))
			}
		case 11:
			if ok := n >= 1 && 2*n <= len(m); ok {
				c.Check(s.SwapN(int32(n)) == nil, "stack-swap", "swapping %d of %d fails", n, len(m))
				k := len(m)
				m = append(append(append([][]byte{}, m[:k-2*n]...), m[k-n:]...), m[k-2*n:k-n]...)
			} else if n < 1 {
				c.Check(s.SwapN(int32(n)) != nil, "stack-swap", "swapping %d", n)
			} else {
				c.Check(s.Copy().SwapN(int32(n)) != nil, "stack-swap", "swapping %d of %d", n, len(m))
			}
		case 12:
			if c.P(8) {
				s.Clean()
				m = nil
			} else {
				copies = append(copies, s.Copy())
				copied = append(copied, append([][]byte{}, m...))
			}
		}
		c.Check(s.Depth() == len(m), "stack-depth", "the depth is %d, want %d", s.Depth(), len(m))
		c.Check(s.String() == refStackString(m), "stack-string", "the stack prints as %q, want %q", s.String(), refStackString(m))
	}
	for i, cp := range copies {
		c.Check(cp.String() == refStackString(copied[i]), "stack-copy", "a copy has become %q, was %q", cp.String(), refStackString(copied[i]))
	}
	c.NT(s.String(), trace)
}

// c11constants compares the opcode constants with Bitcoin's bytes.
func c11constants(c *Ctx) {
	for _, o := range opConstants {
		c.Check(o.got == o.want, "op-constant", "%s is %02x, in Bitcoin it is %02x", o.name, o.got, o.want)
		c.NT(o.name)
	}
}
