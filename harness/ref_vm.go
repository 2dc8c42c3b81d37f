package main

import (
	"bytes"
	"fmt"
	"strings"
)

// Reference interpreter for the supported opcodes, written from Bitcoin's script rules
// (minimal numbers and minimal IF arguments enforced, pay-to-script-hash active).

const (
	oPUSHDATA1 = 0x4c
	oPUSHDATA2 = 0x4d
	oPUSHDATA4 = 0x4e
	o1NEGATE   = 0x4f
	o1         = 0x51
	o16        = 0x60
	oIF        = 0x63
	oNOTIF     = 0x64
	oELSE      = 0x67
	oENDIF     = 0x68
	oRETURN    = 0x6a
	o2DUP      = 0x6e
	o3DUP      = 0x6f
	oDROP      = 0x75
	oDUP       = 0x76
	oSWAP      = 0x7c
	oSIZE      = 0x82
	oEQUAL     = 0x87
	oEQVERIFY  = 0x88
	oADD       = 0x93
	oHASH160   = 0xa9
	oCHECKSIG  = 0xac
	oCSVERIFY  = 0xad
	oCMS       = 0xae
	oCMSVERIFY = 0xaf
)

var refOpNames = map[byte]string{
	0: "OP_0", oPUSHDATA1: "OP_PUSHDATA1", oPUSHDATA2: "OP_PUSHDATA2", oPUSHDATA4: "OP_PUSHDATA4", o1NEGATE: "OP_1NEGATE",
	oIF: "OP_IF", oNOTIF: "OP_NOTIF", oELSE: "OP_ELSE", oENDIF: "OP_ENDIF", oRETURN: "OP_RETURN",
	o2DUP: "OP_2DUP", o3DUP: "OP_3DUP", oDROP: "OP_DROP", oDUP: "OP_DUP", oSWAP: "OP_SWAP", oSIZE: "OP_SIZE",
	oEQUAL: "OP_EQUAL", oEQVERIFY: "OP_EQUALVERIFY", oADD: "OP_ADD", oHASH160: "OP_HASH160",
	oCHECKSIG: "OP_CHECKSIG", oCSVERIFY: "OP_CHECKSIGVERIFY", oCMS: "OP_CHECKMULTISIG", oCMSVERIFY: "OP_CHECKMULTISIGVERIFY",
}

func init() {
	for i := 1; i <= 75; i++ {
		refOpNames[byte(i)] = fmt.Sprintf("OP_DATA_%d", i)
	}
	for i := 0; i < 16; i++ {
		refOpNames[byte(o1+i)] = fmt.Sprintf("OP_%d", i+1)
	}
}

// rop is one parsed instruction.
type rop struct {
	op     byte
	data   []byte
	isPush bool // carries bytes of its own (OP_DATA_n, PUSHDATA)
	raw    []byte
}

// refParse splits a script; ok is false when it holds an unsupported opcode or a truncated push.
// The instructions before the fault are returned.
func refParse(s []byte) (ops []rop, ok bool) {
	for i := 0; i < len(s); {
		op := s[i]
		if _, known := refOpNames[op]; !known {
			return ops, false
		}
		j := i + 1
		n := 0
		push := true
		switch {
		case op >= 1 && op <= 75:
			n = int(op)
		case op == oPUSHDATA1:
			if j+1 > len(s) {
				return ops, false
			}
			n = int(s[j])
			j++
		case op == oPUSHDATA2:
			if j+2 > len(s) {
				return ops, false
			}
			n = int(s[j]) | int(s[j+1])<<8
			j += 2
		case op == oPUSHDATA4:
			if j+4 > len(s) {
				return ops, false
			}
			n = int(s[j]) | int(s[j+1])<<8 | int(s[j+2])<<16 | int(s[j+3])<<24
			j += 4
		default:
			push = false
		}
		if n > len(s)-j {
			return ops, false
		}
		r := rop{op: op, isPush: push, raw: s[i : j+n]}
		if push {
			r.data = s[j : j+n]
		}
		ops = append(ops, r)
		i = j + n
	}
	return ops, true
}

// refPush is the shortest standard push of the data.
func refPush(d []byte) []byte {
	n := len(d)
	switch {
	case n == 0:
		return []byte{0}
	case n == 1 && d[0] >= 1 && d[0] <= 16:
		return []byte{o1 - 1 + d[0]}
	case n == 1 && d[0] == 0x81:
		return []byte{o1NEGATE}
	case n <= 75:
		return append([]byte{byte(n)}, d...)
	case n <= 255:
		return append([]byte{oPUSHDATA1, byte(n)}, d...)
	case n <= 65535:
		return append([]byte{oPUSHDATA2, byte(n), byte(n >> 8)}, d...)
	}
	return append([]byte{oPUSHDATA4, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}, d...)
}

// plainPush pushes with OP_DATA_n/PUSHDATA even where a shorter opcode exists.
func plainPush(d []byte) []byte {
	if len(d) == 1 {
		return []byte{1, d[0]}
	}
	return refPush(d)
}

func refNumEncode(v int64) []byte {
	if v == 0 {
		return nil
	}
	neg := v < 0
	a := uint64(v)
	if neg {
		a = -a
	}
	var o []byte
	for ; a > 0; a >>= 8 {
		o = append(o, byte(a))
	}
	if o[len(o)-1]&0x80 != 0 {
		o = append(o, 0)
	}
	if neg {
		o[len(o)-1] |= 0x80
	}
	return o
}

func refNumDecode(b []byte, max int) (int64, bool) {
	if len(b) > max {
		return 0, false
	}
	if len(b) == 0 {
		return 0, true
	}
	// minimal: dropping the top byte must not be possible
	if b[len(b)-1]&0x7f == 0 && (len(b) == 1 || b[len(b)-2]&0x80 == 0) {
		return 0, false
	}
	var v uint64
	for i := range b {
		x := b[i]
		if i == len(b)-1 {
			x &= 0x7f
		}
		if i < 8 {
			v |= uint64(x) << uint(8*i)
		}
	}
	if b[len(b)-1]&0x80 != 0 {
		return -int64(v), true
	}
	return int64(v), true
}

func refBool(b []byte) bool {
	for i, x := range b {
		if x != 0 {
			return !(i == len(b)-1 && x == 0x80)
		}
	}
	return false
}

type refTrace struct{ name, stack, remaining string }

type refVM struct {
	stack [][]byte
	cond  []bool
	// check decides a signature (with its hash type byte) under a key.
	check   func(sig, pub []byte) bool
	nopRet  bool // documented deviation: an executed OP_RETURN does nothing
	emptyOK bool // documented deviation: an empty final stack is success (legacy)
	// sigEnc is the encoding rule of BIP66: a signature that breaks it fails the script.
	sigEnc func(sig []byte) bool
	ops    int
	depth  int
	clean  bool // exactly one item must be left
	// the disassembly of what follows the script being run
	suffix   string
	suffixOK bool
	traces   []refTrace
	trace    bool
	why      string
	executed int
}

func (v *refVM) fail(f string, a ...interface{}) bool {
	v.why = fmt.Sprintf(f, a...)
	return false
}

func refStackString(st [][]byte) string {
	if len(st) == 0 {
		return " <empty> "
	}
	s := ""
	for _, x := range st {
		if len(x) == 0 {
			s += " <empty> "
		} else {
			s += fmt.Sprintf(" <%x> ", x)
		}
	}
	return s
}

// refDisasm is the textual form of a script that parses.
func refDisasm(ops []rop) string {
	s := ""
	for i, o := range ops {
		if i > 0 {
			s += " "
		}
		s += refOpNames[o.op]
		if len(o.data) > 0 {
			s += " " + fmt.Sprintf("%x", o.data)
		}
	}
	return s
}

// words removes differences of spacing (an empty push may or may not print as a word).
func words(s string) string { return strings.Join(strings.Fields(s), " ") }

func (v *refVM) pop() []byte {
	x := v.stack[len(v.stack)-1]
	v.stack = v.stack[:len(v.stack)-1]
	return x
}

func (v *refVM) push(b []byte) { v.stack = append(v.stack[:len(v.stack):len(v.stack)], b) }

func boolBytes(b bool) []byte {
	if b {
		return []byte{1}
	}
	return nil
}

// step runs one instruction.
func (v *refVM) step(o rop) bool {
	exec := true
	for _, c := range v.cond {
		exec = exec && c
	}
	if len(o.data) > 520 {
		return v.fail("push of %d bytes", len(o.data))
	}
	if o.op > o16 {
		if v.ops++; v.ops > 201 {
			return v.fail("too many operations")
		}
	}
	switch o.op {
	case oIF, oNOTIF:
		val := false
		if exec {
			if len(v.stack) < 1 {
				return v.fail("IF without argument")
			}
			x := v.pop()
			if len(x) > 1 || (len(x) == 1 && x[0] != 1) {
				return v.fail("IF argument not minimal")
			}
			val = refBool(x)
			if o.op == oNOTIF {
				val = !val
			}
		}
		v.cond = append(v.cond, val)
		return true
	case oELSE:
		if len(v.cond) == 0 {
			return v.fail("ELSE without IF")
		}
		v.cond[len(v.cond)-1] = !v.cond[len(v.cond)-1]
		return true
	case oENDIF:
		if len(v.cond) == 0 {
			return v.fail("ENDIF without IF")
		}
		v.cond = v.cond[:len(v.cond)-1]
		return true
	}
	if !exec {
		return true
	}
	v.executed++
	need := map[byte]int{oDROP: 1, oDUP: 1, o2DUP: 2, o3DUP: 3, oSWAP: 2, oSIZE: 1, oEQUAL: 2, oEQVERIFY: 2, oADD: 2, oHASH160: 1, oCHECKSIG: 2, oCSVERIFY: 2}[o.op]
	if len(v.stack) < need {
		return v.fail("%s with %d items", refOpNames[o.op], len(v.stack))
	}
	n := len(v.stack)
	switch {
	case o.op == 0:
		v.push(nil)
	case o.isPush:
		v.push(o.data)
	case o.op == o1NEGATE:
		v.push([]byte{0x81})
	case o.op >= o1 && o.op <= o16:
		v.push([]byte{o.op - o1 + 1})
	case o.op == oRETURN:
		if !v.nopRet {
			return v.fail("RETURN")
		}
	case o.op == oDROP:
		v.pop()
	case o.op == oDUP:
		v.push(v.stack[n-1])
	case o.op == o2DUP:
		a, b := v.stack[n-2], v.stack[n-1]
		v.push(a)
		v.push(b)
	case o.op == o3DUP:
		a, b, d := v.stack[n-3], v.stack[n-2], v.stack[n-1]
		v.push(a)
		v.push(b)
		v.push(d)
	case o.op == oSWAP:
		b := v.pop()
		a := v.pop()
		v.push(b)
		v.push(a)
	case o.op == oSIZE:
		v.push(refNumEncode(int64(len(v.stack[n-1]))))
	case o.op == oEQUAL, o.op == oEQVERIFY:
		eq := bytes.Equal(v.pop(), v.pop())
		if o.op == oEQUAL {
			v.push(boolBytes(eq))
		} else if !eq {
			return v.fail("EQUALVERIFY")
		}
	case o.op == oADD:
		a, ok1 := refNumDecode(v.pop(), 4)
		b, ok2 := refNumDecode(v.pop(), 4)
		if !ok1 || !ok2 {
			return v.fail("ADD of a bad number")
		}
		v.push(refNumEncode(a + b))
	case o.op == oHASH160:
		v.push(refHash160(v.pop()))
	case o.op == oCHECKSIG, o.op == oCSVERIFY:
		pub, sig := v.pop(), v.pop()
		if len(sig) > 0 && v.sigEnc != nil && !v.sigEnc(sig) {
			return v.fail("signature encoding")
		}
		ok := len(sig) > 0 && v.check(sig, pub)
		if o.op == oCHECKSIG {
			v.push(boolBytes(ok))
		} else if !ok {
			return v.fail("CHECKSIGVERIFY")
		}
	case o.op == oCMS, o.op == oCMSVERIFY:
		count := func(max int) (int, bool) {
			if len(v.stack) < 1 {
				return 0, v.fail("CHECKMULTISIG underflow")
			}
			k, ok := refNumDecode(v.pop(), 4)
			if !ok || k < 0 || k > int64(max) {
				return 0, v.fail("CHECKMULTISIG count")
			}
			if len(v.stack) < int(k) {
				return 0, v.fail("CHECKMULTISIG underflow")
			}
			return int(k), true
		}
		nk, ok := count(20)
		if !ok {
			return false
		}
		if v.ops += nk; v.ops > 201 {
			return v.fail("too many operations")
		}
		keys := append([][]byte{}, v.stack[len(v.stack)-nk:]...) // in script order
		v.stack = v.stack[:len(v.stack)-nk]
		ns, ok := count(nk)
		if !ok {
			return false
		}
		sigs := append([][]byte{}, v.stack[len(v.stack)-ns:]...)
		v.stack = v.stack[:len(v.stack)-ns]
		if len(v.stack) < 1 {
			return v.fail("CHECKMULTISIG without dummy")
		}
		if d := v.pop(); len(d) > 0 {
			return v.fail("multisig dummy")
		}
		// signatures must match keys in the same order: a subsequence embedding,
		// compared from the top of the stack down, as long as enough keys are left
		res := true
		for i, j := len(sigs)-1, len(keys)-1; i >= 0; j-- {
			if i > j {
				res = false
				break
			}
			if len(sigs[i]) > 0 && v.sigEnc != nil && !v.sigEnc(sigs[i]) {
				return v.fail("signature encoding")
			}
			if len(sigs[i]) > 0 && v.check(sigs[i], keys[j]) {
				i--
			}
		}
		if o.op == oCMS {
			v.push(boolBytes(res))
		} else if !res {
			return v.fail("CHECKMULTISIGVERIFY")
		}
	default:
		return v.fail("unsupported %x", o.op)
	}
	return true
}

// eval runs a whole script on the current stack.
func (v *refVM) eval(script []byte) bool {
	ops, ok := refParse(script)
	v.cond, v.ops = nil, 0
	if len(script) > 10000 {
		return v.fail("script of %d bytes", len(script))
	}
	for i, o := range ops {
		if !v.step(o) {
			return false
		}
		if len(v.stack) > 1000 {
			return v.fail("stack of %d items", len(v.stack))
		}
		if v.trace {
			rem := "?"
			if ok && (v.suffixOK || v.suffix != "") {
				rem = refDisasm(ops[i+1:])
				if rem != "" && v.suffix != "" {
					rem += " "
				}
				rem += v.suffix
			}
			v.traces = append(v.traces, refTrace{refOpNames[o.op], refStackString(v.stack), rem})
		}
	}
	if !ok {
		return v.fail("malformed or unsupported script")
	}
	if len(v.cond) != 0 {
		return v.fail("unbalanced conditional")
	}
	return true
}

func (v *refVM) final() bool {
	v.depth = len(v.stack)
	if len(v.stack) == 0 {
		if v.emptyOK {
			return true
		}
		return v.fail("empty final stack")
	}
	if !refBool(v.stack[len(v.stack)-1]) {
		return v.fail("false final stack")
	}
	return true
}

func refPushOnly(s []byte) bool {
	ops, ok := refParse(s)
	if !ok {
		return false
	}
	for _, o := range ops {
		if o.op > o16 {
			return false
		}
	}
	return true
}

func refIsP2SH(s []byte) bool {
	return len(s) == 23 && s[0] == oHASH160 && s[1] == 20 && s[22] == oEQUAL
}

// verify evaluates an unlocking and a locking script as Bitcoin does.
func (v *refVM) verify(unlocking, locking []byte) bool {
	p2sh := refIsP2SH(locking)
	if p2sh && !refPushOnly(unlocking) {
		return v.fail("unlocking script is not push only")
	}
	v.stack = nil
	tr := v.trace
	v.trace = false
	if !v.eval(unlocking) {
		return false
	}
	saved := append([][]byte{}, v.stack...)
	v.trace = tr
	if !v.eval(locking) || !v.final() {
		return false
	}
	if p2sh {
		if len(saved) == 0 {
			return v.fail("pay-to-script-hash without redeem script")
		}
		v.stack = saved
		redeem := v.pop()
		if !v.eval(redeem) || !v.final() {
			return false
		}
	}
	if v.clean && v.depth != 1 {
		return v.fail("stack not clean")
	}
	return true
}
