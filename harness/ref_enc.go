package main

import (
	"crypto/sha256"
	"encoding/binary"
	"math/big"
	"math/bits"
	"strings"
)

// ---- hashes ----

func sha256d(b []byte) []byte {
	h := sha256.Sum256(b)
	h = sha256.Sum256(h[:])
	return h[:]
}

func sha256b(b []byte) []byte {
	h := sha256.Sum256(b)
	return h[:]
}

var (
	rmdR1 = [80]uint{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8, 3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2, 4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13}
	rmdR2 = [80]uint{5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2, 15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14, 12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11}
	rmdS1 = [80]int{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12, 11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12, 9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6}
	rmdS2 = [80]int{8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11, 9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8, 8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11}
	rmdK1 = [5]uint32{0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e}
	rmdK2 = [5]uint32{0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0}
)

func rmdF(j int, x, y, z uint32) uint32 {
	switch j / 16 {
	case 0:
		return x ^ y ^ z
	case 1:
		return (x & y) | (^x & z)
	case 2:
		return (x | ^y) ^ z
	case 3:
		return (x & z) | (y &^ z)
	}
	return x ^ (y | ^z)
}

// refRipemd160 is the specification's pseudo-code.
func refRipemd160(msg []byte) []byte {
	h := [5]uint32{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}
	p := append([]byte{}, msg...)
	p = append(p, 0x80)
	for len(p)%64 != 56 {
		p = append(p, 0)
	}
	var l [8]byte
	binary.LittleEndian.PutUint64(l[:], uint64(len(msg))*8)
	p = append(p, l[:]...)
	for ; len(p) > 0; p = p[64:] {
		var x [16]uint32
		for i := range x {
			x[i] = binary.LittleEndian.Uint32(p[4*i:])
		}
		a, b, c, d, e := h[0], h[1], h[2], h[3], h[4]
		aa, bb, cc, dd, ee := a, b, c, d, e
		for j := 0; j < 80; j++ {
			t := bits.RotateLeft32(a+rmdF(j, b, c, d)+x[rmdR1[j]]+rmdK1[j/16], rmdS1[j]) + e
			a, e, d, c, b = e, d, bits.RotateLeft32(c, 10), b, t
			t = bits.RotateLeft32(aa+rmdF(79-j, bb, cc, dd)+x[rmdR2[j]]+rmdK2[j/16], rmdS2[j]) + ee
			aa, ee, dd, cc, bb = ee, dd, bits.RotateLeft32(cc, 10), bb, t
		}
		t := h[1] + c + dd
		h[1] = h[2] + d + ee
		h[2] = h[3] + e + aa
		h[3] = h[4] + a + bb
		h[4] = h[0] + b + cc
		h[0] = t
	}
	o := make([]byte, 20)
	for i, v := range h {
		binary.LittleEndian.PutUint32(o[4*i:], v)
	}
	return o
}

func refHash160(b []byte) []byte { return refRipemd160(sha256b(b)) }

// ---- base58 (schoolbook, no big integers) ----

const b58alpha = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func refB58Encode(b []byte) string {
	zeros := 0
	for zeros < len(b) && b[zeros] == 0 {
		zeros++
	}
	var digits []byte // little-endian base 58
	for _, c := range b[zeros:] {
		carry := int(c)
		for i := range digits {
			carry += int(digits[i]) << 8
			digits[i] = byte(carry % 58)
			carry /= 58
		}
		for carry > 0 {
			digits = append(digits, byte(carry%58))
			carry /= 58
		}
	}
	var sb strings.Builder
	for i := 0; i < zeros; i++ {
		sb.WriteByte('1')
	}
	for i := len(digits) - 1; i >= 0; i-- {
		sb.WriteByte(b58alpha[digits[i]])
	}
	return sb.String()
}

func refB58Decode(s string) ([]byte, bool) {
	zeros := 0
	for zeros < len(s) && s[zeros] == '1' {
		zeros++
	}
	var out []byte // little-endian base 256
	for i := zeros; i < len(s); i++ {
		carry := strings.IndexByte(b58alpha, s[i])
		if carry < 0 {
			return nil, false
		}
		for j := range out {
			carry += int(out[j]) * 58
			out[j] = byte(carry)
			carry >>= 8
		}
		for carry > 0 {
			out = append(out, byte(carry))
			carry >>= 8
		}
	}
	r := make([]byte, zeros, zeros+len(out))
	for i := len(out) - 1; i >= 0; i-- {
		r = append(r, out[i])
	}
	return r, true
}

func refB58CheckEncode(payload []byte, version byte) string {
	b := append([]byte{version}, payload...)
	return refB58Encode(append(b, sha256d(b)[:4]...))
}

func refB58CheckDecode(s string) ([]byte, byte, bool) {
	b, ok := refB58Decode(s)
	if !ok || len(b) < 5 {
		return nil, 0, false
	}
	n := len(b) - 4
	if string(sha256d(b[:n])[:4]) != string(b[n:]) {
		return nil, 0, false
	}
	return b[1:n], b[0], true
}

// ---- bech32 (BIP173) ----

const bechAlpha = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

func bechPoly(v []byte) uint32 {
	gen := [5]uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
	c := uint32(1)
	for _, x := range v {
		top := c >> 25
		c = (c&0x1ffffff)<<5 ^ uint32(x)
		for i := uint(0); i < 5; i++ {
			if top>>i&1 == 1 {
				c ^= gen[i]
			}
		}
	}
	return c
}

func bechExpand(hrp string) []byte {
	var v []byte
	for i := 0; i < len(hrp); i++ {
		v = append(v, hrp[i]>>5)
	}
	v = append(v, 0)
	for i := 0; i < len(hrp); i++ {
		v = append(v, hrp[i]&31)
	}
	return v
}

func refBechEncode(hrp string, data []byte) string {
	v := append(bechExpand(hrp), data...)
	m := bechPoly(append(v, 0, 0, 0, 0, 0, 0)) ^ 1
	s := []byte(hrp + "1")
	for _, d := range data {
		s = append(s, bechAlpha[d])
	}
	for i := 0; i < 6; i++ {
		s = append(s, bechAlpha[m>>uint(5*(5-i))&31])
	}
	return string(s)
}

func refBechDecode(s string) (string, []byte, bool) {
	if len(s) > 90 {
		return "", nil, false
	}
	lo, up := false, false
	b := []byte(s)
	for i, c := range b {
		if c < 33 || c > 126 {
			return "", nil, false
		}
		if c >= 'a' && c <= 'z' {
			lo = true
		}
		if c >= 'A' && c <= 'Z' {
			up = true
			b[i] = c + 32
		}
	}
	if lo && up {
		return "", nil, false
	}
	s = string(b)
	one := strings.LastIndexByte(s, '1')
	if one < 1 || len(s)-one-1 < 6 {
		return "", nil, false
	}
	hrp := s[:one]
	var d []byte
	for i := one + 1; i < len(s); i++ {
		k := strings.IndexByte(bechAlpha, s[i])
		if k < 0 {
			return "", nil, false
		}
		d = append(d, byte(k))
	}
	if bechPoly(append(bechExpand(hrp), d...)) != 1 {
		return "", nil, false
	}
	return hrp, d[:len(d)-6], true
}

// to5 regroups bytes into 5-bit groups by way of a bit string.
func to5(b []byte) []byte {
	var o []byte
	n := len(b) * 8
	for i := 0; i < n; i += 5 {
		v := byte(0)
		for j := i; j < i+5; j++ {
			v <<= 1
			if j < n && b[j/8]>>(7-uint(j%8))&1 == 1 {
				v |= 1
			}
		}
		o = append(o, v)
	}
	return o
}

func from5(d []byte) ([]byte, bool) {
	n := len(d) * 5
	full := n / 8 * 8
	if n-full > 4 {
		return nil, false
	}
	o := make([]byte, full/8)
	for i := 0; i < n; i++ {
		bit := d[i/5] >> (4 - uint(i%5)) & 1
		if i < full {
			o[i/8] |= bit << (7 - uint(i%8))
		} else if bit != 0 {
			return nil, false
		}
	}
	return o, true
}

func refSegwitEncode(hrp string, ver byte, prog []byte) string {
	return refBechEncode(hrp, append([]byte{ver}, to5(prog)...))
}

func refSegwitDecode(s string) (string, byte, []byte, bool) {
	hrp, d, ok := refBechDecode(s)
	if !ok || len(d) < 1 || d[0] > 16 {
		return "", 0, nil, false
	}
	p, ok := from5(d[1:])
	if !ok || len(p) < 2 || len(p) > 40 || d[0] == 0 && len(p) != 20 && len(p) != 32 {
		return "", 0, nil, false
	}
	return hrp, d[0], p, true
}

// ---- wire encodings ----

type wbuf struct{ b []byte }

func (w *wbuf) u8(v byte)      { w.b = append(w.b, v) }
func (w *wbuf) u16(v uint16)   { w.b = binary.LittleEndian.AppendUint16(w.b, v) }
func (w *wbuf) u32(v uint32)   { w.b = binary.LittleEndian.AppendUint32(w.b, v) }
func (w *wbuf) u64(v uint64)   { w.b = binary.LittleEndian.AppendUint64(w.b, v) }
func (w *wbuf) raw(v []byte)   { w.b = append(w.b, v...) }
func (w *wbuf) bytes(v []byte) { w.varint(uint64(len(v))); w.raw(v) }
func (w *wbuf) varint(v uint64) {
	switch {
	case v < 253:
		w.u8(byte(v))
	case v < 1<<16:
		w.u8(253)
		w.u16(uint16(v))
	case v < 1<<32:
		w.u8(254)
		w.u32(uint32(v))
	default:
		w.u8(255)
		w.u64(v)
	}
}

func varintLen(v uint64) int {
	var w wbuf
	w.varint(v)
	return len(w.b)
}

// rbuf is the reference reader; bad is set by any read past the end.
type rbuf struct {
	b   []byte
	bad bool
}

func (r *rbuf) raw(n uint64) []byte {
	if r.bad || n > uint64(len(r.b)) {
		r.bad = true
		return nil
	}
	v := r.b[:n]
	r.b = r.b[n:]
	return v
}

func (r *rbuf) u8() byte {
	if v := r.raw(1); v != nil {
		return v[0]
	}
	return 0
}

func (r *rbuf) u16() uint16 {
	if v := r.raw(2); v != nil {
		return binary.LittleEndian.Uint16(v)
	}
	return 0
}

func (r *rbuf) u32() uint32 {
	if v := r.raw(4); v != nil {
		return binary.LittleEndian.Uint32(v)
	}
	return 0
}

func (r *rbuf) u64() uint64 {
	if v := r.raw(8); v != nil {
		return binary.LittleEndian.Uint64(v)
	}
	return 0
}

func (r *rbuf) varint() uint64 {
	switch f := r.u8(); f {
	case 253:
		return uint64(r.u16())
	case 254:
		return uint64(r.u32())
	case 255:
		return r.u64()
	default:
		return uint64(f)
	}
}

func (r *rbuf) bytes() []byte { return r.raw(r.varint()) }

// ---- merkle ----

func refMerkleRoot(h [][]byte) []byte {
	l := append([][]byte{}, h...)
	for len(l) > 1 {
		if len(l)%2 == 1 {
			l = append(l, l[len(l)-1])
		}
		var n [][]byte
		for i := 0; i < len(l); i += 2 {
			n = append(n, sha256d(append(append([]byte{}, l[i]...), l[i+1]...)))
		}
		l = n
	}
	return l[0]
}

func rev(b []byte) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return o
}

func bigFrom(b []byte) *big.Int { return new(big.Int).SetBytes(b) }
