package main

import (
	"math/big"
	"math/bits"
)

// Rand is a small deterministic generator (xoshiro256**), independent of the Go version.
type Rand struct{ s [4]uint64 }

func newRand(seed uint64) *Rand {
	r := &Rand{}
	for i := range r.s {
		seed += 0x9e3779b97f4a7c15
		z := seed
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		r.s[i] = z ^ (z >> 31)
	}
	return r
}

func (r *Rand) U64() uint64 {
	s := &r.s
	res := bits.RotateLeft64(s[1]*5, 7) * 9
	t := s[1] << 17
	s[2] ^= s[0]
	s[3] ^= s[1]
	s[1] ^= s[2]
	s[0] ^= s[3]
	s[2] ^= t
	s[3] = bits.RotateLeft64(s[3], 45)
	return res
}

// N returns a number in [0,n).
func (r *Rand) N(n int) int { return int(r.U64() % uint64(n)) }

// Range returns a number in [a,b].
func (r *Rand) Range(a, b int) int { return a + r.N(b-a+1) }

func (r *Rand) Bool() bool { return r.U64()&1 == 1 }

// P is true with probability 1/n.
func (r *Rand) P(n int) bool { return r.N(n) == 0 }

func (r *Rand) U32() uint32 { return uint32(r.U64()) }

func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		v := r.U64()
		for j := i; j < n && j < i+8; j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
	return b
}

// Read makes a Rand an io.Reader.
func (r *Rand) Read(p []byte) (int, error) {
	copy(p, r.Bytes(len(p)))
	return len(p), nil
}

func (r *Rand) Pick(v ...int) int { return v[r.N(len(v))] }

func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.N(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

// Len returns a length in [0,max], biased to the boundaries of encodings and block sizes.
func (r *Rand) Len(max int) int {
	for try := 0; try < 8; try++ {
		var n int
		switch r.N(6) {
		case 0:
			n = r.N(4)
		case 1:
			n = r.N(40)
		case 2:
			b := []int{1, 4, 5, 20, 21, 32, 33, 55, 56, 63, 64, 65, 75, 76, 80, 81, 127, 128, 252, 253, 254, 255, 256, 257, 520, 521, 65535, 65536, 65537}
			n = b[r.N(len(b))]
		case 3:
			n = r.N(300)
		default:
			n = r.N(max + 1)
		}
		if n <= max {
			return n
		}
	}
	return r.N(max + 1)
}

// kin gives bytes which agree with other values of kin of the same length everywhere but in one
// stretch: what keeps earlier answers under a part of its input mistakes one for another.
func (r *Rand) kin(n int) []byte {
	b := newRand(0x6b696e + uint64(n)).Bytes(n)
	if n < 8 {
		return r.Bytes(n)
	}
	lo, hi := 0, n
	switch r.N(5) {
	case 0:
		hi = (n + 1) / 2
	case 1:
		lo = n / 2
	case 2:
		lo = r.N(n - 3)
		hi = lo + 4
	case 3:
		lo = n - 4
	case 4:
		lo, hi = n/4, n-n/4
	}
	copy(b[lo:hi], r.Bytes(hi-lo))
	return b
}

// Hash gives n random bytes, now and then kin of earlier ones.
func (r *Rand) Hash(n int) []byte {
	if r.P(6) {
		return r.kin(n)
	}
	b := r.Bytes(n)
	if n >= 20 && r.P(8) { // a few zeros or ones at one end
		v := byte(r.Pick(0, 0, 0xff))
		at := r.Pick(0, 1)
		for i := r.Range(1, 6); i > 0; i-- {
			b[at*(n-1)+(1-2*at)*(i-1)] = v
		}
	}
	return b
}

// Blob returns n bytes with occasional structure: zeros, ones, runs, leading zeros, ascending.
func (r *Rand) Blob(n int) []byte {
	b := r.Bytes(n)
	switch r.N(11) {
	case 10:
		b = r.kin(n)
	case 0:
		for i := range b {
			b[i] = 0
		}
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2, 3:
		if n > 0 {
			k := r.N(n + 1)
			if r.Bool() && k > 4 {
				k = r.N(5)
			}
			v := byte(r.Pick(0, 0, 0, 0xff))
			for i := 0; i < k; i++ {
				b[i] = v
			}
		}
	case 4:
		if n > 0 {
			k := r.N(n + 1)
			if r.Bool() && k > 4 {
				k = r.N(5)
			}
			v := byte(r.Pick(0, 0, 0, 0xff))
			for i := n - k; i < n; i++ {
				b[i] = v
			}
		}
	case 5:
		for i := range b {
			b[i] &= 0x01
		}
	}
	return b
}

// Uint returns an unsigned number of any magnitude, biased to encoding boundaries.
func (r *Rand) Uint() uint64 {
	edges := []uint64{0, 1, 2, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0xfffe, 0xffff, 0x10000, 0x10001, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001, 1<<62 - 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 2, 1<<64 - 1}
	switch r.N(3) {
	case 0:
		return edges[r.N(len(edges))]
	case 1:
		return r.U64() >> uint(r.N(64))
	}
	v := uint64(1) << uint(r.N(64))
	return v + uint64(r.N(5)) - 2
}

func (r *Rand) U32e() uint32 {
	switch r.N(4) {
	case 0:
		return uint32(r.Pick(0, 1, 2, 0x7fffffff, 0x80000000, 0xfffffffd, 0xfffffffe, 0xffffffff))
	case 1:
		return r.U32() >> uint(r.N(32))
	case 2:
		return uint32(1)<<uint(r.N(32)) + uint32(r.N(5)) - 2
	}
	return r.U32()
}

// Big returns a number in [0,n).
func (r *Rand) Big(n *big.Int) *big.Int {
	b := r.Bytes((n.BitLen()+7)/8 + 8)
	return new(big.Int).Mod(new(big.Int).SetBytes(b), n)
}

// Scalar returns a number in [1,N-1] of the curve, biased to the edges.
func (r *Rand) Scalar() *big.Int {
	nm1 := new(big.Int).Sub(ecN, big.NewInt(1))
	switch r.N(13) {
	case 12:
		v := new(big.Int).SetBytes(r.kin(32))
		v.Mod(v, nm1)
		return v.Add(v, big.NewInt(1))
	case 0:
		return big.NewInt(int64(1 + r.N(20)))
	case 1:
		return new(big.Int).Sub(ecN, big.NewInt(int64(1+r.N(20))))
	case 2:
		h := new(big.Int).Rsh(ecN, 1)
		return h.Add(h, big.NewInt(int64(r.N(5)-2)))
	case 3:
		// short: leading zero bytes
		v := new(big.Int).SetBytes(r.Bytes(r.Range(1, 31)))
		if v.Sign() == 0 {
			v.SetInt64(1)
		}
		return v
	case 4:
		// a sparse number
		v := new(big.Int)
		for i := 0; i < 3; i++ {
			v.SetBit(v, r.N(255), 1)
		}
		return v
	}
	v := r.Big(nm1)
	return v.Add(v, big.NewInt(1))
}

func pad32(x *big.Int) []byte {
	b := x.Bytes()
	if len(b) >= 32 {
		return b
	}
	o := make([]byte, 32)
	copy(o[32-len(b):], b)
	return o
}

// mutate changes a byte string in one of several structural ways; the result differs from b.
func (r *Rand) mutate(b []byte) []byte {
	for {
		o := append([]byte{}, b...)
		switch r.N(9) {
		case 0, 1:
			if len(o) > 0 {
				o[r.N(len(o))] ^= 1 << uint(r.N(8))
			}
		case 2:
			if len(o) > 0 {
				o[r.N(len(o))] = byte(r.N(256))
			}
		case 3:
			o = o[:r.N(len(o)+1)]
		case 4:
			o = append(o, r.Bytes(r.Range(1, 3))...)
		case 5:
			i := r.N(len(o) + 1)
			o = append(o[:i:i], append(r.Bytes(r.Range(1, 4)), o[i:]...)...)
		case 6:
			if len(o) > 0 {
				i := r.N(len(o))
				j := i + 1 + r.N(4)
				if j > len(o) {
					j = len(o)
				}
				o = append(o[:i:i], o[j:]...)
			}
		case 7:
			if len(o) > 1 {
				i, j := r.N(len(o)), r.N(len(o))
				o[i], o[j] = o[j], o[i]
			}
		case 8:
			if len(o) > 0 {
				v := []byte{0, 0xff, 0xfd, 0xfe, 0x80, 0x7f, 1}
				o[r.N(len(o))] = v[r.N(len(v))]
			}
		}
		if string(o) != string(b) {
			return o
		}
	}
}

// guard is a byte slice with filled spare capacity, to see writes into the argument or behind it.
type guard struct {
	full []byte
	orig []byte
	n    int
}

// guarded returns a copy of b with spare capacity and its monitor.
func guarded(b []byte, spare int) ([]byte, *guard) {
	full := make([]byte, len(b)+spare)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = 0xa5 ^ byte(i)
	}
	return full[:len(b)], &guard{full: full, orig: append([]byte{}, full...), n: len(b)}
}

func (g *guard) ok() bool { return string(g.full) == string(g.orig) }

func dup(b []byte) []byte { return append([]byte{}, b...) }
