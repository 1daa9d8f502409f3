package main

import (
	"encoding/binary"
	"math"
	"math/big"
	"math/bits"
)

// refSHA256 is an independent SHA-256 (FIPS 180-4), constants derived from
// the primes.
var shaK, shaH = func() (k [64]uint32, h [8]uint32) {
	frac := func(p int64, root int) uint32 {
		// floor(frac(p^(1/root)) * 2^32)
		x := new(big.Int).Lsh(big.NewInt(p), uint(32*root))
		lo, hi := big.NewInt(0), new(big.Int).Lsh(big.NewInt(p), 32)
		for new(big.Int).Sub(hi, lo).Cmp(big.NewInt(1)) > 0 {
			m := new(big.Int).Rsh(new(big.Int).Add(lo, hi), 1)
			if new(big.Int).Exp(m, big.NewInt(int64(root)), nil).Cmp(x) <= 0 {
				lo = m
			} else {
				hi = m
			}
		}
		return uint32(new(big.Int).And(lo, big.NewInt(math.MaxUint32)).Uint64())
	}
	n := 0
	for p := int64(2); n < 64; p++ {
		if big.NewInt(p).ProbablyPrime(10) {
			if n < 8 {
				h[n] = frac(p, 2)
			}
			k[n] = frac(p, 3)
			n++
		}
	}
	return
}()

func refSHA256(msg []byte) (out [32]byte) {
	h := shaH
	m := append([]byte{}, msg...)
	m = append(m, 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	m = binary.BigEndian.AppendUint64(m, uint64(len(msg))*8)
	var w [64]uint32
	rot := func(x uint32, n int) uint32 { return bits.RotateLeft32(x, -n) }
	for o := 0; o < len(m); o += 64 {
		for i := 0; i < 16; i++ {
			w[i] = binary.BigEndian.Uint32(m[o+4*i:])
		}
		for i := 16; i < 64; i++ {
			s0 := rot(w[i-15], 7) ^ rot(w[i-15], 18) ^ w[i-15]>>3
			s1 := rot(w[i-2], 17) ^ rot(w[i-2], 19) ^ w[i-2]>>10
			w[i] = w[i-16] + s0 + w[i-7] + s1
		}
		a, b, c, d, e, f, g, hh := h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7]
		for i := 0; i < 64; i++ {
			t1 := hh + (rot(e, 6) ^ rot(e, 11) ^ rot(e, 25)) + (e&f ^ ^e&g) + shaK[i] + w[i]
			t2 := (rot(a, 2) ^ rot(a, 13) ^ rot(a, 22)) + (a&b ^ a&c ^ b&c)
			hh, g, f, e, d, c, b, a = g, f, e, d+t1, c, b, a, t1+t2
		}
		h[0] += a
		h[1] += b
		h[2] += c
		h[3] += d
		h[4] += e
		h[5] += f
		h[6] += g
		h[7] += hh
	}
	for i, x := range h {
		binary.BigEndian.PutUint32(out[4*i:], x)
	}
	return
}
