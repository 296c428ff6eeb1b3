package ref

import "fmt"

// The 13-bit altitude and identity codes are written with named pulses. Order of the 13 bits, from the first sent:
// C1 A1 C2 A2 C4 A4 X B1 D1 B2 D2 B4 D4 (X: M bit, D1: Q bit in altitude codes).
const (
	pD4 = 1 << iota
	pB4
	pD2
	pB2
	pD1
	pB1
	pX
	pA4
	pC4
	pA2
	pC2
	pA1
	pC1
)

// Gillham500 has the pulses of the 500-foot Gray code, from the most significant.
var gillham500 = [9]uint64{pD1, pD2, pD4, pA1, pA2, pA4, pB1, pB2, pB4}

// c100 is the cycle of the 100-foot pulses within an even 500-foot band, from the lowest altitude up.
var c100 = [5]uint64{pC4, pC2 | pC4, pC2, pC1 | pC2, pC1}

// MinGillham and MaxGillham bound the altitudes with a Gillham code that leaves the Q (D1) pulse clear.
const (
	MinGillham = -1200
	MaxGillham = 126700
)

// Gillham encodes an altitude in feet (a multiple of 100) as a 13-bit code.
func Gillham(alt int) uint64 {
	h := (alt + 1200) / 100
	band, step := h/5, h%5
	if band%2 == 1 {
		step = 4 - step
	}
	code := c100[step]
	gray := band ^ band>>1
	for i, p := range gillham500 {
		if gray>>uint(8-i)&1 == 1 {
			code |= p
		}
	}
	return code
}

// Alt25 encodes an altitude in feet (25 N - 1000) as a 13-bit code with the Q bit.
func Alt25(alt int) uint64 {
	n := uint64((alt + 1000) / 25)
	// N is spread around the M and Q bits.
	return (n>>5&0x3F)<<7 | (n>>4&1)<<5 | n&0xF | pD1
}

var gillhamAlt = func() map[uint64]int {
	m := map[uint64]int{}
	for a := MinGillham; a <= MaxGillham; a += 100 {
		m[Gillham(a)] = a
	}
	return m
}()

// Altitude kinds, as a receiver must report them.
const (
	AltNone    = iota // not available
	AltMetric         // metric units: no feet
	Alt100            // 100-foot increments
	Alt25ft           // 25-foot increments
	AltIllegal        // no altitude has this code
	AltEither         // below the lowest altitude of the table: either refused or decoded
)

// AltOf tells what a 13-bit altitude code means.
func AltOf(code uint64) (kind int, feet int) {
	switch {
	case code == 0:
		return AltNone, 0
	case code&pX != 0:
		return AltMetric, 0
	case code&pD1 != 0:
		n := (code>>7&0x3F)<<5 | (code>>5&1)<<4 | code&0xF
		return Alt25ft, 25*int(n) - 1000
	}
	if a, ok := gillhamAlt[code]; ok {
		if a < -1000 {
			return AltEither, a
		}
		return Alt100, a
	}
	return AltIllegal, 0
}

// Alt12 removes the M bit of a 13-bit code, giving the 12-bit code of squitters.
func Alt12(code uint64) uint64 { return code>>7<<6 | code&0x3F }

// Alt13 puts a clear M bit into a 12-bit code.
func Alt13(code uint64) uint64 { return code>>6<<7 | code&0x3F }

// Identity encodes a four digit identity as a 13-bit code.
func Identity(a, b, c, d int) uint64 {
	code := uint64(0)
	set := func(v int, p1, p2, p4 uint64) {
		if v&1 != 0 {
			code |= p1
		}
		if v&2 != 0 {
			code |= p2
		}
		if v&4 != 0 {
			code |= p4
		}
	}
	set(a, pA1, pA2, pA4)
	set(b, pB1, pB2, pB4)
	set(c, pC1, pC2, pC4)
	set(d, pD1, pD2, pD4)
	return code
}

// Digits writes an identity.
func Digits(a, b, c, d int) string { return fmt.Sprintf("%d%d%d%d", a, b, c, d) }
