package ref

import "vsim/core"

// Draw is one value drawn for a field of a message.
type Draw struct {
	Name string
	N    int
	V    uint64
}

// B builds the bits of one message together with what must be read back. Bits are numbered from 1 as in the standards.
type B struct {
	Bits  []byte
	Exp   []Exp
	Kind  string
	G     *core.Rng
	Draws []Draw
	Force map[int]uint64 // draws to override, by order
	Pre   string         // prefix of the paths of the expectations
}

// NewB starts a message of n bytes.
func NewB(g *core.Rng, n int) *B { return &B{Bits: make([]byte, n), G: g} }

// Draw draws a field value of n bits.
func (b *B) Draw(name string, n int) uint64 {
	v := b.G.Bits(n)
	return b.rec(name, n, v)
}

// DrawN draws a value in [0, n).
func (b *B) DrawN(name string, n int) uint64 {
	var v uint64
	switch b.G.Intn(10) {
	case 0:
		v = 0
	case 1:
		v = uint64(n - 1)
	default:
		v = uint64(b.G.Intn(n))
	}
	v = b.rec(name, -n, v)
	return v
}

func (b *B) rec(name string, n int, v uint64) uint64 {
	if f, ok := b.Force[len(b.Draws)]; ok {
		v = f
	}
	b.Draws = append(b.Draws, Draw{name, n, v})
	return v
}

// Put writes an n-bit value with its first bit at pos (from 1).
func (b *B) Put(pos, n int, v uint64) {
	for i := 0; i < n; i++ {
		bit := pos - 1 + i
		m := byte(0x80) >> uint(bit%8)
		if v>>uint(n-1-i)&1 == 1 {
			b.Bits[bit/8] |= m
		} else {
			b.Bits[bit/8] &^= m
		}
	}
}

// GetBits reads n bits of a byte string with the first at pos (from 1).
func GetBits(d []byte, pos, n int) uint64 {
	v := uint64(0)
	for i := 0; i < n; i++ {
		bit := pos - 1 + i
		v = v<<1 | uint64(d[bit/8]>>uint(7-bit%8)&1)
	}
	return v
}

func (b *B) p(path string) string {
	if b.Pre == "" {
		return path
	}
	if path == "" {
		return b.Pre
	}
	return b.Pre + "." + path
}

// Int expects an integer.
func (b *B) Int(path string, v int64) { b.Exp = append(b.Exp, Exp{Path: b.p(path), Kind: KInt, I: v}) }

// Flt expects a number within tol.
func (b *B) Flt(path string, v, tol float64) {
	b.Exp = append(b.Exp, Exp{Path: b.p(path), Kind: KFloat, Lo: v - tol, Hi: v + tol})
}

// In expects a number in [lo, hi].
func (b *B) In(path string, lo, hi float64) {
	b.Exp = append(b.Exp, Exp{Path: b.p(path), Kind: KFloat, Lo: lo, Hi: hi})
}

// Bool expects a boolean.
func (b *B) Bool(path string, v bool) { b.Exp = append(b.Exp, Exp{Path: b.p(path), Kind: KBool, B: v}) }

// Str expects a string.
func (b *B) Str(path, v string) { b.Exp = append(b.Exp, Exp{Path: b.p(path), Kind: KStr, S: v}) }

// Type expects the dynamic type name at path.
func (b *B) Type(path, v string) { b.Exp = append(b.Exp, Exp{Path: b.p(path), Kind: KType, S: v}) }

// Nil expects nothing at path.
func (b *B) Nil(path string) { b.Exp = append(b.Exp, Exp{Path: b.p(path), Kind: KNil}) }

// Err expects that the call at path refuses.
func (b *B) Err(path string) { b.Exp = append(b.Exp, Exp{Path: b.p(path), Kind: KErr}) }

// Raw expects bytes.
func (b *B) Raw(path string, v []byte) {
	b.Exp = append(b.Exp, Exp{Path: b.p(path), Kind: KBytes, Raw: append([]byte(nil), v...)})
}

// Enum draws an n-bit code at pos and expects it back unchanged.
func (b *B) Enum(path string, pos, n int) uint64 {
	v := b.Draw(path, n)
	b.Put(pos, n, v)
	b.Int(path, int64(v))
	return v
}

// EnumBelow draws a code below limit in an n-bit field at pos and expects it back unchanged.
func (b *B) EnumBelow(path string, pos, n, limit int) uint64 {
	v := b.DrawN(path, limit)
	b.Put(pos, n, v)
	b.Int(path, int64(v))
	return v
}

// Flag draws one bit at pos and expects it as a boolean.
func (b *B) Flag(path string, pos int) bool {
	v := b.Draw(path, 1)
	b.Put(pos, 1, v)
	b.Bool(path, v == 1)
	return v == 1
}

// Field draws n bits at pos without expectation.
func (b *B) Field(name string, pos, n int) uint64 {
	v := b.Draw(name, n)
	b.Put(pos, n, v)
	return v
}

// BelowZero sign-extends an n-bit two's complement value.
func SignExt(v uint64, n int) int64 {
	if v>>uint(n-1)&1 == 1 {
		return int64(v) - int64(1)<<uint(n)
	}
	return int64(v)
}
