package ref

// CRC24 computes the Mode S parity of a frame body by polynomial division with generator 0x1FFF409 (Annex 10 volume
// IV, 3.1.2.3.3), one bit at a time.
func CRC24(d []byte) uint32 {
	reg := uint32(0)
	for _, c := range d {
		for k := 7; k >= 0; k-- {
			in := uint32(c>>uint(k)) & 1
			top := reg >> 23 & 1
			reg = reg << 1 & 0xFFFFFF
			if top^in == 1 {
				reg ^= 0xFFF409
			}
		}
	}
	return reg
}

// Seal appends the parity, overlaid with an address or interrogator code, to a frame body.
func Seal(body []byte, overlay uint32) []byte {
	p := CRC24(body) ^ overlay
	out := make([]byte, 0, len(body)+3)
	out = append(out, body...)
	return append(out, byte(p>>16), byte(p>>8), byte(p))
}
