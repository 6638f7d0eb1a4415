package h7z

// decoder is, in this copy, the range ENCODER that mirrors the range decoder
// of the original package.
type decoder struct {
	low       uint64
	rng       uint64
	cache     byte
	cacheSize int64
	out       []byte
}

func newDecoder() decoder { return decoder{rng: 0xFFFFFFFF, cacheSize: 1} }

func (d *decoder) shiftLow() {
	if uint32(d.low) < 0xff000000 || d.low>>32 != 0 {
		c := d.cache
		for {
			d.out = append(d.out, c+byte(d.low>>32))
			c = 0xff
			if d.cacheSize--; d.cacheSize == 0 {
				break
			}
		}
		d.cache = byte(d.low >> 24)
	}
	d.cacheSize++
	d.low = (d.low & 0x00ffffff) << 8
}

func (d *decoder) normalize() {
	for i := 0; i < 2 && d.rng < kTopValue; i++ {
		d.rng = d.rng << 8 & 0xffffffff
		d.shiftLow()
	}
}

func (d *decoder) total(total uint) { d.rng /= uint64(total) }

func (d *decoder) Decode(start, size uint) {
	d.low += uint64(start) * d.rng
	d.rng *= uint64(size)
	d.normalize()
}

func (d *decoder) Bit(size0 uint, numTotalBits int, bit uint) {
	bound := (d.rng >> uint(numTotalBits)) * uint64(size0)
	if bit == 0 {
		d.rng = bound
	} else {
		d.low += bound
		d.rng -= bound
	}
	d.normalize()
}

func (d *decoder) flush() []byte {
	for i := 0; i < 5; i++ {
		d.shiftLow()
	}
	return d.out
}
