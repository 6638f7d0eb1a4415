// Package enc holds reference encoders for the methods a 7-zip archive may
// use. They are written from the published format descriptions (7-zip's C
// sources, XZ), not from the code under test.
package enc

import "encoding/binary"

func msb86(b byte) bool { return b == 0 || b == 0xff }

var (
	x86Allowed = [8]bool{true, true, true, false, true, false, false, false}
	x86BitNum  = [8]uint{0, 1, 2, 2, 3, 3, 3, 3}
)

// X86 applies the BCJ x86 filter (encoding direction) to a copy of data.
func X86(in []byte) []byte { return X86At(in, 0) }

// X86At is X86 for data that starts at a position of the stream.
func X86At(in []byte, start uint32) []byte {
	data := append([]byte(nil), in...)
	size := len(data)

	if size < 5 {
		return data
	}

	var (
		pos  int
		prev = -1
		mask uint32
	)

	ip := start + 5

	for {
		p := pos
		for p < size-4 && data[p]&0xfe != 0xe8 {
			p++
		}

		pos = p
		if p >= size-4 {
			break
		}

		if d := pos - prev; d > 3 {
			mask = 0
		} else {
			mask = (mask << uint(d-1)) & 7
			if mask != 0 {
				b := data[p+4-int(x86BitNum[mask])]
				if !x86Allowed[mask] || msb86(b) {
					prev = pos
					mask = (mask<<1)&7 | 1
					pos++

					continue
				}
			}
		}

		prev = pos

		if msb86(data[p+4]) {
			src := binary.LittleEndian.Uint32(data[p+1:])

			var dest uint32

			for {
				dest = ip + uint32(pos) + src
				if mask == 0 {
					break
				}

				idx := x86BitNum[mask] * 8

				if !msb86(byte(dest >> (24 - idx))) {
					break
				}

				src = dest ^ (1<<(32-idx) - 1)
			}

			binary.LittleEndian.PutUint32(data[p+1:], dest)
			data[p+4] = byte(^((dest >> 24 & 1) - 1))
			pos += 5
			// 7-zip resets nothing here: the distance to the next opcode does.
		} else {
			mask = (mask<<1)&7 | 1
			pos++
		}
	}

	return data
}

// ARM applies the ARM (32 bit) branch filter.
func ARM(in []byte) []byte { return ARMAt(in, 0) }

// ARMAt is ARM for data that starts at a position of the stream.
func ARMAt(in []byte, start uint32) []byte {
	d := append([]byte(nil), in...)
	for i := 0; i+4 <= len(d); i += 4 {
		if d[i+3] != 0xeb {
			continue
		}

		src := uint32(d[i+2])<<16 | uint32(d[i+1])<<8 | uint32(d[i])
		dest := (start + uint32(i) + 8 + src<<2) >> 2
		d[i+2], d[i+1], d[i] = byte(dest>>16), byte(dest>>8), byte(dest)
	}

	return d
}

// ARM64 applies the ARM64 branch filter (as in XZ's arm64.c).
func ARM64(in []byte) []byte { return ARM64At(in, 0) }

// ARM64At is ARM64 for data that starts at a position of the stream.
func ARM64At(in []byte, start uint32) []byte {
	d := append([]byte(nil), in...)
	for i := 0; i+4 <= len(d); i += 4 {
		instr := binary.LittleEndian.Uint32(d[i:])
		pc := start + uint32(i)

		switch {
		case instr>>26 == 0x25:
			instr = 0x94000000 | (instr+pc>>2)&0x03ffffff
		case instr&0x9f000000 == 0x90000000:
			src := instr>>29&3 | instr>>3&0x001ffffc
			if (src+0x00020000)&0x001c0000 != 0 {
				continue
			}

			dest := src + pc>>12
			instr &= 0x9000001f
			instr |= (dest & 3) << 29
			instr |= (dest & 0x0003fffc) << 3
			instr |= (0 - (dest & 0x00020000)) & 0x00e00000
		default:
			continue
		}

		binary.LittleEndian.PutUint32(d[i:], instr)
	}

	return d
}

// PPC applies the PowerPC branch filter.
func PPC(in []byte) []byte { return PPCAt(in, 0) }

// PPCAt is PPC for data that starts at a position of the stream.
func PPCAt(in []byte, start uint32) []byte {
	d := append([]byte(nil), in...)
	for i := 0; i+4 <= len(d); i += 4 {
		if d[i]>>2 != 0x12 || d[i+3]&3 != 1 {
			continue
		}

		src := uint32(d[i]&3)<<24 | uint32(d[i+1])<<16 | uint32(d[i+2])<<8 | uint32(d[i+3])&^3
		dest := start + uint32(i) + src
		d[i] = 0x48 | byte(dest>>24)&3
		d[i+1], d[i+2] = byte(dest>>16), byte(dest>>8)
		d[i+3] = d[i+3]&3 | byte(dest)&^3
	}

	return d
}

// SPARC applies the SPARC branch filter.
func SPARC(in []byte) []byte { return SPARCAt(in, 0) }

// SPARCAt is SPARC for data that starts at a position of the stream.
func SPARCAt(in []byte, start uint32) []byte {
	d := append([]byte(nil), in...)
	for i := 0; i+4 <= len(d); i += 4 {
		if !(d[i] == 0x40 && d[i+1]&0xc0 == 0 || d[i] == 0x7f && d[i+1]&0xc0 == 0xc0) {
			continue
		}

		src := binary.BigEndian.Uint32(d[i:]) << 2
		dest := (start + uint32(i) + src) >> 2
		dest = ((0-(dest>>22&1))<<22)&0x3fffffff | dest&0x3fffff | 0x40000000
		binary.BigEndian.PutUint32(d[i:], dest)
	}

	return d
}

// Delta applies the delta filter with the given distance (1..256).
func Delta(in []byte, dist int) []byte {
	d := make([]byte, len(in))
	for i := range in {
		var p byte
		if i >= dist {
			p = in[i-dist]
		}

		d[i] = in[i] - p
	}

	return d
}

// rangeEnc is the LZMA style carry propagating range encoder.
type rangeEnc struct {
	low       uint64
	rng       uint32
	cache     byte
	cacheSize int64
	out       []byte
}

func newRangeEnc() *rangeEnc { return &rangeEnc{rng: 0xffffffff, cacheSize: 1} }

func (e *rangeEnc) shiftLow() {
	if uint32(e.low) < 0xff000000 || e.low>>32 != 0 {
		c := e.cache

		for {
			e.out = append(e.out, c+byte(e.low>>32))
			c = 0xff

			if e.cacheSize--; e.cacheSize == 0 {
				break
			}
		}

		e.cache = byte(e.low >> 24)
	}

	e.cacheSize++
	e.low = (e.low & 0x00ffffff) << 8
}

func (e *rangeEnc) flush() {
	for range 5 {
		e.shiftLow()
	}
}

// BCJ2 splits data into the four streams of the BCJ2 filter: main, call, jump
// and range coder. choose is asked for each convertible branch whether it is
// to be converted.
func BCJ2(in []byte, choose func(pos int, rel uint32) bool) (main, call, jump, rc []byte) {
	ms, call, jump, rc := BCJ2Segs([]Seg{{0, in}}, choose)

	return ms[0].B, call, jump, rc
}

// Seg is a piece of otherwise zero data.
type Seg struct {
	Off uint64
	B   []byte
}

// BCJ2Segs is BCJ2 for sparse data; all but the last piece end in zeros.
func BCJ2Segs(in []Seg, choose func(pos int, rel uint32) bool) (ms []Seg, call, jump, rc []byte) {
	const (
		bits = 11
		move = 5
		top  = 1 << 24
	)

	var probs [258]uint32
	for i := range probs {
		probs[i] = 1 << (bits - 1)
	}

	e := newRangeEnc()
	encode := func(idx int, bit bool) {
		bound := (e.rng >> bits) * probs[idx]
		if !bit {
			e.rng = bound
			probs[idx] += ((1 << bits) - probs[idx]) >> move
		} else {
			e.low += uint64(bound)
			e.rng -= bound
			probs[idx] -= probs[idx] >> move
		}

		if e.rng < top {
			e.rng <<= 8
			e.shiftLow()
		}
	}

	call, jump = []byte{}, []byte{}

	var gone uint64

	for _, seg := range in {
		m, n := bcj2Seg(seg, choose, encode, &call, &jump)
		ms = append(ms, Seg{seg.Off - gone, m})
		gone += n
	}

	e.flush()

	return ms, call, jump, e.out
}

func bcj2Seg(seg Seg, choose func(pos int, rel uint32) bool, encode func(int, bool), call, jump *[]byte) (main []byte, gone uint64) {
	in := seg.B
	main = []byte{}

	var prev byte

	for i := 0; i < len(in); {
		b := in[i]
		main = append(main, b)
		i++

		if b&0xfe != 0xe8 && !(prev == 0x0f && b&0xf0 == 0x80) {
			prev = b

			continue
		}

		idx := 257
		if b == 0xe8 {
			idx = int(prev)
		} else if b == 0xe9 {
			idx = 256
		}

		if i+4 > len(in) {
			encode(idx, false)

			prev = b

			continue
		}

		rel := binary.LittleEndian.Uint32(in[i:])
		if !choose(i, rel) {
			encode(idx, false)

			prev = b

			continue
		}

		encode(idx, true)

		abs := rel + uint32(seg.Off) + uint32(i) + 4

		if b == 0xe8 {
			*call = binary.BigEndian.AppendUint32(*call, abs)
		} else {
			*jump = binary.BigEndian.AppendUint32(*jump, abs)
		}

		prev = in[i+3]
		i += 4
		gone += 4
	}

	return main, gone
}
