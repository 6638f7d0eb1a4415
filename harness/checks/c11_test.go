package checks

import (
	"encoding/binary"
	"fmt"

	"github.com/bodgit/sevenzip"
	"pgregory.net/rapid"
	"verifharness/sz"
)

type burstCase struct {
	Spec *sz.Spec `json:"spec"`
	// Bursts: area, position (per 2^20 of the area's bits), pattern. The
	// pattern's lowest bit is set.
	Bursts []burst `json:"bursts"`
	Cuts   []int   `json:"cuts"` // per 2^20 of the length up to the header's end
	All    bool    `json:"all,omitempty"`
	// Sets overwrite four bytes.
	Sets []burst `json:"sets,omitempty"`
	// Zero makes the checksum of the header one of zero.
	Zero bool `json:"zero,omitempty"`
}

// zeroCRC changes the modification time of an entry so that the checksum of
// the header is zero. The checksum is an affine function of the bits of it.
func zeroCRC(s *sz.Spec) (*sz.Spec, error) {
	c := *s
	c.Entries = append([]sz.Entry(nil), s.Entries...)

	if len(c.Entries) == 0 {
		return s, nil
	}

	// The seconds stay within what has been drawn
	high := uint64(0x01d00000) << 32
	if m := c.Entries[0].M; m != nil {
		high = *m >> 32 << 32
	}

	with := func(low uint32) uint32 {
		m := high | uint64(low)
		c.Entries[0].M = &m

		return crc32of(sz.Bytes(sz.Build(&c).Header))
	}

	// Eliminate
	var basis [32][2]uint32 // sum, bits that give it

	base := with(0)

	for i := range 32 {
		v, bits := with(1<<i)^base, uint32(1)<<i

		for j := 31; j >= 0 && v != 0; j-- {
			if v>>j&1 == 0 {
				continue
			}

			if basis[j][0] == 0 {
				basis[j] = [2]uint32{v, bits}

				break
			}

			v, bits = v^basis[j][0], bits^basis[j][1]
		}
	}

	v, bits := base, uint32(0)

	for j := 31; j >= 0; j-- {
		if v>>j&1 == 1 {
			v, bits = v^basis[j][0], bits^basis[j][1]
		}
	}

	if with(bits) != 0 {
		return nil, herr("the checksum of the header is not zero")
	}

	return &c, nil
}

// Values put over four bytes.
var setValues = []func([]byte) []byte{
	func([]byte) []byte { return make([]byte, 4) },
	func([]byte) []byte { return []byte{255, 255, 255, 255} },
	func(b []byte) []byte { return []byte{b[3], b[2], b[1], b[0]} },
	func(b []byte) []byte { return []byte{b[1], b[0], b[3], b[2]} },
	func(b []byte) []byte { return []byte{^b[0], ^b[1], ^b[2], ^b[3]} },
	func(b []byte) []byte { return binary.LittleEndian.AppendUint32(nil, binary.LittleEndian.Uint32(b)+1) },
	func(b []byte) []byte { return binary.LittleEndian.AppendUint32(nil, binary.LittleEndian.Uint32(b)-1) },
	func([]byte) []byte { return []byte("7z\xbc\xaf") },
	func(b []byte) []byte { return []byte{b[0], 0, 0, 0} },
	func(b []byte) []byte { return []byte{0, 0, b[2], b[3]} },
}

type burst struct {
	Area int    `json:"area"`
	Pos  int    `json:"pos"`
	Pat  uint32 `json:"pat"`
}

func init() {
	register("C11", "an archive (plain or packed header, recorded digests) is altered by bursts of up to 32 bits, or by four bytes overwritten with zeros, ones, each other in another order and the like, in the start header (with its checksum), in the header, or in the packed header, at drawn positions (small archives: single-bit flips at every position of start header and header), or cut anywhere before the header's end; opening must fail (packed header: fail or give the identical listing); non-trivial = every case",
		func(t *rapid.T) *burstCase {
			g := def()
			g.maxFile = 60
			g.maxEntries = 5
			c := &burstCase{Spec: drawSpec(t, g)}
			c.Spec.Layout.HeaderCRC = true

			c.All = oneIn(t, 10, "all")
			c.Zero = drawInt(t, 0, 29, "zero") == 17

			for range drawInt(t, 1, 12, "bursts") {
				c.Bursts = append(c.Bursts, burst{
					Area: drawInt(t, 0, 2, "area"), Pos: drawInt(t, 0, 1<<20-1, "pos"),
					Pat: rapid.OneOf(rapid.Just(uint32(0)), rapid.Uint32Range(0, 255), rapid.Uint32()).Draw(t, "pat") | 1,
				})
			}

			for range drawInt(t, 0, 6, "sets") {
				c.Sets = append(c.Sets, burst{
					Area: drawInt(t, 0, 2, "area"), Pos: drawInt(t, 0, 1<<20-1, "pos"),
					Pat: uint32(drawInt(t, 0, len(setValues)-1, "value")),
				})
			}

			for range drawInt(t, 0, 4, "cuts") {
				c.Cuts = append(c.Cuts, drawInt(t, 0, 1<<20-1, "cut"))
			}

			return c
		},
		runBurst)
}

// flip xors a pattern into a range of bits.
func flip(raw []byte, lo, hi, bit int, pat uint32) {
	for i := range 32 {
		b := bit + i
		if pat>>uint(i)&1 == 1 && lo+b/8 < hi {
			raw[lo+b/8] ^= 1 << uint(b%8)
		}
	}
}

func runBurst(c *burstCase, o *Out) error {
	o.NonTrivial = true

	if c.Zero {
		s, err := zeroCRC(c.Spec)
		if err != nil {
			return err
		}

		cc := *c
		cc.Spec = s
		c = &cc

		o.class("header checksum zero")
	}

	b := sz.Build(c.Spec)

	if c.Spec.Layout.Header != nil {
		o.class("packed-header:%s", c.Spec.Layout.Header.M)
	}

	try := func(raw []byte) (*sevenzip.Reader, error) { return open(raw, c.Spec.Password) }

	if r, err := try(b.Raw); err != nil {
		return fmt.Errorf("unaltered: %w", err)
	} else if err := checkList(r.File, b.Files); err != nil {
		return fmt.Errorf("unaltered: %w", err)
	}

	areas := [][2]int{{b.Base + 8, b.Base + 32}, {b.HeadOff, b.HeadOff + b.HeadLen}, b.EncHeader}
	raw := make([]byte, len(b.Raw))

	one := func(area, bit int, pat uint32) error {
		a := areas[area]
		copy(raw, b.Raw)
		flip(raw, a[0], a[1], bit, pat)

		r, err := try(raw)
		o.Evals++

		if err != nil {
			if r != nil {
				return fmt.Errorf("area %d bit %d pattern %#x: error together with a reader", area, bit, pat)
			}

			return nil
		}

		if area == 2 {
			if err := checkList(r.File, b.Files); err != nil {
				return fmt.Errorf("packed header altered at bit %d by %#x opens with another listing: %w", bit, pat, err)
			}

			return nil
		}

		return fmt.Errorf("%s altered at bit %d by %#x opens", []string{"start header", "header"}[area], bit, pat)
	}

	for _, x := range c.Bursts {
		area := x.Area
		if c.Zero {
			area = 2
		}

		if areas[area][1] <= areas[area][0] {
			area = 1
		}

		bits := 8 * (areas[area][1] - areas[area][0])
		o.class("area:%d", area)

		if err := one(area, int(uint64(x.Pos)*uint64(bits)>>20), x.Pat); err != nil {
			return err
		}
	}

	// set overwrites the four bytes at a position.
	set := func(area, pos, value int) error {
		old := binary.LittleEndian.Uint32(b.Raw[areas[area][0]+pos:])
		pat := old ^ binary.LittleEndian.Uint32(setValues[value](b.Raw[areas[area][0]+pos:]))

		if pat == 0 {
			return nil
		}

		return one(area, 8*pos, pat)
	}

	for _, x := range c.Sets {
		area := x.Area
		if areas[area][1] < areas[area][0]+4 {
			area = 0
		}

		if err := set(area, int(uint64(x.Pos)*uint64(areas[area][1]-areas[area][0]-3)>>20), int(x.Pat)%len(setValues)); err != nil {
			return err
		}
	}

	if c.All {
		for pos := range 21 {
			for v := range setValues {
				if err := set(0, pos, v); err != nil {
					return err
				}
			}
		}
	}

	for _, p := range c.Cuts {
		n := int(uint64(p) * uint64(b.HeadOff+b.HeadLen) >> 20)

		r, err := try(b.Raw[:n])
		o.Evals++

		if err == nil {
			return fmt.Errorf("cut to %d of %d bytes (header %d to %d) opens with %d files", n, len(b.Raw), b.HeadOff, b.HeadOff+b.HeadLen, len(r.File))
		}
	}

	if c.All && b.HeadLen < 600 {
		o.class("every-bit")

		for area := range 2 {
			for bit := range 8 * (areas[area][1] - areas[area][0]) {
				if err := one(area, bit, 1); err != nil {
					return err
				}
			}
		}
	}

	return nil
}
