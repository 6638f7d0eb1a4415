package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"

	"pgregory.net/rapid"
	"verifharness/sz"
)

type sfxCase struct {
	Spec *sz.Spec `json:"spec"`
	// Lead moves the archive to this offset in place of Layout.Prefix.
	Partial []int `json:"partial,omitempty"` // offsets of incomplete signatures
	Second  bool  `json:"second,omitempty"`  // append another archive
	// None makes an input without an archive start in range.
	None int     `json:"none,omitempty"`
	Junk sz.Data `json:"junk,omitzero"`
}

func drawOffset(t *rapid.T, l string) int {
	switch rapid.IntRange(0, 5).Draw(t, l+"kind") {
	case 0:
		return 0
	case 1:
		return rapid.IntRange(0, 64).Draw(t, l)
	case 2:
		return rapid.IntRange(1, 255).Draw(t, l+"chunk")*4096 + rapid.IntRange(-12, 12).Draw(t, l)
	case 3:
		return 1<<20 - rapid.IntRange(1, 40).Draw(t, l)
	case 4:
		return rapid.IntRange(0, 20000).Draw(t, l)
	default:
		return rapid.IntRange(0, 1<<20-1).Draw(t, l)
	}
}

func init() {
	register("C04", "an archive is prefixed with 0 to 2^20-1 bytes (random, repetitive, executable-like; with decoy signatures and partial signatures at drawn offsets, biased to search chunk boundaries and the 1 MiB limit) and followed by arbitrary data or a second archive, and must read as without; inputs whose first 1 MiB holds no valid start must be rejected; non-trivial = prefix or suffix is not empty, or the input has no archive",
		func(t *rapid.T) *sfxCase {
			c := &sfxCase{}

			if oneIn(t, 6, "none") {
				c.None = drawInt(t, 1, 4, "nonekind")
				c.Junk = drawData(t, 0, 20000, "junk")
			}

			g := def()
			g.maxFile = 300
			g.maxEntries = 4
			g.simpleMeta = true
			c.Spec = drawSpec(t, g)
			n := drawOffset(t, "offset")
			l := &c.Spec.Layout
			l.Prefix = sz.Data{K: rapid.IntRange(0, sz.NKinds-1).Draw(t, "prefixkind"), S: drawSeed(t, "prefixseed"), N: n}

			if n > 64 && drawBool(t, "decoys") {
				for range drawInt(t, 1, 3, "ndecoys") {
					l.Decoys = append(l.Decoys, 1+drawOffset(t, "decoy")%(n-20))
				}
			}

			if n > 64 && drawBool(t, "partials") {
				for range drawInt(t, 1, 3, "npartials") {
					c.Partial = append(c.Partial, 1+drawOffset(t, "partial")%(n-20))
				}

				if drawBool(t, "adjacent") {
					c.Partial = append(c.Partial, n-rapid.IntRange(1, 5).Draw(t, "adjacent"))
				}
			}

			if drawBool(t, "suffix") {
				l.Suffix = drawData(t, 1, 6000, "suffix")
			}

			c.Second = oneIn(t, 4, "second")

			return c
		},
		func(c *sfxCase, o *Out) error {
			if c.None != 0 {
				o.NonTrivial = true
				o.class("none:%d", c.None)

				return runNone(c)
			}

			b := sz.Build(c.Spec)
			raw := b.Raw

			for _, p := range c.Partial {
				n := 1 + p%5
				if p >= 1 && p+n <= b.Base {
					copy(raw[p:], sz.Signature()[:n])
				}
			}

			if c.Second {
				s2 := sz.Build(&sz.Spec{Entries: []sz.Entry{{Kind: sz.EEmpty, Name: "other"}}})
				raw = append(raw, s2.Raw...)
			}

			if startsBefore(raw, b.Base) {
				o.class("ambiguous")

				return nil
			}

			if b.Base > 0 || len(raw) > b.HeadOff+b.HeadLen {
				o.NonTrivial = true
			}

			switch {
			case b.Base == 0:
				o.class("offset:0")
			case b.Base < 4096:
				o.class("offset:<4K")
			case b.Base > 1<<20-64:
				o.class("offset:near-1M")
			default:
				o.class("offset:mid")
			}

			if len(c.Spec.Layout.Decoys) > 0 {
				o.class("decoys")
			}

			return checkArchive(raw, c.Spec.Password, b.Files)
		})
}

// startsBefore tells whether what precedes the archive happens to have a
// signature with a start header whose digest is right (0xff bytes do).
func startsBefore(raw []byte, base int) bool {
	for i := 0; i < base; i++ {
		if bytes.HasPrefix(raw[i:], sz.Signature()) && len(raw) >= i+32 && binary.LittleEndian.Uint32(raw[i+8:]) == crc32of(raw[i+12:i+32]) {
			return true
		}
	}

	return false
}

func runNone(c *sfxCase) error {
	b := sz.Build(c.Spec)
	plain := b.Raw[b.Base:]

	var raw []byte

	switch c.None {
	case 1: // no signature at all
		raw = noSig(c.Junk.Bytes())
	case 2: // signature without valid start header
		raw = noSig(c.Junk.Bytes())
		raw = append(raw, sz.Signature()...)
		raw = append(raw, make([]byte, 64)...)
	case 3: // beyond the search range
		raw = make([]byte, 1<<20+8192+c.Junk.N)
		raw = append(raw, plain...)
	case 4: // cut inside the signature or start header
		n := c.Junk.N % 32
		raw = append(raw, plain[:n]...)
	}

	r, err := open(raw, c.Spec.Password)
	if err == nil {
		return fmt.Errorf("input without an archive start (kind %d, %d bytes) opens with %d files", c.None, len(raw), len(r.File))
	}

	if r != nil {
		return errors.New("error together with a reader")
	}

	return nil
}

// noSig breaks signatures that occur by chance.
func noSig(b []byte) []byte {
	b = append([]byte(nil), b...)
	for i := range b {
		if b[i] == '7' {
			b[i] = '8'
		}
	}

	return b
}
