package checks

import (
	"bytes"
	"fmt"
	"io"

	"pgregory.net/rapid"
	"verifharness/sz"
)

type contractCase struct {
	Spec  *sz.Spec `json:"spec"`
	Sizes []int    `json:"sizes"`
	// Stop closes a file after that many reads, negative never early.
	Stop []int `json:"stop"`
	Keep bool  `json:"keep,omitempty"` // leave files open while reading the next
}

func drawSizes(t *rapid.T) []int {
	return rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 9), rapid.IntRange(0, 40), rapid.IntRange(1, 5000), rapid.SampledFrom([]int{1, 2, 3, 4, 5, 15, 16, 17, 4095, 4096, 4097, 32768, 65536})), 1, 12).Draw(t, "sizes")
}

const canary = 0xa5

func init() {
	register("C09", "every file of a generated archive is read with a drawn cycle of buffer sizes (0, 1.. 65536) into buffers surrounded by canaries, to EOF and three reads beyond, or closed after a drawn number of reads, then closed twice and read again; non-trivial = at least one file with content was read with two or more different buffer sizes or closed early",
		func(t *rapid.T) *contractCase {
			g := def()
			g.maxFile = rapid.SampledFrom([]int{40, 400, 3000, 20000}).Draw(t, "maxfile")
			g.maxEntries = 6
			g.simpleMeta = true
			c := &contractCase{Spec: drawSpec(t, g), Sizes: drawSizes(t)}

			for range drawInt(t, 1, 5, "stops") {
				if drawBool(t, "early") {
					c.Stop = append(c.Stop, drawInt(t, 0, 10, "stop"))
				} else {
					c.Stop = append(c.Stop, -1)
				}
			}

			c.Keep = drawBool(t, "keep")

			return c
		},
		func(c *contractCase, o *Out) error {
			b := sz.Build(c.Spec)
			specClasses(c.Spec, o)

			r, err := open(b.Raw, c.Spec.Password)
			if err != nil {
				return fmt.Errorf("open archive: %w", err)
			}

			k := 0

			var late []io.ReadCloser

			for i, f := range r.File {
				rc, err := f.Open()
				if err != nil {
					return fmt.Errorf("file %d: open: %w", i, err)
				}

				stop := -1
				if len(c.Stop) > 0 {
					stop = c.Stop[i%len(c.Stop)]
				}

				used := map[int]bool{}

				n, err := readContract(rc, b.Files[i].Data, stop, func() int {
					k++
					z := c.Sizes[k%len(c.Sizes)]
					// Tiny reads of long files take too long.
					if len(b.Files[i].Data) > 50000 && k%4 != 0 {
						z += 1000
					}

					used[z] = true

					return z
				})
				if err != nil {
					return fmt.Errorf("file %d (%d bytes): %w", i, len(b.Files[i].Data), err)
				}

				o.Evals += n

				if len(b.Files[i].Data) > 0 && (len(used) > 1 || stop >= 0) {
					o.NonTrivial = true
				}

				if c.Keep {
					late = append(late, rc)

					continue
				}

				if err := closeContract(rc); err != nil {
					return fmt.Errorf("file %d (%d bytes): %w", i, len(b.Files[i].Data), err)
				}
			}

			for i, rc := range late {
				if err := closeContract(rc); err != nil {
					return fmt.Errorf("file %d: %w", i, err)
				}
			}

			return nil
		})
}

func readContract(r io.Reader, want []byte, stop int, size func() int) (reads int, err error) {
	pos, idle, ended := 0, 0, 0

	for ended < 3 {
		if stop >= 0 && reads >= stop {
			return reads, nil
		}

		z := size()
		if reads > 200000 && z == 0 {
			z = 1
		}

		buf := bytes.Repeat([]byte{canary}, z+32)

		p := buf[8 : 8+z]
		if reads%2 == 0 {
			p = buf[8 : 8+z : 8+z]
		}

		n, err := r.Read(p)
		reads++

		if n < 0 || n > z {
			return reads, fmt.Errorf("at %d: Read of %d bytes returns %d", pos, z, n)
		}

		for j, x := range buf {
			if (j < 8 || j >= 8+z) && x != canary {
				return reads, fmt.Errorf("at %d: Read of %d bytes writes outside the buffer, at %d", pos, z, j-8)
			}
		}

		if pos+n > len(want) {
			return reads, fmt.Errorf("at %d: Read delivers %d bytes beyond the end at %d", pos, n, len(want))
		}

		if !bytes.Equal(p[:n], want[pos:pos+n]) {
			return reads, fmt.Errorf("at %d: Read of %d bytes: %w", pos, z, sameBytes(p[:n], want[pos:pos+n]))
		}

		if ended > 0 && n > 0 {
			return reads, fmt.Errorf("data after EOF")
		}

		pos += n

		switch {
		case err == io.EOF: //nolint:errorlint
			if pos != len(want) {
				return reads, fmt.Errorf("EOF at %d of %d", pos, len(want))
			}

			ended++
		case err != nil:
			return reads, fmt.Errorf("at %d of %d: %w", pos, len(want), err)
		default:
			if ended > 0 && z > 0 {
				return reads, fmt.Errorf("no EOF on a read after EOF")
			}

			if n == 0 && z > 0 {
				if idle++; idle > 1000 {
					return reads, errStuck
				}
			}

			if n > 0 {
				idle = 0
			}

			if z == 0 {
				if idle++; idle > 1000000 {
					return reads, herr("only empty reads")
				}

				if idle > 20 {
					// the cycle holds nothing but zeros
					old := size
					size = func() int { return max(1, old()) }
				}
			}
		}
	}

	return reads, nil
}

func closeContract(rc io.ReadCloser) error {
	for i := range 2 {
		if err := rc.Close(); err != nil {
			return fmt.Errorf("Close number %d: %w", i+1, err)
		}
	}

	for range 2 {
		buf := bytes.Repeat([]byte{canary}, 20)

		n, err := rc.Read(buf)
		if n != 0 || err == nil {
			return fmt.Errorf("Read after Close returns %d, %v", n, err)
		}
	}

	if err := rc.Close(); err != nil {
		return fmt.Errorf("Close after Read: %w", err)
	}

	return nil
}
