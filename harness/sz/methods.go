package sz

import (
	"bytes"
	stdflate "compress/flate"
	"encoding/binary"
	"fmt"
	"sync"

	"github.com/andybalholm/brotli"
	"github.com/klauspost/compress/flate"
	"github.com/klauspost/compress/zstd"
	"github.com/pierrec/lz4/v4"
	"github.com/ulikunitz/xz/lzma"
	"verifharness/enc"
)

// Node is one coder of a folder, seen from the unpacked side. In lists the
// coders producing its input streams; nil (or missing) is a packed stream.
type Node struct {
	M    string  `json:"m"`
	A    int     `json:"a,omitempty"`
	B    int     `json:"b,omitempty"`
	C    int     `json:"c,omitempty"`
	D    int     `json:"d,omitempty"`
	Seed uint64  `json:"seed,omitempty"`
	Salt []byte  `json:"salt,omitempty"`
	IV   []byte  `json:"iv,omitempty"`
	ID   []byte  `json:"id,omitempty"`   // custom method id
	Prop []byte  `json:"prop,omitempty"` // custom or extra properties
	Cplx bool    `json:"cplx,omitempty"` // write stream counts although 1/1
	Wide int     `json:"wide,omitempty"` // bits of the window that is declared, if more than needed
	In   []*Node `json:"in,omitempty"`
}

// Custom encoders, by method name, for methods registered by a check.
var Custom = map[string]func(n *Node, data []byte) [][]byte{}

var ids = map[string][]byte{
	"copy":    {0x00},
	"delta":   {0x03},
	"lzma":    {3, 1, 1},
	"bcj":     {3, 3, 1, 3},
	"bcj2":    {3, 3, 1, 0x1b},
	"ppc":     {3, 3, 2, 5},
	"arm":     {3, 3, 5, 1},
	"sparc":   {3, 3, 8, 5},
	"deflate": {4, 1, 8},
	"bzip2":   {4, 2, 2},
	"zstd":    {4, 0xf7, 0x11, 1},
	"brotli":  {4, 0xf7, 0x11, 2},
	"lz4":     {4, 0xf7, 0x11, 4},
	"aes":     {6, 0xf1, 7, 1},
	"arm64":   {0xa},
	"lzma2":   {0x21},
	"ppmd":    {3, 4, 1},
}

// Methods lists the built-in method names in a fixed order.
var Methods = []string{"copy", "lzma", "lzma2", "ppmd", "bzip2", "deflate", "zstd", "brotli", "lz4", "delta", "bcj", "bcj2", "arm", "arm64", "ppc", "sparc", "aes"}

// MethodID returns the id bytes of a built-in method.
func MethodID(m string) []byte { return ids[m] }

var zpool sync.Map

func zenc(level int, crc bool, win int) *zstd.Encoder {
	type key struct {
		l, w int
		c    bool
	}

	k := key{level, win, crc}
	if v, ok := zpool.Load(k); ok {
		return v.(*zstd.Encoder)
	}

	e, err := zstd.NewWriter(nil, zstd.WithEncoderLevel(zstd.EncoderLevel(level)), zstd.WithEncoderCRC(crc),
		zstd.WithWindowSize(win), zstd.WithEncoderConcurrency(1), zstd.WithLowerEncoderMem(true))
	if err != nil {
		panic(err)
	}

	zpool.Store(k, e)

	return e
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// LZMA2Dict is the dictionary size of an LZMA2 property byte.
func LZMA2Dict(p int) int { return (2 | p&1) << (uint(p)/2 + 11) }

func clamp(v, lo, hi int) int { return min(max(v, lo), hi) }

// Encode applies the coder to data and returns its streams (what the decoder
// reads, in input order) and its properties.
func (n *Node) Encode(data []byte, password string) (streams [][]byte, props []byte) {
	one := func(b []byte) [][]byte {
		if b == nil {
			b = []byte{}
		}

		return [][]byte{b}
	}

	if f, ok := Custom[n.M]; ok {
		return f(n, data), n.Prop
	}

	switch n.M {
	case "copy":
		return one(append([]byte{}, data...)), n.Prop
	case "delta":
		d := clamp(n.A, 1, 256)

		return one(enc.Delta(data, d)), []byte{byte(d - 1)}
	case "bcj":
		return one(enc.X86(data)), n.Prop
	case "arm":
		return one(enc.ARM(data)), n.Prop
	case "arm64":
		// The position of the stream may be recorded, in units of an instruction
		if n.A > 0 {
			pc := uint32(n.A) * 4

			return one(enc.ARM64At(data, pc)), binary.LittleEndian.AppendUint32(nil, pc)
		}

		return one(enc.ARM64(data)), n.Prop
	case "ppc":
		return one(enc.PPC(data)), n.Prop
	case "sparc":
		return one(enc.SPARC(data)), n.Prop
	case "bcj2":
		r := Rng(n.Seed)
		mode := n.A % 4
		m, c, j, rc := enc.BCJ2(data, func(pos int, rel uint32) bool {
			switch mode {
			case 0:
				return r.N(2) == 0
			case 1:
				return true
			case 2:
				return rel>>24 == 0 || rel>>24 == 0xff
			default:
				return false
			}
		})

		return [][]byte{m, c, j, rc}, n.Prop
	case "aes":
		cyc := n.A
		if cyc != 0x3f {
			cyc = clamp(cyc, 0, 24)
		}

		return one(enc.AESEncrypt(data, enc.AESKey(password, cyc, n.Salt), n.IV)), enc.AESProps(cyc, n.Salt, n.IV)
	case "lzma":
		lc, lp, pb := clamp(n.A, 0, 8), clamp(n.B, 0, 4), clamp(n.C, 0, 4)

		w := new(bytes.Buffer)
		cfg := lzma.WriterConfig{
			Properties:   &lzma.Properties{LC: lc, LP: lp, PB: pb},
			DictCap:      max(4096, n.D),
			SizeInHeader: true,
			Size:         int64(len(data)),
			EOSMarker:    n.Seed&1 == 1,
		}
		lw, err := cfg.NewWriter(w)
		must(err)
		_, err = lw.Write(data)
		must(err)
		must(lw.Close())

		props := append([]byte(nil), w.Bytes()[:5]...)
		if d := min(uint64(1)<<uint(n.Wide), 1<<32-1); n.Wide > 0 && d > uint64(n.D) {
			binary.LittleEndian.PutUint32(props[1:], uint32(d))
		}

		return one(w.Bytes()[13:]), props
	case "lzma2":
		p := clamp(n.D, 0, 20)
		lc := clamp(n.A, 0, 4)
		lp := clamp(n.B, 0, 4-lc)

		props := lzma.Properties{LC: lc, LP: lp, PB: clamp(n.C, 0, 4)}
		r := Rng(n.Seed)

		var out []byte

		rest := data
		if n.Seed != 0 {
			// Independent runs of chunks, as multi-threaded encoders make.
			for r.N(3) == 0 && len(rest) > 1 {
				k := 1 + r.N(len(rest)-1)
				out = append(out, lzma2Chunks(rest[:k], props, LZMA2Dict(p), r.U64())...)
				rest = rest[k:]
			}
		}

		out = append(out, lzma2Chunks(rest, props, LZMA2Dict(p), n.Seed)...)

		return one(append(out, 0)), []byte{byte(max(p, 2*(n.Wide-12)))}
	case "ppmd":
		out, props, err := enc.PPMD(data, clamp(n.A, 2, 64), uint32(clamp(max(n.D, 1<<uint(n.Wide)), 1<<11, 1<<28)))
		must(err)

		return one(out), props
	case "bzip2":
		l := clamp(n.A, 1, 9)
		size := max(1, n.D)

		if n.Seed != 0 && len(data) > 1 {
			// several concatenated streams
			k := 1 + int(n.Seed%uint64(len(data)-1))
			a := enc.Bzip2(data[:k], l, size, clamp(n.B, 2, 6))

			return one(append(a, enc.Bzip2(data[k:], l, size, clamp(n.B, 2, 6))...)), n.Prop
		}

		return one(enc.Bzip2(data, l, size, clamp(n.B, 2, 6))), n.Prop
	case "deflate":
		w := new(bytes.Buffer)

		if n.B == 0 {
			fw, err := flate.NewWriter(w, clamp(n.A, -2, 9))
			must(err)
			chunked(fw, data, n.Seed, func() { must(fw.Flush()) })
			must(fw.Close())
		} else {
			fw, err := stdflate.NewWriter(w, clamp(n.A, -2, 9))
			must(err)
			chunked(fw, data, n.Seed, func() { must(fw.Flush()) })
			must(fw.Close())
		}

		return one(w.Bytes()), n.Prop
	case "zstd":
		e := zenc(clamp(n.A, 1, 4), n.B&1 == 1, 1<<uint(clamp(n.D, 10, 20)))
		frames := clamp(n.C, 1, 4)

		var out []byte

		for i := range frames {
			lo, hi := len(data)*i/frames, len(data)*(i+1)/frames
			if n.B&2 != 0 {
				// a skippable frame
				out = binary.LittleEndian.AppendUint32(out, 0x184d2a50+uint32(n.Seed%16))
				k := int(n.Seed % 9)
				out = binary.LittleEndian.AppendUint32(out, uint32(k))
				out = append(out, make([]byte, k)...)
			}

			if n.B&4 == 0 && n.Wide == 0 {
				out = e.EncodeAll(data[lo:hi], out)

				continue
			}

			// As a stream, nothing is known about its length
			w := new(bytes.Buffer)
			e, err := zstd.NewWriter(w, zstd.WithEncoderLevel(zstd.EncoderLevel(clamp(n.A, 1, 2))), zstd.WithEncoderCRC(n.B&1 == 1),
				zstd.WithWindowSize(1<<uint(clamp(n.D, 10, 20))), zstd.WithEncoderConcurrency(1), zstd.WithLowerEncoderMem(true), zstd.WithSingleSegment(false))
			must(err)
			chunked(e, data[lo:hi], n.Seed|1, func() { must(e.Flush()) })
			must(e.Close())

			z := w.Bytes()
			if len(z) > 6 && z[4]&0x20 == 0 && n.Wide > 20 {
				z[5] = byte(n.Wide-10) << 3
			}

			out = append(out, z...)
		}

		return one(out), n.Prop
	case "brotli":
		one1 := func(data []byte) []byte {
			w := new(bytes.Buffer)
			bw := brotli.NewWriterOptions(w, brotli.WriterOptions{Quality: clamp(n.A, 0, 9), LGWin: clamp(max(n.B, n.Wide), 10, 24)})
			chunked(bw, data, n.Seed, func() { must(bw.Flush()) })
			must(bw.Close())

			return w.Bytes()
		}

		if n.C == 0 {
			return one(one1(data)), n.Prop
		}

		// One or more frames
		frames := clamp(n.C, 1, 8)

		var out []byte

		for i := range frames {
			part := data[len(data)*i/frames : len(data)*(i+1)/frames]
			z := one1(part)

			out = binary.LittleEndian.AppendUint32(out, 0x184d2a50)
			out = binary.LittleEndian.AppendUint32(out, 8)
			out = binary.LittleEndian.AppendUint32(out, uint32(len(z)))
			out = append(out, 'B', 'R')
			out = binary.LittleEndian.AppendUint16(out, uint16((len(part)+65535)>>16))
			out = append(out, z...)
		}

		return one(out), n.Prop
	case "lz4":
		one1 := func(data []byte) []byte {
			w := new(bytes.Buffer)
			lw := lz4.NewWriter(w)
			opts := []lz4.Option{
				lz4.BlockSizeOption([]lz4.BlockSize{lz4.Block64Kb, lz4.Block256Kb, lz4.Block1Mb, lz4.Block4Mb}[n.A&1+min(2, n.Wide&2)]),
				lz4.ChecksumOption(n.B&1 == 1),
				lz4.BlockChecksumOption(n.B&2 == 2),
				lz4.ConcurrencyOption(1),
			}

			if n.B&4 == 4 {
				opts = append(opts, lz4.SizeOption(uint64(len(data))))
			}

			if n.C > 0 {
				opts = append(opts, lz4.CompressionLevelOption(lz4.CompressionLevel(1<<uint(8+clamp(n.C, 1, 9)))))
			}

			must(lw.Apply(opts...))
			chunked(lw, data, n.Seed, func() { must(lw.Flush()) })
			must(lw.Close())

			return w.Bytes()
		}

		frames := n.A >> 1
		if frames == 0 {
			return one(one1(data)), n.Prop
		}

		// Frames announced by skippable ones
		var out []byte

		for i := range frames {
			z := one1(data[len(data)*i/frames : len(data)*(i+1)/frames])

			out = binary.LittleEndian.AppendUint32(out, 0x184d2a50)
			out = binary.LittleEndian.AppendUint32(out, 4)
			out = binary.LittleEndian.AppendUint32(out, uint32(len(z)))
			out = append(out, z...)
		}

		return one(out), n.Prop
	}

	panic(fmt.Sprintf("harness: unknown method %q", n.M))
}

func chunked(w interface{ Write([]byte) (int, error) }, data []byte, seed uint64, flush func()) {
	r := Rng(seed)

	for len(data) > 0 {
		k := len(data)
		if seed != 0 {
			k = min(k, 1+r.N(5000))
		}

		_, err := w.Write(data[:k])
		must(err)

		data = data[k:]

		if seed != 0 && r.N(3) == 0 {
			flush()
		}
	}
}

// MethodIDOf returns the id a node is stored with.
func (n *Node) MethodIDOf() []byte {
	if n.ID != nil {
		return n.ID
	}

	return ids[n.M]
}

// Walk visits the node and all below it.
func (n *Node) Walk(f func(*Node)) {
	f(n)

	for _, c := range n.In {
		if c != nil {
			c.Walk(f)
		}
	}
}

// Has tells whether the tree uses a method.
func (n *Node) Has(m string) bool {
	has := false

	n.Walk(func(x *Node) { has = has || x.M == m })

	return has
}

// lzma2Chunks returns chunks, beginning with a dictionary reset, without the
// end of the stream.
func lzma2Chunks(data []byte, props lzma.Properties, dict int, seed uint64) []byte {
	try := func(seed uint64) []byte {
		w := new(bytes.Buffer)
		cfg := lzma.Writer2Config{Properties: &props, DictCap: dict, BufSize: 1 << 17}
		lw, err := cfg.NewWriter2(w)
		must(err)

		r := Rng(seed)
		for rest := data; len(rest) > 0; {
			k := len(rest)
			if seed != 0 {
				k = min(k, 1+r.N(3000))
			}

			if _, err = lw.Write(rest[:k]); err != nil {
				return nil
			}

			rest = rest[k:]

			if seed != 0 && r.N(4) == 0 {
				if lw.Flush() != nil {
					return nil
				}
			}
		}

		if lw.Close() != nil {
			return nil
		}

		return w.Bytes()[:w.Len()-1]
	}

	if seed%16 != 3 {
		// The encoder gives up on some inputs.
		if out := try(seed); out != nil {
			return out
		}

		if out := try(0); out != nil {
			return out
		}
	}

	// Stored chunks.
	var out []byte

	for i, rest := byte(1), data; len(rest) > 0; i = 2 {
		k := min(len(rest), 1<<16)
		out = append(out, i, byte((k-1)>>8), byte(k-1))
		out = append(out, rest[:k]...)
		rest = rest[k:]
	}

	return out
}
