package sz

import (
	"bytes"
	"encoding/binary"
	"io"
	"sort"

	"github.com/klauspost/compress/flate"
	"github.com/pierrec/lz4/v4"
	"github.com/ulikunitz/xz/lzma"
	"verifharness/enc"
)

// Sparse is data that is zero apart from some pieces.
type Sparse struct {
	Size uint64
	Segs []enc.Seg // sorted, apart from each other
}

// ReadAt implements io.ReaderAt.
func (s *Sparse) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 || uint64(off) >= s.Size {
		return 0, io.EOF
	}

	var err error
	if uint64(len(p)) > s.Size-uint64(off) {
		p, err = p[:s.Size-uint64(off)], io.EOF
	}

	clear(p)

	lo, hi := uint64(off), uint64(off)+uint64(len(p))
	i := sort.Search(len(s.Segs), func(i int) bool { return s.Segs[i].Off+uint64(len(s.Segs[i].B)) > lo })

	for ; i < len(s.Segs) && s.Segs[i].Off < hi; i++ {
		x := s.Segs[i]
		a, b := max(lo, x.Off), min(hi, x.Off+uint64(len(x.B)))
		copy(p[a-lo:b-lo], x.B[a-x.Off:b-x.Off])
	}

	return len(p), err
}

func (s *Sparse) add(o *Sparse) {
	for _, x := range o.Segs {
		if len(x.B) > 0 {
			s.Segs = append(s.Segs, enc.Seg{Off: s.Size + x.Off, B: x.B})
		}
	}

	s.Size += o.Size
}

func (s *Sparse) addBytes(b []byte) { s.add(&Sparse{uint64(len(b)), []enc.Seg{{Off: 0, B: b}}}) }

// normal returns the data with every piece starting at a multiple of 16 and
// ending in at least 300 zeros, unless at the end.
func (s *Sparse) normal() []enc.Seg {
	var out []enc.Seg

	const tail = 320

	segs := append([]enc.Seg(nil), s.Segs...)
	sort.SliceStable(segs, func(i, j int) bool { return segs[i].Off < segs[j].Off })

	for _, x := range segs {
		lo := x.Off &^ 15
		hi := min(x.Off+uint64(len(x.B))+tail, s.Size)

		if n := len(out) - 1; n >= 0 && out[n].Off+uint64(len(out[n].B)) >= lo {
			lo, hi = out[n].Off, max(hi, out[n].Off+uint64(len(out[n].B)))
			out = out[:n]
		}

		b := make([]byte, hi-lo)
		_, _ = s.ReadAt(b, int64(lo))
		out = append(out, enc.Seg{Off: lo, B: b})
	}

	return out
}

// Island is some data at a position of a stream.
type Island struct {
	Pos uint64 `json:"pos"`
	D   Data   `json:"d"`
}

// BigStream is a stream of a few methods over sparse data, or a small one of
// any methods.
type BigStream struct {
	Ms      []string `json:"ms,omitempty"` // outermost first
	A       int      `json:"a,omitempty"`
	Files   []uint64 `json:"files"`
	Islands []Island `json:"islands,omitempty"`
	Root    *Node    `json:"root,omitempty"`
	D       Data     `json:"data,omitzero"` // for small ones
}

// Content is what the stream holds.
func (b *BigStream) Content() *Sparse {
	s := new(Sparse)
	for _, f := range b.Files {
		s.Size += f
	}

	if b.Root != nil {
		d := b.D.Bytes()
		x := make([]byte, s.Size)
		copy(x, d)
		s.Segs = []enc.Seg{{Off: 0, B: x}}

		return s
	}

	is := append([]Island(nil), b.Islands...)
	sort.SliceStable(is, func(i, j int) bool { return is[i].Pos < is[j].Pos })

	end := uint64(0)

	for _, x := range is {
		d := x.D.Bytes()
		if x.Pos < end || x.Pos >= s.Size {
			continue
		}

		d = d[:min(uint64(len(d)), s.Size-x.Pos)]
		if len(d) == 0 {
			continue
		}

		end = x.Pos + uint64(len(d))
		s.Segs = append(s.Segs, enc.Seg{Off: x.Pos, B: d})
	}

	return s
}

func mapSegs(s *Sparse, f func(x enc.Seg) []byte) *Sparse {
	o := &Sparse{Size: s.Size}
	for _, x := range s.normal() {
		o.Segs = append(o.Segs, enc.Seg{Off: x.Off, B: f(x)})
	}

	return o
}

// bigChunks encodes the data in chunks, those that are zero only once.
func bigChunks(s *Sparse, size int, f func(p []byte, last bool) []byte) []byte {
	var (
		out, zero []byte
		p         = make([]byte, size)
	)

	i := 0

	for off := uint64(0); off < s.Size; off += uint64(size) {
		n := min(uint64(size), s.Size-off)
		last := off+n == s.Size

		for i < len(s.Segs) && s.Segs[i].Off+uint64(len(s.Segs[i].B)) <= off {
			i++
		}

		if i >= len(s.Segs) || s.Segs[i].Off >= off+n {
			if n == uint64(size) && !last {
				if zero == nil {
					clear(p)

					zero = f(p, false)
				}

				out = append(out, zero...)

				continue
			}
		}

		_, _ = s.ReadAt(p[:n], int64(off))
		out = append(out, f(p[:n], last)...)
	}

	return out
}

func bigEncode(m string, a int, s *Sparse) (streams []*Sparse, props []byte) {
	one := func(b []byte) []*Sparse { return []*Sparse{{uint64(len(b)), []enc.Seg{{Off: 0, B: b}}}} }
	at := func(f func([]byte, uint32) []byte) []*Sparse {
		return []*Sparse{mapSegs(s, func(x enc.Seg) []byte { return f(x.B, uint32(x.Off)) })}
	}

	switch m {
	case "copy":
		return []*Sparse{s}, nil
	case "delta":
		d := clamp(a, 1, 256)

		return []*Sparse{mapSegs(s, func(x enc.Seg) []byte { return enc.Delta(x.B, d) })}, []byte{byte(d - 1)}
	case "bcj":
		return at(enc.X86At), nil
	case "arm":
		return at(enc.ARMAt), nil
	case "arm64":
		return at(enc.ARM64At), nil
	case "ppc":
		return at(enc.PPCAt), nil
	case "sparc":
		return at(enc.SPARCAt), nil
	case "bcj2":
		ms, c, j, r := enc.BCJ2Segs(s.normal(), func(int, uint32) bool { return true })
		n := s.Size - uint64(len(c)) - uint64(len(j))

		return []*Sparse{{n, ms}, one(c)[0], one(j)[0], one(r)[0]}, nil
	case "zstd":
		out := []byte{0x28, 0xb5, 0x2f, 0xfd, 0, 7 << 3}
		zero := make([]byte, 1<<17)

		return one(append(out, bigChunks(s, 1<<17, func(p []byte, last bool) []byte {
			h := uint32(len(p)) << 3
			if last {
				h |= 1
			}

			if bytes.Equal(p, zero[:len(p)]) {
				h |= 1 << 1

				return []byte{byte(h), byte(h >> 8), byte(h >> 16), 0}
			}

			return append([]byte{byte(h), byte(h >> 8), byte(h >> 16)}, p...)
		})...)), nil
	case "deflate":
		return one(bigChunks(s, 1<<20, func(p []byte, last bool) []byte {
			w := new(bytes.Buffer)
			fw, err := flate.NewWriter(w, 1)
			must(err)
			_, err = fw.Write(p)
			must(err)

			if last {
				must(fw.Close())
			} else {
				must(fw.Flush())
			}

			return w.Bytes()
		})), nil
	case "lz4":
		// Header of a frame with independent blocks of 4 MiB.
		w := new(bytes.Buffer)
		lw := lz4.NewWriter(w)
		must(lw.Apply(lz4.BlockSizeOption(lz4.Block4Mb), lz4.ChecksumOption(false), lz4.ConcurrencyOption(1)))
		_, err := lw.Write([]byte{0})
		must(err)
		must(lw.Close())

		out := append([]byte(nil), w.Bytes()[:7]...)
		out = append(out, bigChunks(s, 4<<20, func(p []byte, _ bool) []byte {
			dst := make([]byte, lz4.CompressBlockBound(len(p)))

			var c lz4.Compressor

			n, err := c.CompressBlock(p, dst)
			must(err)

			if n == 0 || n >= len(p) {
				return append(binary.LittleEndian.AppendUint32(nil, uint32(len(p))|1<<31), p...)
			}

			return append(binary.LittleEndian.AppendUint32(nil, uint32(n)), dst[:n]...)
		})...)

		return one(append(out, 0, 0, 0, 0)), nil
	case "lzma2":
		// dictionary of 4 MiB
		out := bigChunks(s, 1<<21, func(p []byte, _ bool) []byte {
			return lzma2Chunks(p, lzma.Properties{LC: 3, LP: 0, PB: 2}, 4<<20, 0)
		})

		return one(append(out, 0)), []byte{20}
	}

	panic("harness: big method " + m)
}

// BigSpec is an archive of any size.
type BigSpec struct {
	Prefix  int         `json:"prefix,omitempty"`
	Gap     uint64      `json:"gap"`
	HGap    uint64      `json:"hgap"`
	PackGap uint64      `json:"packgap"` // before an encoded header's packed data
	Suffix  uint64      `json:"suffix"`
	Streams []BigStream `json:"streams"`
	Header  *Node       `json:"header,omitempty"`
	HCRC    bool        `json:"hcrc,omitempty"`
	NumPad  uint64      `json:"numpad,omitempty"`
}

// BigFile is what a file has to be.
type BigFile struct {
	Name    string
	Size    uint64
	Stream  int
	Offset  uint64
	Content *Sparse // of the stream
}

// BuildBig makes the archive.
func BuildBig(s *BigSpec) (*Sparse, []BigFile) {
	var pad *Rng

	if s.NumPad != 0 {
		r := Rng(s.NumPad)
		pad = &r
	}

	var (
		files   []BigFile
		body    = new(Sparse)
		sizes   []uint64
		folders []Packed
	)

	body.Size = s.Gap

	for i := range s.Streams {
		st := &s.Streams[i]
		c := st.Content()
		off := uint64(0)

		for _, n := range st.Files {
			files = append(files, BigFile{Name: "f" + string(rune('a'+len(files)%26)), Size: n, Stream: i, Offset: off, Content: c})
			off += n
		}

		if st.Root != nil {
			p := EncodeFolder(st.Root, c.Segs[0].B, 0, "", pad)
			for _, x := range p.Streams {
				body.addBytes(x)
				sizes = append(sizes, uint64(len(x)))
			}

			folders = append(folders, p)

			continue
		}

		b := &Buf{pad: pad}
		p := Packed{}
		n := len(st.Ms)
		b.num(uint64(n))

		var (
			all  [][]*Sparse
			prop [][]byte
		)

		for cur, k := c, 0; k < n; k++ {
			x, pr := bigEncode(st.Ms[k], st.A, cur)
			all, prop = append(all, x), append(prop, pr)
			cur = x[0]
		}

		for k := n - 1; k >= 0; k-- {
			id := ids[st.Ms[k]]
			flags := byte(len(id))

			if len(all[k]) > 1 {
				flags |= 0x10
			}

			if len(prop[k]) > 0 {
				flags |= 0x20
			}

			b.byte(flags)
			b.raw(id)

			if len(all[k]) > 1 {
				b.num(uint64(len(all[k])))
				b.num(1)
			}

			if len(prop[k]) > 0 {
				b.num(uint64(len(prop[k])))
				b.raw(prop[k])
			}

			// The size is that of what the coder above encoded.
			size := c.Size
			if k > 0 {
				size = all[k-1][0].Size
			}

			p.Sizes = append(p.Sizes, size)
		}

		for k := 1; k < n; k++ {
			b.num(uint64(k))
			b.num(uint64(k - 1))
		}

		last := all[n-1]
		if n > 1 {
			// Only the first coder of the list may have several streams here,
			// further streams of outer ones are not supported.
			if len(all[0]) > 1 {
				panic("harness: bcj2 in a chain")
			}
		}

		if len(last) > 1 {
			for j := range last {
				b.num(uint64(j))
			}
		}

		for _, x := range last {
			body.add(x)
			sizes = append(sizes, x.Size)
		}

		p.Folder = b.T
		folders = append(folders, p)
	}

	h := &Buf{pad: pad}
	h.byte(idHeader)
	h.byte(idMainStreams)
	h.byte(idPackInfo)
	h.num(s.Gap)
	h.num(uint64(len(sizes)))
	h.byte(idSize)

	for _, z := range sizes {
		h.num(z)
	}

	h.byte(idEnd)
	h.byte(idUnpackInfo)
	h.byte(idFolder)
	h.num(uint64(len(folders)))
	h.byte(0)

	for _, f := range folders {
		h.T = append(h.T, f.Folder...)
	}

	h.byte(idCodersUnpackSize)

	for _, f := range folders {
		for _, z := range f.Sizes {
			h.num(z)
		}
	}

	h.byte(idEnd)
	h.byte(idSubStreams)
	h.byte(idNumUnpack)

	for i := range s.Streams {
		h.num(uint64(len(s.Streams[i].Files)))
	}

	h.byte(idSize)

	for i := range s.Streams {
		f := s.Streams[i].Files
		for j := 0; j+1 < len(f); j++ {
			h.num(f[j])
		}
	}

	h.byte(idEnd)
	h.byte(idEnd)
	h.byte(idFilesInfo)
	h.num(uint64(len(files)))
	h.byte(idNames)

	var raw []byte

	for _, f := range files {
		for _, c := range f.Name {
			raw = append(raw, byte(c), 0)
		}

		raw = append(raw, 0, 0)
	}

	h.num(uint64(1 + len(raw)))
	h.byte(0)
	h.raw(raw)
	h.byte(idEnd)
	h.byte(idEnd)

	head := Bytes(h.T)

	if s.Header != nil {
		body.Size += s.PackGap
		pos := body.Size
		p := EncodeFolder(s.Header, head, 0, "", pad)

		for _, x := range p.Streams {
			body.addBytes(x)
		}

		e := &Buf{pad: pad}
		e.byte(idEncoded)
		streamsHead(e, pos, p.Streams, []Packed{p}, []bool{s.HCRC}, []uint32{crc(head)}, 0, false)
		e.byte(idEnd)

		head = Bytes(e.T)
	}

	body.Size += s.HGap

	start := binary.LittleEndian.AppendUint64(nil, body.Size)
	start = binary.LittleEndian.AppendUint64(start, uint64(len(head)))
	start = binary.LittleEndian.AppendUint32(start, crc(head))

	out := new(Sparse)
	out.addBytes(Data{K: KText, S: 5, N: s.Prefix}.Bytes())

	sigh := append(Signature(), 0, 4)
	sigh = binary.LittleEndian.AppendUint32(sigh, crc(start))
	out.addBytes(append(sigh, start...))
	out.add(body)
	out.addBytes(head)
	out.Size += s.Suffix

	return out, files
}
