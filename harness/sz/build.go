package sz

import (
	"encoding/binary"
	"hash/crc32"
	"strings"
	"time"
	"unicode/utf16"
)

// Kinds of entry.
const (
	EData  = iota // content in a folder
	EEmpty        // empty file
	EDir          // directory
)

// Entry is one archived item.
type Entry struct {
	Kind  int     `json:"kind,omitempty"`
	Name  string  `json:"name"`
	Data  Data    `json:"data,omitzero"`
	C     *uint64 `json:"c,omitempty"` // FILETIMEs
	A     *uint64 `json:"a,omitempty"`
	M     *uint64 `json:"mt,omitempty"`
	Attr  *uint32 `json:"attr,omitempty"`
	NoCRC bool    `json:"nocrc,omitempty"`
}

// Folder is one compressed stream holding the next N data entries.
type Folder struct {
	Root *Node `json:"root"`
	N    int   `json:"n"`
	// FolderCRC records a digest of the whole stream next to the coders.
	FolderCRC bool   `json:"fcrc,omitempty"`
	Order     uint64 `json:"order,omitempty"` // seed for coder, bind pair and pack stream order
	// Short encodes that many bytes less than declared at the end, or more
	// when negative.
	Short int `json:"short,omitempty"`
	// CutPack drops that many bytes from the end of packed stream CutIdx.
	CutPack int `json:"cutpack,omitempty"`
	CutIdx  int `json:"cutidx,omitempty"`
	// Orphan is content that belongs to no file, used when N is 0.
	Orphan Data `json:"orphan,omitzero"`
}

// Layout holds the encoding choices that must not matter.
type Layout struct {
	Prefix     Data   `json:"prefix,omitzero"`
	Decoys     []int  `json:"decoys,omitempty"` // offsets of fake signatures in the prefix
	Suffix     Data   `json:"suffix,omitzero"`
	Header     *Node  `json:"header,omitempty"` // coder of an encoded header
	HeaderRoot uint64 `json:"hroot,omitempty"`
	HeaderCRC  bool   `json:"hcrc,omitempty"` // digest of encoded header
	PackGap    int    `json:"packgap,omitempty"`
	HeadGap    int    `json:"headgap,omitempty"`
	HPackGap   int    `json:"hpackgap,omitempty"`
	PackCRC    int    `json:"packcrc,omitempty"` // 0 none 1 all 2 some
	OmitSub    bool   `json:"omitsub,omitempty"`
	OmitNum    bool   `json:"omitnum,omitempty"`
	Long       bool   `json:"long,omitempty"`   // long form of all-true masks
	NumPad     uint64 `json:"numpad,omitempty"` // seed for non-minimal numbers
	Dummy      []int  `json:"dummy,omitempty"`  // dummy property lengths
	PropSeed   uint64 `json:"propseed,omitempty"`
	Major      byte   `json:"major,omitempty"`
	Minor      byte   `json:"minor,omitempty"`
	NoEmptyRec bool   `json:"noemptyrec,omitempty"` // leave out the empty file mask when there is none
	Bare       bool   `json:"bare,omitempty"`       // no header at all
	Zeros      int    `json:"zeros,omitempty"`      // parts that are there though there is nothing in them, see Zero*
}

// What can be recorded though there is none of it.
const (
	ZeroFiles   = 1 << iota // files
	ZeroNames               // their properties
	ZeroStreams             // packed streams and folders
	ZeroSubs                // and files in folders
	ZeroDigests             // digests of files in folders
	ZeroEmpty               // empty files
)

// Spec is an archive.
type Spec struct {
	Folders  []Folder `json:"folders,omitempty"`
	Entries  []Entry  `json:"entries"`
	Layout   Layout   `json:"layout,omitzero"`
	Password string   `json:"pw,omitempty"`
}

// Expect is what the reader must report for an entry.
type Expect struct {
	Name    string
	Dir     bool
	Kind    int
	Folder  int
	Size    uint64
	CRC     uint32
	Attr    uint32
	C, A, M time.Time
	Data    []byte
}

// Tok is a piece of a header.
type Tok struct {
	Num bool
	V   uint64
	Raw []byte
	// Tag names what the token is, for mutators.
	Tag string
}

// Buf collects header tokens.
type Buf struct {
	T   []Tok
	pad *Rng
}

func (b *Buf) byte(v byte)  { b.T = append(b.T, Tok{Raw: []byte{v}, Tag: "id"}) }
func (b *Buf) raw(v []byte) { b.T = append(b.T, Tok{Raw: v, Tag: "raw"}) }
func (b *Buf) num(v uint64) {
	extra := 0
	if b.pad != nil && b.pad.N(3) == 0 {
		extra = b.pad.N(9)
	}

	b.T = append(b.T, Tok{Num: true, V: v, Raw: EncodeNum(v, extra), Tag: "num"})
}

// Bytes serialises tokens.
func Bytes(ts []Tok) []byte {
	var out []byte
	for _, t := range ts {
		out = append(out, t.Raw...)
	}

	return out
}

// EncodeNum writes a 7-zip number using at least extra additional bytes.
func EncodeNum(v uint64, extra int) []byte {
	n := 0
	for n < 8 && (n < extra || v>>(7*uint(n)+7) != 0 && n < 8) {
		if n >= extra && v < 1<<(7*uint(n)+7) {
			break
		}

		n++
	}

	out := make([]byte, 1+n)
	first := byte(0)

	for i := range n {
		first |= 0x80 >> uint(i)
		out[1+i] = byte(v >> (8 * uint(i)))
	}

	if n < 8 {
		first |= byte(v >> (8 * uint(n)))
	}

	out[0] = first

	return out
}

func (b *Buf) bits(v []bool) {
	out := make([]byte, (len(v)+7)/8)
	for i, x := range v {
		if x {
			out[i/8] |= 0x80 >> uint(i%8)
		}
	}

	b.raw(out)
}

func (b *Buf) optBits(v []bool, long bool) {
	all := true
	for _, x := range v {
		all = all && x
	}

	if all && !long {
		b.byte(1)

		return
	}

	b.byte(0)
	b.bits(v)
}

func (b *Buf) u32(v uint32) { b.raw(binary.LittleEndian.AppendUint32(nil, v)) }
func (b *Buf) u64(v uint64) { b.raw(binary.LittleEndian.AppendUint64(nil, v)) }

func (b *Buf) digests(def []bool, crc []uint32, long bool) {
	b.optBits(def, long)

	for i := range def {
		if def[i] {
			b.u32(crc[i])
		}
	}
}

// Packed is an encoded folder.
type Packed struct {
	Folder  []Tok
	Sizes   []uint64 // unpack sizes of coders in order
	Streams [][]byte
	Main    int // index of the unbound coder
}

type coderRec struct {
	n      *Node
	id     []byte
	props  []byte
	size   uint64
	inputs []int // coder index or -1
	pack   [][]byte
}

// EncodeFolder runs data through the coder tree.
func EncodeFolder(root *Node, data []byte, order uint64, password string, pad *Rng) Packed {
	var recs []*coderRec

	var run func(n *Node, data []byte) int
	run = func(n *Node, data []byte) int {
		streams, props := n.Encode(data, password)
		c := &coderRec{n: n, id: n.MethodIDOf(), props: props, size: uint64(len(data))}

		recs = append(recs, c)
		me := len(recs) - 1

		for i, s := range streams {
			if i < len(n.In) && n.In[i] != nil {
				c.inputs = append(c.inputs, run(n.In[i], s))
				c.pack = append(c.pack, nil)
			} else {
				c.inputs = append(c.inputs, -1)
				c.pack = append(c.pack, s)
			}
		}

		return me
	}
	run(root, data)

	// Random topological order, producers of a coder's input before it.
	r := Rng(order)
	done := make([]bool, len(recs))

	var topo []int

	for len(topo) < len(recs) {
		var ready []int

		for i, c := range recs {
			ok := !done[i]
			for _, in := range c.inputs {
				if in >= 0 && !done[in] {
					ok = false
				}
			}

			if ok {
				ready = append(ready, i)
			}
		}

		k := ready[len(ready)-1]
		if order != 0 {
			k = ready[r.N(len(ready))]
		}

		done[k] = true
		topo = append(topo, k)
	}

	if order != 0 && r.N(3) == 0 {
		topo = r.Perm(len(recs))
	}

	outIdx := make([]int, len(recs))
	for pos, i := range topo {
		outIdx[i] = pos
	}

	p := Packed{Main: outIdx[0]}
	b := &Buf{pad: pad}
	b.num(uint64(len(topo)))

	type bp struct{ in, out uint64 }

	type pk struct {
		in   uint64
		data []byte
	}

	var (
		bps []bp
		pks []pk
		in  uint64
	)

	for _, i := range topo {
		c := recs[i]
		flags := byte(len(c.id))
		cplx := len(c.inputs) != 1 || c.n.Cplx

		if cplx {
			flags |= 0x10
		}

		hasProps := len(c.props) > 0 || order != 0 && r.N(4) == 0
		if hasProps {
			flags |= 0x20
		}

		b.byte(flags)
		b.raw(c.id)

		if cplx {
			b.num(uint64(len(c.inputs)))
			b.num(1)
		}

		if hasProps {
			b.num(uint64(len(c.props)))
			b.raw(c.props)
		}

		p.Sizes = append(p.Sizes, c.size)

		for j, src := range c.inputs {
			if src >= 0 {
				bps = append(bps, bp{in, uint64(outIdx[src])})
			} else {
				pks = append(pks, pk{in, c.pack[j]})
			}

			in++
		}
	}

	bo, po := r.Perm(len(bps)), r.Perm(len(pks))

	for i := range bps {
		x := bps[i]
		if order != 0 {
			x = bps[bo[i]]
		}

		b.num(x.in)
		b.num(x.out)
	}

	for i := range pks {
		x := pks[i]
		if order != 0 {
			x = pks[po[i]]
		}

		if len(pks) > 1 {
			b.num(x.in)
		}

		p.Streams = append(p.Streams, x.data)
	}

	p.Folder = b.T

	return p
}

// Built is a finished archive with everything known about it.
type Built struct {
	Spec  *Spec
	Raw   []byte
	Files []Expect
	// Header is the plain header as tokens.
	Header []Tok
	// Base is the offset of the signature, HeadOff and HeadLen locate the
	// header (or encoded header) in Raw.
	Base, HeadOff, HeadLen int
	// FolderPack is the range of packed data of each folder in Raw, PackOff
	// of each packed stream (all folders, in order).
	FolderPack [][2]int
	PackStream [][2]int
	EncHeader  [2]int // packed encoded header, if any
	folders    []Packed
}

var sig = []byte{'7', 'z', 0xbc, 0xaf, 0x27, 0x1c}

// Signature is the 7-zip signature.
func Signature() []byte { return append([]byte(nil), sig...) }

func crc(b []byte) uint32 { return crc32.ChecksumIEEE(b) }

// FTime converts a FILETIME to a time.Time.
func FTime(ft uint64) time.Time {
	const epoch = 11644473600

	return time.Unix(int64(ft/1e7)-epoch, int64(ft%1e7)*100).UTC()
}

// PackInfo etc. section ids.
const (
	idEnd, idHeader, idPackInfo, idUnpackInfo, idSubStreams, idSize, idCRC, idFolder, idCodersUnpackSize, idNumUnpack = 0, 1, 6, 7, 8, 9, 10, 11, 12, 13
	idEmptyStream, idEmptyFile, idNames, idCTime, idATime, idMTime, idAttr, idEncoded, idDummy                        = 14, 15, 17, 18, 19, 20, 21, 23, 25
	idMainStreams, idFilesInfo                                                                                        = 4, 5
)

func streamsHead(b *Buf, pos uint64, streams [][]byte, folders []Packed, fdef []bool, fcrc []uint32, packCRC int, long bool) {
	b.byte(idPackInfo)
	b.num(pos)
	b.num(uint64(len(streams)))
	b.byte(idSize)

	for _, s := range streams {
		b.num(uint64(len(s)))
	}

	if packCRC != 0 {
		b.byte(idCRC)

		def, c := make([]bool, len(streams)), make([]uint32, len(streams))
		for i, s := range streams {
			def[i] = packCRC == 1 || i%2 == 0
			c[i] = crc(s)
		}

		b.digests(def, c, long)
	}

	b.byte(idEnd)
	b.byte(idUnpackInfo)
	b.byte(idFolder)
	b.num(uint64(len(folders)))
	b.byte(0)

	for _, f := range folders {
		b.T = append(b.T, f.Folder...)
	}

	b.byte(idCodersUnpackSize)

	for _, f := range folders {
		for _, s := range f.Sizes {
			b.num(s)
		}
	}

	any := false
	for _, d := range fdef {
		any = any || d
	}

	if any {
		b.byte(idCRC)
		b.digests(fdef, fcrc, long)
	}

	b.byte(idEnd)
}

// Build makes the archive. It panics (prefix "harness:") on a bad spec.
func Build(s *Spec) *Built { return BuildMut(s, nil) }

// BuildMut is Build with the header tokens passed through mut before they
// are serialised; all checksums are computed after that.
func BuildMut(s *Spec, mut func([]Tok) []Tok) *Built {
	o := &Built{Spec: s}
	l := &s.Layout

	var pad *Rng

	if l.NumPad != 0 {
		r := Rng(l.NumPad)
		pad = &r
	}

	// Content.
	var (
		streams  [][]byte
		folders  []Packed
		fdef     []bool
		fcrc     []uint32
		subs     [][]uint64 // sizes per folder
		subDef   [][]bool
		subCRC   [][]uint32
		dataIdx  []int
		folderOf []int
	)

	for i := range s.Entries {
		if s.Entries[i].Kind == EData {
			dataIdx = append(dataIdx, i)
		}
	}

	contents := map[int][]byte{}
	k := 0
	folderOf = make([]int, len(s.Entries))

	for fi := range s.Folders {
		f := &s.Folders[fi]

		var (
			all   []byte
			sizes []uint64
			def   []bool
			cs    []uint32
		)

		for range f.N {
			if k >= len(dataIdx) {
				panic("harness: more substreams than data entries")
			}

			e := &s.Entries[dataIdx[k]]
			d := e.Data.Bytes()
			contents[dataIdx[k]] = d
			folderOf[dataIdx[k]] = fi
			all = append(all, d...)
			sizes = append(sizes, uint64(len(d)))
			def = append(def, !e.NoCRC)
			cs = append(cs, crc(d))
			k++
		}

		if f.N == 0 {
			all = f.Orphan.Bytes()
		}

		enc := all
		if f.Short > 0 {
			enc = all[:max(0, len(all)-f.Short)]
		} else if f.Short < 0 {
			enc = append(append([]byte(nil), all...), Data{K: KText, S: 99, N: -f.Short}.Bytes()...)
		}

		p := EncodeFolder(f.Root, enc, f.Order, s.Password, pad)
		if f.Short != 0 {
			p.Sizes[p.Main] = uint64(len(all))
		}

		if f.CutPack > 0 {
			j := f.CutIdx % len(p.Streams)
			p.Streams[j] = p.Streams[j][:max(0, len(p.Streams[j])-f.CutPack)]
		}

		folders = append(folders, p)
		streams = append(streams, p.Streams...)
		fdef = append(fdef, f.FolderCRC)
		fcrc = append(fcrc, crc(all))
		subs = append(subs, sizes)
		subDef = append(subDef, def)
		subCRC = append(subCRC, cs)
	}

	if k != len(dataIdx) {
		panic("harness: data entries without folder")
	}

	o.folders = folders

	omitSub := l.OmitSub

	for fi := range s.Folders {
		if s.Folders[fi].N != 1 {
			omitSub = false
		}
		// A lone file whose digest is recorded only as folder digest.
		if omitSub && !s.Folders[fi].FolderCRC {
			for j := range subDef[fi] {
				subDef[fi][j] = false
			}
		}
	}

	// With one stream a folder digest is the file's digest.
	for fi := range s.Folders {
		if s.Folders[fi].N == 1 && fdef[fi] {
			subDef[fi][0] = true
		}
	}

	h := &Buf{pad: pad}
	h.byte(idHeader)

	if len(folders) > 0 || l.Zeros&ZeroStreams != 0 {
		h.byte(idMainStreams)
		streamsHead(h, uint64(l.PackGap), streams, folders, fdef, fcrc, l.PackCRC, l.Long)

		if len(folders) == 0 {
			omitSub = l.Zeros&ZeroSubs == 0
		}

		if !omitSub {
			h.byte(idSubStreams)

			allOne := true
			for _, f := range s.Folders {
				allOne = allOne && f.N == 1
			}

			if !(allOne && l.OmitNum) {
				h.byte(idNumUnpack)

				for _, f := range s.Folders {
					h.num(uint64(f.N))
				}
			}

			multi := false
			for _, f := range s.Folders {
				multi = multi || f.N > 1
			}

			if multi || !l.OmitNum {
				h.byte(idSize)

				for _, z := range subs {
					for j := 0; j+1 < len(z); j++ {
						h.num(z[j])
					}
				}
			}

			var (
				def []bool
				cs  []uint32
				any bool
			)

			for fi, f := range s.Folders {
				if f.N == 1 && fdef[fi] {
					continue
				}

				for j := range subDef[fi] {
					def = append(def, subDef[fi][j])
					cs = append(cs, subCRC[fi][j])
					any = any || subDef[fi][j]
				}
			}

			if any || len(def) == 0 && l.Zeros&ZeroDigests != 0 {
				h.byte(idCRC)
				h.digests(def, cs, l.Long)
			}

			h.byte(idEnd)
		}

		h.byte(idEnd)
	}

	files(h, s, l, pad)
	h.byte(idEnd)

	if mut != nil {
		h.T = mut(h.T)
	}

	o.Header = h.T
	head := Bytes(h.T)

	// Packed area.
	filler := Rng(0x1234)
	gap := func(n int) []byte {
		return Data{K: KRandom, S: filler.U64(), N: n}.Bytes()
	}

	body := gap(l.PackGap)

	var packPos [][2]int

	for _, st := range streams {
		packPos = append(packPos, [2]int{len(body), len(body) + len(st)})
		body = append(body, st...)
	}

	if l.Header != nil {
		body = append(body, gap(l.HPackGap)...)
		p := EncodeFolder(l.Header, head, l.HeaderRoot, s.Password, pad)
		pos := len(body)

		for _, st := range p.Streams {
			body = append(body, st...)
		}

		o.EncHeader = [2]int{pos, len(body)}

		e := &Buf{pad: pad}
		e.byte(idEncoded)
		streamsHead(e, uint64(pos), p.Streams, []Packed{p}, []bool{l.HeaderCRC}, []uint32{crc(head)}, l.PackCRC, l.Long)
		e.byte(idEnd)

		head = Bytes(e.T)
	}

	body = append(body, gap(l.HeadGap)...)

	prefix := l.Prefix.Bytes()
	if len(l.Decoys) > 0 {
		prefix = append([]byte(nil), prefix...)

		for _, d := range l.Decoys {
			if d >= 0 && d+6 <= len(prefix) {
				copy(prefix[d:], sig)
			}
		}
	}

	raw := append([]byte(nil), prefix...)
	o.Base = len(raw)
	raw = append(raw, sig...)
	raw = append(raw, l.Major, l.Minor)

	start := binary.LittleEndian.AppendUint64(nil, uint64(len(body)))
	start = binary.LittleEndian.AppendUint64(start, uint64(len(head)))
	start = binary.LittleEndian.AppendUint32(start, crc(head))

	if l.Bare {
		if len(s.Entries)+len(folders) > 0 {
			panic("harness: content without header")
		}

		start, body, head = make([]byte, 20), nil, nil
	}

	raw = binary.LittleEndian.AppendUint32(raw, crc(start))
	raw = append(raw, start...)
	bodyOff := len(raw)
	raw = append(raw, body...)
	o.HeadOff, o.HeadLen = len(raw), len(head)
	raw = append(raw, head...)
	raw = append(raw, l.Suffix.Bytes()...)
	o.Raw = raw
	o.EncHeader[0] += bodyOff
	o.EncHeader[1] += bodyOff

	pi := 0

	for _, p := range folders {
		lo, hi := -1, -1

		for range p.Streams {
			r := [2]int{packPos[pi][0] + bodyOff, packPos[pi][1] + bodyOff}
			if lo < 0 {
				lo = r[0]
			}

			hi = r[1]
			o.PackStream = append(o.PackStream, r)
			pi++
		}

		o.FolderPack = append(o.FolderPack, [2]int{lo, hi})
	}

	// Expectation.
	j := make([]int, len(folders))

	for i := range s.Entries {
		e := &s.Entries[i]
		x := Expect{Name: e.Name, Kind: e.Kind, Dir: e.Kind == EDir}

		if e.C != nil {
			x.C = FTime(*e.C)
		}

		if e.A != nil {
			x.A = FTime(*e.A)
		}

		if e.M != nil {
			x.M = FTime(*e.M)
		}

		if e.Attr != nil {
			x.Attr = *e.Attr
		}

		if x.Dir && !strings.HasSuffix(x.Name, "/") {
			x.Name += "/"
		}

		if e.Kind == EData {
			fi := folderOf[i]
			x.Folder = fi
			x.Data = contents[i]
			x.Size = uint64(len(x.Data))

			if subDef[fi][j[fi]] {
				x.CRC = crc(x.Data)
			}

			j[fi]++
		}

		o.Files = append(o.Files, x)
	}

	return o
}

func files(h *Buf, s *Spec, l *Layout, pad *Rng) {
	if len(s.Entries) == 0 && l.Zeros&ZeroFiles == 0 {
		return
	}

	n := len(s.Entries)

	h.byte(idFilesInfo)
	h.num(uint64(n))

	prop := func(id byte, f func(b *Buf)) []Tok {
		b := &Buf{pad: pad}
		f(b)

		o := &Buf{pad: pad}
		o.byte(id)
		o.num(uint64(len(Bytes(b.T))))

		return append(o.T, b.T...)
	}

	var props [][]Tok

	empty := make([]bool, n)
	anyEmpty, anyEmptyFile := false, false

	var emptyFile []bool

	for i, e := range s.Entries {
		empty[i] = e.Kind != EData
		if empty[i] {
			anyEmpty = true
			emptyFile = append(emptyFile, e.Kind == EEmpty)
			anyEmptyFile = anyEmptyFile || e.Kind == EEmpty
		}
	}

	if n > 0 || l.Zeros&ZeroNames != 0 {
		props = append(props, prop(idNames, func(b *Buf) {
			b.byte(0)

			var raw []byte

			for _, e := range s.Entries {
				for _, u := range utf16.Encode([]rune(e.Name)) {
					raw = append(raw, byte(u), byte(u>>8))
				}

				raw = append(raw, 0, 0)
			}

			b.raw(raw)
		}))
	}

	times := func(id byte, get func(*Entry) *uint64) {
		def := make([]bool, n)
		any := false

		for i := range s.Entries {
			def[i] = get(&s.Entries[i]) != nil
			any = any || def[i]
		}

		if !any && (n > 0 || l.Zeros&ZeroNames == 0) {
			return
		}

		props = append(props, prop(id, func(b *Buf) {
			b.optBits(def, l.Long)
			b.byte(0)

			for i := range s.Entries {
				if p := get(&s.Entries[i]); p != nil {
					b.u64(*p)
				}
			}
		}))
	}

	times(idCTime, func(e *Entry) *uint64 { return e.C })
	times(idATime, func(e *Entry) *uint64 { return e.A })
	times(idMTime, func(e *Entry) *uint64 { return e.M })

	def := make([]bool, n)
	any := false

	for i := range s.Entries {
		def[i] = s.Entries[i].Attr != nil
		any = any || def[i]
	}

	if any || n == 0 && l.Zeros&ZeroNames != 0 {
		props = append(props, prop(idAttr, func(b *Buf) {
			b.optBits(def, l.Long)
			b.byte(0)

			for i := range s.Entries {
				if s.Entries[i].Attr != nil {
					b.u32(*s.Entries[i].Attr)
				}
			}
		}))
	}

	for _, d := range l.Dummy {
		props = append(props, prop(idDummy, func(b *Buf) { b.raw(make([]byte, max(0, d))) }))
	}

	order := make([]int, len(props))
	for i := range order {
		order[i] = i
	}

	r := Rng(l.PropSeed)
	if l.PropSeed != 0 {
		order = r.Perm(len(props))
	}

	var seq [][]Tok
	for _, i := range order {
		seq = append(seq, props[i])
	}

	// The empty stream mask may be anywhere, the empty file mask after it.
	if anyEmpty || !l.NoEmptyRec && l.Long {
		at := 0
		if l.PropSeed != 0 {
			at = r.N(len(seq) + 1)
		}

		seq = append(seq[:at:at], append([][]Tok{prop(idEmptyStream, func(b *Buf) { b.bits(empty) })}, seq[at:]...)...)

		if anyEmpty && (anyEmptyFile || !l.NoEmptyRec) || !anyEmpty && l.Zeros&ZeroEmpty != 0 {
			at2 := at + 1
			if l.PropSeed != 0 {
				at2 += r.N(len(seq) - at)
			}

			seq = append(seq[:at2:at2], append([][]Tok{prop(idEmptyFile, func(b *Buf) { b.bits(emptyFile) })}, seq[at2:]...)...)
		}
	}

	for _, t := range seq {
		h.T = append(h.T, t...)
	}

	h.byte(idEnd)
}
