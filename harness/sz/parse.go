package sz

import (
	"encoding/binary"
	"fmt"
	"time"
	"unicode/utf16"
)

// Verdict is what the format's grammar says about a header.
type Verdict int

// Unclear stands for anything the format description leaves open, or that
// readers may well treat in different ways.
const (
	Unclear Verdict = iota
	Invalid
	Valid
)

// Listed is an item of a parsed header.
type Listed struct {
	Name    string
	NoName  bool // unpaired surrogates, or no names at all
	Size    uint64
	CRC     uint32
	Attr    uint32
	C, A, M time.Time
}

type stop struct {
	v   Verdict
	why string
}

type parser struct {
	b []byte
	// Whether anything about the header so far is unclear without preventing
	// the rest from being parsed.
	open string
}

func (p *parser) bad(f string, a ...any)  { panic(stop{Invalid, fmt.Sprintf(f, a...)}) }
func (p *parser) what(f string, a ...any) { panic(stop{Unclear, fmt.Sprintf(f, a...)}) }
func (p *parser) note(s string) {
	if p.open == "" {
		p.open = s
	}
}

func (p *parser) take(n uint64) []byte {
	if n > uint64(len(p.b)) {
		p.bad("cut short")
	}

	v := p.b[:n:n]
	p.b = p.b[n:]

	return v
}

func (p *parser) byte() byte { return p.take(1)[0] }

func (p *parser) num() uint64 {
	b := p.byte()

	var v uint64

	mask := byte(0x80)
	for i := range 8 {
		if b&mask == 0 {
			return v + uint64(b&(mask-1))<<(8*uint(i))
		}

		v |= uint64(p.byte()) << (8 * uint(i))
		mask >>= 1
	}

	return v
}

// count is a number of things that take up at least a bit each.
func (p *parser) count(what string) int {
	v := p.num()
	if v > 1<<20 {
		p.what("%d %s", v, what)
	}

	return int(v)
}

func (p *parser) bits(n int) []bool {
	b := p.take(uint64(n+7) / 8)
	v := make([]bool, n)

	for i := range v {
		v[i] = b[i/8]&(0x80>>uint(i%8)) != 0
	}

	return v
}

func (p *parser) optBits(n int) []bool {
	if p.byte() == 0 {
		return p.bits(n)
	}

	v := make([]bool, n)
	for i := range v {
		v[i] = true
	}

	return v
}

func (p *parser) digests(n int) ([]bool, []uint32) {
	def, c := p.optBits(n), make([]uint32, n)

	for i := range def {
		if def[i] {
			c[i] = binary.LittleEndian.Uint32(p.take(4))
		}
	}

	return def, c
}

func (p *parser) external() {
	// There are no additional streams that something could be kept in
	if p.byte() != 0 {
		p.bad("external data without additional streams")
	}
}

type pFolder struct {
	outs, packed int
	main         int
	sizes        []uint64
}

func (p *parser) folder() pFolder {
	n := p.num()
	if n == 0 {
		p.bad("folder without coders")
	}

	if n > 32 {
		p.what("%d coders", n)
	}

	var (
		in, out     int
		inOf, outOf []int // coder of each stream
		multi       bool
	)

	for i := range int(n) {
		f := p.byte()
		if f&0xc0 != 0 {
			p.what("coder flags %#x", f)
		}

		p.take(uint64(f & 0xf))

		ci, co := uint64(1), uint64(1)
		if f&0x10 != 0 {
			ci, co = p.num(), p.num()
			if ci == 0 || co == 0 || ci > 32 || co > 32 {
				p.what("coder with %d inputs and %d outputs", ci, co)
			}
		}

		multi = multi || co > 1

		for range ci {
			inOf = append(inOf, i)
		}

		for range co {
			outOf = append(outOf, i)
		}

		in += int(ci)
		out += int(co)

		if f&0x20 != 0 {
			l := p.num()
			p.take(l)
		}
	}

	if in > 32 || out > 32 {
		p.what("%d and %d streams", in, out)
	}

	if in < out-1 {
		p.bad("%d inputs for %d outputs", in, out)
	}

	if in < out {
		p.what("%d inputs for %d outputs", in, out)
	}

	inTo, outTo := make([]int, in), make([]int, out)
	for i := range inTo {
		inTo[i] = -1
	}

	for i := range outTo {
		outTo[i] = -1
	}

	for range out - 1 {
		i, o := p.num(), p.num()
		if i >= uint64(in) || o >= uint64(out) {
			p.bad("bond of %d to %d with %d and %d streams", i, o, in, out)
		}

		if inTo[i] >= 0 || outTo[o] >= 0 {
			p.bad("stream bound twice")
		}

		inTo[i], outTo[o] = int(o), int(i)
	}

	packed := in - (out - 1)
	if packed == 1 {
		// The one input that is left
	} else {
		seen := map[uint64]bool{}

		for range packed {
			i := p.num()
			if i >= uint64(in) || seen[i] || inTo[i] >= 0 {
				p.bad("packed stream for input %d", i)
			}

			seen[i] = true
		}
	}

	r := pFolder{outs: out, packed: packed, main: -1}

	for o := range outTo {
		if outTo[o] < 0 {
			r.main = o
		}
	}

	// Everything has to be needed for the main output
	if !multi {
		reached := make([]bool, n)

		var visit func(c int)

		visit = func(c int) {
			if reached[c] {
				return
			}

			reached[c] = true

			for i := range inTo {
				if inOf[i] == c && inTo[i] >= 0 {
					visit(outOf[inTo[i]])
				}
			}
		}

		visit(outOf[r.main])

		for c := range reached {
			if !reached[c] {
				// Noticed when a file is opened at the latest
				p.note("coders in a circle")
			}
		}
	} else {
		p.note("coder with several outputs")
	}

	return r
}

func (f *pFolder) size() uint64 { return f.sizes[f.main] }

type pStreams struct {
	folders []pFolder
	fdef    []bool
	fcrc    []uint32
	n       []uint64 // files per folder
	size    []uint64 // of each file
	crc     []uint32
	noSize  bool // some sizes are missing
	has     bool // folders
}

func (p *parser) streams() *pStreams {
	s := new(pStreams)
	id := p.byte()
	sizes := -1

	if id == idPackInfo {
		pos := p.num()
		n := p.count("packed streams")
		id = p.byte()

		if id == idSize {
			sum := pos
			sizes = n

			for range n {
				v := p.num()
				if v > 1<<62 || sum > 1<<62 {
					p.note("huge packed stream")

					v = 0
				}

				sum += v
			}

			id = p.byte()
		}

		if id == idCRC {
			p.digests(n)

			id = p.byte()
		}

		if id != idEnd {
			p.bad("id %d at the end of the packed streams", id)
		}

		id = p.byte()
	}

	if id == idUnpackInfo {
		if id = p.byte(); id != idFolder {
			p.bad("id %d for the folders", id)
		}

		n := p.count("folders")
		s.has = true

		p.external()

		for range n {
			s.folders = append(s.folders, p.folder())
		}

		if id = p.byte(); id != idCodersUnpackSize {
			p.bad("id %d for the sizes", id)
		}

		for i := range s.folders {
			for range s.folders[i].outs {
				v := p.num()
				if v > 1<<62 {
					p.note("huge stream")
				}

				s.folders[i].sizes = append(s.folders[i].sizes, v)
			}
		}

		s.fdef, s.fcrc = make([]bool, n), make([]uint32, n)

		if id = p.byte(); id == idCRC {
			s.fdef, s.fcrc = p.digests(n)
			id = p.byte()
		}

		if id != idEnd {
			p.bad("id %d at the end of the folders", id)
		}

		for range n {
			s.n = append(s.n, 1)
		}

		id = p.byte()
	}

	if id == idSubStreams {
		if !s.has {
			p.bad("files without folders")
		}

		if id = p.byte(); id == idNumUnpack {
			for i := range s.n {
				if s.n[i] = p.num(); s.n[i] > 1<<20 {
					p.what("%d files in a stream", s.n[i])
				}
			}

			id = p.byte()
		}

		total, unknown := 0, 0

		for i, n := range s.n {
			if total += int(n); total > 1<<20 {
				p.what("%d files", total)
			}

			if n != 1 || !s.fdef[i] {
				unknown += int(n)
			}

			s.noSize = s.noSize || n > 1
		}

		if id == idSize {
			s.noSize = false

			for i, n := range s.n {
				if n == 0 {
					continue
				}

				left := s.folders[i].size()

				for range n - 1 {
					v := p.num()
					if v > left {
						p.bad("files larger than their folder")
					}

					s.size = append(s.size, v)
					left -= v
				}

				s.size = append(s.size, left)
			}

			id = p.byte()
		} else if !s.noSize {
			for i, n := range s.n {
				if n == 1 {
					s.size = append(s.size, s.folders[i].size())
				}
			}
		}

		s.crc = make([]uint32, total)

		var c []uint32

		if id == idCRC {
			_, c = p.digests(unknown)
			id = p.byte()
		} else {
			c = make([]uint32, unknown)
		}

		at := 0

		for i, n := range s.n {
			if n == 1 && s.fdef[i] {
				s.crc[at] = s.fcrc[i]
				at++

				continue
			}

			copy(s.crc[at:], c[:n])
			c = c[n:]
			at += int(n)
		}

		if id != idEnd {
			p.bad("id %d at the end of the files of the folders", id)
		}

		id = p.byte()
	} else {
		for i := range s.folders {
			s.size = append(s.size, s.folders[i].size())
			s.crc = append(s.crc, s.fcrc[i])
		}
	}

	if id != idEnd {
		p.bad("id %d at the end of the streams", id)
	}

	need := 0
	for i := range s.folders {
		need += s.folders[i].packed
	}

	if need > max(sizes, 0) {
		p.bad("%d packed streams instead of %d", sizes, need)
	}

	if need != max(sizes, 0) {
		p.note("unused packed streams")
	}

	return s
}

func (p *parser) files(s *pStreams) []Listed {
	n := p.count("files")
	out := make([]Listed, n)
	seen := map[byte]bool{}
	empty := make([]bool, n)
	nEmpty := 0

	times := func(set func(*Listed, time.Time)) {
		def := p.optBits(n)
		p.external()

		for i := range def {
			if def[i] {
				set(&out[i], FTime(binary.LittleEndian.Uint64(p.take(8))))
			}
		}
	}

	for {
		id := p.byte()
		if id == idEnd {
			break
		}

		l := p.num()

		switch id {
		case idEmptyStream, idEmptyFile, idNames, idCTime, idATime, idMTime, idAttr:
			if seen[id] {
				p.what("property %d twice", id)
			}

			seen[id] = true
		case idDummy:
		default:
			p.what("property %d", id)
		}

		before := uint64(len(p.b))

		switch id {
		case idEmptyStream:
			empty = p.bits(n)

			for i := range empty {
				if empty[i] {
					nEmpty++
				}
			}
		case idEmptyFile:
			if !seen[idEmptyStream] {
				p.what("empty files without empty streams")
			}

			p.bits(nEmpty)
		case idNames:
			p.external()

			if l < 1 {
				p.what("names take no bytes")
			}

			b := p.take(l - 1)
			if len(b)%2 != 0 {
				p.what("odd names")
			}

			var u []uint16

			j := 0

			for i := 0; i < len(b); i += 2 {
				c := binary.LittleEndian.Uint16(b[i:])
				if c != 0 {
					u = append(u, c)

					continue
				}

				if j < n {
					r := utf16.Decode(u)
					out[j].Name = string(r)

					for _, x := range r {
						out[j].NoName = out[j].NoName || x == 0xfffd
					}
				}

				u = nil
				j++
			}

			if u != nil {
				p.what("name without end")
			}

			if j != n {
				p.bad("%d names for %d files", j, n)
			}
		case idCTime:
			times(func(x *Listed, t time.Time) { x.C = t })
		case idATime:
			times(func(x *Listed, t time.Time) { x.A = t })
		case idMTime:
			times(func(x *Listed, t time.Time) { x.M = t })
		case idAttr:
			def := p.optBits(n)
			p.external()

			for i := range def {
				if def[i] {
					out[i].Attr = binary.LittleEndian.Uint32(p.take(4))
				}
			}
		case idDummy:
			p.take(l)
		}

		if before-uint64(len(p.b)) != l {
			p.what("property %d takes %d bytes instead of %d", id, before-uint64(len(p.b)), l)
		}
	}

	if !seen[idNames] {
		for i := range out {
			out[i].NoName = true
		}
	}

	j := 0

	for i := range out {
		if empty[i] {
			continue
		}

		if s == nil || !s.has {
			p.bad("files without streams")
		}

		if s.noSize {
			p.what("no sizes")
		}

		if j >= len(s.size) {
			p.bad("more files than streams")
		}

		out[i].Size, out[i].CRC = s.size[j], s.crc[j]
		j++
	}

	if s != nil && j != len(s.size) {
		p.note("fewer files than streams")
	}

	return out
}

// ParseHeader says whether b is a header, and of which items. It has been
// written from the format's description only.
func ParseHeader(b []byte) (v Verdict, why string, l []Listed) {
	p := &parser{b: b}

	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(stop)
			if !ok {
				panic(r)
			}

			// Whatever could not be made out may be at fault
			if v, why, l = s.v, s.why, nil; p.open != "" {
				v, why = Unclear, p.open
			}
		}
	}()

	if id := p.byte(); id != idHeader {
		p.bad("id %d for the header", id)
	}

	id := p.byte()
	if id == 2 || id == 3 {
		p.what("section %d", id)
	}

	var s *pStreams

	if id == idMainStreams {
		s = p.streams()
		id = p.byte()
	}

	if id == idFilesInfo {
		l = p.files(s)
		id = p.byte()
	} else if s != nil && len(s.size) > 0 {
		p.note("streams without files")
	}

	if id != idEnd {
		p.bad("id %d at the end of the header", id)
	}

	if len(p.b) > 0 {
		p.note("more after the header")
	}

	if p.open != "" {
		return Unclear, p.open, nil
	}

	return Valid, "", l
}

// ParseEncoded is ParseHeader for the description of a packed header.
func ParseEncoded(b []byte) (v Verdict, why string) {
	p := &parser{b: b}

	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(stop)
			if !ok {
				panic(r)
			}

			if v, why = s.v, s.why; p.open != "" {
				v, why = Unclear, p.open
			}
		}
	}()

	if id := p.byte(); id == idHeader {
		p.what("plain header")
	} else if id != idEncoded {
		p.bad("id %d for the packed header", id)
	}

	p.streams()

	return Unclear, "content"
}

// WithHeader is the archive with another header, optionally a packed one
// whose description has been through mut, and that description.
func (o *Built) WithHeader(head []byte, node *Node, order uint64, mut func([]Tok) []Tok) (raw, outer []byte) {
	const size = 32

	body := append([]byte(nil), o.Raw[o.Base+size:o.HeadOff]...)

	if node != nil {
		p := EncodeFolder(node, head, order, o.Spec.Password, nil)
		pos := len(body)

		for _, st := range p.Streams {
			body = append(body, st...)
		}

		e := new(Buf)
		e.byte(idEncoded)
		streamsHead(e, uint64(pos), p.Streams, []Packed{p}, []bool{true}, []uint32{crc(head)}, 0, false)
		e.byte(idEnd)

		if mut != nil {
			e.T = mut(e.T)
		}

		head = Bytes(e.T)
		outer = head
	}

	start := binary.LittleEndian.AppendUint64(nil, uint64(len(body)))
	start = binary.LittleEndian.AppendUint64(start, uint64(len(head)))
	start = binary.LittleEndian.AppendUint32(start, crc(head))

	raw = append(raw, o.Raw[:o.Base+8]...)
	raw = binary.LittleEndian.AppendUint32(raw, crc(start))
	raw = append(raw, start...)
	raw = append(raw, body...)
	raw = append(raw, head...)

	return raw, outer
}
