package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"io/fs"
	"math/bits"
	"runtime/metrics"
	"strings"
	"time"

	"github.com/bodgit/sevenzip"
	"pgregory.net/rapid"
	"verifharness/sz"
)

// hostile mutates the pieces of a header (checksums are right afterwards),
// bytes of the finished archive, or is a header of drawn pieces.
type hostile struct {
	Spec *sz.Spec `json:"spec"`
	Toks []tokMut `json:"toks,omitempty"`
	// Bytes: area (0 packed data, 1 packed header, 2 header, 3 start header,
	// 4 anywhere), per 2^20 position, kind, value.
	Bytes [][4]int `json:"bytes,omitempty"`
	Fix   bool     `json:"fix,omitempty"` // correct the checksums after that
	Raw   []byte   `json:"raw,omitempty"` // header to use instead
	Junk  []byte   `json:"junk,omitempty"`
	Pw    int      `json:"pw,omitempty"` // 0 right, 1 wrong, 2 none
	Plan  uint64   `json:"plan,omitempty"`
	Many  *many    `json:"many,omitempty"` // archive to use instead
}

// many is a valid archive of very many tiny pieces, in place of all else.
type many struct {
	N    int `json:"n"`
	Kind int `json:"kind"`
}

// manyArchive writes an archive with n files:
//
//	0: each in a stream of its own, without counts
//	1: the same, with counts
//	2: all in the same stream
//	3: none with content
//	4: half as many files in the last of as many streams
//	5: like 3, in directories of their own
func manyArchive(m *many) []byte {
	num := func(b []byte, v uint64) []byte { return append(b, sz.EncodeNum(v, 0)...) }
	rep := func(b []byte, n int, x ...byte) []byte { return append(b, bytes.Repeat(x, n)...) }

	folders, files := m.N, m.N
	b := []byte{1}

	switch m.Kind {
	case 2:
		folders = 1
	case 3, 5:
		folders = 0
	case 4:
		folders, files = m.N/2, m.N/2
	}

	size := 0

	if folders > 0 {
		each, last := 1, 1
		if folders == 1 || m.Kind == 4 {
			last = files
		}

		size = (folders-1)*each + last

		sizes := num(rep(nil, folders-1, byte(each)), uint64(last))

		b = append(num(append(b, 4, 6, 0), uint64(folders)), 9)
		b = append(append(b, sizes...), 0, 7, 11)
		b = append(num(b, uint64(folders)), 0)
		b = append(rep(b, folders, 1, 1, 0), 12)
		b = append(append(b, sizes...), 0)

		switch m.Kind {
		case 1:
			b = append(rep(append(b, 8, 13), folders, 1), 0)
		case 2, 4:
			first := byte(0)
			b = num(rep(append(b, 8, 13), folders-1, first), uint64(files))
			b = append(rep(append(b, 9), files-1, 1), 0)
		}

		b = append(b, 0)
	}

	b = num(append(b, 5), uint64(files))

	if folders == 0 {
		all := rep(nil, (files+7)/8, 0xff)
		if files%8 != 0 {
			all[len(all)-1] <<= uint(8 - files%8)
		}

		for _, id := range []byte{14, 15} {
			b = append(num(append(b, id), uint64(len(all))), all...)
		}
	}

	var names []byte

	for i := range files {
		s := fmt.Sprintf("%x", i)
		if m.Kind == 5 {
			s = fmt.Sprintf("%x/%x", i/100, i)
		}

		for _, c := range []byte(s) {
			names = append(names, c, 0)
		}

		names = append(names, 0, 0)
	}

	b = num(append(b, 17), uint64(1+len(names)))
	b = append(append(append(b, 0), names...), 0, 0)

	start := binary.LittleEndian.AppendUint64(nil, uint64(size))
	start = binary.LittleEndian.AppendUint64(start, uint64(len(b)))
	start = binary.LittleEndian.AppendUint32(start, crc32of(b))

	raw := append(sz.Signature(), 0, 4)
	raw = append(binary.LittleEndian.AppendUint32(raw, crc32of(start)), start...)

	return append(append(raw, make([]byte, size)...), b...)
}

func runMany(m *many, plan uint64, o *Out) error {
	raw := manyArchive(m)
	t := time.Now()

	r, err := sevenzip.NewReader(newBytesAt(raw), int64(len(raw)))
	if err != nil {
		return fmt.Errorf("valid archive of many pieces: %w", err)
	}

	d := time.Since(t)
	n := m.N

	if m.Kind == 4 {
		n /= 2
	}

	o.NonTrivial = true
	o.class("many:%d", m.Kind)

	if len(r.File) != n {
		return fmt.Errorf("%d files listed, want %d", len(r.File), n)
	}

	if d > 20*time.Second {
		return fmt.Errorf("opening %d bytes takes %v", len(raw), d)
	}

	for _, i := range []int{0, n / 2, n - 1} {
		data, err := readFile(r.File[i])
		if want := len(raw) > 0 && m.Kind != 3 && m.Kind != 5; err != nil || (len(data) == 1) != want {
			return fmt.Errorf("file %d: %d bytes, %w", i, len(data), err)
		}
	}

	return exercise(r, plan)
}

type tokMut struct {
	K  int    `json:"k"`
	At int    `json:"at"`
	V  uint64 `json:"v,omitempty"`
	N  int    `json:"n,omitempty"`
}

// Kinds of mutation.
const (
	tmNum     = iota // number V instead of a number
	tmByte           // byte V instead of the piece
	tmDelete         // leave N+1 pieces out
	tmDup            // repeat N+1 pieces
	tmInsNum         // insert a number
	tmInsByte        // insert a byte
	tmSwap           // swap with the piece N+1 later
	tmXor            // change a byte within a piece
	tmTrim           // cut a piece short
	tmAdd            // add V to a number
	tmCopy           // copy N+1 pieces to position V
	tmCutAll         // end the header here
	tmProp           // change the length of the properties of a coder
	nTokMuts
)

var hostileNums = []uint64{0, 1, 2, 3, 4, 5, 7, 8, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<62 - 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1, 1<<64 - 32, 1<<64 - 33}

func drawHostileNum(t *rapid.T, l string) uint64 {
	return rapid.OneOf(rapid.Uint64Range(0, 6), rapid.SampledFrom(hostileNums), rapid.Uint64Range(0, 300), rapid.Uint64()).Draw(t, l)
}

func drawTokMut(t *rapid.T) tokMut {
	m := tokMut{
		K:  rapid.SampledFrom([]int{tmNum, tmNum, tmNum, tmNum, tmByte, tmDelete, tmDup, tmInsNum, tmInsByte, tmSwap, tmXor, tmXor, tmTrim, tmAdd, tmAdd, tmCopy, tmCutAll, tmProp, tmProp}).Draw(t, "mut"),
		At: drawInt(t, 0, 1<<20-1, "at"),
	}

	switch m.K {
	case tmNum, tmInsNum:
		m.V = drawHostileNum(t, "v")
	case tmAdd:
		m.V = rapid.SampledFrom([]uint64{1, ^uint64(0), 2, ^uint64(1), 16, 1 << 32, 1 << 63}).Draw(t, "add")
	case tmByte, tmInsByte:
		m.V = rapid.OneOf(rapid.Uint64Range(0, 26), rapid.Uint64Range(0, 255)).Draw(t, "b")
	default:
		m.V = rapid.Uint64Range(0, 1<<20-1).Draw(t, "x")
		m.N = rapid.IntRange(0, 6).Draw(t, "n")
	}

	return m
}

func at(n, p int) int { return int(uint64(n) * uint64(p) >> 20) }

// mutate changes a header.
func mutate(ts []sz.Tok, ms []tokMut) []sz.Tok {
	num := func(v uint64) sz.Tok { return sz.Tok{Num: true, V: v, Raw: sz.EncodeNum(v, 0)} }

	for _, m := range ms {
		if len(ts) == 0 {
			break
		}

		i := at(len(ts), m.At)

		if m.K == tmNum || m.K == tmAdd {
			// the next number from here on
			for j := range ts {
				if ts[(i+j)%len(ts)].Num {
					i = (i + j) % len(ts)

					break
				}
			}
		}

		e := min(len(ts), i+m.N+1)
		cp := func(x []sz.Tok) []sz.Tok { return append([]sz.Tok(nil), x...) }

		switch m.K {
		case tmNum:
			ts[i] = num(m.V)
		case tmAdd:
			ts[i] = num(ts[i].V + m.V)
		case tmByte:
			ts[i] = sz.Tok{Raw: []byte{byte(m.V)}}
		case tmDelete:
			ts = append(cp(ts[:i]), ts[e:]...)
		case tmDup:
			ts = append(cp(ts[:e]), ts[i:]...)
		case tmInsNum:
			ts = append(append(cp(ts[:i]), num(m.V)), ts[i:]...)
		case tmInsByte:
			ts = append(append(cp(ts[:i]), sz.Tok{Raw: []byte{byte(m.V)}}), ts[i:]...)
		case tmSwap:
			j := (i + m.N + 1) % len(ts)
			ts[i], ts[j] = ts[j], ts[i]
		case tmXor, tmTrim:
			r := append([]byte(nil), ts[i].Raw...)
			if len(r) == 0 {
				continue
			}

			k := int(m.V) % len(r)
			if m.K == tmXor {
				r[k] ^= 1 << uint(m.V>>8%8)
			} else {
				r = r[:k]
			}

			ts[i].Raw = r
		case tmCopy:
			j := at(len(ts), int(m.V))
			ts = append(append(cp(ts[:j]), ts[i:e]...), ts[j:]...)
		case tmProp:
			var js []int

			for j := range len(ts) - 1 {
				if ts[j].Num && ts[j+1].Tag == "raw" && ts[j].V == uint64(len(ts[j+1].Raw)) {
					js = append(js, j)
				}
			}

			if len(js) == 0 {
				continue
			}

			j := js[i%len(js)]
			r := append([]byte(nil), ts[j+1].Raw...)

			for len(r) < 1+m.N*3 {
				r = append(r, byte(m.V>>8))
			}

			r = r[:1+int(m.V)%len(r)]
			ts = cp(ts)
			ts[j] = num(uint64(len(r)))
			ts[j+1].Raw = r
		case tmCutAll:
			if m.N < 2 {
				ts = ts[:i]
			}
		}
	}

	return ts
}

// tame limits properties that only make decoding legitimately expensive:
// dictionary and memory sizes and the cost of deriving keys.
func tame(h []byte) []byte {
	h = append([]byte(nil), h...)
	has := func(i int, id ...byte) bool { return i+len(id) <= len(h) && string(h[i:i+len(id)]) == string(id) }

	// A number of one byte, or the same one recorded in a longer form.
	num := func(i int, v byte) int {
		if i >= len(h) {
			return 0
		}

		if h[i] == v {
			return 1
		}

		n := bits.LeadingZeros8(^h[i])
		if n > 0 && i+1+n <= len(h) && h[i+1] == v {
			return 1 + n
		}

		return 0
	}

	for i := range h {
		// The number of streams, each in up to nine bytes, may be in between
		for gap := range 19 {
			if has(i, 3, 1, 1) || has(i, 3, 4, 1) {
				if n := num(i+3+gap, 5); n > 0 && i+3+gap+n+5 <= len(h) {
					h[i+3+gap+n+4] &= 1
				}
			}

			if has(i, 0x21) {
				if n := num(i+1+gap, 1); n > 0 && i+1+gap+n < len(h) {
					if v := h[i+1+gap+n]; v > 26 && v <= 40 {
						h[i+1+gap+n] = 26
					}
				}
			}
		}

		if has(i, 6, 0xf1, 7, 1) {
			for k := i + 4; k < min(len(h), i+32); k++ {
				if v := h[k] & 0x3f; h[k] >= 0x40 && v > 12 && v <= 24 {
					h[k] = h[k]&0xc0 | v&7
				}
			}
		}
	}

	return h
}

func drawRawHeader(t *rapid.T) []byte {
	b := []byte{rapid.SampledFrom([]byte{1, 0x17}).Draw(t, "headid")}

	for range drawInt(t, 1, 60, "pieces") {
		switch rapid.IntRange(0, 4).Draw(t, "piece") {
		case 0, 1:
			b = append(b, rapid.ByteRange(0, 26).Draw(t, "id"))
		case 2:
			b = append(b, sz.EncodeNum(drawHostileNum(t, "num"), 0)...)
		case 3:
			id := sz.MethodID(rapid.SampledFrom(sz.Methods).Draw(t, "method"))
			b = append(append(b, byte(len(id))|rapid.SampledFrom([]byte{0, 0x10, 0x20, 0x30, 0x80}).Draw(t, "flags")), id...)
		default:
			b = append(b, drawBytes(t, 1, 6, "bytes")...)
		}
	}

	return b
}

// drawWildHeader draws a header whose sections fit together but whose coders,
// graphs and sizes are anything.
func drawWildHeader(t *rapid.T) []byte {
	num := func(b []byte, v uint64) []byte { return append(b, sz.EncodeNum(v, 0)...) }

	var folders, sizes []byte

	nf := drawInt(t, 1, 3, "wildfolders")
	packs, subs := 0, 0

	var counts, subSizes []byte

	for range nf {
		nc := drawInt(t, 1, rapid.SampledFrom([]int{1, 2, 4, 9}).Draw(t, "maxcoders"), "coders")
		folders = num(folders, uint64(nc))
		in, out := 0, 0

		for range nc {
			m := rapid.SampledFrom(sz.Methods).Draw(t, "method")
			id := sz.MethodID(m)
			ci, co := 1, 1

			if m == "bcj2" {
				ci = 4
			}

			if oneIn(t, 4, "oddstreams") {
				ci = rapid.SampledFrom([]int{1, 2, 3, 4, 5, 0, 8}).Draw(t, "in")
				co = rapid.SampledFrom([]int{1, 1, 1, 2, 0}).Draw(t, "out")
			}

			var props []byte

			switch n := drawInt(t, 0, 9, "props"); {
			case n < 5:
				props = map[string][]byte{"delta": {3}, "lzma": {93, 0, 0, 1, 0}, "lzma2": {10}, "ppmd": {6, 0, 0, 1, 0}, "aes": {0xc3, 0x11, 1, 2, 3, 4}}[m]
			case n < 8:
				props = drawBytes(t, 1, 6, "propbytes")
			case n < 9:
				props = drawBytes(t, 1, 40, "propbytes")
			}

			f := byte(len(id))
			if ci != 1 || co != 1 {
				f |= 0x10
			}

			if len(props) > 0 {
				f |= 0x20
			}

			folders = append(append(folders, f), id...)

			if f&0x10 != 0 {
				folders = num(num(folders, uint64(ci)), uint64(co))
			}

			if len(props) > 0 {
				folders = append(num(folders, uint64(len(props))), props...)
			}

			in, out = in+ci, out+co
		}

		// Mostly a chain or tree, the inputs of a coder being the output of
		// later or earlier ones.
		ins, outs := rapid.Permutation(seq(in)).Draw(t, "ins"), rapid.Permutation(seq(out)).Draw(t, "outs")

		switch drawInt(t, 0, 3, "graph") {
		case 0, 1:
			// outputs in order to the inputs in order, from the second on
			ins = append(seq(in)[min(in, 1):], 0)
			outs = seq(out)
		}

		pairs := max(0, out-1)
		for i := range pairs {
			a, b := i, i
			if len(ins) > 0 {
				a = ins[i%len(ins)]
			}

			if len(outs) > 0 {
				b = outs[i%len(outs)]
			}

			if oneIn(t, 30, "badpair") {
				a = drawInt(t, 0, in+3, "badin")
			}

			folders = num(num(folders, uint64(a)), uint64(b))
		}

		if p := in - pairs; p > 1 {
			for i := range p {
				v := 0
				if len(ins) > 0 {
					v = ins[(pairs+i)%len(ins)]
				}

				if oneIn(t, 30, "badpack") {
					v = drawInt(t, 0, in+3, "badpacked")
				}

				folders = num(folders, uint64(v))
			}
		}

		packs += max(0, in-pairs)

		size := uint64(0)

		for range out {
			size = rapid.OneOf(rapid.Uint64Range(0, 300), rapid.Uint64Range(0, 5000), rapid.SampledFrom(hostileNums)).Draw(t, "unpack")
			sizes = num(sizes, size)
		}

		k := drawInt(t, 0, 3, "substreams")
		counts = num(counts, uint64(k))
		subs += k

		for i := 1; i < k; i++ {
			subSizes = num(subSizes, rapid.OneOf(rapid.Uint64Range(0, 100), rapid.Just(size), rapid.SampledFrom(hostileNums)).Draw(t, "subsize"))
		}
	}

	b := []byte{1, 4, 6}
	b = num(b, rapid.OneOf(rapid.Uint64Range(0, 40), rapid.SampledFrom(hostileNums)).Draw(t, "packpos"))
	b = append(num(b, uint64(max(1, packs))), 9)

	for range max(1, packs) {
		b = num(b, rapid.OneOf(rapid.Uint64Range(0, 400), rapid.SampledFrom(hostileNums)).Draw(t, "packsize"))
	}

	b = append(num(append(b, 0, 7, 11), uint64(nf)), 0)
	b = append(append(append(append(b, folders...), 12), sizes...), 0)

	n := nf
	if drawBool(t, "subsection") {
		b = append(append(append(b, 8, 13), counts...), 9)
		b = append(append(b, subSizes...), 0)
		n = subs
	}

	b = append(b, 0)
	n += rapid.SampledFrom([]int{0, 0, 0, 1, -1}).Draw(t, "filesoff")

	if n > 0 {
		var names []byte
		for i := range n {
			names = append(names, byte('a'+i%26), 0, 0, 0)
		}

		b = num(append(b, 5), uint64(n))
		b = num(append(b, 17), uint64(1+len(names)))
		b = append(append(append(b, 0), names...), 0)
	}

	return append(b, 0)
}

func seq(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}

	return s
}

func init() {
	register("C10", "a well formed archive (all methods, graphs, header forms) whose header is then mutated piecewise (numbers to small and extreme values, pieces dropped, repeated, moved, inserted, cut) or made of drawn pieces or of well formed sections with arbitrary coder graphs, properties and sizes, and/or whose bytes are altered in the packed data, packed header, header or start header, with all checksums made right (or not), opened with the right, a wrong or no password; the archive is opened, listed, walked as a file system and every file read in full and in part, each through the list and by path; some are valid archives of up to 400000 files in up to as many streams, to be opened within 20 s; any panic, process exit, endless case, endless reader or content longer than declared is a violation; non-trivial = the altered archive still opens or has right checksums",
		func(t *rapid.T) *hostile {
			g := def()
			g.maxFile = rapid.SampledFrom([]int{30, 300, 3000}).Draw(t, "maxfile")
			g.maxEntries = 6
			c := &hostile{Spec: drawSpec(t, g), Plan: drawSeed(t, "plan"), Pw: rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "pw")}

			if oneIn(t, 2500, "many") {
				c.Spec = &sz.Spec{}
				c.Many = &many{N: drawInt(t, 1000, 400000, "n"), Kind: drawInt(t, 0, 5, "kind")}

				return c
			}

			switch rapid.IntRange(0, 8).Draw(t, "how") {
			case 8:
				c.Raw = drawWildHeader(t)
			case 0, 1, 2:
				for range drawInt(t, 1, 5, "muts") {
					c.Toks = append(c.Toks, drawTokMut(t))
				}
			case 3:
				c.Toks = append(c.Toks, drawTokMut(t))
			case 4:
				c.Raw = drawRawHeader(t)
			case 5:
				if oneIn(t, 3, "junk") {
					c.Junk = drawBytes(t, 0, 100, "junkbytes")
				}

				fallthrough
			default:
				for range drawInt(t, 1, 6, "bytes") {
					c.Bytes = append(c.Bytes, [4]int{rapid.SampledFrom([]int{0, 0, 0, 1, 2, 2, 3, 4}).Draw(t, "area"), drawInt(t, 0, 1<<20-1, "pos"), drawInt(t, 0, 3, "kind"), drawInt(t, 0, 255, "val")})
				}

				c.Fix = !oneIn(t, 6, "nofix")
			}

			return c
		},
		runHostile)
}

// allocated is the number of bytes ever allocated by this process.
func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)

	return s[0].Value.Uint64()
}

// plainHeader reports whether the archive certainly has a plain header.
func plainHeader(raw []byte, base int) bool {
	if base != 0 || !bytes.HasPrefix(raw, sz.Signature()) || len(raw) < 32 {
		return false
	}

	off := binary.LittleEndian.Uint64(raw[12:])

	return off < uint64(len(raw)-32) && raw[32+off] != 0x17
}

func buildHostile(c *hostile) ([]byte, *sz.Built) {
	b := sz.BuildMut(c.Spec, func(ts []sz.Tok) []sz.Tok {
		h := sz.Bytes(ts)

		switch {
		case c.Raw != nil:
			h = c.Raw
		case len(c.Toks) > 0:
			h = sz.Bytes(mutate(ts, c.Toks))
		default:
			return ts
		}

		if len(h) == 0 {
			h = []byte{1}
		}

		return []sz.Tok{{Raw: tame(h)}}
	})

	raw := append([]byte(nil), b.Raw...)
	area := func(k int) (int, int) {
		switch k {
		case 0:
			return b.Base + 32, b.HeadOff
		case 1:
			return b.EncHeader[0], b.EncHeader[1]
		case 2:
			return b.HeadOff, b.HeadOff + b.HeadLen
		case 3:
			return b.Base + 12, b.Base + 32
		}

		return 0, len(raw)
	}

	for _, m := range c.Bytes {
		lo, hi := area(m[0])
		if hi <= lo {
			lo, hi = area(4)
		}

		i := lo + at(hi-lo, m[1])

		switch m[2] {
		case 0:
			raw[i] = byte(m[3])
		case 1:
			raw[i] ^= 1 << uint(m[3]%8)
		case 2:
			raw[i] += byte(m[3])
		case 3:
			for j := i; j < min(hi, i+m[3]%20); j++ {
				raw[j] = byte(m[3]) * byte(m[3]&1)
			}
		}
	}

	if len(c.Bytes) > 0 {
		copy(raw[b.HeadOff:], tame(raw[b.HeadOff:b.HeadOff+b.HeadLen]))
	}

	if c.Fix {
		s := raw[b.Base:]
		off, n := binary.LittleEndian.Uint64(s[12:]), binary.LittleEndian.Uint64(s[20:])

		if off <= uint64(len(s)) && n <= uint64(len(s)) && 32+off+n <= uint64(len(s)) {
			binary.LittleEndian.PutUint32(s[28:], crc32.ChecksumIEEE(s[32+off:32+off+n]))
		}

		binary.LittleEndian.PutUint32(s[8:], crc32.ChecksumIEEE(s[12:32]))
	}

	return append(raw, c.Junk...), b
}

func runHostile(c *hostile, o *Out) error {
	if c.Many != nil {
		return runMany(c.Many, c.Plan, o)
	}

	raw, b := buildHostile(c)
	pw := c.Spec.Password

	switch c.Pw {
	case 1:
		pw += "x"
	case 2:
		pw = ""
	}

	o.class("toks:%d", min(len(c.Toks), 3))
	o.class("bytes:%v", len(c.Bytes) > 0)
	o.class("raw:%v", c.Raw != nil)

	before := allocated()
	r, err := sevenzip.NewReaderWithPassword(newBytesAt(raw), int64(len(raw)), pw)
	spent := allocated() - before

	// Reading the header itself takes little, decoding one takes the
	// windows of its decoders (tame limits them) as well.
	limit := uint64(1<<23) + 10000*uint64(len(raw))
	if !plainHeader(raw, b.Base) {
		limit += 1 << 29
	}

	o.class("opening takes:2^%d", bits.Len64(spent))

	if spent > limit {
		return fmt.Errorf("opening %d bytes takes %d bytes of memory", len(raw), spent)
	}

	o.class("opens:%v", err == nil)
	o.class("raw opens:%v", c.Raw != nil && err == nil)
	o.NonTrivial = err == nil || c.Fix || c.Raw != nil || len(c.Toks) > 0

	if err != nil {
		_ = err.Error()

		return nil
	}

	return exercise(r, c.Plan)
}

const maxDeliver = 1 << 22

// exercise uses everything a reader offers. Errors are fine, what must not
// happen is a panic, an endless loop or content beyond the declared size.
func exercise(r *sevenzip.Reader, plan uint64) error {
	rng := sz.Rng(plan)

	var depth int

	for _, f := range r.File {
		depth += 2 + strings.Count(f.Name, "/") + strings.Count(f.Name, "\\")
		fi := f.FileInfo()
		_, _, _, _, _ = fi.Name(), fi.Size(), fi.Mode(), fi.ModTime(), fi.IsDir()
		_ = f.Mode()
	}

	use := func(rc io.ReadCloser, size uint64, part int) error {
		defer func() { _ = rc.Close() }()

		var total uint64

		buf := make([]byte, 1+rng.N(9000))
		idle := 0

		for total < maxDeliver {
			n, err := rc.Read(buf)
			if n < 0 || n > len(buf) {
				return fmt.Errorf("Read gives %d for %d bytes", n, len(buf))
			}

			total += uint64(n)

			if total > size {
				return fmt.Errorf("content of %d bytes or more, declared size %d", total, size)
			}

			if err != nil {
				return nil
			}

			if n == 0 {
				if idle++; idle > 10000 {
					return errStuck
				}
			} else {
				idle = 0
			}

			if part > 0 && total >= uint64(part) {
				return nil
			}
		}

		return nil
	}

	files := r.File
	if len(files) > 200 {
		files = files[:200]
	}

	left := 64 << 20 // bytes delivered by a case

	for round := range 2 {
		for i := range files {
			f := files[i]
			if round == 1 {
				f = files[len(files)-1-i]
			}

			if left < 0 {
				break
			}

			part := 0
			if rng.N(3) == 0 {
				part = 1 + rng.N(200)
			}

			rc, err := f.Open()
			if err != nil {
				if rc != nil {
					return errors.New("File.Open gives a reader and an error")
				}

				continue
			}

			left -= int(min(f.UncompressedSize, maxDeliver))

			if err := use(rc, f.UncompressedSize, part); err != nil {
				return fmt.Errorf("file %d: %w", i, err)
			}
		}
	}

	steps := 0
	opened := 0

	err := fs.WalkDir(r, ".", func(p string, d fs.DirEntry, err error) error {
		if steps++; steps > 4*depth+100 {
			return fmt.Errorf("VIOLATION: walk of %d files does not end", len(r.File))
		}

		if !fs.ValidPath(p) {
			return fmt.Errorf("VIOLATION: walk visits %q", p)
		}

		if err != nil {
			return nil
		}

		info, err := d.Info()
		if err == nil {
			_, _, _ = info.Name(), info.Size(), info.Mode()
		}

		if d.IsDir() || opened > 50 || left < 0 {
			return nil
		}

		opened++

		f, err := r.Open(p)
		if err != nil {
			return nil
		}

		fi, err := f.Stat()
		if err != nil {
			return nil
		}

		left -= int(min(uint64(fi.Size()), maxDeliver))

		return use(f, uint64(fi.Size()), rng.N(2)*100)
	})
	if err != nil {
		return fmt.Errorf("walk: %w", err)
	}

	for _, p := range []string{"", ".", "/", "..", "a", "./", "a/..", "\\", "f0", "d0", "f0/", "\x00"} {
		f, err := r.Open(p)
		if err != nil {
			continue
		}

		if d, ok := f.(fs.ReadDirFile); ok {
			for range 3 {
				_, _ = d.ReadDir(1 + rng.N(3))
			}

			_, _ = d.ReadDir(-1)
		}

		_, _ = f.Stat()
		_, _ = f.Read(make([]byte, 3))
		_ = f.Close()
	}

	return nil
}
