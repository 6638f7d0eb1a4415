package checks

import (
	"fmt"
	"hash/crc32"
	"strings"

	"pgregory.net/rapid"
	"verifharness/sz"
)

// gcfg steers the archive generator.
type gcfg struct {
	maxEntries int
	maxFolders int
	maxFile    int // bytes per file
	minData    int // least number of data entries
	methods    []string
	trees      bool // chains deeper than one coder
	layouts    bool // vary the layout
	encHeader  bool
	aes        bool // allow aes
	password   bool
	simpleMeta bool // plain unique names, little metadata
	noZero     bool // no zero length data entries
	oneFolder  bool
	noCRCs     bool // allow missing digests
}

func def() gcfg {
	return gcfg{maxEntries: 8, maxFolders: 4, maxFile: 3000, minData: 1, trees: true, layouts: true, encHeader: true, aes: true, noCRCs: true}
}

func drawInt(t *rapid.T, lo, hi int, l string) int { return rapid.IntRange(lo, hi).Draw(t, l) }

func drawBool(t *rapid.T, l string) bool { return rapid.Bool().Draw(t, l) }

// oneIn is true with probability 1/n and shrinks to false.
func oneIn(t *rapid.T, n int, l string) bool { return rapid.IntRange(0, n-1).Draw(t, l) == n-1 }

func drawSeed(t *rapid.T, l string) uint64 { return rapid.Uint64Range(0, 1<<32).Draw(t, l) }

func drawBytes(t *rapid.T, lo, hi int, l string) []byte {
	return rapid.SliceOfN(rapid.Byte(), lo, hi).Draw(t, l)
}

// drawLen favours interesting sizes.
func drawLen(t *rapid.T, lo, hi int, l string) int {
	v := 0

	switch rapid.IntRange(0, 5).Draw(t, l+"k") {
	case 0, 1:
		v = rapid.IntRange(lo, min(hi, lo+40)).Draw(t, l)
	case 2:
		// near a power of two or buffer size
		b := rapid.SampledFrom([]int{16, 32, 64, 256, 512, 1024, 4096, 8192, 32768, 65536}).Draw(t, l+"b")
		v = b + rapid.IntRange(-6, 6).Draw(t, l)
	default:
		v = rapid.IntRange(lo, hi).Draw(t, l)
	}

	return min(max(v, lo), hi)
}

func drawData(t *rapid.T, lo, hi int, l string) sz.Data {
	return sz.Data{
		K: rapid.IntRange(0, sz.NKinds-1).Draw(t, l+"kind"),
		S: drawSeed(t, l+"seed"),
		N: drawLen(t, lo, hi, l+"len"),
	}
}

// drawParams fills in parameters for a method.
func drawParams(t *rapid.T, n *sz.Node) {
	maybeSeed := func() uint64 {
		if drawBool(t, "multi") {
			return drawSeed(t, "seed")
		}

		return 0
	}

	switch n.M {
	case "delta":
		n.A = rapid.OneOf(rapid.IntRange(1, 8), rapid.IntRange(1, 256), rapid.SampledFrom([]int{255, 256})).Draw(t, "dist")
	case "arm64":
		if oneIn(t, 4, "position") {
			n.A = rapid.OneOf(rapid.IntRange(1, 5000), rapid.IntRange(1, 1<<30-1)).Draw(t, "positionv")
		}
	case "bcj2":
		n.A = drawInt(t, 0, 3, "mode")
		n.Seed = drawSeed(t, "seed")
	case "aes":
		n.A = rapid.OneOf(rapid.IntRange(0, 10), rapid.Just(0x3f), rapid.IntRange(0, 12)).Draw(t, "cycles")
		if !oneIn(t, 12, "plain") {
			n.Salt = drawBytes(t, 0, 16, "salt")
			n.IV = drawBytes(t, 0, 16, "iv")
		}
	case "lzma":
		n.A, n.B, n.C = drawInt(t, 0, 8, "lc"), drawInt(t, 0, 4, "lp"), drawInt(t, 0, 4, "pb")
		n.D = rapid.SampledFrom([]int{4096, 4097, 6000, 1 << 15, 1 << 16, 1<<18 + 5, 1 << 20}).Draw(t, "dict")
		n.Seed = uint64(drawInt(t, 0, 1, "eos"))
	case "lzma2":
		n.A, n.B, n.C = drawInt(t, 0, 4, "lc"), drawInt(t, 0, 4, "lp"), drawInt(t, 0, 4, "pb")
		n.D = drawInt(t, 0, 10, "dict")
		n.Seed = maybeSeed()
	case "ppmd":
		n.A = rapid.OneOf(rapid.IntRange(2, 8), rapid.IntRange(2, 64)).Draw(t, "order")
		n.D = rapid.OneOf(rapid.IntRange(1<<11, 1<<14), rapid.IntRange(1<<14, 1<<18)).Draw(t, "mem")
	case "bzip2":
		n.A, n.B = drawInt(t, 1, 9, "level"), drawInt(t, 2, 6, "tables")
		n.D = rapid.OneOf(rapid.Just(1<<20), rapid.IntRange(100, 3000)).Draw(t, "block")
		n.Seed = maybeSeed()
	case "deflate":
		n.A, n.B = drawInt(t, -2, 9, "level"), drawInt(t, 0, 1, "impl")
		n.Seed = maybeSeed()
	case "zstd":
		n.A, n.B, n.C = drawInt(t, 1, 4, "level"), drawInt(t, 0, 7, "flags"), drawInt(t, 1, 3, "frames")
		n.D = drawInt(t, 10, 20, "win")
		n.Seed = drawSeed(t, "seed")
	case "brotli":
		n.A, n.B, n.C = drawInt(t, 0, 9, "q"), drawInt(t, 10, 20, "win"), drawInt(t, 0, 4, "frames")
		n.Seed = maybeSeed()
	case "lz4":
		n.A, n.B, n.C = drawInt(t, 0, 7, "bs"), drawInt(t, 0, 7, "flags"), drawInt(t, 0, 9, "level")
		n.Seed = maybeSeed()
	}

	switch n.M {
	case "zstd", "brotli", "lz4":
		if drawBool(t, "props") {
			n.Prop = drawBytes(t, 1, 5, "prop")
		}
	}

	if n.M != "bcj2" {
		n.Cplx = oneIn(t, 8, "cplx")
	}
}

var filters = []string{"delta", "bcj", "bcj2", "arm", "arm64", "ppc", "sparc"}

func drawNode(t *rapid.T, g gcfg, depth int) *sz.Node {
	ms := g.methods
	if ms == nil {
		ms = sz.Methods
	}

	if !g.aes {
		var k []string

		for _, m := range ms {
			if m != "aes" {
				k = append(k, m)
			}
		}

		ms = k
	}

	n := &sz.Node{M: rapid.SampledFrom(ms).Draw(t, "method")}
	drawParams(t, n)

	if !g.trees || depth <= 0 {
		return n
	}

	if n.M == "bcj2" {
		n.In = make([]*sz.Node, 4)
		for i := range n.In {
			if i < 3 && drawBool(t, "child") {
				gg := g
				gg.methods = without(ms, "bcj2")
				n.In[i] = drawNode(t, gg, depth-1)
			}
		}
	} else if drawBool(t, "child") {
		n.In = []*sz.Node{drawNode(t, g, depth-1)}
	}

	return n
}

func without(ms []string, m string) []string {
	var k []string

	for _, x := range ms {
		if x != m {
			k = append(k, x)
		}
	}

	return k
}

var nameRunes = []rune("ab.c_ -é日Ω\U0001f600xyzÄ")

func drawName(t *rapid.T, g gcfg, i int) string {
	if g.simpleMeta {
		return fmt.Sprintf("f%d", i)
	}

	switch rapid.IntRange(0, 5).Draw(t, "namekind") {
	case 0, 1:
		return fmt.Sprintf("f%d.txt", i)
	case 2:
		return fmt.Sprintf("d%d/e/f%d", rapid.IntRange(0, 2).Draw(t, "dir"), i)
	case 3:
		return rapid.StringOfN(rapid.SampledFrom(nameRunes), 0, 12, -1).Draw(t, "name")
	case 4:
		return rapid.StringOfN(rapid.Rune().Filter(func(r rune) bool { return r != 0 && (r < 0xd800 || r > 0xdfff) }), 0, 20, -1).Draw(t, "uname")
	default:
		return rapid.StringOfN(rapid.SampledFrom([]rune{'a', 0xfeff, 0xfffe, 0xffff, 0xfffd, 0x10ffff, 0x10000, 0x100, 0x1, '/', '\\', '.'}), 0, 8, -1).Draw(t, "xname")
	}
}

func drawTime(t *rapid.T, l string) *uint64 {
	var v uint64

	switch rapid.IntRange(0, 5).Draw(t, l+"kind") {
	case 0, 1:
		return nil
	case 2:
		v = 132000000000000000 + rapid.Uint64Range(0, 1e16).Draw(t, l)
	case 3:
		v = rapid.SampledFrom([]uint64{0, 1, 9999999, 10000000, 116444736000000000, 116444735999999999, 116444736000000001,
			1<<63 - 1, 24000000000000000, 208678536854775807, 208678536854775808, 2650467743999999999}).Draw(t, l)
	case 4:
		v = rapid.Uint64Range(0, 1<<63-1).Draw(t, l)
	default:
		v = rapid.Uint64Range(0, 3000000000000000000).Draw(t, l)
	}

	return &v
}

func drawAttr(t *rapid.T, dir bool) *uint32 {
	if dir {
		switch rapid.IntRange(0, 4).Draw(t, "dirattrkind") {
		case 0:
			return nil
		case 1:
			// Not said to be anything, only DOS attributes.
			v := rapid.Uint32().Draw(t, "dirattr32") & 0x0fffffff

			return &v
		}

		v := rapid.SampledFrom([]uint32{0x10, 0x11, 0x30, 0x41ed8010, 0x41ff0010, 0x45c08010}).Draw(t, "dirattr")

		return &v
	}

	switch rapid.IntRange(0, 3).Draw(t, "attrkind") {
	case 0:
		return nil
	case 1:
		v := rapid.SampledFrom([]uint32{0x20, 0x21, 0x80, 0x81a48000, 0x81ed8020, 0xa1ff8000}).Draw(t, "attr")

		return &v
	default:
		v := rapid.Uint32().Draw(t, "attr32")
		// Not a directory by either reading.
		v &^= 0x10
		if v>>28 == 4 {
			v |= 0xf0000000
		}

		return &v
	}
}

func drawEntry(t *rapid.T, g gcfg, i, kind int) sz.Entry {
	e := sz.Entry{Kind: kind, Name: drawName(t, g, i)}

	if kind == sz.EData {
		lo := 1
		if !g.noZero && oneIn(t, 12, "zero") {
			lo = 0
		}

		hi := g.maxFile
		if lo == 0 {
			hi = 0
		}

		e.Data = drawData(t, lo, hi, "data")

		if g.noCRCs {
			e.NoCRC = oneIn(t, 5, "nocrc")
		}
	}

	if !g.simpleMeta {
		e.C, e.A, e.M = drawTime(t, "ctime"), drawTime(t, "atime"), drawTime(t, "mtime")
		e.Attr = drawAttr(t, kind == sz.EDir)
	} else if kind == sz.EDir {
		e.Attr = drawAttr(t, true)
	}

	return e
}

var passwords = []string{"", "a", "password", "pässwörd", "日本語", "\U0001f511key", " ", "12345678901234567890123456789012345678901234567890"}

func drawPassword(t *rapid.T) string {
	pw := rapid.OneOf(rapid.SampledFrom(passwords), rapid.StringN(0, 20, 60)).Draw(t, "password")

	// Much longer than anyone types, as of a key file
	if k := drawInt(t, 0, 29, "longpassword"); k > 10 && k < 13 {
		pw += strings.Repeat("0123456789abcdef", drawInt(t, 4, 40, "passwordlen"))
	}

	return pw
}

func drawSpec(t *rapid.T, g gcfg) *sz.Spec {
	s := &sz.Spec{}
	n := drawInt(t, max(1, g.minData), g.maxEntries, "entries")
	nd := 0

	for i := range n {
		kind := sz.EData
		if i >= g.minData {
			kind = rapid.SampledFrom([]int{sz.EData, sz.EData, sz.EData, sz.EEmpty, sz.EDir}).Draw(t, "kind")
		}

		if kind == sz.EData {
			nd++
		}

		s.Entries = append(s.Entries, drawEntry(t, g, i, kind))
	}

	// Kinds in any order.
	if g.minData < n {
		p := rapid.Permutation(seqInts(n)).Draw(t, "perm")
		es := make([]sz.Entry, n)

		for i, j := range p {
			es[i] = s.Entries[j]
		}

		s.Entries = es
	}

	left := nd
	for left > 0 || (len(s.Folders) < g.maxFolders && !g.oneFolder && oneIn(t, 20, "orphan")) {
		f := sz.Folder{Root: drawNode(t, g, 2)}

		switch {
		case left == 0 || (!g.oneFolder && len(s.Folders) < g.maxFolders-1 && oneIn(t, 20, "orphan2")):
			f.N = 0
			f.Orphan = drawData(t, 1, 200, "orphandata")
		case g.oneFolder || len(s.Folders) >= g.maxFolders-1:
			f.N = left
		default:
			f.N = drawInt(t, 1, left, "files")
		}

		left -= f.N
		f.FolderCRC = drawBool(t, "foldercrc")

		if drawBool(t, "shuffle") {
			f.Order = drawSeed(t, "order")
		}

		s.Folders = append(s.Folders, f)
	}

	if g.layouts {
		s.Layout = drawLayout(t, g)
	}

	pw := g.password
	for _, f := range s.Folders {
		pw = pw || f.Root.Has("aes")
	}

	if s.Layout.Header != nil && s.Layout.Header.Has("aes") {
		pw = true
	}

	if pw {
		s.Password = drawPassword(t)
	}

	fixSizes(s)

	return s
}

func seqInts(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}

	return p
}

// fixSizes makes every stream hold at least one byte: encoders never emit
// empty streams of content.
func fixSizes(s *sz.Spec) {
	k := 0

	var idx []int

	for i, e := range s.Entries {
		if e.Kind == sz.EData {
			idx = append(idx, i)
		}
	}

	for fi := range s.Folders {
		f := &s.Folders[fi]
		total := 0

		for j := range f.N {
			total += s.Entries[idx[k+j]].Data.Len()
		}

		if f.N > 0 && total == 0 {
			s.Entries[idx[k]].Data = sz.Data{N: 1}
		}

		k += f.N
	}
}

func drawLayout(t *rapid.T, g gcfg) sz.Layout {
	l := sz.Layout{
		HeaderCRC:  drawBool(t, "hcrc"),
		PackCRC:    drawInt(t, 0, 2, "packcrc"),
		OmitSub:    drawBool(t, "omitsub"),
		OmitNum:    drawBool(t, "omitnum"),
		Long:       drawBool(t, "long"),
		NoEmptyRec: drawBool(t, "noemptyrec"),
		Minor:      4,
	}

	if oneIn(t, 3, "gaps") {
		l.PackGap, l.HeadGap, l.HPackGap = drawInt(t, 0, 40, "packgap"), drawInt(t, 0, 40, "headgap"), drawInt(t, 0, 40, "hpackgap")
	}

	if oneIn(t, 3, "pad") {
		l.NumPad = 1 + drawSeed(t, "numpad")
	}

	if oneIn(t, 2, "propseed") {
		l.PropSeed = 1 + drawSeed(t, "propseed")
	}

	if oneIn(t, 3, "dummy") {
		l.Dummy = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 20), rapid.IntRange(0, 20), rapid.IntRange(0, 700)), 0, 3).Draw(t, "dummies")

		if oneIn(t, 40, "longdummy") {
			l.Dummy = append(l.Dummy, drawInt(t, 700, 70000, "longdummy"))
		}
	}

	if g.encHeader && drawBool(t, "encheader") {
		gg := g
		gg.methods = without(sz.Methods, "bcj2")
		l.Header = drawNode(t, gg, 1)

		if drawBool(t, "headerorder") {
			l.HeaderRoot = 1 + drawSeed(t, "headerorder")
		}
	}

	if drawBool(t, "somezeros") {
		l.Zeros = drawInt(t, 0, 63, "zeros")
	}

	return l
}

func crc32of(b []byte) uint32 { return crc32.ChecksumIEEE(b) }

// drawMore makes an archive one of very many entries, so that the sections of
// the header are long.
func drawMore(t *rapid.T, limit int) *sz.More {
	return &sz.More{
		N: rapid.OneOf(rapid.IntRange(100, limit), rapid.IntRange(1020, 1030)).Draw(t, "more"), Seed: drawSeed(t, "moreseed"),
		Mode: drawInt(t, 0, 3, "moremode"), Meta: drawBool(t, "moremeta"), Name: rapid.SampledFrom([]int{0, 0, 3, 40}).Draw(t, "morename"),
	}
}
