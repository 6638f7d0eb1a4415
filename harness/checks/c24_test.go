package checks

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"sync"

	"github.com/bodgit/sevenzip"
	"pgregory.net/rapid"
	"verifharness/sz"
)

// Ways a stream can be bad.
const (
	badNone = iota
	badFlip
	badUnreadable
	badZero
	badCut
	badShort
	badMethod
	badKinds
)

type confineCase struct {
	Spec *sz.Spec `json:"spec"`
	Bad  []int    `json:"bad"` // per stream
	Seed uint64   `json:"seed,omitempty"`
	// Eager returns io.EOF together with the last bytes, Dirty uses the rest
	// of the buffer as scratch space, Tail is junk beyond the given size.
	Eager bool        `json:"eager,omitempty"`
	Dirty bool        `json:"dirty,omitempty"`
	Tail  int         `json:"tail,omitempty"`
	Pw    string      `json:"pw,omitempty"`
	UsePw bool        `json:"usepw,omitempty"`
	Ops   []confineOp `json:"ops"`
}

type confineOp struct {
	K   int  `json:"k,omitempty"` // confXxx
	F   int  `json:"f,omitempty"`
	N   int  `json:"n,omitempty"`
	Buf int  `json:"buf,omitempty"`
	FS  bool `json:"fs,omitempty"`
}

const (
	confOpen = iota
	confRead
	confAll
	confClose
	confWalk
	confKinds
)

// trackAt records what is read.
type trackAt struct {
	mu    sync.Mutex
	b     []byte
	size  int // given to the library
	c     *confineCase
	bad   [][2]int // unreadable
	reads [][2]int
	on    func(n int) // told about every read
}

var errUnreadable = errors.New("unreadable sector")

func (a *trackAt) ReadAt(p []byte, off int64) (int, error) {
	a.mu.Lock()
	defer a.mu.Unlock()

	if len(p) == 0 {
		return 0, nil
	}

	if a.on != nil {
		a.on(len(p))
	}

	end := off + int64(len(p))
	a.reads = append(a.reads, [2]int{int(off), int(end)})

	if off >= int64(len(a.b)) || off < 0 {
		if a.c.Dirty {
			scribble(p)
		}

		return 0, io.EOF
	}

	if a.c.Dirty {
		scribble(p)
	}

	lim := min(end, int64(len(a.b)))

	for _, r := range a.bad {
		if lim > int64(r[0]) && off < int64(r[1]) {
			return copy(p, a.b[off:max(off, int64(r[0]))]), errUnreadable
		}
	}

	n := copy(p, a.b[off:])
	if n < len(p) || a.c.Eager && end == int64(len(a.b)) {
		return n, io.EOF
	}

	return n, nil
}

func scribble(p []byte) {
	for i := range p {
		p[i] = 0xa5
	}
}

func (a *trackAt) take() [][2]int {
	a.mu.Lock()
	defer a.mu.Unlock()

	r := a.reads
	a.reads = nil

	return r
}

func init() {
	unknownID := []byte{0x7f, 0x55, 0x01}

	sz.Custom["unknown"] = func(_ *sz.Node, data []byte) [][]byte { return [][]byte{append([]byte{}, data...)} }

	register("C24", "archives of 1-5 streams (all methods and trees), with or without a stub before, encoded header or junk after, over storage that returns io.EOF early, uses the rest of the buffer, goes on beyond the given size, and whose streams are partly damaged, unreadable, zeroed, cut, too short, of an unknown method or of another password: opening may only read the search area and the headers, must succeed and list exactly; in a history of opening, reading, closing and walking through several files at once, files of sound streams read exactly and only the packed bytes of their own stream are touched, and nothing is for listing, empty files and directories; non-trivial = a file of a sound stream was compared while another stream is bad, or several streams were told apart by what was read",
		func(t *rapid.T) *confineCase {
			g := def()
			g.maxEntries, g.maxFolders = 10, 5
			g.maxFile = rapid.SampledFrom([]int{60, 3000, 3000, 12000, 30000}).Draw(t, "maxfile")
			g.minData = drawInt(t, 1, 5, "mindata")
			g.simpleMeta = drawBool(t, "simple")
			g.trees = drawBool(t, "trees")

			c := &confineCase{Spec: drawSpec(t, g), Seed: drawSeed(t, "seed"), Eager: drawBool(t, "eager"), Dirty: drawBool(t, "dirty")}

			if oneIn(t, 3, "tail") {
				c.Tail = drawLen(t, 1, 5000, "taillen")
			}

			if oneIn(t, 4, "prefix") {
				c.Spec.Layout.Prefix = sz.Data{K: 0, S: drawSeed(t, "prefixseed"), N: drawLen(t, 1, 9000, "prefixlen")}
			}

			if oneIn(t, 3, "far") {
				c.Spec.Layout.PackGap = drawInt(t, searchArea, searchArea+5000, "fargap")
			}

			for i := range c.Spec.Folders {
				f := &c.Spec.Folders[i]

				f.Root.Walk(func(n *sz.Node) {
					if n.M == "aes" && n.A != 0x3f {
						n.A = min(n.A, 6)
					}
				})

				bad := badNone
				if drawBool(t, "bad") {
					bad = drawInt(t, 1, badKinds-1, "badkind")
				}

				switch bad {
				case badCut:
					f.CutPack, f.CutIdx = drawInt(t, 1, 200, "cut"), drawInt(t, 0, 3, "cutidx")
				case badShort:
					f.Short = drawInt(t, 1, 100, "short")
				case badMethod:
					n := &sz.Node{M: "unknown", ID: unknownID}

					switch {
					case drawBool(t, "ontop"):
						n.In = []*sz.Node{f.Root}
						f.Root = n
					default:
						p := f.Root
						for len(p.In) > 0 && p.In[0] != nil {
							p = p.In[0]
						}

						if p.M == "bcj2" {
							p.In = []*sz.Node{n, nil, nil, nil}
						} else {
							p.In = []*sz.Node{n}
						}
					}
				}

				c.Bad = append(c.Bad, bad)
			}

			if oneIn(t, 6, "otherpw") {
				c.Pw, c.UsePw = drawPassword(t), true
			}

			for range drawInt(t, 1, 25, "ops") {
				op := confineOp{K: rapid.SampledFrom([]int{confOpen, confOpen, confRead, confRead, confRead, confAll, confAll, confClose, confWalk}).Draw(t, "op"), F: drawInt(t, 0, 9, "f"), FS: drawInt(t, 0, 2, "fs") == 1}

				if op.K == confRead {
					op.N = drawLen(t, 1, g.maxFile, "n")
				}

				if op.K == confRead || op.K == confAll {
					op.Buf = drawLen(t, 1, 40000, "buf")
				}

				c.Ops = append(c.Ops, op)
			}

			return c
		},
		runConfine)
}

// searchArea is what may be read from the start to find a signature that is
// right there.
const searchArea = 1 << 16

func within(r [2]int, allowed [][2]int) bool {
	for r[0] < r[1] {
		next := r[0]

		for _, a := range allowed {
			if a[0] <= next && a[1] > next {
				next = a[1]
			}
		}

		if next == r[0] {
			return false
		}

		r[0] = next
	}

	return true
}

func runConfine(c *confineCase, o *Out) error {
	b := sz.Build(c.Spec)
	raw := append([]byte(nil), b.Raw...)
	s := c.Spec
	bad := make([]bool, len(s.Folders))
	st := &trackAt{c: c, size: len(raw)}
	rng := sz.Rng(c.Seed)

	pw := s.Password
	headOther := false

	if c.UsePw {
		pw = c.Pw

		if s.Layout.Header != nil {
			_, headOther = differs(s.Layout.Header, s.Password, pw)
		}

		if headOther {
			pw = s.Password
		}
	}

	nbad := 0

	for i, k := range c.Bad {
		if i >= len(b.FolderPack) {
			break
		}

		r := b.FolderPack[i]

		switch k {
		case badFlip:
			if r[1] > r[0] {
				flip(raw, r[0], r[1], rng.N((r[1]-r[0])*8), uint32(1|rng.N(1<<16)))
			}
		case badUnreadable:
			if r[1] > r[0] {
				st.bad = append(st.bad, [2]int{r[0] + rng.N(r[1]-r[0]), r[1]})
			}
		case badZero:
			clear(raw[r[0]:r[1]])
		}

		bad[i] = k != badNone
		if _, other := differs(s.Folders[i].Root, s.Password, pw); other {
			bad[i] = true
		}

		if bad[i] {
			nbad++
		}
	}

	for range c.Tail {
		raw = append(raw, byte(rng.N(256)))
	}

	st.b = raw

	// The signature is searched for where sectors are unreadable as well.
	unreadable := st.bad
	st.bad = nil

	r, err := sevenzip.NewReaderWithPassword(st, int64(st.size), pw)
	if err != nil {
		return fmt.Errorf("open archive with bad streams %v: %w", c.Bad, err)
	}

	st.bad = unreadable

	search := [2]int{0, searchArea}
	if b.Base > 0 {
		search[1] = 1<<20 + 6
	}

	search[1] = min(search[1], st.size)

	headers := [][2]int{search, {b.Base, b.Base + 32}, {b.HeadOff, b.HeadOff + b.HeadLen}, b.EncHeader}
	beyond := false

	for _, a := range st.take() {
		if !within(a, headers) {
			return fmt.Errorf("opening reads %d-%d, headers and search area are %v", a[0], a[1], headers)
		}
	}

	for _, p := range b.FolderPack {
		beyond = beyond || p[1] > search[1]
	}

	if beyond {
		o.class("packed data beyond the search area")
	}

	if err := checkList(r.File, b.Files); err != nil {
		return err
	}

	specClasses(s, o)

	type handle struct {
		rc  io.ReadCloser
		i   int
		pos int
		end bool
	}

	var open []*handle

	ahead := map[int]bool{} // opened streams that read ahead

	// own checks what was read for file i.
	own := func(what string, i int) error {
		var allowed [][2]int

		if x := b.Files[i]; x.Kind == sz.EData {
			allowed = append(allowed, b.FolderPack[x.Folder])

			if s.Folders[x.Folder].Root.Has("zstd") {
				ahead[x.Folder] = true
			}
		}

		for k := range ahead {
			allowed = append(allowed, b.FolderPack[k])
		}

		for _, a := range st.take() {
			if !within(a, allowed) {
				return fmt.Errorf("%s file %d reads %d-%d of the archive, its stream is at %v", what, i, a[0], a[1], allowed)
			}
		}

		return nil
	}

	sound := func(i int) bool { return b.Files[i].Kind != sz.EData || !bad[b.Files[i].Folder] }

	read := func(h *handle, n, size int) error {
		x := &b.Files[h.i]
		buf := make([]byte, max(1, size))

		for idle := 0; n > 0 && !h.end; {
			k, err := h.rc.Read(buf[:min(n, len(buf))])
			n -= k

			if sound(h.i) {
				if h.pos+k > len(x.Data) {
					return fmt.Errorf("file %d: more than %d bytes", h.i, len(x.Data))
				}

				if e := sameBytes(buf[:k], x.Data[h.pos:h.pos+k]); e != nil {
					return fmt.Errorf("file %d (%s) at %d, bad streams %v: %w", h.i, rootName(s, x), h.pos, c.Bad, e)
				}

				if k > 0 && (nbad > 0 || len(b.FolderPack) > 1) {
					o.NonTrivial = true
				}
			}

			h.pos += k
			o.Evals++

			switch {
			case err == io.EOF: //nolint:errorlint
				h.end = true

				if sound(h.i) && h.pos != len(x.Data) {
					return fmt.Errorf("file %d: EOF after %d of %d bytes", h.i, h.pos, len(x.Data))
				}
			case err != nil:
				h.end = true

				if sound(h.i) {
					return fmt.Errorf("file %d (%s) of a sound stream, bad streams %v: %w", h.i, rootName(s, x), c.Bad, err)
				}

				o.class("bad stream fails")
			case k == 0:
				if idle++; idle > 1000 {
					return fmt.Errorf("file %d: %w", h.i, errStuck)
				}
			}
		}

		return own("reading", h.i)
	}

	closeIt := func(k int) error {
		h := open[k]
		open = append(open[:k], open[k+1:]...)

		if err := h.rc.Close(); err != nil && sound(h.i) {
			return fmt.Errorf("closing file %d: %w", h.i, err)
		}

		return own("closing", h.i)
	}

	defer func() {
		for _, h := range open {
			_ = h.rc.Close()
		}
	}()

	for _, op := range c.Ops {
		switch op.K {
		case confOpen, confAll:
			if len(open) >= 12 {
				continue
			}

			i := op.F % len(r.File)

			rc, err := opened(r, i, op.FS)
			if err != nil {
				if sound(i) {
					return fmt.Errorf("opening file %d (%s) of a sound stream, bad streams %v: %w", i, rootName(s, &b.Files[i]), c.Bad, err)
				}

				o.class("bad stream does not open")

				if e := own("opening", i); e != nil {
					return e
				}

				continue
			}

			open = append(open, &handle{rc: rc, i: i})

			if err := own("opening", i); err != nil {
				return err
			}

			if op.K == confAll {
				h := open[len(open)-1]
				if err := read(h, int(b.Files[i].Size)+1, op.Buf); err != nil {
					return err
				}

				if err := closeIt(len(open) - 1); err != nil {
					return err
				}
			}
		case confRead:
			if len(open) > 0 {
				if err := read(open[op.F%len(open)], op.N, op.Buf); err != nil {
					return err
				}
			}
		case confClose:
			if len(open) > 0 {
				if err := closeIt(op.F % len(open)); err != nil {
					return err
				}
			}
		case confWalk:
			_ = fs.WalkDir(r, ".", func(_ string, d fs.DirEntry, err error) error {
				if err == nil {
					_, _ = d.Info()
				}

				return nil
			})

			// A name may be that of another file with content.
			for i, f := range r.File {
				if name := cleanName(f.Name); b.Files[i].Kind != sz.EData && fs.ValidPath(name) && !dup(r.File, name) {
					if h, err := r.Open(name); err == nil {
						if _, err := h.Stat(); err == nil {
							_, _ = h.Read(make([]byte, 10))

							o.class("walk opens empty")
						}

						_ = h.Close()
					}
				}
			}

			var allowed [][2]int
			for k := range ahead {
				allowed = append(allowed, b.FolderPack[k])
			}

			for _, a := range st.take() {
				if !within(a, allowed) {
					return fmt.Errorf("walking reads %d-%d", a[0], a[1])
				}
			}

			o.class("walk")
		}
	}

	if len(s.Folders) > 1 {
		o.class("bad streams:%d", nbad)
	}

	return nil
}

func rootName(s *sz.Spec, x *sz.Expect) string {
	if x.Kind != sz.EData {
		return "empty"
	}

	return rootOf(s, x.Folder)
}
