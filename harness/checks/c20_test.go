package checks

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"runtime"

	"github.com/bodgit/sevenzip"
	"pgregory.net/rapid"
	"verifharness/sz"
)

// A "count" node passes data through and keeps account of its instances. Its
// properties are a serial number.
var countID = []byte{0x7f, 0x10, 0x02}

type countCase struct {
	Spec    *sz.Spec  `json:"spec"`
	Mode    int       `json:"mode"` // 0 in order, 1 any history
	Readers int       `json:"readers,omitempty"`
	Reads   []int     `json:"reads,omitempty"` // buffer sizes in order mode
	Exact   bool      `json:"exact,omitempty"` // in order mode: no read beyond the last byte
	Parts   []int     `json:"parts,omitempty"` // in order mode: per 2^20 of each file that is read
	ViaFS   bool      `json:"viafs,omitempty"`
	Fails   []cntFail `json:"fails,omitempty"`
	Ops     []op      `json:"ops,omitempty"`
	Live    int       `json:"live,omitempty"`
}

// cntFail makes an instance of a node fail: kind 0 when made, 1 at Password,
// 2 when reading at an offset (per 2^20).
type cntFail struct {
	Node int `json:"node"`
	Nth  int `json:"nth"` // which instance, -1 all
	Kind int `json:"kind"`
	At   int `json:"at"`
}

type counted struct {
	w      *countWorld
	serial int
	size   uint64
	rc     io.ReadCloser
	n      uint64
	closed bool
	failed bool
	ended  bool
	fail   *cntFail
	owner  int
}

type countedCrypto struct{ *counted }

func (c countedCrypto) Password(string) error {
	if c.fail != nil && c.fail.Kind == 1 {
		c.failed = true

		return errCounted
	}

	return nil
}

type countWorld struct {
	inst  []*counted
	made  map[int]int
	fails []cntFail
	owner int // reader in use
}

var (
	countW     *countWorld
	errCounted = errors.New("counted method fails")
)

func (c *counted) Read(p []byte) (int, error) {
	if c.closed {
		return 0, errors.New("counted method is closed")
	}

	if c.fail != nil && c.fail.Kind == 2 {
		left := uint64(at(int(c.size), c.fail.At)) - c.n
		if left == 0 {
			c.failed = true

			return 0, errCounted
		}

		p = p[:min(uint64(len(p)), left)]
	}

	n, err := c.rc.Read(p)
	c.n += uint64(n)
	c.ended = c.ended || c.n >= c.size

	// An error along with data may not have been needed yet.
	c.failed = c.failed || n == 0 && err != nil && err != io.EOF //nolint:errorlint

	return n, err
}

func (c *counted) Close() error {
	c.closed = true

	return c.rc.Close()
}

func init() {
	sz.Custom["count"] = func(_ *sz.Node, data []byte) [][]byte {
		return [][]byte{append([]byte{}, data...)}
	}

	sevenzip.RegisterDecompressor(countID, func(p []byte, size uint64, rs []io.ReadCloser) (io.ReadCloser, error) {
		if len(rs) != 1 || len(p) != 2 || countW == nil {
			return nil, errors.New("harness: count method used out of place")
		}

		w := countW
		k := int(binary.BigEndian.Uint16(p))
		c := &counted{w: w, serial: k, size: size, rc: rs[0], owner: w.owner}

		for i := range w.fails {
			if f := &w.fails[i]; f.Node == k && (f.Nth < 0 || f.Nth == w.made[k]) {
				c.fail = f
			}
		}

		w.made[k]++

		if c.fail != nil && c.fail.Kind == 0 {
			return nil, errCounted
		}

		w.inst = append(w.inst, c)

		if k&1 == 1 {
			return countedCrypto{c}, nil
		}

		return c, nil
	})
}

// instrument puts a count node on top of the tree and below some of it.
func instrument(t *rapid.T, root *sz.Node, serial *int, below bool) *sz.Node {
	mk := func(in *sz.Node) *sz.Node {
		*serial += 1 + drawInt(t, 0, 1, "crypto")
		n := &sz.Node{M: "count", ID: countID, Prop: binary.BigEndian.AppendUint16(nil, uint16(*serial))}

		if in != nil {
			n.In = []*sz.Node{in}
		}

		return n
	}

	if below {
		var walk func(n *sz.Node)

		walk = func(n *sz.Node) {
			k := 1
			if n.M == "bcj2" {
				k = 4
			}

			for len(n.In) < k {
				n.In = append(n.In, nil)
			}

			for i := range n.In {
				if n.In[i] != nil {
					walk(n.In[i])
				}

				if drawBool(t, "count") {
					n.In[i] = mk(n.In[i])
				}
			}
		}
		walk(root)
	}

	return mk(root)
}

func init() {
	register("C20", "archives (also of up to 70 tiny files per stream) with a counting pass-through method on top of each stream and between its other coders and below them; extracted in order with drawn buffer sizes, by 1-2 readers in turn, to EOF or just to the last byte or only in part: exactly one decoder per coder and reader, all of them closed at the end, the top one read from start to end (unless the last file was only read in part); or under a history as in C07, with drawn failures of the methods when made, at Password or at an offset: after every step the decoders alive beyond the open files are at most 2*NumCPU+8 per stream, none of them has failed or reached its end, no decoder below outlives those above, and a file opened is continued from the nearest idle decoder at or before its start; non-trivial = a stream with several files was extracted in order, or a file was closed early or failed",
		func(t *rapid.T) *countCase {
			g := def()
			g.maxFile = rapid.SampledFrom([]int{30, 400, 6000}).Draw(t, "maxfile")
			g.maxEntries = 12
			g.maxFolders = 3
			g.minData = 2
			g.simpleMeta, g.noZero = true, true
			g.encHeader = false

			if oneIn(t, 6, "many") {
				g.maxEntries, g.maxFile, g.oneFolder = 70, 12, true
				g.minData = 40
			}

			c := &countCase{Mode: drawInt(t, 0, 1, "mode"), Readers: 1}
			c.Spec = drawSpec(t, g)
			serial := 0

			for i := range c.Spec.Folders {
				c.Spec.Folders[i].Root.Walk(func(n *sz.Node) {
					if n.M == "aes" && n.A != 0x3f {
						n.A = min(n.A, 6)
					}
				})

				c.Spec.Folders[i].Root = instrument(t, c.Spec.Folders[i].Root, &serial, drawBool(t, "below"))
			}

			if oneIn(t, 4, "header") {
				gg := g
				gg.methods = without(without(sz.Methods, "bcj2"), "aes")
				c.Spec.Layout.Header = instrument(t, drawNode(t, gg, 1), &serial, drawBool(t, "below"))
			}

			c.ViaFS = drawBool(t, "viafs")

			if c.Mode == 0 {
				c.Readers = 1 + drawInt(t, 0, 1, "readers")
				c.Reads = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 10), rapid.IntRange(1, 700), rapid.Just(32768)), 1, 4).Draw(t, "reads")
				c.Exact = drawBool(t, "exact")

				if oneIn(t, 3, "partial") {
					c.Parts = rapid.SliceOfN(rapid.OneOf(rapid.Just(1<<20), rapid.Just(0), rapid.IntRange(0, 1<<20)), 1, 6).Draw(t, "parts")
				}

				return c
			}

			c.Ops = drawOps(t, rapid.SampledFrom([]int{8, 30, 120}).Draw(t, "nops"))
			c.Live = drawInt(t, 1, 6, "live")

			if oneIn(t, 3, "manylive") {
				c.Live = 60
			}

			for range drawInt(t, 0, 3, "fails") {
				c.Fails = append(c.Fails, cntFail{Node: drawInt(t, 1, serial, "node"), Nth: drawInt(t, -1, 4, "nth"), Kind: drawInt(t, 0, 2, "failkind"), At: drawInt(t, 0, 1<<20-1, "failat")})
			}

			return c
		},
		runCount)
}

// serials lists the count nodes of a tree.
func serials(root *sz.Node) (ks []int) {
	root.Walk(func(n *sz.Node) {
		if n.M == "count" {
			ks = append(ks, int(binary.BigEndian.Uint16(n.Prop)))
		}
	})

	return ks
}

func runCount(c *countCase, o *Out) error {
	w := &countWorld{made: map[int]int{}, fails: c.Fails}
	countW = w

	defer func() { countW = nil }()

	b := sz.Build(c.Spec)
	s := c.Spec

	specClasses(s, o)

	checkHeader := func(err error) error {
		if s.Layout.Header == nil {
			return nil
		}

		for _, x := range w.inst {
			if !x.closed {
				return fmt.Errorf("decoder %d of the header is not closed after opening (%v)", x.serial, err)
			}
		}

		return nil
	}

	if c.Mode == 0 {
		rs := make([]*sevenzip.Reader, c.Readers)

		for i := range rs {
			w.owner = i

			var err error

			rs[i], err = open(b.Raw, s.Password)
			if err != nil {
				return fmt.Errorf("open archive: %w", err)
			}
		}

		if err := checkHeader(nil); err != nil {
			return err
		}

		w.inst = nil

		if err := c.inOrder(w, rs, b, o); err != nil {
			return err
		}

		return nil
	}

	r, err := open(b.Raw, s.Password)
	if e := checkHeader(err); e != nil {
		return e
	}

	if err != nil {
		if !errors.Is(err, errCounted) || s.Layout.Header == nil {
			return fmt.Errorf("open archive: %w", err)
		}

		o.class("header-fails")
		o.NonTrivial = true

		return nil
	}

	w.inst = nil

	return c.history(w, r, b, o)
}

func (c *countCase) inOrder(w *countWorld, rs []*sevenzip.Reader, b *sz.Built, o *Out) error {
	k := 0
	whole := make([]bool, len(c.Spec.Folders)) // last file read to its end

	for i := range b.Files {
		x := b.Files[i]
		part := len(x.Data)

		if len(c.Parts) > 0 {
			part = int(uint64(c.Parts[i%len(c.Parts)]) * uint64(part) >> 20)
		}

		if x.Kind == sz.EData {
			whole[x.Folder] = part == len(x.Data)
		}

		for j, r := range rs {
			w.owner = j

			var (
				rc  io.ReadCloser
				err error
			)

			if c.ViaFS && x.Kind != sz.EDir {
				rc, err = r.Open(x.Name)
			} else {
				rc, err = r.File[i].Open()
			}

			if err != nil {
				return fmt.Errorf("file %d: open: %w", i, err)
			}

			var got []byte

			for idle := 0; ; {
				p := make([]byte, c.Reads[k%len(c.Reads)])
				k++

				if c.Exact || part < len(x.Data) {
					p = p[:min(len(p), part-len(got))]
					if len(p) == 0 {
						break
					}
				}

				n, err := rc.Read(p)
				got = append(got, p[:n]...)

				if err == io.EOF { //nolint:errorlint
					break
				}

				if err != nil {
					return fmt.Errorf("file %d: %w", i, err)
				}

				if len(got) > len(x.Data) {
					return fmt.Errorf("file %d: more bytes than declared", i)
				}

				if n == 0 {
					if idle++; idle > 10000 {
						return fmt.Errorf("file %d: %w", i, errStuck)
					}
				}
			}

			if err := sameBytes(got, x.Data[:part]); err != nil {
				return fmt.Errorf("file %d: %w", i, err)
			}

			if err := rc.Close(); err != nil {
				return fmt.Errorf("file %d: close: %w", i, err)
			}
		}
	}

	for fi, f := range c.Spec.Folders {
		ks := serials(f.Root)

		o.NonTrivial = o.NonTrivial || f.N > 1

		for j := range rs {
			for n, k := range ks {
				var xs []*counted

				for _, x := range w.inst {
					if x.serial == k && x.owner == j {
						xs = append(xs, x)
					}
				}

				want := 1
				if f.N == 0 {
					want = 0
				}

				if len(xs) != want {
					return fmt.Errorf("stream %d (%s) with %d files was extracted in order by %d decoders (coder %d)", fi, rootOf(c.Spec, fi), f.N, len(xs), k)
				}

				for _, x := range xs {
					if !whole[fi] {
						o.class("left-part-way")

						continue
					}

					if !x.closed {
						return fmt.Errorf("stream %d (%s) was extracted but the decoder of coder %d is not closed", fi, rootOf(c.Spec, fi), k)
					}

					if n == 0 && x.n < x.size {
						return fmt.Errorf("stream %d: %d of %d bytes were decoded", fi, x.n, x.size)
					}
				}
			}
		}
	}

	o.class("in-order")

	return nil
}

func (c *countCase) history(w *countWorld, r *sevenzip.Reader, b *sz.Built, o *Out) error {
	type hand struct {
		rc   io.ReadCloser
		file int
		pos  int
		bad  bool
		top  *counted
	}

	var hs []*hand

	// Where the files are in their streams
	offs := make([]uint64, len(b.Files))
	ends := map[int]uint64{}

	for i, x := range b.Files {
		if x.Kind == sz.EData {
			offs[i] = ends[x.Folder]
			ends[x.Folder] += uint64(len(x.Data))
		}
	}

	// idle lists the decoders of a stream that can be continued with.
	idle := func(f int) (xs []*counted) {
		top := serials(c.Spec.Folders[f].Root)[0]

	next:
		for _, x := range w.inst {
			if x.serial != top || x.closed || x.failed {
				continue
			}

			for _, h := range hs {
				if h.top == x {
					continue next
				}
			}

			xs = append(xs, x)
		}

		return xs
	}

	bound := 2*runtime.NumCPU() + 8

	check := func() error {
		open := make([]int, len(c.Spec.Folders))
		bad := make([]int, len(c.Spec.Folders))

		for _, h := range hs {
			if x := b.Files[h.file]; x.Kind == sz.EData {
				open[x.Folder]++

				if h.bad {
					bad[x.Folder]++
				}
			}
		}

		live := map[int]int{}
		idle := map[int]int{} // failed or at their end

		for _, x := range w.inst {
			if !x.closed {
				live[x.serial]++

				if x.failed || x.ended {
					idle[x.serial]++
				}
			}
		}

		for fi, f := range c.Spec.Folders {
			ks := serials(f.Root)
			top := ks[0]

			if live[top] < open[fi]-bad[fi] {
				return fmt.Errorf("stream %d: %d files open, %d decoders", fi, open[fi], live[top])
			}

			if live[top] > open[fi]+bound {
				return fmt.Errorf("stream %d: %d decoders are kept for %d open files", fi, live[top], open[fi])
			}

			if idle[top] > open[fi] {
				return fmt.Errorf("stream %d: %d decoders that failed or are at their end are kept for %d open files", fi, idle[top], open[fi])
			}

			for _, k := range ks[1:] {
				if live[k] > live[top] {
					return fmt.Errorf("stream %d (%s): %d decoders of coder %d are kept, %d of the whole stream", fi, rootOf(c.Spec, fi), live[k], k, live[top])
				}
			}
		}

		return nil
	}

	read := func(h *hand, n int) error {
		x := b.Files[h.file]
		p := make([]byte, n)

		got, err := readFull(h.rc, p)
		if got > len(x.Data)-h.pos {
			return fmt.Errorf("more bytes than declared")
		}

		if err := sameBytes(p[:got], x.Data[h.pos:h.pos+got]); err != nil {
			return err
		}

		h.pos += got

		if err != nil && err != io.EOF { //nolint:errorlint
			if !errors.Is(err, errCounted) && len(c.Fails) == 0 {
				return err
			}

			h.bad = true
			o.class("failed")
		}

		return nil
	}

	closeIt := func(i int) error {
		h := hs[i]
		hs = append(hs[:i:i], hs[i+1:]...)

		o.NonTrivial = o.NonTrivial || h.bad || h.pos < len(b.Files[h.file].Data)

		if err := h.rc.Close(); err != nil && !h.bad && !(len(c.Fails) > 0 && errors.Is(err, errCounted)) {
			return fmt.Errorf("close: %w", err)
		}

		return nil
	}

	openIt := func(f int, fsys bool) error {
		x := b.Files[f]

		var (
			rc   io.ReadCloser
			err  error
			best *counted
			from uint64
			had  = len(w.inst)
		)

		if x.Kind == sz.EData {
			for _, k := range idle(x.Folder) {
				if k.n <= offs[f] && (best == nil || k.n > best.n) {
					best = k
				}
			}

			if best != nil {
				from = best.n
			}
		}

		if fsys && x.Kind != sz.EDir {
			rc, err = r.Open(x.Name)
		} else {
			rc, err = r.File[f].Open()
		}

		if err != nil {
			if len(c.Fails) == 0 {
				return err
			}

			o.class("open-fails")

			o.NonTrivial = true

			return nil
		}

		h := &hand{rc: rc, file: f}
		hs = append(hs, h)

		if x.Kind != sz.EData {
			return nil
		}

		for _, k := range w.inst[had:] {
			if k.serial == serials(c.Spec.Folders[x.Folder].Root)[0] {
				h.top = k
			}
		}

		if best == nil {
			if h.top == nil {
				return errors.New("opened without a decoder")
			}

			return nil
		}

		if h.top != nil || best.n != offs[f] {
			return fmt.Errorf("the file at %d isn't continued from the nearest decoder at %d (new one: %v)", offs[f], from, h.top != nil)
		}

		h.top = best

		if from > 0 {
			o.class("continued")
		}

		return nil
	}

	run := func(p op) error {
		if p.K == opOpen || p.K == opFSOpen {
			if len(hs) >= max(1, c.Live) {
				if err := closeIt(p.A % len(hs)); err != nil {
					return err
				}
			}

			return openIt(p.A%len(b.Files), p.K == opFSOpen)
		}

		if p.K == opFull {
			f := p.A % len(b.Files)
			n := len(hs)

			if err := openIt(f, false); err != nil {
				return err
			}

			if len(hs) == n {
				return nil
			}

			if err := read(hs[n], len(b.Files[f].Data)+1); err != nil {
				return err
			}

			return closeIt(n)
		}

		if len(hs) == 0 {
			return nil
		}

		switch i := p.A % len(hs); p.K {
		case opRead:
			return read(hs[i], p.B)
		case opEOF:
			return read(hs[i], len(b.Files[hs[i].file].Data)+1)
		case opClose:
			return closeIt(i)
		}

		return nil
	}

	for k, p := range c.Ops {
		if err := run(p); err != nil {
			return fmt.Errorf("step %d (%d on %d): %w", k, p.K, p.A, err)
		}

		if err := check(); err != nil {
			return fmt.Errorf("step %d (%d on %d): %w", k, p.K, p.A, err)
		}
	}

	for len(hs) > 0 {
		if err := closeIt(len(hs) - 1); err != nil {
			return err
		}
	}

	o.class("history")
	o.Evals = len(c.Ops)

	if err := check(); err != nil {
		return fmt.Errorf("at the end: %w", err)
	}

	return nil
}
