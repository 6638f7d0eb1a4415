package checks

import (
	"bytes"
	"compress/flate"
	"errors"
	"fmt"
	"hash/fnv"
	"io"

	"github.com/bodgit/sevenzip"
	"pgregory.net/rapid"
	"verifharness/sz"
)

// A "cust" node is a method of the check's own: A streams between which the
// bytes are dealt in turn, combined with a key made from id and properties.
// B has flags, C is how many bytes it delivers beyond the declared size, D
// says how it fails.
type custCase struct {
	Spec *sz.Spec `json:"spec"`
	IDs  [][]byte `json:"ids"`  // method ids in use
	Unk  []int    `json:"unk"`  // indexes of ids that are never registered
	Late []int    `json:"late"` // indexes registered by an operation only
	Ops  []custOp `json:"ops"`
}

type custOp struct {
	K int `json:"k"` // 0 read all, 1 read a part, 2 new reader, 3 register, 4 read all through fs.FS
	F int `json:"f,omitempty"`
	N int `json:"n,omitempty"`
}

const (
	custCrypto  = 1 << iota // takes a password
	custEOFData             // io.EOF along with the last bytes
	custIdle                // reads without data
	custTiny                // a few bytes per read
	custMangle              // appends to its properties, keeps them otherwise
)

type custFail struct{ what string }

func (e *custFail) Error() string { return "custom method: " + e.what }

// custNode is what a decoder of the node has to be given.
type custNode struct {
	n       *sz.Node
	data    []byte
	streams [][]byte
	err     *custFail
	idle    bool // may read nothing at times; below built-in methods it may not
}

type custWorld struct {
	pw       string
	nodes    map[string]*custNode // by id and properties
	version  map[string]int       // registered per id
	made     []string             // nodes instantiated since the last operation
	problems []string
	counter  int
}

// world is the case being run.
var world *custWorld

func custKey(id, props []byte) string { return fmt.Sprintf("%x/%x", id, props) }

func custMask(id, props []byte) byte {
	h := fnv.New32a()
	_, _ = h.Write(append(append([]byte{byte(len(id))}, id...), props...))

	return byte(h.Sum32())
}

func (w *custWorld) problem(f string, a ...any) {
	w.problems = append(w.problems, fmt.Sprintf(f, a...))
}

func init() {
	sz.Custom["cust"] = func(n *sz.Node, data []byte) [][]byte {
		k := max(1, n.A)
		out := make([][]byte, k)
		m := custMask(n.ID, n.Prop)

		for i, c := range data {
			out[i%k] = append(out[i%k], c^m)
		}

		for i := range out {
			if out[i] == nil {
				out[i] = []byte{}
			}
		}

		if world != nil {
			key := custKey(n.ID, n.Prop)
			if world.nodes[key] != nil {
				panic("harness: two nodes with one key")
			}

			world.nodes[key] = &custNode{n: n, data: append([]byte(nil), data...), streams: out, err: &custFail{key}}
		}

		return out
	}
}

type custReader struct {
	w    *custWorld
	c    *custNode
	rs   []io.ReadCloser
	pos  int
	tick int
	out  []byte
	pwd  int
	done bool
	err  error
}

type custCryptoReader struct{ *custReader }

func (r custCryptoReader) Password(p string) error {
	if r.pwd++; r.pwd > 1 {
		r.w.problem("%s: Password called %d times", r.c.err.what, r.pwd)
	}

	if p != r.w.pw {
		r.w.problem("%s: password %q, want %q", r.c.err.what, p, r.w.pw)
	}

	if r.c.n.D == 2 {
		return r.c.err
	}

	return nil
}

func (r *custReader) Close() error {
	var errs []error
	for _, x := range r.rs {
		errs = append(errs, x.Close())
	}

	return errors.Join(errs...)
}

func (r *custReader) Read(p []byte) (int, error) {
	if r.c.n.B&custCrypto != 0 && r.pwd == 0 {
		r.w.problem("%s: read before Password", r.c.err.what)
	}

	if len(p) == 0 {
		return 0, nil
	}

	if r.err != nil {
		return 0, r.err
	}

	if !r.done {
		r.done = true

		in := make([][]byte, len(r.rs))

		for i, x := range r.rs {
			b, err := readAll(x, 1<<24)
			if err != nil {
				r.err = fmt.Errorf("input %d of %s: %w", i, r.c.err.what, err)

				return 0, r.err
			}

			if err := sameBytes(b, r.c.streams[i]); err != nil {
				r.w.problem("%s: input %d of %d: %v", r.c.err.what, i, len(r.rs), err)
			}

			in[i] = b
		}

		m := custMask(r.c.n.ID, r.c.n.Prop)
		size := 0

		for i := range in {
			size += len(in[i])
		}

		for i := range size {
			k := i % len(in)
			if i/len(in) >= len(in[k]) {
				break
			}

			r.out = append(r.out, in[k][i/len(in)]^m)
		}

		for i := range r.c.n.C {
			r.out = append(r.out, byte(i)|0x80)
		}
	}

	end := len(r.out)
	if r.c.n.D >= 3 {
		end = at(len(r.c.data), r.c.n.D-3)
	}

	r.tick++

	if r.c.idle && r.c.n.B&custIdle != 0 && r.tick%3 == 1 {
		return 0, nil
	}

	n := len(p)
	if r.c.n.B&custTiny != 0 {
		n = min(n, 1+r.tick%7)
	}

	n = copy(p[:n], r.out[r.pos:end])
	r.pos += n

	if r.pos < end || n > 0 && r.c.n.B&custEOFData == 0 {
		return n, nil
	}

	if r.c.n.D >= 3 {
		r.err = r.c.err

		return n, r.err
	}

	return n, io.EOF
}

func (w *custWorld) decompressor(id []byte, version int) sevenzip.Decompressor {
	return func(p []byte, size uint64, rs []io.ReadCloser) (io.ReadCloser, error) {
		key := custKey(id, p)

		if v := w.version[string(id)]; v != version {
			w.problem("%s: registration %d used, the latest is %d", key, version, v)
		}

		c := w.nodes[key]
		if c == nil {
			w.problem("method %x used with unknown properties %x", id, p)

			return nil, errors.New("harness: unknown node")
		}

		w.made = append(w.made, key)

		if size != uint64(len(c.data)) {
			w.problem("%s: declared size %d, want %d", key, size, len(c.data))
		}

		if len(rs) != len(c.streams) {
			w.problem("%s: %d inputs, want %d", key, len(rs), len(c.streams))

			return nil, errors.New("harness: wrong number of inputs")
		}

		if c.n.D == 1 {
			return nil, c.err
		}

		if c.n.B&custMangle != 0 {
			p = append(p, "mangle"...)
			p[len(p)-1] = 0
		}

		r := &custReader{w: w, c: c, rs: append([]io.ReadCloser(nil), rs...)}
		if c.n.B&custCrypto != 0 {
			return custCryptoReader{r}, nil
		}

		return r, nil
	}
}

// passReader is a replacement for a built-in method.
type passReader struct {
	io.Reader
	c io.Closer
}

func (p passReader) Close() error { return p.c.Close() }

func (w *custWorld) builtin(name string) {
	sevenzip.RegisterDecompressor(sz.MethodID(name), func(_ []byte, _ uint64, rs []io.ReadCloser) (io.ReadCloser, error) {
		if len(rs) != 1 {
			return nil, errors.New("need one reader")
		}

		w.made = append(w.made, name)

		if name == "copy" {
			return passReader{rs[0], rs[0]}, nil
		}

		return passReader{flate.NewReader(rs[0]), rs[0]}, nil
	})
}

func (w *custWorld) register(id []byte) {
	w.counter++
	w.version[string(id)] = w.counter

	b := append([]byte(nil), id...)
	sevenzip.RegisterDecompressor(b, w.decompressor(id, w.counter))
	clear(b)
}

func drawCust(t *rapid.T, c *custCase, depth int) *sz.Node {
	n := &sz.Node{M: "cust", ID: rapid.SampledFrom(c.IDs).Draw(t, "id"), A: rapid.SampledFrom([]int{1, 1, 2, 3, 4, 7}).Draw(t, "inputs"), B: drawInt(t, 0, 31, "flags")}
	n.Cplx = drawBool(t, "cplx")
	n.Prop = drawBytes(t, 0, 8, "props")

	if oneIn(t, 10, "long") {
		n.Prop = drawBytes(t, 120, 300, "longprops")
	}

	if oneIn(t, 3, "extra") {
		n.C = drawInt(t, 1, 9000, "extrabytes")
	}

	if oneIn(t, 8, "fail") {
		n.D = drawInt(t, 1, 2, "failkind")

		if drawBool(t, "failread") {
			n.D = 3 + drawInt(t, 0, 1<<20-1, "failat")
		}
	}

	n.In = make([]*sz.Node, n.A)

	for i := range n.In {
		if depth > 0 && oneIn(t, 3, "child") {
			n.In[i] = drawCustAny(t, c, depth-1)
		}
	}

	return n
}

func drawCustAny(t *rapid.T, c *custCase, depth int) *sz.Node {
	if drawBool(t, "own") {
		return drawCust(t, c, depth)
	}

	g := def()
	g.trees = false
	n := drawNode(t, g, 0)

	if n.M == "aes" && n.A != 0x3f {
		n.A = min(n.A, 8)
	}

	if depth > 0 && drawBool(t, "below") {
		k := 1
		if n.M == "bcj2" {
			k = 4
		}

		n.In = make([]*sz.Node, k)
		n.In[drawInt(t, 0, k-1, "branch")] = drawCust(t, c, depth-1)
	}

	return n
}

// prune makes sure there are at most 64 streams of a kind.
func prune(root *sz.Node) {
	for {
		in := 0

		var last *sz.Node

		root.Walk(func(n *sz.Node) {
			in += max(1, len(n.In))

			if n.M == "bcj2" && len(n.In) == 0 {
				in += 3
			}

			for _, x := range n.In {
				if x != nil {
					last = n
				}
			}
		})

		if in <= 64 {
			return
		}

		clear(last.In)
	}
}

func init() {
	register("C19", "archives whose streams (and sometimes header) go through 1-5 methods of the check's own, with ids of 1-15 bytes that are prefixes or extensions of each other and of built-in ids, 0-300 property bytes, 1-7 inputs that are packed streams or the output of built-in and other own methods, at any place of the coder tree; copy and deflate are replaced by own implementations as well; decoders check what they are given (properties, size, inputs byte by byte, password before any read) and deliver too much, in odd chunks, or fail when made, at Password or at a drawn offset; histories of reads, new readers and new registrations; some ids stay unregistered; non-trivial = an own decoder was made",
		func(t *rapid.T) *custCase {
			c := &custCase{}

			for range drawInt(t, 1, 5, "ids") {
				id := append([]byte{0x7e}, drawBytes(t, 0, 14, "idbytes")...)

				switch drawInt(t, 0, 4, "idkind") {
				case 0:
					if len(c.IDs) > 0 {
						x := c.IDs[drawInt(t, 0, len(c.IDs)-1, "of")]
						id = append(append([]byte(nil), x...), 0)
					}
				case 1:
					if len(c.IDs) > 0 {
						x := c.IDs[drawInt(t, 0, len(c.IDs)-1, "of2")]
						if x[0] == 0x7e || len(x) > 7 {
							id = append([]byte(nil), x[:max(1, len(x)-1)]...)
						}
					}
				case 2:
					// extends a built-in id
					id = append(append([]byte(nil), sz.MethodID(rapid.SampledFrom(sz.Methods).Draw(t, "builtin"))...), 0x7e, 0x19)
				}

				if len(id) > 15 {
					id = id[:15]
				}

				known := false
				for _, x := range c.IDs {
					known = known || bytes.Equal(x, id)
				}

				if !known {
					c.IDs = append(c.IDs, id)
				}
			}

			g := def()
			g.maxFolders, g.maxEntries = 3, 6
			g.maxFile = rapid.SampledFrom([]int{20, 300, 3000}).Draw(t, "maxfile")
			g.simpleMeta = true
			g.encHeader = false
			g.methods = []string{"copy"}
			c.Spec = drawSpec(t, g)

			for i := range c.Spec.Folders {
				c.Spec.Folders[i].Root = drawCustAny(t, c, 2)
			}

			if oneIn(t, 3, "header") {
				c.Spec.Layout.Header = drawCustAny(t, c, 1)
				c.Spec.Layout.HeaderRoot = drawSeed(t, "headerorder")
			}

			for _, f := range c.Spec.Folders {
				prune(f.Root)
			}

			if c.Spec.Layout.Header != nil {
				prune(c.Spec.Layout.Header)
			}

			// Every node has its own pair of id and properties.
			used := map[string]bool{}
			serial := 0

			uniq := func(n *sz.Node) {
				if n.M != "cust" {
					return
				}

				for used[custKey(n.ID, n.Prop)] {
					n.Prop = append(append([]byte(nil), n.Prop...), 0xff, byte(serial), 0xfe)
					serial++
				}

				used[custKey(n.ID, n.Prop)] = true
			}

			for _, f := range c.Spec.Folders {
				f.Root.Walk(uniq)
			}

			if h := c.Spec.Layout.Header; h != nil {
				h.Walk(uniq)
			}

			c.Spec.Password = drawPassword(t)

			if oneIn(t, 6, "unknown") {
				c.Unk = []int{drawInt(t, 0, len(c.IDs)-1, "unk")}
			} else if oneIn(t, 6, "late") {
				c.Late = []int{drawInt(t, 0, len(c.IDs)-1, "lateid")}
			}

			for range drawInt(t, 1, 12, "ops") {
				c.Ops = append(c.Ops, custOp{K: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4}).Draw(t, "k"), F: drawInt(t, 0, 7, "f"), N: drawInt(t, 1, 200, "n")})
			}

			return c
		},
		runCust)
}

// custTree is what is known about opening and reading one stream.
type custTree struct {
	made    map[string]int // instances needed
	crypto  bool
	errs    []*custFail // of nodes that fail
	open    []*custFail // of nodes that fail when the stream is opened
	unknown bool        // contains an id that is not registered
	own     bool        // only own methods from the root to every failing node
	root    *sz.Node
}

func (w *custWorld) tree(root *sz.Node) *custTree {
	tr := &custTree{made: map[string]int{}, own: true, root: root}

	var walk func(n *sz.Node, own bool)

	walk = func(n *sz.Node, own bool) {
		switch n.M {
		case "cust":
			k := custKey(n.ID, n.Prop)
			tr.made[k]++
			w.nodes[k].idle = own

			_, ok := w.version[string(n.ID)]
			tr.unknown = tr.unknown || !ok
			cr := n.B&custCrypto != 0
			tr.crypto = tr.crypto || cr

			if n.D == 1 || n.D == 2 && cr {
				tr.open = append(tr.open, w.nodes[k].err)
				tr.errs = append(tr.errs, w.nodes[k].err)
			} else if n.D >= 3 && len(w.nodes[k].data) > 0 {
				tr.errs = append(tr.errs, w.nodes[k].err)
				tr.own = tr.own && own
			}
		case "copy", "deflate":
			tr.made[n.M]++
		case "aes":
			tr.crypto = true
		}

		for _, x := range n.In {
			if x != nil {
				walk(x, own && n.M == "cust")
			}
		}
	}
	walk(root, true)

	return tr
}

func (tr *custTree) isOwn(err error) bool {
	for _, e := range tr.errs {
		if errors.Is(err, e) {
			return true
		}
	}

	return false
}

// failsAt is the offset in the stream at which reading has to fail, -1 for
// none, when only own methods are concerned.
func (tr *custTree) failsAt(size int) int {
	if len(tr.errs) == 0 {
		return -1
	}

	// Nodes without any content aren't among those that fail.
	if tr.root.M == "cust" && tr.root.D >= 3 && size > 0 && len(tr.errs) == 1 {
		return at(size, tr.root.D-3)
	}

	return 0
}

// instances compares what was made with what one opening needs.
func (w *custWorld) instances(tr *custTree, first, complete bool) error {
	got := map[string]int{}
	for _, k := range w.made {
		got[k]++
	}

	w.made = nil

	for k, n := range got {
		if n > tr.made[k] {
			return fmt.Errorf("%d decoders of %s made, the stream has %d", n, k, tr.made[k])
		}
	}

	if first && complete || complete && len(got) > 0 {
		for k, n := range tr.made {
			if got[k] != n {
				return fmt.Errorf("%d decoders of %s made, the stream has %d", got[k], k, n)
			}
		}
	}

	if len(w.problems) > 0 {
		return errors.New(w.problems[0])
	}

	return nil
}

func runCust(c *custCase, o *Out) error {
	w := &custWorld{nodes: map[string]*custNode{}, version: map[string]int{}, pw: c.Spec.Password}
	world = w

	defer func() { world = nil }()

	b := sz.Build(c.Spec)
	world = nil

	skip := map[int]bool{}
	for _, i := range append(append([]int(nil), c.Unk...), c.Late...) {
		skip[i] = true
	}

	// Ids that are not registered must not be left over from other cases.
	for i, id := range c.IDs {
		sevenzip.RegisterDecompressor(id, nil)

		if !skip[i] {
			w.register(id)
		}
	}

	w.builtin("copy")
	w.builtin("deflate")

	s := c.Spec

	var head *custTree

	newReader := func() (*sevenzip.Reader, error) {
		head = nil
		if s.Layout.Header != nil {
			head = w.tree(s.Layout.Header)
		}

		r, err := sevenzip.NewReaderWithPassword(newBytesAt(b.Raw), int64(len(b.Raw)), w.pw)
		if head == nil {
			if e := w.instances(&custTree{}, false, false); e != nil {
				return nil, fmt.Errorf("open archive: %w", e)
			}
		} else if e := w.instances(head, true, err == nil); e != nil {
			return nil, fmt.Errorf("open archive: %w", e)
		}

		bad := head != nil && (head.unknown || len(head.errs) > 0)
		if err != nil {
			if !bad {
				return nil, fmt.Errorf("open archive: %w", err)
			}

			var re *sevenzip.ReadError

			is := errors.As(err, &re)
			if is && re.Encrypted && !head.crypto {
				return nil, fmt.Errorf("Encrypted is set without encryption: %w", err)
			}

			if !head.unknown && head.own && (!is || !head.isOwn(err)) {
				return nil, fmt.Errorf("error of the method was replaced: %w", err)
			}

			return nil, nil
		}

		if head != nil && (head.unknown || len(head.open) > 0 || head.own && len(head.errs) > 0 && head.failsAt(1<<20) == 0) {
			return nil, errors.New("archive opens although its header cannot be decoded")
		}

		return r, checkList(r.File, b.Files)
	}

	r, err := newReader()
	if err != nil {
		return err
	}

	opened := map[int]bool{}

	for k, op := range c.Ops {
		switch op.K {
		case 2:
			if r, err = newReader(); err != nil {
				return fmt.Errorf("step %d: %w", k, err)
			}

			opened = map[int]bool{}

			continue
		case 3:
			i := op.F % len(c.IDs)
			if len(c.Unk) == 0 || c.Unk[0] != i {
				w.register(c.IDs[i])
				o.class("reregister")
			}

			continue
		}

		if r == nil {
			o.class("header-fails")

			continue
		}

		i := op.F % len(r.File)
		x := b.Files[i]

		if x.Kind != sz.EData {
			continue
		}

		tr := w.tree(s.Folders[x.Folder].Root)
		where := fmt.Sprintf("step %d, file %d, %s", k, i, rootOf(s, x.Folder))

		var rc io.ReadCloser
		if op.K == 4 {
			rc, err = r.Open(r.File[i].Name)
		} else {
			rc, err = r.File[i].Open()
		}

		var data []byte

		full := op.K != 1

		if err == nil {
			if full {
				data, err = readAll(rc, int(x.Size))
			} else {
				data = make([]byte, op.N)

				var n int
				n, err = readFull(rc, data)
				data = data[:n]

				if err == io.EOF { //nolint:errorlint
					err, full = nil, true
				}
			}

			if e := rc.Close(); e != nil {
				return fmt.Errorf("%s: close: %w", where, e)
			}
		}

		if isViolation(err) {
			return fmt.Errorf("%s: %w", where, err)
		}

		o.Evals++
		o.NonTrivial = o.NonTrivial || len(w.made) > 0

		if e := w.instances(tr, !opened[x.Folder], !tr.unknown && len(tr.errs) == 0); e != nil {
			return fmt.Errorf("%s: %w (error: %v)", where, e, err)
		}

		opened[x.Folder] = true

		if len(data) > len(x.Data) {
			return fmt.Errorf("%s: %d bytes read, declared %d", where, len(data), len(x.Data))
		}

		if e := sameBytes(data, x.Data[:len(data)]); e != nil {
			return fmt.Errorf("%s: %w", where, e)
		}

		start, total := 0, 0

		for j := range b.Files {
			if b.Files[j].Kind == sz.EData && b.Files[j].Folder == x.Folder {
				if j < i {
					start += len(b.Files[j].Data)
				}

				total += len(b.Files[j].Data)
			}
		}

		end := start + len(data)
		if full {
			end = start + len(x.Data)
		}

		mustFail := tr.unknown || len(tr.open) > 0
		mayFail := mustFail || len(tr.errs) > 0

		if !mustFail && tr.own && len(tr.errs) > 0 {
			f := tr.failsAt(total)
			mustFail = full && end > f
			// with nothing to read nothing fails
			mayFail = start+max(len(data), 0) >= f || f == 0 || end > f
		}

		if err == nil {
			if mustFail && (tr.unknown || len(tr.open) > 0 || len(x.Data) > 0) {
				return fmt.Errorf("%s: no error although a decoder fails or is not registered", where)
			}

			if full && len(data) != len(x.Data) {
				if tr.crypto && len(tr.errs) > 0 {
					continue // known finding of C12 and C13
				}

				return fmt.Errorf("%s: %d bytes read, declared %d", where, len(data), len(x.Data))
			}

			continue
		}

		if !mayFail {
			return fmt.Errorf("%s: %w", where, err)
		}

		o.class("failed")

		var re *sevenzip.ReadError

		if !errors.As(err, &re) {
			return fmt.Errorf("%s: not a *ReadError: %w", where, err)
		}

		if tr.unknown {
			o.class("unregistered")

			continue
		}

		if re.Encrypted && !tr.crypto {
			return fmt.Errorf("%s: Encrypted is set without encryption: %w", where, err)
		}

		if !re.Encrypted && tr.crypto && len(tr.open) == 0 && tr.own {
			return fmt.Errorf("%s: Encrypted is not set: %w", where, err)
		}

		if !tr.own && len(tr.open) == 0 {
			continue
		}

		if !tr.isOwn(err) {
			return fmt.Errorf("%s: error of the method was replaced: %w", where, err)
		}

		for _, e := range tr.open {
			if len(tr.open) == 1 && errors.Is(err, e) && !re.Encrypted {
				if n := w.nodes[e.what]; n.n.D == 2 {
					return fmt.Errorf("%s: Encrypted is not set although Password failed: %w", where, err)
				}
			}
		}
	}

	return nil
}
