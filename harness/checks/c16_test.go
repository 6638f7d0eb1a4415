package checks

import (
	"fmt"
	"io"

	"github.com/bodgit/sevenzip"
	"pgregory.net/rapid"
	"verifharness/sz"
)

// chunkID is a pass-through method that delivers its input in pieces that
// depend on its properties.
var chunkID = []byte{0x7f, 0x10, 0x01}

type chunker struct {
	r    io.ReadCloser
	rng  sz.Rng
	mode byte
	max  int
	buf  []byte
	err  error
	idle bool
}

func (c *chunker) Close() error { return c.r.Close() }

func (c *chunker) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}

	// Reads without data are allowed.
	if c.mode&1 != 0 && !c.idle && c.rng.N(4) == 0 {
		c.idle = true

		return 0, nil
	}

	c.idle = false

	// One byte is kept back so that the end is known early.
	for len(c.buf) < c.max+1 && c.err == nil {
		b := make([]byte, c.max+1-len(c.buf))

		var n int

		n, c.err = c.r.Read(b)
		c.buf = append(c.buf, b[:n]...)
	}

	if len(c.buf) == 0 {
		return 0, c.err
	}

	n := copy(p[:min(len(p), 1+c.rng.N(c.max))], c.buf)
	c.buf = c.buf[n:]

	if len(c.buf) == 0 && c.err != nil && c.mode&2 != 0 {
		return n, c.err // with the last bytes
	}

	return n, nil
}

func init() {
	sz.Custom["chunk"] = func(_ *sz.Node, data []byte) [][]byte {
		return [][]byte{append([]byte{}, data...)}
	}

	sevenzip.RegisterDecompressor(chunkID, func(p []byte, _ uint64, rs []io.ReadCloser) (io.ReadCloser, error) {
		if len(rs) != 1 || len(p) != 4 {
			return nil, fmt.Errorf("harness: chunk method with %d streams", len(rs))
		}

		max := []int{1, 2, 3, 4, 5, 7, 8, 16, 100, 4096, 70000}[int(p[1])%11]

		return &chunker{r: rs[0], rng: sz.Rng(uint64(p[2])<<8 | uint64(p[3])), mode: p[0], max: max}, nil
	})
}

func drawChunk(t *rapid.T, in *sz.Node) *sz.Node {
	n := &sz.Node{M: "chunk", ID: chunkID, Prop: drawBytes(t, 4, 4, "chunk")}
	if in != nil {
		n.In = []*sz.Node{in}
	}

	return n
}

type filterCase struct {
	Root *sz.Node  `json:"root"`
	Data []sz.Data `json:"data"` // one stream, several files
	Bufs []int     `json:"bufs"`
	Seed uint64    `json:"seed,omitempty"` // splices branch opcodes into the data
}

func drawFilter(t *rapid.T, depth int) *sz.Node {
	n := &sz.Node{M: rapid.SampledFrom(filters).Draw(t, "filter")}
	drawParams(t, n)

	k := 1
	if n.M == "bcj2" {
		k = 4
	}

	n.In = make([]*sz.Node, k)

	for i := range n.In {
		switch drawInt(t, 0, 3, "below") {
		case 0:
		case 1, 2:
			n.In[i] = drawChunk(t, nil)
		default:
			if depth > 0 {
				g := def()
				g.methods = []string{"delta", "bcj", "arm", "arm64", "ppc", "sparc", "copy", "lzma2", "deflate"}
				n.In[i] = drawChunk(t, drawNode(t, g, 0))
			}
		}
	}

	if k == 1 && n.In[0] == nil {
		n.In = nil
	}

	return n
}

func init() {
	register("C16", "one stream of 1-4 files (lengths 1-70000, dense around alignments and buffer sizes; content dense in branch opcodes of every architecture, straddling file borders) through one or two of the filters BCJ, BCJ2 (any choice of converted branches), ARM, ARM64, PPC, SPARC, Delta 1-256, encoded by independent encoders; below and above each filter a registered pass-through coder delivers pieces of drawn sizes, empty reads and data together with io.EOF; files are read with drawn buffer sizes; non-trivial = the encoder changed at least one byte",
		func(t *rapid.T) *filterCase {
			c := &filterCase{Root: drawFilter(t, 1)}

			if oneIn(t, 4, "above") {
				c.Root = drawChunk(t, c.Root)
			}

			hi := rapid.SampledFrom([]int{40, 300, 300, 5000, 70000}).Draw(t, "maxlen")

			for range drawInt(t, 1, 4, "files") {
				d := drawData(t, 1, hi, "data")
				if !oneIn(t, 4, "anykind") {
					d.K = rapid.SampledFrom([]int{sz.KX86, sz.KRISC, sz.KMixed}).Draw(t, "kind")
				}

				c.Data = append(c.Data, d)
			}

			c.Bufs = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 9), rapid.IntRange(1, 5000), rapid.SampledFrom([]int{4096, 32768, 65536, 100000})), 1, 6).Draw(t, "bufs")

			return c
		},
		runFilter)
}

func runFilter(c *filterCase, o *Out) error {
	s := &sz.Spec{Layout: sz.Layout{Minor: 4}, Folders: []sz.Folder{{Root: c.Root, N: len(c.Data)}}, Password: "pw"}

	var all []byte

	for i, d := range c.Data {
		s.Entries = append(s.Entries, sz.Entry{Name: fmt.Sprintf("f%d", i), Data: d})
		all = append(all, d.Bytes()...)
	}

	root := c.Root
	for root.M == "chunk" && len(root.In) > 0 {
		root = root.In[0]
	}

	streams, _ := root.Encode(all, "")
	o.NonTrivial = string(streams[0]) != string(all)
	o.class("filter:%s changed:%v", root.M, o.NonTrivial)
	o.class("size:%s", bucket(len(all)))

	b := sz.Build(s)

	r, err := open(b.Raw, "pw")
	if err != nil {
		return fmt.Errorf("open archive: %w", err)
	}

	k := 0

	for i, f := range r.File {
		rc, err := f.Open()
		if err != nil {
			return fmt.Errorf("file %d: open: %w", i, err)
		}

		var out []byte

		want := b.Files[i].Data
		idle := 0

		for {
			size := c.Bufs[k%len(c.Bufs)]
			k++

			if len(want) > 5000 {
				size = max(size, len(want)/2000)
			}

			p := make([]byte, size)
			n, err := rc.Read(p)
			out = append(out, p[:n]...)

			if err == io.EOF { //nolint:errorlint
				break
			}

			if err != nil {
				return fmt.Errorf("file %d: %s: after %d of %d bytes: %w", i, rootOf(s, 0), len(out), len(want), err)
			}

			if n == 0 {
				if idle++; idle > 1000 {
					return errStuck
				}
			} else {
				idle = 0
			}

			if len(out) > len(want) {
				return errTooLong
			}
		}

		if err := sameBytes(out, want); err != nil {
			return fmt.Errorf("file %d: %s: %w", i, rootOf(s, 0), err)
		}

		if err := rc.Close(); err != nil {
			return fmt.Errorf("file %d: close: %w", i, err)
		}
	}

	return nil
}
