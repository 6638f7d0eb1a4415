package checks

import (
	"fmt"
	"io"
	"runtime"
	"sync"

	"github.com/bodgit/sevenzip"
	"pgregory.net/rapid"
	"verifharness/sz"
)

const mib = 1 << 20

type streamCase struct {
	Root *sz.Node `json:"root"`
	Data sz.Data  `json:"data"` // of the whole stream
	Cuts []int    `json:"cuts"` // where files end, in 1/64 of it
	Pw   string   `json:"pw,omitempty"`
	FS   bool     `json:"fs,omitempty"`
	Ops  []strOp  `json:"ops"`
}

// strOp opens file F, reads N bytes of it in pieces of Buf, and closes it
// unless Keep is set.
type strOp struct {
	F    int  `json:"f,omitempty"`
	N    int  `json:"n,omitempty"`
	Buf  int  `json:"buf"`
	Keep bool `json:"keep,omitempty"`
}

// blockOf is the most that the methods of a stream decode at once.
func blockOf(n *sz.Node) (b int) {
	n.Walk(func(n *sz.Node) {
		switch n.M {
		case "lzma":
			b += n.D
		case "lzma2":
			b += sz.LZMA2Dict(n.D)
		case "zstd":
			b += 1 << n.D
		case "brotli":
			b += 1 << n.B
		case "bzip2":
			b += n.A * 100000
		case "lz4":
			b += (n.A&1*3 + 1) << 16
		case "ppmd":
			b += n.D
		}
	})

	return b
}

// live is what is in use, which is exact as long as nothing else runs.
func live() int {
	runtime.GC()
	runtime.GC()

	return int(heap())
}

// peakLive runs f and returns how much more than before was in use at any of
// some times it read from the storage.
func peakLive(st *trackAt, every int, f func()) (peak, samples int) {
	before, left := live(), every

	st.on = func(n int) {
		if left -= n; left < 0 {
			left = every
			samples++
			peak = max(peak, live()-before)
		}
	}

	f()

	st.mu.Lock()
	defer st.mu.Unlock()

	st.on = nil

	return peak, samples
}

func drawStreamed(t *rapid.T) *sz.Node {
	n := &sz.Node{M: rapid.SampledFrom(sz.Methods).Draw(t, "method")}

	// Few different parameters, so that streams are used more than once.
	v := drawInt(t, 0, 1, "params")

	switch n.M {
	case "lzma":
		n.A, n.C, n.D = 3, 2, []int{1 << 14, 1 << 17}[v]
	case "lzma2":
		n.A, n.C, n.D = 3, 2, []int{4, 10}[v]
	case "ppmd":
		n.A, n.D = 2, []int{1 << 15, 1 << 17}[v]
	case "bzip2":
		n.A, n.B, n.D = v+1, 2, []int{100000, 200000}[v]
	case "deflate":
		n.A = []int{1, 6}[v]
	case "zstd":
		n.A, n.D, n.C = 1, []int{14, 17}[v], []int{1, 3}[v]
	case "brotli":
		n.A, n.B, n.C = 1, []int{12, 17}[v], []int{0, 3}[v]
	case "lz4":
		n.A = []int{0, 5}[v]
	case "delta":
		n.A = []int{1, 200}[v]
	case "aes":
		n.A = 1
		n.IV = []byte("0123456789abcdef")
	}

	return n
}

var (
	streamedMu sync.Mutex
	streamed   = map[string]*sz.Built{}
)

// builtFor returns the archive of a case, the bulk of which is built once.
func builtFor(s *sz.Spec, key string) *sz.Built {
	streamedMu.Lock()
	defer streamedMu.Unlock()

	if b := streamed[key]; b != nil {
		return b
	}

	total := 0
	for _, b := range streamed {
		total += len(b.Raw)
	}

	if total > 150*mib || len(streamed) > 20 {
		clear(streamed)
	}

	b := sz.Build(s)
	streamed[key] = b

	return b
}

// covered is the number of bytes in ranges.
func covered(have [][2]int, more [][2]int) ([][2]int, int) {
	for _, m := range more {
		var out [][2]int

		for _, h := range have {
			if m[1] < h[0] || h[1] < m[0] {
				out = append(out, h)
			} else {
				m = [2]int{min(m[0], h[0]), max(m[1], h[1])}
			}
		}

		have = append(out, m)
	}

	n := 0
	for _, h := range have {
		n += h[1] - h[0]
	}

	return have, n
}

func totalAlloc() uint64 {
	var m runtime.MemStats

	runtime.ReadMemStats(&m)

	return m.TotalAlloc
}

func init() {
	register("C26", "streams of 2-32 MiB (every method, alone, over or under a second one, incompressible or of zeros), divided into 1-5 files, and histories of opening, reading a part in pieces of some size and closing, in order or not: at every step the packed bytes read so far are at most those for the furthest byte delivered plus a few blocks of the method, and what was allocated up to the first byte, and what is held later, is at most a few blocks, whatever the sizes of stream and file; content is as archived; non-trivial = the stream is at least three times larger than what may be read or allocated and part of it is not read",
		func(t *rapid.T) *streamCase {
			c := &streamCase{Root: drawStreamed(t), FS: drawBool(t, "fs")}
			c.Data.K, c.Data.S = sz.KRandom, uint64(drawInt(t, 1, 2, "data"))
			c.Data.N = rapid.SampledFrom([]int{2, 4}).Draw(t, "size") * mib

			if drawBool(t, "zeros") {
				c.Data = sz.Data{K: sz.KZero, N: rapid.SampledFrom([]int{16, 24}).Draw(t, "size") * mib}
			}

			if c.Root.M != "bcj2" && drawInt(t, 0, 3, "two") == 3 {
				switch m := drawStreamed(t); {
				case m.M == "bcj2":
					m.In = []*sz.Node{c.Root, nil, nil, nil}
					c.Root = m
				default:
					m.In = []*sz.Node{c.Root}
					c.Root = m
				}
			}

			if c.Root.Has("ppmd") {
				c.Data.N = 2 * mib // it is slow to make
			}

			if c.Root.Has("aes") {
				c.Pw = "secret"
			}

			for _, k := range rapid.SampledFrom([][]int{{}, {1, 16, 40, 63}}).Draw(t, "cuts") {
				c.Cuts = append(c.Cuts, k)
			}

			order := drawInt(t, 0, 2, "order")

			for i := range drawInt(t, 1, 5, "ops") {
				op := strOp{F: i, N: drawLen(t, 0, 100000, "n"), Buf: drawLen(t, 1, 70000, "buf")}

				if oneIn(t, 4, "much") {
					op.N = drawLen(t, 1, 2*mib, "nmuch")
					op.Buf = 70000
				}

				if order == 2 {
					op.F = drawInt(t, 0, 4, "f")
				}

				op.Keep = oneIn(t, 4, "keep")
				c.Ops = append(c.Ops, op)
			}

			return c
		},
		runStreamed)
}

func runStreamed(c *streamCase, o *Out) error {
	s := &sz.Spec{Folders: []sz.Folder{{Root: c.Root, N: len(c.Cuts) + 1}}, Password: c.Pw}
	content := c.Data.Bytes()

	from := 0

	var starts []int

	for i, k := range append(append([]int(nil), c.Cuts...), 64) {
		to := len(content) * k / 64
		s.Entries = append(s.Entries, sz.Entry{Name: fmt.Sprintf("f%d", i), Data: sz.Data{Lit: content[from:to]}})
		starts = append(starts, from)
		from = to
	}

	b := builtFor(s, string(mustJSON([]any{c.Root, c.Data, c.Cuts})))
	st := &trackAt{c: &confineCase{}, b: b.Raw, size: len(b.Raw)}
	pack := b.FolderPack[0]
	packed := pack[1] - pack[0]
	block := blockOf(c.Root)
	methods := 0

	c.Root.Walk(func(*sz.Node) { methods++ })

	// What may be read ahead, and what may be allocated at once.
	ahead, most, hold := mib/2+2*block, 2*mib+40*block, mib+8*block

	r, err := sevenzip.NewReaderWithPassword(st, int64(st.size), c.Pw)
	if err != nil {
		return err
	}

	st.take()

	var (
		reads [][2]int
		kept  []io.Closer
		reach int
		base  uint64
		part  bool
	)

	runtime.GC()
	base = heap()

	defer func() {
		for _, k := range kept {
			_ = k.Close()
		}
	}()

	economical := func() error {
		var got int

		reads, got = covered(reads, st.take())

		if c.Data.K == sz.KRandom {
			if need := int(float64(packed)*float64(reach)/float64(len(content))*1.05) + ahead*methods; got > need {
				return fmt.Errorf("%d of %d packed bytes read for the first %d of %d bytes of the stream, %d are enough (blocks of %d)", got, packed, reach, len(content), need, block)
			}

			if got < packed {
				part = true

				if packed > 3*ahead*methods {
					o.NonTrivial = true
				}
			}
		} else if reach < len(content)/2 && len(content) > 3*most*methods {
			o.NonTrivial = true
		}

		return nil
	}

	buf := make([]byte, 70000)

	for i, op := range c.Ops {
		k := op.F % len(b.Files)
		x := &b.Files[k]
		a0 := totalAlloc()

		var rc io.ReadCloser

		open := func() {
			if c.FS {
				rc, err = r.Open(x.Name)
			} else {
				rc, err = r.File[k].Open()
			}
		}

		if starts[k] == 0 {
			open()
		} else {
			// Some decoders leave garbage in proportion to what is skipped.
			got, samples := peakLive(st, max(packed/20, 1<<15), open)
			if got > most*methods {
				return fmt.Errorf("%d bytes in use while opening file %d of %d, at %d in a stream of %d (blocks of %d)", got, k, len(x.Data), starts[k], len(content), block)
			}

			if samples > 3 {
				o.class("memory while skipping")
			}

			a0 = totalAlloc()
		}

		if err != nil {
			return fmt.Errorf("open file %d: %w", k, err)
		}

		kept = append(kept, rc)
		reach = max(reach, starts[k])

		if err := economical(); err != nil {
			return err
		}

		pos := 0

		for idle, first := 0, true; pos < min(op.N, len(x.Data)); {
			n, err := rc.Read(buf[:min(op.Buf, op.N-pos)])
			o.Evals++

			if n > len(x.Data)-pos {
				return fmt.Errorf("file %d: more than %d bytes", k, len(x.Data))
			}

			if e := sameBytes(buf[:n], x.Data[pos:pos+n]); e != nil {
				return fmt.Errorf("file %d at %d: %w", k, pos, e)
			}

			pos += n

			if err != nil && (err != io.EOF || pos < len(x.Data)) { //nolint:errorlint
				return fmt.Errorf("file %d after %d of %d bytes: %w", k, pos, len(x.Data), err)
			}

			if n == 0 {
				if idle++; idle > 1000 {
					return errStuck
				}
			}

			reach = max(reach, starts[k]+pos)

			if first && n > 0 {
				if got := int(totalAlloc() - a0); got > most*methods {
					return fmt.Errorf("%d bytes allocated for the first %d bytes of file %d of %d, at %d in a stream of %d (blocks of %d)", got, pos, k, len(x.Data), starts[k], len(content), block)
				}

				o.class("memory for the first bytes")
			}

			first = false

			if err := economical(); err != nil {
				return err
			}
		}

		if i == len(c.Ops)-1 || i%2 == 0 {
			runtime.GC()

			if held := int(heap() - base); heap() > base && held > hold*methods*(i+2) {
				return fmt.Errorf("%d bytes held with %d files open (blocks of %d)", held, len(kept), block)
			}

			o.class("memory held")
		}

		if !op.Keep {
			if err := rc.Close(); err != nil {
				return fmt.Errorf("close: %w", err)
			}

			kept = kept[:len(kept)-1]
		}
	}

	c.Root.Walk(func(n *sz.Node) { o.class("method %s", n.M) })
	if part {
		o.class("part of the packed data read")
	}

	o.class("methods %d", methods)
	o.class("files %d", len(b.Files))
	o.class(map[bool]string{true: "incompressible", false: "zeros"}[c.Data.K == sz.KRandom])

	return nil
}
