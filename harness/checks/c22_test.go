package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime/metrics"

	"github.com/bodgit/sevenzip"
	"pgregory.net/rapid"
	"verifharness/sz"
)

type bigCase struct {
	Spec  *sz.BigSpec `json:"spec"`
	Via   int         `json:"via,omitempty"` // 0 reader, 1 file, 2 volumes
	Cuts  []uint64    `json:"cuts,omitempty"`
	Order uint64      `json:"order,omitempty"`
	Deep  int         `json:"deep,omitempty"` // 0 no, 1 the file beyond, 2 everything
	Buf   int         `json:"buf"`
}

// drawBig favours sizes around the limits of 32 bit numbers.
func drawBig(t *rapid.T, limit uint64, l string) uint64 {
	var v uint64

	switch drawInt(t, 0, 5, l+"kind") {
	case 0:
		v = rapid.Uint64Range(0, 5000).Draw(t, l)
	case 1, 2:
		b := rapid.SampledFrom([]uint64{1 << 31, 1 << 32, 3 << 31, 1 << 33, 1 << 35}).Draw(t, l+"base")
		v = b + rapid.Uint64Range(0, 400).Draw(t, l) - 200
	case 3:
		v = rapid.Uint64Range(0, 1<<34).Draw(t, l)
	case 4:
		v = rapid.Uint64Range(0, 1<<46).Draw(t, l)
	default:
		v = rapid.Uint64Range(0, 1<<58).Draw(t, l)
	}

	return min(v, limit)
}

var bigMethods = []string{"copy", "copy", "bcj", "arm", "arm64", "ppc", "sparc", "delta", "bcj2"}

var deepMethods = [][]string{
	{"copy"}, {"bcj"}, {"arm"}, {"arm64"}, {"ppc"}, {"sparc"}, {"delta"}, {"zstd"}, {"lz4"}, {"deflate"},
	{"bcj", "zstd"}, {"arm64", "zstd"}, {"delta", "lz4"}, {"copy", "zstd"}, {"ppc", "copy"},
	// slow ones
	{"bcj2"}, {"lzma2"},
}

func drawIslands(t *rapid.T, size uint64) (is []sz.Island) {
	add := func(p uint64, l string) {
		is = append(is, sz.Island{Pos: p, D: sz.Data{K: rapid.SampledFrom([]int{sz.KX86, sz.KRISC, sz.KRandom}).Draw(t, l+"kind"), S: drawSeed(t, l+"seed"), N: drawInt(t, 1, 1500, l+"len")}})
	}

	add(rapid.Uint64Range(0, 500).Draw(t, "first"), "first")

	for _, b := range []uint64{1 << 31, 1 << 32, 1<<32 + 1<<31} {
		if size > b {
			add(b-rapid.Uint64Range(0, 1000).Draw(t, "around"), "around")
		}
	}

	if size > 1000 {
		add(size-rapid.Uint64Range(0, 1000).Draw(t, "end"), "end")
	}

	for range drawInt(t, 0, 3, "more") {
		add(rapid.Uint64Range(0, max(1, size)-1).Draw(t, "pos"), "more")
	}

	return is
}

func init() {
	register("C22", "virtual sparse archives whose pack position, packed and unpacked sizes, file offsets, header position and encoded header's position are drawn around 2^31, 2^32 and up to 2^60, with giant streams (copy, filters, BCJ2) next to small ones of any method, read from an io.ReaderAt, a sparse file or sparse volumes cut anywhere: sizes must list exactly and content near the start of every stream must be that of its exact position; some cases decode more than 4 GiB through copy, filters, zstd, lz4, deflate or lzma2 and compare everything or a file beyond it; memory in use may not grow by 1 GiB while reading; non-trivial = some position or size is 2^31 or more",
		func(t *rapid.T) *bigCase {
			every, deepest := 128, len(deepMethods)-2
			if os.Getenv("VERIF_TIER") == "thorough" {
				every, deepest = 512, len(deepMethods)
			}

			c := &bigCase{Spec: &sz.BigSpec{}, Buf: rapid.SampledFrom([]int{512, 4096, 32768, 1 << 20, 1<<20 + 7}).Draw(t, "buf")}
			s := c.Spec
			c.Order = drawSeed(t, "order")
			c.Via = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2}).Draw(t, "via")

			limit := uint64(1) << 58
			if c.Via > 0 {
				limit = 1 << 35
			}

			// Values within the range are drawn less often than its ends.
			if drawInt(t, 0, every-1, "deep") == every*2/3 {
				c.Deep, c.Via = drawInt(t, 1, 2, "deepkind"), 0
				c.Buf = max(c.Buf, 32768)
				st := sz.BigStream{Ms: rapid.SampledFrom(deepMethods[:deepest]).Draw(t, "deepmethods"), A: drawInt(t, 1, 256, "dist")}
				n := 1<<32 + rapid.Uint64Range(0, 600).Draw(t, "deepsize") - 300

				if oneIn(t, 4, "cutin") {
					st.Files = append(st.Files, 1<<31+rapid.Uint64Range(0, 200).Draw(t, "firsthalf"))
					n = 1<<31 + rapid.Uint64Range(0, 600).Draw(t, "secondhalf")
				}

				st.Files = append(st.Files, n, rapid.Uint64Range(1, 5000).Draw(t, "tail"), rapid.Uint64Range(1, 300000).Draw(t, "tail2"))

				total := uint64(0)
				for _, f := range st.Files {
					total += f
				}

				st.Islands = drawIslands(t, total)
				s.Streams = []sz.BigStream{st}
				s.Gap = drawBig(t, 1<<40, "gap")

				return c
			}

			s.Gap = drawBig(t, limit, "gap")
			s.HGap = drawBig(t, limit, "hgap")
			s.PackGap = drawBig(t, limit, "packgap")

			if oneIn(t, 3, "suffix") {
				s.Suffix = drawBig(t, limit, "suffixlen")
			}

			if oneIn(t, 4, "prefix") {
				s.Prefix = drawInt(t, 1, 9000, "prefixlen")
			}

			if oneIn(t, 3, "numpad") {
				s.NumPad = 1 + drawSeed(t, "numpadseed")
			}

			small := def()
			small.methods = without(sz.Methods, "aes")

			for range drawInt(t, 1, 4, "streams") {
				var st sz.BigStream

				if drawBool(t, "small") {
					for range drawInt(t, 1, 3, "files") {
						st.Files = append(st.Files, rapid.Uint64Range(1, 2000).Draw(t, "size"))
					}

					st.Root = drawNode(t, small, 1)
					st.D = drawData(t, 1, 6000, "data")
				} else {
					total := uint64(0)

					for range drawInt(t, 1, 3, "files") {
						n := max(1, drawBig(t, limit, "size"))
						st.Files = append(st.Files, n)
						total += n
					}

					st.Ms = []string{rapid.SampledFrom(bigMethods).Draw(t, "method")}
					if st.Ms[0] != "bcj2" && drawBool(t, "two") {
						st.Ms = append(st.Ms, rapid.SampledFrom(bigMethods[:8]).Draw(t, "method2"))
					}

					st.A = drawInt(t, 1, 256, "dist")
					st.Islands = drawIslands(t, total)

					// some near the start
					for range drawInt(t, 0, 2, "near") {
						st.Islands = append(st.Islands, sz.Island{Pos: rapid.Uint64Range(0, 200000).Draw(t, "nearpos"), D: drawData(t, 1, 3000, "neardata")})
					}
				}

				s.Streams = append(s.Streams, st)
			}

			if oneIn(t, 2, "header") {
				s.Header = drawNode(t, small, 1)
				if s.Header.M == "bcj2" {
					s.Header = &sz.Node{M: "copy"}
				}

				s.HCRC = drawBool(t, "hcrc")
			}

			if c.Via == 2 {
				c.Cuts = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) uint64 { return drawBig(t, 1<<38, "cut") }), 1, 5).Draw(t, "cuts")
			}

			return c
		},
		runBig)
}

// writeSparse writes a part of the archive as a file with holes.
func writeSparse(name string, a *sz.Sparse, lo, hi uint64) error {
	f, err := os.Create(name)
	if err != nil {
		return err
	}
	defer f.Close()

	if err := f.Truncate(int64(hi - lo)); err != nil {
		return err
	}

	for _, x := range a.Segs {
		p, q := max(lo, x.Off), min(hi, x.Off+uint64(len(x.B)))
		if p >= q {
			continue
		}

		if _, err := f.WriteAt(x.B[p-x.Off:q-x.Off], int64(p-lo)); err != nil {
			return err
		}
	}

	return nil
}

func runBig(c *bigCase, o *Out) error {
	a, files := sz.BuildBig(c.Spec)

	if a.Size > 1<<62 {
		return herr("archive too large")
	}

	o.NonTrivial = a.Size >= 1<<31
	o.class("archive:2^%d", log2(a.Size))

	var (
		r   *sevenzip.Reader
		err error
	)

	via := c.Via
	if via > 0 {
		dir, done := caseDir()
		defer done()

		name := filepath.Join(dir, "a.7z")
		bounds := []uint64{0}

		if via == 2 {
			name += ".001"

			cuts := append([]uint64(nil), c.Cuts...)
			for i := range cuts {
				cuts[i] %= a.Size
			}

			bounds = append(bounds, sorted(cuts)...)
		}

		bounds = append(bounds, a.Size)

		for i := 0; i+1 < len(bounds) && via > 0; i++ {
			n := name
			if via == 2 {
				n = fmt.Sprintf("%s.%03d", name[:len(name)-4], i+1)
			}

			if err := writeSparse(n, a, bounds[i], bounds[i+1]); err != nil {
				o.class("no-sparse-files")

				via = 0
			}
		}

		if via > 0 {
			rc, err := sevenzip.OpenReader(name)
			if err != nil {
				return fmt.Errorf("open archive: %w", err)
			}
			defer rc.Close()

			r = &rc.Reader
		}
	}

	if via == 0 {
		if r, err = sevenzip.NewReader(a, int64(a.Size)); err != nil {
			return fmt.Errorf("open archive: %w", err)
		}
	}

	o.class("via:%d", via)

	if len(r.File) != len(files) {
		return fmt.Errorf("%d files, want %d", len(r.File), len(files))
	}

	for i, f := range r.File {
		w := files[i]
		if f.UncompressedSize != w.Size || f.Name != w.Name || f.FileInfo().Size() != int64(w.Size) {
			return fmt.Errorf("file %d: %s %d (%d), want %s %d", i, f.Name, f.UncompressedSize, f.FileInfo().Size(), w.Name, w.Size)
		}
	}

	rng := sz.Rng(c.Order)
	evals := 0

	for _, i := range rng.Perm(len(files)) {
		w := files[i]
		n := w.Size

		switch {
		case c.Deep == 0:
			if w.Offset > 4<<20 {
				continue
			}

			n = min(n, 300000)
		case c.Deep == 1:
			// Only what follows the giant files.
			if w.Offset < 1<<32-1000 {
				continue
			}
		}

		evals++

		if err := c.readBig(r.File[i], &w, n); err != nil {
			return fmt.Errorf("file %d of stream %d (%v %v, offset %d, size %d): %w", i, w.Stream, c.Spec.Streams[w.Stream].Ms, c.Spec.Streams[w.Stream].Root, w.Offset, w.Size, err)
		}

		if c.Deep > 0 {
			o.class("deep:%d:%v", c.Deep, c.Spec.Streams[w.Stream].Ms)
		}
	}

	o.Evals = max(1, evals)

	return nil
}

func (c *bigCase) readBig(f *sevenzip.File, w *sz.BigFile, n uint64) error {
	rc, err := f.Open()
	if err != nil {
		return fmt.Errorf("open: %w", err)
	}

	p, q := make([]byte, max(1, c.Buf)), make([]byte, max(1, c.Buf))
	pos, idle := uint64(0), 0

	mem := heap()
	checked := uint64(0)

	for i := 0; pos < n; i++ {
		if i < 500 || pos-checked > 1<<20 {
			if h := heap(); h > mem+bigMemory {
				return fmt.Errorf("at %d: %w", pos, errMemory)
			}

			checked = pos
		}

		k, err := rc.Read(p[:min(uint64(len(p)), n-pos)])
		if k > 0 {
			if _, e := w.Content.ReadAt(q[:k], int64(w.Offset+pos)); e != nil && !errors.Is(e, io.EOF) {
				return herr("%v", e)
			}

			if !bytes.Equal(p[:k], q[:k]) {
				return fmt.Errorf("at %d: %w", pos, sameBytes(p[:k], q[:k]))
			}

			pos += uint64(k)
			idle = 0
		} else if idle++; idle > 1000 {
			return errStuck
		}

		if err == io.EOF && pos == w.Size { //nolint:errorlint
			break
		}

		if err != nil {
			return fmt.Errorf("at %d: %w", pos, err)
		}
	}

	if n == w.Size {
		if k, err := readFull(rc, p[:1]); k != 0 || err != io.EOF { //nolint:errorlint
			return fmt.Errorf("at the end: %d, %w", k, err)
		}
	}

	return rc.Close()
}

// bigMemory is more than any of the streams here needs, with the garbage.
const bigMemory = 1 << 30

var errMemory = errors.New("reading takes more than 1 GiB of memory")

func heap() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)

	return s[0].Value.Uint64()
}

func log2(v uint64) int {
	n := 0
	for v > 1 {
		v >>= 1
		n++
	}

	return n
}

func sorted(v []uint64) []uint64 {
	for i := range v {
		for j := i; j > 0 && v[j] < v[j-1]; j-- {
			v[j], v[j-1] = v[j-1], v[j]
		}
	}

	return v
}
