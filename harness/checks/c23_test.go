package checks

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path/filepath"
	"runtime"
	"time"
	"weak"

	"github.com/bodgit/sevenzip"
	"pgregory.net/rapid"
	"verifharness/sz"
)

type leakCase struct {
	Spec  *sz.Spec `json:"spec"`
	Flip  []burst  `json:"flip,omitempty"`
	Head  []burst  `json:"head,omitempty"` // damage anywhere
	Cut   int      `json:"cut,omitempty"`  // bytes missing at the end
	Pw    string   `json:"pw,omitempty"`
	UsePw bool     `json:"usepw,omitempty"`
	Via   int      `json:"via,omitempty"`  // 0 reader, 1 file, 2 volumes
	Fail  int      `json:"fail,omitempty"` // access that fails, 0 none
	Ops   []leakOp `json:"ops"`
}

type leakOp struct {
	F    int  `json:"f"`
	N    int  `json:"n"` // bytes, -1 all
	Buf  int  `json:"buf"`
	FS   bool `json:"fs,omitempty"`
	Keep bool `json:"keep,omitempty"` // closed only at the end
	Two  bool `json:"two,omitempty"`  // closed twice
}

// leakAt counts accesses and can fail.
type leakAt struct {
	b    []byte
	n    int
	fail int
}

func (l *leakAt) ReadAt(p []byte, off int64) (int, error) {
	if l.n++; l.n == l.fail {
		return 0, errors.New("injected")
	}

	return bytesAt(l.b).ReadAt(p, off)
}

func init() {
	register("C23", "an archive (all methods and trees, files up to 3 MB, some damaged, cut, opened with another password or over storage that fails) is opened by reader, by name or as volumes and read in a history of whole and partial reads, files closed at once, twice or only at the end; then everything is closed and dropped: within some garbage collections no goroutine may be left and the reader, its files and the storage it was given must be unreachable; non-trivial = a file was left before its end, or something failed",
		func(t *rapid.T) *leakCase {
			g := def()
			g.maxEntries, g.maxFolders = 4, 2
			g.simpleMeta = true
			g.layouts = drawBool(t, "layouts")
			g.trees = drawBool(t, "trees")
			g.maxFile = rapid.SampledFrom([]int{60, 3000, 3000, 70000, 70000, 400000, 3000000}).Draw(t, "maxfile")

			if g.maxFile > 100000 {
				g.maxEntries = 2
				g.trees = false
				g.methods = rapid.SampledFrom([][]string{{"zstd"}, {"lz4"}, {"brotli"}, {"deflate"}, {"zstd", "lz4", "deflate", "copy"}}).Draw(t, "fast")
			} else if drawBool(t, "few") {
				g.methods = rapid.SliceOfN(rapid.SampledFrom(sz.Methods), 1, 2).Draw(t, "methods")
			}

			c := &leakCase{Spec: drawSpec(t, g), Via: rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "via")}

			for _, f := range c.Spec.Folders {
				f.Root.Walk(func(n *sz.Node) {
					if n.M == "aes" && n.A != 0x3f {
						n.A = min(n.A, 6)
					}
				})
			}

			drawBursts := func(l string) (out []burst) {
				for range drawInt(t, 1, 3, l) {
					out = append(out, burst{Area: drawInt(t, 0, 3, l+"area"), Pos: drawInt(t, 0, 1<<20, l+"at"), Pat: 1 | rapid.Uint32().Draw(t, l+"pat")})
				}

				return out
			}

			switch drawInt(t, 0, 9, "damage") {
			case 7, 6:
				c.Flip = drawBursts("flip")
			case 8:
				f := &c.Spec.Folders[drawInt(t, 0, len(c.Spec.Folders)-1, "folder")]
				if drawBool(t, "short") {
					f.Short = drawInt(t, 1, 100, "shortby")
				} else {
					f.CutPack, f.CutIdx = drawInt(t, 1, 200, "cutpack"), drawInt(t, 0, 3, "cutidx")
				}
			case 9:
				if drawBool(t, "headdamage") {
					c.Head = drawBursts("head")
				} else {
					c.Cut = drawInt(t, 1, 200, "cutend")
				}
			}

			if oneIn(t, 8, "wrongpw") {
				c.Pw, c.UsePw = drawPassword(t), true
			}

			if c.Via == 0 && oneIn(t, 5, "failing") {
				c.Fail = drawInt(t, 1, 60, "fail")
			}

			for range drawInt(t, 1, 8, "ops") {
				o := leakOp{F: drawInt(t, 0, 3, "f"), N: -1, Buf: drawLen(t, 1, 40000, "buf"), Keep: oneIn(t, 4, "keep"), FS: oneIn(t, 4, "fs"), Two: oneIn(t, 6, "two")}

				if drawInt(t, 0, 3, "partial") > 0 {
					o.N = drawLen(t, 0, g.maxFile, "n")
				}

				c.Ops = append(c.Ops, o)
			}

			return c
		},
		runLeak)
}

func runLeak(c *leakCase, o *Out) error {
	before := runtime.NumGoroutine()

	b := sz.Build(c.Spec)
	raw := append([]byte(nil), b.Raw...)

	for _, x := range c.Flip {
		if n := len(b.FolderPack); n > 0 {
			if r := b.FolderPack[x.Area%n]; r[1] > r[0] {
				flip(raw, r[0], r[1], at((r[1]-r[0])*8, x.Pos), x.Pat)
			}
		}
	}

	for _, x := range c.Head {
		flip(raw, 0, len(raw), at(len(raw)*8, x.Pos), x.Pat)
	}

	raw = raw[:len(raw)-min(c.Cut, len(raw)-1)]

	names := make([]func() bool, 0, 8)
	labels := make([]string, 0, 8)

	if err := c.use(raw, o, func(label string, gone func() bool) {
		names, labels = append(names, gone), append(labels, label)
	}); err != nil {
		return err
	}

	specClasses(c.Spec, o)

	deadline := time.Now().Add(10 * time.Second)

	for i := 0; ; i++ {
		runtime.GC()

		held := ""

		for k, gone := range names {
			if !gone() {
				held = labels[k]

				break
			}
		}

		n := runtime.NumGoroutine()
		if held == "" && n <= before {
			return nil
		}

		if time.Now().After(deadline) {
			if n > before {
				buf := make([]byte, 1<<16)

				return fmt.Errorf("%d goroutines are left, %d before:\n%s", n, before, buf[:runtime.Stack(buf, true)])
			}

			return fmt.Errorf("%s is still reachable after everything was closed and dropped", held)
		}

		if i > 2 {
			time.Sleep(time.Duration(min(i, 50)) * time.Millisecond)
		}
	}
}

func unreachable[T any](p *T) func() bool {
	w := weak.Make(p)

	return func() bool { return w.Value() == nil }
}

//go:noinline
func (c *leakCase) use(raw []byte, o *Out, watch func(string, func() bool)) error {
	pw := c.Spec.Password
	if c.UsePw {
		pw = c.Pw
	}

	var (
		r      *sevenzip.Reader
		err    error
		finish = func() error { return nil }
	)

	if c.Via > 0 {
		dir, done := caseDir()
		defer done()

		name := filepath.Join(dir, "a.7z")
		if c.Via == 2 {
			name = filepath.Join(dir, "a.7z.001")
			mustWrite(name, raw[:len(raw)/2])
			mustWrite(filepath.Join(dir, "a.7z.002"), raw[len(raw)/2:])
		} else {
			mustWrite(name, raw)
		}

		var rc *sevenzip.ReadCloser
		if rc, err = sevenzip.OpenReaderWithPassword(name, pw); err == nil {
			watch("the ReadCloser", unreachable(rc))

			r, finish = &rc.Reader, rc.Close
		}
	} else {
		at := &leakAt{b: raw, fail: c.Fail}
		watch("the storage", unreachable(at))

		if r, err = sevenzip.NewReaderWithPassword(at, int64(len(raw)), pw); err == nil {
			watch("the Reader", unreachable(r))
		}
	}

	if err != nil {
		o.NonTrivial = true
		o.class("open:fails")

		return nil
	}

	var kept []io.Closer

	if len(r.File) > 0 {
		watch("a File", unreachable(r.File[0]))

		for _, op := range c.Ops {
			f := r.File[op.F%len(r.File)]

			var rc io.ReadCloser

			if op.FS && fs.ValidPath(f.Name) {
				rc, err = r.Open(f.Name)
			} else {
				rc, err = f.Open()
			}

			if err != nil {
				o.NonTrivial = true
				o.class("file:open fails")

				continue
			}

			n := op.N
			if n < 0 {
				n = int(f.UncompressedSize) + 1
			}

			buf := make([]byte, op.Buf)
			idle := 0

			for n > 0 && idle < 100 {
				k, err := rc.Read(buf[:min(n, len(buf))])
				n -= k

				if err == io.EOF { //nolint:errorlint
					break
				}

				if err != nil {
					o.NonTrivial = true
					o.class("file:read fails")

					break
				}

				if k == 0 {
					idle++
				}
			}

			if n == 0 && f.UncompressedSize > uint64(max(op.N, 0)) {
				o.NonTrivial = true
				o.class("file:left early")
			}

			if op.Keep {
				kept = append(kept, rc)
				o.class("file:closed late")

				continue
			}

			_ = rc.Close()
			if op.Two {
				_ = rc.Close()
			}
		}
	}

	for _, rc := range kept {
		_ = rc.Close()
	}

	if err := finish(); err != nil {
		return fmt.Errorf("closing the archive: %w", err)
	}

	return nil
}
