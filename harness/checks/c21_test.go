package checks

import (
	"fmt"
	"io"
	"runtime"

	"github.com/bodgit/sevenzip"
	"pgregory.net/rapid"
	"verifharness/sz"
)

type reuseCase struct {
	Arch   []*sz.Spec `json:"arch"` // the last one is the target
	Flips  [][]burst  `json:"flips"`
	Ops    []reuseOp  `json:"ops"`
	Procs  int        `json:"procs"`
	Damage bool       `json:"damage,omitempty"` // the target is damaged as well
}

// reuseOp reads from an earlier archive.
type reuseOp struct {
	A    int    `json:"a"`
	F    int    `json:"f"`
	N    int    `json:"n"`              // bytes, -1 all
	Buf  int    `json:"buf"`            // buffer size
	Keep bool   `json:"keep,omitempty"` // closed only at the end
	Pw   string `json:"pw,omitempty"`
	UsPw bool   `json:"uspw,omitempty"`
	New  bool   `json:"new,omitempty"` // a new reader
}

func init() {
	register("C21", "1-5 earlier archives (same methods as the target with other parameters, some damaged: cut, shortened, overlong or with flipped bits; wrong passwords) are read in a history of whole and partial reads, files closed early, twice or only at the end, on few processors so that pooled decoders are reused, with a file of the target half read meanwhile; then the target must read exactly as its model says (a damaged target exactly as it did in pools emptied before); non-trivial = an earlier file was left before its end or failed, and the target has content",
		func(t *rapid.T) *reuseCase {
			c := &reuseCase{Procs: rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "procs")}

			g := def()
			g.maxFile = rapid.SampledFrom([]int{60, 3000, 40000}).Draw(t, "maxfile")
			g.maxEntries, g.maxFolders = 3, 2
			g.simpleMeta = true
			g.layouts = false
			g.trees = drawBool(t, "trees")
			g.methods = rapid.SliceOfN(rapid.SampledFrom([]string{"zstd", "brotli", "lz4", "deflate", "zstd", "brotli", "lz4", "deflate", "lzma", "lzma2", "ppmd", "bzip2", "bcj2", "bcj", "delta", "aes", "arm64", "arm"}), 1, 3).Draw(t, "methods")

			for range 1 + drawInt(t, 1, 5, "earlier") {
				s := drawSpec(t, g)

				for i := range s.Folders {
					s.Folders[i].Root.Walk(func(n *sz.Node) {
						if n.M == "aes" && n.A != 0x3f {
							n.A = min(n.A, 6)
						}
					})
				}

				c.Arch = append(c.Arch, s)

				var fl []burst

				if oneIn(t, 2, "damaged") {
					f := &s.Folders[drawInt(t, 0, len(s.Folders)-1, "folder")]

					switch drawInt(t, 0, 4, "damagekind") {
					case 0:
						f.Short = drawInt(t, 1, 100, "short")
					case 1:
						f.Short = -drawInt(t, 1, 5000, "long")
					case 2:
						f.CutPack = drawInt(t, 1, 200, "cut")
						f.CutIdx = drawInt(t, 0, 3, "cutidx")
					default:
						for range drawInt(t, 1, 3, "flips") {
							fl = append(fl, burst{Area: drawInt(t, 0, 3, "flipfolder"), Pos: drawInt(t, 0, 1<<20-1, "flippos"), Pat: 1 | rapid.Uint32().Draw(t, "flippat")})
						}
					}
				}

				c.Flips = append(c.Flips, fl)
			}

			last := c.Arch[len(c.Arch)-1]
			c.Damage = len(c.Flips[len(c.Flips)-1]) > 0

			for _, f := range last.Folders {
				c.Damage = c.Damage || f.Short != 0 || f.CutPack != 0
			}

			for range drawInt(t, 1, 10, "ops") {
				o := reuseOp{A: drawInt(t, 0, len(c.Arch)-2, "a"), F: drawInt(t, 0, 2, "f"), N: -1, Buf: drawLen(t, 1, 40000, "buf"), Keep: oneIn(t, 6, "keep"), New: drawBool(t, "new")}

				if drawBool(t, "partial") {
					o.N = drawLen(t, 0, 40000, "n")
				}

				if oneIn(t, 6, "wrongpw") {
					o.Pw, o.UsPw = drawPassword(t), true
				}

				c.Ops = append(c.Ops, o)
			}

			return c
		},
		runReuse)
}

type outcome struct {
	data   []byte
	failed bool
	err    error
}

func (c *reuseCase) outcomes(raw []byte) ([]outcome, error) {
	r, err := open(raw, c.Arch[len(c.Arch)-1].Password)
	if err != nil {
		return nil, fmt.Errorf("open target: %w", err)
	}

	var out []outcome

	for _, f := range r.File {
		b, err := readFile(f)
		if isViolation(err) {
			return nil, err
		}

		out = append(out, outcome{b, err != nil, err})
	}

	return out, nil
}

func runReuse(c *reuseCase, o *Out) error {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(max(1, c.Procs)))

	built := make([]*sz.Built, len(c.Arch))
	raws := make([][]byte, len(c.Arch))

	for i, s := range c.Arch {
		built[i] = sz.Build(s)
		raws[i] = append([]byte(nil), built[i].Raw...)

		for _, x := range c.Flips[i] {
			if n := len(built[i].FolderPack); n > 0 {
				if r := built[i].FolderPack[x.Area%n]; r[1] > r[0] {
					flip(raws[i], r[0], r[1], at((r[1]-r[0])*8, x.Pos), x.Pat)
				}
			}
		}
	}

	last := len(c.Arch) - 1

	// Empty the pools, for both a fresh start and replays.
	runtime.GC()
	runtime.GC()

	var fresh []outcome

	if c.Damage {
		var err error

		if fresh, err = c.outcomes(raws[last]); err != nil {
			return err
		}

		runtime.GC()
		runtime.GC()
	}

	// A file of the target is half read already.
	var (
		early io.ReadCloser
		half  []byte
		want  []byte
	)

	if !c.Damage {
		r, err := open(raws[last], c.Arch[last].Password)
		if err != nil {
			return fmt.Errorf("open target: %w", err)
		}

		for i, f := range r.File {
			if want = built[last].Files[i].Data; len(want) > 0 {
				if early, err = f.Open(); err != nil {
					return fmt.Errorf("open file of the target: %w", err)
				}

				p := make([]byte, len(want)/2)
				n, err := readFull(early, p)
				half = p[:n]

				if err != nil && err != io.EOF { //nolint:errorlint
					return fmt.Errorf("read target: %w", err)
				}

				break
			}
		}
	}

	var kept []io.Closer

	readers := make([]*sevenzip.Reader, len(c.Arch))

	for _, op := range c.Ops {
		s := c.Arch[op.A]

		pw := s.Password
		if op.UsPw {
			pw = op.Pw
		}

		r := readers[op.A]

		if r == nil || op.New || op.UsPw {
			var err error

			if r, err = open(raws[op.A], pw); err != nil {
				o.class("earlier-open-fails")

				continue
			}

			readers[op.A] = r
		}

		if len(r.File) == 0 {
			continue
		}

		rc, err := r.File[op.F%len(r.File)].Open()
		if err != nil {
			o.class("earlier-file-fails")

			o.NonTrivial = true

			continue
		}

		o.Evals++

		buf := make([]byte, max(1, op.Buf))
		done := 0

		for idle := 0; op.N < 0 || done < op.N; {
			p := buf
			if op.N >= 0 {
				p = buf[:min(len(buf), op.N-done)]
			}

			n, err := rc.Read(p)
			done += n

			if err != nil {
				if err != io.EOF { //nolint:errorlint
					o.class("earlier-read-fails")

					o.NonTrivial = true
				}

				break
			}

			if n == 0 {
				if idle++; idle > 10000 {
					return errStuck
				}
			}
		}

		o.NonTrivial = o.NonTrivial || op.N >= 0

		if op.Keep {
			kept = append(kept, rc)
		} else {
			_ = rc.Close()
			_ = rc.Close()
		}
	}

	if early != nil {
		b, err := readAll(early, len(want))
		if err != nil {
			return fmt.Errorf("target, continued after %d bytes: %w", len(half), err)
		}

		if err := sameBytes(append(half, b...), want); err != nil {
			return fmt.Errorf("target, continued after %d bytes: %w", len(half), err)
		}

		if err := early.Close(); err != nil {
			return fmt.Errorf("target: close: %w", err)
		}
	}

	got, err := c.outcomes(raws[last])
	if err != nil {
		return err
	}

	for i, g := range got {
		what := "empty"
		if x := built[last].Files[i]; x.Kind == sz.EData {
			what = rootOf(c.Arch[last], x.Folder)
		}

		if c.Damage {
			w := fresh[i]
			if g.failed != w.failed {
				return fmt.Errorf("damaged target, file %d, %s: error %v, in a fresh process %v", i, what, g.err, w.err)
			}

			if err := sameBytes(g.data, w.data); err != nil {
				return fmt.Errorf("damaged target, file %d, %s (%v): %w", i, what, g.err, err)
			}

			o.class("target-damaged")

			continue
		}

		if g.err != nil {
			return fmt.Errorf("target, file %d, %s: %w", i, what, g.err)
		}

		if err := sameBytes(g.data, built[last].Files[i].Data); err != nil {
			return fmt.Errorf("target, file %d, %s: %w", i, what, err)
		}
	}

	for _, k := range kept {
		_ = k.Close()
	}

	// Once more with what was closed only now.
	if len(kept) > 0 && !c.Damage {
		return checkArchive(raws[last], c.Arch[last].Password, built[last].Files)
	}

	return nil
}
