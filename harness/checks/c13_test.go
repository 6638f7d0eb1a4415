package checks

import (
	"errors"
	"fmt"
	"io"

	"pgregory.net/rapid"
	"verifharness/sz"
)

type shortCase struct {
	Spec *sz.Spec `json:"spec"`
	// Flips damage packed bytes: per mille of the packed area, mask.
	Flips [][2]int `json:"flips,omitempty"`
	Buf   int      `json:"buf"`
	Back  bool     `json:"back,omitempty"` // read the files backwards first
	FS    bool     `json:"fs,omitempty"`   // open them by their path
}

var preserving = map[string]bool{"copy": true, "delta": true, "bcj": true, "arm": true, "arm64": true, "ppc": true, "sparc": true, "aes": true}

var lookAhead = map[string]bool{"bcj": true, "arm": true, "arm64": true, "ppc": true, "sparc": true}

func keeps(n *sz.Node) bool {
	keep := true

	n.Walk(func(x *sz.Node) { keep = keep && preserving[x.M] })

	return keep
}

func init() {
	register("C13", "1-4 streams over all methods; some streams encode 1..n bytes less (or more) than declared, have a packed stream cut by 1..n bytes, or damaged bytes; every file must read completely or end in an error that is not EOF, never deliver more than its size; content that is complete after a cut must be exact, files before the point where content is missing must be exact (for damage: in length preserving chains); non-trivial = content is missing, in excess or damaged",
		func(t *rapid.T) *shortCase {
			g := def()
			g.maxFile = rapid.SampledFrom([]int{20, 300, 3000, 30000}).Draw(t, "maxfile")
			g.maxEntries = 6
			g.simpleMeta = true
			g.encHeader = false
			c := &shortCase{Spec: drawSpec(t, g)}

			for i := range c.Spec.Folders {
				f := &c.Spec.Folders[i]

				switch rapid.IntRange(0, 4).Draw(t, "fault") {
				case 0:
				case 1:
					f.Short = rapid.OneOf(rapid.IntRange(1, 20), rapid.IntRange(1, 3000)).Draw(t, "short")
				case 2:
					f.Short = -rapid.OneOf(rapid.IntRange(1, 20), rapid.IntRange(1, 3000)).Draw(t, "excess")
				default:
					f.CutPack = rapid.OneOf(rapid.IntRange(1, 20), rapid.IntRange(1, 3000)).Draw(t, "cut")
					f.CutIdx = drawInt(t, 0, 3, "cutidx")
				}
			}

			if oneIn(t, 3, "damage") {
				for range drawInt(t, 1, 4, "flips") {
					c.Flips = append(c.Flips, [2]int{drawInt(t, 0, 999, "flipat"), drawInt(t, 1, 255, "flipmask")})
				}
			}

			c.Buf = rapid.SampledFrom([]int{1 << 16, 1, 7, 100, 4096}).Draw(t, "buf")
			c.Back = oneIn(t, 3, "back")
			c.FS = drawBool(t, "fs")

			return c
		},
		runShort)
}

func runShort(c *shortCase, o *Out) error {
	b := sz.Build(c.Spec)
	specClasses(c.Spec, o)

	raw := append([]byte(nil), b.Raw...)

	// Lowest damaged offset within each folder's packed data.
	dmg := map[int]int{}

	if n := len(b.FolderPack); n > 0 {
		lo, hi := b.FolderPack[0][0], b.FolderPack[n-1][1]

		for _, f := range c.Flips {
			if hi <= lo {
				break
			}

			at := lo + (hi-lo)*f[0]/1000
			raw[at] ^= byte(f[1])

			for i, p := range b.FolderPack {
				if at >= p[0] && at < p[1] {
					if d, ok := dmg[i]; !ok || at-p[0] < d {
						dmg[i] = at - p[0]
					}
				}
			}
		}
	}

	r, err := open(raw, c.Spec.Password)
	if err != nil {
		return fmt.Errorf("open archive: %w", err)
	}

	if err := checkList(r.File, b.Files); err != nil {
		return err
	}

	// Where each file ends in its stream and how much of it is intact.
	ends := make([]int, len(b.Files))
	pos := map[int]int{}

	for i, w := range b.Files {
		if w.Kind == sz.EData {
			pos[w.Folder] += len(w.Data)
			ends[i] = pos[w.Folder]
		}
	}

	intact := func(fi int) int {
		f := &c.Spec.Folders[fi]
		n := pos[fi]

		if f.Short > 0 {
			n -= f.Short

			// Without the rest of an instruction there is no telling
			// what its first bytes are.
			f.Root.Walk(func(x *sz.Node) {
				if lookAhead[x.M] {
					n -= 5
				}
			})
		}

		keep := keeps(f.Root)

		if _, hit := dmg[fi]; f.CutPack == 0 && !hit && (keep || f.Short == 0) {
			return n
		}

		// Decoders of compressed data may look ahead and fail early.
		if !keep {
			return -1
		}

		if f.CutPack > 0 {
			n = min(n, b.FolderPack[fi][1]-b.FolderPack[fi][0]-64)
		}

		if d, hit := dmg[fi]; hit {
			n = min(n, d-64)
		}

		return n
	}

	idx := seqInts(len(r.File))
	if c.Back {
		for i, j := 0, len(idx)-1; i < j; i, j = i+1, j-1 {
			idx[i], idx[j] = idx[j], idx[i]
		}
	}

	// Twice: a stream that failed must not serve the next file.
	for _, i := range append(idx, seqInts(len(r.File))...) {
		w := &b.Files[i]
		data, err := readBuf(func() (io.ReadCloser, error) { return opened(r, i, c.FS) }, len(w.Data), c.Buf)

		if isViolation(err) {
			return fmt.Errorf("file %d: %w", i, err)
		}

		if w.Kind != sz.EData {
			if err != nil {
				return fmt.Errorf("file %d without content: %w", i, err)
			}

			continue
		}

		f := &c.Spec.Folders[w.Folder]
		_, hit := dmg[w.Folder]
		where := fmt.Sprintf("file %d (bytes %d to %d of %d), %s, short %d, cut %d, damaged %v", i, ends[i]-len(w.Data), ends[i], pos[w.Folder], rootOf(c.Spec, w.Folder), f.Short, f.CutPack, hit)

		if f.Short != 0 || f.CutPack != 0 || hit {
			o.NonTrivial = true
			o.class("short:%v cut:%v damaged:%v", f.Short > 0, f.CutPack > 0, hit)
		}

		if err == nil && len(data) < len(w.Data) {
			enc := ""
			if f.Root.Has("aes") && (f.Short > 0 || hit || f.CutPack > 0 && endsClean(f, b.FolderPack[w.Folder][1]-b.FolderPack[w.Folder][0])) {
				enc = "[encrypted short stream] "
			}

			return fmt.Errorf("%s%s: clean EOF after %d of %d bytes", enc, where, len(data), len(w.Data))
		}

		if err != nil && errors.Is(err, io.EOF) && err.Error() == "EOF" {
			return fmt.Errorf("%s: bare EOF", where)
		}

		if ends[i] <= intact(w.Folder) {
			if err != nil {
				return fmt.Errorf("%s: intact up to %d but %w", where, intact(w.Folder), err)
			}

			if err := sameBytes(data, w.Data); err != nil {
				return fmt.Errorf("%s: intact up to %d but %w", where, intact(w.Folder), err)
			}
		}

		// Padding and what flushes a range coder can pass for missing content.
		if err == nil && !hit && !(f.Short > 0 && (f.Root.Has("aes") || !keeps(f.Root))) {
			if err := sameBytes(data, w.Data); err != nil {
				return fmt.Errorf("%s: complete but %w", where, err)
			}
		}

		o.Evals++
	}

	return nil
}

// endsClean tells if a stream whose packed data was cut to the given length can
// end like one that is complete below the check for the size.
func endsClean(f *sz.Folder, left int) bool {
	n := f.Root

	for {
		switch n.M {
		case "lzma", "lzma2", "deflate", "ppmd", "bzip2":
			return false
		case "bcj2":
			return true
		}

		if len(n.In) == 0 || n.In[0] == nil {
			break
		}

		n = n.In[0]
	}

	return n.M != "aes" || left%16 == 0
}

// readBuf reads with a buffer of a given size.
func readBuf(op func() (io.ReadCloser, error), limit, size int) ([]byte, error) {
	rc, err := op()
	if err != nil {
		return nil, err
	}

	defer func() { _ = rc.Close() }()

	if limit > 20000 {
		size = max(size, 100)
	}

	var out []byte

	p := make([]byte, max(1, size))
	idle := 0

	for {
		n, err := rc.Read(p)
		out = append(out, p[:n]...)

		if len(out) > limit {
			return out, errTooLong
		}

		if err == io.EOF { //nolint:errorlint
			return out, nil
		}

		if err != nil {
			return out, err
		}

		if n == 0 {
			if idle++; idle > 10000 {
				return out, errStuck
			}
		} else {
			idle = 0
		}
	}
}
