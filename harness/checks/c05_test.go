package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"syscall"

	"github.com/bodgit/sevenzip"
	"pgregory.net/rapid"
	"verifharness/sz"
)

type volCase struct {
	Spec *sz.Spec `json:"spec"`
	More int      `json:"more,omitempty"` // that many further cuts
	Cuts []int    `json:"cuts"`           // per mille of the length, or negative offsets from the end
	Base string   `json:"base"`
	Dir  string   `json:"dir,omitempty"`
	Loss int      `json:"loss,omitempty"` // 0 none, 1 drop trailing volumes, 2 truncate the last, 3 drop a middle one
	N    int      `json:"n,omitempty"`
	// Decoy puts unrelated files next to the volumes.
	Decoy bool `json:"decoy,omitempty"`
	// Whole is the name of an archive that isn't split, next to files which
	// only look like its volumes.
	Whole string `json:"whole,omitempty"`
	Form  int    `json:"form,omitempty"` // how the name is written
}

// Names of archives that are not the first of several volumes.
var wholeNames = []string{"a.7z", "a", "a.101", "a.0001", "a.01", "a.1", "a.7z001", "001", "a001", "a.002", "a.000", "a.001.7z", "a.001x", "a.00l", "a.OO1", "a.001.", "a.7z.001.002", "a.exe", "a. 001", "a.+01"}

// written returns another way to write the name of a file in a directory.
func written(dir, name string, form int) string {
	rest := strings.TrimPrefix(name, dir+"/")

	switch form {
	case 1:
		return dir + "/./" + rest
	case 2:
		return dir + "//" + rest
	case 3:
		return dir + "/../" + filepath.Base(dir) + "/" + rest
	case 4:
		if err := os.Symlink(dir, dir+"/.link"); err == nil {
			return dir + "/.link/" + rest
		}
	}

	return name
}

// caseDir makes a directory for a case and returns a function removing it.
func caseDir() (string, func()) {
	d, err := os.MkdirTemp("", "case")
	if err != nil {
		panic("harness: " + err.Error())
	}

	return d, func() { _ = os.RemoveAll(d) }
}

func mustWrite(name string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(name), 0o755); err != nil {
		panic("harness: " + err.Error())
	}

	if err := os.WriteFile(name, b, 0o644); err != nil {
		panic("harness: " + err.Error())
	}
}

func split(raw []byte, cuts []int) [][]byte {
	var at []int

	for _, c := range cuts {
		p := 0
		if c < 0 {
			p = max(0, len(raw)+c)
		} else if c >= 10000 {
			p = min(len(raw), c-10000)
		} else {
			p = len(raw) * c / 1000
		}

		at = append(at, min(p, len(raw)))
	}

	slices.Sort(at)

	var out [][]byte

	last := 0
	for _, p := range at {
		out = append(out, raw[last:p])
		last = p
	}

	return append(out, raw[last:])
}

func init() {
	register("C05", "an archive is split at up to 150 (one in 300: about 1000) drawn positions (single bytes, empty volumes, cuts inside signature, start header and header) into NAME.001.. in a scratch directory and opened by name; listing, contents and Volumes must match; with trailing volumes dropped, cut short or a middle one missing, opening must fail; or it is one file whose name does not end in .001, next to files that look like its volumes; names are also written with ./, ../, // and through a link; non-trivial = at least two volumes, or one file with such a name",
		func(t *rapid.T) *volCase {
			g := def()
			g.maxFile = rapid.SampledFrom([]int{300, 300, 20000}).Draw(t, "maxfile")
			g.maxEntries = 4
			g.simpleMeta = true
			c := &volCase{Spec: drawSpec(t, g)}

			if oneIn(t, 5, "prefix") {
				c.Spec.Layout.Prefix = drawData(t, 1, 9000, "prefix")
			}

			n := drawInt(t, 0, 6, "cuts")
			if oneIn(t, 10, "many") {
				n = drawInt(t, 7, 150, "manycuts")
			}

			for range n {
				switch rapid.IntRange(0, 3).Draw(t, "cutkind") {
				case 0:
					c.Cuts = append(c.Cuts, -rapid.IntRange(0, 100).Draw(t, "cutend"))
				case 1:
					c.Cuts = append(c.Cuts, 10000+rapid.IntRange(0, 60).Draw(t, "cutstart"))
				default:
					c.Cuts = append(c.Cuts, rapid.IntRange(0, 1000).Draw(t, "cut"))
				}
			}

			// More volumes than numbers of three digits
			if drawInt(t, 0, 299, "thousand") == 166 {
				c.More = drawInt(t, 990, 1100, "more")
			}

			c.Base = rapid.SampledFrom([]string{"a.7z", "a", "a.b.c", "a.7z.001", ".hidden", "sp ace.7z", "ü", "x.001.002"}).Draw(t, "base")
			c.Dir = rapid.SampledFrom([]string{"", "d.001", "sub/dir", "%d"}).Draw(t, "dir")
			c.Decoy = drawBool(t, "decoy")

			c.Form = max(0, drawInt(t, -3, 4, "form"))

			if oneIn(t, 8, "whole") {
				c.Whole = rapid.SampledFrom(wholeNames).Draw(t, "wholename")

				return c
			}

			if oneIn(t, 4, "loss") {
				c.Loss = drawInt(t, 1, 3, "losskind")
				c.N = drawInt(t, 1, 200, "lossn")
			}

			return c
		},
		func(c *volCase, o *Out) error {
			b := sz.Build(c.Spec)
			cuts := c.Cuts

			var lim syscall.Rlimit
			if c.More > 0 && syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim) == nil && lim.Cur > 2500 {
				cuts = slices.Clone(cuts)
				for i := range c.More {
					cuts = append(cuts, 10000+i*(len(b.Raw)+10)/c.More)
				}
			}

			vols := split(b.Raw, cuts)
			d, done := caseDir()

			defer done()

			base := filepath.Join(d, c.Dir, c.Base)

			if c.Whole != "" {
				return c.whole(b, d, o)
			}

			o.NonTrivial = len(vols) > 1
			o.class("volumes:%s", bucket(len(vols)))

			lost := false

			switch c.Loss {
			case 1:
				k := min(len(vols)-1, 1+c.N%3)
				for _, v := range vols[len(vols)-k:] {
					lost = lost || len(v) > 0
				}

				vols = vols[:len(vols)-k]
			case 2:
				v := vols[len(vols)-1]
				k := min(c.N, len(v))
				vols[len(vols)-1] = v[:len(v)-k]
				lost = k > 0
			case 3:
				if len(vols) > 2 {
					for _, v := range vols[len(vols)-1:] {
						lost = lost || len(v) > 0
					}
				}
			}

			for i, v := range vols {
				if c.Loss == 3 && len(vols) > 2 && i == len(vols)-2 {
					continue
				}

				mustWrite(fmt.Sprintf("%s.%03d", base, i+1), v)
			}

			if c.Decoy {
				mustWrite(base, []byte("x"))
				mustWrite(base+".000", []byte("x"))
				mustWrite(base+".7z", []byte("x"))
				mustWrite(fmt.Sprintf("%s.%03d", base, len(vols)+2), []byte("x"))
				mustWrite(base+".01", []byte("x"))
			}

			name := written(d, base+".001", c.Form)
			o.class("form:%d", c.Form)

			if lost {
				o.class("loss:%d", c.Loss)

				rc, err := sevenzip.OpenReaderWithPassword(name, c.Spec.Password)
				if err != nil {
					return nil
				}

				defer rc.Close()

				return fmt.Errorf("archive with missing data (loss %d) opens with %d files", c.Loss, len(rc.File))
			}

			if c.Loss == 3 {
				// only an empty volume is missing
				return nil
			}

			rc, err := sevenzip.OpenReaderWithPassword(name, c.Spec.Password)
			if err != nil {
				return fmt.Errorf("open %d volumes: %w", len(vols), err)
			}

			defer rc.Close()

			got := rc.Volumes()
			if len(got) != len(vols) {
				return fmt.Errorf("Volumes has %d entries, want %d", len(got), len(vols))
			}

			for i, v := range got {
				if w := fmt.Sprintf("%s.%03d", strings.TrimSuffix(name, ".001"), i+1); filepath.Clean(v) != filepath.Clean(w) {
					return fmt.Errorf("volume %d is %q, want %q", i, strings.TrimPrefix(v, d), strings.TrimPrefix(w, d))
				}
			}

			if err := checkList(rc.File, b.Files); err != nil {
				return err
			}

			if err := checkContents(rc.File, b.Files); err != nil {
				return err
			}

			if err := rc.Close(); err != nil {
				return fmt.Errorf("close: %w", err)
			}

			return nil
		})
}

// whole opens an archive that isn't split.
func (c *volCase) whole(b *sz.Built, d string, o *Out) error {
	o.class("whole")
	o.NonTrivial = true

	name := filepath.Join(d, c.Dir, c.Whole)
	stem := strings.TrimSuffix(name, filepath.Ext(name))

	for _, x := range []string{name, stem, strings.TrimSuffix(name, "001"), strings.TrimRight(name, "01.")} {
		for _, y := range []string{".001", ".002", ".003", "002", ".102", ".02", ".2", ".0002"} {
			if x+y != name && filepath.Base(x+y) != "." {
				mustWrite(x+y, []byte("not a part of it"))
			}
		}
	}

	mustWrite(name, b.Raw)

	name = written(d, name, c.Form)

	rc, err := sevenzip.OpenReaderWithPassword(name, c.Spec.Password)
	if err != nil {
		return fmt.Errorf("open %q: %w", c.Whole, err)
	}

	defer rc.Close()

	if got := rc.Volumes(); len(got) != 1 || filepath.Clean(got[0]) != filepath.Clean(name) {
		return fmt.Errorf("%q has volumes %q", c.Whole, got)
	}

	if err := checkList(rc.File, b.Files); err != nil {
		return fmt.Errorf("%q: %w", c.Whole, err)
	}

	if err := checkContents(rc.File, b.Files); err != nil {
		return fmt.Errorf("%q: %w", c.Whole, err)
	}

	return nil
}

func bucket(n int) string {
	switch {
	case n <= 3:
		return fmt.Sprint(n)
	case n <= 9:
		return "4-9"
	case n <= 99:
		return "10-99"
	case n <= 999:
		return "100-999"
	default:
		return ">=1000"
	}
}
