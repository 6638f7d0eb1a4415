package checks

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/bodgit/sevenzip"
	"pgregory.net/rapid"
	"verifharness/sz"
)

type fdCase struct {
	Spec *sz.Spec `json:"spec"`
	Cuts []int    `json:"cuts"`
	// Fail selects how opening is made to fail, 0 not at all.
	Fail   int    `json:"fail,omitempty"`
	At     uint64 `json:"at,omitempty"`
	Single bool   `json:"single,omitempty"` // not a volume name
	Reads  []int  `json:"reads,omitempty"`  // files to open, read partially and perhaps leave open
	Link   int    `json:"link,omitempty"`   // 0 none, 1 first volume is a symlink, 2 relative name, 3 unclean name
}

// elsewhere lists the descriptors of regular files outside dir.
func elsewhere(dir string) map[string]bool {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic("harness: " + err.Error())
	}

	out := map[string]bool{}

	for _, e := range es {
		t, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err != nil || !strings.HasPrefix(t, "/") || strings.HasPrefix(t, dir+"/") {
			continue
		}

		if fi, err := os.Stat("/proc/self/fd/" + e.Name()); err == nil && fi.Mode().IsRegular() {
			out[e.Name()+" "+t] = true
		}
	}

	return out
}

// openFiles lists the descriptors that point into dir.
func openFiles(dir string) []string {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic("harness: " + err.Error())
	}

	var out []string

	for _, e := range es {
		t, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.HasPrefix(t, dir+"/") {
			out = append(out, strings.TrimPrefix(t, dir+"/"))
		}
	}

	sort.Strings(out)

	return out
}

func snapshot(dir string) string {
	var sb strings.Builder

	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}

		fmt.Fprintf(&sb, "%s %v %d %d", strings.TrimPrefix(p, dir), fi.Mode(), fi.Size(), fi.ModTime().UnixNano())

		if fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}

			fmt.Fprintf(&sb, " %x", crc32of(b))
		}

		sb.WriteByte('\n')

		return nil
	})
	if err != nil {
		panic("harness: " + err.Error())
	}

	return sb.String()
}

func init() {
	register("C06", "an archive of 1-40, at times 300, volumes (or one plain file) in a scratch directory is opened by name, files are opened, read in part and sometimes left open, then it is closed; in two thirds of the cases opening is made to fail (damaged start header, header or packed header, truncation, wrong password, not an archive, a later volume that is a directory or a symlink loop). The process's open descriptors under the directory are compared with the volume list after every step, those of regular files elsewhere at the end with the ones before, and the directory's (also the one for temporary files) names, modes, sizes, times and content before and after; non-trivial = more than one volume or a failing open",
		func(t *rapid.T) *fdCase {
			g := def()
			g.maxFile = 300
			g.maxEntries = 4
			g.simpleMeta = true
			c := &fdCase{Spec: drawSpec(t, g)}

			n := drawInt(t, 0, 4, "cuts")
			if oneIn(t, 10, "many") {
				n = drawInt(t, 5, 40, "manycuts")

				if drawInt(t, 0, 19, "verymany") == 13 {
					n = drawInt(t, 41, 300, "verymanycuts")
				}
			}

			for range n {
				c.Cuts = append(c.Cuts, rapid.IntRange(0, 1000).Draw(t, "cut"))
			}

			c.Single = oneIn(t, 4, "single")

			if !oneIn(t, 3, "good") {
				c.Fail = drawInt(t, 1, 9, "fail")
			}

			c.At = drawSeed(t, "at")
			c.Link = drawInt(t, 0, 3, "link")

			for range drawInt(t, 0, 4, "reads") {
				c.Reads = append(c.Reads, drawInt(t, 0, 3, "file"))
			}

			return c
		},
		func(c *fdCase, o *Out) error {
			s := *c.Spec
			pw := s.Password

			if c.Fail == 5 {
				s.Layout.Header = &sz.Node{M: "aes", A: 3, IV: []byte{1, 2, 3}}
				s.Layout.HeaderCRC = true
			}

			b := sz.Build(&s)
			raw := append([]byte(nil), b.Raw...)
			r := sz.Rng(c.At)

			must := c.Fail != 0

			switch c.Fail {
			case 1:
				raw[b.Base+8+r.N(24)] ^= byte(1 + r.N(255))
			case 2:
				raw[b.HeadOff+r.N(b.HeadLen)] ^= byte(1 + r.N(255))
			case 3:
				raw = raw[:r.N(b.HeadOff+b.HeadLen)]
			case 4:
				for i := range raw[:min(len(raw), b.Base+6)] {
					if raw[i] == '7' {
						raw[i] = 0
					}
				}
			case 5:
				pw += "x"
			case 6:
				// damaged packed header: may or may not be noticed
				if b.Spec.Layout.Header != nil && b.EncHeader[1] > b.EncHeader[0] {
					raw[b.EncHeader[0]+r.N(b.EncHeader[1]-b.EncHeader[0])] ^= byte(1 + r.N(255))
				}

				must = false
			case 9:
				raw = nil
			}

			cuts := c.Cuts
			if c.Single {
				cuts = nil
			}

			vols := split(raw, cuts)
			d, done := caseDir()

			defer done()

			d, err := filepath.EvalSymlinks(d)
			if err != nil {
				panic("harness: " + err.Error())
			}

			name := filepath.Join(d, "sub", "a.7z")

			var want []string

			if c.Single {
				mustWrite(name, vols[0])

				want = append(want, "sub/a.7z")
			} else {
				for i, v := range vols {
					n := fmt.Sprintf("%s.%03d", name, i+1)
					if i == 0 && c.Link == 1 {
						mustWrite(filepath.Join(d, "other"), v)

						if err := os.MkdirAll(filepath.Dir(n), 0o755); err != nil {
							panic("harness: " + err.Error())
						}

						if err := os.Symlink(filepath.Join(d, "other"), n); err != nil {
							panic("harness: " + err.Error())
						}

						want = append(want, "other")
					} else {
						mustWrite(n, v)

						want = append(want, fmt.Sprintf("sub/a.7z.%03d", i+1))
					}
				}

				name += ".001"
			}

			switch c.Fail {
			case 7, 8:
				if c.Single {
					must = false

					break
				}

				k := r.N(len(vols)) + 2
				n := fmt.Sprintf("%s.%03d", strings.TrimSuffix(name, ".001"), k)

				_ = os.Remove(n)

				var err error

				if c.Fail == 7 {
					err = os.Symlink(filepath.Base(n), n)
				} else {
					err = os.Mkdir(n, 0o755)
					must = false // only an error when it has to be read
				}

				if err != nil {
					panic("harness: " + err.Error())
				}
			}

			sort.Strings(want)

			o.class("fail:%d", c.Fail)
			o.class("volumes:%s", bucket(len(want)))
			o.NonTrivial = len(want) > 1 || c.Fail != 0

			// Temporary files would be noticed, too
			tmp := filepath.Join(d, "tmp")
			if err := os.Mkdir(tmp, 0o700); err != nil {
				return herr("%v", err)
			}

			old, set := os.LookupEnv("TMPDIR")
			_ = os.Setenv("TMPDIR", tmp)

			defer func() {
				if set {
					_ = os.Setenv("TMPDIR", old)
				} else {
					_ = os.Unsetenv("TMPDIR")
				}
			}()

			others := elsewhere(d)
			before := snapshot(d)

			use := name
			if c.Link == 2 {
				wd, err := os.Getwd()
				if err != nil {
					panic("harness: " + err.Error())
				}

				if use, err = filepath.Rel(wd, name); err != nil {
					panic("harness: " + err.Error())
				}
			}

			if c.Link == 3 {
				use = filepath.Dir(name) + "/../sub/./" + filepath.Base(name)
			}

			if l := openFiles(d); len(l) != 0 {
				return herr("open files before the case: %v", l)
			}

			rc, err := sevenzip.OpenReaderWithPassword(use, pw)
			if err != nil {
				if c.Fail == 0 {
					return fmt.Errorf("open: %w", err)
				}

				if rc != nil {
					return fmt.Errorf("error and a reader: %w", err)
				}

				if l := openFiles(d); len(l) != 0 {
					return fmt.Errorf("opening failed (%v) and leaves %v open", err, l)
				}
			} else {
				if must {
					_ = rc.Close()

					return fmt.Errorf("open succeeds (case %d)", c.Fail)
				}

				if c.Fail != 8 {
					if l := openFiles(d); strings.Join(l, "|") != strings.Join(want, "|") {
						_ = rc.Close()

						return fmt.Errorf("open files are %v, want %v", l, want)
					}
				}

				var keep []io.Closer

				for i, k := range c.Reads {
					if len(rc.File) == 0 {
						break
					}

					f, err := rc.File[k%len(rc.File)].Open()
					if err != nil {
						if c.Fail == 0 {
							return fmt.Errorf("open file: %w", err)
						}

						continue
					}

					_, _ = f.Read(make([]byte, 1+i*17))

					if (i+k)%2 == 0 {
						_ = f.Close()
					} else {
						keep = append(keep, f)
					}
				}

				if c.Fail != 8 {
					if l := openFiles(d); strings.Join(l, "|") != strings.Join(want, "|") {
						_ = rc.Close()

						return fmt.Errorf("after reading open files are %v, want %v", l, want)
					}
				}

				if err := rc.Close(); err != nil {
					return fmt.Errorf("close: %w", err)
				}

				if l := openFiles(d); len(l) != 0 {
					return fmt.Errorf("after Close %v stay open", l)
				}

				for _, f := range keep {
					_ = f.Close()
				}
			}

			for l := range elsewhere(d) {
				if !others[l] {
					return fmt.Errorf("%s is open at the end", l)
				}
			}

			if after := snapshot(d); after != before {
				return fmt.Errorf("directory changed from\n%s\nto\n%s", before, after)
			}

			return nil
		})
}
