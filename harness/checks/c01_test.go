package checks

import (
	"os"
	"path/filepath"
	"runtime/debug"
	"syscall"

	"pgregory.net/rapid"
	"verifharness/sz"
)

type specCase struct {
	Spec *sz.Spec `json:"spec"`
	More *sz.More `json:"more,omitempty"`
}

func init() {
	register("C01", "an archive is generated (1-12 entries, 1-4 streams, coder trees up to depth 3 over all 17 methods with random parameters; one in 80 has files of 0.2-2.5 MB with windows and blocks of any size, some have up to 1500 entries more), encoded by independent encoders, opened and every file read to EOF; non-trivial = at least one file with content was compared byte by byte",
		func(t *rapid.T) *specCase {
			g := def()
			g.maxFile = rapid.SampledFrom([]int{60, 600, 5000, 5000, 70000, 200000}).Draw(t, "maxfile")
			g.simpleMeta = true

			if g.maxFile > 6000 {
				g.maxEntries = 3
			} else {
				g.maxEntries = 12
			}

			large := oneIn(t, 80, "large")
			if large {
				g.maxEntries, g.oneFolder = 2, true
				g.methods = append([]string{"lzma", "lzma2", "bzip2", "ppmd", "zstd", "brotli", "deflate", "lz4"}, sz.Methods...)
			}

			s := drawSpec(t, g)

			if large {
				// More than windows, blocks and frames hold.
				for i := range s.Entries {
					if e := &s.Entries[i]; e.Kind == sz.EData {
						e.Data.N = drawInt(t, 200000, 2500000, "largelen")
						e.Data.K = rapid.SampledFrom([]int{sz.KFar, sz.KFar, sz.KText, sz.KMixed, sz.KRandom, sz.KRuns, sz.KX86}).Draw(t, "largekind")
					}
				}

				for _, f := range s.Folders {
					f.Root.Walk(func(n *sz.Node) {
						switch n.M {
						case "lzma":
							n.D = rapid.SampledFrom([]int{1 << 12, 1 << 16, 1 << 20, 1 << 22}).Draw(t, "largedict")
						case "lzma2":
							n.D = drawInt(t, 0, 20, "largedict2")
						case "ppmd":
							n.D = 1 << drawInt(t, 11, 22, "largemem")
						case "bzip2":
							n.D = 1 << 20
						}
					})
				}
			}

			// The ends of a range are drawn more often than the rest.
			if drawInt(t, 0, 99, "wide") == 66 {
				wide := drawInt(t, 21, 27, "bits")
				// That much memory only for one case at a time.
				if drawInt(t, 0, 5, "widest") == 3 {
					wide = drawInt(t, 28, 32, "mostbits")
				}

				for _, f := range s.Folders {
					f.Root.Walk(func(n *sz.Node) {
						if n.Wide = wide; n.M == "zstd" {
							n.Wide = min(wide, 29)
						}
					})
				}
			}

			c := &specCase{Spec: s}

			// As many coders as the reference implementation takes
			if len(s.Folders) > 0 && !large && drawInt(t, 0, 99, "long") == 66 {
				f := &s.Folders[drawInt(t, 0, len(s.Folders)-1, "longfolder")]
				have := 0
				f.Root.Walk(func(*sz.Node) { have++ })

				for range drawInt(t, 1, max(1, 32-have), "longby") {
					n := &sz.Node{M: rapid.SampledFrom([]string{"copy", "delta", "bcj", "arm", "arm64", "ppc", "sparc"}).Draw(t, "longmethod"), In: []*sz.Node{f.Root}}
					drawParams(t, n)
					f.Root = n
				}
			}

			if !large && drawInt(t, 0, 199, "more") == 66 {
				c.More = drawMore(t, 1500)
			}

			return c
		},
		func(c *specCase, o *Out) error {
			if c.More != nil {
				o.class("many")

				c = &specCase{Spec: c.Spec.Expand(c.More)}
			}

			for _, f := range c.Spec.Folders {
				n := 0
				f.Root.Walk(func(*sz.Node) { n++ })

				if n > 9 {
					o.class("coders>9")
				}
			}

			wide := 0
			for _, f := range c.Spec.Folders {
				f.Root.Walk(func(n *sz.Node) { wide = max(wide, n.Wide) })
			}

			if wide > 0 {
				o.class("wide")
			}

			if wide > 27 {
				o.class("widest")

				defer oneAtATime("wide")()
				defer debug.FreeOSMemory()
			}

			b := sz.Build(c.Spec)
			specClasses(c.Spec, o)

			for _, f := range b.Files {
				if f.Size > 1<<20 {
					o.class("file over 1 MiB")
				}

				if f.Size > 0 {
					o.NonTrivial = true
				}
			}

			return checkArchive(b.Raw, c.Spec.Password, b.Files)
		})
}

// oneAtATime waits until no other worker of the check does the same.
func oneAtATime(what string) func() {
	dir := os.Getenv("HV_DIR")
	if dir == "" {
		return func() {}
	}

	f, err := os.OpenFile(filepath.Join(filepath.Dir(dir), what+".lock"), os.O_CREATE|os.O_RDWR, 0o600)
	if err != nil {
		panic("harness: " + err.Error())
	}

	if err := syscall.Flock(int(f.Fd()), syscall.LOCK_EX); err != nil {
		panic("harness: " + err.Error())
	}

	return func() { _ = f.Close() }
}
