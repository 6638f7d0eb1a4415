package checks

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"sort"
	"strings"
	"testing/fstest"
	"time"

	"github.com/bodgit/sevenzip"
	"pgregory.net/rapid"
	"verifharness/sz"
)

type treeCase struct {
	Spec  *sz.Spec `json:"spec"`
	Valid bool     `json:"valid,omitempty"` // distinct valid paths
	Look  []string `json:"look,omitempty"`  // paths to look up
	Pages []int    `json:"pages,omitempty"`
	Full  bool     `json:"full,omitempty"` // run testing/fstest as well
	Deep  int      `json:"deep,omitempty"` // levels above the first entry
	Wide  int      `json:"wide,omitempty"` // further entries in one directory
	Dirs  int      `json:"dirs,omitempty"` // further entries each in its own directory
}

// grown is the case with its further levels and entries written out.
func (c *treeCase) grown() *treeCase {
	s := *c.Spec
	s.Entries = append([]sz.Entry(nil), s.Entries...)

	if c.Deep > 0 && len(s.Entries) > 0 {
		s.Entries[0].Name = strings.Repeat("p/", c.Deep) + s.Entries[0].Name
	}

	for i := range c.Wide {
		s.Entries = append(s.Entries, sz.Entry{Kind: sz.EEmpty, Name: fmt.Sprintf("w/%d", (i*7919)%100003)})
	}

	for i := range c.Dirs {
		s.Entries = append(s.Entries, sz.Entry{Kind: sz.EEmpty, Name: fmt.Sprintf("v%d/e", (i*7919)%100003)})
	}

	cc := *c
	cc.Spec = &s

	return &cc
}

// node is what a path of the file system has to be.
type fsNode struct {
	dir     bool
	entries []int // indices of entries with that path
	dup     bool
	kids    map[string]bool
}

// cleanName is the path of an entry: an independent statement of what the
// library does with odd names.
func cleanName(name string) string {
	var st []string

	for _, e := range strings.FieldsFunc(name, func(r rune) bool { return r == '/' || r == '\\' }) {
		switch e {
		case ".":
		case "..":
			if len(st) > 0 {
				st = st[:len(st)-1]
			}
		default:
			st = append(st, e)
		}
	}

	return strings.Join(st, "/")
}

func fsModel(files []sz.Expect) (map[string]*fsNode, bool) {
	m := map[string]*fsNode{".": {dir: true, kids: map[string]bool{}}}
	dups := false

	for i, f := range files {
		p := cleanName(f.Name)
		if p == "" {
			continue
		}

		n := m[p]
		if n == nil {
			n = &fsNode{dir: strings.HasSuffix(f.Name, "/"), kids: map[string]bool{}}
			m[p] = n
		} else if len(n.entries) > 0 || n.dir != strings.HasSuffix(f.Name, "/") {
			n.dup, dups = true, true
		}

		n.entries = append(n.entries, i)

		for {
			j := strings.LastIndexByte(p, '/')
			parent, elem := ".", p[j+1:]

			if j >= 0 {
				parent = p[:j]
			}

			d := m[parent]
			if d == nil {
				d = &fsNode{dir: true, kids: map[string]bool{}}
				m[parent] = d
			} else if !d.dir {
				d.dup, dups = true, true
			}

			d.kids[elem] = true

			if j < 0 {
				break
			}

			p = parent
		}
	}

	return m, dups
}

var treeElems = []string{"a", "b", "c", "d0", "e.txt", "a.b", "a-b", "a b", "A", "日本", "é", "\U0001f600", "x", "...", "a..", "..a", ".h", "a\x01", "B", "-", "z"}

var oddNames = []string{"", ".", "..", "/", "//", "./", "../", "/.", "/..", "a/", "a//", "/a", "//a", "a/.", "a/..", "a/../b", "../a", "../../a", "a/../../b", `a\b`, `\a`, `..\a`, `a\`, `\\srv\x`, `C:\x`, "C:/x", "a/./b", "a//b", "./a", "a/b/../c", "...", "a/...", " ", "a/ ", "a/b", "a/b/", "a/b/c", "b", "..a", "a..", "../", "..\\..", "/a/b", "a/../..", "../..", "dir/../../../etc/passwd"}

func drawTreePath(t *rapid.T) string {
	n := drawInt(t, 1, 4, "depth")
	p := make([]string, n)

	for i := range p {
		p[i] = rapid.SampledFrom(treeElems).Draw(t, "elem")
	}

	return strings.Join(p, "/")
}

func drawOddName(t *rapid.T) string {
	switch drawInt(t, 0, 3, "odd") {
	case 0:
		return rapid.SampledFrom(oddNames).Draw(t, "oddname")
	case 1:
		return drawTreePath(t)
	case 2:
		return rapid.StringOfN(rapid.SampledFrom([]rune{'a', 'b', '/', '/', '\\', '.', '.', 1, ' ', 0xfffd}), 0, 10, -1).Draw(t, "str")
	default:
		var sb strings.Builder
		for range drawInt(t, 1, 6, "parts") {
			sb.WriteString(rapid.SampledFrom([]string{"a", "b", "..", ".", "/", "\\", "", "c/", "../"}).Draw(t, "part"))
			sb.WriteString(rapid.SampledFrom([]string{"/", "/", "\\", ""}).Draw(t, "sep"))
		}

		return sb.String()
	}
}

func init() {
	register("C14", "part one: archives with 1-24 entries at distinct valid paths up to 4 levels deep (files, empty files, explicit and implied directories, at times up to 300 levels deeper, 1500 entries in one directory or 600 directories, names sorting around each other's separators) compared with a tree model through WalkDir, Stat, ReadFile, ReadDir in drawn page sizes, lookups of existing, missing and invalid paths, and testing/fstest; part two: the same with names drawn from dot-dot, absolute, backslash, empty, duplicate and trailing-slash forms, compared with an independent path normaliser; non-trivial = at least two entries and a directory or an odd name",
		func(t *rapid.T) *treeCase {
			c := &treeCase{Spec: &sz.Spec{}, Valid: drawBool(t, "valid")}
			used := map[string]bool{}
			isDir := map[string]bool{}

			for range drawInt(t, 1, rapid.SampledFrom([]int{3, 8, 24}).Draw(t, "max"), "entries") {
				e := sz.Entry{Kind: rapid.SampledFrom([]int{sz.EData, sz.EData, sz.EEmpty, sz.EDir}).Draw(t, "kind")}

				if c.Valid {
					e.Name = drawTreePath(t)

					if used[e.Name] || e.Kind != sz.EDir && isDir[e.Name] {
						continue
					}

					ok := true

					for p := e.Name; ; {
						i := strings.LastIndexByte(p, '/')
						if i < 0 {
							break
						}

						p = p[:i]
						// a file there?
						if used[p] && !isDir[p] {
							ok = false
						}
					}

					if !ok {
						continue
					}

					used[e.Name] = true
					if e.Kind == sz.EDir {
						isDir[e.Name] = true
					}

					for p := e.Name; ; {
						i := strings.LastIndexByte(p, '/')
						if i < 0 {
							break
						}

						p = p[:i]
						isDir[p] = true
					}
				} else {
					e.Name = drawOddName(t)
				}

				if e.Kind == sz.EData {
					e.Data = drawData(t, 1, 400, "data")
				}

				e.C, e.A, e.M = drawTime(t, "ctime"), drawTime(t, "atime"), drawTime(t, "mtime")

				if e.Kind == sz.EDir {
					e.Attr = drawAttr(t, true)
				} else if drawBool(t, "attr") {
					v := rapid.SampledFrom([]uint32{0x20, 0x21, 0x80, 0x81a48000, 0x81ed8020, 0x89ed8020, 0x80008000}).Draw(t, "attrv")
					e.Attr = &v
				}

				c.Spec.Entries = append(c.Spec.Entries, e)
			}

			// An entry stored as a file whose path ends in a slash stays so.
			n := 0
			for _, e := range c.Spec.Entries {
				if e.Kind == sz.EData {
					n++
				}
			}

			for n > 0 {
				f := sz.Folder{Root: &sz.Node{M: rapid.SampledFrom([]string{"copy", "deflate", "lzma2"}).Draw(t, "method"), A: 3}, N: drawInt(t, 1, n, "files")}
				n -= f.N
				c.Spec.Folders = append(c.Spec.Folders, f)
			}

			c.Spec.Layout.Minor = 4
			c.Look = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string {
				if drawBool(t, "treepath") {
					return drawTreePath(t)
				}

				return drawOddName(t)
			}), 0, 6).Draw(t, "look")
			c.Pages = rapid.SliceOfN(rapid.IntRange(1, 5), 1, 4).Draw(t, "pages")
			c.Full = c.Valid && oneIn(t, 3, "fstest")

			switch drawInt(t, 0, 59, "grow") {
			case 33:
				c.Deep = drawInt(t, 10, 300, "deep")
			case 34:
				c.Wide = drawInt(t, 30, 1500, "wide")
			case 35:
				c.Dirs = drawInt(t, 30, 600, "dirs")
			}

			return c
		},
		runTree)
}

func runTree(c *treeCase, o *Out) error {
	if c.Deep+c.Wide+c.Dirs > 0 {
		o.class("grown: deep:%v wide:%v dirs:%v", c.Deep > 0, c.Wide > 0, c.Dirs > 0)

		c = c.grown()
		c.Full = c.Full && c.Deep < 60 && c.Wide+c.Dirs < 200
	}

	b := sz.Build(c.Spec)

	r, err := open(b.Raw, "")
	if err != nil {
		return fmt.Errorf("open archive: %w", err)
	}

	if err := checkList(r.File, b.Files); err != nil {
		return err
	}

	m, dups := fsModel(b.Files)
	if c.Valid && dups {
		return herr("duplicates in a valid tree")
	}

	dirs := 0

	for _, n := range m {
		if n.dir {
			dirs++
		}
	}

	o.NonTrivial = len(c.Spec.Entries) > 1 && (dirs > 1 || !c.Valid)
	o.class("valid:%v", c.Valid)
	o.class("duplicates:%v", dups)
	o.class("dirs:%s", bucket(dirs))
	o.class("entries:%s", bucket(len(c.Spec.Entries)))

	if err := checkTree(r, b.Files, m, dups, c.Pages); err != nil {
		return err
	}

	// Lookups.
	look := append([]string{"", "\x00", "a\x00b", "\xff", "a/\xff/b"}, c.Look...)

	for p := range m {
		look = append(look, p+"x", p+"/x", p+"/", "/"+p, "./"+p, p+"/.", p+"/..", "x/"+p, strings.TrimSuffix(p, p[len(p)-1:]))
	}

	sort.Strings(look)

	for _, p := range look {
		f, err := r.Open(p)

		n := m[p]
		if err == nil {
			_ = f.Close()

			if n == nil {
				return fmt.Errorf("Open(%q) succeeds, there is no such path", p)
			}

			continue
		}

		var pe *fs.PathError

		switch {
		case !fs.ValidPath(p):
			if !errors.Is(err, fs.ErrInvalid) || !errors.As(err, &pe) {
				return fmt.Errorf("Open(%q): %w, want a PathError with ErrInvalid", p, err)
			}
		case n == nil:
			if !errors.Is(err, fs.ErrNotExist) || !errors.As(err, &pe) {
				return fmt.Errorf("Open(%q): %w, want a PathError with ErrNotExist", p, err)
			}
		default:
			return fmt.Errorf("Open(%q): %w", p, err)
		}
	}

	if c.Full {
		var names []string
		for p := range m {
			if p != "." {
				names = append(names, p)
			}
		}

		if err := fstest.TestFS(r, names...); err != nil {
			return fmt.Errorf("fstest: %w", err)
		}

		o.class("fstest")
	}

	// Using the file system leaves everything else as it was.
	if err := checkList(r.File, b.Files); err != nil {
		return err
	}

	return checkContents(r.File, b.Files)
}

func checkTree(r *sevenzip.Reader, files []sz.Expect, m map[string]*fsNode, dups bool, pages []int) error {
	seen := map[string]bool{}
	last := ""

	err := fs.WalkDir(r, ".", func(p string, d fs.DirEntry, err error) error {
		if len(seen) > len(m) {
			return errors.New("does not end")
		}

		if err != nil {
			if dups {
				return nil
			}

			return fmt.Errorf("%q: %w", p, err)
		}

		if seen[p] {
			return fmt.Errorf("%q is visited twice", p)
		}

		seen[p] = true

		if !fs.ValidPath(p) {
			return fmt.Errorf("invalid path %q", p)
		}

		n := m[p]
		if n == nil {
			return fmt.Errorf("unexpected path %q", p)
		}

		if p != "." && !lexBefore(last, p) {
			return fmt.Errorf("%q after %q", p, last)
		}

		if p != "." {
			last = p
		}

		if n.dup {
			return fmt.Errorf("%q is listed although it is ambiguous", p)
		}

		return checkNode(r, files, m, p, n, d, pages)
	})
	if err != nil {
		return fmt.Errorf("walk: %w", err)
	}

	if !dups && len(seen) != len(m) {
		for p := range m {
			if !seen[p] {
				return fmt.Errorf("walk misses %q", p)
			}
		}
	}

	// What the walk cannot reach can still be looked up.
	for p, n := range m {
		if !n.dup {
			if err := checkNode(r, files, m, p, n, nil, pages); err != nil {
				return err
			}

			continue
		}

		f, err := r.Open(p)
		if err != nil {
			continue
		}

		data, err := readAll(f, 1<<20)
		_ = f.Close()

		if err != nil {
			continue // a directory
		}

		ok := false
		for _, i := range n.entries {
			ok = ok || string(data) == string(files[i].Data)
		}

		if !ok {
			return fmt.Errorf("%q has content of none of its entries", p)
		}
	}

	return nil
}

// lexBefore orders paths element by element as a walk does.
func lexBefore(a, b string) bool {
	x, y := strings.Split(a, "/"), strings.Split(b, "/")
	for i := range min(len(x), len(y)) {
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}

	return len(x) < len(y)
}

func checkNode(r *sevenzip.Reader, files []sz.Expect, m map[string]*fsNode, p string, n *fsNode, d fs.DirEntry, pages []int) error {
	st, err := fs.Stat(r, p)
	if err != nil {
		return fmt.Errorf("Stat(%q): %w", p, err)
	}

	base := p[strings.LastIndexByte(p, '/')+1:]

	infos := []fs.FileInfo{st}

	if d != nil {
		i, err := d.Info()
		if err != nil {
			return fmt.Errorf("%q: Info: %w", p, err)
		}

		infos = append(infos, i)

		if d.Name() != base || d.IsDir() != n.dir || d.Type() != i.Mode().Type() {
			return fmt.Errorf("%q: directory entry %q %v %v, info has mode %v", p, d.Name(), d.IsDir(), d.Type(), i.Mode())
		}
	}

	var mtime time.Time

	size := int64(0)
	if len(n.entries) > 0 {
		mtime = files[n.entries[0]].M
		size = int64(len(files[n.entries[0]].Data))
	}

	for _, i := range infos {
		if i.Name() != base || i.IsDir() != n.dir || i.Mode().IsDir() != n.dir || i.Size() != size && !n.dir || !i.ModTime().Equal(mtime) {
			return fmt.Errorf("%q: info %q dir %v mode %v size %d time %v, want dir %v size %d time %v", p, i.Name(), i.IsDir(), i.Mode(), i.Size(), i.ModTime(), n.dir, size, mtime)
		}

		if !n.dir && i.Mode() != r.File[n.entries[0]].Mode() {
			return fmt.Errorf("%q: mode %v, listing has %v", p, i.Mode(), r.File[n.entries[0]].Mode())
		}
	}

	if !n.dir {
		data, err := fs.ReadFile(r, p)
		if err != nil {
			return fmt.Errorf("ReadFile(%q): %w", p, err)
		}

		if err := sameBytes(data, files[n.entries[0]].Data); err != nil {
			return fmt.Errorf("%q: %w", p, err)
		}

		if _, err := fs.ReadDir(r, p); err == nil {
			return fmt.Errorf("ReadDir of the file %q succeeds", p)
		}

		return nil
	}

	// Every listed name is a child; in pages as at once.
	want := make([]string, 0, len(n.kids))
	amb := false

	for k := range n.kids {
		want = append(want, k)
		q := k

		if p != "." {
			q = p + "/" + k
		}

		amb = amb || m[q].dup
	}

	sort.Strings(want)

	all, err := fs.ReadDir(r, p)
	if amb {
		if err == nil {
			return fmt.Errorf("ReadDir(%q) succeeds although it holds ambiguous entries", p)
		}

		return nil
	}

	if err != nil {
		return fmt.Errorf("ReadDir(%q): %w", p, err)
	}

	var got []string
	for _, e := range all {
		got = append(got, e.Name())
	}

	if strings.Join(got, "\x00/") != strings.Join(want, "\x00/") {
		return fmt.Errorf("ReadDir(%q) lists %q, want %q", p, got, want)
	}

	f, err := r.Open(p)
	if err != nil {
		return fmt.Errorf("Open(%q): %w", p, err)
	}

	defer func() { _ = f.Close() }()

	if k, err := f.Read(make([]byte, 4)); err == nil || k != 0 {
		return fmt.Errorf("reading the directory %q gives %d, %v", p, k, err) //nolint:errorlint
	}

	df, ok := f.(fs.ReadDirFile)
	if !ok {
		return fmt.Errorf("directory %q is not a ReadDirFile", p)
	}

	got = nil

	for i := 0; ; i++ {
		k := pages[i%len(pages)]
		es, err := df.ReadDir(k)

		for _, e := range es {
			got = append(got, e.Name())
		}

		if err == io.EOF { //nolint:errorlint
			if len(es) != 0 {
				return fmt.Errorf("%q: entries with io.EOF", p)
			}

			break
		}

		if err != nil || len(es) == 0 || len(es) > k {
			return fmt.Errorf("%q: ReadDir(%d) gives %d entries, %v", p, k, len(es), err) //nolint:errorlint
		}

		if i > len(want)+2 {
			return fmt.Errorf("%q: ReadDir does not end", p)
		}
	}

	if strings.Join(got, "\x00/") != strings.Join(want, "\x00/") {
		return fmt.Errorf("ReadDir(%q) in pages lists %q, want %q", p, got, want)
	}

	if es, err := df.ReadDir(-1); len(es) != 0 || err != nil {
		return fmt.Errorf("%q: ReadDir(-1) at the end gives %d entries, %v", p, len(es), err) //nolint:errorlint
	}

	return nil
}
