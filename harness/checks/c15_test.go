package checks

import (
	"fmt"
	"io/fs"
	"strings"

	"github.com/bodgit/sevenzip"
	"pgregory.net/rapid"
	"verifharness/sz"
)

type modeCase struct {
	Items []modeItem `json:"items"`
	Seed  uint64     `json:"seed"`
	More  int        `json:"more"` // further entries with attributes from Seed
}

type modeItem struct {
	Attr *uint32 `json:"attr,omitempty"`
	Name string  `json:"name"`
	Size int     `json:"size"`
	Dir  bool    `json:"dir,omitempty"` // stored as a directory
	M    *uint64 `json:"m,omitempty"`
}

// wantMode is written from the definition of the attribute bits: the upper
// half is a POSIX st_mode when its type is set, the lower half has the
// Windows attributes. What is stored as a directory is one also without
// attributes that say so.
func wantMode(attr uint32, dir bool) fs.FileMode {
	posix := attr >> 16
	if posix>>12 == 0 {
		m := fs.FileMode(0o666)
		if attr&0x10 != 0 || dir {
			m = fs.ModeDir | 0o777
		}

		if attr&1 != 0 {
			m &= ^fs.FileMode(0o222)
		}

		return m
	}

	m := fs.FileMode(0)

	for bit := range 9 {
		if posix>>uint(bit)&1 == 1 {
			m |= 1 << uint(bit)
		}
	}

	for k, v := range map[uint32]fs.FileMode{9: fs.ModeSticky, 10: fs.ModeSetgid, 11: fs.ModeSetuid} {
		if posix>>k&1 == 1 {
			m |= v
		}
	}

	return m | map[uint32]fs.FileMode{
		1: fs.ModeNamedPipe, 2: fs.ModeDevice | fs.ModeCharDevice, 4: fs.ModeDir, 6: fs.ModeDevice,
		8: 0, 10: fs.ModeSymlink, 12: fs.ModeSocket,
	}[posix>>12]
}

func drawAnyAttr(t *rapid.T) *uint32 {
	var v uint32

	switch drawInt(t, 0, 4, "attrkind") {
	case 0:
		return nil
	case 1:
		v = uint32(drawInt(t, 0, 15, "type"))<<28 | uint32(drawInt(t, 0, 0xfff, "perm"))<<16 | uint32(drawInt(t, 0, 0xffff, "win"))
	case 2:
		v = uint32(drawInt(t, 0, 0xfff, "perm"))<<16 | uint32(drawInt(t, 0, 0xffff, "win"))
	case 3:
		v = rapid.SampledFrom([]uint32{1, 2, 4, 6, 8, 10, 12}).Draw(t, "ptype")<<28 | uint32(drawInt(t, 0, 0xfff, "perm"))<<16 | 0x8000
	default:
		v = rapid.Uint32().Draw(t, "attr")
	}

	return &v
}

func init() {
	register("C15", "archives of up to 40 drawn and 0-400 seeded entries with attribute values over all 32 bits (every POSIX type code, all twelve permission bits, Windows bits with and without POSIX bits, absent), on files, empty files and directories, sizes 0-50, times and names with directories; Mode and every FileInfo (FileHeader.FileInfo, the opened file's Stat, and for non-directories fs.Stat and the directory entry) are compared with an independent reading of the bits; non-trivial = every case",
		func(t *rapid.T) *modeCase {
			c := &modeCase{Seed: drawSeed(t, "seed"), More: rapid.SampledFrom([]int{0, 40, 400}).Draw(t, "more")}

			for i := range drawInt(t, 1, 40, "items") {
				n := fmt.Sprintf("f%d", i)

				switch drawInt(t, 0, 4, "namekind") {
				case 0:
					n = fmt.Sprintf("d%d/f%d", i, i)
				case 1:
					n = fmt.Sprintf("d%d/e/f %d.x", i, i)
				case 2:
					n = fmt.Sprintf("d%d\\g%d", i, i)
				case 3:
					n = fmt.Sprintf("日%d/é", i)
				}

				size := 0
				if drawBool(t, "data") {
					size = drawInt(t, 1, 50, "size")
				}

				c.Items = append(c.Items, modeItem{Attr: drawAnyAttr(t), Name: n, Size: size, M: drawTime(t, "mtime"), Dir: size == 0 && oneIn(t, 3, "dir")})
			}

			return c
		},
		runMode)
}

func runMode(c *modeCase, o *Out) error {
	s := &sz.Spec{Layout: sz.Layout{Minor: 4}}
	items := append([]modeItem(nil), c.Items...)
	rng := sz.Rng(c.Seed)

	for i := range c.More {
		v := uint32(rng.U64())
		if rng.N(3) == 0 {
			v &= 0x0fffffff
		}

		items = append(items, modeItem{Attr: &v, Name: fmt.Sprintf("m%d", i), Size: rng.N(2) * rng.N(9)})
	}

	n := 0

	for _, x := range items {
		e := sz.Entry{Kind: sz.EEmpty, Name: x.Name, Attr: x.Attr, M: x.M}
		if x.Dir {
			e.Kind = sz.EDir
		}

		if x.Size > 0 {
			e.Kind = sz.EData
			e.Data = sz.Data{S: uint64(n), N: x.Size}
			n++
		}

		s.Entries = append(s.Entries, e)
	}

	if n > 0 {
		s.Folders = []sz.Folder{{Root: &sz.Node{M: "copy"}, N: n}}
	}

	o.NonTrivial = true
	o.Evals = len(items)

	r, err := open(sz.Build(s).Raw, "")
	if err != nil {
		return fmt.Errorf("open archive: %w", err)
	}

	if len(r.File) != len(items) {
		return fmt.Errorf("%d files listed, want %d", len(r.File), len(items))
	}

	for i, f := range r.File {
		if err := checkMode(r, f, &items[i], o); err != nil {
			return fmt.Errorf("file %d %q attributes %#x: %w", i, f.Name, f.Attributes, err)
		}
	}

	return nil
}

func checkMode(r *sevenzip.Reader, f *sevenzip.File, x *modeItem, o *Out) error {
	var attr uint32
	if x.Attr != nil {
		attr = *x.Attr
	}

	want := wantMode(attr, x.Dir)
	o.class("type:%v", want.Type())

	if f.Attributes != attr {
		return fmt.Errorf("recorded as %#x", attr)
	}

	if m := f.Mode(); m != want {
		return fmt.Errorf("Mode %v (%#x), want %v (%#x)", m, uint32(m), want, uint32(want))
	}

	name := x.Name
	if want.IsDir() {
		name += "/"
	}

	if f.Name != name {
		return fmt.Errorf("name %q, want %q", f.Name, name)
	}

	p := cleanName(x.Name)
	base := p[strings.LastIndexByte(p, '/')+1:]

	var mt = f.Modified

	if x.M != nil && !mt.Equal(sz.FTime(*x.M)) || x.M == nil && !mt.IsZero() {
		return fmt.Errorf("Modified %v", mt)
	}

	same := func(what string, fi fs.FileInfo, err error) error {
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}

		if fi.Name() != base || fi.Mode() != want || fi.IsDir() != want.IsDir() || fi.Size() != int64(x.Size) || !fi.ModTime().Equal(mt) || fi.ModTime().IsZero() != mt.IsZero() {
			return fmt.Errorf("%s: name %q mode %v dir %v size %d time %v, want %q %v %v %d %v", what, fi.Name(), fi.Mode(), fi.IsDir(), fi.Size(), fi.ModTime(), base, want, want.IsDir(), x.Size, mt)
		}

		return nil
	}

	if err := same("FileInfo", f.FileInfo(), nil); err != nil {
		return err
	}

	rc, err := f.Open()
	if err != nil {
		return fmt.Errorf("open: %w", err)
	}

	defer func() { _ = rc.Close() }()

	st, ok := rc.(fs.File)
	if !ok {
		return fmt.Errorf("opened file has no Stat")
	}

	fi, err := st.Stat()
	if err := same("Stat of the opened file", fi, err); err != nil {
		return err
	}

	fi, err = fs.Stat(r, p)
	if want.IsDir() {
		// The file system gives directories a fixed mode.
		if err != nil || !fi.IsDir() || fi.Name() != base || !fi.ModTime().Equal(mt) {
			return fmt.Errorf("directory in the file system: %v, %v", fi, err) //nolint:errorlint
		}

		return nil
	}

	if err := same("fs.Stat", fi, err); err != nil {
		return err
	}

	ff, err := r.Open(p)
	if err != nil {
		return fmt.Errorf("open by path: %w", err)
	}

	fi, err = ff.Stat()
	if err := same("Stat by path", fi, err); err != nil {
		return err
	}

	if err := ff.Close(); err != nil {
		return fmt.Errorf("close: %w", err)
	}

	dir := "."
	if i := strings.LastIndexByte(p, '/'); i >= 0 {
		dir = p[:i]
	}

	if dir == "." && len(r.File) > 60 {
		return nil // large directories are not listed for every file
	}

	es, err := fs.ReadDir(r, dir)
	if err != nil {
		return fmt.Errorf("ReadDir: %w", err)
	}

	for _, e := range es {
		if e.Name() != base {
			continue
		}

		if e.Type() != want.Type() || e.IsDir() {
			return fmt.Errorf("directory entry has type %v, want %v", e.Type(), want.Type())
		}

		fi, err := e.Info()

		return same("directory entry", fi, err)
	}

	return fmt.Errorf("not listed in %q", dir)
}
