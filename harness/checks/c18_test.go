package checks

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"

	"github.com/bodgit/sevenzip"
	"pgregory.net/rapid"
	"verifharness/enc"
	"verifharness/sz"
)

type hintCase struct {
	Spec *sz.Spec `json:"spec"`
	Pw   string   `json:"pw"`
	None bool     `json:"none,omitempty"` // open without a password
	Flip []burst  `json:"flip,omitempty"` // damage of packed data
	Head []burst  `json:"head,omitempty"` // damage of an encoded header's packed data
	Via  int      `json:"via,omitempty"`  // 0 reader, 1 file, 2 volumes
	Ops  []hintOp `json:"ops"`
}

type hintOp struct {
	F    int `json:"f"`
	Mode int `json:"mode,omitempty"` // 0 all, 1 a part, 2 through fs.FS
	N    int `json:"n,omitempty"`
}

func addAES(t *rapid.T, n *sz.Node) *sz.Node {
	a := &sz.Node{M: "aes"}
	drawParams(t, a)

	if a.A != 0x3f {
		a.A = min(a.A, 9)
	}

	switch {
	case n == nil:
		return a
	case oneIn(t, 4, "aesoutside"):
		a.In = []*sz.Node{n}

		return a
	default:
		p := n
		for {
			if len(p.In) == 0 {
				if p.M == "bcj2" {
					p.In = make([]*sz.Node, 4)
				} else {
					p.In = make([]*sz.Node, 1)
				}
			}

			k := 0
			if p.M == "bcj2" {
				k = drawInt(t, 0, 3, "aesbranch")
			}

			if p.In[k] == nil {
				p.In[k] = a

				return n
			}

			p = p.In[k]
		}
	}
}

func init() {
	register("C18", "archives that mix encrypted and plain streams under a plain, compressed or encrypted header (with or without digest), opened with a wrong, an empty or no password by reader, by name or as volumes, some with damaged packed data; a history of whole and partial reads in any order, also through fs.FS; every error must be a *ReadError with Encrypted set for an encrypted stream or header whose key differs, and no *ReadError for a stream or header without encryption may have it; plain headers list exactly, plain intact files read exactly; non-trivial = an error was seen that the hint is decided for",
		func(t *rapid.T) *hintCase {
			g := def()
			g.maxEntries = 6
			g.maxFile = rapid.SampledFrom([]int{40, 600, 3000}).Draw(t, "maxfile")
			g.aes, g.encHeader = false, false
			g.simpleMeta = drawBool(t, "simple")

			c := &hintCase{Spec: drawSpec(t, g)}
			s := c.Spec

			for i := range s.Folders {
				if drawInt(t, 0, 2, "encrypt") > 0 {
					s.Folders[i].Root = addAES(t, s.Folders[i].Root)
				}
			}

			switch drawInt(t, 0, 3, "headerkind") {
			case 1:
				gg := g
				gg.methods = without(sz.Methods, "bcj2")
				s.Layout.Header = drawNode(t, gg, 1)
			case 2, 3:
				gg := g
				gg.methods = without(sz.Methods, "bcj2")

				var n *sz.Node
				if drawBool(t, "headermethod") {
					n = drawNode(t, gg, 1)
				}

				s.Layout.Header = addAES(t, n)
			}

			s.Password = drawPassword(t)
			c.Pw = rapid.OneOf(rapid.Just(""), rapid.SampledFrom(passwords), rapid.Just(s.Password+"x"), rapid.Just(s.Password)).Draw(t, "pw")
			c.None = c.Pw == "" && drawBool(t, "none")

			drawBursts := func(l string) (out []burst) {
				for range drawInt(t, 1, 3, l) {
					out = append(out, burst{Area: drawInt(t, 0, 3, l+"area"), Pos: drawInt(t, 0, 1<<20, l+"at"), Pat: 1 | rapid.Uint32().Draw(t, l+"pat")})
				}

				return out
			}

			if oneIn(t, 3, "flip") {
				c.Flip = drawBursts("flips")
			}

			if s.Layout.Header != nil && oneIn(t, 5, "fliphead") {
				c.Head = drawBursts("headflips")
			}

			if oneIn(t, 10, "via") {
				c.Via = drawInt(t, 1, 2, "viakind")
			}

			for range drawInt(t, 1, 8, "ops") {
				c.Ops = append(c.Ops, hintOp{F: drawInt(t, 0, 7, "f"), Mode: drawInt(t, 0, 2, "mode"), N: drawInt(t, 1, 100, "n")})
			}

			return c
		},
		runHint)
}

// differs tells whether some coder of the tree gets another key.
func differs(root *sz.Node, a, b string) (aes, other bool) {
	root.Walk(func(n *sz.Node) {
		if n.M == "aes" {
			aes = true
			other = other || string(enc.AESKey(a, n.A, n.Salt)) != string(enc.AESKey(b, n.A, n.Salt))
		}
	})

	return aes, other
}

func runHint(c *hintCase, o *Out) error {
	b := sz.Build(c.Spec)
	raw := append([]byte(nil), b.Raw...)
	damaged := map[int]bool{}

	if n := len(b.FolderPack); n > 0 && len(c.Flip) > 0 {
		for _, x := range c.Flip {
			k := x.Area % n
			if r := b.FolderPack[k]; r[1] > r[0] {
				flip(raw, r[0], r[1], at((r[1]-r[0])*8, x.Pos), x.Pat)

				damaged[k] = true
			}
		}
	}

	headDamaged := false

	for _, x := range c.Head {
		if r := b.EncHeader; r[1] > r[0] {
			flip(raw, r[0], r[1], at((r[1]-r[0])*8, x.Pos), x.Pat)

			headDamaged = true
		}
	}

	// The same bits may have been flipped back.
	if string(raw) == string(b.Raw) {
		damaged, headDamaged = map[int]bool{}, false
	}

	var (
		r   *sevenzip.Reader
		err error
	)

	switch {
	case c.Via > 0:
		dir, done := caseDir()
		defer done()

		name := filepath.Join(dir, "a.7z")
		if c.Via == 2 {
			name = filepath.Join(dir, "a.7z.001")
			mustWrite(name, raw[:len(raw)/2])
			mustWrite(filepath.Join(dir, "a.7z.002"), raw[len(raw)/2:])
		} else {
			mustWrite(name, raw)
		}

		var rc *sevenzip.ReadCloser

		if c.None {
			rc, err = sevenzip.OpenReader(name)
		} else {
			rc, err = sevenzip.OpenReaderWithPassword(name, c.Pw)
		}

		if err == nil {
			defer rc.Close()

			r = &rc.Reader
		}
	case c.None:
		r, err = sevenzip.NewReader(newBytesAt(raw), int64(len(raw)))
	default:
		r, err = sevenzip.NewReaderWithPassword(newBytesAt(raw), int64(len(raw)), c.Pw)
	}

	pw := c.Pw
	s := c.Spec

	aes, other := false, false
	if s.Layout.Header != nil {
		aes, other = differs(s.Layout.Header, s.Password, pw)
	}

	var re *sevenzip.ReadError

	if err != nil {
		is := errors.As(err, &re)
		o.NonTrivial = true

		switch {
		case !aes && !headDamaged:
			return fmt.Errorf("archive with a header that is not encrypted does not open: %w", err)
		case aes && !other && !headDamaged:
			return fmt.Errorf("archive does not open with the right password: %w", err)
		case aes && other && !headDamaged:
			o.class("open:wrongkey")

			if !is {
				return fmt.Errorf("opening with the wrong password: not a *ReadError: %w", err)
			}

			if !re.Encrypted {
				return fmt.Errorf("opening with the wrong password: Encrypted is not set: %w", err)
			}
		case !aes:
			o.class("open:plaindamage")

			if is && re.Encrypted {
				return fmt.Errorf("Encrypted is set for a header that is not encrypted: %w", err)
			}
		}

		return nil
	}

	if other || headDamaged {
		// The digest of the encoded header gives it away.
		if s.Layout.HeaderCRC {
			if err := checkList(r.File, b.Files); err != nil {
				return fmt.Errorf("archive opens with another listing (password %q): %w", pw, err)
			}

			if other && !headDamaged && s.Layout.Header.M == "aes" {
				return fmt.Errorf("encrypted header opens with the wrong password %q", pw)
			}
		}

		if !s.Layout.HeaderCRC {
			// No digest, nothing is known: even if the listing is the same,
			// something it does not show may have changed.
			o.class("open:nodigest")

			return nil
		}
	} else if err := checkList(r.File, b.Files); err != nil {
		return err
	}

	if len(r.File) == 0 {
		return nil
	}

	for k, op := range c.Ops {
		i := op.F % len(r.File)
		f, x := r.File[i], b.Files[i]
		where := fmt.Sprintf("step %d, file %d", k, i)

		aes, other, dam := false, false, false

		if x.Kind == sz.EData {
			root := s.Folders[x.Folder].Root
			aes, other = differs(root, s.Password, pw)
			dam = damaged[x.Folder]
			where += ", " + rootOf(s, x.Folder)
		}

		var (
			rc  io.ReadCloser
			err error
		)

		full := op.Mode != 1

		if op.Mode == 2 && fs.ValidPath(f.Name) {
			rc, err = r.Open(f.Name)

			// names of more than one entry, other files' names
			if errors.Is(err, os.ErrNotExist) {
				continue
			}

			if err == nil {
				if fi, e := rc.(fs.File).Stat(); e != nil || fi.IsDir() || fi.Sys() != any(&f.FileHeader) {
					_ = rc.Close()

					continue
				}
			} else if dup(r.File, f.Name) {
				continue
			}
		} else {
			rc, err = f.Open()
		}

		var data []byte

		if err == nil {
			if full {
				data, err = readAll(rc, int(x.Size))
			} else {
				data = make([]byte, op.N)

				var n int

				n, err = readFull(rc, data)
				data = data[:n]

				if err == io.EOF { //nolint:errorlint
					err, full = nil, true
				}
			}

			if isViolation(err) {
				return fmt.Errorf("%s: %w", where, err)
			}

			if e := rc.Close(); e != nil && errors.As(e, &re) && re.Encrypted != aes {
				return fmt.Errorf("%s: hint of the error of Close is %v: %w", where, re.Encrypted, e)
			}
		}

		o.Evals++

		if err == nil {
			if !other && !dam {
				if full {
					if e := sameBytes(data, x.Data); e != nil {
						return fmt.Errorf("%s: %w", where, e)
					}
				} else if e := sameBytes(data, x.Data[:min(len(data), len(x.Data))]); e != nil {
					return fmt.Errorf("%s: %w", where, e)
				}
			}

			continue
		}

		is := errors.As(err, &re)

		switch {
		case !other && !dam:
			return fmt.Errorf("%s: intact file: %w", where, err)
		case !aes:
			o.class("read:plaindamage")

			o.NonTrivial = true

			if is && re.Encrypted {
				return fmt.Errorf("%s: Encrypted is set without encryption: %w", where, err)
			}
		case other && !dam:
			o.class("read:wrongkey")

			o.NonTrivial = true

			if !is {
				return fmt.Errorf("%s: wrong password: not a *ReadError: %w", where, err)
			}

			if !re.Encrypted {
				return fmt.Errorf("%s: wrong password: Encrypted is not set: %w", where, err)
			}
		default:
			o.class("read:encrypteddamage")
		}
	}

	return nil
}

func dup(files []*sevenzip.File, name string) bool {
	n := 0

	for _, f := range files {
		if cleanName(f.Name) == name {
			n++
		}
	}

	return n > 1
}
