package checks

import (
	"errors"
	"fmt"
	"io"
	"io/fs"

	"github.com/bodgit/sevenzip"
	"pgregory.net/rapid"
	"verifharness/sz"
)

// Operations on a reader.
const (
	opOpen   = iota // open file A
	opRead          // read B bytes from handle A
	opClose         // close handle A
	opFull          // open, read to the end and close file A
	opWalk          // walk the file system
	opStat          // stat file A through the file system
	opFSOpen        // open file A through the file system
	opEOF           // read handle A to its end
	opStale         // read B bytes from and close again handle A of those closed
	nOps
)

type op struct {
	K int `json:"k"`
	A int `json:"a"`
	B int `json:"b,omitempty"`
}

type histCase struct {
	Spec *sz.Spec `json:"spec"`
	Ops  []op     `json:"ops"`
	Live int      `json:"live"`
	More *sz.More `json:"more,omitempty"`
}

func drawOps(t *rapid.T, max int) []op {
	kinds := []int{opOpen, opOpen, opOpen, opRead, opRead, opRead, opClose, opClose, opFull, opWalk, opStat, opFSOpen, opEOF, opStale}

	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) op {
		o := op{K: rapid.SampledFrom(kinds).Draw(t, "op"), A: rapid.IntRange(0, 40).Draw(t, "a")}

		if o.K == opRead {
			o.B = rapid.OneOf(rapid.IntRange(0, 20), rapid.IntRange(0, 4000), rapid.IntRange(0, 50000)).Draw(t, "b")
		}

		return o
	}), max/2, max).Draw(t, "ops")
}

type handle struct {
	rc   io.ReadCloser
	file int
	pos  int
}

// session runs operations on a reader against a model that knows only the
// position of each handle.
type session struct {
	r       *sevenzip.Reader
	want    []sz.Expect
	byName  map[string]int
	hs      []*handle
	closed  []*handle
	live    int
	maxOpen int
	reads   int
}

func newSession(r *sevenzip.Reader, want []sz.Expect, live int) *session {
	s := &session{r: r, want: want, byName: map[string]int{}, live: live}
	for i, w := range want {
		s.byName[w.Name] = i
	}

	return s
}

func (s *session) readN(h *handle, n int) error {
	w := s.want[h.file].Data
	buf := make([]byte, n)
	k, err := io.ReadFull(h.rc, buf)

	exp := min(n, len(w)-h.pos)
	if k != exp {
		return fmt.Errorf("file %d at %d: reading %d bytes gives %d (%v), want %d", h.file, h.pos, n, k, err, exp)
	}

	if e := sameBytes(buf[:k], w[h.pos:h.pos+k]); e != nil {
		return fmt.Errorf("file %d at %d: %w", h.file, h.pos, e)
	}

	h.pos += k
	s.reads++

	switch {
	case k == n && err != nil:
		return fmt.Errorf("file %d: full read with error %w", h.file, err)
	case k == 0 && n > 0 && err != io.EOF: //nolint:errorlint
		return fmt.Errorf("file %d: at the end the error is %w", h.file, err)
	case k > 0 && k < n && !errors.Is(err, io.ErrUnexpectedEOF):
		return fmt.Errorf("file %d: read error %w", h.file, err)
	}

	return nil
}

func (s *session) do(o op) error {
	switch o.K {
	case opOpen, opFSOpen:
		if len(s.hs) >= s.live {
			return nil
		}

		i := o.A % len(s.want)

		var (
			rc  io.ReadCloser
			err error
		)

		if o.K == opOpen || s.want[i].Dir {
			rc, err = s.r.File[i].Open()
		} else {
			rc, err = s.r.Open(s.want[i].Name)
		}

		if err != nil {
			return fmt.Errorf("open file %d: %w", i, err)
		}

		s.hs = append(s.hs, &handle{rc: rc, file: i})
		s.maxOpen = max(s.maxOpen, len(s.hs))
	case opRead, opClose, opEOF:
		if len(s.hs) == 0 {
			return nil
		}

		j := o.A % len(s.hs)
		h := s.hs[j]

		switch o.K {
		case opRead:
			return s.readN(h, o.B)
		case opEOF:
			return s.readN(h, len(s.want[h.file].Data)-h.pos+1)
		}

		s.hs = append(s.hs[:j:j], s.hs[j+1:]...)
		s.closed = append(s.closed, h)

		if err := h.rc.Close(); err != nil {
			return fmt.Errorf("close of file %d at %d: %w", h.file, h.pos, err)
		}
	case opStale:
		if len(s.closed) == 0 {
			return nil
		}

		h := s.closed[len(s.closed)-1-o.A%len(s.closed)]

		if o.A%3 > 0 {
			if n, err := h.rc.Read(make([]byte, 10+o.A)); n != 0 || err == nil {
				return fmt.Errorf("reading file %d after closing it: %d, %w", h.file, n, err)
			} else if h.pos < len(s.want[h.file].Data) && errors.Is(err, io.EOF) {
				return fmt.Errorf("reading file %d after closing it at %d looks like its end", h.file, h.pos)
			}
		}

		if o.A%3 < 2 {
			if err := h.rc.Close(); err != nil {
				return fmt.Errorf("closing file %d again: %w", h.file, err)
			}
		}
	case opFull:
		i := o.A % len(s.want)

		b, err := readFile(s.r.File[i])
		if err != nil {
			return fmt.Errorf("file %d: %w", i, err)
		}

		if err := sameBytes(b, s.want[i].Data); err != nil {
			return fmt.Errorf("file %d: %w", i, err)
		}
	case opWalk:
		return s.walk()
	case opStat:
		i := o.A % len(s.want)
		if s.want[i].Dir {
			return nil
		}

		fi, err := fs.Stat(s.r, s.want[i].Name)
		if err != nil {
			return fmt.Errorf("stat file %d: %w", i, err)
		}

		if fi.Size() != int64(len(s.want[i].Data)) || fi.IsDir() {
			return fmt.Errorf("stat file %d: size %d", i, fi.Size())
		}
	}

	return nil
}

func (s *session) walk() error {
	seen := 0

	err := fs.WalkDir(s.r, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}

		if p == "." {
			return nil
		}

		n := p
		if d.IsDir() {
			n += "/"
		}

		i, ok := s.byName[n]
		if !ok {
			return fmt.Errorf("walk meets %q which is not in the archive", n)
		}

		seen++

		if d.IsDir() {
			return nil
		}

		fi, err := d.Info()
		if err != nil {
			return err
		}

		if fi.Size() != int64(len(s.want[i].Data)) {
			return fmt.Errorf("%q has size %d in the walk", n, fi.Size())
		}

		return nil
	})
	if err != nil {
		return fmt.Errorf("walk: %w", err)
	}

	if seen != len(s.byName) {
		return fmt.Errorf("walk meets %d entries of %d", seen, len(s.byName))
	}

	return nil
}

func (s *session) run(ops []op) error {
	for i, o := range ops {
		if err := s.do(o); err != nil {
			return fmt.Errorf("step %d %+v: %w", i, o, err)
		}
	}

	return nil
}

// finish closes what is open and compares everything once more.
func (s *session) finish() error {
	for _, h := range s.hs {
		if err := h.rc.Close(); err != nil {
			return fmt.Errorf("closing file %d: %w", h.file, err)
		}
	}

	s.hs = nil

	if err := checkList(s.r.File, s.want); err != nil {
		return err
	}

	return checkContents(s.r.File, s.want)
}

func histSpec(t *rapid.T) *sz.Spec {
	g := def()
	g.maxFile = rapid.SampledFrom([]int{40, 400, 3000, 3000, 20000}).Draw(t, "maxfile")
	g.maxEntries = 14
	g.minData = 2
	g.maxFolders = 2
	g.simpleMeta = true
	g.encHeader = false

	return drawSpec(t, g)
}

func init() {
	register("C07", "an archive with mostly solid streams and a history of up to 120 operations (of an archive with up to 1200 entries; open by list or by path, read n bytes, read to end, close, read or close again what is closed, extract, walk, stat; up to 24 files open at once, beyond the reader pool's size) run against a model holding one position per open file, followed by a full listing and extraction; non-trivial = at least two files were open at once or a file was closed before its end, and at least one read was compared",
		func(t *rapid.T) *histCase {
			c := &histCase{Spec: histSpec(t), Live: drawInt(t, 1, 24, "live"), Ops: drawOps(t, rapid.SampledFrom([]int{8, 30, 120}).Draw(t, "nops"))}

			if drawInt(t, 0, 149, "more") == 66 {
				c.More = drawMore(t, 1200)

				for i := range c.Ops {
					if drawBool(t, "far") {
						c.Ops[i].A = drawInt(t, 0, 1300, "fara")
					}
				}
			}

			return c
		},
		func(c *histCase, o *Out) error {
			if c.More != nil {
				o.class("many")

				cc := *c
				cc.Spec, cc.More = c.Spec.Expand(c.More), nil
				c = &cc
			}

			b := sz.Build(c.Spec)
			specClasses(c.Spec, o)

			r, err := open(b.Raw, c.Spec.Password)
			if err != nil {
				return fmt.Errorf("open archive: %w", err)
			}

			s := newSession(r, b.Files, max(1, c.Live))
			if err := s.run(c.Ops); err != nil {
				return err
			}

			o.NonTrivial = s.maxOpen > 1 && s.reads > 0
			o.class("open-at-once:%s", bucket(s.maxOpen))
			o.Evals = len(c.Ops)

			return s.finish()
		})
}
