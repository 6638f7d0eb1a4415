package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sync"
	"syscall"

	"github.com/bodgit/sevenzip"
	"pgregory.net/rapid"
	"verifharness/sz"
)

type faultCase struct {
	Spec *sz.Spec `json:"spec"`
	// Phase 0: accesses are counted from opening the archive, 1: from the
	// first file.
	Phase int      `json:"phase"`
	K     int      `json:"k"`    // per mille of the accesses of a run without fault, or 10000+index
	Mode  int      `json:"mode"` // 0 permanent, 1 transient, 2 transient twice, 3 storage ends early
	Part  int      `json:"part"` // per mille of the bytes delivered with the fault
	Order []int    `json:"order"`
	Buf   int      `json:"buf"`
	Err   int      `json:"err,omitempty"` // which error, see faultErr
	More  *sz.More `json:"more,omitempty"`
	// Vol makes it an archive opened by name, with volumes that fail.
	Vol *volFault `json:"vol,omitempty"`
	FS  bool      `json:"fs,omitempty"` // files are opened by their path
}

type volFault struct {
	Cuts []int `json:"cuts"`
	Kind int   `json:"kind"` // 0 a volume cannot be opened, 1 closed while reading, 2 volumes cut while reading
	At   int   `json:"at"`   // volume, or number of reads before
	Keep int   `json:"keep"` // per mille of the volume kept
}

type injected struct{ n int }

func (e *injected) Error() string { return fmt.Sprintf("injected fault %d", e.n) }

var errPlain = errors.New("injected plain fault")

// manyErrors is an error that cannot be compared.
type manyErrors []error

func (e manyErrors) Error() string { return fmt.Sprintf("injected faults %v", []error(e)) }

const numFaultErrs = 11

// faultErr returns the error of a fault, and how to tell that an error wraps
// it.
func faultErr(kind, n int) (error, func(error) bool) {
	var sentinel error

	switch kind {
	default:
		sentinel = &injected{n}
	case 1:
		sentinel = errPlain
	case 2:
		sentinel = io.ErrUnexpectedEOF
	case 3:
		sentinel = &fs.PathError{Op: "read", Path: "storage", Err: fs.ErrClosed}
	case 4:
		sentinel = io.ErrNoProgress
	case 5:
		sentinel = io.ErrShortBuffer
	case 6:
		sentinel = context.DeadlineExceeded
	case 7:
		sentinel = fmt.Errorf("storage: %w", io.ErrUnexpectedEOF)
	case 8:
		return manyErrors{errPlain}, func(err error) bool {
			var e manyErrors

			return errors.As(err, &e)
		}
	case 9:
		sentinel = fs.ErrNotExist
	case 10:
		sentinel = io.ErrClosedPipe
	}

	return sentinel, func(err error) bool { return errors.Is(err, sentinel) }
}

type faultAt struct {
	r     io.ReaderAt
	mu    sync.Mutex
	calls int
	at    int // -1 never
	until int // calls from at to until fail
	part  int
	eof   bool
	err   error
	hit   int
	end   int64
}

func (f *faultAt) ReadAt(p []byte, off int64) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()

	k := f.calls
	f.calls++

	if f.at < 0 || k < f.at || k > f.until {
		return f.r.ReadAt(p, off)
	}

	if f.eof {
		// The storage ends here from now on.
		if f.hit == 0 {
			f.end = off + int64(len(p)*f.part/1001)
		}

		if off+int64(len(p)) <= f.end {
			return f.r.ReadAt(p, off)
		}

		f.hit++

		m := 0
		if off < f.end {
			m, _ = f.r.ReadAt(p[:f.end-off], off)
		}

		return m, io.EOF
	}

	f.hit++

	n := len(p) * f.part / 1001
	m, _ := f.r.ReadAt(p[:n], off)

	// The rest of the buffer is undefined.
	for i := m; i < len(p); i++ {
		p[i] = 0xee
	}

	return m, f.err
}

func init() {
	register("C12", "an archive over storage that fails at one drawn access (every index of a fault-free run is reachable; permanently, once, twice, or by ending early; with errors of its own or well-known ones like io.ErrUnexpectedEOF; delivering none or part of the bytes), while opening it or while reading its files in a drawn order with a drawn buffer size; every error must wrap the injected one (and be a *ReadError for content), every byte delivered must be right, no file may end cleanly before its size, and once the fault is over everything must read again through the same reader; or an archive in volumes opened by name of which one cannot be opened, or which is closed or has a volume cut short while files are read; non-trivial = the fault was hit",
		func(t *rapid.T) *faultCase {
			g := def()
			g.maxFile = rapid.SampledFrom([]int{60, 3000, 20000, 100000}).Draw(t, "maxfile")
			g.maxEntries = 5
			g.simpleMeta = true
			c := &faultCase{Spec: drawSpec(t, g)}
			c.Phase = drawInt(t, 0, 2, "phase") & 1

			if c.Phase == 0 && drawBool(t, "stub") {
				c.Spec.Layout.Prefix = drawData(t, 1, 9000, "prefix")
			}

			if drawBool(t, "first") {
				c.K = 10000 + drawInt(t, 0, 12, "k")
			} else {
				c.K = drawInt(t, 0, 999, "k")
			}

			// A header that takes many reads.
			if c.Phase == 0 && oneIn(t, 3, "more") {
				c.More = drawMore(t, 800)
				c.K = drawInt(t, 0, 999, "morek")
			}

			c.Mode = drawInt(t, 0, 3, "mode")
			c.Part = rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 1000)).Draw(t, "part")
			c.Order = rapid.SliceOfN(rapid.IntRange(0, 5), 1, 8).Draw(t, "order")
			c.Buf = rapid.SampledFrom([]int{1 << 16, 1, 7, 100, 4096}).Draw(t, "buf")
			c.Err = drawInt(t, 0, numFaultErrs-1, "err")
			c.FS = drawBool(t, "fs")

			if oneIn(t, 4, "volumes") {
				c.Vol = &volFault{
					Cuts: rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 1000), rapid.IntRange(-40, -1)), 0, 6).Draw(t, "cuts"),
					Kind: drawInt(t, 0, 2, "volkind"),
					At:   drawInt(t, 0, 12, "volat"),
					Keep: drawInt(t, 0, 999, "keep"),
				}
			}

			return c
		},
		runFault)
}

// runVolFault checks archives opened by name.
func runVolFault(c *faultCase, o *Out) error { //nolint:cyclop
	b := sz.Build(c.Spec)
	specClasses(c.Spec, o)

	v := c.Vol
	o.class("volumes:%d", v.Kind)

	d, clean := caseDir()
	defer clean()

	parts := split(b.Raw, v.Cuts)
	name := func(i int) string { return filepath.Join(d, fmt.Sprintf("a.7z.%03d", i+1)) }

	for i, p := range parts {
		mustWrite(name(i), p)
	}

	if v.Kind == 0 {
		i := v.At % len(parts)
		if err := os.Remove(name(i)); err != nil {
			return herr("%v", err)
		}

		if err := os.Symlink(filepath.Base(name(i)), name(i)); err != nil {
			return herr("%v", err)
		}

		o.NonTrivial = true

		r, err := sevenzip.OpenReaderWithPassword(name(0), c.Spec.Password)
		if err == nil {
			_ = r.Close()

			return fmt.Errorf("opened without volume %d of %d", i+1, len(parts))
		}

		if !errors.Is(err, syscall.ELOOP) {
			return fmt.Errorf("volume %d of %d cannot be opened, but the error is %w", i+1, len(parts), err)
		}

		return nil
	}

	r, err := sevenzip.OpenReaderWithPassword(name(0), c.Spec.Password)
	if err != nil {
		return fmt.Errorf("open archive: %w", err)
	}

	closed := false

	defer func() {
		if !closed {
			_ = r.Close()
		}
	}()

	type handle struct {
		rc  io.ReadCloser
		x   int
		pos int
		end bool
	}

	var (
		hs     []*handle
		failed bool
		p      = make([]byte, max(1, c.Buf))
	)

	check := func(x, pos int, err error) error {
		where := fmt.Sprintf("file %d, %s, kind %d", x, rootOf(c.Spec, b.Files[x].Folder), v.Kind)

		if !failed {
			return fmt.Errorf("%s: %w", where, err)
		}

		o.NonTrivial = true

		var re *sevenzip.ReadError
		if !errors.As(err, &re) {
			return fmt.Errorf("%s: not a *ReadError after %d bytes: %T %w", where, pos, err, err)
		}

		if v.Kind == 1 && !errors.Is(err, fs.ErrClosed) {
			return fmt.Errorf("%s: not fs.ErrClosed after %d bytes: %w", where, pos, err)
		}

		return nil
	}

	open := func(x int) error {
		rc, err := opened(&r.Reader, x, c.FS)
		if err != nil {
			return check(x, 0, err)
		}

		hs = append(hs, &handle{rc: rc, x: x})

		return nil
	}

	step := func(h *handle) error {
		w := b.Files[h.x].Data

		n, err := h.rc.Read(p)
		if n > len(w)-h.pos || string(p[:n]) != string(w[h.pos:h.pos+n]) {
			return fmt.Errorf("file %d, %s: wrong data at %d", h.x, rootOf(c.Spec, b.Files[h.x].Folder), h.pos)
		}

		h.pos += n

		if err == io.EOF { //nolint:errorlint
			h.end = true

			if h.pos != len(w) {
				enc := ""
				if v.Kind == 2 && failed && shortEncrypted(&c.Spec.Folders[b.Files[h.x].Folder]) {
					enc = "[encrypted short storage] "
				}

				return fmt.Errorf("%sfile %d, %s: clean EOF after %d of %d bytes", enc, h.x, rootOf(c.Spec, b.Files[h.x].Folder), h.pos, len(w))
			}
		} else if err != nil {
			h.end = true

			return check(h.x, h.pos, err)
		}

		return nil
	}

	fail := func() error {
		failed = true

		if v.Kind == 1 {
			closed = true

			return r.Close()
		}

		i := v.Keep % len(parts)
		if err := os.Truncate(name(i), int64(len(parts[i])*v.Keep/1000)); err != nil {
			return herr("%v", err)
		}

		return nil
	}

	for i, k := range c.Order {
		if i == v.At%(len(c.Order)+1) {
			if err := fail(); err != nil {
				return err
			}
		}

		if err := open(k % len(r.File)); err != nil {
			return err
		}

		// Every handle moves on by a buffer, the first one is read to its end
		for j, h := range hs {
			for n := 0; !h.end && (n == 0 || j == 0 && i&1 == 1) && n < 200000; n++ {
				if err := step(h); err != nil {
					return err
				}
			}
		}
	}

	if !failed {
		if err := fail(); err != nil {
			return err
		}
	}

	for _, h := range hs {
		for n := 0; !h.end; n++ {
			if n > 300000 {
				return fmt.Errorf("file %d: endless", h.x)
			}

			if err := step(h); err != nil {
				return err
			}
		}

		_ = h.rc.Close()
	}

	return nil
}

func runFault(c *faultCase, o *Out) error {
	if c.Vol != nil {
		return runVolFault(c, o)
	}

	if c.More != nil {
		o.class("many")
	}

	cc := *c
	cc.Spec = c.Spec.Expand(c.More)
	c = &cc

	b := sz.Build(c.Spec)
	specClasses(c.Spec, o)

	f := &faultAt{r: newBytesAt(b.Raw), at: -1}
	pw := c.Spec.Password

	sentinel, is := faultErr(c.Err, c.K)
	f.err = sentinel
	f.part = c.Part
	f.eof = c.Mode == 3

	newReader := func() (*sevenzip.Reader, error) {
		return sevenzip.NewReaderWithPassword(f, int64(len(b.Raw)), pw)
	}

	buf := max(1, c.Buf)
	if len(b.Raw) > 20000 {
		buf = max(buf, 100)
	}

	// read returns what a file delivers.
	read := func(r *sevenzip.Reader, x, limit int) (out []byte, err error) {
		rc, err := opened(r, x, c.FS)
		if err != nil {
			return nil, err
		}

		defer func() { _ = rc.Close() }()

		p := make([]byte, buf)
		idle := 0

		for {
			n, err := rc.Read(p)
			out = append(out, p[:n]...)

			if err == io.EOF { //nolint:errorlint
				return out, nil
			}

			if err != nil {
				// The error stays.
				if m, err2 := rc.Read(p); m != 0 || err2 == nil || err2 == io.EOF && len(out) < limit { //nolint:errorlint
					return out, fmt.Errorf("VIOLATION: Read after the error %v gives %d, %v", err, m, err2) //nolint:errorlint
				}

				return out, err
			}

			if n == 0 {
				if idle++; idle > 10000 {
					return out, errStuck
				}
			}

			if len(out) > limit {
				return out, errTooLong
			}
		}
	}

	// A run without a fault counts the accesses.
	r, err := newReader()
	if err != nil {
		return fmt.Errorf("open archive: %w", err)
	}

	if c.Phase == 1 {
		f.calls = 0

		for _, k := range c.Order {
			x := k % len(r.File)
			if d, err := read(r, x, len(b.Files[x].Data)); err != nil {
				return fmt.Errorf("without fault, file %d: %w", x, err)
			} else if err := sameBytes(d, b.Files[x].Data); err != nil {
				return fmt.Errorf("without fault, file %d: %w", x, err)
			}
		}

		if r, err = newReader(); err != nil {
			return fmt.Errorf("open archive: %w", err)
		}
	}

	total := f.calls

	k := c.K
	if k >= 10000 {
		k -= 10000
	} else {
		k = total * k / 1000
	}

	f.calls, f.at = 0, k
	if c.Phase == 1 {
		// counted from here on
		total -= 0
	}

	switch c.Mode {
	case 1:
		f.until = k
	case 2:
		f.until = k + 1
	default:
		f.until = 1 << 30
	}

	o.class("mode:%d", c.Mode)
	o.class("error:%d", c.Err)
	o.class("phase:%d", c.Phase)

	wrapped := func(err error) error {
		if c.Mode == 3 || is(err) {
			return nil
		}

		return fmt.Errorf("error does not wrap the storage error: %T %w", err, err)
	}

	if c.Phase == 0 {
		r, err = newReader()
		o.NonTrivial = f.hit > 0

		if err != nil {
			if f.hit == 0 {
				return fmt.Errorf("error without fault: %w", err)
			}

			if r != nil {
				return errors.New("error together with a reader")
			}

			if err := wrapped(err); err != nil {
				return fmt.Errorf("open archive: %w", err)
			}
		} else {
			if err := checkList(r.File, b.Files); err != nil {
				return fmt.Errorf("listing with fault at access %d: %w", k, err)
			}
		}

		// Once storage works again, so does opening.
		f.stop()

		if r, err = newReader(); err != nil {
			return fmt.Errorf("open archive after the fault: %w", err)
		}

		if err := checkList(r.File, b.Files); err != nil {
			return err
		}

		return checkContents(r.File, b.Files)
	}

	// Every failing access is reported at most once: what failed is never
	// used again. An access made ahead of need may be reported later.
	reported := 0

	one := func(x int, over bool) error {
		w := b.Files[x].Data
		d, err := read(r, x, len(w))

		if isViolation(err) {
			return fmt.Errorf("file %d: %w", x, err)
		}

		if err != nil && errors.Is(err, io.EOF) && err.Error() == "EOF" {
			return fmt.Errorf("file %d: bare EOF as error", x)
		}

		where := fmt.Sprintf("file %d, %s, fault at access %d", x, rootOf(c.Spec, b.Files[x].Folder), k)

		if len(d) > len(w) || string(d) != string(w[:len(d)]) {
			return fmt.Errorf("%s: wrong data: %w", where, sameBytes(d, w))
		}

		if err == nil && len(d) != len(w) {
			enc := ""
			if c.Mode == 3 && f.hit > 0 && shortEncrypted(&c.Spec.Folders[b.Files[x].Folder]) {
				enc = "[encrypted short storage] "
			}

			return fmt.Errorf("%s%s: clean EOF after %d of %d bytes", enc, where, len(d), len(w))
		}

		if err == nil {
			return nil
		}

		if reported++; reported > f.hits() {
			return fmt.Errorf("%s: error number %d after %d failing accesses: %w", where, reported, f.hits(), err)
		}

		if err := wrapped(err); err != nil {
			return fmt.Errorf("%s: %w", where, err)
		}

		var re *sevenzip.ReadError
		if !errors.As(err, &re) {
			return fmt.Errorf("%s: not a *ReadError: %T %w", where, err, err)
		}

		if over {
			return errAgain
		}

		return nil
	}

	for _, n := range c.Order {
		if err := one(n%len(r.File), false); err != nil {
			return err
		}
	}

	o.NonTrivial = f.hits() > 0
	f.stop()

	if err := checkList(r.File, b.Files); err != nil {
		return err
	}

	// The fault is over: everything reads again, in order and backwards.
	for i := range 2 * len(r.File) {
		x := i
		if i >= len(r.File) {
			x = 2*len(r.File) - 1 - i
		}

		for {
			err := one(x, true)
			if err == nil {
				break
			}

			if err != errAgain { //nolint:errorlint
				return fmt.Errorf("after the fault: %w", err)
			}
		}
	}

	return nil
}

var errAgain = errors.New("reported late")

func (f *faultAt) hits() int {
	f.mu.Lock()
	defer f.mu.Unlock()

	return f.hit
}

func (f *faultAt) stop() {
	f.mu.Lock()
	defer f.mu.Unlock()

	f.at = -1
}

// rootOf describes the coders of a folder.
func rootOf(s *sz.Spec, folder int) string {
	if folder >= len(s.Folders) {
		return "?"
	}

	var d func(n *sz.Node) string
	d = func(n *sz.Node) string {
		r := n.M

		if len(n.In) > 0 {
			r += "("

			for i, c := range n.In {
				if i > 0 {
					r += ","
				}

				if c != nil {
					r += d(c)
				}
			}

			r += ")"
		}

		return r
	}

	return d(s.Folders[folder].Root)
}

// shortEncrypted tells if storage that ends early can look like the end of an
// encrypted stream.
func shortEncrypted(f *sz.Folder) bool {
	return f.Root.Has("aes") && endsClean(f, 0)
}
