package checks

import (
	"bytes"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"io/fs"
	"strings"
	"time"

	"github.com/bodgit/sevenzip"
	"verifharness/sz"
)

func open(b []byte, pw string) (*sevenzip.Reader, error) {
	if pw == "" {
		return sevenzip.NewReader(bytes.NewReader(b), int64(len(b)))
	}

	return sevenzip.NewReaderWithPassword(bytes.NewReader(b), int64(len(b)), pw)
}

// checkList compares the listing with the expectation.
func checkList(files []*sevenzip.File, want []sz.Expect) error {
	if len(files) != len(want) {
		return fmt.Errorf("listing has %d files, archive has %d", len(files), len(want))
	}

	streams := map[int]int{}
	back := map[int]int{}

	for i, f := range files {
		w := &want[i]
		if f.Name != w.Name {
			return fmt.Errorf("file %d: name %q, want %q", i, f.Name, w.Name)
		}

		if !f.Created.Equal(w.C) || !f.Accessed.Equal(w.A) || !f.Modified.Equal(w.M) {
			return fmt.Errorf("file %d: times %v %v %v, want %v %v %v", i, f.Created, f.Accessed, f.Modified, w.C, w.A, w.M)
		}

		if f.Created.IsZero() != w.C.IsZero() || f.Accessed.IsZero() != w.A.IsZero() || f.Modified.IsZero() != w.M.IsZero() {
			return fmt.Errorf("file %d: zero times differ", i)
		}

		for _, v := range []time.Time{f.Created, f.Accessed, f.Modified, f.FileInfo().ModTime()} {
			if v.Location() != time.UTC {
				return fmt.Errorf("file %d: %v is not in UTC", i, v)
			}
		}

		if f.Attributes != w.Attr {
			return fmt.Errorf("file %d: attributes %#x, want %#x", i, f.Attributes, w.Attr)
		}

		if f.UncompressedSize != w.Size {
			return fmt.Errorf("file %d: size %d, want %d", i, f.UncompressedSize, w.Size)
		}

		if f.CRC32 != w.CRC {
			return fmt.Errorf("file %d: crc %#x, want %#x", i, f.CRC32, w.CRC)
		}

		if f.FileInfo().IsDir() != w.Dir {
			return fmt.Errorf("file %d: IsDir %v, want %v", i, f.FileInfo().IsDir(), w.Dir)
		}

		if w.Kind == sz.EData {
			if g, ok := streams[w.Folder]; ok && g != f.Stream {
				return fmt.Errorf("file %d: Stream %d, others of its stream have %d", i, f.Stream, g)
			}

			if g, ok := back[f.Stream]; ok && g != w.Folder {
				return fmt.Errorf("file %d: Stream %d is shared with a file of another stream", i, f.Stream)
			}

			streams[w.Folder] = f.Stream
			back[f.Stream] = w.Folder
		}
	}

	return nil
}

// readAll reads without relying on io.ReadAll's buffer growth and detects
// readers that return nothing for ever and content longer than limit.
func readAll(r io.Reader, limit int) ([]byte, error) {
	var out []byte

	buf := make([]byte, 32<<10)
	idle := 0

	for {
		n, err := r.Read(buf)
		if n < 0 || n > len(buf) {
			return out, fmt.Errorf("VIOLATION: Read returned n=%d for a %d byte buffer", n, len(buf))
		}

		out = append(out, buf[:n]...)

		if err == io.EOF { //nolint:errorlint
			return out, nil
		}

		if err != nil {
			return out, err
		}

		if n == 0 {
			if idle++; idle > 10000 {
				return out, errStuck
			}
		} else {
			idle = 0
		}

		if len(out) > limit {
			return out, errTooLong
		}
	}
}

var (
	errStuck   = errors.New("VIOLATION: reader returns no data and no error for ever")
	errTooLong = errors.New("VIOLATION: reader delivers more than the declared size")
)

// opened opens a file, through the file system if that has it under a path of
// its own.
func opened(r *sevenzip.Reader, i int, viaFS bool) (io.ReadCloser, error) {
	name := r.File[i].Name

	if !viaFS || cleanName(name) != name || !fs.ValidPath(name) || name == "." || dup(r.File, name) {
		return r.File[i].Open()
	}

	for _, f := range r.File {
		if c := cleanName(f.Name); strings.HasPrefix(name, c+"/") || strings.HasPrefix(c, name+"/") {
			return r.File[i].Open()
		}
	}

	return r.Open(name)
}

func isViolation(err error) bool { return errors.Is(err, errStuck) || errors.Is(err, errTooLong) }

func readFile(f *sevenzip.File) ([]byte, error) {
	rc, err := f.Open()
	if err != nil {
		return nil, fmt.Errorf("open: %w", err)
	}

	b, err := readAll(rc, int(min(f.UncompressedSize, 1<<40)))
	if err != nil {
		_ = rc.Close()

		return b, fmt.Errorf("read: %w", err)
	}

	if err := rc.Close(); err != nil {
		return b, fmt.Errorf("close: %w", err)
	}

	return b, nil
}

// checkContents reads every file once in order.
func checkContents(files []*sevenzip.File, want []sz.Expect) error {
	for i, f := range files {
		b, err := readFile(f)
		if err != nil {
			return fmt.Errorf("file %d %q (%d bytes): %w", i, f.Name, want[i].Size, err)
		}

		if err := sameBytes(b, want[i].Data); err != nil {
			return fmt.Errorf("file %d %q: %w", i, f.Name, err)
		}

		if uint64(len(b)) != f.UncompressedSize {
			return fmt.Errorf("file %d: %d bytes read, UncompressedSize %d", i, len(b), f.UncompressedSize)
		}

		if f.CRC32 != 0 && crc32.ChecksumIEEE(b) != f.CRC32 {
			return fmt.Errorf("file %d: content CRC differs from CRC32", i)
		}
	}

	return nil
}

func sameBytes(got, want []byte) error {
	if bytes.Equal(got, want) {
		return nil
	}

	n := 0
	for n < len(got) && n < len(want) && got[n] == want[n] {
		n++
	}

	return fmt.Errorf("content differs at %d (got %d bytes, want %d)", n, len(got), len(want))
}

// checkArchive opens the archive and compares everything.
func checkArchive(raw []byte, pw string, want []sz.Expect) error {
	r, err := open(raw, pw)
	if err != nil {
		return fmt.Errorf("open archive: %w", err)
	}

	if err := checkList(r.File, want); err != nil {
		return err
	}

	return checkContents(r.File, want)
}

func specClasses(s *sz.Spec, o *Out) {
	for _, f := range s.Folders {
		depth := 0

		f.Root.Walk(func(n *sz.Node) {
			o.class("method:%s", n.M)

			depth++
		})

		if depth > 1 {
			o.class("coders>1")
		}

		if f.N > 1 {
			o.class("solid")
		}

		if f.N == 0 {
			o.class("orphan-stream")
		}
	}

	if len(s.Folders) > 1 {
		o.class("streams>1")
	}

	if s.Layout.Header != nil {
		o.class("encoded-header")
	}

	for _, e := range s.Entries {
		switch {
		case e.Kind == sz.EDir:
			o.class("dir")
		case e.Kind == sz.EEmpty:
			o.class("emptyfile")
		case e.Data.Len() == 0:
			o.class("zero-length-data")
		}
	}
}
