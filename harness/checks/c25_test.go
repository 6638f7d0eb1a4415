package checks

import (
	"bytes"
	"fmt"
	"regexp"
	"slices"
	"strings"

	"github.com/bodgit/sevenzip"
	"pgregory.net/rapid"
	"verifharness/sz"
)

// change is one alteration of a header, on its tokens or on its bytes.
type change struct {
	K  string `json:"k"`
	At int    `json:"at"` // per 2^20 of the tokens or bytes
	V  uint64 `json:"v,omitempty"`
}

type headCase struct {
	Spec *sz.Spec `json:"spec"`
	// Each of the variants is tried by itself.
	Variants []variant `json:"variants"`
	Cuts     bool      `json:"cuts,omitempty"` // at every byte
	Ids      bool      `json:"ids,omitempty"`  // every id replaced by every other
	Nums     bool      `json:"nums,omitempty"` // every number replaced by the nearest others
}

type variant struct {
	Ch     []change `json:"ch"`
	Packed bool     `json:"packed,omitempty"` // in a packed header
	Outer  bool     `json:"outer,omitempty"`  // change the description of the packed header instead
}

func drawChange(t *rapid.T) change {
	c := change{At: drawInt(t, 0, 1<<20-1, "at")}

	c.K = rapid.SampledFrom([]string{"num", "num", "num", "num", "id", "id", "id", "raw", "cut", "del", "dup", "swap", "ins", "name", "nameless", "copy", "append"}).Draw(t, "k")

	switch c.K {
	case "num":
		c.V = rapid.OneOf(
			rapid.Uint64Range(0, 5),
			rapid.SampledFrom([]uint64{1<<64 - 1, 1<<64 - 2, 6, 7, 8, 16, 31, 32, 33, 127, 128, 255, 256, 1 << 14, 1 << 31, 1 << 32, 1 << 62, 1 << 63}),
			rapid.Uint64(),
		).Draw(t, "v")
		// An odd value is relative
		c.V = c.V<<1 | uint64(drawInt(t, 0, 1, "relative"))
	case "id", "ins", "raw":
		c.V = rapid.OneOf(rapid.Uint64Range(0, 25), rapid.Uint64Range(0, 255)).Draw(t, "v")
	case "name", "copy", "append":
		c.V = rapid.Uint64Range(0, 1<<20-1).Draw(t, "v")
	}

	return c
}

var numbers = regexp.MustCompile(`-?(0x[0-9a-f]+|[0-9]+)`)

func init() {
	register("C25", "well-formed headers of drawn archives with 1 to 3 alterations each of their tokens (another id, number, flag, bit mask; tokens removed, doubled, exchanged, inserted, copied; names added or removed; cut short at any or every byte), with all checksums made right again, in plain and packed headers and in the description of packed headers; an independent parser written from the format decides: what breaks the grammar has to be refused, what is well-formed has to open with exactly the items it describes, what it leaves open is only tried; non-trivial = at least one variant that has to be refused",
		func(t *rapid.T) *headCase {
			g := def()
			g.maxFile = 40
			g.maxEntries = 6
			c := &headCase{Spec: drawSpec(t, g)}
			c.Spec.Layout.Prefix, c.Spec.Layout.Decoys = sz.Data{}, nil
			c.Spec.Layout.Bare = false

			if oneIn(t, 10, "nofiles") {
				c.Spec.Entries, c.Spec.Folders = nil, nil
			}

			c.Cuts = oneIn(t, 8, "cuts")
			c.Ids = oneIn(t, 8, "ids")
			c.Nums = oneIn(t, 8, "nums")

			for range drawInt(t, 1, 20, "variants") {
				var v variant

				if v.Packed = oneIn(t, 6, "packed"); v.Packed {
					v.Outer = drawBool(t, "outer")
				}

				for range rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "changes") {
					v.Ch = append(v.Ch, drawChange(t))
				}

				c.Variants = append(c.Variants, v)
			}

			return c
		},
		runHead)
}

// alter applies changes to tokens; the rest, cuts, is left for the bytes.
func alter(ts []sz.Tok, ch []change) []sz.Tok {
	ts = slices.Clone(ts)

	pick := func(at int, ok func(sz.Tok) bool) int {
		var is []int

		for i, x := range ts {
			if ok(x) {
				is = append(is, i)
			}
		}

		if len(is) == 0 {
			return -1
		}

		return is[at*len(is)>>20]
	}
	isID := func(x sz.Tok) bool { return x.Tag == "id" }
	isNum := func(x sz.Tok) bool { return x.Num }
	isRaw := func(x sz.Tok) bool { return x.Tag == "raw" && len(x.Raw) > 0 }
	any := func(sz.Tok) bool { return true }

	for _, c := range ch {
		switch c.K {
		case "num":
			if i := pick(c.At, isNum); i >= 0 {
				v := c.V >> 1
				if c.V&1 == 1 {
					v = uint64(int64(ts[i].V) + int64(v<<1)>>1)
				}

				ts[i].V, ts[i].Raw = v, sz.EncodeNum(v, 0)
			}
		case "id":
			if i := pick(c.At, isID); i >= 0 {
				ts[i].Raw = []byte{byte(c.V)}
			}
		case "raw":
			if i := pick(c.At, isRaw); i >= 0 {
				r := bytes.Clone(ts[i].Raw)
				r[c.At%len(r)] ^= byte(c.V) | 1
				ts[i].Raw = r
			}
		case "del":
			if i := pick(c.At, any); i >= 0 {
				ts = slices.Delete(ts, i, i+1)
			}
		case "dup":
			if i := pick(c.At, any); i >= 0 {
				ts = slices.Insert(ts, i, ts[i])
			}
		case "swap":
			if i := pick(c.At, any); i > 0 {
				ts[i-1], ts[i] = ts[i], ts[i-1]
			}
		case "ins":
			if i := pick(c.At, any); i >= 0 {
				ts = slices.Insert(ts, i, sz.Tok{Raw: []byte{byte(c.V)}, Tag: "id"})
			}
		case "copy":
			if i, j := pick(c.At, any), pick(int(c.V), any); i >= 0 {
				if isNum(ts[i]) {
					j = pick(int(c.V), isNum)
				}

				ts[i] = ts[j]
			}
		case "append":
			ts = append(ts, sz.Tok{Raw: bytes.Repeat([]byte{byte(c.V)}, 1+int(c.V>>8)%4), Tag: "raw"})
		case "name", "nameless":
			// The names follow their property's id, length and a zero
			for i := 3; i < len(ts); i++ {
				r := ts[i].Raw
				if ts[i].Tag != "raw" || len(r) < 2 || !isID(ts[i-1]) || !isNum(ts[i-2]) || !isID(ts[i-3]) || ts[i-3].Raw[0] != 17 || ts[i-2].V != uint64(len(r))+1 {
					continue
				}

				if r = bytes.Clone(r); c.K == "name" {
					at := int(c.V) * (len(r)/2 + 1) >> 20 * 2
					r = slices.Insert(r, at, 0, 0)
				} else {
					// Join two names or drop the last one
					var ends []int

					for j := 0; j+1 < len(r); j += 2 {
						if r[j]|r[j+1] == 0 {
							ends = append(ends, j)
						}
					}

					if len(ends) == 0 {
						continue
					}

					if k := c.At * len(ends) >> 20; k == len(ends)-1 {
						from := 0
						if k > 0 {
							from = ends[k-1] + 2
						}

						r = r[:from]
					} else {
						r = slices.Delete(r, ends[k], ends[k]+2)
					}
				}

				ts[i].Raw = r
				n := uint64(len(r)) + 1
				ts[i-2].V, ts[i-2].Raw = n, sz.EncodeNum(n, 0)

				break
			}
		}
	}

	return ts
}

func cutBytes(b []byte, ch []change) []byte {
	for _, c := range ch {
		if c.K == "cut" {
			b = b[:c.At*len(b)>>20]
		}
	}

	return b
}

func checkListed(files []*sevenzip.File, want []sz.Listed) error {
	if len(files) != len(want) {
		return fmt.Errorf("%d files listed instead of %d", len(files), len(want))
	}

	for i, f := range files {
		w := want[i]
		if !w.NoName && strings.TrimSuffix(f.Name, "/") != strings.TrimSuffix(w.Name, "/") {
			return fmt.Errorf("file %d: name %q instead of %q", i, f.Name, w.Name)
		}

		if f.UncompressedSize != w.Size || f.CRC32 != w.CRC || f.Attributes != w.Attr {
			return fmt.Errorf("file %d: size %d, checksum %#x, attributes %#x instead of %d, %#x, %#x", i, f.UncompressedSize, f.CRC32, f.Attributes, w.Size, w.CRC, w.Attr)
		}

		if !f.Created.Equal(w.C) || !f.Accessed.Equal(w.A) || !f.Modified.Equal(w.M) {
			return fmt.Errorf("file %d: times %v %v %v instead of %v %v %v", i, f.Created, f.Accessed, f.Modified, w.C, w.A, w.M)
		}
	}

	return nil
}

func runHead(c *headCase, o *Out) error {
	b := sz.Build(c.Spec)
	plain := sz.Bytes(b.Header)

	if v, why, l := sz.ParseHeader(plain); v != sz.Valid && why != "streams without files" {
		return herr("the parser finds a header it shouldn't %d: %s", v, why)
	} else if v == sz.Valid && len(l) != len(b.Files) {
		return herr("the parser finds %d of %d files", len(l), len(b.Files))
	}

	try := func(head []byte, node *sz.Node, what string, args ...any) error {
		v, why, l := sz.ParseHeader(head)
		raw, _ := b.WithHeader(head, node, 0, nil)
		r, err := open(raw, c.Spec.Password)
		o.Evals++

		reason := numbers.ReplaceAllString(why, "#")

		switch v {
		case sz.Invalid:
			o.NonTrivial = true
			o.class("refuse:%s", reason)

			if err == nil {
				return fmt.Errorf("%s: header opens with %d files, but is malformed: %s", fmt.Sprintf(what, args...), len(r.File), why)
			}
		case sz.Valid:
			o.class("valid")

			if err != nil {
				return fmt.Errorf("%s: the header is well-formed: %w", fmt.Sprintf(what, args...), err)
			}

			if err := checkListed(r.File, l); err != nil {
				return fmt.Errorf("%s: well-formed header: %w", fmt.Sprintf(what, args...), err)
			}
		default:
			o.class("open:%s", reason)
		}

		if err != nil && r != nil {
			return fmt.Errorf("%s: error together with a reader", fmt.Sprintf(what, args...))
		}

		return nil
	}

	node := c.Spec.Layout.Header
	if node == nil {
		node = &sz.Node{M: "copy"}
	}

	for _, v := range c.Variants {
		if v.Outer {
			var pristine []byte

			raw, outer := b.WithHeader(plain, node, 0, func(ts []sz.Tok) []sz.Tok {
				pristine = sz.Bytes(ts)
				ts = alter(ts, v.Ch)

				return []sz.Tok{{Raw: cutBytes(sz.Bytes(ts), v.Ch)}}
			})

			r, err := open(raw, c.Spec.Password)
			o.Evals++

			if len(outer) == 0 {
				continue
			}

			if verdict, why := sz.ParseEncoded(outer); verdict == sz.Invalid {
				o.NonTrivial = true
				o.class("refuse-packed")

				if err == nil {
					return fmt.Errorf("%+v: description %x of the packed header opens with %d files, but is malformed: %s", v.Ch, outer, len(r.File), why)
				}
			} else if bytes.Equal(pristine, outer) {
				if err != nil {
					return fmt.Errorf("unaltered packed header: %w", err)
				}
			}

			continue
		}

		head := cutBytes(sz.Bytes(alter(b.Header, v.Ch)), v.Ch)
		if len(head) == 0 {
			continue
		}

		var n *sz.Node
		if v.Packed {
			n = node
			o.class("packed")
		}

		if err := try(head, n, "%+v", v.Ch); err != nil {
			return err
		}
	}

	if c.Cuts && len(plain) < 1000 {
		o.class("every-cut")

		for i := 1; i < len(plain); i++ {
			if err := try(plain[:i], nil, "cut to %d of %d bytes", i, len(plain)); err != nil {
				return err
			}
		}
	}

	each := func(ok func(sz.Tok) bool, f func(i int, x sz.Tok) []sz.Tok) error {
		for i, x := range b.Header {
			if !ok(x) {
				continue
			}

			for _, y := range f(i, x) {
				ts := slices.Clone(b.Header)
				ts[i] = y

				if err := try(sz.Bytes(ts), nil, "token %d is %x instead of %x", i, y.Raw, x.Raw); err != nil {
					return err
				}
			}
		}

		return nil
	}

	if c.Ids && len(plain) < 1000 {
		o.class("every-id")

		if err := each(func(x sz.Tok) bool { return x.Tag == "id" }, func(_ int, _ sz.Tok) (ys []sz.Tok) {
			for v := range 27 {
				ys = append(ys, sz.Tok{Raw: []byte{byte(v)}, Tag: "id"})
			}

			return ys
		}); err != nil {
			return err
		}
	}

	if c.Nums && len(plain) < 1000 {
		o.class("every-number")

		if err := each(func(x sz.Tok) bool { return x.Num }, func(_ int, x sz.Tok) (ys []sz.Tok) {
			for _, v := range []uint64{0, 1, 2, x.V - 1, x.V + 1, x.V + 2, 1<<64 - 1} {
				ys = append(ys, sz.Tok{Num: true, V: v, Raw: sz.EncodeNum(v, 0)})
			}

			return ys
		}); err != nil {
			return err
		}
	}

	return nil
}
