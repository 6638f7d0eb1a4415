package checks

import (
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/bodgit/sevenzip"
	"pgregory.net/rapid"
	"verifharness/enc"
	"verifharness/sz"
)

type cryptCase struct {
	Arch []*sz.Spec `json:"arch"`
	Ops  []cryptOp  `json:"ops"`
}

type cryptOp struct {
	A    int    `json:"a"`
	Pw   string `json:"pw,omitempty"` // instead of the right one
	Use  bool   `json:"use,omitempty"`
	Part int    `json:"part,omitempty"`
	Keep bool   `json:"keep,omitempty"` // stay on the reader opened before
}

// costly is encrypted content whose key takes 2^25 rounds or more.
// nearby returns a copy of v with one element replaced, added or removed.
func nearby[T any](t *rapid.T, v []T, by []T) []T {
	v = append([]T{}, v...)
	x := rapid.SampledFrom(by).Draw(t, "by")

	switch k := drawInt(t, 0, 3, "edit"); {
	case len(v) == 0 || k == 0:
		i := drawInt(t, 0, len(v), "at")
		v = append(v[:i], append([]T{x}, v[i:]...)...)
	case k == 1:
		i := drawInt(t, 0, len(v)-1, "at")
		v = append(v[:i], v[i+1:]...)
	case k == 2:
		v[drawInt(t, 0, len(v)-1, "at")] = x
	default:
		v = append(v, x)
	}

	return v
}

func init() {
	sz.Custom["costly"] = func(_ *sz.Node, data []byte) [][]byte {
		return [][]byte{append(append([]byte{}, data...), make([]byte, (16-len(data)%16)%16)...)}
	}

	register("C17", "1-14 encrypted archives (content, header or both; AES alone or under and over other methods) whose passwords (any Unicode), salts (0-16 bytes), IVs (0-16 bytes) and cycle powers (0-12 and raw, some up to 24) are drawn from small shared pools, so that keys differ in one ingredient at a time or in how the same text is divided into ingredients, and exceed the key cache; a history opens and reads them repeatedly, whole or in part, with the right password and with others of the pool; the right one has to restore listing and content exactly, another key must not; powers 25-62 have to be refused at once; non-trivial = at least two operations or a refused power",
		func(t *rapid.T) *cryptCase {
			c := &cryptCase{}
			pws := rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom(passwords), rapid.StringN(0, 20, 60)), 1, 4).Draw(t, "pws")
			salts := rapid.SliceOfN(rapid.SliceOfN(rapid.Byte(), 0, 16), 1, 4).Draw(t, "salts")
			ivs := rapid.SliceOfN(rapid.SliceOfN(rapid.Byte(), 0, 16), 1, 3).Draw(t, "ivs")

			if oneIn(t, 3, "ambiguous") {
				// Ingredients that are the same once put after each other.
				h := []byte(rapid.StringMatching("[0-9a-f]{2,24}").Draw(t, "hex"))
				h = h[:len(h)&^1]
				base := rapid.SampledFrom(append([]string{"", "pw"}, passwords...)).Draw(t, "base")
				pws, salts = nil, nil

				for range drawInt(t, 2, 4, "splits") {
					k := drawInt(t, 0, len(h)/2, "split") * 2
					pws = append(pws, base+string(h[:k]))

					salt, _ := hex.DecodeString(string(h[k:]))
					salts = append(salts, salt)

					if drawBool(t, "text") {
						salts = append(salts, h[k:min(len(h), k+16)])
					}
				}
			}

			if drawBool(t, "near") {
				// Ones that hardly differ.
				pw := []rune(rapid.SampledFrom(pws).Draw(t, "nearpw"))
				if drawBool(t, "longpw") {
					pw = append(pw, []rune(strings.Repeat("pass word ", drawInt(t, 1, 30, "repeat")))...)
					pws = append(pws, string(pw))
				}

				pws = append(pws, string(nearby(t, pw, []rune{0, ' ', 'A', 'a', 0xe9, 0x10e9, 0x100e9})))

				salt := rapid.SampledFrom(salts).Draw(t, "nearsalt")
				if drawBool(t, "longsalt") {
					salt = append(salt[:len(salt):len(salt)], rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "saltend")...)[:16]
					salts = append(salts, salt)
				}

				salt = nearby(t, salt, []byte{0, 1, 0xff})
				salts = append(salts, salt[:min(len(salt), 16)])

				iv := nearby(t, rapid.SampledFrom(ivs).Draw(t, "neariv"), []byte{0, 1, 0xff})
				ivs = append(ivs, iv[:min(len(iv), 16)])
			}

			powers := rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 10), rapid.Just(0x3f), rapid.IntRange(0, 12)), 1, 4).Draw(t, "powers")

			if oneIn(t, 20, "high") {
				powers[0] = drawInt(t, 13, 17, "highpower")
			}

			if oneIn(t, 150, "higher") {
				powers = []int{drawInt(t, 18, 19, "higherpower")}
			}

			// The highest one takes seconds
			if drawInt(t, 0, 999, "highest") == 500 || os.Getenv("VERIF_TIER") == "thorough" && oneIn(t, 1000, "highest") {
				powers = []int{drawInt(t, 20, 24, "highestpower")}
			}

			aes := func() *sz.Node {
				return &sz.Node{M: "aes", A: rapid.SampledFrom(powers).Draw(t, "power"), Salt: rapid.SampledFrom(salts).Draw(t, "salt"), IV: rapid.SampledFrom(ivs).Draw(t, "iv")}
			}

			n := 1
			if powers[0] < 18 || powers[0] == 0x3f {
				n = drawInt(t, 1, rapid.SampledFrom([]int{2, 5, 14}).Draw(t, "maxarch"), "archives")
			}

			for range n {
				s := &sz.Spec{Layout: sz.Layout{Minor: 4, HeaderCRC: true}, Password: rapid.SampledFrom(pws).Draw(t, "pw")}

				for i := range drawInt(t, 1, 3, "files") {
					s.Entries = append(s.Entries, sz.Entry{Name: fmt.Sprintf("f%d", i), Data: drawData(t, 1, rapid.SampledFrom([]int{20, 100, 3000}).Draw(t, "max"), "data")})
				}

				left := len(s.Entries)

				for left > 0 {
					f := sz.Folder{N: drawInt(t, 1, left, "solid")}
					left -= f.N
					f.Root = aes()

					if drawBool(t, "compressed") {
						g := def()
						g.methods = []string{"lzma2", "deflate", "copy", "bcj", "delta", "lz4", "zstd"}
						m := drawNode(t, g, 0)
						m.In = []*sz.Node{f.Root}
						f.Root = m
					}

					if oneIn(t, 8, "twice") {
						m := aes()
						m.In = []*sz.Node{f.Root}
						f.Root = m
					}

					s.Folders = append(s.Folders, f)
				}

				if drawBool(t, "header") {
					s.Layout.Header = aes()
				}

				if oneIn(t, 25, "refused") {
					k := drawInt(t, 25, 62, "toohigh")
					s.Folders[0].Root = &sz.Node{M: "costly", ID: sz.MethodID("aes"), Prop: append([]byte{0x40 | byte(k), 0x07}, 1, 2, 3, 4, 5, 6, 7, 8)}
				}

				c.Arch = append(c.Arch, s)
			}

			ops := drawInt(t, 1, 24, "ops")
			if len(powers) == 1 && powers[0] >= 18 && powers[0] != 0x3f {
				ops = drawInt(t, 1, 3, "fewops")
			}

			for range ops {
				o := cryptOp{A: drawInt(t, 0, n-1, "a"), Keep: drawBool(t, "keep")}

				if oneIn(t, 3, "wrong") {
					o.Use = true
					o.Pw = rapid.OneOf(rapid.SampledFrom(pws), rapid.SampledFrom(passwords), rapid.Just(c.Arch[o.A].Password+"x")).Draw(t, "wrongpw")
				}

				if oneIn(t, 3, "partial") {
					o.Part = drawInt(t, 1, 60, "part")
				}

				c.Ops = append(c.Ops, o)
			}

			return c
		},
		runCrypt)
}

// sameKeys tells whether a password gives the same keys as the right one.
func sameKeys(s *sz.Spec, pw string) bool {
	same := true

	cmp := func(n *sz.Node) {
		if n.M == "aes" {
			salt := n.Salt
			same = same && string(enc.AESKey(s.Password, n.A, salt)) == string(enc.AESKey(pw, n.A, salt))
		}
	}

	for _, f := range s.Folders {
		f.Root.Walk(cmp)
	}

	if s.Layout.Header != nil {
		s.Layout.Header.Walk(cmp)
	}

	return same
}

func runCrypt(c *cryptCase, o *Out) error {
	built := make([]*sz.Built, len(c.Arch))
	for i, s := range c.Arch {
		built[i] = sz.Build(s)
	}

	o.class("archives:%s", bucket(len(built)))
	o.NonTrivial = len(c.Ops) > 1
	o.Evals = len(c.Ops)

	readers := make([]*sevenzip.Reader, len(built))

	for k, op := range c.Ops {
		b, s := built[op.A], c.Arch[op.A]

		pw := s.Password
		if op.Use {
			pw = op.Pw
		}

		right := pw == s.Password || sameKeys(s, pw)
		where := fmt.Sprintf("step %d, archive %d, password %q (right %v)", k, op.A, pw, right)
		o.class("right:%v", right)

		r := readers[op.A]

		if r == nil || !op.Keep || op.Use {
			var err error

			r, err = sevenzip.NewReaderWithPassword(newBytesAt(b.Raw), int64(len(b.Raw)), pw)
			if err != nil {
				if right {
					return fmt.Errorf("%s: open archive: %w", where, err)
				}

				continue
			}

			if !op.Use {
				readers[op.A] = r
			}
		}

		if !right && s.Layout.Header != nil {
			// opens only when the header's key is the same
			if h := s.Layout.Header; string(enc.AESKey(pw, h.A, h.Salt)) != string(enc.AESKey(s.Password, h.A, h.Salt)) {
				return fmt.Errorf("%s: encrypted header opens", where)
			}
		}

		if err := checkList(r.File, b.Files); err != nil {
			return fmt.Errorf("%s: %w", where, err)
		}

		for i, f := range r.File {
			w := b.Files[i].Data
			root := s.Folders[b.Files[i].Folder].Root

			if root.M == "costly" {
				o.NonTrivial = true
				o.class("refused")

				t := time.Now()

				rc, err := f.Open()
				if err == nil {
					_ = rc.Close()

					return fmt.Errorf("%s: file %d with cycle power %d opens", where, i, root.Prop[0]&0x3f)
				}

				var re *sevenzip.ReadError
				if !errors.As(err, &re) || !re.Encrypted {
					return fmt.Errorf("%s: file %d with cycle power %d: no encryption hint: %w", where, i, root.Prop[0]&0x3f, err)
				}

				if d := time.Since(t); d > 20*time.Second {
					return fmt.Errorf("%s: refusing cycle power %d takes %v", where, root.Prop[0]&0x3f, d)
				}

				continue
			}

			if op.Part > 0 {
				rc, err := f.Open()
				if err == nil {
					p := make([]byte, min(op.Part, len(w)))

					n, err2 := readFull(rc, p)
					if right && (n != len(p) || string(p) != string(w[:n])) {
						return fmt.Errorf("%s: file %d: first %d bytes are wrong (%d read, %v)", where, i, len(p), n, err2)
					}

					_ = rc.Close()
				} else if right {
					return fmt.Errorf("%s: file %d: %w", where, i, err)
				}

				continue
			}

			data, err := readFile(f)
			if right {
				if err != nil {
					return fmt.Errorf("%s: file %d, %s: %w", where, i, rootOf(s, b.Files[i].Folder), err)
				}

				if err := sameBytes(data, w); err != nil {
					return fmt.Errorf("%s: file %d, %s: %w", where, i, rootOf(s, b.Files[i].Folder), err)
				}

				continue
			}

			other := false

			root.Walk(func(n *sz.Node) {
				other = other || n.M == "aes" && string(enc.AESKey(s.Password, n.A, n.Salt)) != string(enc.AESKey(pw, n.A, n.Salt))
			})

			if other && len(w) >= 12 && string(data) == string(w) {
				return fmt.Errorf("%s: file %d is decrypted", where, i)
			}
		}
	}

	return nil
}

func readFull(r interface{ Read([]byte) (int, error) }, p []byte) (int, error) {
	n, idle := 0, 0
	for n < len(p) && idle < 1000 {
		k, err := r.Read(p[n:])
		n += k

		if err != nil {
			return n, err
		}

		if k == 0 {
			idle++
		}
	}

	return n, nil
}
