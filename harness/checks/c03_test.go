package checks

import (
	"fmt"

	"pgregory.net/rapid"
	"verifharness/sz"
)

type layoutCase struct {
	Spec    *sz.Spec    `json:"spec"`
	Layouts []sz.Layout `json:"layouts"`
	Orders  []uint64    `json:"orders"`
	More    *sz.More    `json:"more,omitempty"`
}

func init() {
	register("C03", "one logical archive (one in 100 of up to 3000 items) is written with three independently drawn header encodings (plain/compressed/encrypted header, digests, masks in short or long form, padded numbers, gaps, dummy records, record and coder order) and all must give the specified listing and contents; non-trivial = the encodings differ in their bytes and there is at least one file with content",
		func(t *rapid.T) *layoutCase {
			g := def()
			g.maxFile = 300
			g.maxEntries = 12
			g.layouts = false
			c := &layoutCase{Spec: drawSpec(t, g)}

			if drawInt(t, 0, 99, "more") == 66 {
				c.More = drawMore(t, 3000)
			}

			for range 3 {
				c.Layouts = append(c.Layouts, drawLayout(t, g))
				c.Orders = append(c.Orders, drawSeed(t, "order"))
			}

			if c.Spec.Password == "" {
				for _, l := range c.Layouts {
					if l.Header != nil && l.Header.Has("aes") {
						c.Spec.Password = drawPassword(t)

						break
					}
				}
			}

			return c
		},
		func(c *layoutCase, o *Out) error {
			specClasses(c.Spec, o)

			if c.More != nil {
				o.class("many")
			}

			var last []byte

			for i, l := range c.Layouts {
				s := *c.Spec.Expand(c.More)
				s.Folders = append([]sz.Folder(nil), s.Folders...)
				s.Layout = l

				for j := range s.Folders {
					if s.Folders[j].Order != 0 {
						s.Folders[j].Order = c.Orders[i]
					}
				}

				b := sz.Build(&s)

				if l.Header != nil {
					o.class("encoded-header")
					l.Header.Walk(func(n *sz.Node) { o.class("header:%s", n.M) })
				}

				if err := checkArchive(b.Raw, s.Password, b.Files); err != nil {
					return fmt.Errorf("encoding %d: %w", i, err)
				}

				if last != nil && string(last) != string(b.Raw) && len(s.Folders) > 0 {
					o.NonTrivial = true
				}

				last = b.Raw
				o.Evals++
			}

			return nil
		})
}
