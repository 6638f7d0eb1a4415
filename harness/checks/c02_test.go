package checks

import (
	"fmt"

	"pgregory.net/rapid"
	"verifharness/sz"
)

var cheap = []string{"copy", "copy", "delta", "deflate", "lz4"}

func init() {
	register("C02", "an archive of 0-40 items, one in 100 of up to 5000 (files, empty files, directories) is generated with random names over all of Unicode, random subsets of times and attributes (every 64/32 bit pattern), random streams; the listing is compared field by field with the specification; non-trivial = at least one optional property is recorded for some but not all items, two kinds of item are mixed or there are none",
		func(t *rapid.T) *specCase {
			if oneIn(t, 30, "nofiles") {
				g := def()
				g.aes, g.password = true, true
				s := &sz.Spec{Layout: drawLayout(t, g), Password: drawPassword(t)}

				switch drawInt(t, 0, 2, "nothing") {
				case 0:
					s.Layout.Bare = true
				case 1:
					s.Folders = []sz.Folder{{Root: drawNode(t, g, 1), Orphan: drawData(t, 1, 200, "orphan")}}
				}

				if oneIn(t, 3, "suffix") {
					s.Layout.Suffix = drawData(t, 1, 300, "suffixdata")
				}

				return &specCase{Spec: s}
			}

			g := def()
			g.methods = cheap
			g.trees = false
			g.maxEntries = rapid.SampledFrom([]int{3, 8, 17, 40}).Draw(t, "max")
			g.minData = drawInt(t, 0, 3, "mindata")
			g.maxFolders = rapid.SampledFrom([]int{1, 4, 20}).Draw(t, "folders")
			g.maxFile = 40
			s := drawSpec(t, g)

			if oneIn(t, 10, "longname") {
				i := drawInt(t, 0, len(s.Entries)-1, "which")
				n := drawInt(t, 1000, 15000, "namelen")
				r := drawSeed(t, "nameseed")
				rn := sz.Rng(r)
				b := make([]rune, n)

				for j := range b {
					b[j] = nameRunes[rn.N(len(nameRunes))]
				}

				s.Entries[i].Name = string(b)
			}

			c := &specCase{Spec: s}

			if drawInt(t, 0, 99, "more") == 66 {
				c.More = drawMore(t, 5000)

				if drawBool(t, "emptynames") {
					c.More.Name = -drawInt(t, 1, 20, "emptyname")
				}

				// More than a 16 bit number counts
				if drawInt(t, 0, 19, "most") == 13 {
					c.More.N = drawInt(t, 65500, 70000, "mostn")
					c.More.Name = min(c.More.Name, 3)
				}
			}

			return c
		},
		func(c *specCase, o *Out) error {
			if c.More != nil {
				o.class("many")

				if c.More.N > 65536 {
					o.class("over 65536")
				}
			}

			c = &specCase{Spec: c.Spec.Expand(c.More)}
			b := sz.Build(c.Spec)
			specClasses(c.Spec, o)

			kinds := map[int]bool{}

			var cnt [4]int

			for _, e := range c.Spec.Entries {
				kinds[e.Kind] = true

				for i, p := range []*uint64{e.C, e.A, e.M} {
					if p != nil {
						cnt[i]++
					}
				}

				if e.Attr != nil {
					cnt[3]++
				}
			}

			for i, n := range cnt {
				if n > 0 && n < len(c.Spec.Entries) {
					o.NonTrivial = true
					o.class("partial:%d", i)
				}
			}

			if len(c.Spec.Entries) == 0 {
				o.NonTrivial = true
				o.class("no files")
			}

			if len(kinds) > 1 {
				o.NonTrivial = true
			}

			r, err := open(b.Raw, c.Spec.Password)
			if err != nil {
				return fmt.Errorf("open archive: %w", err)
			}

			return checkList(r.File, b.Files)
		})
}
