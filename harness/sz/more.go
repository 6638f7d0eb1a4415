package sz

import "fmt"

// More stands for many further entries.
type More struct {
	N    int    `json:"n"`
	Seed uint64 `json:"seed,omitempty"`
	// Mode is 0 for entries without content, 1 for files in the last
	// stream, 2 for a stream each and 3 for a mixture.
	Mode int `json:"mode,omitempty"`
	// Meta records times and attributes for most of them.
	Meta bool `json:"meta,omitempty"`
	Name int  `json:"name,omitempty"` // further length of names, or some are empty when negative
}

// Expand returns a specification with the entries at the end.
func (s *Spec) Expand(m *More) *Spec {
	if m == nil {
		return s
	}

	c := *s
	c.Entries = append([]Entry(nil), s.Entries...)
	c.Folders = append([]Folder(nil), s.Folders...)
	r := Rng(m.Seed)

	last := -1

	for i, f := range c.Folders {
		if f.N > 0 {
			last = i
		}
	}

	for i := range m.N {
		e := Entry{Kind: []int{EEmpty, EEmpty, EDir}[r.N(3)]}
		b := []byte(fmt.Sprintf("m%d", i))

		for range m.Name {
			b = append(b, "0123456789abcdef"[r.N(16)])
		}

		if m.Name < 0 && r.N(1-m.Name) == 0 {
			b = nil
		}

		e.Name = string(b)

		mode := m.Mode
		if mode == 3 {
			mode = r.N(3)
		}

		if mode == 1 && last < 0 {
			mode = 2
		}

		if mode > 0 {
			e.Kind = EData
			e.Data = Data{K: r.N(NKinds), S: r.U64(), N: 1 + r.N(20)}
		}

		switch mode {
		case 1:
			c.Folders[last].N++
		case 2:
			last = len(c.Folders)
			c.Folders = append(c.Folders, Folder{Root: &Node{M: "copy"}, N: 1, FolderCRC: r.N(2) == 0})
		}

		if m.Meta {
			for _, p := range []**uint64{&e.C, &e.A, &e.M} {
				if r.N(8) != 0 {
					v := r.U64() >> 2
					*p = &v
				}
			}

			if r.N(8) != 0 {
				v := []uint32{0x20, 0x81a48000, 0x21, 0x80}[r.N(4)]
				if e.Kind == EDir {
					v = 0x10
				}

				e.Attr = &v
			}
		}

		c.Entries = append(c.Entries, e)
	}

	return &c
}
