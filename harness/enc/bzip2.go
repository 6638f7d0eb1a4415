package enc

import "sort"

type bitw struct {
	out []byte
	acc uint64
	n   uint
}

func (w *bitw) bits(v uint64, n uint) {
	for n > 32 {
		n -= 32
		w.bits(v>>n, 32)
		v &= 1<<n - 1
	}

	w.acc = w.acc<<n | v
	w.n += n

	for w.n >= 8 {
		w.n -= 8
		w.out = append(w.out, byte(w.acc>>w.n))
		w.acc &= 1<<w.n - 1
	}
}

func (w *bitw) flush() {
	if w.n > 0 {
		w.bits(0, 8-w.n)
	}
}

func bzCRC(crc uint32, b byte) uint32 {
	crc ^= uint32(b) << 24
	for range 8 {
		if crc&0x80000000 != 0 {
			crc = crc<<1 ^ 0x04c11db7
		} else {
			crc <<= 1
		}
	}

	return crc
}

// bwt returns the last column of the sorted rotations and the row of the
// original string.
func bwt(s []byte) ([]byte, int) {
	n := len(s)
	sa, rank, tmp := make([]int, n), make([]int, n), make([]int, n)

	for i := range s {
		sa[i], rank[i] = i, int(s[i])
	}

	for k := 1; ; k *= 2 {
		cmp := func(a, b int) int {
			if rank[a] != rank[b] {
				return rank[a] - rank[b]
			}

			return rank[(a+k)%n] - rank[(b+k)%n]
		}

		sort.Slice(sa, func(i, j int) bool {
			c := cmp(sa[i], sa[j])
			if c != 0 {
				return c < 0
			}

			return sa[i] < sa[j]
		})

		tmp[sa[0]] = 0
		for i := 1; i < n; i++ {
			tmp[sa[i]] = tmp[sa[i-1]]
			if cmp(sa[i-1], sa[i]) != 0 {
				tmp[sa[i]]++
			}
		}

		copy(rank, tmp)

		if rank[sa[n-1]] == n-1 || k >= n {
			break
		}
	}

	out := make([]byte, n)
	ptr := 0

	for i, p := range sa {
		out[i] = s[(p+n-1)%n]
		if p == 0 {
			ptr = i
		}
	}

	return out, ptr
}

func huffLengths(freq []int, limit int) []int {
	n := len(freq)
	f := make([]int, n)

	for i := range freq {
		f[i] = freq[i]
		if f[i] == 0 {
			f[i] = 1
		}
	}

	for {
		type node struct{ w, l, r int }

		nodes := make([]node, n, 2*n)
		live := make([]int, n)

		for i := range f {
			nodes[i] = node{f[i], -1, -1}
			live[i] = i
		}

		for len(live) > 1 {
			sort.SliceStable(live, func(a, b int) bool { return nodes[live[a]].w > nodes[live[b]].w })
			a, b := live[len(live)-1], live[len(live)-2]
			live = live[:len(live)-2]
			nodes = append(nodes, node{nodes[a].w + nodes[b].w, a, b})
			live = append(live, len(nodes)-1)
		}

		lens := make([]int, n)
		maxl := 0

		var walk func(i, d int)
		walk = func(i, d int) {
			if nodes[i].l < 0 {
				if d == 0 {
					d = 1
				}

				lens[i] = d
				maxl = max(maxl, d)

				return
			}

			walk(nodes[i].l, d+1)
			walk(nodes[i].r, d+1)
		}
		walk(live[0], 0)

		if maxl <= limit {
			return lens
		}

		for i := range f {
			f[i] = f[i]/2 + 1
		}
	}
}

// Bzip2 compresses data. level is 1..9 (declared block size), block the
// number of input bytes put in one block at most, tables the number of
// Huffman tables (2..6).
func Bzip2(data []byte, level, block, tables int) []byte {
	if block < 1 {
		block = 1
	}

	if block > level*100000*4/5-64 {
		block = level*100000*4/5 - 64
	}

	w := &bitw{}
	w.bits(0x425a68, 24)
	w.bits(uint64('0'+level), 8)

	var combined uint32

	for len(data) > 0 {
		chunk := data[:min(block, len(data))]
		data = data[len(chunk):]

		crc := uint32(0xffffffff)
		for _, b := range chunk {
			crc = bzCRC(crc, b)
		}

		crc = ^crc
		combined = (combined<<1 | combined>>31) ^ crc

		// RLE1
		var rle []byte

		for i := 0; i < len(chunk); {
			j := i
			for j < len(chunk) && j-i < 4+255 && chunk[j] == chunk[i] {
				j++
			}

			run := j - i
			for k := 0; k < min(run, 4); k++ {
				rle = append(rle, chunk[i])
			}

			if run >= 4 {
				rle = append(rle, byte(run-4))
			}

			i = j
		}

		last, ptr := bwt(rle)

		var used [256]bool
		for _, b := range last {
			used[b] = true
		}

		var syms []byte

		for i := range 256 {
			if used[i] {
				syms = append(syms, byte(i))
			}
		}

		// MTF + RLE2
		mtf := append([]byte(nil), syms...)
		eob := len(syms) + 1

		var codes []int

		zero := 0
		flushZero := func() {
			for zero > 0 {
				if zero&1 == 1 {
					codes = append(codes, 0)
					zero = (zero - 1) / 2
				} else {
					codes = append(codes, 1)
					zero = (zero - 2) / 2
				}
			}
		}

		for _, b := range last {
			i := 0
			for mtf[i] != b {
				i++
			}

			copy(mtf[1:i+1], mtf[:i])
			mtf[0] = b

			if i == 0 {
				zero++

				continue
			}

			flushZero()

			codes = append(codes, i+1)
		}

		flushZero()

		codes = append(codes, eob)

		alpha := eob + 1
		groups := (len(codes) + 49) / 50
		sel := make([]int, groups)
		lens := make([][]int, tables)

		for t := range tables {
			f := make([]int, alpha)

			for g := t; g < groups; g += tables {
				for _, c := range codes[g*50 : min(len(codes), g*50+50)] {
					f[c]++
				}
			}

			lens[t] = huffLengths(f, 17)
		}

		for g := range groups {
			sel[g] = g % tables
		}

		w.bits(0x314159265359, 48)
		w.bits(uint64(crc), 32)
		w.bits(0, 1)
		w.bits(uint64(ptr), 24)

		var m16 uint64

		for i := range 16 {
			for j := range 16 {
				if used[i*16+j] {
					m16 |= 1 << (15 - i)
				}
			}
		}

		w.bits(m16, 16)

		for i := range 16 {
			if m16&(1<<(15-i)) == 0 {
				continue
			}

			var m uint64

			for j := range 16 {
				if used[i*16+j] {
					m |= 1 << (15 - j)
				}
			}

			w.bits(m, 16)
		}

		w.bits(uint64(tables), 3)
		w.bits(uint64(groups), 15)

		order := make([]int, tables)
		for i := range order {
			order[i] = i
		}

		for _, s := range sel {
			i := 0
			for order[i] != s {
				i++
			}

			copy(order[1:i+1], order[:i])
			order[0] = s

			for range i {
				w.bits(1, 1)
			}

			w.bits(0, 1)
		}

		hcodes := make([][]uint64, tables)

		for t, l := range lens {
			cur := l[0]
			w.bits(uint64(cur), 5)

			for _, x := range l {
				for cur < x {
					w.bits(2, 2)
					cur++
				}

				for cur > x {
					w.bits(3, 2)
					cur--
				}

				w.bits(0, 1)
			}

			hc := make([]uint64, alpha)
			code := uint64(0)

			for n := 1; n <= 20; n++ {
				for s := range alpha {
					if l[s] == n {
						hc[s] = code
						code++
					}
				}

				code <<= 1
			}

			hcodes[t] = hc
		}

		for i, c := range codes {
			t := sel[i/50]
			w.bits(hcodes[t][c], uint(lens[t][c]))
		}
	}

	w.bits(0x177245385090, 48)
	w.bits(uint64(combined), 32)
	w.flush()

	return w.out
}
