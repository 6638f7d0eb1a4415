// Package sz builds 7-zip archives from a plain, JSON friendly description
// and says what a reader has to make of them.
package sz

// Rng is a splitmix64 generator; every bulk choice derives from drawn seeds.
type Rng uint64

func (r *Rng) U64() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb

	return z ^ z>>31
}

// N returns a value in [0, n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}

	return int(r.U64() % uint64(n))
}

// Perm returns a permutation of [0, n).
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}

	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}

	return p
}

// Data describes bytes: either literal or pseudo random of some kind.
type Data struct {
	K   int    `json:"k,omitempty"`
	S   uint64 `json:"s,omitempty"`
	N   int    `json:"n,omitempty"`
	Lit []byte `json:"lit,omitempty"`
}

// Kinds of pseudo random data.
const (
	KRandom = iota
	KText
	KRuns
	KX86
	KRISC
	KZero
	KPeriodic
	KMixed
	KFar
	NKinds
)

var x86pool = []byte{0xe8, 0xe8, 0xe9, 0x0f, 0x80, 0x85, 0x8f, 0, 0, 0xff, 0xff, 1, 0xfe, 0x0f}

// Bytes generates the data.
func (d Data) Bytes() []byte {
	if d.Lit != nil {
		return d.Lit
	}

	r := Rng(d.S)
	b := make([]byte, d.N)

	switch d.K {
	case KRandom:
		for i := range b {
			b[i] = byte(r.U64() >> 33)
		}
	case KText:
		words := []string{"the ", "quick ", "archive ", "seven ", "zip ", "stream\n", "of ", "bytes. "}
		for i := 0; i < len(b); {
			i += copy(b[i:], words[r.N(len(words))])
		}
	case KRuns:
		for i := 0; i < len(b); {
			c, n := byte(r.N(4)*85), 1+r.N(300)
			for ; n > 0 && i < len(b); n-- {
				b[i] = c
				i++
			}
		}
	case KX86:
		for i := range b {
			if r.N(4) == 0 {
				b[i] = byte(r.U64())
			} else {
				b[i] = x86pool[r.N(len(x86pool))]
			}
		}
	case KRISC:
		for i := 0; i < len(b); i += 4 {
			v := uint32(r.U64())
			w := []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}

			switch r.N(8) {
			case 0:
				w[3] = 0xeb
			case 1:
				w[0], w[3] = 0x48|w[0]&3, w[3]&^3|1
			case 2:
				w[0], w[1] = 0x40, w[1]&0x3f
			case 3:
				w[0], w[1] = 0x7f, w[1]|0xc0
			case 4:
				w[3] = 0x94 | w[3]&3
			case 5:
				w[3] = 0x90 | w[3]&0x60
			case 6:
				w[3] = 0x90 | w[3]&0x60
				if w[2]&0x80 == 0 {
					w[2] &= 0x0f
				} else {
					w[2] |= 0xf0
				}
			}

			copy(b[i:], w)
		}
	case KZero:
	case KPeriodic:
		p := 1 + r.N(64)
		for i := range b {
			if i < p {
				b[i] = byte(r.U64())
			} else {
				b[i] = b[i-p]
			}
		}
	case KFar:
		// Repeats what is anywhere in front of it.
		for i := 0; i < len(b); {
			n := min(len(b)-i, 2+r.N(300))

			if i < 100 || r.N(6) == 0 {
				for j := range n {
					b[i+j] = byte(r.U64() >> 33)
				}
			} else {
				d := 1 + r.N(i)
				for j := range n {
					b[i+j] = b[i+j-d]
				}
			}

			i += n
		}
	default:
		for i := 0; i < len(b); {
			n := 1 + r.N(400)
			c := Data{K: r.N(KMixed), S: r.U64(), N: n}.Bytes()
			i += copy(b[i:], c)
		}
	}

	return b
}

// Len returns the length without generating.
func (d Data) Len() int {
	if d.Lit != nil {
		return len(d.Lit)
	}

	return d.N
}
