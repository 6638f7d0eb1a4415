package dev

import (
	"bytes"
	"compress/bzip2"
	"io"
	"math/rand"
	"testing"

	"github.com/stangelandcl/ppmd"
	"verifharness/enc"
)

func gen(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(5) {
	case 0:
		r.Read(b)
	case 1:
		for i := range b { b[i] = byte("abcab cde"[r.Intn(9)]) }
	case 2:
		for i := range b { if i > 0 && r.Intn(50) > 0 { b[i] = b[i-1] } else { b[i] = byte(r.Intn(256)) } }
	case 3:
	case 4:
		for i := range b { if i > 10 && r.Intn(10) > 0 { b[i] = b[i-7] } else { b[i] = byte(r.Intn(256)) } }
	}
	return b
}

func TestPPMD(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 400; i++ {
		d := gen(r, r.Intn(20000))
		order, mem := 2+r.Intn(63), 1<<(11+r.Intn(10))
		out, _, err := enc.PPMD(d, order, uint32(mem))
		if err != nil { t.Fatal(i, err, order, mem, len(d)) }
		dr, err := ppmd.NewH7zReader(bytes.NewReader(out), order, mem, len(d))
		if err != nil { t.Fatal(err) }
		got, err := io.ReadAll(&dr)
		if err != nil || !bytes.Equal(got, d) { t.Fatal(i, err, order, mem, len(d), len(out)) }
	}
}

func TestBzip2(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 200; i++ {
		d := gen(r, r.Intn(20000))
		out := enc.Bzip2(d, 1+r.Intn(9), 1+r.Intn(30000), 2+r.Intn(5))
		got, err := io.ReadAll(bzip2.NewReader(bytes.NewReader(out)))
		if err != nil || !bytes.Equal(got, d) { t.Fatal(i, err, len(d), len(out)) }
	}
}
