package dev

import (
	"bytes"
	"math/rand"
	"os/exec"
	"testing"

	"github.com/ulikunitz/xz/lzma"
	"verifharness/enc"
)

func dense(r *rand.Rand, n int) []byte {
	pool := []byte{0xe8, 0xe9, 0x0f, 0x80, 0x8f, 0, 0xff, 0xeb, 0x48, 0x49, 0x4b, 0x40, 0x7f, 0xc0, 0x94, 0x97, 0x90, 0xb0, 1, 0xd0,0xf0,0x3f}
	b := make([]byte, n)
	for i := range b {
		if r.Intn(4) == 0 { b[i] = byte(r.Intn(256)) } else { b[i] = pool[r.Intn(len(pool))] }
	}
	return b
}

func TestBranchXZ(t *testing.T) {
	r := rand.New(rand.NewSource(2))
	for i := 0; i < 60; i++ {
		d := dense(r, r.Intn(70000))
		for _, f := range []struct {
			opt string
			fn  func([]byte) []byte
		}{{"--x86", enc.X86}, {"--arm", enc.ARM}, {"--arm64", enc.ARM64}, {"--powerpc", enc.PPC}, {"--sparc", enc.SPARC},
			{"--delta=dist=7", func(b []byte) []byte { return enc.Delta(b, 7) }}, {"--delta=dist=256", func(b []byte) []byte { return enc.Delta(b, 256) }}} {
			c := exec.Command("xz", "-c", "--format=raw", f.opt, "--lzma2=dict=64KiB")
			c.Stdin = bytes.NewReader(d)
			out, err := c.Output()
			if err != nil { t.Fatal(err) }
			lr, err := lzma.Reader2Config{DictCap: 1 << 20}.NewReader2(bytes.NewReader(out))
			if err != nil { t.Fatal(err) }
			var buf bytes.Buffer
			if _, err := buf.ReadFrom(lr); err != nil { t.Fatal(err) }
			if !bytes.Equal(buf.Bytes(), f.fn(d)) { t.Fatal(f.opt, len(d)) }
		}
	}
}
