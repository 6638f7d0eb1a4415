package enc

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/binary"
	"unicode/utf16"
)

// AESKey derives the key of the 7-zip AES scheme.
func AESKey(password string, cycles int, salt []byte) []byte {
	seed := append([]byte(nil), salt...)
	for _, u := range utf16.Encode([]rune(password)) {
		seed = append(seed, byte(u), byte(u>>8))
	}

	key := make([]byte, 32)

	if cycles == 0x3f {
		copy(key, seed)

		return key
	}

	h := sha256.New()

	buf := append(seed, 0, 0, 0, 0, 0, 0, 0, 0)
	for i := uint64(0); i < 1<<uint(cycles); i++ {
		binary.LittleEndian.PutUint64(buf[len(buf)-8:], i)
		h.Write(buf)
	}

	return h.Sum(key[:0])
}

// AESEncrypt pads data with zeros to whole blocks and encrypts it. iv may be
// shorter than a block, it is padded with zeros.
func AESEncrypt(data, key, iv []byte) []byte {
	n := (len(data) + 15) &^ 15
	out := make([]byte, n)
	copy(out, data)

	var v [16]byte
	copy(v[:], iv)

	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}

	cipher.NewCBCEncrypter(b, v[:]).CryptBlocks(out, out)

	return out
}

// AESProps builds the coder properties, a single byte without salt and iv.
func AESProps(cycles int, salt, iv []byte) []byte {
	var b0, b1 byte

	b0 = byte(cycles)

	if len(salt) > 0 {
		b0 |= 0x80
		b1 |= byte(len(salt)-1) << 4
	}

	if len(iv) > 0 {
		b0 |= 0x40
		b1 |= byte(len(iv) - 1)
	}

	if len(salt) == 0 && len(iv) == 0 {
		return []byte{b0}
	}

	p := []byte{b0, b1}
	p = append(p, salt...)

	return append(p, iv...)
}
