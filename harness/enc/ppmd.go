package enc

import (
	"encoding/binary"
	"fmt"

	"verifharness/enc/h7z"
)

// PPMD compresses data with PPMd variant H as used by 7-zip, returning the
// stream and the coder properties.
func PPMD(data []byte, order int, mem uint32) (out, props []byte, err error) {
	m, err := h7z.NewModelPpm(uint32(order), mem)
	if err != nil {
		return nil, nil, err
	}

	for i, b := range data {
		c, err := m.EncodeChar(b)
		if err != nil {
			return nil, nil, err
		}

		if c != b {
			return nil, nil, fmt.Errorf("ppmd encoder out of step at %d", i)
		}
	}

	props = binary.LittleEndian.AppendUint32([]byte{byte(order)}, mem)

	return m.Flush(), props, nil
}
