package lab

import (
	"bytes"
	"encoding/binary"

	"amsim/simrt"
)

// Corrupt returns a damaged copy of bytes.
func Corrupt(t *simrt.Tape, data []byte, json bool) []byte {
	b := append([]byte(nil), data...)
	if t.Chance(1, 2) && len(b) < 20000 {
		// Within its structure, or almost.
		for i := 1 + t.Draw(3); i > 0; i-- {
			if json {
				b = mutJSON(t, b)
			} else {
				b = mutBinary(t, b)
			}
		}
		if t.Chance(3, 4) {
			return b
		}
	}
	n := 1 + t.Draw(3)
	for i := 0; i < n; i++ {
		b = corrupt1(t, b, json)
	}
	return b
}

var jsonBits = []string{"null", "true", "0", "-1", "1e9", "\"", "\"\"", "{}", "[]", "{", "}", "[", "]", ",", ":", "\"type\":\"sim/Circle\"", "{\"type\":\"sim/Circle\",\"value\":{}}", "{\"type\":\"sim/Nope\",\"value\":1}", "{\"type\":\"sim/Digest\",\"value\":null}", "\"9223372036854775808\"", "\"-1\"", "1", "\"AAAA\"", "\"2018-01-01T00:00:00Z\"", " ", "\\u0000", "[[[[", "\"x", "123456789012345678901234567890", "\"1.5\"", "{\"type\":\"sim/Count\",\"value\":\"", "\xff"}

var binBits = [][]byte{{0}, {0x80}, {0xff}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01}, {0xff, 0xff, 0xff, 0xff, 0x0f}, {0xff, 0xff, 0xff, 0xff, 0x07}, {0x0a}, {0x0a, 0x00}, {0x08}, {0x09}, {0x0d}, {0x0c}, {0x0b}, {0x0f}, {0x12, 0x7f}, {0, 0, 0, 0}, {0, 1, 2, 3, 4, 5, 6, 7}, {0x80, 0x80, 0x80, 0x80, 0x20}}

func corrupt1(t *simrt.Tape, b []byte, json bool) []byte {
	at := func() int { return t.Draw(len(b) + 1) }
	switch t.Draw(10) {
	case 0: // flip a bit
		Inject(FFlip)
		if len(b) > 0 {
			b[t.Draw(len(b))] ^= 1 << uint(t.Draw(8))
		}
	case 1: // set a byte
		Inject(FFlip)
		if len(b) > 0 {
			b[t.Draw(len(b))] = byte(t.Draw(256))
		}
	case 2: // cut the tail
		Inject(FTruncate)
		b = b[:at()]
	case 3: // lose a middle part
		Inject(FTruncate)
		i, j := at(), at()
		if i > j {
			i, j = j, i
		}
		b = append(b[:i:i], b[j:]...)
	case 4: // repeat a part
		Inject(FSplice)
		i, j := at(), at()
		if i > j {
			i, j = j, i
		}
		b = bytes.Join([][]byte{b[:j], b[i:j], b[j:]}, nil)
	case 5: // insert something hostile
		Inject(FForge)
		i := at()
		var x []byte
		if json {
			x = []byte(jsonBits[t.Draw(len(jsonBits))])
		} else {
			x = binBits[t.Draw(len(binBits))]
		}
		b = bytes.Join([][]byte{b[:i], x, b[i:]}, nil)
	case 6: // overwrite with something hostile
		Inject(FForge)
		i := at()
		var x []byte
		if json {
			x = []byte(jsonBits[t.Draw(len(jsonBits))])
		} else {
			x = binBits[t.Draw(len(binBits))]
		}
		j := i + len(x)
		if j > len(b) {
			j = len(b)
		}
		b = bytes.Join([][]byte{b[:i], x, b[j:]}, nil)
	case 7: // swap two parts
		Inject(FSplice)
		i, j := at(), at()
		if i > j {
			i, j = j, i
		}
		b = bytes.Join([][]byte{b[i:j], b[:i], b[j:]}, nil)
	case 8: // a varint of any size
		Inject(FForge)
		i := at()
		if json {
			b = bytes.Join([][]byte{b[:i], []byte("999999999999"), b[i:]}, nil)
			break
		}
		var x [10]byte
		n := binary.PutUvarint(x[:], anyNum(t))
		b = bytes.Join([][]byte{b[:i], x[:n], b[i:]}, nil)
	case 9: // random tail
		Inject(FForge)
		b = append(b, t.Bytes(t.Draw(12))...)
	}
	return b
}
