package main

import (
	"fmt"
	"math"
	"math/big"
	"time"

	"../collection"
	"../util"
)

// numbers, with a taste for boundaries; 0 is the simplest
func (t *T) Uint64() uint64 {
	switch t.Weighted(3, 2, 2, 1, 1) {
	case 0:
		return t.Draw(10)
	case 1: // around a power of two
		k := t.Int(0, 63)
		return uint64(1)<<uint(k) + t.Draw(2) - 1
	case 2:
		k := t.Int(1, 63)
		return t.Draw(uint64(1)<<uint(k) - 1)
	case 3:
		return math.MaxUint64 - t.Draw(3)
	default:
		return t.Draw(math.MaxUint64)
	}
}

func (t *T) Int64() int64 {
	v := int64(t.Uint64())
	switch t.Weighted(4, 2, 1) {
	case 1:
		return -v
	case 2:
		return math.MinInt64 + v
	}
	return v
}

// a length in [0, max]: mostly small, sometimes one of the given boundaries (or
// next to it), sometimes anything
func (t *T) Len(max int, bounds ...int) int {
	switch t.Weighted(12, 3, 1) {
	case 1:
		if len(bounds) > 0 {
			n := bounds[t.Int(0, len(bounds)-1)] + t.Int(0, 2) - 1
			if n < 0 {
				n = 0
			}
			if n > max {
				n = max
			}
			return n
		}
	case 2:
		return t.Int(0, max)
	}
	if max > 12 {
		max = 12
	}
	return t.Int(0, max)
}

// a length up to max, every order of magnitude alike
func (t *T) LongLen(max int) int {
	n := t.Int(1, max)
	for i := t.Int(0, 7); i > 0 && n > 16; i-- {
		n /= 3
	}
	return n
}

// n bytes: short ones are drawn one by one, so that they can be shrunk; long
// ones are made up from a single draw
func (t *T) BytesN(n int) []byte {
	b := make([]byte, n)
	if n <= 48 {
		alphabet := uint64(255)
		if t.Chance(1, 3) {
			alphabet = 2 // collisions
		}
		for i := range b {
			b[i] = byte(t.Draw(alphabet))
			if alphabet == 2 && b[i] == 2 {
				b[i] = 0xff
			}
		}
		return b
	}
	r := &prng{s: t.Draw(1 << 20)}
	for i := range b {
		if i%8 == 0 || i > 256 {
			b[i] = byte(r.next())
		} else {
			b[i] = byte(i)
		}
	}
	return b
}

func (t *T) Bytes(max int, bounds ...int) []byte { return t.BytesN(t.Len(max, bounds...)) }

// applies a few random edits to a byte array: the result is a new array
func (t *T) Mutate(b []byte) ([]byte, string) {
	out := append([]byte{}, b...)
	desc := ""
	for i := 0; i < 4 && (i == 0 || t.More(1)); i++ {
		switch t.Weighted(3, 3, 2, 2, 2, 1) {
		case 0: // flip a bit
			if len(out) > 0 {
				p, k := t.Int(0, len(out)-1), t.Int(0, 7)
				out[p] ^= 1 << uint(k)
				desc += fmt.Sprintf(" flip %d.%d", p, k)
			}
		case 1: // set a byte
			if len(out) > 0 {
				p := t.Int(0, len(out)-1)
				v := byte([]uint64{0, 1, 0xff, 0x7f, 0x80, 0x40, t.Draw(255)}[t.Int(0, 6)])
				out[p] = v
				desc += fmt.Sprintf(" set %d=%#x", p, v)
			}
		case 2: // cut
			if len(out) > 0 {
				n := t.Int(0, len(out)-1)
				out = out[:n]
				desc += fmt.Sprintf(" cut to %d", n)
			}
		case 3: // delete some
			if len(out) > 1 {
				p := t.Int(0, len(out)-1)
				n := t.Int(1, 4)
				if p+n > len(out) {
					n = len(out) - p
				}
				out = append(append([]byte{}, out[:p]...), out[p+n:]...)
				desc += fmt.Sprintf(" delete %d at %d", n, p)
			}
		case 4: // insert some
			p := t.Int(0, len(out))
			ins := t.BytesN(t.Int(1, 4))
			out = append(append(append([]byte{}, out[:p]...), ins...), out[p:]...)
			desc += fmt.Sprintf(" insert %x at %d", ins, p)
		case 5: // append
			ins := t.BytesN(t.Int(1, 8))
			out = append(out, ins...)
			desc += fmt.Sprintf(" append %x", ins)
		}
	}
	return out, desc
}

// exactly sized copy: appending to it, or reading past it, cannot reach
// anything else
func exact(b []byte) []byte {
	if b == nil {
		return nil
	}
	c := make([]byte, len(b))
	copy(c, b)
	return c[:len(c):len(c)]
}

// a part of a larger array that holds b, with other bytes around it, and room
// behind it half of the time. At the end of the case everything in that array
// must be as it is now.
func (t *T) Within(b []byte, what string) []byte {
	if b == nil {
		return nil
	}
	before, after := t.Int(0, 9), t.Int(0, 40)
	arr := make([]byte, before+len(b)+after)
	r := &prng{s: t.Draw(255)}
	for i := range arr {
		arr[i] = byte(r.next()) | 1
	}
	copy(arr[before:], b)
	saved := string(arr)
	t.guards = append(t.guards, func() string {
		if string(arr) == saved {
			return ""
		}
		for i := range arr {
			if arr[i] != saved[i] {
				return fmt.Sprintf("%s: byte %d (of %d) of the input array, or next to it, was changed", what, i-before, len(b))
			}
		}
		return ""
	})
	if t.Bool() {
		return arr[before : before+len(b)]
	}
	return arr[before : before+len(b) : before+len(b)]
}

// a result, which stays as it is whatever is done until the end of the case
func (t *T) Keep(b []byte, what string) []byte {
	if len(b) == 0 || t.kept >= 40 {
		return b
	}
	saved := string(b)
	t.kept += 1
	t.guards = append(t.guards, func() string {
		if string(b) == saved {
			return ""
		}
		return fmt.Sprintf("%s: was %s, and has become %s later", what, hx([]byte(saved)), hx(b))
	})
	return b
}

// every function that gives bytes is called once again
func otherResults() {
	other := []byte("other results than those of the case")
	tm := time.Unix(123456789, 987654321)
	collection.TimeToBytes(&tm)
	collection.Int64ToByteArray(0x1122334455667788)
	collection.Int32ToByteArray(0x11223344)
	collection.Uint32ToByteArray(0x55667788)
	collection.BigIntToByteArray(new(big.Int).SetBytes(other[:30]))
	util.EncodeUvarint64(0x1122334455667788)
	util.EncodeVarint64(0x1122334455667788)
	util.EncodeVarchar(other)
	util.Base58Decode(util.Base58Encode(other))
	util.SumSHA256(other)
	util.SumSHA256d(other)
	util.SumMD5(other)
	util.AESPad(other[:7])
	util.NewRaftTime(0x11223344, 0x55667788, 0x99aabbcc).Buf()
	util.NewLedgerTime(0x11223344).Buf()
	r := util.NewRecord().SetK(other).SetValue(util.NewValueArray().Append(util.NewPrimitive(other))).SetS(other)
	r.SetTimestamp(&tm).SetSignature(big.NewInt(1), big.NewInt(2))
	if r.Encode(nil) == nil {
		util.NewRecordList().Append(r).Encode(nil)
	}
	util.MPHBuild([]util.IKey{util.NewKey().Add(other)}, false).Encode()
}

func hx(b []byte) string {
	if b == nil {
		return "nil"
	}
	if len(b) > 24 {
		return fmt.Sprintf("%x..(%d)", b[:24], len(b))
	}
	return fmt.Sprintf("[%x]", b)
}

func hxs(bs [][]byte) string {
	s := "{"
	for i, b := range bs {
		if i > 0 {
			s += " "
		}
		if i >= 12 {
			return s + fmt.Sprintf("..(%d)}", len(bs))
		}
		if b == nil {
			s += "nil"
		} else {
			s += hx(b)
		}
	}
	return s + "}"
}

func sign(i int) int {
	if i < 0 {
		return -1
	} else if i > 0 {
		return 1
	}
	return 0
}
