package main

import (
	"math/big"

	"../util"
)

// a random range of one type
func rangeCase[N integer](t *T, name string, f func(min, max N) N, plain func() N) {
	a, b := genN[N](t), genN[N](t)
	if t.Chance(1, 3) { // narrow
		w := N(t.Int(1, 8))
		if a+w > a {
			b = a + w
		} else {
			b, a = a, a-w
		}
	}
	if a == b {
		if a+1 > a {
			b = a + 1
		} else {
			a = b - 1
		}
	}
	if a > b {
		a, b = b, a
	}
	t.Logf("%s from %v to %v", name, a, b)
	t.Label(name)
	width := bigOf(b)
	width.Sub(width, bigOf(a))
	small := width.IsInt64() && width.Int64() <= 8
	n := 40
	if small {
		n = 400
	}
	// half of the range, or all of it: all is checked for a width of 255 at most
	all := !small && width.IsInt64() && width.Int64() <= 255 && t.Chance(1, 10)
	if all {
		n = 12000
	}
	halves := !small && t.Chance(1, 3)
	if halves && n < 250 {
		n = 250
	}
	mid := a + N(new(big.Int).Rsh(width, 1).Uint64())
	low, high := false, false
	seen := map[N]bool{}
	var or, and N
	and = ^and
	for i := 0; i < n; i++ {
		v := f(a, b)
		t.Check(v >= a && v < b, "%s in [%v, %v) gives %v", name, a, b, v)
		seen[v] = true
		low, high = low || v < mid, high || v >= mid
		v = plain()
		or |= v
		and &= v
	}
	if small {
		t.Check(len(seen) == int(width.Int64()), "%s in [%v, %v) gives %d different values only in %d draws", name, a, b, len(seen), n)
		t.Check(or == ^N(0) && and == 0, "%s: some bit is always the same in %d draws: %x, %x", name, n, or, and)
		t.Label("narrow")
	} else if all {
		t.Check(len(seen) == int(width.Int64()), "%s in [%v, %v) gives %d different values only in %d draws", name, a, b, len(seen), n)
		t.Label("all of a range")
	} else if width.BitLen() > 32 {
		t.Check(len(seen) > n/2, "%s in [%v, %v) gives %d different values only in %d draws", name, a, b, len(seen), n)
	}
	if halves {
		t.Check(low && high, "%s in [%v, %v) gives nothing in one half in %d draws (below %v: %v, from there: %v)", name, a, b, n, mid, low, high)
	}
	if width.BitLen() > 1 {
		t.NonTrivial()
	}
}

func init() {
	register(&Prop{
		ID: "C26", Quick: 200000, Thorough: 2000000,
		Rule: "A case is a type of integers and a range of it (narrow, to an extreme, across zero, anything), drawn from 40 to 12000 times: all within the range, the upper end excluded, a narrow range is covered entirely, one of up to 255 numbers too if drawn from often, and both halves of a wide one are reached, and in unrestricted draws every bit varies; " +
			"non-trivial: more than one value.",
		Run: func(t *T) {
			switch t.Int(0, 7) {
			case 0:
				rangeCase(t, "int8", util.RandInt8Range, util.RandInt8)
			case 1:
				rangeCase(t, "uint8", util.RandUint8Range, util.RandUint8)
			case 2:
				rangeCase(t, "int16", util.RandInt16Range, util.RandInt16)
			case 3:
				rangeCase(t, "uint16", util.RandUint16Range, util.RandUint16)
			case 4:
				rangeCase(t, "int32", util.RandInt32Range, util.RandInt32)
			case 5:
				rangeCase(t, "uint32", util.RandUint32Range, util.RandUint32)
			case 6:
				rangeCase(t, "int64", util.RandInt64Range, util.RandInt64)
			case 7:
				rangeCase(t, "uint64", util.RandUint64Range, util.RandUint64)
			}
		},
		Assume: []string{"the system's random source is replaced by a reproducible one", "400 draws from 8 values or less miss one with a probability below 1e-22"},
	})
}
