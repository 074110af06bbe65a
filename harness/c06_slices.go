package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/big"
	"reflect"
	"time"

	"../collection"
	"../util"
)

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

// what is known about slices of a type of numbers
type sliceKind struct {
	name string
	gen  func(t *T) *sliceSample                   // a random slice
	near func(t *T, s *sliceSample) *sliceSample   // one like it
	ops  func(t *T, samples []*sliceSample) string // everything that can be said about them
}

type sliceSample struct {
	slice  interface{} // []N
	isNil  bool
	values []*big.Int
}

func refCompare(a, b *sliceSample) int {
	if a.isNil && b.isNil {
		return 0
	} else if a.isNil {
		return -1
	} else if b.isNil {
		return 1
	}
	for i := range a.values {
		if i >= len(b.values) {
			return 1
		}
		if c := a.values[i].Cmp(b.values[i]); c != 0 {
			return c
		}
	}
	if len(a.values) < len(b.values) {
		return -1
	}
	return 0
}

func bigOf[N integer](n N) *big.Int {
	if n < 0 {
		return big.NewInt(int64(n))
	}
	return new(big.Int).SetUint64(uint64(n))
}

// a number of the type, with a taste for its ends
func genN[N integer](t *T) N {
	var zero N
	bits := uint(reflect.TypeOf(zero).Bits())
	switch t.Weighted(4, 2, 3, 1) {
	case 0:
		return N(t.Draw(3))
	case 1: // smallest and largest, signed
		v := uint64(1) << (bits - 1)
		return N(v - t.Draw(2))
	case 2:
		return N(0) - N(t.Draw(3))
	default:
		return N(t.Draw(^uint64(0)))
	}
}

func mkSample[N integer](s []N) *sliceSample {
	r := &sliceSample{slice: s, isNil: s == nil}
	for _, n := range s {
		r.values = append(r.values, bigOf(n))
	}
	return r
}

// the slice is part of a larger array, so that what is before and after it is
// something else, and sometimes has room left, and is not aligned
func place[N integer](t *T, s []N) []N {
	if s == nil {
		return nil
	}
	before, after := t.Int(0, 3), t.Int(0, 3)
	arr := make([]N, before+len(s)+after)
	r := &prng{s: t.Draw(255)}
	for i := range arr {
		arr[i] = N(r.next())
	}
	copy(arr[before:], s)
	saved := append([]N{}, arr...)
	t.guards = append(t.guards, func() string {
		for i := range arr {
			if arr[i] != saved[i] {
				return fmt.Sprintf("element %d of a slice of %d, or next to it, was changed", i-before, len(s))
			}
		}
		return ""
	})
	if t.Bool() {
		return arr[before : before+len(s)]
	}
	return arr[before : before+len(s) : before+len(s)]
}

func genSlice[N integer](t *T) []N {
	if t.Chance(1, 10) {
		return nil
	}
	s := []N{}
	if t.Chance(1, 60) {
		// a long one
		n := t.Len(400, 16, 32, 64, 128, 256)
		if t.Chance(1, 3) {
			n = t.LongLen([]int{400, 400, 400, 400, 400, 70000}[t.Int(0, 5)])
		}
		r := &prng{s: t.Draw(255)}
		for len(s) < n {
			s = append(s, N(r.next()>>(r.next()%64)))
		}
		return s
	}
	for i := 0; i < 40 && t.More(4); i++ {
		s = append(s, genN[N](t))
	}
	return s
}

func nearSlice[N integer](t *T, s []N) []N {
	out := append([]N{}, s...)
	switch t.Weighted(2, 2, 2, 1, 1, 1, 1) {
	case 0: // the same
		if s == nil {
			return nil
		}
	case 6: // one bit of one element differs
		if len(out) > 0 {
			var zero N
			out[t.Int(0, len(out)-1)] ^= N(1) << uint(t.Int(0, reflect.TypeOf(zero).Bits()-1))
		}
	case 1: // one element differs
		if len(out) > 0 {
			i := t.Int(0, len(out)-1)
			out[i] = genN[N](t)
		}
	case 2: // a prefix
		out = out[:t.Int(0, len(out))]
	case 3: // longer
		out = append(out, genN[N](t))
	case 4: // two elements swapped
		if len(out) > 1 {
			i := t.Int(0, len(out)-2)
			out[i], out[i+1] = out[i+1], out[i]
		}
	case 5:
		return genSlice[N](t)
	}
	return out
}

type orderFuncs[N integer] struct {
	name    string
	compare func(a, b []N) int
	equal   func(a, b []N) bool
	wrap    func(s []N) collection.IComparable // may be missing
	hash    func(s []N) collection.IHashable   // may be missing
}

func orderCase[N integer](t *T, f orderFuncs[N]) {
	t.Label("%s", f.name)
	slices := [][]N{place(t, genSlice[N](t))}
	for len(slices) < 3 {
		slices = append(slices, place(t, nearSlice(t, slices[t.Int(0, len(slices)-1)])))
	}
	t.Logf("%s: %v(nil %v) %v(nil %v) %v(nil %v)", f.name, slices[0], slices[0] == nil, slices[1], slices[1] == nil, slices[2], slices[2] == nil)
	samples := []*sliceSample{}
	for _, s := range slices {
		samples = append(samples, mkSample(s))
	}
	before := fmt.Sprint(slices)
	for i, a := range slices {
		if f.wrap != nil {
			wa := f.wrap(a)
			t.Check(!wa.Equal(nil), "%s: wrapped %v equals nil", f.name, a)
			if no := t.NilPointer(); true {
				t.Check(!wa.Equal(no), "%s: wrapped %v equals a nil pointer %T", f.name, a, no)
				if c, ok := no.(collection.IComparable); ok && a != nil {
					t.Check(wa.Compare(c) > 0, "%s: wrapped %v is not after a nil pointer %T", f.name, a, no)
				}
			}
			t.Check(!wa.Equal(collection.NewHashableByteSlice([]byte{1})), "%s: wrapped %v equals an object of another type", f.name, a)
			if a != nil {
				t.Check(wa.Compare(nil) > 0, "%s: wrapped %v is not after nil", f.name, a)
			}
		}
		for j, b := range slices {
			want := refCompare(samples[i], samples[j])
			got := f.compare(a, b)
			t.Check(sign(got) == want, "%s: compare of %v (nil %v) and %v (nil %v) is %d, should be %d", f.name, a, a == nil, b, b == nil, got, want)
			if f.equal != nil {
				eq := f.equal(a, b)
				t.Check(eq == (want == 0), "%s: equality of %v (nil %v) and %v (nil %v) is %v", f.name, a, a == nil, b, b == nil, eq)
			}
			if f.wrap != nil {
				wa, wb := f.wrap(a), f.wrap(b)
				wgot := wa.Compare(wb)
				t.Check(sign(wgot) == want, "%s: compare of wrapped %v (nil %v) and %v (nil %v) is %d, should be %d", f.name, a, a == nil, b, b == nil, wgot, want)
				eq := wa.(interface {
					Equal(collection.IObject) bool
				}).Equal(wb)
				t.Check(eq == (want == 0), "%s: equality of wrapped %v (nil %v) and %v (nil %v) is %v", f.name, a, a == nil, b, b == nil, eq)
			}
			if want != 0 {
				t.NonTrivial()
				t.Label("different")
			} else if i != j {
				t.Label("equal")
			}
		}
	}
	t.Check(fmt.Sprint(slices) == before, "%s: comparing changed a slice: %v, was %s", f.name, slices, before)
}

// pointers that are nil, to things that are comparable or hashable
var nilPointers = []collection.IObject{
	(*collection.ComparableSlice)(nil), (*collection.ComparableByteSlice)(nil), (*collection.ComparableInt8Slice)(nil), (*collection.ComparableInt16Slice)(nil), (*collection.ComparableUint16Slice)(nil),
	(*collection.ComparableInt32Slice)(nil), (*collection.ComparableUint32Slice)(nil), (*collection.ComparableInt64Slice)(nil), (*collection.ComparableUint64Slice)(nil),
	(*collection.HashableSlice)(nil), (*collection.HashableByteSlice)(nil), (*collection.HashableInt16Slice)(nil), (*collection.HashableUint16Slice)(nil),
	(*collection.HashableInt32Slice)(nil), (*collection.HashableUint32Slice)(nil), (*collection.HashableInt64Slice)(nil), (*collection.HashableUint64Slice)(nil),
	(*util.Key)(nil), (*util.MappedKey)(nil), (*util.EmptyKey)(nil), []byte(nil),
}

func (t *T) NilPointer() collection.IObject {
	return nilPointers[t.Int(0, len(nilPointers)-1)]
}

// comparable of which comparisons give any number
type diffBytes []byte

func (b diffBytes) Equal(o collection.IObject) bool {
	x, ok := o.(diffBytes)
	return ok && string(x) == string(b)
}

func (b diffBytes) Compare(c collection.IComparable) int {
	x := c.(diffBytes)
	for i := range b {
		if i == len(x) {
			return 1000
		}
		if b[i] != x[i] {
			return 7 * (int(b[i]) - int(x[i]))
		}
	}
	return len(b) - len(x)
}

// slices of slices, some of which may be missing
func comparableSliceCase(t *T) {
	t.Label("slice of comparables")
	type s3 struct {
		list []collection.IComparable
		ref  [][]byte
	}
	kind := t.Int(0, 4)
	some := func() []byte {
		if t.Chance(1, 6) {
			t.Label("nil element")
			return nil
		}
		return append([]byte{}, t.BytesN(t.Int(0, 3))...)
	}
	wrap := func(b []byte) collection.IComparable {
		switch kind {
		case 1: // a slice of it
			return collection.NewComparableSlice([]collection.IComparable{collection.NewComparableByteSlice(b), nil})
		case 2: // a slice of slices of one byte
			l := []collection.IComparable{}
			for i := range b {
				l = append(l, collection.NewComparableByteSlice(b[i:i+1]))
			}
			return collection.NewComparableSlice(l)
		case 3: // a slice of numbers
			l := []int16{}
			for _, x := range b {
				l = append(l, int16(x)-100)
			}
			return collection.NewComparableInt16Slice(l)
		case 4: // something that compares by difference
			return diffBytes(b)
		}
		return collection.NewComparableByteSlice(b)
	}
	gen := func(like *s3) *s3 {
		r := &s3{}
		if like == nil {
			if t.Chance(1, 8) {
				return r
			}
			r.list, r.ref = []collection.IComparable{}, [][]byte{}
			for i := 0; i < 8 && t.More(3); i++ {
				r.ref = append(r.ref, some())
			}
			if t.Chance(1, 60) {
				n := t.LongLen(6000)
				p := &prng{s: t.Draw(255)}
				for len(r.ref) < n {
					r.ref = append(r.ref, []byte{byte(p.next()), byte(p.next())}[:p.next()%3])
				}
			}
		} else {
			if like.ref == nil && t.Chance(1, 2) {
				return r
			}
			r.list, r.ref = []collection.IComparable{}, append([][]byte{}, like.ref...)
			switch t.Int(0, 3) {
			case 1:
				r.ref = r.ref[:t.Int(0, len(r.ref))]
			case 2:
				if len(r.ref) > 0 {
					r.ref[t.Int(0, len(r.ref)-1)] = some()
				}
			case 3:
				r.ref = append(r.ref, some())
			}
		}
		for _, b := range r.ref {
			if b == nil {
				r.list = append(r.list, nil)
			} else {
				r.list = append(r.list, wrap(b))
			}
		}
		return r
	}
	ss := []*s3{gen(nil)}
	for len(ss) < 3 {
		ss = append(ss, gen(ss[t.Int(0, len(ss)-1)]))
	}
	for _, a := range ss {
		t.Logf("slice of comparables %s (nil %v)", hxs(a.ref), a.ref == nil)
	}
	cmp := func(a, b [][]byte) int {
		if a == nil || b == nil {
			if a == nil && b == nil {
				return 0
			} else if a == nil {
				return -1
			}
			return 1
		}
		for i := range a {
			if i >= len(b) {
				return 1
			}
			if string(a[i]) != string(b[i]) || (a[i] == nil) != (b[i] == nil) {
				if a[i] == nil || b[i] != nil && string(a[i]) < string(b[i]) {
					return -1
				}
				return 1
			}
		}
		if len(a) < len(b) {
			return -1
		}
		return 0
	}
	for i, a := range ss {
		w := collection.NewComparableSlice(a.list)
		t.Check(!w.Equal(nil), "wrapped %s equals nil", hxs(a.ref))
		if no := t.NilPointer(); true {
			t.Check(!w.Equal(no), "wrapped %s equals a nil pointer %T", hxs(a.ref), no)
			if c, ok := no.(collection.IComparable); ok && a.ref != nil {
				t.Check(w.Compare(c) > 0, "wrapped %s is not after a nil pointer %T", hxs(a.ref), no)
			}
		}
		t.Check(!w.Equal(collection.NewComparableByteSlice([]byte{1})), "wrapped %s equals an object of another type", hxs(a.ref))
		if a.ref != nil {
			t.Check(w.Compare(nil) > 0, "wrapped %s is not after nil", hxs(a.ref))
		}
		for j, b := range ss {
			want := cmp(a.ref, b.ref)
			got := collection.CompareSlice(a.list, b.list)
			t.Check(sign(got) == want, "compare of %s (nil %v) and %s (nil %v) is %d, should be %d", hxs(a.ref), a.ref == nil, hxs(b.ref), b.ref == nil, got, want)
			wa, wb := collection.NewComparableSlice(a.list), collection.NewComparableSlice(b.list)
			got = wa.Compare(wb)
			t.Check(sign(got) == want, "compare of wrapped %s (nil %v) and %s (nil %v) is %d, should be %d", hxs(a.ref), a.ref == nil, hxs(b.ref), b.ref == nil, got, want)
			eq := wa.Equal(wb)
			t.Check(eq == (want == 0), "equality of wrapped %s (nil %v) and %s (nil %v) is %v", hxs(a.ref), a.ref == nil, hxs(b.ref), b.ref == nil, eq)
			if want != 0 && i != j {
				t.NonTrivial()
			}
		}
	}
}

func wrapC[N integer, W collection.IComparable](f func([]N) W) func([]N) collection.IComparable {
	return func(s []N) collection.IComparable { return f(s) }
}

func wrapH[N integer, W collection.IHashable](f func([]N) W) func([]N) collection.IHashable {
	return func(s []N) collection.IHashable { return f(s) }
}

////////////////////////////////////////////////////////////////////////////////

// another hash function: what is hashed must not depend on which one is used
func fnvHash(seed uint32) func([]byte) uint32 {
	return func(b []byte) uint32 {
		h := fnv.New32a()
		var s [4]byte
		binary.LittleEndian.PutUint32(s[:], seed)
		h.Write(s[:])
		h.Write(b)
		return h.Sum32()
	}
}

func hashFuncs(t *T) []func([]byte) uint32 {
	return []func([]byte) uint32{
		collection.MurmurSeed(uint32(t.Draw(1<<32 - 1))).Hash,
		collection.MurmurSeed(12345).Hash,
		fnvHash(7),
	}
}

// equal objects must have equal hashes by every function; different ones
// different hashes by at least one of three
func checkHash(t *T, what string, a, b collection.IHashable, eq bool) {
	same := 0
	fs := hashFuncs(t)
	for _, f := range fs {
		ha, hb := a.HashUint32(f), b.HashUint32(f)
		t.Check(a.HashUint32(f) == ha, "%s: the hash is not stable", what)
		if ha == hb {
			same += 1
		}
	}
	if eq {
		t.Check(same == len(fs), "%s: they are equal but their hashes differ", what)
	} else {
		t.Check(same < len(fs), "%s: they differ but all their hashes are the same", what)
	}
}

func hashCase[N integer](t *T, name string, wrap func(s []N) collection.IHashable) {
	t.Label("%s", name)
	a := genSlice[N](t)
	b := nearSlice(t, a)
	pa, pb := place(t, a), place(t, b)
	ref := 0
	if len(a) != len(b) {
		ref = 1
	}
	for i := 0; ref == 0 && i < len(a); i++ {
		if a[i] != b[i] {
			ref = 1
		}
	}
	t.Logf("%s: %v (nil %v) %v (nil %v)", name, a, a == nil, b, b == nil)
	what := fmt.Sprintf("%s: %v (nil %v) and %v (nil %v)", name, a, a == nil, b, b == nil)
	wa, wb := wrap(pa), wrap(pb)
	eq := wa.Equal(wb)
	if (a == nil) == (b == nil) {
		t.Check(eq == (ref == 0), "%s: equality is %v", what, eq)
	} else if eq {
		t.Check(ref == 0, "%s: equality is %v", what, eq) // whether nil equals empty is not said
	}
	t.Check(wb.Equal(wa) == eq, "%s: equality is not symmetric", what)
	t.Check(!wa.Equal(nil), "%s: the first equals nil", what)
	if no := t.NilPointer(); true {
		t.Check(!wa.Equal(no), "%s: the first equals a nil pointer %T", what, no)
	}
	t.Check(!wa.Equal(collection.NewComparableByteSlice([]byte{1})), "%s: the first equals an object of another type", what)
	if ref == 0 {
		if eq {
			checkHash(t, what, wa, wb, true)
		}
		t.Label("equal")
		if len(a) > 0 {
			t.NonTrivial()
		}
	} else {
		checkHash(t, what, wa, wb, false)
		t.Label("different")
		t.NonTrivial()
	}
	t.Check(fmt.Sprint(pa) == fmt.Sprint(a) && fmt.Sprint(pb) == fmt.Sprint(b), "%s: hashing changed a slice", what)
}

// a list of hashables: built from byte slices, hash keys and lists of them
func hashableListCase(t *T) {
	t.Label("slice of hashables")
	type elem struct {
		b []byte
		k int
	}
	mk := func(es []elem) collection.IHashable {
		l := []collection.IHashable{}
		for _, e := range es {
			switch {
			case e.k == 0:
				l = append(l, collection.NewHashableByteSlice(append([]byte{}, e.b...)))
			case e.k == 1:
				l = append(l, &hashKey{n: len(e.b), kind: 0})
			case e.k == 2:
				l = append(l, collection.NewHashableSlice([]collection.IHashable{collection.NewHashableByteSlice(append([]byte{1}, e.b...))}))
			default:
				l = append(l, nil)
			}
		}
		return collection.NewHashableSlice(l)
	}
	a := []elem{}
	for i := 0; i < 8 && t.More(3); i++ {
		a = append(a, elem{t.BytesN(t.Int(0, 4)), t.Weighted(4, 2, 2, 1)})
	}
	if t.Chance(1, 60) {
		n := t.LongLen(6000)
		p := &prng{s: t.Draw(255)}
		for len(a) < n {
			a = append(a, elem{[]byte{byte(p.next()), byte(p.next())}[:p.next()%3], int(p.next() % 3)})
		}
	}
	b := append([]elem{}, a...)
	switch t.Int(0, 4) {
	case 1: // one element differs
		if len(b) > 0 {
			i := t.Int(0, len(b)-1)
			b[i] = elem{append(append([]byte{}, b[i].b...), byte(t.Draw(255))), b[i].k}
		}
	case 2: // one more
		i := t.Int(0, len(b))
		b = append(b[:i:i], append([]elem{{t.BytesN(t.Int(0, 4)), t.Weighted(4, 2, 2, 3)}}, b[i:]...)...)
	case 3: // one less
		if len(b) > 0 {
			i := t.Int(0, len(b)-1)
			b = append(b[:i:i], b[i+1:]...)
		}
	case 4: // in another order
		if len(b) > 1 {
			i := t.Int(0, len(b)-2)
			b[i], b[i+1] = b[i+1], b[i]
		}
	}
	// the hash is the exclusive or of the hashes of the elements and of nothing
	// at all: what is there an even number of times does not count
	odd := func(es []elem) string {
		n := map[string]int{}
		for _, e := range es {
			switch e.k {
			case 0:
				n[fmt.Sprintf("%x", e.b)] ^= 1
			case 1:
				n[fmt.Sprintf("key %d", len(e.b))] ^= 1
			case 2:
				n[""] ^= 1
				n[fmt.Sprintf("01%x", e.b)] ^= 1
			default:
				n[""] ^= 1
			}
		}
		for k, v := range n {
			if v == 0 {
				delete(n, k)
			}
		}
		return fmt.Sprint(n)
	}
	differ := len(a) != len(b)
	for i := 0; !differ && i < len(a); i++ {
		x, y := a[i], b[i]
		switch {
		case x.k != y.k:
			differ = true
		case x.k == 1:
			differ = len(x.b) != len(y.b)
		case x.k != 3:
			differ = string(x.b) != string(y.b)
		}
	}
	t.Logf("slice of hashables %v %v", a, b)
	wa, wb := mk(a), mk(b)
	what := fmt.Sprintf("slices of hashables %v and %v", a, b)
	eq := wa.Equal(wb)
	t.Check(eq == !differ, "%s: equality is %v", what, eq)
	t.Check(wb.Equal(wa) == eq, "%s: equality is not symmetric", what)
	if !differ {
		checkHash(t, what, wa, wb, true)
	} else if odd(a) != odd(b) {
		checkHash(t, what, wa, wb, false)
		t.Label("slices of hashables differ")
	}
	t.Check(!wa.Equal(nil), "%s: the first equals nil", what)
	if no := t.NilPointer(); true {
		t.Check(!wa.Equal(no), "%s: the first equals a nil pointer %T", what, no)
	}
	t.Check(!wa.Equal(collection.NewHashableByteSlice([]byte{1})), "%s: the first equals an object of another type", what)
	if len(a) == 0 {
		// none at all hashes as an empty one does
		checkHash(t, "no and empty slice of hashables", wa, collection.NewHashableSlice(nil), true)
	}
	if len(a) > 0 {
		t.NonTrivial()
	}
}

////////////////////////////////////////////////////////////////////////////////

// Murmur3, 32 bits, as published
func refMurmur3(seed uint32, b []byte) uint32 {
	rotl := func(x uint32, r uint) uint32 { return x<<r | x>>(32-r) }
	h := seed
	n := len(b)
	for len(b) >= 4 {
		k := uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
		k *= 0xcc9e2d51
		k = rotl(k, 15)
		k *= 0x1b873593
		h ^= k
		h = rotl(h, 13)
		h = h*5 + 0xe6546b64
		b = b[4:]
	}
	k := uint32(0)
	for i := len(b) - 1; i >= 0; i-- {
		k = k<<8 | uint32(b[i])
	}
	k *= 0xcc9e2d51
	k = rotl(k, 15)
	k *= 0x1b873593
	h ^= k
	h ^= uint32(n)
	h ^= h >> 16
	h *= 0x85ebca6b
	h ^= h >> 13
	h *= 0xc2b2ae35
	h ^= h >> 16
	return h
}

func minMax[N integer](t *T, name string, min, max func(a, b N) N) {
	a, b := genN[N](t), genN[N](t)
	if t.Chance(1, 4) {
		b = a
	}
	t.Logf("%s %d %d", name, a, b)
	lo, hi := a, b
	if b < a {
		lo, hi = b, a
	}
	t.Check(min(a, b) == lo, "%s: minimum of %d and %d is %d", name, a, b, min(a, b))
	t.Check(max(a, b) == hi, "%s: maximum of %d and %d is %d", name, a, b, max(a, b))
	if a != b {
		t.NonTrivial()
	}
	t.Label("min max %s", name)
}

// two things that can be compared
func (t *T) Thing() (interface{}, interface{}) {
	things := []interface{}{nil, 0, t.Int(0, 3), int64(0), "", "a", string(t.BytesN(t.Int(0, 2))), false, true, new(int), (*int)(nil), struct{}{}, 1.5, uint8(t.Int(0, 255))}
	return things[t.Int(0, len(things)-1)], things[t.Int(0, len(things)-1)]
}

// nil, or a pointer, map, channel or slice that is nil, is nil; nothing else is
func isNilCase(t *T) {
	n := t.Int(0, 300)
	var no *int
	var noKey *hashKey
	var noFace collection.IComparable
	things := []struct {
		o   interface{}
		nil bool
	}{
		{nil, true}, {no, true}, {noKey, true}, {noFace, true}, {collection.IObject(noKey), true},
		{[]byte(nil), true}, {[]interface{}(nil), true}, {map[int]string(nil), true}, {chan int(nil), true}, {[][]byte(nil), true},
		{n, false}, {0, false}, {uint8(n), false}, {int64(n), false}, {"", false}, {string(t.BytesN(t.Int(0, 3))), false}, {n%2 == 0, false}, {float64(n), false},
		{&n, false}, {&no, false}, {hashKey{n: n}, false}, {&hashKey{n: n}, false}, {struct{}{}, false}, {[0]int{}, false}, {[2]*int{}, false}, {[1]interface{}{}, false},
		{make([]byte, n), false}, {[]byte{}, false}, {[]interface{}{nil}, false}, {map[int]string{}, false}, {make(chan int), false}, {[][]byte{nil}, false}, {time.Time{}, false}, {collection.IComparable(cmpKey{}), false},
	}
	x := things[t.Int(0, len(things)-1)]
	t.Logf("is %T %v nil", x.o, x.nil)
	t.Check(collection.IsNil(x.o) == x.nil, "%T (nil: %v): is nil is %v", x.o, x.nil, !x.nil)
	if !x.nil {
		t.NonTrivial()
	}
}

func init() {
	register(&Prop{
		ID: "C06", Quick: 1500000, Thorough: 30000000,
		Rule: "A case is three slices of one of ten element types (nil, empty, random with boundary numbers, or derived from each other: equal, one element changed, prefix, longer, swapped), placed inside larger arrays; every ordered pair is compared, bare and wrapped; " +
			"non-trivial: some pair differs.",
		Run: func(t *T) {
			switch t.Int(0, 9) {
			case 0:
				orderCase(t, orderFuncs[byte]{name: "byte", compare: collection.CompareByteSlice, equal: collection.EqualByteSlice, wrap: wrapC(collection.NewComparableByteSlice)})
			case 1:
				orderCase(t, orderFuncs[int8]{name: "int8", compare: collection.CompareInt8Slice, equal: collection.EqualInt8Slice, wrap: wrapC(collection.NewComparableInt8Slice)})
			case 2:
				orderCase(t, orderFuncs[int16]{name: "int16", compare: collection.CompareInt16Slice, equal: collection.EqualInt16Slice, wrap: wrapC(collection.NewComparableInt16Slice)})
			case 3:
				orderCase(t, orderFuncs[uint16]{name: "uint16", compare: collection.CompareUint16Slice, equal: collection.EqualUint16Slice, wrap: wrapC(collection.NewComparableUint16Slice)})
			case 4:
				orderCase(t, orderFuncs[int32]{name: "int32", compare: collection.CompareInt32Slice, equal: collection.EqualInt32Slice, wrap: wrapC(collection.NewComparableInt32Slice)})
			case 5:
				orderCase(t, orderFuncs[uint32]{name: "uint32", compare: collection.CompareUint32Slice, equal: collection.EqualUint32Slice, wrap: wrapC(collection.NewComparableUint32Slice)})
			case 6:
				orderCase(t, orderFuncs[int64]{name: "int64", compare: collection.CompareInt64Slice, equal: collection.EqualInt64Slice, wrap: wrapC(collection.NewComparableInt64Slice)})
			case 7:
				orderCase(t, orderFuncs[uint64]{name: "uint64", compare: collection.CompareUint64Slice, equal: collection.EqualUint64Slice, wrap: wrapC(collection.NewComparableUint64Slice)})
			case 8:
				orderCase(t, orderFuncs[int]{name: "int", compare: collection.CompareIntSlice, equal: collection.EqualIntSlice})
			case 9:
				comparableSliceCase(t)
			}
		},
	})

	register(&Prop{
		ID: "C07", Quick: 1500000, Thorough: 30000000,
		Rule: "A case is two slices of one of eight kinds (numbers placed inside larger arrays, or lists of hashables), the second equal to the first or derived from it by one edit; hashed by Murmur3 with two seeds and by FNV; " +
			"non-trivial: they differ, or are equal and not empty.",
		Run: func(t *T) {
			switch t.Int(0, 7) {
			case 0:
				hashCase(t, "byte", wrapH(collection.NewHashableByteSlice))
			case 1:
				hashCase(t, "int16", wrapH(collection.NewHashableInt16Slice))
			case 2:
				hashCase(t, "uint16", wrapH(collection.NewHashableUint16Slice))
			case 3:
				hashCase(t, "int32", wrapH(collection.NewHashableInt32Slice))
			case 4:
				hashCase(t, "uint32", wrapH(collection.NewHashableUint32Slice))
			case 5:
				hashCase(t, "int64", wrapH(collection.NewHashableInt64Slice))
			case 6:
				hashCase(t, "uint64", wrapH(collection.NewHashableUint64Slice))
			case 7:
				hashableListCase(t)
			}
		},
		Assume: []string{"two different byte arrays do not collide under three hash functions at once"},
	})

	register(&Prop{
		ID: "C08", Quick: 2500000, Thorough: 30000000,
		Rule: "A case is a seed and a byte array at some offset of a larger one, hashed and compared with a straightforward Murmur3 (x86, 32 bits) written from its publication; " +
			"non-trivial: not empty.",
		Run: func(t *T) {
			seed := uint32(t.Uint64())
			b := t.Bytes(300, 4, 8, 16, 64)
			if t.Chance(1, 1000) {
				b = t.Bytes(300000, 1024, 4096, 32768, 65536, 131072)
			}
			off := t.Int(0, 7)
			t.Logf("seed %d, %s at offset %d", seed, hx(b), off)
			in := t.Within(append(make([]byte, off), b...), "hash")[off:]
			got := collection.MurmurSeed(seed).Hash(in)
			want := refMurmur3(seed, b)
			t.Check(got == want, "hash of %s with seed %d at offset %d is %#x, should be %#x", hx(b), seed, off, got, want)
			t.Check(string(in) == string(b), "hashing changed its input")
			t.Label("length mod 4 = %d", len(b)%4)
			if len(b) > 0 {
				t.NonTrivial()
			}
		},
		Assume: []string{"the machine is little endian, as those the code is built for"},
	})

	register(&Prop{
		ID: "C09", Quick: 2000000, Thorough: 30000000,
		Rule: "A case is one conversion (time, 64 and 32 bit integers, big integers to fixed 32 bytes) of a number with a taste for boundaries, a minimum and maximum of a pair of one of nine types, or the question whether something is nil, asked of something of one of 30 kinds; " +
			"non-trivial: the number is not 0, the pair differs, or it is not nil.",
		Run: func(t *T) {
			switch t.Int(0, 8) {
			case 8:
				if t.Chance(1, 4) {
					t.Label("ternary")
					which := t.Bool()
					a, b := t.Thing()
					t.Logf("of %v and %v: first %v", a, b, which)
					got := util.Ternary(which, a, b)
					want := b
					if which {
						want = a
					}
					t.Check(got == want, "of %v and %v, first %v: %v", a, b, which, got)
					if a != b {
						t.NonTrivial()
					}
					break
				}
				t.Label("is nil")
				isNilCase(t)
			case 0:
				t.Label("time")
				nano := t.Int64()
				t.Logf("time %d", nano)
				tm := collection.Int64ToTime(nano)
				t.Check(tm.UnixNano() == nano, "time of %d ns has %d ns", nano, tm.UnixNano())
				b := t.Keep(collection.TimeToBytes(tm), "the bytes")
				t.Check(len(b) == 8 && binary.BigEndian.Uint64(b) == uint64(nano), "time of %d ns is encoded as %x", nano, b)
				trail := t.BytesN(t.Int(0, 3))
				back, err := collection.BytesToTime(exact(append(append([]byte{}, b...), trail...)))
				t.Check(err == nil && back.Equal(time.Unix(0, nano)), "time of %d ns is decoded as %v (%v)", nano, back, err)
				n := t.Int(0, 7)
				_, err = collection.BytesToTime(exact(b[:n]))
				t.Check(err != nil, "a time of %d bytes is accepted", n)
				if nano != 0 {
					t.NonTrivial()
				}
			case 1:
				t.Label("int64")
				v := t.Int64()
				t.Logf("int64 %d", v)
				b := t.Keep(collection.Int64ToByteArray(v), "the bytes")
				t.Check(len(b) == 8 && binary.BigEndian.Uint64(b) == uint64(v), "%d is encoded as %x", v, b)
				t.Check(collection.ByteArrayToInt64(b) == v, "%d is decoded as %d", v, collection.ByteArrayToInt64(b))
				if v != 0 {
					t.NonTrivial()
				}
			case 2:
				t.Label("int32")
				v := int32(t.Int64())
				t.Logf("int32 %d", v)
				b := t.Keep(collection.Int32ToByteArray(v), "the bytes")
				t.Check(len(b) == 4 && binary.BigEndian.Uint32(b) == uint32(v), "%d is encoded as %x", v, b)
				t.Check(collection.ByteArrayToInt32(b) == v, "%d is decoded as %d", v, collection.ByteArrayToInt32(b))
				if v != 0 {
					t.NonTrivial()
				}
			case 3:
				t.Label("uint32")
				v := uint32(t.Uint64())
				t.Logf("uint32 %d", v)
				b := t.Keep(collection.Uint32ToByteArray(v), "the bytes")
				t.Check(len(b) == 4 && binary.BigEndian.Uint32(b) == v, "%d is encoded as %x", v, b)
				t.Check(collection.ByteArrayToUint32(b) == v, "%d is decoded as %d", v, collection.ByteArrayToUint32(b))
				if v != 0 {
					t.NonTrivial()
				}
			case 4, 5:
				t.Label("big integer")
				raw := t.BytesN(t.Len(32, 1, 31, 32))
				v := new(big.Int).SetBytes(raw)
				before := new(big.Int).Set(v)
				t.Logf("big integer %s", v)
				b := t.Keep(collection.BigIntToByteArray(v), "the bytes")
				t.Check(len(b) == 32, "%s is encoded in %d bytes", v, len(b))
				t.Check(new(big.Int).SetBytes(b).Cmp(before) == 0, "%s is encoded as %x", before, b)
				t.Check(v.Cmp(before) == 0, "encoding %s changed it", before)
				back := collection.ByteArrayToBigInt(b)
				t.Check(back.Cmp(before) == 0, "%s is decoded as %s", before, back)
				t.Check(collection.ByteArrayToBigInt(raw).Cmp(before) == 0, "%x is decoded as %s", raw, collection.ByteArrayToBigInt(raw))
				if v.Sign() != 0 {
					t.NonTrivial()
				}
			case 6:
				switch t.Int(0, 8) {
				case 0:
					minMax(t, "int", collection.MinInt, collection.MaxInt)
					minMax(t, "int (unsigned name)", collection.MinUnt, collection.MaxUint)
				case 1:
					minMax(t, "int8", collection.MinInt8, collection.MaxInt8)
				case 2:
					minMax(t, "uint8", collection.MinUnt8, collection.MaxUint8)
				case 3:
					minMax(t, "int16", collection.MinInt16, collection.MaxInt16)
				case 4:
					minMax(t, "uint16", collection.MinUnt16, collection.MaxUint16)
				case 5:
					minMax(t, "int32", collection.MinInt32, collection.MaxInt32)
				case 6:
					minMax(t, "uint32", collection.MinUint32, collection.MaxUint32)
				case 7:
					minMax(t, "int64", collection.MinInt64, collection.MaxInt64)
				case 8:
					minMax(t, "uint64", collection.MinUint64, collection.MaxUint64)
				}
			case 7:
				t.Label("too short or too long")
				raw := t.BytesN(t.Int(0, 20))
				t.Logf("bytes %x", raw)
				// what is behind the number makes no difference; what is too
				// short is 0, and never a part of it
				want := [3]uint64{}
				if len(raw) >= 4 {
					want[0] = uint64(binary.BigEndian.Uint32(raw))
					want[1] = want[0]
				}
				if len(raw) >= 8 {
					want[2] = binary.BigEndian.Uint64(raw)
				}
				in := t.Within(raw, "what is decoded")
				t.Check(uint64(collection.ByteArrayToUint32(in)) == want[0], "%x is decoded as uint32 %d", raw, collection.ByteArrayToUint32(in))
				t.Check(collection.ByteArrayToInt32(in) == int32(want[1]), "%x is decoded as int32 %d", raw, collection.ByteArrayToInt32(in))
				t.Check(collection.ByteArrayToInt64(in) == int64(want[2]), "%x is decoded as int64 %d", raw, collection.ByteArrayToInt64(in))
				if len(raw) > 0 {
					t.NonTrivial()
				}
				// more than 256 bits
				big1 := append([]byte{byte(t.Int(1, 255))}, t.BytesN(t.Len(60, 32, 33, 40))...)
				v := new(big.Int).SetBytes(big1)
				b := t.Keep(collection.BigIntToByteArray(v), "the bytes")
				t.Check(len(b) == 32, "%s is encoded in %d bytes", v, len(b))
				mod := new(big.Int).Mod(v, new(big.Int).Lsh(big.NewInt(1), 256))
				t.Check(new(big.Int).SetBytes(b).Cmp(mod) == 0, "%s is encoded as %x", v, b)
			}
		},
	})
}
