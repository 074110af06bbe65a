package main

import (
	"encoding/binary"
	"fmt"
	"math"

	"../collection"
	"../util"
)

func refUvarint(v uint64) []byte {
	b := []byte{}
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func refVarint(v int64) []byte {
	u := uint64(v) << 1
	if v < 0 {
		u = ^u
	}
	return refUvarint(u)
}

func refVarchar(b []byte) []byte { return append(refUvarint(uint64(len(b))), b...) }

// a key is a sequence of sub keys
func refKey(k [][]byte) []byte {
	out := refUvarint(uint64(len(k)))
	for _, s := range k {
		out = append(out, refVarchar(s)...)
	}
	return out
}

func refCompareKeys(a, b [][]byte) int {
	for i := range a {
		if i >= len(b) {
			return 1
		}
		if string(a[i]) < string(b[i]) {
			return -1
		} else if string(a[i]) > string(b[i]) {
			return 1
		}
	}
	if len(a) < len(b) {
		return -1
	}
	return 0
}

// what follows an encoding in a larger buffer
func (t *T) Trailer() []byte {
	if t.Chance(1, 3) {
		return []byte{}
	}
	return t.BytesN(t.Int(1, 12))
}

// sub keys are not empty
func (t *T) SubKey() []byte {
	n := t.Len(400, 1, 127, 128, 255, 256)
	if n == 0 {
		n = 1
	}
	return t.BytesN(n)
}

func (t *T) SmallSubKey() []byte {
	b := make([]byte, t.Int(1, 3))
	for i := range b {
		b[i] = []byte{'a', 'b', 0, 0xff, 0x7f, 0x80}[t.Weighted(6, 5, 2, 2, 1, 1)]
	}
	return b
}

// sub keys of a key: few short ones, sometimes many or long ones
func (t *T) KeyModel() [][]byte {
	k := [][]byte{}
	switch t.Weighted(8, 3, 1) {
	case 0:
		for i := 0; i < 6 && t.More(2); i++ {
			k = append(k, t.SmallSubKey())
		}
	case 1:
		for i := 0; i < 6 && t.More(2); i++ {
			k = append(k, t.SubKey())
		}
	case 2: // many
		n, most := []int{126, 127, 128, 129, 300, 1000}[t.Int(0, 5)], uint64(3)
		if t.Chance(1, 15) {
			n, most = t.Int(1000, 2100), 1
		}
		r := &prng{s: t.Draw(1 << 16)}
		for i := 0; i < n; i++ {
			s := make([]byte, 1+int(r.next()%most))
			for j := range s {
				s[j] = byte(r.next())
			}
			k = append(k, s)
		}
	}
	return k
}

func (t *T) NearKeyModel(k [][]byte) [][]byte {
	out := append([][]byte{}, k...)
	switch t.Weighted(2, 2, 2, 2, 2, 1, 1) {
	case 0: // the same
	case 1: // one sub key differs
		if len(out) > 0 {
			i := t.Int(0, len(out)-1)
			out[i] = append(append([]byte{}, out[i]...), t.SmallSubKey()...)
		}
	case 2: // a prefix
		out = out[:t.Int(0, len(out))]
	case 3: // one more
		out = append(out, t.SmallSubKey())
	case 4: // two swapped
		if len(out) > 1 {
			i := t.Int(0, len(out)-2)
			j := t.Int(i+1, len(out)-1)
			out[i], out[j] = out[j], out[i]
		}
	case 5: // sub keys joined
		if len(out) > 1 {
			out[0] = append(append([]byte{}, out[0]...), out[1]...)
			out = append(out[:1], out[2:]...)
		}
	case 6:
		return t.KeyModel()
	}
	return out
}

func buildKey(k [][]byte) *util.Key {
	key := util.NewKey()
	for _, s := range k {
		key.Add(exact(s))
	}
	return key
}

// a constructed key, by one of the ways that lead to it: it may have been
// encoded, hashed, compared or copied before the last of its sub keys is added
func (t *T) MadeKey(k [][]byte) *util.Key {
	key := util.NewKey()
	way := t.Draw(9)
	if way < 2 || len(k) == 0 && way < 5 {
		return buildKey(k)
	}
	use := func() {
		switch t.Draw(4) {
		case 0:
			key.Encode(nil) // may be too long
		case 1:
			key.HashUint32(collection.MurmurSeed(1).Hash)
		case 2:
			other := util.NewStringKey("other")
			key.Equal(other)
			key.Compare(other)
		case 3:
			key = key.Copy().(*util.Key)
		case 4:
			c, err := key.CopyConstruct()
			t.Check(err == nil, "copy construct of key %s: %v", hxs(key.Key()), err)
			key = c.(*util.Key)
		}
	}
	i := 0
	switch way {
	case 2:
		key, i = util.NewSimpleKey(exact(k[0])), 1
	case 3:
		key, i = util.NewStringKey(string(k[0])), 1
	}
	at := -1
	if way >= 5 && len(k) > 0 { // used before it is complete
		at = t.Int(0, len(k)-1)
	}
	for ; i < len(k); i++ {
		if i == at {
			use()
		}
		key.Add(exact(k[i]))
	}
	if way != 8 {
		use()
	}
	return key
}

func checkKey(t *T, what string, key util.IKey, want [][]byte) {
	got := key.Key()
	t.Check(len(got) == len(want), "%s: has %d sub keys, should have %d: %s", what, len(got), len(want), hxs(want))
	for i := range want {
		t.Check(string(got[i]) == string(want[i]), "%s: sub key %d is %s, should be %s", what, i, hx(got[i]), hx(want[i]))
		t.Check(string(key.SubKeyAt(i)) == string(want[i]), "%s: sub key at %d is %s, should be %s", what, i, hx(key.SubKeyAt(i)), hx(want[i]))
	}
	t.Check(key.IsEmpty() == (len(want) == 0), "%s: is empty is %v with %d sub keys", what, key.IsEmpty(), len(want))
}

func mustEncode(t *T, what string, e util.IEncodable) []byte {
	err := e.Encode(nil)
	t.Check(err == nil, "%s: encode fails: %v", what, err)
	t.Check(e.IsEncoded(), "%s: not encoded after encode", what)
	if t.keepEncoded {
		return t.Keep(e.Buf(), "what "+what+" was encoded to")
	}
	return e.Buf()
}

// after an edit, an object does not say it is encoded unless its bytes are
// what it would be encoded to
func (t *T) NotStale(what string, e util.IEncodable, want []byte) {
	if e.IsEncoded() {
		t.Check(string(e.Buf()) == string(want), "%s, edited, says it is encoded as %s, should be %s", what, hx(e.Buf()), hx(want))
	}
}

func init() {
	register(&Prop{
		ID: "C10", Quick: 1200000, Thorough: 40000000,
		Rule: "A case is a signed or unsigned 64 bit number or a byte array (boundary lengths), encoded, compared with a reference encoder, decoded with and without something behind it, and every or some strict prefixes refused; " +
			"non-trivial: the encoding is longer than one byte.",
		Run: func(t *T) {
			trail := t.Trailer()
			switch t.Int(0, 2) {
			case 0:
				v := t.Uint64()
				t.Logf("unsigned %d, followed by %d bytes", v, len(trail))
				t.Label("unsigned")
				b := t.Keep(util.EncodeUvarint64(v), "the encoding")
				t.Check(string(b) == string(refUvarint(v)), "%d is encoded as %x, should be %x", v, b, refUvarint(v))
				got, n, err := util.DecodeUvarint64(t.Within(append(exact(b), trail...), "what is decoded"))
				t.Check(err == nil && got == v && n == len(b), "%d encoded as %x is decoded as %d, length %d, error %v", v, b, got, n, err)
				for i := 1; i < len(b); i++ {
					got, n, err := util.DecodeUvarint64(exact(b[:i]))
					t.Check(err != nil, "%d bytes of the encoding %x of %d are decoded as %d, length %d", i, b, v, got, n)
				}
				if len(b) > 1 {
					t.NonTrivial()
				}
			case 1:
				v := t.Int64()
				t.Logf("signed %d, followed by %d bytes", v, len(trail))
				t.Label("signed")
				b := t.Keep(util.EncodeVarint64(v), "the encoding")
				t.Check(string(b) == string(refVarint(v)), "%d is encoded as %x, should be %x", v, b, refVarint(v))
				got, n, err := util.DecodeVarint64(t.Within(append(exact(b), trail...), "what is decoded"))
				t.Check(err == nil && got == v && n == len(b), "%d encoded as %x is decoded as %d, length %d, error %v", v, b, got, n, err)
				for i := 1; i < len(b); i++ {
					got, n, err := util.DecodeVarint64(exact(b[:i]))
					t.Check(err != nil, "%d bytes of the encoding %x of %d are decoded as %d, length %d", i, b, v, got, n)
				}
				if len(b) > 1 {
					t.NonTrivial()
				}
			case 2:
				v := t.Bytes(70000, 127, 128, 255, 256, 16383, 16384, 65535, 65536)
				if t.Chance(1, 4000) { // around a length of three or four bytes, or any
					v = make([]byte, []int{1<<21 - 1, 1 << 21, t.Int(70000, 5000000)}[t.Int(0, 2)])
					r := &prng{s: t.Draw(255)}
					for i := 0; i < len(v); i += int(r.next() % 500) {
						v[i] = byte(r.next())
					}
					t.Label("long")
				}
				t.Logf("bytes %s, followed by %d bytes", hx(v), len(trail))
				t.Label("bytes")
				b := t.Keep(util.EncodeVarchar(v), "the encoding")
				t.Check(string(b) == string(refVarchar(v)), "%s is encoded as %s, should be %s", hx(v), hx(b), hx(refVarchar(v)))
				got, n, err := util.DecodeVarchar(t.Within(append(exact(b), trail...), "what is decoded"))
				t.Check(err == nil && string(got) == string(v) && n == len(b), "%s encoded as %s is decoded as %s, length %d, error %v", hx(v), hx(b), hx(got), n, err)
				for i := 0; i < 12; i++ {
					cut := len(b) - 1 - i
					if i >= 6 && len(b) > 1 {
						cut = t.Int(1, len(b)-1)
					}
					if cut < 1 {
						break
					}
					got, n, err := util.DecodeVarchar(exact(b[:cut]))
					t.Check(err != nil, "%d bytes of the encoding %s of %s are decoded as %s, length %d", cut, hx(b), hx(v), hx(got), n)
				}
				if len(b) > 1 {
					t.NonTrivial()
				}
			}
		},
	})

	register(&Prop{
		ID: "C11", Quick: 300000, Thorough: 20000000,
		Rule: "A case is a key of up to 1000 sub keys, built step by step with encodings in between, encoded, compared with a reference encoder and its size limit, decoded from a buffer with something behind it, copied, and strict prefixes refused; " +
			"non-trivial: at least two sub keys, or at the size limit.",
		Run: func(t *T) {
			t.keepEncoded = true
			k := t.KeyModel()
			if t.Chance(1, 8) { // around the limit
				total := len(refKey(k))
				n := 4096 - total + t.Int(0, 8) - 6
				if n > 0 {
					k = append(k, t.BytesN(n))
					t.Label("near the limit")
				}
			}
			if t.Chance(1, 20) {
				k = append(k, t.BytesN(t.Int(4000, 9000)))
			}
			// sub keys are added one by one, and it may be encoded in between
			key := util.NewKey()
			if t.Chance(1, 4) && len(k) > 0 {
				if t.Bool() {
					key = util.NewSimpleKey(exact(k[0]))
				} else {
					key = util.NewStringKey(string(k[0]))
				}
			}
			early := t.Chance(1, 3)
			for i := len(key.Key()); i < len(k); i++ {
				if early && i < 8 && t.Bool() {
					if err := key.Encode(nil); err == nil {
						t.Check(string(key.Buf()) == string(refKey(k[:i])), "key %s is encoded as %s", hxs(k[:i]), hx(key.Buf()))
					}
					t.Label("encoded early")
				}
				if t.Chance(1, 16) {
					var none []byte
					if t.Bool() {
						none = []byte{}
					}
					p, _ := Panics(func() { key.Add(none) })
					t.Check(p, "an empty sub key is added")
				}
				t.Check(key.Add(exact(k[i])) == key, "adding a sub key returns something else")
				if early && i < 8 {
					t.NotStale("key", key, refKey(k[:i+1]))
				}
			}
			want := refKey(k)
			t.Logf("key %s, %d bytes", hxs(k), len(want))
			checkKey(t, "constructed key", key, k)
			err := key.Encode(nil)
			if len(want) > util.MAX_KEY_LENGTH {
				t.Label("too long")
				t.NonTrivial()
				t.Check(err != nil, "a key of %d bytes is encoded", len(want))
				return
			}
			t.Check(err == nil, "key %s: encode fails: %v", hxs(k), err)
			b := key.Buf()
			t.Check(string(b) == string(want), "key %s is encoded as %s, should be %s", hxs(k), hx(b), hx(want))
			trail := t.Trailer()
			mk, n, err := util.NewMappedKey(t.Within(append(exact(b), trail...), "what is decoded"))
			t.Check(err == nil && n == len(b), "key %s: decode of its encoding followed by %d bytes: length %d, should be %d, error %v", hxs(k), len(trail), n, len(b), err)
			t.Check(mk.IsDecoded() && mk.IsEncoded(), "key %s: not decoded after decode", hxs(k))
			checkKey(t, "decoded key", mk, k)
			t.Check(string(mk.Buf()) == string(b), "decoded key %s followed by %x holds %s", hxs(k), trail, hx(mk.Buf()))
			c, err := mk.CopyConstruct()
			t.Check(err == nil, "copy construct of key %s: %v", hxs(k), err)
			checkKey(t, "copy of decoded key", c.(util.IKey), k)
			t.Check(string(mustEncode(t, "copy of decoded key", c)) == string(b), "copy of decoded key %s is encoded as %s", hxs(k), hx(c.Buf()))
			checkKey(t, "decoded copy", mk.Copy().(util.IKey), k)
			checkKey(t, "copy of constructed key", key.Copy().(util.IKey), k)
			for i := 0; i < 8; i++ {
				cut := len(b) - 1 - i
				if i >= 3 && len(b) > 1 {
					cut = t.Int(1, len(b)-1)
				}
				if cut < 1 {
					break
				}
				_, n, err := util.NewMappedKey(exact(b[:cut]))
				t.Check(err != nil, "%d of %d bytes of key %s are decoded, length %d", cut, len(b), hxs(k), n)
			}
			t.Label("%d bytes of count", len(refUvarint(uint64(len(k)))))
			if len(k) >= 2 || len(b) > 4090 {
				t.NonTrivial()
			}
		},
		Assume: []string{"sub keys are not empty, as adding one demands"},
	})

	register(&Prop{
		ID: "C12", Quick: 80000, Thorough: 15000000,
		Rule: "A case is three keys, the second and third derived from an earlier one (same, one sub key changed, prefix, longer, swapped, joined), each as two constructed keys with any history (encoded, hashed, compared or copied before the last sub key), a decoded key and, if empty, the empty key; all ordered pairs are compared, tested for equality and hashed; " +
			"non-trivial: some pair differs and has a sub key in common.",
		Run: func(t *T) {
			models := [][][]byte{t.KeyModel()}
			for len(models) < 3 {
				models = append(models, t.NearKeyModel(models[t.Int(0, len(models)-1)]))
			}
			type form struct {
				name string
				key  util.IKey
				idx  int
			}
			forms := []form{}
			for i, m := range models {
				t.Logf("key %s", hxs(m))
				forms = append(forms, form{"constructed", t.MadeKey(m), i}, form{"constructed", t.MadeKey(m), i})
				mk, _, err := util.NewMappedKey(exact(append(refKey(m), t.Trailer()...)))
				t.Check(err == nil, "key %s: decode fails: %v", hxs(m), err)
				forms = append(forms, form{"decoded", mk, i})
				if len(m) == 0 {
					empty := util.NewEmptyKey()
					forms = append(forms, form{"empty", empty, i}, form{"copied empty", empty.Copy().(util.IKey), i})
					c, err := empty.CopyConstruct()
					t.Check(err == nil, "copy construct of the empty key: %v", err)
					forms = append(forms, form{"constructed empty", c.(util.IKey), i})
					t.Check(empty.Encode(nil) == nil && empty.IsEncoded() && string(empty.Buf()) == "\x00", "the empty key is encoded as %x", empty.Buf())
				}
			}
			fs := hashFuncs(t)
			for _, a := range forms {
				t.Check(a.key.Compare(nil) > 0, "%s key %s is not after nil", a.name, hxs(models[a.idx]))
				t.Check(!a.key.Equal(nil), "%s key %s equals nil", a.name, hxs(models[a.idx]))
				if no := t.NilPointer(); true {
					t.Check(!a.key.Equal(no), "%s key %s equals a nil pointer %T", a.name, hxs(models[a.idx]), no)
					if c, ok := no.(collection.IComparable); ok {
						t.Check(a.key.Compare(c) > 0, "%s key %s is not after a nil pointer %T", a.name, hxs(models[a.idx]), no)
					}
				}
				t.Check(!a.key.Equal(collection.NewHashableByteSlice(refKey(models[a.idx]))), "%s key %s equals a slice", a.name, hxs(models[a.idx]))
				for _, b := range forms {
					ma, mb := models[a.idx], models[b.idx]
					want := refCompareKeys(ma, mb)
					what := fmt.Sprintf("%s key %s and %s key %s", a.name, hxs(ma), b.name, hxs(mb))
					got := a.key.Compare(b.key)
					t.Check(sign(got) == want, "%s: compare is %d, should be %d", what, got, want)
					t.Check(a.key.Equal(b.key) == (want == 0), "%s: equality is %v", what, a.key.Equal(b.key))
					same := 0
					for _, f := range fs {
						if a.key.HashUint32(f) == b.key.HashUint32(f) {
							same += 1
						}
					}
					if want == 0 {
						t.Check(same == len(fs), "%s: equal, but their hashes differ", what)
					} else {
						t.Check(same < len(fs), "%s: different, but all of their hashes are the same", what)
						t.Label("different")
						if len(ma) > 0 && len(mb) > 0 {
							t.NonTrivial()
						}
					}
				}
			}
		},
		Assume: []string{"two different keys do not collide under three hash functions at once"},
	})

	_ = binary.BigEndian
	_ = math.MaxInt64
	_ = collection.IsNil
}
