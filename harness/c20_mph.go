package main

import (
	"encoding/binary"
	"fmt"
	"math/bits"

	"../util"
)

// distinct keys for a table, by their text: up to max of them, or exactly -max
func (t *T) TableKeys(max int) [][][]byte {
	n := 0
	if max < 0 { // exactly that many
		keys := [][][]byte{}
		paths := t.Bool()
		for i := 0; i < -max; i++ {
			k := [][]byte{[]byte(fmt.Sprintf("key%d", i))}
			if paths {
				k = [][]byte{{byte(i), 1}, {byte(i >> 8)}, {byte(i >> 16)}}
			}
			keys = append(keys, k)
		}
		return keys
	}
	switch t.Weighted(8, 4, 2) {
	case 0:
		n = t.Int(0, min(max, 20))
	case 1: // around a power of two
		k := uint(t.Int(0, 10))
		n = 1<<k + t.Int(0, 2) - 1
	case 2:
		n = t.Int(0, max)
	}
	if n > max {
		n = max
	}
	keys := [][][]byte{}
	seen := map[string]bool{}
	add := func(k [][]byte) {
		s := string(refKey(k))
		if !seen[s] {
			seen[s] = true
			keys = append(keys, k)
		}
	}
	style := t.Int(0, 4)
	if style < 2 || n <= 24 {
		for i := 0; i < 2*n && len(keys) < n; i++ {
			k := t.KeyModel()
			if len(k) > 20 {
				k = k[:20]
			}
			if len(k) == 0 && !t.Chance(1, 8) {
				k = [][]byte{[]byte(fmt.Sprint(i))}
			}
			add(k)
		}
		return keys
	}
	r := &prng{s: t.Draw(1 << 20)}
	for i := 0; len(keys) < n; i++ {
		switch style {
		case 2: // counted
			add([][]byte{[]byte(fmt.Sprintf("key%d", i))})
		case 3: // paths
			k := [][]byte{}
			for v := i + 1; v > 0; v /= 4 {
				k = append(k, []byte{byte('a' + v%4)})
			}
			add(k)
		default:
			k := [][]byte{}
			for j := uint64(0); j <= r.next()%3; j++ {
				s := make([]byte, 1+r.next()%12)
				for x := range s {
					s[x] = byte(r.next())
				}
				k = append(k, s)
			}
			add(k)
		}
	}
	return keys
}

func mphKeys(keys [][][]byte) []util.IKey {
	out := make([]util.IKey, len(keys))
	for i, k := range keys {
		out[i] = buildKey(k)
	}
	return out
}

// a key that bounds how often it is hashed: a build that does not end fails
type countingKey struct {
	util.IKey
	left *int
}

type tooManyHashes struct{}

func (k *countingKey) HashUint32(f func([]byte) uint32) uint32 {
	*k.left--
	if *k.left < 0 {
		panic(tooManyHashes{})
	}
	return k.IKey.HashUint32(f)
}

func (t *T) mphCase(max int) (keys [][][]byte, ikeys []util.IKey, byKey bool, table *util.MPHTable) {
	keys = t.TableKeys(max)
	byKey = t.Bool()
	ikeys = make([]util.IKey, len(keys))
	left := 3000000 + 20000*len(keys)
	for i, k := range keys {
		var key util.IKey = t.MadeKey(k)
		switch t.Draw(3) {
		case 1:
			mk, _, err := util.NewMappedKey(append(refKey(k), 0, 1))
			t.Check(err == nil, "key %s: %v", hxs(k), err)
			key = mk
		case 2:
			if len(k) == 0 {
				key = util.NewEmptyKey()
			}
		}
		ikeys[i] = &countingKey{key, &left}
	}
	t.Logf("%d keys, by key %v: %s", len(keys), byKey, func() string {
		s := ""
		for i, k := range keys {
			if i >= 8 {
				return s + "..."
			}
			s += hxs(k) + " "
		}
		return s
	}())
	panicked, what := Panics(func() { table = util.MPHBuild(ikeys, byKey) })
	if panicked {
		if _, ok := what.(tooManyHashes); ok {
			t.Failf("building a table of %d distinct keys does not end", len(keys))
		}
		t.Failf("building a table of %d distinct keys panics: %v", len(keys), what)
	}
	left = 1 << 40
	if t.Chance(1, 3) { // the list is the caller's: used again for something else
		for i := range ikeys {
			ikeys[i] = util.NewStringKey("other")
		}
	}
	switch {
	case len(keys) == 0:
		t.Label("empty")
	case len(keys) < 32:
		t.Label("less than 32")
	case len(keys) < 256:
		t.Label("less than 256")
	case len(keys) < 20000:
		t.Label("more")
	default:
		t.Label("tens of thousands")
	}
	if byKey {
		t.Label("by key")
	} else {
		t.Label("by hash")
	}
	return
}

func (t *T) mphLookup(what string, table *util.MPHTable, keys [][][]byte, byKey bool) {
	present := map[string]int{}
	for i, k := range keys {
		present[string(refKey(k))] = i
		n, ok := table.Lookup(t.MadeKey(k))
		t.Check(ok, "%s of %d keys: key %d %s is not found", what, len(keys), i, hxs(k))
		t.Check(int(n) == i, "%s of %d keys: key %d %s is found at %d", what, len(keys), i, hxs(k), n)
	}
	// others: near ones, and fresh ones
	wrong := 0
	for i := 0; i < 6; i++ {
		var k [][]byte
		if len(keys) > 0 && t.Bool() {
			k = t.NearKeyModel(keys[t.Int(0, len(keys)-1)])
		} else {
			k = t.KeyModel()
		}
		if _, ok := present[string(refKey(k))]; ok {
			continue
		}
		var key util.IKey = t.MadeKey(k)
		if len(k) == 0 && t.Bool() {
			key = util.NewEmptyKey()
		}
		n, ok := table.Lookup(key)
		if ok {
			t.Check(!byKey, "%s of %d keys: key %s, which is not in the table, is found at %d", what, len(keys), hxs(k), n)
			t.Check(int(n) < len(keys), "%s of %d keys: key %s is found at %d", what, len(keys), hxs(k), n)
			wrong++
		}
	}
	t.Check(wrong < 3, "%s of %d keys, by hash: %d keys out of 6, which are not in the table, are found", what, len(keys), wrong)
}

// the inverse of an odd number
func oddInverse(a uint32) uint32 {
	x := a
	for i := 0; i < 5; i++ {
		x *= 2 - a*x
	}
	return x
}

// the 32 bit block that takes the hash, as published, from h to next
func murmurBlock(h, next uint32) uint32 {
	b := (next - 0xe6546b64) * oddInverse(5)
	b = bits.RotateLeft32(b, -13) ^ h
	b *= oddInverse(0x1b873593)
	b = bits.RotateLeft32(b, -15)
	return b * oddInverse(0xcc9e2d51)
}

// eight bytes that have the given hash under a seed, by Murmur3 backwards
func murmurCollision(seed, first, want uint32) []byte {
	h := want
	h ^= h >> 16
	h *= 0x7ed1b41d
	h ^= h >> 13
	h ^= h >> 26
	h *= 0xa5cb9243
	h ^= h >> 16
	h ^= 8
	b := make([]byte, 8)
	binary.LittleEndian.PutUint32(b, first)
	k := first * 0xcc9e2d51
	k = bits.RotateLeft32(k, 15)
	k *= 0x1b873593
	mid := seed ^ k
	mid = bits.RotateLeft32(mid, 13)
	mid = mid*5 + 0xe6546b64
	binary.LittleEndian.PutUint32(b[4:], murmurBlock(mid, h))
	return b
}

// keys made to collide with a key of a table, without a look at the table:
// they are found when the seed that verifies can be guessed
func (t *T) mphGuess() {
	k := append(t.Bytes(24), 1)
	seeds := []uint32{}
	base := uint32(0)
	if t.Bool() {
		base = uint32(t.Draw(1<<32 - 1))
	}
	for i := uint32(0); i < 200; i++ {
		seeds = append(seeds, base+i)
	}
	for i := uint(8); i < 32; i++ {
		seeds = append(seeds, 1<<i, 1<<i-1)
	}
	keys := [][]byte{}
	for _, s := range seeds {
		c := murmurCollision(s, uint32(t.Draw(1<<16)), refMurmur3(s, k))
		t.Check(refMurmur3(s, c) == refMurmur3(s, k), "harness: no collision") // checks the inversion
		if string(c) != string(k) {
			keys = append(keys, c)
		}
	}
	found := 0
	last := []byte{}
	for i := 0; i < 6; i++ {
		table := util.MPHBuild([]util.IKey{buildKey([][]byte{k})}, false)
		for _, c := range keys {
			if _, ok := table.Lookup(buildKey([][]byte{c})); ok {
				found++
				last = c
				break
			}
		}
	}
	t.Check(found < 3, "6 tables of key %x, by hash: %d of them find a key made to collide under a guessed seed, e.g. %x", k, found, last)
}

// two keys that have the same hash under every seed: the difference of the
// first block is moved to the top bit, where the second block takes it away
func (t *T) mphColliding() (a, b []byte) {
	const c1, c2 = 0xcc9e2d51, 0x1b873593
	mix := func(k uint32) uint32 { return bits.RotateLeft32(k*c1, 15) * c2 }
	unmix := func(k uint32) uint32 { return bits.RotateLeft32(k*oddInverse(c2), -15) * oddInverse(c1) }
	tail := t.Bytes(12)
	a, b = make([]byte, 8), make([]byte, 8)
	for i, diff := range []uint32{1 << 18, 1 << 31} {
		block := uint32(t.Draw(1<<32 - 1))
		binary.LittleEndian.PutUint32(a[4*i:], block)
		binary.LittleEndian.PutUint32(b[4*i:], unmix(mix(block)^diff))
	}
	return append(a, tail...), append(b, tail...)
}

// a table of keys that collide under every seed
func (t *T) mphUniversal() {
	a, b := t.mphColliding()
	for _, seed := range []uint32{0, 1, 2, 77, 1 << 16, uint32(t.Draw(1<<32 - 1)), uint32(t.Draw(1<<32 - 1))} {
		t.Check(string(a) != string(b) && refMurmur3(seed, a) == refMurmur3(seed, b), "harness: %x and %x do not collide", a, b)
	}
	keys := [][][]byte{{a}, {b}}
	for i := t.Int(0, 6); i > 0; i-- {
		keys = append(keys, [][]byte{[]byte(fmt.Sprint(i))})
	}
	byKey := t.Bool()
	left := 1000000
	ikeys := make([]util.IKey, len(keys))
	for i, k := range keys {
		ikeys[i] = &countingKey{buildKey(k), &left}
	}
	t.Logf("%d keys, by key %v, two of them %x and %x", len(keys), byKey, a, b)
	var table *util.MPHTable
	panicked, what := Panics(func() { table = util.MPHBuild(ikeys, byKey) })
	if _, ok := what.(tooManyHashes); panicked && ok {
		t.Known("hash-collides-under-every-seed", "building a table of distinct keys, two of them %x and %x, does not end", a, b)
		return
	}
	t.Check(!panicked, "building a table of keys, two of them %x and %x, panics: %v", a, b, what)
	left = 1 << 40
	t.mphLookup("table", table, keys, byKey)
}

// few of very many keys that are not in a table are found: all of its 32 bits verify
func (t *T) mphStrangers() {
	const tries = 2000000
	keys := [][][]byte{{append(t.Bytes(24), 1)}}
	for i := t.Int(0, 3); i > 0; i-- {
		keys = append(keys, [][]byte{{byte(i), 2}, t.BytesN(30)})
	}
	table := util.MPHBuild(mphKeys(keys), false)
	t.Logf("%d keys, %d others", len(keys), tries)
	found, last := 0, uint32(0)
	first := uint32(t.Draw(1<<32 - 1))
	b := make([]byte, 4)
	for i := uint32(0); i < tries; i++ { // keys of 4 bytes
		binary.BigEndian.PutUint32(b, first+i)
		if _, ok := table.Lookup(util.NewSimpleKey(b)); ok {
			if len(keys[0]) == 1 && string(keys[0][0]) == string(b) {
				continue
			}
			found++
			last = first + i
		}
	}
	// one is found with a probability of 1:2000, three by less than 2:10^11
	t.Check(found < 3, "table of %d keys, by hash: of %d keys that are not in it, %d are found, e.g. %08x", len(keys), tries, found, last)
}

// tables of the same key do not share their seeds: those are only seen in what is encoded
func (t *T) mphSeeds() {
	const tables = 2000
	k := append(t.Bytes(24), 1)
	keys := []util.IKey{buildKey([][]byte{k})}
	seen := map[string]bool{}
	for i := 0; i < tables; i++ {
		b, err := util.MPHBuild(keys, false).Encode()
		t.Check(err == nil, "encode: %v", err)
		seen[string(b)] = true
	}
	// all 2000 differ, as 2^32 seeds would have it, or about 4 fewer by chance
	t.Check(len(seen) >= tables-12, "%d tables of key %x, by hash, verify in only %d ways", tables, k, len(seen))
}

func init() {
	register(&Prop{
		ID: "C20", Quick: 60000, Thorough: 3000000,
		Rule: "A case is a set of distinct keys (0 to 3000 of them, often around a power of two, rarely 30000 to 131072; sub keys shared, permuted, joined, prefixes), built into a perfect hash table verified by key or by hash, with a bound on hashing, the list then sometimes overwritten by the caller, every key looked up, and six keys that are not in it; " +
			"or keys made, by inverting Murmur3, to collide with the key of a table under seeds that can be guessed, looked up in six tables; or 2000 tables of one key, whose encodings differ; or a small table, verified by hash, in which two million other keys are looked up, and fewer than three found; or two keys that collide under every seed of the hash, among others (building their table does not end: a known finding); " +
			"non-trivial: at least 5 keys, or one of the latter four.",
		Run: func(t *T) {
			switch {
			case t.Chance(1, 400):
				t.mphGuess()
				t.Label("guessed seeds")
				t.NonTrivial()
				return
			case t.Chance(1, 8000):
				t.mphStrangers()
				t.Label("strangers")
				t.NonTrivial()
				return
			case t.Chance(1, 3000):
				t.mphUniversal()
				t.Label("colliding under every seed")
				t.NonTrivial()
				return
			case t.Chance(1, 3000):
				t.mphSeeds()
				t.Label("seeds")
				t.NonTrivial()
				return
			}
			max := map[bool]int{false: 40, true: 3000}[t.Chance(1, 10)]
			if t.Chance(1, 8000) {
				max = -t.Int(30000, 80000)
				if t.Bool() { // nothing is left for the last ones
					max = -(1 << uint(t.Int(15, 17)))
				}
			}
			keys, _, byKey, table := t.mphCase(max)
			t.mphLookup("table", table, keys, byKey)
			if len(keys) >= 5 {
				t.NonTrivial()
			}
		},
		Assume: []string{"by hash, a key that is not in the table is found with a probability of 2^-32: three out of six, or of two millions, are a violation",
			"two different keys do not collide under the hash for all seeds by chance; those made to are a known finding"},
	})

	register(&Prop{
		ID: "C21", Quick: 120000, Thorough: 3000000,
		Rule: "A case is a perfect hash table of a random key set, encoded, decoded with something behind it, and used as in C20; encoded again it is the same bytes, and strict prefixes are refused; " +
			"non-trivial: at least 2 keys.",
		Run: func(t *T) {
			max := map[bool]int{false: 30, true: 600}[t.Chance(1, 15)]
			if t.Chance(1, 8000) {
				max = -(65536 + t.Int(0, 4000))
			}
			keys, _, byKey, table := t.mphCase(max)
			b, err := table.Encode()
			t.Check(err == nil, "encode: %v", err)
			want := byte(0)
			if byKey {
				want = 1
			}
			t.Check(b[0] == want, "table by key %v has magic %x", byKey, b[0])
			back, n, err := util.NewMPHTable(t.Within(append(exact(b), t.Trailer()...), "what is decoded"))
			t.Check(err == nil && n == len(b), "table of %d keys: %d of %d bytes are taken: %v", len(keys), n, len(b), err)
			t.mphLookup("decoded table", back, keys, byKey)
			again, err := back.Encode()
			t.Check(err == nil && string(again) == string(b), "table of %d keys: encoded, decoded, encoded, it is different: %v", len(keys), err)
			if t.Bool() { // the bytes it was encoded to, and decoded from, do not matter any longer
				saved := exact(b)
				scribble(b)
				b = saved
				scribble(again)
				for _, x := range []*util.MPHTable{table, back} {
					again, err := x.Encode()
					t.Check(err == nil && string(again) == string(b), "table of %d keys: encoded again, it is different: %v", len(keys), err)
				}
			}
			// both answer alike for what is not in it
			for i := 0; i < 4; i++ {
				k := buildKey(t.KeyModel())
				n1, ok1 := table.Lookup(k)
				n2, ok2 := back.Lookup(k)
				t.Check(n1 == n2 && ok1 == ok2, "table of %d keys: a key is found at %d (%v), in the decoded one at %d (%v)", len(keys), n1, ok1, n2, ok2)
			}
			for i := 0; i < 6; i++ {
				cut := len(b) - 1 - i
				if i >= 2 {
					cut = t.Int(0, len(b)-1)
				}
				_, _, err := util.NewMPHTable(exact(b[:cut]))
				t.Check(err != nil, "table of %d keys: %d of %d bytes are decoded", len(keys), cut, len(b))
			}
			if len(keys) >= 2 {
				t.NonTrivial()
			}
		},
	})
}
