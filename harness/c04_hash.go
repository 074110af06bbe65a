package main

import (
	"encoding/binary"
	"fmt"
	"math"

	"../collection"
)

// key of hash maps and sets. How it hashes is up to the case: well, or with
// many or only collisions, by the given hash function or regardless of it
type hashKey struct {
	n     int
	kind  int
	count *int // equality tests against stored keys
}

func (k hashKey) Equal(o collection.IObject) bool {
	x, ok := asHashKey(o)
	if !ok {
		return false
	}
	if k.count != nil {
		*k.count += 1
	}
	return k.n == x.n
}

func asHashKey(o interface{}) (hashKey, bool) {
	switch k := o.(type) {
	case hashKey:
		return k, true
	case *hashKey:
		if k != nil {
			return *k, true
		}
	case hashKeyList:
		if k == nil {
			return hashKey{n: 0}, true
		}
		return k[0], true
	}
	return hashKey{}, false
}

// key that is a slice, and nil if it is 0: not every nil is nothing
type hashKeyList []hashKey

func (k hashKeyList) Equal(o collection.IObject) bool {
	x, ok := o.(hashKeyList)
	if !ok {
		return false
	}
	if k == nil || x == nil {
		return k == nil && x == nil
	}
	return k[0].Equal(x[0])
}

func (k hashKeyList) HashUint32(f func([]byte) uint32) uint32 {
	if k == nil {
		return f([]byte{0xff})
	}
	return k[0].HashUint32(f)
}

func (k hashKeyList) String() string { return fmt.Sprintf("l%d", len(k)) }

const hashKinds = 7

func (k hashKey) HashUint32(f func([]byte) uint32) uint32 {
	var b [8]byte
	switch k.kind {
	case 0: // good
		binary.LittleEndian.PutUint64(b[:], uint64(k.n))
		return f(b[:])
	case 1: // all the same
		return 0xdeadbeef
	case 2: // few
		b[0] = byte(k.n % 3)
		return f(b[:1])
	case 3: // neighbours
		return uint32(k.n)
	case 4: // top of the range
		return math.MaxUint32 - uint32(k.n)
	case 5: // multiples of common capacities
		return uint32(k.n) * 10
	default: // parity
		return uint32(k.n%2) + 0x80000000
	}
}

func (k hashKey) String() string { return fmt.Sprintf("k%d", k.n) }

type hashPair struct {
	t     *T
	kind  int
	count int
	// keys are no pointers
	byValue bool
	byList  bool
	m       *collection.HashMap
	s       *collection.HashSet
	model   map[int]int
	order   []int // keys in the order of their arrival, with left ones dropped lazily
	next    int
}

func (t *T) factor() float32 {
	switch t.Weighted(4, 6, 1, 1, 1, 1, 1) {
	case 0:
		return 0.75
	case 1:
		return float32(t.Draw(60)) / 10
	case 2:
		return float32(math.NaN())
	case 3:
		return float32(math.Inf(1))
	case 4:
		return float32(math.Inf(-1))
	case 5:
		return -1
	default:
		return 1e30
	}
}

func newHashPair(t *T) (p *hashPair, regular bool) {
	p = &hashPair{t: t, model: map[int]int{}}
	p.kind = t.Weighted(5, 1, 2, 1, 1, 2, 2)
	p.byValue = t.Chance(1, 4)
	p.byList = !p.byValue && t.Chance(1, 6)
	regular = true
	if t.Chance(1, 2) {
		capacity := []int{0, -5, 1, 9, 10, 11, 64, 100, 1000}[t.Int(0, 8)]
		lf, mult := t.factor(), t.factor()
		regular = lf == lf && mult == mult
		t.Logf("capacity %d, load factor %v, multiplier %v, hash kind %d", capacity, lf, mult, p.kind)
		t.Label("custom")
		p.m = collection.NewCustomHashMap(capacity, lf, mult)
		p.s = collection.NewCustomHashSet(capacity, lf, mult)
	} else {
		t.Logf("default configuration, hash kind %d", p.kind)
		p.m = collection.NewHashMap()
		p.s = collection.NewHashSet()
	}
	t.Label("hash kind %d", p.kind)
	return p, regular
}

func (p *hashPair) key(n int) collection.IHashable {
	k := hashKey{n: n, kind: p.kind, count: &p.count}
	if p.byValue {
		return k
	}
	if p.byList {
		if n == 0 {
			return hashKeyList(nil)
		}
		return hashKeyList{k}
	}
	return &k
}

func (p *hashPair) put(n int, nilValue bool) {
	t := p.t
	p.next += 1
	v := p.next
	if nilValue {
		v = -1
	}
	old, had := p.model[n]
	got := p.m.Put(p.key(n), val(v))
	gotKey := p.s.Put(p.key(n))
	if had {
		t.Check(got == val(old), "map: put of key %d returned %v, the previous value is %v", n, got, val(old))
		k, ok := asHashKey(gotKey)
		t.Check(ok && k.n == n, "set: put of key %d which is there returned %v", n, gotKey)
	} else {
		t.Check(got == nil, "map: put of new key %d returned %v", n, got)
		t.Check(gotKey == nil, "set: put of new key %d returned %v", n, gotKey)
	}
	p.model[n] = v
}

func (p *hashPair) remove(n int) {
	t := p.t
	old, had := p.model[n]
	got := p.m.Remove(p.key(n))
	gotKey := p.s.Remove(p.key(n))
	if had {
		t.Check(got == val(old), "map: remove of key %d returned %v, the value is %v", n, got, val(old))
		k, ok := asHashKey(gotKey)
		t.Check(ok && k.n == n, "set: remove of key %d which is there returned %v", n, gotKey)
	} else {
		t.Check(got == nil, "map: remove of missing key %d returned %v", n, got)
		t.Check(gotKey == nil, "set: remove of missing key %d returned %v", n, gotKey)
	}
	delete(p.model, n)
}

func (p *hashPair) get(n int) int {
	t := p.t
	old, had := p.model[n]
	p.count = 0
	got := p.m.Get(p.key(n))
	probes := p.count
	exist := p.s.Exist(p.key(n))
	t.Check(exist == had, "set: existence of key %d is %v, should be %v", n, exist, had)
	if had {
		t.Check(got == val(old), "map: get of key %d returned %v, the value is %v", n, got, val(old))
	} else {
		t.Check(got == nil, "map: get of missing key %d returned %v", n, got)
	}
	return probes
}

func (p *hashPair) checkSize() {
	p.t.Check(p.m.Size() == len(p.model), "map: size is %d, %d keys are there", p.m.Size(), len(p.model))
	p.t.Check(p.s.Size() == len(p.model), "set: size is %d, %d keys are there", p.s.Size(), len(p.model))
}

func (p *hashPair) checkAll(domain int) (probes int) {
	for n := -1; n <= domain; n++ {
		probes += p.get(n)
	}
	return probes
}

func (p *hashPair) present(n int) int {
	if len(p.model) == 0 {
		return n
	}
	for i := 0; ; i++ { // the next one that is there, without sorting
		if _, ok := p.model[n+i]; ok {
			return n + i
		}
		if _, ok := p.model[n-i]; ok {
			return n - i
		}
	}
}

// long chains take their time
func (p *hashPair) bounded(domain int, regular bool) int {
	if domain > 1500 && (!regular || p.kind != 0 && p.kind != 3 && p.kind != 4) {
		return 1500
	}
	return domain
}

func (p *hashPair) history(domain int, check func()) {
	t := p.t
	for i := 0; i < 60 && t.More(14); i++ {
		switch t.Weighted(6, 5, 3, 3, 2, 1) {
		case 0:
			n, nv := t.Int(0, domain-1), t.Chance(1, 8)
			t.Logf("put %d", n)
			p.put(n, nv)
		case 1:
			n := t.Int(0, domain-1)
			if t.Chance(2, 3) {
				n = p.present(n)
			}
			if _, ok := p.model[n]; ok {
				t.Label("remove present")
			} else {
				t.Label("remove missing")
			}
			t.Logf("remove %d", n)
			p.remove(n)
		case 2:
			kind, ks := t.keyRun(domain)
			t.Logf("put %d keys %s from %d", len(ks), kind, ks[0])
			for _, n := range ks {
				p.put(n, false)
			}
		case 3:
			kind, ks := t.keyRun(domain)
			t.Logf("remove %d keys %s from %d", len(ks), kind, ks[0])
			for _, n := range ks {
				p.remove(n)
			}
			t.Label("remove run")
		case 4:
			n := t.Int(-1, domain)
			t.Logf("get %d", n)
			p.get(n)
		case 5:
			t.Logf("check all")
			check()
		}
		p.checkSize()
	}
	check()
}

// very many entries, most of which go again
func (p *hashPair) many(check func()) {
	t := p.t
	n := t.Int(60000, 200000)
	from := int(t.Draw(1 << 20))
	look := func() {
		probes := 0
		for i := 0; i < n; i += 1 + i%3 {
			probes += p.get(from + i)
		}
		probes += p.get(from-1) + p.get(from+n)
		p.checkSize()
		check()
		if len(p.model) >= n/2 { // about half of them are looked up
			t.Check(probes <= 3*n, "about %d lookups among %d keys that hash well look at %d stored keys", n/2, len(p.model), probes)
		}
	}
	t.Logf("put %d keys from %d", n, from)
	for i := 0; i < n; i++ {
		p.put(from+i, false)
	}
	look()
	keep := t.Int(1, 2000)
	t.Logf("remove all but every %dth", keep)
	for i := 0; i < n; i++ {
		if i%keep != 0 {
			p.remove(from + i)
		}
	}
	look()
	t.Logf("put the first 1000 again, and remove them")
	for i := 0; i < 1000; i++ {
		p.put(from+i, false)
	}
	for i := 0; i < 1000; i++ {
		p.remove(from + i)
	}
	look()
}

func init() {
	register(&Prop{
		ID: "C04", Quick: 90000, Thorough: 6000000,
		Rule: "A case is a configuration (capacity, load factor and multiplier, also out of range, infinite and not a number), a way of hashing (good, constant, few classes, neighbours, top of the range) and a history of put, remove, get and runs of them (rarely 60000 to 200000 entries) on a hash map and a hash set next to a model; " +
			"non-trivial: at least 3 keys were stored at once and something that was there was removed or replaced.",
		Run: func(t *T) {
			p, regular := newHashPair(t)
			if t.Chance(1, 6000) && p.bounded(2000, regular) == 2000 && regular && p.kind == 0 {
				p.many(func() {})
				t.Label("many")
				t.NonTrivial()
				return
			}
			domain := p.bounded(t.keyDomain(), regular)
			most := 0
			p.history(domain, func() {
				probes := p.checkAll(domain)
				n := len(p.model)
				if n > most {
					most = n
				}
				// with a good hash and a load of at most one, a lookup meets about one
				// stored key; 4 on average over as many lookups does not happen by chance
				if p.kind == 0 && regular && domain >= 300 && n >= 200 {
					t.Label("probes measured")
					t.Check(probes <= 4*(domain+2), "%d lookups among %d keys that hash well look at %d stored keys", domain+2, n, probes)
				}
			})
			if most >= 200 {
				t.Label("size>=200")
			}
			if most >= 3 && (t.labels["remove present"] > 0 || p.next > most) {
				t.NonTrivial()
			}
		},
		Assume: []string{"equal keys have equal hashes"},
	})

	register(&Prop{
		ID: "C05", Quick: 180000, Thorough: 2000000,
		Rule: "A case is a configuration, a way of hashing and a history that builds a hash map and a hash set, which are then iterated with a random interleaving of next, peek and has-next; " +
			"non-trivial: at least 3 entries.",
		Run: func(t *T) {
			p, regular := newHashPair(t)
			domain := p.bounded([]int{6, 16, 60, 300, 3000, 20000}[t.Weighted(8000, 10000, 10000, 4000, 100, 15)], regular)
			if t.Chance(1, 8000) && regular && p.kind == 0 {
				p.many(func() { p.iterate() })
				t.Label("many")
			} else {
				p.history(domain, func() { p.iterate() })
			}
			if t.Chance(1, 20) {
				bareHashIterator(t)
			}
			if len(p.model) >= 3 {
				t.NonTrivial()
			}
		},
	})
}

// iterating the hash table itself, below the map and the set, is known to end
// before the first entry; anything in between is not
func bareHashIterator(t *T) {
	h := collection.NewHash()
	n := t.Int(0, 20)
	for i := 0; i < n; i++ {
		h.Put(&hashKey{n: i}, val(i+1))
	}
	iter := h.Iterator()
	seen := map[int]bool{}
	for iter.HasNext() && len(seen) <= n {
		p, _ := iter.Peek().(*collection.HashNode)
		x, _ := iter.Next().(*collection.HashNode)
		t.Check(p != nil && x != nil, "bare hash iterator: has-next is true but there is no element")
		seen[len(seen)] = true
	}
	t.Check(collection.IsNil(iter.Next()) && collection.IsNil(iter.Peek()), "bare hash iterator: has-next is false but there is an element")
	if n > 0 && len(seen) == 0 {
		t.Known("bare-hash-iteration-empty", "bare hash iterator: has-next is false at the start, %d entries are there", n)
		return
	}
	t.Check(len(seen) == n, "bare hash iterator: visits %d of %d entries", len(seen), n)
}

// a hash map or hash set iterator should see every entry exactly once
func (p *hashPair) iterate() {
	t := p.t
	for which := 0; which < 2; which++ {
		var (
			kind = "map"
			mi   collection.IHashMapIterator
			si   collection.IIterator
		)
		if which == 0 {
			mi = p.m.Iterator()
		} else {
			kind = "set"
			si = p.s.Iterator()
		}
		has := func() bool {
			if mi != nil {
				return mi.HasNext()
			}
			return si.HasNext()
		}
		get := func(next bool) (int, bool) {
			var key, value interface{}
			if mi != nil {
				var k collection.IHashable
				if next {
					k, value = mi.Next()
				} else {
					k, value = mi.Peek()
				}
				key = k
			} else if next {
				key = si.Next()
			} else {
				key = si.Peek()
			}
			if key == nil {
				t.Check(value == nil, "%s iterator: value %v without a key", kind, value)
				return 0, false
			}
			k, ok := asHashKey(key)
			t.Check(ok, "%s iterator: %v is not a key that was stored", kind, key)
			_, there := p.model[k.n]
			t.Check(there, "%s iterator: key %d is not there", kind, k.n)
			if mi != nil {
				t.Check(value == val(p.model[k.n]), "map iterator: value %v for key %d, should be %v", value, k.n, val(p.model[k.n]))
			}
			return k.n, true
		}

		seen := map[int]bool{}
		r := &prng{s: t.Draw(1 << 20)}
		for len(seen) < len(p.model) {
			switch r.next() % 4 {
			case 0:
				t.Check(has(), "%s iterator: has-next is false after %d of %d entries", kind, len(seen), len(p.model))
			case 1:
				k, ok := get(false)
				t.Check(ok && !seen[k], "%s iterator: peek sees nothing new after %d of %d entries", kind, len(seen), len(p.model))
			default:
				k, ok := get(true)
				t.Check(ok, "%s iterator: ends after %d of %d entries", kind, len(seen), len(p.model))
				t.Check(!seen[k], "%s iterator: key %d comes twice", kind, k)
				seen[k] = true
			}
		}
		for i := 0; i < 2; i++ {
			_, ok := get(i == 0)
			t.Check(!ok && !has(), "%s iterator: goes on after all %d entries", kind, len(p.model))
		}
	}
}
