package main

import (
	"fmt"
	"math"
	"sort"

	"../collection"
)

// key of sorted maps and sets which counts who is looked at. It is a key both
// as it is and by its address
type cmpKey struct {
	n, id int
	touch *toucher
}

type toucher struct {
	on      bool
	touched map[int]bool
	keys    int
	byValue bool // keys are no pointers
	byList  bool // keys are slices, one of them nil
}

func (u *toucher) key(n int) collection.IComparable {
	u.keys++
	k := cmpKey{n: n, id: u.keys, touch: u}
	if u.byValue {
		return k
	}
	if u.byList {
		if n == 0 {
			return cmpKeyList(nil)
		}
		return cmpKeyList{k}
	}
	return &k
}

// a bound of a range, which is never nil: that is no bound
func (u *toucher) bound(n int) collection.IComparable {
	if k := u.key(n); !collection.IsNil(k) {
		return k
	}
	return cmpKeyList{{n: n, touch: u}}
}

// key that is a slice, nil for 0: not every nil is nothing
type cmpKeyList []cmpKey

func (k cmpKeyList) key() cmpKey {
	if k == nil {
		return cmpKey{}
	}
	return k[0]
}

func (k cmpKeyList) Equal(o collection.IObject) bool { return k.key().Equal(o) }

func (k cmpKeyList) Compare(c collection.IComparable) int { return k.key().Compare(c) }

func (k cmpKeyList) String() string { return k.key().String() }

func asCmpKey(o interface{}) (cmpKey, bool) {
	switch k := o.(type) {
	case cmpKey:
		return k, true
	case *cmpKey:
		if k != nil {
			return *k, true
		}
	case cmpKeyList:
		return k.key(), true
	}
	return cmpKey{}, false
}

func (k cmpKey) see(o cmpKey) {
	if k.touch != nil && k.touch.on {
		for _, id := range []int{k.id, o.id} {
			if id != 0 { // a nil one
				k.touch.touched[id] = true
			}
		}
	}
}

func (k cmpKey) Equal(o collection.IObject) bool {
	x, ok := asCmpKey(o)
	if !ok {
		return false
	}
	k.see(x)
	return k.n == x.n
}

func (k cmpKey) Compare(c collection.IComparable) int {
	x, ok := asCmpKey(c)
	if !ok {
		panic(fmt.Sprintf("a key is compared with %v", c))
	}
	k.see(x)
	if k.n < x.n {
		return -7 // only the sign counts
	} else if k.n > x.n {
		return 5
	}
	return 0
}

func (k cmpKey) String() string { return fmt.Sprintf("k%d", k.n) }

// numbers visited by an insert or a remove of many keys
func (t *T) keyRun(domain int) (string, []int) {
	n := t.Int(1, domain)
	start := t.Int(0, domain-1)
	ks := []int{}
	kind := t.Weighted(1, 1, 1, 1)
	switch kind {
	case 0:
		for i := 0; i < n; i++ {
			ks = append(ks, (start+i)%domain)
		}
	case 1:
		for i := 0; i < n; i++ {
			ks = append(ks, (start-i+domain)%domain)
		}
	case 2: // outside in
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				ks = append(ks, (start+i/2)%domain)
			} else {
				ks = append(ks, (start-1-i/2+2*domain)%domain)
			}
		}
	case 3: // any
		r := &prng{s: t.Draw(1 << 16)}
		for i := 0; i < n; i++ {
			ks = append(ks, int(r.next()%uint64(domain)))
		}
	}
	return []string{"ascending", "descending", "outside in", "random"}[kind], ks
}

func (t *T) keyDomain() int {
	return []int{6, 16, 60, 300, 1500, 20000}[t.Weighted(8000, 10000, 10000, 6000, 2000, 20)]
}

// a sorted map and a sorted set that go through the same history as a model
type sortedPair struct {
	t     *T
	touch *toucher
	m     *collection.SortedMap
	s     *collection.SortedSet
	model map[int]int // key to value, -1 is a nil value
	next  int
}

func newSortedPair(t *T) *sortedPair {
	return &sortedPair{
		t:     t,
		touch: &toucher{touched: map[int]bool{}, byValue: t.Chance(1, 4), byList: t.Chance(1, 8)},
		m:     collection.NewSortedMap(),
		s:     collection.NewSortedSet(),
		model: map[int]int{},
	}
}

func (p *sortedPair) key(n int) collection.IComparable { return p.touch.key(n) }

type someValue struct{ v int }

func val(v int) collection.IObject {
	if v < 0 {
		return nil
	}
	switch v % 8 {
	case 1:
		return fmt.Sprintf("value %d", v)
	case 3:
		return someValue{v}
	case 5:
		return (*someValue)(nil) // a value too
	case 7:
		return v%16 == 7
	}
	return v
}

func (p *sortedPair) put(n int, nilValue bool) {
	t := p.t
	p.next += 1
	v := p.next
	if nilValue {
		v = -1
	}
	old, had := p.model[n]
	got := p.m.Put(p.key(n), val(v))
	if had {
		t.Check(got == val(old), "map: put of key %d returned %v, the previous value is %v", n, got, val(old))
	} else {
		t.Check(got == nil, "map: put of new key %d returned %v", n, got)
	}
	gotKey := p.s.Put(p.key(n))
	if had {
		k, ok := asCmpKey(gotKey)
		t.Check(ok && k.n == n, "set: put of key %d which is there returned %v", n, gotKey)
	} else {
		t.Check(gotKey == nil, "set: put of new key %d returned %v", n, gotKey)
	}
	p.model[n] = v
}

func (p *sortedPair) remove(n int) {
	t := p.t
	old, had := p.model[n]
	got := p.m.Remove(p.key(n))
	gotKey := p.s.Remove(p.key(n))
	if had {
		t.Check(got == val(old), "map: remove of key %d returned %v, the value is %v", n, got, val(old))
		k, ok := asCmpKey(gotKey)
		t.Check(ok && k.n == n, "set: remove of key %d which is there returned %v", n, gotKey)
	} else {
		t.Check(got == nil, "map: remove of missing key %d returned %v", n, got)
		t.Check(gotKey == nil, "set: remove of missing key %d returned %v", n, gotKey)
	}
	delete(p.model, n)
	t.Check(p.m.Size() == len(p.model), "map: size is %d after removing key %d, %d keys are there", p.m.Size(), n, len(p.model))
}

// looks a key up, and returns how many stored keys were looked at
func (p *sortedPair) get(n int) int {
	t := p.t
	old, had := p.model[n]
	p.touch.on = true
	for k := range p.touch.touched {
		delete(p.touch.touched, k)
	}
	probe := p.key(n)
	id := p.touch.keys
	got := p.m.Get(probe)
	p.touch.on = false
	seen := len(p.touch.touched)
	if p.touch.touched[id] {
		seen -= 1
	}
	exist := p.s.Exist(p.key(n))
	t.Check(exist == had, "set: existence of key %d is %v, should be %v", n, exist, had)
	if had {
		t.Check(got == val(old), "map: get of key %d returned %v, the value is %v", n, got, val(old))
	} else {
		t.Check(got == nil, "map: get of missing key %d returned %v", n, got)
	}
	return seen
}

func (p *sortedPair) checkSize() {
	p.t.Check(p.m.Size() == len(p.model), "map: size is %d, %d keys are there", p.m.Size(), len(p.model))
	p.t.Check(p.s.Size() == len(p.model), "set: size is %d, %d keys are there", p.s.Size(), len(p.model))
}

func (p *sortedPair) keys() []int {
	ks := []int{}
	for k := range p.model {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

func (p *sortedPair) checkDepth(domain int) {
	n := len(p.model)
	limit := int(math.Floor(1.4405*math.Log2(float64(n+2)) + 0.5))
	for k := -1; k <= domain; k++ {
		if seen := p.get(k); seen > limit {
			p.t.Failf("looking up key %d among %d keys looks at %d of them, more than %d", k, n, seen, limit)
		}
	}
}

// a random history, check is called now and then
func (p *sortedPair) history(domain int, check func()) {
	t := p.t
	for i := 0; i < 60 && t.More(14); i++ {
		switch t.Weighted(6, 5, 3, 3, 2, 1) {
		case 0:
			n, nv := t.Int(0, domain-1), t.Chance(1, 8)
			t.Logf("put %d", n)
			p.put(n, nv)
		case 1:
			n := t.Int(0, domain-1)
			if len(p.model) > 0 && t.Chance(2, 3) { // one that is there
				ks := p.keys()
				n = ks[n%len(ks)]
			}
			t.Logf("remove %d", n)
			if _, ok := p.model[n]; ok {
				t.Label("remove present")
			} else {
				t.Label("remove missing")
			}
			p.remove(n)
		case 2:
			kind, ks := t.keyRun(domain)
			t.Logf("put %d keys %s from %d", len(ks), kind, ks[0])
			t.Label("put run %s", kind)
			for _, n := range ks {
				p.put(n, false)
			}
		case 3:
			kind, ks := t.keyRun(domain)
			t.Logf("remove %d keys %s from %d", len(ks), kind, ks[0])
			t.Label("remove run %s", kind)
			for _, n := range ks {
				p.remove(n)
			}
		case 4:
			n := t.Int(-1, domain)
			t.Logf("get %d", n)
			p.get(n)
		case 5:
			t.Logf("check all")
			check()
		}
		p.checkSize()
	}
	check()
}

// very many entries, most of which may go again
func (p *sortedPair) many(n int, check func()) {
	t := p.t
	order := t.Int(0, 3)
	step := []int{1, n - 1, 7919, 2 * int(t.Draw(1<<14))}[order]
	for gcd(step, n) != 1 {
		step++
	}
	t.Logf("put %d keys, each time %d further", n, step)
	for i := 0; i < n; i++ {
		p.put(i*step%n, false)
	}
	p.checkSize()
	check()
	if t.Bool() {
		keep := t.Int(1, 3000)
		t.Logf("remove all but every %dth", keep)
		for i := 0; i < n; i++ {
			if i%keep != 0 {
				p.remove(i * step % n)
			}
		}
		p.checkSize()
		check()
	}
	t.Label("many")
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func init() {
	register(&Prop{
		ID: "C01", Quick: 180000, Thorough: 8000000,
		Rule: "A case is a history of put, remove, get and runs of them (ascending, descending, outside in, random; 6 to 20000 possible keys, rarely up to 150000) on a sorted map and a sorted set next to a model map; " +
			"non-trivial: at least 3 distinct keys were stored at some check and something that was there was removed or replaced.",
		Run: func(t *T) {
			p := newSortedPair(t)
			domain := t.keyDomain()
			most := 0
			check := func() {
				p.checkDepth(domain)
				if len(p.model) > most {
					most = len(p.model)
				}
			}
			if t.Chance(1, 30000) {
				domain = t.Int(20000, 150000)
				p.many(domain, check)
			} else {
				p.history(domain, check)
			}
			switch {
			case most >= 5000:
				t.Label("size>=5000")
			case most >= 500:
				t.Label("size>=500")
			case most >= 50:
				t.Label("size>=50")
			case most >= 3:
				t.Label("size>=3")
			}
			if most >= 3 && (t.labels["remove present"] > 0 || p.next > most) {
				t.NonTrivial()
			}
		},
		Assume: []string{"keys are compared by a total order that agrees with their equality"},
	})

	register(&Prop{
		ID: "C02", Quick: 240000, Thorough: 8000000,
		Rule: "A case is a history that builds a sorted map and set, then several iterators over them, advanced in a random interleaving of next, peek and has-next; " +
			"non-trivial: at least 3 entries and at least one peek or has-next in the middle.",
		Run: func(t *T) {
			p := newSortedPair(t)
			domain := []int{6, 16, 60, 300, 3000, 20000}[t.Weighted(8000, 10000, 10000, 4000, 100, 15)]
			check := func() { p.iterate(nil, nil, p.keys()) }
			if t.Chance(1, 30000) {
				p.many(t.Int(20000, 150000), check)
			} else {
				p.history(domain, check)
			}
			if len(p.model) >= 3 {
				t.NonTrivial()
			}
		},
	})

	register(&Prop{
		ID: "C03", Quick: 240000, Thorough: 8000000,
		Rule: "A case is a history that builds a sorted map and set, then range iterators over them with bounds that are present, absent, outside or missing (start not above end), advanced in a random interleaving; " +
			"non-trivial: the range leaves some entries out and has some in.",
		Run: func(t *T) {
			p := newSortedPair(t)
			domain := []int{6, 16, 60, 300, 3000, 20000}[t.Weighted(8000, 10000, 10000, 4000, 100, 15)]
			check := func() {
				var start, end collection.IComparable
				lo, hi := t.Int(-1, domain), t.Int(-1, domain)
				if lo > hi {
					lo, hi = hi, lo
				}
				if !t.Chance(1, 6) {
					start = p.touch.bound(lo)
				} else {
					lo = -1
				}
				if !t.Chance(1, 6) {
					end = p.touch.bound(hi)
				} else {
					hi = domain + 1
				}
				all := p.keys()
				want := []int{}
				for _, k := range all {
					if k >= lo && k < hi {
						want = append(want, k)
					}
				}
				t.Logf("range [%v, %v) over %d keys: %d", start, end, len(all), len(want))
				if len(want) > 0 && len(want) < len(all) {
					t.NonTrivial()
					t.Label("some in, some out")
				}
				if len(want) == 0 && len(all) > 0 {
					t.Label("empty range")
				}
				p.iterate(start, end, want)
			}
			if t.Chance(1, 30000) {
				domain = t.Int(20000, 150000)
				p.many(domain, check)
			} else {
				p.history(domain, check)
			}
		},
		Assume: []string{"start is not above end: the opposite is refused"},
	})
}

// walks iterators of the map and the set, which should see exactly these keys
func (p *sortedPair) iterate(start, end collection.IComparable, want []int) {
	t := p.t

	mapIter := func() collection.ISortedMapIterator {
		if start == nil && end == nil && !t.Chance(1, 4) {
			return p.m.Iterator()
		}
		return p.m.RangeIterator(start, end)
	}
	setIter := func() collection.IIterator {
		if start == nil && end == nil && !t.Chance(1, 4) {
			return p.s.Iterator()
		}
		return p.s.RangeIterator(start, end)
	}

	ws := []*walker{{m: mapIter()}, {s: setIter()}}
	if t.Chance(1, 3) {
		ws = append(ws, &walker{m: mapIter()})
	}

	mode := t.Weighted(3, 1, 1) // random, next only, has-next then next
	t.Label([]string{"interleaved", "next only", "has-next and next"}[mode])
	r := &prng{s: t.Draw(1 << 20)}
	budget := (len(want) + 4) * len(ws) * 4
	live := len(ws)
	for step := 0; live > 0 && step < budget*2; step++ {
		w := ws[int(r.next()%uint64(len(ws)))]
		if w.pos > len(want)+1 {
			continue
		}
		op := 0
		if mode == 0 {
			op = int(r.next() % 4)
		} else if mode == 2 {
			w.expectHasNext(t, w.pos < len(want))
		}
		switch op {
		case 0, 1:
			w.expect(t, p, want, true)
			w.pos += 1
			if w.pos == len(want)+2 {
				live -= 1
			}
		case 2:
			w.expectHasNext(t, w.pos < len(want))
		case 3:
			w.expect(t, p, want, false)
		}
	}
	// none may be left over
	for _, w := range ws {
		for w.pos <= len(want)+1 {
			w.expect(t, p, want, true)
			w.pos += 1
		}
		w.expectHasNext(t, false)
	}
}

// an iterator of the map or of the set
type walker struct {
	m   collection.ISortedMapIterator
	s   collection.IIterator
	pos int
}

func (w *walker) expectHasNext(t *T, want bool) {
	got := false
	if w.m != nil {
		got = w.m.HasNext()
	} else {
		got = w.s.HasNext()
	}
	t.Check(got == want, "%s iterator: has-next is %v at position %d, should be %v", w.kind(), got, w.pos, want)
}

func (w *walker) kind() string {
	if w.m != nil {
		return "map"
	}
	return "set"
}

// takes the next element or peeks at it
func (w *walker) expect(t *T, p *sortedPair, want []int, next bool) {
	var key, value interface{}
	op := "peek"
	if next {
		op = "next"
	}
	if w.m != nil {
		var k collection.IComparable
		if next {
			k, value = w.m.Next()
		} else {
			k, value = w.m.Peek()
		}
		key = k
	} else {
		if next {
			key = w.s.Next()
		} else {
			key = w.s.Peek()
		}
	}
	if w.pos >= len(want) {
		t.Check(key == nil && value == nil, "%s iterator: %s returned %v after the last of %d elements", w.kind(), op, key, len(want))
		return
	}
	k, ok := asCmpKey(key)
	t.Check(ok, "%s iterator: %s returned %v at position %d of %d, should be key %d", w.kind(), op, key, w.pos, len(want), want[w.pos])
	t.Check(k.n == want[w.pos], "%s iterator: %s returned key %d at position %d of %d, should be key %d", w.kind(), op, k.n, w.pos, len(want), want[w.pos])
	if w.m != nil {
		t.Check(value == val(p.model[k.n]), "map iterator: %s returned value %v for key %d, should be %v", op, value, k.n, val(p.model[k.n]))
	}
}
