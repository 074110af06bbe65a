package main

import (
	"fmt"
	"sort"

	"../collection"
	"../util"
)

// a key in one of the forms it comes in
func (t *T) AnyKey(k [][]byte) util.IKey {
	switch t.Draw(4) {
	case 1:
		mk, _, err := util.NewMappedKey(append(refKey(k), t.Trailer()...))
		t.Check(err == nil, "key %s: %v", hxs(k), err)
		return mk
	case 2:
		if len(k) == 0 {
			return util.NewEmptyKey()
		}
	case 3:
		return t.MadeKey(k)
	}
	return buildKey(k)
}

type trieEntry struct {
	k [][]byte
	v util.IValue
}

type trieModel struct {
	trie    *util.Trie
	have    map[string]*trieEntry // entries with a value, by the text of the key
	deleted int
	below   int        // sets above or below another key
	empty   [][][]byte // keys which may be visited although they have no value
}

// keys of one or two letters, nested in each other, over few letters
func (t *T) TrieKey() [][]byte {
	if t.Chance(1, 10) {
		k := t.KeyModel()
		if len(k) > 12 {
			k = k[:12]
		}
		return k
	}
	k := [][]byte{}
	if t.Chance(1, 150) { // far below the root
		r := &prng{s: t.Draw(15)}
		for i := t.Int(10, 200); i > 0; i-- {
			k = append(k, []byte{'a' + byte(r.next()%2)})
		}
		return k
	}
	for i := 0; i < 5 && t.More(3); i++ {
		s := []byte{[]byte{'a', 'b', 'c', 0, 0xff}[t.Weighted(6, 5, 4, 1, 1)]}
		if t.Chance(1, 5) {
			s = append(s, []byte{'a', 0, 0xff}[t.Int(0, 2)])
		}
		k = append(k, s)
	}
	return k
}

// a key, often one the trie has or one next to it
func (m *trieModel) key(t *T) [][]byte {
	if len(m.have) > 0 && t.Chance(2, 3) {
		es := m.sorted()
		k := es[t.Int(0, len(es)-1)].k
		switch t.Weighted(4, 2, 2, 1) {
		case 1:
			return k[:t.Int(0, len(k))]
		case 2:
			return append(append([][]byte{}, k...), t.SmallSubKey())
		case 3:
			k = t.NearKeyModel(k)
			if len(k) > 12 {
				k = k[:12]
			}
			return k
		}
		return k
	}
	return t.TrieKey()
}

func (m *trieModel) sorted() []*trieEntry {
	es := []*trieEntry{}
	for _, e := range m.have {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool { return refCompareKeys(es[i].k, es[j].k) < 0 })
	return es
}

func isPrefix(p, k [][]byte) bool {
	if len(p) > len(k) {
		return false
	}
	for i := range p {
		if string(p[i]) != string(k[i]) {
			return false
		}
	}
	return true
}

func sameTrieValue(a, b util.IValue) bool {
	if collection.IsNil(a) || collection.IsNil(b) {
		return collection.IsNil(a) && collection.IsNil(b)
	}
	return a == b
}

func (t *T) valueName(v util.IValue) string {
	if collection.IsNil(v) {
		return "none"
	}
	return fmt.Sprint(t.trieValues[v])
}

func (m *trieModel) get(k [][]byte) util.IValue {
	if e := m.have[string(refKey(k))]; e != nil {
		return e.v
	}
	return nil
}

func (m *trieModel) set(t *T, k [][]byte, v util.IValue) {
	key := t.AnyKey(k)
	old := m.get(k)
	var got util.IValue
	if v == nil {
		t.Logf("remove %s", hxs(k))
		got = m.trie.Set(key, nil)
		if old != nil {
			m.deleted++
		}
		delete(m.have, string(refKey(k)))
	} else {
		t.Logf("set %s", hxs(k))
		got = m.trie.Set(key, v)
		m.have[string(refKey(k))] = &trieEntry{k, v}
	}
	t.Check(sameTrieValue(got, old), "setting %s returns %s, the value was %s", hxs(k), t.valueName(got), t.valueName(old))
}

func (m *trieModel) check(t *T, k [][]byte) {
	got := m.trie.Get(t.AnyKey(k))
	t.Check(sameTrieValue(got, m.get(k)), "value of %s is %s, should be %s", hxs(k), t.valueName(got), t.valueName(m.get(k)))
}

func (m *trieModel) history(t *T, steps, avg int, checked bool) {
	for i := 0; i < steps && t.More(avg); i++ {
		k := m.key(t)
		switch t.Weighted(300, 150, 100, 1) {
		case 0:
			for _, e := range m.have {
				if len(e.k) != len(k) && (isPrefix(e.k, k) || isPrefix(k, e.k)) {
					m.below++
					break
				}
			}
			var v util.IValue = util.NewPrimitive([]byte{byte(i), byte(i >> 8)})
			switch t.Weighted(8, 2, 1, 1, 1) {
			case 1:
				v = util.NewPrimitive(nil)
			case 2:
				v = util.NewValueArray()
			case 3:
				v = util.NewRecordList()
			case 4:
				mv, _, err := util.NewStandardMappedValue([]byte{1, 1, byte(i)})
				t.Check(err == nil, "value: %v", err)
				v = mv
			}
			t.trieValues[v] = i
			m.set(t, k, v)
		case 1:
			m.set(t, k, nil)
		case 2:
			t.Logf("get %s", hxs(k))
			m.check(t, k)
		case 3: // many below one
			n := []int{20, 100, 300, 3000}[t.Weighted(20, 20, 20, 1)]
			order := &prng{s: t.Draw(63)}
			t.Logf("%d keys below %s", n, hxs(k))
			t.Label("many below one")
			m.below++
			for _, j := range visit(n, order) {
				v := util.NewPrimitive([]byte{byte(j)})
				t.trieValues[v] = 1000 + j
				m.set(t, append(append([][]byte{}, k...), []byte{'b', byte(j >> 8), byte(j)}), v)
			}
			if t.Bool() {
				t.Logf("and some are removed")
				for _, j := range visit(n, order) {
					if order.next()%4 != 0 {
						m.set(t, append(append([][]byte{}, k...), []byte{'b', byte(j >> 8), byte(j)}), nil)
					}
				}
			}
		}
		if checked && len(m.have) < 12 {
			for _, e := range m.sorted() {
				m.check(t, e.k)
				if len(e.k) > 0 {
					m.check(t, e.k[:len(e.k)-1])
				}
			}
		}
	}
}

func newTrieModel(t *T) *trieModel {
	t.trieValues = map[util.IValue]int{}
	return &trieModel{trie: util.NewTrie(), have: map[string]*trieEntry{}}
}

// runs an iterator to its end and compares what it visits with want, the
// entries in order. Nodes without a value may be visited on the way, as long
// as they are within the bounds, in order, and something is below them (the
// root always exists)
func (m *trieModel) iterate(t *T, what string, iter util.ITrieIterator, want []*trieEntry, within func([][]byte) bool) {
	next := 0
	var last [][]byte
	first := true
	all := m.sorted()
	for n := 0; ; n++ {
		t.Check(n <= 100000, "%s does not end", what)
		has := iter.HasNext()
		for t.Chance(1, 6) {
			t.Check(iter.HasNext() == has, "%s: asking whether there is more changes the answer", what)
		}
		if t.Chance(1, 3) {
			pk, pv := iter.Peek()
			if !has {
				t.Check(collection.IsNil(pk) && collection.IsNil(pv), "%s: at the end, there is a key to peek at", what)
			} else {
				k, v := iter.Next()
				t.Check(!collection.IsNil(pk) && !collection.IsNil(k) && pk.Equal(k) && sameTrieValue(pv, v), "%s: peeks at something other than what comes next", what)
				next = m.visit(t, what, k, v, want, next, all, within, &last, &first)
				continue
			}
		}
		k, v := iter.Next()
		if !has {
			t.Check(collection.IsNil(k) && collection.IsNil(v), "%s: at the end, there is another key", what)
			if next != len(want) {
				t.Failf("%s: visits %d of %d entries, ends before %s", what, next, len(want), hxs(want[next].k))
			}
			k, v = iter.Next()
			t.Check(collection.IsNil(k) && collection.IsNil(v) && !iter.HasNext(), "%s: goes on after its end", what)
			return
		}
		t.Check(!collection.IsNil(k), "%s: has more, but there is no next key", what)
		next = m.visit(t, what, k, v, want, next, all, within, &last, &first)
	}
}

func (m *trieModel) visit(t *T, what string, key util.IKey, v util.IValue, want []*trieEntry, next int, all []*trieEntry,
	within func([][]byte) bool, last *[][]byte, first *bool) int {
	k := [][]byte{}
	for _, s := range key.Key() {
		k = append(k, append([]byte{}, s...))
	}
	t.Check(*first || refCompareKeys(*last, k) < 0, "%s: visits %s after %s", what, hxs(k), hxs(*last))
	*last, *first = k, false
	if collection.IsNil(v) {
		ok := len(k) == 0
		for _, e := range all {
			ok = ok || (isPrefix(k, e.k) && len(k) < len(e.k))
		}
		for _, e := range m.empty {
			ok = ok || isPrefix(k, e)
		}
		t.Check(ok, "%s: visits %s, which has no value and nothing below it", what, hxs(k))
		t.Check(within(k), "%s: visits %s, which is out of bounds", what, hxs(k))
		t.Check(m.get(k) == nil, "%s: visits %s without its value", what, hxs(k))
		return next
	}
	if next >= len(want) {
		t.Failf("%s: visits %s after all %d entries", what, hxs(k), len(want))
	}
	w := want[next]
	t.Check(refCompareKeys(k, w.k) == 0, "%s: visits %s, should visit %s", what, hxs(k), hxs(w.k))
	t.Check(sameTrieValue(v, w.v), "%s: visits %s with value %s, should be %s", what, hxs(k), t.valueName(v), t.valueName(w.v))
	return next + 1
}

func filterEntries(es []*trieEntry, f func([][]byte) bool) []*trieEntry {
	out := []*trieEntry{}
	for _, e := range es {
		if f(e.k) {
			out = append(out, e)
		}
	}
	return out
}

func init() {
	register(&Prop{
		ID: "C27", Quick: 150000, Thorough: 6000000,
		Rule: "A case is a history of up to 60 sets, removals and gets on a trie, whose keys (built, encoded, decoded, empty) share prefixes and are ancestors of each other, next to a map; each call returns the previous or current value of the map; small tries are read entirely after each step, all of them at the end; " +
			"non-trivial: at least 3 keys at the end or removed, one of them above or below another.",
		Run: func(t *T) {
			m := newTrieModel(t)
			m.history(t, 60, 14, true)
			t.Logf("%d keys at last", len(m.have))
			for _, e := range m.sorted() {
				m.check(t, e.k)
				m.check(t, append(append([][]byte{}, e.k...), []byte("a")))
			}
			if m.deleted > 0 {
				t.Label("removals")
			}
			if m.below > 0 {
				t.Label("nested")
			}
			if len(m.have)+m.deleted >= 3 && m.below > 0 {
				t.NonTrivial()
			}
			// remove all: nothing is left
			if t.Chance(1, 3) {
				es := m.sorted()
				for len(es) > 0 {
					i := t.Int(0, len(es)-1)
					m.set(t, es[i].k, nil)
					es = append(es[:i:i], es[i+1:]...)
					for _, e := range es {
						if len(es) < 8 {
							m.check(t, e.k)
						}
					}
				}
				m.check(t, m.key(t))
			}
		},
		Assume: []string{"sub keys are not empty; values are compared by identity"},
	})

	register(&Prop{
		ID: "C28", Quick: 80000, Thorough: 5000000,
		Rule: "A case is a trie built by a history of sets and removals, walked entirely, below a key (present, in between, removed, missing), and over ranges (bounds present, missing, prefixes of each other, empty, none, inverted), with peeks and repeated questions in between; " +
			"non-trivial: some walk is over at least 3 entries.",
		Run: func(t *T) {
			m := newTrieModel(t)
			m.history(t, 60, 14, false)
			all := m.sorted()
			t.Logf("%d keys", len(all))
			for i := 0; i < 4; i++ {
				var want []*trieEntry
				switch t.Weighted(1, 3, 4) {
				case 0:
					t.Logf("walk")
					t.Label("all")
					want = all
					within := func([][]byte) bool { return true }
					m.iterate(t, "walk", m.trie.Iterator(), want, within)
					m.iterate(t, "walk below no key", m.trie.KeyIterator(nil), want, within)
				case 1:
					k := m.key(t)
					t.Logf("walk below %s", hxs(k))
					t.Label("below")
					within := func(o [][]byte) bool { return isPrefix(k, o) }
					want = filterEntries(all, within)
					if len(want) == 0 {
						t.Label("below missing")
					}
					m.iterate(t, "walk below "+hxs(k), m.trie.KeyIterator(t.AnyKey(k)), want, within)
				case 2:
					var start, end [][]byte
					var s, e util.IKey
					if !t.Chance(1, 6) {
						start = m.key(t)
						s = t.AnyKey(start)
					}
					if !t.Chance(1, 6) {
						end = m.key(t)
						e = t.AnyKey(end)
					}
					t.Logf("walk from %s (%v) to %s (%v)", hxs(start), s != nil, hxs(end), e != nil)
					if s != nil && e != nil && refCompareKeys(start, end) > 0 {
						t.Label("inverted range")
						panicked, _ := Panics(func() { m.trie.RangeIterator(s, e) })
						t.Check(panicked, "range from %s to %s is accepted", hxs(start), hxs(end))
						start, end, s, e = end, start, e, s
					}
					t.Label("range")
					within := func(o [][]byte) bool {
						return (s == nil || refCompareKeys(o, start) >= 0) && (e == nil || refCompareKeys(o, end) < 0)
					}
					want = filterEntries(all, within)
					m.iterate(t, "walk from "+hxs(start)+" to "+hxs(end), m.trie.RangeIterator(s, e), want, within)
				}
				if len(want) >= 3 {
					t.NonTrivial()
				}
			}
		},
		Assume: []string{"the trie does not change during a walk", "sub keys are not empty; values are compared by identity"},
	})
}
