package main

import (
	"fmt"

	"../collection"
	"../util"
)

type codedTrie struct {
	t     *T
	trie  *util.Trie
	have  map[string]*codedEntry
	given [][]byte // encodings the trie has given
	were  []string // and what they were
}

// encodings given before are not written to
func (c *codedTrie) checkGiven() {
	for i, b := range c.given {
		c.t.Check(string(b) == c.were[i], "encoding %d of %d of a trie was %s, and has become %s", i+1, len(c.given), hx([]byte(c.were[i])), hx(b))
	}
}

// many nodes below one, or a long encoding
func (c *codedTrie) widen() {
	t := c.t
	n, size := []int{t.Int(250, 260), t.Int(300, 600)}[t.Weighted(2, 1)], t.Int(0, 2)
	if t.Bool() {
		n, size = t.Int(3, 40), t.Int(1000, 3000)
	}
	switch {
	case t.Chance(1, 80): // a count of children of three bytes
		n, size = t.Int(16380, 17000), t.Int(0, 2)
		t.Label("very wide")
	case t.Chance(1, 80): // offsets of four bytes
		n, size = t.Int(33, 50), t.Int(60000, 65000)
		t.Label("very far")
	}
	k := c.key()
	order := &prng{s: t.Draw(63)}
	t.Logf("%d keys below %s, %d bytes each", n, hxs(k), size)
	for _, i := range visit(n, order) {
		e := append(append([][]byte{}, k...), []byte{1, byte(i >> 8), byte(i)})
		m := &mval{data: make([]byte, size+1)}
		c.trie.Set(buildKey(e), buildValue(m))
		c.have[string(refKey(e))] = &codedEntry{e, m, nil}
	}
}

type codedEntry struct {
	k [][]byte
	m *mval
	v util.IValue
}

func (c *codedTrie) keys() [][][]byte {
	m := &trieModel{have: map[string]*trieEntry{}}
	for s, e := range c.have {
		m.have[s] = &trieEntry{k: e.k}
	}
	out := [][][]byte{}
	for _, e := range m.sorted() {
		out = append(out, e.k)
	}
	return out
}

func (c *codedTrie) key() [][]byte {
	t := c.t
	if ks := c.keys(); len(ks) > 0 && t.Chance(1, 2) {
		k := ks[t.Int(0, len(ks)-1)]
		switch t.Weighted(3, 2, 2) {
		case 1:
			return k[:t.Int(0, len(k))]
		case 2:
			return append(append([][]byte{}, k...), t.SmallSubKey())
		}
		return k
	}
	if t.Chance(1, 20) {
		k := [][]byte{}
		for i := t.Int(1, 3); i > 0; i-- {
			k = append(k, t.BytesN(t.Int(120, 140)))
		}
		return k
	}
	return t.TrieKey()
}

func (c *codedTrie) edit(steps, avg int) {
	t := c.t
	for i := 0; i < steps && t.More(avg); i++ {
		k := c.key()
		s := string(refKey(k))
		if t.Chance(1, 4) {
			t.Logf("remove %s", hxs(k))
			c.trie.Set(t.AnyKey(k), nil)
			delete(c.have, s)
			continue
		}
		m := t.ValueModel([]int{0, 0, 1, 2}[t.Int(0, 3)], 60)
		if t.Chance(1, 300) {
			m = &mval{data: t.BytesN([]int{65535, 65536}[t.Int(0, 1)])}
		}
		t.Logf("set %s to %s", hxs(k), m)
		v := buildValue(m)
		if t.Chance(1, 4) {
			v.Encode(nil)
		}
		c.trie.Set(t.AnyKey(k), v)
		c.have[s] = &codedEntry{k, m, v}
	}
}

// whether every value can be encoded
func (c *codedTrie) encodable() bool {
	for _, e := range c.have {
		if _, ok := refValue(e.m); !ok {
			return false
		}
	}
	return true
}

type readableTrie interface {
	Get(util.IKey) util.IValue
	Iterator() util.ITrieIterator
	KeyIterator(util.IKey) util.ITrieIterator
	RangeIterator(start, end util.IKey) util.ITrieIterator
}

// the trie holds exactly what have does, through all ways to read it
func (c *codedTrie) checkTrie(what string, trie readableTrie, mapped bool) {
	t := c.t
	t.trieValues = map[util.IValue]int{}
	got := &trieModel{have: map[string]*trieEntry{}}
	order := &prng{s: t.Draw(63)}
	for i, k := range c.keys() {
		e := c.have[string(refKey(k))]
		v := trie.Get(t.AnyKey(k))
		name := fmt.Sprintf("%s: value of %s", what, hxs(k))
		if e.m.isNil() && mapped {
			t.Check(collection.IsNil(v) || v.IsNil(), "%s is not empty", name)
		} else {
			checkValue(t, name, v, e.m, mapped, order)
		}
		if !collection.IsNil(v) {
			t.trieValues[v] = i
			got.have[string(refKey(k))] = &trieEntry{k, v}
		}
	}
	for i := 0; i < 3; i++ {
		k := c.key()
		if c.have[string(refKey(k))] == nil {
			v := trie.Get(t.AnyKey(k))
			t.Check(collection.IsNil(v) || v.IsNil(), "%s: %s has a value, should have none", what, hxs(k))
		}
	}
	all := got.sorted()
	if mapped {
		// keys whose value is empty may be there, without a value, or not
		for s, e := range c.have {
			if got.have[s] == nil {
				got.empty = append(got.empty, e.k)
			}
		}
	}
	got.iterate(t, what, trie.Iterator(), all, func([][]byte) bool { return true })
	k := c.key()
	within := func(o [][]byte) bool { return isPrefix(k, o) }
	got.iterate(t, what+", below "+hxs(k), trie.KeyIterator(t.AnyKey(k)), filterEntries(all, within), within)
	start, end := c.key(), c.key()
	if refCompareKeys(start, end) > 0 {
		start, end = end, start
	}
	within = func(o [][]byte) bool { return refCompareKeys(o, start) >= 0 && refCompareKeys(o, end) < 0 }
	got.iterate(t, what+", from "+hxs(start)+" to "+hxs(end), trie.RangeIterator(t.AnyKey(start), t.AnyKey(end)), filterEntries(all, within), within)
}

func (c *codedTrie) roundTrip() []byte {
	t := c.t
	was := []byte(nil)
	if c.trie.IsEncoded() {
		was = append(was, c.trie.Buf()...)
	} else {
		p, _ := Panics(func() { c.trie.Buf() })
		t.Check(p, "a trie that is not encoded gives an encoding")
	}
	err := c.trie.Encode(nil)
	if err == nil && was != nil {
		t.Check(string(c.trie.Buf()) == string(was), "a trie says it is encoded as %s, but it is encoded as %s", hx(was), hx(c.trie.Buf()))
	}
	if !c.encodable() {
		t.Label("refused")
		t.Check(err != nil, "a value does not fit its encoding, but the trie is encoded")
		return nil
	}
	t.Check(err == nil, "encoding: %v", err)
	t.Check(c.trie.IsEncoded(), "encoded trie says it is not")
	b := append([]byte{}, c.trie.Buf()...)
	t.Logf("encoded: %s", hx(b))
	c.checkGiven()
	c.given, c.were = append(c.given, c.trie.Buf()), append(c.were, string(b))
	if t.Chance(1, 4) {
		err = c.trie.Encode(nil)
		t.Check(err == nil && string(c.trie.Buf()) == string(b), "encoding again gives %s, was %s", hx(c.trie.Buf()), hx(b))
	}
	in := t.Within(append(append([]byte{}, b...), t.Trailer()...), "trie")
	mt, n, err := util.NewMappedTrie(in)
	t.Check(err == nil, "decoding %s: %v", hx(b), err)
	t.Check(n == len(b), "%d bytes of %d are taken: %s", n, len(b), hx(b))
	t.Check(string(mt.Buf()) == string(b), "decoded trie holds %s, was decoded from %s", hx(mt.Buf()), hx(b))
	c.checkTrie("decoded", mt, true)
	if t.Chance(1, 4) {
		cp := mt.Copy().(*util.MappedTrie)
		t.Check(string(cp.Buf()) == string(b), "the copy of the decoded trie holds %s, should be %s", hx(cp.Buf()), hx(b))
		scribble(cp.Buf())
		c.checkTrie("decoded", mt, true)
	}
	if len(b) < 400 {
		cut := t.Int(0, len(b)-1)
		_, _, err = util.NewMappedTrie(exact(b[:cut]))
		t.Check(err != nil, "the first %d of %d bytes are accepted: %s", cut, len(b), hx(b))
	}
	return b
}

func (c *codedTrie) copied() {
	t := c.t
	var e util.IEncodable
	how := "copy"
	if t.Bool() {
		e = c.trie.Copy()
	} else {
		how = "constructed copy"
		var err error
		e, err = c.trie.CopyConstruct()
		t.Check(err == nil, "%s: %v", how, err)
	}
	cp, ok := e.(*util.Trie)
	t.Check(ok && cp != c.trie, "the %s of a trie is %T", how, e)
	t.Label(how)
	cc := &codedTrie{t: t, trie: cp, have: map[string]*codedEntry{}}
	for s, e := range c.have {
		cc.have[s] = e
	}
	cc.checkTrie(how, cp, true)
	a, b := c, cc
	if t.Bool() {
		a, b = cc, c
	}
	t.Logf("%s, then one of them changes", how)
	a.edit(6, 3)
	for _, k := range a.keys() {
		if v := a.trie.Get(buildKey(k)); !collection.IsNil(v) && t.Bool() && a.have[string(refKey(k))] == b.have[string(refKey(k))] {
			spoilValue(v)
			delete(a.have, string(refKey(k)))
			a.trie.Set(buildKey(k), nil)
		}
	}
	b.checkTrie("the other one of a trie and its "+how, b.trie, true)
	a.checkTrie("the changed one of a trie and its "+how, a.trie, true)
	c.trie, c.have = cc.trie, cc.have
}

// what is accepted can be read entirely, and in order
func damagedTrie(t *T, b []byte) bool {
	mt, n, err := util.NewMappedTrie(exact(b))
	if !accepted(t, "trie", b, n, err) {
		return false
	}
	count := 0
	var last [][]byte
	for iter := mt.Iterator(); iter.HasNext(); count++ {
		pk, _ := iter.Peek()
		k, v := iter.Next()
		t.Check(!collection.IsNil(k) && pk.Equal(k), "%s: peeks at something other than what comes next", hx(b))
		m := k.Key()
		t.Check(count == 0 || refCompareKeys(last, m) < 0, "trie of %s: %s comes after %s", hx(b), hxs(m), hxs(last))
		last = m
		got := mt.Get(k)
		t.Check(sameTrieValue(got, v), "trie of %s: the value of %s is not what is visited", hx(b), hxs(m))
		if !collection.IsNil(v) {
			r := &reader{t: t, budget: readBudget}
			r.value(v, "value")
		}
		t.Check(count <= len(b), "trie of %d bytes has more nodes", len(b))
	}
	t.Check(string(mt.Buf()) == string(b[:n]), "trie of %s holds %s", hx(b), hx(mt.Buf()))
	cp := mt.Copy().(*util.MappedTrie)
	t.Check(string(cp.Buf()) == string(b[:n]), "copy of the trie of %s holds %s", hx(b), hx(cp.Buf()))
	return true
}

func init() {
	register(&Prop{
		ID: "C32", Quick: 60000, Thorough: 3000000,
		Rule: "A case is a trie built by a history of sets and removals over nested keys, with primitives, arrays and record lists for values; it is encoded, decoded among other bytes and read in every way, cut anywhere, edited and encoded again, compared with a trie of the same content built in another order, copied, and its encoding is damaged; " +
			"non-trivial: a trie of at least 3 entries with values is decoded.",
		Run: func(t *T) {
			c := &codedTrie{t: t, trie: util.NewTrie(), have: map[string]*codedEntry{}}
			c.edit(25, 7)
			if t.Chance(1, 150) {
				t.Label("large")
				c.widen()
				c.edit(10, 4)
			}
			b := c.roundTrip()
			if b != nil && len(c.have) >= 3 {
				t.NonTrivial()
			}
			switch t.Weighted(3, 2, 2, 3) {
			case 0:
				t.Logf("more")
				t.Label("edited after encoding")
				for i := 0; i == 0 || i < 4 && t.Chance(1, 3); i++ {
					c.edit(6, 3)
					c.checkGiven()
					b = c.roundTrip()
				}
			case 1:
				// the encoding depends on nothing but what the trie holds
				t.Logf("the same in another order")
				t.Label("other order")
				o := util.NewTrie()
				ks := c.keys()
				for _, i := range visit(len(ks), &prng{s: t.Draw(1 << 20)}) {
					o.Set(buildKey(ks[i]), buildValue(c.have[string(refKey(ks[i]))].m))
				}
				if b != nil {
					err := o.Encode(nil)
					t.Check(err == nil && string(o.Buf()) == string(b), "a trie of the same content, set in another order, is encoded as %s, not %s: %v", hx(o.Buf()), hx(b), err)
				}
			case 2:
				if !c.encodable() {
					return
				}
				c.copied()
				b = c.roundTrip()
			case 3:
				if b == nil {
					return
				}
				t.Label("damaged")
				for i := 0; i < 3 && (i == 0 || t.Bool()); i++ {
					var d string
					b, d = t.Mutate(b)
					t.Logf("edit%s", d)
				}
				if panicked, what := Panics(func() { damagedTrie(t, b) }); panicked {
					t.Failf("decoding %s as a trie panics: %v", hx(b), what)
				}
			}
		},
		Assume: []string{"an empty value is the same as none once encoded", "values are not themselves decoded ones (those cannot be encoded again)"},
	})
}
