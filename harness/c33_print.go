package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"../collection"
	"../util"
)

// a key of sorted and hashed collections that prints its number
type printKey struct {
	n    int
	kind int
}

func (k *printKey) Compare(o collection.IComparable) int {
	x := o.(*printKey)
	return sign(k.n - x.n)
}

func (k *printKey) Equal(o collection.IObject) bool {
	x, ok := o.(*printKey)
	return ok && x.n == k.n
}

func (k *printKey) HashUint32(f func([]byte) uint32) uint32 {
	return (&hashKey{n: k.n, kind: k.kind}).HashUint32(f)
}

func (k *printKey) String() string { return fmt.Sprintf("<%d>", k.n) }

// prints p; each line is ended, indented by at least the given indent, and
// none is empty. Returns the lines without the common indent.
func (t *T) printed(what string, p collection.IPrintable) []string {
	indent := []int{0, 1, 4, 7, 20}[t.Weighted(4, 1, 2, 1, 1)]
	var b bytes.Buffer
	p.Print(&b, indent)
	out := b.String()
	b.Reset()
	p.Print(&b, indent)
	t.Check(b.String() == out, "%s: printed again, it is different: %q, then %q", what, out, b.String())
	t.Check(strings.HasSuffix(out, "\n"), "%s: printed as %q, without a return at the end", what, out)
	t.Check(!strings.Contains(out, "%!"), "%s: printed as %q", what, out)
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	for i, l := range lines {
		n := len(l) - len(strings.TrimLeft(l, " "))
		t.Check(n < len(l), "%s: line %d of %q is empty", what, i, out)
		if i == 0 {
			t.Check(n == indent, "%s: first line %q is not indented by %d", what, l, indent)
		} else {
			t.Check(n > indent && (n-indent)%4 == 0, "%s: line %d %q should be indented by 4, 8 and so on more than the first, by %d", what, i, l, indent)
		}
		lines[i] = l[indent:]
	}
	return lines
}

// one line, which is the first one printed
func (t *T) oneLine(what string, p collection.IPrintable) string {
	s := p.ToString()
	t.Check(s != "" && !strings.Contains(s, "\n") && !strings.HasPrefix(s, " ") && !strings.Contains(s, "%!"), "%s: as a string it is %q", what, s)
	return s
}

// a value of a collection, or none
func (t *T) PrintValue() interface{} {
	if t.Chance(1, 6) {
		return nil
	}
	return t.Int(0, 999)
}

func depth(line string) int { return (len(line) - len(strings.TrimLeft(line, " "))) / 4 }

func printTree(t *T) {
	tree := collection.NewAVLTree()
	have := map[int]interface{}{}
	for i := 0; i < 60 && t.More(12); i++ {
		n := t.Int(0, 40)
		if t.Chance(1, 4) {
			tree.Remove(&printKey{n: n})
			delete(have, n)
		} else {
			v := t.PrintValue()
			tree.Put(&printKey{n: n}, v)
			have[n] = v
		}
	}
	t.Logf("sorted tree %v", have)
	s := t.oneLine("tree", tree)
	lines := t.printed("tree", tree)
	t.Check(lines[0] == s, "tree: first line is %q, as a string it is %q", lines[0], s)
	t.Check(len(lines) == 1+len(have), "tree of %d entries is printed in %d lines: %q", len(have), len(lines), lines)
	t.Check(strings.Contains(s, fmt.Sprintf("s=%d,", len(have))), "tree of %d entries is %q", len(have), s)
	t.Check(tree.Size() == len(have), "printed tree: size %d, should be %d", tree.Size(), len(have))
	for n, v := range have {
		text := fmt.Sprintf("k=<%d>, v=%v,", n, v)
		node := tree.Get(&printKey{n: n})
		t.Check(node != nil && strings.HasPrefix(node.ToString(), text), "printed tree: %s is not found", text)
	}
	// what is further in is below; what is printed below a node lies to one side of it
	type frame struct{ n, lo, hi int }
	path := []frame{{0, -1, 1000}}
	for _, l := range lines[1:] {
		var n int
		body := strings.TrimLeft(l, " ")
		_, err := fmt.Sscanf(body, "k=<%d>,", &n)
		w, ok := have[n]
		t.Check(err == nil && ok && strings.HasPrefix(body, fmt.Sprintf("k=<%d>, v=%v,", n, w)), "tree %v: line %q is none of its entries, or is twice", have, l)
		delete(have, n)
		d := depth(l)
		t.Check(d >= 1 && d <= len(path), "tree: line %q is indented too much", l)
		path = path[:d]
		lo, hi := -1, 1000
		if d > 1 {
			p := path[d-1]
			if n < p.n {
				lo, hi = p.lo, p.n
			} else {
				lo, hi = p.n, p.hi
			}
		}
		t.Check(n > lo && n < hi, "tree: line %q is where keys are between %d and %d: %q", l, lo, hi, lines)
		path = append(path, frame{n, lo, hi})
	}
	if len(lines) >= 4 {
		t.NonTrivial()
	}
}

func printHash(t *T) {
	h := collection.NewHash()
	if t.Bool() {
		h = collection.NewCustomHash(t.Int(1, 20), 0.75, 2)
	}
	kind := t.Int(0, hashKinds-1)
	have := map[int]interface{}{}
	for i := 0; i < 60 && t.More(12); i++ {
		n := t.Int(0, 40)
		if t.Chance(1, 4) {
			h.Remove(&printKey{n, kind})
			delete(have, n)
		} else {
			v := t.PrintValue()
			h.Put(&printKey{n, kind}, v)
			have[n] = v
		}
	}
	t.Logf("hash table %v, hashing %d", have, kind)
	size := len(have)
	s := t.oneLine("hash table", h)
	lines := t.printed("hash table", h)
	t.Check(lines[0] == s, "hash table: first line is %q, as a string it is %q", lines[0], s)
	t.Check(strings.Contains(s, fmt.Sprintf("size=%d,", size)), "hash table of %d entries is %q", size, s)
	t.Check(len(lines) == 1+size, "hash table of %d entries is printed in %d lines: %q", size, len(lines), lines)
	for n, v := range have {
		text := fmt.Sprintf("k=<%d>, v=%v,", n, v)
		node := h.Get(&printKey{n, kind})
		t.Check(node != nil && strings.HasPrefix(node.ToString(), text), "printed hash table: %s is not found", text)
	}
	last := 0
	for _, l := range lines[1:] {
		var n int
		body := strings.TrimLeft(l, " ")
		_, err := fmt.Sscanf(body, "k=<%d>,", &n)
		w, ok := have[n]
		t.Check(err == nil && ok && strings.HasPrefix(body, fmt.Sprintf("k=<%d>, v=%v,", n, w)), "hash table %v: line %q is none of its entries, or is twice", have, l)
		delete(have, n)
		d := depth(l)
		t.Check(d == 1 || d == last+1, "hash table: line %q is below none: %q", l, lines)
		last = d
	}
	for k, v := range have {
		t.Failf("hash table: entry %d, %v is not printed: %q", k, v, lines)
	}
	if len(lines) >= 4 {
		t.NonTrivial()
	}
}

func printKeys(t *T) {
	k := t.KeyModel()
	if len(k) > 20 {
		k = k[:20]
	}
	key := t.AnyKey(k)
	t.Logf("key %s (%T)", hxs(k), key)
	was := key.IsEncoded()
	p, ok := key.(collection.IPrintable)
	t.Check(ok, "%T cannot be printed", key)
	s := t.oneLine("key", p)
	lines := t.printed("key", p)
	pos := 0
	for i, sub := range k {
		text := fmt.Sprint(sub)
		j := strings.Index(s[pos:], text)
		t.Check(j >= 0, "key %s: sub key %v is not, or not in its place, in %q", hxs(k), sub, s)
		pos += j + len(text)
		t.Check(len(lines) > i+1 && depth(lines[i+1]) == 1 && strings.HasSuffix(lines[i+1], text), "key %s: sub key %v should be line %d: %q", hxs(k), sub, i+1, lines)
	}
	t.Check(len(lines) <= len(k)+2, "key %s has more lines than sub keys: %q", hxs(k), lines)
	t.Check(key.IsEncoded() == was, "key %s: says it is encoded: %v, before it was printed: %v", hxs(k), key.IsEncoded(), was)
	checkKey(t, "printed key", key, k)
	if len(k) >= 2 {
		t.NonTrivial()
	}
}

func printTrie(t *T) {
	c := &codedTrie{t: t, trie: util.NewTrie(), have: map[string]*codedEntry{}}
	c.edit(20, 6)
	var trie interface {
		readableTrie
		collection.IPrintable
	} = c.trie
	if !c.encodable() {
		t.Discard()
	}
	mapped := false
	switch t.Draw(2) {
	case 1:
		err := c.trie.Encode(nil)
		t.Check(err == nil, "encoding: %v", err)
	case 2:
		err := c.trie.Encode(nil)
		t.Check(err == nil, "encoding: %v", err)
		mt, _, err := util.NewMappedTrie(exact(c.trie.Buf()))
		t.Check(err == nil, "decoding: %v", err)
		trie = mt
		mapped = true
	}
	t.Logf("trie of %d keys, decoded %v", len(c.have), mapped)
	state := func() string {
		out := fmt.Sprint(trie.(util.IEncodable).IsEncoded(), " ")
		for _, k := range c.keys() {
			v := trie.Get(buildKey(k))
			out += fmt.Sprint(!collection.IsNil(v) && v.IsEncoded(), " ")
		}
		return out
	}
	was := state()
	s := t.oneLine("trie", trie)
	lines := t.printed("trie", trie)
	t.Check(lines[0] == s, "trie: first line is %q, as a string it is %q", lines[0], s)
	// all nodes, in the order of their keys
	nodes := map[string][][]byte{"": {}}
	for _, e := range c.have {
		for i := range e.k {
			nodes[string(refKey(e.k[:i+1]))] = e.k[:i+1]
		}
	}
	all := [][][]byte{}
	for _, k := range nodes {
		all = append(all, k)
	}
	sort.Slice(all, func(i, j int) bool { return refCompareKeys(all[i], all[j]) < 0 })
	t.Check(len(lines) == 1+len(all), "trie of %d nodes is printed in %d lines: %q", len(all), len(lines), lines)
	for i, k := range all {
		l := lines[i+1]
		own := []byte{}
		if len(k) > 0 {
			own = k[len(k)-1]
		}
		t.Check(depth(l) == len(k)+1, "trie: node %s is not indented by its depth: %q", hxs(k), l)
		t.Check(strings.Contains(l, fmt.Sprintf("k=%x,", own)), "trie: node %s is printed as %q", hxs(k), l)
	}
	t.Check(state() == was, "trie: whether it and its values are encoded was %s before printing it, now %s", was, state())
	c.checkTrie("printed trie", trie, true)
	if len(lines) >= 4 {
		t.NonTrivial()
	}
}

func init() {
	register(&Prop{
		ID: "C33", Quick: 180000, Thorough: 3000000,
		Rule: "A case is a sorted tree or hash table built by a history, a key in one of its forms, or a trie (encoded, decoded, or neither), printed with some indent and turned into a string; " +
			"non-trivial: it has at least 3 elements (2 for a key).",
		Run: func(t *T) {
			i := t.Int(0, 3)
			t.Label([]string{"sorted tree", "hash table", "key", "trie"}[i])
			[]func(*T){printTree, printHash, printKeys, printTrie}[i](t)
		},
		Assume: []string{"keys and values of collections print in one line"},
	})
}
