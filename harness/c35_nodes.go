package main

import (
	"sort"
	"strings"

	"../collection"
	"../util"
)

// a node of a hierarchy put together by hand, and what it should be
type nodeModel struct {
	node   util.ITrieNode
	parent *nodeModel
	key    []byte
	m      *mval // nil: no value
	v      util.IValue
	kids   map[string]*nodeModel
	offset uint32
	pos    int
	given  []byte // what a constructed one was encoded as, nil if it is not
}

func (m *nodeModel) path() [][]byte {
	k := [][]byte{}
	for n := m; n.parent != nil; n = n.parent {
		k = append([][]byte{n.key}, k...)
	}
	return k
}

func (m *nodeModel) sortedKids() []*nodeModel {
	keys := []string{}
	for k := range m.kids {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := []*nodeModel{}
	for _, k := range keys {
		out = append(out, m.kids[k])
	}
	return out
}

// this node and all below it, in key order
func (m *nodeModel) all() []*nodeModel {
	out := []*nodeModel{m}
	for _, k := range m.sortedKids() {
		out = append(out, k.all()...)
	}
	return out
}

func (t *T) nodeValue() (*mval, util.IValue) {
	if t.Chance(1, 3) {
		return nil, nil
	}
	m := t.ValueModel([]int{0, 0, 1, 2}[t.Int(0, 3)], 40)
	return m, buildValue(m)
}

// what the node itself says
func (m *nodeModel) check(t *T, what string, mapped bool, order *prng) {
	n := m.node
	path := m.path()
	what += " at " + hxs(path)
	t.Check(string(n.NodeKey()) == string(m.key), "%s: its key is %s", what, hx(n.NodeKey()))
	full := n.FullKey()
	t.Check(refCompareKeys(full.Key(), path) == 0 && full.IsEmpty() == (len(path) == 0), "%s: its full key is %s", what, hxs(full.Key()))
	if m.parent == nil {
		t.Check(collection.IsNil(n.Parent()), "%s: has a parent", what)
	} else {
		t.Check(n.Parent() == m.parent.node, "%s: has another parent", what)
	}
	v := n.Value()
	switch {
	case m.m == nil || mapped && m.m.isNil():
		t.Check(collection.IsNil(v) || v.IsNil(), "%s: has a value", what)
	case m.v != nil:
		t.Check(v == m.v, "%s: its value is not the one set", what)
	default:
		checkValue(t, what, v, m.m, mapped, order)
	}
	t.Check(n.ChildSize() == len(m.kids), "%s: says there are %d below it, should be %d", what, n.ChildSize(), len(m.kids))
	iter := n.Children().Iterator()
	for _, k := range m.sortedKids() {
		t.Check(n.GetChild(k.key) == k.node, "%s: below it, %s is not what was put there", what, hx(k.key))
		t.Check(iter.HasNext(), "%s: some are missing below it", what)
		_, c := iter.Next()
		t.Check(c == k.node, "%s: the order below it is wrong at %s", what, hx(k.key))
	}
	t.Check(!iter.HasNext(), "%s: there are more below it than should be", what)
	for i := 0; i < 2; i++ {
		k := t.SmallSubKey()
		if m.kids[string(k)] == nil {
			t.Check(collection.IsNil(n.GetChild(k)), "%s: below it is %s, but should not be", what, hx(k))
		}
	}
	t.Check(n.Offset() == m.offset, "%s: its offset is %d, should be %d", what, n.Offset(), m.offset)
	if !mapped {
		t.Check(n.IsEncoded() == (m.given != nil), "%s: says it is encoded is %v", what, n.IsEncoded())
		if m.given != nil {
			t.Check(string(n.Buf()) == string(m.given), "%s: holds %s, was encoded as %s", what, hx(n.Buf()), hx(m.given))
		} else {
			p, _ := Panics(func() { n.Buf() })
			t.Check(p, "%s: it is not encoded, but gives an encoding", what)
		}
	}
}

func (m *nodeModel) checkAll(t *T, what string, mapped bool) {
	order := &prng{s: t.Draw(63)}
	for _, n := range m.all() {
		n.check(t, what, mapped, order)
	}
}

// iterators over the nodes
func (m *nodeModel) walk(t *T, what string, mapped bool) {
	t.trieValues = map[util.IValue]int{}
	tm := &trieModel{have: map[string]*trieEntry{}}
	nodes := m.all()
	for i, n := range nodes {
		if v := n.node.Value(); !collection.IsNil(v) {
			t.trieValues[v] = i
			tm.have[string(refKey(n.path()))] = &trieEntry{n.path(), v}
		}
		tm.empty = append(tm.empty, n.path())
	}
	all := tm.sorted()
	at := nodes[t.Int(0, len(nodes)-1)]
	k := at.path()
	within := func(o [][]byte) bool { return isPrefix(k, o) }
	tm.iterate(t, what+", nodes below "+hxs(k), util.NewTrieKeyIterator(m.node, at.node), filterEntries(all, within), within)
	from, to := nodes[t.Int(0, len(nodes)-1)].path(), nodes[t.Int(0, len(nodes)-1)].path()
	if refCompareKeys(from, to) > 0 {
		from, to = to, from
	}
	within = func(o [][]byte) bool { return refCompareKeys(o, from) >= 0 && refCompareKeys(o, to) < 0 }
	tm.iterate(t, what+", nodes from "+hxs(from)+" to "+hxs(to), util.NewTrieRangeIterator(m.node, t.MadeKey(from), t.MadeKey(to)), filterEntries(all, within), within)
	if len(k) > 0 {
		panicked, _ := Panics(func() { util.NewTrieKeyIterator(at.node, at.node) })
		t.Check(panicked, "%s: an iterator takes %s for a root", what, hxs(k))
	}
}

// expected nodes of a copy: what m expects, of the nodes found in the copy
func (m *nodeModel) copied(t *T, what string, n util.ITrieNode, parent *nodeModel) *nodeModel {
	c := &nodeModel{node: n, parent: parent, key: m.key, m: m.m, kids: map[string]*nodeModel{}}
	for s, k := range m.kids {
		kn := n.GetChild(k.key)
		t.Check(!collection.IsNil(kn), "%s of %s: %s is missing below", what, hxs(m.path()), hx(k.key))
		t.Check(kn != k.node, "%s of %s: below it is the same node for %s", what, hxs(m.path()), hx(k.key))
		c.kids[s] = k.copied(t, what, kn, c)
	}
	c.offset = n.Offset() // whether a copy keeps it is open
	if n.IsEncoded() {
		c.given = append([]byte{}, n.Buf()...)
	}
	return c
}

func (m *nodeModel) edit(t *T, steps, avg int) {
	for i := 0; i < steps && t.More(avg); i++ {
		nodes := m.all()
		at := nodes[t.Int(0, len(nodes)-1)]
		key := t.SmallSubKey()
		if len(at.kids) > 0 && t.Bool() {
			kids := at.sortedKids()
			key = kids[t.Int(0, len(kids)-1)].key
		}
		switch t.Weighted(600, 200, 200, 100, 4) {
		case 0:
			mv, v := t.nodeValue()
			t.Logf("at %s put %s with %s", hxs(at.path()), hx(key), mv)
			n := &nodeModel{node: util.NewTrieNode(at.node, key, v), parent: at, key: key, m: mv, v: v, kids: map[string]*nodeModel{}}
			t.Check(at.node.PutChild(key, n.node) == nil, "a node cannot be put below %s", hxs(at.path()))
			at.kids[string(key)] = n
			at.given = nil
		case 1:
			t.Logf("at %s remove %s", hxs(at.path()), hx(key))
			t.Check(at.node.RemoveChild(key) == nil, "%s cannot be removed below %s", hx(key), hxs(at.path()))
			delete(at.kids, string(key))
			at.given = nil
		case 2:
			mv, v := t.nodeValue()
			t.Logf("at %s set %s", hxs(at.path()), mv)
			t.Check(at.node.SetValue(v) == nil, "%s cannot be set to %s", hxs(at.path()), mv)
			at.m, at.v = mv, v
			at.given = nil
		case 3:
			t.Logf("encode %s", hxs(at.path()))
			at.encode(t)
		case 4:
			c := t.Int(20, 300)
			t.Logf("at %s put %d", hxs(at.path()), c)
			t.Label("many below one")
			for _, j := range visit(c, &prng{s: t.Draw(63)}) {
				key := []byte{'b', byte(j >> 8), byte(j)}
				n := &nodeModel{node: util.NewTrieNode(at.node, key, nil), parent: at, key: key, kids: map[string]*nodeModel{}}
				t.Check(at.node.PutChild(key, n.node) == nil, "a node cannot be put below %s", hxs(at.path()))
				at.kids[string(key)] = n
			}
			at.given = nil
		}
	}
}

func (m *nodeModel) encode(t *T) bool {
	err := m.node.Encode(nil)
	fits := true
	if m.m != nil {
		_, fits = refValue(m.m)
	}
	t.Check((err == nil) == fits, "node %s with value %s is encoded: %v", hxs(m.path()), m.m, err)
	if !fits {
		m.given = nil
		if m.node.IsEncoded() {
			m.given = append([]byte{}, m.node.Buf()...)
		}
		return false
	}
	t.Check(m.node.IsEncoded(), "node %s, encoded, says it is not", hxs(m.path()))
	m.given = append([]byte{}, m.node.Buf()...)
	return true
}

// a hierarchy built by hand, copied, one of the two changed
func builtNodes(t *T, root *nodeModel) {
	root.walk(t, "built", false)
	nodes := root.all()
	at := nodes[t.Int(0, len(nodes)-1)]
	var e util.IEncodable
	what := "copy"
	if t.Bool() {
		e = at.node.Copy()
	} else {
		what = "constructed copy"
		var err error
		e, err = at.node.CopyConstruct()
		t.Check(err == nil, "%s of %s: %v", what, hxs(at.path()), err)
	}
	n, ok := e.(*util.TrieNode)
	t.Check(ok && n != at.node, "the %s of a node is %T", what, e)
	t.Logf("%s of %s", what, hxs(at.path()))
	t.Label(what)
	c := at.copied(t, what, n, at.parent)
	c.checkAll(t, what, false)
	root.checkAll(t, "copied", false)
	a, b := at, c
	if t.Bool() {
		a, b = c, at
	}
	for _, x := range a.all() {
		if !collection.IsNil(x.node.Value()) && t.Bool() {
			spoilValue(x.node.Value())
			t.Check(x.node.SetValue(nil) == nil, "no value can be set")
			x.m, x.v, x.given = nil, nil, nil
		}
	}
	a.edit(t, 8, 4)
	a.checkAll(t, "the changed one of a node and its "+what, false)
	for _, x := range b.all() {
		x.v = nil // the content is what counts
	}
	b.checkAll(t, "the other one of a node and its "+what, false)
	lines := t.printed(what, n)
	t.Check(len(lines) == len(c.all()), "%s of a node, %d with those below it, is printed in %d lines: %q", what, len(c.all()), len(lines), strings.Join(lines, "\n"))
	if at.parent != nil {
		// the copy takes the place of the original
		t.Check(at.parent.node.PutChild(at.key, n) == nil, "the %s cannot be put back", what)
		at.parent.kids[string(at.key)] = c
		at.parent.given = nil
		root.checkAll(t, "with the copy instead", false)
	}
}

// gives each node its offset: where it is encoded, or any other
func (t *T) placeNodes(root *nodeModel) bool {
	nodes := root.all()
	place := &prng{s: t.Draw(63)}
	any := t.Chance(1, 3)
	if any {
		t.Logf("any offsets")
		t.Label("any offsets")
	}
	taken := map[uint32]bool{}
	for i, n := range nodes {
		o := uint32(10 * i) // changed below, if the nodes are where they are encoded
		for any && (o%10 == 0 || taken[o]) {
			o = uint32(place.next()) >> (place.next() % 32)
		}
		taken[o] = true
		n.offset = o
		t.Check(n.node.SetOffset(o) == nil, "the offset cannot be set")
		n.given = nil
		if n.node.IsEncoded() {
			n.given = append([]byte{}, n.node.Buf()...)
		}
	}
	return any
}

// encodes all nodes one after the other
func (m *nodeModel) encodeAll(t *T, pos int, placed bool) ([]byte, bool) {
	if !placed {
		m.offset = uint32(pos)
		t.Check(m.node.SetOffset(m.offset) == nil, "the offset cannot be set")
	}
	if !m.encode(t) {
		return nil, false
	}
	m.pos = pos
	b := append([]byte{}, m.given...)
	for _, k := range m.sortedKids() {
		kb, ok := k.encodeAll(t, pos+len(b), placed)
		if !ok {
			return nil, false
		}
		b = append(b, kb...)
	}
	return append(b, 0), true
}

// decodes the nodes where m's were encoded
func (m *nodeModel) decode(t *T, in []byte, parent *nodeModel, known map[uint32]util.ITrieNode) *nodeModel {
	d := &nodeModel{parent: parent, key: m.key, m: m.m, kids: map[string]*nodeModel{}, offset: m.offset}
	var pn util.ITrieNode
	if parent != nil {
		pn = parent.node
	}
	own := len(m.given)
	from := in[m.pos:]
	if t.Chance(1, 4) {
		cut := t.Int(0, own-1)
		_, _, err := util.NewMappedTrieNode(pn, exact(from[:cut]), m.offset, known)
		t.Check(err != nil, "the first %d of the %d bytes of node %s are accepted: %s", cut, own, hxs(m.path()), hx(m.given))
		if parent != nil {
			t.Check(collection.IsNil(pn.GetChild(m.key)), "a refused node is below its parent")
		}
	}
	if parent != nil && t.Chance(1, 4) {
		// below another parent
		nodes := parent.top().all()
		other := nodes[t.Int(0, len(nodes)-1)]
		if other != parent && other.node != nil && other.kids[string(m.key)] == nil {
			_, _, err := util.NewMappedTrieNode(other.node, from, m.offset, known)
			t.Check(err != nil, "node %s is accepted below %s", hxs(m.path()), hxs(other.path()))
			t.Check(collection.IsNil(other.node.GetChild(m.key)), "a refused node is below another")
		}
	}
	n, length, err := util.NewMappedTrieNode(pn, from, m.offset, known)
	t.Check(err == nil, "node %s of %s: %v", hxs(m.path()), hx(m.given), err)
	t.Check(length == own, "node %s takes %d of %d bytes: %s", hxs(m.path()), length, own, hx(m.given))
	t.Check(string(n.Buf()) == string(m.given), "node %s was decoded from %s, but holds %s", hxs(m.path()), hx(m.given), hx(n.Buf()))
	t.Check(known[m.offset] == util.ITrieNode(n), "node %s is not known by its offset", hxs(m.path()))
	d.node = n
	if parent != nil {
		parent.kids[string(m.key)] = d
	}
	if parent != nil && t.Chance(1, 4) {
		_, _, err := util.NewMappedTrieNode(pn, from, m.offset, known)
		t.Check(err != nil, "node %s is accepted twice", hxs(m.path()))
	}
	for _, k := range m.sortedKids() {
		k.decode(t, in, d, known)
	}
	return d
}

func (m *nodeModel) top() *nodeModel {
	for m.parent != nil {
		m = m.parent
	}
	return m
}

// decoded nodes read alike, refuse changes, and copies of them are their own
func mappedNodes(t *T, root *nodeModel) {
	b, ok := root.encodeAll(t, 0, t.placeNodes(root))
	if !ok {
		t.Label("refused")
		return
	}
	root.checkAll(t, "encoded", false)
	t.Label("decoded")
	known := map[uint32]util.ITrieNode{}
	in := append(append([]byte{}, b...), t.Trailer()...)
	d := root.decode(t, in, nil, known)
	d.checkAll(t, "decoded", true)
	d.walk(t, "decoded", true)
	t.Check(len(known) == len(d.all()), "%d nodes are known, there are %d", len(known), len(d.all()))
	nodes := d.all()
	at := nodes[t.Int(0, len(nodes)-1)]
	if len(nodes) > 1 && t.Bool() {
		key := t.SmallSubKey()
		t.Check(at.node.PutChild(key, util.NewTrieNode(at.node, key, nil)) != nil, "a node can be put below a decoded one")
		for _, k := range at.sortedKids() {
			t.Check(at.node.RemoveChild(k.key) != nil, "a decoded node can be removed")
		}
		t.Check(at.node.SetValue(util.NewPrimitive([]byte("x"))) != nil, "the value of a decoded node can be set")
		t.Check(at.node.SetOffset(at.offset+1) != nil, "the offset of a decoded node can be set")
		t.Check(at.node.Encode(nil) != nil, "a decoded node can be encoded")
		_, err := at.node.CopyConstruct()
		t.Check(err != nil, "a decoded node can be copied to a constructed one")
		d.checkAll(t, "after refused changes", true)
	}
	own := root
	for _, s := range at.path() {
		own = own.kids[string(s)]
	}
	t.Logf("copy of decoded %s", hxs(at.path()))
	e := at.node.Copy()
	n, ok := e.(*util.MappedTrieNode)
	t.Check(ok && n != at.node, "the copy of a decoded node is %T", e)
	order := &prng{s: t.Draw(63)}
	c := *at
	c.node = n
	checkCopy := func(what string) {
		t.Check(n.IsDecoded() && n.IsEncoded(), "%s says it is not decoded or encoded", what)
		t.Check(string(n.NodeKey()) == string(at.key) && n.Offset() == at.offset, "%s: has key %s and offset %d, should be %s, %d", what, hx(n.NodeKey()), n.Offset(), hx(at.key), at.offset)
		t.Check(string(n.Buf()) == string(own.given), "%s holds %s, should be %s", what, hx(n.Buf()), hx(own.given))
		v := n.Value()
		if at.m == nil || at.m.isNil() {
			t.Check(collection.IsNil(v) || v.IsNil(), "%s has a value", what)
		} else {
			checkValue(t, what, v, at.m, true, order)
		}
	}
	checkCopy("the copy of a decoded node")
	d.checkAll(t, "copied", true)
	t.Check(known[at.offset] == at.node, "the copy of a node takes its place")
	lines := t.printed("copy of a decoded node", n)
	t.Check(lines[0] == t.oneLine("copy of a decoded node", n), "a copy of a node is printed as %q, and is %q", lines[0], n.ToString())
	if t.Bool() {
		scribble(n.Buf())
		d.checkAll(t, "with its copy changed", true)
		t.Check(string(in[:len(b)]) == string(b), "a change of the copy of a node shows in the bytes it was decoded from")
	} else {
		scribble(in)
		checkCopy("the copy of a decoded node, whose bytes changed since,")
	}
}

func init() {
	register(&Prop{
		ID: "C35", Quick: 90000, Thorough: 3000000,
		Rule: "A case is a hierarchy of trie nodes put together by hand (children put, replaced and removed, values set and removed, nodes encoded), read node by node and by iterators; a node of it is copied with all below it, and one of the two changes; or all are encoded one after the other, decoded by hand, cut, decoded twice, changed in vain and copied; " +
			"non-trivial: at least 3 nodes.",
		Run: func(t *T) {
			root := &nodeModel{node: util.NewTrieNode(nil, nil, nil), kids: map[string]*nodeModel{}}
			for i := 0; i < 3 && (i == 0 || t.Chance(1, 3)); i++ {
				root.edit(t, 25, 8)
				root.checkAll(t, "built", false)
			}
			if len(root.all()) >= 3 {
				t.NonTrivial()
			}
			if t.Bool() {
				mappedNodes(t, root)
			} else {
				builtNodes(t, root)
			}
		},
		Assume: []string{"sub keys are not empty, and nodes are put below the parent and under the key they were made for"},
	})
}
