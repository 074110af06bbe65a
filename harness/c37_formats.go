package main

import (
	"encoding/binary"
	"math/big"

	"../collection"
	"../util"
)

// reference decoders: what a sequence of bytes begins with. Each returns how
// many bytes it takes, or -1 if it is not well formed. open is set where the
// format leaves it to the decoder whether to accept (reserved bits, and what
// is longer than it has to be)

type format struct {
	open   bool
	budget int
}

// little endian base 128, up to 64 bits
func (f *format) unsigned(b []byte) (uint64, int) {
	v := uint64(0)
	for i := 0; i < len(b) && i < 10; i++ {
		if i == 9 && b[i] > 1 {
			return 0, -1
		}
		v |= uint64(b[i]&0x7f) << uint(7*i)
		if b[i] < 0x80 {
			if i > 0 && b[i] == 0 {
				f.open = true // longer than needed
			}
			return v, i + 1
		}
	}
	return 0, -1
}

// a length and so many bytes
func (f *format) varchar(b []byte) ([]byte, int) {
	l, n := f.unsigned(b)
	if n < 0 || l > uint64(len(b)-n) {
		return nil, -1
	}
	return b[n : n+int(l)], n + int(l)
}

// a count and so many varchars
func (f *format) varchars(b []byte) ([][]byte, int) {
	l, pos := f.unsigned(b)
	if pos < 0 || l > uint64(len(b)-pos) {
		return nil, -1
	}
	out := [][]byte{}
	for i := 0; i < int(l); i++ {
		s, n := f.varchar(b[pos:])
		if n < 0 {
			return nil, -1
		}
		out = append(out, s)
		pos += n
	}
	return out, pos
}

// value: the parts before the content, and the content
func (f *format) valueParts(b []byte) (kind, size int, content []byte, n int) {
	if len(b) < 1 {
		return 0, 0, nil, -1
	}
	magic, pos := b[0], 1
	arr, list := int(magic>>6), int(magic>>4&3)
	if arr == 3 || list == 3 || arr != 0 && list != 0 || magic&0x0c != 0 || magic&3 == 3 {
		return 0, 0, nil, -1
	}
	number := func(w int) int {
		if w == 0 {
			return 0
		}
		if pos < 0 || len(b) < pos+w {
			pos = -1
			return 0
		}
		v := int(b[pos])
		if w == 2 {
			v = v<<8 | int(b[pos+1])
		}
		pos += w
		return v
	}
	if arr != 0 {
		kind, size = 1, number(arr)
	} else if list != 0 {
		kind, size = 2, number(list)
	}
	l := number(int(magic & 3))
	if pos < 0 || len(b) < pos+l {
		return 0, 0, nil, -1
	}
	return kind, size, b[pos : pos+l], pos + l
}

// value, with its elements; broken if one of them is not well formed
func (f *format) value(b []byte) (m *mval, n int, broken bool) {
	kind, size, content, n := f.valueParts(b)
	if n < 0 {
		return nil, -1, false
	}
	f.budget--
	m = &mval{kind: kind}
	if kind == 0 {
		m.data = content
		return m, n, false
	}
	pos := 0
	for i := 0; i < size; i++ {
		if f.budget <= 0 {
			return m, n, broken
		}
		k, bad := 0, false
		if kind == 1 {
			var e *mval
			if e, k, bad = f.value(content[pos:]); k >= 0 {
				m.elems = append(m.elems, e)
			}
		} else {
			var e *mrec
			if e, k, bad = f.record(content[pos:]); k >= 0 {
				m.recs = append(m.recs, e)
			}
		}
		if k < 0 {
			return m, n, true
		}
		broken = broken || bad
		pos += k
	}
	return m, n, broken
}

func (f *format) record(b []byte) (m *mrec, n int, broken bool) {
	if len(b) < 1 {
		return nil, -1, false
	}
	f.budget--
	magic, pos := b[0], 1
	if magic&0x89 != 0 {
		f.open = true // consensus and reserved bits
	}
	m = &mrec{}
	if magic&0x40 != 0 {
		key, k := f.varchars(b[pos:])
		if k < 0 || k > util.MAX_KEY_LENGTH {
			return nil, -1, false
		}
		if len(key) > 0 {
			m.key = key
		}
		pos += k
	}
	for i, bit := range []byte{0x20, 0x10} {
		if magic&bit == 0 {
			continue
		}
		v, k, bad := f.value(b[pos:])
		if k < 0 || k > []int{util.MAX_VALUE_LENGTH, util.MAX_SCHEME_LENGTH}[i] {
			return nil, -1, false
		}
		if i == 0 {
			m.value = v
		} else {
			m.scheme = v
		}
		broken = broken || bad
		pos += k
	}
	if magic&0x04 != 0 {
		if len(b) < pos+8 {
			return nil, -1, false
		}
		ts := int64(binary.BigEndian.Uint64(b[pos:]))
		m.ts = &ts
		pos += 8
	}
	if magic&0x02 != 0 {
		if magic&0x04 == 0 {
			f.open = true // a signature signs what has a timestamp
		}
		if len(b) >= pos+64 { // it is optional
			m.r, m.s = new(big.Int).SetBytes(b[pos:pos+32]), new(big.Int).SetBytes(b[pos+32:pos+64])
			pos += 64
		}
	}
	return m, pos, broken
}

func (f *format) scheme(b []byte) (*mscheme, int) {
	if len(b) < 1 {
		return nil, -1
	}
	magic, pos, n := b[0], 1, 0
	if magic&0x1f != 0 {
		f.open = true
	}
	m := &mscheme{}
	if magic&0x80 != 0 {
		if m.domain, n = f.varchar(b[pos:]); n < 0 {
			return nil, -1
		}
		pos += n
	}
	if magic&0x40 != 0 {
		if m.tablet, n = f.varchar(b[pos:]); n < 0 {
			return nil, -1
		}
		pos += n
	}
	if magic&0x20 != 0 {
		m.hasBuckets = true
		if m.buckets, n = f.varchars(b[pos:]); n < 0 {
			return nil, -1
		}
		pos += n
	}
	return m, pos
}

type mtable struct {
	keys [][][]byte // nil: verified by hash
	size int
}

func (f *format) table(b []byte) (*mtable, int) {
	if len(b) < 1 || b[0] > 1 {
		return nil, -1
	}
	pos := 1
	number := func() uint32 {
		if pos < 0 || len(b) < pos+4 {
			pos = -1
			return 0
		}
		pos += 4
		return binary.BigEndian.Uint32(b[pos-4:])
	}
	numbers := func() int {
		n := number()
		if pos < 0 || uint64(len(b)-pos) < 4*uint64(n) {
			pos = -1
			return 0
		}
		pos += 4 * int(n)
		return int(n)
	}
	for level := 0; level < 2; level++ {
		n := numbers()
		mask := number()
		if pos < 0 || n == 0 || int(mask) != n-1 {
			return nil, -1
		}
		if n&(n-1) != 0 {
			f.open = true // not a power of 2
		}
	}
	m := &mtable{}
	if b[0] == 0 {
		number()
		m.size = numbers()
		return m, pos
	}
	n := number()
	if pos < 0 || uint64(n) > uint64(len(b)-pos) {
		return nil, -1
	}
	for i := 0; i < int(n); i++ {
		key, k := f.varchars(b[pos:])
		if k < 0 {
			return nil, -1
		}
		m.keys = append(m.keys, key)
		pos += k
	}
	m.size = int(n)
	return m, pos
}

type mnode struct {
	key    [][]byte
	value  *mval // nil: none, or empty
	broken bool
}

// nodes in the order they are visited
func (f *format) trie(b []byte) (nodes []mnode, n int) {
	pos := 0
	var node func(parent [][]byte, offset, depth int, seen map[string]bool) bool // false: it is the end of its siblings
	bad := false
	node = func(parent [][]byte, offset, depth int, seen map[string]bool) bool {
		at := pos
		is, k := f.unsigned(b[pos:])
		if k < 0 || len(b) == pos {
			bad = true
			return false
		}
		pos += k
		if is == 0 {
			return false
		}
		if is != 1 {
			f.open = true
		}
		sub, k := f.varchar(b[pos:])
		if k < 0 || (len(sub) == 0) != (depth == 0) || seen[string(sub)] {
			bad = true
			return false
		}
		seen[string(sub)] = true
		pos += k
		off, k := f.unsigned(b[pos:])
		if k < 0 || depth > 0 && off != uint64(offset) {
			bad = true
			return false
		}
		if off != uint64(offset) {
			f.open = true
		}
		pos += k
		v, k, broken := f.value(b[pos:])
		if k < 0 {
			bad = true
			return false
		}
		full := parent
		if depth > 0 {
			full = append(append([][]byte{}, parent...), sub)
		}
		m := mnode{key: full, value: v, broken: broken}
		if b[pos] == 0 {
			m.value = nil
		}
		nodes = append(nodes, m)
		pos += k
		size, k := f.unsigned(b[pos:])
		if k < 0 {
			bad = true
			return false
		}
		pos += k
		children := map[string]bool{}
		count := uint64(0)
		for node(full, at, depth+1, children) {
			count++
		}
		if count != size {
			bad = true
		}
		return !bad
	}
	if !node(nil, 0, 0, map[string]bool{}) || bad {
		return nil, -1
	}
	return nodes, pos
}

////////////////////////////////////////

// whether the verdict agrees, and there is something to compare
func (f *format) agrees(t *T, what string, b []byte, n int, err error, want int) bool {
	if want < 0 {
		t.Label("%s: refused", what)
		t.Check(err != nil, "%s is accepted as a %s, which it is not", hx(b), what)
	} else if f.open {
		t.Label("%s: left open", what)
	} else {
		t.Label("%s: accepted", what)
		t.Check(err == nil, "%s is a %s, but refused: %v", hx(b), what, err)
	}
	if err != nil || want < 0 {
		return false
	}
	t.Check(n == want, "%s is a %s of %d bytes, but %d are taken", hx(b), what, want, n)
	return true
}

var formats = []struct {
	name string
	f    func(t *T, b []byte) bool
}{
	{"varint", formatVarint},
	{"key", formatKey},
	{"value", formatValue},
	{"record", formatRecord},
	{"simple value", formatSimple},
	{"scheme", formatScheme},
	{"consensus", formatConsensus},
	{"hash table", formatTable},
	{"trie", formatTrie},
}

func formatVarint(t *T, b []byte) bool {
	if len(b) == 0 {
		return false
	}
	f := &format{}
	want, k := f.unsigned(b)
	f.open = false // numbers may be longer than needed
	u, n, err := util.DecodeUvarint64(b)
	ok := f.agrees(t, "number", b, n, err, k)
	if ok {
		t.Check(u == want, "%s is %d, but decoded as %d", hx(b[:k]), want, u)
	}
	i, n, err := util.DecodeVarint64(b)
	if f.agrees(t, "signed number", b, n, err, k) {
		signed := int64(want >> 1)
		if want&1 != 0 {
			signed = ^signed
		}
		t.Check(i == signed, "%s is %d, but decoded as %d", hx(b[:k]), signed, i)
	}
	s, k := f.varchar(b)
	f.open = false
	v, n, err := util.DecodeVarchar(b)
	if f.agrees(t, "byte string", b, n, err, k) {
		t.Check(string(v) == string(s), "%s is %s, but decoded as %s", hx(b[:k]), hx(s), hx(v))
	}
	return ok
}

func formatKey(t *T, b []byte) bool {
	if len(b) == 0 {
		return false // no bytes are an empty key
	}
	f := &format{}
	want, k := f.varchars(b)
	key, n, err := util.NewMappedKey(b)
	if !f.agrees(t, "key", b, n, err, k) {
		return false
	}
	r := &reader{t: t}
	m := r.key(key)
	t.Check(refCompareKeys(m, want) == 0, "%s is the key %s, but read as %s", hx(b), hxs(want), hxs(m))
	for i, s := range key.Key() {
		t.Check(string(s) == string(want[i]), "%s is the key %s, but sub key %d is %s", hx(b), hxs(want), i, hx(s))
	}
	return true
}

func formatValue(t *T, b []byte) bool {
	f := &format{budget: readBudget}
	want, k, broken := f.value(b)
	if k >= 0 {
		f.open = false // it is what is inside
	}
	v, n, err := util.NewStandardMappedValue(b)
	if !f.agrees(t, "value", b, n, err, k) {
		return false
	}
	sameContent(t, b, v, want, broken)
	return true
}

func sameContent(t *T, b []byte, v util.IValue, want *mval, broken bool) {
	g := &format{budget: readBudget}
	g.value(v.Buf())
	if g.open || g.budget <= 0 {
		return
	}
	r := &reader{t: t, budget: 1 << 30}
	m := r.value(v, "value")
	t.Check(r.broken == broken, "value in %s: has a malformed element: %v, but read with an error: %v", hx(b), broken, r.broken)
	if !broken {
		t.Check(sameValue(m, want), "value in %s: is %s, but read as %s", hx(b), want, m)
	} else {
		t.Label("malformed element")
	}
}

func formatRecord(t *T, b []byte) bool {
	f := &format{budget: readBudget}
	want, k, broken := f.record(b)
	rec, n, err := util.NewMappedRecord(b)
	if !f.agrees(t, "record", b, n, err, k) {
		return false
	}
	if f.open || f.budget <= 0 {
		return true
	}
	r := &reader{t: t, budget: 1 << 30}
	m := r.record(rec, "record")
	t.Check(r.broken == broken, "record %s: has a malformed element: %v, but read with an error: %v", hx(b), broken, r.broken)
	if !broken {
		t.Check(sameRecord(m, want), "record %s: is %s, but read as %s", hx(b), want, m)
	} else {
		t.Label("malformed element")
	}
	return true
}

func formatSimple(t *T, b []byte) bool {
	if len(b) == 0 {
		return false
	}
	f := &format{}
	want, k := f.varchar(b)
	f.open = false
	v, n, err := util.NewSimpleMappedValue(b)
	if !f.agrees(t, "simple value", b, n, err, k) {
		return false
	}
	t.Check(string(v.Value()) == string(want), "simple value %s: is %s, but read as %s", hx(b), hx(want), hx(v.Value()))
	return true
}

func formatScheme(t *T, b []byte) bool {
	f := &format{}
	want, k := f.scheme(b)
	s := util.NewMappedSchemd(b)
	n, err := s.Decode(nil)
	if !f.agrees(t, "scheme", b, n, err, k) {
		return false
	}
	checkScheme(t, "scheme "+hx(b), s, want)
	return true
}

func formatConsensus(t *T, b []byte) bool {
	f := &format{}
	want := -1
	if len(b) > 0 {
		switch {
		case b[0] == util.CONSENSUS_TIME_LEDGER && len(b) >= 5:
			want = 5
		case b[0] == util.CONSENSUS_TIME_RAFT && len(b) >= 13:
			want = 13
		}
	}
	tm, err := util.NewConsensusTime(b)
	if f.agrees(t, "consensus time", b, want, err, want) {
		t.Check(string(tm.Buf()) == string(b[:want]), "consensus time %s reads %s", hx(b), hx(tm.Buf()))
	}
	want = -1
	if len(b) > 0 && b[0] != 0 && b[0]&7 == 0 { // at least one component
		want = 1
		for bit := uint(4); bit < 8; bit++ {
			want += 32 * int(b[0]>>bit&1)
		}
		want += 64 * int(b[0]>>3&1)
		if want > len(b) {
			want = -1
		}
	}
	id, err := util.NewMappedConsensusID(b)
	if !f.agrees(t, "consensus id", b, want, err, want) {
		return false
	}
	t.Check(string(id.Buf()) == string(b[:want]), "consensus id %s holds %s", hx(b), hx(id.Buf()))
	return true
}

func formatTable(t *T, b []byte) bool {
	f := &format{}
	want, k := f.table(b)
	table, n, err := util.NewMPHTable(b)
	if !f.agrees(t, "hash table", b, n, err, k) {
		return false
	}
	for _, key := range want.keys {
		// it is one of the keys that is found, or none, but not another key
		mk, _, err := util.NewMappedKey(refKey(key))
		t.Check(err == nil, "key %s: %v", hxs(key), err)
		i, found := table.Lookup(mk)
		if found {
			t.Check(int(i) < len(want.keys) && refCompareKeys(want.keys[i], key) == 0, "hash table %s: key %s is found at %d, where %s is", hx(b), hxs(key), i, hxs(want.keys[int(i)%len(want.keys)]))
		}
	}
	enc, err := table.Encode()
	if !f.open {
		t.Check(err == nil && string(enc) == string(b[:k]), "hash table %s is encoded again as %s", hx(b[:k]), hx(enc))
	}
	return true
}

func formatTrie(t *T, b []byte) bool {
	f := &format{budget: readBudget}
	want, k := f.trie(b)
	mt, n, err := util.NewMappedTrie(b)
	if !f.agrees(t, "trie", b, n, err, k) {
		return false
	}
	if f.open || f.budget <= 0 {
		return true
	}
	for _, m := range want {
		v := mt.Get(buildKey(m.key))
		if m.value == nil {
			t.Check(collection.IsNil(v) || v.IsNil(), "trie %s: %s has no value, but one is read", hx(b), hxs(m.key))
			continue
		}
		t.Check(!collection.IsNil(v), "trie %s: the value of %s is not found", hx(b), hxs(m.key))
		sameContent(t, b, v, m.value, m.broken)
	}
	count := 0
	for iter := mt.Iterator(); iter.HasNext(); iter.Next() {
		count++
	}
	t.Check(count == len(want), "trie %s: has %d nodes, %d are visited", hx(b), len(want), count)
	return true
}

// bytes of a trie, by the reference encoder: children in any order, as any is
// decoded
func (t *T) TrieEncoding() []byte {
	out := []byte{}
	var node func(depth int, sub []byte, parent int)
	left := 25
	node = func(depth int, sub []byte, parent int) {
		left--
		at := len(out)
		out = append(append(append(out, 1), refVarchar(sub)...), refUvarint(uint64(parent))...)
		m := &mval{}
		if t.Bool() {
			m = t.ValueModel([]int{0, 0, 1, 2}[t.Int(0, 3)], 20)
		}
		v, ok := refValue(m)
		if !ok {
			t.Discard()
		}
		out = append(out, v...)
		subs := [][]byte{}
		seen := map[string]bool{}
		for i := 0; i < 6 && depth < 6 && left > 0 && t.More(1); i++ {
			s := t.SmallSubKey()
			if !seen[string(s)] {
				seen[string(s)] = true
				subs = append(subs, s)
			}
		}
		out = append(out, refUvarint(uint64(len(subs)))...)
		for _, s := range subs {
			node(depth+1, s, at)
		}
		out = append(out, 0)
	}
	node(0, nil, 0)
	return out
}

// encodings other than those that are written here: counts and lengths wider
// than needed, more content than elements, empty parts, parts at their limits

func (t *T) FreeValue(depth int) []byte {
	magic, head, content := byte(0), []byte{}, []byte{}
	number := func(n int, shift uint) {
		if n < 256 && t.Chance(2, 3) {
			magic |= 1 << shift
			head = append(head, byte(n))
		} else {
			magic |= 2 << shift
			head = append(head, byte(n>>8), byte(n))
		}
	}
	kind := 0
	if depth > 0 {
		kind = t.Int(0, 2)
	}
	if kind == 0 {
		content = t.Bytes(40, 0, 1)
	} else {
		n := t.Int(0, 4)
		for i := 0; i < n; i++ {
			if kind == 1 {
				content = append(content, t.FreeValue(depth-1)...)
			} else {
				content = append(content, t.FreeRecord(depth-1)...)
			}
		}
		if t.Chance(1, 5) {
			n += t.Int(-1, 2)
		}
		if t.Chance(1, 5) {
			content = append(content, t.BytesN(t.Int(1, 3))...)
		}
		if n < 0 {
			n = 0
		}
		number(n, []uint{0, 6, 4}[kind])
	}
	if len(content) > 0 || t.Chance(1, 3) {
		number(len(content), 0)
	}
	return append(append([]byte{magic}, head...), content...)
}

func (t *T) FreeRecord(depth int) []byte {
	out := []byte{0}
	sized := func(limit int) []byte { // a value at a limit
		n := limit - 3 + t.Int(-2, 3)
		return append([]byte{2, byte(n >> 8), byte(n)}, make([]byte, n)...)
	}
	if t.Bool() {
		out[0] |= 0x40
		if t.Chance(1, 30) {
			n := util.MAX_KEY_LENGTH + t.Int(-2, 2) - 3
			out = append(append(append(out, 1), refUvarint(uint64(n))...), make([]byte, n)...)
		} else {
			out = append(out, refKey(t.KeyModel())...)
		}
	}
	if t.Bool() {
		out[0] |= 0x20
		if t.Chance(1, 100) {
			out = append(out, sized(util.MAX_VALUE_LENGTH)...)
		} else {
			out = append(out, t.FreeValue(depth)...)
		}
	}
	if t.Bool() {
		out[0] |= 0x10
		if t.Chance(1, 20) {
			out = append(out, sized(util.MAX_SCHEME_LENGTH)...)
		} else {
			out = append(out, t.FreeValue(depth)...)
		}
	}
	if t.Bool() {
		out[0] |= 0x04
		out = append(out, t.BytesN(8)...)
		if t.Bool() {
			out[0] |= 0x02
			if t.Chance(3, 4) {
				out = append(out, t.BytesN(64)...)
			}
		}
	}
	return out
}

// another number at some place, in particular one that is the same in fewer bits
func (t *T) Renumber(b []byte) []byte {
	p := t.Int(0, len(b)-1)
	v, k := (&format{}).unsigned(b[p:])
	if k < 0 {
		return b
	}
	by := []uint64{1, 2, 1 << 7, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 63, ^uint64(0), ^uint64(0) - 1}[t.Int(0, 9)]
	t.Logf("number %d at %d becomes %d", v, p, v+by)
	return append(append(append([]byte{}, b[:p]...), refUvarint(v+by)...), b[p+k:]...)
}

func init() {
	register(&Prop{
		ID: "C37", Quick: 1500000, Thorough: 40000000,
		Rule: "A case is bytes: the encoding of a random key, value, record, scheme, consensus id or time, hash table or trie (by reference encoders, or in ways these do not use: wider numbers, more content than elements, parts at and beyond their limits), whole, with other bytes behind it, or with up to a dozen edits, or one number or magic bit changed, or random bytes, given to the decoder of its kind and another; verdict, length taken and content are compared with those of a reference decoder for the format; " +
			"non-trivial: it was edited and given to the decoder of its kind, or is random and accepted by some decoder.",
		Run: func(t *T) {
			var b []byte
			kind := ""
			edited := true
			switch t.Weighted(4, 12, 5, 3, 3) {
			case 3:
				kind, b = "value", t.FreeValue(3)
			case 4:
				kind, b = "record", t.FreeRecord(2)
			case 0:
				kind = "random"
				b = t.Bytes(100, 1, 5, 13, 33)
			case 1:
				kind, b = t.Encoding()
			case 2:
				kind, b = "trie", t.TrieEncoding()
			}
			if kind != "random" {
				edited = false
				if t.Chance(1, 3) {
					b = append(append([]byte{}, b...), t.Trailer()...)
				}
				if t.Chance(2, 3) {
					for i := 0; i < 3 && (i == 0 || t.Chance(1, 3)); i++ {
						var d string
						b, d = t.Mutate(b)
						t.Logf("edit%s", d)
						edited = true
					}
				} else if len(b) > 0 && t.Chance(1, 2) { // the bits of the magic
					k := byte(1 << uint(t.Int(0, 7)))
					b = append([]byte{b[0] ^ k}, b[1:]...)
					t.Logf("magic ^ %x", k)
					edited = true
				} else if len(b) > 0 && t.Chance(1, 3) {
					b = t.Renumber(b)
					edited = true
				}
			}
			t.Logf("%s: %s", kind, hx(b))
			t.Label("from %s", kind)
			ran := map[int]bool{}
			own := -1
			for i := range formats {
				if formats[i].name == kind || kind == "varchar" && formats[i].name == "varint" {
					ran[i] = true
					own = i
				}
			}
			if own < 0 || t.Chance(1, 3) {
				ran[t.Int(0, len(formats)-1)] = true
			}
			for i := range formats {
				if !ran[i] {
					continue
				}
				d := formats[i]
				ok := false
				if panicked, what := Panics(func() { ok = d.f(t, exact(b)) }); panicked {
					t.Failf("decoding %s as %s panics: %v", hx(b), d.name, what)
				}
				if edited && (ok || i == own) {
					t.NonTrivial()
				}
			}
		},
		Assume: []string{"where the format leaves a choice (reserved bits, numbers longer than needed inside a structure, table sizes that are no power of 2) acceptance is left open, and only what is accepted is compared"},
	})
}
