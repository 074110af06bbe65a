package main

import (
	"fmt"
	"math/big"
	"time"

	"../collection"
	"../util"
)

////////////////////////////////////////////////////////////////////////////////
// models of values and records

type mval struct {
	kind  int // 0 primitive, 1 array of values, 2 list of records
	data  []byte
	elems []*mval
	recs  []*mrec
}

type mrec struct {
	key    [][]byte // nil: none
	value  *mval    // nil: none
	scheme *mval    // nil: none
	ts     *int64
	r, s   *big.Int
}

func (m *mval) isNil() bool {
	return m == nil || len(m.data) == 0 && len(m.elems) == 0 && len(m.recs) == 0
}

func (m *mval) String() string {
	if m == nil {
		return "none"
	}
	switch m.kind {
	case 0:
		return hx(m.data)
	case 1:
		s := "values("
		for i, e := range m.elems {
			if i == 8 {
				return s + fmt.Sprintf("..%d)", len(m.elems))
			}
			s += e.String() + " "
		}
		return s + ")"
	}
	s := "records("
	for i, e := range m.recs {
		if i == 8 {
			return s + fmt.Sprintf("..%d)", len(m.recs))
		}
		s += e.String() + " "
	}
	return s + ")"
}

func (m *mrec) String() string {
	s := "rec<"
	if m.key != nil {
		s += "k=" + hxs(m.key) + " "
	}
	if m.value != nil {
		s += "v=" + m.value.String() + " "
	}
	if m.scheme != nil {
		s += "s=" + m.scheme.String() + " "
	}
	if m.ts != nil {
		s += fmt.Sprintf("t=%d ", *m.ts)
	}
	if m.r != nil {
		s += fmt.Sprintf("sig=%x,%x ", m.r, m.s)
	}
	return s + ">"
}

////////////////////////////////////////
// reference encoder: nil if it cannot be encoded

func refLen(magic byte, content []byte) (byte, []byte, bool) {
	n := len(content)
	switch {
	case n == 0:
		return magic, nil, true
	case n < 256:
		return magic | 1, append([]byte{byte(n)}, content...), true
	case n < 65536:
		return magic | 2, append([]byte{byte(n >> 8), byte(n)}, content...), true
	}
	return 0, nil, false
}

func refValue(m *mval) ([]byte, bool) {
	if m.kind == 0 {
		magic, rest, ok := refLen(0, m.data)
		return append([]byte{magic}, rest...), ok
	}
	content := []byte{}
	n, shift := len(m.elems), uint(6)
	if m.kind == 2 {
		n, shift = len(m.recs), 4
		for _, e := range m.recs {
			b, ok := refRecord(e)
			if !ok {
				return nil, false
			}
			content = append(content, b...)
		}
	} else {
		for _, e := range m.elems {
			b, ok := refValue(e)
			if !ok {
				return nil, false
			}
			content = append(content, b...)
		}
	}
	out := []byte{0}
	switch {
	case n == 0:
	case n < 256:
		out[0] |= 1 << shift
		out = append(out, byte(n))
	case n < 65536:
		out[0] |= 2 << shift
		out = append(out, byte(n>>8), byte(n))
	default:
		return nil, false
	}
	magic, rest, ok := refLen(out[0], content)
	out[0] = magic
	return append(out, rest...), ok
}

func fixed32(b *big.Int) []byte {
	out := make([]byte, 32)
	b.FillBytes(out)
	return out
}

func refRecord(m *mrec) ([]byte, bool) {
	out := []byte{0}
	if len(m.key) > 0 {
		out[0] |= 0x40
		b := refKey(m.key)
		if len(b) > util.MAX_KEY_LENGTH {
			return nil, false
		}
		out = append(out, b...)
	}
	if !m.value.isNil() {
		out[0] |= 0x20
		b, ok := refValue(m.value)
		if !ok || len(b) > util.MAX_VALUE_LENGTH {
			return nil, false
		}
		out = append(out, b...)
	}
	if !m.scheme.isNil() {
		out[0] |= 0x10
		b, ok := refValue(m.scheme)
		if !ok || len(b) > util.MAX_SCHEME_LENGTH {
			return nil, false
		}
		out = append(out, b...)
	}
	if m.ts != nil {
		out[0] |= 0x04
		out = append(out, collection.Int64ToByteArray(*m.ts)...)
		if m.r != nil {
			out[0] |= 0x02
			out = append(out, fixed32(m.r)...)
			out = append(out, fixed32(m.s)...)
		}
	}
	return out, true
}

////////////////////////////////////////
// generators

func (t *T) PrimModel(max int) *mval {
	if t.Chance(1, 8) {
		if t.Bool() {
			return &mval{data: nil}
		}
		return &mval{data: []byte{}}
	}
	return &mval{data: t.Bytes(max, 1, 127, 128, 255, 256, 257)}
}

// depth bounds nesting, budget the size in bytes, roughly
func (t *T) ValueModel(depth, budget int) *mval {
	if depth <= 0 || budget < 8 {
		if budget < 1 {
			budget = 1
		}
		return t.PrimModel(budget)
	}
	switch t.Weighted(4, 4, 2) {
	case 0:
		return t.PrimModel(budget)
	case 1:
		m := &mval{kind: 1}
		switch t.Weighted(10, 1, 1) {
		case 0:
			for i := 0; i < 12 && t.More(3); i++ {
				m.elems = append(m.elems, t.ValueModel(depth-1, budget/4))
			}
		case 1: // many, mostly alike
			n := []int{254, 255, 256, 257, 300}[t.Int(0, 4)]
			if t.Chance(1, 12) {
				n = t.Int(300, 6000)
			}
			few := []*mval{t.PrimModel(8), t.PrimModel(2), t.PrimModel(1)}
			r := &prng{s: t.Draw(1 << 10)}
			for i := 0; i < n; i++ {
				m.elems = append(m.elems, few[r.next()%3])
			}
		case 2: // fill up to a content length
			target := []int{254, 255, 256, 257}[t.Int(0, 3)]
			left := target
			for left > 0 {
				n := left - 2
				if n > 255 {
					n = 100
				}
				if n >= 1 && t.Bool() && n > 3 {
					n = n / 2
				}
				if n < 1 {
					m.elems = append(m.elems, &mval{})
					left -= 1
					continue
				}
				m.elems = append(m.elems, &mval{data: t.BytesN(n)})
				left -= n + 2
			}
		}
		return m
	default:
		m := &mval{kind: 2}
		if t.Chance(1, 15) {
			n := []int{255, 256, 257}[t.Int(0, 2)]
			if t.Chance(1, 12) {
				n = t.Int(300, 3000)
			}
			few := []*mrec{t.RecordModel(0, 6), t.RecordModel(0, 6)}
			r := &prng{s: t.Draw(1 << 10)}
			for i := 0; i < n; i++ {
				m.recs = append(m.recs, few[r.next()%2])
			}
			return m
		}
		for i := 0; i < 6 && t.More(2); i++ {
			m.recs = append(m.recs, t.RecordModel(depth-1, budget/4))
		}
		return m
	}
}

func (t *T) BigInt256() *big.Int {
	switch t.Weighted(2, 1, 1, 1) {
	case 0:
		return new(big.Int).SetBytes(t.BytesN(32))
	case 1:
		return new(big.Int).SetBytes(t.BytesN(t.Int(0, 31)))
	case 2:
		return big.NewInt(int64(t.Draw(3)))
	}
	m := new(big.Int).Lsh(big.NewInt(1), 256)
	return m.Sub(m, big.NewInt(1+int64(t.Draw(2))))
}

func (t *T) RecordModel(depth, budget int) *mrec {
	m := &mrec{}
	if t.Chance(3, 4) {
		if budget < 16 {
			m.key = [][]byte{t.SmallSubKey()}
		} else {
			m.key = t.KeyModel()
			for total := 0; ; total = 0 { // within what the budget allows
				for _, s := range m.key {
					total += len(s) + 1
				}
				if total <= budget+8 || len(m.key) == 0 {
					break
				}
				m.key = m.key[:len(m.key)/2]
			}
			if m.key == nil || len(m.key) == 0 {
				m.key = nil
			}
		}
	}
	if t.Chance(3, 4) {
		m.value = t.ValueModel(depth, budget)
	}
	if t.Chance(1, 3) {
		b := budget
		if b > 200 {
			b = 200
		}
		m.scheme = t.ValueModel(depth-1, b)
	}
	if t.Bool() {
		ts := t.Int64()
		m.ts = &ts
		if t.Bool() {
			m.r, m.s = t.BigInt256(), t.BigInt256()
		}
	}
	return m
}

////////////////////////////////////////
// construction by the API

func buildValue(m *mval) util.IValue {
	switch m.kind {
	case 0:
		return util.NewPrimitive(exact(m.data))
	case 1:
		a := util.NewValueArray()
		for _, e := range m.elems {
			a.Append(buildValue(e))
		}
		return a
	}
	l := util.NewRecordList()
	for _, e := range m.recs {
		l.Append(buildRecord(e))
	}
	return l
}

func buildRecord(m *mrec) *util.Record {
	r := util.NewRecord()
	fillRecord(r, m)
	return r
}

func fillRecord(r *util.Record, m *mrec) {
	if m.key != nil {
		if len(m.key) == 1 && len(m.key[0])%2 == 0 {
			r.SetK(exact(m.key[0]))
		} else {
			key := buildKey(m.key)
			if b := refKey(m.key); b[len(b)-1]%3 == 0 {
				key.Encode(nil) // may be too long
			}
			r.SetKey(key)
		}
	}
	if m.value != nil {
		if m.value.kind == 0 && len(m.value.data)%2 == 0 {
			r.SetV(exact(m.value.data))
		} else {
			r.SetValue(buildValue(m.value))
		}
	}
	if m.scheme != nil {
		if m.scheme.kind == 0 && len(m.scheme.data)%2 == 0 {
			r.SetS(exact(m.scheme.data))
		} else {
			r.SetScheme(buildValue(m.scheme))
		}
	}
	if m.ts != nil {
		tm := time.Unix(0, *m.ts)
		r.SetTimestamp(&tm)
	}
	if m.r != nil {
		r.SetSignature(new(big.Int).Set(m.r), new(big.Int).Set(m.s))
	}
}

////////////////////////////////////////
// comparison through the accessors. mapped: it was decoded, where what is
// empty is nil

func checkValue(t *T, what string, v util.IValue, m *mval, mapped bool, order *prng) {
	t.Check(!collection.IsNil(v), "%s: there is no value, should be %s", what, m)
	t.Check(v.IsNil() == m.isNil(), "%s: is nil is %v, should be %s", what, v.IsNil(), m)
	if m.isNil() {
		t.Check(v.IsPrimitive(), "%s: is nil, but not primitive", what)
		switch v.(type) {
		case *util.StandardMappedValue, *util.SimpleMappedValue:
			t.Check(!v.IsValueArray() && !v.IsRecordList(), "%s: is nil, but value array %v, record list %v", what, v.IsValueArray(), v.IsRecordList())
		}
		t.Check(len(v.Value()) == 0 && v.Size() == 0, "%s: should be nil, but has content %s, size %d", what, hx(v.Value()), v.Size())
		return
	}
	t.Check(v.IsPrimitive() == (m.kind == 0) && v.IsValueArray() == (m.kind == 1) && v.IsRecordList() == (m.kind == 2),
		"%s: is primitive %v, value array %v, record list %v, should be %s", what, v.IsPrimitive(), v.IsValueArray(), v.IsRecordList(), m)
	switch m.kind {
	case 0:
		t.Check(string(v.Value()) == string(m.data), "%s: is %s, should be %s", what, hx(v.Value()), m)
		t.Check(v.Size() == 0, "%s: primitive has size %d", what, v.Size())
		_, err := v.ValueAt(0)
		t.Check(err != nil, "%s: primitive has a value element", what)
		_, err = v.RecordAt(0)
		t.Check(err != nil, "%s: primitive has a record element", what)
	case 1:
		t.Check(int(v.Size()) == len(m.elems), "%s: has %d values, should be %s", what, v.Size(), m)
		_, err := v.ValueAt(uint16(len(m.elems)))
		t.Check(err != nil, "%s: there is a value beyond the last of %d", what, len(m.elems))
		_, err = v.RecordAt(0)
		t.Check(err != nil, "%s: array of values has a record element", what)
		for _, i := range visit(len(m.elems), order) {
			e, err := v.ValueAt(uint16(i))
			t.Check(err == nil, "%s: value at %d of %d: %v", what, i, len(m.elems), err)
			checkValue(t, fmt.Sprintf("%s[%d]", what, i), e, m.elems[i], mapped, order)
		}
		t.Check(len(v.Value()) == 0, "%s: array of values has primitive content", what)
	case 2:
		t.Check(int(v.Size()) == len(m.recs), "%s: has %d records, should be %s", what, v.Size(), m)
		_, err := v.RecordAt(uint16(len(m.recs)))
		t.Check(err != nil, "%s: there is a record beyond the last of %d", what, len(m.recs))
		_, err = v.ValueAt(0)
		t.Check(err != nil, "%s: list of records has a value element", what)
		for _, i := range visit(len(m.recs), order) {
			e, err := v.RecordAt(uint16(i))
			t.Check(err == nil, "%s: record at %d of %d: %v", what, i, len(m.recs), err)
			checkRecord(t, fmt.Sprintf("%s[%d]", what, i), e, m.recs[i], mapped, order)
		}
		t.Check(len(v.Value()) == 0, "%s: list of records has primitive content", what)
	}
}

// order in which elements are looked at: any, with some twice
func visit(n int, order *prng) []int {
	idx := []int{}
	for i := 0; i < n; i++ {
		idx = append(idx, i)
	}
	if order == nil {
		return idx
	}
	for i := n - 1; i > 0; i-- {
		j := int(order.next() % uint64(i+1))
		idx[i], idx[j] = idx[j], idx[i]
	}
	if n > 0 {
		idx = append(idx, idx[order.next()%uint64(n)])
	}
	return idx
}

func checkRecord(t *T, what string, r util.IRecord, m *mrec, mapped bool, order *prng) {
	t.Check(!collection.IsNil(r), "%s: there is no record", what)
	if len(m.key) == 0 {
		t.Check(collection.IsNil(r.Key()) || r.Key().IsEmpty(), "%s: has a key, should have none", what)
	} else {
		t.Check(!collection.IsNil(r.Key()), "%s: has no key, should be %s", what, hxs(m.key))
		checkKey(t, what+".key", r.Key(), m.key)
	}
	if m.value.isNil() {
		t.Check(collection.IsNil(r.Value()) || r.Value().IsNil(), "%s: has a value, should have none", what)
	} else {
		checkValue(t, what+".value", r.Value(), m.value, mapped, order)
	}
	if m.scheme.isNil() {
		t.Check(collection.IsNil(r.Scheme()) || r.Scheme().IsNil(), "%s: has a scheme, should have none", what)
	} else {
		checkValue(t, what+".scheme", r.Scheme(), m.scheme, mapped, order)
	}
	if m.ts == nil {
		t.Check(r.Timestamp() == nil, "%s: has timestamp %v, should have none", what, r.Timestamp())
	} else {
		t.Check(r.Timestamp() != nil && r.Timestamp().UnixNano() == *m.ts, "%s: timestamp is %v, should be %v", what, r.Timestamp(), time.Unix(0, *m.ts))
	}
	R, S := r.Signature()
	if m.r == nil {
		t.Check(R == nil && S == nil, "%s: has signature %v %v, should have none", what, R, S)
	} else {
		t.Check(R != nil && S != nil && R.Cmp(m.r) == 0 && S.Cmp(m.s) == 0, "%s: signature is %x %x, should be %x %x", what, R, S, m.r, m.s)
	}
}

// what remains of a model once it is encoded
func (m *mrec) short() string {
	s := m.String()
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func (m *mval) short() string {
	s := m.String()
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

////////////////////////////////////////////////////////////////////////////////

// a value goes through encode, decode, copy and encode
func valueRoundTrip(t *T, v util.IValue, m *mval) {
	want, ok := refValue(m)
	err := v.Encode(nil)
	if !ok {
		t.Label("too long")
		t.Check(err != nil, "a value that is too long is encoded in %d bytes", safeLen(v))
		return
	}
	t.Check(err == nil, "value %s: encode fails: %v", m.short(), err)
	t.Check(v.IsEncoded(), "value %s: not encoded after encode", m.short())
	b := v.Buf()
	t.Check(string(b) == string(want), "value %s is encoded as %s, should be %s", m.short(), hx(b), hx(want))
	t.Check(v.ValueMagic() == want[0], "value %s has magic %x, should be %x", m.short(), v.ValueMagic(), want[0])
	trail := t.Trailer()
	order := &prng{s: t.Draw(1 << 16)}
	mv, n, err := util.NewStandardMappedValue(t.Within(append(exact(b), trail...), "what is decoded"))
	t.Check(err == nil, "value %s: decode fails: %v", m.short(), err)
	t.Check(n == len(b), "value %s: decode takes %d bytes of %d", m.short(), n, len(b))
	t.Check(string(mv.Buf()) == string(b), "value %s: decoded value holds %s, should be %s", m.short(), hx(mv.Buf()), hx(b))
	t.Check(mv.IsDecoded() && mv.IsEncoded() && mv.ValueMagic() == want[0], "value %s: decoded %v, encoded %v, magic %x after decode", m.short(), mv.IsDecoded(), mv.IsEncoded(), mv.ValueMagic())
	checkValue(t, "decoded value", mv, m, true, order)
	c := mv.Copy().(util.IValue)
	checkValue(t, "copy of decoded value", c, m, true, order)
	t.Check(string(c.Buf()) == string(b), "copy of decoded value %s holds %s", m.short(), hx(c.Buf()))
	cc, err := mv.CopyConstruct()
	t.Check(err == nil, "value %s: copy construct of decoded value: %v", m.short(), err)
	checkValue(t, "constructed copy of decoded value", cc.(util.IValue), m, true, nil)
	again := mustEncode(t, "constructed copy of decoded value", cc)
	t.Check(string(again) == string(b), "value %s: decoded, copied and encoded again it is %s, should be %s", m.short(), hx(again), hx(b))
	for i := 0; i < 6; i++ {
		cut := len(b) - 1 - i
		if i >= 2 {
			cut = t.Int(0, len(b)-1)
		}
		if cut < 0 {
			break
		}
		_, n, err := util.NewStandardMappedValue(exact(b[:cut]))
		t.Check(err != nil, "value %s: %d of %d bytes are decoded, length %d", m.short(), cut, len(b), n)
	}
}

// arrays within arrays and lists, changed and encoded at any level in any
// order: what the outermost is encoded to is what is in it at that time
func nestedHistory(t *T) {
	type node struct {
		m *mval
		a *util.ValueArray
		l *util.RecordList
		r []*util.Record // those in l
	}
	root := &node{m: &mval{kind: 1}, a: util.NewValueArray()}
	if t.Chance(1, 3) {
		root = &node{m: &mval{kind: 2}, l: util.NewRecordList()}
	}
	val := func(n *node) util.IValue {
		if n.a != nil {
			return n.a
		}
		return n.l
	}
	nodes, depth := []*node{root}, map[*node]int{}
	for i := 0; i < 40 && t.More(12); i++ {
		k := t.Int(0, len(nodes)-1)
		n := nodes[k]
		switch t.Weighted(4, 3, 2, 3, 1) {
		case 0: // a leaf
			e := t.PrimModel(20)
			t.Logf("node %d: append %s", k, e)
			if n.a != nil {
				n.m.elems = append(n.m.elems, e)
				n.a.Append(buildValue(e))
			} else {
				r := &mrec{value: e}
				n.m.recs = append(n.m.recs, r)
				n.r = append(n.r, buildRecord(r))
				n.l.Append(n.r[len(n.r)-1])
			}
		case 1: // another array or list
			if depth[n] >= 6 {
				continue
			}
			c := &node{m: &mval{kind: 1}, a: util.NewValueArray()}
			if t.Chance(1, 3) {
				c = &node{m: &mval{kind: 2}, l: util.NewRecordList()}
			}
			depth[c] = depth[n] + 1
			nodes = append(nodes, c)
			t.Logf("node %d: append node %d, of kind %d", k, len(nodes)-1, c.m.kind)
			if n.a != nil {
				n.m.elems = append(n.m.elems, c.m)
				n.a.Append(val(c))
			} else {
				r := &mrec{key: [][]byte{{'k'}}, value: c.m}
				n.m.recs = append(n.m.recs, r)
				u := util.NewRecord().SetK([]byte{'k'}).SetValue(val(c))
				n.r = append(n.r, u)
				n.l.Append(u)
			}
			t.Label("nested, depth %d", depth[c])
		case 2:
			if len(n.m.elems) > 0 {
				x := t.Int(0, len(n.m.elems)-1)
				t.Logf("node %d: delete at %d", k, x)
				n.m.elems = append(append([]*mval{}, n.m.elems[:x]...), n.m.elems[x+1:]...)
				n.a.DeleteAt(uint16(x))
			} else if len(n.m.recs) > 0 {
				x := t.Int(0, len(n.m.recs)-1)
				t.Logf("node %d: delete at %d", k, x)
				n.m.recs = append(append([]*mrec{}, n.m.recs[:x]...), n.m.recs[x+1:]...)
				n.r = append(append([]*util.Record{}, n.r[:x]...), n.r[x+1:]...)
				n.l.DeleteAt(uint16(x))
			}
		case 3:
			t.Logf("node %d: encode", k)
			want, ok := refValue(n.m)
			err := val(n).Encode(nil)
			t.Check((err == nil) == ok, "node %d: encode error %v", k, err)
			if ok {
				t.Check(string(val(n).Buf()) == string(want), "node %d is encoded as %s, should be %s", k, hx(val(n).Buf()), hx(want))
			}
			t.NonTrivial()
		case 4: // a record in a list is given another value
			if len(n.r) > 0 {
				x := t.Int(0, len(n.r)-1)
				c := *n.m.recs[x]
				c.value = t.PrimModel(20)
				t.Logf("node %d: record %d has value %s", k, x, c.value)
				n.m.recs[x] = &c
				n.r[x].SetValue(buildValue(c.value))
				want, _ := refRecord(&c)
				t.NotStale(fmt.Sprintf("record %d of node %d", x, k), n.r[x], want)
			}
		}
	}
	t.Logf("encode the outermost")
	checkValue(t, "outermost", val(root), root.m, false, nil)
	valueRoundTrip(t, val(root), root.m)
}

// as many elements as there can be, each of a single byte
func manyElements(t *T) {
	n := t.Int(65533, 65537)
	m := &mval{kind: t.Int(1, 2)}
	t.Logf("%d elements of kind %d", n, m.kind)
	t.Label("%d elements", n)
	t.NonTrivial()
	prim, rec := &mval{}, &mrec{}
	for i := 0; i < n; i++ {
		if m.kind == 1 {
			m.elems = append(m.elems, prim)
		} else {
			m.recs = append(m.recs, rec)
		}
	}
	want, ok := refValue(m)
	v := buildValue(m)
	err := v.Encode(nil)
	t.Check((err == nil) == ok, "%d elements: encode: %v", n, err)
	if !ok {
		return
	}
	b := v.Buf()
	t.Check(string(b) == string(want), "%d elements: encoded as %s, should be %s", n, hx(b), hx(want))
	d, used, err := util.NewStandardMappedValue(exact(b))
	t.Check(err == nil && used == len(b), "%d elements: decode takes %d of %d bytes, error %v", n, used, len(b), err)
	t.Check(int(d.Size()) == n && d.IsValueArray() == (m.kind == 1) && d.IsRecordList() == (m.kind == 2), "%d elements are decoded as %d", n, d.Size())
	for _, i := range []int{0, 255, 256, t.Int(0, n-1), n - 1} {
		if m.kind == 1 {
			e, err := d.ValueAt(uint16(i))
			t.Check(err == nil && e.IsNil(), "element %d of %d: %v", i, n, err)
		} else {
			e, err := d.RecordAt(uint16(i))
			t.Check(err == nil && e.Key() == nil && e.Value() == nil, "record %d of %d: %v", i, n, err)
		}
	}
}

func safeLen(e util.IEncodable) (n int) {
	n = -1
	Panics(func() { n = len(e.Buf()) })
	return n
}

func depthOf(m *mval) int {
	d := 0
	if m == nil {
		return 0
	}
	for _, e := range m.elems {
		if x := 1 + depthOf(e); x > d {
			d = x
		}
	}
	for _, e := range m.recs {
		if x := 1 + depthOf(e.value); x > d {
			d = x
		}
		if x := 1 + depthOf(e.scheme); x > d {
			d = x
		}
	}
	return d
}

func init() {
	register(&Prop{
		ID: "C13", Quick: 80000, Thorough: 8000000,
		Rule: "A case is a value model (primitive, array of values, list of records, nested; lengths and counts around 255/256/65535) or a history on one array or on nested ones of append and delete with encodings in between; encoded, compared with a reference encoder, decoded with something behind it, walked in random order, copied and encoded again, strict prefixes refused; " +
			"non-trivial: nested, or more than 255 bytes, or a history with a delete.",
		Run: func(t *T) {
			t.keepEncoded = true
			if t.Chance(1, 4000) {
				manyElements(t)
				return
			}
			switch t.Weighted(8, 4, 1, 1, 3) {
			case 4:
				nestedHistory(t)
			case 0:
				m := t.ValueModel(3, 600)
				t.Logf("value %s", m)
				v := buildValue(m)
				checkValue(t, "constructed value", v, m, false, nil)
				valueRoundTrip(t, v, m)
				checkValue(t, "constructed value after encode", v, m, false, nil)
				d := depthOf(m)
				t.Label("depth %d", d)
				if d >= 1 || len(m.data) > 255 {
					t.NonTrivial()
				}
			case 1: // a history on an array of values or a list of records
				if t.Bool() {
					m := &mval{kind: 1}
					a := util.NewValueArray()
					for i := 0; i < 30 && t.More(8); i++ {
						switch t.Weighted(5, 3, 3) {
						case 0:
							e := t.ValueModel(1, 60)
							t.Logf("append %s", e)
							m.elems = append(m.elems, e)
							t.Check(a.Append(buildValue(e)) == a, "append returns something else")
						case 1:
							if len(m.elems) > 0 {
								k := t.Int(0, len(m.elems)-1)
								t.Logf("delete at %d of %d", k, len(m.elems))
								m.elems = append(append([]*mval{}, m.elems[:k]...), m.elems[k+1:]...)
								a.DeleteAt(uint16(k))
								t.NonTrivial()
								t.Label("delete")
							}
						case 2:
							t.Logf("encode")
							valueRoundTrip(t, a, m)
							t.Label("encode between")
						}
						checkValue(t, "array under construction", a, m, false, nil)
						want, _ := refValue(m)
						t.NotStale("array", a, want)
					}
					valueRoundTrip(t, a, m)
				} else {
					m := &mval{kind: 2}
					a := util.NewRecordList()
					for i := 0; i < 30 && t.More(8); i++ {
						switch t.Weighted(5, 3, 3) {
						case 0:
							e := t.RecordModel(1, 60)
							t.Logf("append %s", e)
							m.recs = append(m.recs, e)
							t.Check(a.Append(buildRecord(e)) == a, "append returns something else")
						case 1:
							if len(m.recs) > 0 {
								k := t.Int(0, len(m.recs)-1)
								t.Logf("delete at %d of %d", k, len(m.recs))
								m.recs = append(append([]*mrec{}, m.recs[:k]...), m.recs[k+1:]...)
								a.DeleteAt(uint16(k))
								t.NonTrivial()
								t.Label("delete")
							}
						case 2:
							t.Logf("encode")
							valueRoundTrip(t, a, m)
							t.Label("encode between")
						}
						checkValue(t, "list under construction", a, m, false, nil)
						want, _ := refValue(m)
						t.NotStale("list", a, want)
					}
					valueRoundTrip(t, a, m)
				}
			case 2: // large ones
				m := &mval{}
				switch t.Int(0, 4) {
				case 4: // many elements, and content around the limit
					m.kind = 1 + t.Int(0, 1)
					n := []int{200, 255, 256, 257, 300, 500}[t.Int(0, 5)]
					total := 65535 - 4 + t.Int(0, 8)
					if t.Chance(1, 4) {
						total += 10 + t.Int(0, 70000)
					}
					// the last element makes up for what is missing
					each := 100 + t.Int(0, 20)
					for left := total; left > 0; {
						head := 2*m.kind - 1 + 1 // bytes around the content, if short
						l := each
						if len(m.elems)+len(m.recs) == n-1 || left-head <= each {
							l = left - head
							if l > 255 {
								l -= 1
							}
						}
						e := &mval{data: t.BytesN(0)}
						if l > 0 {
							e.data = make([]byte, l)
							e.data[0], e.data[l-1] = byte(l), byte(t.Draw(3))
						}
						if m.kind == 1 {
							m.elems = append(m.elems, e)
						} else {
							m.recs = append(m.recs, &mrec{value: e})
						}
						left -= l + head
						if len(m.elems)+len(m.recs) >= n {
							break
						}
					}
				case 0:
					m.data = t.BytesN([]int{65533, 65534, 65535, 65536, 65537, 70000, 131072 + 5}[t.Int(0, 6)])
				case 1: // content around the limit
					m.kind = 1
					n := []int{65526, 65527, 65528, 65529, 65530, 65531, 65540}[t.Int(0, 6)]
					half := n / 2
					m.elems = []*mval{{data: t.BytesN(half)}, {data: t.BytesN(n - half)}}
				case 2:
					m.kind = 2
					n := 65520 + t.Int(0, 14)
					m.recs = []*mrec{{value: &mval{data: t.BytesN(n / 2)}}, {key: [][]byte{{'k'}}, value: &mval{data: t.BytesN(n - n/2)}}}
				case 3: // many elements
					m.kind = 1
					n := []int{1000, 3000, 256, 65535, 65536}[t.Weighted(6, 6, 6, 1, 1)]
					for i := 0; i < n; i++ {
						m.elems = append(m.elems, &mval{})
					}
					if n == 65535 || n == 65536 {
						t.Label("%d elements", n)
						v := buildValue(m)
						want, ok := refValue(m)
						err := v.Encode(nil)
						t.Check((err == nil) == ok, "an array of %d values: encode error %v", n, err)
						if ok {
							t.Check(string(v.Buf()) == string(want), "an array of %d values is encoded wrongly", n)
							mv, _, err := util.NewStandardMappedValue(v.Buf())
							t.Check(err == nil && int(mv.Size()) == n, "an array of %d values: decode error %v", n, err)
							last, err := mv.ValueAt(uint16(n - 1))
							t.Check(err == nil && last.IsNil(), "an array of %d values: last: %v", n, err)
						}
						t.NonTrivial()
						return
					}
				}
				t.Logf("large value %s", m)
				t.Label("large")
				t.NonTrivial()
				valueRoundTrip(t, buildValue(m), m)
			case 3: // the simple mapped value: a length and bytes
				data := t.Bytes(70000, 0, 127, 128, 255, 256, 16383, 16384)
				trail := t.Trailer()
				t.Logf("simple value %s", hx(data))
				t.Label("simple")
				b := util.EncodeVarchar(data)
				sv, n, err := util.NewSimpleMappedValue(t.Within(append(exact(b), trail...), "what is decoded"))
				t.Check(err == nil && n == len(b), "simple value %s: length %d, should be %d, error %v", hx(data), n, len(b), err)
				m := &mval{data: data}
				checkValue(t, "simple value", sv, m, true, nil)
				t.Check(string(sv.Buf()) == string(b), "simple value %s holds %s, should be %s", hx(data), hx(sv.Buf()), hx(b))
				checkValue(t, "copy of simple value", sv.Copy().(util.IValue), m, true, nil)
				cc, err := sv.CopyConstruct()
				t.Check(err == nil, "copy construct of simple value: %v", err)
				checkValue(t, "constructed copy of simple value", cc.(util.IValue), m, true, nil)
				if len(data) > 127 {
					t.NonTrivial()
				}
			}
		},
	})

	register(&Prop{
		ID: "C14", Quick: 150000, Thorough: 8000000,
		Rule: "A case is a record model (key, value, scheme, timestamp, signature, each there or not; sizes around the limits), set in one or several rounds with encodings in between; encoded, compared with a reference encoder, decoded with something behind it, copied and encoded again, strict prefixes refused; " +
			"non-trivial: at least two parts are there.",
		Run: func(t *T) {
			t.keepEncoded = true
			m := t.RecordModel(2, 400)
			r := util.NewRecord()
			if t.Chance(1, 4) { // what it was before does not matter
				first := t.RecordModel(1, 60)
				t.Logf("first %s", first)
				fillRecord(r, first)
				if t.Bool() {
					if err := r.Encode(nil); err == nil {
						want, _ := refRecord(first)
						t.Check(string(r.Buf()) == string(want), "record %s is encoded as %s, should be %s", first.short(), hx(r.Buf()), hx(want))
					}
				}
				// what the second round does not set remains
				c := *m
				if c.key == nil {
					c.key = first.key
				}
				if c.value == nil {
					c.value = first.value
				}
				if c.scheme == nil {
					c.scheme = first.scheme
				}
				if c.ts == nil {
					c.ts = first.ts
				}
				if c.r == nil {
					c.r, c.s = first.r, first.s
				}
				fillRecord(r, m)
				m = &c
				want, _ := refRecord(m)
				t.NotStale("record", r, want)
				t.Label("set twice")
			} else {
				if t.Chance(1, 12) { // around the limits
					switch t.Int(0, 2) {
					case 0:
						m.key = [][]byte{t.BytesN(util.MAX_KEY_LENGTH - 6 + t.Int(0, 8))}
					case 1:
						m.value = &mval{data: t.BytesN(util.MAX_VALUE_LENGTH - 6 + t.Int(0, 8))}
					case 2:
						m.scheme = &mval{data: t.BytesN(util.MAX_SCHEME_LENGTH - 6 + t.Int(0, 8))}
					}
					t.Label("near a limit")
				}
				fillRecord(r, m)
			}
			t.Logf("record %s", m)
			checkRecord(t, "constructed record", r, m, false, nil)
			want, ok := refRecord(m)
			err := r.Encode(nil)
			if !ok {
				t.Label("too long")
				t.NonTrivial()
				t.Check(err != nil, "record %s: something too long is encoded", m.short())
				return
			}
			t.Check(err == nil, "record %s: encode fails: %v", m.short(), err)
			b := r.Buf()
			t.Check(string(b) == string(want), "record %s is encoded as %s, should be %s", m.short(), hx(b), hx(want))
			t.Check(r.IsEncoded() && r.RecordMagic() == want[0], "record %s: magic is %x, should be %x", m.short(), r.RecordMagic(), want[0])
			trail := t.Trailer()
			order := &prng{s: t.Draw(1 << 16)}
			mr, n, err := util.NewMappedRecord(t.Within(append(exact(b), trail...), "what is decoded"))
			t.Check(err == nil, "record %s: decode fails: %v", m.short(), err)
			t.Check(n == len(b), "record %s: decode takes %d bytes of %d", m.short(), n, len(b))
			t.Check(string(mr.Buf()) == string(b), "record %s: decoded record holds %s, should be %s", m.short(), hx(mr.Buf()), hx(b))
			t.Check(mr.IsDecoded() && mr.RecordMagic() == want[0], "record %s: magic of decoded record is %x", m.short(), mr.RecordMagic())
			checkRecord(t, "decoded record", mr, m, true, order)
			checkRecord(t, "copy of decoded record", mr.Copy().(util.IRecord), m, true, order)
			cc, err := mr.CopyConstruct()
			t.Check(err == nil, "record %s: copy construct of decoded record: %v", m.short(), err)
			checkRecord(t, "constructed copy of decoded record", cc.(util.IRecord), m, true, nil)
			again := mustEncode(t, "constructed copy of decoded record", cc)
			t.Check(string(again) == string(b), "record %s: decoded, copied and encoded again it is %s, should be %s", m.short(), hx(again), hx(b))
			checkRecord(t, "copy of record", r.Copy().(util.IRecord), m, false, nil)
			// prefixes: all refused, but within the signature, which is optional
			sigAt := len(b)
			if want[0]&0x02 != 0 {
				sigAt -= 64
			}
			for i := 0; i < 8; i++ {
				cut := sigAt - 1 - i
				if i >= 4 {
					cut = t.Int(0, len(b)-1)
				}
				if cut < 0 {
					continue
				}
				pr, n, err := util.NewMappedRecord(exact(b[:cut]))
				if cut < sigAt {
					t.Check(err != nil, "record %s: %d of %d bytes are decoded, length %d", m.short(), cut, len(b), n)
				} else if err == nil {
					R, S := pr.Signature()
					t.Check(R == nil && S == nil && n <= cut, "record %s: %d of %d bytes, a part of the signature, are decoded as one, length %d", m.short(), cut, len(b), n)
				}
			}
			parts := 0
			for k := uint(1); k < 7; k++ {
				if want[0]>>k&1 != 0 {
					parts += 1
					t.Label("part %d", k)
				}
			}
			if parts >= 2 {
				t.NonTrivial()
			}
		},
		Assume: []string{"a signed record has a timestamp, and both parts of a signature fit 32 bytes", "sub keys are not empty"},
	})
}
