package main

import (
	"fmt"

	"../collection"
	"../util"
)

// what is read from bytes of any origin: models are built from what the
// accessors return, within a budget

type reader struct {
	t      *T
	budget int
	broken bool // some element is malformed
}

func (r *reader) value(v util.IValue, what string) *mval {
	t := r.t
	r.budget--
	v.IsNil()
	v.ValueMagic()
	m := &mval{}
	kinds := 0
	for i, is := range []bool{v.IsPrimitive(), v.IsValueArray(), v.IsRecordList()} {
		if is {
			m.kind = i
			kinds++
		}
	}
	t.Check(kinds == 1, "%s: primitive %v, array %v, list %v", what, v.IsPrimitive(), v.IsValueArray(), v.IsRecordList())
	n := int(v.Size())
	switch m.kind {
	case 0:
		m.data = v.Value()
		_, err := v.ValueAt(0)
		t.Check(err != nil, "%s: primitive has a value element", what)
		_, err = v.RecordAt(0)
		t.Check(err != nil, "%s: primitive has a record element", what)
	case 1:
		_, err := v.ValueAt(uint16(n))
		t.Check(err != nil, "%s: there is a value beyond the last of %d", what, n)
		for i := 0; i < n; i++ {
			if r.budget <= 0 {
				return m
			}
			e, err := v.ValueAt(uint16(i))
			if err != nil {
				r.broken = true
				_, err := v.ValueAt(uint16(i))
				t.Check(err != nil, "%s: value at %d is malformed, but not the second time", what, i)
				return m
			}
			t.Check(!collection.IsNil(e), "%s: value at %d is nil without an error", what, i)
			m.elems = append(m.elems, r.value(e, what+".v"))
		}
	case 2:
		_, err := v.RecordAt(uint16(n))
		t.Check(err != nil, "%s: there is a record beyond the last of %d", what, n)
		for i := 0; i < n; i++ {
			if r.budget <= 0 {
				return m
			}
			e, err := v.RecordAt(uint16(i))
			if err != nil {
				r.broken = true
				_, err := v.RecordAt(uint16(i))
				t.Check(err != nil, "%s: record at %d is malformed, but not the second time", what, i)
				return m
			}
			t.Check(!collection.IsNil(e), "%s: record at %d is nil without an error", what, i)
			m.recs = append(m.recs, r.record(e, what+".r"))
		}
	}
	return m
}

func (r *reader) key(k util.IKey) [][]byte {
	out := [][]byte{}
	n := len(k.Key())
	for i := 0; i < n; i++ {
		out = append(out, k.SubKeyAt(i))
	}
	return out
}

func (r *reader) record(rec util.IRecord, what string) *mrec {
	r.budget--
	rec.RecordMagic()
	m := &mrec{}
	if k := rec.Key(); !collection.IsNil(k) && !k.IsEmpty() {
		m.key = r.key(k)
	}
	if v := rec.Value(); !collection.IsNil(v) {
		m.value = r.value(v, what+".value")
	}
	if v := rec.Scheme(); !collection.IsNil(v) {
		m.scheme = r.value(v, what+".scheme")
	}
	if ts := rec.Timestamp(); ts != nil {
		n := ts.UnixNano()
		m.ts = &n
	}
	m.r, m.s = rec.Signature()
	r.t.Check((m.r == nil) == (m.s == nil), "%s: half of a signature", what)
	return m
}

// what encoding keeps of it: nothing empty, no signature without a timestamp
func normValue(m *mval) *mval {
	if m.isNil() {
		return nil
	}
	out := &mval{kind: m.kind, data: m.data}
	for _, e := range m.elems {
		n := normValue(e)
		if n == nil {
			n = &mval{}
		}
		out.elems = append(out.elems, n)
	}
	for _, e := range m.recs {
		out.recs = append(out.recs, normRecord(e))
	}
	return out
}

func normRecord(m *mrec) *mrec {
	out := &mrec{value: normValue(m.value), scheme: normValue(m.scheme), ts: m.ts}
	if len(m.key) > 0 {
		out.key = m.key
	}
	if m.ts != nil {
		out.r, out.s = m.r, m.s
	}
	return out
}

func sameValue(a, b *mval) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.kind != b.kind || string(a.data) != string(b.data) || len(a.elems) != len(b.elems) || len(a.recs) != len(b.recs) {
		return false
	}
	for i := range a.elems {
		if !sameValue(a.elems[i], b.elems[i]) {
			return false
		}
	}
	for i := range a.recs {
		if !sameRecord(a.recs[i], b.recs[i]) {
			return false
		}
	}
	return true
}

func sameRecord(a, b *mrec) bool {
	if refCompareKeys(a.key, b.key) != 0 || !sameValue(a.value, b.value) || !sameValue(a.scheme, b.scheme) {
		return false
	}
	if (a.ts == nil) != (b.ts == nil) || a.ts != nil && *a.ts != *b.ts {
		return false
	}
	if (a.r == nil) != (b.r == nil) || a.r != nil && (a.r.Cmp(b.r) != 0 || a.s.Cmp(b.s) != 0) {
		return false
	}
	return true
}

const readBudget = 1500

////////////////////////////////////////
// one function per decoder: it is given bytes of any origin, and returns
// whether they were accepted

var decoders = []struct {
	name string
	f    func(t *T, b []byte) bool
}{
	{"varint", decodeVarint},
	{"key", decodeKey},
	{"value", decodeValue},
	{"record", decodeRecord},
	{"simple value", decodeSimple},
	{"scheme", decodeScheme},
	{"consensus", decodeConsensus},
	{"hash table", decodeTable},
}

// panics and errors: none of the former, and an error comes without an object
func accepted(t *T, what string, b []byte, n int, err error) bool {
	if err != nil {
		t.Label("%s refused", what)
		return false
	}
	t.Label("%s accepted", what)
	t.Check(n >= 0 && n <= len(b), "%s: %d bytes of %d are taken: %s", what, n, len(b), hx(b))
	return true
}

func decodeVarint(t *T, b []byte) bool {
	u, n, err := util.DecodeUvarint64(b)
	ok := accepted(t, "unsigned", b, n, err)
	if ok && n > 0 {
		again, n2, err := util.DecodeUvarint64(util.EncodeUvarint64(u))
		t.Check(err == nil && again == u && n2 <= n, "%d, decoded from %s, is decoded as %d after encoding", u, hx(b), again)
		again, n2, err = util.DecodeUvarint64(exact(b[:n]))
		t.Check(err == nil && again == u && n2 == n, "the %d bytes taken from %s are decoded as %d, not %d", n, hx(b), again, u)
	}
	i, n, err := util.DecodeVarint64(b)
	if accepted(t, "signed", b, n, err) && n > 0 {
		again, n2, err := util.DecodeVarint64(util.EncodeVarint64(i))
		t.Check(err == nil && again == i && n2 <= n, "%d, decoded from %s, is decoded as %d after encoding", i, hx(b), again)
	}
	v, n, err := util.DecodeVarchar(b)
	if accepted(t, "varchar", b, n, err) && n > 0 {
		t.Check(len(v) < n && string(v) == string(b[n-len(v):n]), "varchar %s, of %s, is %d bytes of %d taken", hx(v), hx(b), len(v), n)
	}
	return ok
}

func decodeKey(t *T, b []byte) bool {
	k, n, err := util.NewMappedKey(b)
	if !accepted(t, "key", b, n, err) {
		return false
	}
	r := &reader{t: t, budget: readBudget}
	m := r.key(k)
	if len(m) > 0 {
		t.Check(string(k.Buf()) == string(b[:n]), "key of %s takes %d bytes, but holds %s", hx(b), n, hx(k.Buf()))
	}
	t.Check(k.IsEmpty() == (len(m) == 0), "key of %s: is empty is %v", hx(b), k.IsEmpty())
	t.Check(k.Compare(k) == 0 && k.Equal(k), "key of %s: not equal to itself", hx(b))
	k.HashUint32(collection.MurmurSeed(1).Hash)
	k.EstBufSize()
	_ = k.ToString()
	again, n2, err := util.NewMappedKey(exact(k.Buf()))
	t.Check(err == nil && n2 == len(k.Buf()) && refCompareKeys(r.key(again), m) == 0, "key of %s: its own bytes are decoded differently: %v", hx(b), err)
	t.Check(refCompareKeys(r.key(k.Copy().(util.IKey)), m) == 0, "key of %s: the copy is different", hx(b))
	c, err := k.CopyConstruct()
	t.Check(err == nil, "key of %s: copy construct: %v", hx(b), err)
	t.Check(refCompareKeys(r.key(c.(util.IKey)), m) == 0, "key of %s: the constructed copy is different", hx(b))
	if err := c.Encode(nil); err == nil {
		t.Check(string(c.Buf()) == string(refKey(m)), "key of %s: is encoded again as %s", hx(b), hx(c.Buf()))
	} else {
		t.Check(len(refKey(m)) > util.MAX_KEY_LENGTH, "key of %s: the constructed copy is not encoded: %v", hx(b), err)
	}
	return true
}

func decodeValue(t *T, b []byte) bool {
	v, n, err := util.NewStandardMappedValue(b)
	if !accepted(t, "value", b, n, err) {
		return false
	}
	t.Check(string(v.Buf()) == string(b[:n]), "value of %s takes %d bytes, but holds %s", hx(b), n, hx(v.Buf()))
	v.EstBufSize()
	r := &reader{t: t, budget: readBudget}
	m := r.value(v, "value")
	r2 := &reader{t: t, budget: readBudget}
	again, n2, err := util.NewStandardMappedValue(exact(b[:n]))
	t.Check(err == nil && n2 == n, "value of %s: its own bytes are not decoded: %d, %v", hx(b), n2, err)
	t.Check(sameValue(normValue(r2.value(again, "value")), normValue(m)) && r2.broken == r.broken, "value of %s: its own bytes are decoded differently", hx(b))
	cp := v.Copy().(util.IValue)
	r2 = &reader{t: t, budget: readBudget}
	t.Check(sameValue(normValue(r2.value(cp, "value")), normValue(m)) && r2.broken == r.broken, "value of %s: the copy is different", hx(b))
	if r.budget <= 0 {
		t.Label("large, seen in part")
		return true
	}
	c, err := v.CopyConstruct()
	if r.broken {
		t.Label("malformed element")
		t.Check(err != nil, "value of %s: has a malformed element, but can be constructed again", hx(b))
		return true
	}
	t.Check(err == nil, "value of %s: copy construct: %v", hx(b), err)
	reencoded(t, "value", b, c, normValue(m))
	return true
}

func reencoded(t *T, what string, b []byte, c util.IEncodable, m *mval) {
	if m == nil {
		m = &mval{}
	}
	want, ok := refValue(m)
	err := c.Encode(nil)
	t.Check((err == nil) == ok, "%s of %s: the constructed copy is encoded: %v", what, hx(b), err)
	if ok {
		t.Check(string(c.Buf()) == string(want), "%s of %s: is encoded again as %s, should be %s", what, hx(b), hx(c.Buf()), hx(want))
	}
}

func decodeSimple(t *T, b []byte) bool {
	v, n, err := util.NewSimpleMappedValue(b)
	if !accepted(t, "simple value", b, n, err) {
		return false
	}
	t.Check(string(v.Buf()) == string(b[:n]), "simple value of %s takes %d bytes, but holds %s", hx(b), n, hx(v.Buf()))
	v.IsNil()
	v.EstBufSize()
	data := v.Value()
	t.Check(v.Size() == 0 && v.IsPrimitive() && !v.IsValueArray() && !v.IsRecordList(), "simple value of %s is not primitive", hx(b))
	_, err = v.ValueAt(0)
	t.Check(err != nil, "simple value of %s has an element", hx(b))
	t.Check(string(v.Copy().(util.IValue).Value()) == string(data), "simple value of %s: the copy is different", hx(b))
	c, err := v.CopyConstruct()
	t.Check(err == nil && string(c.(util.IValue).Value()) == string(data), "simple value of %s: the constructed copy is different", hx(b))
	return true
}

func decodeRecord(t *T, b []byte) bool {
	rec, n, err := util.NewMappedRecord(b)
	if !accepted(t, "record", b, n, err) {
		return false
	}
	t.Check(string(rec.Buf()) == string(b[:n]), "record of %s takes %d bytes, but holds %s", hx(b), n, hx(rec.Buf()))
	rec.EstBufSize()
	r := &reader{t: t, budget: readBudget}
	m := r.record(rec, "record")
	r2 := &reader{t: t, budget: readBudget}
	again, n2, err := util.NewMappedRecord(exact(b[:n]))
	t.Check(err == nil && n2 == n, "record of %s: its own bytes are not decoded: %d, %v", hx(b), n2, err)
	t.Check(sameRecord(normRecord(r2.record(again, "record")), normRecord(m)) && r2.broken == r.broken, "record of %s: its own bytes are decoded differently", hx(b))
	cp := rec.Copy().(util.IRecord)
	r2 = &reader{t: t, budget: readBudget}
	t.Check(sameRecord(normRecord(r2.record(cp, "record")), normRecord(m)) && r2.broken == r.broken, "record of %s: the copy is different", hx(b))
	if r.budget <= 0 {
		t.Label("large, seen in part")
		return true
	}
	c, err := rec.CopyConstruct()
	if r.broken {
		t.Label("malformed element")
		t.Check(err != nil, "record of %s: has a malformed element, but can be constructed again", hx(b))
		return true
	}
	t.Check(err == nil, "record of %s: copy construct: %v", hx(b), err)
	want, ok := refRecord(normRecord(m))
	err = c.Encode(nil)
	t.Check((err == nil) == ok, "record of %s: the constructed copy is encoded: %v", hx(b), err)
	if ok {
		t.Check(string(c.Buf()) == string(want), "record of %s: is encoded again as %s, should be %s", hx(b), hx(c.Buf()), hx(want))
	}
	return true
}

type mscheme struct {
	domain, tablet []byte // nil: none
	buckets        [][]byte
	hasBuckets     bool
}

func refScheme(m *mscheme) ([]byte, bool) {
	out := []byte{0}
	if m.domain != nil {
		out[0] |= 0x80
		out = append(out, refVarchar(m.domain)...)
	}
	if m.tablet != nil {
		out[0] |= 0x40
		out = append(out, refVarchar(m.tablet)...)
	}
	if m.hasBuckets {
		out[0] |= 0x20
		out = append(out, refUvarint(uint64(len(m.buckets)))...)
		for _, b := range m.buckets {
			out = append(out, refVarchar(b)...)
		}
	}
	return out, len(out) <= util.MAX_SCHEME_LENGTH
}

func (m *mscheme) String() string {
	s := "scheme<"
	if m.domain != nil {
		s += "d=" + hx(m.domain) + " "
	}
	if m.tablet != nil {
		s += "t=" + hx(m.tablet) + " "
	}
	if m.hasBuckets {
		s += "b=" + hxs(m.buckets)
	}
	return s + ">"
}

func checkScheme(t *T, what string, s util.IScheme, m *mscheme) {
	t.Check((s.Domain() != nil) == (m.domain != nil) && string(s.Domain()) == string(m.domain), "%s: domain is %s, should be %s", what, hx(s.Domain()), m)
	t.Check(s.DomainName() == string(m.domain), "%s: domain name is %q, should be %s", what, s.DomainName(), m)
	t.Check((s.Tablet() != nil) == (m.tablet != nil) && string(s.Tablet()) == string(m.tablet), "%s: tablet is %s, should be %s", what, hx(s.Tablet()), m)
	t.Check(s.TabletName() == string(m.tablet), "%s: tablet name is %q, should be %s", what, s.TabletName(), m)
	t.Check((s.Buckets() != nil) == m.hasBuckets && len(s.Buckets()) == len(m.buckets), "%s: has %d buckets (%v), should be %s", what, len(s.Buckets()), s.Buckets() != nil, m)
	for i := range m.buckets {
		t.Check(string(s.BucketAt(i)) == string(m.buckets[i]) && string(s.Buckets()[i]) == string(m.buckets[i]), "%s: bucket %d is %s, should be %s", what, i, hx(s.BucketAt(i)), m)
	}
}

func readScheme(s util.IScheme) *mscheme {
	m := &mscheme{domain: s.Domain(), tablet: s.Tablet(), hasBuckets: s.Buckets() != nil}
	for i := range s.Buckets() {
		m.buckets = append(m.buckets, s.BucketAt(i))
	}
	return m
}

func decodeScheme(t *T, b []byte) bool {
	s := util.NewMappedSchemd(b)
	n, err := s.Decode(nil)
	if !accepted(t, "scheme", b, n, err) {
		return false
	}
	t.Check(s.IsDecoded() && s.IsEncoded(), "scheme of %s is not decoded", hx(b))
	t.Check(string(s.Buf()) == string(b[:n]), "scheme of %s takes %d bytes, but holds %s", hx(b), n, hx(s.Buf()))
	m := readScheme(s)
	s.EstBufSize()
	again := util.NewMappedSchemd(exact(b[:n]))
	n2, err := again.Decode(nil)
	t.Check(err == nil && n2 == n, "scheme of %s: its own bytes are not decoded: %d, %v", hx(b), n2, err)
	checkScheme(t, "scheme decoded again", again, m)
	c := s.Copy()
	checkScheme(t, "copy of scheme", c.(util.IScheme), m)
	want, ok := refScheme(m)
	err = c.Encode(nil)
	t.Check((err == nil) == ok, "scheme of %s: the copy is encoded: %v", hx(b), err)
	if ok {
		t.Check(string(c.Buf()) == string(want), "scheme of %s: is encoded again as %s, should be %s", hx(b), hx(c.Buf()), hx(want))
	}
	return true
}

func decodeConsensus(t *T, b []byte) bool {
	tm, err := util.NewConsensusTime(b)
	if err == nil {
		t.Label("consensus time accepted")
		n := len(tm.Buf())
		t.Check(n <= len(b) && string(tm.Buf()) == string(b[:n]), "consensus time of %s holds %s", hx(b), hx(tm.Buf()))
		eq, err := tm.EQ(tm)
		t.Check(err == nil && eq, "consensus time of %s is not equal to itself", hx(b))
	}
	id, err := util.NewMappedConsensusID(b)
	if !accepted(t, "consensus id", b, 0, err) {
		return false
	}
	n := len(id.Buf())
	t.Check(n <= len(b) && string(id.Buf()) == string(b[:n]), "consensus id of %s holds %s", hx(b), hx(id.Buf()))
	t.Check(id.ConsensusMagic() == b[0], "consensus id of %s has magic %x", hx(b), id.ConsensusMagic())
	t.Check(string(id.Copy().Buf()) == string(id.Buf()), "consensus id of %s: the copy is different", hx(b))
	return true
}

func decodeTable(t *T, b []byte) bool {
	table, n, err := util.NewMPHTable(b)
	if !accepted(t, "hash table", b, n, err) {
		return false
	}
	for _, k := range []util.IKey{util.NewEmptyKey(), util.NewStringKey("a"), util.NewStringKey("b"), util.NewStringKey("c").Add([]byte("d")), util.NewSimpleKey(exact(b))} {
		if len(k.Key()) == 0 || len(k.SubKeyAt(0)) > 0 {
			table.Lookup(k)
		}
	}
	enc, err := table.Encode()
	t.Check(err == nil, "hash table of %s: encode: %v", hx(b), err)
	again, n2, err := util.NewMPHTable(exact(enc))
	t.Check(err == nil && n2 == len(enc), "hash table of %s: encoded again, it is not decoded: %v", hx(b), err)
	enc2, err := again.Encode()
	t.Check(err == nil && string(enc2) == string(enc), "hash table of %s: encoded once more, it is different", hx(b))
	return true
}

////////////////////////////////////////

func (t *T) SchemeModel() *mscheme {
	m := &mscheme{}
	if t.Bool() {
		m.domain = t.Bytes(300, 0, 1, 127, 128)
	}
	if t.Bool() {
		m.tablet = t.Bytes(300, 0, 1, 127, 128)
	}
	if t.Bool() {
		m.hasBuckets = true
		if t.Chance(1, 8) {
			n := []int{126, 127, 128, 200, 255, 256, 500, 1100}[t.Int(0, 7)]
			r := &prng{s: t.Draw(1 << 10)}
			for i := 0; i < n; i++ {
				m.buckets = append(m.buckets, []byte{byte(r.next())}[:r.next()%2])
			}
		} else {
			for i := 0; i < 8 && t.More(2); i++ {
				m.buckets = append(m.buckets, t.Bytes(200, 0, 1, 127, 128))
			}
		}
	}
	return m
}

// a valid encoding of something, by the reference encoders
func (t *T) Encoding() (string, []byte) {
	switch t.Int(0, 6) {
	case 0:
		return "varchar", refVarchar(t.Bytes(300, 0, 1, 127, 128))
	case 1:
		return "key", refKey(t.KeyModel())
	case 2:
		b, ok := refValue(t.ValueModel(3, 200))
		if !ok {
			t.Discard()
		}
		return "value", b
	case 3:
		b, ok := refRecord(t.RecordModel(2, 200))
		if !ok {
			t.Discard()
		}
		return "record", b
	case 4:
		b, _ := refScheme(t.SchemeModel())
		return "scheme", b
	case 5:
		if t.Bool() {
			return "consensus", refConsensusID(t)
		}
		return "consensus", append([]byte{byte(t.Int(1, 2))}, t.BytesN(t.Int(4, 12))...)
	default:
		keys := t.TableKeys(12)
		table := util.MPHBuild(mphKeys(keys), t.Bool())
		b, err := table.Encode()
		if err != nil {
			t.Discard()
		}
		return "hash table", b
	}
}

func init() {
	register(&Prop{
		ID: "C15", Quick: 800000, Thorough: 12000000,
		Rule: "A case is bytes: random ones, or the encoding of a random key, value, record, scheme, consensus id or time, perfect hash table, with up to a dozen edits (bit flips, bytes set, cut, deleted, inserted, appended), given to the decoder of its kind and two others; what is accepted is read through all accessors, decoded again, copied and encoded again; " +
			"non-trivial: it was edited and some decoder accepts it.",
		Run: func(t *T) {
			var b []byte
			kind := ""
			edited := false
			if t.Chance(1, 4) {
				kind = "random"
				b = t.Bytes(300, 1, 5, 13, 33)
				edited = true
			} else {
				kind, b = t.Encoding()
				for i := 0; i < 3 && (i == 0 && t.Chance(7, 8) || i > 0 && t.Bool()); i++ {
					var d string
					b, d = t.Mutate(b)
					t.Logf("edit%s", d)
					edited = true
				}
			}
			if t.Chance(1, 12) { // longer numbers than needed, and enormous ones
				k := t.Int(0, len(b))
				ins := [][]byte{{0x80, 0x00}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01},
					{0xff, 0xff, 0xff, 0xff, 0x7f}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0xff, 0xff, 0xff, 0xff}, {0x7f, 0xff, 0xff, 0xff}, {0x80}}[t.Int(0, 6)]
				b = append(append(append([]byte{}, b[:k]...), ins...), b[t.Int(k, min(k+len(ins), len(b))):]...)
				t.Logf("insert %x at %d", ins, k)
				edited = true
			}
			t.Logf("%s: %s", kind, hx(b))
			t.Label("from %s", kind)
			ok := false
			ran := map[int]bool{}
			for i := range decoders {
				if decoders[i].name == kind || kind == "varchar" && decoders[i].name == "varint" {
					ran[i] = true
				}
			}
			for len(ran) < 3 {
				ran[t.Int(0, len(decoders)-1)] = true
				if len(ran) < 3 && !t.More(3) {
					break
				}
			}
			for i := range decoders {
				if !ran[i] {
					continue
				}
				d := decoders[i]
				if panicked, what := Panics(func() { ok = d.f(t, exact(b)) || ok }); panicked {
					t.Failf("decoding %s as %s panics: %v", hx(b), d.name, fmt.Sprint(what))
				}
			}
			if ok && edited {
				t.NonTrivial()
			}
		},
		Assume: []string{"a hang is a case that takes longer than the harness's limit for one"},
	})
}
