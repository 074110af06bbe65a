package main

import (
	"math/big"
	"time"

	"../util"
)

// what must not be readable: every accessor panics
func unreadable(t *T, what string, accessors map[string]func()) {
	names := []string{}
	for n := range accessors {
		names = append(names, n)
	}
	for _, n := range names {
		panicked, _ := Panics(accessors[n])
		t.Check(panicked, "%s: %s gives something", what, n)
	}
}

func schemeAccessors(s util.IScheme) map[string]func() {
	return map[string]func(){
		"Domain":     func() { s.Domain() },
		"DomainName": func() { s.DomainName() },
		"Tablet":     func() { s.Tablet() },
		"TabletName": func() { s.TabletName() },
		"Buckets":    func() { s.Buckets() },
		"BucketAt":   func() { s.BucketAt(0) },
	}
}

func keyAccessors(k util.IKey) map[string]func() {
	return map[string]func(){
		"Key":      func() { k.Key() },
		"SubKeyAt": func() { k.SubKeyAt(0) },
	}
}

func valueAccessors(v util.IValue) map[string]func() {
	return map[string]func(){
		"IsPrimitive":     func() { v.IsPrimitive() },
		"IsValueArray":    func() { v.IsValueArray() },
		"IsRecordList":    func() { v.IsRecordList() },
		"Size":            func() { v.Size() },
		"Value":           func() { v.Value() },
		"ValueAt":         func() { v.ValueAt(0) },
		"RecordAt":        func() { v.RecordAt(0) },
		"LookupEncoder":   func() { v.LookupEncoder() },
		"CompressEncoder": func() { v.CompressEncoder() },
	}
}

func recordAccessors(r util.IRecord) map[string]func() {
	return map[string]func(){
		"Key":       func() { r.Key() },
		"Value":     func() { r.Value() },
		"Scheme":    func() { r.Scheme() },
		"Timestamp": func() { r.Timestamp() },
		"Signature": func() { r.Signature() },
	}
}

// an object, and all there is to know about it
type contract struct {
	e     util.IEncodable
	what  string
	magic func() byte                                   // nil: none
	want  func() ([]byte, bool)                         // its bytes, and whether they are within the limits
	check func(what string, e util.IEncodable)          // its content
	edit  func() string                                 // nil: none
	next  func(e util.IEncodable, built bool) *contract // the same for a copy
}

func magicOf(e util.IEncodable) func() byte {
	switch e := e.(type) {
	case util.IValue:
		return e.ValueMagic
	case util.IRecord:
		return e.RecordMagic
	case util.IScheme:
		return e.SchemeMagic
	}
	return nil
}

// what is decoded: once, and for good
func (t *T) mappedContract(c *contract, buf []byte) {
	content := func(what string) {
		t.Check(c.e.IsDecoded(), "%s: says it is not decoded", what)
		t.Check(c.e.IsEncoded(), "%s: says it is not encoded", what)
		t.Check(string(c.e.Buf()) == string(buf), "%s: holds %s, should be %s", what, hx(c.e.Buf()), hx(buf))
		if f := magicOf(c.e); f != nil && len(buf) > 0 {
			t.Check(f() == buf[0], "%s: has magic %x, should be %x", what, f(), buf[0])
		}
		c.check(what, c.e)
	}
	content(c.what + ", decoded")
	for i := 0; i < 6 && t.More(3); i++ {
		switch t.Int(0, 3) {
		case 0:
			t.Logf("decode again")
			n, err := c.e.Decode(nil)
			t.Check(err == nil && n == len(buf), "%s: decoding it again takes %d of %d bytes, error %v", c.what, n, len(buf), err)
			content(c.what + ", decoded again")
			t.NonTrivial()
		case 1:
			err := c.e.Encode(nil)
			t.Logf("encode: %v", err)
			content(c.what + ", encoded although it was decoded")
			t.NonTrivial()
		case 2:
			t.Logf("estimated size")
			t.Check(c.e.EstBufSize() >= 0, "%s: the estimated size is %d", c.what, c.e.EstBufSize())
			content(c.what + ", estimated")
		case 3:
			t.Logf("copy")
			cp := c.e.Copy()
			content(c.what + ", copied")
			c.check("copy of "+c.what, cp)
			// either kind of copy is decoded
			t.Check(cp.IsDecoded(), "copy of %s says it is not decoded", c.what)
			t.NotStale("copy of "+c.what, cp, buf)
			if _, ok := cp.(*util.Scheme); !ok && t.Bool() {
				c.e = cp
			}
			t.NonTrivial()
		}
	}
}

// what is built: it can be read at any time, but its bytes only when encoded
func (t *T) builtContract(c *contract) {
	state := func(what string) {
		want, ok := c.want()
		t.Check(c.e.IsDecoded(), "%s: says it is not decoded", what)
		c.check(what, c.e)
		var b []byte
		panicked, _ := Panics(func() { b = t.Keep(c.e.Buf(), "the bytes of "+c.what) })
		t.Check(panicked != c.e.IsEncoded(), "%s: says it is encoded: %v, but its bytes are readable: %v", what, c.e.IsEncoded(), !panicked)
		if !panicked {
			t.Check(ok, "%s: says it is encoded, but it does not fit", what)
			t.Check(string(b) == string(want), "%s: is encoded as %s, should be %s", what, hx(b), hx(want))
		}
		if f := magicOf(c.e); f != nil {
			var m byte
			mp, _ := Panics(func() { m = f() })
			t.Check(mp == panicked, "%s: says it is encoded: %v, but its magic is readable: %v", what, c.e.IsEncoded(), !mp)
			if !mp && len(want) > 0 {
				t.Check(m == want[0], "%s: has magic %x, should be %x", what, m, want[0])
			}
		}
	}
	state(c.what)
	for i := 0; i < 10 && t.More(5); i++ {
		switch t.Weighted(3, 1, 2, 3) {
		case 0:
			_, ok := c.want()
			err := c.e.Encode(nil)
			t.Logf("encode: %v", err)
			t.Check((err == nil) == ok, "%s: encode: %v", c.what, err)
			if ok {
				t.Check(c.e.IsEncoded(), "%s: says it is not encoded after it was", c.what)
			}
			state(c.what + ", encoded")
		case 1:
			n, err := c.e.Decode(nil)
			t.Logf("decode: %d %v", n, err)
			t.Check(err != nil, "%s: it was built, but decoding it takes %d bytes, without an error", c.what, n)
			state(c.what + ", decoded although it was built")
			t.NonTrivial()
		case 2:
			var cp util.IEncodable
			if t.Bool() {
				cp = c.e.Copy()
			} else {
				var err error
				cp, err = c.e.CopyConstruct()
				t.Check(err == nil, "%s: constructed copy: %v", c.what, err)
			}
			t.Logf("copy")
			was := c.e
			state(c.what + ", copied")
			c.e = cp
			state("copy of " + c.what)
			if c.next != nil && t.Bool() {
				*c = *c.next(cp, true)
			} else {
				c.e = was
			}
			t.NonTrivial()
		case 3:
			if c.edit != nil {
				t.Logf("%s", c.edit())
				state(c.what + ", edited")
				t.NonTrivial()
			}
		}
	}
}

func (t *T) keyContract(k *util.Key, m [][]byte) *contract {
	c := &contract{e: k, what: "key"}
	c.want = func() ([]byte, bool) { b := refKey(m); return b, len(b) <= util.MAX_KEY_LENGTH }
	c.check = func(what string, e util.IEncodable) { checkKey(t, what, e.(util.IKey), m) }
	c.edit = func() string {
		s := t.SubKey()
		m = append(append([][]byte{}, m...), s)
		k.Add(exact(s))
		return "add " + hx(s)
	}
	c.next = func(e util.IEncodable, built bool) *contract { return t.keyContract(e.(*util.Key), m) }
	return c
}

func (t *T) valueContract(v util.IValue, m *mval) *contract {
	c := &contract{e: v, what: []string{"primitive", "array", "list"}[m.kind]}
	c.want = func() ([]byte, bool) { return refValue(m) }
	c.check = func(what string, e util.IEncodable) { checkValue(t, what, e.(util.IValue), m, false, nil) }
	switch m.kind {
	case 1:
		c.edit = func() string {
			a := v.(*util.ValueArray)
			if t.Chance(1, 5) {
				panicked, _ := Panics(func() { a.DeleteAt(uint16(len(m.elems) + t.Int(0, 2))) })
				t.Check(panicked, "an element beyond the end of %s is deleted", m)
				return "delete beyond the end"
			}
			n := *m
			m = &n
			if len(m.elems) > 0 && t.Bool() {
				i := t.Int(0, len(m.elems)-1)
				m.elems = append(append([]*mval{}, m.elems[:i]...), m.elems[i+1:]...)
				a.DeleteAt(uint16(i))
				return "delete"
			}
			e := t.ValueModel(1, 60)
			if t.Chance(1, 40) { // more than fits, sometimes
				e = &mval{data: t.BytesN(t.Int(32000, 65535))}
			}
			m.elems = append(append([]*mval{}, m.elems...), e)
			a.Append(buildValue(e))
			return "append " + e.String()
		}
	case 2:
		c.edit = func() string {
			a := v.(*util.RecordList)
			if t.Chance(1, 5) {
				panicked, _ := Panics(func() { a.DeleteAt(uint16(len(m.recs) + t.Int(0, 2))) })
				t.Check(panicked, "a record beyond the end of %s is deleted", m)
				return "delete beyond the end"
			}
			n := *m
			m = &n
			if len(m.recs) > 0 && t.Bool() {
				i := t.Int(0, len(m.recs)-1)
				m.recs = append(append([]*mrec{}, m.recs[:i]...), m.recs[i+1:]...)
				a.DeleteAt(uint16(i))
				return "delete"
			}
			e := t.RecordModel(1, 60)
			if t.Chance(1, 40) {
				e = &mrec{key: [][]byte{[]byte("k")}, value: &mval{data: t.BytesN(t.Int(32000, 65000))}}
			}
			m.recs = append(append([]*mrec{}, m.recs...), e)
			a.Append(buildRecord(e))
			return "append " + e.String()
		}
	}
	c.next = func(e util.IEncodable, built bool) *contract { return t.valueContract(e.(util.IValue), m) }
	return c
}

func (t *T) recordContract(r *util.Record, m *mrec) *contract {
	c := &contract{e: r, what: "record"}
	c.want = func() ([]byte, bool) { return refRecord(m) }
	c.check = func(what string, e util.IEncodable) { checkRecord(t, what, e.(util.IRecord), m, false, nil) }
	c.edit = func() string {
		n := *m
		m = &n
		switch t.Int(0, 7) {
		case 0:
			m.key = t.KeyModel()
			r.SetKey(t.MadeKey(m.key))
			return "set key " + hxs(m.key)
		case 1:
			m.value = t.ValueModel(1, 60)
			if t.Chance(1, 40) {
				m.value = &mval{data: t.BytesN(t.Int(65530, 65536))}
			}
			r.SetValue(buildValue(m.value))
			return "set value " + m.value.String()
		case 2:
			m.scheme = &mval{data: t.Bytes(100)}
			if t.Chance(1, 10) {
				m.scheme = t.ValueModel(1, 60)
			}
			r.SetScheme(buildValue(m.scheme))
			return "set scheme " + m.scheme.String()
		case 3:
			if t.Chance(1, 5) {
				m.ts = nil
				r.SetTimestamp(nil)
				return "no timestamp"
			}
			ts := t.Int64()
			m.ts = &ts
			tm := time.Unix(0, ts)
			r.SetTimestamp(&tm)
			return "set timestamp"
		case 4:
			if t.Chance(1, 5) {
				m.r, m.s = nil, nil
				r.SetSignature(nil, nil)
				return "no signature"
			}
			m.r, m.s = t.BigInt256(), t.BigInt256()
			r.SetSignature(new(big.Int).Set(m.r), new(big.Int).Set(m.s))
			return "set signature"
		case 5:
			b := t.SubKey()
			m.key = [][]byte{b}
			r.SetK(exact(b))
			return "set key bytes " + hx(b)
		case 6:
			b := t.Bytes(100)
			m.value = &mval{data: b}
			r.SetV(exact(b))
			return "set value bytes " + hx(b)
		default:
			b := t.Bytes(100)
			m.scheme = &mval{data: b}
			r.SetS(exact(b))
			return "set scheme bytes " + hx(b)
		}
	}
	c.next = func(e util.IEncodable, built bool) *contract { return t.recordContract(e.(*util.Record), m) }
	return c
}

func init() {
	register(&Prop{
		ID: "C34", Quick: 200000, Thorough: 15000000,
		Rule: "A case is a key, value, simple value, record, scheme or trie, decoded or built, and a history of decoding, encoding, editing and copying it, with its state, its bytes and its content looked at after each; or a scheme, or an object made without a constructor, before it is decoded and after decoding it has failed, where every accessor must refuse; " +
			"non-trivial: it is decoded again, encoded although decoded, decoded although built, edited, copied, or not decoded.",
		Run: func(t *T) {
			switch t.Int(0, 10) {
			case 0:
				m := t.KeyModel()
				t.Logf("decoded key %s", hxs(m))
				t.Label("decoded key")
				b := refKey(m)
				k, _, err := util.NewMappedKey(t.Within(append(exact(b), t.Trailer()...), "what is decoded"))
				t.Check(err == nil, "key %s: %v", hxs(m), err)
				t.mappedContract(&contract{e: k, what: "key", check: func(what string, e util.IEncodable) { checkKey(t, what, e.(util.IKey), m) }}, b)
			case 1:
				m := t.ValueModel(2, 200)
				b, ok := refValue(m)
				if !ok {
					t.Discard()
				}
				t.Logf("decoded value %s", m)
				t.Label("decoded value")
				v, _, err := util.NewStandardMappedValue(t.Within(append(exact(b), t.Trailer()...), "what is decoded"))
				t.Check(err == nil, "value %s: %v", m, err)
				order := &prng{s: t.Draw(63)}
				t.mappedContract(&contract{e: v, what: "value", check: func(what string, e util.IEncodable) { checkValue(t, what, e.(util.IValue), m, true, order) }}, b)
			case 2:
				data := t.Bytes(300, 0, 127, 128)
				b := refVarchar(data)
				t.Logf("decoded simple value %s", hx(data))
				t.Label("decoded simple value")
				v, _, err := util.NewSimpleMappedValue(t.Within(append(exact(b), t.Trailer()...), "what is decoded"))
				t.Check(err == nil, "simple value %s: %v", hx(data), err)
				t.mappedContract(&contract{e: v, what: "simple value", check: func(what string, e util.IEncodable) {
					v := e.(util.IValue)
					t.Check(string(v.Value()) == string(data) && v.IsNil() == (len(data) == 0), "%s: is %s (nil %v), should be %s", what, hx(v.Value()), v.IsNil(), hx(data))
					t.Check(v.IsPrimitive() && !v.IsValueArray() && !v.IsRecordList() && v.Size() == 0, "%s: is not primitive", what)
					_, err := v.ValueAt(0)
					t.Check(err != nil, "%s: has an element", what)
					_, err = v.RecordAt(0)
					t.Check(err != nil, "%s: has a record", what)
				}}, b)
			case 3:
				m := t.RecordModel(1, 200)
				b, ok := refRecord(m)
				if !ok {
					t.Discard()
				}
				t.Logf("decoded record %s", m)
				t.Label("decoded record")
				r, _, err := util.NewMappedRecord(t.Within(append(exact(b), t.Trailer()...), "what is decoded"))
				t.Check(err == nil, "record %s: %v", m, err)
				order := &prng{s: t.Draw(63)}
				t.mappedContract(&contract{e: r, what: "record", check: func(what string, e util.IEncodable) { checkRecord(t, what, e.(util.IRecord), m, true, order) }}, b)
			case 4: // a scheme starts as bytes, and may turn out not to be one
				m := t.SchemeModel()
				b, ok := refScheme(m)
				if !ok {
					t.Discard()
				}
				t.Logf("scheme %s", m)
				t.Label("scheme")
				for i := 0; i < 3 && t.Bool(); i++ {
					cut := t.Int(0, len(b)-1)
					s := util.NewMappedSchemd(exact(b[:cut]))
					_, err := s.Decode(nil)
					t.Check(err != nil, "%d of %d bytes of %s are decoded", cut, len(b), m)
					t.Check(!s.IsDecoded(), "%d of %d bytes of %s: decoding fails, but it says it is decoded", cut, len(b), m)
					unreadable(t, "scheme that cannot be decoded", schemeAccessors(s))
					_, err = s.Decode(nil)
					t.Check(err != nil, "%d of %d bytes of %s are decoded the second time", cut, len(b), m)
					t.NonTrivial()
				}
				s := util.NewMappedSchemd(t.Within(append(exact(b), t.Trailer()...), "what is decoded"))
				t.Check(!s.IsDecoded(), "a new scheme says it is decoded")
				unreadable(t, "scheme that is not decoded", schemeAccessors(s))
				n, err := s.Decode(nil)
				t.Check(err == nil && n == len(b), "%s: decode takes %d of %d bytes, error %v", m, n, len(b), err)
				t.mappedContract(&contract{e: s, what: "scheme", check: func(what string, e util.IEncodable) { checkScheme(t, what, e.(util.IScheme), m) }}, b)
			case 5:
				t.Label("decoded trie")
				c := &codedTrie{t: t, trie: util.NewTrie(), have: map[string]*codedEntry{}}
				c.edit(6, 3)
				if !c.encodable() {
					t.Discard()
				}
				b := exact(mustEncode(t, "trie", c.trie))
				mt, _, err := util.NewMappedTrie(t.Within(append(exact(b), t.Trailer()...), "what is decoded"))
				t.Check(err == nil, "trie: %v", err)
				t.mappedContract(&contract{e: mt, what: "trie", check: func(what string, e util.IEncodable) { c.checkTrie(what, e.(*util.MappedTrie), true) }}, b)
			case 6:
				m := t.KeyModel()
				t.Logf("key %s", hxs(m))
				t.Label("built key")
				t.builtContract(t.keyContract(buildKey(m), m))
			case 7:
				m := t.ValueModel(2, 200)
				t.Logf("value %s", m)
				t.Label("built value")
				t.builtContract(t.valueContract(buildValue(m), m))
			case 8:
				m := t.RecordModel(1, 200)
				t.Logf("record %s", m)
				t.Label("built record")
				t.builtContract(t.recordContract(buildRecord(m), m))
			case 9:
				m := t.SchemeModel()
				b, ok := refScheme(m)
				t.Logf("built scheme %s", m)
				t.Label("built scheme")
				mapped := util.NewMappedSchemd(exact(b))
				_, err := mapped.Decode(nil)
				t.Check(err == nil, "%s: %v", m, err)
				c := &contract{e: mapped.Copy(), what: "scheme"}
				c.want = func() ([]byte, bool) { return b, ok }
				c.check = func(what string, e util.IEncodable) { checkScheme(t, what, e.(util.IScheme), m) }
				t.builtContract(c)
			case 10: // made without a constructor
				t.NonTrivial()
				switch t.Int(0, 4) {
				case 0:
					t.Label("blank key")
					k := &util.MappedKey{}
					t.Check(!k.IsDecoded(), "a blank key says it is decoded")
					unreadable(t, "blank key", keyAccessors(k))
				case 1:
					t.Label("blank value")
					v := &util.StandardMappedValue{}
					t.Check(!v.IsDecoded(), "a blank value says it is decoded")
					unreadable(t, "blank value", valueAccessors(v))
				case 2:
					t.Label("blank record")
					r := &util.MappedRecord{}
					t.Check(!r.IsDecoded(), "a blank record says it is decoded")
					unreadable(t, "blank record", recordAccessors(r))
				case 3:
					t.Label("blank scheme")
					s := &util.MappedScheme{}
					t.Check(!s.IsDecoded(), "a blank scheme says it is decoded")
					unreadable(t, "blank scheme", schemeAccessors(s))
				case 4:
					t.Label("blank trie")
					tr := &util.MappedTrie{}
					k := buildKey(t.TrieKey())
					t.Check(!tr.IsDecoded(), "a blank trie says it is decoded")
					unreadable(t, "blank trie", map[string]func(){
						"Get":           func() { tr.Get(k) },
						"Iterator":      func() { tr.Iterator() },
						"KeyIterator":   func() { tr.KeyIterator(k) },
						"RangeIterator": func() { tr.RangeIterator(k, nil) },
					})
				}
			}
		},
	})
}
