package main

import (
	"encoding/binary"
	"fmt"
	"time"

	"../collection"
	"../util"
)

////////////////////////////////////////
// objects that are partly decoded ones

func (t *T) mixedValue(m *mval, track *[][]byte) util.IValue {
	if t.Chance(1, 4) {
		if b, ok := refValue(m); ok {
			if v, _, err := util.NewStandardMappedValue(tracked(b, track)); err == nil {
				return v
			}
		}
	}
	switch m.kind {
	case 0:
		return util.NewPrimitive(tracked(m.data, track))
	case 1:
		a := util.NewValueArray()
		for _, e := range m.elems {
			a.Append(t.mixedValue(e, track))
		}
		return a
	}
	l := util.NewRecordList()
	for _, e := range m.recs {
		l.Append(t.mixedRecord(e, track))
	}
	return l
}

func (t *T) mixedKey(k [][]byte, track *[][]byte) util.IKey {
	if t.Chance(1, 4) {
		if mk, _, err := util.NewMappedKey(tracked(refKey(k), track)); err == nil {
			return mk
		}
	}
	key := util.NewKey()
	for _, s := range k {
		key.Add(tracked(s, track))
	}
	return key
}

func (t *T) mixedRecord(m *mrec, track *[][]byte) util.IRecord {
	if t.Chance(1, 4) {
		if b, ok := refRecord(m); ok {
			if r, _, err := util.NewMappedRecord(tracked(b, track)); err == nil {
				return r
			}
		}
	}
	r := util.NewRecord()
	if m.key != nil {
		r.SetKey(t.mixedKey(m.key, track))
	}
	if m.value != nil {
		r.SetValue(t.mixedValue(m.value, track))
	}
	if m.scheme != nil {
		r.SetScheme(t.mixedValue(m.scheme, track))
	}
	if m.ts != nil {
		tm := time.Unix(0, *m.ts)
		r.SetTimestamp(&tm)
	}
	if m.r != nil {
		r.SetSignature(m.r, m.s)
	}
	return r
}

// a fresh copy of bytes which is overwritten later
func tracked(b []byte, track *[][]byte) []byte {
	c := exact(b)
	if c != nil {
		*track = append(*track, c)
	}
	return c
}

////////////////////////////////////////
// changes an object in every way it can be, and what its accessors return

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0x55
	}
}

func spoilKey(k util.IKey) {
	if collection.IsNil(k) {
		return
	}
	for i := range k.Key() {
		scribble(k.SubKeyAt(i))
	}
	if len(k.Key()) > 0 {
		k.Key()[0] = []byte{'#'}
	}
	if c, ok := k.(*util.Key); ok {
		c.Add([]byte{'!'})
	}
}

func spoilValue(v util.IValue) {
	if collection.IsNil(v) {
		return
	}
	switch x := v.(type) {
	case *util.ValueArray:
		n := int(x.Size())
		for i := 0; i < n; i++ {
			e, _ := x.ValueAt(uint16(i))
			spoilValue(e)
		}
		if n > 0 {
			x.DeleteAt(0)
		}
		if n > 2 {
			x.DeleteAt(uint16(n / 2))
		}
		x.Append(util.NewPrimitive([]byte{'!'}))
	case *util.RecordList:
		n := int(x.Size())
		for i := 0; i < n; i++ {
			e, _ := x.RecordAt(uint16(i))
			spoilRecord(e)
		}
		if n > 0 {
			x.DeleteAt(0)
		}
		if n > 2 {
			x.DeleteAt(uint16(n / 2))
		}
		x.Append(util.NewRecord())
	case *util.Primitive:
		if x.IsEncoded() {
			scribble(x.Buf())
		}
		scribble(x.Value())
	default: // a decoded one
		scribble(v.Buf())
	}
}

func spoilRecord(r util.IRecord) {
	if collection.IsNil(r) {
		return
	}
	switch x := r.(type) {
	case *util.Record:
		if x.IsEncoded() {
			scribble(x.Buf())
		}
		spoilKey(x.Key())
		spoilValue(x.Value())
		spoilValue(x.Scheme())
		tm := time.Unix(1, 1)
		x.SetK([]byte{'!'}).SetV([]byte{'!'}).SetS([]byte{'!'}).SetTimestamp(&tm)
	default:
		scribble(r.Buf())
	}
}

type copyCase struct {
	t     *T
	make  func(track *[][]byte) util.IEncodable // builds the object
	check func(what string, e util.IEncodable)
	spoil func(e util.IEncodable)
	want  []byte // its encoding, nil if there is none
}

func (c *copyCase) run() {
	t := c.t
	track := [][]byte{}
	o := c.make(&track)
	if t.Bool() {
		o.Encode(nil) // may be refused; it must not matter
	}
	if t.Bool() {
		c.check("original", o)
	}
	var cp util.IEncodable
	how := "copy"
	if t.Bool() {
		cp = o.Copy()
	} else {
		how = "constructed copy"
		var err error
		cp, err = o.CopyConstruct()
		t.Check(err == nil, "constructed copy fails: %v", err)
	}
	t.Check(cp != o, "%s is the original", how)
	if t.Bool() {
		c.check(how, cp)
	}
	t.Label(how)
	if t.Bool() {
		t.Logf("%s, then the original changes", how)
		c.spoil(o)
		for _, b := range track {
			scribble(b)
		}
		c.check(how+" after the original changed", cp)
		if how == "constructed copy" && c.want != nil {
			err := cp.Encode(nil)
			t.Check(err == nil, "constructed copy is not encoded: %v", err)
			t.Check(string(cp.Buf()) == string(c.want), "constructed copy is encoded as %s after the original changed, should be %s", hx(cp.Buf()), hx(c.want))
		}
	} else {
		t.Logf("%s, which then changes", how)
		c.spoil(cp)
		c.check("original after the "+how+" changed", o)
	}
}

func refConsensusID(t *T) []byte {
	magic := byte(t.Int(1, 31)) << 3
	n := 1
	for k := uint(4); k < 8; k++ {
		n += 32 * int(magic>>k&1)
	}
	n += 64 * int(magic>>3&1)
	b := t.BytesN(n)
	b[0] = magic
	return b
}

func consensusLen(magic byte) int {
	n := 1
	for k := uint(4); k < 8; k++ {
		n += 32 * int(magic>>k&1)
	}
	return n + 64*int(magic>>3&1)
}

func init() {
	register(&Prop{
		ID: "C16", Quick: 225000, Thorough: 8000000,
		Rule: "A case is a key, value, record, scheme or consensus id, constructed, decoded or a mixture, encoded or not, and one copy of it of either kind; then every part of one of the two (bytes, elements, backing buffers) is changed, and the other one is read and encoded; " +
			"non-trivial: the object has content.",
		Run: func(t *T) {
			c := &copyCase{t: t}
			switch t.Weighted(3, 4, 4, 2, 1) {
			case 0:
				k := t.KeyModel()
				t.Logf("key %s", hxs(k))
				t.Label("key")
				c.make = func(track *[][]byte) util.IEncodable {
					if len(k) == 0 && t.Bool() {
						return util.NewEmptyKey()
					}
					return t.mixedKey(k, track)
				}
				c.check = func(what string, e util.IEncodable) { checkKey(t, what+" of key", e.(util.IKey), k) }
				c.spoil = func(e util.IEncodable) {
					spoilKey(e.(util.IKey))
					if _, ok := e.(*util.MappedKey); ok {
						scribble(e.Buf())
					}
				}
				if b := refKey(k); len(b) <= util.MAX_KEY_LENGTH {
					c.want = b
				}
				if len(k) > 0 {
					t.NonTrivial()
				} else {
					// two empty keys need not be told apart
					e := c.make(&[][]byte{})
					c.check("copy", e.Copy())
					return
				}
			case 1:
				m := t.ValueModel(3, 200)
				t.Logf("value %s", m)
				t.Label("value")
				c.make = func(track *[][]byte) util.IEncodable { return t.mixedValue(m, track) }
				c.check = func(what string, e util.IEncodable) { checkValue(t, what+" of value", e.(util.IValue), m, true, nil) }
				c.spoil = func(e util.IEncodable) { spoilValue(e.(util.IValue)) }
				if b, ok := refValue(m); ok {
					c.want = b
				}
				if !m.isNil() {
					t.NonTrivial()
				}
			case 2:
				m := t.RecordModel(2, 200)
				t.Logf("record %s", m)
				t.Label("record")
				c.make = func(track *[][]byte) util.IEncodable { return t.mixedRecord(m, track) }
				c.check = func(what string, e util.IEncodable) {
					checkRecord(t, what+" of record", e.(util.IRecord), m, true, nil)
				}
				c.spoil = func(e util.IEncodable) { spoilRecord(e.(util.IRecord)) }
				if b, ok := refRecord(m); ok {
					c.want = b
				}
				if m.key != nil || !m.value.isNil() || !m.scheme.isNil() {
					t.NonTrivial()
				}
			case 3:
				m := t.SchemeModel()
				b, ok := refScheme(m)
				t.Logf("%s", m)
				t.Label("scheme")
				c.make = func(track *[][]byte) util.IEncodable {
					s := util.NewMappedSchemd(tracked(b, track))
					_, err := s.Decode(nil)
					t.Check(err == nil, "%s: decode: %v", m, err)
					if t.Bool() {
						return s.Copy()
					}
					return s
				}
				c.check = func(what string, e util.IEncodable) { checkScheme(t, what+" of scheme", e.(util.IScheme), m) }
				c.spoil = func(e util.IEncodable) {
					s := e.(util.IScheme)
					scribble(s.Domain())
					scribble(s.Tablet())
					for i := range s.Buckets() {
						scribble(s.BucketAt(i))
						s.Buckets()[i] = []byte{'#'}
					}
				}
				if ok {
					c.want = b
				}
				if len(b) > 1 {
					t.NonTrivial()
				}
			case 4:
				b := refConsensusID(t)
				t.Logf("consensus id %s", hx(b))
				t.Label("consensus id")
				o, err := util.NewMappedConsensusID(exact(b))
				t.Check(err == nil, "consensus id %s: %v", hx(b), err)
				cp := o.Copy()
				t.Check(string(cp.Buf()) == string(b) && cp.ConsensusMagic() == b[0], "copy of consensus id %s is %s", hx(b), hx(cp.Buf()))
				if t.Bool() {
					scribble(o.Buf())
					t.Check(string(cp.Buf()) == string(b), "copy of consensus id %s is %s after the original changed", hx(b), hx(cp.Buf()))
				} else {
					scribble(cp.Buf())
					t.Check(string(o.Buf()) == string(b), "consensus id %s is %s after its copy changed", hx(b), hx(o.Buf()))
				}
				t.NonTrivial()
				return
			}
			c.run()
		},
		Assume: []string{"timestamps and signature numbers are shared by copies, as the code documents (they are immutable)"},
	})

	register(&Prop{
		ID: "C17", Quick: 1200000, Thorough: 20000000,
		Rule: "A case is a scheme (domain, tablet, buckets, each there or not, empty or not, up to 1100 buckets) as the reference encoder writes it with something behind it; decoded, read, copied, encoded again against the size limit, and strict prefixes refused; " +
			"non-trivial: at least two components are there.",
		Run: func(t *T) {
			m := t.SchemeModel()
			if t.Chance(1, 6) { // around the limit
				b, _ := refScheme(m)
				n := util.MAX_SCHEME_LENGTH - len(b) + t.Int(0, 8) - 6
				if n > 0 {
					// what there is in the end: none of it may go beyond the limit
					switch t.Int(0, 3) {
					case 0:
						m.domain = append(m.domain, t.BytesN(n)...)
					case 1:
						m.tablet = append(m.tablet, t.BytesN(n)...)
					case 2:
						m.hasBuckets = true
						m.buckets = append(m.buckets, t.BytesN(n))
					case 3:
						m.hasBuckets, m.buckets = true, nil
						if t.Bool() {
							m.domain = append(m.domain, t.BytesN(n)...)
						} else {
							m.tablet = append(m.tablet, t.BytesN(n)...)
						}
					}
					// to the byte
					for i := 0; i < 3 && t.Bool(); i++ {
						b, _ := refScheme(m)
						if d := len(b) - util.MAX_SCHEME_LENGTH - t.Int(0, 1); len(m.domain) > 200 && d > 0 && d < 20 {
							m.domain = m.domain[d:]
						} else if len(m.tablet) > 200 && d > 0 && d < 20 {
							m.tablet = m.tablet[d:]
						}
					}
					t.Label("near the limit")
				}
			}
			b, ok := refScheme(m)
			trail := t.Trailer()
			t.Logf("%s, %d bytes, followed by %d", m, len(b), len(trail))
			s := util.NewMappedSchemd(t.Within(append(exact(b), trail...), "what is decoded"))
			n, err := s.Decode(nil)
			t.Check(err == nil && n == len(b), "%s: decode takes %d of %d bytes, error %v", m, n, len(b), err)
			t.Check(s.IsDecoded() && s.SchemeMagic() == b[0], "%s: not decoded after decode, or magic %x", m, s.SchemeMagic())
			t.Check(string(s.Buf()) == string(b), "%s: decoded scheme holds %s, should be %s", m, hx(s.Buf()), hx(b))
			checkScheme(t, "decoded scheme", s, m)
			var c util.IEncodable
			if t.Bool() {
				c = s.Copy()
			} else {
				c, err = s.CopyConstruct()
				t.Check(err == nil, "%s: copy construct: %v", m, err)
			}
			if t.Bool() {
				c = c.Copy()
			}
			checkScheme(t, "copy of scheme", c.(util.IScheme), m)
			err = c.Encode(nil)
			t.Check((err == nil) == ok, "%s of %d bytes: encode: %v", m, len(b), err)
			if ok {
				t.Check(c.IsEncoded() && string(c.Buf()) == string(b), "%s is encoded as %s, should be %s", m, hx(c.Buf()), hx(b))
				t.Check(c.(util.IScheme).SchemeMagic() == b[0], "%s: magic is %x", m, c.(util.IScheme).SchemeMagic())
			} else {
				t.Label("too long")
			}
			for i := 0; i < 6; i++ {
				cut := len(b) - 1 - i
				if i >= 3 {
					cut = t.Int(0, len(b)-1)
				}
				if cut < 0 {
					break
				}
				n, err := util.NewMappedSchemd(exact(b[:cut])).Decode(nil)
				t.Check(err != nil, "%s: %d of %d bytes are decoded, length %d", m, cut, len(b), n)
			}
			parts := 0
			for k := uint(5); k < 8; k++ {
				parts += int(b[0] >> k & 1)
			}
			t.Label("%d components", parts)
			if parts >= 2 {
				t.NonTrivial()
			}
		},
	})

	register(&Prop{
		ID: "C18", Quick: 400000, Thorough: 30000000,
		Rule: "A case is three consensus times of either kind, the second and third derived from an earlier one (one field moved by one, to a boundary, or anything), each made directly or read back from its bytes with something behind; bytes are compared with a reference, all six comparisons of all ordered pairs with the order of the fields; " +
			"non-trivial: two of the same kind differ in one field only.",
		Run: func(t *T) {
			type tm struct {
				raft bool
				f    [3]uint32
			}
			gen := func() uint32 {
				switch t.Int(0, 3) {
				case 0:
					return uint32(t.Draw(3))
				case 1:
					return []uint32{0xffffffff, 0x80000000, 0x7fffffff, 0xff, 0x100, 0xffff, 0x10000, 0xfffffffe}[t.Int(0, 7)]
				}
				return uint32(t.Draw(0xffffffff))
			}
			ms := []tm{}
			for len(ms) < 3 {
				m := tm{raft: t.Chance(3, 4)}
				if len(ms) > 0 && t.Chance(3, 4) {
					m = ms[t.Int(0, len(ms)-1)]
					for i := 0; i < 3; i++ {
						switch t.Weighted(3, 1, 1, 1) {
						case 1:
							m.f[i]++
						case 2:
							m.f[i]--
						case 3:
							m.f[i] = gen()
						}
					}
				} else {
					for i := range m.f {
						m.f[i] = gen()
					}
				}
				if !m.raft {
					m.f[1], m.f[2] = 0, 0
				}
				ms = append(ms, m)
			}
			type form struct {
				t util.IConsensusTime
				m tm
			}
			forms := []form{}
			for _, m := range ms {
				t.Logf("time raft=%v %v", m.raft, m.f)
				var ct util.IConsensusTime
				var want []byte
				if m.raft {
					ct = util.NewRaftTime(m.f[0], m.f[1], m.f[2])
					want = []byte{2}
					for _, f := range m.f {
						want = binary.BigEndian.AppendUint32(want, f)
					}
				} else {
					ct = util.NewLedgerTime(m.f[0])
					want = binary.BigEndian.AppendUint32([]byte{1}, m.f[0])
				}
				t.Check(string(t.Keep(ct.Buf(), "the bytes of a time")) == string(want), "time %v %v has bytes %x, should be %x", m.raft, m.f, ct.Buf(), want)
				back, err := util.NewConsensusTime(t.Within(append(exact(want), t.Trailer()...), "what is decoded"))
				t.Check(err == nil, "time %v %v: %v", m.raft, m.f, err)
				t.Check(string(back.Buf()) == string(want), "time %v %v is read back as %x", m.raft, m.f, back.Buf())
				cut := t.Int(0, len(want)-1)
				_, err = util.NewConsensusTime(exact(want[:cut]))
				t.Check(err != nil, "%d bytes of time %x are accepted", cut, want)
				bad := append([]byte{byte(t.Int(3, 256))}, t.BytesN(12)...)
				_, err = util.NewConsensusTime(bad)
				t.Check(err != nil, "time of unknown kind %x is accepted", bad)
				forms = append(forms, form{ct, m}, form{back, m})
			}
			for _, a := range forms {
				for _, b := range forms {
					what := fmt.Sprintf("%v %v and %v %v", a.m.raft, a.m.f, b.m.raft, b.m.f)
					c, diff := 0, 0
					for i := 2; i >= 0; i-- {
						if a.m.f[i] < b.m.f[i] {
							c = -1
							diff++
						} else if a.m.f[i] > b.m.f[i] {
							c = 1
							diff++
						}
					}
					for i, op := range []struct {
						name string
						f    func(util.IConsensusTime) (bool, error)
						want bool
					}{{"GT", a.t.GT, c > 0}, {"GE", a.t.GE, c >= 0}, {"EQ", a.t.EQ, c == 0}, {"NE", a.t.NE, c != 0}, {"LT", a.t.LT, c < 0}, {"LE", a.t.LE, c <= 0}} {
						got, err := op.f(b.t)
						if a.m.raft != b.m.raft {
							t.Check(err != nil, "%s of times of different kinds %s gives %v", op.name, what, got)
							continue
						}
						t.Check(err == nil, "%s of times %s: %v", op.name, what, err)
						t.Check(got == op.want, "%s of times %s is %v", op.name, what, got)
						_ = i
					}
					if a.m.raft == b.m.raft && diff == 1 {
						t.NonTrivial()
						t.Label("one field differs")
					}
				}
			}
		},
	})

	register(&Prop{
		ID: "C19", Quick: 2000000, Thorough: 30000000,
		Rule: "A case is a consensus id with any of its components, with something behind it, or cut, or with reserved bits, read and copied; " +
			"non-trivial: it has at least two components, or is invalid.",
		Run: func(t *T) {
			b := refConsensusID(t)
			t.Logf("consensus id %s", hx(b))
			id, err := util.NewMappedConsensusID(t.Within(append(exact(b), t.Trailer()...), "what is decoded"))
			t.Check(err == nil, "consensus id %s: %v", hx(b), err)
			t.Check(string(id.Buf()) == string(b), "consensus id %s holds %s", hx(b), hx(id.Buf()))
			t.Check(id.ConsensusMagic() == b[0], "consensus id %s has magic %x", hx(b), id.ConsensusMagic())
			cp := id.Copy()
			t.Check(string(cp.Buf()) == string(b) && cp.ConsensusMagic() == b[0], "copy of consensus id %s is %s", hx(b), hx(cp.Buf()))
			parts := 0
			for k := uint(3); k < 8; k++ {
				parts += int(b[0] >> k & 1)
			}
			t.Label("%d components", parts)
			if parts >= 2 {
				t.NonTrivial()
			}
			for i := 0; i < 4; i++ {
				cut := len(b) - 1 - i
				if i >= 1 {
					cut = t.Int(0, len(b)-1)
				}
				_, err = util.NewMappedConsensusID(exact(b[:cut]))
				t.Check(err != nil, "%d bytes of consensus id %s are accepted", cut, hx(b))
			}
			bad := t.BytesN(1 + 32*6)
			bad[0] = byte(t.Int(0, 31))<<3 | byte(t.Int(1, 7))
			if t.Chance(1, 4) {
				bad[0] = 0
			}
			_, err = util.NewMappedConsensusID(bad)
			t.Check(err != nil, "consensus id with magic %x is accepted", bad[0])
		},
	})
}
