package main

// Use by several goroutines at once. Either each works on objects of its own,
// or all read one object that nothing changes. The harness for this property
// is built with the race detector.

import (
	crand "crypto/rand"
	"fmt"
	"io"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"

	"../collection"
	"../util"
)

var systemRandom io.Reader = crand.Reader

// properties whose cases keep to objects of their own. Not among them are those
// which redirect standard output or input of the process
var apart = []string{
	"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19",
	"C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C32", "C33", "C34", "C35",
}

// one of the goroutines of a case
type strand struct {
	name  string
	seed  uint64
	limit int
	run   func(t *T)
}

// runs it and returns what failed
func (s *strand) once() (msg string, skipped bool) {
	t := &T{
		rng:       prng{s: s.seed},
		drawLimit: s.limit,
		labels:    map[string]int{},
		knowns:    map[string]string{},
		logLen:    maxLogBytes + 1, // keeps no log
	}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case discard:
				skipped = true
			case failure:
				msg = x.msg
			default:
				msg = fmt.Sprintf("unexpected panic: %v\n%s", r, trimStack(string(debug.Stack())))
			}
		}
	}()
	s.run(t)
	if t.kept > 0 {
		Panics(otherResults)
	}
	for _, g := range t.guards {
		if changed := g(); changed != "" {
			return changed, false
		}
	}
	return "", false
}

func (t *T) together(strands []*strand) {
	before := raceCount()
	msgs := make([]string, len(strands))
	start := make(chan bool)
	var wg sync.WaitGroup
	for i := range strands {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			msgs[i], _ = strands[i].once()
		}(i)
	}
	close(start)
	wg.Wait()
	if raceCount() != before {
		t.Failf("data race:\n%s", raceReport())
	}
	for i, msg := range msgs {
		if msg == "" {
			continue
		}
		// is it from being together?
		if alone, _ := strands[i].once(); alone != "" {
			t.Label("fails alone")
			t.Discard()
		}
		t.Failf("goroutine %d, %s: %s\n(it does not fail alone)", i, strands[i].name, msg)
	}
}

// the last report, without what is of no interest
func raceReport() string {
	data, _ := ioutil.ReadFile(filepath.Join(caseScratch, fmt.Sprintf("race.%d", os.Getpid())))
	s := string(data)
	if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	lines := strings.Split(s, "\n")
	if len(lines) > 30 {
		lines = lines[:30]
	}
	return strings.Join(lines, "\n")
}

////////////////////////////////////////////////////////////////////////////////
// one object, read by all. Each function builds one and returns how to read it

var sharedKinds = []struct {
	name string
	make func(t *T) func(t *T)
}{
	{"key", sharedKey}, {"value", sharedValue}, {"record", sharedRecord}, {"scheme", sharedScheme}, {"consensus", sharedConsensus},
	{"table", sharedTable}, {"trie", sharedTrie}, {"sorted map", sharedSorted}, {"hash map", sharedHash}, {"key pair", sharedKeyPair},
}

func readPrinted(t *T, p collection.IPrintable) {
	p.ToString()
	p.Print(ioutil.Discard, t.Int(0, 8))
}

func readEncoded(t *T, e util.IEncodable, want []byte) {
	t.Check(string(e.Buf()) == string(want), "is encoded as %s, should be %s", hx(e.Buf()), hx(want))
	t.Check(e.IsEncoded() && e.IsDecoded(), "is not encoded or not decoded")
	e.EstBufSize()
}

func (t *T) copyOf(e util.IEncodable) util.IEncodable {
	if t.Bool() {
		return e.Copy()
	}
	c, err := e.CopyConstruct()
	t.Check(err == nil, "copy: %v", err)
	return c
}

func sharedKey(t *T) func(t *T) {
	k := t.KeyModel()
	b := refKey(k)
	if len(b) > util.MAX_KEY_LENGTH {
		t.Discard()
	}
	var key util.IKey
	switch t.Int(0, 2) {
	case 0:
		key = t.MadeKey(k)
		mustEncode(t, "key", key)
	case 1:
		mk, _, err := util.NewMappedKey(exact(b))
		t.Check(err == nil, "key: %v", err)
		key = mk
	default:
		k, b = nil, []byte{0}
		key = util.NewEmptyKey()
	}
	t.Logf("%T %s", key, hxs(k))
	seed := uint32(t.Draw(9))
	hash := buildKey(k).HashUint32(fnvHash(seed))
	return func(t *T) {
		for i := 0; i < 6; i++ {
			switch t.Int(0, 5) {
			case 0:
				checkKey(t, "key", key, k)
			case 1:
				o := t.NearKeyModel(k)
				t.Check(sign(key.Compare(buildKey(o))) == refCompareKeys(k, o), "%s compared with %s: %d", hxs(k), hxs(o), key.Compare(buildKey(o)))
				t.Check(key.Equal(buildKey(o)) == (refCompareKeys(k, o) == 0), "%s equal to %s", hxs(k), hxs(o))
				t.Check(sign(buildKey(o).Compare(key)) == refCompareKeys(o, k), "%s compared with %s", hxs(o), hxs(k))
			case 2:
				t.Check(key.HashUint32(fnvHash(seed)) == hash, "key %s hashes to something else", hxs(k))
			case 3:
				readPrinted(t, key)
			case 4:
				readEncoded(t, key, b)
			case 5:
				checkKey(t, "copy", t.copyOf(key).(util.IKey), k)
			}
		}
	}
}

func sharedValue(t *T) func(t *T) {
	m := t.ValueModel(3, 40)
	b, ok := refValue(m)
	if !ok || m.isNil() {
		t.Discard()
	}
	var v util.IValue = buildValue(m)
	mapped := m.kind == 0 && t.Bool() // decoded arrays and lists decode an element when it is first asked for
	if mapped {
		mv, _, err := util.NewStandardMappedValue(exact(b))
		t.Check(err == nil, "value: %v", err)
		v, m = mv, normValue(m)
	} else {
		mustEncode(t, "value", v)
	}
	t.Logf("%T %s", v, m.short())
	return func(t *T) {
		for i := 0; i < 4; i++ {
			switch t.Int(0, 3) {
			case 0:
				checkValue(t, "value", v, m, mapped, &t.rng)
			case 1:
				if p, ok := v.(collection.IPrintable); ok {
					readPrinted(t, p)
				}
			case 2:
				readEncoded(t, v, b)
			case 3:
				checkValue(t, "copy", t.copyOf(v).(util.IValue), m, mapped, &t.rng)
			}
		}
	}
}

func sharedRecord(t *T) func(t *T) {
	m := t.RecordModel(2, 30)
	b, ok := refRecord(m)
	if !ok {
		t.Discard()
	}
	var r util.IRecord
	mapped := (m.value == nil || m.value.kind == 0) && (m.scheme == nil || m.scheme.kind == 0) && t.Bool()
	if mapped {
		mr, _, err := util.NewMappedRecord(exact(b))
		t.Check(err == nil, "record: %v", err)
		r, m = mr, normRecord(m)
	} else {
		r = buildRecord(m)
		mustEncode(t, "record", r)
	}
	t.Logf("%T %s", r, m.short())
	return func(t *T) {
		for i := 0; i < 4; i++ {
			switch t.Int(0, 2) {
			case 0:
				checkRecord(t, "record", r, m, mapped, &t.rng)
			case 1:
				readEncoded(t, r, b)
				t.Check(r.RecordMagic() == b[0], "magic is %x", r.RecordMagic())
			case 2:
				checkRecord(t, "copy", t.copyOf(r).(util.IRecord), m, mapped, &t.rng)
			}
		}
	}
}

func sharedScheme(t *T) func(t *T) {
	m := t.SchemeModel()
	b, ok := refScheme(m)
	if !ok {
		t.Discard()
	}
	mapped := util.NewMappedSchemd(exact(b))
	_, err := mapped.Decode(nil)
	t.Check(err == nil, "scheme: %v", err)
	var s util.IScheme = mapped
	if t.Bool() {
		s = mapped.Copy().(util.IScheme)
		mustEncode(t, "scheme", s)
	}
	t.Logf("%T %s", s, m)
	return func(t *T) {
		for i := 0; i < 4; i++ {
			switch t.Int(0, 2) {
			case 0:
				checkScheme(t, "scheme", s, m)
			case 1:
				readEncoded(t, s, b)
				t.Check(s.SchemeMagic() == b[0], "magic is %x", s.SchemeMagic())
			case 2:
				checkScheme(t, "copy", t.copyOf(s).(util.IScheme), m)
			}
		}
	}
}

func sharedConsensus(t *T) func(t *T) {
	b := refConsensusID(t)
	id, err := util.NewMappedConsensusID(exact(b))
	t.Check(err == nil, "consensus id: %v", err)
	f := [3]uint32{uint32(t.Draw(2)), uint32(t.Draw(2)), uint32(t.Draw(2))}
	tm := util.NewRaftTime(f[0], f[1], f[2])
	t.Logf("consensus id %s, time %v", hx(b), f)
	return func(t *T) {
		for i := 0; i < 6; i++ {
			switch t.Int(0, 2) {
			case 0:
				t.Check(string(id.Buf()) == string(b) && id.ConsensusMagic() == b[0], "consensus id is %s, should be %s", hx(id.Buf()), hx(b))
			case 1:
				t.Check(string(id.Copy().Buf()) == string(b), "copy of consensus id is %s, should be %s", hx(id.Copy().Buf()), hx(b))
			case 2:
				o, err := util.NewConsensusTime(tm.Buf())
				t.Check(err == nil, "consensus time: %v", err)
				eq, err := o.EQ(tm)
				gt, err2 := tm.GT(util.NewRaftTime(f[0], f[1], f[2]+1))
				t.Check(err == nil && err2 == nil && eq && !gt, "consensus time %v is not itself", f)
			}
		}
	}
}

func sharedTable(t *T) func(t *T) {
	keys, _, byKey, table := t.mphCase(60)
	coded, err := table.Encode()
	t.Check(err == nil, "table: %v", err)
	if t.Bool() {
		table, _, err = util.NewMPHTable(exact(coded))
		t.Check(err == nil, "table: %v", err)
	}
	return func(t *T) {
		for i := 0; i < 3; i++ {
			if t.Chance(2, 3) {
				t.mphLookup("table", table, keys, byKey)
			} else {
				b, err := table.Encode() // its keys are encoded already
				t.Check(err == nil && string(b) == string(coded), "table is encoded in another way: %v", err)
			}
		}
	}
}

func sharedTrie(t *T) func(t *T) {
	c := &codedTrie{t: t, trie: util.NewTrie(), have: map[string]*codedEntry{}}
	c.edit(15, 7)
	if err := c.trie.Encode(nil); err != nil {
		t.Discard()
	}
	var trie interface {
		readableTrie
		collection.IPrintable
		util.IEncodable
	} = c.trie
	b := append([]byte{}, c.trie.Buf()...)
	mapped := t.Bool()
	for _, e := range c.have {
		mapped = mapped && e.m.kind == 0
	}
	if mapped {
		mt, _, err := util.NewMappedTrie(exact(b))
		t.Check(err == nil, "trie: %v", err)
		trie = mt
	}
	t.Logf("%T of %d keys", trie, len(c.have))
	return func(t *T) {
		own := *c
		own.t = t
		for i := 0; i < 3; i++ {
			switch t.Weighted(3, 1, 1, 1) {
			case 0:
				own.checkTrie("trie", trie, mapped)
			case 1:
				readPrinted(t, trie)
			case 2:
				readEncoded(t, trie, b)
			case 3:
				own.checkTrie("copy", trie.Copy().(readableTrie), mapped)
			}
		}
	}
}

func sharedSorted(t *T) func(t *T) {
	m, s := collection.NewSortedMap(), collection.NewSortedSet()
	domain := t.Int(1, 60)
	have := map[int]bool{}
	for i := 0; i < 60 && t.More(30); i++ {
		k := t.Int(0, domain)
		m.Put(&cmpKey{n: k}, k)
		s.Put(&cmpKey{n: k})
		have[k] = true
	}
	for i := 0; i < 60 && t.More(4); i++ {
		k := t.Int(0, domain)
		m.Remove(&cmpKey{n: k})
		s.Remove(&cmpKey{n: k})
		delete(have, k)
	}
	t.Logf("%d keys up to %d", len(have), domain)
	return func(t *T) {
		for i := 0; i < 4; i++ {
			switch t.Int(0, 3) {
			case 0:
				t.Check(m.Size() == len(have) && s.Size() == len(have), "%d and %d keys, should be %d", m.Size(), s.Size(), len(have))
			case 1:
				k := t.Int(0, domain)
				t.Check((m.Get(&cmpKey{n: k}) == collection.IObject(k)) == have[k], "value of %d is %v", k, m.Get(&cmpKey{n: k}))
				t.Check(s.Exist(&cmpKey{n: k}) == have[k], "%d is in the set: %v", k, !have[k])
			case 2:
				lo, hi := t.Int(0, domain), t.Int(0, domain+1)
				if lo > hi {
					lo, hi = hi, lo
				}
				it, k := m.RangeIterator(&cmpKey{n: lo}, &cmpKey{n: hi}), lo
				for ; k < hi; k++ {
					if have[k] {
						t.Check(it.HasNext(), "from %d to %d: ends before %d", lo, hi, k)
						pk, _ := it.Peek()
						got, v := it.Next()
						t.Check(got.(*cmpKey).n == k && v == collection.IObject(k) && pk.(*cmpKey).n == k, "from %d to %d: %v instead of %d", lo, hi, got, k)
					}
				}
				t.Check(!it.HasNext(), "from %d to %d: does not end", lo, hi)
			case 3:
				n := 0
				for it := s.Iterator(); it.HasNext(); n++ {
					k := it.Next()
					t.Check(have[k.(*cmpKey).n], "%v is visited", k)
				}
				t.Check(n == len(have), "%d of %d keys are visited", n, len(have))
			}
		}
	}
}

func sharedHash(t *T) func(t *T) {
	m, s := collection.NewHashMap(), collection.NewHashSet()
	domain, kind := t.Int(1, 60), t.Int(0, hashKinds-1)
	key := func(n int) *hashKey { return &hashKey{n: n, kind: kind} }
	have := map[int]bool{}
	for i := 0; i < 60 && t.More(30); i++ {
		k := t.Int(0, domain)
		m.Put(key(k), k)
		s.Put(key(k))
		have[k] = true
	}
	for i := 0; i < 60 && t.More(4); i++ {
		k := t.Int(0, domain)
		m.Remove(key(k))
		s.Remove(key(k))
		delete(have, k)
	}
	t.Logf("%d keys up to %d, kind %d", len(have), domain, kind)
	return func(t *T) {
		for i := 0; i < 4; i++ {
			switch t.Int(0, 3) {
			case 0:
				t.Check(m.Size() == len(have) && s.Size() == len(have), "%d and %d keys, should be %d", m.Size(), s.Size(), len(have))
			case 1:
				k := t.Int(0, domain)
				t.Check((m.Get(key(k)) == collection.IObject(k)) == have[k], "value of %d is %v", k, m.Get(key(k)))
				t.Check(s.Exist(key(k)) == have[k], "%d is in the set: %v", k, !have[k])
			case 2:
				n := 0
				for it := m.Iterator(); it.HasNext(); n++ {
					k, v := it.Next()
					t.Check(have[k.(*hashKey).n] && v == collection.IObject(k.(*hashKey).n), "%v is visited, with %v", k, v)
				}
				t.Check(n == len(have), "%d of %d keys are visited", n, len(have))
			case 3:
				n := 0
				for it := s.Iterator(); it.HasNext(); n++ {
					k := it.Next()
					t.Check(have[k.(*hashKey).n], "%v is visited", k)
				}
				t.Check(n == len(have), "%d of %d keys are visited", n, len(have))
			}
		}
	}
}

func sharedKeyPair(t *T) func(t *T) {
	k := t.KeyPair(true)
	priv := util.ECDSAGetPrivateKey(k.d.Bytes())
	pub := util.ECDSAGetPublicKey(k.x.Bytes())
	msg := t.BytesN(32)
	r, s, err := util.ECDSASign(priv, msg)
	t.Check(err == nil, "signing: %v", err)
	t.Logf("key %x", k.d)
	return func(t *T) {
		switch t.Int(0, 1) {
		case 0:
			t.Check(util.ECDSAVerify(pub, msg, new(big.Int).Set(r), new(big.Int).Set(s)), "signature is not verified")
		case 1:
			r, s, err := util.ECDSASign(priv, msg)
			t.Check(err == nil && util.ECDSAVerify(pub, msg, r, s), "own signature is not verified: %v", err)
		}
	}
}

////////////////////////////////////////////////////////////////////////////////

func init() {
	register(&Prop{
		ID: "C36", Quick: 20000, Thorough: 200000, Workers: 6,
		Rule: "A case runs 2 to 5 goroutines: either each runs a case of another property, over objects of its own, or all read one object (key, value, record, scheme, consensus id and time, perfect hash table, trie, map, set, key pair) in every way it can be read; each gets what it gets alone, and the race detector, which the check is built with, stays quiet; " +
			"non-trivial: at least 2 goroutines ran to their end.",
		Run: func(t *T) {
			runtime.GOMAXPROCS(4)
			crand.Reader = systemRandom // one that can be used by all
			n := t.Int(2, 5)
			strands := []*strand{}
			if t.Bool() {
				kind := sharedKinds[t.Int(0, len(sharedKinds)-1)]
				t.Logf("%d goroutines read one %s", n, kind.name)
				t.Label("one %s", kind.name)
				read := kind.make(t)
				for i := 0; i < n; i++ {
					strands = append(strands, &strand{"reading a " + kind.name, t.Draw(1 << 30), t.Int(1, 200), read})
				}
			} else {
				// the same property half of the time
				id := apart[t.Int(0, len(apart)-1)]
				same := t.Bool()
				for i := 0; i < n; i++ {
					if !same && i > 0 {
						id = apart[t.Int(0, len(apart)-1)]
					}
					s := &strand{"a case of " + id, t.Draw(1 << 30), t.Int(1, 400), props[id].Run}
					t.Logf("goroutine %d: %s, seed %d, %d draws", i, s.name, s.seed, s.limit)
					t.Label("apart: %s", id)
					strands = append(strands, s)
				}
			}
			t.together(strands)
			t.NonTrivial()
		},
		Assume: []string{"random numbers are those of the system", "a case that fails alone is left to the property it belongs to"},
	})
}
