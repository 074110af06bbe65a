package main

// A small property based testing engine.
//
// A property is a function over *T. Every random decision of a case is a draw
// from [0, max] that is recorded, so that a case is exactly its choice
// sequence: a failing case is shrunk by editing the sequence (deleting blocks,
// zeroing, lowering values) and running the property again, and the replay
// file of a violation is the shrunk sequence. Generators are written such that
// 0 is the simplest choice, and a sequence that runs out continues with 0.

import (
	crand "crypto/rand"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"strings"

	"../util"
)

////////////////////////////////////////////////////////////////////////////////
// deterministic pseudo random numbers

type prng struct{ s uint64 }

func (p *prng) next() uint64 {
	p.s += 0x9e3779b97f4a7c15
	z := p.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func mix(parts ...interface{}) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	p := &prng{s: h.Sum64()}
	return p.next()
}

// stands in for the system's random source while a case runs, so that it can
// be replayed
type detReader struct {
	p     prng
	short bool // at most so many bytes at a time
}

func (r *detReader) Read(b []byte) (int, error) {
	var w [8]byte
	if r.short && len(b) > 1 {
		b = b[:1+int(r.p.next()%uint64(len(b)))]
	}
	for i := 0; i < len(b); i += 8 {
		binary.LittleEndian.PutUint64(w[:], r.p.next())
		copy(b[i:], w[:])
	}
	return len(b), nil
}

////////////////////////////////////////////////////////////////////////////////
// T

type T struct {
	rng       prng
	replay    []uint64
	replaying bool
	choices   []uint64

	log        []string
	logLen     int
	labels     map[string]int
	nontrivial bool
	knowns     map[string]string

	guards      []func() string // what must not have changed at the end of the case
	kept        int             // how many of these are results
	keepEncoded bool            // encodings are among them

	trieValues map[util.IValue]int // by the step they were set in, for messages

	drawLimit int // when positive, the number of draws after which there are only 0s

	caseDir   string
	stepLimit uint64
	steps     uint64
}

type failure struct{ msg string }
type discard struct{}

const (
	maxLogLine  = 400
	maxLogBytes = 16000
)

// Draw returns a number in [0, max]
func (t *T) Draw(max uint64) uint64 {
	var v uint64
	if t.replaying {
		if len(t.choices) < len(t.replay) {
			v = t.replay[len(t.choices)]
		}
		if v > max {
			v = max
		}
	} else if t.drawLimit == 0 || len(t.choices) < t.drawLimit {
		v = t.rng.next()
		if max != ^uint64(0) {
			v %= max + 1
		}
	}
	t.choices = append(t.choices, v)
	return v
}

// Int returns a number in [lo, hi], lo being the simplest
func (t *T) Int(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + int(t.Draw(uint64(hi-lo)))
}

// Bool is true half of the time, false is simplest
func (t *T) Bool() bool { return t.Draw(1) == 1 }

// Chance is true n out of d times, false is simplest
func (t *T) Chance(n, d int) bool { return t.Draw(uint64(d-1)) >= uint64(d-n) }

// Pick chooses an index by weight, the first is the simplest
func (t *T) Weighted(weights ...int) int {
	total := 0
	for _, w := range weights {
		total += w
	}
	v := int(t.Draw(uint64(total - 1)))
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return len(weights) - 1
}

// More decides whether a list goes on, avg elements on average
func (t *T) More(avg int) bool { return t.Draw(uint64(avg)) != 0 }

func (t *T) Logf(format string, a ...interface{}) {
	if t.logLen > maxLogBytes {
		return
	}
	s := fmt.Sprintf(format, a...)
	if len(s) > maxLogLine {
		s = s[:maxLogLine] + fmt.Sprintf("...(%d)", len(s))
	}
	t.log = append(t.log, s)
	t.logLen += len(s)
	if t.logLen > maxLogBytes {
		t.log = append(t.log, "(log cut here)")
	}
}

func (t *T) Label(format string, a ...interface{}) { t.labels[fmt.Sprintf(format, a...)] += 1 }

func (t *T) NonTrivial() { t.nontrivial = true }

func (t *T) Failf(format string, a ...interface{}) {
	panic(failure{fmt.Sprintf(format, a...)})
}

func (t *T) Check(ok bool, format string, a ...interface{}) {
	if !ok {
		t.Failf(format, a...)
	}
}

// Known reports a deviation that the known findings file may list; one which
// is not listed there is a failure
func (t *T) Known(id, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	if desc, ok := knownFindings[id]; ok {
		t.knowns[id] = desc
	} else {
		t.Failf("%s", msg)
	}
}

func (t *T) Discard() { panic(discard{}) }

// Panics reports whether f panics, and with what
func Panics(f func()) (panicked bool, what interface{}) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case failure, discard:
				panic(r)
			}
			panicked, what = true, r
		}
	}()
	f()
	return false, nil
}

////////////////////////////////////////////////////////////////////////////////
// outcome of a case

type Outcome struct {
	Failed     bool
	Discarded  bool
	Message    string
	Choices    []uint64
	Log        []string
	Labels     map[string]int
	NonTrivial bool
	Knowns     map[string]string
}

func (o *Outcome) hash() uint64 {
	h := uint64(14695981039346656037)
	for _, c := range o.Choices {
		for k := uint(0); k < 64; k += 8 {
			h ^= (c >> k) & 0xff
			h *= 1099511628211
		}
	}
	return h
}

// runs the property once, over the given choices or over random ones
func runCase(p *Prop, seed uint64, replay []uint64) *Outcome {

	t := &T{
		rng:       prng{s: seed},
		replay:    replay,
		replaying: replay != nil,
		labels:    map[string]int{},
		knowns:    map[string]string{},
	}

	t.caseDir = caseScratch
	o := &Outcome{Labels: t.labels, Knowns: t.knowns}

	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case discard:
					o.Discarded = true
				case failure:
					o.Failed = true
					o.Message = x.msg
				default:
					o.Failed = true
					o.Message = fmt.Sprintf("unexpected panic: %v\n%s", r, trimStack(string(debug.Stack())))
				}
			}
		}()
		// the system random source
		seed := t.Draw(^uint64(0))
		crand.Reader = &detReader{prng{s: seed}, seed%4 == 3}
		p.Run(t)
		if t.kept > 0 {
			Panics(otherResults)
		}
		for _, g := range t.guards {
			if changed := g(); changed != "" {
				t.Failf("%s", changed)
			}
		}
	}()

	o.Choices = t.choices
	o.Log = t.log
	o.NonTrivial = t.nontrivial
	return o
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if i := strings.Index(s, "panic("); i >= 0 {
		lines = strings.Split(s[i:], "\n")
	}
	if len(lines) > 16 {
		lines = lines[:16]
	}
	return strings.Join(lines, "\n")
}

////////////////////////////////////////////////////////////////////////////////
// shrinking

// shrink looks for a simpler choice sequence that still fails. improved is
// called for each better one, attempt for each attempt; stop ends the search
func shrink(p *Prop, best *Outcome, improved func(*Outcome), attempt func(), stop func() bool) *Outcome {

	try := func(c []uint64) bool {
		if stop() {
			return false
		}
		attempt()
		o := runCase(p, 0, append([]uint64{}, c...))
		if !o.Failed || !simpler(o.Choices, best.Choices) {
			return false
		}
		best = o
		improved(o)
		return true
	}

	for pass := 0; pass < 12 && !stop(); pass++ {
		before := append([]uint64{}, best.Choices...)

		// shorten
		for cut := len(best.Choices) / 2; cut > 0 && !stop(); cut /= 2 {
			for len(best.Choices) > cut && try(best.Choices[:len(best.Choices)-cut]) {
			}
		}

		// delete blocks
		for size := len(best.Choices) / 2; size > 0 && !stop(); {
			for i := len(best.Choices) - size; i >= 0 && !stop(); {
				c := best.Choices
				if i+size > len(c) {
					i = len(c) - size
					if i < 0 {
						break
					}
				}
				d := append(append([]uint64{}, c[:i]...), c[i+size:]...)
				if !try(d) {
					// deleting elements of a list may need its length, drawn before, lowered too
					done := false
					if size <= 8 && i > 0 && c[i-1] > 0 {
						e := append([]uint64{}, d...)
						e[i-1] -= 1
						done = try(e)
					}
					if !done {
						if size > 4 {
							i -= size / 2
						} else {
							i -= 1
						}
					}
				} else {
					i -= size
				}
			}
			if size > 8 {
				size /= 2
			} else {
				size -= 1
			}
		}

		// zero blocks
		for size := 8; size > 0 && !stop(); size /= 2 {
			for i := 0; i+size <= len(best.Choices) && !stop(); i += size {
				zero := true
				for _, v := range best.Choices[i : i+size] {
					zero = zero && v == 0
				}
				if zero {
					continue
				}
				d := append([]uint64{}, best.Choices...)
				for k := i; k < i+size; k++ {
					d[k] = 0
				}
				try(d)
			}
		}

		// lower values
		for i := 0; i < len(best.Choices) && !stop(); i++ {
			lo, hi := uint64(0), best.Choices[i]
			for lo < hi && !stop() {
				if i >= len(best.Choices) {
					break
				}
				mid := lo + (hi-lo)/2
				d := append([]uint64{}, best.Choices...)
				d[i] = mid
				if try(d) {
					hi = mid
				} else {
					lo = mid + 1
				}
			}
		}

		if equalChoices(before, best.Choices) {
			break
		}
	}
	return best
}

func equalChoices(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func simpler(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

////////////////////////////////////////////////////////////////////////////////
// scratch

var caseScratch string // scratch directory of this worker

func freshDir(name string) string {
	dir := caseScratch + "/" + name
	if err := os.RemoveAll(dir); err != nil {
		panic(err)
	}
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(err)
	}
	return dir
}

////////////////////////////////////////////////////////////////////////////////
// properties

type Prop struct {
	ID       string
	Rule     string
	Quick    int // cases
	Thorough int
	Workers  int // 0: as many as there are processors
	Run      func(t *T)
	Assume   []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

var knownFindings = map[string]string{} // of the property which runs, by id
