package main

import (
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"sync/atomic"

	"../util"
)

// files are opened in the temporary directory, which the build moves into the
// scratch directory
func tmpDirs() []string {
	return []string{filepath.Join(filepath.Dir(etcRoot), "tmp"), os.TempDir(), "/tmp"}
}

var fileCounter int64

func freshName() string {
	return fmt.Sprintf("verif-file-%d-%d", os.Getpid(), atomic.AddInt64(&fileCounter, 1))
}

type openFile struct {
	f      *os.File
	name   int
	pos    int
	closed bool
}

func filesCase(t *T) {
	names := []string{freshName(), freshName()}
	if t.Chance(1, 4) {
		names[1] = names[0] + ".bak"
	}
	defer func() {
		for _, n := range names {
			for _, d := range tmpDirs() {
				os.Remove(filepath.Join(d, n))
			}
		}
	}()
	content := map[int][]byte{} // by name
	paths := map[int]string{}
	handles := []*openFile{}
	defer func() {
		for _, h := range handles {
			h.f.Close()
		}
	}()
	check := func(i int, when string) {
		data, err := ioutil.ReadFile(paths[i])
		t.Check(err == nil, "%s, the file cannot be read: %v", when, err)
		t.Check(string(data) == string(content[i]), "%s, the file has %d bytes %s, should have %d bytes %s", when, len(data), hx(data), len(content[i]), hx(content[i]))
	}
	opens, writes := 0, 0
	for i := 0; i < 20 && t.More(14); i++ {
		n := t.Int(0, 1)
		var h *openFile
		if len(handles) > 0 {
			h = handles[t.Int(0, len(handles)-1)]
		}
		switch t.Weighted(4, 6, 2, 2, 2, 1, 1) {
		case 0: // open
			if len(handles) >= 4 {
				break
			}
			t.Logf("open %d", n)
			var f *os.File
			p, what := Panics(func() { f = util.Open(names[n]) })
			t.Check(!p && f != nil, "opening a file fails: %v", what)
			handles = append(handles, &openFile{f: f, name: n})
			content[n] = []byte{}
			if paths[n] == "" {
				for _, d := range tmpDirs() {
					if _, err := os.Stat(filepath.Join(d, names[n])); err == nil {
						paths[n] = filepath.Join(d, names[n])
						break
					}
				}
				t.Check(paths[n] != "", "a file that was opened is not in the temporary directory")
			}
			check(n, "opened")
			opens++
		case 1: // write
			if h == nil {
				break
			}
			size := t.Len(200000, 512, 4096, 32768, 65536, 131072)
			t.Logf("write %d bytes to %d, closed %v", size, h.name, h.closed)
			p, what := Panics(func() { util.Write(h.f, size) })
			if h.closed {
				t.Check(p, "writing %d bytes to a closed file succeeds", size)
				t.Label("write to a closed file")
				break
			}
			t.Check(!p, "writing %d bytes to a file fails: %v", size, what)
			c := content[h.name]
			if size > 0 {
				for len(c) < h.pos+size { // with a gap if the file was emptied
					c = append(c, 0)
				}
				copy(c[h.pos:], make([]byte, size))
			}
			content[h.name] = c
			h.pos += size
			check(h.name, fmt.Sprintf("after %d bytes were written", size))
			writes++
		case 2: // sync
			if h == nil {
				break
			}
			t.Logf("sync %d, closed %v", h.name, h.closed)
			p, what := Panics(func() { util.Sync(h.f) })
			t.Check(p == h.closed, "synchronising a file, closed %v: fails %v, %v", h.closed, p, what)
			if !p {
				check(h.name, "synchronised")
			}
		case 3: // close
			if h == nil {
				break
			}
			t.Logf("close %d", h.name)
			p, what := Panics(func() { util.Close(h.f) })
			t.Check(!p, "closing a file fails: %v", what)
			h.closed = true
			check(h.name, "closed")
		case 4: // someone else writes the file
			if paths[n] == "" {
				break
			}
			b := append([]byte("other"), t.BytesN(t.Int(0, 40))...)
			t.Logf("%d is changed by someone else", n)
			if f, err := os.OpenFile(paths[n], os.O_WRONLY, 0); err == nil {
				f.Write(b)
				f.Close()
				c := content[n]
				if len(c) < len(b) {
					c = append(c, make([]byte, len(b)-len(c))...)
				}
				copy(c, b)
				content[n] = c
				t.Label("changed by someone else")
			}
		case 5: // what cannot be opened
			bad := names[n] + "-no-directory/x"
			if t.Bool() {
				bad = "."
			}
			t.Logf("open %s", bad)
			p, _ := Panics(func() { util.Open(bad) })
			t.Check(p, "opening %q succeeds", bad)
			t.Label("cannot be opened")
		case 6: // what cannot be written or synchronised
			size := t.Len(100000, 512, 4096, 65536)
			switch t.Int(0, 2) {
			case 0: // full
				f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
				if err != nil {
					break
				}
				defer f.Close()
				p, _ := Panics(func() { util.Write(f, size) })
				t.Check(p || size == 0, "writing %d bytes to a full device: fails %v", size, p)
				t.Label("full")
			case 1: // only for reading
				if paths[n] == "" {
					break
				}
				f, err := os.Open(paths[n])
				if err != nil {
					break
				}
				defer f.Close()
				p, _ := Panics(func() { util.Write(f, size) })
				t.Check(p || size == 0, "writing %d bytes to a file opened for reading: fails %v", size, p)
			case 2: // a pipe, which nobody reads
				r, w, err := os.Pipe()
				if err != nil {
					break
				}
				defer w.Close()
				p, _ := Panics(func() { util.Sync(w) })
				t.Check(p, "synchronising a pipe succeeds")
				if t.Chance(1, 3) { // nobody after a while: a part is written
					size = 140000 + size
					part := make([]byte, 1+t.Draw(1000))
					done := make(chan bool)
					go func() {
						io.ReadFull(r, part)
						r.Close()
						close(done)
					}()
					p, _ = Panics(func() { util.Write(w, size) })
					w.Close()
					<-done
					t.Check(p, "writing %d bytes to a pipe that is closed at the other end after %d: succeeds", size, len(part))
					t.Label("written in part")
					break
				}
				r.Close()
				p, _ = Panics(func() { util.Write(w, size) })
				t.Check(p || size == 0, "writing %d bytes to a pipe that is closed at the other end: fails %v", size, p)
				t.Label("pipe")
			}
		}
	}
	for n := range paths {
		check(n, "at last")
	}
	if opens > 0 && writes > 1 {
		t.NonTrivial()
	}
}

func init() {
	register(&Prop{
		ID: "C38", Quick: 80000, Thorough: 1000000,
		Rule: "A case is a history of opening up to two files by name (up to four times altogether), writing, synchronising and closing them, in any order, with someone else changing them meanwhile, and of writing to and synchronising what cannot be (a full device, a file opened for reading, a broken pipe); the files are compared with a model after each step; " +
			"non-trivial: at least two writes.",
		Run:    filesCase,
		Assume: []string{"the temporary directory is redirected to a scratch directory at build time"},
	})
}
