package main

import (
	"bytes"
	"crypto/ecdsa"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"../util"
)

// everything below the configuration directory, by path: the content of files,
// the target of links
func snapshot() map[string]string {
	out := map[string]string{}
	filepath.Walk(etcRoot, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(etcRoot, path)
		switch {
		case info.Mode()&os.ModeSymlink != 0:
			target, _ := os.Readlink(path)
			out[rel] = "-> " + target
		case info.IsDir():
		default:
			data, _ := ioutil.ReadFile(path)
			out[rel] = fmt.Sprintf("%v %s", info.Mode(), data)
		}
		return nil
	})
	return out
}

func clearEtc() {
	entries, _ := ioutil.ReadDir(etcRoot)
	for _, e := range entries {
		if strings.Contains(etcRoot, "verif-") {
			os.RemoveAll(filepath.Join(etcRoot, e.Name()))
		}
	}
}

type outputBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (o *outputBuffer) Write(p []byte) (int, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.b.Write(p)
}

func (o *outputBuffer) String() string {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.b.String()
}

type keygenRun struct {
	code  int
	out   string
	asked bool
}

// runs the key generator; a question is answered, and the passphrases are
// typed once it asks for them, or all is there from the start
func runKeygen(args []string, answer string, phrases string, early, once bool) *keygenRun {
	bin := filepath.Join(filepath.Dir(etcRoot), "pkeygen")
	if _, err := os.Stat(bin); err != nil {
		fatal("no key generator: %v", err)
	}
	cmd := exec.Command(bin, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		fatal("%v", err)
	}
	out := &outputBuffer{}
	cmd.Stdout, cmd.Stderr = out, out
	if err := cmd.Start(); err != nil {
		fatal("%v", err)
	}
	done := make(chan struct{})
	go func() { cmd.Wait(); close(done) }()
	res := &keygenRun{}
	ended := false
	wait := func(cond func(string) bool) bool {
		for start := time.Now(); time.Since(start) < 120*time.Second; time.Sleep(200 * time.Microsecond) {
			if cond(out.String()) {
				return true
			}
			select {
			case <-done:
				ended = true
				return true
			default:
			}
		}
		return false
	}
	asksPhrase := func(s string) bool { return strings.Contains(strings.ToLower(s), "assphrase") }
	asks := func(s string) bool {
		return strings.Contains(s, "y/N") || strings.Contains(strings.ToLower(s), "overwrite?")
	}
	if once && !early {
		io.WriteString(in, answer+"\n"+phrases)
	}
	wait(func(s string) bool { return asks(s) || asksPhrase(s) })
	if !ended && asks(out.String()) && !asksPhrase(out.String()) {
		res.asked = true
		if early {
			// the input ends at the question
			io.WriteString(in, answer)
			in.Close()
		} else if !once {
			io.WriteString(in, answer+"\n")
		}
		wait(asksPhrase)
	}
	if !ended && !(early && res.asked) && !(once && !early) {
		io.WriteString(in, phrases)
	}
	in.Close()
	wait(func(string) bool { return false })
	if !ended {
		cmd.Process.Kill()
		<-done
		panic(failure{fmt.Sprintf("pkeygen %v does not end", args)})
	}
	res.code = cmd.ProcessState.ExitCode()
	res.out = out.String()
	res.asked = res.asked || once && asks(res.out)
	return res
}

// a passphrase as it is typed
func (t *T) Phrase() string {
	n := []int{8, 9, 7, 0, 15, 16, 17, 24, 32, 40}[t.Weighted(8, 3, 2, 1, 2, 3, 2, 1, 1, 1)]
	b := make([]byte, n)
	for i := range b {
		switch t.Weighted(10, 3, 1) {
		case 0:
			b[i] = byte('a' + t.Draw(25))
		case 1:
			b[i] = byte(' ' + t.Draw(94))
		case 2:
			b[i] = byte(0x80 + t.Draw(127))
		}
	}
	return string(b)
}

func padPhrase(p string) []byte {
	b := make([]byte, 16)
	copy(b, p)
	return b
}

// what is typed at a passphrase prompt
func typed(phrase string) func() {
	r, w, err := os.Pipe()
	if err != nil {
		fatal("%v", err)
	}
	io.WriteString(w, phrase+"\n")
	w.Close()
	old := os.Stdin
	os.Stdin = r
	return func() { os.Stdin = old; r.Close() }
}

// loads a private key at the passphrase prompt
func loadAtPrompt(cls int, id, phrase string) (*ecdsa.PrivateKey, error) {
	defer typed(phrase)()
	return util.LCLoadPrivKeyPrompt(cls, id)
}

// saves a key pair at the passphrase prompt
func saveAtPrompt(cls int, id string, k *keyModel, phrase string) error {
	defer typed(phrase)()
	return util.LCSaveKeyPairPrompt(cls, id, k.x, k.d)
}

func diffSnapshots(a, b map[string]string) string {
	out := []string{}
	for p, v := range a {
		if w, ok := b[p]; !ok {
			out = append(out, p+" is gone")
		} else if v != w {
			out = append(out, p+" has changed")
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			out = append(out, p+" is new")
		}
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

func init() {
	register(&Prop{
		ID: "C30", Quick: 1120, Thorough: 24000, Workers: 1,
		Rule: "A case is a history of up to 5 runs of the key generator (class or none, alias or none: new, taken, left by a key that was removed, or the name of a key or of one of its files; forced or not; overwriting confirmed or not; passphrases of 0 to 40 bytes, repeated right or wrong, or the input ends early, or all of it is there at once), with the key directory compared before and after each; some keys are saved at the prompt, new or with another passphrase; every key is loaded at last, by its padded passphrase and at the prompt, and refused with another; " +
			"non-trivial: at least two keys are generated.",
		Run: func(t *T) {
			clearEtc()
			type made struct {
				cls      int
				name, id string
				phrase   string
			}
			keys := []*made{}
			alias := map[string]string{} // class/alias to key id
			for i := 0; i < 5 && (i == 0 || t.More(4)); i++ {
				if len(keys) > 0 && t.Chance(1, 8) && strings.Contains(etcRoot, "verif-") {
					// a key is given up; its aliases lead nowhere then
					i := t.Int(0, len(keys)-1)
					k := keys[i]
					os.RemoveAll(filepath.Join(etcRoot, k.name, k.id))
					keys = append(keys[:i:i], keys[i+1:]...)
					t.Logf("%s %s is removed", k.name, k.id)
					for _, id := range alias {
						if id == k.id {
							t.Label("alias leads nowhere")
						}
					}
				}
				c := classes[t.Int(0, len(classes)-1)]
				class := c.name
				args := []string{}
				valid := true
				switch t.Weighted(12, 1) {
				case 0:
					args = append(args, "-class", class)
				case 1:
					valid = false
					if t.Bool() {
						class = []string{"nodes", "", "Node", "domain"}[t.Int(0, 3)]
						args = append(args, "-class", class)
					}
				}
				al := ""
				switch t.Weighted(3, 5, 1, 1) {
				case 1:
					al = []string{"main", "other"}[t.Int(0, 1)]
				case 2: // the name of a key
					for _, k := range keys {
						if k.name == class {
							al = k.id
						}
					}
				case 3: // one of its files
					for _, k := range keys {
						if k.name == class {
							al = k.id + "/" + class + []string{"_id", "_id.pub"}[t.Int(0, 1)]
						}
					}
				}
				if al != "" {
					args = append(args, "-alias", al)
				}
				force := t.Chance(1, 3)
				if force {
					args = append(args, "-force")
				}
				_, taken := alias[class+"/"+al]
				isKey := false
				for _, k := range keys {
					if k.name == class && (k.id == al || strings.HasPrefix(al, k.id+"/")) {
						isKey = true
					}
				}
				answer := []string{"y", "n", "", "Y", "yes", "no", " y "}[t.Weighted(6, 3, 2, 1, 1, 1, 1)]
				confirmed := strings.TrimSpace(answer) == "y" || strings.TrimSpace(answer) == "Y"
				phrase := t.Phrase()
				again := phrase
				eof := false
				switch t.Weighted(8, 2, 1) {
				case 1:
					again = t.Phrase()
					if t.Bool() && len(phrase) > 0 {
						b := []byte(phrase)
						b[t.Int(0, len(b)-1)] ^= 1
						again = string(b)
						if strings.IndexAny(again, "\x7f\x08\x03\n\r\x00") >= 0 {
							again = phrase
						}
					}
				case 2:
					eof = true
				}
				typed := phrase + "\n" + again + "\n"
				if eof {
					typed = phrase + "\n" + again
				}
				if len(phrase) < 8 {
					typed = phrase + "\n"
				}
				t.Logf("pkeygen %q, answer %q, passphrases %q", args, answer, typed)
				before := snapshot()
				early := t.Chance(1, 12)
				// what is answered and typed is there before it is asked for, as from a file
				once := valid && !isKey && taken && !force && !early && t.Chance(1, 2)
				if once {
					t.Logf("all at once")
					t.Label("all input at once")
				}
				r := runKeygen(args, answer, typed, early, once)
				after := snapshot()
				t.Logf("exit %d", r.code)
				change := diffSnapshots(before, after)

				refused := ""
				switch {
				case !valid:
					refused = "class is unknown"
				case isKey:
					// a key is not replaced by an alias, forced or not
					refused = "alias is a key"
				case taken && !force && !confirmed:
					refused = "alias exists, and overwriting it is not confirmed"
				case r.asked && early:
					refused = "the input ends at the question"
				case len(phrase) < 8:
					refused = "passphrase is too short"
				case eof || phrase != again:
					refused = "passphrase is not repeated"
				}
				if refused != "" {
					t.Label("refused: %s", refused)
					t.Check(r.code != 0, "%s, but pkeygen succeeds", refused)
					t.Check(change == "", "%s, but something changes: %s", refused, change)
					continue
				}
				if taken {
					t.Check(r.asked == !force, "alias exists, forced %v: pkeygen asks %v", force, r.asked)
				} else {
					t.Check(!r.asked, "no alias exists, but pkeygen asks")
				}
				// what is new
				ids := map[string]bool{}
				for p := range after {
					if _, ok := before[p]; !ok {
						if parts := strings.Split(p, "/"); len(parts) == 3 && parts[0] == class {
							ids[parts[1]] = true
						}
					}
				}
				t.Check(len(ids) == 1, "one key should be new: %s (exit %d, %s)", change, r.code, r.out)
				id := ""
				for k := range ids {
					id = k
				}
				for p, v := range before {
					if p == class+"/"+al {
						continue
					}
					t.Check(after[p] == v, "%s, which is none of its business, is changed by pkeygen %q", p, args)
				}
				keys = append(keys, &made{c.cls, class, id, phrase})
				t.Check(r.code == 0, "pkeygen %q fails: %s", args, r.out)
				t.Check(strings.Contains(r.out, id), "pkeygen does not print the public key %s: %s", id, r.out)
				want := map[string]bool{}
				for p := range before {
					want[p] = true
				}
				want[class+"/"+id+"/"+class+"_id"] = true
				want[class+"/"+id+"/"+class+"_id.pub"] = true
				if al != "" {
					want[class+"/"+al] = true
					alias[class+"/"+al] = id
					t.Label("alias")
					if taken {
						t.Label("alias moved")
					}
				}
				for p := range after {
					t.Check(want[p], "pkeygen %q makes %s", args, p)
				}
				t.Label("generated")
			}
			// all keys can be used, by their name and their aliases
			check := func(k *made, name string) {
				pub, err := util.LCLoadPubKey(k.cls, name)
				t.Check(err == nil, "public key %s: %v", name, err)
				t.Check(fmt.Sprintf("%x", pub.X.Bytes()) == k.id, "public key %s is %x, should be %s", name, pub.X, k.id)
				priv, err := util.LCLoadPrivKey(k.cls, name, padPhrase(k.phrase))
				t.Check(err == nil, "private key %s: %v", name, err)
				t.Check(priv.X.Cmp(pub.X) == 0 && priv.Y.Cmp(pub.Y) == 0, "private key %s does not go with the public one", name)
				hash := util.SumSHA256d([]byte(name))
				r, s, err := util.ECDSASign(priv, hash)
				t.Check(err == nil && util.ECDSAVerify(pub, hash, r, s), "keys %s do not sign and verify: %v", name, err)
				priv2, err := loadAtPrompt(k.cls, name, k.phrase)
				t.Check(err == nil && priv2.D.Cmp(priv.D) == 0, "private key %s, with its passphrase of %d bytes at the prompt: %v", name, len(k.phrase), err)
				other := t.Phrase()
				if len(other) < 8 || !bytes.Equal(padPhrase(other), padPhrase(k.phrase)) {
					_, err = loadAtPrompt(k.cls, name, other)
					t.Check(err != nil, "private key %s with passphrase %q is loaded with %q", name, k.phrase, other)
				}
			}
			// some are saved at the prompt, new ones or over those there are
			for i := 0; i < 3 && t.Chance(1, 3); i++ {
				c := classes[t.Int(0, len(classes)-1)]
				model, phrase := t.KeyPair(true), t.Phrase()
				id := fmt.Sprintf("%x", model.x.Bytes())
				var old *made
				before := snapshot()
				if len(keys) > 0 && t.Bool() {
					// the same key, under another passphrase
					old = keys[t.Int(0, len(keys)-1)]
					priv, err := util.LCLoadPrivKey(old.cls, old.id, padPhrase(old.phrase))
					t.Check(err == nil, "private key %s: %v", old.id, err)
					model = &keyModel{priv.D, priv.X, priv.Y}
					id = old.id
					for _, o := range classes {
						if o.cls == old.cls {
							c = o
						}
					}
				} else if _, ok := before[c.name+"/"+id+"/"+c.name+"_id"]; ok {
					break
				}
				err := saveAtPrompt(c.cls, id, model, phrase)
				t.Logf("save %s %s at the prompt with passphrase %q: %v", c.name, id, phrase, err)
				change := diffSnapshots(before, snapshot())
				t.Check((err == nil) == (len(phrase) >= 8), "saving a key pair at the prompt with a passphrase of %d bytes: %v", len(phrase), err)
				if err != nil {
					t.Check(change == "", "a passphrase is refused at the prompt, but something changes: %s", change)
					continue
				}
				t.Label("saved at the prompt")
				if old != nil {
					old.phrase = phrase
				} else {
					keys = append(keys, &made{c.cls, c.name, id, phrase})
				}
			}
			for _, k := range keys {
				check(k, k.id)
			}
			for a, id := range alias {
				for _, k := range keys {
					if k.id == id && strings.HasPrefix(a, k.name+"/") {
						check(k, strings.TrimPrefix(a, k.name+"/"))
					}
				}
			}
			if len(keys) >= 2 {
				t.NonTrivial()
			}
		},
		Assume: []string{"the key directory is redirected to a scratch directory at build time", "input comes from a pipe instead of a terminal"},
	})
}
