package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/md5"
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"hash/crc32"
	"io/ioutil"
	"math/big"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"sync/atomic"
	"syscall"
	"unicode/utf8"

	"../util"
)

const base58Digits = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// base 58 by long division of the bytes
func refBase58(b []byte) string {
	zeros := 0
	for zeros < len(b) && b[zeros] == 0 {
		zeros++
	}
	num := append([]byte{}, b[zeros:]...)
	out := []byte{}
	for len(num) > 0 {
		rest := 0
		quot := []byte{}
		for _, d := range num {
			cur := rest*256 + int(d)
			if q := cur / 58; len(quot) > 0 || q > 0 {
				quot = append(quot, byte(q))
			}
			rest = cur % 58
		}
		out = append([]byte{base58Digits[rest]}, out...)
		num = quot
	}
	return strings.Repeat("1", zeros) + string(out)
}

////////////////////////////////////////
// key pairs

var p256 = elliptic.P256()

type keyModel struct {
	d, x, y *big.Int // y is as calculated from x
}

// the point with that x whose y is the principal root
func principalY(x *big.Int) *big.Int {
	p := p256.Params().P
	y2 := new(big.Int).Exp(x, big.NewInt(3), p)
	y2.Sub(y2, new(big.Int).Mul(x, big.NewInt(3)))
	y2.Add(y2, p256.Params().B)
	y2.Mod(y2, p)
	e := new(big.Int).Add(p, big.NewInt(1))
	y := new(big.Int).Exp(y2, e.Rsh(e, 2), p) // p is 3 modulo 4
	if sq := new(big.Int).Exp(y, big.NewInt(2), p); sq.Cmp(y2) != 0 {
		return nil
	}
	return y
}

func (t *T) KeyPair(principal bool) *keyModel {
	n := p256.Params().N
	d := new(big.Int)
	switch t.Weighted(6, 1, 1, 1) {
	case 0:
		d.SetBytes(t.BytesN(32))
	case 1:
		d.SetInt64(int64(t.Draw(5)))
	case 2: // short
		d.SetBytes(t.BytesN(t.Int(1, 31)))
	case 3:
		d.Sub(n, big.NewInt(int64(1+t.Draw(4))))
	}
	d.Mod(d, n)
	if d.Sign() == 0 {
		d.SetInt64(1)
	}
	x, y := p256.ScalarBaseMult(d.Bytes())
	if principal {
		if want := principalY(x); want.Cmp(y) != 0 {
			d.Sub(n, d)
			y = want
		}
	}
	return &keyModel{d, x, y}
}

var classes = []struct {
	cls  int
	name string
}{
	{util.CLS_NODE, "node"}, {util.CLS_CLUSTER, "cluster"}, {util.CLS_UNIVERSE, "universe"}, {util.CLS_SERVICE, "service"}, {util.CLS_FEDERATION, "federation"},
}

var etcRoot string // where keys are kept in this run
var idCounter int64

// an id no other case uses
func freshID(t *T) string {
	for i, c := range classes {
		dir := util.LCGetEtcDir(c.cls)
		t.Check(strings.HasPrefix(filepath.Clean(dir), etcRoot+"/"), "keys of class %s are kept in %s, outside of the configuration directory", c.name, dir)
		for _, o := range classes[:i] {
			t.Check(dir != util.LCGetEtcDir(o.cls), "keys of class %s are kept together with those of class %s", c.name, o.name)
		}
	}
	return fmt.Sprintf("id-%d-%d", os.Getpid(), atomic.AddInt64(&idCounter, 1))
}

func dropID(id string) {
	for _, c := range classes {
		dir := filepath.Clean(util.LCGetEtcDir(c.cls) + "/" + id)
		if strings.HasPrefix(dir, etcRoot+"/") && len(id) > 0 {
			os.RemoveAll(dir)
		}
	}
}

func dropClassID(cls int, id string) {
	dir := filepath.Clean(util.LCGetEtcDir(cls) + "/" + id)
	if strings.HasPrefix(dir, etcRoot+"/") && len(id) > 0 {
		os.RemoveAll(dir)
	}
}

type failingReader struct{ left int }

func (r *failingReader) Read(b []byte) (int, error) {
	n := len(b)
	if n > r.left {
		n = r.left
	}
	r.left -= n
	if n == 0 {
		return 0, fmt.Errorf("no random bytes left")
	}
	for i := range b[:n] {
		b[i] = 0x77
	}
	return n, nil
}

// saves a key pair while the random source fails, or files can only have so
// many bytes, in a process of its own as the process may be ended then; exits 0
// if it was saved
func saveWithout(args string) {
	var cls, left, size int
	var id string
	var secret []byte
	x, d := new(big.Int), new(big.Int)
	if n, err := fmt.Sscanf(args, "%d %q %x %x %x %d %d", &cls, &id, x, d, &secret, &left, &size); n != 7 || err != nil {
		os.Exit(9)
	}
	if left >= 0 {
		crand.Reader = &failingReader{left}
	}
	if size >= 0 {
		signal.Ignore(syscall.SIGXFSZ)
		limit := syscall.Rlimit{Cur: uint64(size), Max: uint64(size)}
		if syscall.Setrlimit(syscall.RLIMIT_FSIZE, &limit) != nil {
			os.Exit(9)
		}
	}
	if util.LCSaveKeyPair(cls, id, x, d, secret) != nil {
		os.Exit(3)
	}
	os.Exit(0)
}

func pubPath(cls int, name, id string) string {
	return util.LCGetEtcDir(cls) + "/" + id + "/" + name + "_id.pub"
}
func privPath(cls int, name, id string) string {
	return util.LCGetEtcDir(cls) + "/" + id + "/" + name + "_id"
}

func (t *T) Secret() []byte {
	s := t.BytesN([]int{16, 24, 32}[t.Weighted(3, 1, 1)])
	if t.Chance(1, 3) {
		return util.AESPad([]byte("secret " + string(rune('a'+t.Int(0, 3)))))
	}
	return s
}

func withCRC(data []byte) []byte {
	c := crc32.ChecksumIEEE(data)
	return append(append([]byte{}, data...), byte(c>>24), byte(c>>16), byte(c>>8), byte(c))
}

func readKeyFile(t *T, path string) []byte {
	text, err := ioutil.ReadFile(path)
	t.Check(err == nil, "key file: %v", err)
	raw, err := hex.DecodeString(string(text))
	t.Check(err == nil && len(raw) > 4, "key file %s is not a hex dump: %v", filepath.Base(path), err)
	data := raw[:len(raw)-4]
	t.Check(bytes.Equal(withCRC(data), raw), "key file %s has the wrong checksum", filepath.Base(path))
	return data
}

func refOpen(secret, data []byte) ([]byte, error) {
	block, err := aes.NewCipher(secret)
	if err != nil {
		return nil, err
	}
	gcm, err := cipher.NewGCM(block)
	if err != nil {
		return nil, err
	}
	if len(data) < 12 {
		return nil, fmt.Errorf("short")
	}
	return gcm.Open(nil, data[:12], data[12:], nil)
}

func checkLoads(t *T, what string, cls int, id string, k *keyModel, secret []byte) {
	pub, err := util.LCLoadPubKey(cls, id)
	t.Check(err == nil, "%s: public key: %v", what, err)
	t.Check(pub.X.Cmp(k.x) == 0, "%s: public key is %x, should be %x", what, pub.X, k.x)
	t.Check(pub.Y.Cmp(principalY(k.x)) == 0, "%s: public key has y %x, should be %x", what, pub.Y, principalY(k.x))
	priv, err := util.LCLoadPrivKey(cls, id, secret)
	t.Check(err == nil, "%s: private key: %v", what, err)
	t.Check(priv.D.Cmp(k.d) == 0 && priv.X.Cmp(k.x) == 0 && priv.Y.Cmp(k.y) == 0, "%s: private key is %x, %x, %x, should be %x, %x, %x", what, priv.D, priv.X, priv.Y, k.d, k.x, k.y)
}

func init() {
	register(&Prop{
		ID: "C22", Quick: 900000, Thorough: 20000000,
		Rule: "A case is bytes (up to 2000, with leading zeros), encoded, compared with a reference by long division, and decoded; or a text over the 58 digits, decoded and encoded; or one with a character that is none, refused; " +
			"non-trivial: at least two bytes or digits.",
		Run: func(t *T) {
			switch t.Weighted(3, 2, 1) {
			case 0:
				b := t.Bytes(200, 1, 25, 32)
				if t.Chance(1, 400) {
					b = t.BytesN(t.Int(200, 2000))
				}
				if t.Bool() {
					b = append(make([]byte, t.Int(0, 6)), b...)
				}
				t.Logf("bytes %s", hx(b))
				t.Label("bytes")
				s := util.Base58Encode(t.Within(b, "what is encoded"))
				t.Check(s == refBase58(b), "%s is %q in base 58, should be %q", hx(b), s, refBase58(b))
				back := t.Keep(util.Base58Decode(s), "what was decoded")
				t.Check(back != nil && bytes.Equal(back, b), "%s is %q in base 58, which is decoded as %s", hx(b), s, hx(back))
				if len(b) >= 2 {
					t.NonTrivial()
				}
			default:
				n := t.Len(120, 1)
				if t.Chance(1, 400) {
					n = t.Int(120, 2500)
				}
				txt := make([]byte, n)
				for i := range txt {
					txt[i] = base58Digits[t.Draw(57)]
				}
				if t.Chance(1, 3) {
					txt = append([]byte("111"[:t.Int(0, 3)]), txt...)
				}
				if t.Bool() {
					t.Logf("text %q", txt)
					t.Label("text")
					b := t.Keep(util.Base58Decode(string(txt)), "what was decoded")
					t.Check(b != nil, "%q is refused", txt)
					t.Check(refBase58(b) == string(txt), "%q is decoded as %s, which is %q", txt, hx(b), refBase58(b))
					t.Check(util.Base58Encode(b) == string(txt), "%q is decoded and encoded as %q", txt, util.Base58Encode(b))
				} else {
					bad := []byte{byte(t.Draw(255))}
					switch t.Weighted(2, 2, 1) {
					case 1:
						bad[0] = "0OIl +/_-"[t.Int(0, 8)]
					case 2: // a character that looks or is coded like a digit, but is not ASCII
						bad = utf8.AppendRune(nil, rune(base58Digits[t.Draw(57)])+rune([...]int{0x100, 0xfee0, 0x100 * t.Int(1, 0x100)}[t.Int(0, 2)]))
						t.Label("beyond ASCII")
					}
					if len(bad) == 1 && strings.IndexByte(base58Digits, bad[0]) >= 0 {
						bad[0] = '0'
					}
					p := t.Int(0, len(txt))
					txt = append(txt[:p:p], append(bad, txt[p:]...)...)
					t.Logf("invalid text %q", txt)
					t.Label("invalid")
					b := util.Base58Decode(string(txt))
					t.Check(b == nil, "%q is decoded as %s", txt, hx(b))
				}
				if len(txt) >= 2 {
					t.NonTrivial()
				}
			}
		},
	})

	register(&Prop{
		ID: "C23", Quick: 20000, Thorough: 800000,
		Rule: "A case is a history of saving key pairs (private numbers of any size) under up to four similar ids in the five classes, over each other, with secrets of 16, 24, 32 or wrong lengths, and of loading them with the right secret, another one, or one of the wrong length; files are decrypted by a reference; obstacles are put in their place, or there is no space left; " +
			"non-trivial: at least two saves.",
		Run: func(t *T) {
			// identities are like each other
			base := freshID(t)
			if t.Chance(1, 12) { // up to the longest name that a file may have
				for n := t.Int(60, 255); len(base) < n; {
					base += "x"
				}
			}
			ids := []string{base}
			for i := 0; i < 3 && t.Bool(); i++ {
				o := ids[t.Int(0, len(ids)-1)]
				switch t.Int(0, 4) {
				case 0:
					o = strings.ToUpper(o)
				case 1:
					o += string("0aA._- "[t.Int(0, 6)]) + "x"
				case 2:
					o = o + o
				case 3:
					o = "0" + o
				case 4:
					o = "x" + o[1:]
				}
				have := false
				for _, x := range ids {
					have = have || x == o
				}
				if !have && len(o) < 256 {
					ids = append(ids, o)
				}
			}
			for _, id := range ids {
				defer dropID(id)
			}
			type saved struct {
				k       *keyModel
				secret  []byte
				damaged bool
			}
			type slot struct {
				cls int
				id  string
			}
			have := map[slot]*saved{}
			nonces := map[string]bool{}
			saves := 0
			for i := 0; i < 12 && t.More(6); i++ {
				c := classes[t.Int(0, len(classes)-1)]
				id := ids[t.Int(0, len(ids)-1)]
				at := slot{c.cls, id}
				s := have[at]
				switch t.Weighted(200, 160, 80, 40, 40, 1, 40, 2) {
				case 0: // save
					k := t.KeyPair(false)
					secret := t.Secret()
					if s != nil && t.Chance(1, 4) {
						k, secret = s.k, s.secret // once more
						t.Label("the same once more")
					}
					t.Logf("save %s %s %x with secret %x", c.name, id, k.d, secret)
					err := util.LCSaveKeyPair(c.cls, id, new(big.Int).Set(k.x), new(big.Int).Set(k.d), t.Within(secret, "secret"))
					t.Check(err == nil, "saving a key pair of class %s: %v", c.name, err)
					if s != nil {
						t.Label("over another")
					}
					fresh := s == nil
					have[at] = &saved{k, secret, false}
					pub := readKeyFile(t, pubPath(c.cls, c.name, id))
					t.Check(bytes.Equal(pub, fixed32(k.x)), "public key file of class %s holds %x, should be %x", c.name, pub, k.x)
					priv := readKeyFile(t, privPath(c.cls, c.name, id))
					plain, err := refOpen(secret, priv)
					t.Check(err == nil && bytes.Equal(plain, fixed32(k.d)), "private key file of class %s holds %x (%v), should be %x", c.name, plain, err, k.d)
					if len(k.d.Bytes()) >= 12 {
						t.Check(!bytes.Contains(priv, k.d.Bytes()), "private key file of class %s holds the key in clear", c.name)
					}
					nonce := string(priv[:12])
					t.Check(!nonces[nonce], "two key files are encrypted with the same nonce")
					t.Check(strings.Count(nonce, "\x00") < 8, "a key file is encrypted with the nonce %x", nonce)
					nonces[nonce] = true
					if st, err := os.Stat(privPath(c.cls, c.name, id)); fresh {
						t.Check(err == nil && st.Mode().Perm()&077 == 0, "private key file of class %s has mode %v", c.name, st.Mode())
					}
					saves++
					t.Label("save %s", c.name)
				case 1: // load
					if s == nil {
						_, err := util.LCLoadPubKey(c.cls, id)
						t.Check(err != nil, "a public key that was never saved is loaded")
						_, err = util.LCLoadPrivKey(c.cls, id, t.Secret())
						t.Check(err != nil, "a private key that was never saved is loaded")
						break
					}
					if s.damaged {
						break // C24
					}
					t.Logf("load %s %s", c.name, id)
					checkLoads(t, "key pair of class "+c.name, c.cls, id, s.k, s.secret)
				case 2: // another secret
					if s == nil {
						break
					}
					other := t.Secret()
					if t.Bool() {
						other = append([]byte{}, s.secret...)
						other[t.Int(0, len(other)-1)] ^= 1 << uint(t.Int(0, 7))
					}
					if bytes.Equal(other, s.secret) {
						break
					}
					t.Logf("load %s %s with secret %x", c.name, id, other)
					_, err := util.LCLoadPrivKey(c.cls, id, other)
					t.Check(err != nil, "private key of class %s, saved with secret %x, is loaded with %x", c.name, s.secret, other)
					t.Label("wrong secret")
				case 3: // a secret of the wrong length
					secret := t.BytesN(t.Int(0, 40))
					if n := len(secret); n == 16 || n == 24 || n == 32 {
						break
					}
					t.Logf("save %s %s with secret of %d bytes", c.name, id, len(secret))
					k := t.KeyPair(false)
					err := util.LCSaveKeyPair(c.cls, id, k.x, k.d, secret)
					t.Check(err != nil, "a key pair is saved with a secret of %d bytes", len(secret))
					if s != nil {
						_, err = util.LCLoadPrivKey(c.cls, id, secret)
						t.Check(err != nil, "a private key is loaded with a secret of %d bytes", len(secret))
					}
					t.Label("wrong length")
				case 4: // an obstacle
					oid := base + "-obstacle"
					dir := util.LCGetEtcDir(c.cls)
					where := t.Int(0, 4)
					var err error
					switch where {
					case 0: // a file instead of the directory
						if err = os.MkdirAll(dir, 0755); err == nil {
							err = ioutil.WriteFile(dir+"/"+oid, []byte("x"), 0644)
						}
					case 1: // a directory instead of a file
						err = os.MkdirAll(pubPath(c.cls, c.name, oid), 0755)
					case 2:
						err = os.MkdirAll(privPath(c.cls, c.name, oid), 0755)
					case 3, 4: // a file that takes nothing, because it is on a full device
						path := pubPath(c.cls, c.name, oid)
						if where == 4 {
							path = privPath(c.cls, c.name, oid)
						}
						if err = os.MkdirAll(filepath.Dir(path), 0755); err == nil {
							err = os.Symlink("/dev/full", path)
						}
					}
					if err != nil {
						break
					}
					k, secret := t.KeyPair(false), t.Secret()
					t.Logf("save %s %s over obstacle %d", c.name, oid, where)
					full, _ := os.Stat("/dev/full")
					err = util.LCSaveKeyPair(c.cls, oid, k.x, k.d, secret)
					if where >= 3 {
						if now, err := os.Stat("/dev/full"); full != nil && err == nil && now.Mode() != full.Mode() {
							os.Chmod("/dev/full", full.Mode()) // the device is not ours
						}
						if err == nil { // put in place of the file
							checkLoads(t, "key pair of class "+c.name+", one of whose files was on a full device", c.cls, oid, k, secret)
						}
						dropID(oid)
						t.Label("full device")
						break
					}
					dropID(oid)
					t.Check(err != nil, "a key pair is saved where something is in the way of %s", []string{"its directory", "the public key file", "the private key file"}[where])
					t.Label("obstacle")
				case 5: // the random source fails
					n := t.Int(0, 11)
					k, secret := t.KeyPair(false), t.Secret()
					t.Logf("save %s %s while the random source fails after %d bytes", c.name, id, n)
					cmd := exec.Command("/proc/self/exe", "-save-without", fmt.Sprintf("%d %q %x %x %x %d -1", c.cls, id, k.x, k.d, secret, n))
					err := cmd.Run()
					t.Check(cmd.ProcessState.ExitCode() != 9, "cannot make the random source fail")
					// not all ways to ask for random bytes return
					t.Check(err != nil, "a key pair is saved while the random source fails after %d bytes", n)
					if s == nil {
						dropClassID(c.cls, id)
					}
					t.Label("random source fails")
				case 7: // there is no space left for the files
					n := t.Int(0, 140)
					k, secret := t.KeyPair(false), t.Secret()
					oid := base + "-full"
					t.Logf("save %s %s while files have at most %d bytes", c.name, oid, n)
					cmd := exec.Command("/proc/self/exe", "-save-without", fmt.Sprintf("%d %q %x %x %x -1 %d", c.cls, oid, k.x, k.d, secret, n))
					err := cmd.Run()
					t.Check(cmd.ProcessState.ExitCode() != 9, "cannot limit the size of files")
					if err == nil {
						t.Label("enough space")
						checkLoads(t, fmt.Sprintf("key pair of class %s, saved where files have at most %d bytes", c.name, n), c.cls, oid, k, secret)
					} else {
						t.Label("no space")
					}
					dropID(oid)
				case 6: // the files are damaged, and are as good as none until saved over
					if s == nil {
						break
					}
					for _, path := range []string{pubPath(c.cls, c.name, id), privPath(c.cls, c.name, id)} {
						data, err := ioutil.ReadFile(path)
						if err != nil {
							continue
						}
						how := t.Int(0, 3)
						t.Logf("damage %s in way %d", filepath.Base(path), how)
						switch how {
						case 0:
							data = append(data, data[:t.Int(0, len(data))]...)
						case 1:
							data = data[:t.Int(0, len(data))]
						case 2:
							data = t.BytesN(t.Int(0, 600))
						case 3:
							continue
						}
						ioutil.WriteFile(path, data, 0600)
					}
					s.damaged = true
					t.Label("damaged")
				}
				for _, c := range classes {
					for _, id := range ids {
						s := have[slot{c.cls, id}]
						t.Check(util.LCExistPubKey(c.cls, id) == (s != nil), "existence of the public key of class %s is %v", c.name, s == nil)
						t.Check(util.LCExistPrivKey(c.cls, id) == (s != nil), "existence of the private key of class %s is %v", c.name, s == nil)
					}
				}
			}
			for _, c := range classes {
				for _, id := range ids {
					if s := have[slot{c.cls, id}]; s != nil && !s.damaged {
						checkLoads(t, "at last, key pair of class "+c.name, c.cls, id, s.k, s.secret)
					}
				}
			}
			if len(ids) > 1 && len(have) > 1 {
				t.Label("several")
			}
			if saves >= 2 {
				t.NonTrivial()
			}
		},
		Assume: []string{"the key directory is redirected to a scratch directory at build time"},
	})

	register(&Prop{
		ID: "C24", Quick: 25000, Thorough: 1000000,
		Rule: "A case is a saved key pair, one of whose two files is edited (bits flipped, bytes set, cut, extended, emptied, replaced by anything, or its content changed with the checksum made right) and loaded, sometimes after it was loaded whole, and repaired and damaged again: an error, or the very key that was saved; " +
			"non-trivial: the content that is read differs from the original.",
		Run: func(t *T) {
			id := freshID(t)
			defer dropID(id)
			c := classes[t.Int(0, len(classes)-1)]
			k := t.KeyPair(false)
			secret := t.Secret()
			t.Logf("save %s %x", c.name, k.d)
			err := util.LCSaveKeyPair(c.cls, id, k.x, k.d, exact(secret))
			t.Check(err == nil, "saving a key pair of class %s: %v", c.name, err)
			path := pubPath(c.cls, c.name, id)
			private := t.Bool()
			if private {
				path = privPath(c.cls, c.name, id)
				t.Label("private")
			} else {
				t.Label("public")
			}
			text, err := ioutil.ReadFile(path)
			t.Check(err == nil, "%v", err)
			orig, _ := hex.DecodeString(string(text))
			// loaded before the damage, and after it is repaired
			whole := func(when string) {
				priv, err := util.LCLoadPrivKey(c.cls, id, secret)
				t.Check(err == nil && priv.D.Cmp(k.d) == 0, "private key is %v, error %v, %s", priv, err, when)
				pub, err := util.LCLoadPubKey(c.cls, id)
				t.Check(err == nil && pub.X.Cmp(k.x) == 0, "public key is %v, error %v, %s", pub, err, when)
			}
			rounds := 1 + t.Weighted(3, 1, 1)
			for round := 0; round < rounds; round++ {
				if t.Chance(1, 3) {
					whole("before any damage")
					t.Label("loaded before")
				}
				if round > 0 {
					t.Label("damaged again")
				}
				fixed := false // the checksum was made right
				var now []byte
				switch t.Weighted(4, 3, 2, 1, 1, 3) {
				case 0: // the text
					var d string
					now, d = t.Mutate(text)
					t.Logf("edit text%s", d)
				case 1: // the bytes
					raw, d := t.Mutate(orig)
					now = []byte(fmt.Sprintf("%X", raw))
					t.Logf("edit bytes%s", d)
				case 2: // cut
					n := t.Int(0, len(text)-1)
					if t.Bool() {
						n &^= 1
					}
					now = append([]byte{}, text[:n]...)
					t.Logf("cut to %d", n)
				case 3: // anything
					now = t.Bytes(200)
					if t.Chance(1, 4) {
						now = make([]byte, t.Int(0, 40)) // a run of one byte
						b := [...]byte{0, 0, 0xff, 0x20, 0x0a}[t.Int(0, 4)]
						for i := range now {
							now[i] = b
						}
					}
					if t.Bool() {
						now = []byte(fmt.Sprintf("%X", now))
					}
					t.Logf("replace by %s", hx(now))
				case 4: // extended
					now = append(append([]byte{}, text...), []byte(fmt.Sprintf("%X", t.BytesN(t.Int(1, 9))))...)
					t.Logf("extend")
				case 5: // the content, with the right checksum
					data, d := t.Mutate(orig[:len(orig)-4])
					if t.Chance(1, 8) {
						data = t.BytesN(t.Int(0, 20) * t.Int(0, 1))
						d = " replaced"
					}
					now = []byte(fmt.Sprintf("%X", withCRC(data)))
					fixed = true
					t.Logf("edit content%s, right checksum", d)
					t.Label("right checksum")
				}
				if ioutil.WriteFile(path, now, 0600) != nil {
					t.Discard()
				}
				raw, herr := hex.DecodeString(string(now))
				if herr != nil || !bytes.Equal(raw, orig) {
					t.NonTrivial()
				}
				same := herr == nil && bytes.Equal(raw, orig)
				if !same && herr == nil && len(raw) >= 4 && bytes.Equal(withCRC(raw[:len(raw)-4]), raw) {
					fixed = true // such as ffffffff, whose checksum is ffffffff
				}
				if private {
					var priv *ecdsa.PrivateKey
					if panicked, what := Panics(func() { priv, err = util.LCLoadPrivKey(c.cls, id, secret) }); panicked {
						t.Failf("loading a damaged private key file panics: %v", what)
					}
					t.Check((err == nil) == same, "private key file, same content %v, is loaded with error %v", same, err)
					if err == nil {
						t.Check(priv.D.Cmp(k.d) == 0, "damaged private key file is loaded as %x, was %x", priv.D, k.d)
					}
					pub, err := util.LCLoadPubKey(c.cls, id)
					t.Check(err == nil && pub.X.Cmp(k.x) == 0, "public key is %v once the private key file is damaged", err)
				} else {
					var pub *ecdsa.PublicKey
					if panicked, what := Panics(func() { pub, err = util.LCLoadPubKey(c.cls, id) }); panicked {
						t.Failf("loading a damaged public key file panics: %v", what)
					}
					if fixed {
						// not a secret: anything on the curve will do
						if err == nil {
							t.Check(len(raw) > 4, "a public key file without data is loaded as %x", pub.X)
							t.Check(pub.X != nil && pub.Y != nil, "public key without a point")
							y := principalY(new(big.Int).Mod(pub.X, p256.Params().P))
							t.Check(y != nil, "public key %x is not on the curve", pub.X)
						}
					} else {
						t.Check((err == nil) == same, "public key file, same content %v, is loaded with error %v", same, err)
						if err == nil {
							t.Check(pub.X.Cmp(k.x) == 0, "damaged public key file is loaded as %x, was %x", pub.X, k.x)
						}
					}
					priv, err := util.LCLoadPrivKey(c.cls, id, secret)
					t.Check(err == nil && priv.D.Cmp(k.d) == 0, "private key is %v once the public key file is damaged", err)
				}
				if round+1 < rounds && ioutil.WriteFile(path, text, 0600) != nil {
					t.Discard()
				}
			}
		},
		Assume: []string{"an edit that keeps a 32 bit checksum, other than those which make it right, does not happen by chance"},
	})

	register(&Prop{
		ID: "C25", Quick: 32000, Thorough: 300000,
		Rule: "A case is a key pair (private number of any size, or generated by the code), restored from its private bytes and its public x, and a hash signed with it: each form of the public key accepts the signature, and refuses it with one bit of the hash, one of the numbers, or the key changed; " +
			"non-trivial: every case.",
		Run: func(t *T) {
			var k *keyModel
			if t.Chance(1, 4) {
				g := util.ECDSAGenerateKey()
				t.Check(g != nil && g.D != nil, "no key is generated")
				k = &keyModel{g.D, g.X, g.Y}
				x, y := p256.ScalarBaseMult(g.D.Bytes())
				t.Check(x.Cmp(g.X) == 0 && y.Cmp(g.Y) == 0, "generated key %x has point %x %x, should be %x %x", g.D, g.X, g.Y, x, y)
				t.Label("generated")
			} else {
				k = t.KeyPair(true)
				t.Label("drawn")
			}
			t.Logf("key %x", k.d)
			t.NonTrivial()
			privBytes := k.d.Bytes()
			if t.Bool() {
				privBytes = fixed32(k.d)
			}
			priv := util.ECDSAGetPrivateKey(exact(privBytes))
			t.Check(priv.D.Cmp(k.d) == 0 && priv.X.Cmp(k.x) == 0 && priv.Y.Cmp(k.y) == 0, "private key %x is restored as %x, %x, %x", k.d, priv.D, priv.X, priv.Y)
			pubBytes := k.x.Bytes()
			if t.Bool() {
				pubBytes = fixed32(k.x)
			}
			pub := util.ECDSAGetPublicKey(exact(pubBytes))
			t.Check(pub.X.Cmp(k.x) == 0 && pub.Y != nil && pub.Y.Cmp(k.y) == 0, "public key %x %x is restored as %x %x", k.x, k.y, pub.X, pub.Y)
			// x of a point or not
			x := new(big.Int).SetBytes(t.BytesN(32))
			x.Mod(x, p256.Params().P)
			y, want := util.ECDSACalculateY(p256, x), principalY(x)
			t.Check((y == nil) == (want == nil) && (y == nil || y.Cmp(want) == 0), "y of %x is %x, should be %x", x, y, want)

			hash := t.BytesN([]int{32, 32, 20, 48, 64, 16}[t.Int(0, 5)])
			if t.Bool() {
				hash = util.SumSHA256d(hash)
			}
			r, s, err := util.ECDSASign(priv, exact(hash))
			t.Check(err == nil, "sign: %v", err)
			t.Logf("hash %s signed %x %x", hx(hash), r, s)
			n := p256.Params().N
			t.Check(r.Sign() > 0 && s.Sign() > 0 && r.Cmp(n) < 0 && s.Cmp(n) < 0, "signature %x %x is out of range", r, s)
			for i, p := range []*ecdsa.PublicKey{pub, &priv.PublicKey} {
				t.Check(util.ECDSAVerify(p, hash, r, s), "signature is refused by form %d of the public key", i)
			}
			t.Check(ecdsa.Verify(&ecdsa.PublicKey{Curve: p256, X: k.x, Y: k.y}, hash, r, s), "signature is refused by the reference")
			r2, s2, err := util.ECDSASign(priv, exact(hash))
			t.Check(err == nil && util.ECDSAVerify(pub, hash, r2, s2), "signing again: %v", err)
			forms := []*ecdsa.PublicKey{pub, &priv.PublicKey}
			form := forms[t.Int(0, 1)]
			other := func(what string, x, y *big.Int) { // another number
				bad := new(big.Int)
				switch how := t.Int(0, 5); how {
				case 0:
					bad.Add(x, big.NewInt(int64(t.Int(1, 3))))
				case 1:
					bad.Xor(x, new(big.Int).Lsh(big.NewInt(1), uint(t.Int(0, 300))))
				case 2:
					bad.Add(x, new(big.Int).Mul(n, big.NewInt(int64(t.Int(1, 3)))))
				case 3:
					bad.Sub(x, n)
				case 4:
					bad.Neg(x)
				case 5:
					bad.Set(y)
				}
				if bad.Cmp(x) == 0 || what == "s" && new(big.Int).Add(bad, s).Cmp(n) == 0 {
					return // which is as good
				}
				t.Logf("with %s = %x", what, bad)
				if what == "r" {
					t.Check(!util.ECDSAVerify(form, hash, bad, s), "signature is accepted with %x for r", bad)
				} else {
					t.Check(!util.ECDSAVerify(form, hash, r, bad), "signature is accepted with %x for s", bad)
				}
			}
			switch t.Int(0, 4) {
			case 0:
				h := append([]byte{}, hash...)
				h[t.Int(0, min(len(h), 32)-1)] ^= 1 << uint(t.Int(0, 7))
				t.Check(!util.ECDSAVerify(form, h, r, s), "signature of %s is accepted for %s", hx(hash), hx(h))
			case 1:
				other("r", r, s)
			case 2:
				other("s", s, r)
			case 3:
				o := t.KeyPair(true)
				if o.x.Cmp(k.x) != 0 {
					t.Check(!util.ECDSAVerify(util.ECDSAGetPublicKey(o.x.Bytes()), hash, r, s), "signature is accepted by another key")
				}
			case 4:
				h := append([]byte{}, hash...)
				if len(h) < 32 && t.Bool() {
					h = append(h, byte(t.Int(0, 255)))
				} else if len(h) <= 32 {
					h = h[:len(h)-1]
				} else {
					h = h[1:]
				}
				if e := new(big.Int).SetBytes(h[:min(len(h), 32)]); e.Mod(e, n).Cmp(new(big.Int).Mod(new(big.Int).SetBytes(hash[:min(len(hash), 32)]), n)) != 0 {
					t.Check(!util.ECDSAVerify(form, h, r, s), "signature of %s is accepted for %s", hx(hash), hx(h))
				}
			}
			t.Check(!util.ECDSAVerify(pub, hash, big.NewInt(0), s) && !util.ECDSAVerify(pub, hash, r, big.NewInt(0)), "signature with a zero is accepted")
		},
		Assume: []string{"Go's elliptic curve and ECDSA packages are right"},
	})

	register(&Prop{
		ID: "C29", Quick: 600000, Thorough: 20000000,
		Rule: "A case is bytes of any length (block boundaries of the digests, 64 KB), digested in three ways and padded to a cipher key, compared with references; the input stays as it is; " +
			"non-trivial: at least 16 bytes.",
		Run: func(t *T) {
			b := t.Bytes(70000, 15, 16, 17, 55, 56, 63, 64, 119, 120)
			t.Logf("bytes %s", hx(b))
			in := t.Within(b, "what is digested and padded")
			sha := sha256.Sum256(b)
			shad := sha256.Sum256(sha[:])
			md := md5.Sum(b)
			t.Check(bytes.Equal(t.Keep(util.SumSHA256(in), "SHA-256"), sha[:]), "SHA-256 of %s is %x", hx(b), util.SumSHA256(in))
			t.Check(bytes.Equal(t.Keep(util.SumSHA256d(in), "double SHA-256"), shad[:]), "double SHA-256 of %s is %x", hx(b), util.SumSHA256d(in))
			t.Check(bytes.Equal(t.Keep(util.SumMD5(in), "MD5"), md[:]), "MD5 of %s is %x", hx(b), util.SumMD5(in))
			var pad [16]byte
			if len(b) >= 16 {
				copy(pad[:], b[len(b)-16:])
				t.NonTrivial()
			} else {
				copy(pad[:], b)
			}
			t.Check(bytes.Equal(t.Keep(util.AESPad(in), "what was padded"), pad[:]), "%s is padded to %x, should be %x", hx(b), util.AESPad(in), pad)
			t.Check(bytes.Equal(in, b), "the input %s has become %s", hx(b), hx(in))
		},
		Assume: []string{"Go's SHA-256 and MD5 are right"},
	})
}
