package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"math/big"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/aureleoules/btc"
)

/* ---- long runs (Sweep.tla) ------------------------------------------------
 *
 *	driver sweep SEED KIND:FROM:N[:CAREFUL],... OUT
 *
 * performs items FROM .. FROM+N-1 of each kind, taking turns, and writes their
 * records to OUT.KIND. From item CAREFUL on, what is known of the item is
 * written to OUT.now before each call. With VERIF_SWEEP_THREADS=T, T threads do
 * so at the same time.
 */

var (
	orderN, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
	primeP, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
	cubeRt, _ = new(big.Int).SetString("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee", 16)
)

const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func base58(b []byte) string {
	n, q, r := new(big.Int).SetBytes(b), big.NewInt(58), new(big.Int)
	var t []byte
	for n.Sign() > 0 {
		n.DivMod(n, q, r)
		t = append(t, b58[r.Int64()])
	}
	for i := 0; i < len(b) && b[i] == 0; i++ {
		t = append(t, '1')
	}
	for i, j := 0, len(t)-1; i < j; i, j = i+1, j-1 {
		t[i], t[j] = t[j], t[i]
	}
	return string(t)
}

var sweepLists = []string{"English", "French", "Japanese", "Italian", "Spanish", "Korean", "Czech", "ChineseTraditional", "ChineseSimplified"}
var sizes = []int{16, 20, 24, 28, 32}

type sweeper struct {
	seed    string
	nets    []*btc.Network
	rec     bytes.Buffer
	now     string // file for what is known of the item
	careful bool
	first   int // kind of item to start with
	kind    string
	item    int
	capture *os.File
	before  int64
	held    []held
}

// what the caller keeps, and what it was
type held struct {
	kind string
	item int
	was  string
	now  func() string
}

// keep keeps what one item in 37 returned
func (s *sweeper) keep(now func() string) {
	if s.item%37 == 0 {
		s.held = append(s.held, held{s.kind, s.item, strings.Clone(now()), now})
	}
}
func (s *sweeper) changed(w *os.File) {
	for i := range s.held {
		h := &s.held[i]
		t := "panic"
		func() {
			defer func() { recover() }()
			t = h.now()
		}()
		if t != h.was {
			w.WriteString(h.kind + " " + strconv.Itoa(h.item) + "\n")
		}
	}
}
func privText(p *btc.PrivateKey) string {
	n := "nil"
	if p.Network != nil {
		n = p.Network.PrivKeyPrefix + "/" + p.Network.PubKeyHashPrefix
	}
	return num(p.Key) + " " + p.Hex + " " + p.WIF + " " + n
}
func pubText(p *btc.PublicKey) string {
	n := "nil"
	if p.Network != nil {
		n = p.Network.PrivKeyPrefix + "/" + p.Network.PubKeyHashPrefix
	}
	return num(p.X) + " " + num(p.Y) + " " + n
}

func (s *sweeper) d(kind string, i, j int) []byte {
	h := sha256.Sum256([]byte(s.seed + "|sweep-" + kind + strconv.Itoa(j) + "|" + strconv.Itoa(i)))
	return h[:]
}
func shape(i int, d, e []byte) []byte {
	if i%2 == 0 {
		return d
	}
	a := int(e[0]) % 32
	n := 1 + int(e[1])%(32-a)
	r := append([]byte{}, d...)
	for j := a; j < a+n; j++ {
		r[j] = []byte{0, 255, 128, 1}[e[2]%4]
	}
	return r
}
func upper(t string, i int) string {
	if i%3 == 0 {
		return strings.ToUpper(t)
	}
	return t
}

func (s *sweeper) field(b []byte) {
	if len(b) > 65535 {
		b = b[:65535]
	}
	s.rec.Write([]byte{byte(len(b) >> 8), byte(len(b))})
	s.rec.Write(b)
}
func (s *sweeper) text(t string) { s.field([]byte(t)) }
func (s *sweeper) num(n *big.Int) {
	switch {
	case n == nil:
		s.field(make([]byte, 100))
	case n.Sign() < 0:
		s.field(make([]byte, 101))
	default:
		s.field(n.Bytes())
	}
}
func (s *sweeper) net(n *btc.Network) {
	if n == nil {
		s.text("nil")
		s.text("nil")
		return
	}
	s.text(n.PrivKeyPrefix)
	s.text(n.PubKeyHashPrefix)
}

// mark writes how a call ended; true when a result follows
func (s *sweeper) mark(panicked, ok, has bool) bool {
	m := "ok"
	switch {
	case panicked:
		m = "panic"
	case !ok && has:
		m = "errbad"
	case ok && !has:
		m = "okbad"
	case !ok:
		m = "err"
	}
	if s.capture == nil {
		/* nobody knows whose output it is */
	} else if st, err := s.capture.Stat(); err == nil && st.Size() != s.before {
		m += "!" + strconv.FormatInt(st.Size()-s.before, 10)
		s.before = st.Size()
	}
	s.text(m)
	return ok && has && !panicked
}

// try makes a call; false when it panics
func (s *sweeper) try(f func()) (panicked bool) {
	if s.careful {
		if err := os.WriteFile(s.now, append([]byte(s.kind+" "+strconv.Itoa(s.item)+"\n"), s.rec.Bytes()...), 0644); err != nil {
			bug(err.Error())
		}
	}
	if s.item%2 == 1 {
		s.between()
	}
	defer func() {
		if e := recover(); e != nil {
			panicked = true
		}
	}()
	f()
	return false
}
func (s *sweeper) privKey(p *btc.PrivateKey) {
	s.num(p.Key)
	s.text(p.Hex)
	s.text(p.WIF)
	s.net(p.Network)
}
func (s *sweeper) pubKey(p *btc.PublicKey) {
	s.num(p.X)
	s.num(p.Y)
	s.net(p.Network)
}
func (s *sweeper) priv(f func() (*btc.PrivateKey, error)) *btc.PrivateKey {
	var p *btc.PrivateKey
	var err error
	bad := s.try(func() { p, err = f() })
	if s.mark(bad, err == nil, p != nil) {
		s.privKey(p)
		s.keep(func() string { return privText(p) })
		return p
	}
	return nil
}
func (s *sweeper) pub(f func() (*btc.PublicKey, bool)) *btc.PublicKey {
	var p *btc.PublicKey
	var ok bool
	bad := s.try(func() { p, ok = f() })
	if s.mark(bad, ok, p != nil) {
		s.pubKey(p)
		s.keep(func() string { return pubText(p) })
		return p
	}
	return nil
}
func (s *sweeper) str(f func() (string, bool)) string {
	var t string
	var ok bool
	bad := s.try(func() { t, ok = f() })
	if s.mark(bad, ok, t != "") {
		s.text(t)
		s.keep(func() string { return t })
		return t
	}
	return ""
}
func (s *sweeper) check(t string) {
	var b bool
	bad := s.try(func() { b = btc.CheckWIF(t) })
	if s.mark(bad, true, true) {
		if b {
			s.field([]byte{1})
		} else {
			s.field([]byte{0})
		}
	}
}

func (s *sweeper) privItem(i int) {
	e := s.d("priv", i, 2)
	n := s.nets[i%5]
	k := shape(i, s.d("priv", i, 1), e)
	t := upper(hex.EncodeToString(k), i)
	s.text(t)
	p := s.priv(func() (*btc.PrivateKey, error) { return btc.PrivateFromHex(t, n) })
	if p == nil {
		return
	}
	w := p.WIF
	wif := func(t string, n *btc.Network) {
		s.priv(func() (*btc.PrivateKey, error) { return btc.PrivateFromWIF(t, n) })
	}
	wif(w, n)
	s.check(w)
	pre, _ := hex.DecodeString([]string{"80", "EF", "B0", "aB", "00"}[i%5])
	body := append(append(pre, k...), 1)
	h := sha256.Sum256(body)
	h = sha256.Sum256(h[:])
	cw := base58(append(body, h[:4]...))
	s.text(cw)
	wif(cw, n)
	bad := []byte(w)
	if len(bad) > 0 {
		bad[int(e[3])%len(bad)] = b58[e[4]%58]
	}
	s.field(bad)
	s.check(string(bad))
	wif(string(bad), n)
	wif(w, s.nets[(i+1+int(e[5])%4)%5])
}

func inRange(k *big.Int) bool { return k.Sign() > 0 && k.Cmp(orderN) < 0 }

func (s *sweeper) arithItem(i int) {
	e := s.d("arith", i, 3)
	a := new(big.Int).SetBytes(shape(i, s.d("arith", i, 1), e))
	n := s.nets[i%5]
	if !inRange(a) {
		s.text("skip")
		return
	}
	small := big.NewInt(int64(e[7]))
	var b *big.Int
	switch i % 8 {
	case 5:
		b = small.Sub(small, a)
		b.Mod(b, orderN)
	case 6:
		b = small.Mul(small, new(big.Int).ModInverse(a, orderN))
		b.Mod(b, orderN)
	default:
		b = new(big.Int).SetBytes(shape(i/2, s.d("arith", i, 2), s.d("arith", i, 4)))
	}
	if !inRange(b) {
		s.text("skip")
		return
	}
	s.num(a)
	s.num(b)
	imp := func(k *big.Int) *btc.PrivateKey {
		t := hex.EncodeToString(k.FillBytes(make([]byte, 32)))
		return s.priv(func() (*btc.PrivateKey, error) { return btc.PrivateFromHex(t, n) })
	}
	p := imp(a)
	q := imp(b)
	if p == nil || q == nil {
		return
	}
	s.priv(func() (*btc.PrivateKey, error) { return btc.AddPrivateKeys(p, q) })
	s.privKey(p)
	s.privKey(q)
	s.priv(func() (*btc.PrivateKey, error) { return btc.MultiplyPrivateKeys(p, q) })
	s.privKey(p)
	s.privKey(q)
}

func (s *sweeper) pointItem(i int) {
	e := s.d("point", i, 2)
	n := s.nets[i%5]
	t := upper(hex.EncodeToString(append([]byte{2 + e[3]%2}, shape(i, s.d("point", i, 1), e)...)), i)
	s.text(t)
	imp := func(t string) *btc.PublicKey {
		return s.pub(func() (*btc.PublicKey, bool) { p, err := btc.PublicFromHex(t, n); return p, err == nil })
	}
	p := imp(t)
	if p == nil {
		return
	}
	s.str(func() (string, bool) { return p.Format(true), true })
	u := s.str(func() (string, bool) { return p.Format(false), true })
	for _, c := range []bool{true, false} {
		s.str(func() (string, bool) { t, err := p.Address(c); return t, err == nil })
	}
	s.pubKey(p)
	imp(u)
	bad := []byte(u)
	if j := 2 + int(e[4])%128; j < len(bad) {
		bad[j] = "0123456789abcdef"[e[5]%16]
	}
	s.field(bad)
	imp(string(bad))
}

func rhs(x *big.Int) *big.Int {
	r := new(big.Int).Mul(x, x)
	r.Mul(r, x).Add(r, big.NewInt(7))
	return r.Mod(r, primeP)
}
func (s *sweeper) point(kind string, i int) (x, y *big.Int) {
	for j := 1; j <= 8; j++ {
		x = new(big.Int).SetBytes(s.d(kind, i, j))
		if x.Cmp(primeP) >= 0 {
			continue
		}
		if y = new(big.Int).ModSqrt(rhs(x), primeP); y == nil {
			continue
		}
		if byte(y.Bit(0)) != s.d(kind, i, 9)[0]%2 {
			y.Sub(primeP, y)
		}
		return x, y
	}
	return nil, nil
}
func (s *sweeper) addItem(i int) {
	px, py := s.point("adda", i)
	qx, qy := s.point("addb", i)
	if px == nil || qx == nil {
		s.text("skip")
		return
	}
	switch i % 8 {
	case 5:
		qx, qy = new(big.Int).Set(px), new(big.Int).Sub(primeP, py)
	case 6:
		qx, qy = new(big.Int).Set(px), new(big.Int).Set(py)
	case 7:
		qx, qy = new(big.Int).Mul(px, cubeRt), new(big.Int).Set(py)
		qx.Mod(qx, primeP)
	}
	for _, v := range []*big.Int{px, py, qx, qy} {
		s.num(v)
	}
	n := s.nets[i%5]
	p, q := &btc.PublicKey{X: px, Y: py, Network: n}, &btc.PublicKey{X: qx, Y: qy, Network: n}
	add := func(p, q *btc.PublicKey, c bool) {
		s.pub(func() (*btc.PublicKey, bool) { r, err := btc.AddPublicKeys(p, q, c); return r, err == nil })
		s.pubKey(p)
		s.pubKey(q)
	}
	add(p, q, true)
	add(q, p, false)
}

func (s *sweeper) pubItem(i int) {
	k := new(big.Int).SetBytes(shape(i, s.d("pub", i, 1), s.d("pub", i, 2)))
	s.num(k)
	/* the texts of the key do not matter */
	p := &btc.PrivateKey{Key: k, Network: s.nets[i%5]}
	s.pub(p.GetPublicKey)
	s.privKey(p)
}

func (s *sweeper) seedItem(i int) {
	d, e := s.d("seed", i, 1), s.d("seed", i, 2)
	l := *builtin[sweepLists[i%9]]
	ent := shape(i, d, e)[:sizes[i%5]]
	h := sha256.Sum256(ent)
	bits := new(big.Int).SetBytes(append(append([]byte{}, ent...), h[0]))
	total := 8 * (len(ent) + 1)
	words := len(ent) * 3 / 4
	ix := make([]int, words)
	for j := range ix {
		for b := 0; b < 11; b++ {
			ix[j] = ix[j]*2 + int(bits.Bit(total-1-(11*j+b)))
		}
	}
	join := func() string {
		w := make([]string, words)
		for j := range ix {
			w[j] = l[ix[j]]
		}
		return strings.Join(w, " ")
	}
	seed := func(t, pass string) {
		s.str(func() (string, bool) {
			r, err := btc.NewSeedFromMnemonic(t, pass, l)
			if err == nil {
				s.keep(func() string { return string(r) })
			}
			return string(r), err == nil
		})
	}
	t := join()
	pass := ""
	if e[3] < 128 {
		pass = hex.EncodeToString(s.d("seed", i, 3))[:e[3]%40]
	}
	s.text(t)
	s.text(pass)
	seed(t, pass)
	ix[int(e[4])%words] = int(e[5]%8)*256 + int(e[6])
	u := join()
	s.text(u)
	seed(u, "")
}

/* what is drawn from the random source */
func (s *sweeper) genItem(i int) {
	n := s.nets[i%5]
	s.priv(func() (*btc.PrivateKey, error) { return btc.GeneratePrivateKey(n), nil })
}
func (s *sweeper) phraseItem(i int) {
	l := *builtin[sweepLists[i%9]]
	w := sizes[i/9%5] * 3 / 4
	s.str(func() (string, bool) { t, err := btc.NewMnemonic(w, l); return t, err == nil })
}

func sweep(args []string) {
	out := args[2]
	nets := []*btc.Network{btc.MainNetwork, btc.TestNetwork, {PrivKeyPrefix: "B0", PubKeyHashPrefix: "30"}, {PrivKeyPrefix: "aB", PubKeyHashPrefix: "Cd"}, {PrivKeyPrefix: "00", PubKeyHashPrefix: "FF"}}
	crowd := os.Getenv("VERIF_SWEEP_THREADS")
	if crowd == "" {
		capture, err := os.OpenFile(out+".cap", os.O_CREATE|os.O_APPEND|os.O_TRUNC|os.O_WRONLY, 0644)
		if err != nil {
			bug(err.Error())
		}
		dup(capture)
		s := &sweeper{seed: args[0], now: out + ".now", capture: capture, nets: nets}
		s.perform(args[1], out, 0)
		return
	}
	/* thread t performs the items that come t times N later, and writes to OUT-t.KIND; thread 0 alone if it is to be one after another */
	var wg sync.WaitGroup
	start := make(chan struct{})
	n := atoi(crowd)
	for t := 0; t < n; t++ {
		s := &sweeper{seed: args[0], nets: nets, first: t}
		if os.Getenv("VERIF_SWEEP_INLINE") != "" {
			s.perform(args[1], out+"-"+strconv.Itoa(t), t)
			continue
		}
		wg.Add(1)
		go func(t int) {
			defer wg.Done()
			<-start
			s.perform(args[1], out+"-"+strconv.Itoa(t), t)
		}(t)
	}
	close(start)
	wg.Wait()
}

// between calls on something else comes between the calls of an item, so that what is left of the call before is not of the
// same key
func (s *sweeper) between() {
	defer func() { recover() }()
	switch s.kind {
	case "point":
		for _, c := range []bool{true, false} {
			(&btc.PublicKey{X: big.NewInt(1), Y: big.NewInt(2), Network: s.nets[0]}).Format(c)
		}
	case "priv":
		btc.CheckWIF("5HueCGU8rMjxEXxiPuD5BDku4MkFqeZyd4dZ1jvhTVqvbTLvyTJ")
	}
}

// aside makes calls that no item has, one of each kind: items make the same number of calls each, and what happens at
// every 65536th, say, would always happen to the same one of them.
func (s *sweeper) aside() {
	defer func() { recover() }()
	k, _ := btc.PrivateFromHex("00000000000000000000000000000000000000000000000000000000000000c3", s.nets[0])
	p, _ := btc.PublicFromHex("02c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5", s.nets[0])
	p.Format(true)
	btc.CheckWIF(k.WIF)
	btc.AddPrivateKeys(k, &btc.PrivateKey{Key: big.NewInt(1), Network: s.nets[0]})
	btc.MultiplyPrivateKeys(k, &btc.PrivateKey{Key: big.NewInt(2), Network: s.nets[0]})
}

func (s *sweeper) perform(what, out string, turn int) {
	type job struct {
		kind             string
		from, n, careful int
		w                *bufio.Writer
		f                *os.File
	}
	var jobs []*job
	most := 0
	for _, a := range strings.Split(what, ",") {
		p := strings.Split(a, ":")
		j := &job{kind: p[0], from: atoi(p[1]), n: atoi(p[2]), careful: -1}
		j.from += turn * j.n
		if len(p) > 3 {
			j.careful = atoi(p[3])
		}
		f, err := os.Create(out + "." + j.kind)
		if err != nil {
			bug(err.Error())
		}
		j.f, j.w = f, bufio.NewWriterSize(f, 1<<16)
		jobs = append(jobs, j)
		if j.n > most {
			most = j.n
		}
	}
	do := map[string]func(int){"priv": s.privItem, "arith": s.arithItem, "point": s.pointItem, "add": s.addItem, "pub": s.pubItem, "seed": s.seedItem, "gen": s.genItem, "phrase": s.phraseItem}
	stop := time.Now().Add(time.Duration(atoi(os.Getenv("VERIF_SWEEP_SECS"))) * time.Second)
	for i := 0; i < most && time.Now().Before(stop); i++ {
		for q := range jobs {
			j := jobs[(q+s.first)%len(jobs)]
			/* the shorter ones spread over the whole run */
			if i*j.n/most == (i+1)*j.n/most {
				continue
			}
			k := i * j.n / most
			s.kind, s.item = j.kind, j.from+k
			s.careful = j.careful >= 0 && s.item >= j.careful
			s.rec.Reset()
			do[j.kind](s.item)
			if k%3001 == 3000 {
				s.aside()
			}
			var l [4]byte
			binary.BigEndian.PutUint32(l[:], uint32(s.rec.Len()))
			j.w.Write(l[:])
			j.w.Write(s.rec.Bytes())
			if k%64 == 63 || k == j.n-1 {
				if err := j.w.Flush(); err != nil {
					bug(err.Error())
				}
			}
		}
	}
	for _, j := range jobs {
		if err := j.w.Flush(); err != nil {
			bug(err.Error())
		}
	}
	w, err := os.Create(out + ".held")
	if err != nil {
		bug(err.Error())
	}
	s.changed(w)
}
