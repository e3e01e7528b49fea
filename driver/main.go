// Command driver performs the calls of generated histories on the real
// package btc and records what it observes. It uses exported names only.
//
//	driver run  OPS SHARD NSHARDS FROM OUT   one line of OUT for each call
//	driver solo < CALL                       one call in a fresh process
//	driver par  OPS INDEX seq|par MS OUT     one concurrent history
//	driver lists OUT ROUNDS                  the word lists, before and after use
//	driver sweep SEED KIND:FROM:N,... OUT    long runs, see sweep.go
package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/aureleoules/btc"
	"github.com/aureleoules/btc/zz_verif/early"
)

type M = map[string]interface{}

/* ---- wire format ------------------------------------------------------ */

func hexS(s string) string { return hex.EncodeToString([]byte(s)) }

func num(n *big.Int) string {
	if n == nil {
		return "nil"
	}
	if n.Sign() < 0 {
		return "-"
	}
	return hex.EncodeToString(n.Bytes())
}

// bug ends the driver: the operation makes no sense, which is not the library's fault
func bug(msg string) {
	if f, err := os.OpenFile(os.Getenv("VERIF_DRIVER_ERR"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644); err == nil {
		fmt.Fprintln(f, msg)
	}
	os.Exit(97)
}

func unhex(v interface{}) []byte {
	b, err := hex.DecodeString(v.(string))
	if err != nil {
		bug("driver: bad hex in operation: " + v.(string))
	}
	return b
}
func text(v interface{}) string { return string(unhex(v)) }
func integer(v interface{}) int {
	if s, ok := v.(string); ok {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			bug(err.Error())
		}
		return int(n)
	}
	return int(v.(float64))
}
func number(v interface{}) *big.Int {
	s := v.(string)
	if strings.HasPrefix(s, "-") {
		return new(big.Int).Neg(new(big.Int).SetBytes(unhex(s[1:])))
	}
	return new(big.Int).SetBytes(unhex(s))
}

/* ---- the caller's world ------------------------------------------------ */

type world struct {
	nets    map[string]*btc.Network
	netVal  map[string][2]string
	priv    map[int]*btc.PrivateKey
	privVal map[int]M
	pub     map[int]*btc.PublicKey
	pubVal  map[int]M
	phrase  map[int]string
	seed    []byte
	texts   []kept    // results that are not keys
	nums    []numKept // numbers of keys that the caller holds no more
	seeds   []kept
	lists   map[string]btc.Wordlist
	edited  btc.Wordlist // a list of the caller that it edits in place
	edition string
}

// kept is a result the caller holds, and what it was
type kept struct {
	op, text string
	seed     []byte
	was      []byte
}

// numKept is a number the caller took out of a key, and its value
type numKept struct {
	n   *big.Int
	was string
}

func bits(n *big.Int) string {
	return fmt.Sprint(n.Sign() < 0, n.Bits())
}

func (w *world) keepNums(ns []*big.Int) {
	for _, n := range ns {
		if n != nil {
			w.nums = append(w.nums, numKept{n, bits(n)})
		}
	}
	if len(w.nums) > keep {
		w.nums = w.nums[len(w.nums)-keep:]
	}
}

const keep = 30

func (w *world) keepText(op, t string) {
	w.texts = append(w.texts, kept{op: op, text: t, was: []byte(t)})
	if len(w.texts) > keep {
		w.texts = w.texts[1:]
	}
}
func (w *world) keepSeed(s []byte) {
	w.seeds = append(w.seeds, kept{op: "seed", seed: s, was: append([]byte{}, s...)})
	if len(w.seeds) > keep {
		w.seeds = w.seeds[1:]
	}
}

func newWorld() *world {
	return &world{nets: map[string]*btc.Network{}, netVal: map[string][2]string{},
		priv: map[int]*btc.PrivateKey{}, privVal: map[int]M{}, pub: map[int]*btc.PublicKey{}, pubVal: map[int]M{},
		phrase: map[int]string{}, lists: map[string]btc.Wordlist{}}
}

func (w *world) net(v interface{}) *btc.Network {
	m := v.(M)
	id := m["id"].(string)
	if n, ok := w.nets[id]; ok {
		if _, given := m["pk"]; given && id != "main" && id != "test" {
			/* the caller may change its network between calls */
			if v := [2]string{text(m["pk"]), text(m["ph"])}; v != w.netVal[id] {
				n.PrivKeyPrefix, n.PubKeyHashPrefix = v[0], v[1]
				w.netVal[id] = v
			}
		}
		return n
	}
	var n *btc.Network
	switch id {
	case "main":
		n = btc.MainNetwork
	case "test":
		n = btc.TestNetwork
	default:
		n = &btc.Network{PrivKeyPrefix: text(m["pk"]), PubKeyHashPrefix: text(m["ph"])}
	}
	w.nets[id] = n
	w.netVal[id] = [2]string{n.PrivKeyPrefix, n.PubKeyHashPrefix}
	return n
}

var builtin = map[string]*btc.Wordlist{
	"English": &btc.EnglishWordlist, "French": &btc.FrenchWordlist, "Japanese": &btc.JapaneseWordlist,
	"Italian": &btc.ItalianWordlist, "Spanish": &btc.SpanishWordlist, "Korean": &btc.KoreanWordlist,
	"Czech": &btc.CzechWordlist, "ChineseTraditional": &btc.ChineseTraditionalWordlist,
	"ChineseSimplified": &btc.ChineseSimplifiedWordlist,
}

// list names a word list: NAME, or NAME/how for a variation of it
func (w *world) list(name string) btc.Wordlist {
	p := strings.SplitN(name, "/", 2)
	base, ok := builtin[p[0]]
	if !ok {
		bug("driver: unknown list " + name)
	}
	if len(p) == 1 {
		return *base
	}
	if l, ok := w.lists[name]; ok {
		return l
	}
	if strings.HasPrefix(p[1], "ed") {
		if w.edited == nil {
			w.edited = append(w.edited, *base...)
		}
		if w.edition != name {
			w.edition = name
			copy(w.edited, *base)
			n := atoi(p[1][2:]) * 500
			w.edited[0], w.edited[n] = w.edited[n], w.edited[0]
		}
		return w.edited
	}
	b := *base
	var l btc.Wordlist
	switch p[1] {
	case "nil":
		return nil
	case "empty":
		l = btc.Wordlist{}
	case "rev":
		for i := len(b) - 1; i >= 0; i-- {
			l = append(l, b[i])
		}
	case "copy":
		l = append(l, b...)
	case "rot":
		l = append(append(l, b[1:]...), b[0])
	default: /* first n words, going round */
		n, err := strconv.Atoi(p[1])
		if err != nil {
			bug("driver: unknown list " + name)
		}
		for i := 0; i < n; i++ {
			if i < len(b) {
				l = append(l, b[i])
			} else {
				l = append(l, b[i%len(b)]+strconv.Itoa(i/len(b)))
			}
		}
	}
	/* room behind the list that belongs to the caller */
	room := make(btc.Wordlist, len(l)+4)
	copy(room, l)
	for i := len(l); i < len(room); i++ {
		room[i] = "spare"
	}
	l = room[:len(l)]
	w.lists[name] = l
	return l
}
func spareChanged(l btc.Wordlist) bool {
	for _, s := range l[len(l):cap(l)] {
		if s != "spare" {
			return true
		}
	}
	return false
}

func netVals(n *btc.Network) (string, string) {
	if n == nil {
		return "nil", "nil"
	}
	return hexS(n.PrivKeyPrefix), hexS(n.PubKeyHashPrefix)
}
func privVals(p *btc.PrivateKey) M {
	pk, ph := netVals(p.Network)
	return M{"k": num(p.Key), "hex": hexS(p.Hex), "wif": hexS(p.WIF), "pk": pk, "ph": ph}
}
func pubVals(p *btc.PublicKey) M {
	pk, ph := netVals(p.Network)
	return M{"x": num(p.X), "y": num(p.Y), "pk": pk, "ph": ph}
}
func differs(a, b M) string {
	for k := range a {
		if a[k] != b[k] {
			return k
		}
	}
	return ""
}

// changes lists what differs from what it was, and accepts it as the new state
func (w *world) changes(allLists bool) []string {
	c := []string{}
	for h, p := range w.priv {
		v := privVals(p)
		if d := differs(v, w.privVal[h]); d != "" {
			c = append(c, fmt.Sprintf("private key %d: %s", h, d))
			w.privVal[h] = v
		}
	}
	for h, p := range w.pub {
		v := pubVals(p)
		if d := differs(v, w.pubVal[h]); d != "" {
			c = append(c, fmt.Sprintf("public key %d: %s", h, d))
			w.pubVal[h] = v
		}
	}
	for id, n := range w.nets {
		v := [2]string{n.PrivKeyPrefix, n.PubKeyHashPrefix}
		if v != w.netVal[id] {
			c = append(c, "network "+id)
			w.netVal[id] = v
		}
	}
	if btc.MainNetwork != mainNet || *btc.MainNetwork != mainVal {
		c = append(c, "MainNetwork")
	}
	if btc.TestNetwork != testNet || *btc.TestNetwork != testVal {
		c = append(c, "TestNetwork")
	}
	for i, k := range w.nums {
		if v := bits(k.n); v != k.was {
			c = append(c, "a number of a key")
			w.nums[i].was = v
		}
	}
	for i, k := range w.texts {
		if k.text != string(k.was) {
			c = append(c, "the text of "+k.op)
			w.texts[i].was = []byte(k.text)
		}
	}
	for i, k := range w.seeds {
		if !bytes.Equal(k.seed, k.was) {
			c = append(c, "a seed")
			w.seeds[i].was = append([]byte{}, k.seed...)
		}
	}
	if allLists {
		c = append(c, listChanges()...)
		if w.edited != nil && listHash(w.edited) != listHash(newWorld().list(w.edition)) {
			c = append(c, "word list "+w.edition)
		}
		for name, l := range w.lists {
			if l != nil && (listHash(l) != listHash(newWorld().list(name)) || spareChanged(l)) {
				c = append(c, "word list "+name)
			}
		}
	}
	sort.Strings(c)
	return c
}

var (
	mainNet, testNet *btc.Network
	mainVal, testVal btc.Network
	listSum          = map[string][32]byte{}
)

func listHash(l btc.Wordlist) [32]byte {
	h := sha256.New()
	for _, s := range l {
		io.WriteString(h, s)
		h.Write([]byte{0})
	}
	var r [32]byte
	copy(r[:], h.Sum(nil))
	return r
}
func listChanges() (c []string) {
	for n, l := range builtin {
		if h := listHash(*l); h != listSum[n] {
			c = append(c, "word list "+n)
			listSum[n] = h
		}
	}
	return
}
func remember() {
	mainNet, testNet, mainVal, testVal = btc.MainNetwork, btc.TestNetwork, *btc.MainNetwork, *btc.TestNetwork
	for n, l := range builtin {
		listSum[n] = listHash(*l)
	}
}

/* ---- scripted random source ------------------------------------------- */

type script struct {
	data  []byte
	pos   int
	chunk int // bytes for each read, 0: as many as asked for
	fail  int // position of the failure, -1: none
	err   error
	flip  int // position of the byte to change, -1: none
	mask  byte
	deliv []byte
	bad   bool
}

func newScript(m M) *script {
	s := &script{data: unhex(m["s"]), fail: -1, flip: -1, err: errors.New("random source failed")}
	if v, ok := m["ch"]; ok {
		s.chunk = integer(v)
	}
	if v, ok := m["fail"]; ok {
		s.fail = integer(v)
	}
	if v, ok := m["err"]; ok && v.(string) == "eof" {
		s.err = io.EOF
	}
	return s
}

// at gives byte i of the stream, which goes on after the scripted part
func (s *script) at(i int) byte {
	var b byte
	if i < len(s.data) {
		b = s.data[i]
	} else {
		var c [8]byte
		binary.BigEndian.PutUint64(c[:], uint64(i/32))
		h := sha256.Sum256(append(append([]byte("more"), s.data...), c[:]...))
		b = h[i%32]
	}
	if i == s.flip {
		b ^= s.mask
	}
	return b
}
func (s *script) Read(p []byte) (int, error) {
	n := len(p)
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	for i := 0; i < n; i++ {
		if s.fail >= 0 && s.pos >= s.fail {
			s.bad = true
			return i, s.err
		}
		p[i] = s.at(s.pos)
		s.deliv = append(s.deliv, p[i])
		s.pos++
	}
	return n, nil
}

/* ---- one call ---------------------------------------------------------- */

func recase(s, how string) string {
	switch how {
	case "up":
		return strings.ToUpper(s)
	case "mix":
		b := []byte(s)
		for i := range b {
			if i%2 == 0 {
				b[i] = bytes.ToUpper(b[i : i+1])[0]
			}
		}
		return string(b)
	}
	return s
}

var skip = errors.New("skip")

func (w *world) p(v interface{}) *btc.PrivateKey {
	k := w.priv[integer(v)]
	if k == nil {
		panic(skip)
	}
	return k
}
func (w *world) u(v interface{}) *btc.PublicKey {
	k := w.pub[integer(v)]
	if k == nil {
		panic(skip)
	}
	return k
}

// argText is the text argument of a call: given, or made from what is held
func (w *world) argText(op M) string {
	if r, ok := op["tr"]; ok {
		if t, done := op["t"]; done {
			return text(t)
		}
		m := r.(M)
		var s string
		switch m["f"].(string) {
		case "wif":
			s = w.p(m["h"]).WIF
		case "hex":
			s = w.p(m["h"]).Hex
		case "fmtc":
			s = w.u(m["h"]).Format(true)
		case "fmtu":
			s = w.u(m["h"]).Format(false)
		case "phrase":
			p, ok := w.phrase[integer(m["h"])]
			if !ok {
				panic(skip)
			}
			s = p
		}
		if c, ok := m["case"]; ok {
			s = recase(s, c.(string))
		}
		op["t"] = hexS(s)
		return s
	}
	return text(op["t"])
}

func key(r M, p *btc.PrivateKey) {
	r["has"] = p != nil
	if p != nil {
		r["r"] = privVals(p)
	}
}
func pubkey(r M, p *btc.PublicKey) {
	r["has"] = p != nil
	if p != nil {
		r["r"] = pubVals(p)
	}
}
func fail(r M, err error) {
	r["o"] = "ok"
	if err != nil {
		r["o"] = "err"
	}
}
func (w *world) setPriv(h int, p *btc.PrivateKey) {
	if q := w.priv[h]; q != nil {
		w.keepNums(privNums(q))
		w.keepText("a private key", q.Hex)
		w.keepText("a private key", q.WIF)
	}
	delete(w.priv, h)
	delete(w.privVal, h)
	if p != nil {
		w.priv[h], w.privVal[h] = p, privVals(p)
	}
}
func (w *world) setPub(h int, p *btc.PublicKey) {
	if q := w.pub[h]; q != nil {
		w.keepNums(pubNums(q))
	}
	delete(w.pub, h)
	delete(w.pubVal, h)
	if p != nil {
		w.pub[h], w.pubVal[h] = p, pubVals(p)
	}
}

// scribble overwrites a number in place, then gives it its new value
func scribble(n, v *big.Int) {
	b := n.Bits()
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0x5555
	}
	n.Set(v)
}

func privNums(p *btc.PrivateKey) []*big.Int { return []*big.Int{p.Key} }
func pubNums(p *btc.PublicKey) []*big.Int   { return []*big.Int{p.X, p.Y} }

func invert(ns []*big.Int) {
	for _, n := range ns {
		if n == nil {
			continue
		}
		b := n.Bits()
		b = b[:cap(b)]
		for i := range b {
			b[i] ^= 0x5a5a5a5a
		}
	}
}

// shares tells which of the other keys change when the key is changed in place
func (w *world) shares(pub bool, h int) (c []string) {
	var ns []*big.Int
	if pub {
		if w.pub[h] == nil {
			return
		}
		ns = pubNums(w.pub[h])
		if ns[0] != nil && ns[0] == ns[1] {
			c = append(c, "x and y are the same number")
			return
		}
	} else {
		if w.priv[h] == nil {
			return
		}
		ns = privNums(w.priv[h])
	}
	invert(ns)
	for g, p := range w.priv {
		if (pub || g != h) && differs(privVals(p), w.privVal[g]) != "" {
			c = append(c, fmt.Sprintf("result shares a number with private key %d", g))
		}
	}
	for g, p := range w.pub {
		if (!pub || g != h) && differs(pubVals(p), w.pubVal[g]) != "" {
			c = append(c, fmt.Sprintf("result shares a number with public key %d", g))
		}
	}
	for _, k := range w.nums {
		if bits(k.n) != k.was {
			c = append(c, "result shares a number with a key from before")
		}
	}
	invert(ns)
	sort.Strings(c)
	return
}

// collect lets the garbage collector take what was forgotten
func collect() {
	runtime.GC()
	time.Sleep(200 * time.Microsecond)
}

// perform makes the call and fills in the response
func (w *world) perform(op M, r M) {
	defer func() {
		if e := recover(); e != nil {
			if e == skip {
				r["o"] = "skip"
				return
			}
			r["o"], r["has"], r["msg"] = "panic", false, fmt.Sprint(e)
			delete(r, "r")
			if h, ok := op["h"]; ok {
				switch op["op"].(string) {
				case "GetPub", "ImportPub", "AddPub":
					w.setPub(integer(h), nil)
				case "Mnem":
					delete(w.phrase, integer(h))
				default:
					w.setPriv(integer(h), nil)
				}
			}
		}
	}()
	r["has"] = false
	switch op["op"].(string) {
	case "CheckWif":
		t := w.argText(op)
		r["b"] = btc.CheckWIF(t)
		r["o"], r["has"] = "ok", true
	case "ImportWif":
		t, n := w.argText(op), w.net(op["n"])
		p, err := btc.PrivateFromWIF(t, n)
		fail(r, err)
		key(r, p)
		w.setPriv(integer(op["h"]), p)
	case "ImportHex":
		t, n := w.argText(op), w.net(op["n"])
		p, err := btc.PrivateFromHex(t, n)
		fail(r, err)
		key(r, p)
		w.setPriv(integer(op["h"]), p)
	case "Gen":
		n := w.net(op["n"])
		p := btc.GeneratePrivateKey(n)
		fail(r, nil)
		key(r, p)
		w.setPriv(integer(op["h"]), p)
	case "AddPriv":
		p, err := btc.AddPrivateKeys(w.p(op["a"]), w.p(op["b"]))
		fail(r, err)
		key(r, p)
		w.setPriv(integer(op["h"]), p)
	case "MulPriv":
		p, err := btc.MultiplyPrivateKeys(w.p(op["a"]), w.p(op["b"]))
		fail(r, err)
		key(r, p)
		w.setPriv(integer(op["h"]), p)
	case "GetPub":
		p, ok := w.p(op["a"]).GetPublicKey()
		fail(r, nil)
		if !ok {
			r["o"] = "err"
		}
		pubkey(r, p)
		w.setPub(integer(op["h"]), p)
	case "ImportPub":
		t, n := w.argText(op), w.net(op["n"])
		p, err := btc.PublicFromHex(t, n)
		fail(r, err)
		pubkey(r, p)
		w.setPub(integer(op["h"]), p)
	case "AddPub":
		p, err := btc.AddPublicKeys(w.u(op["a"]), w.u(op["b"]), op["c"].(bool))
		fail(r, err)
		pubkey(r, p)
		w.setPub(integer(op["h"]), p)
	case "Format":
		t := w.u(op["a"]).Format(op["c"].(bool))
		r["o"], r["has"], r["txt"] = "ok", true, hexS(t)
		w.keepText("Format", t)
	case "Addr":
		t, err := w.u(op["a"]).Address(op["c"].(bool))
		fail(r, err)
		r["has"], r["txt"] = t != "", hexS(t)
		w.keepText("Address", t)
	case "Mnem":
		t, err := btc.NewMnemonic(integer(op["w"]), w.list(op["list"].(string)))
		fail(r, err)
		r["has"], r["txt"] = t != "", hexS(t)
		delete(w.phrase, integer(op["h"]))
		if err == nil {
			w.phrase[integer(op["h"])] = t
			w.keepText("NewMnemonic", t)
		}
	case "Seed":
		s, err := btc.NewSeedFromMnemonic(w.argText(op), text(op["pass"]), w.list(op["list"].(string)))
		fail(r, err)
		r["has"], r["txt"] = len(s) > 0, hex.EncodeToString(s)
		w.seed = s
		w.keepSeed(s)
	/* what the caller does */
	case "Lit":
		w.setPriv(integer(op["h"]), &btc.PrivateKey{Key: number(op["k"]), Hex: text(op["hex"]), WIF: text(op["wif"]), Network: w.net(op["n"])})
		r["o"] = "ok"
	case "PubLit":
		w.setPub(integer(op["h"]), &btc.PublicKey{X: number(op["x"]), Y: number(op["y"]), Network: w.net(op["n"])})
		r["o"] = "ok"
	case "Rekey":
		p := w.p(op["h"])
		scribble(p.Key, number(op["k"]))
		p.Hex, p.WIF = text(op["hex"]), text(op["wif"])
		w.privVal[integer(op["h"])] = privVals(p)
		r["o"] = "ok"
	case "Renum":
		p := w.p(op["h"])
		scribble(p.Key, number(op["k"]))
		w.privVal[integer(op["h"])] = privVals(p)
		r["o"] = "ok"
	case "Ruin": /* overwrite every key and forget it */
		for h, p := range w.priv {
			invert(privNums(p))
			defer w.setPriv(h, nil)
		}
		for h, p := range w.pub {
			invert(pubNums(p))
			defer w.setPub(h, nil)
		}
		r["o"] = "ok"
	case "RekeyPub":
		p := w.u(op["h"])
		scribble(p.X, number(op["x"]))
		scribble(p.Y, number(op["y"]))
		w.pubVal[integer(op["h"])] = pubVals(p)
		r["o"] = "ok"
	case "Forget":
		w.setPriv(integer(op["h"]), nil)
		collect()
		r["o"] = "ok"
	case "ForgetPub":
		w.setPub(integer(op["h"]), nil)
		collect()
		r["o"] = "ok"
	case "WipeSeed":
		for i := range w.seed {
			w.seed[i] ^= 0xff
		}
		for i, k := range w.seeds {
			w.seeds[i].was = append([]byte{}, k.seed...)
		}
		r["o"] = "ok"
	case "Homo", "End":
		r["o"] = "ok"
	default:
		bug("driver: unknown operation")
	}
}

// call performs an operation with its random source
func (w *world) call(op M, r M) {
	if m, ok := op["rng"]; ok {
		s := newScript(m.(M))
		early.The.With(s, func() { w.perform(op, r) })
		r["deliv"], r["failed"] = hex.EncodeToString(s.deliv), s.bad
		return
	}
	w.perform(op, r)
}

// one repeats a generating call with variations of the random stream
func one(op M, s *script) M {
	r := M{}
	sub := M{}
	for k, v := range op {
		sub[k] = v
	}
	sub["op"] = op["of"]
	sub["h"] = float64(1)
	early.The.With(s, func() { newWorld().perform(sub, r) })
	v := ""
	if r["o"] == "ok" && r["has"] == true {
		if m, ok := r["r"]; ok {
			v = m.(M)["k"].(string)
		} else {
			v = r["txt"].(string)
		}
	}
	return M{"o": r["o"], "v": v, "used": len(s.deliv)}
}
func multi(op M, r M) {
	m := op["rng"].(M)
	r["o"], r["has"] = "ok", true
	vs := []M{}
	switch op["op"].(string) {
	case "Sens":
		base := one(op, newScript(m))
		r["base"] = base
		for i := 0; i < base["used"].(int); i++ {
			for _, mask := range []byte{0x01, 0x80, 0x10} {
				s := newScript(m)
				s.flip, s.mask = i, mask
				vs = append(vs, M{"i": i, "res": one(op, s)})
			}
		}
	case "Bits":
		for i := 0; i < integer(op["count"]); i++ {
			s := newScript(m)
			h := sha256.Sum256(append([]byte{byte(i), byte(i >> 8)}, s.data...))
			s.data = h[:]
			vs = append(vs, M{"i": i, "res": one(op, s)})
		}
	}
	r["vs"] = vs
}

/* ---- histories --------------------------------------------------------- */

type history struct {
	ID     string `json:"id"`
	Solo   bool   `json:"solo"`
	Full   bool   `json:"full"`
	Ops    []M    `json:"ops"`
	Par    [][]M  `json:"par"`
	Hammer int    `json:"hammer"` // repeat each call so often, without pause
	Reps   int    `json:"reps"`   // at least so many rounds, 0: three and more while there is time
}

func readHistories(file string) []history {
	f, err := os.Open(file)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	var hs []history
	d := json.NewDecoder(bufio.NewReaderSize(f, 1<<20))
	for {
		var h history
		if err := d.Decode(&h); err == io.EOF {
			return hs
		} else if err != nil {
			panic(err)
		}
		hs = append(hs, h)
	}
}

func (w *world) store() M {
	pr, pu := []interface{}{}, []interface{}{}
	for h, p := range w.priv {
		pr = append(pr, M{"h": h, "v": privVals(p)})
	}
	for h, p := range w.pub {
		pu = append(pu, M{"h": h, "v": pubVals(p)})
	}
	return M{"priv": pr, "pub": pu}
}

func isCall(op M) bool {
	switch op["op"].(string) {
	case "Lit", "PubLit", "Rekey", "RekeyPub", "Forget", "ForgetPub", "WipeSeed", "Homo", "End", "Renum", "Ruin":
		return false
	}
	return true
}
func usesLists(op M) bool { _, ok := op["list"]; return ok }

func netM(n *btc.Network, w *world) M {
	for id, x := range w.nets {
		if x == n {
			return M{"id": id, "pk": hexS(x.PrivKeyPrefix), "ph": hexS(x.PubKeyHashPrefix)}
		}
	}
	/* a network of the library's own making */
	return M{"id": "?" + n.PrivKeyPrefix + "/" + n.PubKeyHashPrefix, "pk": hexS(n.PrivKeyPrefix), "ph": hexS(n.PubKeyHashPrefix)}
}

// soloCall writes down a call with the values of its arguments
func (w *world) soloCall(op M) (r []byte) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	pre := []M{}
	o := M{}
	for k, v := range op {
		o[k] = v
	}
	if _, ok := o["tr"]; ok {
		w.argText(o)
		delete(o, "tr")
	}
	for _, f := range []string{"a", "b"} {
		v, ok := op[f]
		if !ok {
			continue
		}
		switch op["op"].(string) {
		case "AddPriv", "MulPriv", "GetPub":
			p := w.p(v)
			pre = append(pre, M{"op": "Lit", "h": v, "k": num(p.Key), "hex": hexS(p.Hex), "wif": hexS(p.WIF), "n": netM(p.Network, w)})
		default:
			p := w.u(v)
			pre = append(pre, M{"op": "PubLit", "h": v, "x": num(p.X), "y": num(p.Y), "n": netM(p.Network, w)})
		}
	}
	r, _ = json.Marshal(append(pre, o))
	return
}

func solo() {
	var ops []M
	if err := json.NewDecoder(os.Stdin).Decode(&ops); err != nil {
		panic(err)
	}
	w := newWorld()
	var r M
	for _, op := range ops {
		r = M{}
		w.call(op, r)
	}
	delete(r, "msg")
	json.NewEncoder(os.NewFile(3, "result")).Encode(r)
}

func runSolo(call []byte) M {
	pr, pw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	c := exec.Command("/proc/self/exe", "solo")
	c.Stdin = bytes.NewReader(call)
	c.ExtraFiles = []*os.File{pw}
	if err := c.Start(); err != nil {
		panic(err)
	}
	pw.Close()
	out, _ := io.ReadAll(pr)
	pr.Close()
	c.Wait()
	r := M{}
	if json.Unmarshal(out, &r) != nil {
		return M{"o": "died", "has": false}
	}
	return r
}

func run(args []string) {
	hs := readHistories(args[0])
	shard, n := atoi(args[1]), atoi(args[2])
	from := atoi(args[3])
	out, err := os.OpenFile(args[4], os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	if err != nil {
		panic(err)
	}
	/* everything written to the standard streams is counted */
	capture, err := os.OpenFile(args[4]+".cap", os.O_CREATE|os.O_APPEND|os.O_TRUNC|os.O_WRONLY, 0644)
	if err != nil {
		panic(err)
	}
	dup(capture)
	remember()
	written := func() int64 {
		st, err := capture.Stat()
		if err != nil {
			panic(err)
		}
		return st.Size()
	}
	before := written()
	for hi := range hs {
		if hi%n != shard || hi < from {
			continue
		}
		w := newWorld()
		for oi, op := range hs[hi].Ops {
			r := M{}
			var sc []byte
			if hs[hi].Solo && isCall(op) {
				if _, isRng := op["rng"]; isRng || (op["op"] != "Gen" && op["op"] != "Mnem") {
					if op["op"] != "Sens" && op["op"] != "Bits" {
						sc = w.soloCall(op)
					}
				}
			}
			mark(hi, oi)
			if op["op"] == "Sens" || op["op"] == "Bits" {
				multi(op, r)
			} else {
				w.call(op, r)
			}
			now := written()
			r["io"] = now - before
			before = now
			chg := w.changes(usesLists(op) || op["op"] == "End")
			if h, ok := op["h"]; ok && isCall(op) && op["op"] != "Mnem" && r["o"] == "ok" {
				switch op["op"] {
				case "GetPub", "ImportPub", "AddPub":
					chg = append(chg, w.shares(true, integer(h))...)
				default:
					chg = append(chg, w.shares(false, integer(h))...)
				}
			}
			r["chg"] = chg
			if sc != nil {
				r["sr"] = runSolo(sc)
			}
			if hs[hi].Full {
				r["st"] = w.store()
			}
			if _, ok := op["tr"]; ok {
				if _, ok := op["t"]; ok {
					r["t"] = op["t"]
				}
			}
			line, err := json.Marshal(M{"h": hi, "e": oi, "w": before, "r": r})
			if err != nil {
				panic(err)
			}
			if _, err := out.Write(append(line, '\n')); err != nil {
				panic(err)
			}
		}
	}
}

// mark makes a system call that tells a tracer of system calls where we are
func mark(h, e int) {
	if marks {
		syscall.Access(fmt.Sprintf("/!/%d/%d", h, e), 0)
	}
}

var marks = os.Getenv("VERIF_MARKS") != ""

func dup(f *os.File) {
	for _, fd := range []int{1, 2} {
		if err := syscall.Dup3(int(f.Fd()), fd, 0); err != nil {
			panic(err)
		}
	}
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		panic(err)
	}
	return n
}

/* ---- concurrent histories ---------------------------------------------- */

// par performs the prelude, then the threads of the history at the same time
// (or, with mode seq, one after the other), all on the prelude's keys. The
// threads repeat their calls; what is kept is, for each call of a thread, the
// different observations that were made.
func par(args []string) {
	h := readHistories(args[0])[atoi(args[1])]
	mode := args[2]
	limit := time.Duration(atoi(args[3])) * time.Millisecond
	out, err := os.Create(args[4])
	if err != nil {
		panic(err)
	}
	base := newWorld()
	remember()
	for _, op := range h.Ops {
		base.call(op, M{})
	}
	type thread struct {
		w    *world
		res  [][]M
		seen []map[string]bool
	}
	ts := make([]*thread, len(h.Par))
	for i := range ts {
		w := newWorld()
		for k, v := range base.priv {
			w.priv[k] = v
		}
		for k, v := range base.pub {
			w.pub[k] = v
		}
		for k, v := range base.phrase {
			w.phrase[k] = v
		}
		/* lists and networks are made before, so that threads share them */
		for _, op := range h.Par[i] {
			if l, ok := op["list"]; ok {
				base.list(l.(string))
			}
			if n, ok := op["n"]; ok {
				base.net(n)
			}
		}
		n := len(h.Par[i])
		ts[i] = &thread{w: w, res: make([][]M, n), seen: make([]map[string]bool, n)}
		for j := range ts[i].seen {
			ts[i].res[j], ts[i].seen[j] = []M{}, map[string]bool{}
		}
	}
	for i := range ts {
		for k, v := range base.lists {
			ts[i].w.lists[k] = v
		}
		for k, v := range base.nets {
			ts[i].w.nets[k], ts[i].w.netVal[k] = v, base.netVal[k]
		}
	}
	rounds, most := 3, 400
	if h.Reps > 0 {
		rounds, most = h.Reps, h.Reps
	}
	work := func(i int) {
		start := time.Now()
		t := ts[i]
		for rep := 0; rep < rounds || (time.Since(start) < limit && rep < most); rep++ {
			for j, o := range h.Par[i] {
				op := M{}
				for k, v := range o {
					op[k] = v
				}
				r := M{}
				t.w.perform(op, r)
				delete(r, "msg")
				if len(t.res[j]) >= 60 {
					continue
				}
				line, err := json.Marshal(r)
				if err != nil {
					panic(err)
				}
				if !t.seen[j][string(line)] {
					t.seen[j][string(line)] = true
					t.res[j] = append(t.res[j], r)
				}
				if odd := t.w.hammer(op, h.Hammer); odd != "" && !t.seen[j][odd] {
					t.seen[j][odd] = true
					t.res[j] = append(t.res[j], M{"o": "ok", "has": true, "txt": hexS(odd), "odd": true})
				}
			}
		}
	}
	if mode == "seq" {
		for i := range ts {
			work(i)
		}
	} else {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range ts {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				work(i)
			}(i)
		}
		close(start)
		wg.Wait()
	}
	all := [][][]M{}
	for _, t := range ts {
		all = append(all, t.res)
	}
	if err := json.NewEncoder(out).Encode(M{"res": all, "chg": base.changes(true)}); err != nil {
		panic(err)
	}
}

// hammer makes a call again and again, and gives a result that differs from the first
func (w *world) hammer(op M, times int) (odd string) {
	if times == 0 {
		return ""
	}
	defer func() {
		if e := recover(); e != nil {
			if e == skip {
				return
			}
			odd = "panic: " + fmt.Sprint(e)
		}
	}()
	privS := func(p *btc.PrivateKey, err error) string {
		if err != nil || p == nil {
			return "-"
		}
		return p.WIF + p.Hex + p.Key.Text(62)
	}
	pubS := func(p *btc.PublicKey, ok bool) string {
		if !ok || p == nil {
			return "-"
		}
		return p.X.Text(62) + "," + p.Y.Text(62)
	}
	var f func() string
	switch op["op"].(string) {
	case "CheckWif":
		t := w.argText(op)
		f = func() string { return strconv.FormatBool(btc.CheckWIF(t)) }
	case "ImportWif":
		t, n := w.argText(op), w.net(op["n"])
		f = func() string { return privS(btc.PrivateFromWIF(t, n)) }
	case "ImportHex":
		t, n := w.argText(op), w.net(op["n"])
		f = func() string { return privS(btc.PrivateFromHex(t, n)) }
	case "AddPriv":
		a, b := w.p(op["a"]), w.p(op["b"])
		f = func() string { return privS(btc.AddPrivateKeys(a, b)) }
	case "MulPriv":
		a, b := w.p(op["a"]), w.p(op["b"])
		f = func() string { return privS(btc.MultiplyPrivateKeys(a, b)) }
	case "GetPub":
		a := w.p(op["a"])
		f = func() string { return pubS(a.GetPublicKey()) }
	case "ImportPub":
		t, n := w.argText(op), w.net(op["n"])
		f = func() string { p, err := btc.PublicFromHex(t, n); return pubS(p, err == nil) }
	case "AddPub":
		a, b, c := w.u(op["a"]), w.u(op["b"]), op["c"].(bool)
		f = func() string { p, err := btc.AddPublicKeys(a, b, c); return pubS(p, err == nil) }
	case "Format":
		a, c := w.u(op["a"]), op["c"].(bool)
		f = func() string { return a.Format(c) }
	case "Addr":
		a, c := w.u(op["a"]), op["c"].(bool)
		f = func() string { t, err := a.Address(c); return fmt.Sprint(err == nil, t) }
	case "Seed":
		t, p, l := w.argText(op), text(op["pass"]), w.list(op["list"].(string))
		f = func() string { s, err := btc.NewSeedFromMnemonic(t, p, l); return fmt.Sprint(err == nil, string(s)) }
	default:
		return ""
	}
	first, start := f(), time.Now()
	for i := 0; i < times && (i%16 != 0 || time.Since(start) < 5*time.Millisecond); i++ {
		if s := f(); s != first {
			return "not " + s
		}
	}
	return ""
}

// lists writes the built-in word lists as they are at first, after calls that use each of them, and after
// calls that use all of them at once.
func lists(args []string) {
	names := []string{}
	for n := range builtin {
		names = append(names, n)
	}
	sort.Strings(names)
	snaps := []M{}
	look := func(when string) {
		r := M{}
		for n, l := range builtin {
			ws := []string{}
			for _, s := range *l {
				ws = append(ws, hexS(s))
			}
			r[n] = ws
		}
		snaps = append(snaps, M{"when": when, "lists": r})
	}
	/* what the calls give back is judged elsewhere */
	use := func(name string, rounds int) {
		defer func() { recover() }()
		for i := 0; i < rounds; i++ {
			for _, words := range []int{12, 15, 18, 21, 24, 13, 0} {
				m, err := btc.NewMnemonic(words, *builtin[name])
				if err != nil {
					continue
				}
				btc.NewSeedFromMnemonic(m, "pass", *builtin[name])
				btc.NewSeedFromMnemonic(m+" x", "", *builtin[name])
				btc.NewSeedFromMnemonic(strings.ToUpper(m), "", *builtin[name])
				btc.NewSeedFromMnemonic(m, "", *builtin[names[i%len(names)]])
			}
		}
		k := btc.GeneratePrivateKey(btc.MainNetwork)
		p, _ := k.GetPublicKey()
		p.Address(true)
		p.Format(false)
	}
	rounds := atoi(args[1])
	look("at first")
	for _, n := range names {
		use(n, rounds)
		look("after " + n)
	}
	var wg sync.WaitGroup
	for th := 0; th < 2; th++ {
		for _, n := range names {
			wg.Add(1)
			go func(n string) {
				defer wg.Done()
				use(n, rounds)
			}(n)
		}
	}
	wg.Wait()
	look("after all at once")
	f, err := os.Create(args[0])
	if err != nil {
		panic(err)
	}
	if err := json.NewEncoder(f).Encode(snaps); err != nil {
		panic(err)
	}
}

func main() {
	switch os.Args[1] {
	case "run":
		run(os.Args[2:])
	case "solo":
		solo()
	case "par":
		par(os.Args[2:])
	case "lists":
		lists(os.Args[2:])
	case "sweep":
		sweep(os.Args[2:])
	case "dict":
		dict(os.Args[2], os.Args[3], os.Args[4])
	}
}
