// Searches scalars whose public key, addresses or WIF have leading zeros in
// unusual places, for data/corpus.json. Not run by any check.
package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strconv"
	"sync"

	"golang.org/x/crypto/ripemd160"
)

var P, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
var N, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
var GX, _ = new(big.Int).SetString("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16)
var GY, _ = new(big.Int).SetString("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 16)

type pt struct{ x, y *big.Int }

func add(a, b pt) pt {
	l := new(big.Int)
	if a.x.Cmp(b.x) == 0 {
		l.Mul(a.x, a.x).Mul(l, big.NewInt(3)).Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(a.y, 1), P))
	} else {
		d := new(big.Int).Sub(b.x, a.x)
		l.Sub(b.y, a.y).Mul(l, d.ModInverse(d.Mod(d, P), P))
	}
	l.Mod(l, P)
	return fin(a, b, l)
}
func fin(a, b pt, l *big.Int) pt {
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.x).Sub(x, b.x).Mod(x, P)
	y := new(big.Int).Sub(a.x, x)
	y.Mul(y, l).Sub(y, a.y).Mod(y, P)
	return pt{x, y}
}
func mul(k *big.Int) pt {
	var r *pt
	g := pt{GX, GY}
	for i := k.BitLen() - 1; i >= 0; i-- {
		if r != nil {
			q := add(*r, *r)
			r = &q
		}
		if k.Bit(i) == 1 {
			if r == nil {
				q := g
				r = &q
			} else {
				q := add(*r, g)
				r = &q
			}
		}
	}
	return *r
}
func lz(b []byte) int {
	n := 0
	for n < len(b) && b[n] == 0 {
		n++
	}
	return n
}
func tz(b []byte) int {
	n := 0
	for n < len(b) && b[len(b)-1-n] == 0 {
		n++
	}
	return n
}

var mu sync.Mutex
var found = map[string][]string{}

func note(f string, n int, k *big.Int, max int) {
	if n == 0 {
		return
	}
	key := fmt.Sprintf("%s-%d", f, n)
	mu.Lock()
	if len(found[key]) < max {
		found[key] = append(found[key], fmt.Sprintf("%064x", k))
	}
	mu.Unlock()
}
func tzOf(b []byte) int      { s := sha256.Sum256(b); return tz(s[:]) }
func dsha(b []byte) [32]byte { h := sha256.Sum256(b); return sha256.Sum256(h[:]) }
func look(k *big.Int, p pt) {
	var x, y [32]byte
	p.x.FillBytes(x[:])
	p.y.FillBytes(y[:])
	note("x", lz(x[:]), k, 4)
	note("y", lz(y[:]), k, 4)
	if x[0] == 0 && y[0] == 0 {
		note("xy", 1, k, 4)
	}
	note("xtail", tz(x[:]), k, 2)
	note("ytail", tz(y[:]), k, 2)
	for c := 0; c < 2; c++ {
		var b []byte
		n := "u"
		if c == 1 {
			b = append([]byte{2 + y[31]&1}, x[:]...)
			n = "c"
		} else {
			b = append(append([]byte{4}, x[:]...), y[:]...)
		}
		s := sha256.Sum256(b)
		note("sha"+n, lz(s[:]), k, 2)
		r := ripemd160.New()
		r.Write(s[:])
		h := r.Sum(nil)
		note("h160"+n, lz(h), k, 4)
		note("h160tail"+n, tz(h), k, 2)
		d := dsha(append([]byte{0}, h...))
		note("addrck"+n, lz(d[:4]), k, 2)
		note("addrcktail"+n, tz(d[:4]), k, 2)
		s = sha256.Sum256(append([]byte{0}, h...))
		note("addrsha"+n, lz(s[:]), k, 2)
		note("addrshatail"+n, tz(s[:]), k, 2)
		note("shatail"+n, tzOf(b), k, 2)
	}
	var kb [32]byte
	k.FillBytes(kb[:])
	pl := append([]byte{0x80}, kb[:]...)
	s1 := sha256.Sum256(pl)
	note("wifsha", lz(s1[:]), k, 2)
	d := sha256.Sum256(s1[:])
	note("wifck", lz(d[:4]), k, 2)
	note("wifcktail", tz(d[:4]), k, 2)
	d = dsha(append(pl, 1))
	note("cwifck", lz(d[:4]), k, 2)
	note("cwifcktail", tz(d[:4]), k, 2)
}

func main() {
	steps, _ := strconv.Atoi(os.Args[1])
	const lanes = 512
	var wg sync.WaitGroup
	for c := 0; c < 8; c++ {
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			ks := make([]*big.Int, lanes)
			ps := make([]pt, lanes)
			for i := range ks {
				h := sha256.Sum256([]byte(fmt.Sprint("corpus", c, i)))
				ks[i] = new(big.Int).SetBytes(h[:])
				ks[i].Mod(ks[i], N)
				ps[i] = mul(ks[i])
			}
			g := pt{GX, GY}
			pre := make([]*big.Int, lanes+1)
			ds := make([]*big.Int, lanes)
			for s := 0; s < steps; s++ {
				pre[0] = big.NewInt(1)
				for i := range ps {
					ds[i] = new(big.Int).Sub(g.x, ps[i].x)
					ds[i].Mod(ds[i], P)
					pre[i+1] = new(big.Int).Mul(pre[i], ds[i])
					pre[i+1].Mod(pre[i+1], P)
				}
				inv := new(big.Int).ModInverse(pre[lanes], P)
				for i := lanes - 1; i >= 0; i-- {
					di := new(big.Int).Mul(inv, pre[i])
					di.Mod(di, P)
					inv.Mul(inv, ds[i]).Mod(inv, P)
					l := new(big.Int).Sub(g.y, ps[i].y)
					l.Mul(l, di).Mod(l, P)
					ps[i] = fin(ps[i], g, l)
					ks[i] = new(big.Int).Add(ks[i], big.NewInt(1))
					look(ks[i], ps[i])
				}
			}
			q := mul(ks[0])
			if q.x.Cmp(ps[0].x) != 0 {
				panic("wrong")
			}
		}(c)
	}
	wg.Wait()
	/* entropies whose hash starts with zeros or ones */
	for _, n := range []int{16, 20, 24, 28, 32} {
		for i := 0; i < 1<<22; i++ {
			h := sha256.Sum256([]byte(fmt.Sprint("entropy", n, i)))
			e := h[:n]
			if i%3 == 1 {
				e[0] = 0
			} else if i%3 == 2 {
				e[0], e[1], e[2] = 0, 0, 0
			}
			s := sha256.Sum256(e)
			z := lz(s[:])
			key := ""
			if z > 0 {
				key = fmt.Sprintf("ent%d-%d-%d", n, z, i%3)
			} else if s[0] == 255 && s[1] == 255 {
				key = fmt.Sprintf("ent%d-ff-%d", n, i%3)
			} else if s[0] == 1 && s[1] == 0 {
				key = fmt.Sprintf("ent%d-01-%d", n, i%3)
			}
			if key != "" && len(found[key]) < 1 {
				found[key] = append(found[key], hex.EncodeToString(e))
			}
		}
	}
	b, _ := json.MarshalIndent(found, "", " ")
	os.WriteFile(os.Args[2], b, 0644)
}
