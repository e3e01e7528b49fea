// Searches pairs of scalars whose public keys or address hashes agree in 32
// bits, and points with a small y, for data/pairs.json. Not run by any check.
package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"sync"

	"golang.org/x/crypto/ripemd160"
)

var P, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
var N, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
var GX, _ = new(big.Int).SetString("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16)
var GY, _ = new(big.Int).SetString("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 16)

type pt struct{ x, y *big.Int }

func add(a, b pt) pt {
	l := new(big.Int)
	if a.x.Cmp(b.x) == 0 {
		l.Mul(a.x, a.x).Mul(l, big.NewInt(3)).Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(a.y, 1), P))
	} else {
		d := new(big.Int).Sub(b.x, a.x)
		l.Sub(b.y, a.y).Mul(l, d.ModInverse(d.Mod(d, P), P))
	}
	l.Mod(l, P)
	return fin(a, b, l)
}
func fin(a, b pt, l *big.Int) pt {
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.x).Sub(x, b.x).Mod(x, P)
	y := new(big.Int).Sub(a.x, x)
	y.Mul(y, l).Sub(y, a.y).Mod(y, P)
	return pt{x, y}
}
func mul(k *big.Int) pt {
	var r *pt
	g := pt{GX, GY}
	for i := k.BitLen() - 1; i >= 0; i-- {
		if r != nil {
			q := add(*r, *r)
			r = &q
		}
		if k.Bit(i) == 1 {
			if r == nil {
				q := g
				r = &q
			} else {
				q := add(*r, g)
				r = &q
			}
		}
	}
	return *r
}

func main() {
	const lanes, steps = 512, 160
	maps := map[string]map[uint32][32]byte{}
	pairs := map[string][][2]string{}
	var mu sync.Mutex
	note := func(f string, b []byte, k [32]byte) {
		v := uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
		if maps[f] == nil {
			maps[f] = map[uint32][32]byte{}
		}
		if o, ok := maps[f][v]; ok && o != k {
			if len(pairs[f]) < 2 {
				pairs[f] = append(pairs[f], [2]string{fmt.Sprintf("%x", o), fmt.Sprintf("%x", k)})
			}
		} else {
			maps[f][v] = k
		}
	}
	var wg sync.WaitGroup
	for c := 0; c < 8; c++ {
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			ks := make([]*big.Int, lanes)
			ps := make([]pt, lanes)
			for i := range ks {
				h := sha256.Sum256([]byte(fmt.Sprint("pairs", c, i)))
				ks[i] = new(big.Int).SetBytes(h[:])
				ks[i].Mod(ks[i], N)
				ps[i] = mul(ks[i])
			}
			g := pt{GX, GY}
			for s := 0; s < steps; s++ {
				for i := range ps {
					ps[i] = add(ps[i], g)
					ks[i] = new(big.Int).Add(ks[i], big.NewInt(1))
					var x, y, k [32]byte
					ps[i].x.FillBytes(x[:])
					ps[i].y.FillBytes(y[:])
					ks[i].FillBytes(k[:])
					b := append([]byte{2 + y[31]&1}, x[:]...)
					s1 := sha256.Sum256(b)
					r := ripemd160.New()
					r.Write(s1[:])
					h := r.Sum(nil)
					w := sha256.Sum256(append([]byte{0x80}, k[:]...))
					w = sha256.Sum256(w[:])
					mu.Lock()
					note("xhigh", x[:4], k)
					note("xlow", x[28:], k)
					note("yhigh", y[:4], k)
					note("ylow", y[28:], k)
					note("hhigh", h[:4], k)
					note("hlow", h[16:], k)
					note("wifck", w[:4], k)
					mu.Unlock()
				}
			}
		}(c)
	}
	wg.Wait()
	/* small y: x is a cube root of y^2 - 7; p = 7 mod 9 */
	type sm struct {
		X string `json:"x"`
		Y string `json:"y"`
	}
	small := []sm{}
	e := new(big.Int).Add(P, big.NewInt(2))
	e.Div(e, big.NewInt(9))
	for y := int64(1); len(small) < 8; y++ {
		if len(small) == 6 {
			y = 1 << 32
		}
		a := new(big.Int).Mul(big.NewInt(y), big.NewInt(y))
		a.Sub(a, big.NewInt(7)).Mod(a, P)
		x := new(big.Int).Exp(a, e, P)
		if new(big.Int).Exp(x, big.NewInt(3), P).Cmp(a) == 0 {
			small = append(small, sm{fmt.Sprintf("%064x", x), fmt.Sprintf("%064x", y)})
			if y >= 1<<32 && len(small) == 7 {
				y += 3
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(map[string]interface{}{"pairs": pairs, "smally": small})
}
