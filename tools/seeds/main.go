// Searches entropies of 16 bytes whose English phrase, without a passphrase,
// has a seed that starts or ends with zero bytes, for data/more.json. Not run
// by any check. Arguments: wordlists.json, number of tries, output.
package main

import (
	"crypto/pbkdf2"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"
)

func main() {
	b, _ := os.ReadFile(os.Args[1])
	var lists map[string][]string
	if err := json.Unmarshal(b, &lists); err != nil {
		panic(err)
	}
	words := lists["English"]
	for i := range words {
		w, _ := hex.DecodeString(words[i])
		words[i] = string(w)
	}
	tries, _ := strconv.Atoi(os.Args[2])
	var mu sync.Mutex
	found := map[string][]string{}
	var wg sync.WaitGroup
	for c := 0; c < 8; c++ {
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			for i := c; i < tries; i += 8 {
				h := sha256.Sum256([]byte(fmt.Sprint("seed", i)))
				e := h[:16]
				s := sha256.Sum256(e)
				bits := ""
				for _, x := range append(append([]byte{}, e...), s[0]) {
					bits += fmt.Sprintf("%08b", x)
				}
				var t []string
				for j := 0; j < 12; j++ {
					n, _ := strconv.ParseUint(bits[11*j:11*j+11], 2, 16)
					t = append(t, words[n])
				}
				k, err := pbkdf2.Key(sha512.New, strings.Join(t, " "), []byte("mnemonic"), 2048, 64)
				if err != nil {
					panic(err)
				}
				lz, tz, mid := 0, 0, 0
				for lz < 64 && k[lz] == 0 {
					lz++
				}
				for tz < 64 && k[63-tz] == 0 {
					tz++
				}
				for j := 31; j < 33; j++ {
					if k[j] == 0 {
						mid++
					}
				}
				mu.Lock()
				for _, x := range []string{fmt.Sprint("lead", lz), fmt.Sprint("trail", tz), fmt.Sprint("mid", mid)} {
					if x[len(x)-1] != '0' && x != "mid1" && len(found[x]) < 3 {
						found[x] = append(found[x], hex.EncodeToString(e))
					}
				}
				if k[0] < 16 && k[0] > 0 && len(found["nibble"]) < 3 {
					found["nibble"] = append(found["nibble"], hex.EncodeToString(e))
				}
				mu.Unlock()
			}
		}(c)
	}
	wg.Wait()
	o, _ := json.MarshalIndent(found, "", " ")
	os.WriteFile(os.Args[3], o, 0644)
}
