package main

import (
	"encoding/hex"
	"encoding/json"
	"go/scanner"
	"go/token"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// dict writes the constants that occur in the source of the library, for Gen.tla to make inputs of: a condition on a
// constant is met by a value made of that constant. Words of the lists are not among them.
func dict(root, words, out string) {
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	known := map[string]bool{}
	raw, err := os.ReadFile(words)
	must(err)
	var lists map[string][]string
	must(json.Unmarshal(raw, &lists))
	for _, l := range lists {
		for _, w := range l {
			if b, err := hex.DecodeString(w); err == nil {
				known[string(b)] = true
			}
		}
	}
	texts, nums, ints, names := map[string]bool{}, map[string]bool{}, map[int]bool{}, map[string]bool{}
	variable := regexp.MustCompile(`^[A-Z][A-Z0-9]*(_[A-Z0-9]+)*$`)
	num := func(n *big.Int) {
		if n.Sign() < 0 || n.BitLen() > 256 {
			return
		}
		if n.IsInt64() && n.Int64() <= 70000 {
			ints[int(n.Int64())] = true
		}
		if n.BitLen() > 8 {
			nums[hex.EncodeToString(n.Bytes())] = true
		}
	}
	text := func(s string) {
		if s == "" || len(s) > 200 || known[s] {
			return
		}
		texts[hex.EncodeToString([]byte(s))] = true
		if len(s) > 2 && variable.MatchString(s) {
			names[s] = true
		}
		if len(s) >= 4 {
			if n, ok := new(big.Int).SetString(strings.TrimPrefix(s, "0x"), 16); ok {
				num(n)
			}
		}
		if n, ok := new(big.Int).SetString(s, 10); ok {
			num(n)
		}
		if len(s) <= 32 && len(s) > 1 && !utf8.ValidString(s) {
			num(new(big.Int).SetBytes([]byte(s)))
		}
	}
	must(filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if n := fi.Name(); p != root && (strings.HasPrefix(n, ".") || n == "testdata" || n == "zz_verif") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		fs := token.NewFileSet()
		var s scanner.Scanner
		s.Init(fs.AddFile(p, -1, len(src)), src, func(token.Position, string) {}, 0)
		var row []byte // the bytes of a list of small numbers
		importing, depth := false, 0
		flush := func() {
			if len(row) > 1 {
				text(string(row))
				if len(row) <= 32 {
					num(new(big.Int).SetBytes(row))
				}
			}
			row = nil
		}
		for {
			_, tok, lit := s.Scan()
			if tok == token.EOF {
				break
			}
			switch tok {
			case token.IMPORT:
				importing, depth = true, 0
			case token.LPAREN:
				depth++
			case token.RPAREN:
				depth--
			case token.SEMICOLON:
				if depth <= 0 {
					importing = false
				}
			}
			if importing {
				continue
			}
			switch tok {
			case token.STRING:
				flush()
				if v, err := strconv.Unquote(lit); err == nil {
					text(v)
				}
			case token.INT, token.CHAR:
				var n *big.Int
				if tok == token.INT {
					n, _ = new(big.Int).SetString(lit, 0)
				} else if r, _, _, err := strconv.UnquoteChar(strings.Trim(lit, "'"), '\''); err == nil {
					text(string(r))
					n = big.NewInt(int64(r))
				}
				if n == nil {
					continue
				}
				if tok == token.INT {
					num(n)
				}
				if n.IsInt64() && n.Int64() < 256 {
					row = append(row, byte(n.Int64()))
				} else {
					flush()
				}
			case token.COMMA:
			default:
				flush()
			}
		}
		flush()
		return nil
	}))
	list := func(m map[string]bool) []string {
		l := []string{}
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		return l
	}
	is := []int{}
	for k := range ints {
		is = append(is, k)
	}
	sort.Ints(is)
	b, err := json.Marshal(map[string]interface{}{"texts": list(texts), "nums": list(nums), "ints": is, "names": list(names)})
	must(err)
	must(os.WriteFile(out, b, 0644))
}
