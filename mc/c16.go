package main

import (
	"bytes"
	"crypto/sha256"
	"strings"
	"unicode"
	"unicode/utf8"

	bin "github.com/gagliardetto/binary"
)

func init() {
	register("C16", &Check{Level: "model_checking",
		Rule:        "state = distinct identifier; transition = one conversion or discriminator; trace = all conversions and discriminators of one identifier computed by the real code and compared with a declarative word-boundary model and an own SHA-256",
		Assumptions: []string{"all strings over a 7-letter alphabet (lower, upper, digit, separators, accented lower and upper) up to a length bound; all ASCII strings up to length 2 (3 in the thorough tier); every cased letter of U+00C0..U+1FFFF with one-to-one case mapping in 25 contexts, every caseless letter and digit of U+0000..U+3FFFF in 7; all strings up to length 5 over an alphabet with the three sigmas (final-sigma rule in PascalCase as in heck; in snake_case a plain sigma, as the repository's own test pins)"},
		Run:         runC16})
}

// refWords: the heck words of an identifier. A word boundary lies at every
// separator, before an upper-case letter whose nearest cased predecessor in
// the run is lower-case, and before an upper-case letter followed by a
// lower-case one whose nearest cased predecessor is upper-case.
func refWords(s string) [][]rune {
	var words [][]rune
	rs := []rune(s)
	up, lo := unicode.IsUpper, unicode.IsLower
	alnum := func(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) }
	for i := 0; i < len(rs); i++ {
		if !alnum(rs[i]) {
			continue
		}
		start := i == 0 || !alnum(rs[i-1])
		if !start && up(rs[i]) {
			for k := i - 1; k >= 0 && alnum(rs[k]); k-- {
				if lo(rs[k]) {
					start = true
				}
				if up(rs[k]) && i+1 < len(rs) && lo(rs[i+1]) {
					start = true
				}
				if lo(rs[k]) || up(rs[k]) {
					break
				}
			}
		}
		if start {
			words = append(words, nil)
		}
		words[len(words)-1] = append(words[len(words)-1], rs[i])
	}
	return words
}

func refSnake(ws [][]rune) string {
	var b strings.Builder
	for i, w := range ws {
		if i > 0 {
			b.WriteByte('_')
		}
		for _, r := range w {
			b.WriteRune(unicode.ToLower(r))
		}
	}
	return b.String()
}

func refPascal(ws [][]rune) string {
	var b strings.Builder
	for _, w := range ws {
		for i, r := range w {
			if i == 0 {
				b.WriteRune(unicode.ToUpper(r))
			} else if r == 'Σ' && i == len(w)-1 {
				b.WriteRune('ς') // heck: final sigma
			} else {
				b.WriteRune(unicode.ToLower(r))
			}
		}
	}
	return b.String()
}

func disc(ns, name string, own bool) []byte {
	if own {
		h := refSHA256([]byte(ns + ":" + name))
		return h[:8]
	}
	h := sha256.Sum256([]byte(ns + ":" + name))
	return h[:8]
}

func nameCase(c *Ctx, s string, full bool) bool {
	ws := refWords(s)
	sn, pa := refSnake(ws), refPascal(ws)
	ok := true
	bad := func(what, got, want string) {
		if ok {
			c.Fail("%q: %s %q, want %q", s, what, got, want)
		}
		ok = false
	}
	if p := catch(func() {
		if g := bin.ToRustSnakeCase(s); g != sn {
			bad("snake_case", g, sn)
		}
		if g := bin.ToSnakeForSighash(s); g != sn {
			bad("sighash snake_case", g, sn)
		}
		if g := bin.ToPascalCase(s); g != pa {
			bad("PascalCase", g, pa)
		}
		if g := bin.ToRustSnakeCase(sn); g != sn {
			bad("snake_case of its snake_case", g, sn)
		}
		c.Res.Transitions += 4
		if full {
			for _, x := range []struct {
				what      string
				got, want []byte
			}{
				{"instruction discriminator", bin.SighashInstruction(s), disc("global", sn, true)},
				{"account discriminator", bin.SighashAccount(s), disc("account", pa, true)},
				{"sighash", bin.Sighash("state", s), disc("state", s, true)},
			} {
				c.Res.Transitions++
				if !bytes.Equal(x.got, x.want) {
					bad(x.what, hx(x.got), hx(x.want))
				}
			}
			id := bin.SighashTypeID("global", s)
			if !bytes.Equal(id[:], disc("global", s, false)) {
				bad("type id", hx(id[:]), hx(disc("global", s, false)))
			}
			a := bin.SighashInstruction(s)
			for i := range a {
				a[i] ^= 0xff
			}
			if !bytes.Equal(bin.SighashInstruction(s), disc("global", sn, false)) {
				bad("second instruction discriminator", "changed", "same")
			}
		}
	}); p != "" {
		c.Fail("%q: panics: %s", s, p)
		return false
	}
	c.Res.States++
	c.Res.Traces++
	return ok
}

func runC16(c *Ctx) {
	alpha := []string{"a", "A", "1", "_", "-", "é", "É"}
	n := 8
	if c.Thorough {
		n = 10
	}
	// sharded by the first two letters
	c.Group("alpha")
	for _, x := range alpha {
		if c.Next() && !nameCase(c, x, true) {
			return
		}
		for _, y := range alpha {
			for _, z := range alpha {
				if !c.Next() {
					continue
				}
				var rec func(s string, k int) bool
				rec = func(s string, k int) bool {
					if !nameCase(c, s, k <= 5) {
						return false
					}
					if k == n {
						return true
					}
					for _, a := range alpha {
						if !rec(s+a, k+1) {
							return false
						}
					}
					return true
				}
				if !rec(x+y+z, 3) {
					return
				}
				c.Tick()
			}
		}
	}
	if c.Next() {
		nameCase(c, "", true)
	}
	// the one context-dependent case mapping: sigma
	c.Group("sigma")
	sig := []string{"a", "A", "Σ", "σ", "ς", "_", "1", "É"}
	for _, x := range sig {
		for _, y := range sig {
			if !c.Next() {
				continue
			}
			var rec func(s string, k int) bool
			rec = func(s string, k int) bool {
				if !nameCase(c, s, true) {
					return false
				}
				if k == 5 {
					return true
				}
				for _, a := range sig {
					if !rec(s+a, k+1) {
						return false
					}
				}
				return true
			}
			if !rec(x+y, 2) {
				return
			}
			c.Tick()
		}
	}
	// ASCII, complete
	c.Group("ascii")
	for a := 0; a < 128; a++ {
		if !c.Next() {
			continue
		}
		if !nameCase(c, string(rune(a)), true) {
			return
		}
		for b := 0; b < 128; b++ {
			if !nameCase(c, string([]rune{rune(a), rune(b)}), true) {
				return
			}
			for d := 0; d < 128; d++ {
				if (c.Thorough || d == 'a' || d == 'Z' || d == '7' || d == '_') && !nameCase(c, string([]rune{rune(a), rune(b), rune(d)}), false) {
					return
				}
			}
		}
		c.Tick()
	}
	// mixed letters: ASCII words with distinct letters so that reordering shows
	c.Group("distinct")
	for mask := 0; mask < 1<<8; mask++ {
		for sep := 0; sep < 1<<7; sep++ {
			if !c.Next() {
				continue
			}
			var b strings.Builder
			for i := 0; i < 8; i++ {
				ch := "abcdefgh"[i]
				if mask>>i&1 == 1 {
					ch -= 32
				}
				b.WriteByte(ch)
				if i < 7 && sep>>i&1 == 1 {
					b.WriteByte("_1"[i&1])
				}
			}
			if !nameCase(c, b.String(), true) {
				return
			}
		}
	}
	// other scripts
	c.Group("scripts")
	ctx := []string{"@", "a@", "A@", "@a", "@A", "1@", "@1", "a@a", "A@a", "a@A", "A@A", "@@", "@@a", "a@@", "@@A", "A@@", "@_@", "@1@", "1@a", "A1@a", "a1@", "x_@y", "@@@", "中@a", "@中A"}
	for r := rune(0xC0); r <= 0x1FFFF; r++ {
		if !unicode.IsLetter(r) {
			continue
		}
		u, l := unicode.ToUpper(r), unicode.ToLower(r)
		if r != 'ς' && unicode.ToLower(u) != l || unicode.ToUpper(l) != u || strings.ToUpper(string(r)) != string(u) || strings.ToLower(string(r)) != string(l) || unicode.IsTitle(r) {
			continue
		}
		if !unicode.IsUpper(r) && !unicode.IsLower(r) || !unicode.IsUpper(u) || !unicode.IsLower(l) {
			continue
		}
		if !c.Next() {
			continue
		}
		for _, t := range ctx {
			if !nameCase(c, strings.ReplaceAll(t, "@", string(r)), true) {
				return
			}
		}
	}
	// letters without case and digits of every script: kept, never a boundary
	c.Group("caseless")
	for blk := rune(0); blk <= 0x3FF; blk++ {
		if !c.Next() {
			continue
		}
		for r := blk << 8; r < (blk+1)<<8; r++ {
			if r == utf8.RuneError || !unicode.IsLetter(r) && !unicode.IsDigit(r) || unicode.IsUpper(r) || unicode.IsLower(r) || unicode.IsTitle(r) || unicode.ToUpper(r) != r || unicode.ToLower(r) != r {
				continue
			}
			for _, t := range []string{"@", "@A", "a@A", "A@Bc", "a_@b", "@@", "A@"} {
				if !nameCase(c, strings.ReplaceAll(t, "@", string(r)), false) {
					return
				}
			}
		}
		c.Tick()
	}
	// realistic and long names: all lengths around SHA blocks
	c.Group("long")
	for n := 0; n < 200; n++ {
		if !c.Next() {
			continue
		}
		for _, p := range []string{"aB", "A", "a_", "Ab1", "HTTPServer", "ñA"} {
			if !nameCase(c, strings.Repeat(p, n)+"Zz", true) {
				return
			}
		}
	}
	c.Sample("all strings over %v up to length %d", alpha, n)
}
