package main

// License sets and texts with letters that are equal in their low bits.

import (
	"fmt"
	"strings"
	"unicode"
)

// runeBases are letters from which look-alikes are derived: other letters that
// have the same low bits, whatever these are for those who keep only some bits.
var runeBases = []rune{'a', 'e', 'n', 'z', 'q', '0', '7', 'é', 'ö', 'ß', 'ç', 'š', 'ſ', 'б', 'Б', 'ы', 'ж', 'Ω', 'σ', 'ς', 'ა', 'ⴀ', 'ɐ', 'ך', 'ش', '中', '國', 'ち', '한', 'ｅ', '𐐨', '𐐀', '𝐚', '𠁡', '𠃩'}

// lookAlike is another letter with the same low bits as x, if there is one.
func (c *corpus) lookAlike(x rune) rune {
	for try := 0; try < 400; try++ {
		k := uint([]int{6, 7, 8, 8, 8, 10, 11, 12, 13, 16, 16, 16, 16, 16}[c.r.Intn(14)])
		y := x ^ rune(1+c.r.Intn(30))<<k
		if y >= 128 && y < 0x30000 && (unicode.IsLetter(y) || unicode.IsDigit(y)) {
			return y
		}
	}
	return 'ä'
}

func otherCase(s string) string {
	if u := strings.ToUpper(s); u != s {
		return u
	}
	return strings.ToLower(s)
}

// runes makes a license set of words with such letters, and texts; related
// texts are next to each other.
func (c *corpus) runes() (m medium) {
	around := strings.Repeat("nothing of it is said in here ", 3+c.r.Intn(10))
	for i := 0; i < 4; i++ {
		x := runeBases[c.r.Intn(len(runeBases))]
		stem := c.coinage()
		k := c.r.Intn(len(stem) + 1)
		word := func(r ...rune) string { return stem[:k] + string(r) + stem[k:] }
		y, z := c.lookAlike(x), c.lookAlike(x)
		words := []string{word(x), word(y), word(z), word(x, y), word(y, x), word(x, x), word('a'), stem}
		rest := fmt.Sprintf(" may do that %s always so", c.coinage())
		for j, w := range words {
			if j == 0 || j < 7 && c.r.Intn(3) == 0 {
				if c.r.Intn(3) == 0 {
					w = otherCase(w)
				}
				m.spec = append(m.spec, License{ID: fmt.Sprintf("Rune-%d-%d", i, j), Type: 1 + i, LRE: []byte("our " + w + rest + "\n")})
			}
		}
		for _, j := range c.r.Perm(len(words)) {
			w := words[j]
			if c.r.Intn(3) == 0 {
				w = otherCase(w)
			}
			t := "our " + w + rest + "\n"
			if c.r.Intn(3) == 0 {
				t += around
			}
			m.texts = append(m.texts, []byte(t))
		}
	}
	return m
}

// runesOld is the same for legacy sets.
func (c *corpus) runesOld() medium {
	m := c.runes()
	const more = " as often as the others want to have it done here again and again"
	for i := range m.spec {
		m.spec[i].LRE = append(m.spec[i].LRE, more...)
	}
	for i := range m.texts {
		m.texts[i] = append(m.texts[i], more...)
	}
	return m
}
