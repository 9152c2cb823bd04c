package main

// License sets of words that are nearly the same, and texts that confuse them.

import (
	"bytes"
	"fmt"
	"strings"
)

var nearStems = []string{"warranti_s", "limitat_on", "permiss_on", "softwar_", "distribut_d", "liab_lity", "notic_", "non_infringement", "sub_license", "merchant_bility", "a_thors", "purpos_"}
var nearSmall = []string{"of", "and", "any", "no", "for", "in", "the", "by", "or", "copyright", "it"}

// longStems are words of unusual length; like other stems they have a hole.
func longStems() (l []string) {
	for _, n := range []int{31, 63, 64, 127, 255, 256, 400, 1000, 4095} {
		w := strings.Repeat("verylongword", n/12+1)[:n]
		l = append(l, w+"_", w[:n/2]+"_"+w[n/2:], w[:1]+"_"+w[1:])
	}
	return l
}

type nearItem struct {
	any  int        // __N__
	opt  bool       // may be left out
	alts [][]string // one of these; words with _ for the varying letter
}

func (c *corpus) nearWord() string {
	if c.r.Intn(4) == 0 {
		return pick(c.r, nearSmall)
	}
	if c.r.Intn(40) == 0 {
		return pick(c.r, longStems())
	}
	return pick(c.r, nearStems)
}

// vary puts a letter into the hole of a word; only few of them are in patterns.
func (c *corpus) vary(w string, text bool) string {
	l := []string{"a", "e", "i"}
	if text {
		l = []string{"a", "e", "i", "i", "x", "o", "", "ei", "a ", "i-\n"}
	}
	return strings.Replace(w, "_", pick(c.r, l), 1)
}

// sibling is how a pattern begins that leaves another one where that has a
// word of which the two have different spellings; or else what is given.
func (c *corpus) sibling(other, items []nearItem) []nearItem {
	from := 2 + c.r.Intn(len(other))
	for k := from; k < len(other); k++ {
		if it := other[k]; it.any == 0 && !it.opt && len(it.alts) == 1 {
			if s := familyOf(it.alts[0][0]); s != "" {
				for {
					if w := c.vary(s, false); w != it.alts[0][0] {
						return append(append([]nearItem(nil), other[:k]...), nearItem{alts: [][]string{{w}}})
					}
				}
			}
		}
	}
	return items
}

// familyOf is the stem of x, if it has one.
func familyOf(x string) string {
	for _, s := range nearStems {
		if i := strings.Index(s, "_"); strings.HasPrefix(x, s[:i]) && strings.HasSuffix(x, s[i+1:]) && len(x) <= len(s) {
			return s
		}
	}
	return ""
}

// near makes a set of n licenses and texts that match some of them, nearly.
func (c *corpus) near(n int) (list []License, texts [][]byte) {
	var heads [][]string
	for i := 0; i < 2; i++ {
		heads = append(heads, []string{pick(c.r, []string{"this", "every", "our", "your"}), c.vary(pick(c.r, nearStems), false), c.vary(c.nearWord(), false)})
	}
	var all [][]nearItem
	for i := 0; i < n; i++ {
		var items []nearItem
		for _, w := range heads[c.r.Intn(len(heads))] {
			items = append(items, nearItem{alts: [][]string{{w}}})
		}
		if i > 0 && c.r.Intn(2) == 0 {
			items = c.sibling(all[c.r.Intn(i)], items)
		}
		prev := false
		for k := 4 + c.r.Intn(9); k > 0; k-- {
			words := func() []string {
				l := []string{c.nearWord()}
				if c.r.Intn(4) == 0 {
					l = append(l, c.nearWord())
				}
				for i := range l {
					l[i] = c.vary(l[i], false)
				}
				return l
			}
			it := nearItem{alts: [][]string{words()}}
			switch x := c.r.Intn(12); {
			case x == 0 && !prev:
				it = nearItem{any: 1 + c.r.Intn(6)}
			case x == 1:
				it.opt = true
			case x < 4:
				for k := 1 + c.r.Intn(3); k > 0; k-- {
					it.alts = append(it.alts, words())
				}
			}
			prev = it.any > 0
			items = append(items, it)
		}
		items = append(items, nearItem{alts: [][]string{{"always", "so"}}})
		all = append(all, items)
		var b bytes.Buffer
		for _, it := range items {
			switch {
			case it.any > 0:
				fmt.Fprintf(&b, "__%d__\n", it.any)
			case it.opt || len(it.alts) > 1:
				var l []string
				for _, a := range it.alts {
					l = append(l, strings.Join(a, " "))
				}
				fmt.Fprintf(&b, "((%s))", strings.Join(l, " || "))
				if it.opt {
					b.WriteString("??")
				}
				b.WriteString("\n")
			default:
				b.WriteString(strings.Join(it.alts[0], " ") + "\n")
			}
		}
		list = append(list, License{ID: fmt.Sprintf("Near-%d", i), Type: c.r.Intn(7), LRE: b.Bytes()})
	}
	// A spelling used in one text is used in others, too, at other places.
	habit := map[string]string{}
	for k := 0; k < 3*n+4; k++ {
		var w []string
		for _, it := range all[c.r.Intn(len(all))] {
			switch {
			case it.any > 0:
				for k := c.r.Intn(it.any + 1); k > 0; k-- {
					w = append(w, c.vary(c.nearWord(), true))
				}
				continue
			case it.opt && c.r.Intn(2) == 0:
				continue
			}
			for _, x := range it.alts[c.r.Intn(len(it.alts))] {
				if len(x) > 5 && c.r.Intn(4) == 0 {
					for _, s := range nearStems { // another member of its family
						if i := strings.Index(s, "_"); strings.HasPrefix(x, s[:i]) && strings.HasSuffix(x, s[i+1:]) {
							if c.r.Intn(3) == 0 || habit[s] == "" {
								habit[s] = c.vary(s, true)
							}
							x = habit[s]
						}
					}
				}
				w = append(w, x)
			}
		}
		t := strings.Join(w, " ") + ".\n"
		switch c.r.Intn(6) {
		case 0:
			t = string(c.confuse([]byte(t)))
		case 1:
			t += c.url()
		case 2:
			if len(texts) > 0 {
				t += string(texts[c.r.Intn(len(texts))])
			}
		}
		texts = append(texts, []byte(t))
	}
	return list, texts
}
