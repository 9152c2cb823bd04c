package main

// Legacy license texts with blanks, and texts in which they are filled in.

import (
	"strings"
)

var blankGap = []int{0, 0, 1, 1, 2, 3, 5, 8, 9, 20, 68, 69, 70, 71, 72, 90}

// blankOld makes a legacy set of n licenses with blanks and texts for it.
func (c *corpus) blankOld(n int) (list []License, texts [][]byte) {
	var vocab []string
	for i := 0; i < 30+5*n; i++ {
		vocab = append(vocab, c.coinage())
	}
	vocab = append(vocab, "copyright", "the", "of")
	words := func(n int) (l []string) {
		for ; n > 0; n-- {
			l = append(l, pick(c.r, vocab))
		}
		return l
	}
	var all [][]string
	for i := 0; i < n; i++ {
		var w []string
		if len(all) > 0 && c.r.Intn(3) == 0 { // begins as another one does
			o := all[c.r.Intn(len(all))]
			w = append(w, o[:c.r.Intn(len(o))]...)
		}
		switch c.r.Intn(4) {
		case 0: // starts with a blank soon
			w = append(w, append(words(1+c.r.Intn(3)), "___")...)
		case 1: // with two
			w = append(w, append(append(append(words(1+c.r.Intn(3)), "___"), words(c.r.Intn(4))...), "___")...)
		}
		for k := 1 + c.r.Intn(3); k > 0; k-- {
			w = append(w, words([]int{3, 9, 10, 11, 15, 40}[c.r.Intn(6)])...)
			if k > 1 || c.r.Intn(6) == 0 {
				w = append(w, "___")
			}
		}
		all = append(all, w)
		l := License{ID: pick(c.r, []string{"BSD", "MIT", "Apache", "Blank"}) + "-" + string(rune('0'+i)), LRE: []byte(strings.Join(w, " "))}
		if c.r.Intn(5) == 0 {
			l.URL = "example.org/" + c.coinage()
		}
		list = append(list, l)
	}
	for k := 0; k < 5+2*n; k++ {
		var b strings.Builder
		for j := 1 + c.r.Intn(3); j > 0; j-- {
			w := all[c.r.Intn(len(all))]
			if c.r.Intn(6) == 0 {
				w = w[c.r.Intn(len(w)):]
			}
			for _, x := range w {
				switch {
				case x == "___" && c.r.Intn(6) == 0:
					b.WriteString("___ ")
				case x == "___":
					for k := blankGap[c.r.Intn(len(blankGap))]; k > 0; k-- {
						if c.r.Intn(3) == 0 {
							b.WriteString(pick(c.r, vocab) + " ")
						} else {
							b.WriteString(c.coinage() + " ")
						}
					}
				case c.r.Intn(60) == 0:
					b.WriteString(c.coinage() + " ")
				case c.r.Intn(20) == 0:
					b.WriteString(strings.ToUpper(x) + pick(c.r, []string{"\n", ", ", " &amp; ", "&quot; ", " 1. ", " (ii) ", " a) ", " &lt;x&gt; "}))
				default:
					b.WriteString(x + " ")
				}
			}
			if c.r.Intn(3) == 0 {
				b.WriteString(c.url())
			}
		}
		texts = append(texts, []byte(b.String()))
	}
	return list, texts
}
