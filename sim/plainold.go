package main

// Plain sets for the legacy package: texts of made-up words, so that what a
// checker must report for whole texts far from each other is known.

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

var oldTypes = []string{"AGPL", "Apache", "BSD", "CC", "GPL", "JSON", "MIT", "Unlicense", "Zlib"}

func oldType(name string) int {
	for i, t := range oldTypes {
		if strings.HasPrefix(name, t) {
			return i
		}
	}
	return len(oldTypes)
}

// plainOld makes a plain legacy set and texts for it.
func (c *corpus) plainOld(n int) (list []License, texts [][]byte) {
	var vocab, known []string
	for i := 0; i < 40+10*n; i++ {
		vocab = append(vocab, c.coinage())
	}
	if c.r.Intn(2) == 0 { // words of the same length
		for i, w := range vocab {
			for len(w) < 14 {
				w += w
			}
			vocab[i] = w[:14]
		}
	}
	url := func() string {
		u := c.coinage() + []string{".org", ".com"}[c.r.Intn(2)]
		for k := 1 + c.r.Intn(3); k > 0; k-- {
			u += "/" + c.coinage()
		}
		known = append(known, u)
		return u
	}
	name := func() string {
		return pick(c.r, append([]string{"Plain", "Any", "mit"}, oldTypes...)) + fmt.Sprintf("-%d", c.r.Intn(2*n))
	}
	var pats [][]string
	for i := 0; i < n; i++ {
		var w []string
		for k := 12 + c.r.Intn(60); k > 0; k-- {
			w = append(w, vocab[c.r.Intn(len(vocab))])
		}
		if len(pats) > 0 {
			p := append([]string(nil), pats[c.r.Intn(len(pats))]...)
			switch c.r.Intn(6) {
			case 0: // begins as another one does
				w = append(p[:1+c.r.Intn(len(p))], w...)
			case 1: // goes on where another one ends
				w = append(p, w[:1+c.r.Intn(12)]...)
			case 2: // differs in one place, or none
				p[c.r.Intn(len(p))] = vocab[c.r.Intn(len(vocab))]
				w = p
			case 3: // has another second half of the same length
				h := len(p) / 2
				for k := h; k < len(p); k++ {
					for j := 0; j < 20; j++ {
						if x := vocab[c.r.Intn(len(vocab))]; len(x) == len(p[k]) {
							p[k] = x
							break
						}
					}
				}
				w = p
			}
		}
		pats = append(pats, w)
		sep := []string{" ", "\n", " ", ", "}[c.r.Intn(4)]
		l := License{ID: name(), LRE: []byte(strings.Join(w, sep))}
		if c.r.Intn(3) == 0 {
			l.URL = url()
		}
		list = append(list, l)
	}
	for k := c.r.Intn(2 * n); k > 0; k-- {
		l := License{ID: name()}
		if c.r.Intn(5) > 0 {
			l.URL = url()
		}
		i := c.r.Intn(len(list) + 1)
		list = append(list[:i], append([]License{l}, list[i:]...)...)
	}
	hosts := append(append([]string(nil), known...), c.coinage()+".org/"+c.coinage())
	for k := 0; k < 6+n; k++ {
		var b strings.Builder
		for j := 1 + c.r.Intn(5); j > 0; j-- {
			var p []string
			for k := []int{0, 0, 2, 12, 30, 70}[c.r.Intn(6)]; k > 0; k-- {
				p = append(p, c.coinage())
			}
			w := append([]string(nil), pats[c.r.Intn(len(pats))]...)
			switch c.r.Intn(9) {
			case 0:
				w = w[c.r.Intn(len(w)):]
			case 1:
				w[c.r.Intn(len(w))] = c.coinage()
			case 2:
				w = nil
			}
			for _, w := range append(p, w...) {
				if c.r.Intn(30) == 0 {
					w = strings.ToUpper(w)
				}
				b.WriteString(w + pick(c.r, []string{" ", " ", " ", "\n", ", ", ". "}))
			}
			if c.r.Intn(3) == 0 {
				u := pick(c.r, hosts)
				if c.r.Intn(5) == 0 {
					u += "/" + c.coinage()
				}
				b.WriteString(pick(c.r, []string{"http://", "https://"}) + u + "\n")
			}
		}
		texts = append(texts, []byte(b.String()))
	}
	return list, texts
}

var shownMatchOld = regexp.MustCompile(`("(?:[^"\\]|\\.)*")/(-?\d+)/(\S+?)\[(-?\d+):(-?\d+)\](u?)`)

// plainOldWrong compares the outcome of Cover with what it must report: every
// license whose text stands in it, whole and alone, and every listed URL.
func plainOldWrong(spec []License, text []byte, opts, out string) string {
	if !plainText.Match(text) {
		return ""
	}
	var minLen, threshold, slop int
	fmt.Sscan(opts, &minLen, &threshold, &slop)
	if minLen <= 0 {
		minLen = 10
	}
	if slop <= 0 {
		slop = 8
	}
	if minLen < 10 || threshold > 100 {
		return "" // chance matches
	}
	urls := make(map[string][]string)
	vocab := make(map[string]bool)
	whole := make(map[string][]string)
	words := func(s string) []string {
		return strings.FieldsFunc(strings.ToLower(s), func(r rune) bool { return r < 'a' || r > 'z' })
	}
	for _, l := range spec {
		if l.URL != "" {
			if !plainURL.MatchString(l.URL) {
				return ""
			}
			urls[l.URL] = append(urls[l.URL], l.ID)
		}
		if len(l.LRE) > 0 {
			if !plainText.Match(append(append([]byte(nil), l.LRE...), ' ')) || strings.Contains(string(l.LRE), "/") {
				return ""
			}
			w := words(string(l.LRE))
			if len(w) == 0 {
				return ""
			}
			for _, x := range w {
				vocab[x] = true
			}
			k := strings.Join(w, " ")
			whole[k] = append(whole[k], l.ID)
		}
	}
	if strings.HasPrefix(out, "PANIC") || strings.HasPrefix(out, "FAULT") {
		return "the checker fails: " + clip(out)
	}
	type token struct {
		lo, hi int
		word   string
		n      int // number of words
		url    bool
	}
	var toks []token
	for _, l := range plainToken.FindAllIndex(text, -1) {
		w := strings.ToLower(string(text[l[0]:l[1]]))
		t := token{l[0], l[1], w, 1, strings.Contains(w, "://")}
		if t.url {
			t.n = len(words(w))
			for _, x := range words(w) {
				if vocab[x] {
					return ""
				}
			}
		}
		toks = append(toks, t)
	}
	// What must be reported, and regions of which nothing is said.
	type want struct {
		names  []string
		url    bool
		lo, hi int // tokens
	}
	var list []want
	for i := 0; i < len(toks); {
		t := toks[i]
		if !vocab[t.word] {
			if t.url {
				k := t.word[strings.Index(t.word, "://")+3:]
				names := urls[k]
				if names == nil {
					if j := strings.LastIndex(k, "/"); j >= 0 {
						names = urls[k[:j]]
					}
				}
				if names != nil {
					list = append(list, want{names, true, i, i + 1})
				}
			}
			i++
			continue
		}
		// A region: runs of known words with gaps of no more than slop.
		end, gap := i+1, 0
		one := true
		for j := i + 1; j < len(toks) && gap <= slop; j++ {
			if vocab[toks[j].word] {
				if gap > 0 {
					one = false
				}
				end, gap = j+1, 0
			} else {
				gap += toks[j].n
			}
		}
		var names []string
		if one && end-i >= minLen {
			var w []string
			for _, t := range toks[i:end] {
				w = append(w, t.word)
			}
			names = whole[strings.Join(w, " ")]
		}
		list = append(list, want{names, false, i, end})
		i = end
	}
	got := shownMatchOld.FindAllStringSubmatch(out, -1)
	k := 0
	for _, w := range list {
		lo, hi := toks[w.lo].lo, toks[w.hi-1].hi
		min, max := 0, len(text)
		if w.lo > 0 {
			min = toks[w.lo-1].hi
		}
		if w.hi < len(toks) {
			max = toks[w.hi].lo
		}
		inside := func() (g []string, ok bool) {
			if k >= len(got) {
				return nil, false
			}
			a, _ := strconv.Atoi(got[k][4])
			b, _ := strconv.Atoi(got[k][5])
			return got[k], a >= min && b <= max
		}
		if w.names == nil {
			for {
				if _, ok := inside(); !ok {
					break
				}
				k++
			}
			continue
		}
		g, ok := inside()
		if !ok {
			return fmt.Sprintf("%s at [%d:%d] is not found", w.names[0], lo, hi)
		}
		k++
		a, _ := strconv.Atoi(g[4])
		b, _ := strconv.Atoi(g[5])
		pct, _ := strconv.ParseFloat(g[3], 64)
		name, _ := strconv.Unquote(g[1])
		known := false
		for _, n := range w.names {
			known = known || n == name
		}
		if !known || g[2] != strconv.Itoa(oldType(name)) || (g[6] == "u") != w.url || pct != 100 || a > lo || b < hi {
			return fmt.Sprintf("%s is reported for %s at [%d:%d]", g[0], w.names[0], lo, hi)
		}
	}
	if k < len(got) {
		return fmt.Sprintf("%s is reported, but there is no such license", got[k][0])
	}
	return ""
}
