package main

// License sets and texts so plain that what a scan must find is known without
// running the package: patterns that are sequences of made-up words, texts of
// such words and of URLs.

import (
	"bytes"
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

func (c *corpus) coinage() string {
	k := uint64(c.r.Int63())>>16 | 1<<47 // 16 letters
	var b []byte
	for ; k > 0; k >>= 6 {
		b = append(b, "bcdfghjklmnprstv"[k&15], "aeio"[k>>4&3])
	}
	return string(b)
}

// plain makes a plain set and texts for it.
func (c *corpus) plain(n, long int) (list []License, texts [][]byte) {
	return c.plainWith(n, long, 12+n)
}

func (c *corpus) plainWith(n, long, words int) (list []License, texts [][]byte) {
	var vocab, known, hosts []string
	half := make(map[string]bool)
	for len(vocab) < words {
		w := c.coinage()
		if !half["<"+w[:8]] && !half[">"+w[8:]] {
			half["<"+w[:8]], half[">"+w[8:]] = true, true
			vocab = append(vocab, w)
		}
	}
	url := func() string {
		u := c.coinage() + []string{".org", ".com"}[c.r.Intn(2)]
		for k := 1 + c.r.Intn(3); k > 0; k-- {
			u += "/" + c.coinage()
		}
		return u
	}
	var pats [][]string
	fresh := 0
	for i := 0; i < n; i++ {
		var w []string
		if len(pats) > 0 && c.r.Intn(3) == 0 { // begins as another one does, or is the same
			p := pats[c.r.Intn(len(pats))]
			w = append(w, p[:1+c.r.Intn(len(p))]...)
		}
		for k := 3 + c.r.Intn(long); len(w) < 3 || k > 0 && (long > 200 || c.r.Intn(20) > 0); k-- {
			x := c.r.Intn(len(vocab))
			if fresh < len(vocab) && words > 1000 { // all are used in the end
				x = fresh
				fresh++
			}
			w = append(w, vocab[x])
		}
		pats = append(pats, w)
		l := License{ID: fmt.Sprintf("Plain-%d", c.r.Intn(2*n)), Type: c.r.Intn(16), LRE: []byte(strings.Join(w, " "))}
		if c.r.Intn(3) == 0 {
			l.LRE = append(bytes.Replace(l.LRE, []byte(" "), []byte("\n"), -1), '\n')
		}
		if c.r.Intn(5) == 0 {
			l.URL = url()
			known = append(known, l.URL)
		}
		list = append(list, l)
	}
	for k := c.r.Intn(4); k > 0; k-- {
		l := License{ID: fmt.Sprintf("Plain-%d", c.r.Intn(2*n)), Type: c.r.Intn(16)}
		if c.r.Intn(6) > 0 {
			l.URL = url()
			known = append(known, l.URL)
		}
		i := c.r.Intn(len(list) + 1)
		list = append(list[:i], append([]License{l}, list[i:]...)...)
	}
	hosts = append(known, url(), url())
	for k := 0; k < 6+n/2; k++ {
		var b strings.Builder
		for j := 1 + c.r.Intn(6); j > 0; j-- {
			p := append([]string(nil), pats[c.r.Intn(len(pats))]...)
			switch c.r.Intn(10) {
			case 0:
				p = p[:len(p)-1]
			case 1:
				p[c.r.Intn(len(p))] = c.coinage()
			case 2:
				i := c.r.Intn(len(p) + 1)
				p = append(p[:i], append([]string{c.coinage()}, p[i:]...)...)
			case 3:
				p = []string{c.coinage(), c.coinage()}
			case 4:
				p = []string{pick(c.r, []string{"http://", "https://"}) + pick(c.r, hosts)}
			case 5:
				p = p[1:]
			}
			for _, w := range p {
				if c.r.Intn(20) == 0 && !strings.Contains(w, "/") {
					w = strings.ToUpper(w)
				}
				b.WriteString(w)
				b.WriteString(pick(c.r, []string{" ", " ", " ", "\n", ", ", ". ", " \r\n"}))
			}
			if strings.Contains(p[0], "/") {
				t := strings.TrimRight(b.String(), " .,\r\n") + "\n"
				b.Reset()
				b.WriteString(t)
			}
		}
		texts = append(texts, []byte(b.String()))
	}
	return list, texts
}

var plainToken = regexp.MustCompile(`https?://[a-z./]+|[A-Za-z]+`)
var plainText = regexp.MustCompile(`^(https?://[a-z]{8,}\.(org|com)(/[a-z]{8,})+\n|[A-Za-z]{8,}([ \n,.]|\r\n)+)*$`)
var plainLRE = regexp.MustCompile(`^[a-z]{8,}([ \n][a-z]{8,}){2,}\n?$`)
var plainURL = regexp.MustCompile(`^[a-z]{8,}\.(org|com)(/[a-z]{8,})+$`)

// plainWords are the words of text in order; made-up ones are far from each other.
type plainSet struct {
	pats [][]string
	lics []License
	urls map[string]License
}

// plainOf returns spec as a plain set, or nil if it is none.
func plainOf(spec []License) *plainSet {
	s := &plainSet{urls: make(map[string]License)}
	for _, l := range spec {
		if len(l.LRE) > 0 {
			if !plainLRE.Match(l.LRE) {
				return nil
			}
			s.pats = append(s.pats, strings.Fields(string(l.LRE)))
			s.lics = append(s.lics, l)
		}
		if l.URL != "" {
			if _, dup := s.urls[l.URL]; dup || !plainURL.MatchString(l.URL) {
				return nil
			}
			s.urls[l.URL] = l
		}
	}
	if len(s.pats) == 0 {
		return nil
	}
	return s
}

var shownMatch = regexp.MustCompile(`("(?:[^"\\]|\\.)*")/(-?\d+)\[(-?\d+):(-?\d+)\](u?)`)

// wrong compares the outcome of a scan of text with what it must be; "" if it
// agrees, or if text is not plain.
func (s *plainSet) wrong(text []byte, out string) string {
	if !plainText.Match(text) || !allMadeUp(s, text) {
		return ""
	}
	if strings.HasPrefix(out, "PANIC") || strings.HasPrefix(out, "FAULT") {
		return "the scan fails: " + clip(out)
	}
	locs := plainToken.FindAllIndex(text, -1)
	words := make([]string, len(locs))
	for i, l := range locs {
		words[i] = strings.ToLower(string(text[l[0]:l[1]]))
	}
	got := shownMatch.FindAllStringSubmatch(out, -1)
	k := 0
	next := func(want []License, url bool, from, to int) string {
		if k >= len(got) {
			return fmt.Sprintf("%s at [%d:%d] is not found", want[0].ID, locs[from][0], locs[to-1][1])
		}
		g := got[k]
		k++
		id, _ := strconv.Unquote(g[1])
		ok := false
		for _, l := range want {
			ok = ok || l.ID == id && strconv.Itoa(l.Type) == g[2]
		}
		if !ok || (g[5] == "u") != url {
			return fmt.Sprintf("%s at [%d:%d] is reported instead of %s", g[0], locs[from][0], locs[to-1][1], want[0].ID)
		}
		lo, _ := strconv.Atoi(g[3])
		hi, _ := strconv.Atoi(g[4])
		min, max := 0, len(text)
		if from > 0 {
			min = locs[from-1][1]
		}
		if to < len(locs) {
			max = locs[to][0]
		}
		if lo < min || lo > locs[from][0] || hi < locs[to-1][1] || hi > max {
			return fmt.Sprintf("%s is reported for a license at [%d:%d]", g[0], locs[from][0], locs[to-1][1])
		}
		return ""
	}
	for i := 0; i < len(words); {
		w := words[i]
		if j := strings.Index(w, "://"); j >= 0 {
			if l, ok := s.urls[w[j+3:]]; ok {
				if d := next([]License{l}, true, i, i+1); d != "" {
					return d
				}
			} else if j := strings.LastIndex(w, "/"); j > 0 {
				if _, ok := s.urls[w[strings.Index(w, "://")+3:j]]; ok {
					return "" // known but for its last element
				}
			}
			i++
			continue
		}
		best := 0
		var lics []License
		for p, pat := range s.pats {
			if len(pat) < best || len(pat) > len(words)-i {
				continue
			}
			same := true
			for j, x := range pat {
				if words[i+j] != x {
					same = false
					break
				}
			}
			if !same {
				continue
			}
			if len(pat) > best {
				best, lics = len(pat), nil
			}
			lics = append(lics, s.lics[p])
		}
		if best == 0 {
			i++
			continue
		}
		if d := next(lics, false, i, i+best); d != "" {
			return d
		}
		i += best
	}
	if k < len(got) {
		return fmt.Sprintf("%s is reported, but there is no such license", got[k][0])
	}
	return ""
}

// allMadeUp reports whether the words of set and text are so different from
// each other that no misspelling can be taken for another.
func allMadeUp(s *plainSet, text []byte) bool {
	heads := make(map[string]string) // either half of its letters tells a word apart
	see := func(w string) bool {
		if len(w) != 16 {
			return false
		}
		for _, k := range []string{"<" + w[:8], ">" + w[8:]} {
			if x, ok := heads[k]; ok && x != w {
				return false
			}
			heads[k] = w
		}
		return true
	}
	for _, p := range s.pats {
		for _, w := range p {
			if !see(w) {
				return false
			}
		}
	}
	for _, w := range plainToken.FindAllString(string(text), -1) {
		if !strings.Contains(w, "://") && !see(strings.ToLower(w)) {
			return false
		}
	}
	return true
}
