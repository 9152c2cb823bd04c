package main

// Texts and license sets the workloads are made of.

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// synthetic patterns: small, overlapping, using every construct of the language.
var synth = map[string]string{
	"Widget": `//** synthetic: widget **//
Permission is granted to use this widget
((freely))??
for any purpose
((commercial || private || public))
provided that the
__3__
notice stays in all copies of the widget.
`,
	"Widget-Eval": `Permission is granted to use this widget
only for evaluation and testing within thirty days of receipt.
`,
	"Gadget": `Redistribution of this gadget in source or binary form is allowed
((with or without changes))??
if the following holds
__5__
keep this list of conditions
`,
	"Sprocket": `The sprocket is public domain and comes with no warranty at all
`,
	"Gizmo": `Copyright holders grant everyone the right to copy and share the gizmo
((
and all modified versions of it
))??
`,
	"Doodad": `See http example com doodad for the terms of the doodad which apply to everyone
`,
	"Widget-Short": `Permission is granted to use this widget freely for any purpose
`,
	"Gasket": `((The gasket || This gasket))
may be
((copied || modified || sold))
by anyone who can
__2__
license the gasket.
`,
}

// instances of the synthetic licenses as they appear in texts.
var synthText = map[string][]string{
	"Widget": {
		"Permission is granted to use this widget\nfor any purpose commercial provided that the\nabove notice stays in all copies of the widget.\n",
		"Permission is granted to use this widget freely\nfor any purpose public provided that the\nnotice stays in all copies of the widget.\n",
		"// PERMISSION is granted to use this Widget\n// for any purpose, private, provided that the one two three\n// notice stays in all copies of the widget.\n",
	},
	"Widget-Eval":  {"Permission is granted to use this widget only\nfor evaluation and testing within thirty days of receipt.\n"},
	"Gadget":       {"Redistribution of this gadget in source or binary form is allowed with or without changes\nif the following holds: a b c d keep this list of conditions\n", "Redistribution of this gadget in source or binary form is allowed if the following holds: keep this list of conditions\n"},
	"Sprocket":     {"The sprocket is public domain and comes with no warranty at all\n", "* The  sprocket is public-domain\tand comes with no warranty at all.\n"},
	"Gizmo":        {"Copyright holders grant everyone the right to copy and share the gizmo and all modified versions of it.\n", "(c) holders grant everyone the right to copy and share the gizmo\n", "&copy; holders grant everyone the right to copy and share the gizmo\n"},
	"Doodad":       {"See http://example.com/doodad for the terms of the doodad, which apply to everyone.\n", "See <a href=\"x\">http</a> example com doodad for the terms of the doodad which apply to everyone.\n"},
	"Widget-Short": {"Permission is granted to use this widget freely for any purpose\n"},
	"Gasket":       {"This gasket may be sold by anyone who can read license the gasket.\n", "The gasket may be copied by anyone who can license the gasket\n"},
}

var synthURL = []License{
	{ID: "Widget-Link", Type: 3, URL: "example.org/licenses/widget"},
	{ID: "Gadget-Link", Type: 5, URL: "gadgets.com/legal/gadget-1.0"},
	{ID: "Widget", Type: 1, URL: "example.org/licenses/by/3.0"},
}

// urlBases are URLs of the synthetic sets, of the built-in database, and of nobody.
var urlBases = []string{
	"example.org/licenses/widget", "gadgets.com/legal/gadget-1.0", "example.org/licenses/by/3.0", "example.org/both/widget",
	"creativecommons.org/licenses/by/4.0", "creativecommons.org/licenses/by-sa/3.0", "www.apache.org/licenses/LICENSE-2.0", "opensource.org/licenses/ISC",
	"example.org/licenses/gidget", "example.org/licenses", "nobody.com/x",
}

var urlSchemes = []string{"http://", "https://", "https://", "HTTPS://", "Http://"}
var urlTails = []string{"", "", "", "/", "/legalcode", "/legalcode/", "/us", "/us/", "/us/legalcode", "/us/extra", "/us/extra/more", "?x=1", "#top", "."}
var urlAfter = []string{"\n", " and\n", ") now\n", ",\n", "> or so\n", " \n\n"}

// url makes a spelling of a URL.
func (c *corpus) url() string {
	u := pick(c.r, urlBases)
	switch c.r.Intn(8) {
	case 0:
		u = strings.ToUpper(u)
	case 1:
		u = strings.Title(u)
	case 2:
		u = u[:strings.LastIndex(u, "/")]
	}
	pre := []string{"", "", "see ", "<", "(", "[here](", "License: "}[c.r.Intn(7)]
	return pre + pick(c.r, urlSchemes) + u + pick(c.r, urlTails) + pick(c.r, urlAfter)
}

var urlInText = regexp.MustCompile(`(?i)https?://[-a-z0-9_./]*[-a-z0-9_/]`)

var filler = []string{
	"This is a file of the project.\n", "package main\n\nimport \"fmt\"\n", "Copyright (c) 2020 Somebody\n", "Copyright © 2021 The Authors. All rights reserved.\n",
	"© 1999-2020 Jane Q. Public\n", "Permission is granted to nobody\n", "\n\n", "# Heading {#anchor}\n", "[link](http://a.b/c) text\n", "<b>bold</b> &amp; more\n",
	"The sprocket is not public domain\n", "naïve café Straße ÉCOLE\n", "\xff\xfe\x00\x01 broken \xc3\x28 bytes\n", "日本語 text\n", "http\n", "copyright copyright copyright\n",
	"Redistribution of this gadget\n", "all modified versions of it\n", "e\u0301t\u00e9 license licence\n", "1. Item a) b) (c) iv.\n",
	"&#xA9; &#169; &#xzz &#x; &# &#12 &amp &; copy\n", "{#a b} {# {#x\n} ]( [a](mailto:b) [c](#d) [e](file:f [g](x)\n", "ÁÀÉÈÍÌÓÒÚÙ áàéèíìóòúù \u017f \u212a Çç\n",
	"<br/> <a\nhref> < b <!-- c --> </ d>\n", "\u00ad \u200b \ufeff word\u00adjoin\n",
}

type corpus struct {
	r     *rand.Rand
	real  map[string][]byte // license texts from /verif/corpus
	names []string
	lib   []dbEntry         // the patterns of the repository's database
	tests map[string][]byte // texts from the repository's testdata
	tname []string
}

func newCorpus(verif string, r *rand.Rand) *corpus {
	c := &corpus{r: r, real: make(map[string][]byte)}
	files, err := filepath.Glob(filepath.Join(verif, "corpus", "*.txt"))
	must(err)
	for _, f := range files {
		data, err := os.ReadFile(f)
		must(err)
		n := strings.TrimSuffix(filepath.Base(f), ".txt")
		c.real[n] = data
		c.names = append(c.names, n)
	}
	sort.Strings(c.names)
	if len(c.names) == 0 {
		die("empty corpus")
	}
	return c
}

// repo loads patterns and texts of the repository.
func (c *corpus) repo(repo string) {
	c.tests = make(map[string][]byte)
	if src, err := os.ReadFile(filepath.Join(repo, "data.gen.go")); err == nil {
		c.lib, _ = parseDB(string(src))
	}
	files, _ := filepath.Glob(filepath.Join(repo, "testdata", "*.t[0-9]*"))
	sort.Strings(files)
	for _, f := range files {
		data, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		i := bytes.Index(data, []byte("\n\n"))
		if i < 0 {
			continue
		}
		n := filepath.Base(f)
		c.tests[n] = data[i+2:]
		c.tname = append(c.tname, n)
	}
	if len(c.tname) == 0 {
		for n, t := range c.real {
			c.tests[n] = t
			c.tname = append(c.tname, n)
		}
		sort.Strings(c.tname)
	}
}

// realText is one of the repository's texts, not longer than max.
func (c *corpus) realText(max int) []byte {
	for k := 0; k < 100; k++ {
		if t := c.tests[pick(c.r, c.tname)]; len(t) <= max {
			return t
		}
	}
	return c.real[c.names[0]]
}

// fullTexts are texts for the whole database: licenses as they are, damaged, joined, in company.
func (c *corpus) fullTexts(n int) [][]byte {
	var out [][]byte
	for len(out) < n {
		t := c.realText(12000)
		if c.r.Intn(10) == 0 {
			t = c.realText(1 << 20)
		}
		switch c.r.Intn(8) {
		case 0, 1:
			out = append(out, t)
		case 2, 3:
			out = append(out, t, c.confuse(t))
		case 4:
			u := c.realText(6000)
			out = append(out, append(append(append([]byte(nil), t...), '\n'), u...))
			if c.r.Intn(2) == 0 {
				out = append(out, append(append(append([]byte(nil), u...), '\n'), t...))
			}
		case 5:
			out = append(out, []byte(pick(c.r, filler)+c.url()+string(t)+c.url()+pick(c.r, filler)))
		case 6:
			out = append(out, []byte(c.misspell(string(t), 1+c.r.Intn(6))))
		case 7:
			out = append(out, t[c.r.Intn(len(t)+1):])
		}
	}
	return out
}

// medium makes a license set of n patterns of the real database, in some order.
func (c *corpus) medium(n int) (list []License, texts [][]byte) {
	if len(c.lib) == 0 {
		return c.spec(), [][]byte{[]byte("x")}
	}
	start := c.r.Intn(len(c.lib))
	for i := 0; i < n && i < len(c.lib); i++ {
		e := c.lib[(start+i)%len(c.lib)]
		if c.r.Intn(3) == 0 {
			e = c.lib[c.r.Intn(len(c.lib))]
		}
		dup := false
		for _, l := range list {
			dup = dup || l.ID == e.ID
		}
		if dup || len(e.LRE) > 30000 {
			continue
		}
		list = append(list, License{ID: e.ID, Type: c.r.Intn(16), LRE: []byte(e.LRE)})
		if t, ok := c.tests[e.ID+".t1"]; ok {
			texts = append(texts, t, c.confuse(t))
		}
	}
	for _, u := range synthURL {
		if c.r.Intn(2) == 0 {
			list = append(list, u)
		}
	}
	if len(texts) == 0 {
		texts = append(texts, c.realText(8000))
	}
	return list, texts
}

func synthNames() []string {
	var l []string
	for n := range synth {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

func pick(r *rand.Rand, l []string) string { return l[r.Intn(len(l))] }

// fragment returns one piece of text.
func (c *corpus) fragment(real bool) string {
	switch x := c.r.Intn(10); {
	case x < 4:
		return pick(c.r, synthText[pick(c.r, synthNames())])
	case x < 6:
		return c.url()
	case x < 7 && real:
		for {
			t := c.real[pick(c.r, c.names)]
			if len(t) < 2000 {
				return string(t)
			}
		}
	default:
		return pick(c.r, filler)
	}
}

// text makes a text of a few fragments.
func (c *corpus) text(real bool) []byte {
	var b bytes.Buffer
	for n := 1 + c.r.Intn(5); n > 0; n-- {
		b.WriteString(c.fragment(real))
	}
	s := b.Bytes()
	if c.r.Intn(4) == 0 && len(s) > 0 { // cut it somewhere
		s = s[:c.r.Intn(len(s)+1)]
	}
	if c.r.Intn(6) == 0 {
		s = bytes.ReplaceAll(s, []byte("\n"), []byte("\r\n"))
	}
	return s
}

// confuse returns a text that a careless key (length, ends, sum, word set) cannot tell from t.
func (c *corpus) confuse(t []byte) []byte {
	u := append([]byte(nil), t...)
	if len(u) == 0 {
		return u
	}
	if loc := urlInText.FindIndex(u); loc != nil && c.r.Intn(2) == 0 { // a neighbouring URL
		old := string(u[loc[0]:loc[1]])
		neu := old
		switch c.r.Intn(6) {
		case 0, 1:
			neu += pick(c.r, urlTails)
		case 2:
			neu = strings.TrimSuffix(neu, "/") + "/" + []string{"us", "x", "legalcode", "3.0"}[c.r.Intn(4)]
		case 3:
			if i := strings.LastIndex(neu, "/"); i > 8 {
				neu = neu[:i]
			}
		case 4:
			neu = strings.ToUpper(neu)
		case 5:
			neu = neu[:len(neu)-1]
		}
		return []byte(string(u[:loc[0]]) + neu + string(u[loc[1]:]))
	}
	switch c.r.Intn(15) {
	case 13:
		return []byte(c.accent(string(u)))
	case 14: // words joined
		return []byte(c.join(string(u), 1+c.r.Intn(3)))
	case 9: // words misspelled
		return []byte(c.misspell(string(u), 1+c.r.Intn(3)))
	case 10, 11: // words put in between
		return []byte(c.gap(string(u), 1+c.r.Intn(3)))
	case 12: // twice
		return append(append(u, '\n'), u...)
	case 0: // one letter in the middle
		i := len(u)/4 + c.r.Intn(len(u)/2+1)
		if i >= len(u) {
			i = len(u) - 1
		}
		u[i] = 'x'
	case 1: // first byte
		u[0] = 'Z'
	case 2: // last byte
		u[len(u)-1] = 'Z'
	case 3: // two lines exchanged: same length, same bytes, same words
		lines := bytes.SplitAfter(u, []byte("\n"))
		if len(lines) > 2 {
			i, j := c.r.Intn(len(lines)-1), c.r.Intn(len(lines)-1)
			lines[i], lines[j] = lines[j], lines[i]
			u = bytes.Join(lines, nil)
		}
	case 4: // two words exchanged
		w := bytes.Fields(u)
		if len(w) > 3 {
			i := c.r.Intn(len(w) - 1)
			a, b := w[i], w[i+1]
			old := append(append(append([]byte(nil), a...), ' '), b...)
			neu := append(append(append([]byte(nil), b...), ' '), a...)
			u = bytes.Replace(u, old, neu, 1)
		}
	case 5: // other case
		u = bytes.ToUpper(u)
	case 6: // other white space, same length
		u = bytes.ReplaceAll(u, []byte("\n"), []byte(" "))
	case 7: // two different bytes exchanged
		i, j := c.r.Intn(len(u)), c.r.Intn(len(u))
		u[i], u[j] = u[j], u[i]
	case 8: // rotated
		i := c.r.Intn(len(u))
		u = append(append([]byte(nil), u[i:]...), u[:i]...)
	}
	return u
}

var wordInText = regexp.MustCompile(`[A-Za-z]{4,}`)

// misspell changes n words so that they are still, or only just not, tolerated.
func (c *corpus) misspell(t string, n int) string {
	for ; n > 0; n-- {
		locs := wordInText.FindAllStringIndex(t, -1)
		if len(locs) == 0 {
			return t
		}
		l := locs[c.r.Intn(len(locs))]
		w := t[l[0]:l[1]]
		i := c.r.Intn(len(w))
		switch c.r.Intn(6) {
		case 0:
			w = w[:i] + w[i+1:]
		case 1:
			w = w[:i] + "z" + w[i+1:]
		case 2:
			w = w[:i] + "q" + w[i:]
		case 3:
			w = w[:i] + "-\n" + w[i:]
		case 4:
			w = w + "s"
		case 5: // joined with the next
			if l[1] < len(t) && (t[l[1]] == ' ' || t[l[1]] == '\n') {
				l[1]++
			}
		}
		t = t[:l[0]] + w + t[l[1]:]
	}
	return t
}

// accent puts accents on some vowels, which count as the letters without them.
func (c *corpus) accent(t string) string {
	var b strings.Builder
	for i := 0; i < len(t); i++ {
		if k := strings.IndexByte("aeiou", t[i]); k >= 0 && c.r.Intn(6) == 0 {
			b.WriteString([]string{"áàÁÀä", "éèÉÈë", "íìÍÌï", "óòÓÒö", "úùÚÙü"}[k][2*c.r.Intn(5):][:2])
			continue
		}
		b.WriteByte(t[i])
	}
	return b.String()
}

var spaceInText = regexp.MustCompile(`[A-Za-z] [A-Za-z]`)

// join runs words together at n places.
func (c *corpus) join(t string, n int) string {
	for ; n > 0; n-- {
		locs := spaceInText.FindAllStringIndex(t, -1)
		if len(locs) == 0 {
			return t
		}
		i := locs[c.r.Intn(len(locs))][0] + 1
		if c.r.Intn(3) == 0 {
			i = locs[len(locs)-1][0] + 1
		}
		t = t[:i] + t[i+1:]
	}
	return t
}

var gapLens = []int{1, 2, 3, 5, 7, 8, 9, 12, 20, 30, 50, 69, 70, 71}

// gap puts words of no license at n places.
func (c *corpus) gap(t string, n int) string {
	for ; n > 0; n-- {
		i := c.r.Intn(len(t) + 1)
		if c.r.Intn(2) == 0 {
			i = len(t) / 2
		}
		if j := strings.IndexAny(t[i:], " \n"); j >= 0 {
			i += j
		}
		g := " "
		for k := gapLens[c.r.Intn(len(gapLens))]; k > 0; k-- {
			g += []string{"lorem", "ipsum", "dolor", "sit", "Amet"}[c.r.Intn(5)] + " "
		}
		t = t[:i] + g + t[i:]
	}
	return t
}

// big makes a large text with something recognisable at odd places.
func (c *corpus) big(size int) []byte {
	var b bytes.Buffer
	for b.Len() < size {
		if c.r.Intn(12) == 0 {
			b.WriteString(pick(c.r, synthText[pick(c.r, synthNames())]))
		} else if c.r.Intn(40) == 0 {
			b.WriteString(c.url())
		} else {
			fmt.Fprintf(&b, "filler line %d of some length %x\n", c.r.Intn(100000), c.r.Int63())
		}
	}
	return b.Bytes()
}

// families returns n texts in groups that are easy to confuse.
func (c *corpus) families(n int, real bool) [][]byte {
	var out [][]byte
	for len(out) < n {
		t := c.text(real)
		switch c.r.Intn(5) {
		case 0:
			t = []byte(c.url())
		case 1:
			t = []byte(pick(c.r, synthText[pick(c.r, synthNames())]))
		}
		out = append(out, t)
		for k := 1 + c.r.Intn(3); k > 0 && len(out) < n; k-- {
			out = append(out, c.confuse(t))
		}
	}
	return out
}

// spec makes a license set of some of the synthetic patterns.
func (c *corpus) spec() []License {
	names := synthNames()
	c.r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	n := 1 + c.r.Intn(len(names))
	var list []License
	for _, id := range names[:n] {
		list = append(list, License{ID: id, Type: c.r.Intn(7), LRE: []byte(synth[id])})
	}
	for _, u := range synthURL {
		if c.r.Intn(2) == 0 {
			i := c.r.Intn(len(list) + 1)
			list = append(list[:i], append([]License{u}, list[i:]...)...)
		}
	}
	if c.r.Intn(4) == 0 { // an entry with both a pattern and a URL
		list[0].URL = "example.org/both/" + strings.ToLower(list[0].ID)
	}
	return list
}

// oddPatterns are malformed, refused, or barely right.
var oddPatterns = []string{
	"word", "", "\n", "__5__", "__5__ word word\n", "__1__ __2__ word\n", "word __3__ word\n", "((word word))??\n", "((word || word word))\n",
	"?? word word\n", "word word ??\n", "word word?? x\n", "\n??\n", "((\n??\n", "|| word word\n", "((a b || || c d))\n", "(( ))\nword word\n", "((word word)) word\n", "))\nword word\n", "((((word word))??\n))??\n",
	"word word __99999999999999999999__\n", "word word __0__ x\n", "word word __7_ x\n", "//** no end\nword word\n", "//** a **// //** b **//\nword word\n",
	"((one two || one three || one two three))\n((four || four five))\n((six))??\nseven\n", "one two\n((three __3__ four || three five))\n__2__\nsix\n", "one two\n((\nthree\n((four || five))??\n))??\nsix seven\n",
	"((one two three four five six seven eight nine || one two ten))\n__4__\neleven\n",
}

// damage returns the set with one stored pattern damaged.
func (c *corpus) damage(spec []License) []License {
	out := append([]License(nil), spec...)
	var idx []int
	for i, l := range out {
		if len(l.LRE) > 0 {
			idx = append(idx, i)
		}
	}
	if len(idx) == 0 {
		return out
	}
	i := idx[c.r.Intn(len(idx))]
	v := string(out[i].LRE)
	off := c.r.Intn(len(v))
	switch c.r.Intn(12) {
	case 0, 1:
		v = v[:off]
	case 2:
		v = v[off:]
	case 3:
		b := []byte(v)
		b[off] ^= 1 << uint(c.r.Intn(8))
		v = string(b)
	case 4:
		b := []byte(v)
		for j := off; j < len(b) && j < off+16; j++ {
			b[j] = 0
		}
		v = string(b)
	case 5:
		v = "__9__ " + v
	case 6:
		v = v[:off] + "\n((\n" + v[off:]
	case 7:
		v = v + "\n))\n"
	case 8:
		v = pick(c.r, oddPatterns)
	case 9:
		v = pick(c.r, oddPatterns) + v
	case 10:
		v = v + pick(c.r, oddPatterns)
	}
	out[i].LRE = []byte(v)
	return out
}
