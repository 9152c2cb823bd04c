package main

// Inputs for the generator programs.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
)

var fixWords = strings.Fields(`permission is hereby granted to use copy modify and distribute this software for any
purpose with or without fee provided that the above notice appear in all copies the author disclaims all warranties
including merchantability fitness in no event shall be liable for damages whatsoever resulting from loss of data or
profits arising out of the performance you may not remove these terms "as-is" work; (licensor) derivative`)

func fixProse(r *rand.Rand, n int) string {
	var b strings.Builder
	col := 0
	for i := 0; i < n; i++ {
		w := fixWords[r.Intn(len(fixWords))]
		if col+len(w) > 60+r.Intn(30) {
			b.WriteByte('\n')
			col = 0
		} else if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(w)
		col += len(w) + 1
	}
	return b.String()
}

var fixNames = []string{"0BSD", "AFL-1.1", "AFL-1.2", "BSD-4-Clause", "BSD-4-Clause-UC", "BSD-4-Clause-Shortened", "BSD-3-Clause",
	"GFDL-1.1-invariants-only", "GFDL-1.1-no-invariants-only", "GFDL-1.3", "GPL-2.0+", "MIT", "Zed", "abc", "zlib-ack", "X11", "Unlicense", "CC-BY-4.0", "b"}

// fixData is a set of pattern files for gen_data. Kind 0 leaves out faulty ones.
func fixData(r *rand.Rand, bad bool) map[string][]byte {
	m := make(map[string][]byte)
	n := 2 + r.Intn(6)
	defs := r.Intn(2) == 0
	if defs {
		m["licenses/"+[]string{"AAA-defs", "defs", "zz-defs"}[r.Intn(3)]+".lre"] = []byte(`{{define "grant"}}` + fixProse(r, 8) + "{{end}}\n\n{{define \"each\"}}{{range list . \"tail\"}}(({{.}}))??\n{{end}}{{end}}\n")
	}
	// Templates that several files define: the last file wins.
	twice := r.Intn(3) == 0
	if twice {
		n = max(n, 4)
	}
	for len(m) < n {
		id := fixNames[r.Intn(len(fixNames))]
		var b strings.Builder
		fmt.Fprintf(&b, "//**\n%s\nhttps://spdx.org/licenses/%s.json\n**//\n\n", id, id)
		if r.Intn(3) == 0 {
			fmt.Fprintf(&b, "{{Type %q}}\n", []string{"Notice", "Discouraged", "Notice|NonCommercial", "Unknown", "ShareProgram|ShareServer", "Discouraged|Notice"}[r.Intn(6)])
		}
		if r.Intn(3) == 0 {
			b.WriteString("//** Copyright **//\n\n")
		}
		b.WriteString(fixProse(r, 5+r.Intn(60)))
		b.WriteString("\n")
		if defs && r.Intn(2) == 0 {
			b.WriteString("{{template \"grant\"}}\n")
			if r.Intn(2) == 0 {
				fmt.Fprintf(&b, "{{template \"each\" (list %q %q)}}\n", fixWords[r.Intn(len(fixWords))], "other")
			}
		}
		if twice {
			if r.Intn(2) == 0 {
				fmt.Fprintf(&b, "{{define %q}}%s{{end}}\n", []string{"common", "common", "AAA.lre"}[r.Intn(3)], fixProse(r, 4))
			}
			b.WriteString("{{block \"common\" .}}" + fixProse(r, 3) + "{{end}}\n")
		}
		if r.Intn(3) == 0 {
			b.WriteString("((``as is'' || `as is`))\n__5__\n")
		}
		if r.Intn(6) == 0 {
			b.WriteString("{{/* note */}}\n{{define \"" + id + "-short.lre\"}}" + fixProse(r, 12) + "{{end}}\n")
		}
		if r.Intn(12) == 0 {
			b.WriteString(fixProse(r, 9000))
		}
		s := b.String()
		if r.Intn(10) == 0 {
			s = strings.ReplaceAll(s, "\n", "\r\n")
		}
		if r.Intn(15) == 0 {
			s = []string{"", "\n\n", "//** only a comment **//"}[r.Intn(3)]
		}
		m["licenses/"+id+".lre"] = []byte(s)
	}
	if bad {
		id := fixNames[r.Intn(len(fixNames))]
		m["licenses/"+id+".lre"] = []byte([]string{"{{template \"nowhere\"}}", "{{Type \"Strange\"}} words", "{{if}}", "{{define \"a\"}}x", "{{index 1 2}}"}[r.Intn(5)])
	}
	switch r.Intn(12) {
	case 0: // names that do not make identifiers
		m["licenses/"+[]string{"a b", "x=y", "A@1", "n,m", "q\"q", "z\u00a0z", "a'b", "(c)"}[r.Intn(8)]+".lre"] = []byte(fixProse(r, 12))
	case 1: // different names that make the same identifier
		m["licenses/Foo-1.0.lre"] = []byte(fixProse(r, 12))
		m["licenses/Foo"+[]string{"_1.0", "+1.0", ".1.0", "-1-0"}[r.Intn(4)]+".lre"] = []byte(fixProse(r, 12))
	case 2: // contents that do not go into source code
		m["licenses/"+fixNames[r.Intn(len(fixNames))]+".lre"] = []byte(fixProse(r, 6) + []string{"\xff", "\x00", "\ufeff", "\xe2\x28"}[r.Intn(4)] + fixProse(r, 6))
	}
	if r.Intn(3) == 0 {
		m["licenses/README.md"] = []byte("not a pattern\n")
	}
	switch r.Intn(4) {
	case 0:
		m["data.gen.go"] = []byte("\n// Used as a temporary data.gen.go by go generate.\n\npackage licensecheck\n\nvar builtinLREs []License\n")
	case 1:
		m["data.gen.go"] = []byte("// Code generated by gen_data.go; DO NOT EDIT.\n\npackage licensecheck\n\nvar builtinLREs = []License{\n\t{ID: \"Old\", LRE: license_Old_lre},\n}\n\nconst license_Old_lre = `" + fixProse(r, 10+r.Intn(4000)) + "`\n")
	case 2:
		m["data.gen.go"] = []byte(strings.Repeat("not go\n", r.Intn(5000)))
	}
	return m
}

// fixTemplate is an SPDX template.
func fixTemplate(r *rand.Rand, bad bool) string {
	var b strings.Builder
	if r.Intn(2) == 0 {
		b.WriteString("<<beginOptional>>" + fixProse(r, 3) + "\n\n<<endOptional>>")
	}
	if r.Intn(2) == 0 {
		b.WriteString("<<var;name=\"copyright\";original=\"Copyright (c) <year> <owner>  \";match=\".{0,5000}\">>\n\n")
	}
	depth := 0
	for i := 2 + r.Intn(10); i > 0; i-- {
		switch r.Intn(9) {
		case 0:
			b.WriteString("<<var;name=\"bullet\";original=\"" + []string{"1.", "*", "(a)", ""}[r.Intn(4)] + "\";match=\".{0,20}\">> ")
		case 1:
			b.WriteString("<<beginOptional>> " + fixProse(r, r.Intn(3)) + " ")
			depth++
		case 2:
			if depth > 0 {
				b.WriteString("<<endOptional>> ")
				depth--
			}
		case 3:
			b.WriteString("<<var;name=\"party\";original=\"" + strings.ReplaceAll(fixProse(r, 1+r.Intn(9)), "\"", "") + "\";match=\".+\">> ")
		case 4:
			b.WriteString([]string{"((", "))", "||", "//", "___", "??", "< < x", "\n\n.\n\n,\n\n", "\t  \n"}[r.Intn(9)])
		case 5:
			b.WriteString("<<var;name=\"x\";original=\"name\";match=\".+\">> ")
		}
		if r.Intn(4) == 0 {
			b.WriteString(strings.ReplaceAll(fixProse(r, 30), "\n", " "))
		} else {
			b.WriteString(fixProse(r, 10+r.Intn(40)))
		}
		b.WriteString("\n\n")
	}
	for ; depth > 0; depth-- {
		b.WriteString("<<endOptional>>")
	}
	if bad {
		b.WriteString([]string{"<<var;name=\"x\"", "<<strange>>", "<<endOptional>>"}[r.Intn(3)])
	}
	return b.String()
}

type fixOpts struct {
	n   int
	bad bool // some items cannot be imported
	// All items but some of the first fail, for this reason.
	fail, good int
	twice      bool // two items have the same ID
}

// passing are the items that may have been imported before. No item that has to
// fail is among them: it would be skipped.
func (o fixOpts) passing(items []GenItem) []GenItem {
	if o.fail > 0 {
		return items[:o.good]
	}
	return items
}

// kind is what is special about item i.
func (o fixOpts) kind(r *rand.Rand, i, n int) int {
	switch {
	case o.fail > 0 && i >= o.good:
		return o.fail
	case o.fail == 0 && o.bad:
		return r.Intn(n)
	}
	return 0
}

var spdxIDs = []string{"Foo-1.0", "Bar-2.0", "Baz", "Qux-0.9.1", "Zed-1.0", "Alpha", "Foo-1.0-or-later"}

// notExcluded are nearly names of licenses that are never imported.
var notExcluded = []string{"MIT-or-later", "MIT-Modern", "MIT-only", "BSD-2-Clause-Darwin", "GPL-2.0", "GPL-4.0-only", "AGPL-1.0", "LGPL-2.1", "OFL-1.0", "GFDL-1.3", "MIT0", "mit", "HPND",
	"BSD-4-Clause-Shortened", "MPL-2.0", "CAL-1.0", "only", "BSD", "M", "MIT-0-1"}

// ids is l and more like them, shuffled.
func ids(r *rand.Rand, l []string, n int, format string) []string {
	l = append([]string(nil), l...)
	for i := len(l); i < n; i++ {
		l = append(l, fmt.Sprintf(format, 3+i/10, i%10))
	}
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}

// fixSpdx is a scratch tree for getspdx.
func fixSpdx(r *rand.Rand, o fixOpts) (map[string][]byte, []GenItem) {
	m := make(map[string][]byte)
	var items []GenItem
	names := ids(r, spdxIDs, o.n, "Many-%d.%d")
	for i := 0; i < o.n; i++ {
		id := names[i]
		if r.Intn(10) == 0 && o.n < 20 {
			id = notExcluded[r.Intn(len(notExcluded))]
			for _, it := range items {
				if it.ID == id {
					id = names[i]
				}
			}
		}
		name := id
		if r.Intn(10) == 0 {
			name = id + "-file"
		}
		js := "licenses/_spdx/json/details/" + name + ".json"
		txt := "licenses/_spdx/text/" + id + ".txt"
		it := GenItem{Arg: name, ID: id, Sources: []string{js, txt}}
		if r.Intn(6) == 0 {
			it.Arg = "_spdx/json/details/" + name + ".json"
		}
		kind := o.kind(r, i, 8)
		rec := map[string]interface{}{
			"licenseId": id, "name": "The " + id + " License", "isOsiApproved": r.Intn(2) == 0,
			"standardLicenseTemplate": fixTemplate(r, kind == 1),
			"licenseText":             "text", "seeAlso": []string{"https://example.org/" + id},
			"isDeprecatedLicenseId": kind == 2,
		}
		// Fields that are not there.
		if r.Intn(3) == 0 {
			delete(rec, []string{"name", "seeAlso", "isOsiApproved", "licenseText"}[r.Intn(4)])
		}
		if kind != 2 && r.Intn(3) == 0 {
			delete(rec, "isDeprecatedLicenseId")
		}
		if kind == 0 && r.Intn(12) == 0 {
			delete(rec, "standardLicenseTemplate")
		}
		data, err := json.MarshalIndent(rec, "", "  ")
		must(err)
		switch kind {
		case 3:
			data = data[:len(data)/2]
		case 4:
			data = [][]byte{nil, nil, []byte("{}"), []byte("null\n"), []byte("[]"), []byte("{\"licenseId\": 1}"), append(data, '}')}[r.Intn(7)]
		}
		it.Skip = kind == 2
		it.Bad = kind == 1 || kind == 3 || kind == 4 || kind == 5 || kind == 6
		if kind != 5 {
			m[js] = data
		}
		if kind != 6 {
			m[txt] = []byte(fixProse(r, 20+r.Intn(100)) + "\n")
		}
		if kind != 6 && r.Intn(40) == 0 {
			m[txt] = []byte(strings.Repeat(fixProse(r, 100)+"\n", 90))
		}
		items = append(items, it)
		if o.twice && i == 0 {
			rec["standardLicenseTemplate"] = fixTemplate(r, false)
			rec["isDeprecatedLicenseId"] = false
			data, err := json.MarshalIndent(rec, "", "  ")
			must(err)
			name := id + []string{"-copy", "0", ".a"}[r.Intn(3)]
			js := "licenses/_spdx/json/details/" + name + ".json"
			m[js] = data
			m[txt] = []byte(fixProse(r, 20+r.Intn(100)) + "\n")
			items = append(items, GenItem{Arg: name, ID: id, Sources: []string{js, txt}})
			if it.Bad && kind == 6 {
				items[0].Bad = false
			}
		}
	}
	if r.Intn(4) == 0 { // one of those that are never written
		id := "MIT"
		m["licenses/_spdx/json/details/MIT.json"] = []byte(`{"licenseId":"MIT","standardLicenseTemplate":"words"}`)
		m["licenses/_spdx/text/MIT.txt"] = []byte("words\n")
		items = append(items, GenItem{Arg: id, ID: id, Sources: []string{"licenses/_spdx/json/details/MIT.json", "licenses/_spdx/text/MIT.txt"}, Skip: true})
	}
	fixExisting(r, m, o.passing(items))
	return m, items
}

// byHand is the content of a file that someone wrote, or something odd.
func byHand(r *rand.Rand, s string) []byte {
	switch r.Intn(6) {
	case 0:
		return nil
	case 1:
		return []byte([]string{"\n", " ", "x", "//**\n**//\n", "\xff\x00"}[r.Intn(5)])
	}
	return []byte(s)
}

// fixExisting adds files from earlier imports and by hand.
func fixExisting(r *rand.Rand, m map[string][]byte, items []GenItem) {
	m["licenses/README.md"] = []byte("read me\n")
	if r.Intn(2) == 0 {
		m["licenses/Other-1.0.lre"] = []byte("other words by hand\n")
		m["testdata/Other-1.0.t1"] = []byte("0%\nscan\n\nother\n")
		m["testdata/licenses/Other-1.0.txt"] = []byte("other\n")
	}
	for _, it := range items {
		if r.Intn(4) == 0 {
			m["licenses/"+it.ID+".lre"] = byHand(r, "edited by hand: "+fixProse(r, 3+r.Intn(400))+"\n")
		}
		if r.Intn(4) == 0 {
			m["testdata/"+it.ID+".t1"] = byHand(r, "0%\nscan\n100%\nby hand\n\n"+fixProse(r, 5+r.Intn(300))+"\n")
		}
		if r.Intn(6) == 0 {
			m["testdata/licenses/"+it.ID+".txt"] = []byte("older text\n")
		}
	}
	m["data.gen.go"] = []byte("package licensecheck\n")
}

var ccIDs = []string{"CC-BY-4.0", "CC-BY-SA-3.0", "CC-BY-NC-3.0-AT", "CC-BY-ND-2.5", "CC-BY-NC-SA-1.0", "CC0-1.0"}

func ccFile(id string) string {
	f := strings.TrimPrefix(id, "CC-")
	i := strings.IndexAny(f, "0123456789")
	if i > 0 {
		f = f[:i-1] + strings.Replace(f[i-1:], "-", "_", -1)
	}
	return strings.ToLower(f)
}

// fixCC is a scratch tree for getcc.
func fixCC(r *rand.Rand, o fixOpts) (map[string][]byte, []GenItem) {
	m := make(map[string][]byte)
	m["licenses/_spdx/README"] = []byte("x")
	m["licenses/_cc/README"] = []byte("x")
	var items []GenItem
	names := ids(r, ccIDs, o.n, "CC-BY-NC-ND-%d.%d")
	for i := 0; i < o.n; i++ {
		id := names[i]
		base := "licenses/_cc/docroot/legalcode/" + ccFile(id)
		spdx := "licenses/_spdx/text/" + id + ".txt"
		it := GenItem{Arg: id, ID: id, Sources: []string{base + ".html", base + ".txt", spdx}}
		kind := o.kind(r, i, 9)
		var b strings.Builder
		b.WriteString("<html><head><title>" + id + "</title></head><body>\n")
		if r.Intn(3) > 0 {
			b.WriteString("<div id=\"deed-license\"><h2>" + fixProse(r, 4) + "</h2></div>\n<div id=\"deed-main-content\">\n")
			b.WriteString("<blockquote>" + fixProse(r, 20) + "</blockquote>\n<h3>License</h3>\n")
		} else {
			b.WriteString("<p align=\"center\"><b>License</b></p>\n<div class=\"text\">\n")
		}
		b.WriteString("<p>" + fixProse(r, 150) + " ((x)) </p><ol>")
		for j := r.Intn(4); j >= 0; j-- {
			b.WriteString("<li>" + fixProse(r, 20+r.Intn(30)) + "<br>For the avoidance of doubt, nothing.</li>\n")
		}
		b.WriteString("</ol><p class=\"shaded\">" + fixProse(r, 30) + "</p></div></body></html>\n")
		page := b.String()
		it.Bad = kind >= 2 && kind <= 5 || kind >= 7
		switch kind {
		case 1:
			page = page[:len(page)/3] + "</nowhere></x>"
		case 2:
			page = "<html><h1>short</h1></html>"
		case 3:
			page = ""
		case 7:
			// Cut off in the middle of a tag, behind most of the text.
			page = page[:strings.LastIndex(page, "class=\"shaded\"")+r.Intn(8)]
		case 8:
			i := strings.LastIndex(page, "</p>")
			page = page[:i] + []string{"<!-- ", "\xff", "<![CDATA[ ", "<? ", "<a b='"}[r.Intn(5)] + page[i:]
		}
		if kind != 4 {
			m[base+".html"] = []byte(page)
		}
		which := r.Intn(3)
		if kind == 5 {
			which = 3
		}
		if which == 0 || which == 1 {
			m[base+".txt"] = []byte("canonical " + fixProse(r, 30) + "\n")
		}
		if which == 1 || which == 2 {
			m[spdx] = []byte("from spdx " + fixProse(r, 30) + "\n")
		}
		items = append(items, it)
	}
	fixExisting(r, m, o.passing(items))
	return m, items
}
