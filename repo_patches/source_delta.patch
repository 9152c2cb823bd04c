From a8134fadc5515365ab5b4dc4606d5732188a8b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 01/11] fix: NewScanner returns an error for a list without any
 LRE

NewMultiLRE never returns nil, so the check for a missing LRE was dead and
NewScanner returned a scanner whose every Scan call panicked.
---
 scan.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scan.go b/scan.go
index 108e12a..9c68929 100644
--- a/scan.go
+++ b/scan.go
@@ -82,13 +82,14 @@ func (s *Scanner) init(licenses []License) error {
 			list = append(list, re)
 		}
 	}
+	if len(list) == 0 {
+		// NewMultiLRE accepts an empty list, but Scan cannot use the result.
+		return errors.New("missing lre")
+	}
 	re, err := match.NewMultiLRE(list)
 	if err != nil {
 		return err
 	}
-	if re == nil {
-		return errors.New("missing lre")
-	}
 	s.re = re
 	return nil
 }
-- 
2.43.0


From b6c87bb69163f5c4300f441dda7c066996f84f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 02/11] fix: old: index licenses by their position among those
 with text

New used the position in the caller's list, so a list with a URL-only entry
before an entry with text made Cover panic or report the wrong license.
---
 old/license.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/old/license.go b/old/license.go
index c53e53e..8ab6a93 100644
--- a/old/license.go
+++ b/old/license.go
@@ -101,7 +101,7 @@ func New(licenses []License) *Checker {
 		dict:     make(map[string]int32),
 		index:    make(map[phrase][]indexEntry),
 	}
-	for id, l := range licenses {
+	for _, l := range licenses {
 		if l.Text != "" {
 			next := len(c.licenses)
 			c.licenses = c.licenses[:next+1]
@@ -110,7 +110,7 @@ func New(licenses []License) *Checker {
 			cl.typ = licenseType(cl.name)
 			cl.text = l.Text
 			cl.doc = c.normalize([]byte(cl.text), true)
-			c.updateIndex(int32(id), cl.doc.words)
+			c.updateIndex(int32(next), cl.doc.words)
 		}
 		if l.URL != "" {
 			c.urls[l.URL] = l.Name
-- 
2.43.0


From 363fc391de35fdfe92defb2a674c3a78063bda80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 03/11] fix: gen_data: report errors reading the licenses
 directory

filepath.Glob ignores I/O errors, so that a failing directory read
produced a database without some of the licenses and exit status 0.
---
 gen_data.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gen_data.go b/gen_data.go
index cfa7a4d..8f78ce0 100644
--- a/gen_data.go
+++ b/gen_data.go
@@ -33,10 +33,17 @@ func main() {
 	log.SetPrefix("gen: ")
 	flag.Parse()
 
-	filesLRE, err := filepath.Glob(filepath.Join("licenses", "*.lre"))
+	// Not filepath.Glob, which ignores errors reading the directory.
+	infos, err := ioutil.ReadDir("licenses")
 	if err != nil {
 		log.Fatal(err)
 	}
+	var filesLRE []string
+	for _, info := range infos {
+		if strings.HasSuffix(info.Name(), ".lre") {
+			filesLRE = append(filesLRE, filepath.Join("licenses", info.Name()))
+		}
+	}
 	if len(filesLRE) == 0 {
 		log.Fatal("no license files")
 	}
-- 
2.43.0


From 2a8cf3922530081d217c5110fe9d18b7e336b892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 04/11] fix: gen_data: never leave part of the output behind

A write that failed after a raw string of the last pattern left a file
that compiles and looks like a complete database.
---
 gen_data.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gen_data.go b/gen_data.go
index 8f78ce0..10405db 100644
--- a/gen_data.go
+++ b/gen_data.go
@@ -18,6 +18,7 @@ import (
 	"go/format"
 	"io/ioutil"
 	"log"
+	"os"
 	"path/filepath"
 	"sort"
 	"strings"
@@ -76,8 +77,14 @@ func main() {
 		}
 		log.Fatal("parsing output:", err)
 	}
-	err = ioutil.WriteFile(*outFile, src, 0644)
+	// Write to a temporary file first: part of the output may be valid Go code.
+	tmpFile := *outFile + ".tmp"
+	err = ioutil.WriteFile(tmpFile, src, 0644)
+	if err == nil {
+		err = os.Rename(tmpFile, *outFile)
+	}
 	if err != nil {
+		os.Remove(tmpFile)
 		log.Fatal(err)
 	}
 }
-- 
2.43.0


From 819860a4953c1a7fa1bf1446e6f87e474aa39eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:12 +0000
Subject: [PATCH 05/11] fix: getspdx: report errors reading the SPDX directory

filepath.Glob ignores I/O errors, so that "all" silently skipped
licenses and exited with status 0.
---
 licenses/getspdx.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/licenses/getspdx.go b/licenses/getspdx.go
index 8ec7838..6cada5b 100644
--- a/licenses/getspdx.go
+++ b/licenses/getspdx.go
@@ -39,7 +39,6 @@ import (
 	"log"
 	"os"
 	"os/exec"
-	"path/filepath"
 	"regexp"
 	"strings"
 )
@@ -161,13 +160,16 @@ func main() {
 	}
 
 	if len(args) == 1 && args[0] == "all" {
-		list, err := filepath.Glob("_spdx/json/details/*.json")
+		// Not filepath.Glob, which ignores errors reading the directory.
+		infos, err := ioutil.ReadDir("_spdx/json/details")
 		if err != nil {
 			log.Fatal(err)
 		}
 		args = nil
-		for _, file := range list {
-			args = append(args, strings.TrimSuffix(filepath.Base(file), ".json"))
+		for _, info := range infos {
+			if strings.HasSuffix(info.Name(), ".json") {
+				args = append(args, strings.TrimSuffix(info.Name(), ".json"))
+			}
 		}
 		isAll = true
 	}
-- 
2.43.0


From 9c588aef8723d4dfa3852f11da05f1a57cddc928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:12 +0000
Subject: [PATCH 06/11] fix: getspdx, getcc: do not take a failing stat for a
 missing file

A stat error made the importers overwrite existing patterns and
expectation files.
---
 licenses/getcc.go   | 10 +++++++++-
 licenses/getspdx.go | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/licenses/getcc.go b/licenses/getcc.go
index dccefa7..a777224 100644
--- a/licenses/getcc.go
+++ b/licenses/getcc.go
@@ -277,6 +277,10 @@ func convert(id string) {
 	target := id + ".lre"
 	if _, err := os.Stat(target); err == nil && !*forceOverwrite {
 		return
+	} else if err != nil && !os.IsNotExist(err) {
+		log.Print(err)
+		exitStatus = 1
+		return
 	}
 	text := regexp.MustCompile(`[ \t]*\n[ \t]*`).ReplaceAll(buf.Bytes(), []byte("\n"))
 	text = regexp.MustCompile(`\n\n\n+`).ReplaceAll(text, []byte("\n\n"))
@@ -313,7 +317,11 @@ func convert(id string) {
 		exitStatus = 1
 		return
 	}
-	if _, err := os.Stat("../testdata/" + id + ".t1"); err != nil {
+	if _, err := os.Stat("../testdata/" + id + ".t1"); err != nil && !os.IsNotExist(err) {
+		log.Print(err)
+		exitStatus = 1
+		return
+	} else if err != nil {
 		data := []byte(fmt.Sprintf("0%%\nscan\n100%%\n%s 100%% 0,$\n\n%s", id, text))
 		if err := ioutil.WriteFile("../testdata/"+id+".t1", data, 0666); err != nil {
 			log.Print(err)
diff --git a/licenses/getspdx.go b/licenses/getspdx.go
index 6cada5b..0cd3d47 100644
--- a/licenses/getspdx.go
+++ b/licenses/getspdx.go
@@ -231,6 +231,10 @@ func convert(file string) {
 	target := id + ".lre"
 	if _, err := os.Stat(target); err == nil && !*forceOverwrite {
 		return
+	} else if err != nil && !os.IsNotExist(err) {
+		log.Print(err)
+		exitStatus = 1
+		return
 	}
 
 	if err := ioutil.WriteFile(target, buf.Bytes(), 0666); err != nil {
@@ -256,7 +260,11 @@ func convert(file string) {
 		exitStatus = 1
 		return
 	}
-	if _, err := os.Stat("../testdata/" + id + ".t1"); err != nil {
+	if _, err := os.Stat("../testdata/" + id + ".t1"); err != nil && !os.IsNotExist(err) {
+		log.Print(err)
+		exitStatus = 1
+		return
+	} else if err != nil {
 		data := []byte(fmt.Sprintf("0%%\nscan\n100%%\n%s 100%% 0,$\n\n%s", id, text))
 		if err := ioutil.WriteFile("../testdata/"+id+".t1", data, 0666); err != nil {
 			log.Print(err)
-- 
2.43.0


From bfe33e2e73b3fbff3c2b10511c48cad06f555d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:56 +0000
Subject: [PATCH 07/11] fix: getspdx, getcc: never leave half a pattern or half
 an import behind

A failed or interrupted write left part of a pattern that later runs
skipped; a failure after it left an import without text and
expectation file that later runs did not complete.
---
 licenses/getcc.go   | 33 +++++++++++++++++++++++++--------
 licenses/getspdx.go | 32 ++++++++++++++++++++++++--------
 2 files changed, 49 insertions(+), 16 deletions(-)

diff --git a/licenses/getcc.go b/licenses/getcc.go
index a777224..1a3abc7 100644
--- a/licenses/getcc.go
+++ b/licenses/getcc.go
@@ -37,6 +37,7 @@ import (
 	"log"
 	"os"
 	"os/exec"
+	"path/filepath"
 	"regexp"
 	"strings"
 )
@@ -295,12 +296,7 @@ func convert(id string) {
 		return
 	}
 
-	if err := ioutil.WriteFile(target, text, 0666); err != nil {
-		log.Print(err)
-		exitStatus = 1
-		return
-	}
-
+	lre := text
 	text, err = ioutil.ReadFile("_cc/docroot/legalcode/" + file + ".txt")
 	if err != nil {
 		// In absence of a canonical form, take whatever SPDX has.
@@ -312,7 +308,7 @@ func convert(id string) {
 		}
 	}
 
-	if err := ioutil.WriteFile("../testdata/licenses/"+id+".txt", text, 0666); err != nil {
+	if err := writeFile("../testdata/licenses/"+id+".txt", text); err != nil {
 		log.Print(err)
 		exitStatus = 1
 		return
@@ -323,12 +319,33 @@ func convert(id string) {
 		return
 	} else if err != nil {
 		data := []byte(fmt.Sprintf("0%%\nscan\n100%%\n%s 100%% 0,$\n\n%s", id, text))
-		if err := ioutil.WriteFile("../testdata/"+id+".t1", data, 0666); err != nil {
+		if err := writeFile("../testdata/"+id+".t1", data); err != nil {
 			log.Print(err)
 			exitStatus = 1
 			return
 		}
 	}
+
+	// The pattern comes last: while it is missing, the job is not done.
+	if err := writeFile(target, lre); err != nil {
+		log.Print(err)
+		exitStatus = 1
+		return
+	}
+}
+
+// writeFile is like ioutil.WriteFile, but leaves nothing
+// or the old content in file if it does not succeed.
+func writeFile(file string, data []byte) error {
+	tmp := filepath.Base(file) + ".tmp"
+	err := ioutil.WriteFile(tmp, data, 0666)
+	if err == nil {
+		err = os.Rename(tmp, file)
+	}
+	if err != nil {
+		os.Remove(tmp)
+	}
+	return err
 }
 
 func find(list []xml.Attr, key string) string {
diff --git a/licenses/getspdx.go b/licenses/getspdx.go
index 0cd3d47..b06c359 100644
--- a/licenses/getspdx.go
+++ b/licenses/getspdx.go
@@ -39,6 +39,7 @@ import (
 	"log"
 	"os"
 	"os/exec"
+	"path/filepath"
 	"regexp"
 	"strings"
 )
@@ -237,12 +238,6 @@ func convert(file string) {
 		return
 	}
 
-	if err := ioutil.WriteFile(target, buf.Bytes(), 0666); err != nil {
-		log.Print(err)
-		exitStatus = 1
-		return
-	}
-
 	i := strings.Index(file, "json/details")
 	if i < 0 {
 		log.Printf("cannot find spdx text")
@@ -255,7 +250,7 @@ func convert(file string) {
 		exitStatus = 1
 		return
 	}
-	if err := ioutil.WriteFile("../testdata/licenses/"+id+".txt", text, 0666); err != nil {
+	if err := writeFile("../testdata/licenses/"+id+".txt", text); err != nil {
 		log.Print(err)
 		exitStatus = 1
 		return
@@ -266,12 +261,33 @@ func convert(file string) {
 		return
 	} else if err != nil {
 		data := []byte(fmt.Sprintf("0%%\nscan\n100%%\n%s 100%% 0,$\n\n%s", id, text))
-		if err := ioutil.WriteFile("../testdata/"+id+".t1", data, 0666); err != nil {
+		if err := writeFile("../testdata/"+id+".t1", data); err != nil {
 			log.Print(err)
 			exitStatus = 1
 			return
 		}
 	}
+
+	// The pattern comes last: while it is missing, the job is not done.
+	if err := writeFile(target, buf.Bytes()); err != nil {
+		log.Print(err)
+		exitStatus = 1
+		return
+	}
+}
+
+// writeFile is like ioutil.WriteFile, but leaves nothing
+// or the old content in file if it does not succeed.
+func writeFile(file string, data []byte) error {
+	tmp := filepath.Base(file) + ".tmp"
+	err := ioutil.WriteFile(tmp, data, 0666)
+	if err == nil {
+		err = os.Rename(tmp, file)
+	}
+	if err != nil {
+		os.Remove(tmp)
+	}
+	return err
 }
 
 var (
-- 
2.43.0


From d77959c2533ae5d8b233c8a662439e302774a152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:56 +0000
Subject: [PATCH 08/11] fix: getspdx, getcc: a panic on one item does not stop
 the others

---
 licenses/getcc.go   | 8 ++++++++
 licenses/getspdx.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/licenses/getcc.go b/licenses/getcc.go
index 1a3abc7..bd04596 100644
--- a/licenses/getcc.go
+++ b/licenses/getcc.go
@@ -82,6 +82,14 @@ func main() {
 }
 
 func convert(id string) {
+	// Bad input must not keep others from being converted.
+	defer func() {
+		if err := recover(); err != nil {
+			log.Printf("%s: %v", id, err)
+			exitStatus = 1
+		}
+	}()
+
 	// Convert CC name to URL basename.
 	// Lowercase and convert - to _ starting just before the number.
 	file := strings.TrimPrefix(id, "CC-")
diff --git a/licenses/getspdx.go b/licenses/getspdx.go
index b06c359..4bb6c1b 100644
--- a/licenses/getspdx.go
+++ b/licenses/getspdx.go
@@ -189,6 +189,14 @@ func main() {
 }
 
 func convert(file string) {
+	// Bad input must not keep others from being converted.
+	defer func() {
+		if err := recover(); err != nil {
+			log.Printf("%s: %v", file, err)
+			exitStatus = 1
+		}
+	}()
+
 	if !strings.HasSuffix(file, ".json") {
 		file = "_spdx/json/details/" + file + ".json"
 	}
-- 
2.43.0


From 8f64b1c6a66b1ab86ddfef11c8dd617460f3948d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:56 +0000
Subject: [PATCH 09/11] fix: getcc: use the SPDX text only if there is no
 Creative Commons text

Any other error reading it silently imported a different text.
---
 licenses/getcc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/licenses/getcc.go b/licenses/getcc.go
index bd04596..729936e 100644
--- a/licenses/getcc.go
+++ b/licenses/getcc.go
@@ -306,7 +306,7 @@ func convert(id string) {
 
 	lre := text
 	text, err = ioutil.ReadFile("_cc/docroot/legalcode/" + file + ".txt")
-	if err != nil {
+	if os.IsNotExist(err) {
 		// In absence of a canonical form, take whatever SPDX has.
 		text, err = ioutil.ReadFile("_spdx/text/" + id + ".txt")
 		if err != nil {
@@ -314,6 +314,10 @@ func convert(id string) {
 			exitStatus = 1
 			return
 		}
+	} else if err != nil {
+		log.Print(err)
+		exitStatus = 1
+		return
 	}
 
 	if err := writeFile("../testdata/licenses/"+id+".txt", text); err != nil {
-- 
2.43.0


From c8353b45b1cc4fe130889ab9214f7f40c7d9eb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 10/11] fix: look only once for the missing end of a Markdown
 anchor or link

Split tried each possible start of a Markdown anchor or link target to the
end of the line, so a long line of them without an end took quadratic time
(15s for 256 kB).
---
 internal/match/dict.go | 50 +++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/internal/match/dict.go b/internal/match/dict.go
index fa38505..7ab56de 100644
--- a/internal/match/dict.go
+++ b/internal/match/dict.go
@@ -93,6 +93,9 @@ var copyright = []byte("copyright")
 func (d *Dict) split(text string, insert bool) []Word {
 	var wbuf []byte
 	var words []Word
+	// No Markdown anchor or link target starts at an offset in text before these.
+	// Looking for the end of each possible one could take quadratic time.
+	noAnchor, noLink := 0, 0
 	t := text
 	for t != "" {
 		var w []byte
@@ -105,9 +108,14 @@ func (d *Dict) split(text string, insert bool) []Word {
 					continue
 				}
 			case '{':
-				if size := markdownAnchorSize(t); size > 0 {
-					t = t[size:]
-					continue
+				if pos := len(text) - len(t); pos >= noAnchor {
+					if size := markdownAnchorSize(t); size > 0 {
+						t = t[size:]
+						continue
+					}
+					if strings.HasPrefix(t, "{#") {
+						noAnchor = pos + indexAnyOrLen(t, " \r\n")
+					}
 				}
 			case '&':
 				// Assume HTML entity is punctuation.
@@ -124,9 +132,14 @@ func (d *Dict) split(text string, insert bool) []Word {
 				}
 			}
 			if len(t) >= 2 && t[0] == ']' && t[1] == '(' {
-				if size := markdownLinkSize(t); size > 0 {
-					t = t[size:]
-					continue
+				if pos := len(text) - len(t); pos >= noLink {
+					if size := markdownLinkSize(t); size > 0 {
+						t = t[size:]
+						continue
+					}
+					if isMarkdownLink(t) {
+						noLink = pos + indexAnyOrLen(t, " \t\r\n")
+					}
 				}
 			}
 
@@ -402,20 +415,23 @@ var markdownLinkPrefixes = []string{
 	"#",
 }
 
-// markdownLinkSize returns the length of the Markdown link target at the start of t, or else 0.
+// isMarkdownLink reports whether t starts like a Markdown link target.
 // Instead of fully parsing Markdown, this looks for ](http:// or ](https://.
-func markdownLinkSize(t string) int {
+func isMarkdownLink(t string) bool {
 	if len(t) < 2 || t[0] != ']' || t[1] != '(' {
-		return 0
+		return false
 	}
-	ok := false
 	for _, prefix := range markdownLinkPrefixes {
 		if strings.HasPrefix(t[2:], prefix) {
-			ok = true
-			break
+			return true
 		}
 	}
-	if !ok {
+	return false
+}
+
+// markdownLinkSize returns the length of the Markdown link target at the start of t, or else 0.
+func markdownLinkSize(t string) int {
+	if !isMarkdownLink(t) {
 		return 0
 	}
 
@@ -431,6 +447,14 @@ func markdownLinkSize(t string) int {
 	return 0
 }
 
+// indexAnyOrLen returns the index in s of the first of the bytes in chars, or else len(s).
+func indexAnyOrLen(s, chars string) int {
+	if i := strings.IndexAny(s, chars); i >= 0 {
+		return i
+	}
+	return len(s)
+}
+
 // canonicalRewrites is a list of pairs that are canonicalized during word splittting.
 // The words on the right are parsed as if they were the words on the left.
 // This happens during dictionary splitting, so canMisspell will never see any
-- 
2.43.0


From 7532554ebc7772e988a56edd58dc9742120bf8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:20 +0000
Subject: [PATCH 11/11] fix: gen_data reported success for names that make the
 same or no Go identifier

---
 gen_data.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gen_data.go b/gen_data.go
index 10405db..a7dbe35 100644
--- a/gen_data.go
+++ b/gen_data.go
@@ -23,6 +23,7 @@ import (
 	"sort"
 	"strings"
 	"text/template"
+	"unicode"
 
 	"github.com/google/licensecheck"
 )
@@ -58,9 +59,16 @@ func main() {
 	code = strings.Replace(code, "FILES_LIST", out.String(), -1)
 
 	out.Reset()
+	varFile := make(map[string]string)
 	for _, file := range builtLRE {
+		// The formatter does not notice that a name is declared twice.
+		name := varName(file.Name + ".lre")
+		if varFile[name] != "" {
+			log.Fatalf("%s.lre and %s.lre make the same name %s", varFile[name], file.Name, name)
+		}
+		varFile[name] = file.Name
 		fmt.Fprintf(out, "const %s = `%s`\n",
-			varName(file.Name+".lre"),
+			name,
 			bytes.ReplaceAll(file.Data, []byte("`"), []byte("` + \"`\" + `")))
 	}
 	code += out.String()
@@ -93,10 +101,10 @@ func main() {
 // and given the prefix "license_".
 func varName(file string) string {
 	mapping := func(r rune) rune {
-		if r == '-' || r == '.' || r == '+' {
-			return '_'
+		if unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
 		}
-		return r
+		return '_'
 	}
 	return "license_" + strings.Map(mapping, filepath.Base(file))
 }
-- 
2.43.0

