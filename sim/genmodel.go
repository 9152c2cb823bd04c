package main

// The reference model of the database generator, and reading of its output.

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"text/template"
	"unicode/utf8"
)

type dbEntry struct {
	ID, Type, LRE string
}

// model computes the database that belongs to the pattern files.
func dbModel(files map[string][]byte) (list []dbEntry, err error) {
	var names []string
	for f := range files {
		if filepath.Dir(f) == "licenses" && strings.HasSuffix(f, ".lre") {
			names = append(names, f)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		return nil, fmt.Errorf("no pattern files")
	}
	var typ map[string]bool
	known := map[string]bool{"Unrestricted": true, "Notice": true, "ShareChanges": true, "ShareProgram": true, "ShareServer": true, "NonCommercial": true, "Discouraged": true}
	t := template.New("").Funcs(template.FuncMap{
		"Type": func(s string) (string, error) {
			typ = make(map[string]bool)
			for _, w := range strings.Split(s, "|") {
				if w == "Unknown" {
					continue
				}
				if !known[w] {
					return "", fmt.Errorf("unknown type %q", w)
				}
				typ[w] = true
			}
			return "", nil
		},
		"list": func(xs ...interface{}) []interface{} {
			var l []interface{}
			for _, x := range xs {
				if y, ok := x.([]interface{}); ok {
					l = append(l, y...)
				} else {
					l = append(l, x)
				}
			}
			return l
		},
	})
	for _, f := range names {
		if _, err := t.New(filepath.Base(f)).Parse(string(files[f])); err != nil {
			return nil, err
		}
	}
	var ids []string
	for _, x := range t.Templates() {
		if strings.HasSuffix(x.Name(), ".lre") {
			ids = append(ids, strings.TrimSuffix(x.Name(), ".lre"))
		}
	}
	sort.Strings(ids)
	// Within these groups the more special license comes first.
	for _, prefix := range []string{"BSD-4-Clause", "GFDL-"} {
		lo := sort.SearchStrings(ids, prefix)
		hi := lo
		for hi < len(ids) && strings.HasPrefix(ids[hi], prefix) {
			hi++
		}
		for i, j := lo, hi-1; i < j; i, j = i+1, j-1 {
			ids[i], ids[j] = ids[j], ids[i]
		}
	}
	for _, id := range ids {
		typ = nil
		var b bytes.Buffer
		if err := t.ExecuteTemplate(&b, id+".lre", nil); err != nil {
			return nil, err
		}
		if strings.TrimSpace(b.String()) == "" {
			continue
		}
		list = append(list, dbEntry{id, typeSet(typ), strings.ReplaceAll(b.String(), "\r", "")})
	}
	return list, nil
}

// awkward reports why a database cannot be written as constants named after
// their IDs, if so. Such a set may be refused.
func awkward(list []dbEntry) error {
	vars := make(map[string]string)
	for _, e := range list {
		name := "license_" + strings.Map(func(r rune) rune {
			if r == '-' || r == '.' || r == '+' {
				return '_'
			}
			return r
		}, e.ID+".lre")
		if !token.IsIdentifier(name) {
			return fmt.Errorf("%q does not make an identifier", e.ID)
		}
		if id, ok := vars[name]; ok {
			return fmt.Errorf("%q and %q make the same identifier", id, e.ID)
		}
		vars[name] = e.ID
		if !utf8.ValidString(e.LRE) || strings.ContainsAny(e.LRE, "\x00\ufeff") {
			return fmt.Errorf("%q holds characters that source code may not hold", e.ID)
		}
	}
	return nil
}

func typeSet(m map[string]bool) string {
	var l []string
	for t := range m {
		l = append(l, t)
	}
	sort.Strings(l)
	return strings.Join(l, "|")
}

// parseDB reads a generated file. It fails if the file would not compile.
func parseDB(src string) ([]dbEntry, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "data.gen.go", src, 0)
	if err != nil {
		return nil, err
	}
	if f.Name.Name != "licensecheck" {
		return nil, fmt.Errorf("package %s", f.Name.Name)
	}
	vals := make(map[string]string)
	var lits []*ast.CompositeLit
	found := false
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			return nil, fmt.Errorf("unexpected declaration")
		}
		for _, s := range g.Specs {
			v, ok := s.(*ast.ValueSpec)
			if !ok {
				return nil, fmt.Errorf("unexpected declaration")
			}
			for i, n := range v.Names {
				if n.Name == "builtinLREs" {
					found = true
					if len(v.Values) == 0 {
						continue
					}
					c, ok := v.Values[i].(*ast.CompositeLit)
					if !ok {
						return nil, fmt.Errorf("builtinLREs is not a list")
					}
					for _, e := range c.Elts {
						l, ok := e.(*ast.CompositeLit)
						if !ok {
							return nil, fmt.Errorf("strange element")
						}
						lits = append(lits, l)
					}
					continue
				}
				if i >= len(v.Values) {
					return nil, fmt.Errorf("%s has no value", n.Name)
				}
				x, err := constString(v.Values[i])
				if err != nil {
					return nil, err
				}
				if _, dup := vals[n.Name]; dup {
					return nil, fmt.Errorf("%s declared twice", n.Name)
				}
				vals[n.Name] = x
			}
		}
	}
	if !found {
		return nil, fmt.Errorf("builtinLREs is not declared")
	}
	var list []dbEntry
	for _, l := range lits {
		var e dbEntry
		for _, kv := range l.Elts {
			kv, ok := kv.(*ast.KeyValueExpr)
			if !ok {
				return nil, fmt.Errorf("unkeyed element")
			}
			switch kv.Key.(*ast.Ident).Name {
			case "ID":
				e.ID, err = constString(kv.Value)
			case "Type":
				m := make(map[string]bool)
				err = typeExpr(kv.Value, m)
				e.Type = typeSet(m)
			case "LRE":
				if id, ok := kv.Value.(*ast.Ident); ok {
					if e.LRE, ok = vals[id.Name]; !ok {
						err = fmt.Errorf("%s is not declared", id.Name)
					}
				} else {
					e.LRE, err = constString(kv.Value)
				}
			default:
				err = fmt.Errorf("unexpected field")
			}
			if err != nil {
				return nil, err
			}
		}
		list = append(list, e)
	}
	return list, nil
}

func constString(e ast.Expr) (string, error) {
	switch e := e.(type) {
	case *ast.BasicLit:
		return strconv.Unquote(e.Value)
	case *ast.ParenExpr:
		return constString(e.X)
	case *ast.BinaryExpr:
		x, err := constString(e.X)
		if err != nil {
			return "", err
		}
		y, err := constString(e.Y)
		return x + y, err
	}
	return "", fmt.Errorf("not a constant string")
}

func typeExpr(e ast.Expr, m map[string]bool) error {
	switch e := e.(type) {
	case *ast.Ident:
		if e.Name != "Unknown" {
			m[e.Name] = true
		}
		return nil
	case *ast.ParenExpr:
		return typeExpr(e.X, m)
	case *ast.BinaryExpr:
		if err := typeExpr(e.X, m); err != nil {
			return err
		}
		return typeExpr(e.Y, m)
	}
	return fmt.Errorf("strange type")
}

var lreComment = regexp.MustCompile(`(?s)//\*\*.*?\*\*//`)

// sameDB compares two databases. Loose: comments and layout in patterns do not matter.
func sameDB(a, b []dbEntry, loose bool) string {
	norm := func(s string) string {
		if !loose {
			return s
		}
		return strings.Join(strings.Fields(lreComment.ReplaceAllString(s, " ")), " ")
	}
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(a) {
			return fmt.Sprintf("entry %d, %s, is missing", i, b[i].ID)
		}
		if i >= len(b) {
			return fmt.Sprintf("entry %d, %s, is too much", i, a[i].ID)
		}
		if a[i].ID != b[i].ID {
			return fmt.Sprintf("entry %d is %s instead of %s", i, a[i].ID, b[i].ID)
		}
		if a[i].Type != b[i].Type {
			return fmt.Sprintf("%s has type %q instead of %q", a[i].ID, a[i].Type, b[i].Type)
		}
		if norm(a[i].LRE) != norm(b[i].LRE) {
			return fmt.Sprintf("%s has another pattern", a[i].ID)
		}
	}
	return ""
}
