// Package c20 checks the metadata files.
package c20

import (
	"bytes"
	"go/format"
	"strings"

	"github.com/mmcloughlin/addchain/internal/metavars"
	"github.com/mmcloughlin/addchain/zzverif/nd"
)

func letter(c byte) bool {
	return nd.Or(nd.And(c >= 'a', c <= 'z'), nd.And(c >= 'A', c <= 'Z'), c == '_')
}

func digit(c byte) bool { return nd.And(c >= '0', c <= '9') }

var keywords = []string{
	"break", "case", "chan", "const", "continue", "default", "defer", "else", "fallthrough", "for", "func", "go", "goto", "if", "import",
	"interface", "map", "package", "range", "return", "select", "struct", "switch", "type", "var",
}

// ident is an arbitrary identifier of n ASCII characters.
func ident(n int) string {
	s := nd.String("ident", n)
	for i := 0; i < n; i++ {
		nd.Assume(nd.Or(letter(s[i]), nd.And(i > 0, digit(s[i]))))
	}
	for _, k := range keywords {
		if len(k) == n {
			nd.Assume(nd.Not(nd.EqString(k, s)))
		}
	}
	return s
}

// prose is a sentence with n arbitrary characters in it.
func prose(n int) string {
	s := nd.String("prose", n)
	for i := 0; i < n; i++ {
		c := s[i]
		nd.Assume(nd.Or(letter(c), digit(c), c == ' ', c == ',', c == '.', c == ';', c == ':', c == '(', c == ')', c == '-', c == '/', c == '%', c == '"', c == '\'', c == '!', c == '?'))
		if i > 0 {
			nd.Assume(nd.Not(nd.And(c == ' ', s[i-1] == ' ')))
		}
	}
	return s
}

func copyOf(f *metavars.File) *metavars.File {
	return &metavars.File{Package: f.Package, Properties: append([]metavars.Property{}, f.Properties...)}
}

func sameProps(a, b []metavars.Property) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i].Name) != len(b[i].Name) || len(a[i].Value) != len(b[i].Value) || len(a[i].Doc) != len(b[i].Doc) {
			return false
		}
		if !nd.And(nd.EqString(a[i].Name, b[i].Name), nd.EqString(a[i].Value, b[i].Value), nd.EqString(a[i].Doc, b[i].Doc)) {
			return false
		}
	}
	return true
}

func roundtrip(f *metavars.File) {
	orig := copyOf(f)
	var buf bytes.Buffer
	err := metavars.Write(&buf, f)
	nd.Assert(err == nil, "writing succeeds")
	nd.Assert(f.Package == orig.Package && sameProps(f.Properties, orig.Properties), "the description is unchanged")
	src := buf.String()
	nd.Observe("src", src)
	g, err := metavars.Read(strings.NewReader(src))
	nd.Assert(err == nil, "reading succeeds")
	nd.Assert(len(g.Package) == len(orig.Package) && nd.EqString(g.Package, orig.Package), "the package name")
	nd.Assert(sameProps(g.Properties, orig.Properties), "the properties")
	out, err := format.Source([]byte(src))
	nd.Assert(err == nil, "the text is source")
	nd.Assert(len(out) == len(src) && nd.EqBytes(out, []byte(src)), "the text is in canonical form")
	nd.Reach("round trip")
}

// Values: arbitrary bytes in the value.
func Values() {
	n := nd.Choose("n", nd.Param("n")+1)
	f := &metavars.File{Package: "meta", Properties: []metavars.Property{
		{Name: "A", Value: nd.String("v", n)},
		{Name: "Longer", Doc: "Longer is the second.", Value: "x\n\"`\\"},
	}}
	roundtrip(f)
}

// Sandwich: arbitrary bytes between characters that may join with them.
func Sandwich() {
	pre := []string{"", "\\", "\xe2\x82", "\xf0\x9f\x98", "\xed\xa0", "\xef\xbb", "/*", "a\"", "`", "%", "\r"}[nd.Choose("pre", 11)]
	post := []string{"", "\\", "\x80", "n", "*/", "\n", "`", "\xbf"}[nd.Choose("post", 8)]
	f := &metavars.File{Package: "meta", Properties: []metavars.Property{
		{Name: "A", Value: pre + nd.String("v", nd.Param("n")) + post},
	}}
	roundtrip(f)
}

// Names: arbitrary identifiers, with and without documentation.
func Names() {
	f := &metavars.File{Package: "meta"}
	k := nd.Choose("props", nd.Param("props")+1)
	for i := 0; i < k; i++ {
		p := metavars.Property{Name: ident(1 + nd.Choose("len", nd.Param("len"))), Value: "v"}
		for _, q := range f.Properties {
			if len(q.Name) == len(p.Name) {
				nd.Assume(nd.Not(nd.EqString(q.Name, p.Name)))
			}
		}
		if nd.Choose("doc", 2) == 1 {
			p.Doc = "This is it."
		}
		f.Properties = append(f.Properties, p)
	}
	roundtrip(f)
}

// Package: arbitrary package names.
func Package() {
	s := ident(1 + nd.Choose("len", nd.Param("len")))
	if len(s) == 1 {
		nd.Assume(nd.Not(s[0] == '_'))
	}
	roundtrip(&metavars.File{Package: s, Properties: []metavars.Property{{Name: "A", Value: "1"}}})
}

// Docs: arbitrary prose.
func Docs() {
	t := []string{"#", "A#", "Doc # end.", "Doc #", "See x#y (z)."}[nd.Choose("t", 5)]
	n := nd.Param("n")
	p := prose(n)
	i := strings.Index(t, "#")
	if i == 0 {
		nd.Assume(letter(p[0]))
	}
	if i+1 == len(t) {
		nd.Assume(nd.Not(p[n-1] == ' '))
	}
	if i > 0 && t[i-1] == ' ' {
		nd.Assume(nd.Not(p[0] == ' '))
	}
	if i+1 < len(t) && t[i+1] == ' ' {
		nd.Assume(nd.Not(p[n-1] == ' '))
	}
	f := &metavars.File{Package: "meta", Properties: []metavars.Property{
		{Name: "First", Value: "1"},
		{Name: "B", Value: "2", Doc: t[:i] + p + t[i+1:]},
		{Name: "Third", Value: "3", Doc: "Third."},
	}}
	roundtrip(f)
}

var shapes = [][]metavars.Property{
	{},
	{{Name: "A", Value: ""}},
	{{Name: "BuildVersion", Value: "", Doc: "Version of the build. Populated by build process."}, {Name: "ReleaseVersion", Value: "0.4.0"}, {Name: "X", Value: "2021-10-30", Doc: "Date."}},
	{{Name: "éa", Value: "é世界"}, {Name: "世界", Value: "\u2028\ufeff\u0000"}, {Name: "_x", Value: "0"}},
	{{Name: "a1", Value: "1", Doc: "Prose: voilà, 世界."}, {Name: "a", Value: "2", Doc: "x"}},
	{{Name: "string", Value: "predeclared"}, {Name: "nil", Value: ""}, {Name: "init", Value: ""}, {Name: "main", Value: ""}},
	{{Name: "A", Value: "// not a comment"}, {Name: "B", Value: "/* nor */ this"}, {Name: "C", Value: ")\n\nfunc x() {}"}},
	{{Name: "VeryLongNameOfAProperty", Value: "1"}, {Name: "B", Value: "2"}, {Name: "C", Value: "3", Doc: "C is documented"}, {Name: "DDDD", Value: "4"}, {Name: "E", Value: "5"}},
	{{Name: "A", Value: "1", Doc: "A, b; c: (d) e-f."}, {Name: "B", Value: "2", Doc: "A, b; c: (d) e-f."}},
}

// Shapes: lists of properties, one value open.
func Shapes() {
	ps := append([]metavars.Property{}, shapes[nd.Choose("shape", len(shapes))]...)
	if len(ps) > 0 {
		i := nd.Choose("i", len(ps))
		ps[i].Value += nd.String("v", 1)
		if nd.Choose("long", 2) == 1 {
			ps[i].Value += strings.Repeat("long value ", 30)
		}
		if nd.Choose("longdoc", 2) == 1 {
			ps[i].Doc += "Prose" + strings.Repeat(" that goes on", 20) + "."
		}
	}
	roundtrip(&metavars.File{Package: "meta", Properties: ps})
}

// Files: files, and files written over others.
func Files() {
	name := nd.Path("vars.go")
	switch nd.Choose("before", 3) {
	case 1:
		nd.WriteFile("vars.go", []byte("package meta\n\nvar (\n\tOld  = \""+strings.Repeat("long", 50)+"\"\n\tMore = \"x\"\n)\n"))
	case 2:
		nd.WriteFile("vars.go", []byte("x"))
	default:
		nd.WriteFile("vars.go", nil)
	}
	f := &metavars.File{Package: "meta", Properties: []metavars.Property{
		{Name: "A", Value: nd.String("v", nd.Param("n"))},
		{Name: "B", Doc: "B is documented.", Value: "\t"},
	}}
	orig := copyOf(f)
	nd.Assert(metavars.WriteFile(name, f) == nil, "writing succeeds")
	src, ok := nd.ReadFile("vars.go")
	nd.Assert(ok, "the file exists")
	nd.Observe("src", string(src))
	g, err := metavars.ReadFile(name)
	nd.Assert(err == nil, "reading succeeds")
	nd.Assert(g.Package == "meta" && sameProps(g.Properties, orig.Properties), "the same package and properties")
	out, err := format.Source(src)
	nd.Assert(err == nil && len(out) == len(src) && nd.EqBytes(out, src), "the file is in canonical form")
	_, err = metavars.ReadFile(nd.Path("missing.go"))
	nd.Assert(err != nil, "no file")
	nd.Reach("round trip")
}

// model is an ordered map.
func find(m []metavars.Property, name string) int {
	for i := range m {
		if len(m[i].Name) == len(name) && nd.EqString(m[i].Name, name) {
			return i
		}
	}
	return -1
}

// Map: sequences of operations with arbitrary names and values.
func Map() {
	f := &metavars.File{Package: "meta"}
	var m []metavars.Property
	name := func() string {
		n := nd.Choose("len", 2)
		s := nd.String("name", 1+n)
		for i := 0; i < len(s); i++ {
			nd.Assume(nd.Or(s[i] == 'a', s[i] == 'b', s[i] == 'A'))
		}
		return s
	}
	for i := 0; i < nd.Param("initial"); i++ {
		p := metavars.Property{Name: name(), Value: nd.String("v", 1)}
		nd.Assume(find(m, p.Name) < 0)
		m = append(m, p)
		f.Properties = append(f.Properties, p)
	}
	for k := 0; k < nd.Param("ops"); k++ {
		n := name()
		i := find(m, n)
		switch nd.Choose("op", 3) {
		case 0:
			v, ok := f.Get(n)
			nd.Assert(ok == (i >= 0), "Get finds exactly the known names")
			if ok {
				nd.Assert(len(v) == len(m[i].Value) && nd.EqString(v, m[i].Value), "Get returns the value")
			} else {
				nd.Assert(v == "", "no value for an unknown name")
			}
		case 1:
			p := metavars.Property{Name: n, Value: nd.String("v", 1), Doc: "doc"}
			err := f.Add(p)
			nd.Assert((err != nil) == (i >= 0), "Add fails exactly for known names")
			if err == nil {
				m = append(m, p)
			}
		default:
			v := nd.String("v", 2)
			err := f.Set(n, v)
			nd.Assert((err != nil) == (i < 0), "Set fails exactly for unknown names")
			if err == nil {
				m[i].Value = v
			}
		}
		nd.Assert(f.Package == "meta", "the package stays")
		nd.Assert(sameProps(f.Properties, m), "the properties are those of an ordered map")
	}
	nd.Reach("done")
}
