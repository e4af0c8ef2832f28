package cli

import (
	"strconv"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/zz_verif/h"
	"github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"
)

var goTypes = [4][]string{
	{"TEXT NOT NULL", "INTEGER", "VARCHAR(10) DEFAULT 'x'", "BIGINT NOT NULL DEFAULT 0"},
	{"TEXT NOT NULL", "INT8", "VARCHAR(10) DEFAULT 'x'", "INT8 NOT NULL DEFAULT 0"},
	{"TEXT NOT NULL", "INT", "VARCHAR(10) DEFAULT 'x'", "BIGINT NOT NULL DEFAULT 0"},
	{"STRING(36) NOT NULL", "INT64", "BOOL", "TIMESTAMP OPTIONS (allow_commit_timestamp = true)"},
}

// q quotes a name the way the dialect does.
func q(d int, s string) string {
	if d == h.MY || d == h.SP {
		return "`" + s + "`"
	}
	return `"` + s + `"`
}

// A declared table: what the annotations say.
type declared struct {
	d       int
	name    string
	cols    []string
	defs    []string
	pk      []string
	cons    []string
	options []string
	idx     []string
}

func (t *declared) script() string {
	var e []string
	for i, c := range t.cols {
		e = append(e, q(t.d, c)+" "+t.defs[i])
	}
	var k []string
	for _, c := range t.pk {
		k = append(k, q(t.d, c))
	}
	key := "PRIMARY KEY (" + strings.Join(k, ", ") + ")"
	if t.pk != nil && t.d != h.SP {
		e = append(e, key)
	}
	e = append(e, t.cons...)
	if t.name == "" {
		return strings.Join(append(t.idx, ""), ";\n")
	}
	s := "CREATE TABLE " + t.name + " (\n" + strings.Join(e, ",\n") + "\n)"
	o := t.options
	if t.d == h.SP {
		if t.pk != nil {
			o = append([]string{key}, o...)
		}
		s += " " + strings.Join(o, ", ")
	} else {
		s += " " + strings.Join(o, " ")
	}
	s += ";\n"
	for _, i := range t.idx {
		s += i + ";\n"
	}
	return s
}

// generate runs the command over the source and gives the DDL written.
func generate(d int, src string) (string, error) {
	return generateIn(newWorld(), d, src, nil)
}

func generateIn(x *world, d int, src string, options func(x *world, args []string) []string) (string, error) {
	x.files["m.go"] = src
	args := []string{"generate", "--dialect", dialects[d], "--lang", "go", "--go-column-tag", "db", "--go-ddl-tag", "ddl", "--go-pk-tag", "pk", "m.go", "out.sql"}
	if options != nil {
		args = options(x, args)
	}
	err := x.run(args...)
	return x.written["out.sql"], err
}

// generates asserts that the source declares the tables, in this order, and nothing else.
func generates(d int, src string, want ...*declared) {
	got, err := generate(d, src)
	declares(d, src, got, err, want...)
}

func declares(d int, src, got string, err error, want ...*declared) {
	sym.Observe("source", src)
	sym.Observe("generated", got)
	if err != nil {
		sym.Observe("error", err.Error())
		sym.Fail("annotated source refused")
	}
	s := ""
	for _, t := range want {
		s += t.script()
	}
	if !h.Parses(d, s) {
		sym.Observe("wanted", s)
		sym.Fail("harness: the schema wanted does not parse")
	}
	sym.Assert(h.Parses(d, got), "the dialect's parser refuses the generated schema")
	if m := h.SchemaDiff(d, got, s); m != "" {
		sym.Observe("wanted", s)
		sym.Observe("difference", m)
		sym.Fail("the generated schema is not the one declared")
	}
}

var fieldNames = []string{"Alpha", "Beta", "Gamma"}

// C14_fields: a struct of two fields (thorough: three), every field after the first of one of ten shapes: a column tag or
// none or "-"; one of the dialect's four definitions or none or "-"; a primary key mark of five; no tag at all; an embedded
// type; two names in one declaration. One variation: an interpreted instead of a raw tag, doc, line or block comments on
// the fields, a pointer or qualified embedded type. Every dialect. The first field is always a column.
func C14_fields() {
	d := sym.Choice("dialect", 4)
	n := 2 + sym.Tier()
	t := &declared{d: d, name: "things"}
	body := ""
	vary := sym.Choice("variation", 6)
	for i := 0; i < n; i++ {
		name := fieldNames[i]
		col := strings.ToLower(name)
		id := name
		def := goTypes[d][(i+sym.Choice("definition", 2))%4]
		tag := `db:"` + col + `" ddl:"` + def + `"`
		shape := 0
		if i > 0 {
			shape = sym.Choice("shape", 10)
		}
		column := []string{col}
		switch shape {
		case 0:
			switch sym.Choice("key", 5) {
			case 0:
				tag += ` pk:"true"`
				t.pk = append(t.pk, col)
			case 1:
				tag = `pk:"1" ` + tag
				t.pk = append(t.pk, col)
			case 2:
				tag += ` pk:"-"`
			case 3:
				tag += ` pk:"false"`
			}
		case 1:
			tag = `json:"x" ddl:"` + def + `"`
			column = []string{name}
		case 2:
			tag = `db:"-" ddl:"` + def + `" pk:"true"`
			column = nil
		case 3:
			tag = `db:"` + col + `" pk:"true"`
			column = nil
		case 4:
			tag = `db:"` + col + `" ddl:"-" pk:"true"`
			column = nil
		case 5:
			tag = ""
			column = nil
		case 6:
			id = ""
		case 7:
			id = ""
			tag = `json:"x"`
			column = nil
		case 8:
			id = ""
			tag = ""
			column = nil
		case 9:
			id = name + ", Other"
			tag = `ddl:"` + def + `" pk:"true"`
			column = []string{name, "Other"}
			t.pk = append(t.pk, column...)
		}
		for _, c := range column {
			t.cols = append(t.cols, c)
			t.defs = append(t.defs, def)
		}
		switch {
		case tag == "":
		case vary == 1:
			tag = ` "` + strings.ReplaceAll(tag, `"`, `\"`) + `"`
		default:
			tag = " `" + tag + "`"
		}
		if id != "" {
			id += " string"
		} else if vary == 2 {
			id = "*Embedded" + name
		} else if vary == 3 {
			id = "pkg.Embedded" + name
		} else {
			id = "Embedded" + name
		}
		switch vary {
		default:
			body += "\t" + id + tag + "\n"
		case 4:
			body += "\t// " + name + " is it.\n\t// ddl: nothing\n\t//\n\t" + id + tag + " // said, 'so'\n"
		case 5:
			body += "\n\t/* one\n\ttwo */\n\t" + id + tag + "\n"
		}
	}
	generates(d, "package m\n\nimport \"pkg\"\n\n// Thing is it.\n//\n// ddl: table: things\ntype Thing struct {\n"+body+"}\n", t)
}

// An annotation style: the text before and after.
var goStyles = [][2]string{{"// ", ""}, {"//", ""}, {"//\t", " "}, {"/* ", " */"}, {"/*", "*/"}}

// C14_annotations: the doc comment of a struct of two columns, of up to two lines (thorough: three), each a table name in one of
// six spellings, a constraint, an option, an index with or without CREATE INDEX, prose, prose with a colon, or an annotation for another tag;
// one of five comment styles or two other
// spacings around the colons. Every dialect.
func C14_annotations() {
	d := sym.Choice("dialect", 4)
	a, b := "alpha", "beta"
	t := &declared{d: d, cols: []string{a, b}, pk: []string{a}, defs: []string{goTypes[d][0], goTypes[d][1]}}
	doc := ""
	sep, y := ": ", goStyles[0]
	if v := sym.Choice("variation", 7); v < 2 {
		sep = []string{":", " :  "}[v]
	} else {
		y = goStyles[v-2]
	}
	style := func(s string) string { return y[0] + s + y[1] + "\n" }
	n := 1 + sym.Choice("lines", 2+sym.Tier())
	for i := 0; i < n; i++ {
		line := sym.Choice("line", 11)
		name := "things"
		if line < 3 {
			if d == h.PG || d == h.CR {
				name = []string{name, "public.things", q(d, name)}[sym.Choice("name", 3)]
			} else if sym.Choice("quoted", 2) == 0 {
				name = q(d, name)
			}
		}
		switch line {
		case 0:
			doc += style("ddl" + sep + "table" + sep + name)
			t.name = name
		case 1:
			doc += style("ddl" + sep + "table" + sep + "CREATE TABLE " + name)
			t.name = name
		case 2:
			doc += style("ddl" + sep + "tables" + sep + "create  table if not exists " + name)
			t.name = name
		case 3:
			c := "CONSTRAINT c" + strconv.Itoa(i) + " CHECK (beta > 0)"
			doc += style("ddl" + sep + "constraint" + sep + c)
			t.cons = append(t.cons, c)
		case 4:
			if d != h.MY && d != h.SP {
				sym.Stop()
			}
			o := "COMMENT = 'it'"
			if d == h.SP {
				o = "ROW DELETION POLICY (OLDER_THAN(beta, INTERVAL 1 DAY))"
			}
			if t.options != nil {
				sym.Stop()
			}
			doc += style("ddl" + sep + "options" + sep + o)
			t.options = append(t.options, o)
		case 5:
			x := "i" + strconv.Itoa(i) + " ON things (beta)"
			doc += style("ddl" + sep + "index" + sep + x)
			t.idx = append(t.idx, "CREATE INDEX "+x)
		case 6:
			x := "CREATE UNIQUE INDEX i" + strconv.Itoa(i) + " ON things (beta, alpha)"
			doc += style("ddl" + sep + "index" + sep + x)
			t.idx = append(t.idx, x)
		case 7:
			doc += style("Thing is it; it's (so")
		case 8:
			doc += style("Note: table is it, index: it is")
		case 9:
			doc += style("other: table: others")
		case 10:
			doc += style("other: index: j" + strconv.Itoa(i) + " ON others (beta)")
		}
	}
	if t.name == "" && (t.cons != nil || t.options != nil || t.idx != nil) {
		sym.Stop()
	}
	src := "package m\n\n" + doc + "type Thing struct {\n" +
		"\tAlpha string `db:\"alpha\" ddl:\"" + t.defs[0] + "\" pk:\"true\" other:\"BLOB\"`\n" +
		"\tBeta string `db:\"beta\" ddl:\"" + t.defs[1] + "\"`\n}\n"
	if t.name == "" {
		got, err := generate(d, src)
		sym.Assert(err != nil && got == "", "DDL generated without an annotation")
		return
	}
	generates(d, src, t)
}

// C14_mixture: the doc comment of a struct of two columns, of three lines (thorough: four): one table name at any place, the
// others constraints, indexes, options and prose in any order, in line comments or one block comment. Every dialect.
func C14_mixture() {
	d := sym.Choice("dialect", 4)
	t := &declared{d: d, name: "things", cols: []string{"alpha", "beta"}, pk: []string{"alpha"}, defs: []string{goTypes[d][0], goTypes[d][1]}}
	n := 3 + sym.Tier()
	at := sym.Choice("table", n)
	var doc []string
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		if i == at {
			doc = append(doc, "ddl: table: things")
			continue
		}
		switch sym.Choice("line", 5) {
		case 0:
			c := "CONSTRAINT c" + k + " CHECK (beta > " + sym.Bytes("digit", 1, "0123456789") + ")"
			doc = append(doc, "ddl: constraint: "+c)
			t.cons = append(t.cons, c)
		case 1:
			x := "i" + k + " ON things (beta)"
			doc = append(doc, "ddl: index: "+x)
			t.idx = append(t.idx, "CREATE INDEX "+x)
		case 2:
			x := "CREATE UNIQUE INDEX i" + k + " ON things (beta, alpha)"
			doc = append(doc, "ddl: index: "+x)
			t.idx = append(t.idx, x)
		case 3:
			doc = append(doc, "It's "+sym.Bytes("prose", 1, "a:;-'\"`(")+" so: the table")
		case 4:
			if d != h.MY && d != h.SP || t.options != nil {
				sym.Stop()
			}
			o := "COMMENT = 'it'"
			if d == h.SP {
				o = "ROW DELETION POLICY (OLDER_THAN(beta, INTERVAL 1 DAY))"
			}
			doc = append(doc, "ddl: options: "+o)
			t.options = append(t.options, o)
		}
	}
	s := "// " + strings.Join(doc, "\n// ") + "\n"
	if sym.Choice("block", 2) == 1 {
		s = "/* " + strings.Join(doc, "\n") + " */\n"
	}
	generates(d, "package m\n\n"+s+thing(d, "Thing", "alpha", "beta"), t)
}

func thing(d int, name, a, b string) string {
	return "type " + name + " struct {\n\tAlpha string `db:\"" + a + "\" ddl:\"" + goTypes[d][0] + "\" pk:\"true\"`\n\n\tBeta string `db:\"" + b + "\" ddl:\"" + goTypes[d][1] + "\"`\n}\n"
}

// C14_placement: a file of up to three (thorough: four) of these in any order: an annotated struct; two annotated types in one
// group; an annotated type that is no struct; a struct without annotation; an index annotation on its own, right after the
// declaration before it, inside a struct before a field or after the last, inside a function, or before the package clause.
func C14_placement() {
	d := sym.Choice("dialect", 1+3*sym.Tier())
	n := 2 + sym.Tier() + sym.Choice("segments", 2)
	src := ""
	if sym.Choice("package", 2) == 1 {
		src = "// Package m is it.\n// ddl: index: i9 ON t0 (beta)\n"
	}
	head := src
	src += "package m\n"
	var want []*declared
	indexes := &declared{d: d}
	if head != "" {
		indexes.idx = append(indexes.idx, "CREATE INDEX i9 ON t0 (beta)")
	}
	table := func(name string) {
		want = append(want, &declared{d: d, name: name, cols: []string{"alpha", "beta"}, defs: goTypes[d][:2], pk: []string{"alpha"}})
	}
	index := func(i int) string {
		s := "i" + strconv.Itoa(i) + " ON t0 (beta)"
		indexes.idx = append(indexes.idx, "CREATE INDEX "+s)
		return "// ddl: index: " + s + "\n"
	}
	src += "\n// ddl: table: t0\n" + thing(d, "T0", "alpha", "beta")
	table("t0")
	for i := 1; i <= n; i++ {
		k := strconv.Itoa(i)
		switch sym.Choice("segment", 10) {
		case 0:
			src += "\n// ddl: table: t" + k + "\n" + thing(d, "T"+k, "alpha", "beta")
			table("t" + k)
		case 1:
			src += "\ntype (\n// T" + k + " is it.\n// ddl: table: t" + k + "\n" + thing(d, "T"+k, "alpha", "beta")[5:] + "\n// ddl: table: t" + k + "b\n" + thing(d, "B"+k, "alpha", "beta")[5:] + ")\n"
			table("t" + k)
			table("t" + k + "b")
		case 2:
			src += "\n// ddl: table: t" + k + "\ntype T" + k + " []*T0\n"
		case 3:
			src += "\n// T" + k + " is it.\n" + thing(d, "T"+k, "alpha", "beta")
		case 4:
			src += "\n" + index(i) + "\n"
		case 5:
			src += index(i) + "\n"
		case 6:
			src += "\n// ddl: table: t" + k + "\n" + strings.Replace(thing(d, "T"+k, "alpha", "beta"), "\n\n", "\n\n"+index(i), 1)
			table("t" + k)
		case 7:
			src += "\n// ddl: table: t" + k + "\n" + strings.TrimSuffix(thing(d, "T"+k, "alpha", "beta"), "}\n") + index(i) + "}\n"
			table("t" + k)
		case 8:
			src += "\nfunc f" + k + "() {\n" + index(i) + "}\n"
		case 9:
			src += "\n// ddl: table: t" + k + "\n\n// T" + k + " is it.\n" + thing(d, "T"+k, "alpha", "beta")
			table("t" + k)
		}
	}
	generates(d, src, append(want, indexes)...)
}

// C14_counts: a struct of three columns with none, one, or all of them in the primary key, and up to four constraints, as many options as
// the dialect has (MySQL four, Spanner two and a primary key), each on a line of its own or all in one, and none, one or three indexes. Every dialect.
func C14_counts() {
	d := sym.Choice("dialect", 4)
	t := &declared{d: d, name: "things", cols: []string{"alpha", "beta", "gamma"}, defs: []string{goTypes[d][0], goTypes[d][1], goTypes[d][1]}}
	t.pk = t.cols[:[]int{0, 1, 3}[sym.Choice("key", 3)]]
	if len(t.pk) == 0 {
		t.pk = nil
	}
	doc := "// ddl: table: things\n"
	for i := sym.Choice("constraints", 5); i > 0; i-- {
		k := strconv.Itoa(i)
		c := "CONSTRAINT c" + k + " CHECK (beta > " + k + ")"
		doc += "// ddl: constraint: " + c + "\n"
		t.cons = append(t.cons, c)
	}
	var all []string
	switch d {
	case h.MY:
		all = []string{"ENGINE = InnoDB", "DEFAULT CHARSET = utf8mb4", "COLLATE = utf8mb4_bin", "COMMENT = 'it'"}
	case h.SP:
		all = []string{"INTERLEAVE IN PARENT parents ON DELETE CASCADE", "ROW DELETION POLICY (OLDER_THAN(beta, INTERVAL 1 DAY))"}
		if t.pk == nil {
			all = append([]string{"PRIMARY KEY (alpha)"}, all...)
		}
	}
	t.options = append(t.options, all[:sym.Choice("options", len(all)+1)]...)
	if len(t.options) > 1 && sym.Bool("one line") {
		doc += "// ddl: options: " + strings.Join(t.options, map[bool]string{true: ", ", false: " "}[d == h.SP]) + "\n"
	} else {
		for _, o := range t.options {
			doc += "// ddl: options: " + o + "\n"
		}
	}
	for i := []int{0, 1, 3}[sym.Choice("indexes", 3)]; i > 0; i-- {
		x := "i" + strconv.Itoa(i) + " ON things (beta)"
		doc += "// ddl: index: " + x + "\n"
		t.idx = append(t.idx, "CREATE INDEX "+x)
	}
	src := "package m\n\n"
	var want []*declared
	if len(t.options) > 0 && d == h.SP {
		src += "// ddl: table: parents\n" + thing(d, "Parent", "alpha", "beta") + "\n"
		want = append(want, &declared{d: d, name: "parents", cols: []string{"alpha", "beta"}, pk: []string{"alpha"}, defs: goTypes[d][:2]})
	}
	src += doc + "type Thing struct {\n"
	for i, c := range t.cols {
		tag := "db:\"" + c + "\" ddl:\"" + t.defs[i] + "\""
		if i < len(t.pk) {
			tag += " pk:\"true\""
		}
		src += "\tF" + strconv.Itoa(i) + " string `" + tag + "`\n"
	}
	generates(d, src+"}\n", append(want, t)...)
}

const textBytes = "aZ0 _,;:-/*=(){}[]#%!?\"" // no ' \ ` or control characters

// C14_text: two arbitrary bytes (thorough: three) of the 23 in a string literal of a definition, of a constraint or an index
// condition, in a line of prose before or after the annotation, in a field's comment, or at the end of a line comment; any two
// letters, digits or underscores after the first letter of the table, a column or the struct. Every dialect.
func C14_text() {
	d := sym.Choice("dialect", 4)
	n := 2 + sym.Tier()
	t := &declared{d: d, name: "things", cols: []string{"alpha", "beta"}, pk: []string{"alpha"}, defs: []string{goTypes[d][0], goTypes[d][1]}}
	const letters = "abzABZ019_"
	where := sym.Choice("place", 9)
	text := func() string { return sym.Bytes("text", n, textBytes) }
	before, after, field, line, typ := "", "", "", "", "Thing"
	switch where {
	case 0:
		s := text()
		def := "VARCHAR(9) DEFAULT '" + s + "'"
		if d == h.SP {
			def = "STRING(9) DEFAULT ('" + s + "')"
		}
		t.defs[1] = def
		if sym.Choice("last", 2) == 0 {
			t.cols = append(t.cols, "gamma")
			t.defs = append(t.defs, goTypes[d][1])
		}
	case 1:
		c := "CONSTRAINT c CHECK (beta <> '" + text() + "')"
		after = "// ddl: constraint: " + c + "\n"
		t.cons = append(t.cons, c)
	case 2:
		before = "// " + text() + "\n"
	case 3:
		after = "//" + text() + "\n"
	case 4:
		field = "\t// " + text() + "\n"
	case 5:
		line = " //" + text()
	case 6:
		t.name = "t" + sym.Bytes("name", n, letters)
	case 7:
		t.cols[1] = "b" + sym.Bytes("name", n, letters)
	case 8:
		typ = "T" + sym.Bytes("name", n, letters)
	}
	src := "package m\n\n" + before + "// ddl: table: " + t.name + "\n" + after + "type " + typ + " struct {\n"
	for i, c := range t.cols {
		tag := "db:\"" + c + "\" ddl:\"" + strings.ReplaceAll(t.defs[i], `"`, `\"`) + "\""
		if i == 0 {
			tag += " pk:\"true\""
		}
		src += field + "\tF" + strconv.Itoa(i) + " string `" + tag + "`" + line + "\n"
		field, line = "", ""
	}
	generates(d, src+"}\n", t)
}

// C14_verbose: the debug or the trace mode, by its option or its environment variable; an annotated struct, with an index and
// a constraint, after or before one without annotation, or none.
func C14_verbose() {
	d := sym.Choice("dialect", 4)
	t := &declared{d: d, name: "t", cols: []string{"alpha", "beta"}, defs: goTypes[d][:2], pk: []string{"alpha"}, idx: []string{"CREATE INDEX i ON t (" + q(d, "beta") + ")"}}
	src := "// ddl: table: CREATE TABLE t\n// ddl: index: " + t.idx[0] + "\n" + thing(d, "T", "alpha", "beta")
	none := "// Other is no table.\n" + thing(d, "Other", "gamma", "delta")
	want := []*declared{t}
	switch sym.Choice("source", 4) {
	case 1:
		src += "\n" + none
	case 2:
		src = none + "\n" + src
	case 3:
		src, want = none, nil
	}
	x := newWorld()
	got, err := generateIn(x, d, "package m\n\n"+src, verbose)
	if want == nil {
		sym.Assert(err != nil && got == "", "a source without annotations gives a schema")
		return
	}
	sym.Assert(x.out == "", "generate writes to the standard output")
	declares(d, src, got, err, want...)
}
