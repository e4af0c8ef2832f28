package cli

import (
	"strconv"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/zz_verif/h"
	"github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"
)

// created lists the names of the objects the text creates, in order.
func created(text string) []string {
	var out []string
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "--") {
			continue
		}
		f := strings.Fields(l)
		for i, s := range f {
			if (s == "TABLE" || s == "INDEX") && i+1 < len(f) {
				out = append(out, f[i+1])
				break
			}
		}
	}
	return out
}

// ordered asserts that every run of the command over the files creates the objects in this order.
func ordered(d int, files map[string]string, dirs []string, src string, want []string) {
	runs := 1
	if !sym.Symbolic() {
		runs = 60
	}
	first := ""
	for i := 0; i < runs; i++ {
		x := newWorld()
		x.files = files
		x.order = true
		x.dirs = dirs
		err := x.run("generate", "--dialect", dialects[d], "--lang", "go", "--go-column-tag", "db", "--go-ddl-tag", "ddl", "--go-pk-tag", "pk", src, "out.sql")
		if err != nil {
			sym.Observe("error", err.Error())
			sym.Fail("annotated source refused")
		}
		text := x.written["out.sql"]
		sym.Assert(sym.Eq(strings.Join(created(text), " "), strings.Join(want, " ")), "statements in another order than their annotations")
		if i == 0 {
			first = text
		}
		sym.Assert(sym.Eq(text, first), "two runs over the same source differ")
	}
}

// C15_order: one file of up to three (thorough: four) comment groups, each the comment of an annotated struct or on its own, of up to two
// lines: index and table annotations in either order, or several index annotations in one block comment; every iteration order
// of every map; index names of one or two arbitrary characters of six, so that one may be part of another.
func C15_order() {
	d := sym.Choice("dialect", 1+3*sym.Tier())
	n := 1 + sym.Choice("groups", 3+sym.Tier())
	src := "package m\n"
	var want []string
	index := func(string) string {
		s := sym.Bytes("index", 1+len(want)%2, "ai0_Z9")
		want = append(want, s)
		return "ddl: index: " + s + " ON t0 (beta)"
	}
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		table := "// ddl: table: t" + k + "\n"
		src += "\n"
		switch sym.Choice("group", 6) {
		case 0:
			want = append(want, "t"+k)
			src += table
		case 1:
			want = append(want, "t"+k)
			src += "// " + index("i"+k) + "\n" + table
		case 2:
			want = append(want, "t"+k)
			src += table + "// " + index("i"+k) + "\n// ddl: constraint: CHECK (beta > 0)\n// " + index("h"+k) + "\n"
		case 3:
			want = append(want, "t"+k)
			src += table + "/* It is.\n" + index("i"+k) + "\n" + index("h"+k) + " */\n"
		case 4:
			src += "// " + index("i"+k) + "\n// " + index("h"+k) + "\n"
			continue
		case 5:
			src += "/*" + index("i"+k) + "*/ /*" + index("h"+k) + "*/\n"
			continue
		}
		src += thing(d, "T"+k, "alpha", "beta")
	}
	ordered(d, map[string]string{"m.go": src}, nil, "m.go", want)
}

// C15_many: one comment of two to sixteen index annotations, on lines of their own, in one block comment or all on one line.
func C15_many() {
	n := []int{2, 5, 13, 16}[sym.Choice("annotations", 4)]
	src := "package m\n\n// ddl: table: t0\n" + thing(h.PG, "T0", "alpha", "beta") + "\n"
	want := []string{"t0"}
	var l []string
	for i := 0; i < n; i++ {
		s := "i" + strconv.Itoa(i)
		want = append(want, s)
		l = append(l, "ddl: index: "+s+" ON t0 (beta)")
	}
	switch sym.Choice("layout", 3) {
	case 0:
		src += "// " + strings.Join(l, "\n// ") + "\n"
	case 1:
		src += "/*\n" + strings.Join(l, "\n") + "\n*/\n"
	case 2:
		src += "/* " + strings.Join(l, " */ /* ") + " */\n"
	}
	ordered(h.PG, map[string]string{"m.go": src}, nil, "m.go", want)
}

// C15_dialects: two or three files of a directory, each a table, an index, two of either kind or none; every dialect and every
// iteration order of every map.
func C15_dialects() {
	d := sym.Choice("dialect", 4)
	files := map[string]string{}
	var want []string
	for _, k := range []string{"a", "b", "c"}[:2+sym.Choice("files", 2)] {
		src := "package m\n"
		for i := sym.Choice("statements", 5); i > 0; i -= 2 {
			n := k + strconv.Itoa(i)
			if i%2 == 1 {
				src += "\n// ddl: table: t" + n + "\n" + thing(d, "T"+n, "alpha", "beta")
				want = append(want, "t"+n)
			} else {
				src += "\n// ddl: index: i" + n + " ON t0 (beta)\n"
				want = append(want, "i"+n)
			}
		}
		files["src/"+k+".go"] = src
	}
	ordered(d, files, []string{"src"}, "src", want)
}

// The files of a source directory, in the order of their paths.
var trees = [][]string{
	{"a.go", "b.go", "c/a.go", "d.go"},
	{"a/z.go", "b.go", "c/a.go", "d.go"},
	{"a.go", "b/a/c.go", "b/d.go", "c.go"},
	{"a/b.go", "a.b/c.go", "a.go", "aa.go"},
	{"B.go", "a.go", "a1.go", "a10.go"},
}

// C15_directory: three of the four files (thorough: all) of one of five directory trees, each a Go source with one or two annotated structs,
// a Go source without annotations, a test, no Go source, or absent; every iteration order of every map.
func C15_directory() {
	names := trees[sym.Choice("tree", len(trees))]
	if sym.Tier() == 0 {
		k := sym.Choice("without", 2)
		names = append(append([]string{}, names[:3*k]...), names[3*k+1-k:4-k]...)
	}
	files := map[string]string{}
	dirs := []string{"src"}
	var want []string
	for i := 0; i < len(names); i++ {
		k := strconv.Itoa(i)
		n := names[len(names)-1-i]
		for j := 1; j < len(n); j++ {
			if n[j] == '/' && !strings.Contains(" "+strings.Join(dirs, " ")+" ", " src/"+n[:j]+" ") {
				dirs = append(dirs, "src/"+n[:j])
			}
		}
		name := "src/" + n
		one := "package m\n\n// ddl: table: t" + k + "\n" + thing(h.PG, "T"+k, "alpha", "beta")
		switch sym.Choice("file", 6) {
		case 0:
			files[name] = one
			want = append([]string{"t" + k}, want...)
		case 1:
			files[name] = one + "\n// ddl: index: i" + k + " ON t" + k + " (beta)\n"
			want = append([]string{"t" + k, "i" + k}, want...)
		case 2:
			files[name] = "package m\n\n// T is it.\ntype T struct{}\n"
		case 3:
			files[strings.TrimSuffix(name, ".go")+"_test.go"] = one
		case 4:
			files[name+".txt"] = one
		}
	}
	ordered(h.PG, files, dirs, "src", want)
}
