package cli

import (
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/zz_verif/h"
	"github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"
)

// prints checks the outcome of diff against the migration from before to after.
func prints(x *world, d int, before, after string, err error) {
	text, same, bad := h.DiffText(d, before, after)
	sym.Assert(len(x.log) == 0, "diff of two files reaches the database")
	sym.Assert(len(x.written) == len(x.files), "diff creates a file")
	for n, s := range x.files {
		sym.Assert(sym.Eq(x.written[n], s), "diff changes a file")
	}
	switch {
	case bad != nil:
		sym.Reach("error")
		sym.Assert(err != nil, "a failed comparison is reported as success")
		sym.Assert(x.out == "", "a failed comparison writes output")
	case same:
		sym.Reach("same")
		sym.Assert(err == nil, "equal schemas are reported as a failure")
		sym.Assert(x.out == "", "equal schemas give output")
	default:
		sym.Reach("differ")
		sym.Assert(err == nil, "a migration is reported as a failure")
		sym.Assert(sym.Eq(x.out, text), "the output is not the migration")
	}
}

func diffOf(d int, before, after string) {
	x := newWorld()
	x.files["a.sql"] = before
	x.files["b.sql"] = after
	err := x.run("diff", "--dialect", dialects[d], "a.sql", "b.sql")
	prints(x, d, before, after, err)
}

// Two schemas of h.Single: one clause or object differs (thorough: two).
func C18_postgres()    { b, a := h.Single(PG); diffOf(PG, b, a) }
func C18_cockroachdb() { b, a := h.Single(CR); diffOf(CR, b, a) }
func C18_mysql()       { b, a := h.Single(MY); diffOf(MY, b, a) }
func C18_spanner()     { b, a := h.Single(SP); diffOf(SP, b, a) }

// C18_any: one of the files holds any 0 to 2 bytes (thorough: 3), alone or after a table; the
// other one a table.
func C18_any() {
	d := sym.Choice("dialect", 4)
	n := 3
	if sym.Tier() > 0 {
		n = 4
	}
	s := sym.Bytes("s", sym.Choice("n", n), "")
	if sym.Bool("table") {
		s = oneTable(d) + s
	}
	t := oneTable(d)
	if sym.Bool("second") {
		s, t = t, s
	}
	diffOf(d, s, t)
}

var noFiles = []string{"dsn", "b.sql", "a.SQL", "a.sql.bak", "a.go", "sub/a.sql", "/nowhere/a.sql", "postgres://u:p@h:1/d?x=y", "a"}

// C18_database: a source that is no file, whatever its name (of nine), is a database, which fails in one request, or has
// an empty or readable schema; the other source is a file.
func C18_database() {
	d := sym.Choice("dialect", 4)
	x := newWorld()
	before, after := "", oneTable(d)
	x.files["a.sql"] = after
	if d != SP && sym.Bool("full") {
		before = oneTableNamed(d, "t2")
		x.has(d, before)
	}
	bad := false
	x.fault = func(what, q string) error {
		if !bad && sym.Bool("fault") {
			bad = true
			return failure()
		}
		return nil
	}
	args := []string{"diff", "--dialect", dialects[d], noFiles[sym.Choice("source", len(noFiles))], "a.sql"}
	if sym.Bool("second") {
		args[3], args[4] = args[4], args[3]
		before, after = after, before
	}
	err := x.run(args...)
	sym.Assert(x.count("open") > 0, "a source that is no file is not read")
	sym.Assert(x.opened() == x.count("close"), "connection not closed")
	sym.Assert(x.count("exec") == 0, "diff executes statements")
	if bad {
		sym.Assert(err != nil, "a failed comparison is reported as success")
		sym.Assert(x.out == "", "a failed comparison writes output")
		return
	}
	x.log = nil
	prints(x, d, before, after, err)
}

// C18_output: standard output refuses what is written.
func C18_output() {
	d := sym.Choice("dialect", 4)
	x := newWorld()
	x.files["a.sql"] = ""
	x.files["b.sql"] = oneTable(d)
	x.badWrite = true
	err := x.run("diff", "--dialect", dialects[d], "a.sql", "b.sql")
	sym.Assert(err != nil, "success although the migration could not be written")
}

// C18_verbose: the debug or the trace mode, by its option or its environment variable; a schema that cannot be read, the
// same one or a different one.
func C18_verbose() {
	d := sym.Choice("dialect", 4)
	x := newWorld()
	before, after := oneTable(d), []string{"", oneTable(d), "CREATE TABLE t (;"}[sym.Choice("after", 3)]
	x.files["a.sql"], x.files["b.sql"] = before, after
	args := []string{"diff", "--dialect", dialects[d], "a.sql", "b.sql"}
	prints(x, d, before, after, x.run(verbose(x, args)...))
}

// verbose turns the debug or the trace mode on.
func verbose(x *world, args []string) []string {
	mode := sym.Choice("mode", 2)
	if sym.Bool("environment") {
		x.env[[]string{"DDLCTL_DEBUG", "DDLCTL_TRACE"}[mode]] = "true"
		return args
	}
	return append([]string{[]string{"--debug", "--trace"}[mode]}, args...)
}

var paths = []string{"a.sql", "x/a.sql", "y/a.sql", "A.sql", "x/a", "a.sql.sql", "./x/../b.sql"}

// C18_paths: both sources are any of seven files of like names, each with its own schema.
func C18_paths() {
	d := sym.Choice("dialect", 4)
	x := newWorld()
	x.dirs = []string{"x", "y"}
	text := map[string]string{}
	for i, p := range paths {
		text[p] = oneTableNamed(d, "t"+string(rune('0'+i)))
		x.files[clean(p)] = text[p]
	}
	a, b := paths[sym.Choice("before", len(paths))], paths[sym.Choice("after", len(paths))]
	prints(x, d, text[a], text[b], x.run("diff", "--dialect", dialects[d], a, b))
}

// C18_source: one source is a directory with an annotated Go file (the second column there or not), one without annotations,
// a file that is no Go, or nothing; the other one is a file with the schema, the schema without the column, nothing or no SQL,
// or another such directory.
func C18_source() {
	d := sym.Choice("dialect", 4)
	x := newWorld()
	t := &declared{d: d, name: "t", cols: []string{"alpha", "beta"}, defs: goTypes[d][:2], pk: []string{"alpha"}}
	u := &declared{d: d, name: "t", cols: t.cols[:1], defs: t.defs[:1], pk: t.pk}
	code := "// ddl: table: CREATE TABLE t\n" + thing(d, "T", "alpha", "beta")
	source := func(dir string) string {
		x.dirs = append(x.dirs, dir)
		switch sym.Choice("code", 5) {
		case 0:
			x.files[dir+"/m.go"] = "package m\n\n" + code
			return t.script()
		case 1:
			x.files[dir+"/m.go"] = "package m\n\n" + strings.Replace(code, "\tBeta string", "\tBeta string // ", 1)
			return u.script()
		case 2:
			x.files[dir+"/m.go"] = "package m\n"
			return ""
		case 3:
			x.files[dir+"/m.go"] = "CREATE TABLE t (;"
			return "CREATE TABLE t (;"
		}
		return ""
	}
	args := []string{"diff", "--dialect", dialects[d], "--go-column-tag", "db", "--go-ddl-tag", "ddl", "--go-pk-tag", "pk", "dir", "b.sql"}
	before, after := source("dir"), ""
	if sym.Bool("both") {
		args[10] = "other"
		after = source("other")
	} else {
		after = []string{t.script(), u.script(), "", "CREATE TABLE t (;"}[sym.Choice("other", 4)]
		x.files["b.sql"] = after
	}
	if sym.Bool("second") {
		args[9], args[10] = args[10], args[9]
		before, after = after, before
	}
	prints(x, d, before, after, x.run(args...))
}
