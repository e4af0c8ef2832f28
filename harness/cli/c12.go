package cli

import (
	"strconv"

	"github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"
)

// literal is a quoted literal of n units, each one of - ; LF x blank " ` # / * $ , or an
// escaped quote or, for MySQL and Spanner, backslash.
func literal(d int, name string, n int) string {
	s := "'"
	for i := 0; i < n; i++ {
		k := 3
		if d < MY {
			k = 2
		}
		switch sym.Choice(name+".esc", k) {
		case 1:
			if d == SP {
				s += "\\'"
			} else {
				s += "''"
			}
			continue
		case 2:
			if d == MY && sym.Bool(name+".q") {
				s += "\\'"
			} else {
				s += "\\\\"
			}
			continue
		}
		s += sym.Bytes(name, 1, "-;\nx \"`#/*$,")
	}
	return s + "'"
}

func units() int {
	if sym.Tier() > 0 {
		return 4
	}
	return 3
}

// exact checks that the statements sent are those displayed.
func exact(x *world, d int, err error) {
	sym.Assert(err == nil, "approved migration fails")
	shown, ok := x.displayed()
	sym.Assert(ok, "no migration displayed")
	want := splitSQL(d, shown)
	sym.ObserveInt("statements", len(want))
	var got []string
	ev := x.executed()
	if d == SP {
		sym.Assert(len(ev) >= 2 && ev[0].q == "START BATCH DDL", "the batch is not started first")
		sym.Assert(ev[len(ev)-1].q == "RUN BATCH", "the batch is not run last")
		ev = ev[1 : len(ev)-1]
		for _, e := range ev {
			// Spanner takes one statement at a time
			sym.Assert(len(splitSQL(d, e.q)) == 1, "a request is not one statement")
		}
	}
	for _, e := range ev {
		got = append(got, splitSQL(d, e.q)...)
	}
	sym.Assert(len(got) == len(want), "number of statements sent differs from those displayed")
	for i := range want {
		sym.Assert(sym.Eq(got[i], want[i]), "statement sent differs from the one displayed")
	}
	sym.Assert(len(want) > 0, "nothing to do")
	sym.Reach("same")
}

// withLiteral is a schema with the literal in one of three places.
func withLiteral(d int, l string) string { return tableWith(d, sym.Choice("place", 2), l) }

func tableWith(d, p int, l string) string {
	switch d {
	case SP:
		return []string{
			"CREATE TABLE t (\n  a INT64 NOT NULL,\n  b STRING(9) DEFAULT (" + l + ")\n) PRIMARY KEY (a);\nCREATE INDEX i ON t (b);\n",
			"CREATE TABLE t (\n  a INT64 NOT NULL,\n  b STRING(9),\n  CONSTRAINT c CHECK (b <> " + l + ")\n) PRIMARY KEY (a);\n",
		}[p]
	case MY:
		return []string{
			"CREATE TABLE t (\n  a INT NOT NULL,\n  b VARCHAR(9) DEFAULT " + l + "\n);\nCREATE TABLE u (c INT);\n",
			"CREATE TABLE t (\n  a INT NOT NULL,\n  b VARCHAR(9) COMMENT " + l + "\n) COMMENT=" + l + ";\n",
		}[p]
	}
	return []string{
		"CREATE TABLE t (\n  a INTEGER NOT NULL,\n  b TEXT DEFAULT " + l + "\n);\nCREATE INDEX i ON t (b);\n",
		"CREATE TABLE t (\n  a INTEGER NOT NULL,\n  b TEXT,\n  CONSTRAINT c CHECK (b <> " + l + ")\n);\nCREATE TABLE u (c INTEGER);\n",
	}[p]
}

// C12_create: tables and an index are created in the empty database; a default, CHECK or
// COMMENT literal is any 0 to 3 units (thorough: 4).
func C12_create() {
	d := sym.Choice("dialect", 4)
	x := newWorld()
	x.files["a.sql"] = withLiteral(d, literal(d, "l", sym.Choice("n", units()+1)))
	err := x.run("apply", "--auto-approve", "--dialect", dialects[d], "dsn", "a.sql")
	exact(x, d, err)
}

// C12_alter: the same schema with another literal in the database, which the migration text
// shows in its comments.
func C12_alter() {
	d := sym.Choice("dialect", 3)
	x := newWorld()
	before, after := literal(d, "before", sym.Choice("n", units())), literal(d, "after", sym.Choice("m", units()))
	sym.Assume(sym.Not(sym.Eq(before, after)))
	p := sym.Choice("place", 2)
	x.has(d, tableWith(d, p, before))
	x.files["a.sql"] = tableWith(d, p, after) + "\n-- a comment; 'x\n" + oneTableNamed(d, "u")
	err := x.run("apply", "--auto-approve", "--dialect", dialects[d], "dsn", "a.sql")
	exact(x, d, err)
}

// C12_many: migrations of one to thirteen, and of thirty, statements: as many tables, with any
// one of six characters in each name.
func C12_many() {
	d := sym.Choice("dialect", 4)
	n := 1 + sym.Choice("tables", 14)
	if n == 14 {
		n = 30
	}
	x := newWorld()
	for i := 0; i < n; i++ {
		x.files["a.sql"] += oneTableNamed(d, "t"+sym.Bytes("name", 1, "abz_09")+strconv.Itoa(i))
	}
	err := x.run("apply", "--auto-approve", "--dialect", dialects[d], "dsn", "a.sql")
	exact(x, d, err)
}

// C12_text: no literals, a migration of one to three tables, with the operator approving.
func C12_text() {
	d := sym.Choice("dialect", 4)
	x := newWorld()
	for i := 0; i <= sym.Choice("tables", 3); i++ {
		x.files["a.sql"] += oneTableNamed(d, "t"+string(rune('0'+i)))
	}
	x.stdin = "yes\n"
	err := x.run("apply", "--dialect", dialects[d], "dsn", "a.sql")
	exact(x, d, err)
}

// C12_verbose: the debug or the trace mode, by its option or its environment variable; one to three tables.
func C12_verbose() {
	d := sym.Choice("dialect", 4)
	x := newWorld()
	for i := 0; i <= sym.Choice("tables", 3); i++ {
		x.files["a.sql"] += oneTableNamed(d, "t"+string(rune('0'+i)))
	}
	err := x.run(verbose(x, []string{"apply", "--auto-approve", "--dialect", dialects[d], "dsn", "a.sql"})...)
	exact(x, d, err)
}
