package cli

import "github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"

var commands = []string{"generate", "gen", "show", "diff", "apply"}

func source(d int) string {
	t := "INTEGER"
	if d == SP {
		t = "INT64"
	}
	return "package p\n\n// T is a table.\n//\n//ddlctl:table t\ntype T struct {\n\tA int `db:\"a\" pk:\"true\" ddlctl:\"" + t + " NOT NULL\"`\n}\n"
}

// commandLine is the world of C17: sources, a schema file and an output file to be replaced.
func commandLine(d int) *world {
	x := newWorld()
	x.dirs = []string{"src"}
	x.files["src/a.go"] = source(d)
	x.files["a.sql"] = ""
	x.files["out.sql"] = "old"
	x.stdin = "yes\n"
	return x
}

func arguments(cmd string, n int) []string {
	var a []string
	switch cmd {
	case "generate", "gen":
		a = []string{"src", "out.sql", "x", "y"}
	case "show":
		a = []string{"dsn", "x", "y", "z"}
	case "diff":
		a = []string{"a.sql", "src", "x", "y"}
	default:
		a = []string{"dsn", "src", "x", "y"}
	}
	return a[:n]
}

func wants(cmd string) int {
	if cmd == "show" {
		return 1
	}
	return 2
}

// refused checks that a bad command line did nothing.
func refused(x *world, err error) {
	sym.Reach("refused")
	sym.Assert(err != nil, "a bad command line is not refused")
	sym.Assert(x.out == "", "a bad command line writes output")
	sym.Assert(len(x.log) == 0, "a bad command line reaches the database")
	sym.Assert(x.written["out.sql"] == "old", "a bad command line overwrites the destination")
	sym.Assert(len(x.written) == len(x.files), "a bad command line creates a file")
}

// C17_count: every number of arguments from 0 to 4 with a valid dialect.
func C17_count() {
	cmd := commands[sym.Choice("command", len(commands))]
	d := sym.Choice("dialect", 4)
	n := sym.Choice("n", 5)
	x := commandLine(d)
	err := x.run(append([]string{cmd, "--dialect", dialects[d]}, arguments(cmd, n)...)...)
	if n != wants(cmd) {
		refused(x, err)
		return
	}
	sym.Reach("done")
	sym.Assert(err == nil, "a good command line is refused")
}

// C17_dialect: the dialect is any 0 to 5 bytes, or a known one with one byte replaced.
func C17_dialect() {
	cmd := commands[sym.Choice("command", len(commands))]
	s := ""
	if n := sym.Choice("n", 10); n < 6 {
		s = sym.Bytes("d", n, "")
	} else {
		k := dialects[n-6]
		i := sym.Choice("i", len(k))
		b := sym.Bytes("d", 1, "")
		s = k[:i] + b + k[i+1:]
		sym.Assume(sym.Not(sym.Eq(s, k)))
	}
	sym.Assume(sym.Not(sym.Eq(s, "mysql")))
	x := commandLine(SP)
	args := append([]string{cmd}, arguments(cmd, wants(cmd))...)
	switch sym.Choice("how", 3) {
	case 0:
		args = append(args, "--dialect", s)
	case 1:
		args = append(args, "--dialect="+s)
	case 2:
		x.env["DDLCTL_DIALECT"] = s
	}
	err := x.run(args...)
	refused(x, err)
}

// C17_language: the language is any 0 to 4 bytes other than go; for the commands that read source code.
func C17_language() {
	cmd := []string{"generate", "diff", "apply"}[sym.Choice("command", 3)]
	d := sym.Choice("dialect", 4)
	s := sym.Bytes("l", sym.Choice("n", 5), "")
	sym.Assume(sym.Not(sym.Eq(s, "go")))
	x := commandLine(d)
	args := []string{cmd, "--dialect", dialects[d], "--lang", s}
	switch cmd {
	case "generate":
		args = append(args, "src", "out.sql")
	case "diff":
		args = append(args, "a.sql", "src")
	default:
		args = append(args, "dsn", "src")
	}
	err := x.run(args...)
	sym.Assert(err != nil, "a bad command line is not refused")
	sym.Assert(x.out == "", "a bad command line writes output")
	sym.Assert(x.count("exec") == 0, "a bad command line changes the database")
	sym.Assert(x.written["out.sql"] == "old", "a bad command line overwrites the destination")
}
