package cli

import (
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"
)

const (
	PG = 0
	CR = 1
	MY = 2
	SP = 3
)

var dialects = []string{"postgres", "cockroachdb", "mysql", "spanner"}

// oneTable is a schema file of the dialect with one table.
func oneTable(d int) string { return oneTableNamed(d, "t") }

func oneTableNamed(d int, n string) string {
	switch d {
	case SP:
		return "CREATE TABLE " + n + " (a INT64 NOT NULL) PRIMARY KEY (a);\n"
	case MY:
		return "CREATE TABLE `" + n + "` (`a` INT NOT NULL);\n"
	}
	return "CREATE TABLE " + n + " (a INTEGER NOT NULL);\n"
}

// firstLine is what the operator typed up to the line break (LF or CR LF) or end of input.
func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return strings.TrimSuffix(s, "\r")
}

// C11_answer: the operator's input is any 0 to 5 bytes (thorough: 7), in every dialect.
func C11_answer() {
	d := sym.Choice("dialect", 4)
	n := 6
	if sym.Tier() > 0 {
		n = 8
	}
	x := newWorld()
	x.files["a.sql"] = oneTable(d)
	x.stdin = sym.Bytes("in", sym.Choice("n", n), "")
	err := x.run("apply", "--dialect", dialects[d], "dsn", "a.sql")
	approves(x, firstLine(x.stdin) == "yes", err)
}

// approves checks that statements were sent exactly if approved.
func approves(x *world, approved bool, err error) {
	n := x.count("exec")
	sym.ObserveInt("sent", n)
	if approved {
		sym.Reach("approved")
		sym.Assert(err == nil && n > 0, "approved migration not executed")
		return
	}
	sym.Reach("refused")
	sym.Assert(n == 0, "statements sent without approval")
	sym.Assert(err != nil, "no error although the migration was not approved")
}

// C11_lines: two lines, the second saying yes, the first one of near misses in any letter
// case; with any line ending.
func C11_lines() {
	d := sym.Choice("dialect", 4)
	x := newWorld()
	x.files["a.sql"] = oneTable(d)
	first := sym.CaseVar("case", []string{"", "y", "no", "yes", "yess", "ye", " yes", "yes ", "'yes'", "true"}[sym.Choice("first", 10)])
	x.stdin = first + []string{"\n", "\r\n", "\n\n"}[sym.Choice("eol", 3)] + "yes\n"
	err := x.run("apply", "--dialect", dialects[d], "dsn", "a.sql")
	approves(x, first == "yes", err)
}

// C11_option: the auto-approve option as a flag, with a value of any 0 to 5 bytes of 01trueTRUEfalsyY, blank and -, or in the
// environment, before or after the other arguments; with an empty or refusing input.
func C11_option() {
	d := sym.Choice("dialect", 4)
	x := newWorld()
	x.files["a.sql"] = oneTable(d)
	x.stdin = []string{"", "no\n"}[sym.Choice("in", 2)]
	args := []string{"apply", "--dialect", dialects[d], "dsn", "a.sql"}
	v := "true"
	switch sym.Choice("how", 4) {
	case 0:
		v = "false"
	case 1:
		args = append(args, "--auto-approve")
	case 2:
		v = sym.Bytes("v", sym.Choice("n", 6), "01trueTRUEfalsyY -")
		args = append([]string{"apply", "--auto-approve=" + v}, args[1:]...)
	case 3:
		v = sym.Bytes("v", 1+sym.Choice("n", 5), "01trueTRUEfalsyY -")
		x.env["DDLCTL_AUTO_APPROVE"] = v
	}
	err := x.run(args...)
	yes := false
	for _, t := range []string{"1", "t", "T", "true", "TRUE", "True"} {
		if v == t {
			yes = true
		}
	}
	approves(x, yes, err)
}

// C11_nothing: without a difference nothing is sent and the command succeeds.
func C11_nothing() {
	d := sym.Choice("dialect", 4)
	x := newWorld()
	x.files["a.sql"] = ""
	x.stdin = "yes\n"
	args := []string{"apply", "--dialect", dialects[d], "dsn", "a.sql"}
	if sym.Bool("auto") {
		args = append(args, "--auto-approve")
	}
	err := x.run(args...)
	sym.Assert(err == nil, "no difference reported as an error")
	sym.Assert(x.count("exec") == 0, "statements sent although there is no difference")
}

// C11_verbose: the debug or the trace mode, by its option or its environment variable; one of four answers.
func C11_verbose() {
	d := sym.Choice("dialect", 4)
	x := newWorld()
	x.files["a.sql"] = oneTable(d)
	x.stdin = []string{"yes\n", "no\n", "", "y\nyes\n"}[sym.Choice("in", 4)]
	err := x.run(verbose(x, []string{"apply", "--dialect", dialects[d], "dsn", "a.sql"})...)
	approves(x, x.stdin == "yes\n", err)
}
