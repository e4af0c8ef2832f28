package cli

import (
	"context"
	"database/sql"
	"errors"
	"io"
	"strconv"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"
)

// What a database may answer instead of doing the work.
var refusals = []string{
	"permission denied",
	"Error 1050: Table 't' already exists",
	"Error 1060: Duplicate column name 'a'",
	"Error 1215: Cannot add foreign key constraint",
	"Error 1061: Duplicate key name 'i'",
	"Error 1062: Duplicate entry '1' for key 't.k'",
	"Error 1068: Multiple primary key defined",
	"Error 1072: Key column 'a' doesn't exist in table",
	"Error 1091: Can't DROP 'a'; check that column/key exists",
	"Error 1146: Table 'd.t' doesn't exist",
	"pq: relation t does not exist",
	"Duplicate name in schema: i.",
	"no such table",
	"Database not found: d",
}

// failures are what may go wrong anywhere. (Not driver.ErrBadConn, after which database/sql tries again.)
func failures() []error {
	return []error{
		errDB, context.Canceled, context.DeadlineExceeded, sql.ErrConnDone, sql.ErrTxDone, sql.ErrNoRows, io.EOF, io.ErrUnexpectedEOF,
	}
}

// failure is any of them.
func failure() error {
	f := failures()
	return f[sym.Choice("failure", len(f))]
}

// tolerated reports whether the refusal says that the statement has been done before.
func tolerated(d int, text string) bool {
	if d != MY {
		return false
	}
	return sym.Or(contains(text, "already exists"), contains(text, "Duplicate column name"))
}

func contains(s, t string) bool {
	r := false
	for i := 0; i+len(t) <= len(s); i++ {
		r = sym.Or(r, sym.Eq(s[i:i+len(t)], t))
	}
	return r
}

// A schedule decides which requests fail: at most budget of them, each one chosen freely, and
// from then on always those of the statement that is doomed.
type schedule struct {
	d, budget int
	doomed    string // this statement never succeeds
	text      string
	steps     int
}

func (s *schedule) next(what, q string) error {
	s.steps++
	sym.Assert(s.steps < 60, "apply does not end")
	if what == "exec" && s.doomed != "" && q == s.doomed {
		return errors.New(s.text)
	}
	if s.budget == 0 || !sym.Bool("fault") {
		return nil
	}
	s.budget--
	if what == "exec" && !sym.Bool("other") {
		return errors.New(sym.Word("text", refusals))
	}
	return failure()
}

// surfaces checks the outcome of an approved migration against what the database did.
func surfaces(x *world, d int, err error) {
	for _, e := range x.log {
		sym.Observe(e.what, e.q)
	}
	sym.Assert(x.count("open") == 0 || x.opened() == x.count("close"), "connection not closed")
	if err != nil {
		sym.Reach("failed")
		bad := false
		for _, e := range x.log {
			bad = bad || e.err != nil
		}
		sym.Assert(bad, "failure although the database refused nothing")
		return
	}
	sym.Reach("succeeded")
	for _, e := range x.log {
		if e.what != "exec" {
			sym.Assert(e.err == nil, "success although the database failed")
		}
	}
	// the last word on each statement
	shown, ok := x.displayed()
	sym.Assert(ok, "success without a migration")
	ev := x.executed()
	for _, q := range splitSQL(d, shown) {
		done, sent := false, false
		for _, e := range ev {
			if p := splitSQL(d, e.q); len(p) == 1 && p[0] == q {
				sent = true
				done = e.err == nil || sym.Or(done, tolerated(d, e.err.Error()))
			}
		}
		sym.Assert(sent, "success although a statement was not sent")
		sym.Assert(done, "success although a statement was refused")
	}
	if d == SP {
		for _, e := range ev {
			sym.Assert(e.err == nil, "success although the batch failed")
		}
	}
}

// opened is the number of connections that came about.
func (x *world) opened() int {
	n := 0
	for _, e := range x.log {
		if e.what == "open" && e.err == nil {
			n++
		}
	}
	return n
}

func twoTables(d int) string {
	if d == SP {
		return oneTable(d) + "CREATE INDEX i ON t (a);\n"
	}
	return oneTable(d) + oneTableNamed(d, "u")
}

// C13_faults: up to two requests (thorough: three), at any places, are refused, each with any
// of the error texts; a migration of two statements.
func C13_faults() {
	d := sym.Choice("dialect", 4)
	x := newWorld()
	x.files["a.sql"] = twoTables(d)
	s := &schedule{d: d, budget: 2 + sym.Tier()}
	x.fault = s.next
	err := x.run("apply", "--auto-approve", "--dialect", dialects[d], "dsn", "a.sql")
	surfaces(x, d, err)
}

// C13_doomed: one of the two statements is always refused, and one more request may be.
func C13_doomed() {
	d := sym.Choice("dialect", 4)
	y := newWorld()
	y.files["a.sql"] = twoTables(d)
	err := y.run("apply", "--auto-approve", "--dialect", dialects[d], "dsn", "a.sql")
	sym.Assert(err == nil, "failure although the database refused nothing")
	ev := y.executed()
	if d == SP {
		ev = ev[1 : len(ev)-1]
	}
	x := newWorld()
	x.files["a.sql"] = twoTables(d)
	s := &schedule{d: d, budget: sym.Tier()}
	s.doomed = ev[sym.Choice("which", len(ev))].q
	s.text = sym.Word("refusal", refusals)
	x.fault = s.next
	err = x.run("apply", "--auto-approve", "--dialect", dialects[d], "dsn", "a.sql")
	surfaces(x, d, err)
	sym.Assert(sym.Or(err != nil, tolerated(d, s.text)), "success although a statement was always refused")
}

// C13_several: any of the three statements are always refused, each one for its own reason.
func C13_several() {
	d := sym.Choice("dialect", 4)
	x := newWorld()
	x.files["a.sql"] = oneTable(d) + oneTableNamed(d, "u") + oneTableNamed(d, "v")
	which := sym.Choice("which", 8)
	text := [3]string{}
	for i := range text {
		if which&(1<<i) != 0 {
			text[i] = sym.Word("refusal"+strconv.Itoa(i), refusals)
		}
	}
	n, fatal := 0, false
	x.fault = func(what, q string) error {
		n++
		sym.Assert(n < 60, "apply does not end")
		if what != "exec" {
			return nil
		}
		for i, t := range []string{"CREATE TABLE t", "CREATE TABLE u", "CREATE TABLE v"} {
			if text[i] != "" && strings.Contains(q, t) {
				fatal = sym.Or(fatal, sym.Not(tolerated(d, text[i])))
				return errors.New(text[i])
			}
		}
		return nil
	}
	err := x.run("apply", "--auto-approve", "--dialect", dialects[d], "dsn", "a.sql")
	surfaces(x, d, err)
	sym.Assert(sym.Or(err != nil, sym.Not(fatal)), "success although a statement was always refused")
}

// C13_verbose: the debug or the trace mode, by its option or its environment variable; one request is refused.
func C13_verbose() {
	d := sym.Choice("dialect", 4)
	x := newWorld()
	x.files["a.sql"] = twoTables(d)
	s := &schedule{d: d, budget: 1}
	x.fault = s.next
	err := x.run(verbose(x, []string{"apply", "--auto-approve", "--dialect", dialects[d], "dsn", "a.sql"})...)
	surfaces(x, d, err)
}
