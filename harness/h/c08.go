package h

import "github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"

// inOrder: every statement of the migration succeeds at its place, on the first schema.
func inOrder(d int, before, after string) {
	c := changeOf(d, before, after)
	if c.same {
		sym.Stop()
	}
	stmts, err := statements(d, c.text)
	sym.Assert(err == "", "the migration is not readable: "+err)
	db := c.before.clone()
	for _, s := range stmts {
		if err := db.exec(s); err != "" {
			sym.Observe("error", err)
			sym.Known("spanner-recreate-referenced", c.heldBack())
			sym.Fail("a statement fails: " + refText(s))
		}
	}
	sym.Known("mysql-drop-index-without-table", db.noOn)
	sym.Assert(!db.noOn, "DROP INDEX does not name the table")
	sym.Reach("executed")
}

// refText is the kind of a statement: its first two words, and what it does to a table.
func refText(s []refTok) string {
	o := ""
	for i, t := range s {
		if i < 2 || i > 2 && i < 5 && s[0].s == "ALTER" {
			o += " " + refUpper(t.s)
		}
	}
	return o
}

func C08_postgres_pairs()    { b, a := layouts[PG].pair(PG); inOrder(PG, b, a) }
func C08_cockroachdb_pairs() { b, a := layouts[CR].pair(CR); inOrder(CR, b, a) }
func C08_mysql_pairs()       { b, a := layouts[MY].pair(MY); inOrder(MY, b, a) }
func C08_spanner_pairs()     { b, a := layouts[SP].pair(SP); inOrder(SP, b, a) }
