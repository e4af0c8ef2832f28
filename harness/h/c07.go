package h

import "github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"

// spares: no statement of the migration drops, creates or changes what both schemas declare alike, and no table or column
// that is in both is dropped or created.
func spares(d int, before, after string) {
	c := changeOf(d, before, after)
	if c.same {
		sym.Stop()
	}
	stmts, err := statements(d, c.text)
	sym.Assert(err == "", "the migration is not readable: "+err)
	db := c.before.clone()
	for _, s := range stmts {
		was := db.clone()
		db.log = nil
		if db.exec(s) != "" { // C08
			db = was
			continue
		}
		if was.diff(db, true) == "" && !c.dropsDefault(db.log) {
			sym.Fail("a statement has no effect:" + refText(s))
		}
		for _, a := range db.log {
			c.checkAct(a)
		}
	}
	sym.Reach("executed")
}

// dropsDefault: MySQL's MODIFY has already dropped the default that the statement drops.
func (c *change) dropsDefault(log []refAct) bool {
	if c.d != MY || len(log) != 1 || log[0].verb != "ALTER COLUMN" {
		return false
	}
	t, u := c.before.table(log[0].table), c.after.table(log[0].table)
	return t != nil && u != nil && t.col(log[0].name) != nil && u.col(log[0].name) != nil && t.col(log[0].name).def != "" && u.col(log[0].name).def == ""
}

// recreated: the primary key or the interleaving of a Spanner table cannot be altered.
func (c *change) recreated(table string) bool {
	t, u := c.before.table(table), c.after.table(table)
	return c.d == SP && t != nil && u != nil && (t.opt("PK") != u.opt("PK") || t.opt("INTERLEAVE") != u.opt("INTERLEAVE"))
}

func (c *change) checkAct(a refAct) {
	t, u := c.before.table(a.table), c.after.table(a.table)
	what := a.verb + " " + a.table + " " + a.name
	sym.Observe("act", what)
	switch a.verb {
	case "CREATE TABLE", "DROP TABLE":
		sym.Assert(t == nil || u == nil || c.recreated(a.table), "a table in both schemas: "+a.verb)
	case "RENAME":
		sym.Fail("a table is renamed")
	case "ADD COLUMN", "DROP COLUMN":
		sym.Assert(t == nil || u == nil || t.col(a.name) == nil || u.col(a.name) == nil, "a column in both schemas: "+a.verb)
	case "ALTER COLUMN":
		sym.Assert(t != nil && u != nil && t.col(a.name) != nil && u.col(a.name) != nil, "a column not in both schemas is altered")
		sym.Assert(t.col(a.name).text() != u.col(a.name).text(), "an unchanged column is altered")
	case "ADD CONSTRAINT", "DROP CONSTRAINT":
		sym.Assert(t == nil || u == nil || t.con(a.name) == nil || u.con(a.name) == nil || t.con(a.name).text() != u.con(a.name).text(),
			"an unchanged constraint: "+a.verb)
	case "CREATE INDEX", "DROP INDEX":
		if c.d == MY || c.d == CR {
			n := lastPart(a.name)
			sym.Assert(t == nil || u == nil || t.con(n) == nil || u.con(n) == nil || t.con(n).text() != u.con(n).text(), "an unchanged index: "+a.verb)
			return
		}
		x, y := c.before.index(a.name), c.after.index(a.name)
		sym.Assert(x == nil || y == nil || x.body != y.body || c.recreated(a.table), "an unchanged index: "+a.verb)
	}
}

func C07_postgres_pairs()    { b, a := layouts[PG].smaller().pair(PG); spares(PG, b, a) }
func C07_cockroachdb_pairs() { b, a := layouts[CR].smaller().pair(CR); spares(CR, b, a) }
func C07_mysql_pairs()       { b, a := layouts[MY].smaller().pair(MY); spares(MY, b, a) }
func C07_spanner_pairs()     { b, a := layouts[SP].smaller().pair(SP); spares(SP, b, a) }
