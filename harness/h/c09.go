package h

import "github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"

// absent is a missing schema, empty one without statements.
func absent(d int) Schema { return Schema{d: d} }

func fromAndToNothing(d int, s string) {
	sym.Observe("schema", s)
	m := modelOf(d, s)
	a := mustParse(d, s)
	nothing := absent(d)
	if sym.Choice("nothing", 2) == 1 {
		e, err := parse(d, "")
		sym.Assert(err == nil, "an empty schema is refused")
		nothing = e
	}
	_, same, err := diffS(nothing, nothing)
	sym.Assert(err == nil && same, "two empty schemas differ")

	up, same, err := diffText(nothing, a)
	sym.Observe("creation", up)
	sym.Assert(err == nil && !same, "no difference from an empty schema: "+errStr(err))
	sym.Assert(sym.Eq(up, a.String()), "the difference from an empty schema is not the schema")
	db := &refDB{d: d}
	e := db.run(up)
	sym.Assert(e == "", "the creation fails: "+e)
	sym.Assert(m.diff(db, true) == "", "the creation leads elsewhere")

	down, same, err := diffText(a, nothing)
	sym.Observe("removal", down)
	sym.Assert(err == nil && !same, "no difference to an empty schema: "+errStr(err))
	stmts, e := statements(d, down)
	sym.Assert(e == "", "the removal is not readable")
	db = m.clone()
	db.log = nil
	for _, s := range stmts {
		e := db.exec(s)
		sym.Assert(e == "", "the removal fails: "+refText(s))
	}
	sym.Assert(len(db.tables) == 0 && len(db.idxs) == 0, "the removal leaves something")
	for _, x := range db.log {
		sym.Assert(x.verb == "DROP TABLE" || x.verb == "DROP INDEX", "the removal does something else")
	}
	want := len(m.tables) + created(d, s)
	sym.Assert(len(db.log) == want, "the removal is not one statement for each table and index")
	sym.Reach("both")
}

// created counts the CREATE INDEX statements.
func created(d int, s string) int {
	stmts, _ := statements(d, s)
	n := 0
	for _, t := range stmts {
		if t[1].s == "INDEX" || t[1].s == "UNIQUE" {
			n++
		}
	}
	return n
}

func C09_postgres_schemas()    { fromAndToNothing(PG, layouts[PG].one("l")) }
func C09_cockroachdb_schemas() { fromAndToNothing(CR, layouts[CR].one("l")) }
func C09_mysql_schemas()       { fromAndToNothing(MY, layouts[MY].one("l")) }
func C09_spanner_schemas()     { fromAndToNothing(SP, layouts[SP].one("l")) }
