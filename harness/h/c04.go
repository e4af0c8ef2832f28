package h

import "github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"

// fixpoint: the printed schema parses again, is the same schema, and prints the same.
func fixpoint(d int, s string) {
	sym.Observe("schema", s)
	a, err := parse(d, s)
	if err != nil {
		sym.Reach("refused")
		return
	}
	p := a.String()
	sym.Observe("printed", p)
	b, err := parse(d, p)
	sym.Assert(err == nil, "the printed schema is refused: "+errStr(err))
	if want, e := refSchema(d, s); e == "" {
		got, e := refSchema(d, p)
		sym.Assert(e == "", "the printed schema is not valid: "+e)
		m := want.diff(got, true)
		sym.Assert(m == "", "the printed text declares another schema: "+m)
	}
	q := b.String()
	sym.Observe("again", q)
	sym.Assert(sym.Eq(p, q), "printing again gives another text")
	m, same, err := diffText(a, b)
	sym.Assert(err == nil && same, "the printed schema differs: "+m)
	m, same, err = diffText(b, a)
	sym.Assert(err == nil && same, "the schema differs from the printed one: "+m)
	sym.Reach("same")
}

// All slots of the schema template but two at a base alternative, those two at any.
func C04_postgres_pairs() { fixpoint(PG, layouts[PG].one("l")) }

// A column with one of 3 types and every sequence of up to 3 (thorough 4) of the column clauses.
func C04_postgres_columns() { s, _ := columnWith(PG, 3+sym.Tier()); fixpoint(PG, s) }

// A table with every sequence of 2 (thorough 3) table constraints, named or not, between the columns or after them.
func C04_postgres_constraints() { fixpoint(PG, constraintsWith(PG, 2+sym.Tier())) }

// The name of a table, column, constraint or index in every way to write one, each with arbitrary letters.
func C04_postgres_names() { fixpoint(PG, named(PG, "l", 1+sym.Choice("place", 4))) }

// All slots of the schema template but two at a base alternative, those two at any.
func C04_cockroachdb_pairs() { fixpoint(CR, layouts[CR].one("l")) }

// A column with one of 3 types and every sequence of up to 3 (thorough 4) of the column clauses.
func C04_cockroachdb_columns() { s, _ := columnWith(CR, 3+sym.Tier()); fixpoint(CR, s) }

// A table with every sequence of 2 (thorough 3) table constraints, named or not, between the columns or after them.
func C04_cockroachdb_constraints() { fixpoint(CR, constraintsWith(CR, 2+sym.Tier())) }

// The name of a table, column, constraint or index in every way to write one, each with arbitrary letters.
func C04_cockroachdb_names() { fixpoint(CR, named(CR, "l", 1+sym.Choice("place", 4))) }

// All slots of the schema template but two at a base alternative, those two at any.
func C04_mysql_pairs() { fixpoint(MY, layouts[MY].one("l")) }

// A column with one of 3 types and every sequence of up to 3 (thorough 4) of the column clauses.
func C04_mysql_columns() { s, _ := columnWith(MY, 3+sym.Tier()); fixpoint(MY, s) }

// A table with every sequence of 2 (thorough 3) table constraints, named or not, between the columns or after them.
func C04_mysql_constraints() { fixpoint(MY, constraintsWith(MY, 2+sym.Tier())) }

// The name of a table, column, constraint or index in every way to write one, each with arbitrary letters.
func C04_mysql_names() { fixpoint(MY, named(MY, "l", 1+sym.Choice("place", 4))) }

// All slots of the schema template but two at a base alternative, those two at any.
func C04_spanner_pairs() { fixpoint(SP, layouts[SP].one("l")) }

// A column with one of 3 types and every sequence of up to 3 (thorough 4) of the column clauses.
func C04_spanner_columns() { s, _ := columnWith(SP, 3+sym.Tier()); fixpoint(SP, s) }

// A table with every sequence of 2 (thorough 3) table constraints, named or not, between the columns or after them.
func C04_spanner_constraints() { fixpoint(SP, constraintsWith(SP, 2+sym.Tier())) }

// The name of a table, column, constraint or index in every way to write one, each with arbitrary letters.
func C04_spanner_names() { fixpoint(SP, named(SP, "l", 1+sym.Choice("place", 4))) }
