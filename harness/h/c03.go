package h

import "github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"

// modelOf reads a declared schema; schemas that no database would accept are not considered.
func modelOf(d int, s string) *refDB {
	m, err := refSchema(d, s)
	if err != "" {
		sym.Reach("invalid")
		sym.Stop()
	}
	return m
}

func mustParse(d int, s string) Schema {
	a, err := parse(d, s)
	sym.Assert(err == nil, "a valid schema is refused: "+errStr(err))
	return a
}

// faithfulIfParsed: as faithful, for schemas the dialect may not have.
func faithfulIfParsed(d int, s string, known bool) {
	if _, err := parse(d, s); err != nil && !known {
		sym.Reach("refused")
		return
	}
	faithful(d, s)
}

// faithful: what was parsed, read back from its printed form, is what was declared.
func faithful(d int, s string) {
	sym.Observe("schema", s)
	want := modelOf(d, s)
	p := mustParse(d, s).String()
	sym.Observe("printed", p)
	got, err := refSchema(d, p)
	sym.Assert(err == "", "the parsed schema is not valid: "+err)
	m := want.diff(got, true)
	sym.Assert(m == "", "the parsed schema differs from the declared one: "+m)
	sym.Reach("same")
}

// All slots of the schema template but two at a base alternative, those two at any.
func C03_postgres_pairs() { faithful(PG, layouts[PG].one("l")) }

// A column with one of 3 types and every sequence of up to 3 (thorough 4) of the column clauses.
func C03_postgres_columns() { s, known := columnWith(PG, 3+sym.Tier()); faithfulIfParsed(PG, s, known) }

// A table with every sequence of 2 (thorough 3) table constraints, named or not, between the columns or after them.
func C03_postgres_constraints() { faithful(PG, constraintsWith(PG, 2+sym.Tier())) }

// The name of a table, column, constraint or index in every way to write one, each with arbitrary letters.
func C03_postgres_names() { faithful(PG, named(PG, "l", 1+sym.Choice("place", 4))) }

// All slots of the schema template but two at a base alternative, those two at any.
func C03_cockroachdb_pairs() { faithful(CR, layouts[CR].one("l")) }

// A column with one of 3 types and every sequence of up to 3 (thorough 4) of the column clauses.
func C03_cockroachdb_columns() {
	s, known := columnWith(CR, 3+sym.Tier())
	faithfulIfParsed(CR, s, known)
}

// A table with every sequence of 2 (thorough 3) table constraints, named or not, between the columns or after them.
func C03_cockroachdb_constraints() { faithful(CR, constraintsWith(CR, 2+sym.Tier())) }

// The name of a table, column, constraint or index in every way to write one, each with arbitrary letters.
func C03_cockroachdb_names() { faithful(CR, named(CR, "l", 1+sym.Choice("place", 4))) }

// All slots of the schema template but two at a base alternative, those two at any.
func C03_mysql_pairs() { faithful(MY, layouts[MY].one("l")) }

// A column with one of 3 types and every sequence of up to 3 (thorough 4) of the column clauses.
func C03_mysql_columns() { s, known := columnWith(MY, 3+sym.Tier()); faithfulIfParsed(MY, s, known) }

// A table with every sequence of 2 (thorough 3) table constraints, named or not, between the columns or after them.
func C03_mysql_constraints() { faithful(MY, constraintsWith(MY, 2+sym.Tier())) }

// The name of a table, column, constraint or index in every way to write one, each with arbitrary letters.
func C03_mysql_names() { faithful(MY, named(MY, "l", 1+sym.Choice("place", 4))) }

// All slots of the schema template but two at a base alternative, those two at any.
func C03_spanner_pairs() { faithful(SP, layouts[SP].one("l")) }

// A column with one of 3 types and every sequence of up to 3 (thorough 4) of the column clauses.
func C03_spanner_columns() { s, known := columnWith(SP, 3+sym.Tier()); faithfulIfParsed(SP, s, known) }

// A table with every sequence of 2 (thorough 3) table constraints, named or not, between the columns or after them.
func C03_spanner_constraints() { faithful(SP, constraintsWith(SP, 2+sym.Tier())) }

// The name of a table, column, constraint or index in every way to write one, each with arbitrary letters.
func C03_spanner_names() { faithful(SP, named(SP, "l", 1+sym.Choice("place", 4))) }
