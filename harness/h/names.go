package h

import "github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"

// A namer gives the names of a schema: arbitrary ones, of one or two of two characters, so that they may coincide with, start
// or end like others of the same or the other schema; in one of three styles: as they are, quoted (of four characters, one of
// them upper case, for PostgreSQL and CockroachDB of the same letter, one punctuation), or quoted with the tables in one of two schemas.
type namer struct {
	d, style int
	side     string
	n        int
}

func (m *namer) name(what string) string {
	m.n++
	n := m.side + "." + what
	q := "\""
	if m.d >= MY {
		q = "`"
	}
	if m.style == 0 {
		if what == "table" {
			return "t" + sym.Bytes(n, m.n%2, "t_") + "t"
		}
		return "x" + sym.Bytes(n, 1, "x_")
	}
	upper := "A"
	if m.d >= MY { // case-insensitive
		upper = "B"
	}
	if what == "table" && m.style == 2 {
		return sym.Bytes(m.side+".schema", 1, "sz") + "." + q + sym.Bytes(n, 1, "a"+upper) + q
	}
	return q + "a" + sym.Bytes(n, 1, "a"+upper+"- ") + q
}

var intType = [4]string{"INTEGER", "INT8", "INT", "INT64"}

// schema is one of six schemas of up to two tables of one or two columns, a key, an index or a constraint.
func (m *namer) schema(shape int) string {
	typ := " " + intType[m.d]
	key := func(cols string) string {
		if m.d == SP {
			return ") PRIMARY KEY (" + cols + ");"
		}
		return ");"
	}
	t, a := m.name("table"), m.name("column")
	switch shape {
	case 0:
		return "CREATE TABLE " + t + " (" + a + typ + key(a)
	case 1:
		b := m.name("column")
		return "CREATE TABLE " + t + " (" + a + typ + " NOT NULL, " + b + typ + key(a) + "CREATE INDEX " + m.name("index") + " ON " + t + " (" + b + ", " + a + ");"
	case 2:
		b := m.name("column")
		return "CREATE TABLE " + t + " (" + a + typ + ", " + b + typ + ", CONSTRAINT " + m.name("constraint") + " CHECK (" + b + " > 0)" + key(a)
	case 3:
		u, b := m.name("table"), m.name("column")
		return "CREATE TABLE " + t + " (" + a + typ + key(a) + "CREATE TABLE " + u + " (" + b + typ + ", CONSTRAINT " + m.name("constraint") + " FOREIGN KEY (" + b + ") REFERENCES " + t + " (" + a + ")" + key(b)
	}
	if shape == 5 && (m.d == PG || m.d == SP) {
		sym.Stop()
	}
	if shape == 5 {
		b := m.name("column")
		return "CREATE TABLE " + t + " (" + a + typ + ", " + b + typ + ", INDEX " + m.name("index") + " (" + a + "), UNIQUE INDEX " + m.name("index") + " (" + b + ", " + a + "));"
	}
	u, b := m.name("table"), m.name("column")
	return "CREATE TABLE " + t + " (" + a + typ + key(a) + "CREATE TABLE " + u + " (" + b + typ + " NOT NULL" + key(b) + "CREATE UNIQUE INDEX " + m.name("index") + " ON " + u + " (" + b + ");"
}

func namedSchema(d int) string {
	m := &namer{d: d, style: sym.Choice("style", 3), side: "l"}
	return m.schema(sym.Choice("shape", 6))
}

func namedPair(d int) (before, after string) {
	style := sym.Choice("style", 3)
	b := &namer{d: d, style: style, side: "l"}
	a := &namer{d: d, style: style, side: "r"}
	return b.schema(sym.Choice("left", 6)), a.schema(sym.Choice("right", 6))
}

// C06_names: the migration leads to the target; names that are arbitrary: up to two tables of one or two columns with a key, an index or a constraint in each of six shapes, the names of one or two arbitrary characters (one may start, end or equal another), bare, quoted with upper case and punctuation, or with the tables in one of two schemas.
func C06_names() { d := sym.Choice("dialect", 4); b, a := namedPair(d); converges(d, b, a) }

// C07_names: only what differs is touched; names that are arbitrary: up to two tables of one or two columns with a key, an index or a constraint in each of six shapes, the names of one or two arbitrary characters (one may start, end or equal another), bare, quoted with upper case and punctuation, or with the tables in one of two schemas.
func C07_names() { d := sym.Choice("dialect", 4); b, a := namedPair(d); spares(d, b, a) }

// C08_names: every statement runs; names that are arbitrary: up to two tables of one or two columns with a key, an index or a constraint in each of six shapes, the names of one or two arbitrary characters (one may start, end or equal another), bare, quoted with upper case and punctuation, or with the tables in one of two schemas.
func C08_names() { d := sym.Choice("dialect", 4); b, a := namedPair(d); inOrder(d, b, a) }

// C09_names: from and to the empty schema; names that are arbitrary: up to two tables of one or two columns with a key, an index or a constraint in each of six shapes, the names of one or two arbitrary characters (one may start, end or equal another), bare, quoted with upper case and punctuation, or with the tables in one of two schemas.
func C09_names() { d := sym.Choice("dialect", 4); fromAndToNothing(d, namedSchema(d)) }

// C10_names: inputs stay as they were and the output is determined; names that are arbitrary: up to two tables of one or two columns with a key, an index or a constraint in each of six shapes, the names of one or two arbitrary characters (one may start, end or equal another), bare, quoted with upper case and punctuation, or with the tables in one of two schemas.
func C10_names() { d := sym.Choice("dialect", 4); b, a := namedPair(d); pure(d, b, a) }
