package h

import "github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"

// clause is one clause of a column declaration; clauses of the same rank exclude one another, and a declaration with its
// clauses in the order of their ranks is one the dialect certainly has.
type clause struct {
	rank int
	text string
}

var columnTypes = [4][]string{
	{"INT", "VARCHAR(#)", "NUMERIC(1#, #)"},
	{"INT8", "VARCHAR(#)", "DECIMAL(1#, #)"},
	{"INT", "VARCHAR(1#)", "DECIMAL(1#, #)"},
	{"INT64", "STRING(MAX)", "ARRAY<STRING(#)>"},
}

var columnClauses = [4][]clause{
	{{1, " NOT NULL"}, {1, " NULL"}, {2, " DEFAULT #"}, {2, " DEFAULT (a + #)"}, {3, " PRIMARY KEY"}, {4, " UNIQUE"}, {5, " CHECK (b > # AND (b < 90 OR b IS NULL))"}, {6, " REFERENCES p (x)"}, {6, " REFERENCES p (x) ON DELETE CASCADE"}},
	{{0, " NOT VISIBLE"}, {1, " NOT NULL"}, {1, " NULL"}, {2, " DEFAULT #"}, {2, " AS (a + #) STORED"}, {2, " AS (a + #) VIRTUAL"}, {3, " PRIMARY KEY"}, {4, " UNIQUE"}, {5, " CHECK (b > # AND (b < 90 OR b IS NULL))"}, {6, " REFERENCES p (x)"}, {6, " REFERENCES p (x) ON UPDATE CASCADE"}},
	{{0, " CHARACTER SET latin#"}, {1, " COLLATE latin#_bin"}, {2, " NOT NULL"}, {2, " NULL"}, {3, " DEFAULT #"}, {3, " DEFAULT CURRENT_TIMESTAMP"}, {3, " AUTO_INCREMENT"}, {4, " ON UPDATE CURRENT_TIMESTAMP"}, {5, " PRIMARY KEY"}, {5, " UNIQUE"}, {6, " CHECK (b > # AND (b < 90 OR b IS NULL))"}, {7, " REFERENCES p (x) ON DELETE CASCADE ON UPDATE NO ACTION"}, {9, " COMMENT '?'"}},
	{{1, " NOT NULL"}, {1, " NULL"}, {2, " DEFAULT (#)"}, {2, " DEFAULT (CONCAT('?', \"b\"))"}, {4, " CHECK (b > # AND (b < 90 OR b IS NULL))"}, {5, " REFERENCES p (x)"}, {6, " OPTIONS (allow_commit_timestamp = true)"}},
}

var tableWith = [4]string{
	"CREATE TABLE p (x INT, y INT);CREATE TABLE t (a INT, $, z INT);",
	"CREATE TABLE p (x INT8, y INT8);CREATE TABLE t (a INT8, $, z INT8);",
	"CREATE TABLE p (x INT, y INT);CREATE TABLE t (a INT, $, z INT);",
	"CREATE TABLE p (x INT64, y INT64) PRIMARY KEY (x);CREATE TABLE t (a INT64, $, z INT64) PRIMARY KEY (a);",
}

func with(text, s string) string {
	for i := 0; i < len(text); i++ {
		if text[i] == '$' {
			return text[:i] + s + text[i+1:]
		}
	}
	return text
}

// columnWith is a column with up to n clauses in any order; known tells whether the dialect certainly has it.
func columnWith(d, n int) (text string, known bool) {
	s := "b " + columnTypes[d][sym.Choice("type", len(columnTypes[d]))]
	known = true
	last := -1
	var ranks []int
	for i := 0; i < n; i++ {
		k := sym.Choice("clause", len(columnClauses[d])+1)
		if k == len(columnClauses[d]) {
			break
		}
		c := columnClauses[d][k]
		for _, r := range ranks {
			sym.Assume(r != c.rank)
		}
		ranks = append(ranks, c.rank)
		if c.rank < last {
			known = false
		}
		last = c.rank
		s += c.text
	}
	return with(tableWith[d], symbols("c", s)), known
}

// constraintClauses are table constraints; & is an optional constraint name.
var constraintClauses = [4][]string{
	{"&PRIMARY KEY (a)", "&PRIMARY KEY (b, a)", "&UNIQUE (a)", "&UNIQUE (b, a)", "CONSTRAINT c_^ CHECK (a > # OR (b < # AND a <> b))", "&FOREIGN KEY (a) REFERENCES p (x)", "&FOREIGN KEY (b, a) REFERENCES p (x, y) ON DELETE NO ACTION", "&FOREIGN KEY (b) REFERENCES p (y) ON UPDATE CASCADE"},
	{"&PRIMARY KEY (a DESC)", "&PRIMARY KEY (b, a ASC)", "UNIQUE INDEX i_^ (a)", "INDEX i_^ (b DESC, a)", "UNIQUE INDEX i_^ (b) USING HASH", "CONSTRAINT c_^ CHECK (a > # OR (b < # AND a <> b))", "&FOREIGN KEY (a) REFERENCES p (x)", "&FOREIGN KEY (b, a) REFERENCES p (x, y) ON DELETE NO ACTION", "&FOREIGN KEY (b) REFERENCES p (y) ON UPDATE CASCADE"},
	{"&PRIMARY KEY (a)", "&PRIMARY KEY (b, a)", "&UNIQUE KEY i_^ (a)", "KEY i_^ (b DESC, a)", "INDEX i_^ (b)", "UNIQUE INDEX i_^ (b, a)", "&CHECK (a > # OR (b < # AND a <> b))", "&FOREIGN KEY (a) REFERENCES p (x) ON DELETE CASCADE ON UPDATE CASCADE", "&FOREIGN KEY (b, a) REFERENCES p (x, y) ON DELETE NO ACTION", "&FOREIGN KEY (b) REFERENCES p (y) ON UPDATE NO ACTION"},
	{"&CHECK (a > # OR (b < # AND a <> b))", "&FOREIGN KEY (a) REFERENCES p (x)", "&FOREIGN KEY (b, a) REFERENCES p (x, y)", "CONSTRAINT c_^ CHECK (a IN (#, 2))"},
}

var tableOf2 = [4]string{
	"CREATE TABLE p (x INT, y INT);CREATE TABLE t (a INT, $b INT$);",
	"CREATE TABLE p (x INT8, y INT8);CREATE TABLE t (a INT8, $b INT8$);",
	"CREATE TABLE p (x INT, y INT);CREATE TABLE t (a INT, $b INT$);",
	"CREATE TABLE p (x INT64, y INT64) PRIMARY KEY (x);CREATE TABLE t (a INT64, $b INT64$) PRIMARY KEY (a);",
}

func constraintOf(d int, name string) string {
	s := constraintClauses[d][sym.Choice("constraint", len(constraintClauses[d]))]
	if s[0] != '&' {
		return symbols("c", s)
	}
	if sym.Choice("named", 2) == 1 {
		return symbols("c", "CONSTRAINT "+name+" "+s[1:])
	}
	return symbols("c", s[1:])
}

// constraintsWith is a table with n constraints, the first of them before the column b or all after it.
func constraintsWith(d, n int) string {
	between, behind := "", ""
	for i := 0; i < n; i++ {
		c := constraintOf(d, [3]string{"n_^", "m_^", "k_^"}[i])
		if i == 0 && sym.Choice("place", 2) == 1 {
			between = c + ", "
		} else {
			behind += ", " + c
		}
	}
	return with(with(tableOf2[d], between), behind)
}

// names are ways to write a name; % is " or, in MySQL and Spanner, `.
var names = []string{"^", "%^%", "%^?^%", "%?-?%", "%SELECT%", "_^#", "Z^", "%Z^%"}

// places is a schema in which ~1 is the name of the table, ~2 of a column, ~3 of a constraint, ~4 of an index.
var places = [4]string{
	"CREATE TABLE ~1 (~2 INT DEFAULT 1, b INT REFERENCES ~1 (~2), CONSTRAINT ~3 UNIQUE (~2, b));CREATE INDEX ~4 ON ~1 (b, ~2);",
	"CREATE TABLE ~1 (~2 INT8 DEFAULT 1, b INT8 REFERENCES ~1 (~2), UNIQUE INDEX ~3 (~2, b));CREATE INDEX ~4 ON ~1 (b, ~2);",
	"CREATE TABLE ~1 (~2 INT DEFAULT 1, b INT REFERENCES ~1 (~2), UNIQUE KEY ~3 (~2, b));CREATE INDEX ~4 ON ~1 (b, ~2);",
	"CREATE TABLE ~1 (~2 INT64 DEFAULT (1), b INT64 REFERENCES ~1 (~2), CONSTRAINT ~3 FOREIGN KEY (~2) REFERENCES ~1 (b)) PRIMARY KEY (~2);CREATE INDEX ~4 ON ~1 (b, ~2);",
}

// tableNames also has a schema.
var tableNames = append([]string{"s^.x^", "%s^.x^%"}, names...)

// named is a schema in which one name is any of the above.
func named(d int, side string, place int) string {
	list := names
	if place == 1 {
		list = tableNames
	}
	n := list[sym.Choice(side+"name", len(list))]
	q := "\""
	if d >= MY {
		q = "`"
	}
	t := ""
	for i := 0; i < len(n); i++ {
		if n[i] == '%' {
			t += q
		} else {
			t += n[i : i+1]
		}
	}
	n = symbols(side, t)
	s := ""
	p := places[d]
	for i := 0; i < len(p); i++ {
		if p[i] != '~' {
			s += p[i : i+1]
			continue
		}
		i++
		if int(p[i]-'0') == place {
			s += n
		} else {
			s += [5]string{"", "tt", "cc", "nn", "ii"}[p[i]-'0']
		}
	}
	return s
}
