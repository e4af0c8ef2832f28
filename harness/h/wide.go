package h

import (
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"
)

// types, defaults and extras of the column b, table constraints and indexes: many forms of one thing, any two of which are compared.
var wideTypes = [4][]string{
	{"BOOLEAN", "SMALLINT", "INT", "INTEGER", "BIGINT", "DECIMAL(1#, #)", "DECIMAL", "NUMERIC", "NUMERIC(1#)", "NUMERIC(1#, #)", "REAL", "DOUBLE PRECISION", "SMALLSERIAL", "SERIAL", "BIGSERIAL", "UUID", "JSONB",
		"CHARACTER VARYING(1#)", "CHARACTER VARYING", "VARCHAR", "VARCHAR(1#)", "VARCHAR(#)", "TEXT", "TIMESTAMP", "TIMESTAMP WITHOUT TIME ZONE", "TIMESTAMP WITH TIME ZONE", "TIMESTAMPTZ"},
	{"BOOL", "INT2", "INT4", "INT8", "INT", "SMALLINT", "INTEGER", "BIGINT", "DECIMAL(1#, #)", "DECIMAL", "NUMERIC", "NUMERIC(1#)", "DECIMAL(1#)", "REAL", "DOUBLE PRECISION", "FLOAT4", "FLOAT8", "SMALLSERIAL", "SERIAL", "BIGSERIAL", "UUID", "JSONB",
		"CHARACTER VARYING(1#)", "VARCHAR", "VARCHAR(1#)", "VARCHAR(#)", "STRING", "STRING(#)", "TEXT", "TIMESTAMP", "TIMESTAMP WITH TIME ZONE", "TIMESTAMPTZ"},
	{"BOOLEAN", "BIT(1)", "BIT(#)", "TINYINT", "TINYINT(1)", "TINYINT(#)", "SMALLINT", "INT", "INTEGER", "BIGINT", "DECIMAL(1#, #)", "DECIMAL", "NUMERIC", "NUMERIC(1#)", "REAL", "DOUBLE", "DOUBLE PRECISION", "JSON", "CHAR(#)",
		"CHARACTER VARYING(1#)", "VARCHAR(1#)", "VARCHAR(#)", "TEXT", "MEDIUMTEXT", "LONGTEXT", "TIMESTAMP", "DATE", "TIME", "TIME(#)", "DATETIME", "DATETIME(#)", "ENUM('?')", "ENUM('^', '^')"},
	{"BOOL", "INT64", "NUMERIC", "FLOAT64", "JSON", "STRING(MAX)", "STRING(#)", "STRING(1#)", "TIMESTAMP", "ARRAY<STRING(#)>", "ARRAY<STRING(MAX)>", "ARRAY<INT64>", "ARRAY<ARRAY<INT64>>"},
}

var wideDefaults = [4][]string{
	{"", " DEFAULT true", " DEFAULT false", " DEFAULT NULL", " DEFAULT CURRENT_TIMESTAMP", " DEFAULT now()", " DEFAULT CURRENT_DATE", " DEFAULT #", " DEFAULT -#", " DEFAULT #.#", " DEFAULT '?'", " DEFAULT '^'", " DEFAULT ''", " DEFAULT '?''?'", " DEFAULT 'true'", " DEFAULT 'null'",
		" DEFAULT (# + #)", " DEFAULT (# - #)", " DEFAULT (a)", " DEFAULT (lower('^'))", " DEFAULT coalesce(lower('^'), '?')", " DEFAULT nextval('^'::regclass)", " DEFAULT '?'::text", " DEFAULT ('^' || '^')", " DEFAULT '{}'::jsonb"},
	{"", " DEFAULT true", " DEFAULT false", " DEFAULT NULL", " DEFAULT CURRENT_TIMESTAMP", " DEFAULT now()", " DEFAULT CURRENT_DATE", " DEFAULT #", " DEFAULT -#", " DEFAULT #.#", " DEFAULT '?'", " DEFAULT '^'", " DEFAULT ''", " DEFAULT '?''?'", " DEFAULT 'true'", " DEFAULT 'null'",
		" DEFAULT (# + #)", " DEFAULT (# - #)", " DEFAULT (a)", " DEFAULT (lower('^'))", " DEFAULT coalesce(lower('^'), '?')", " DEFAULT unique_rowid()", " DEFAULT '?':::STRING", " DEFAULT ('^' || '^')"},
	{"", " DEFAULT true", " DEFAULT false", " DEFAULT NULL", " DEFAULT CURRENT_TIMESTAMP", " DEFAULT now()", " DEFAULT CURRENT_TIMESTAMP(#)", " DEFAULT #", " DEFAULT #.#", " DEFAULT '?'", " DEFAULT '^'", " DEFAULT ''", " DEFAULT '?''?'", " DEFAULT 'true'", " DEFAULT 'null'",
		" DEFAULT (# + #)", " DEFAULT (lower('^'))", " DEFAULT b'1'", " DEFAULT b'0'"},
	{"", " DEFAULT (true)", " DEFAULT (false)", " DEFAULT (NULL)", " DEFAULT (CURRENT_TIMESTAMP())", " DEFAULT (#)", " DEFAULT (-#)", " DEFAULT (#.#)", " DEFAULT ('?')", " DEFAULT ('^')", " DEFAULT ('')", " DEFAULT (\"^\")", " DEFAULT ('true')", " DEFAULT (# + #)", " DEFAULT (# - #)", " DEFAULT (LOWER('^'))",
		" DEFAULT (CONCAT('^', LOWER('^')))", " DEFAULT (GENERATE_UUID())"},
}

var wideExtras = [4][]string{
	{"", " NOT NULL", " NULL"},
	{"", " NOT NULL", " NULL"},
	{"", " NOT NULL", " NULL", " COMMENT '?'", " COMMENT '^'", " COMMENT ''", " NOT NULL COMMENT '^'", " ON UPDATE CURRENT_TIMESTAMP", " NOT NULL ON UPDATE CURRENT_TIMESTAMP"},
	{"", " NOT NULL", " OPTIONS (allow_commit_timestamp = true)", " OPTIONS (allow_commit_timestamp = false)", " NOT NULL OPTIONS (allow_commit_timestamp = true)"},
}

// wideBefore stand between the type and the default.
var wideBefore = [4][]string{
	{""}, {""}, {"", " CHARACTER SET latin#", " COLLATE latin#_bin", " COLLATE utf8mb4_bin", " COLLATE utf8mb4_general_ci", " CHARACTER SET utf8mb4", " CHARACTER SET utf8mb4 COLLATE utf8mb4_bin"}, {""},
}

var wideConstraints = [4][]string{
	{"", "PRIMARY KEY (a)", "PRIMARY KEY (b)", "PRIMARY KEY (ab)", "PRIMARY KEY (a, b)", "PRIMARY KEY (b, a)", "PRIMARY KEY (a, b, ab)", "CONSTRAINT k PRIMARY KEY (a)", "CONSTRAINT k PRIMARY KEY (a, b)",
		"UNIQUE (a)", "UNIQUE (ab)", "UNIQUE (a, b)", "UNIQUE (b, a)", "UNIQUE (b, ab, a)", "CONSTRAINT k UNIQUE (a)", "CONSTRAINT k UNIQUE (a, b)", "CONSTRAINT k UNIQUE (ab)", "CONSTRAINT \"k\" UNIQUE (\"a\")", "CONSTRAINT K UNIQUE (a)",
		"CONSTRAINT k CHECK (a > #)", "CONSTRAINT k CHECK (a < #)", "CONSTRAINT k CHECK (a >= #)", "CONSTRAINT k CHECK (a <> #)", "CONSTRAINT k CHECK (a = -#)", "CONSTRAINT k CHECK (c = '?')", "CONSTRAINT k CHECK (c = '^')", "CONSTRAINT k CHECK (a IN (#, #))", "CONSTRAINT k CHECK (a > # AND b > #)", "CONSTRAINT k CHECK (a > # OR b > #)", "CONSTRAINT k CHECK ((a + b) * # > #)", "CONSTRAINT k CHECK (a + (b * #) > #)", "CONSTRAINT k CHECK (c IS NOT NULL)", "CONSTRAINT k CHECK (c IS NULL)", "CONSTRAINT k CHECK (lower(c) = '^')", "CONSTRAINT k CHECK (c || '^' <> '^')",
		"FOREIGN KEY (a) REFERENCES p (x)", "FOREIGN KEY (b) REFERENCES p (x)", "FOREIGN KEY (a) REFERENCES p (y)", "FOREIGN KEY (a, b) REFERENCES p (x, y)", "FOREIGN KEY (a, b) REFERENCES p (y, x)", "FOREIGN KEY (ab) REFERENCES p (xy)", "CONSTRAINT k FOREIGN KEY (a) REFERENCES p (x)", "CONSTRAINT k FOREIGN KEY (a) REFERENCES o (x)", "CONSTRAINT k FOREIGN KEY (a, b) REFERENCES p (x, y)", "CONSTRAINT k FOREIGN KEY (ab) REFERENCES p (xy)", "CONSTRAINT k FOREIGN KEY (a) REFERENCES t (b)",
		"CONSTRAINT k FOREIGN KEY (a) REFERENCES p (x) ON DELETE CASCADE", "CONSTRAINT k FOREIGN KEY (a) REFERENCES p (x) ON DELETE NO ACTION", "CONSTRAINT k FOREIGN KEY (a) REFERENCES p (x) ON UPDATE CASCADE", "CONSTRAINT k FOREIGN KEY (a) REFERENCES p (x) ON UPDATE NO ACTION"},
	{"", "PRIMARY KEY (a)", "PRIMARY KEY (b)", "PRIMARY KEY (ab)", "PRIMARY KEY (a, b)", "PRIMARY KEY (b, a)", "PRIMARY KEY (a ASC)", "PRIMARY KEY (a DESC)", "PRIMARY KEY (a, b DESC)", "CONSTRAINT k PRIMARY KEY (a)", "CONSTRAINT k PRIMARY KEY (a, b)",
		"UNIQUE INDEX k (a)", "UNIQUE INDEX k (a ASC)", "UNIQUE INDEX k (a DESC)", "UNIQUE INDEX k (ab)", "UNIQUE INDEX k (a, b)", "UNIQUE INDEX k (b, a)", "INDEX k (a)", "INDEX k (a DESC)", "INDEX k (a, b)", "INDEX k (ab)", "INDEX \"k\" (\"a\")", "UNIQUE INDEX k (a) USING HASH", "INDEX k (a) USING HASH", "INDEX k (a) USING HASH WITH (bucket_count=#)",
		"CONSTRAINT k CHECK (a > #)", "CONSTRAINT k CHECK (a < #)", "CONSTRAINT k CHECK (a >= #)", "CONSTRAINT k CHECK (a <> #)", "CONSTRAINT k CHECK (a = -#)", "CONSTRAINT k CHECK (c = '?')", "CONSTRAINT k CHECK (c = '^')", "CONSTRAINT k CHECK (a IN (#, #))", "CONSTRAINT k CHECK (a > # AND b > #)", "CONSTRAINT k CHECK (a > # OR b > #)", "CONSTRAINT k CHECK ((a + b) * # > #)", "CONSTRAINT k CHECK (a + (b * #) > #)", "CONSTRAINT k CHECK (c IS NOT NULL)", "CONSTRAINT k CHECK (c IS NULL)", "CONSTRAINT k CHECK (lower(c) = '^')",
		"FOREIGN KEY (a) REFERENCES p (x)", "FOREIGN KEY (b) REFERENCES p (x)", "FOREIGN KEY (a) REFERENCES p (y)", "FOREIGN KEY (a, b) REFERENCES p (x, y)", "FOREIGN KEY (a, b) REFERENCES p (y, x)", "FOREIGN KEY (ab) REFERENCES p (xy)", "CONSTRAINT k FOREIGN KEY (a) REFERENCES p (x)", "CONSTRAINT k FOREIGN KEY (a) REFERENCES o (x)", "CONSTRAINT k FOREIGN KEY (a, b) REFERENCES p (x, y)", "CONSTRAINT k FOREIGN KEY (ab) REFERENCES p (xy)", "CONSTRAINT k FOREIGN KEY (a) REFERENCES t (b)",
		"CONSTRAINT k FOREIGN KEY (a) REFERENCES p (x) ON DELETE CASCADE", "CONSTRAINT k FOREIGN KEY (a) REFERENCES p (x) ON DELETE NO ACTION", "CONSTRAINT k FOREIGN KEY (a) REFERENCES p (x) ON UPDATE CASCADE", "CONSTRAINT k FOREIGN KEY (a) REFERENCES p (x) ON UPDATE NO ACTION"},
	{"", "PRIMARY KEY (a)", "PRIMARY KEY (b)", "PRIMARY KEY (ab)", "PRIMARY KEY (a, b)", "PRIMARY KEY (b, a)", "CONSTRAINT k PRIMARY KEY (a)",
		"UNIQUE KEY k (a)", "UNIQUE INDEX k (a)", "UNIQUE KEY k (a DESC)", "UNIQUE KEY k (ab)", "UNIQUE KEY k (a, b)", "UNIQUE KEY k (b, a)", "KEY k (a)", "INDEX k (a)", "KEY k (a DESC)", "KEY k (a, b)", "KEY k (ab)", "KEY `k` (`a`)", "UNIQUE KEY j (a)", "UNIQUE (a)", "CONSTRAINT k UNIQUE (a)",
		"CONSTRAINT k CHECK (a > #)", "CONSTRAINT k CHECK (a < #)", "CONSTRAINT k CHECK (a >= #)", "CONSTRAINT k CHECK (a <> #)", "CONSTRAINT k CHECK (a = -#)", "CONSTRAINT k CHECK (c = '?')", "CONSTRAINT k CHECK (c = '^')", "CONSTRAINT k CHECK (a IN (#, #))", "CONSTRAINT k CHECK (a > # AND b > #)", "CONSTRAINT k CHECK (a > # OR b > #)", "CONSTRAINT k CHECK ((a + b) * # > #)", "CONSTRAINT k CHECK (a + (b * #) > #)", "CONSTRAINT k CHECK (c IS NOT NULL)", "CONSTRAINT k CHECK (c IS NULL)", "CONSTRAINT k CHECK (lower(c) = '^')", "CHECK (a > #)",
		"FOREIGN KEY (a) REFERENCES p (x)", "FOREIGN KEY (b) REFERENCES p (x)", "FOREIGN KEY (a) REFERENCES p (y)", "FOREIGN KEY (a, b) REFERENCES p (x, y)", "FOREIGN KEY (a, b) REFERENCES p (y, x)", "FOREIGN KEY (ab) REFERENCES p (xy)", "CONSTRAINT k FOREIGN KEY (a) REFERENCES p (x)", "CONSTRAINT k FOREIGN KEY (a) REFERENCES o (x)", "CONSTRAINT k FOREIGN KEY (a, b) REFERENCES p (x, y)", "CONSTRAINT k FOREIGN KEY (ab) REFERENCES p (xy)", "CONSTRAINT k FOREIGN KEY (a) REFERENCES t (b)",
		"CONSTRAINT k FOREIGN KEY (a) REFERENCES p (x) ON DELETE CASCADE", "CONSTRAINT k FOREIGN KEY (a) REFERENCES p (x) ON DELETE NO ACTION", "CONSTRAINT k FOREIGN KEY (a) REFERENCES p (x) ON UPDATE CASCADE", "CONSTRAINT k FOREIGN KEY (a) REFERENCES p (x) ON UPDATE NO ACTION", "CONSTRAINT k FOREIGN KEY (a) REFERENCES p (x) ON DELETE CASCADE ON UPDATE CASCADE"},
	{"", "CONSTRAINT k CHECK (a > #)", "CONSTRAINT k CHECK (a < #)", "CONSTRAINT k CHECK (a >= #)", "CONSTRAINT k CHECK (a <> #)", "CONSTRAINT k CHECK (a = -#)", "CONSTRAINT k CHECK (c = '?')", "CONSTRAINT k CHECK (c = \"^\")", "CONSTRAINT k CHECK (a IN (#, #))", "CONSTRAINT k CHECK (a > # AND b > #)", "CONSTRAINT k CHECK (a > # OR b > #)", "CONSTRAINT k CHECK ((a + b) * # > #)", "CONSTRAINT k CHECK (a + (b * #) > #)", "CONSTRAINT k CHECK (c IS NOT NULL)", "CONSTRAINT k CHECK (c IS NULL)", "CONSTRAINT k CHECK (LOWER(c) = '^')", "CHECK (a > #)",
		"FOREIGN KEY (a) REFERENCES p (x)", "FOREIGN KEY (b) REFERENCES p (x)", "FOREIGN KEY (a) REFERENCES p (y)", "FOREIGN KEY (a, b) REFERENCES p (x, y)", "FOREIGN KEY (a, b) REFERENCES p (y, x)", "FOREIGN KEY (ab) REFERENCES p (xy)", "CONSTRAINT k FOREIGN KEY (a) REFERENCES p (x)", "CONSTRAINT k FOREIGN KEY (a) REFERENCES o (x)", "CONSTRAINT k FOREIGN KEY (a, b) REFERENCES p (x, y)", "CONSTRAINT k FOREIGN KEY (ab) REFERENCES p (xy)", "CONSTRAINT k FOREIGN KEY (a) REFERENCES t (b)", "CONSTRAINT `k` FOREIGN KEY (`a`) REFERENCES p (x)"},
}

var wideIndexes = [4][]string{
	{"", "CREATE INDEX i ON t (a);", "CREATE INDEX i ON t (b);", "CREATE INDEX i ON t (ab);", "CREATE INDEX i ON t (a, b);", "CREATE INDEX i ON t (b, a);", "CREATE INDEX i ON t (a, b, ab);", "CREATE UNIQUE INDEX i ON t (a);", "CREATE UNIQUE INDEX i ON t (a, b);", "CREATE INDEX i ON p (x);", "CREATE INDEX i ON t USING btree (a);", "CREATE INDEX i ON t USING BTREE (a);", "CREATE INDEX i ON t USING gin (a);", "CREATE INDEX i ON t USING hash (a);", "CREATE INDEX \"i\" ON \"t\" (\"a\");", "CREATE INDEX ia ON t (a);", "CREATE INDEX I ON t (a);"},
	{"", "CREATE INDEX i ON t (a);", "CREATE INDEX i ON t (b);", "CREATE INDEX i ON t (ab);", "CREATE INDEX i ON t (a, b);", "CREATE INDEX i ON t (b, a);", "CREATE INDEX i ON t (a, b, ab);", "CREATE UNIQUE INDEX i ON t (a);", "CREATE UNIQUE INDEX i ON t (a, b);", "CREATE INDEX i ON p (x);", "CREATE INDEX i ON t USING btree (a);", "CREATE INDEX i ON t USING gin (a);", "CREATE INDEX \"i\" ON \"t\" (\"a\");", "CREATE INDEX ia ON t (a);", "CREATE INDEX i ON t (a ASC);", "CREATE INDEX i ON t (a DESC);", "CREATE INDEX i ON t (a, b DESC);", "CREATE INDEX i ON t (a) USING HASH;", "CREATE INDEX i ON t (a) USING HASH WITH (bucket_count=#);"},
	{"", "CREATE INDEX i ON t (a);", "CREATE INDEX i ON t (b);", "CREATE INDEX i ON t (ab);", "CREATE INDEX i ON t (a, b);", "CREATE INDEX i ON t (b, a);", "CREATE INDEX i ON t (a, b, ab);", "CREATE UNIQUE INDEX i ON t (a);", "CREATE UNIQUE INDEX i ON t (a, b);", "CREATE INDEX i ON p (x);", "CREATE INDEX `i` ON `t` (`a`);", "CREATE INDEX ia ON t (a);", "CREATE INDEX i ON t (a ASC);", "CREATE INDEX i ON t (a DESC);", "CREATE INDEX i ON t (a, b DESC);"},
	{"", "CREATE INDEX i ON t (a);", "CREATE INDEX i ON t (b);", "CREATE INDEX i ON t (ab);", "CREATE INDEX i ON t (a, b);", "CREATE INDEX i ON t (b, a);", "CREATE INDEX i ON t (a, b, ab);", "CREATE UNIQUE INDEX i ON t (a);", "CREATE UNIQUE INDEX i ON t (a, b);", "CREATE INDEX i ON p (x);", "CREATE INDEX `i` ON `t` (`a`);", "CREATE INDEX ia ON t (a);", "CREATE INDEX i ON t (a ASC);", "CREATE INDEX i ON t (a DESC);", "CREATE INDEX i ON t (a, b DESC);"},
}

var wideInt = [4]string{"INT", "INT4", "INT", "INT64"}

// wideSized is a type with an argument.
var wideSized = [4]string{"VARCHAR(9)", "STRING(9)", "VARCHAR(9)", "STRING(9)"}

var wideText = [4]string{
	"CREATE TABLE p (x INT, y INT, xy INT);CREATE TABLE o (x INT);CREATE TABLE t (a INT NOT NULL, $, ab INT, c TEXT$);",
	"CREATE TABLE p (x INT8, y INT8, xy INT8);CREATE TABLE o (x INT8);CREATE TABLE t (a INT8 NOT NULL, $, ab INT8, c STRING$);",
	"CREATE TABLE p (x INT, y INT, xy INT);CREATE TABLE o (x INT);CREATE TABLE t (a INT NOT NULL, $, ab INT, c VARCHAR(9)$);",
	"CREATE TABLE p (x INT64, y INT64, xy INT64) PRIMARY KEY (x);CREATE TABLE o (x INT64) PRIMARY KEY (x);CREATE TABLE t (a INT64 NOT NULL, $, ab INT64, c STRING(9)$) PRIMARY KEY (a);",
}

func pick(side string, list []string) string { return list[sym.Choice(side, len(list))] }

// wide is two schemas that differ in one thing at a time, each time any two of its many forms: the type, the default, or another
// part of a column, a constraint (beside another one that is there on either side), or an index.
func wide(d int) (before, after string) { return wideIn(d, sym.Choice("what", 4)) }

// wideTable is wide in the constraints and indexes only.
func wideTable(d int) (before, after string) { return wideIn(d, 2+sym.Choice("what", 2)) }

func wideIn(d, what int) (before, after string) {
	typ, def, extra, mid := wideInt[d], "", "", ""
	with2 := func(side, col, con, idx string) string {
		return symbols(side, with(with(wideText[d], "b "+col), con)+idx)
	}
	switch what {
	case 0: // the type, with or without another type-neutral part
		def = pick("def", []string{"", wideDefaults[d][3]})
		return with2("l", pick("left", wideTypes[d])+def, "", ""), with2("r", pick("right", wideTypes[d])+def, "", "")
	case 1: // the rest of the column
		if len(wideBefore[d]) > 1 {
			typ = "VARCHAR(9)"
		}
		l, r := "", ""
		switch sym.Choice("part", 3) {
		case 0:
			if sym.Bool("other") {
				typ, extra = wideSized[d], " NOT NULL"
			}
			l, r = pick("left", wideDefaults[d])+extra, pick("right", wideDefaults[d])+extra
		case 1:
			def = pick("def", []string{"", wideDefaults[d][1], wideDefaults[d][5]})
			l, r = def+pick("left", wideExtras[d]), def+pick("right", wideExtras[d])
		default:
			mid = pick("extra", wideExtras[d])
			l, r = pick("left", wideBefore[d])+mid, pick("right", wideBefore[d])+mid
		}
		return with2("l", typ+l, "", ""), with2("r", typ+r, "", "")
	case 2:
		con := func(side string) string {
			c := pick(side, wideConstraints[d])
			if c != "" {
				c = ", " + c
			}
			return c
		}
		return with2("l", typ, con("left"), ""), with2("r", typ, con("right"), "")
	default:
		return with2("l", typ, "", pick("left", wideIndexes[d])), with2("r", typ, "", pick("right", wideIndexes[d]))
	}
}

// wideOne is one schema with one of the many forms of one thing.
func wideOne(d int) string {
	typ, col, con, idx := wideInt[d], "", "", ""
	switch sym.Choice("what", 5) {
	case 0:
		col = pick("form", wideTypes[d]) + pick("def", []string{"", wideDefaults[d][3]}) + pick("extra", wideExtras[d])
	case 1:
		col = typ + pick("form", wideDefaults[d]) + pick("extra", wideExtras[d])
	case 2:
		if len(wideBefore[d]) > 1 {
			typ = "VARCHAR(9)"
		}
		col = typ + pick("form", wideBefore[d]) + pick("extra", wideExtras[d])
	case 3:
		col, con = typ, pick("form", wideConstraints[d])
		if con != "" {
			con = ", " + con
		}
	default:
		col, idx = typ, pick("form", wideIndexes[d])
	}
	return symbols("l", with(with(wideText[d], "b "+col), con)+idx)
}

// C03_*_wide: a table with any one of the types, defaults, other parts of a column, table constraints or indexes of a long list.
func C03_postgres_wide()    { faithful(PG, wideOne(PG)) }
func C03_cockroachdb_wide() { faithful(CR, wideOne(CR)) }
func C03_mysql_wide()       { faithful(MY, wideOne(MY)) }
func C03_spanner_wide()     { faithful(SP, wideOne(SP)) }

// C04_*_wide: a table with any one of the types, defaults, other parts of a column, table constraints or indexes of a long list.
func C04_postgres_wide()    { fixpoint(PG, wideOne(PG)) }
func C04_cockroachdb_wide() { fixpoint(CR, wideOne(CR)) }
func C04_mysql_wide()       { fixpoint(MY, wideOne(MY)) }
func C04_spanner_wide()     { fixpoint(SP, wideOne(SP)) }

// C05_*_wide: a table with any one of the types, defaults, other parts of a column, table constraints or indexes of a long list,
// compared with itself.
func C05_postgres_wide()    { itselfOf(PG, wideOne(PG)) }
func C05_cockroachdb_wide() { itselfOf(CR, wideOne(CR)) }
func C05_mysql_wide()       { itselfOf(MY, wideOne(MY)) }
func C05_spanner_wide()     { itselfOf(SP, wideOne(SP)) }

// C06_*_wide: a table in which one thing changes: any two of the types, defaults, other parts of a column, table constraints or
// indexes of a long list of forms (26, 25, 3, 49 and 17 in PostgreSQL), characters in them symbolic.
func C06_postgres_wide()    { b, a := wide(PG); converges(PG, b, a) }
func C06_cockroachdb_wide() { b, a := wide(CR); converges(CR, b, a) }
func C06_mysql_wide()       { b, a := wide(MY); converges(MY, b, a) }
func C06_spanner_wide()     { b, a := wide(SP); converges(SP, b, a) }

// C07_*_wide: as C06_*_wide.
func C07_postgres_wide()    { b, a := wide(PG); spares(PG, b, a) }
func C07_cockroachdb_wide() { b, a := wide(CR); spares(CR, b, a) }
func C07_mysql_wide()       { b, a := wide(MY); spares(MY, b, a) }
func C07_spanner_wide()     { b, a := wide(SP); spares(SP, b, a) }

// C08_*_wide: a table in which one thing changes: any two of the table constraints or indexes of a long list of forms.
func C08_postgres_wide()    { b, a := wideTable(PG); inOrder(PG, b, a) }
func C08_cockroachdb_wide() { b, a := wideTable(CR); inOrder(CR, b, a) }
func C08_mysql_wide()       { b, a := wideTable(MY); inOrder(MY, b, a) }
func C08_spanner_wide()     { b, a := wideTable(SP); inOrder(SP, b, a) }

// C09_*_wide: a table with any one of the types, defaults, other parts of a column, table constraints or indexes of a long list.
func C09_postgres_wide()    { fromAndToNothing(PG, wideOne(PG)) }
func C09_cockroachdb_wide() { fromAndToNothing(CR, wideOne(CR)) }
func C09_mysql_wide()       { fromAndToNothing(MY, wideOne(MY)) }
func C09_spanner_wide()     { fromAndToNothing(SP, wideOne(SP)) }

// dependents is two schemas: one has a column that the other has not, and any one of the constraints, indexes or row deletion
// policies of a long list; the other has another column, and nothing else or one such thing over that column.
func dependents(d int) (before, after string) {
	con, idx, last := "", "", ""
	forms := len(wideConstraints[d]) + len(wideIndexes[d])
	if d == SP {
		forms += len(spannerPolicies)
	}
	k := sym.Choice("form", forms)
	switch n := k - len(wideConstraints[d]); {
	case n < 0 && k > 0:
		con = ", " + wideConstraints[d][k]
	case n >= len(wideIndexes[d]):
		last = spannerPolicies[n-len(wideIndexes[d])]
	case n >= 0:
		idx = wideIndexes[d][n]
	}
	typ := wideInt[d]
	before = symbols("l", with(with(with(dependentText[d], "b "+typ+", ab "+typ+", c "+typ), con), last)+idx)
	cols := []string{"ab " + typ + ", c " + typ, "b " + typ + ", c " + typ, "b " + typ + ", ab " + typ}[sym.Choice("gone", 3)]
	over := dependentOver[d][sym.Choice("over", len(dependentOver[d]))]
	after = symbols("r", with(with(with(dependentText[d], cols+", n "+typ), over[0]), over[1])+over[2])
	if sym.Bool("back") {
		return after, before
	}
	return before, after
}

var spannerPolicies = []string{", ROW DELETION POLICY (OLDER_THAN(b, INTERVAL # DAY))", ", ROW DELETION POLICY (OLDER_THAN(ab, INTERVAL # DAY))", ", ROW DELETION POLICY (OLDER_THAN(a, INTERVAL # DAY))"}

var dependentText = [4]string{
	"CREATE TABLE p (x INT, y INT, xy INT);CREATE TABLE o (x INT);CREATE TABLE t (a INT NOT NULL, $$)$;",
	"CREATE TABLE p (x INT8, y INT8, xy INT8);CREATE TABLE o (x INT8);CREATE TABLE t (a INT8 NOT NULL, $$)$;",
	"CREATE TABLE p (x INT, y INT, xy INT);CREATE TABLE o (x INT);CREATE TABLE t (a INT NOT NULL, $$)$;",
	"CREATE TABLE p (x INT64, y INT64, xy INT64) PRIMARY KEY (x);CREATE TABLE o (x INT64) PRIMARY KEY (x);CREATE TABLE t (a INT64 NOT NULL, $$) PRIMARY KEY (a)$;",
}

var dependentOver = [4][][3]string{
	{{}, {", CONSTRAINT k CHECK (n > #)"}, {", CONSTRAINT k FOREIGN KEY (n) REFERENCES p (x)"}, {", CONSTRAINT k UNIQUE (n)"}, {", PRIMARY KEY (n)"}, {"", "", "CREATE INDEX i ON t (n);"}},
	{{}, {", CONSTRAINT k CHECK (n > #)"}, {", CONSTRAINT k FOREIGN KEY (n) REFERENCES p (x)"}, {", UNIQUE INDEX k (n)"}, {", PRIMARY KEY (n)"}, {"", "", "CREATE INDEX i ON t (n);"}},
	{{}, {", CONSTRAINT k CHECK (n > #)"}, {", CONSTRAINT k FOREIGN KEY (n) REFERENCES p (x)"}, {", UNIQUE KEY k (n)"}, {", PRIMARY KEY (n)"}, {", KEY i (n)"}},
	{{}, {", CONSTRAINT k CHECK (n > #)"}, {", CONSTRAINT k FOREIGN KEY (n) REFERENCES p (x)"}, {"", "", "CREATE UNIQUE INDEX i ON t (n);"}, {"", ", ROW DELETION POLICY (OLDER_THAN(n, INTERVAL # DAY))"}},
}

// C06_*_dependents: a column goes and another one comes (in either direction), with any one of a long list of constraints, indexes and
// row deletion policies over the columns on the one side, and nothing or one such thing over the new column on the other.
func C06_postgres_dependents()    { b, a := dependents(PG); converges(PG, b, a) }
func C06_cockroachdb_dependents() { b, a := dependents(CR); converges(CR, b, a) }
func C06_mysql_dependents()       { b, a := dependents(MY); converges(MY, b, a) }
func C06_spanner_dependents()     { b, a := dependents(SP); converges(SP, b, a) }

// C07_*_dependents: as C06_*_dependents.
func C07_postgres_dependents()    { b, a := dependents(PG); spares(PG, b, a) }
func C07_cockroachdb_dependents() { b, a := dependents(CR); spares(CR, b, a) }
func C07_mysql_dependents()       { b, a := dependents(MY); spares(MY, b, a) }
func C07_spanner_dependents()     { b, a := dependents(SP); spares(SP, b, a) }

// C08_*_dependents: as C06_*_dependents.
func C08_postgres_dependents()    { b, a := dependents(PG); inOrder(PG, b, a) }
func C08_cockroachdb_dependents() { b, a := dependents(CR); inOrder(CR, b, a) }
func C08_mysql_dependents()       { b, a := dependents(MY); inOrder(MY, b, a) }
func C08_spanner_dependents()     { b, a := dependents(SP); inOrder(SP, b, a) }

// sameIn asserts that two schemas that declare the same give no difference, however differently they say it.
func sameIn(d int, before, after string) {
	b, a := modelOf(d, before), modelOf(d, after)
	if b.diff(a, true) != "" {
		sym.Stop()
	}
	alike(d, before, after)
}

// C05_*_same: the pairs of C06_*_wide that declare the same schema in other words (defaults spelled out, quotes, aliases, letter case, symbols of
// equal value): one column with its type, default, null-ness and comment, one constraint or one index, on both sides.
func C05_postgres_same()    { b, a := wide(PG); sameIn(PG, b, a) }
func C05_cockroachdb_same() { b, a := wide(CR); sameIn(CR, b, a) }
func C05_mysql_same()       { b, a := wide(MY); sameIn(MY, b, a) }
func C05_spanner_same()     { b, a := wide(SP); sameIn(SP, b, a) }

// renames: the migration of the table t to the table u of the other schema leads there, and leaves both schemas as they were.
func renames(d int) {
	schema, renamed := "", ""
	if d != SP {
		schema = pick("schema", []string{"", "s."})
	}
	what := 2
	if sym.Tier() > 0 {
		what = sym.Choice("what", 3)
	}
	before, after := wideIn(d, what)
	before = strings.Replace(before, "TABLE t (", "TABLE "+schema+"t (", 1)
	if schema != "" && sym.Tier() > 0 && sym.Bool("qualified") {
		renamed = schema
	}
	after = strings.Replace(after, "TABLE t (", "TABLE "+renamed+"u (", 1)
	sym.Observe("before", before)
	sym.Observe("after", after)
	c := &change{d: d, before: modelOf(d, before), after: modelOf(d, strings.Replace(after, "TABLE "+renamed+"u", "TABLE "+schema+"u", 1))}
	c.a, c.b = mustParse(d, before), mustParse(d, after)
	s, t := c.a.String(), c.b.String()
	var err error
	c.text, c.same, err = diffTables(c.a, c.b, schema+"t", renamed+"u")
	sym.Observe("migration", c.text)
	sym.Assert(err == nil && !c.same, "the renaming fails: "+errStr(err))
	sym.Assert(sym.Eq(c.a.String(), s) && sym.Eq(c.b.String(), t), "the comparison changes a schema")
	stmts, e := statements(d, c.text)
	sym.Assert(e == "", "the migration is not readable: "+e)
	got, _ := settle(c.before, stmts)
	c.reaches("the migration leads elsewhere", got)
	sym.Reach("renamed")
}

// C06_*_rename: as C06_*_wide (constraints; thorough: and the column), compared with DiffCreateTable with the table under another name, the old name with or without a schema (thorough: and the new one).
func C06_postgres_rename()    { renames(PG) }
func C06_cockroachdb_rename() { renames(CR) }
func C06_mysql_rename()       { renames(MY) }
func C06_spanner_rename()     { renames(SP) }
