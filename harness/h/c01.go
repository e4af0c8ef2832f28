package h

import "github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"

// parseTotal: parsing returns, and a schema it returns prints and compares with itself.
func parseTotal(d int, s string) {
	sym.Observe("input", s)
	a, err := parse(d, s)
	if err != nil {
		sym.Reach("error")
		return
	}
	sym.Reach("schema")
	sym.Observe("printed", a.String())
	_, same, err := diffS(a, a)
	sym.Assert(err == nil && same, "a parsed schema differs from itself")
}

func anyText(d, n int) {
	k := sym.Choice("len", n+1)
	parseTotal(d, sym.Bytes("s", k, ""))
}

// Every byte string of length up to 4 (thorough 5), all 256 byte values.
func C01_postgres_anytext() { anyText(PG, 4+sym.Tier()) }

// Every byte string of length up to 4 (thorough 5), all 256 byte values.
func C01_cockroachdb_anytext() { anyText(CR, 4+sym.Tier()) }

// Every byte string of length up to 4 (thorough 5), all 256 byte values.
func C01_mysql_anytext() { anyText(MY, 4+sym.Tier()) }

// Every byte string of length up to 4 (thorough 5), all 256 byte values.
func C01_spanner_anytext() { anyText(SP, 4+sym.Tier()) }

var vocabulary = [4][]string{
	{"(", ")", ",", ";", "a", "1", "'x'", "\"q\"", "INT", "NUMERIC", "DOUBLE", "PRECISION", "CHARACTER", "VARYING", "TIMESTAMP", "WITH", "TIME", "ZONE",
		"NOT", "NULL", "DEFAULT", "PRIMARY", "KEY", "UNIQUE", "CHECK", "REFERENCES", "FOREIGN", "CONSTRAINT", "ON", "DELETE", "UPDATE", "CASCADE", "NO", "ACTION",
		"USING", "ASC", "DESC", "INDEX", "CREATE", "TABLE", "IF", "EXISTS", "=", ">", "||", "::", "-", "?", "'"},
	{"(", ")", ",", ";", "a", "1", "'x'", "\"q\"", "INT8", "STRING", "DOUBLE", "PRECISION", "CHARACTER", "VARYING", "TIMESTAMP", "WITH", "TIME", "ZONE",
		"NOT", "NULL", "DEFAULT", "PRIMARY", "KEY", "UNIQUE", "CHECK", "REFERENCES", "FOREIGN", "CONSTRAINT", "ON", "DELETE", "UPDATE", "CASCADE", "NO", "ACTION",
		"USING", "ASC", "DESC", "INDEX", "VISIBLE", "AS", "STORED", "VIRTUAL", "CREATE", "TABLE", "IF", "EXISTS", "=", ">", "||", "::", ":::", "-", "?", "'"},
	{"(", ")", ",", ";", "a", "1", "'x'", "`q`", "INT", "VARCHAR", "DOUBLE", "PRECISION", "CHARACTER", "VARYING", "TIMESTAMP", "ENUM", "BIT",
		"NOT", "NULL", "DEFAULT", "PRIMARY", "KEY", "UNIQUE", "CHECK", "REFERENCES", "FOREIGN", "CONSTRAINT", "ON", "DELETE", "UPDATE", "CASCADE", "RESTRICT", "NO", "ACTION", "SET",
		"USING", "ASC", "DESC", "INDEX", "AUTO_INCREMENT", "COMMENT", "CHARSET", "ENGINE", "COLLATE", "CURRENT_TIMESTAMP", "CREATE", "TABLE", "IF", "EXISTS", "=", ">", "-", "?", "'"},
	{"(", ")", ",", ";", "a", "1", "'x'", "`q`", "INT64", "STRING", "MAX", "ARRAY", "STRUCT", "TIMESTAMP",
		"NOT", "NULL", "DEFAULT", "PRIMARY", "KEY", "UNIQUE", "CHECK", "REFERENCES", "FOREIGN", "CONSTRAINT", "ON", "DELETE", "CASCADE", "NO", "ACTION",
		"USING", "ASC", "DESC", "INDEX", "OPTIONS", "INTERLEAVE", "IN", "PARENT", "ROW", "DELETION", "POLICY", "OLDER_THAN", "INTERVAL", "DAY", "CREATE", "TABLE", "IF", "EXISTS", "=", ">", "<", "-", "?", "'"},
}

var columnOf = [4]string{"a INT", "a INT8", "a INT", "a INT64"}

// wordsOf is n arbitrary words of the list.
func wordsOf(n int, words []string) string {
	s := ""
	for i := 0; i < n; i++ {
		s += sym.Word("w", words) + " "
	}
	return s
}

// beginnings are the parser states that arbitrary words are placed in, each with the words its own grammar uses.
var beginnings = []struct {
	text  string // $ is a column declaration
	words [4]string
}{
	{"", [4]string{"CREATE TABLE INDEX UNIQUE ( ) ; a IF ALTER", "CREATE TABLE INDEX UNIQUE ( ) ; a IF ALTER", "CREATE TABLE INDEX UNIQUE ( ) ; a IF ALTER", "CREATE TABLE INDEX UNIQUE ( ) ; a IF ALTER"}},
	{"CREATE TABLE ", [4]string{"IF NOT EXISTS a ( ) , ; 'x' TABLE", "IF NOT EXISTS a ( ) , ; 'x' TABLE", "IF NOT EXISTS a ( ) , ; 'x' TABLE", "IF NOT EXISTS a ( ) , ; 'x' TABLE"}},
	{"CREATE TABLE t (", [4]string{"a INT ( ) , ; CHECK CONSTRAINT PRIMARY KEY UNIQUE", "a INT8 ( ) , ; CHECK CONSTRAINT INDEX UNIQUE PRIMARY KEY", "a INT ( ) , ; CHECK CONSTRAINT KEY UNIQUE INDEX", "a INT64 ( ) , ; CHECK CONSTRAINT PRIMARY UNIQUE INTERLEAVE"}},
	{"CREATE TABLE t (a ", [4]string{"NUMERIC ( ) , 1 DOUBLE PRECISION TIMESTAMP WITH TIME ZONE VARYING CHARACTER", "STRING ( ) , 1 DOUBLE PRECISION TIMESTAMP WITH TIME ZONE VARYING CHARACTER", "VARCHAR ( ) , 1 'x' DOUBLE PRECISION ENUM CHARACTER VARYING BIT CHARSET", "STRING ( ) MAX , 1 ARRAY STRUCT < > TIMESTAMP INT64"}},
	{"CREATE TABLE t ($ ", [4]string{"NOT NULL DEFAULT 1 ( ) , PRIMARY KEY UNIQUE CHECK REFERENCES a", "NOT NULL DEFAULT 1 ( ) , PRIMARY KEY UNIQUE AS STORED VISIBLE VIRTUAL a", "NOT NULL DEFAULT 1 ( ) , AUTO_INCREMENT COMMENT 'x' ON UPDATE CURRENT_TIMESTAMP CHARSET COLLATE PRIMARY KEY UNIQUE", "NOT NULL DEFAULT 1 ( ) , OPTIONS = a PRIMARY KEY UNIQUE CHECK REFERENCES"}},
	{"CREATE TABLE t ($, ", [4]string{"CONSTRAINT a PRIMARY KEY UNIQUE ( ) , FOREIGN REFERENCES CHECK", "CONSTRAINT a PRIMARY KEY UNIQUE INDEX ( ) , FOREIGN REFERENCES CHECK ASC", "CONSTRAINT a PRIMARY KEY UNIQUE INDEX ( ) , FOREIGN REFERENCES CHECK ASC", "CONSTRAINT a PRIMARY KEY UNIQUE INDEX ( ) , FOREIGN REFERENCES CHECK ASC"}},
	{"CREATE TABLE t ($) ", [4]string{", ; ) ( a WITH CREATE TABLE", ", ; ) ( a WITH CREATE TABLE", "ENGINE = a , ; DEFAULT CHARSET COLLATE COMMENT 'x' AUTO_INCREMENT 1 ) CHARACTER SET", "PRIMARY KEY ( a ) , INTERLEAVE IN PARENT ON DELETE CASCADE ROW DELETION POLICY ;"}},
	{"CREATE TABLE t ($) PRIMARY KEY (a), ", [4]string{"", "", "", "INTERLEAVE IN PARENT a ON DELETE CASCADE NO ACTION ; , )"}},
	{"CREATE TABLE t ($) PRIMARY KEY (a), ROW DELETION POLICY ", [4]string{"", "", "", "( OLDER_THAN a , INTERVAL 1 DAY ) ;"}},
	{"CREATE INDEX i ON t ", [4]string{"( ) , a USING ASC DESC 1 ; 'x'", "( ) , a USING ASC DESC 1 ; NOT VISIBLE", "( ) , a USING ASC DESC 1 ; 'x'", "( ) , a USING ASC DESC 1 ; 'x'"}},
	{"CREATE TABLE t ($ DEFAULT ", [4]string{"( ) , 1 'x' a NULL NOT = :: INT || -", "( ) , 1 'x' a NULL NOT = :: ::: INT8 || -", "( ) , 1 'x' a NULL NOT = INT ON UPDATE CURRENT_TIMESTAMP -", "( ) , 1 'x' a NULL NOT = INT64 - > OPTIONS"}},
	{"CREATE TABLE t ($ CHECK (", [4]string{"( ) , = > < a NULL IN ;", "( ) , = > < a NULL IN ;", "( ) , = > < a NULL IN ;", "( ) , = > < a NULL IN ;"}},
	{"CREATE TABLE t ($, CHECK ", [4]string{"( ) , = a ;", "( ) , = a ;", "( ) , = a NOT ;", "( ) , = a ;"}},
	{"CREATE TABLE t ($, CONSTRAINT c ", [4]string{"PRIMARY KEY UNIQUE ( ) a , FOREIGN REFERENCES CHECK", "PRIMARY KEY UNIQUE INDEX ( ) a , FOREIGN REFERENCES CHECK", "PRIMARY KEY UNIQUE ( ) a , FOREIGN REFERENCES CHECK", "PRIMARY KEY UNIQUE ( ) a , FOREIGN REFERENCES CHECK"}},
	{"CREATE TABLE t ($, FOREIGN KEY (a) ", [4]string{"REFERENCES a ( ) ON DELETE CASCADE NO ACTION , UPDATE", "REFERENCES a ( ) ON DELETE CASCADE NO ACTION , UPDATE", "REFERENCES a ( ) ON DELETE CASCADE NO ACTION , UPDATE RESTRICT", "REFERENCES a ( ) ON DELETE CASCADE NO ACTION ,"}},
	{"CREATE TABLE t ($, FOREIGN KEY (a) REFERENCES p (a) ", [4]string{"ON DELETE UPDATE CASCADE NO ACTION , ) SET NULL", "ON DELETE UPDATE CASCADE NO ACTION , ) SET NULL", "ON DELETE UPDATE CASCADE NO ACTION , ) SET NULL", "ON DELETE UPDATE CASCADE NO ACTION , )"}},
	{"CREATE TABLE t ($ REFERENCES p ", [4]string{"( a ) ON DELETE UPDATE CASCADE NO ACTION ,", "( a ) ON DELETE UPDATE CASCADE NO ACTION ,", "( a ) ON DELETE UPDATE CASCADE NO ACTION ,", "( a ) ON DELETE UPDATE CASCADE NO ACTION ,"}},
	{"CREATE TABLE t ($, UNIQUE ", [4]string{"( a ) , c ; INDEX ASC", "INDEX KEY ( a ) , c ; ASC", "INDEX KEY ( a ) , c ; ASC", "INDEX KEY ( a ) , c ; ASC"}},
}

// allWords: any words of the whole vocabulary at every statement beginning.
func allWords(d, n int) {
	p := sym.Choice("beginning", len(beginnings))
	s := expand(d, beginnings[p].text) + wordsOf(n, vocabulary[d])
	if sym.Choice("suffix", 1+sym.Tier()) == 1 {
		s += ")"
	}
	parseTotal(d, s)
}

// ownWords: longer sequences of the words the beginning's own grammar uses.
func ownWords(d, n int) {
	p := sym.Choice("beginning", len(beginnings))
	w := beginnings[p].words[d]
	sym.Assume(w != "")
	parseTotal(d, expand(d, beginnings[p].text)+wordsOf(n, splitWords(w)))
}

func expand(d int, s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == '$' {
			return s[:i] + columnOf[d] + s[i+1:]
		}
	}
	return s
}

func splitWords(s string) []string {
	var r []string
	b := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == ' ' {
			if i > b {
				r = append(r, s[b:i])
			}
			b = i + 1
		}
	}
	return r
}

// Every statement beginning (18 parser states) followed by every sequence of 2 of the about 50 words of the vocabulary, cut
// off there (thorough: or closed with a parenthesis).
func C01_postgres_allwords() { allWords(PG, 2) }

// Every statement beginning followed by every sequence of 3 (thorough 5) of the 6 to 16 words its own grammar uses.
func C01_postgres_ownwords() { ownWords(PG, 3+2*sym.Tier()) }

// Every statement beginning (18 parser states) followed by every sequence of 2 of the about 50 words of the vocabulary, cut
// off there (thorough: or closed with a parenthesis).
func C01_cockroachdb_allwords() { allWords(CR, 2) }

// Every statement beginning followed by every sequence of 3 (thorough 5) of the 6 to 16 words its own grammar uses.
func C01_cockroachdb_ownwords() { ownWords(CR, 3+2*sym.Tier()) }

// Every statement beginning (18 parser states) followed by every sequence of 2 of the about 50 words of the vocabulary, cut
// off there (thorough: or closed with a parenthesis).
func C01_mysql_allwords() { allWords(MY, 2) }

// Every statement beginning followed by every sequence of 3 (thorough 5) of the 6 to 16 words its own grammar uses.
func C01_mysql_ownwords() { ownWords(MY, 3+2*sym.Tier()) }

// Every statement beginning (18 parser states) followed by every sequence of 2 of the about 50 words of the vocabulary, cut
// off there (thorough: or closed with a parenthesis).
func C01_spanner_allwords() { allWords(SP, 2) }

// Every statement beginning followed by every sequence of 3 (thorough 5) of the 6 to 16 words its own grammar uses.
func C01_spanner_ownwords() { ownWords(SP, 3+2*sym.Tier()) }
