package h

import "github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"

// A schema of each dialect with most of its syntax.
var editable = [4]string{
	"CREATE TABLE p (x INT, y INT); CREATE TABLE t (a INT NOT NULL DEFAULT 1, b VARCHAR(9) DEFAULT 'a' UNIQUE, c NUMERIC(9, 2) CHECK (c > 0), d INT REFERENCES p (x) ON DELETE CASCADE, CONSTRAINT k PRIMARY KEY (a, b), CONSTRAINT u UNIQUE (b, c), FOREIGN KEY (a, c) REFERENCES p (x, y)); CREATE UNIQUE INDEX i ON t USING btree (b, c);",
	"CREATE TABLE p (x INT8, y INT8); CREATE TABLE t (a INT8 NOT NULL DEFAULT 1, b VARCHAR(9) DEFAULT 'a' UNIQUE, c DECIMAL(9, 2) CHECK (c > 0), d INT8 REFERENCES p (x) ON DELETE CASCADE, CONSTRAINT k PRIMARY KEY (a ASC, b), UNIQUE INDEX u (b, c DESC), FOREIGN KEY (a, c) REFERENCES p (x, y)); CREATE UNIQUE INDEX i ON t (b, c DESC);",
	"CREATE TABLE p (x INT, y INT); CREATE TABLE t (a INT NOT NULL DEFAULT 1, b VARCHAR(9) COLLATE utf8mb4_bin DEFAULT 'a' UNIQUE COMMENT 'b', c DECIMAL(9, 2) CHECK (c > 0), d INT REFERENCES p (x) ON DELETE CASCADE, PRIMARY KEY (a, b), UNIQUE KEY u (b, c DESC), FOREIGN KEY (a, c) REFERENCES p (x, y)) ENGINE=InnoDB COMMENT='t'; CREATE UNIQUE INDEX i ON t (b, c DESC);",
	"CREATE TABLE p (x INT64, y INT64) PRIMARY KEY (x); CREATE TABLE t (a INT64 NOT NULL DEFAULT (1), b STRING(9) DEFAULT ('a'), c NUMERIC CHECK (c > 0), d INT64 REFERENCES p (x), CONSTRAINT u CHECK (a > 1), FOREIGN KEY (a, c) REFERENCES p (x, y)) PRIMARY KEY (a DESC, b), INTERLEAVE IN PARENT p ON DELETE CASCADE; CREATE UNIQUE INDEX i ON t (b, c DESC);",
}

var editWords = []string{",", "(", ")", ";", "a", "b", "9", "'a'", "NOT", "NULL", "DEFAULT", "UNIQUE", "PRIMARY", "KEY", "INDEX", "ON", "DESC", "CHECK", "REFERENCES", "CONSTRAINT", "INT", "t", "="}

// edited is the schema with one token left out, doubled, swapped with the next, or preceded or replaced by another word.
func edited(d int) string {
	toks, err := refLex(d, editable[d])
	sym.Assert(err == "", "the layout is wrong")
	at := sym.Choice("at", len(toks)-1)
	how := sym.Choice("how", 5)
	word := ""
	if how > 2 {
		if i := sym.Choice("word", len(editWords)+1); i < len(editWords) {
			word = editWords[i]
		} else {
			word = string([]byte{sym.ByteIn("c", "acxyzAZ019_ !#$%&()*+,-./:;<=>?@[]^{|}~'\"`\\")})
		}
	}
	s := ""
	for i, t := range toks {
		switch {
		case i == at && how == 0:
		case i == at && how == 1:
			s += t.s + " " + t.s
		case i == at && how == 2:
			s += toks[i+1].s
		case i == at+1 && how == 2:
			s += toks[at].s
		case i == at && how == 3:
			s += word + " " + t.s
		case i == at && how == 4:
			s += word
		default:
			s += t.s
		}
		s += " "
	}
	return s
}

// C03_edits: a schema with most of a dialect's syntax, about a hundred tokens, in which one token is left out, doubled, swapped with the
// next, or preceded or replaced by one of 23 others or any one character. If it still declares a schema, that is what is parsed or it is refused. If it does
// not, it is refused or nothing of it is lost: every name and literal in it is in what is parsed.
func C03_edits() {
	d := sym.Choice("dialect", 4)
	s := edited(d)
	sym.Observe("schema", s)
	a, err := parse(d, s)
	if err != nil {
		sym.Reach("refused")
		return
	}
	p := a.String()
	sym.Observe("printed", p)
	want, e := refSchema(d, s)
	if e != "" {
		lost := lostToken(d, s, p)
		sym.Assert(lost == "", "what is no declaration is accepted and "+lost+" left out")
		sym.Reach("lenient")
		return
	}
	got, e := refSchema(d, p)
	sym.Assert(e == "", "the parsed schema is not valid: "+e)
	m := want.diff(got, true)
	sym.Assert(m == "", "the parsed schema differs from the declared one: "+m)
	sym.Reach("same")
}

// lostToken is a name or literal that is more often in s than in p.
func lostToken(d int, s, p string) string {
	x, err := refLex(d, s)
	if err != "" {
		return ""
	}
	y, err := refLex(d, p)
	if err != "" {
		return "what is printed cannot be read: " + err + ";"
	}
	for _, w := range []string{"p", "t", "a", "b", "c", "d", "x", "y", "k", "u", "i", "1", "2", "9", "0", "'a'"} {
		if countToken(x, w) > countToken(y, w) {
			return w
		}
	}
	return ""
}

func countToken(toks []refTok, w string) int {
	n := 0
	for _, t := range toks {
		if t.s == w {
			n++
		}
	}
	return n
}
