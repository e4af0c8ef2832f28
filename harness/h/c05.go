package h

import "github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"

// The objects named in the layouts.
var objectNames = []string{"a", "b", "c", "f", "i", "i2", "j", "k", "o", "p", "t", "t_pkey", "u", "v", "w", "wf", "x", "y", "z"}

// rendering is a way to write the same schema.
type rendering struct {
	gap    string // between all tokens
	words  int    // letter case of keywords: 0 as written, 1 lower, 2 one of them arbitrary
	quote  bool   // the names
	exists bool   // IF NOT EXISTS
	names  bool   // the default name of an unnamed table constraint
	types  bool   // other names of the data types
}

var typeAlias = [4]map[string]string{
	{"INT": "INTEGER", "INTEGER": "INT", "VARCHAR": "CHARACTER VARYING", "NUMERIC": "DECIMAL"},
	{"INTEGER": "INT4", "INT8": "BIGINT", "BIGINT": "INT8", "BOOL": "BOOLEAN", "STRING": "TEXT", "VARCHAR": "CHARACTER VARYING", "DECIMAL": "NUMERIC", "TIMESTAMPTZ": "TIMESTAMP WITH TIME ZONE"},
	{"INT": "INTEGER", "DECIMAL": "NUMERIC"},
	{},
}

// alias is the other name of the data type at token i.
func alias(d int, toks []refTok, i int) string {
	t := toks[i]
	if t.kind != 'w' || toks[i-1].kind != 'w' && toks[i-1].kind != 'i' {
		return ""
	}
	if d == PG && t.s == "TIMESTAMP" && toks[i+1].s != "WITH" {
		return "TIMESTAMP WITHOUT TIME ZONE"
	}
	return typeAlias[d][t.s]
}

func wordy(t refTok) bool { return t.kind == 'w' || t.kind == 'i' || t.kind == 'q' }

func isKeyword(t refTok) bool {
	if t.kind != 'w' || len(t.s) < 2 || t.s == "GENERATE_UUID" {
		return false
	}
	for i := 0; i < len(t.s); i++ {
		if !(t.s[i] >= 'A' && t.s[i] <= 'Z' || t.s[i] == '_' || i > 0 && t.s[i] >= '0' && t.s[i] <= '9') {
			return false
		}
	}
	return true
}

func lower(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 32
		}
	}
	return string(b)
}

// render writes the schema s anew.
func render(d int, s string, r rendering) string {
	toks, err := refLex(d, s)
	sym.Assert(err == "", "the layout is wrong")
	one := -1
	if r.words == 2 {
		one = sym.Choice("word", len(toks))
		sym.Assume(isKeyword(toks[one]))
	}
	out := ""
	table := ""
	depth := 0
	for i, t := range toks {
		text := t.s
		q := "\""
		if d >= MY {
			q = "`"
		}
		switch {
		case t.kind == 'i':
			text = q + t.s + q
		case t.kind == 'w' && r.quote && has(objectNames, t.s):
			text = q + t.s + q
		case r.types && i > 0 && alias(d, toks, i) != "":
			text = alias(d, toks, i)
		case i == one:
			text = sym.CaseVar("case", t.s)
		case r.words == 1 && isKeyword(t):
			text = lower(t.s)
		}
		if t.s == "(" {
			depth++
		}
		if t.s == ")" {
			depth--
		}
		if t.s == "TABLE" {
			table = toks[i+1].s
		}
		if r.names && depth == 1 && i > 0 && toks[i-1].s == "," {
			if n := defaultName(d, table, toks[i:]); n != "" {
				out += "CONSTRAINT " + n + " "
			}
		}
		out += text
		if r.exists && (t.s == "TABLE" || t.s == "INDEX" && depth == 0) {
			out += " IF NOT EXISTS"
		}
		if i+1 < len(toks) && !(len(t.s) == 1 && toks[i+1].kind == 'q' && t.kind == 'w') {
			out += r.gap
			if r.gap == "" && (wordy(t) && wordy(toks[i+1])) {
				out += " "
			}
		}
	}
	return out
}

// defaultName is the name of the unnamed table constraint that starts here.
func defaultName(d int, table string, t []refTok) string {
	cols := ""
	open := false
	for _, x := range t {
		if x.s == ")" {
			break
		}
		if open && x.kind != 'p' && x.s != "ASC" && x.s != "DESC" {
			cols += "_" + x.s
		}
		open = open || x.s == "("
	}
	switch {
	case t[0].s == "PRIMARY" && d < MY:
		return table + "_pkey"
	case t[0].s == "FOREIGN":
		return table + cols + "_fkey"
	case t[0].s == "UNIQUE" && t[1].s == "(":
		return table + "_unique" + cols
	case t[0].s == "CHECK" && d == MY:
		return table + "_chk"
	case t[0].s == "CHECK" && d == SP:
		return table + "_check"
	}
	return ""
}

// alike: the two texts declare the same schema, in both directions.
func alike(d int, s, t string) {
	sym.Observe("schema", s)
	sym.Observe("as", t)
	modelOf(d, s)
	a := mustParse(d, s)
	b := mustParse(d, t)
	m, same, err := diffText(a, b)
	sym.Observe("migration", m)
	sym.Assert(err == nil && same, "a difference between equal schemas: "+errStr(err))
	m, same, err = diffText(b, a)
	sym.Observe("migration", m)
	sym.Assert(err == nil && same, "a difference between equal schemas: "+errStr(err))
	sym.Reach("alike")
}

func rewritten(d int) {
	s, full := layouts[d].few("l")
	r := rendering{gap: " "}
	switch sym.Choice("rendering", 9) {
	case 0: // any white space
		r.gap = string([]byte{sym.ByteIn("blank", " \t\n\r")})
	case 1:
		r.gap = " \n\t-- ' \" ` ;\n"
	case 2: // none where none is needed
		r.gap = ""
	case 3:
		r.words = 1
	case 4:
		sym.Assume(full)
		r.words = 2
	case 5:
		r.quote = true
	case 6:
		r.exists = true
	case 7:
		r.names = true
	case 8:
		r.types = true
	}
	alike(d, s, render(d, s, r))
}

func C05_postgres_renderings()    { rewritten(PG) }
func C05_cockroachdb_renderings() { rewritten(CR) }
func C05_mysql_renderings()       { rewritten(MY) }
func C05_spanner_renderings()     { rewritten(SP) }

// The same schema with different symbolic parts is the same exactly when they are equal.
func itself(d int) { itselfOf(d, layouts[d].one("l")) }

func itselfOf(d int, s string) {
	sym.Observe("schema", s)
	modelOf(d, s)
	a, b := mustParse(d, s), mustParse(d, s)
	_, same, err := diffText(a, b)
	sym.Assert(err == nil && same, "a schema differs from itself")
	sym.Reach("alike")
}

func C05_postgres_itself()    { itself(PG) }
func C05_cockroachdb_itself() { itself(CR) }
func C05_mysql_itself()       { itself(MY) }
func C05_spanner_itself()     { itself(SP) }
