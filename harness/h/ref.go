package h

// A reference database: it reads DDL text on its own (sharing no code with the parsers under
// test) and executes CREATE, ALTER and DROP statements on a plain model.

type refTok struct {
	s    string // text; quoted identifiers without their quotes
	kind byte   // w word, i quoted identifier, q string literal, p punctuation, 0 end
}

type refCol struct {
	name, typ, def                                    string
	notNull, autoInc, notVisible                      bool
	charset, collate, onAction, comment, options, gen string
}

type refCon struct {
	name, kind, body string // kind: PK UNIQUE INDEX FK CHECK
	cols             []string
	ref              string
	refCols          []string
}

type refIdx struct {
	name, table, body string
	cols              []string
}

type refTable struct {
	name string
	cols []*refCol
	cons []*refCon
	opts [][2]string
	aged []string // the column of the row deletion policy
}

type refDB struct {
	d      int
	tables []*refTable
	idxs   []*refIdx
	log    []refAct
	noOn   bool // a DROP INDEX without ON ran, which MySQL refuses
}

// refAct is what one executed statement did.
type refAct struct{ verb, table, kind, name string }

func refUpper(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] >= 'a' && s[i] <= 'z' {
			b := []byte(s)
			for j := i; j < len(b); j++ {
				if b[j] >= 'a' && b[j] <= 'z' {
					b[j] -= 32
				}
			}
			return string(b)
		}
	}
	return s
}

// refLex cuts the text into tokens.
func refLex(d int, s string) ([]refTok, string) {
	var out []refTok
	p := 0
	for {
		p = skipBlank(s, p)
		if p >= len(s) {
			return out, ""
		}
		c := s[p]
		switch {
		case isQuote(d, c):
			e := quoteEnd(d, s, p)
			if e < 0 {
				return nil, "unterminated quote"
			}
			if c == '`' || c == '"' && d < MY {
				out = append(out, refTok{s[p+1 : e-1], 'i'})
			} else {
				out = append(out, refTok{s[p:e], 'q'})
			}
			p = e
		case isWord(c):
			e := p
			for e < len(s) && isWord(s[e]) {
				e++
			}
			out = append(out, refTok{s[p:e], 'w'})
			p = e
		case c == ':' || c == '|' || c == '<' || c == '>' || c == '=':
			e := p
			for e < len(s) && (s[e] == c || c != ':' && c != '|' && (s[e] == '<' || s[e] == '>' || s[e] == '=')) {
				e++
			}
			out = append(out, refTok{s[p:e], 'p'})
			p = e
		default:
			out = append(out, refTok{s[p : p+1], 'p'})
			p++
		}
	}
}

type refParser struct {
	db  *refDB
	t   []refTok
	p   int
	err string
}

func (r *refParser) fail(msg string) {
	if r.err == "" {
		near := ""
		for i := r.p; i < len(r.t) && i < r.p+4; i++ {
			near += " " + r.t[i].s
		}
		r.err = msg + " near" + near
	}
}

func (r *refParser) at(i int) refTok {
	if r.p+i < len(r.t) {
		return r.t[r.p+i]
	}
	return refTok{}
}

// is tells whether the next tokens are the given words.
func (r *refParser) is(words ...string) bool {
	for i, w := range words {
		t := r.at(i)
		if t.kind != 'w' && t.kind != 'p' || len(t.s) != len(w) || refUpper(t.s) != w {
			return false
		}
	}
	return true
}

func (r *refParser) take(words ...string) bool {
	if r.is(words...) {
		r.p += len(words)
		return true
	}
	return false
}

func (r *refParser) need(words ...string) {
	if !r.take(words...) {
		r.fail("expected " + words[0])
	}
}

func (r *refParser) name() string {
	t := r.at(0)
	if t.kind != 'w' && t.kind != 'i' && !(t.kind == 'q' && r.db.d >= MY && t.s[0] == '"') {
		r.fail("expected a name")
		return ""
	}
	r.p++
	if t.kind == 'q' {
		return t.s[1 : len(t.s)-1]
	}
	return t.s
}

// columns reads (a, b DESC).
func (r *refParser) columns() (cols []string, body string) {
	r.need("(")
	for r.err == "" {
		n := r.name()
		cols = append(cols, n)
		if body != "" {
			body += ","
		}
		body += n
		if r.take("DESC") {
			body += " DESC"
		} else {
			r.take("ASC")
		}
		if r.take(",") {
			continue
		}
		r.need(")")
		return cols, body
	}
	return
}

func (r *refParser) canon(t refTok) string {
	if t.kind == 'w' && (len(t.s) == 4 || len(t.s) == 5) {
		if u := refUpper(t.s); u == "NULL" || u == "TRUE" || u == "FALSE" {
			return u
		}
	}
	if t.kind == 'i' {
		return "\"" + t.s + "\""
	}
	if t.kind == 'q' && t.s[0] == '"' { // the same string in the other quotes
		body := t.s[1 : len(t.s)-1]
		for i := 0; i < len(body); i++ {
			if body[i] == '\'' || body[i] == '"' || body[i] == '\\' {
				return t.s
			}
		}
		return "'" + body + "'"
	}
	return t.s
}

func isCompare(t refTok) bool {
	return t.kind == 'p' && len(t.s) > 0 && (t.s[0] == '<' || t.s[0] == '>' || t.s[0] == '=')
}

// group reads a parenthesised expression.
func (r *refParser) group() string {
	depth := 0
	s := ""
	for {
		t := r.at(0)
		if t.kind == 0 || depth == 0 && t.s != "(" {
			r.fail("expected (")
			return s
		}
		if r.p > 0 && isCompare(t) && isCompare(r.at(-1)) {
			r.fail("two comparisons in a row")
			return s
		}
		s += " " + r.canon(t)
		r.p++
		if t.kind == 'p' && t.s == "(" {
			depth++
		}
		if t.kind == 'p' && t.s == ")" {
			depth--
			if depth == 0 {
				return s
			}
		}
	}
}

var refAttr = []string{"NOT", "NULL", "DEFAULT", "PRIMARY", "UNIQUE", "CHECK", "REFERENCES", "CONSTRAINT", "COMMENT", "ON", "AUTO_INCREMENT", "OPTIONS", "AS", "STORED", "VIRTUAL", "CHARACTER", "COLLATE"}

// expr reads a default: everything up to the next column attribute, comma or closing parenthesis. Its first operand, and
// the operand of an operator, may be NULL.
func (r *refParser) expr() string {
	s := ""
	operand := true
	for r.err == "" {
		t := r.at(0)
		if t.kind == 0 || t.kind == 'p' && (t.s == "," || t.s == ")" || t.s == ";") {
			break
		}
		if t.kind == 'p' && t.s == "(" {
			s += r.group()
			operand = false
			continue
		}
		if t.kind == 'w' {
			stop := false
			u := refUpper(t.s)
			for _, w := range refAttr {
				if u == w && !(operand && w == "NULL") {
					stop = true
				}
			}
			if stop {
				break
			}
		}
		s += " " + r.canon(t)
		operand = t.kind == 'p'
		r.p++
	}
	if s == "" {
		r.fail("expected an expression")
	}
	return s
}

var refSynonym = [4]map[string]string{
	{"INT": "INTEGER", "VARCHAR": "CHARACTER VARYING", "DECIMAL": "NUMERIC", "TIMESTAMPTZ": "TIMESTAMP WITH TIME ZONE"},
	{"BOOLEAN": "BOOL", "SMALLINT": "INT2", "INTEGER": "INT4", "INT": "INT4", "BIGINT": "INT8", "TEXT": "STRING", "CHARACTER VARYING": "VARCHAR",
		"DOUBLE PRECISION": "FLOAT8", "TIMESTAMP WITH TIME ZONE": "TIMESTAMPTZ", "NUMERIC": "DECIMAL"},
	{"INT": "INTEGER", "NUMERIC": "DECIMAL", "CHARACTER VARYING": "VARCHAR"},
	{},
}

func (r *refParser) typ() string {
	s := refUpper(r.name())
	switch s {
	case "CHARACTER":
		if r.take("VARYING") {
			s += " VARYING"
		}
	case "DOUBLE":
		if r.take("PRECISION") {
			s += " PRECISION"
		}
	case "TIMESTAMP":
		if r.take("WITH", "TIME", "ZONE") {
			s += " WITH TIME ZONE"
		} else if r.db.d == PG {
			r.take("WITHOUT", "TIME", "ZONE")
		}
	}
	if c, ok := refSynonym[r.db.d][s]; ok {
		s = c
	}
	if r.db.d == MY && s == "BOOLEAN" {
		return "TINYINT ( 1 )"
	}
	if r.is("(") {
		g := refUpperWords(r.group())
		if g == " ( )" {
			r.fail("expected the size of the type")
		}
		s += g
	}
	return s
}

func refUpperWords(s string) string {
	if s == " ( max )" {
		return " ( MAX )"
	}
	return s
}

func join(a []string, sep string) string {
	s := ""
	for i, x := range a {
		if i > 0 {
			s += sep
		}
		s += x
	}
	return s
}

func (r *refParser) onActions() string {
	del, upd := "", ""
	for r.take("ON") {
		w := &del
		if r.take("UPDATE") {
			w = &upd
		} else {
			r.need("DELETE")
		}
		switch {
		case r.take("CASCADE"):
			*w = "CASCADE"
		case r.take("RESTRICT"):
			*w = "RESTRICT"
		case r.take("SET", "NULL"):
			*w = "SET NULL"
		default:
			r.need("NO", "ACTION")
			*w = "NO ACTION"
		}
	}
	return del + "/" + upd
}

func (r *refParser) references(c *refCon) {
	c.kind = "FK"
	c.ref = r.name()
	var rb string
	c.refCols, rb = r.columns()
	c.body = join(c.cols, ",") + " -> " + c.ref + "(" + rb + ") " + r.onActions()
}

// column reads a column definition; inline constraints are appended to the table.
func (r *refParser) column(t *refTable) *refCol {
	d := r.db.d
	c := &refCol{name: r.name()}
	c.typ = r.typ()
	last := lastPart(t.name)
	for r.err == "" {
		switch {
		case r.take("NOT", "NULL"):
			c.notNull = true
		case r.take("NULL"):
			c.notNull = false
		case d == CR && r.take("NOT", "VISIBLE"):
			c.notVisible = true
		case r.take("DEFAULT"):
			c.def = r.expr()
		case d == CR && r.take("AS"):
			c.gen = r.expr()
			if r.take("STORED") {
				c.gen += " STORED"
			} else {
				r.need("VIRTUAL")
				c.gen += " VIRTUAL"
			}
		case d == MY && r.take("AUTO_INCREMENT"):
			c.autoInc = true
		case d == MY && r.take("CHARACTER", "SET"):
			c.charset = r.name()
		case d == MY && r.take("COLLATE"):
			c.collate = r.name()
		case d == MY && r.take("COMMENT"):
			c.comment = r.at(0).s
			r.p++
		case d == MY && r.is("ON"):
			r.need("ON", "UPDATE", "CURRENT_TIMESTAMP")
			c.onAction = "ON UPDATE CURRENT_TIMESTAMP"
		case d == SP && r.take("OPTIONS"):
			c.options = r.group()
		case d != SP && r.take("PRIMARY", "KEY"):
			t.add(r, &refCon{name: pkName(d, last), kind: "PK", cols: []string{c.name}, body: c.name}, true)
		case d != SP && r.take("UNIQUE"):
			t.add(r, &refCon{name: last + "_unique_" + c.name, kind: "UNIQUE", cols: []string{c.name}, body: c.name}, true)
		case r.take("CHECK"):
			t.add(r, &refCon{name: last + "_" + c.name + "_check", kind: "CHECK", cols: []string{c.name}, body: r.group()}, true)
		case r.take("REFERENCES"):
			k := &refCon{name: last + "_" + c.name + "_fkey", cols: []string{c.name}}
			r.references(k)
			t.add(r, k, true)
		default:
			t.cols = append(t.cols, c)
			return c
		}
	}
	return c
}

func lastPart(s string) string {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '.' {
			return s[i+1:]
		}
	}
	return s
}

func pkName(d int, table string) string {
	if d == MY {
		return "PRIMARY KEY"
	}
	return table + "_pkey"
}

// add appends a constraint; a name given by default is made unique as databases do.
func (t *refTable) add(r *refParser, c *refCon, dflt bool) {
	base := c.name
	for n := 1; ; n++ {
		o := t.con(c.name)
		if o == nil {
			break
		}
		if dflt && o.kind == c.kind && o.body == c.body {
			return
		}
		if !dflt {
			r.fail("constraint " + c.name + " exists")
			return
		}
		c.name = base + string(rune('0'+n))
	}
	t.cons = append(t.cons, c)
}

func (t *refTable) con(name string) *refCon {
	for _, c := range t.cons {
		if c.name == name {
			return c
		}
	}
	return nil
}

func (t *refTable) col(name string) *refCol {
	for _, c := range t.cols {
		if c.name == name {
			return c
		}
	}
	return nil
}

func (db *refDB) table(name string) *refTable {
	for _, t := range db.tables {
		if t.name == name {
			return t
		}
	}
	return nil
}

// isConstraintStart tells a table constraint from a column.
func (r *refParser) isConstraintStart() bool {
	if r.at(0).kind != 'w' {
		return false
	}
	return r.is("CONSTRAINT") || r.is("PRIMARY", "KEY") || r.is("FOREIGN", "KEY") || r.is("UNIQUE") || r.is("CHECK") ||
		r.db.d >= CR && r.is("INDEX") || r.db.d == MY && r.is("KEY")
}

func (r *refParser) constraint(t *refTable) {
	d := r.db.d
	c := &refCon{}
	named := r.take("CONSTRAINT")
	if named {
		c.name = r.name()
	}
	last := lastPart(t.name)
	dflt := ""
	switch {
	case d != SP && r.take("PRIMARY", "KEY"):
		c.kind = "PK"
		c.cols, c.body = r.columns()
		dflt = pkName(d, last)
		if d == MY {
			c.name = dflt
		}
	case r.take("FOREIGN", "KEY"):
		c.cols, _ = r.columns()
		r.need("REFERENCES")
		r.references(c)
		dflt = last + "_" + join(c.cols, "_") + "_fkey"
	case (d == PG || d == CR && !r.is("UNIQUE", "INDEX")) && r.take("UNIQUE"):
		c.kind = "UNIQUE"
		c.cols, c.body = r.columns()
		dflt = last + "_unique_" + join(c.cols, "_")
	case d == CR && (r.is("UNIQUE", "INDEX") || r.is("INDEX")), d == MY && (r.is("UNIQUE") || r.is("INDEX") || r.is("KEY")):
		c.kind = "INDEX"
		if r.take("UNIQUE") {
			c.kind = "UNIQUE"
		}
		if !r.take("INDEX") {
			r.need("KEY")
		}
		c.name = r.name()
		named = true
		c.cols, c.body = r.columns()
		if d == CR {
			c.body += r.using()
		}
	case r.take("CHECK"):
		c.kind = "CHECK"
		c.body = r.group()
		if d == MY {
			dflt = last + "_chk"
		} else {
			dflt = last + "_check"
		}
	default:
		r.fail("expected a constraint")
		return
	}
	if c.name == "" {
		c.name = dflt
	}
	if d == PG && r.take("NOT", "VALID") {
		c.body += " NOT VALID"
	}
	t.add(r, c, !named)
}

func (r *refParser) using() string {
	s := ""
	if r.take("USING") {
		s += " USING " + r.name()
		if r.take("WITH") {
			s += " WITH" + r.group()
		}
	}
	return s
}

func (r *refParser) end() {
	if r.p < len(r.t) && !r.take(";") {
		r.fail("trailing text")
	}
}

// checkCols fails unless the table has the columns.
func (r *refParser) checkCols(t *refTable, cols []string) {
	for _, c := range cols {
		if t.col(c) == nil {
			r.fail("column " + c + " of " + t.name + " does not exist")
		}
	}
}

func (r *refParser) checkCon(t *refTable, c *refCon) {
	if c.kind != "CHECK" {
		r.checkCols(t, c.cols)
	}
	if c.kind == "FK" {
		p := r.db.table(c.ref)
		if p == nil {
			r.fail("table " + c.ref + " does not exist")
			return
		}
		r.checkCols(p, c.refCols)
	}
	n := 0
	for _, o := range t.cons {
		if o.kind == "PK" {
			n++
		}
	}
	if n > 1 {
		r.fail("two primary keys on " + t.name)
	}
}

func (r *refParser) createTable() {
	db := r.db
	ifne := r.take("IF", "NOT", "EXISTS")
	t := &refTable{name: r.name()}
	r.need("(")
	for r.err == "" {
		if r.isConstraintStart() {
			r.constraint(t)
		} else {
			c := r.column(t)
			for _, o := range t.cols[:max(len(t.cols)-1, 0)] {
				if o.name == c.name {
					r.fail("column " + c.name + " twice")
				}
			}
		}
		if r.take(",") {
			continue
		}
		r.need(")")
		break
	}
	r.options(t)
	r.end()
	if r.err != "" {
		return
	}
	if db.table(t.name) != nil {
		if !ifne {
			r.fail("table " + t.name + " exists")
		}
		return
	}
	db.tables = append(db.tables, t)
	r.checkCols(t, t.aged)
	for _, c := range t.cons {
		r.checkCon(t, c)
	}
	for _, o := range t.opts {
		if o[0] == "INTERLEAVE" && db.table(parentOf(o[1])) == nil {
			r.fail("parent " + parentOf(o[1]) + " does not exist")
		}
	}
	db.did("CREATE TABLE", t.name, "", "")
}

func parentOf(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == ' ' {
			return s[:i]
		}
	}
	return s
}

func (db *refDB) did(verb, table, kind, name string) {
	db.log = append(db.log, refAct{verb, table, kind, name})
}

func (t *refTable) setOpt(k, v string) {
	for i := range t.opts {
		if t.opts[i][0] == k {
			t.opts[i][1] = v
			return
		}
	}
	t.opts = append(t.opts, [2]string{k, v})
}

func (t *refTable) opt(k string) string {
	for i := range t.opts {
		if t.opts[i][0] == k {
			return t.opts[i][1]
		}
	}
	return ""
}

// options reads what follows the column list.
func (r *refParser) options(t *refTable) {
	comma := false
	for more := true; more && r.err == ""; {
		switch {
		case r.db.d == MY && (r.is("ENGINE") || r.is("COLLATE") || r.is("COMMENT") || r.is("AUTO_INCREMENT") || r.is("DEFAULT", "CHARSET")):
			r.mysqlOption(t)
			comma = r.take(",")
			continue
		case r.db.d == SP && r.take("PRIMARY", "KEY"):
			_, b := r.columns()
			t.setOpt("PK", b)
		case r.db.d == SP && r.take("INTERLEAVE", "IN", "PARENT"):
			v := r.name()
			v += " " + r.onActions()
			t.setOpt("INTERLEAVE", v)
		case r.db.d == SP && r.take("ROW", "DELETION", "POLICY"):
			r.policy(t)
		default:
			if comma {
				r.fail("expected a table option")
			}
			return
		}
		comma = r.take(",")
		more = comma
	}
}

// policy reads (OLDER_THAN(column, INTERVAL n DAY)).
func (r *refParser) policy(t *refTable) {
	t.aged = []string{r.at(3).s}
	t.setOpt("RDP", refUpper(r.group()))
}

func (r *refParser) mysqlOption(t *refTable) {
	r.take("DEFAULT")
	k := refUpper(r.name())
	r.need("=")
	v := r.at(0).s
	r.p++
	if k != "AUTO_INCREMENT" {
		t.setOpt(k, v)
	}
}

func (r *refParser) createIndex(unique bool) {
	db := r.db
	ifne := r.take("IF", "NOT", "EXISTS")
	x := &refIdx{name: r.name()}
	r.need("ON")
	x.table = r.name()
	pre := r.using()
	var body string
	x.cols, body = r.columns()
	if unique {
		x.body = "UNIQUE "
	}
	method := pre
	if db.d == CR {
		method += r.using()
	}
	if db.d == PG && refUpper(method) == " USING BTREE" { // the default
		method = ""
	}
	x.body += x.table + "(" + body + ")" + method
	r.end()
	if r.err != "" {
		return
	}
	if db.index(x.name) != nil {
		if !ifne {
			r.fail("index " + x.name + " exists")
		}
		return
	}
	t := db.table(x.table)
	if t == nil {
		r.fail("table " + x.table + " does not exist")
		return
	}
	r.checkCols(t, x.cols)
	db.did("CREATE INDEX", x.table, "INDEX", x.name)
	if db.d == MY || db.d == CR { // an index of the table, however it was declared
		kind := "INDEX"
		if unique {
			kind = "UNIQUE"
		}
		if c := t.con(lastPart(x.name)); c != nil {
			r.fail("index " + x.name + " exists")
			return
		}
		t.cons = append(t.cons, &refCon{name: lastPart(x.name), kind: kind, body: body + method, cols: x.cols})
		return
	}
	db.idxs = append(db.idxs, x)
}

func (db *refDB) index(name string) *refIdx {
	for _, x := range db.idxs {
		if x.name == name {
			return x
		}
	}
	return nil
}

func (r *refParser) dropIndex() {
	db := r.db
	ife := r.take("IF", "EXISTS")
	n := r.name()
	on := ""
	if db.d == MY && r.take("ON") {
		on = r.name()
	}
	r.end()
	if r.err != "" {
		return
	}
	db.noOn = db.noOn || db.d == MY && on == ""
	for i, x := range db.idxs {
		if x.name == n {
			db.did("DROP INDEX", x.table, "INDEX", n)
			db.idxs = append(append([]*refIdx{}, db.idxs[:i]...), db.idxs[i+1:]...)
			return
		}
	}
	if db.d == MY || db.d == CR {
		for _, t := range db.tables {
			for i, c := range t.cons {
				if c.name == lastPart(n) && (c.kind == "INDEX" || c.kind == "UNIQUE") && (on == "" || on == t.name) {
					db.did("DROP INDEX", t.name, "INDEX", n)
					t.cons = append(append([]*refCon{}, t.cons[:i]...), t.cons[i+1:]...)
					return
				}
			}
		}
	}
	if !ife {
		r.fail("index " + n + " does not exist")
	}
}

func (r *refParser) dropTable() {
	db := r.db
	ife := r.take("IF", "EXISTS")
	n := r.name()
	r.end()
	if r.err != "" {
		return
	}
	t := db.table(n)
	if t == nil {
		if !ife {
			r.fail("table " + n + " does not exist")
		}
		return
	}
	for _, o := range db.tables {
		if o == t {
			continue
		}
		for _, c := range o.cons {
			if c.kind == "FK" && c.ref == n {
				r.fail("table " + n + " is referenced by " + o.name)
			}
		}
		if o.opt("INTERLEAVE") != "" && parentOf(o.opt("INTERLEAVE")) == n {
			r.fail("table " + n + " has the interleaved table " + o.name)
		}
	}
	var keep []*refIdx
	for _, x := range db.idxs {
		if x.table == n {
			if db.d == SP {
				r.fail("table " + n + " has the index " + x.name)
			}
			continue
		}
		keep = append(keep, x)
	}
	db.idxs = keep
	var ts []*refTable
	for _, o := range db.tables {
		if o != t {
			ts = append(ts, o)
		}
	}
	db.tables = ts
	db.did("DROP TABLE", n, "", "")
}

func has(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}

// dropColumn follows the dialect: what depends on the column goes with it, is shrunk, or forbids it.
func (r *refParser) dropColumn(t *refTable, n string) {
	db := r.db
	if t.col(n) == nil {
		r.fail("column " + n + " of " + t.name + " does not exist")
		return
	}
	for _, o := range db.tables {
		for _, c := range o.cons {
			if c.kind == "FK" && c.ref == t.name && has(c.refCols, n) {
				r.fail("column " + n + " is referenced by " + c.name)
			}
		}
	}
	if has(t.aged, n) {
		r.fail("column " + n + " is used by the row deletion policy")
	}
	var cons []*refCon
	for _, c := range t.cons {
		if c.kind != "CHECK" && has(c.cols, n) || c.kind == "CHECK" && len(c.cols) == 1 && c.cols[0] == n {
			if db.d == SP || db.d == MY && (c.kind == "FK" || c.kind == "CHECK") {
				r.fail("column " + n + " is used by " + c.name)
			}
			if db.d == MY && len(c.cols) > 1 {
				k := *c
				k.cols = nil
				for _, x := range c.cols {
					if x != n {
						k.cols = append(k.cols, x)
					}
				}
				k.body = join(k.cols, ",")
				cons = append(cons, &k)
			}
			continue
		}
		cons = append(cons, c)
	}
	t.cons = cons
	var keep []*refIdx
	for _, x := range db.idxs {
		if x.table == t.name && has(x.cols, n) {
			if db.d == SP {
				r.fail("column " + n + " is used by " + x.name)
			}
			continue
		}
		keep = append(keep, x)
	}
	db.idxs = keep
	var cols []*refCol
	for _, c := range t.cols {
		if c.name != n {
			cols = append(cols, c)
		}
	}
	t.cols = cols
	db.did("DROP COLUMN", t.name, "COLUMN", n)
}

func (r *refParser) dropConstraint(t *refTable, n string) {
	c := t.con(n)
	if c == nil || (r.db.d == MY || r.db.d == CR) && c.kind == "INDEX" || r.db.d == CR && c.kind == "UNIQUE" {
		r.fail("constraint " + n + " of " + t.name + " does not exist")
		return
	}
	var cons []*refCon
	for _, o := range t.cons {
		if o != c {
			cons = append(cons, o)
		}
	}
	t.cons = cons
	r.db.did("DROP CONSTRAINT", t.name, "CONSTRAINT", n)
}

func (r *refParser) alterTable() {
	db := r.db
	n := r.name()
	t := db.table(n)
	if t == nil {
		r.fail("table " + n + " does not exist")
		return
	}
	switch {
	case r.take("RENAME", "TO"):
		t.name = r.name()
		db.did("RENAME", n, "", t.name)
	case r.take("ADD", "COLUMN"):
		c := r.column(t)
		for _, o := range t.cols[:max(len(t.cols)-1, 0)] {
			if o.name == c.name {
				r.fail("column " + c.name + " exists")
			}
		}
		db.did("ADD COLUMN", n, "COLUMN", c.name)
	case r.take("DROP", "COLUMN"):
		r.dropColumn(t, r.name())
	case db.d == MY && r.take("DROP", "PRIMARY", "KEY"):
		r.dropConstraint(t, "PRIMARY KEY")
	case r.take("DROP", "CONSTRAINT"):
		r.dropConstraint(t, r.name())
	case db.d == SP && r.take("DROP", "ROW", "DELETION", "POLICY"):
		if t.opt("RDP") == "" {
			r.fail("no row deletion policy on " + n)
		}
		t.setOpt("RDP", "")
		t.aged = nil
		db.did("OPTION", n, "OPTION", "RDP")
	case db.d == SP && (r.is("ADD", "ROW") || r.is("REPLACE", "ROW")):
		if r.is("ADD") == (t.opt("RDP") != "") {
			r.fail("row deletion policy of " + n)
		}
		r.p += 1
		r.need("ROW", "DELETION", "POLICY")
		r.policy(t)
		r.checkCols(t, t.aged)
		db.did("OPTION", n, "OPTION", "RDP")
	case r.take("ADD"):
		k := len(t.cons)
		r.constraint(t)
		if len(t.cons) > k {
			r.checkCon(t, t.cons[k])
			db.did("ADD CONSTRAINT", n, "CONSTRAINT", t.cons[k].name)
		}
	case db.d == MY && r.take("MODIFY"):
		k := len(t.cols)
		cons := len(t.cons)
		c := r.column(t)
		if r.err != "" {
			return
		}
		o := t.col(c.name)
		t.cols = t.cols[:k]
		t.cons = t.cons[:cons]
		if o == c {
			r.fail("column " + c.name + " of " + n + " does not exist")
			return
		}
		*o = *c
		db.did("ALTER COLUMN", n, "COLUMN", c.name)
	case db.d == MY && r.take("ALTER"):
		c := t.col(r.name())
		r.need("DROP", "DEFAULT")
		if c == nil {
			r.fail("no such column of " + n)
			return
		}
		c.def = ""
		db.did("ALTER COLUMN", n, "COLUMN", c.name)
	case r.take("ALTER", "COLUMN"):
		cn := r.name()
		c := t.col(cn)
		if c == nil {
			r.fail("column " + cn + " of " + n + " does not exist")
			return
		}
		switch {
		case db.d != SP && r.take("SET", "DATA", "TYPE"):
			c.typ = r.typ()
		case r.take("SET", "DEFAULT"):
			c.def = r.expr()
		case r.take("DROP", "DEFAULT"):
			c.def = ""
		case db.d != SP && r.take("SET", "NOT", "NULL"):
			c.notNull = true
		case db.d != SP && r.take("DROP", "NOT", "NULL"):
			c.notNull = false
		case db.d == SP && r.take("SET", "OPTIONS"):
			c.options = r.group()
		case db.d == SP && r.take("DROP", "OPTIONS"):
			c.options = ""
		case db.d == SP:
			c.typ = r.typ()
			c.notNull = r.take("NOT", "NULL")
		default:
			r.fail("unknown ALTER COLUMN")
		}
		db.did("ALTER COLUMN", n, "COLUMN", cn)
	case db.d == MY:
		r.mysqlOption(t)
		db.did("OPTION", n, "OPTION", "")
	default:
		r.fail("unknown ALTER TABLE")
	}
	r.end()
}

// exec runs one statement; the result is "" or what is wrong.
func (db *refDB) exec(toks []refTok) string {
	r := &refParser{db: db, t: toks}
	switch {
	case r.take("CREATE", "TABLE"):
		r.createTable()
	case r.take("CREATE", "UNIQUE", "INDEX"):
		r.createIndex(true)
	case r.take("CREATE", "INDEX"):
		r.createIndex(false)
	case r.take("DROP", "TABLE"):
		r.dropTable()
	case r.take("DROP", "INDEX"):
		r.dropIndex()
	case r.take("ALTER", "TABLE"):
		r.alterTable()
	default:
		r.fail("unknown statement")
	}
	return r.err
}

// run executes a script statement by statement.
func (db *refDB) run(s string) string {
	toks, err := refLex(db.d, s)
	if err != "" {
		return err
	}
	b := 0
	for i := 0; i <= len(toks); i++ {
		if i < len(toks) && !(toks[i].kind == 'p' && toks[i].s == ";") {
			continue
		}
		if i > b {
			if err := db.exec(toks[b:i]); err != "" {
				return err
			}
		}
		b = i + 1
	}
	return ""
}

// refSchema is the model of a declared schema.
func refSchema(d int, s string) (*refDB, string) {
	db := &refDB{d: d}
	err := db.run(s)
	db.log = nil
	return db, err
}

func (c *refCol) text() string {
	s := c.name + " " + c.typ + " default[" + c.def + "]"
	if c.notNull {
		s += " notnull"
	}
	if c.autoInc {
		s += " autoinc"
	}
	if c.notVisible {
		s += " notvisible"
	}
	return s + " " + c.charset + "," + c.collate + "," + c.onAction + "," + c.comment + "," + c.options + "," + c.gen
}

func (c *refCon) text() string { return c.name + " " + c.kind + " " + c.body }

// diff tells how two models differ ("" when they are the same); order also compares the order of columns.
func (a *refDB) diff(b *refDB, order bool) string {
	if len(a.tables) != len(b.tables) {
		return "different tables"
	}
	for i, t := range a.tables {
		u := b.table(t.name)
		if u == nil {
			return "table " + t.name + " missing"
		}
		if order && b.tables[i].name != t.name {
			return "table order"
		}
		if m := t.diff(u, order); m != "" {
			return "table " + t.name + ": " + m
		}
	}
	if len(a.idxs) != len(b.idxs) {
		return "different indexes"
	}
	for i, x := range a.idxs {
		y := b.index(x.name)
		if y == nil {
			return "index " + x.name + " missing"
		}
		if x.body != y.body || order && b.idxs[i].name != x.name {
			return "index " + x.name + ": " + x.body + " / " + y.body
		}
	}
	return ""
}

func (t *refTable) diff(u *refTable, order bool) string {
	if len(t.cols) != len(u.cols) {
		return "different columns"
	}
	for j, c := range t.cols {
		e := u.col(c.name)
		if e == nil {
			return "column " + c.name + " missing"
		}
		if order && u.cols[j].name != c.name {
			return "column order"
		}
		if c.text() != e.text() {
			return "column " + c.text() + " / " + e.text()
		}
	}
	if len(t.cons) != len(u.cons) {
		return "different constraints"
	}
	for _, c := range t.cons {
		e := u.con(c.name)
		if e == nil {
			return "constraint " + c.name + " missing"
		}
		if c.text() != e.text() {
			return "constraint " + c.text() + " / " + e.text()
		}
	}
	for _, o := range t.opts {
		if u.opt(o[0]) != o[1] {
			return "option " + o[0] + "=" + o[1] + " / " + u.opt(o[0])
		}
	}
	for _, o := range u.opts {
		if t.opt(o[0]) != o[1] {
			return "option " + o[0]
		}
	}
	return ""
}
