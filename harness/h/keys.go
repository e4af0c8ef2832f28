package h

import "github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"

// covers: an index or key of these columns serves a foreign key to, or of, the others.
func covers(d int, cols, want []string) bool {
	if d == MY {
		if len(cols) < len(want) {
			return false
		}
		for i := range want {
			if cols[i] != want[i] {
				return false
			}
		}
		return true
	}
	if len(cols) != len(want) {
		return false
	}
	for _, w := range want {
		if !has(cols, w) {
			return false
		}
	}
	return true
}

// serves counts the keys of the table (in MySQL, the indexes) that cover the columns.
func (db *refDB) serves(t *refTable, cols []string) (n int) {
	for _, c := range t.cons {
		if (c.kind == "PK" || c.kind == "UNIQUE" || db.d == MY && c.kind == "INDEX") && covers(db.d, c.cols, cols) {
			n++
		}
	}
	for _, x := range db.idxs {
		if x.table == t.name && len(x.body) > 7 && x.body[:7] == "UNIQUE " && covers(db.d, x.cols, cols) {
			n++
		}
	}
	return n
}

// keyless is a foreign key to columns that are no key, which databases refuse.
func (db *refDB) keyless() string {
	for _, t := range db.tables {
		for _, c := range t.cons {
			if p := db.table(c.ref); c.kind == "FK" && (p == nil || db.serves(p, c.refCols) == 0) {
				return c.name
			}
		}
	}
	return ""
}

// unindexed: MySQL refuses to drop the index that a foreign key of the table uses.
func (db *refDB) unindexed(was *refDB) string {
	for _, t := range db.tables {
		o := was.table(t.name)
		if db.d != MY || o == nil {
			continue
		}
		for _, c := range t.cons {
			if c.kind == "FK" && o.con(c.name) != nil && db.serves(t, c.cols) == 0 && was.serves(o, c.cols) > 0 {
				return c.name
			}
		}
	}
	return ""
}

// keyed is a schema of a table p with keys and a table w with a foreign key to it; the columns of each are arbitrary.
func keyed(d int, side string) string {
	typ := " " + intType[d]
	col := func() string { return string([]byte{sym.ByteIn(side, "ab")}) }
	s := ""
	if sym.Bool(side + "p") {
		s = "CREATE TABLE p (a" + typ + " NOT NULL, b" + typ + " NOT NULL"
		k := sym.Choice(side+"key", 6)
		if k == 1 || k == 3 {
			s += ", CONSTRAINT p_pkey PRIMARY KEY (" + col() + ")"
		}
		if k == 2 || k == 3 {
			s += ", " + [3]string{"CONSTRAINT u UNIQUE", "UNIQUE INDEX u", "UNIQUE KEY u"}[d] + " (" + col() + ")"
		}
		s += ");"
		if k == 4 {
			s += "CREATE UNIQUE INDEX i ON p (" + col() + ");"
		}
		if k == 5 || sym.Tier() > 0 && k < 4 && sym.Bool(side+"j") {
			s += "CREATE UNIQUE INDEX j ON p (a, b);"
		}
	}
	w := sym.Choice(side+"w", 5)
	if w == 0 {
		return s
	}
	s += "CREATE TABLE w (y" + typ + ", z" + typ
	if w == 2 || w == 4 {
		s += ", CONSTRAINT f FOREIGN KEY (z) REFERENCES p (" + col() + ")"
	}
	if w == 3 {
		s += ", CONSTRAINT f FOREIGN KEY (y, z) REFERENCES p (a, b)"
	}
	s += ");"
	if w == 4 {
		s += "CREATE INDEX k ON w (z);"
	}
	return s
}

// replaced: a foreign key stays, but no key that it can refer to does.
func (c *change) replaced() bool {
	for _, t := range c.before.tables {
		for _, f := range t.cons {
			u := c.after.table(t.name)
			if f.kind != "FK" || u == nil || u.con(f.name) == nil || u.con(f.name).text() != f.text() {
				continue
			}
			both := c.before.clone()
			p, q := both.table(f.ref), c.after.table(f.ref)
			p.cons = nil
			for _, k := range c.before.table(f.ref).cons {
				if o := q.con(k.name); o != nil && o.text() == k.text() {
					p.cons = append(p.cons, k)
				}
			}
			both.idxs = nil
			for _, x := range c.before.idxs {
				if o := c.after.index(x.name); o != nil && o.body == x.body {
					both.idxs = append(both.idxs, x)
				}
			}
			if both.serves(p, f.refCols) == 0 {
				return true
			}
		}
	}
	return false
}

// soundKeys are the schemas whose foreign keys refer to keys.
func soundKeys(d int, s string) *refDB {
	m := modelOf(d, s)
	if m.keyless() != "" {
		sym.Reach("invalid")
		sym.Stop()
	}
	return m
}

// inOrderKeyed: as inOrder, in a database in which the columns that a foreign key refers to are, and stay, a key.
func inOrderKeyed(d int, before, after string) {
	if soundKeys(d, after).unindexed(soundKeys(d, before)) != "" {
		sym.Stop() // MySQL can never drop this index
	}
	c := changeOf(d, before, after)
	if c.same {
		sym.Stop()
	}
	stmts, err := statements(d, c.text)
	sym.Assert(err == "", "the migration is not readable: "+err)
	db := c.before.clone()
	for _, s := range stmts {
		was := db.clone()
		err := db.exec(s)
		if k := db.keyless(); err == "" && k != "" {
			err = "foreign key " + k + " without a key to refer to"
		}
		if k := db.unindexed(was); err == "" && k != "" && c.after.table("w") != nil {
			err = "foreign key " + k + " without an index"
		}
		if err != "" {
			sym.Observe("error", err)
			sym.Known("replaced-key", c.replaced())
			sym.Fail("a statement fails: " + refText(s))
		}
	}
	sym.Reach("executed")
}

// C08_keys: a table p that is absent or has a primary key, a unique key, both, a unique index of one column or of two or none (thorough: the
// first ones also with an index of two columns), and a table w that is absent or has a foreign key to one or both columns of p or none; any columns, in PostgreSQL,
// CockroachDB and MySQL. The reference database here also refuses a foreign key whose columns are no key (or, in MySQL, have no index).
func C08_keys() {
	d := sym.Choice("dialect", 3)
	before := keyed(d, "l")
	inOrderKeyed(d, before, keyed(d, "r"))
}
