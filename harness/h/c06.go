package h

import "github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"

// change is a pair of valid schemas and the migration from one to the other.
type change struct {
	d             int
	before, after *refDB
	a, b          Schema
	text          string // of the migration
	same          bool
}

func changeOf(d int, before, after string) *change {
	c := &change{d: d}
	sym.Observe("before", before)
	sym.Observe("after", after)
	c.before = modelOf(d, before)
	c.after = modelOf(d, after)
	var err error
	c.a = mustParse(d, before)
	c.b = mustParse(d, after)
	c.text, c.same, err = diffText(c.a, c.b)
	sym.Observe("migration", c.text)
	sym.Assert(err == nil, "the differ fails: "+errStr(err))
	return c
}

// statements cuts the migration into statements.
func statements(d int, s string) ([][]refTok, string) {
	toks, err := refLex(d, s)
	if err != "" {
		return nil, err
	}
	var out [][]refTok
	b := 0
	for i := 0; i <= len(toks); i++ {
		if i < len(toks) && !(toks[i].kind == 'p' && toks[i].s == ";") {
			continue
		}
		if i > b {
			out = append(out, toks[b:i])
		}
		b = i + 1
	}
	return out, ""
}

func (db *refDB) clone() *refDB {
	o := &refDB{d: db.d}
	for _, t := range db.tables {
		u := &refTable{name: t.name, aged: t.aged}
		for _, c := range t.cols {
			k := *c
			u.cols = append(u.cols, &k)
		}
		u.cons = append(u.cons, t.cons...)
		u.opts = append(u.opts, t.opts...)
		o.tables = append(o.tables, u)
	}
	o.idxs = append(o.idxs, db.idxs...)
	return o
}

// settle executes the statements; those that fail are tried again after the others, as apply does. (That each succeeds at
// its own place is property C08.)
func settle(db *refDB, stmts [][]refTok) (*refDB, string) {
	for {
		var left [][]refTok
		last := ""
		for _, s := range stmts {
			try := db.clone()
			if err := try.exec(s); err != "" {
				last = err
				left = append(left, s)
				continue
			}
			db = try
		}
		if len(left) == 0 {
			return db, ""
		}
		if len(left) == len(stmts) {
			return db, last
		}
		stmts = left
	}
}

// sort of difference: "table t: column b INT / b TEXT" becomes "table t: column".
func coarse(m string) string {
	colon := false
	for i := 0; i < len(m); i++ {
		if m[i] == ':' && !colon {
			colon = true
			i++
			continue
		}
		if m[i] == ' ' && colon {
			return m[:i]
		}
	}
	return m
}

// leftOut is the schema after without the changes that the differ is known not to migrate.
func (c *change) leftOut() *refDB {
	want := c.after.clone()
	for _, t := range c.before.tables {
		u := want.table(t.name)
		if u == nil {
			continue
		}
		if c.d == CR {
			for _, x := range t.cols {
				y := u.col(x.name)
				if y == nil {
					if x.notVisible && x.gen != "" {
						u.cols = append(u.cols, x)
					}
					continue
				}
				y.notVisible, y.gen = x.notVisible, x.gen
			}
		}
		if c.d == MY {
			for _, o := range t.opts {
				if u.opt(o[0]) == "" {
					u.setOpt(o[0], o[1])
				}
			}
		}
	}
	return want
}

// heldBack: a table to be dropped and created again is referenced by, or is the parent of, another one.
func (c *change) heldBack() bool {
	if c.d != SP {
		return false
	}
	for _, t := range c.before.tables {
		u := c.after.table(t.name)
		if u == nil || t.opt("PK") == u.opt("PK") && t.opt("INTERLEAVE") == u.opt("INTERLEAVE") {
			continue
		}
		for _, o := range c.before.tables {
			for _, k := range o.cons {
				if o != t && k.kind == "FK" && k.ref == t.name {
					return true
				}
			}
			if o.opt("INTERLEAVE") != "" && parentOf(o.opt("INTERLEAVE")) == t.name {
				return true
			}
		}
	}
	return false
}

// reaches: got is the schema after.
func (c *change) reaches(what string, got *refDB) {
	m := got.diff(c.after, false)
	if m == "" {
		return
	}
	sym.Observe("difference", m)
	sym.Known("spanner-recreate-referenced", c.heldBack())
	k := got.diff(c.leftOut(), false)
	sym.Assert(k == "", what+": "+coarse(k))
	sym.Known("cockroachdb-visibility", c.d == CR)
	sym.Known("mysql-option-removal", c.d == MY)
	sym.Fail(what + ": " + coarse(m))
}

// converges: the migration turns the first schema into the second.
func converges(d int, before, after string) {
	c := changeOf(d, before, after)
	if c.same {
		c.reaches("the differ misses a difference", c.before)
		sym.Reach("same")
		return
	}
	stmts, err := statements(d, c.text)
	sym.Assert(err == "", "the migration is not readable: "+err)
	got, _ := settle(c.before, stmts)
	c.reaches("the migration leads elsewhere", got)
	sym.Reach("migrated")
}

func C06_postgres_pairs()    { b, a := layouts[PG].pair(PG); converges(PG, b, a) }
func C06_cockroachdb_pairs() { b, a := layouts[CR].pair(CR); converges(CR, b, a) }
func C06_mysql_pairs()       { b, a := layouts[MY].pair(MY); converges(MY, b, a) }
func C06_spanner_pairs()     { b, a := layouts[SP].pair(SP); converges(SP, b, a) }
