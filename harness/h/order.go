package h

import "github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"

// graph is a number of tables, each of which refers to an earlier one or to none, with indexes; Spanner tables may be interleaved
// instead. They are declared in any order, as catalogs give them.
type graph struct {
	d, n, index int
	ref         []int
	parent      []bool
}

func newGraph(d int) *graph {
	g := &graph{d: d, n: 3 + sym.Tier()}
	if g.n == 3 {
		g.index = sym.Choice("index", 3)
	}
	for i := 0; i < g.n; i++ {
		g.ref = append(g.ref, sym.Choice("ref", i+1)-1)
		g.parent = append(g.parent, d == SP && g.ref[i] >= 0 && g.index == 0 && sym.Bool("interleaved"))
	}
	return g
}

// depth is the number of tables that an interleaved table is in.
func (g *graph) depth(i int) int {
	if !g.parent[i] {
		return 0
	}
	return 1 + g.depth(g.ref[i])
}

func (g *graph) table(i int, there []bool) string {
	typ := " " + intType[g.d]
	k := string(rune('0' + i))
	s := "CREATE TABLE t" + k + " (a" + typ + " NOT NULL, b VARCHAR(9)"
	if g.d == SP {
		s = "CREATE TABLE t" + k + " (a" + typ + " NOT NULL, k1" + typ + ", k2" + typ + ", k3" + typ + ", b STRING(9)"
	}
	if o := g.ref[i]; o >= 0 && there[o] && !g.parent[i] {
		s += ", CONSTRAINT f" + k + " FOREIGN KEY (a) REFERENCES t" + string(rune('0'+o)) + " (a)"
	}
	switch {
	case g.d == SP:
		s += ") PRIMARY KEY (a"
		for j := 1; j <= g.depth(i); j++ {
			s += ", k" + string(rune('0'+j))
		}
		s += ")"
		if o := g.ref[i]; o >= 0 && g.parent[i] {
			s += ", INTERLEAVE IN PARENT t" + string(rune('0'+o))
		}
	case g.index < 2:
		s += ", CONSTRAINT t" + k + "_pkey PRIMARY KEY (a))"
	default:
		s += ")"
	}
	return s + ";"
}

// text declares the tables that are there in the p-th order, and then their indexes.
func (g *graph) text(there []bool, p int) string {
	var todo []int
	for i := 0; i < g.n; i++ {
		todo = append(todo, i)
	}
	s, x := "", ""
	for len(todo) > 0 {
		at := p % len(todo)
		p /= len(todo)
		i := todo[at]
		todo = append(todo[:at:at], todo[at+1:]...)
		if !there[i] {
			continue
		}
		s += g.table(i, there)
		k := string(rune('0' + i))
		if g.index == 1 {
			x += "CREATE INDEX i" + k + " ON t" + k + " (b);"
		}
		if g.index == 2 {
			x += "CREATE UNIQUE INDEX i" + k + " ON t" + k + " (a);"
		}
	}
	return s + x
}

// pair is a schema of all tables and one of some of them, in either order.
func (g *graph) pair() (before, after string) {
	all, some := make([]bool, g.n), make([]bool, g.n)
	orders := 1
	for i := range all {
		all[i] = true
		orders *= i + 1
		some[i] = sym.Bool("there")
		for j := i; some[i] && g.parent[j]; j = g.ref[j] {
			if !some[g.ref[j]] {
				sym.Stop() // an interleaved table needs its parent
			}
		}
	}
	if g.index > 0 {
		before = g.text(all, sym.Choice("order", 2)*(orders-1))
	} else {
		before = g.text(all, sym.Choice("order", orders))
	}
	after = g.text(some, orders-1)
	if sym.Bool("create") {
		return after, before
	}
	return before, after
}

// anyOrder is the model of a schema that is declared in any order.
func anyOrder(d int, s string) *refDB {
	stmts, err := statements(d, s)
	sym.Assert(err == "", "the layout is wrong: "+err)
	db, err := settle(&refDB{d: d}, stmts)
	sym.Assert(err == "", "the layout is wrong: "+err)
	db.log = nil
	return db
}

// orAbsent is the parsed schema, or none where there is no statement.
func orAbsent(d int, s string) Schema {
	if s == "" && sym.Bool("absent") {
		return absent(d)
	}
	return mustParse(d, s)
}

// C08_order: three (thorough: four) tables, each with a foreign key to any earlier one or none, or in Spanner interleaved in it, without indexes,
// with one each, or (three tables) with one that is the key of the foreign keys, declared in every order (with indexes: in two orders), as a catalog gives them; and
// any part of these tables (none: also the missing schema). Each statement of the migrations between them runs in the reference database, in which foreign keys refer to keys.
func C08_order() {
	d := sym.Choice("dialect", 4)
	g := newGraph(d)
	before, after := g.pair()
	sym.Observe("before", before)
	sym.Observe("after", after)
	c := &change{d: d, before: anyOrder(d, before), after: anyOrder(d, after), a: orAbsent(d, before), b: orAbsent(d, after)}
	var err error
	c.text, c.same, err = diffText(c.a, c.b)
	sym.Observe("migration", c.text)
	sym.Assert(err == nil, "the differ fails: "+errStr(err))
	if c.same {
		sym.Reach("same")
		return
	}
	stmts, e := statements(d, c.text)
	sym.Assert(e == "", "the migration is not readable: "+e)
	db := c.before.clone()
	for _, s := range stmts {
		e := db.exec(s)
		if k := db.keyless(); e == "" && d != SP && k != "" {
			e = "foreign key " + k + " without a key to refer to"
		}
		if e != "" {
			sym.Observe("error", e)
			sym.Fail("a statement fails: " + refText(s))
		}
	}
	m := db.diff(c.after, false)
	sym.Assert(m == "", "the migration does not lead to the target: "+m)
	sym.Reach("executed")
}
