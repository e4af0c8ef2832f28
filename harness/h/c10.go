package h

import "github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"

// pure: comparing and printing changes neither schema, and gives the same migration again.
func pure(d int, before, after string) {
	sym.Observe("before", before)
	sym.Observe("after", after)
	a, err := parse(d, before)
	if err != nil {
		sym.Stop()
	}
	b, err := parse(d, after)
	if err != nil {
		sym.Stop()
	}
	sym.MapOrder(true)
	untouched, same0, err0 := diffText(a, b) // before anything is printed
	pa, pb := a.String(), b.String()
	text, same, err := diffText(a, b)
	sym.Assert(errStr(err0) == errStr(err) && same == same0, "comparing again gives another result")
	sym.Assert(sym.Eq(untouched, text), "comparing again gives another migration")
	sym.Assert(sym.Eq(pa, a.String()), "comparing changes the first schema")
	sym.Assert(sym.Eq(pb, b.String()), "comparing changes the second schema")
	c, _ := parse(d, before)
	e, _ := parse(d, after)
	sym.Assert(sym.Eq(pa, c.String()), "the first schema printed after comparing is another than printed before")
	sym.Assert(sym.Eq(pb, e.String()), "the second schema printed after comparing is another than printed before")
	text, same, err = diffText(c, e)
	sym.Assert(errStr(err0) == errStr(err) && same == same0, "comparing freshly parsed schemas gives another result")
	sym.Assert(sym.Eq(untouched, text), "comparing freshly parsed schemas gives another migration")
	sym.Reach("compared")
}

func C10_postgres_pairs()    { b, a := layouts[PG].single(PG); pure(PG, b, a) }
func C10_cockroachdb_pairs() { b, a := layouts[CR].single(CR); pure(CR, b, a) }
func C10_mysql_pairs()       { b, a := layouts[MY].single(MY); pure(MY, b, a) }
func C10_spanner_pairs()     { b, a := layouts[SP].single(SP); pure(SP, b, a) }

// C10_absent: three tables in any order, each with a foreign key to an earlier one or interleaved in it, or none, with indexes or without,
// compared with the missing and with the empty schema in either direction, twice.
func C10_absent() {
	d := sym.Choice("dialect", 4)
	g := newGraph(d)
	all, orders := make([]bool, g.n), 1
	for i := range all {
		all[i] = true
		orders *= i + 1
	}
	s := g.text(all, sym.Choice("order", orders))
	sym.Observe("schema", s)
	none := absent(d)
	if sym.Bool("empty") {
		none = mustParse(d, "")
	}
	a := mustParse(d, s)
	printed := mustParse(d, s).String()
	first := [2]string{}
	for i := 0; i < 4; i++ {
		x, y := none, a
		if i%2 == 1 {
			x, y = a, none
		}
		text, same, err := diffText(x, y)
		sym.Assert(err == nil && !same, "the differ fails")
		sym.Assert(sym.Eq(a.String(), printed), "comparing changes the schema")
		if i < 2 {
			first[i] = text
		}
		sym.Assert(sym.Eq(text, first[i%2]), "comparing again gives another migration")
	}
	sym.Reach("compared")
}

// renamedTwice: comparing two tables of different names changes neither, and gives the same migration again.
func renamedTwice(d int) {
	from := pick("from", []string{"t", "s.t"})
	to := pick("to", []string{"u", "s.u", "r.u", "r.t"})
	if d == SP {
		from, to = "t", "u"
	}
	key, pk := pick("constraint", []string{"", ", CONSTRAINT k CHECK (a > 0)"}), ""
	if d == SP {
		key, pk = "", " PRIMARY KEY (a)"
	}
	col := pick("column", []string{"", ", c " + wideInt[d]})
	before := "CREATE TABLE " + from + " (a " + wideInt[d] + ", b " + wideInt[d] + key + ")" + pk + ";"
	after := "CREATE TABLE " + to + " (a " + wideInt[d] + col + ")" + pk + ";"
	sym.Observe("before", before)
	sym.Observe("after", after)
	a, b := mustParse(d, before), mustParse(d, after)
	pa, pb := a.String(), b.String()
	text, same, err := diffTables(a, b, from, to)
	sym.Assert(err == nil && !same, "the renaming fails: "+errStr(err))
	sym.Assert(sym.Eq(pa, a.String()), "comparing changes the first schema")
	sym.Assert(sym.Eq(pb, b.String()), "comparing changes the second schema")
	again, _, _ := diffTables(a, b, from, to)
	sym.Assert(sym.Eq(text, again), "comparing again gives another migration")
	sym.Reach("compared")
}

// C10_rename: two tables with another name, in the same schema, in another one or in none, with other columns and with or without a constraint,
// compared with DiffCreateTable, twice.
func C10_rename() { renamedTwice(sym.Choice("dialect", 4)) }
