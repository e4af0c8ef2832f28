// Package h holds the harnesses: one function per bounded question, named after its property.
package h

import (
	"errors"

	"github.com/kunitsucom/ddlctl/pkg/ddl"
	crdb "github.com/kunitsucom/ddlctl/pkg/ddl/cockroachdb"
	my "github.com/kunitsucom/ddlctl/pkg/ddl/mysql"
	pg "github.com/kunitsucom/ddlctl/pkg/ddl/postgres"
	sp "github.com/kunitsucom/ddlctl/pkg/ddl/spanner"
)

// Dialects.
const (
	PG = iota
	CR
	MY
	SP
)

var dialectNames = []string{"postgres", "cockroachdb", "mysql", "spanner"}

// Schema wraps the DDL of one dialect.
type Schema struct {
	d  int
	pg *pg.DDL
	cr *crdb.DDL
	my *my.DDL
	sp *sp.DDL
}

func parse(d int, s string) (Schema, error) {
	r := Schema{d: d}
	var err error
	switch d {
	case PG:
		r.pg, err = pg.NewParser(pg.NewLexer(s)).Parse()
	case CR:
		r.cr, err = crdb.NewParser(crdb.NewLexer(s)).Parse()
	case MY:
		r.my, err = my.NewParser(my.NewLexer(s)).Parse()
	case SP:
		r.sp, err = sp.NewParser(sp.NewLexer(s)).Parse()
	}
	return r, err
}

func (a Schema) String() string {
	switch a.d {
	case PG:
		return a.pg.String()
	case CR:
		return a.cr.String()
	case MY:
		return a.my.String()
	default:
		return a.sp.String()
	}
}

// diffS returns the migration; same reports that the differ found no difference.
func diffS(a, b Schema) (out Schema, same bool, err error) {
	out.d = a.d
	switch a.d {
	case PG:
		out.pg, err = pg.Diff(a.pg, b.pg)
	case CR:
		out.cr, err = crdb.Diff(a.cr, b.cr)
	case MY:
		out.my, err = my.Diff(a.my, b.my)
	default:
		out.sp, err = sp.Diff(a.sp, b.sp)
	}
	if err != nil && errors.Is(err, ddl.ErrNoDifference) {
		return out, true, nil
	}
	return out, false, err
}

// diffText is the migration text from a to b ("" when there is no difference).
func diffText(a, b Schema) (text string, same bool, err error) {
	o, same, err := diffS(a, b)
	if err != nil || same {
		return "", same, err
	}
	return o.String(), false, nil
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// diffTables is the migration of the table of one schema that has the first name to the table of the other one that has the second.
func diffTables(a, b Schema, from, to string) (text string, same bool, err error) {
	var o Schema
	o.d = a.d
	switch a.d {
	case PG:
		var l, r *pg.CreateTableStmt
		for _, s := range a.pg.Stmts {
			if c, ok := s.(*pg.CreateTableStmt); ok && c.Name.StringForDiff() == from {
				l = c
			}
		}
		for _, s := range b.pg.Stmts {
			if c, ok := s.(*pg.CreateTableStmt); ok && c.Name.StringForDiff() == to {
				r = c
			}
		}
		o.pg, err = pg.DiffCreateTable(l, r)
	case CR:
		var l, r *crdb.CreateTableStmt
		for _, s := range a.cr.Stmts {
			if c, ok := s.(*crdb.CreateTableStmt); ok && c.Name.StringForDiff() == from {
				l = c
			}
		}
		for _, s := range b.cr.Stmts {
			if c, ok := s.(*crdb.CreateTableStmt); ok && c.Name.StringForDiff() == to {
				r = c
			}
		}
		o.cr, err = crdb.DiffCreateTable(l, r)
	case MY:
		var l, r *my.CreateTableStmt
		for _, s := range a.my.Stmts {
			if c, ok := s.(*my.CreateTableStmt); ok && c.Name.StringForDiff() == from {
				l = c
			}
		}
		for _, s := range b.my.Stmts {
			if c, ok := s.(*my.CreateTableStmt); ok && c.Name.StringForDiff() == to {
				r = c
			}
		}
		o.my, err = my.DiffCreateTable(l, r)
	case SP:
		var l, r *sp.CreateTableStmt
		for _, s := range a.sp.Stmts {
			if c, ok := s.(*sp.CreateTableStmt); ok && c.Name.StringForDiff() == from {
				l = c
			}
		}
		for _, s := range b.sp.Stmts {
			if c, ok := s.(*sp.CreateTableStmt); ok && c.Name.StringForDiff() == to {
				r = c
			}
		}
		o.sp, err = sp.DiffCreateTable(l, r)
	}
	if errors.Is(err, ddl.ErrNoDifference) {
		return "", true, nil
	}
	if err != nil {
		return "", false, err
	}
	return o.String(), false, nil
}
