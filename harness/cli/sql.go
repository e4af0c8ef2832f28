package cli

import (
	"strconv"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"
)

// A small evaluator of the SELECT statements a catalog is read with, so that the queries
// themselves are part of what is checked. It panics on what it does not know.

type field struct{ tbl, name string }

type relation struct {
	cols []field
	rows [][]any
}

type scope struct {
	cols  []field
	row   []any
	group [][]any
}

type expr func(*scope) any

type sqlTok struct {
	kind byte // w word, s string, n number, ? placeholder, o operator
	s    string
}

type sqlParser struct {
	d    int
	toks []sqlTok
	i    int
	args []any
	c    *catalog
}

func (p *sqlParser) fail(what string) {
	panic(sym.Outcome{Kind: "stop", Msg: "catalog query not understood: " + what})
}

func upper(s string) string { return strings.ToUpper(s) }

// evaluate answers a query.
func evaluate(c *catalog, q string, args []any) (t table, ok bool) {
	p := &sqlParser{d: c.d, args: args, c: c}
	p.lex(q)
	if p.word("SELECT") {
		r, names := p.query()
		p.op(";")
		if p.i < len(p.toks) {
			p.fail(p.toks[p.i].s)
		}
		return table{names, r.rows}, true
	}
	return table{}, false
}

func (p *sqlParser) lex(s string) {
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '-' && i+1 < len(s) && s[i+1] == '-':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case (c == 'E' || c == 'e') && i+1 < len(s) && s[i+1] == '\'':
			j := i + 2
			out := ""
			for j < len(s) && s[j] != '\'' {
				if s[j] == '\\' && s[j+1] == 'n' {
					out += "\n"
					j += 2
					continue
				}
				out += s[j : j+1]
				j++
			}
			p.toks = append(p.toks, sqlTok{'s', out})
			i = j + 1
		case c == '\'' || c == '"' || c == '`':
			j := i + 1
			out := ""
			for j < len(s) {
				if s[j] == c {
					if j+1 < len(s) && s[j+1] == c {
						j++
					} else {
						break
					}
				}
				out += s[j : j+1]
				j++
			}
			k := byte('s')
			if c == '`' || c == '"' && (p.d == PG || p.d == CR) {
				k = 'w'
			}
			p.toks = append(p.toks, sqlTok{k, out})
			i = j + 1
		case c == '?':
			p.toks = append(p.toks, sqlTok{'?', "?"})
			i++
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			p.toks = append(p.toks, sqlTok{'n', s[i:j]})
			i = j
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_':
			j := i
			for j < len(s) && (s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] == '_' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			p.toks = append(p.toks, sqlTok{'w', s[i:j]})
			i = j
		default:
			n := 1
			if i+1 < len(s) {
				switch s[i : i+2] {
				case "||", "!=", "<>", "<=", ">=", "::":
					n = 2
				}
			}
			p.toks = append(p.toks, sqlTok{'o', s[i : i+n]})
			i += n
		}
	}
}

func (p *sqlParser) is(words ...string) bool {
	for k, w := range words {
		if p.i+k >= len(p.toks) || p.toks[p.i+k].kind != 'w' || upper(p.toks[p.i+k].s) != w {
			return false
		}
	}
	return true
}

func (p *sqlParser) word(words ...string) bool {
	if p.is(words...) {
		p.i += len(words)
		return true
	}
	return false
}

func (p *sqlParser) op(s string) bool {
	if p.i < len(p.toks) && p.toks[p.i].kind == 'o' && p.toks[p.i].s == s {
		p.i++
		return true
	}
	return false
}

func (p *sqlParser) need(ok bool, what string) {
	if !ok {
		at := "end"
		if p.i < len(p.toks) {
			at = p.toks[p.i].s
		}
		p.fail(what + " at " + at)
	}
}

func (p *sqlParser) name() string {
	p.need(p.i < len(p.toks) && p.toks[p.i].kind == 'w', "name")
	p.i++
	return p.toks[p.i-1].s
}

var clauseWords = []string{"FROM", "WHERE", "GROUP", "ORDER", "ON", "INNER", "LEFT", "JOIN", "AS", "UNION", "LIMIT", "CROSS"}

func (p *sqlParser) alias() (string, bool) {
	if p.word("AS") {
		return p.name(), true
	}
	if p.i < len(p.toks) && p.toks[p.i].kind == 'w' {
		for _, w := range clauseWords {
			if p.is(w) {
				return "", false
			}
		}
		return p.name(), true
	}
	return "", false
}

type ordering struct {
	e    expr
	desc bool
}

func (p *sqlParser) orders() []ordering {
	var out []ordering
	for {
		o := ordering{e: p.expr()}
		if p.word("DESC") {
			o.desc = true
		} else {
			p.word("ASC")
		}
		out = append(out, o)
		if !p.op(",") {
			return out
		}
	}
}

func (p *sqlParser) source() *relation {
	var r *relation
	if p.op("(") {
		p.need(p.word("SELECT"), "SELECT")
		q, names := p.query()
		p.need(p.op(")"), ")")
		r = &relation{rows: q.rows}
		for _, n := range names {
			r.cols = append(r.cols, field{"", n})
		}
		a, ok := p.alias()
		p.need(ok, "alias")
		return named(r, a)
	}
	n := p.name()
	for p.op(".") {
		n += "." + p.name()
	}
	r = p.c.relation(strings.ToLower(n))
	if r == nil {
		p.fail("relation " + n)
	}
	a, ok := p.alias()
	if !ok {
		a = n
		if i := strings.LastIndex(n, "."); i >= 0 {
			a = n[i+1:]
		}
	}
	return named(r, a)
}

func named(r *relation, a string) *relation {
	out := &relation{rows: r.rows}
	for _, c := range r.cols {
		out.cols = append(out.cols, field{strings.ToLower(a), c.name})
	}
	return out
}

// query reads and evaluates what follows SELECT.
func (p *sqlParser) query() (*relation, []string) {
	distinct := p.word("DISTINCT")
	var items []expr
	var names []string
	for {
		n := "?column?"
		if p.i < len(p.toks) && p.toks[p.i].kind == 'w' {
			n = p.toks[p.i].s
			if p.i+2 < len(p.toks) && p.toks[p.i+1].s == "." {
				n = p.toks[p.i+2].s
			}
		}
		items = append(items, p.expr())
		if a, ok := p.alias(); ok {
			n = a
		}
		names = append(names, n)
		if !p.op(",") {
			break
		}
	}
	r := &relation{rows: [][]any{nil}}
	if p.word("FROM") {
		r = p.source()
		for {
			left := false
			switch {
			case p.op(","), p.word("CROSS", "JOIN"):
				r = join(r, p.source(), func(*scope) any { return true }, false)
				continue
			case p.word("LEFT", "OUTER", "JOIN"), p.word("LEFT", "JOIN"):
				left = true
			case p.word("INNER", "JOIN"), p.word("JOIN"):
			default:
				goto joined
			}
			s := p.source()
			p.need(p.word("ON"), "ON")
			r = join(r, s, p.expr(), left)
		}
	}
joined:
	if p.word("WHERE") {
		cond := p.expr()
		out := &relation{cols: r.cols}
		for _, row := range r.rows {
			if truth(cond(&scope{cols: r.cols, row: row})) {
				out.rows = append(out.rows, row)
			}
		}
		r = out
	}
	var groups []*scope
	if p.word("GROUP", "BY") {
		var keys []expr
		for {
			keys = append(keys, p.expr())
			if !p.op(",") {
				break
			}
		}
		var vals [][]any
	next:
		for _, row := range r.rows {
			var v []any
			for _, k := range keys {
				v = append(v, k(&scope{cols: r.cols, row: row}))
			}
			for g := range groups {
				if sameRow(vals[g], v) {
					groups[g].group = append(groups[g].group, row)
					continue next
				}
			}
			groups = append(groups, &scope{cols: r.cols, row: row, group: [][]any{row}})
			vals = append(vals, v)
		}
	} else {
		for _, row := range r.rows {
			groups = append(groups, &scope{cols: r.cols, row: row})
		}
	}
	if p.word("HAVING") {
		cond := p.expr()
		var out []*scope
		for _, g := range groups {
			if truth(cond(g)) {
				out = append(out, g)
			}
		}
		groups = out
	}
	if p.word("ORDER", "BY") {
		// a name may also be that of an item of the list
		os := p.orders()
		sortScopes(groups, os)
	}
	out := &relation{}
	for _, g := range groups {
		var row []any
		for _, e := range items {
			row = append(row, e(g))
		}
		if distinct {
			dup := false
			for _, o := range out.rows {
				if sameRow(o, row) {
					dup = true
					break
				}
			}
			if dup {
				continue
			}
		}
		out.rows = append(out.rows, row)
	}
	return out, names
}

func join(a, b *relation, on expr, left bool) *relation {
	out := &relation{}
	out.cols = append(append(out.cols, a.cols...), b.cols...)
	for _, x := range a.rows {
		found := false
		for _, y := range b.rows {
			row := append(append([]any(nil), x...), y...)
			if truth(on(&scope{cols: out.cols, row: row})) {
				out.rows = append(out.rows, row)
				found = true
			}
		}
		if left && !found {
			row := append([]any(nil), x...)
			for range b.cols {
				row = append(row, nil)
			}
			out.rows = append(out.rows, row)
		}
	}
	return out
}

func sortScopes(g []*scope, os []ordering) {
	for i := 1; i < len(g); i++ {
		for j := i; j > 0 && before2(g[j], g[j-1], os); j-- {
			g[j], g[j-1] = g[j-1], g[j]
		}
	}
}

func before2(a, b *scope, os []ordering) bool {
	for _, o := range os {
		x, y := o.e(a), o.e(b)
		if same(x, y) {
			continue
		}
		return less(x, y) != o.desc
	}
	return false
}

func less(x, y any) bool {
	switch a := x.(type) {
	case string:
		b, _ := y.(string)
		return a < b
	case int64:
		b, _ := y.(int64)
		return a < b
	}
	return x == nil && y != nil
}

func sameRow(a, b []any) bool {
	for i := range a {
		if !same(a[i], b[i]) {
			return false
		}
	}
	return true
}

func same(a, b any) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case string:
		y, ok := b.(string)
		return ok && x == y
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	}
	return false
}

func truth(v any) bool { b, ok := v.(bool); return ok && b }

func text(v any) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case int64:
		return strconv.FormatInt(x, 10), true
	case bool:
		if x {
			return "true", true
		}
		return "false", true
	}
	return "", false
}

// ---- expressions ----

func (p *sqlParser) expr() expr {
	e := p.and()
	for p.word("OR") {
		a, b := e, p.and()
		e = func(s *scope) any { return truth(a(s)) || truth(b(s)) }
	}
	return e
}

func (p *sqlParser) and() expr {
	e := p.not()
	for p.word("AND") {
		a, b := e, p.not()
		e = func(s *scope) any { return truth(a(s)) && truth(b(s)) }
	}
	return e
}

func (p *sqlParser) not() expr {
	if p.word("NOT") {
		a := p.not()
		return func(s *scope) any {
			v := a(s)
			if v == nil {
				return nil
			}
			return !truth(v)
		}
	}
	return p.comparison()
}

func (p *sqlParser) comparison() expr {
	a := p.concat()
	neg := false
	switch {
	case p.word("IS", "NOT", "NULL"):
		return func(s *scope) any { return a(s) != nil }
	case p.word("IS", "NULL"):
		return func(s *scope) any { return a(s) == nil }
	case p.op("="):
		return compare(a, p.concat(), func(x, y any) bool { return same(x, y) })
	case p.op("!="), p.op("<>"):
		return compare(a, p.concat(), func(x, y any) bool { return !same(x, y) })
	case p.op("<"):
		return compare(a, p.concat(), less)
	case p.op(">"):
		return compare(a, p.concat(), func(x, y any) bool { return less(y, x) })
	case p.word("NOT", "IN"):
		neg = true
	case p.word("IN"):
	default:
		return a
	}
	p.need(p.op("("), "(")
	var list []expr
	if p.word("SELECT") {
		q, _ := p.query()
		for _, r := range q.rows {
			v := r[0]
			list = append(list, func(*scope) any { return v })
		}
	} else {
		for {
			list = append(list, p.expr())
			if !p.op(",") {
				break
			}
		}
	}
	p.need(p.op(")"), ")")
	return func(s *scope) any {
		x := a(s)
		if x == nil {
			return nil
		}
		for _, e := range list {
			if same(x, e(s)) {
				return !neg
			}
		}
		return neg
	}
}

func compare(a, b expr, f func(x, y any) bool) expr {
	return func(s *scope) any {
		x, y := a(s), b(s)
		if x == nil || y == nil {
			return nil
		}
		return f(x, y)
	}
}

func (p *sqlParser) concat() expr {
	e := p.primary()
	for p.op("||") {
		a, b := e, p.primary()
		e = func(s *scope) any {
			x, ok := text(a(s))
			y, ok2 := text(b(s))
			if !ok || !ok2 {
				return nil
			}
			return x + y
		}
	}
	return e
}

func (p *sqlParser) primary() expr {
	p.need(p.i < len(p.toks), "expression")
	t := p.toks[p.i]
	switch {
	case t.kind == 's':
		p.i++
		return func(*scope) any { return t.s }
	case t.kind == 'n':
		p.i++
		n, _ := strconv.Atoi(t.s)
		return func(*scope) any { return int64(n) }
	case t.kind == '?':
		p.i++
		p.need(len(p.args) > 0, "argument")
		v := p.args[0]
		p.args = p.args[1:]
		return func(*scope) any { return v }
	case p.op("("):
		e := p.expr()
		p.need(p.op(")"), ")")
		return e
	case p.word("NULL"):
		return func(*scope) any { return nil }
	case p.word("TRUE"):
		return func(*scope) any { return true }
	case p.word("FALSE"):
		return func(*scope) any { return false }
	case p.word("CASE"):
		var conds, vals []expr
		for p.word("WHEN") {
			conds = append(conds, p.expr())
			p.need(p.word("THEN"), "THEN")
			vals = append(vals, p.expr())
		}
		otherwise := expr(func(*scope) any { return nil })
		if p.word("ELSE") {
			otherwise = p.expr()
		}
		p.need(p.word("END"), "END")
		return func(s *scope) any {
			for i, c := range conds {
				if truth(c(s)) {
					return vals[i](s)
				}
			}
			return otherwise(s)
		}
	}
	n := p.name()
	if p.op("(") {
		return p.call(strings.ToLower(n))
	}
	tbl := ""
	if p.op(".") {
		tbl, n = strings.ToLower(n), p.name()
		if p.op("(") {
			return p.call(strings.ToLower(n))
		}
	}
	n = strings.ToLower(n)
	if p.op("::") { // to text
		p.name()
	}
	return func(s *scope) any {
		for i, c := range s.cols {
			if (tbl == "" || c.tbl == tbl) && strings.ToLower(c.name) == n {
				return s.row[i]
			}
		}
		p.fail("column " + tbl + "." + n)
		return nil
	}
}

func (p *sqlParser) call(n string) expr {
	switch n {
	case "database", "current_schema", "schema":
		p.need(p.op(")"), ")")
		v := "db"
		if p.d == PG {
			v = "public"
		}
		return func(*scope) any { return v }
	case "string_agg":
		e := p.expr()
		p.need(p.op(","), ",")
		sep := p.expr()
		var os []ordering
		if p.word("ORDER", "BY") {
			os = p.orders()
		}
		p.need(p.op(")"), ")")
		return func(s *scope) any {
			var in []*scope
			for _, r := range s.group {
				in = append(in, &scope{cols: s.cols, row: r})
			}
			sortScopes(in, os)
			out, some := "", false
			for _, x := range in {
				v, ok := text(e(x))
				if !ok {
					continue
				}
				if some {
					d, _ := text(sep(x))
					out += d
				}
				out += v
				some = true
			}
			if !some {
				return nil
			}
			return out
		}
	case "coalesce":
		var list []expr
		for {
			list = append(list, p.expr())
			if !p.op(",") {
				break
			}
		}
		p.need(p.op(")"), ")")
		return func(s *scope) any {
			for _, e := range list {
				if v := e(s); v != nil {
					return v
				}
			}
			return nil
		}
	case "pg_get_constraintdef":
		e := p.expr()
		if p.op(",") {
			p.expr()
		}
		p.need(p.op(")"), ")")
		return func(s *scope) any {
			oid, _ := e(s).(int64)
			return p.c.constraintDef(oid)
		}
	case "upper", "lower", "quote_ident", "trim":
		e := p.expr()
		p.need(p.op(")"), ")")
		return func(s *scope) any {
			v, ok := text(e(s))
			if !ok {
				return nil
			}
			switch n {
			case "upper":
				return strings.ToUpper(v)
			case "lower":
				return strings.ToLower(v)
			case "quote_ident":
				return ident(PG, v)
			}
			return v
		}
	}
	p.fail("function " + n)
	return nil
}
