package cli

import (
	"errors"
	"strconv"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/zz_verif/h"
	"github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"
)

// A catalog is the content of a database; what the queries of ddlctl see of it is computed by
// evaluating them over the relations of the dialect's catalog.

type catCol struct {
	name, typ     string
	length        any // characters, int64
	precision     any
	scale         any
	deflt         any // string
	nullable      string
	option, value string // Spanner
}

type catCon struct {
	name, kind string // PRIMARY KEY, UNIQUE, FOREIGN KEY, CHECK
	cols       []string
	ref        string
	refCols    []string
	update     string
	del        string
	check      string
}

type catIdx struct {
	name   string
	unique bool
	cols   []string
	desc   []bool
}

type catTable struct {
	schema, name string
	view         bool
	text         string // MySQL, CockroachDB: what SHOW CREATE says
	cols         []catCol
	cons         []catCon
	idx          []catIdx
	pk           *catIdx // Spanner
	parent       any     // Spanner
	onDelete     any     // Spanner
	policy       any     // Spanner
}

type catalog struct {
	d        int
	tables   []*catTable
	backward bool // rows come in the opposite order
}

func ident(d int, s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] >= 'A' && s[i] <= 'Z' && d == PG {
			return `"` + s + `"`
		}
	}
	return s
}

func idents(d int, s []string) string {
	var o []string
	for _, n := range s {
		o = append(o, ident(d, n))
	}
	return strings.Join(o, ", ")
}

func (c catCon) def(d int) string {
	switch c.kind {
	case "CHECK":
		return "CHECK (" + c.check + ")"
	case "FOREIGN KEY":
		s := "FOREIGN KEY (" + idents(d, c.cols) + ") REFERENCES " + ident(d, c.ref) + " (" + idents(d, c.refCols) + ")"
		if c.update != "NO ACTION" {
			s += " ON UPDATE " + c.update
		}
		if c.del != "NO ACTION" {
			s += " ON DELETE " + c.del
		}
		return s
	}
	return c.kind + " (" + idents(d, c.cols) + ")"
}

func (x catIdx) list(d int) string {
	var o []string
	for i, n := range x.cols {
		n = ident(d, n)
		if x.desc != nil && x.desc[i] {
			n += " DESC"
		}
		o = append(o, n)
	}
	return strings.Join(o, ", ")
}

func (x catIdx) def(d int, t *catTable) string {
	s := "CREATE "
	if x.unique {
		s += "UNIQUE "
	}
	s += "INDEX " + ident(d, x.name) + " ON "
	if d == PG {
		return s + t.schema + "." + ident(d, t.name) + " USING btree (" + x.list(d) + ")"
	}
	return s + t.name + " (" + x.list(d) + ")"
}

// public is the schema ddlctl reads.
func public(d int) string {
	switch d {
	case PG:
		return "public"
	case MY:
		return "db"
	}
	return ""
}

// script is the schema as DDL.
func (c *catalog) script() string {
	out := ""
	for _, t := range c.tables {
		if t.view || c.d != CR && t.schema != public(c.d) {
			continue
		}
		if t.text != "" {
			out += t.text + ";\n"
			continue
		}
		var parts []string
		for _, k := range t.cols {
			s := ident(c.d, k.name) + " " + k.typ
			if n, ok := k.length.(int64); ok {
				s += "(" + strconv.FormatInt(n, 10) + ")"
			}
			if n, ok := k.scale.(int64); ok && k.typ == "numeric" {
				s += "(" + strconv.FormatInt(k.precision.(int64), 10) + ", " + strconv.FormatInt(n, 10) + ")"
			}
			if v, ok := k.deflt.(string); ok {
				if c.d == SP {
					v = "(" + v + ")"
				}
				s += " DEFAULT " + v
			}
			if k.nullable == "NO" {
				s += " NOT NULL"
			}
			if k.option != "" {
				s += " OPTIONS (" + k.option + " = " + k.value + ")"
			}
			parts = append(parts, s)
		}
		for _, k := range t.cons {
			parts = append(parts, "CONSTRAINT "+ident(c.d, k.name)+" "+k.def(c.d))
		}
		out += "CREATE TABLE " + ident(c.d, t.name) + " (\n  " + strings.Join(parts, ",\n  ") + "\n)"
		if c.d == SP {
			out += " PRIMARY KEY (" + t.pk.list(c.d) + ")"
			if p, ok := t.parent.(string); ok {
				out += ",\nINTERLEAVE IN PARENT " + p
				if a, ok := t.onDelete.(string); ok && a == "CASCADE" {
					out += " ON DELETE CASCADE"
				}
			}
			if p, ok := t.policy.(string); ok && p != "" {
				out += ",\nROW DELETION POLICY (" + p + ")"
			}
		}
		out += ";\n"
		for _, x := range t.idx {
			out += x.def(c.d, &catTable{schema: "public", name: t.name}) + ";\n"
		}
	}
	return out
}

func rel(names string, rows [][]any) *relation {
	r := &relation{rows: rows}
	for _, n := range strings.Fields(names) {
		r.cols = append(r.cols, field{"", n})
	}
	return r
}

// relation is one relation of the dialect's catalog.
func (c *catalog) relation(name string) *relation {
	r := c.rows(name)
	if r != nil && c.backward {
		n := len(r.rows)
		for i := 0; i < n/2; i++ {
			r.rows[i], r.rows[n-1-i] = r.rows[n-1-i], r.rows[i]
		}
	}
	return r
}

func (c *catalog) rows(name string) *relation {
	name = strings.TrimPrefix(name, "pg_catalog.")
	switch c.d {
	case PG:
		return c.pg(name)
	case SP:
		return c.spanner(name)
	case MY:
		if name == "information_schema.tables" {
			var rows [][]any
			for _, t := range c.tables {
				rows = append(rows, []any{t.schema, t.name, kindOfTable(t)})
			}
			return rel("TABLE_SCHEMA TABLE_NAME TABLE_TYPE", rows)
		}
	}
	return nil
}

func kindOfTable(t *catTable) string {
	if t.view {
		return "VIEW"
	}
	return "BASE TABLE"
}

func (c *catalog) pg(name string) *relation {
	var rows [][]any
	switch name {
	case "information_schema.tables":
		for _, t := range c.tables {
			rows = append(rows, []any{t.schema, t.name, kindOfTable(t)})
		}
		return rel("table_schema table_name table_type", rows)
	case "information_schema.columns":
		for _, t := range c.tables {
			for i, k := range t.cols {
				rows = append(rows, []any{t.schema, t.name, k.name, int64(i + 1), k.deflt, k.nullable, k.typ, k.length, k.precision, k.scale})
			}
		}
		return rel("table_schema table_name column_name ordinal_position column_default is_nullable data_type character_maximum_length numeric_precision numeric_scale", rows)
	case "information_schema.table_constraints":
		for _, t := range c.tables {
			for _, k := range t.cons {
				rows = append(rows, []any{t.schema, k.name, t.schema, t.name, k.kind})
			}
			for i, k := range t.cols {
				if k.nullable == "NO" && !t.view {
					rows = append(rows, []any{t.schema, "2200_1_" + strconv.Itoa(i+1) + "_not_null", t.schema, t.name, "CHECK"})
				}
			}
		}
		return rel("constraint_schema constraint_name table_schema table_name constraint_type", rows)
	case "information_schema.key_column_usage":
		for _, t := range c.tables {
			for _, k := range t.cons {
				for i, n := range k.cols {
					var pos any
					if k.kind == "CHECK" {
						continue
					}
					if k.kind == "FOREIGN KEY" {
						pos = int64(i + 1)
					}
					rows = append(rows, []any{t.schema, k.name, t.schema, t.name, n, int64(i + 1), pos})
				}
			}
		}
		return rel("constraint_schema constraint_name table_schema table_name column_name ordinal_position position_in_unique_constraint", rows)
	case "information_schema.referential_constraints":
		for _, t := range c.tables {
			for _, k := range t.cons {
				if k.kind == "FOREIGN KEY" {
					rows = append(rows, []any{t.schema, k.name, t.schema, k.ref + "_pkey", k.update, k.del})
				}
			}
		}
		return rel("constraint_schema constraint_name unique_constraint_schema unique_constraint_name update_rule delete_rule", rows)
	case "information_schema.constraint_column_usage":
		for _, t := range c.tables {
			for _, k := range t.cons {
				n, cols := k.ref, k.refCols
				if k.kind != "FOREIGN KEY" {
					n, cols = t.name, k.cols
				}
				for _, col := range cols {
					rows = append(rows, []any{t.schema, n, col, t.schema, k.name})
				}
			}
		}
		return rel("table_schema table_name column_name constraint_schema constraint_name", rows)
	case "information_schema.check_constraints":
		for _, t := range c.tables {
			for _, k := range t.cons {
				if k.kind == "CHECK" {
					rows = append(rows, []any{t.schema, k.name, k.check})
				}
			}
		}
		return rel("constraint_schema constraint_name check_clause", rows)
	case "pg_namespace":
		for i, n := range c.schemas() {
			rows = append(rows, []any{int64(10 + i), n})
		}
		return rel("oid nspname", rows)
	case "pg_class":
		for i, t := range c.tables {
			kind := "r"
			if t.view {
				kind = "v"
			}
			rows = append(rows, []any{int64(100 + i), t.name, c.schemaOID(t.schema), kind})
		}
		return rel("oid relname relnamespace relkind", rows)
	case "pg_constraint":
		for i, t := range c.tables {
			for j, k := range t.cons {
				rows = append(rows, []any{int64(1000 + 100*i + j), k.name, c.schemaOID(t.schema), strings.ToLower(k.kind[:1]), int64(100 + i)})
			}
			for j, k := range t.cols {
				if k.nullable == "NO" && !t.view { // as of PostgreSQL 18
					rows = append(rows, []any{int64(1050 + 100*i + j), t.name + "_" + k.name + "_not_null", c.schemaOID(t.schema), "n", int64(100 + i)})
				}
			}
		}
		return rel("oid conname connamespace contype conrelid", rows)
	case "pg_indexes":
		for _, t := range c.tables {
			for _, k := range t.cons {
				if k.kind == "PRIMARY KEY" || k.kind == "UNIQUE" {
					rows = append(rows, []any{t.schema, t.name, k.name, catIdx{name: k.name, unique: true, cols: k.cols}.def(PG, t)})
				}
			}
			for _, x := range t.idx {
				rows = append(rows, []any{t.schema, t.name, x.name, x.def(PG, t)})
			}
		}
		return rel("schemaname tablename indexname indexdef", rows)
	}
	return nil
}

func (c *catalog) schemas() []string { return []string{"public", "other"} }

func (c *catalog) schemaOID(n string) any {
	for i, s := range c.schemas() {
		if s == n {
			return int64(10 + i)
		}
	}
	return nil
}

// constraintDef is pg_get_constraintdef.
func (c *catalog) constraintDef(oid int64) any {
	for i, t := range c.tables {
		for j, k := range t.cons {
			if oid == int64(1000+100*i+j) {
				return k.def(PG)
			}
		}
	}
	return nil
}

func (c *catalog) spanner(name string) *relation {
	var rows [][]any
	switch name {
	case "information_schema.tables":
		for _, t := range c.tables {
			rows = append(rows, []any{t.schema, t.name, kindOfTable(t), t.parent, t.onDelete, t.policy})
		}
		rows = append(rows, []any{"INFORMATION_SCHEMA", "TABLES", "VIEW", nil, nil, nil})
		return rel("TABLE_SCHEMA TABLE_NAME TABLE_TYPE PARENT_TABLE_NAME ON_DELETE_ACTION ROW_DELETION_POLICY_EXPRESSION", rows)
	case "information_schema.columns":
		for _, t := range c.tables {
			for i, k := range t.cols {
				rows = append(rows, []any{t.schema, t.name, k.name, int64(i + 1), k.deflt, k.nullable, k.typ})
			}
		}
		return rel("TABLE_SCHEMA TABLE_NAME COLUMN_NAME ORDINAL_POSITION COLUMN_DEFAULT IS_NULLABLE SPANNER_TYPE", rows)
	case "information_schema.column_options":
		for _, t := range c.tables {
			for _, k := range t.cols {
				if k.option != "" {
					rows = append(rows, []any{t.schema, t.name, k.name, k.option, "BOOL", k.value})
				}
			}
		}
		return rel("TABLE_SCHEMA TABLE_NAME COLUMN_NAME OPTION_NAME OPTION_TYPE OPTION_VALUE", rows)
	case "information_schema.indexes":
		for _, t := range c.tables {
			if t.pk != nil {
				rows = append(rows, []any{t.schema, t.name, "PRIMARY_KEY", "PRIMARY_KEY", "", true, false, false})
			}
			for _, x := range t.idx {
				rows = append(rows, []any{t.schema, t.name, x.name, "INDEX", "", x.unique, false, false})
			}
		}
		return rel("TABLE_SCHEMA TABLE_NAME INDEX_NAME INDEX_TYPE PARENT_TABLE_NAME IS_UNIQUE IS_NULL_FILTERED SPANNER_IS_MANAGED", rows)
	case "information_schema.index_columns":
		for _, t := range c.tables {
			if t.pk != nil {
				rows = append(rows, t.pk.columns(t, "PRIMARY_KEY")...)
			}
			for _, x := range t.idx {
				rows = append(rows, x.columns(t, "INDEX")...)
			}
		}
		return rel("TABLE_SCHEMA TABLE_NAME INDEX_NAME INDEX_TYPE COLUMN_NAME ORDINAL_POSITION COLUMN_ORDERING", rows)
	}
	return nil
}

func (x catIdx) columns(t *catTable, kind string) [][]any {
	var rows [][]any
	for i, n := range x.cols {
		o := "ASC"
		if x.desc != nil && x.desc[i] {
			o = "DESC"
		}
		rows = append(rows, []any{t.schema, t.name, x.name, kind, n, int64(i + 1), o})
	}
	return rows
}

// answers makes the database of the world hold the catalog.
func (x *world) holds(c *catalog) {
	x.answer = func(q string, args []any) table {
		t, ok := evaluate(c, q, args)
		if !ok {
			return c.show(q)
		}
		return t
	}
}

// show answers the SHOW statements.
func (c *catalog) show(q string) table {
	p := &sqlParser{d: c.d}
	p.lex(q)
	switch {
	case c.d == CR && p.word("SHOW", "CREATE", "ALL", "TABLES"):
		var rows [][]any
		for _, t := range c.tables {
			rows = append(rows, []any{t.text + ";"})
		}
		return table{[]string{"create_statement"}, rows}
	case c.d == MY && p.word("SHOW", "CREATE", "TABLE"):
		n := p.name()
		if p.op(".") {
			n = p.name()
		}
		for _, t := range c.tables {
			if t.name != n || t.schema != public(MY) {
				continue
			}
			if t.view {
				return table{[]string{"View", "Create View", "character_set_client", "collation_connection"}, [][]any{{n, "CREATE VIEW `v` AS select 1", "utf8mb4", "utf8mb4"}}}
			}
			return table{[]string{"Table", "Create Table"}, [][]any{{n, t.text}}}
		}
		return table{}
	}
	p.fail(q)
	return table{}
}

// quoted tells whether the names that need quotes have them.
func quoted(c *catalog, s string) bool {
	if c.d != PG {
		return true
	}
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch == '\'' || ch == '"' {
			for i++; i < len(s) && s[i] != ch; i++ {
			}
			continue
		}
		j := i
		for j < len(s) && (s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] == '_') {
			j++
		}
		if j > i {
			if w := s[i:j]; w == "Order" {
				return false
			}
			i = j - 1
		}
	}
	return true
}

// shows checks what show prints of the catalog.
func shows(c *catalog) {
	x := newWorld()
	showsIn(x, c, "show", "--dialect", dialects[c.d], "dsn")
}

func showsIn(x *world, c *catalog, args ...string) {
	x.holds(c)
	err := x.run(args...)
	sym.Observe("catalog", c.script())
	sym.Observe("shown", x.out)
	sym.Assert(err == nil, "show fails")
	sym.Reach("shown")
	m := h.SchemaDiff(c.d, x.out, c.script())
	sym.Observe("difference", m)
	sym.Assert(m == "", "the text does not declare what the catalog says")
	sym.Assert(quoted(c, x.out), "a name that needs quotes has none")
	sym.Assert(h.Parses(c.d, x.out), "the parser refuses the text")
	sym.Assert(x.count("open") == x.count("close"), "connection not closed")
}

// textDefault is a text default of two symbolic bytes.
func textDefault(name string) string {
	b := sym.Bytes(name, 2, "ab ,;()-`\"|")
	return "'" + b + "'"
}

// yesNo is NO when the flag is set.
func nullable(notNull bool) string { return sym.IteStr(notNull, "NO", "YES") }

func pgColumn(n string) catCol {
	c := catCol{name: n, nullable: nullable(sym.Bool(n + ".notnull"))}
	switch sym.Choice(n+".type", 4) {
	case 0:
		c.typ, c.precision, c.scale = "integer", int64(32), int64(0)
	case 1:
		c.typ, c.length = "character varying", int64(10)
		if sym.Bool(n + ".long") {
			c.length = int64(255)
		}
	case 2:
		c.typ = "numeric"
		if sym.Bool(n + ".precise") {
			c.precision, c.scale = int64(10), int64(2)
		}
	case 3:
		c.typ = sym.Word(n+".name", []string{"boolean", "text", "jsonb", "timestamp with time zone", "timestamp without time zone", "double precision", "uuid", "bigint"})
	}
	switch sym.Choice(n+".default", 3) {
	case 1:
		c.deflt = textDefault(n+".literal") + "::text"
	case 2:
		c.deflt = "now()"
	}
	return c
}

// others are things a reader of the schema must not see: a table of the same name elsewhere and a view.
func others(d int) []*catTable {
	var out []*catTable
	z := []catCol{{name: "z", typ: "integer", nullable: "NO"}}
	if d == SP {
		z[0].typ = "INT64"
	}
	if d != CR && sym.Bool("elsewhere") {
		o := &catTable{schema: "other", name: "t", cols: z, text: "CREATE TABLE `t` (`z` int)"}
		switch d {
		case PG:
			o.cons = []catCon{{name: "t_pkey", kind: "PRIMARY KEY", cols: []string{"z"}}, {name: "i", kind: "UNIQUE", cols: []string{"z"}}}
			o.idx = []catIdx{{name: "oi", cols: []string{"z"}}}
		case SP:
			o.pk = &catIdx{name: "PRIMARY_KEY", cols: []string{"z"}}
			o.idx = []catIdx{{name: "oi", cols: []string{"z"}}}
			z[0].option, z[0].value = "allow_commit_timestamp", "true"
			o.policy = "OLDER_THAN(z, INTERVAL 9 DAY)"
		}
		out = append(out, o)
	}
	if d != CR && sym.Bool("view") {
		out = append(out, &catTable{schema: public(d), name: "v", view: true, cols: z})
	}
	return out
}

// C16_postgres_columns: tables t of one or two columns and u of one, each column of any of seven types with
// any default and nullability; a table t of another schema and a view may exist; rows in either order.
func C16_postgres_columns() {
	c := &catalog{d: PG, backward: sym.Bool("backward")}
	t := &catTable{schema: "public", name: "t", cols: []catCol{pgColumn("b")}}
	if sym.Bool("two") {
		k := catCol{name: "Order", typ: "integer", nullable: "YES"}
		if sym.Tier() > 0 {
			k = pgColumn("Order")
		}
		t.cols = append(t.cols, k)
	}
	c.tables = append(c.tables, t, &catTable{schema: "public", name: "u", cols: []catCol{{name: "b", typ: "text", nullable: "YES"}}})
	c.tables = append(c.tables, others(PG)...)
	shows(c)
}

// C16_postgres_constraints: tables t and u, any of a primary key of two columns in either order, a unique
// constraint, a check, foreign keys of both tables, possibly of the same name, with any actions, and
// indexes, one possibly of the name of a foreign key; a table t of another schema and a view may exist.
func C16_postgres_constraints() {
	c := &catalog{d: PG, backward: sym.Bool("backward")}
	col := func(n string) catCol { return catCol{name: n, typ: "integer", nullable: "YES"} }
	o := &catTable{schema: "public", name: "o", cols: []catCol{col("a"), col("b")}}
	o.cons = []catCon{{name: "o_pkey", kind: "PRIMARY KEY", cols: []string{"a", "b"}}}
	t := &catTable{schema: "public", name: "t", cols: []catCol{col("a"), col("b"), col("Order")}}
	u := &catTable{schema: "public", name: "u", cols: []catCol{col("a"), col("b")}}
	order := func(n string) []string {
		if sym.Bool(n) {
			return []string{"b", "a"}
		}
		return []string{"a", "b"}
	}
	actions := []string{"NO ACTION", "CASCADE"}
	switch sym.Choice("key", 3) {
	case 1:
		t.cons = append(t.cons, catCon{name: "t_pkey", kind: "PRIMARY KEY", cols: order("t.pk")})
	case 2:
		t.cons = append(t.cons, catCon{name: "t_pkey", kind: "PRIMARY KEY", cols: []string{"Order"}})
	}
	switch sym.Choice("constraint", 4) {
	case 1:
		t.cons = append(t.cons, catCon{name: "k", kind: "UNIQUE", cols: order("t.unique")})
	case 2:
		t.cons = append(t.cons, catCon{name: "k", kind: "CHECK", cols: []string{"a"}, check: "(a > " + sym.Bytes("t.check", 1, "0123456789") + ")"})
	case 3:
		k := catCon{name: "k", kind: "FOREIGN KEY", cols: []string{"b", "a"}, ref: "o", refCols: order("t.fk"), update: "NO ACTION", del: "NO ACTION"}
		if sym.Bool("t.fk.update") {
			k.update = sym.Word("t.fk.action", actions)
		} else {
			k.del = sym.Word("t.fk.action", actions)
		}
		t.cons = append(t.cons, k)
	}
	if sym.Bool("second") {
		u.cons = append(u.cons, catCon{name: sym.Word("u.fk.name", []string{"k", "l"}), kind: "FOREIGN KEY", cols: []string{"a"}, ref: "o", refCols: []string{"b"}, update: "NO ACTION", del: "CASCADE"})
	}
	if sym.Bool("index") {
		n := "i"
		if len(t.cons) == 0 || t.cons[len(t.cons)-1].kind != "UNIQUE" {
			n = sym.Word("index.name", []string{"i", "k"})
		}
		u.idx = append(u.idx, catIdx{name: n, unique: sym.Bool("index.unique"), cols: order("index.cols")})
	}
	c.tables = append(c.tables, t, u)
	if sym.Tier() > 0 {
		c.tables = append(c.tables, others(PG)...)
	}
	c.tables = append(c.tables, o)
	shows(c)
}

func spColumn(n string) catCol {
	c := catCol{name: n, nullable: nullable(sym.Bool(n + ".notnull"))}
	switch sym.Choice(n+".type", 3) {
	case 0:
		c.typ = sym.Word(n+".name", []string{"INT64", "BOOL", "STRING(36)", "STRING(MAX)"})
	case 1:
		c.typ = "STRING(MAX)"
		c.deflt = textDefault(n + ".literal")
	case 2:
		c.typ = "TIMESTAMP"
		switch sym.Choice(n+".attribute", 3) {
		case 0:
			c.deflt = "CURRENT_TIMESTAMP()"
		case 1:
			c.option, c.value = "allow_commit_timestamp", sym.IteStr(sym.Bool(n+".commit"), "true", "false")
		}
	}
	return c
}

// C16_spanner_columns: tables t of two columns and u of one, any types, defaults, options and nullability, with or
// without a row deletion policy; a table t of another schema and a view may exist; rows in either order.
func C16_spanner_columns() {
	c := &catalog{d: SP, backward: sym.Bool("backward")}
	t := &catTable{name: "t", cols: []catCol{spColumn("b"), {name: "a", typ: "INT64", nullable: "NO"}}, pk: &catIdx{name: "PRIMARY_KEY", cols: []string{"a"}}}
	if sym.Tier() > 0 {
		t.cols = append(t.cols, spColumn("e"))
	}
	u := &catTable{name: "u", cols: []catCol{{name: "b", typ: "STRING(36)", nullable: "NO"}}, pk: &catIdx{name: "PRIMARY_KEY", cols: []string{"b"}}}
	switch sym.Choice("policy", 3) {
	case 1:
		t.policy = ""
	case 2:
		t.policy = "OLDER_THAN(b, INTERVAL 3" + sym.Bytes("days", 1, "0123456789") + " DAY)"
	}
	c.tables = append(c.tables, t, u)
	c.tables = append(c.tables, others(SP)...)
	shows(c)
}

// C16_spanner_keys: tables t and u, the key of t of one or two columns in any order and direction, u interleaved
// or not, up to two indexes on t and one on u with columns in any order and direction; a table t of another schema
// and a view may exist; rows in either order.
func C16_spanner_keys() {
	c := &catalog{d: SP, backward: sym.Bool("backward")}
	cols := func() []catCol {
		return []catCol{{name: "a", typ: "INT64", nullable: "NO"}, {name: "b", typ: "INT64", nullable: "NO"}}
	}
	list := func(n string, x *catIdx) *catIdx {
		switch sym.Choice(n+".cols", 3) {
		case 0:
			x.cols = []string{"b"}
		case 1:
			x.cols = []string{"a", "b"}
		case 2:
			x.cols = []string{"b", "a"}
		}
		x.desc = make([]bool, len(x.cols))
		x.desc[len(x.cols)-1] = sym.Bool(n + ".desc")
		return x
	}
	t := &catTable{name: "t", cols: cols(), pk: list("t.key", &catIdx{name: "PRIMARY_KEY"})}
	u := &catTable{name: "u", cols: cols(), pk: &catIdx{name: "PRIMARY_KEY", cols: []string{"a", "b"}, desc: []bool{false, sym.Bool("u.desc")}}}
	switch sym.Choice("interleaved", 3) {
	case 1:
		u.parent, u.onDelete = "t", "NO ACTION"
	case 2:
		u.parent, u.onDelete = "t", "CASCADE"
	}
	switch sym.Choice("indexes", 3) {
	case 1:
		t.idx = append(t.idx, *list("i", &catIdx{name: "i", unique: sym.Bool("i.unique")}))
	case 2:
		t.idx = append(t.idx, catIdx{name: "j", cols: []string{"a"}}, *list("i", &catIdx{name: "i", unique: sym.Bool("i.unique")}))
	}
	if sym.Bool("u.index") {
		u.idx = append(u.idx, catIdx{name: "k", cols: []string{"b"}, unique: sym.Bool("k.unique")})
	}
	c.tables = append(c.tables, t, u)
	if sym.Tier() > 0 {
		c.tables = append(c.tables, others(SP)...)
	}
	shows(c)
}

// C16_names: two tables of two columns, with a key, an index and a default or an option; all names are arbitrary, of one or
// two characters of three each, so that one may be the start or the end of another, or the same in another table.
func C16_names() {
	d := []int{PG, SP}[sym.Choice("dialect", 2)]
	c := &catalog{d: d}
	long := sym.Choice("long", 4)
	n := 0
	name := func(what string) string {
		n++
		return sym.Bytes(what, 1+(n+long/2)%2*(1+long)%2, "at_")
	}
	for i := 0; i < 2; i++ {
		a, b := catCol{name: name("a"), nullable: "NO"}, catCol{name: name("b"), nullable: "YES"}
		sym.Assume(sym.Not(sym.Eq(a.name, b.name)))
		t := &catTable{schema: public(d), name: name("table"), cols: []catCol{a, b}}
		if i == 1 {
			sym.Assume(sym.Not(sym.Eq(t.name, c.tables[0].name)))
		}
		x := catIdx{name: "i" + name("index"), cols: []string{b.name}}
		if i == 1 {
			sym.Assume(sym.Not(sym.Eq(x.name, c.tables[0].idx[0].name)))
		}
		t.idx = []catIdx{x}
		if d == PG {
			t.cols[0].typ, t.cols[1].typ = "integer", "text"
			t.cols[i].deflt = "1"
			t.cons = []catCon{{name: "k" + x.name, kind: "PRIMARY KEY", cols: []string{a.name}}}
		} else {
			t.cols[0].typ, t.cols[1].typ = "INT64", "TIMESTAMP"
			t.cols[i].typ, t.cols[i].option, t.cols[i].value = "TIMESTAMP", "allow_commit_timestamp", "true"
			t.pk = &catIdx{name: "PRIMARY_KEY", cols: []string{a.name}}
		}
		c.tables = append(c.tables, t)
	}
	shows(c)
}

// C16_mysql: up to two tables, a default of any two characters; a table of another database and a view may exist.
func C16_mysql() {
	c := &catalog{d: MY, backward: sym.Bool("backward")}
	n := sym.Choice("tables", 3)
	for i := 0; i < n; i++ {
		name := []string{"t", "u"}[i]
		c.tables = append(c.tables, &catTable{schema: "db", name: name, text: "CREATE TABLE `" + name + "` (\n  `a` int NOT NULL DEFAULT " +
			textDefault(name) + ",\n  PRIMARY KEY (`a`),\n  KEY `i` (`a`)\n) ENGINE=InnoDB DEFAULT CHARSET=utf8mb4"})
	}
	c.tables = append(c.tables, others(MY)...)
	shows(c)
}

// C16_cockroachdb: up to two tables, a default of any two characters.
func C16_cockroachdb() {
	c := &catalog{d: CR}
	n := sym.Choice("tables", 3)
	for i := 0; i < n; i++ {
		name := []string{"t", "u"}[i]
		c.tables = append(c.tables, &catTable{name: name, text: "CREATE TABLE public." + name + " (\n\ta STRING NOT NULL DEFAULT " +
			textDefault(name) + ":::STRING,\n\tCONSTRAINT " + name + "_pkey PRIMARY KEY (a ASC),\n\tINDEX i (a ASC)\n)"})
	}
	shows(c)
}

// C16_faults: a database of two tables with an index refuses any one of the requests, for any reason.
func C16_faults() {
	c := small(sym.Choice("dialect", 4))
	x := newWorld()
	x.holds(c)
	x.fault = func(what, q string) error {
		if what != "close" && sym.Bool("fault") {
			if sym.Bool("other") {
				return errors.New(sym.Word("text", refusals))
			}
			return failure()
		}
		return nil
	}
	err := x.run("show", "--dialect", dialects[c.d], "dsn")
	for _, e := range x.log {
		sym.Observe(e.what, e.q)
		if e.err != nil {
			sym.Reach("refused")
			sym.Assert(err != nil, "a refused request is no error")
			sym.Assert(x.out == "", "part of the schema is shown")
		}
	}
	sym.Observe("shown", x.out)
	if err == nil {
		sym.Reach("shown")
		sym.Assert(h.SchemaDiff(c.d, x.out, c.script()) == "", "the text does not declare what the catalog says")
	}
	sym.Assert(x.opened() == x.count("close"), "connection not closed")
}

// small is a database of tables t and u, with an index on t.
func small(d int) *catalog {
	c := &catalog{d: d}
	for _, n := range []string{"t", "u"} {
		t := &catTable{schema: public(d), name: n, cols: []catCol{{name: "a", typ: "integer", nullable: "NO"}}}
		switch d {
		case PG:
			t.idx = []catIdx{{name: n + "i", cols: []string{"a"}}}
		case SP:
			t.cols[0].typ = "INT64"
			t.pk = &catIdx{name: "PRIMARY_KEY", cols: []string{"a"}}
			t.idx = []catIdx{{name: n + "i", cols: []string{"a"}}}
		default:
			t.text = "CREATE TABLE " + n + " (\n  a INTEGER NOT NULL,\n  INDEX i (a)\n)"
		}
		c.tables = append(c.tables, t)
	}
	return c
}

// C16_verbose: the debug or the trace mode, by its option or its environment variable; a database of two tables with an index.
func C16_verbose() {
	c := small(sym.Choice("dialect", 4))
	x := newWorld()
	showsIn(x, c, verbose(x, []string{"show", "--dialect", dialects[c.d], "dsn"})...)
}
