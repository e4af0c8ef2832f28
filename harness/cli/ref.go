package cli

import "strings"

// splitSQL is the reference reading of a script: the statements between semicolons that are
// outside quotes and comments, with comments removed and blanks outside quotes squeezed.
// Quotes are '...', "..." and `...`, with the quote doubled inside or, for MySQL and Spanner,
// after a backslash; -- starts a comment.
func splitSQL(d int, s string) []string {
	var out []string
	var b strings.Builder
	blank := false
	put := func(c byte) {
		if blank && b.Len() > 0 {
			b.WriteByte(' ')
		}
		blank = false
		b.WriteByte(c)
	}
	end := func() {
		if b.Len() > 0 {
			out = append(out, b.String())
		}
		b.Reset()
		blank = false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '\'' || c == '"' || c == '`':
			put(c)
			for i++; i < len(s); i++ {
				b.WriteByte(s[i])
				if s[i] == '\\' && d >= MY && c != '`' && i+1 < len(s) {
					i++
					b.WriteByte(s[i])
					continue
				}
				if s[i] == c {
					break
				}
			}
		case c == '-' && i+1 < len(s) && s[i+1] == '-':
			for i < len(s) && s[i] != '\n' {
				i++
			}
			blank = true
		case c == ';':
			end()
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			blank = true
		default:
			put(c)
		}
	}
	end()
	return out
}

// has makes the database contain the schema of the script, for dialects whose catalog gives
// whole statements.
func (x *world) has(d int, ddl string) {
	x.answer = func(q string, args []any) table {
		switch {
		case d == MY && strings.Contains(q, "TABLE_NAME"):
			return table{[]string{"TABLE_NAME"}, [][]any{{"t"}}}
		case d == MY:
			return table{[]string{"Table", "Create Table"}, [][]any{{"t", strings.TrimSuffix(strings.TrimSpace(ddl), ";")}}}
		case d == CR || d == PG && strings.Contains(q, "-- CREATE TABLE"):
			return table{[]string{"create_statement"}, [][]any{{ddl}}}
		case d == PG:
			return table{[]string{"create_statement"}, nil}
		case strings.Contains(q, "FROM INFORMATION_SCHEMA.TABLES") && !strings.Contains(q, "ROW_DELETION"):
			return table{[]string{"TABLE_NAME"}, [][]any{{"t"}}}
		}
		return table{}
	}
}
