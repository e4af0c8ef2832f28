package h

import "strings"

// For package cli.

// Single is two schemas of the dialect that differ in one clause or object (thorough: two).
func Single(d int) (before, after string) { return layouts[d].single(d) }

// DiffText is the migration between the schemas, same that there is none, err that they cannot be read or compared.
func DiffText(d int, before, after string) (text string, same bool, err error) {
	b, err := parse(d, before)
	if err != nil {
		return "", false, err
	}
	a, err := parse(d, after)
	if err != nil {
		return "", false, err
	}
	return diffText(b, a)
}

// SchemaDiff tells how the schema of the text differs from the one wanted, "" when it does not:
// the order of tables, constraints and indexes, the schema name public and an explicit NO ACTION
// do not matter.
func SchemaDiff(d int, text, want string) string {
	a, e := unordered(d, noPublic(text))
	if e != "" {
		return e
	}
	b, e := unordered(d, noPublic(want))
	if e != "" {
		return "wanted: " + e
	}
	a.plain()
	b.plain()
	if m := a.diff(b, false); m != "" {
		return m
	}
	for _, t := range a.tables {
		u := b.table(t.name)
		for i, c := range t.cols {
			if u.cols[i].name != c.name {
				return "column order"
			}
		}
	}
	return ""
}

// unordered is the schema of the statements in an order that works.
func unordered(d int, text string) (*refDB, string) {
	st, e := statements(d, text)
	if e != "" {
		return nil, e
	}
	return settle(&refDB{d: d}, st)
}

func (db *refDB) plain() {
	for _, t := range db.tables {
		for _, c := range t.cons {
			c.body = strings.ReplaceAll(c.body, "NO ACTION", "")
		}
	}
}

func noPublic(s string) string {
	return strings.ReplaceAll(s, "public.", "")
}

// Parses tells whether the dialect's parser takes the text.
func Parses(d int, s string) bool {
	_, err := parse(d, s)
	return err == nil
}
