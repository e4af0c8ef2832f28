package h

import "github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"

// many is a schema with many of one thing: tables, each of which refers to the one before it (or is interleaved in it), columns,
// constraints or indexes; every one with an arbitrary digit.
func many(d int, side string, what, n int) string {
	typ := " " + intType[d]
	digit := func() string { return string([]byte{sym.ByteIn(side, "12")}) }
	pk := func(cols string) string {
		if d == SP {
			return ") PRIMARY KEY (" + cols + ")"
		}
		return ", CONSTRAINT t_pkey PRIMARY KEY (" + cols + "))"
	}
	if what == 0 {
		s := ""
		for i := 0; i < n; i++ {
			k, o := string(rune('0'+i)), string(rune('0'+i-1))
			s += "CREATE TABLE t" + k + " (a" + typ + ", b" + typ + ", CONSTRAINT c" + k + " CHECK (b > " + digit() + ")"
			switch {
			case i == 0:
				s += pk("a")
			case d == SP && i%2 == 1:
				s += pk("a, b")[:len(pk("a, b"))] + ", INTERLEAVE IN PARENT t" + o
				if i > 2 {
					s += " ON DELETE CASCADE"
				}
			default:
				s += ", CONSTRAINT f" + k + " FOREIGN KEY (a) REFERENCES t" + o + " (a)" + pk("a")
			}
			s += ";"
		}
		return s
	}
	s := "CREATE TABLE t (a" + typ + " NOT NULL, b" + typ
	if what == 1 {
		for i := 0; i < n; i++ {
			k := string(rune('0' + i))
			if d == SP {
				s += ", c" + k + " STRING(" + digit() + ")"
			} else {
				s += ", c" + k + " VARCHAR(" + digit() + ")"
			}
		}
	}
	if what == 2 {
		for i := 0; i < n; i++ {
			k := string(rune('0' + i))
			s += ", CONSTRAINT c" + k + " CHECK (b > " + digit() + ")"
		}
	}
	s += pk("a") + ";"
	if what == 3 {
		for i := 0; i < n; i++ {
			k := string(rune('0' + i))
			s += "CREATE INDEX i" + k + " ON t (b"
			if i%2 == int(digit()[0]-'1') {
				s += ", a"
			}
			s += ");"
		}
	}
	return s
}

func most() int { return 5 + 3*sym.Tier() }

func manyPair(d int) (before, after string) {
	what := sym.Choice("what", 4)
	n := most()
	return many(d, "l", what, sym.Choice("left", n)), many(d, "r", what, sym.Choice("right", n))
}

func manySchema(d int) string {
	return many(d, "l", sym.Choice("what", 4), 1+sym.Choice("left", 3+most()))
}

// C03_many: parsed as declared; many of one thing per dialect: up to 4 (quick) or 7 (thorough) tables each referring to the one before or interleaved in it, columns, constraints or indexes on each side, every one with an arbitrary digit.
func C03_many() { d := sym.Choice("dialect", 4); faithful(d, manySchema(d)) }

// C04_many: printing and parsing again is a fixed point; many of one thing per dialect: up to 4 (quick) or 7 (thorough) tables each referring to the one before or interleaved in it, columns, constraints or indexes on each side, every one with an arbitrary digit.
func C04_many() { d := sym.Choice("dialect", 4); fixpoint(d, manySchema(d)) }

// C06_many: the migration leads to the target; many of one thing per dialect: up to 4 (quick) or 7 (thorough) tables each referring to the one before or interleaved in it, columns, constraints or indexes on each side, every one with an arbitrary digit.
func C06_many() { d := sym.Choice("dialect", 4); b, a := manyPair(d); converges(d, b, a) }

// C07_many: only what differs is touched; many of one thing per dialect: up to 4 (quick) or 7 (thorough) tables each referring to the one before or interleaved in it, columns, constraints or indexes on each side, every one with an arbitrary digit.
func C07_many() { d := sym.Choice("dialect", 4); b, a := manyPair(d); spares(d, b, a) }

// C08_many: every statement runs; many of one thing per dialect: up to 4 (quick) or 7 (thorough) tables each referring to the one before or interleaved in it, columns, constraints or indexes on each side, every one with an arbitrary digit.
func C08_many() { d := sym.Choice("dialect", 4); b, a := manyPair(d); inOrder(d, b, a) }

// C09_many: from and to the empty schema; many of one thing per dialect: up to 4 (quick) or 7 (thorough) tables each referring to the one before or interleaved in it, columns, constraints or indexes on each side, every one with an arbitrary digit.
func C09_many() { d := sym.Choice("dialect", 4); fromAndToNothing(d, manySchema(d)) }

// C10_many: inputs stay as they were and the output is determined; many of one thing per dialect: up to 4 (quick) or 7 (thorough) tables each referring to the one before or interleaved in it, columns, constraints or indexes on each side, every one with an arbitrary digit.
func C10_many() { d := sym.Choice("dialect", 4); b, a := manyPair(d); pure(d, b, a) }
