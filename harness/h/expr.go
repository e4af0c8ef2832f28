package h

import "github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"

var exprOperands = [4][]string{
	{"#", "a", "'^'", "lower(c)", "(a)"},
	{"#", "a", "'^'", "lower(c)", "(a)"},
	{"#", "a", "'^'", "lower(c)", "(a)"},
	{"#", "a", "'^'", "LOWER(c)", "(a)"},
}

var exprOperators = [4][]string{
	{"+", "-", "*", "/", "||", "=", "<", ">", "<=", ">=", "<>", "AND", "OR"},
	{"+", "-", "*", "/", "||", "=", "<", ">", "<=", ">=", "<>", "AND", "OR"},
	{"+", "-", "*", "/", "=", "<", ">", "<=", ">=", "<>", "AND", "OR"},
	{"+", "-", "*", "/", "=", "<", ">", "<=", ">=", "<>", "AND", "OR"},
}

// expression is a table with an expression in a default or a check: an operand with up to two signs or NOT, an operator with spaces around it or
// (between letters none) without, and another such operand, in parentheses and followed by a third or not.
func expression(d int) string {
	operator := pick("operator", exprOperators[d])
	sign := pick("sign", []string{"", "- ", "- - ", "NOT "})
	lefts := exprOperands[d]
	if sym.Tier() == 0 {
		lefts = lefts[1:4]
	}
	left, right := pick("left", lefts), sign+pick("right", exprOperands[d])
	e := left + " " + operator + " " + right
	switch sym.Choice("form", 4) {
	case 1:
		if operator > "A" && operator < "Z" || sign != "" {
			sym.Stop()
		}
		e = left + operator + right
	case 2:
		e = "(" + e + ") * " + right
	case 3:
		e = sign + left + " - (" + right + " " + operator + " " + left + ")"
	}
	col := " DEFAULT (" + e + ")"
	con := ""
	if sym.Bool("check") {
		col, con = "", ", CONSTRAINT k CHECK ("+e+")"
	}
	return symbols("l", with(with(wideText[d], "b "+wideInt[d]+col), con))
}

// C03_*_expressions: a default or a check of an expression of two or three operands (three kinds first, thorough: five; then five kinds), one of twelve or thirteen operators, signs and NOT, parentheses,
// with or without spaces.
func C03_postgres_expressions()    { faithful(PG, expression(PG)) }
func C03_cockroachdb_expressions() { faithful(CR, expression(CR)) }
func C03_mysql_expressions()       { faithful(MY, expression(MY)) }
func C03_spanner_expressions()     { faithful(SP, expression(SP)) }

// C04_*_expressions: as C03_*_expressions.
func C04_postgres_expressions()    { fixpoint(PG, expression(PG)) }
func C04_cockroachdb_expressions() { fixpoint(CR, expression(CR)) }
func C04_mysql_expressions()       { fixpoint(MY, expression(MY)) }
func C04_spanner_expressions()     { fixpoint(SP, expression(SP)) }

// C05_*_expressions: as C03_*_expressions, compared with itself.
func C05_postgres_expressions()    { itselfOf(PG, expression(PG)) }
func C05_cockroachdb_expressions() { itselfOf(CR, expression(CR)) }
func C05_mysql_expressions()       { itselfOf(MY, expression(MY)) }
func C05_spanner_expressions()     { itselfOf(SP, expression(SP)) }

// exprPair is a table in which the default or the check of a column changes from one expression of three operands to another.
func exprPair(d int) (before, after string) {
	check := sym.Bool("check")
	expr := func(side string) string {
		e := pick(side, []string{"a $ b $ #", "(a $ b) $ #", "a $ (b $ #)", "- a $ b $ #", "- (a $ b) $ #", "a $ - b $ #"})
		e = with(with(e, pick(side, []string{"-", "OR"})), pick(side, []string{"-", "<"}))
		col, con := "b "+wideInt[d], ""
		if check {
			con = ", CONSTRAINT k CHECK (" + e + ")"
		} else {
			col += " DEFAULT (" + e + ")"
		}
		return symbols(side, with(with(wideText[d], col), con))
	}
	return expr("l"), expr("r")
}

// C06_expressions: a default or a check changes from one to another of 24 expressions of three operands (two operators, parentheses, a sign).
// Every dialect.
func C06_expressions() {
	d := sym.Choice("dialect", 4)
	b, a := exprPair(d)
	converges(d, b, a)
}
