package h

import (
	"sort"

	crdb "github.com/kunitsucom/ddlctl/pkg/ddl/cockroachdb"
	my "github.com/kunitsucom/ddlctl/pkg/ddl/mysql"
	pg "github.com/kunitsucom/ddlctl/pkg/ddl/postgres"
	sp "github.com/kunitsucom/ddlctl/pkg/ddl/spanner"
	"github.com/kunitsucom/ddlctl/pkg/zz_verif/sym"
)

// lexer returns the token source of a dialect.
func lexer(d int, s string) func() (typ, lit string) {
	switch d {
	case PG:
		l := pg.NewLexer(s)
		return func() (string, string) { t := l.NextToken(); return string(t.Type), t.Literal.Str }
	case CR:
		l := crdb.NewLexer(s)
		return func() (string, string) { t := l.NextToken(); return string(t.Type), t.Literal.Str }
	case MY:
		l := my.NewLexer(s)
		return func() (string, string) { t := l.NextToken(); return string(t.Type), t.Literal.Str }
	}
	l := sp.NewLexer(s)
	return func() (string, string) { t := l.NextToken(); return string(t.Type), t.Literal.Str }
}

func isBlank(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }
func isWord(c byte) bool {
	return 'A' <= c && c <= 'Z' || 'a' <= c && c <= 'z' || '0' <= c && c <= '9' || c == '_' || c == '.'
}
func isQuote(d int, c byte) bool { return c == '\'' || c == '"' || c == '`' && d >= MY }

// skipBlank is the position of the next token text at or after p.
func skipBlank(s string, p int) int {
	for {
		for p < len(s) && isBlank(s[p]) {
			p++
		}
		if p+1 < len(s) && s[p] == '-' && s[p+1] == '-' {
			for p < len(s) && s[p] != '\n' {
				p++
			}
			continue
		}
		return p
	}
}

// quoteEnd is the position after the quoted text that starts at p, or -1.
func quoteEnd(d int, s string, p int) int {
	q := s[p]
	for i := p + 1; i < len(s); i++ {
		if s[i] == '\\' && (d == SP || d == MY && q != '`') {
			i++
			continue
		}
		if s[i] != q {
			continue
		}
		if d != SP && i+1 < len(s) && s[i+1] == q {
			i++
			continue
		}
		return i + 1
	}
	return -1
}

var punct = map[string]string{
	"(": "OPEN_PAREN", ")": "CLOSE_PAREN", ",": "COMMA", ";": "SEMICOLON", "=": "EQUAL", ">": "GREATER", "<": "LESS",
	"+": "PLUS", "-": "MINUS", "*": "ASTERISK", "/": "SLASH", "||": "STRING_CONCAT", "::": "TYPECAST", ":::": "TYPE_ANNOTATION",
}

// coverText checks that the tokens of s are exactly its non-blank, non-comment text.
func coverText(d int, s string) {
	sym.Observe("input", s)
	next := lexer(d, s)
	p := 0
	for n := 0; ; n++ {
		sym.Assert(n <= len(s), "more tokens than bytes")
		typ, lit := next()
		p = skipBlank(s, p)
		if p >= len(s) {
			sym.Assert(typ == "EOF", "token after the end of the text: "+typ)
			typ, _ = next()
			sym.Assert(typ == "EOF", "the end of the text is not stable")
			sym.ObserveInt("tokens", n)
			return
		}
		sym.Assert(typ != "EOF", "the end is reported before the end of the text")
		c := s[p]
		end := p + 1
		switch {
		case isQuote(d, c):
			end = quoteEnd(d, s, p)
			if end < 0 {
				sym.Assert(typ == "ILLEGAL", "unterminated quoted text is taken for a token")
				return
			}
			sym.Assert(typ == "IDENT", "quoted text is not an identifier token")
		case isWord(c):
			for end < len(s) && isWord(s[end]) {
				end++
			}
			sym.Assert(typ != "ILLEGAL", "a word is refused")
		case d <= CR && c == '|' && end < len(s) && s[end] == '|':
			end++
		case d <= CR && c == ':' && end < len(s) && s[end] == ':':
			end++
			if d == CR && end < len(s) && s[end] == ':' {
				end++
			}
		}
		sym.Assert(len(lit) == end-p, "token text has the wrong length")
		sym.Assert(sym.Eq(lit, s[p:end]), "token text is not the source text")
		if !isQuote(d, c) && !isWord(c) {
			want := "ILLEGAL"
			if w, ok := punct[lit]; ok {
				want = w
			}
			sym.Assert(typ == want, "wrong token type for punctuation")
		}
		p = end
	}
}

func anyBytes(d int, n int, alphabet string) {
	k := sym.Choice("len", n+1)
	coverText(d, sym.Bytes("s", k, alphabet))
}

const quoteAlpha = "'\"`\\-\n a(;"

// Every byte string of length up to 4 (thorough 5).
func C02_postgres_anytext() { anyBytes(PG, 4+sym.Tier(), "") }

// Every byte string of length up to 4 (thorough 5).
func C02_cockroachdb_anytext() { anyBytes(CR, 4+sym.Tier(), "") }

// Every byte string of length up to 4 (thorough 5).
func C02_mysql_anytext() { anyBytes(MY, 4+sym.Tier(), "") }

// Every byte string of length up to 4 (thorough 5).
func C02_spanner_anytext() { anyBytes(SP, 4+sym.Tier(), "") }

// Every string over quotes, backslash, dash, newline, blank, letter, parenthesis and semicolon of length up to 5 (thorough 7).
func C02_postgres_quotes() { anyBytes(PG, 5+2*sym.Tier(), quoteAlpha) }

// Every string over quotes, backslash, dash, newline, blank, letter, parenthesis and semicolon of length up to 5 (thorough 7).
func C02_cockroachdb_quotes() { anyBytes(CR, 5+2*sym.Tier(), quoteAlpha) }

// Every string over quotes, backslash, dash, newline, blank, letter, parenthesis and semicolon of length up to 5 (thorough 7).
func C02_mysql_quotes() { anyBytes(MY, 5+2*sym.Tier(), quoteAlpha) }

// Every string over quotes, backslash, dash, newline, blank, letter, parenthesis and semicolon of length up to 5 (thorough 7).
func C02_spanner_quotes() { anyBytes(SP, 5+2*sym.Tier(), quoteAlpha) }

func keywordCase(d int) {
	var ws []string
	for w := range keywords[d] {
		if w != "EQUAL" && w != "GREATER" && w != "LESS" {
			ws = append(ws, w)
		}
	}
	sort.Strings(ws)
	w := ws[sym.Choice("word", len(ws))]
	s := sym.CaseVar("case", w)
	sym.Observe("input", s)
	typ, lit := lexer(d, s+" x")()
	sym.Assert(sym.Eq(lit, s), "keyword text changed")
	sym.Assert(typ == keywords[d][w], "keyword not recognised in this letter case")
	typ, _ = lexer(d, s+"_")()
	sym.Assert(typ == "IDENT", "a longer word is taken for a keyword")
	if len(w) > 2 {
		short := s[:len(w)-1]
		if _, ok := keywords[d][w[:len(w)-1]]; !ok {
			typ, _ = lexer(d, short)()
			sym.Assert(typ == "IDENT", "a shorter word is taken for a keyword")
		}
	}
	for i := 0; i < len(s); i++ { // quoted keywords are identifiers
		typ, _ = lexer(d, "\""+s+"\"")()
		sym.Assert(typ == "IDENT", "a quoted keyword is not an identifier")
		break
	}
}

// Every keyword of the dialect in every combination of letter cases; the same word shortened, lengthened and quoted.
func C02_postgres_keywords() { keywordCase(PG) }

// Every keyword of the dialect in every combination of letter cases; the same word shortened, lengthened and quoted.
func C02_cockroachdb_keywords() { keywordCase(CR) }

// Every keyword of the dialect in every combination of letter cases; the same word shortened, lengthened and quoted.
func C02_mysql_keywords() { keywordCase(MY) }

// Every keyword of the dialect in every combination of letter cases; the same word shortened, lengthened and quoted.
func C02_spanner_keywords() { keywordCase(SP) }

func upperASCII(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

func words(d int) {
	n := 1 + sym.Choice("len", 4+sym.Tier())
	s := sym.Bytes("s", n, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0_.")
	sym.Observe("input", s)
	typ, lit := lexer(d, s)()
	sym.Assert(sym.Eq(lit, s), "word text changed")
	up := upperASCII(s)
	hit := false
	for w, t := range keywords[d] {
		if len(w) == n && t == typ {
			hit = sym.Or(hit, sym.Eq(up, w))
		}
	}
	any := false
	for w := range keywords[d] {
		if len(w) == n {
			any = sym.Or(any, sym.Eq(up, w))
		}
	}
	if typ == "IDENT" {
		sym.Assert(sym.Not(any), "a keyword is taken for an identifier")
	} else {
		sym.Assert(hit, "a word that is no keyword is taken for "+typ)
	}
}

// Every word of letters (both cases), digit, underscore and dot of length up to 4 (thorough 5).
func C02_postgres_words() { words(PG) }

// Every word of letters (both cases), digit, underscore and dot of length up to 4 (thorough 5).
func C02_cockroachdb_words() { words(CR) }

// Every word of letters (both cases), digit, underscore and dot of length up to 4 (thorough 5).
func C02_mysql_words() { words(MY) }

// Every word of letters (both cases), digit, underscore and dot of length up to 4 (thorough 5).
func C02_spanner_words() { words(SP) }
