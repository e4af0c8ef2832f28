From dbf2a7bdddcff0e68cc5309867b8e38809aa29af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:35 +0000
Subject: [PATCH 01/56] fix: lexer panics on an unterminated quoted literal

readQuotedLiteral sliced one byte past the end of the input. An unterminated
literal is now an ILLEGAL token, which the parsers report as an error.
---
 pkg/ddl/cockroachdb/lexar.go | 19 ++++++++++++-------
 pkg/ddl/mysql/lexar.go       | 19 ++++++++++++-------
 pkg/ddl/postgres/lexar.go    | 19 ++++++++++++-------
 pkg/ddl/spanner/lexar.go     | 19 ++++++++++++-------
 4 files changed, 48 insertions(+), 28 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index af40fb0..a367488 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -324,8 +324,11 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'':
-		tok.Type = TOKEN_IDENT
-		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		literal, ok := l.readQuotedLiteral(l.ch)
+		if !ok {
+			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
+		}
+		tok = Token{Type: TOKEN_IDENT, Literal: Literal{Str: literal}}
 	case '|':
 		if l.peekChar() == '|' {
 			ch := l.ch
@@ -386,17 +389,19 @@ func (l *Lexer) NextToken() Token {
 	return tok
 }
 
-// readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
-func (l *Lexer) readQuotedLiteral(quote byte) string {
+// readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。クォーテーションが閉じられていない場合は ok = false を返します。
+func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 	// position := l.position + 1 // クォーテーションの次の文字から開始
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
-			break
+		if l.position >= len(l.input) {
+			return l.input[position:], false
+		}
+		if l.ch == quote {
+			return l.input[position : l.position+1], true
 		}
 	}
-	return l.input[position : l.position+1]
 }
 
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index be26985..49dbc8c 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -347,8 +347,11 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'', '`':
-		tok.Type = TOKEN_IDENT
-		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		literal, ok := l.readQuotedLiteral(l.ch)
+		if !ok {
+			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
+		}
+		tok = Token{Type: TOKEN_IDENT, Literal: Literal{Str: literal}}
 	// MEMO: backup
 	// case '|':
 	// 	if l.peekChar() == '|' {
@@ -410,17 +413,19 @@ func (l *Lexer) NextToken() Token {
 	return tok
 }
 
-// readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
-func (l *Lexer) readQuotedLiteral(quote byte) string {
+// readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。クォーテーションが閉じられていない場合は ok = false を返します。
+func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 	// position := l.position + 1 // クォーテーションの次の文字から開始
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
-			break
+		if l.position >= len(l.input) {
+			return l.input[position:], false
+		}
+		if l.ch == quote {
+			return l.input[position : l.position+1], true
 		}
 	}
-	return l.input[position : l.position+1]
 }
 
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index 6a6be0d..f494f47 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -303,8 +303,11 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'':
-		tok.Type = TOKEN_IDENT
-		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		literal, ok := l.readQuotedLiteral(l.ch)
+		if !ok {
+			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
+		}
+		tok = Token{Type: TOKEN_IDENT, Literal: Literal{Str: literal}}
 	case '|':
 		if l.peekChar() == '|' {
 			ch := l.ch
@@ -360,17 +363,19 @@ func (l *Lexer) NextToken() Token {
 	return tok
 }
 
-// readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
-func (l *Lexer) readQuotedLiteral(quote byte) string {
+// readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。クォーテーションが閉じられていない場合は ok = false を返します。
+func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 	// position := l.position + 1 // クォーテーションの次の文字から開始
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
-			break
+		if l.position >= len(l.input) {
+			return l.input[position:], false
+		}
+		if l.ch == quote {
+			return l.input[position : l.position+1], true
 		}
 	}
-	return l.input[position : l.position+1]
 }
 
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index fb7a2ad..741faf0 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -303,8 +303,11 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'', '`':
-		tok.Type = TOKEN_IDENT
-		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		literal, ok := l.readQuotedLiteral(l.ch)
+		if !ok {
+			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
+		}
+		tok = Token{Type: TOKEN_IDENT, Literal: Literal{Str: literal}}
 	// MEMO: backup
 	// case '|':
 	// 	if l.peekChar() == '|' {
@@ -366,17 +369,19 @@ func (l *Lexer) NextToken() Token {
 	return tok
 }
 
-// readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
-func (l *Lexer) readQuotedLiteral(quote byte) string {
+// readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。クォーテーションが閉じられていない場合は ok = false を返します。
+func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 	// position := l.position + 1 // クォーテーションの次の文字から開始
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
-			break
+		if l.position >= len(l.input) {
+			return l.input[position:], false
+		}
+		if l.ch == quote {
+			return l.input[position : l.position+1], true
 		}
 	}
-	return l.input[position : l.position+1]
 }
 
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
-- 
2.43.0


From 071c0fb0a53afcc2c6d59e9af2e48088b909043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:06 +0000
Subject: [PATCH 02/56] fix: lexer takes a NUL byte for the end of the input

Everything after the first NUL byte was silently dropped. The end is now the end
of the input; a NUL byte outside quotes is an ILLEGAL token.
---
 pkg/ddl/cockroachdb/lexar.go | 16 +++++++++++-----
 pkg/ddl/mysql/lexar.go       | 16 +++++++++++-----
 pkg/ddl/postgres/lexar.go    | 16 +++++++++++-----
 pkg/ddl/spanner/lexar.go     | 16 +++++++++++-----
 4 files changed, 44 insertions(+), 20 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index a367488..72601d7 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -309,6 +309,11 @@ func (l *Lexer) readChar() {
 	l.readPosition++
 }
 
+// isEOF は入力の終端に達しているかどうかを返します。
+func (l *Lexer) isEOF() bool {
+	return l.position >= len(l.input)
+}
+
 // NextToken は次のトークンを返します。
 //
 //nolint:funlen,cyclop
@@ -322,6 +327,10 @@ func (l *Lexer) NextToken() Token {
 		return l.NextToken()
 	}
 
+	if l.isEOF() {
+		return Token{Type: TOKEN_EOF, Literal: Literal{}}
+	}
+
 	switch l.ch {
 	case '"', '\'':
 		literal, ok := l.readQuotedLiteral(l.ch)
@@ -372,9 +381,6 @@ func (l *Lexer) NextToken() Token {
 		tok = newToken(TOKEN_ASTERISK, l.ch)
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
-	case 0:
-		tok.Literal = Literal{}
-		tok.Type = TOKEN_EOF
 	default:
 		if isLiteral(l.ch) {
 			lit := l.readIdentifier()
@@ -395,7 +401,7 @@ func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.position >= len(l.input) {
+		if l.isEOF() {
 			return l.input[position:], false
 		}
 		if l.ch == quote {
@@ -443,7 +449,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && !l.isEOF() {
 		l.readChar()
 	}
 }
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index 49dbc8c..92f6399 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -332,6 +332,11 @@ func (l *Lexer) readChar() {
 	l.readPosition++
 }
 
+// isEOF は入力の終端に達しているかどうかを返します。
+func (l *Lexer) isEOF() bool {
+	return l.position >= len(l.input)
+}
+
 // NextToken は次のトークンを返します。
 //
 //nolint:funlen,cyclop
@@ -345,6 +350,10 @@ func (l *Lexer) NextToken() Token {
 		return l.NextToken()
 	}
 
+	if l.isEOF() {
+		return Token{Type: TOKEN_EOF, Literal: Literal{}}
+	}
+
 	switch l.ch {
 	case '"', '\'', '`':
 		literal, ok := l.readQuotedLiteral(l.ch)
@@ -396,9 +405,6 @@ func (l *Lexer) NextToken() Token {
 		tok = newToken(TOKEN_ASTERISK, l.ch)
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
-	case 0:
-		tok.Literal = Literal{}
-		tok.Type = TOKEN_EOF
 	default:
 		if isLiteral(l.ch) {
 			lit := l.readIdentifier()
@@ -419,7 +425,7 @@ func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.position >= len(l.input) {
+		if l.isEOF() {
 			return l.input[position:], false
 		}
 		if l.ch == quote {
@@ -467,7 +473,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && !l.isEOF() {
 		l.readChar()
 	}
 }
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index f494f47..1b9ef78 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -288,6 +288,11 @@ func (l *Lexer) readChar() {
 	l.readPosition++
 }
 
+// isEOF は入力の終端に達しているかどうかを返します。
+func (l *Lexer) isEOF() bool {
+	return l.position >= len(l.input)
+}
+
 // NextToken は次のトークンを返します。
 //
 //nolint:funlen,cyclop
@@ -301,6 +306,10 @@ func (l *Lexer) NextToken() Token {
 		return l.NextToken()
 	}
 
+	if l.isEOF() {
+		return Token{Type: TOKEN_EOF, Literal: Literal{}}
+	}
+
 	switch l.ch {
 	case '"', '\'':
 		literal, ok := l.readQuotedLiteral(l.ch)
@@ -346,9 +355,6 @@ func (l *Lexer) NextToken() Token {
 		tok = newToken(TOKEN_ASTERISK, l.ch)
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
-	case 0:
-		tok.Literal = Literal{}
-		tok.Type = TOKEN_EOF
 	default:
 		if isLiteral(l.ch) {
 			lit := l.readIdentifier()
@@ -369,7 +375,7 @@ func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.position >= len(l.input) {
+		if l.isEOF() {
 			return l.input[position:], false
 		}
 		if l.ch == quote {
@@ -417,7 +423,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && !l.isEOF() {
 		l.readChar()
 	}
 }
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index 741faf0..1f3d47f 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -288,6 +288,11 @@ func (l *Lexer) readChar() {
 	l.readPosition++
 }
 
+// isEOF は入力の終端に達しているかどうかを返します。
+func (l *Lexer) isEOF() bool {
+	return l.position >= len(l.input)
+}
+
 // NextToken は次のトークンを返します。
 //
 //nolint:funlen,cyclop
@@ -301,6 +306,10 @@ func (l *Lexer) NextToken() Token {
 		return l.NextToken()
 	}
 
+	if l.isEOF() {
+		return Token{Type: TOKEN_EOF, Literal: Literal{}}
+	}
+
 	switch l.ch {
 	case '"', '\'', '`':
 		literal, ok := l.readQuotedLiteral(l.ch)
@@ -352,9 +361,6 @@ func (l *Lexer) NextToken() Token {
 		tok = newToken(TOKEN_ASTERISK, l.ch)
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
-	case 0:
-		tok.Literal = Literal{}
-		tok.Type = TOKEN_EOF
 	default:
 		if isLiteral(l.ch) {
 			lit := l.readIdentifier()
@@ -375,7 +381,7 @@ func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.position >= len(l.input) {
+		if l.isEOF() {
 			return l.input[position:], false
 		}
 		if l.ch == quote {
@@ -423,7 +429,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && !l.isEOF() {
 		l.readChar()
 	}
 }
-- 
2.43.0


From 95945449a8d5bf19530d61e9acb2a5fc07adccf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:10 +0000
Subject: [PATCH 03/56] fix: lexer re-encodes bytes above 0x7f

string(byte) yields the UTF-8 encoding of the code point, so the literal of an
ILLEGAL token, which expressions keep, was not the text that was read.
---
 pkg/ddl/cockroachdb/lexar.go | 2 +-
 pkg/ddl/mysql/lexar.go       | 2 +-
 pkg/ddl/postgres/lexar.go    | 2 +-
 pkg/ddl/spanner/lexar.go     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index 72601d7..fd82cb6 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -419,7 +419,7 @@ func (l *Lexer) peekChar() byte {
 }
 
 func newToken(tokenType TokenType, ch byte) Token {
-	return Token{Type: tokenType, Literal: Literal{Str: string(ch)}}
+	return Token{Type: tokenType, Literal: Literal{Str: string([]byte{ch})}}
 }
 
 func (l *Lexer) readIdentifier() string {
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index 92f6399..d4fc4b3 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -443,7 +443,7 @@ func (l *Lexer) peekChar() byte {
 }
 
 func newToken(tokenType TokenType, ch byte) Token {
-	return Token{Type: tokenType, Literal: Literal{Str: string(ch)}}
+	return Token{Type: tokenType, Literal: Literal{Str: string([]byte{ch})}}
 }
 
 func (l *Lexer) readIdentifier() string {
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index 1b9ef78..aaf87b2 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -393,7 +393,7 @@ func (l *Lexer) peekChar() byte {
 }
 
 func newToken(tokenType TokenType, ch byte) Token {
-	return Token{Type: tokenType, Literal: Literal{Str: string(ch)}}
+	return Token{Type: tokenType, Literal: Literal{Str: string([]byte{ch})}}
 }
 
 func (l *Lexer) readIdentifier() string {
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index 1f3d47f..fd40056 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -399,7 +399,7 @@ func (l *Lexer) peekChar() byte {
 }
 
 func newToken(tokenType TokenType, ch byte) Token {
-	return Token{Type: tokenType, Literal: Literal{Str: string(ch)}}
+	return Token{Type: tokenType, Literal: Literal{Str: string([]byte{ch})}}
 }
 
 func (l *Lexer) readIdentifier() string {
-- 
2.43.0


From faa30628ec393762aca1c0b436a5dd9269cf14d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 04/56] fix: lexer splits quoted text at an escaped quotation
 mark

'it''s' was read as the two tokens 'it' and 's' and printed back as 'it' 's',
which no database accepts. A doubled quotation mark (and a backslash escape in
MySQL and Spanner) now stays inside the token.
---
 pkg/ddl/cockroachdb/lexar.go  | 6 +++++-
 pkg/ddl/cockroachdb/parser.go | 2 +-
 pkg/ddl/mysql/lexar.go        | 7 ++++++-
 pkg/ddl/mysql/parser.go       | 2 +-
 pkg/ddl/postgres/lexar.go     | 6 +++++-
 pkg/ddl/postgres/parser.go    | 2 +-
 pkg/ddl/spanner/lexar.go      | 5 ++++-
 pkg/ddl/spanner/parser.go     | 2 +-
 8 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index fd82cb6..dddf467 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -404,9 +404,13 @@ func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 		if l.isEOF() {
 			return l.input[position:], false
 		}
-		if l.ch == quote {
+		if l.ch != quote {
+			continue
+		}
+		if l.peekChar() != quote {
 			return l.input[position : l.position+1], true
 		}
+		l.readChar() // doubled quotation mark
 	}
 }
 
diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 2723959..50b30d5 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -24,7 +24,7 @@ func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
 		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          strings.TrimSuffix(strings.TrimPrefix(raw, q), q),
 				QuotationMark: q,
 				Raw:           raw,
 			}
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index d4fc4b3..ce0b2f2 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -428,7 +428,12 @@ func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 		if l.isEOF() {
 			return l.input[position:], false
 		}
-		if l.ch == quote {
+		switch {
+		case l.ch == '\\' && quote != '`':
+			l.readChar() // escaped character
+		case l.ch == quote && l.peekChar() == quote:
+			l.readChar() // doubled quotation mark
+		case l.ch == quote:
 			return l.input[position : l.position+1], true
 		}
 	}
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 4b72a3c..19bf2be 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -23,7 +23,7 @@ func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
 		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          strings.TrimSuffix(strings.TrimPrefix(raw, q), q),
 				QuotationMark: q,
 				Raw:           raw,
 			}
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index aaf87b2..ed92396 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -378,9 +378,13 @@ func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 		if l.isEOF() {
 			return l.input[position:], false
 		}
-		if l.ch == quote {
+		if l.ch != quote {
+			continue
+		}
+		if l.peekChar() != quote {
 			return l.input[position : l.position+1], true
 		}
+		l.readChar() // doubled quotation mark
 	}
 }
 
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 7d3d3af..8db2863 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -24,7 +24,7 @@ func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
 		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          strings.TrimSuffix(strings.TrimPrefix(raw, q), q),
 				QuotationMark: q,
 				Raw:           raw,
 			}
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index fd40056..c8ed497 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -384,7 +384,10 @@ func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 		if l.isEOF() {
 			return l.input[position:], false
 		}
-		if l.ch == quote {
+		switch {
+		case l.ch == '\\':
+			l.readChar() // escaped character
+		case l.ch == quote:
 			return l.input[position : l.position+1], true
 		}
 	}
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 4e1177a..a295dc7 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -23,7 +23,7 @@ func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
 		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          strings.TrimSuffix(strings.TrimPrefix(raw, q), q),
 				QuotationMark: q,
 				Raw:           raw,
 			}
-- 
2.43.0


From a693834c5dcbfb0b90bd1748ee46be1ec18a401a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:55 +0000
Subject: [PATCH 05/56] fix: DEFAULT or AS that starts with a data type name
 panics

The type was appended to an expression that does not exist yet.
---
 pkg/ddl/cockroachdb/parser.go | 4 ++--
 pkg/ddl/postgres/parser.go    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 50b30d5..a767cd6 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -384,7 +384,7 @@ LabelDefault:
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-				def.Value.Idents = append(def.Value.Idents, NewRawIdent(p.currentToken.Literal.Str))
+				def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
 			}
@@ -432,7 +432,7 @@ LabelAs:
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-				as.Value.Idents = append(as.Value.Idents, NewRawIdent(p.currentToken.Literal.Str))
+				as.Value = as.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
 			}
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 8db2863..a069caf 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -357,7 +357,7 @@ LabelDefault:
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-				def.Value.Idents = append(def.Value.Idents, NewRawIdent(p.currentToken.Literal.Str))
+				def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
 			}
-- 
2.43.0


From b61a816c8b5c27bbab23700c29626ee402696096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:36 +0000
Subject: [PATCH 06/56] fix: spanner parser panics on a table with an unnamed
 CHECK and another constraint

---
 pkg/ddl/spanner/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index a295dc7..c71476d 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -687,6 +687,9 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if err != nil {
 			return nil, apperr.Errorf("parseExpr: %w", err)
 		}
+		if constraintName == nil {
+			constraintName = NewRawIdent(tableName.StringForDiff() + "_check")
+		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
 		return constraint, nil
-- 
2.43.0


From 75698a52bc065c8486c08642e6f648cfc5d8deaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:19 +0000
Subject: [PATCH 07/56] fix: parser skips the token after an inline CHECK or
 REFERENCES

---
 pkg/ddl/cockroachdb/parser.go | 3 +++
 pkg/ddl/mysql/parser.go       | 2 ++
 pkg/ddl/postgres/parser.go    | 3 +++
 pkg/ddl/spanner/parser.go     | 4 ++--
 4 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index a767cd6..0cb4ac7 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -581,9 +581,11 @@ LabelConstraints:
 					onAction += " " + p.currentToken.Literal.String() // current = ACTION
 				}
 				constraint.OnAction = onAction
+				p.nextToken() // current = the token after ON action
 			}
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+			continue // current = the token after the constraint
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{ //diff:ignore-line-postgres-cockroach
 				Unique:  true, //diff:ignore-line-postgres-cockroach
@@ -604,6 +606,7 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+			continue // current = the token after the constraint
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
 		default:
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 19bf2be..52897c9 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -571,6 +571,7 @@ LabelConstraints:
 
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+			continue // current = the token after the constraint
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{
 				Unique:  true,
@@ -591,6 +592,7 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+			continue // current = the token after the constraint
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN, TOKEN_COMMENT:
 			break LabelConstraints
 		default:
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index a069caf..b500ae2 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -474,9 +474,11 @@ LabelConstraints:
 					onAction += " " + p.currentToken.Literal.String() // current = ACTION
 				}
 				constraint.OnAction = onAction
+				p.nextToken() // current = the token after ON action
 			}
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+			continue // current = the token after the constraint
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&UniqueConstraint{ //diff:ignore-line-postgres-cockroach
 				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
@@ -496,6 +498,7 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+			continue // current = the token after the constraint
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
 		default:
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index c71476d..3f122ca 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -595,6 +595,7 @@ LabelConstraints:
 			}
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+			continue // current = the token after the constraint
 		case TOKEN_CHECK:
 			if err := p.checkPeekToken(TOKEN_OPEN_PAREN); err != nil {
 				return nil, apperr.Errorf("checkPeekToken: %w", err)
@@ -609,13 +610,12 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+			continue // current = the token after the constraint
 		case TOKEN_OPTIONS, TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
 		default:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		}
-
-		p.nextToken()
 	}
 
 	return constraints, nil
-- 
2.43.0


From 7e8c84148df929d6e4bdc7dc615140c00c240db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:46 +0000
Subject: [PATCH 08/56] fix: parser refuses a table-level FOREIGN KEY with ON
 DELETE or ON UPDATE

---
 pkg/ddl/cockroachdb/parser.go | 1 +
 pkg/ddl/postgres/parser.go    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 0cb4ac7..f566bec 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -697,6 +697,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				p.nextToken()                                     // current = ACTION
 				onAction += " " + p.currentToken.Literal.String() // current = ACTION
 			}
+			p.nextToken() // current = the token after ON action
 		}
 		if constraintName == nil {
 			name := tableName.StringForDiff()
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index b500ae2..a4a287c 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -589,6 +589,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				p.nextToken()                                     // current = ACTION
 				onAction += " " + p.currentToken.Literal.String() // current = ACTION
 			}
+			p.nextToken() // current = the token after ON action
 		}
 		if constraintName == nil {
 			name := tableName.StringForDiff()
-- 
2.43.0


From 43297835fd68d691323a25b44916e6e8c9326376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:08 +0000
Subject: [PATCH 09/56] fix: mysql FOREIGN KEY loses its ON DELETE and ON
 UPDATE actions

---
 pkg/ddl/mysql/ddl_table.go | 6 ++++++
 pkg/ddl/mysql/parser.go    | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index c0dfe95..128f3f8 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -104,6 +104,9 @@ func (c *ForeignKeyConstraint) String() string {
 	str += " (" + stringz.JoinStringers(", ", c.Columns...) + ")"
 	str += " REFERENCES " + c.Ref.String()
 	str += " (" + stringz.JoinStringers(", ", c.RefColumns...) + ")"
+	if c.OnAction != "" {
+		str += " " + c.OnAction
+	}
 	return str
 }
 
@@ -130,6 +133,9 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 		str += v.StringForDiff()
 	}
 	str += ")"
+	if c.OnAction != "" {
+		str += " " + c.OnAction
+	}
 	return str
 }
 
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 52897c9..cd0fb75 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -566,7 +566,7 @@ LabelConstraints:
 				if err != nil {
 					return nil, apperr.Errorf("parseOnAction: %w", err)
 				}
-				constraint.OnAction = onAction
+				constraint.OnAction += " " + onAction
 			}
 
 			constraint.RefColumns = idents
-- 
2.43.0


From 97303f311262ee825c2c15c1deb5c7181e3f98f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:40 +0000
Subject: [PATCH 10/56] fix: default name of an unnamed FOREIGN KEY contains
 the sort order of its columns

---
 pkg/ddl/cockroachdb/parser.go | 2 +-
 pkg/ddl/mysql/parser.go       | 2 +-
 pkg/ddl/spanner/parser.go     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index f566bec..11a2345 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -702,7 +702,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if constraintName == nil {
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
-				name += "_" + ident.StringForDiff()
+				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
 			constraintName = NewRawIdent(name)
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index cd0fb75..cc05996 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -683,7 +683,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if constraintName == nil {
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
-				name += "_" + ident.StringForDiff()
+				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
 			constraintName = NewRawIdent(name)
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 3f122ca..248c347 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -664,7 +664,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if constraintName == nil {
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
-				name += "_" + ident.StringForDiff()
+				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
 			constraintName = NewRawIdent(name)
-- 
2.43.0


From afad46bc56bbd70e1637a1f54140c7128ea50c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:13 +0000
Subject: [PATCH 11/56] fix: postgres and cockroachdb parsers refuse the CHECK
 constraints they print

---
 pkg/ddl/cockroachdb/parser.go | 15 +++++++++++++++
 pkg/ddl/postgres/parser.go    | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 11a2345..ba27bf7 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -748,6 +748,21 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			p.nextToken() // current = (
 		}
 		return c, nil
+	case TOKEN_CHECK:
+		if constraintName == nil {
+			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+		}
+		if err := p.checkPeekToken(TOKEN_OPEN_PAREN); err != nil {
+			return nil, apperr.Errorf("checkPeekToken: %w", err)
+		}
+		p.nextToken() // current = (
+		idents, err := p.parseExpr()
+		if err != nil {
+			return nil, apperr.Errorf("parseExpr: %w", err)
+		}
+		constraint := &CheckConstraint{Name: constraintName}
+		constraint.Expr = constraint.Expr.Append(idents...)
+		return constraint, nil
 	default:
 		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 	}
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index a4a287c..33c9953 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -627,6 +627,21 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		c.Name = constraintName
 		c.Columns = idents
 		return c, nil
+	case TOKEN_CHECK:
+		if constraintName == nil {
+			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+		}
+		if err := p.checkPeekToken(TOKEN_OPEN_PAREN); err != nil {
+			return nil, apperr.Errorf("checkPeekToken: %w", err)
+		}
+		p.nextToken() // current = (
+		idents, err := p.parseExpr()
+		if err != nil {
+			return nil, apperr.Errorf("parseExpr: %w", err)
+		}
+		constraint := &CheckConstraint{Name: constraintName}
+		constraint.Expr = constraint.Expr.Append(idents...)
+		return constraint, nil
 	default:
 		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 	}
-- 
2.43.0


From fd296038c2d2ce0e28542cd4d84f5dbd1b6473f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:38 +0000
Subject: [PATCH 12/56] fix: cockroachdb parser loses the token after USING and
 refuses it at the end of a statement

---
 pkg/ddl/cockroachdb/parser.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index ba27bf7..9be89ca 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -181,8 +181,6 @@ LabelColumns:
 		case p.isCurrentToken(TOKEN_COMMA):
 			p.nextToken()
 			continue
-		case p.isCurrentToken(TOKEN_SEMICOLON):
-			break LabelColumns
 		case p.isCurrentToken(TOKEN_CLOSE_PAREN):
 			switch p.peekToken.Type { //nolint:exhaustive
 			case TOKEN_SEMICOLON, TOKEN_EOF:
@@ -250,7 +248,6 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 			return nil, apperr.Errorf(errFmtPrefix+"parseExpr: %w", err)
 		}
 		createIndexStmt.UsingPreColumns = using
-		p.nextToken() // current = (
 	}
 
 	if err := p.checkCurrentToken(TOKEN_OPEN_PAREN); err != nil {
@@ -270,7 +267,6 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 			return nil, apperr.Errorf(errFmtPrefix+"parseExpr: %w", err)
 		}
 		createIndexStmt.UsingPostColumns = using
-		p.nextToken() // current = (
 	}
 
 	return createIndexStmt, nil
@@ -468,7 +464,7 @@ LabelAs:
 			}
 			using.With = &With{&Expr{with}}
 			continue
-		case TOKEN_NOT, TOKEN_COMMA, TOKEN_CLOSE_PAREN, TOKEN_VIRTUAL:
+		case TOKEN_NOT, TOKEN_COMMA, TOKEN_OPEN_PAREN, TOKEN_CLOSE_PAREN, TOKEN_VIRTUAL, TOKEN_SEMICOLON, TOKEN_EOF:
 			break LabelAs
 		default:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
@@ -745,7 +741,6 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				return nil, apperr.Errorf("parseExpr: %w", err)
 			}
 			c.UsingPostColumns = using
-			p.nextToken() // current = (
 		}
 		return c, nil
 	case TOKEN_CHECK:
-- 
2.43.0


From 1dd9bc20e2cb01222a9de37ae41c6ad73ef0eec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:04 +0000
Subject: [PATCH 13/56] fix: migration statements run before the statements
 they depend on

---
 pkg/ddl/cockroachdb/diff.go | 58 ++++++++++++++++++++++++++++++
 pkg/ddl/mysql/diff.go       | 58 ++++++++++++++++++++++++++++++
 pkg/ddl/postgres/diff.go    | 58 ++++++++++++++++++++++++++++++
 pkg/ddl/spanner/diff.go     | 71 ++++++++++++++++++++++++++++++++++++-
 4 files changed, 244 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/cockroachdb/diff.go b/pkg/ddl/cockroachdb/diff.go
index 5610efa..a9a1c1c 100644
--- a/pkg/ddl/cockroachdb/diff.go
+++ b/pkg/ddl/cockroachdb/diff.go
@@ -2,6 +2,7 @@ package cockroachdb
 
 import (
 	"reflect"
+	"slices"
 
 	errorz "github.com/kunitsucom/util.go/errors"
 	"github.com/kunitsucom/util.go/exp/diff/simplediff"
@@ -34,6 +35,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 				return nil, apperr.Errorf("%s: %T: %w", s.GetNameForDiff(), s, ddl.ErrNotSupported)
 			}
 		}
+		sortStmts(before, result.Stmts)
 		return result, nil
 	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, ddl.ErrNoDifference
@@ -101,9 +103,65 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	sortStmts(before, result.Stmts)
+
 	return result, nil
 }
 
+// sortStmts sorts the statements of a migration by what they depend on, keeping the order of the others:
+// what goes away is removed before the columns change, and what is new is added after that.
+func sortStmts(before *DDL, stmts []Stmt) {
+	slices.SortStableFunc(stmts, func(a, b Stmt) int {
+		return stmtOrder(before, a) - stmtOrder(before, b)
+	})
+	// a table may refer to the tables declared before it
+	if first := slices.IndexFunc(stmts, isDropTableStmt); first >= 0 {
+		last := first
+		for last < len(stmts) && isDropTableStmt(stmts[last]) {
+			last++
+		}
+		slices.Reverse(stmts[first:last])
+	}
+}
+
+func isDropTableStmt(stmt Stmt) bool {
+	_, ok := stmt.(*DropTableStmt)
+	return ok
+}
+
+//nolint:cyclop,gomnd
+func stmtOrder(before *DDL, stmt Stmt) int {
+	switch s := stmt.(type) {
+	case *DropIndexStmt:
+		return 1
+	case *DropTableStmt:
+		return 4
+	case *CreateTableStmt:
+		return 7
+	case *CreateIndexStmt:
+		if findStmtByTypeAndName(&CreateTableStmt{Name: s.TableName}, before.Stmts) != nil {
+			return 6
+		}
+		return 7
+	case *AlterTableStmt:
+		switch action := s.Action.(type) {
+		case *DropConstraint:
+			if table, ok := findStmtByTypeAndName(&CreateTableStmt{Name: s.Name}, before.Stmts).(*CreateTableStmt); ok {
+				if _, ok := findConstraintByName(action.Name.Name, table.Constraints).(*ForeignKeyConstraint); ok {
+					return 2
+				}
+			}
+			return 3
+		case *AddConstraint:
+			if _, ok := action.Constraint.(*ForeignKeyConstraint); ok {
+				return 8
+			}
+			return 6
+		}
+	}
+	return 5
+}
+
 func onlyLeftStmt(left, right *DDL) []Stmt {
 	result := make([]Stmt, 0)
 
diff --git a/pkg/ddl/mysql/diff.go b/pkg/ddl/mysql/diff.go
index 5df42d8..d39bb31 100644
--- a/pkg/ddl/mysql/diff.go
+++ b/pkg/ddl/mysql/diff.go
@@ -2,6 +2,7 @@ package mysql
 
 import (
 	"reflect"
+	"slices"
 
 	errorz "github.com/kunitsucom/util.go/errors"
 	"github.com/kunitsucom/util.go/exp/diff/simplediff"
@@ -34,6 +35,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 				return nil, apperr.Errorf("%s: %T: %w", s.GetNameForDiff(), s, ddl.ErrNotSupported)
 			}
 		}
+		sortStmts(before, result.Stmts)
 		return result, nil
 	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, ddl.ErrNoDifference
@@ -101,9 +103,65 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	sortStmts(before, result.Stmts)
+
 	return result, nil
 }
 
+// sortStmts sorts the statements of a migration by what they depend on, keeping the order of the others:
+// what goes away is removed before the columns change, and what is new is added after that.
+func sortStmts(before *DDL, stmts []Stmt) {
+	slices.SortStableFunc(stmts, func(a, b Stmt) int {
+		return stmtOrder(before, a) - stmtOrder(before, b)
+	})
+	// a table may refer to the tables declared before it
+	if first := slices.IndexFunc(stmts, isDropTableStmt); first >= 0 {
+		last := first
+		for last < len(stmts) && isDropTableStmt(stmts[last]) {
+			last++
+		}
+		slices.Reverse(stmts[first:last])
+	}
+}
+
+func isDropTableStmt(stmt Stmt) bool {
+	_, ok := stmt.(*DropTableStmt)
+	return ok
+}
+
+//nolint:cyclop,gomnd
+func stmtOrder(before *DDL, stmt Stmt) int {
+	switch s := stmt.(type) {
+	case *DropIndexStmt:
+		return 1
+	case *DropTableStmt:
+		return 4
+	case *CreateTableStmt:
+		return 7
+	case *CreateIndexStmt:
+		if findStmtByTypeAndName(&CreateTableStmt{Name: s.TableName}, before.Stmts) != nil {
+			return 6
+		}
+		return 7
+	case *AlterTableStmt:
+		switch action := s.Action.(type) {
+		case *DropConstraint:
+			if table, ok := findStmtByTypeAndName(&CreateTableStmt{Name: s.Name}, before.Stmts).(*CreateTableStmt); ok {
+				if _, ok := findConstraintByName(action.Name.Name, table.Constraints).(*ForeignKeyConstraint); ok {
+					return 2
+				}
+			}
+			return 3
+		case *AddConstraint:
+			if _, ok := action.Constraint.(*ForeignKeyConstraint); ok {
+				return 8
+			}
+			return 6
+		}
+	}
+	return 5
+}
+
 func onlyLeftStmt(left, right *DDL) []Stmt {
 	result := make([]Stmt, 0)
 
diff --git a/pkg/ddl/postgres/diff.go b/pkg/ddl/postgres/diff.go
index 8db9540..f520315 100644
--- a/pkg/ddl/postgres/diff.go
+++ b/pkg/ddl/postgres/diff.go
@@ -2,6 +2,7 @@ package postgres
 
 import (
 	"reflect"
+	"slices"
 
 	errorz "github.com/kunitsucom/util.go/errors"
 	"github.com/kunitsucom/util.go/exp/diff/simplediff"
@@ -34,6 +35,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 				return nil, apperr.Errorf("%s: %T: %w", s.GetNameForDiff(), s, ddl.ErrNotSupported)
 			}
 		}
+		sortStmts(before, result.Stmts)
 		return result, nil
 	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, ddl.ErrNoDifference
@@ -101,9 +103,65 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	sortStmts(before, result.Stmts)
+
 	return result, nil
 }
 
+// sortStmts sorts the statements of a migration by what they depend on, keeping the order of the others:
+// what goes away is removed before the columns change, and what is new is added after that.
+func sortStmts(before *DDL, stmts []Stmt) {
+	slices.SortStableFunc(stmts, func(a, b Stmt) int {
+		return stmtOrder(before, a) - stmtOrder(before, b)
+	})
+	// a table may refer to the tables declared before it
+	if first := slices.IndexFunc(stmts, isDropTableStmt); first >= 0 {
+		last := first
+		for last < len(stmts) && isDropTableStmt(stmts[last]) {
+			last++
+		}
+		slices.Reverse(stmts[first:last])
+	}
+}
+
+func isDropTableStmt(stmt Stmt) bool {
+	_, ok := stmt.(*DropTableStmt)
+	return ok
+}
+
+//nolint:cyclop,gomnd
+func stmtOrder(before *DDL, stmt Stmt) int {
+	switch s := stmt.(type) {
+	case *DropIndexStmt:
+		return 1
+	case *DropTableStmt:
+		return 4
+	case *CreateTableStmt:
+		return 7
+	case *CreateIndexStmt:
+		if findStmtByTypeAndName(&CreateTableStmt{Name: s.TableName}, before.Stmts) != nil {
+			return 6
+		}
+		return 7
+	case *AlterTableStmt:
+		switch action := s.Action.(type) {
+		case *DropConstraint:
+			if table, ok := findStmtByTypeAndName(&CreateTableStmt{Name: s.Name}, before.Stmts).(*CreateTableStmt); ok {
+				if _, ok := findConstraintByName(action.Name.Name, table.Constraints).(*ForeignKeyConstraint); ok {
+					return 2
+				}
+			}
+			return 3
+		case *AddConstraint:
+			if _, ok := action.Constraint.(*ForeignKeyConstraint); ok {
+				return 8
+			}
+			return 6
+		}
+	}
+	return 5
+}
+
 func onlyLeftStmt(left, right *DDL) []Stmt {
 	result := make([]Stmt, 0)
 
diff --git a/pkg/ddl/spanner/diff.go b/pkg/ddl/spanner/diff.go
index e960104..ceacfec 100644
--- a/pkg/ddl/spanner/diff.go
+++ b/pkg/ddl/spanner/diff.go
@@ -2,6 +2,7 @@ package spanner
 
 import (
 	"reflect"
+	"slices"
 
 	errorz "github.com/kunitsucom/util.go/errors"
 	"github.com/kunitsucom/util.go/exp/diff/simplediff"
@@ -34,6 +35,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 				return nil, apperr.Errorf("%s: %T: %w", s.GetNameForDiff(), s, ddl.ErrNotSupported)
 			}
 		}
+		sortStmts(before, result.Stmts)
 		return result, nil
 	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, ddl.ErrNoDifference
@@ -84,7 +86,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 		case *CreateIndexStmt:
 			if afterStmt := findStmtByTypeAndName(beforeStmt, after.Stmts); afterStmt != nil {
 				afterStmt := afterStmt.(*CreateIndexStmt) //nolint:forcetypeassert
-				if beforeStmt.StringForDiff() != afterStmt.StringForDiff() {
+				if beforeStmt.StringForDiff() != afterStmt.StringForDiff() || isRecreated(result.Stmts, beforeStmt.TableName) {
 					result.Stmts = append(result.Stmts,
 						&DropIndexStmt{
 							Comment: simplediff.Diff(beforeStmt.StringForDiff(), afterStmt.StringForDiff()).String(),
@@ -101,9 +103,76 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	sortStmts(before, result.Stmts)
+
 	return result, nil
 }
 
+// sortStmts sorts the statements of a migration by what they depend on, keeping the order of the others:
+// what goes away is removed before the columns change, and what is new is added after that.
+func sortStmts(before *DDL, stmts []Stmt) {
+	slices.SortStableFunc(stmts, func(a, b Stmt) int {
+		return stmtOrder(before, a) - stmtOrder(before, b)
+	})
+	// a table may refer to the tables declared before it
+	if first := slices.IndexFunc(stmts, isDropTableStmt); first >= 0 {
+		last := first
+		for last < len(stmts) && isDropTableStmt(stmts[last]) {
+			last++
+		}
+		slices.Reverse(stmts[first:last])
+	}
+}
+
+// isRecreated reports whether the migration drops the table and creates it again, which takes the indexes of the table along.
+func isRecreated(stmts []Stmt, tableName *ObjectName) bool {
+	table := &CreateTableStmt{Name: tableName}
+	return findStmtByTypeAndName(&DropTableStmt{Name: tableName}, stmts) != nil && findStmtByTypeAndName(table, stmts) != nil
+}
+
+func isDropTableStmt(stmt Stmt) bool {
+	_, ok := stmt.(*DropTableStmt)
+	return ok
+}
+
+//nolint:cyclop,gomnd
+func stmtOrder(before *DDL, stmt Stmt) int {
+	switch s := stmt.(type) {
+	case *DropIndexStmt:
+		return 1
+	case *DropTableStmt:
+		return 4
+	case *CreateTableStmt:
+		if findStmtByTypeAndName(s, before.Stmts) != nil { // dropped and created again
+			return 5
+		}
+		return 7
+	case *CreateIndexStmt:
+		if findStmtByTypeAndName(&CreateTableStmt{Name: s.TableName}, before.Stmts) != nil {
+			return 6
+		}
+		return 7
+	case *AlterTableStmt:
+		switch action := s.Action.(type) {
+		case *DropRowDeletionPolicy:
+			return 1
+		case *DropConstraint:
+			if table, ok := findStmtByTypeAndName(&CreateTableStmt{Name: s.Name}, before.Stmts).(*CreateTableStmt); ok {
+				if _, ok := findConstraintByName(action.Name.Name, table.Constraints).(*ForeignKeyConstraint); ok {
+					return 2
+				}
+			}
+			return 3
+		case *AddConstraint:
+			if _, ok := action.Constraint.(*ForeignKeyConstraint); ok {
+				return 8
+			}
+			return 6
+		}
+	}
+	return 5
+}
+
 func onlyLeftStmt(left, right *DDL) []Stmt {
 	result := make([]Stmt, 0)
 
-- 
2.43.0


From 10a0a046ebd9c3e7286a997116cc7b69a3900c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:57 +0000
Subject: [PATCH 14/56] fix: changed index method and column character set are
 not migrated

---
 pkg/ddl/mysql/diff_create_table.go   | 1 +
 pkg/ddl/postgres/ddl_index_create.go | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 2c4472b..9ec58af 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -261,6 +261,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 				Action: &ModifyColumn{
 					Name:          afterColumn.Name,
 					DataType:      afterColumn.DataType,
+					CharacterSet:  afterColumn.CharacterSet,
 					Collate:       afterColumn.Collate,
 					NotNull:       afterColumn.NotNull,
 					AutoIncrement: afterColumn.AutoIncrement,
diff --git a/pkg/ddl/postgres/ddl_index_create.go b/pkg/ddl/postgres/ddl_index_create.go
index 8790179..cc5b9c7 100644
--- a/pkg/ddl/postgres/ddl_index_create.go
+++ b/pkg/ddl/postgres/ddl_index_create.go
@@ -60,7 +60,9 @@ func (s *CreateIndexStmt) StringForDiff() string {
 	}
 	str += "INDEX "
 	str += s.Name.StringForDiff() + " ON " + s.TableName.StringForDiff()
-	// TODO: add USING
+	if using := strings.ToLower(stringz.JoinStringers(" ", s.Using...)); using != "" && using != "btree" { // btree is the default
+		str += " USING " + using
+	}
 	str += " ("
 	for i, c := range s.Columns {
 		if i > 0 {
-- 
2.43.0


From eac7101e0ff5b40a447fb4968d5e2ff282c334ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:01 +0000
Subject: [PATCH 15/56] fix: constraints are sorted by an inconsistent order

---
 pkg/ddl/cockroachdb/ddl_table.go | 10 +++-------
 pkg/ddl/mysql/ddl_table.go       | 10 +++-------
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index f41883f..e2ca389 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -28,14 +28,10 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	}
 	constraints = append(constraints, constraint)
 
-	sort.Slice(constraints, func(left, _ int) bool { //diff:ignore-line-postgres-cockroach
+	sort.SliceStable(constraints, func(left, right int) bool { //diff:ignore-line-postgres-cockroach
 		_, leftIsPrimaryKeyConstraint := constraints[left].(*PrimaryKeyConstraint) //diff:ignore-line-postgres-cockroach
-		switch {                                                                   //diff:ignore-line-postgres-cockroach
-		case leftIsPrimaryKeyConstraint: //diff:ignore-line-postgres-cockroach
-			return true //diff:ignore-line-postgres-cockroach
-		default: //diff:ignore-line-postgres-cockroach
-			return false //diff:ignore-line-postgres-cockroach
-		} //diff:ignore-line-postgres-cockroach
+		_, rightIsPrimaryKeyConstraint := constraints[right].(*PrimaryKeyConstraint) //diff:ignore-line-postgres-cockroach
+		return leftIsPrimaryKeyConstraint && !rightIsPrimaryKeyConstraint //diff:ignore-line-postgres-cockroach
 	}) //diff:ignore-line-postgres-cockroach
 
 	return constraints
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 128f3f8..49b05c1 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -28,14 +28,10 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	}
 	constraints = append(constraints, constraint)
 
-	sort.Slice(constraints, func(left, _ int) bool {
+	sort.SliceStable(constraints, func(left, right int) bool {
 		_, leftIsPrimaryKeyConstraint := constraints[left].(*PrimaryKeyConstraint)
-		switch {
-		case leftIsPrimaryKeyConstraint:
-			return true
-		default:
-			return false
-		}
+		_, rightIsPrimaryKeyConstraint := constraints[right].(*PrimaryKeyConstraint)
+		return leftIsPrimaryKeyConstraint && !rightIsPrimaryKeyConstraint
 	})
 
 	return constraints
-- 
2.43.0


From d004e439411bc73e76292cdf8154503f5d8a349b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:14 +0000
Subject: [PATCH 16/56] fix: index that becomes a constraint, or the reverse,
 is dropped as the wrong kind

---
 pkg/ddl/cockroachdb/ddl_table.go         |  4 +-
 pkg/ddl/cockroachdb/diff_create_table.go | 70 ++++++++++++------------
 pkg/ddl/mysql/diff_create_table.go       | 70 ++++++++++++------------
 3 files changed, 70 insertions(+), 74 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index e2ca389..2f078e8 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -29,9 +29,9 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	constraints = append(constraints, constraint)
 
 	sort.SliceStable(constraints, func(left, right int) bool { //diff:ignore-line-postgres-cockroach
-		_, leftIsPrimaryKeyConstraint := constraints[left].(*PrimaryKeyConstraint) //diff:ignore-line-postgres-cockroach
+		_, leftIsPrimaryKeyConstraint := constraints[left].(*PrimaryKeyConstraint)   //diff:ignore-line-postgres-cockroach
 		_, rightIsPrimaryKeyConstraint := constraints[right].(*PrimaryKeyConstraint) //diff:ignore-line-postgres-cockroach
-		return leftIsPrimaryKeyConstraint && !rightIsPrimaryKeyConstraint //diff:ignore-line-postgres-cockroach
+		return leftIsPrimaryKeyConstraint && !rightIsPrimaryKeyConstraint            //diff:ignore-line-postgres-cockroach
 	}) //diff:ignore-line-postgres-cockroach
 
 	return constraints
diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index b3b9b0f..74717be 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -103,46 +103,44 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
 		if afterConstraint != nil {
 			if beforeConstraint.StringForDiff() != afterConstraint.StringForDiff() {
+				switch beforeConstraint.(type) { //diff:ignore-line-postgres-cockroach
+				case *IndexConstraint: //diff:ignore-line-postgres-cockroach
+					// DROP INDEX index_name; //diff:ignore-line-postgres-cockroach
+					result.Stmts = append(result.Stmts, &DropIndexStmt{ //diff:ignore-line-postgres-cockroach
+						Comment: simplediff.Diff(beforeConstraint.String(), afterConstraint.String()).String(), //diff:ignore-line-postgres-cockroach
+						Name:    beforeConstraint.GetName(),                                                    //diff:ignore-line-postgres-cockroach
+					}) //diff:ignore-line-postgres-cockroach
+				default: //diff:ignore-line-postgres-cockroach
+					// ALTER TABLE table_name DROP CONSTRAINT constraint_name; //diff:ignore-line-postgres-cockroach
+					result.Stmts = append(result.Stmts, &AlterTableStmt{ //diff:ignore-line-postgres-cockroach
+						Comment: simplediff.Diff(beforeConstraint.String(), "").String(), //diff:ignore-line-postgres-cockroach
+						Name:    after.Name,                                              // ALTER TABLE RENAME TO で変更された後の可能性があるため after.Name を使用する //diff:ignore-line-postgres-cockroach
+						Action: &DropConstraint{ //diff:ignore-line-postgres-cockroach
+							Name: beforeConstraint.GetName(), //diff:ignore-line-postgres-cockroach
+						}, //diff:ignore-line-postgres-cockroach
+					}) //diff:ignore-line-postgres-cockroach
+				} //diff:ignore-line-postgres-cockroach
 				switch ac := afterConstraint.(type) { //diff:ignore-line-postgres-cockroach
 				case *IndexConstraint: //diff:ignore-line-postgres-cockroach
-					// DROP INDEX index_name;                               //diff:ignore-line-postgres-cockroach
 					// CREATE INDEX index_name ON table_name (column_name); //diff:ignore-line-postgres-cockroach
-					result.Stmts = append( //diff:ignore-line-postgres-cockroach
-						result.Stmts, //diff:ignore-line-postgres-cockroach
-						&DropIndexStmt{ //diff:ignore-line-postgres-cockroach
-							Comment: simplediff.Diff(beforeConstraint.String(), afterConstraint.String()).String(), //diff:ignore-line-postgres-cockroach
-							Name:    beforeConstraint.GetName(),                                                    //diff:ignore-line-postgres-cockroach
-						}, //diff:ignore-line-postgres-cockroach
-						&CreateIndexStmt{ //diff:ignore-line-postgres-cockroach
-							Unique:           ac.Unique,           //diff:ignore-line-postgres-cockroach
-							Name:             ac.GetName(),        //diff:ignore-line-postgres-cockroach
-							TableName:        after.Name,          //diff:ignore-line-postgres-cockroach
-							UsingPreColumns:  ac.UsingPreColumns,  //diff:ignore-line-postgres-cockroach
-							Columns:          ac.Columns,          //diff:ignore-line-postgres-cockroach
-							UsingPostColumns: ac.UsingPostColumns, //diff:ignore-line-postgres-cockroach
-						}, //diff:ignore-line-postgres-cockroach
-					) //diff:ignore-line-postgres-cockroach
+					result.Stmts = append(result.Stmts, &CreateIndexStmt{ //diff:ignore-line-postgres-cockroach
+						Unique:           ac.Unique,           //diff:ignore-line-postgres-cockroach
+						Name:             ac.GetName(),        //diff:ignore-line-postgres-cockroach
+						TableName:        after.Name,          //diff:ignore-line-postgres-cockroach
+						UsingPreColumns:  ac.UsingPreColumns,  //diff:ignore-line-postgres-cockroach
+						Columns:          ac.Columns,          //diff:ignore-line-postgres-cockroach
+						UsingPostColumns: ac.UsingPostColumns, //diff:ignore-line-postgres-cockroach
+					}) //diff:ignore-line-postgres-cockroach
 				default: //diff:ignore-line-postgres-cockroach
-					// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
-					// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
-					result.Stmts = append(
-						result.Stmts,
-						&AlterTableStmt{
-							Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
-							Name:    after.Name, // ALTER TABLE RENAME TO で変更された後の可能性があるため after.Name を使用する
-							Action: &DropConstraint{
-								Name: beforeConstraint.GetName(),
-							},
-						},
-						&AlterTableStmt{
-							Comment: simplediff.Diff("", afterConstraint.String()).String(),
-							Name:    after.Name,
-							Action: &AddConstraint{
-								Constraint: afterConstraint,
-								NotValid:   config.UseAlterTableAddConstraintNotValid,
-							},
-						},
-					)
+					// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint; //diff:ignore-line-postgres-cockroach
+					result.Stmts = append(result.Stmts, &AlterTableStmt{ //diff:ignore-line-postgres-cockroach
+						Comment: simplediff.Diff("", afterConstraint.String()).String(), //diff:ignore-line-postgres-cockroach
+						Name:    after.Name,                                             //diff:ignore-line-postgres-cockroach
+						Action: &AddConstraint{ //diff:ignore-line-postgres-cockroach
+							Constraint: afterConstraint,                           //diff:ignore-line-postgres-cockroach
+							NotValid:   config.UseAlterTableAddConstraintNotValid, //diff:ignore-line-postgres-cockroach
+						}, //diff:ignore-line-postgres-cockroach
+					}) //diff:ignore-line-postgres-cockroach
 				} //diff:ignore-line-postgres-cockroach
 			}
 			continue
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 9ec58af..6ab141e 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -106,49 +106,47 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
 		if afterConstraint != nil {
 			if beforeConstraint.StringForDiff() != afterConstraint.StringForDiff() {
-				switch ac := afterConstraint.(type) {
+				switch beforeConstraint.(type) {
 				case *IndexConstraint:
 					// DROP INDEX index_name;
-					// CREATE INDEX index_name ON table_name (column_name);
-					result.Stmts = append(
-						result.Stmts,
-						&DropIndexStmt{
-							Name: &ObjectName{
-								Schema: before.Name.Schema,
-								Name:   beforeConstraint.GetName(),
-							},
-						},
-						&CreateIndexStmt{
-							Unique: ac.Unique,
-							Name: &ObjectName{
-								Schema: after.Name.Schema,
-								Name:   ac.GetName(),
-							},
-							TableName: after.Name,
-							Columns:   ac.Columns,
+					result.Stmts = append(result.Stmts, &DropIndexStmt{
+						Name: &ObjectName{
+							Schema: before.Name.Schema,
+							Name:   beforeConstraint.GetName(),
 						},
-					)
+					})
 				default:
 					// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
-					// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
-					result.Stmts = append(
-						result.Stmts,
-						&AlterTableStmt{
-							Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
-							Name:    after.Name, // ALTER TABLE RENAME TO で変更された後の可能性があるため after.Name を使用する
-							Action: &DropConstraint{
-								Name: beforeConstraint.GetName(),
-							},
+					result.Stmts = append(result.Stmts, &AlterTableStmt{
+						Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
+						Name:    after.Name, // ALTER TABLE RENAME TO で変更された後の可能性があるため after.Name を使用する
+						Action: &DropConstraint{
+							Name: beforeConstraint.GetName(),
 						},
-						&AlterTableStmt{
-							Comment: simplediff.Diff("", afterConstraint.String()).String(),
-							Name:    after.Name,
-							Action: &AddConstraint{
-								Constraint: afterConstraint,
-								NotValid:   config.UseAlterTableAddConstraintNotValid,
-							},
+					})
+				}
+				switch ac := afterConstraint.(type) {
+				case *IndexConstraint:
+					// CREATE INDEX index_name ON table_name (column_name);
+					result.Stmts = append(result.Stmts, &CreateIndexStmt{
+						Unique: ac.Unique,
+						Name: &ObjectName{
+							Schema: after.Name.Schema,
+							Name:   ac.GetName(),
+						},
+						TableName: after.Name,
+						Columns:   ac.Columns,
+					})
+				default:
+					// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
+					result.Stmts = append(result.Stmts, &AlterTableStmt{
+						Comment: simplediff.Diff("", afterConstraint.String()).String(),
+						Name:    after.Name,
+						Action: &AddConstraint{
+							Constraint: afterConstraint,
+							NotValid:   config.UseAlterTableAddConstraintNotValid,
 						},
-					)
+					})
 				}
 			}
 			continue
-- 
2.43.0


From 6d3b473c4d05c3ff243ff8c7e384db242822e8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:58 +0000
Subject: [PATCH 17/56] fix: letter case of keywords in defaults and checks
 makes a difference, quotes of literals none

---
 pkg/ddl/cockroachdb/ddl.go       | 18 +++++++++++++++++-
 pkg/ddl/cockroachdb/ddl_table.go |  4 ++--
 pkg/ddl/mysql/ddl.go             | 20 +++++++++++++++++++-
 pkg/ddl/mysql/ddl_table.go       |  4 ++--
 pkg/ddl/postgres/ddl.go          | 18 +++++++++++++++++-
 pkg/ddl/postgres/ddl_table.go    |  4 ++--
 pkg/ddl/spanner/ddl.go           | 20 +++++++++++++++++++-
 pkg/ddl/spanner/ddl_table.go     |  4 ++--
 8 files changed, 80 insertions(+), 12 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl.go b/pkg/ddl/cockroachdb/ddl.go
index ac7d8cd..b5daeb3 100644
--- a/pkg/ddl/cockroachdb/ddl.go
+++ b/pkg/ddl/cockroachdb/ddl.go
@@ -1,6 +1,8 @@
 package cockroachdb
 
 import (
+	"strings"
+
 	stringz "github.com/kunitsucom/util.go/strings"
 
 	"github.com/kunitsucom/ddlctl/pkg/ddl/internal"
@@ -79,6 +81,20 @@ func (i *Ident) StringForDiff() string {
 	return i.Name
 }
 
+// stringForDiffInExpr differs from StringForDiff in that a literal is kept apart from the word it contains, and that words are
+// the same in any letter case.
+func (i *Ident) stringForDiffInExpr() string {
+	if i == nil {
+		return ""
+	}
+	switch {
+	case i.QuotationMark != "" || strings.Contains(i.Name, "'"):
+		return i.Name
+	default:
+		return strings.ToLower(i.Name)
+	}
+}
+
 type ColumnIdent struct {
 	Ident *Ident
 	Order *Order //diff:ignore-line-postgres-cockroach
@@ -141,7 +157,7 @@ func (s *DataType) StringForDiff() string {
 	if s.Expr != nil && len(s.Expr.Idents) > 0 {
 		str += "("
 		for _, ident := range s.Expr.Idents {
-			str += ident.StringForDiff()
+			str += ident.stringForDiffInExpr()
 		}
 		str += ")"
 	}
diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index 2f078e8..aea3bea 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -221,7 +221,7 @@ func (c *CheckConstraint) StringForDiff() string {
 		if i != 0 {
 			str += " "
 		}
-		str += v.StringForDiff()
+		str += v.stringForDiffInExpr()
 	}
 	return str
 }
@@ -344,7 +344,7 @@ func (d *Default) StringForDiff() string {
 			if i != 0 {
 				str += " "
 			}
-			str += v.StringForDiff()
+			str += v.stringForDiffInExpr()
 		}
 		return str
 	}
diff --git a/pkg/ddl/mysql/ddl.go b/pkg/ddl/mysql/ddl.go
index bb98943..93fd423 100644
--- a/pkg/ddl/mysql/ddl.go
+++ b/pkg/ddl/mysql/ddl.go
@@ -1,6 +1,8 @@
 package mysql
 
 import (
+	"strings"
+
 	stringz "github.com/kunitsucom/util.go/strings"
 
 	"github.com/kunitsucom/ddlctl/pkg/ddl/internal"
@@ -79,6 +81,22 @@ func (i *Ident) StringForDiff() string {
 	return i.Name
 }
 
+// stringForDiffInExpr differs from StringForDiff in that a literal is kept apart from the word it contains, and that words are
+// the same in any letter case.
+func (i *Ident) stringForDiffInExpr() string {
+	if i == nil {
+		return ""
+	}
+	switch {
+	case i.QuotationMark == "'" || i.QuotationMark == `"`:
+		return "'" + i.Name + "'"
+	case strings.Contains(i.Name, "'"):
+		return i.Name
+	default:
+		return strings.ToLower(i.Name)
+	}
+}
+
 type ColumnIdent struct {
 	Ident *Ident
 	Order *Order
@@ -145,7 +163,7 @@ func (s *DataType) StringForDiff() string {
 	if s.Expr != nil && len(s.Expr.Idents) > 0 {
 		str += "("
 		for _, ident := range s.Expr.Idents {
-			str += ident.StringForDiff()
+			str += ident.stringForDiffInExpr()
 		}
 		str += ")"
 	}
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 49b05c1..a42c1aa 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -209,7 +209,7 @@ func (c *CheckConstraint) StringForDiff() string {
 		if i != 0 {
 			str += " "
 		}
-		str += v.StringForDiff()
+		str += v.stringForDiffInExpr()
 	}
 	return str
 }
@@ -333,7 +333,7 @@ func (d *Default) StringForDiff() string {
 			if i != 0 {
 				str += " "
 			}
-			str += v.StringForDiff()
+			str += v.stringForDiffInExpr()
 		}
 		return str
 	}
diff --git a/pkg/ddl/postgres/ddl.go b/pkg/ddl/postgres/ddl.go
index 9b92e59..3bc5bc9 100644
--- a/pkg/ddl/postgres/ddl.go
+++ b/pkg/ddl/postgres/ddl.go
@@ -1,6 +1,8 @@
 package postgres
 
 import (
+	"strings"
+
 	stringz "github.com/kunitsucom/util.go/strings"
 
 	"github.com/kunitsucom/ddlctl/pkg/ddl/internal"
@@ -79,6 +81,20 @@ func (i *Ident) StringForDiff() string {
 	return i.Name
 }
 
+// stringForDiffInExpr differs from StringForDiff in that a literal is kept apart from the word it contains, and that words are
+// the same in any letter case.
+func (i *Ident) stringForDiffInExpr() string {
+	if i == nil {
+		return ""
+	}
+	switch {
+	case i.QuotationMark != "" || strings.Contains(i.Name, "'"):
+		return i.Name
+	default:
+		return strings.ToLower(i.Name)
+	}
+}
+
 type ColumnIdent struct {
 	Ident *Ident
 }
@@ -126,7 +142,7 @@ func (s *DataType) StringForDiff() string {
 	if s.Expr != nil && len(s.Expr.Idents) > 0 {
 		str += "("
 		for _, ident := range s.Expr.Idents {
-			str += ident.StringForDiff()
+			str += ident.stringForDiffInExpr()
 		}
 		str += ")"
 	}
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index 070ca7b..b9c2500 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -194,7 +194,7 @@ func (c *CheckConstraint) StringForDiff() string {
 		if i != 0 {
 			str += " "
 		}
-		str += v.StringForDiff()
+		str += v.stringForDiffInExpr()
 	}
 	return str
 }
@@ -314,7 +314,7 @@ func (d *Default) StringForDiff() string {
 			if i != 0 {
 				str += " "
 			}
-			str += v.StringForDiff()
+			str += v.stringForDiffInExpr()
 		}
 		return str
 	}
diff --git a/pkg/ddl/spanner/ddl.go b/pkg/ddl/spanner/ddl.go
index cda8dbb..ba23102 100644
--- a/pkg/ddl/spanner/ddl.go
+++ b/pkg/ddl/spanner/ddl.go
@@ -1,6 +1,8 @@
 package spanner
 
 import (
+	"strings"
+
 	stringz "github.com/kunitsucom/util.go/strings"
 
 	"github.com/kunitsucom/ddlctl/pkg/ddl/internal"
@@ -79,6 +81,22 @@ func (i *Ident) StringForDiff() string {
 	return i.Name
 }
 
+// stringForDiffInExpr differs from StringForDiff in that a literal is kept apart from the word it contains, and that words are
+// the same in any letter case.
+func (i *Ident) stringForDiffInExpr() string {
+	if i == nil {
+		return ""
+	}
+	switch {
+	case i.QuotationMark == "'" || i.QuotationMark == `"`:
+		return "'" + i.Name + "'"
+	case strings.Contains(i.Name, "'"):
+		return i.Name
+	default:
+		return strings.ToLower(i.Name)
+	}
+}
+
 type ColumnIdent struct {
 	Ident *Ident
 	Order *Order //diff:ignore-line-postgres-cockroach
@@ -141,7 +159,7 @@ func (s *DataType) StringForDiff() string {
 	if s.Expr != nil && len(s.Expr.Idents) > 0 {
 		str += "("
 		for _, ident := range s.Expr.Idents {
-			str += ident.StringForDiff()
+			str += ident.stringForDiffInExpr()
 		}
 		str += ")"
 	}
diff --git a/pkg/ddl/spanner/ddl_table.go b/pkg/ddl/spanner/ddl_table.go
index 48e3f39..a2beb5c 100644
--- a/pkg/ddl/spanner/ddl_table.go
+++ b/pkg/ddl/spanner/ddl_table.go
@@ -120,7 +120,7 @@ func (c *CheckConstraint) StringForDiff() string {
 		if i != 0 {
 			str += " "
 		}
-		str += v.StringForDiff()
+		str += v.stringForDiffInExpr()
 	}
 	return str
 }
@@ -261,7 +261,7 @@ func (d *Default) StringForDiff() string {
 			if i != 0 {
 				str += " "
 			}
-			str += v.StringForDiff()
+			str += v.stringForDiffInExpr()
 		}
 		str += ")"
 		return str
-- 
2.43.0


From a9691af1a40d9b683ea8683e04337e28516ead2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:32 +0000
Subject: [PATCH 18/56] fix: letter case of ON DELETE, ROW DELETION POLICY and
 DESC makes a difference

---
 pkg/ddl/cockroachdb/parser.go | 28 ++++++++++++++--------------
 pkg/ddl/mysql/parser.go       | 18 +++++++++---------
 pkg/ddl/postgres/parser.go    | 28 ++++++++++++++--------------
 pkg/ddl/spanner/parser.go     |  8 ++++----
 4 files changed, 41 insertions(+), 41 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 9be89ca..0dea6be 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -558,23 +558,23 @@ LabelConstraints:
 			// TODO: support ON DELETE, ON UPDATE
 			//nolint:nestif
 			if p.isCurrentToken(TOKEN_ON) {
-				onAction := p.currentToken.Literal.String() // current = ON
-				p.nextToken()                               // current = DELETE or UPDATE
+				onAction := strings.ToUpper(p.currentToken.Literal.String()) // current = ON
+				p.nextToken()                                                // current = DELETE or UPDATE
 				if err := p.checkCurrentToken(TOKEN_DELETE, TOKEN_UPDATE); err != nil {
 					return nil, apperr.Errorf("checkCurrentToken: %w", err)
 				}
-				onAction += " " + p.currentToken.Literal.String()
+				onAction += " " + strings.ToUpper(p.currentToken.Literal.String())
 				if err := p.checkPeekToken(TOKEN_CASCADE, TOKEN_NO); err != nil {
 					return nil, apperr.Errorf("checkPeekToken: %w", err)
 				}
-				p.nextToken()                                     // current = CASCADE or NO
-				onAction += " " + p.currentToken.Literal.String() // current = CASCADE or NO
+				p.nextToken()                                                      // current = CASCADE or NO
+				onAction += " " + strings.ToUpper(p.currentToken.Literal.String()) // current = CASCADE or NO
 				if p.isCurrentToken(TOKEN_NO) {
 					if err := p.checkPeekToken(TOKEN_ACTION); err != nil {
 						return nil, apperr.Errorf("checkPeekToken: %w", err)
 					}
-					p.nextToken()                                     // current = ACTION
-					onAction += " " + p.currentToken.Literal.String() // current = ACTION
+					p.nextToken()                                                      // current = ACTION
+					onAction += " " + strings.ToUpper(p.currentToken.Literal.String()) // current = ACTION
 				}
 				constraint.OnAction = onAction
 				p.nextToken() // current = the token after ON action
@@ -678,20 +678,20 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		// TODO: support ON DELETE, ON UPDATE
 		var onAction string
 		if p.isCurrentToken(TOKEN_ON) {
-			onAction = p.currentToken.Literal.String() // current = ON
-			p.nextToken()                              // current = DELETE or UPDATE
+			onAction = strings.ToUpper(p.currentToken.Literal.String()) // current = ON
+			p.nextToken()                                               // current = DELETE or UPDATE
 			if err := p.checkCurrentToken(TOKEN_DELETE, TOKEN_UPDATE); err != nil {
 				return nil, apperr.Errorf("checkCurrentToken: %w", err)
 			}
-			onAction += " " + p.currentToken.Literal.String()
+			onAction += " " + strings.ToUpper(p.currentToken.Literal.String())
 			if err := p.checkPeekToken(TOKEN_CASCADE, TOKEN_NO); err != nil {
 				return nil, apperr.Errorf("checkPeekToken: %w", err)
 			}
-			p.nextToken()                                     // current = CASCADE or NO
-			onAction += " " + p.currentToken.Literal.String() // current = CASCADE or NO
+			p.nextToken()                                                      // current = CASCADE or NO
+			onAction += " " + strings.ToUpper(p.currentToken.Literal.String()) // current = CASCADE or NO
 			if p.isCurrentToken(TOKEN_NO) && p.isPeekToken(TOKEN_ACTION) {
-				p.nextToken()                                     // current = ACTION
-				onAction += " " + p.currentToken.Literal.String() // current = ACTION
+				p.nextToken()                                                      // current = ACTION
+				onAction += " " + strings.ToUpper(p.currentToken.Literal.String()) // current = ACTION
 			}
 			p.nextToken() // current = the token after ON action
 		}
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index cc05996..238f2dc 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -377,11 +377,11 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 				if err := p.checkCurrentToken(TOKEN_UPDATE, TOKEN_DELETE); err != nil {
 					return nil, nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
 				}
-				column.OnAction += " " + p.currentToken.Literal.String()
+				column.OnAction += " " + strings.ToUpper(p.currentToken.Literal.String())
 				p.nextToken()                // current = CASCADE or RESTRICT or SET or ...
 				switch p.currentToken.Type { //nolint:exhaustive
 				case TOKEN_CASCADE, TOKEN_RESTRICT, TOKEN_CURRENT_TIMESTAMP:
-					column.OnAction += " " + p.currentToken.Literal.String()
+					column.OnAction += " " + strings.ToUpper(p.currentToken.Literal.String())
 				default:
 					return nil, nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 				}
@@ -840,23 +840,23 @@ func (p *Parser) parseOnAction() (onAction string, err error) {
 		return "", apperr.Errorf("checkCurrentToken: %w", err)
 	}
 
-	onAction = p.currentToken.Literal.String() // current = ON
-	p.nextToken()                              // current = DELETE or UPDATE
+	onAction = strings.ToUpper(p.currentToken.Literal.String()) // current = ON
+	p.nextToken()                                               // current = DELETE or UPDATE
 	if err := p.checkCurrentToken(TOKEN_DELETE, TOKEN_UPDATE); err != nil {
 		return "", apperr.Errorf("checkCurrentToken: %w", err)
 	}
-	onAction += " " + p.currentToken.Literal.String()
+	onAction += " " + strings.ToUpper(p.currentToken.Literal.String())
 	if err := p.checkPeekToken(TOKEN_CASCADE, TOKEN_NO); err != nil {
 		return "", apperr.Errorf("checkPeekToken: %w", err)
 	}
-	p.nextToken()                                     // current = CASCADE or NO
-	onAction += " " + p.currentToken.Literal.String() // current = CASCADE or NO
+	p.nextToken()                                                      // current = CASCADE or NO
+	onAction += " " + strings.ToUpper(p.currentToken.Literal.String()) // current = CASCADE or NO
 	if p.isCurrentToken(TOKEN_NO) {
 		if err := p.checkPeekToken(TOKEN_ACTION); err != nil {
 			return "", apperr.Errorf("checkPeekToken: %w", err)
 		}
-		p.nextToken()                                     // current = ACTION
-		onAction += " " + p.currentToken.Literal.String() // current = ACTION
+		p.nextToken()                                                      // current = ACTION
+		onAction += " " + strings.ToUpper(p.currentToken.Literal.String()) // current = ACTION
 	}
 	p.nextToken() // current = any
 
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 33c9953..c6c24d2 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -455,23 +455,23 @@ LabelConstraints:
 			// TODO: support ON DELETE, ON UPDATE
 			//nolint:nestif
 			if p.isCurrentToken(TOKEN_ON) {
-				onAction := p.currentToken.Literal.String() // current = ON
-				p.nextToken()                               // current = DELETE or UPDATE
+				onAction := strings.ToUpper(p.currentToken.Literal.String()) // current = ON
+				p.nextToken()                                                // current = DELETE or UPDATE
 				if err := p.checkCurrentToken(TOKEN_DELETE, TOKEN_UPDATE); err != nil {
 					return nil, apperr.Errorf("checkCurrentToken: %w", err)
 				}
-				onAction += " " + p.currentToken.Literal.String()
+				onAction += " " + strings.ToUpper(p.currentToken.Literal.String())
 				if err := p.checkPeekToken(TOKEN_CASCADE, TOKEN_NO); err != nil {
 					return nil, apperr.Errorf("checkPeekToken: %w", err)
 				}
-				p.nextToken()                                     // current = CASCADE or NO
-				onAction += " " + p.currentToken.Literal.String() // current = CASCADE or NO
+				p.nextToken()                                                      // current = CASCADE or NO
+				onAction += " " + strings.ToUpper(p.currentToken.Literal.String()) // current = CASCADE or NO
 				if p.isCurrentToken(TOKEN_NO) {
 					if err := p.checkPeekToken(TOKEN_ACTION); err != nil {
 						return nil, apperr.Errorf("checkPeekToken: %w", err)
 					}
-					p.nextToken()                                     // current = ACTION
-					onAction += " " + p.currentToken.Literal.String() // current = ACTION
+					p.nextToken()                                                      // current = ACTION
+					onAction += " " + strings.ToUpper(p.currentToken.Literal.String()) // current = ACTION
 				}
 				constraint.OnAction = onAction
 				p.nextToken() // current = the token after ON action
@@ -574,20 +574,20 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		// TODO: support ON DELETE, ON UPDATE
 		var onAction string
 		if p.isCurrentToken(TOKEN_ON) {
-			onAction = p.currentToken.Literal.String() // current = ON
-			p.nextToken()                              // current = DELETE or UPDATE
+			onAction = strings.ToUpper(p.currentToken.Literal.String()) // current = ON
+			p.nextToken()                                               // current = DELETE or UPDATE
 			if err := p.checkCurrentToken(TOKEN_DELETE, TOKEN_UPDATE); err != nil {
 				return nil, apperr.Errorf("checkCurrentToken: %w", err)
 			}
-			onAction += " " + p.currentToken.Literal.String()
+			onAction += " " + strings.ToUpper(p.currentToken.Literal.String())
 			if err := p.checkPeekToken(TOKEN_CASCADE, TOKEN_NO); err != nil {
 				return nil, apperr.Errorf("checkPeekToken: %w", err)
 			}
-			p.nextToken()                                     // current = CASCADE or NO
-			onAction += " " + p.currentToken.Literal.String() // current = CASCADE or NO
+			p.nextToken()                                                      // current = CASCADE or NO
+			onAction += " " + strings.ToUpper(p.currentToken.Literal.String()) // current = CASCADE or NO
 			if p.isCurrentToken(TOKEN_NO) && p.isPeekToken(TOKEN_ACTION) {
-				p.nextToken()                                     // current = ACTION
-				onAction += " " + p.currentToken.Literal.String() // current = ACTION
+				p.nextToken()                                                      // current = ACTION
+				onAction += " " + strings.ToUpper(p.currentToken.Literal.String()) // current = ACTION
 			}
 			p.nextToken() // current = the token after ON action
 		}
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 248c347..057771b 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -269,7 +269,7 @@ LabelTableOptions:
 			if err := p.checkCurrentToken(TOKEN_OLDER_THAN); err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
 			}
-			rowDeletionPolicyContent = append(rowDeletionPolicyContent, NewRawIdent(p.currentToken.Literal.String()))
+			rowDeletionPolicyContent = append(rowDeletionPolicyContent, NewRawIdent(strings.ToUpper(p.currentToken.Literal.String())))
 			//
 			p.nextToken() // current = `(`
 			if err := p.checkCurrentToken(TOKEN_OPEN_PAREN); err != nil {
@@ -293,7 +293,7 @@ LabelTableOptions:
 			if err := p.checkCurrentToken(TOKEN_INTERVAL); err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
 			}
-			rowDeletionPolicyContent = append(rowDeletionPolicyContent, NewRawIdent(p.currentToken.Literal.String()))
+			rowDeletionPolicyContent = append(rowDeletionPolicyContent, NewRawIdent(strings.ToUpper(p.currentToken.Literal.String())))
 			//
 			p.nextToken() // current = 0
 			if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
@@ -305,7 +305,7 @@ LabelTableOptions:
 			if err := p.checkCurrentToken(TOKEN_DAY); err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
 			}
-			rowDeletionPolicyContent = append(rowDeletionPolicyContent, NewRawIdent(p.currentToken.Literal.String()))
+			rowDeletionPolicyContent = append(rowDeletionPolicyContent, NewRawIdent(strings.ToUpper(p.currentToken.Literal.String())))
 			//
 			p.nextToken() // current = `)`
 			if err := p.checkCurrentToken(TOKEN_CLOSE_PAREN); err != nil {
@@ -558,7 +558,7 @@ LabelExpr:
 		case TOKEN_EOF:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		default:
-			if isReservedValue(p.currentToken.Type) {
+			if isReservedValue(p.currentToken.Type) || p.isCurrentToken(TOKEN_ASC, TOKEN_DESC) {
 				idents = append(idents, NewRawIdent(p.currentToken.Type.String()))
 			} else {
 				idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
-- 
2.43.0


From 0721981914448eb1a44243caf46c19a61f1304db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:50 +0000
Subject: [PATCH 19/56] fix: letter case of USING makes a difference

---
 pkg/ddl/cockroachdb/ddl_index_create.go | 4 ++--
 pkg/ddl/cockroachdb/ddl_table.go        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_index_create.go b/pkg/ddl/cockroachdb/ddl_index_create.go
index 7ade1b0..c89c632 100644
--- a/pkg/ddl/cockroachdb/ddl_index_create.go
+++ b/pkg/ddl/cockroachdb/ddl_index_create.go
@@ -65,7 +65,7 @@ func (s *CreateIndexStmt) StringForDiff() string {
 	str += "INDEX "
 	str += s.Name.StringForDiff() + " ON " + s.TableName.StringForDiff()
 	if s.UsingPreColumns != nil {
-		str += " " + s.UsingPreColumns.String()
+		str += " " + strings.ToUpper(s.UsingPreColumns.String())
 	}
 	str += " ("
 	for i, c := range s.Columns {
@@ -76,7 +76,7 @@ func (s *CreateIndexStmt) StringForDiff() string {
 	}
 	str += ")"
 	if s.UsingPostColumns != nil {
-		str += " " + s.UsingPostColumns.String()
+		str += " " + strings.ToUpper(s.UsingPostColumns.String())
 	}
 	str += ";\n"
 	return str
diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index aea3bea..f9ee023 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -174,7 +174,7 @@ func (c *IndexConstraint) StringForDiff() string { //diff:ignore-line-postgres-c
 		str += "INDEX " + c.Name.StringForDiff() + " " //diff:ignore-line-postgres-cockroach
 	}
 	if c.UsingPreColumns != nil {
-		str += " " + c.UsingPreColumns.String()
+		str += " " + strings.ToUpper(c.UsingPreColumns.String())
 	}
 	str += "("
 	for i, v := range c.Columns {
@@ -185,7 +185,7 @@ func (c *IndexConstraint) StringForDiff() string { //diff:ignore-line-postgres-c
 	}
 	str += ")"
 	if c.UsingPostColumns != nil {
-		str += " " + c.UsingPostColumns.String()
+		str += " " + strings.ToUpper(c.UsingPostColumns.String())
 	}
 	return str
 }
-- 
2.43.0


From 2c4bfe234d8a29a81971dc4e40a18f023eaf2bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:04 +0000
Subject: [PATCH 20/56] fix: default constraint name of a table or column with
 a quoted name is printed unquoted

---
 pkg/ddl/cockroachdb/parser.go | 22 ++++++++++++++++------
 pkg/ddl/mysql/parser.go       | 20 +++++++++++++++-----
 pkg/ddl/postgres/parser.go    | 24 +++++++++++++++++-------
 pkg/ddl/spanner/parser.go     | 18 ++++++++++++++----
 4 files changed, 62 insertions(+), 22 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 0dea6be..75b8a9d 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"runtime"
 	"strings"
+	"unicode"
 
 	filepathz "github.com/kunitsucom/util.go/path/filepath"
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -46,6 +47,15 @@ func NewIdent(name, quotationMark, raw string) *Ident {
 	}
 }
 
+// newDefaultName returns the default name of a constraint. It is quoted when it contains what only a quoted name can contain.
+func newDefaultName(name string) *Ident {
+	if strings.ContainsFunc(name, func(r rune) bool { return r > unicode.MaxASCII || !isLiteral(byte(r)) }) {
+		const q = `"`
+		return NewIdent(name, q, q+name+q)
+	}
+	return NewRawIdent(name)
+}
+
 // Parser はSQL文を解析するパーサーです。
 type Parser struct {
 	l            *Lexer
@@ -537,7 +547,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = KEY
 			constraints = constraints.Append(&PrimaryKeyConstraint{
-				Name:    NewRawIdent(tableName.StringForDiff() + "_pkey"),
+				Name:    newDefaultName(tableName.StringForDiff() + "_pkey"),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_REFERENCES:
@@ -546,7 +556,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newDefaultName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -585,7 +595,7 @@ LabelConstraints:
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{ //diff:ignore-line-postgres-cockroach
 				Unique:  true, //diff:ignore-line-postgres-cockroach
-				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newDefaultName(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_CHECK:
@@ -594,7 +604,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: newDefaultName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -642,7 +652,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			return nil, apperr.Errorf("parseColumnIdents: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_pkey")
+			constraintName = newDefaultName(tableName.StringForDiff() + "_pkey")
 		}
 		return &PrimaryKeyConstraint{
 			Name:    constraintName,
@@ -701,7 +711,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = newDefaultName(name)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 238f2dc..095548b 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"runtime"
 	"strings"
+	"unicode"
 
 	filepathz "github.com/kunitsucom/util.go/path/filepath"
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -45,6 +46,15 @@ func NewIdent(name, quotationMark, raw string) *Ident {
 	}
 }
 
+// newDefaultName returns the default name of a constraint. It is quoted when it contains what only a quoted name can contain.
+func newDefaultName(name string) *Ident {
+	if strings.ContainsFunc(name, func(r rune) bool { return r > unicode.MaxASCII || !isLiteral(byte(r)) }) {
+		const q = "`"
+		return NewIdent(name, q, q+name+q)
+	}
+	return NewRawIdent(name)
+}
+
 // Parser はSQL文を解析するパーサーです。
 type Parser struct {
 	l            *Lexer
@@ -544,7 +554,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newDefaultName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -575,7 +585,7 @@ LabelConstraints:
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{
 				Unique:  true,
-				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newDefaultName(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_CHECK:
@@ -584,7 +594,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: newDefaultName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -686,7 +696,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = newDefaultName(name)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
@@ -733,7 +743,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		}
 		if constraintName == nil {
 			// TODO: handle CONSTRAINT name
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_chk")
+			constraintName = newDefaultName(tableName.StringForDiff() + "_chk")
 		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index c6c24d2..5048812 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"runtime"
 	"strings"
+	"unicode"
 
 	filepathz "github.com/kunitsucom/util.go/path/filepath"
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -46,6 +47,15 @@ func NewIdent(name, quotationMark, raw string) *Ident {
 	}
 }
 
+// newDefaultName returns the default name of a constraint. It is quoted when it contains what only a quoted name can contain.
+func newDefaultName(name string) *Ident {
+	if strings.ContainsFunc(name, func(r rune) bool { return r > unicode.MaxASCII || !isLiteral(byte(r)) }) {
+		const q = `"`
+		return NewIdent(name, q, q+name+q)
+	}
+	return NewRawIdent(name)
+}
+
 // Parser はSQL文を解析するパーサーです。
 type Parser struct {
 	l            *Lexer
@@ -434,7 +444,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = KEY
 			constraints = constraints.Append(&PrimaryKeyConstraint{
-				Name:    NewRawIdent(tableName.StringForDiff() + "_pkey"),
+				Name:    newDefaultName(tableName.StringForDiff() + "_pkey"),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_REFERENCES:
@@ -443,7 +453,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newDefaultName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -481,7 +491,7 @@ LabelConstraints:
 			continue // current = the token after the constraint
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&UniqueConstraint{ //diff:ignore-line-postgres-cockroach
-				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newDefaultName(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_CHECK:
@@ -490,7 +500,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: newDefaultName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -538,7 +548,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			return nil, apperr.Errorf("parseColumnIdents: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_pkey")
+			constraintName = newDefaultName(tableName.StringForDiff() + "_pkey")
 		}
 		return &PrimaryKeyConstraint{
 			Name:    constraintName,
@@ -597,7 +607,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				name += "_" + ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = newDefaultName(name)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
@@ -622,7 +632,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			for _, ident := range idents {                //diff:ignore-line-postgres-cockroach
 				name += "_" + ident.StringForDiff() //diff:ignore-line-postgres-cockroach
 			} //diff:ignore-line-postgres-cockroach
-			constraintName = NewRawIdent(name) //diff:ignore-line-postgres-cockroach
+			constraintName = newDefaultName(name) //diff:ignore-line-postgres-cockroach
 		} //diff:ignore-line-postgres-cockroach
 		c.Name = constraintName
 		c.Columns = idents
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 057771b..0fadd28 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"runtime"
 	"strings"
+	"unicode"
 
 	filepathz "github.com/kunitsucom/util.go/path/filepath"
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -45,6 +46,15 @@ func NewIdent(name, quotationMark, raw string) *Ident {
 	}
 }
 
+// newDefaultName returns the default name of a constraint. It is quoted when it contains what only a quoted name can contain.
+func newDefaultName(name string) *Ident {
+	if strings.ContainsFunc(name, func(r rune) bool { return r > unicode.MaxASCII || !isLiteral(byte(r)) }) {
+		const q = "`"
+		return NewIdent(name, q, q+name+q)
+	}
+	return NewRawIdent(name)
+}
+
 // Parser はSQL文を解析するパーサーです。
 type Parser struct {
 	l            *Lexer
@@ -584,7 +594,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newDefaultName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -602,7 +612,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: newDefaultName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -667,7 +677,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = newDefaultName(name)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
@@ -688,7 +698,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			return nil, apperr.Errorf("parseExpr: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_check")
+			constraintName = newDefaultName(tableName.StringForDiff() + "_check")
 		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
-- 
2.43.0


From 7e5ed9ccd420e08be586611a8860149c8a169aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:58 +0000
Subject: [PATCH 21/56] fix: unnamed constraints with the same default name
 overwrite each other

---
 pkg/ddl/cockroachdb/ddl_table.go | 19 +++++++++++++++++++
 pkg/ddl/cockroachdb/parser.go    | 19 ++++++++++++-------
 pkg/ddl/mysql/ddl_table.go       | 19 +++++++++++++++++++
 pkg/ddl/mysql/parser.go          | 19 ++++++++++++-------
 pkg/ddl/postgres/ddl_table.go    | 19 +++++++++++++++++++
 pkg/ddl/postgres/parser.go       | 19 ++++++++++++-------
 pkg/ddl/spanner/ddl_table.go     | 16 ++++++++++++++++
 pkg/ddl/spanner/parser.go        | 15 ++++++++++-----
 8 files changed, 119 insertions(+), 26 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index f9ee023..ba63a41 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -1,7 +1,9 @@
 package cockroachdb
 
 import (
+	"slices"
 	"sort" //diff:ignore-line-postgres-cockroach
+	"strconv"
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -37,6 +39,23 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	return constraints
 }
 
+// appendUnnamed appends a constraint with a default name. The name is numbered when another constraint has it, as databases do.
+func (constraints Constraints) appendUnnamed(constraint Constraint) Constraints {
+	if _, ok := constraint.(*PrimaryKeyConstraint); ok {
+		return constraints.Append(constraint)
+	}
+	name := constraint.GetName()
+	base := name.Name
+	for n := 1; ; n++ {
+		i := slices.IndexFunc(constraints, func(c Constraint) bool { return c.GetName().Name == name.Name })
+		if i < 0 || constraints[i].StringForDiff() == constraint.StringForDiff() {
+			return constraints.Append(constraint)
+		}
+		name.Name = base + strconv.Itoa(n)
+		name.Raw = name.QuotationMark + name.Name + name.QuotationMark
+	}
+}
+
 // PrimaryKeyConstraint represents a PRIMARY KEY constraint.
 type PrimaryKeyConstraint struct {
 	Name    *Ident
diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 75b8a9d..6d3bbfb 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -179,15 +179,20 @@ LabelColumns:
 			createTableStmt.Columns = append(createTableStmt.Columns, column)
 			if len(constraints) > 0 {
 				for _, c := range constraints {
-					createTableStmt.Constraints = createTableStmt.Constraints.Append(c)
+					createTableStmt.Constraints = createTableStmt.Constraints.appendUnnamed(c)
 				}
 			}
 		case isConstraint(p.currentToken.Type):
+			unnamed := p.isCurrentToken(TOKEN_PRIMARY, TOKEN_FOREIGN)
 			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
-			createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
+			if unnamed {
+				createTableStmt.Constraints = createTableStmt.Constraints.appendUnnamed(constraint)
+			} else {
+				createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
+			}
 		case p.isCurrentToken(TOKEN_COMMA):
 			p.nextToken()
 			continue
@@ -350,7 +355,7 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 		}
 		if len(cs) > 0 {
 			for _, c := range cs {
-				constraints = constraints.Append(c)
+				constraints = constraints.appendUnnamed(c)
 			}
 		}
 	default:
@@ -546,7 +551,7 @@ LabelConstraints:
 				return nil, apperr.Errorf("checkPeekToken: %w", err)
 			}
 			p.nextToken() // current = KEY
-			constraints = constraints.Append(&PrimaryKeyConstraint{
+			constraints = constraints.appendUnnamed(&PrimaryKeyConstraint{
 				Name:    newDefaultName(tableName.StringForDiff() + "_pkey"),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
@@ -590,10 +595,10 @@ LabelConstraints:
 				p.nextToken() // current = the token after ON action
 			}
 			constraint.RefColumns = idents
-			constraints = constraints.Append(constraint)
+			constraints = constraints.appendUnnamed(constraint)
 			continue // current = the token after the constraint
 		case TOKEN_UNIQUE:
-			constraints = constraints.Append(&IndexConstraint{ //diff:ignore-line-postgres-cockroach
+			constraints = constraints.appendUnnamed(&IndexConstraint{ //diff:ignore-line-postgres-cockroach
 				Unique:  true, //diff:ignore-line-postgres-cockroach
 				Name:    newDefaultName(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
@@ -611,7 +616,7 @@ LabelConstraints:
 				return nil, apperr.Errorf("parseExpr: %w", err)
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
-			constraints = constraints.Append(constraint)
+			constraints = constraints.appendUnnamed(constraint)
 			continue // current = the token after the constraint
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index a42c1aa..1e8612e 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -1,7 +1,9 @@
 package mysql
 
 import (
+	"slices"
 	"sort"
+	"strconv"
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -37,6 +39,23 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	return constraints
 }
 
+// appendUnnamed appends a constraint with a default name. The name is numbered when another constraint has it, as databases do.
+func (constraints Constraints) appendUnnamed(constraint Constraint) Constraints {
+	if _, ok := constraint.(*PrimaryKeyConstraint); ok {
+		return constraints.Append(constraint)
+	}
+	name := constraint.GetName()
+	base := name.Name
+	for n := 1; ; n++ {
+		i := slices.IndexFunc(constraints, func(c Constraint) bool { return c.GetName().Name == name.Name })
+		if i < 0 || constraints[i].StringForDiff() == constraint.StringForDiff() {
+			return constraints.Append(constraint)
+		}
+		name.Name = base + strconv.Itoa(n)
+		name.Raw = name.QuotationMark + name.Name + name.QuotationMark
+	}
+}
+
 // PrimaryKeyConstraint represents a PRIMARY KEY constraint.
 type PrimaryKeyConstraint struct {
 	Name    *Ident
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 095548b..0c8b668 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -178,15 +178,20 @@ LabelColumns:
 			createTableStmt.Columns = append(createTableStmt.Columns, column)
 			if len(constraints) > 0 {
 				for _, c := range constraints {
-					createTableStmt.Constraints = createTableStmt.Constraints.Append(c)
+					createTableStmt.Constraints = createTableStmt.Constraints.appendUnnamed(c)
 				}
 			}
 		case isConstraint(p.currentToken.Type):
+			unnamed := p.isCurrentToken(TOKEN_PRIMARY, TOKEN_FOREIGN, TOKEN_CHECK)
 			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
-			createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
+			if unnamed {
+				createTableStmt.Constraints = createTableStmt.Constraints.appendUnnamed(constraint)
+			} else {
+				createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
+			}
 		case p.isCurrentToken(TOKEN_COMMA):
 			p.nextToken()
 			continue
@@ -420,7 +425,7 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 		}
 		if len(cs) > 0 {
 			for _, c := range cs {
-				constraints = constraints.Append(c)
+				constraints = constraints.appendUnnamed(c)
 			}
 		}
 
@@ -544,7 +549,7 @@ LabelConstraints:
 				return nil, apperr.Errorf("checkPeekToken: %w", err)
 			}
 			p.nextToken() // current = KEY
-			constraints = constraints.Append(&PrimaryKeyConstraint{
+			constraints = constraints.appendUnnamed(&PrimaryKeyConstraint{
 				Name:    NewRawIdent("PRIMARY KEY"),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
@@ -580,10 +585,10 @@ LabelConstraints:
 			}
 
 			constraint.RefColumns = idents
-			constraints = constraints.Append(constraint)
+			constraints = constraints.appendUnnamed(constraint)
 			continue // current = the token after the constraint
 		case TOKEN_UNIQUE:
-			constraints = constraints.Append(&IndexConstraint{
+			constraints = constraints.appendUnnamed(&IndexConstraint{
 				Unique:  true,
 				Name:    newDefaultName(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
@@ -601,7 +606,7 @@ LabelConstraints:
 				return nil, apperr.Errorf("parseExpr: %w", err)
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
-			constraints = constraints.Append(constraint)
+			constraints = constraints.appendUnnamed(constraint)
 			continue // current = the token after the constraint
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN, TOKEN_COMMENT:
 			break LabelConstraints
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index b9c2500..42370bf 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -1,6 +1,8 @@
 package postgres
 
 import (
+	"slices"
+	"strconv"
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -29,6 +31,23 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	return constraints
 }
 
+// appendUnnamed appends a constraint with a default name. The name is numbered when another constraint has it, as databases do.
+func (constraints Constraints) appendUnnamed(constraint Constraint) Constraints {
+	if _, ok := constraint.(*PrimaryKeyConstraint); ok {
+		return constraints.Append(constraint)
+	}
+	name := constraint.GetName()
+	base := name.Name
+	for n := 1; ; n++ {
+		i := slices.IndexFunc(constraints, func(c Constraint) bool { return c.GetName().Name == name.Name })
+		if i < 0 || constraints[i].StringForDiff() == constraint.StringForDiff() {
+			return constraints.Append(constraint)
+		}
+		name.Name = base + strconv.Itoa(n)
+		name.Raw = name.QuotationMark + name.Name + name.QuotationMark
+	}
+}
+
 // PrimaryKeyConstraint represents a PRIMARY KEY constraint.
 type PrimaryKeyConstraint struct {
 	Name    *Ident
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 5048812..a9bf31e 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -179,15 +179,20 @@ LabelColumns:
 			createTableStmt.Columns = append(createTableStmt.Columns, column)
 			if len(constraints) > 0 {
 				for _, c := range constraints {
-					createTableStmt.Constraints = createTableStmt.Constraints.Append(c)
+					createTableStmt.Constraints = createTableStmt.Constraints.appendUnnamed(c)
 				}
 			}
 		case isConstraint(p.currentToken.Type):
+			unnamed := p.isCurrentToken(TOKEN_PRIMARY, TOKEN_FOREIGN, TOKEN_UNIQUE)
 			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
-			createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
+			if unnamed {
+				createTableStmt.Constraints = createTableStmt.Constraints.appendUnnamed(constraint)
+			} else {
+				createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
+			}
 		case p.isCurrentToken(TOKEN_COMMA):
 			p.nextToken()
 			continue
@@ -327,7 +332,7 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 		}
 		if len(cs) > 0 {
 			for _, c := range cs {
-				constraints = constraints.Append(c)
+				constraints = constraints.appendUnnamed(c)
 			}
 		}
 	default:
@@ -443,7 +448,7 @@ LabelConstraints:
 				return nil, apperr.Errorf("checkPeekToken: %w", err)
 			}
 			p.nextToken() // current = KEY
-			constraints = constraints.Append(&PrimaryKeyConstraint{
+			constraints = constraints.appendUnnamed(&PrimaryKeyConstraint{
 				Name:    newDefaultName(tableName.StringForDiff() + "_pkey"),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
@@ -487,10 +492,10 @@ LabelConstraints:
 				p.nextToken() // current = the token after ON action
 			}
 			constraint.RefColumns = idents
-			constraints = constraints.Append(constraint)
+			constraints = constraints.appendUnnamed(constraint)
 			continue // current = the token after the constraint
 		case TOKEN_UNIQUE:
-			constraints = constraints.Append(&UniqueConstraint{ //diff:ignore-line-postgres-cockroach
+			constraints = constraints.appendUnnamed(&UniqueConstraint{ //diff:ignore-line-postgres-cockroach
 				Name:    newDefaultName(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
@@ -507,7 +512,7 @@ LabelConstraints:
 				return nil, apperr.Errorf("parseExpr: %w", err)
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
-			constraints = constraints.Append(constraint)
+			constraints = constraints.appendUnnamed(constraint)
 			continue // current = the token after the constraint
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
diff --git a/pkg/ddl/spanner/ddl_table.go b/pkg/ddl/spanner/ddl_table.go
index a2beb5c..8abee43 100644
--- a/pkg/ddl/spanner/ddl_table.go
+++ b/pkg/ddl/spanner/ddl_table.go
@@ -2,6 +2,8 @@ package spanner
 
 import (
 	//diff:ignore-line-postgres-cockroach
+	"slices"
+	"strconv"
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -31,6 +33,20 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	return constraints
 }
 
+// appendUnnamed appends a constraint with a default name. The name is numbered when another constraint has it, as databases do.
+func (constraints Constraints) appendUnnamed(constraint Constraint) Constraints {
+	name := constraint.GetName()
+	base := name.Name
+	for n := 1; ; n++ {
+		i := slices.IndexFunc(constraints, func(c Constraint) bool { return c.GetName().Name == name.Name })
+		if i < 0 || constraints[i].StringForDiff() == constraint.StringForDiff() {
+			return constraints.Append(constraint)
+		}
+		name.Name = base + strconv.Itoa(n)
+		name.Raw = name.QuotationMark + name.Name + name.QuotationMark
+	}
+}
+
 // ForeignKeyConstraint represents a FOREIGN KEY constraint.
 type ForeignKeyConstraint struct {
 	Name       *Ident
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 0fadd28..51b24df 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -178,15 +178,20 @@ LabelColumns:
 			createTableStmt.Columns = append(createTableStmt.Columns, column)
 			if len(constraints) > 0 {
 				for _, c := range constraints {
-					createTableStmt.Constraints = createTableStmt.Constraints.Append(c)
+					createTableStmt.Constraints = createTableStmt.Constraints.appendUnnamed(c)
 				}
 			}
 		case isConstraint(p.currentToken.Type):
+			unnamed := p.isCurrentToken(TOKEN_FOREIGN, TOKEN_CHECK)
 			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
-			createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
+			if unnamed {
+				createTableStmt.Constraints = createTableStmt.Constraints.appendUnnamed(constraint)
+			} else {
+				createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
+			}
 		case p.isCurrentToken(TOKEN_COMMA):
 			p.nextToken()
 			continue
@@ -466,7 +471,7 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 		}
 		if len(cs) > 0 {
 			for _, c := range cs {
-				constraints = constraints.Append(c)
+				constraints = constraints.appendUnnamed(c)
 			}
 		}
 
@@ -604,7 +609,7 @@ LabelConstraints:
 				return nil, apperr.Errorf("parseColumnIdents: %w", err)
 			}
 			constraint.RefColumns = idents
-			constraints = constraints.Append(constraint)
+			constraints = constraints.appendUnnamed(constraint)
 			continue // current = the token after the constraint
 		case TOKEN_CHECK:
 			if err := p.checkPeekToken(TOKEN_OPEN_PAREN); err != nil {
@@ -619,7 +624,7 @@ LabelConstraints:
 				return nil, apperr.Errorf("parseExpr: %w", err)
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
-			constraints = constraints.Append(constraint)
+			constraints = constraints.appendUnnamed(constraint)
 			continue // current = the token after the constraint
 		case TOKEN_OPTIONS, TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
-- 
2.43.0


From 525bc224cecb1c37e58dc7caf072f1f925c8e982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:31 +0000
Subject: [PATCH 22/56] fix: NULL after a DEFAULT or AS value becomes part of
 the value

---
 pkg/ddl/cockroachdb/parser.go | 6 ++++++
 pkg/ddl/mysql/parser.go       | 3 +++
 pkg/ddl/postgres/parser.go    | 3 +++
 pkg/ddl/spanner/parser.go     | 3 +++
 4 files changed, 15 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 6d3bbfb..5a0ef51 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -371,6 +371,9 @@ func (p *Parser) parseColumnDefault() (*Default, error) {
 
 LabelDefault:
 	for {
+		if def.Value != nil && p.isCurrentToken(TOKEN_NULL) {
+			break // NULL after the value
+		}
 		switch p.currentToken.Type { //nolint:exhaustive
 		case TOKEN_IDENT:
 			def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.String()))
@@ -417,6 +420,9 @@ func (p *Parser) parseColumnAs() (*As, error) {
 
 LabelAs:
 	for {
+		if as.Value != nil && p.isCurrentToken(TOKEN_NULL) {
+			break // NULL after the value
+		}
 		switch typ := p.currentToken.Type; typ { //nolint:exhaustive
 		case TOKEN_IDENT:
 			as.Value = as.Value.Append(NewRawIdent(p.currentToken.Literal.String()))
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 0c8b668..189b0e8 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -447,6 +447,9 @@ func (p *Parser) parseColumnDefault() (*Default, error) {
 
 LabelDefault:
 	for {
+		if def.Value != nil && p.isCurrentToken(TOKEN_NULL) {
+			break // NULL after the value
+		}
 		switch p.currentToken.Type { //nolint:exhaustive
 		case TOKEN_IDENT, TOKEN_CURRENT_TIMESTAMP:
 			def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.String()))
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index a9bf31e..b061a24 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -348,6 +348,9 @@ func (p *Parser) parseColumnDefault() (*Default, error) {
 
 LabelDefault:
 	for {
+		if def.Value != nil && p.isCurrentToken(TOKEN_NULL) {
+			break // NULL after the value
+		}
 		switch p.currentToken.Type { //nolint:exhaustive
 		case TOKEN_IDENT:
 			def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.String()))
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 51b24df..5556b26 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -496,6 +496,9 @@ func (p *Parser) parseColumnDefault() (*Default, error) {
 
 LabelDefault:
 	for {
+		if def.Value != nil && p.isCurrentToken(TOKEN_NULL) {
+			break // NULL after the value
+		}
 		switch p.currentToken.Type { //nolint:exhaustive
 		case TOKEN_IDENT:
 			def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.String()))
-- 
2.43.0


From 8b0d48ea079c78d3f2d68c727d67eb49a191e8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:10 +0000
Subject: [PATCH 23/56] fix: OPTIONS or COMMENT ends the constraints of a
 column

---
 pkg/ddl/mysql/parser.go   | 11 ++++-------
 pkg/ddl/spanner/parser.go | 21 ++++++++++-----------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 189b0e8..ab01529 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -428,12 +428,6 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 				constraints = constraints.appendUnnamed(c)
 			}
 		}
-
-		if p.isCurrentToken(TOKEN_COMMENT) {
-			p.nextToken() // current = comment_value
-			column.Comment = p.currentToken.Literal.String()
-			p.nextToken() // current = COMMA or CLOSE_PAREN
-		}
 	default:
 		return nil, nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 	}
@@ -611,7 +605,10 @@ LabelConstraints:
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.appendUnnamed(constraint)
 			continue // current = the token after the constraint
-		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN, TOKEN_COMMENT:
+		case TOKEN_COMMENT:
+			p.nextToken() // current = comment_value
+			column.Comment = p.currentToken.Literal.String()
+		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
 		default:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 5556b26..e078ac4 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -474,15 +474,6 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 				constraints = constraints.appendUnnamed(c)
 			}
 		}
-
-		if p.isCurrentToken(TOKEN_OPTIONS) {
-			p.nextToken() // current = (
-			idents, err := p.parseExpr()
-			if err != nil {
-				return nil, nil, apperr.Errorf(errFmtPrefix+"parseExpr: %w", err)
-			}
-			column.Options = column.Options.Append(idents...)
-		}
 	default:
 		return nil, nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 	}
@@ -509,7 +500,7 @@ LabelDefault:
 			}
 			def.Value = def.Value.Append(ids...)
 			continue
-		case TOKEN_NOT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
+		case TOKEN_NOT, TOKEN_OPTIONS, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelDefault
 		default:
 			if isReservedValue(p.currentToken.Type) {
@@ -629,7 +620,15 @@ LabelConstraints:
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.appendUnnamed(constraint)
 			continue // current = the token after the constraint
-		case TOKEN_OPTIONS, TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
+		case TOKEN_OPTIONS:
+			p.nextToken() // current = (
+			idents, err := p.parseExpr()
+			if err != nil {
+				return nil, apperr.Errorf("parseExpr: %w", err)
+			}
+			column.Options = column.Options.Append(idents...)
+			continue // current = the token after the options
+		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
 		default:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
-- 
2.43.0


From 4a266ffb87089c9e8ab4bc4a31bf7566101b251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:59 +0000
Subject: [PATCH 24/56] fix: spanner table is created again before the new
 parent it is interleaved in

---
 pkg/ddl/spanner/diff.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/pkg/ddl/spanner/diff.go b/pkg/ddl/spanner/diff.go
index ceacfec..ba87b08 100644
--- a/pkg/ddl/spanner/diff.go
+++ b/pkg/ddl/spanner/diff.go
@@ -35,7 +35,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 				return nil, apperr.Errorf("%s: %T: %w", s.GetNameForDiff(), s, ddl.ErrNotSupported)
 			}
 		}
-		sortStmts(before, result.Stmts)
+		sortStmts(before, &DDL{}, result.Stmts)
 		return result, nil
 	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, ddl.ErrNoDifference
@@ -103,16 +103,19 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
-	sortStmts(before, result.Stmts)
+	sortStmts(before, after, result.Stmts)
 
 	return result, nil
 }
 
 // sortStmts sorts the statements of a migration by what they depend on, keeping the order of the others:
-// what goes away is removed before the columns change, and what is new is added after that.
-func sortStmts(before *DDL, stmts []Stmt) {
+// what goes away is removed before the columns change, and what is new is added after that, in the order of its declaration.
+func sortStmts(before, after *DDL, stmts []Stmt) {
 	slices.SortStableFunc(stmts, func(a, b Stmt) int {
-		return stmtOrder(before, a) - stmtOrder(before, b)
+		if order := stmtOrder(before, a) - stmtOrder(before, b); order != 0 {
+			return order
+		}
+		return slices.Index(after.Stmts, a) - slices.Index(after.Stmts, b)
 	})
 	// a table may refer to the tables declared before it
 	if first := slices.IndexFunc(stmts, isDropTableStmt); first >= 0 {
@@ -142,15 +145,7 @@ func stmtOrder(before *DDL, stmt Stmt) int {
 		return 1
 	case *DropTableStmt:
 		return 4
-	case *CreateTableStmt:
-		if findStmtByTypeAndName(s, before.Stmts) != nil { // dropped and created again
-			return 5
-		}
-		return 7
-	case *CreateIndexStmt:
-		if findStmtByTypeAndName(&CreateTableStmt{Name: s.TableName}, before.Stmts) != nil {
-			return 6
-		}
+	case *CreateTableStmt, *CreateIndexStmt:
 		return 7
 	case *AlterTableStmt:
 		switch action := s.Action.(type) {
-- 
2.43.0


From 3a7df2b47a24428be6df2da17fca3a50124f90b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:21 +0000
Subject: [PATCH 25/56] fix: apply cuts statements at semicolons and comment
 markers in quoted literals

---
 pkg/ddlctl/apply/ddlctl_apply.go      | 19 +++--------
 pkg/internal/util/remove_comment.go   | 34 -------------------
 pkg/internal/util/split_statements.go | 48 +++++++++++++++++++++++++++
 3 files changed, 52 insertions(+), 49 deletions(-)
 delete mode 100644 pkg/internal/util/remove_comment.go
 create mode 100644 pkg/internal/util/split_statements.go

diff --git a/pkg/ddlctl/apply/ddlctl_apply.go b/pkg/ddlctl/apply/ddlctl_apply.go
index d775fa0..06d69db 100644
--- a/pkg/ddlctl/apply/ddlctl_apply.go
+++ b/pkg/ddlctl/apply/ddlctl_apply.go
@@ -13,7 +13,6 @@ import (
 	sqlz "github.com/kunitsucom/util.go/database/sql"
 	errorz "github.com/kunitsucom/util.go/errors"
 	"github.com/kunitsucom/util.go/retry"
-	stringz "github.com/kunitsucom/util.go/strings"
 
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
 	"github.com/kunitsucom/ddlctl/pkg/ddl"
@@ -118,7 +117,7 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
 		if err := splitExec(
 			ctx,
 			db,
-			ddlStr,
+			util.SplitStatements("--", ddlStr, true),
 			func(err error) bool {
 				return errorz.Contains(err, "already exists") || errorz.Contains(err, "Duplicate column name")
 			},
@@ -130,7 +129,7 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
 		if err := splitExec(
 			ctx,
 			db,
-			ddlStr,
+			util.SplitStatements("--", ddlStr, false),
 			func(_ error) bool { return false }, // TODO: handle error
 			func(_ error) bool { return false }, // TODO: handle error
 		); err != nil {
@@ -152,12 +151,7 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
 				return apperr.Errorf("conn.ExecContext: q=%s: %w", q, err)
 			}
 		}
-		commentTrimmedDDL := stringz.ReadLine(ddlStr, "\n", stringz.ReadLineFuncRemoveCommentLine("--"))
-		for _, q := range strings.Split(commentTrimmedDDL, ";\n") {
-			if len(q) == 0 {
-				// skip empty query
-				continue
-			}
+		for _, q := range util.SplitStatements("--", ddlStr, true) {
 			if _, err := conn.ExecContext(ctx, q); err != nil {
 				return apperr.Errorf("conn.ExecContext: q=%s: %w", q, err)
 			}
@@ -195,20 +189,15 @@ func splitExec(
 	db interface {
 		ExecContext(ctx context.Context, query string, args ...any) (sql.Result, error)
 	},
-	ddlStr string,
+	ddls []string,
 	notErrorNotLogFunc func(err error) bool,
 	errorNotLogFunc func(err error) bool,
 ) error {
-	ddls := strings.Split(util.RemoveCommentsAndEmptyLines("--", ddlStr), ";\n")
 	const interval = 500 * time.Millisecond
 	retryer := retry.New(ctx, retry.NewConfig(interval, interval, retry.WithMaxRetries(len(ddls))))
 	if err := retryer.Do(func(ctx context.Context) error {
 		var outerErr error
 		for _, q := range ddls {
-			if len(q) == 0 {
-				// skip empty query
-				continue
-			}
 			if _, err := db.ExecContext(ctx, q); err != nil {
 				// If the error is one of the following, do not error and not log. go to the next DDL;
 				if notErrorNotLogFunc(err) {
diff --git a/pkg/internal/util/remove_comment.go b/pkg/internal/util/remove_comment.go
deleted file mode 100644
index bcfb28e..0000000
--- a/pkg/internal/util/remove_comment.go
+++ /dev/null
@@ -1,34 +0,0 @@
-package util
-
-import (
-	"bufio"
-	"strings"
-)
-
-func RemoveCommentsAndEmptyLines(prefix, input string) string {
-	var result strings.Builder
-	scanner := bufio.NewScanner(strings.NewReader(input))
-
-	for scanner.Scan() {
-		line := scanner.Text()
-		trimmedLine := strings.TrimSpace(line)
-
-		// Skip if the entire line is a comment
-		if strings.HasPrefix(trimmedLine, prefix) {
-			continue
-		}
-
-		// Process comments in the line
-		if idx := strings.Index(line, prefix); idx != -1 {
-			line = strings.TrimSpace(line[:idx])
-		}
-
-		// Add only if it is not an empty line
-		if line != "" {
-			result.WriteString(line)
-			result.WriteString("\n")
-		}
-	}
-
-	return result.String()
-}
diff --git a/pkg/internal/util/split_statements.go b/pkg/internal/util/split_statements.go
new file mode 100644
index 0000000..1b9a41b
--- /dev/null
+++ b/pkg/internal/util/split_statements.go
@@ -0,0 +1,48 @@
+package util
+
+import "strings"
+
+// SplitStatements splits SQL into its statements without comments and surrounding spaces.
+// A semicolon or a comment prefix in a quoted literal or identifier is part of it.
+// If backslashEscape is true, a backslash in a quoted literal escapes the next character.
+func SplitStatements(commentPrefix, input string, backslashEscape bool) []string {
+	var statements []string
+	var statement strings.Builder
+
+	appendStatement := func() {
+		if s := strings.TrimSpace(statement.String()); s != "" {
+			statements = append(statements, s)
+		}
+		statement.Reset()
+	}
+
+	var quote byte // 0 means outside of a quoted literal or identifier
+	for i := 0; i < len(input); i++ {
+		c := input[i]
+		switch {
+		case quote != 0:
+			switch {
+			case c == quote:
+				quote = 0
+			case c == '\\' && backslashEscape && quote != '`' && i+1 < len(input):
+				statement.WriteByte(c)
+				i++
+				c = input[i]
+			}
+		case c == '\'' || c == '"' || c == '`':
+			quote = c
+		case strings.HasPrefix(input[i:], commentPrefix):
+			for i+1 < len(input) && input[i+1] != '\n' {
+				i++
+			}
+			continue
+		case c == ';':
+			appendStatement()
+			continue
+		}
+		statement.WriteByte(c)
+	}
+	appendStatement()
+
+	return statements
+}
-- 
2.43.0


From 4e515875d9c444ff5e6a8827d00e84f97814eaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:46 +0000
Subject: [PATCH 26/56] fix: apply loses the error of closing the database

---
 pkg/ddlctl/apply/ddlctl_apply.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/ddlctl/apply/ddlctl_apply.go b/pkg/ddlctl/apply/ddlctl_apply.go
index 06d69db..112e08f 100644
--- a/pkg/ddlctl/apply/ddlctl_apply.go
+++ b/pkg/ddlctl/apply/ddlctl_apply.go
@@ -92,7 +92,7 @@ Enter a value: `
 }
 
 //nolint:cyclop,funlen,gocognit,gocyclo
-func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
+func Apply(ctx context.Context, dialect, dsn, ddlStr string) (err error) {
 	driverName := func() string {
 		switch dialect {
 		case ddlcrdb.Dialect:
@@ -136,9 +136,9 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
 			return apperr.Errorf("splitExec: %w", err)
 		}
 	case ddlspanner.DriverName:
-		conn, err := db.Conn(ctx)
-		if err != nil {
-			return apperr.Errorf("db.Conn: %w", err)
+		conn, connErr := db.Conn(ctx)
+		if connErr != nil {
+			return apperr.Errorf("db.Conn: %w", connErr)
 		}
 		defer func() {
 			if err2 := conn.Close(); err == nil && err2 != nil {
-- 
2.43.0


From a2a410cc6feb14c27200c0fcc7b13fb457449d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:23 +0000
Subject: [PATCH 27/56] fix: generate and show panic without arguments and
 ignore extra ones

---
 pkg/apperr/errors.go                   | 1 +
 pkg/ddlctl/generate/ddlctl_generate.go | 5 +++++
 pkg/ddlctl/show/ddlctl_show.go         | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/pkg/apperr/errors.go b/pkg/apperr/errors.go
index ea6d128..0a59680 100644
--- a/pkg/apperr/errors.go
+++ b/pkg/apperr/errors.go
@@ -10,6 +10,7 @@ var (
 	ErrCanceled                           = errors.New("canceled")
 	ErrDialectIsEmpty                     = errors.New("dialect is empty")
 	ErrDDLTagGoAnnotationNotFoundInSource = errors.New("go-ddl-tag annotation not found in source")
+	ErrOneArgumentRequired                = errors.New("one argument required")
 	ErrTwoArgumentsRequired               = errors.New("two arguments required")
 	ErrBothArgumentsIsDSN                 = errors.New("both arguments is dsn")
 	ErrBothArgumentsAreNotDSNOrSQLFile    = errors.New("both arguments are not dsn or sql file")
diff --git a/pkg/ddlctl/generate/ddlctl_generate.go b/pkg/ddlctl/generate/ddlctl_generate.go
index ad272d5..50e9e02 100644
--- a/pkg/ddlctl/generate/ddlctl_generate.go
+++ b/pkg/ddlctl/generate/ddlctl_generate.go
@@ -22,6 +22,11 @@ func Command(ctx context.Context, args []string) error {
 		return apperr.Errorf("config.Load: %w", err)
 	}
 
+	const sourceAndDestination = 2
+	if len(args) != sourceAndDestination {
+		return apperr.Errorf("args=%v: %w", args, apperr.ErrTwoArgumentsRequired)
+	}
+
 	dialect := config.Dialect()
 	language := config.Language()
 	src := args[0]
diff --git a/pkg/ddlctl/show/ddlctl_show.go b/pkg/ddlctl/show/ddlctl_show.go
index 3f5bfc1..f8727f6 100644
--- a/pkg/ddlctl/show/ddlctl_show.go
+++ b/pkg/ddlctl/show/ddlctl_show.go
@@ -26,6 +26,10 @@ func Command(ctx context.Context, args []string) error {
 		return apperr.Errorf("config.Load: %w", err)
 	}
 
+	if len(args) != 1 {
+		return apperr.Errorf("args=%v: %w", args, apperr.ErrOneArgumentRequired)
+	}
+
 	ddl, err := Show(ctx, config.Dialect(), args[0])
 	if err != nil {
 		return apperr.Errorf("diff: %w", err)
-- 
2.43.0


From b06ff71a43c6becfe0b44d5c3606575cf9252f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:30 +0000
Subject: [PATCH 28/56] fix: generate empties the destination before it fails

---
 pkg/ddlctl/generate/ddlctl_generate.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pkg/ddlctl/generate/ddlctl_generate.go b/pkg/ddlctl/generate/ddlctl_generate.go
index 50e9e02..1b3d740 100644
--- a/pkg/ddlctl/generate/ddlctl_generate.go
+++ b/pkg/ddlctl/generate/ddlctl_generate.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
 	crdbddl "github.com/kunitsucom/ddlctl/pkg/ddl/cockroachdb"
@@ -37,18 +38,19 @@ func Command(ctx context.Context, args []string) error {
 	logs.Info.Printf("source: %s", src)
 	logs.Info.Printf("destination: %s", dst)
 
+	// generate first, so that a failure leaves the destination as it is
+	b := new(strings.Builder)
+	if err := Generate(ctx, b, src, dialect, language); err != nil {
+		return apperr.Errorf("fprint: %w", err)
+	}
+
 	if info, err := os.Stat(dst); err == nil && info.IsDir() {
 		dst = filepath.Join(dst, "ddlctl.gen.sql")
 	}
 
 	const rw_r__r__ = 0o644 //nolint:revive,stylecheck
-	dstFile, err := os.OpenFile(dst, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, rw_r__r__)
-	if err != nil {
-		return apperr.Errorf("os.OpenFile: %w", err)
-	}
-
-	if err := Generate(ctx, dstFile, src, dialect, language); err != nil {
-		return apperr.Errorf("fprint: %w", err)
+	if err := os.WriteFile(dst, []byte(b.String()), rw_r__r__); err != nil {
+		return apperr.Errorf("os.WriteFile: %w", err)
 	}
 	return nil
 }
-- 
2.43.0


From 3403dc139afe223656109852a6843cbee734fc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:18 +0000
Subject: [PATCH 29/56] fix: show gives every index the columns of all indexes
 of the table

---
 pkg/show/spanner/show_create_all_tables.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index f72f9ed..b358530 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -128,8 +128,10 @@ INNER JOIN
     INFORMATION_SCHEMA.INDEX_COLUMNS AS ic
 ON
     i.TABLE_NAME = ic.TABLE_NAME
+    AND i.INDEX_NAME = ic.INDEX_NAME
 WHERE
     i.TABLE_NAME = ? 
+    AND i.INDEX_NAME = ? 
     AND i.INDEX_TYPE != "PRIMARY_KEY" 
     AND ic.INDEX_NAME != "PRIMARY_KEY" 
 ORDER BY
@@ -268,7 +270,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 
 		for _, indexName := range indexNames {
 			indexes := make([]*informationSchemaIndex, 0)
-			if err := dbz.QueryContext(ctx, &indexes, queryShowIndexes, tbl.TableName); err != nil {
+			if err := dbz.QueryContext(ctx, &indexes, queryShowIndexes, tbl.TableName, indexName.IndexName); err != nil {
 				return "", apperr.Errorf("dbz.QueryContext: %w", err)
 			}
 
-- 
2.43.0


From 805fba4d19ebc27b5ab2242666c94dc9ee5d8c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:18 +0000
Subject: [PATCH 30/56] fix: show loses the descending order of key and index
 columns

---
 pkg/show/spanner/show_create_all_tables.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index b358530..df379be 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -239,6 +239,9 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			primaryKeyColumnsLastIndex := len(primaryKeyColumns) - 1
 			for i, pk := range primaryKeyColumns {
 				d += pk.ColumnName
+				if pk.ColumnOrdering == "DESC" {
+					d += " DESC"
+				}
 				if i != primaryKeyColumnsLastIndex {
 					d += ", "
 				}
@@ -283,6 +286,9 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			indexesLastIndex := len(indexes) - 1
 			for i, idx := range indexes {
 				d += idx.ColumnName
+				if idx.ColumnOrdering == "DESC" {
+					d += " DESC"
+				}
 				if i != indexesLastIndex {
 					d += ", "
 				}
-- 
2.43.0


From f6357a18a1b6b4c2392f2c067b9b89e25006a203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:18 +0000
Subject: [PATCH 31/56] fix: show of a spanner table mixes in a table of the
 same name in another schema

---
 pkg/show/spanner/show_create_all_tables.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index df379be..3d14567 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -35,7 +35,7 @@ type informationSchemaTableOptionRowDeletionPolicy struct {
 }
 
 const (
-	queryShowCreateAllTables = `SELECT TABLE_NAME, COLUMN_NAME, COLUMN_DEFAULT, IS_NULLABLE, SPANNER_TYPE FROM INFORMATION_SCHEMA.COLUMNS WHERE TABLE_NAME = ? ORDER BY TABLE_NAME, ORDINAL_POSITION;`
+	queryShowCreateAllTables = `SELECT TABLE_NAME, COLUMN_NAME, COLUMN_DEFAULT, IS_NULLABLE, SPANNER_TYPE FROM INFORMATION_SCHEMA.COLUMNS WHERE TABLE_SCHEMA = '' AND TABLE_NAME = ? ORDER BY TABLE_NAME, ORDINAL_POSITION;`
 )
 
 type informationSchemaColumn struct {
@@ -58,7 +58,7 @@ func (c *informationSchemaColumn) String() string {
 }
 
 const (
-	queryShowTableColumnOptions = `SELECT COLUMN_NAME, OPTION_NAME, OPTION_VALUE FROM INFORMATION_SCHEMA.COLUMN_OPTIONS WHERE TABLE_NAME = ?;`
+	queryShowTableColumnOptions = `SELECT COLUMN_NAME, OPTION_NAME, OPTION_VALUE FROM INFORMATION_SCHEMA.COLUMN_OPTIONS WHERE TABLE_SCHEMA = '' AND TABLE_NAME = ?;`
 )
 
 type informationSchemaColumnOption struct {
@@ -84,9 +84,11 @@ FROM
 INNER JOIN
     INFORMATION_SCHEMA.INDEX_COLUMNS AS ic
 ON
-    i.TABLE_NAME = ic.TABLE_NAME
+    i.TABLE_SCHEMA = ic.TABLE_SCHEMA
+    AND i.TABLE_NAME = ic.TABLE_NAME
 WHERE
-    i.TABLE_NAME = ?
+    i.TABLE_SCHEMA = ''
+    AND i.TABLE_NAME = ?
     AND i.INDEX_TYPE = "PRIMARY_KEY"
     AND ic.INDEX_TYPE = "PRIMARY_KEY"
 ORDER BY
@@ -106,7 +108,7 @@ type informationSchemaPrimaryKey struct {
 }
 
 const (
-	querySelectIndexes = `SELECT DISTINCT INDEX_NAME, IS_UNIQUE FROM INFORMATION_SCHEMA.INDEXES WHERE TABLE_NAME = ? AND INDEX_TYPE != "PRIMARY_KEY";`
+	querySelectIndexes = `SELECT DISTINCT INDEX_NAME, IS_UNIQUE FROM INFORMATION_SCHEMA.INDEXES WHERE TABLE_SCHEMA = '' AND TABLE_NAME = ? AND INDEX_TYPE != "PRIMARY_KEY";`
 )
 
 type informationSchemaIndexName struct {
@@ -127,10 +129,12 @@ FROM
 INNER JOIN
     INFORMATION_SCHEMA.INDEX_COLUMNS AS ic
 ON
-    i.TABLE_NAME = ic.TABLE_NAME
+    i.TABLE_SCHEMA = ic.TABLE_SCHEMA
+    AND i.TABLE_NAME = ic.TABLE_NAME
     AND i.INDEX_NAME = ic.INDEX_NAME
 WHERE
-    i.TABLE_NAME = ? 
+    i.TABLE_SCHEMA = ''
+    AND i.TABLE_NAME = ? 
     AND i.INDEX_NAME = ? 
     AND i.INDEX_TYPE != "PRIMARY_KEY" 
     AND ic.INDEX_NAME != "PRIMARY_KEY" 
-- 
2.43.0


From 67c520593fe643a6154f72f26fcb3378184ef509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:18 +0000
Subject: [PATCH 32/56] fix: show of spanner renders views as tables

---
 pkg/show/spanner/show_create_all_tables.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index 3d14567..3fb67d8 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -18,7 +18,7 @@ type sqlQueryerContext = interface {
 }
 
 const (
-	querySelectTableName = `SELECT TABLE_NAME FROM INFORMATION_SCHEMA.TABLES WHERE TABLE_SCHEMA = '';`
+	querySelectTableName = `SELECT TABLE_NAME FROM INFORMATION_SCHEMA.TABLES WHERE TABLE_SCHEMA = '' AND TABLE_TYPE = 'BASE TABLE';`
 )
 
 type informationSchemaTable struct {
-- 
2.43.0


From 76133d25717e30e1a3ea51c4df5ce77f68b16119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:18 +0000
Subject: [PATCH 33/56] fix: show of spanner loses INTERLEAVE IN PARENT

---
 pkg/show/spanner/show_create_all_tables.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index 3fb67d8..158e0b9 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -34,6 +34,15 @@ type informationSchemaTableOptionRowDeletionPolicy struct {
 	RowDeletionPolicyExpression string `db:"ROW_DELETION_POLICY_EXPRESSION"`
 }
 
+const (
+	querySelectInterleave = `SELECT PARENT_TABLE_NAME, ON_DELETE_ACTION FROM INFORMATION_SCHEMA.TABLES WHERE TABLE_SCHEMA = '' AND TABLE_NAME = ? AND PARENT_TABLE_NAME != '';`
+)
+
+type informationSchemaInterleave struct {
+	ParentTableName string  `db:"PARENT_TABLE_NAME"`
+	OnDeleteAction  *string `db:"ON_DELETE_ACTION"`
+}
+
 const (
 	queryShowCreateAllTables = `SELECT TABLE_NAME, COLUMN_NAME, COLUMN_DEFAULT, IS_NULLABLE, SPANNER_TYPE FROM INFORMATION_SCHEMA.COLUMNS WHERE TABLE_SCHEMA = '' AND TABLE_NAME = ? ORDER BY TABLE_NAME, ORDINAL_POSITION;`
 )
@@ -253,6 +262,18 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			d += ")"
 		}
 
+		interleaves := make([]*informationSchemaInterleave, 0)
+		if err := dbz.QueryContext(ctx, &interleaves, querySelectInterleave, tbl.TableName); err != nil {
+			return "", apperr.Errorf("dbz.QueryContext: %w", err)
+		}
+
+		for _, interleave := range interleaves {
+			d += ",\nINTERLEAVE IN PARENT " + interleave.ParentTableName
+			if interleave.OnDeleteAction != nil && *interleave.OnDeleteAction == "CASCADE" {
+				d += " ON DELETE CASCADE"
+			}
+		}
+
 		tableOptionRowDeletionPolicy := make([]*informationSchemaTableOptionRowDeletionPolicy, 0)
 		if err := dbz.QueryContext(ctx, &tableOptionRowDeletionPolicy, querySelectTableOptionRowDeletionPolicy, tbl.TableName); err != nil {
 			return "", apperr.Errorf("dbz.QueryContext: %w", err)
-- 
2.43.0


From 1b6abc94e1e0a4dc16e7a0ffd6bb8c60920eb0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:49 +0000
Subject: [PATCH 34/56] fix: show of postgres renders foreign keys without
 REFERENCES and loses checks

---
 pkg/show/postgres/show_create_all_tables.go | 33 +++++++--------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/pkg/show/postgres/show_create_all_tables.go b/pkg/show/postgres/show_create_all_tables.go
index a531a92..f3b3617 100644
--- a/pkg/show/postgres/show_create_all_tables.go
+++ b/pkg/show/postgres/show_create_all_tables.go
@@ -44,35 +44,22 @@ LEFT JOIN
     (
         -- CONSTRAINT DEFINITIONS
         SELECT
-            tc.table_schema,
-            tc.table_name,
+            n.nspname AS table_schema,
+            t.relname AS table_name,
             string_agg(
-                'CONSTRAINT ' || tc.constraint_name || ' ' || tc.constraint_type || ' (' || kcu.column_names || ')' ||
-                (CASE WHEN rc.update_rule IS NOT NULL THEN ' ON UPDATE ' || rc.update_rule ELSE '' END) ||
-                (CASE WHEN rc.delete_rule IS NOT NULL THEN ' ON DELETE ' || rc.delete_rule ELSE '' END),
-                ',' || E'\n' || '  '
+                'CONSTRAINT ' || c.conname || ' ' || pg_get_constraintdef(c.oid),
+                ',' || E'\n' || '  ' ORDER BY c.oid
             ) AS constraint_defs
         FROM
-            information_schema.table_constraints tc
+            pg_catalog.pg_constraint c
         JOIN
-            (
-                -- CONSTRAINT COLUMN NAMES
-                SELECT
-                    kcu.table_schema,
-                    kcu.table_name,
-                    kcu.constraint_name,
-                    string_agg(kcu.column_name, ', ' ORDER BY kcu.ordinal_position) AS column_names
-                FROM
-                    information_schema.key_column_usage kcu
-                GROUP BY
-                    kcu.table_schema, kcu.table_name, kcu.constraint_name
-            ) kcu ON tc.table_schema = kcu.table_schema AND tc.table_name = kcu.table_name AND tc.constraint_name = kcu.constraint_name
-        LEFT JOIN
-            information_schema.referential_constraints rc ON tc.constraint_name = rc.constraint_name
+            pg_catalog.pg_class t ON c.conrelid = t.oid
+        JOIN
+            pg_catalog.pg_namespace n ON t.relnamespace = n.oid
         WHERE
-            tc.constraint_type IN ('PRIMARY KEY', 'FOREIGN KEY', 'UNIQUE')
+            c.contype IN ('p', 'f', 'u', 'c')
         GROUP BY
-            tc.table_schema, tc.table_name
+            n.nspname, t.relname
     ) cnst ON clmn.table_schema = cnst.table_schema AND clmn.table_name = cnst.table_name
 ORDER BY
     clmn.table_schema, clmn.table_name
-- 
2.43.0


From 996a114b6781b3e4215a3a562f56ecd48f1d4e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:49 +0000
Subject: [PATCH 35/56] fix: show of postgres renders views as tables

---
 pkg/show/postgres/show_create_all_tables.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/show/postgres/show_create_all_tables.go b/pkg/show/postgres/show_create_all_tables.go
index f3b3617..d339b88 100644
--- a/pkg/show/postgres/show_create_all_tables.go
+++ b/pkg/show/postgres/show_create_all_tables.go
@@ -35,6 +35,8 @@ FROM
             ) AS column_defs
         FROM
             information_schema.columns c
+        JOIN
+            information_schema.tables t ON c.table_schema = t.table_schema AND c.table_name = t.table_name AND t.table_type = 'BASE TABLE'
         WHERE
             c.table_schema = '%s'
         GROUP BY
-- 
2.43.0


From 3cb83eee52701e09c5bd65178278ab2fa8d4c75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:49 +0000
Subject: [PATCH 36/56] fix: show of postgres loses an index that has the name
 of a foreign key or check

---
 pkg/show/postgres/show_create_all_tables.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/show/postgres/show_create_all_tables.go b/pkg/show/postgres/show_create_all_tables.go
index d339b88..2d9f2d1 100644
--- a/pkg/show/postgres/show_create_all_tables.go
+++ b/pkg/show/postgres/show_create_all_tables.go
@@ -90,7 +90,7 @@ WHERE
     schemaname = '%s' AND indexname NOT IN (
         SELECT constraint_name
         FROM information_schema.table_constraints
-        WHERE table_schema = '%s'
+        WHERE table_schema = '%s' AND constraint_type IN ('PRIMARY KEY', 'UNIQUE')
     )
 ;
 `
-- 
2.43.0


From c6ceebe3b53c9c7b26f29f57b3b0a050a0cefa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:49 +0000
Subject: [PATCH 37/56] fix: show of postgres loses the precision of numeric
 columns

---
 pkg/show/postgres/show_create_all_tables.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/show/postgres/show_create_all_tables.go b/pkg/show/postgres/show_create_all_tables.go
index 2d9f2d1..ad9e0f0 100644
--- a/pkg/show/postgres/show_create_all_tables.go
+++ b/pkg/show/postgres/show_create_all_tables.go
@@ -29,6 +29,7 @@ FROM
             string_agg(
                 c.column_name || ' ' || c.data_type ||
                 (CASE WHEN c.character_maximum_length IS NOT NULL THEN '(' || c.character_maximum_length || ')' ELSE '' END) ||
+                (CASE WHEN c.data_type = 'numeric' AND c.numeric_precision IS NOT NULL THEN '(' || c.numeric_precision || ', ' || c.numeric_scale || ')' ELSE '' END) ||
                 (CASE WHEN c.is_nullable = 'NO' THEN ' NOT NULL' ELSE '' END) ||
                 (CASE WHEN c.column_default IS NOT NULL THEN ' DEFAULT ' || c.column_default ELSE '' END),
                 ',' || E'\n' || '  ' ORDER BY c.ordinal_position
-- 
2.43.0


From 05e988f91488b78e73de59487653f83cb3cbe352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:49 +0000
Subject: [PATCH 38/56] fix: show of postgres does not quote names that need it

---
 pkg/show/postgres/show_create_all_tables.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/show/postgres/show_create_all_tables.go b/pkg/show/postgres/show_create_all_tables.go
index ad9e0f0..ba986f7 100644
--- a/pkg/show/postgres/show_create_all_tables.go
+++ b/pkg/show/postgres/show_create_all_tables.go
@@ -17,7 +17,7 @@ type sqlQueryerContext = interface {
 const (
 	formatShowCreateAllTables = `-- CREATE TABLE
 SELECT
-    'CREATE TABLE ' || clmn.table_schema || '.' || clmn.table_name || ' (' || E'\n' || '  ' ||
+    'CREATE TABLE ' || clmn.table_schema || '.' || quote_ident(clmn.table_name) || ' (' || E'\n' || '  ' ||
     clmn.column_defs ||
     (CASE WHEN cnst.constraint_defs IS NOT NULL THEN ',' || E'\n' || '  ' || cnst.constraint_defs ELSE '' END) || E'\n' || ');' AS create_statement
 FROM
@@ -27,7 +27,7 @@ FROM
             c.table_schema,
             c.table_name,
             string_agg(
-                c.column_name || ' ' || c.data_type ||
+                quote_ident(c.column_name) || ' ' || c.data_type ||
                 (CASE WHEN c.character_maximum_length IS NOT NULL THEN '(' || c.character_maximum_length || ')' ELSE '' END) ||
                 (CASE WHEN c.data_type = 'numeric' AND c.numeric_precision IS NOT NULL THEN '(' || c.numeric_precision || ', ' || c.numeric_scale || ')' ELSE '' END) ||
                 (CASE WHEN c.is_nullable = 'NO' THEN ' NOT NULL' ELSE '' END) ||
@@ -50,7 +50,7 @@ LEFT JOIN
             n.nspname AS table_schema,
             t.relname AS table_name,
             string_agg(
-                'CONSTRAINT ' || c.conname || ' ' || pg_get_constraintdef(c.oid),
+                'CONSTRAINT ' || quote_ident(c.conname) || ' ' || pg_get_constraintdef(c.oid),
                 ',' || E'\n' || '  ' ORDER BY c.oid
             ) AS constraint_defs
         FROM
-- 
2.43.0


From b87a6a3c02cd85f65c1c6295bb16c2c8e3c95b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:49 +0000
Subject: [PATCH 39/56] fix: show of mysql fails when there is a view

---
 pkg/show/mysql/show_create_all_tables.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/show/mysql/show_create_all_tables.go b/pkg/show/mysql/show_create_all_tables.go
index a78e141..3948947 100644
--- a/pkg/show/mysql/show_create_all_tables.go
+++ b/pkg/show/mysql/show_create_all_tables.go
@@ -52,7 +52,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 	}
 
 	tableNames := new([]*TableName)
-	tableNamesQuery := "SELECT TABLE_NAME FROM information_schema.TABLES WHERE TABLE_SCHEMA = " + databaseQuoted
+	tableNamesQuery := "SELECT TABLE_NAME FROM information_schema.TABLES WHERE TABLE_SCHEMA = " + databaseQuoted + " AND TABLE_TYPE = 'BASE TABLE'"
 	if err := dbz.QueryContext(ctx, tableNames, tableNamesQuery); err != nil {
 		return "", apperr.Errorf("dbz.QueryContext: q=%s: %w", tableNamesQuery, err)
 	}
-- 
2.43.0


From 2039cc96a8fe553a5ecf55ff0e2106d91670435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:12 +0000
Subject: [PATCH 40/56] fix: postgres VARCHAR and CHARACTER VARYING are taken
 for different types

---
 pkg/ddl/postgres/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index b061a24..8a810b6 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -708,6 +708,9 @@ func (p *Parser) parseDataType() (*DataType, error) {
 		p.nextToken() // current = VARYING
 		dataType.Name += " " + p.currentToken.Literal.String()
 		dataType.Type = TOKEN_CHARACTER_VARYING //diff:ignore-line-postgres-cockroach
+	case TOKEN_VARYING: //diff:ignore-line-postgres-cockroach
+		dataType.Name = p.currentToken.Literal.String() //diff:ignore-line-postgres-cockroach
+		dataType.Type = TOKEN_CHARACTER_VARYING         //diff:ignore-line-postgres-cockroach
 	default:
 		dataType.Name = p.currentToken.Literal.String()
 		dataType.Type = p.currentToken.Type
-- 
2.43.0


From 443c3bc2a009bd5cfab76beb54779af62f104152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 41/56] fix: DECIMAL and NUMERIC are taken for different types

---
 pkg/ddl/cockroachdb/parser.go | 3 +++
 pkg/ddl/mysql/parser.go       | 3 +++
 pkg/ddl/postgres/parser.go    | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 5a0ef51..b9fdaf2 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -824,6 +824,9 @@ func (p *Parser) parseDataType() (*DataType, error) {
 		p.nextToken() // current = VARYING
 		dataType.Name += " " + p.currentToken.Literal.String()
 		dataType.Type = TOKEN_VARCHAR //diff:ignore-line-postgres-cockroach
+	case TOKEN_NUMERIC: //diff:ignore-line-postgres-cockroach
+		dataType.Name = p.currentToken.Literal.String()
+		dataType.Type = TOKEN_DECIMAL //diff:ignore-line-postgres-cockroach
 	default:
 		dataType.Name = p.currentToken.Literal.String()
 		dataType.Type = p.currentToken.Type
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index ab01529..7e4b08e 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -798,6 +798,9 @@ func (p *Parser) parseDataType() (*DataType, error) {
 	case TOKEN_ENUM:
 		dataType.Name = p.currentToken.Literal.String()
 		dataType.Type = TOKEN_ENUM
+	case TOKEN_NUMERIC: //diff:ignore-line-postgres-cockroach
+		dataType.Name = p.currentToken.Literal.String()
+		dataType.Type = TOKEN_DECIMAL //diff:ignore-line-postgres-cockroach
 	default:
 		dataType.Name = p.currentToken.Literal.String()
 		dataType.Type = p.currentToken.Type
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 8a810b6..6ca8c0a 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -711,6 +711,9 @@ func (p *Parser) parseDataType() (*DataType, error) {
 	case TOKEN_VARYING: //diff:ignore-line-postgres-cockroach
 		dataType.Name = p.currentToken.Literal.String() //diff:ignore-line-postgres-cockroach
 		dataType.Type = TOKEN_CHARACTER_VARYING         //diff:ignore-line-postgres-cockroach
+	case TOKEN_DECIMAL: //diff:ignore-line-postgres-cockroach
+		dataType.Name = p.currentToken.Literal.String()
+		dataType.Type = TOKEN_NUMERIC //diff:ignore-line-postgres-cockroach
 	default:
 		dataType.Name = p.currentToken.Literal.String()
 		dataType.Type = p.currentToken.Type
-- 
2.43.0


From 24ce344ac6b005ee812cb59b689dd2748e344e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:47 +0000
Subject: [PATCH 42/56] fix: postgres parser refuses TIMESTAMP WITHOUT TIME
 ZONE, which the catalog says

---
 pkg/ddl/postgres/parser.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 6ca8c0a..28071ae 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -689,6 +689,20 @@ func (p *Parser) parseDataType() (*DataType, error) {
 			p.nextToken() // current = ZONE
 			dataType.Name += " " + p.currentToken.Literal.String()
 			dataType.Type = TOKEN_TIMESTAMP_WITH_TIME_ZONE //diff:ignore-line-postgres-cockroach
+		} else if p.isPeekToken(TOKEN_IDENT) && strings.EqualFold(p.peekToken.Literal.Str, "WITHOUT") { //diff:ignore-line-postgres-cockroach
+			p.nextToken() // current = WITHOUT
+			dataType.Name += " " + p.currentToken.Literal.String()
+			if err := p.checkPeekToken(TOKEN_TIME); err != nil {
+				return nil, apperr.Errorf("checkPeekToken: %w", err)
+			}
+			p.nextToken() // current = TIME
+			dataType.Name += " " + p.currentToken.Literal.String()
+			if err := p.checkPeekToken(TOKEN_ZONE); err != nil {
+				return nil, apperr.Errorf("checkPeekToken: %w", err)
+			}
+			p.nextToken() // current = ZONE
+			dataType.Name += " " + p.currentToken.Literal.String()
+			dataType.Type = TOKEN_TIMESTAMP
 		} else {
 			dataType.Type = TOKEN_TIMESTAMP
 		}
-- 
2.43.0


From 4111c0d26caf1d3a6af39a00f4a2f6775e853f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:11 +0000
Subject: [PATCH 43/56] fix: generate panics on struct fields without a tag and
 on embedded fields

---
 pkg/internal/lang/go/parse.go | 37 ++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index 71ff2a9..81aaa5c 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -156,7 +156,7 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 
 		// columns
 		if r.StructType != nil {
-			for _, field := range r.StructType.Fields.List {
+			for _, field := range taggedFields(r.StructType.Fields.List) {
 				column := &generator.CreateTableColumn{}
 
 				tag := reflect.StructTag(strings.Trim(field.Tag.Value, "`"))
@@ -240,3 +240,38 @@ func extractContainingCommentFromCommentGroup(commentGroup *ast.CommentGroup, su
 	}
 	return nil
 }
+
+// taggedFields returns the fields that have a tag, each with its name: the name of an embedded field is that of its type.
+func taggedFields(list []*ast.Field) []*ast.Field {
+	fields := make([]*ast.Field, 0, len(list))
+	for _, field := range list {
+		switch {
+		case field.Tag == nil:
+			// NOTE: a field without a tag has no annotation
+		case len(field.Names) == 0:
+			embedded := *field
+			embedded.Names = []*ast.Ident{embeddedFieldName(field.Type)}
+			fields = append(fields, &embedded)
+		default:
+			fields = append(fields, field)
+		}
+	}
+	return fields
+}
+
+func embeddedFieldName(expr ast.Expr) *ast.Ident {
+	switch t := expr.(type) {
+	case *ast.StarExpr:
+		return embeddedFieldName(t.X)
+	case *ast.SelectorExpr:
+		return t.Sel
+	case *ast.IndexExpr:
+		return embeddedFieldName(t.X)
+	case *ast.IndexListExpr:
+		return embeddedFieldName(t.X)
+	case *ast.Ident:
+		return t
+	default:
+		return ast.NewIdent("_")
+	}
+}
-- 
2.43.0


From c3ef8cb278295c199aef049080d17aaad7871007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:14 +0000
Subject: [PATCH 44/56] fix: generate drops all but the first of the fields
 declared together

---
 pkg/internal/lang/go/parse.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index 81aaa5c..e562c29 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -241,7 +241,7 @@ func extractContainingCommentFromCommentGroup(commentGroup *ast.CommentGroup, su
 	return nil
 }
 
-// taggedFields returns the fields that have a tag, each with its name: the name of an embedded field is that of its type.
+// taggedFields returns the fields that have a tag, one for each name: the name of an embedded field is that of its type.
 func taggedFields(list []*ast.Field) []*ast.Field {
 	fields := make([]*ast.Field, 0, len(list))
 	for _, field := range list {
@@ -253,7 +253,11 @@ func taggedFields(list []*ast.Field) []*ast.Field {
 			embedded.Names = []*ast.Ident{embeddedFieldName(field.Type)}
 			fields = append(fields, &embedded)
 		default:
-			fields = append(fields, field)
+			for _, name := range field.Names {
+				named := *field
+				named.Names = []*ast.Ident{name}
+				fields = append(fields, &named)
+			}
 		}
 	}
 	return fields
-- 
2.43.0


From c219830fa16781d0fe6d6160aa66cd24e1499e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:16 +0000
Subject: [PATCH 45/56] fix: generate ignores struct tags written as
 interpreted strings

---
 pkg/internal/lang/go/parse.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index e562c29..abd1f5e 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -11,6 +11,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"sort"
+	"strconv"
 	"strings"
 	"unicode"
 
@@ -159,7 +160,11 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 			for _, field := range taggedFields(r.StructType.Fields.List) {
 				column := &generator.CreateTableColumn{}
 
-				tag := reflect.StructTag(strings.Trim(field.Tag.Value, "`"))
+				tagValue, err := strconv.Unquote(field.Tag.Value)
+				if err != nil {
+					return nil, apperr.Errorf("strconv.Unquote: %s: %w", field.Tag.Value, err)
+				}
+				tag := reflect.StructTag(tagValue)
 
 				// column name
 				switch columnName := tag.Get(config.ColumnTagGo()); columnName {
-- 
2.43.0


From 3c7f4d958bbecf7834609c9cbe5f0e59ac5f6791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:47 +0000
Subject: [PATCH 46/56] fix: generate takes annotations for another tag, and
 prose, as its own

---
 pkg/internal/lang/go/extract_source.go | 2 +-
 pkg/internal/lang/go/parse.go          | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/internal/lang/go/extract_source.go b/pkg/internal/lang/go/extract_source.go
index 92af228..b428b06 100644
--- a/pkg/internal/lang/go/extract_source.go
+++ b/pkg/internal/lang/go/extract_source.go
@@ -40,7 +40,7 @@ const (
 
 func DDLTagGoCommentLineRegex() *regexp.Regexp {
 	_DDLTagGoCommentLineRegexOnce.Do(func() {
-		_DDLTagGoCommentLineRegex = regexp.MustCompile(fmt.Sprintf(_DDLTagGoCommentLineRegexFormat, config.DDLTagGo()))
+		_DDLTagGoCommentLineRegex = regexp.MustCompile(fmt.Sprintf(_DDLTagGoCommentLineRegexFormat, regexp.QuoteMeta(config.DDLTagGo())))
 	})
 	return _DDLTagGoCommentLineRegex
 }
diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index abd1f5e..5114028 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -118,6 +118,12 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 		for _, comment := range comments {
 			logs.Debug.Printf("[COMMENT DETECTED]: %s:%d: %s", createTableStmt.SourceFile, createTableStmt.SourceLine, comment)
 
+			if !DDLTagGoCommentLineRegex().MatchString(comment) {
+				// NOTE: not an annotation, or an annotation for another tag
+				createTableStmt.Comments = append(createTableStmt.Comments, comment)
+				continue
+			}
+
 			// NOTE: CREATE INDEX may be written in CREATE TABLE annotation, so process it here
 			if /* CREATE INDEX */ matches := langutil.StmtRegexCreateIndex.Regex.FindStringSubmatch(comment); len(matches) > langutil.StmtRegexCreateIndex.Index {
 				commentMatchedCreateIndex := comment
-- 
2.43.0


From 3a42abc77037775b9752e58f3ca57c313121c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:11 +0000
Subject: [PATCH 47/56] fix: generate writes block comments into the DDL and
 misses annotations after their first line

---
 pkg/internal/lang/go/extract_source.go |  4 +--
 pkg/internal/lang/go/parse.go          | 34 ++++++++++++++++++++------
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/pkg/internal/lang/go/extract_source.go b/pkg/internal/lang/go/extract_source.go
index b428b06..fe0036a 100644
--- a/pkg/internal/lang/go/extract_source.go
+++ b/pkg/internal/lang/go/extract_source.go
@@ -53,12 +53,12 @@ func extractDDLSourceFromDDLTagGo(_ context.Context, fset *token.FileSet, f *ast
 	for commentedNode, commentGroups := range ast.NewCommentMap(fset, f, f.Comments) {
 		for _, commentGroup := range commentGroups {
 		CommentGroupLoop:
-			for _, commentLine := range commentGroup.List {
+			for _, commentLine := range commentLines(fset, commentGroup) {
 				logs.Trace.Printf("commentLine=%s: %s", filepathz.Short(fset.Position(commentGroup.Pos()).String()), commentLine.Text)
 				// NOTE: If the comment line matches the DDLTagGo, it is assumed to be a comment line for the struct.
 				if matches := DDLTagGoCommentLineRegex().FindStringSubmatch(commentLine.Text); len(matches) > _DDLTagGoCommentLineRegexContentIndex {
 					s := &ddlSource{
-						Position:     fset.Position(commentLine.Pos()),
+						Position:     commentLine.Position,
 						CommentGroup: commentGroup,
 					}
 					ast.Inspect(commentedNode, func(node ast.Node) bool {
diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index 5114028..10b3641 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -16,7 +16,6 @@ import (
 	"unicode"
 
 	filepathz "github.com/kunitsucom/util.go/path/filepath"
-	slicez "github.com/kunitsucom/util.go/slices"
 
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
 	"github.com/kunitsucom/ddlctl/pkg/internal/config"
@@ -112,10 +111,8 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 		createTableStmt.SourceLine = r.Position.Line
 
 		// CREATE TABLE (or INDEX) / CONSTRAINT / OPTIONS (from comments)
-		comments := slicez.Select(r.CommentGroup.List, func(_ int, comment *ast.Comment) string {
-			return strings.TrimLeftFunc(strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(comment.Text, "//"), "/*"), "*/"), unicode.IsSpace)
-		})
-		for _, comment := range comments {
+		for _, line := range commentLines(fset, r.CommentGroup) {
+			comment := line.Text
 			logs.Debug.Printf("[COMMENT DETECTED]: %s:%d: %s", createTableStmt.SourceFile, createTableStmt.SourceLine, comment)
 
 			if !DDLTagGoCommentLineRegex().MatchString(comment) {
@@ -127,11 +124,10 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 			// NOTE: CREATE INDEX may be written in CREATE TABLE annotation, so process it here
 			if /* CREATE INDEX */ matches := langutil.StmtRegexCreateIndex.Regex.FindStringSubmatch(comment); len(matches) > langutil.StmtRegexCreateIndex.Index {
 				commentMatchedCreateIndex := comment
-				source := fset.Position(extractContainingCommentFromCommentGroup(r.CommentGroup, commentMatchedCreateIndex).Pos())
 				createIndexStmt := &generator.CreateIndexStmt{
 					Comments:   []string{commentMatchedCreateIndex},
-					SourceFile: source.Filename,
-					SourceLine: source.Line,
+					SourceFile: line.Position.Filename,
+					SourceLine: line.Position.Line,
 				}
 				createIndexStmt.SetCreateIndex(matches[langutil.StmtRegexCreateIndex.Index])
 				stmts = append(stmts, createIndexStmt)
@@ -252,6 +248,28 @@ func extractContainingCommentFromCommentGroup(commentGroup *ast.CommentGroup, su
 	return nil
 }
 
+type commentLine struct {
+	Text     string
+	Position token.Position
+}
+
+// commentLines returns the lines of the comment group without the comment markers.
+func commentLines(fset *token.FileSet, commentGroup *ast.CommentGroup) []commentLine {
+	lines := make([]commentLine, 0, len(commentGroup.List))
+	for _, comment := range commentGroup.List {
+		position := fset.Position(comment.Pos())
+		if text := strings.TrimPrefix(comment.Text, "//"); text != comment.Text {
+			lines = append(lines, commentLine{Text: strings.TrimLeftFunc(text, unicode.IsSpace), Position: position})
+			continue
+		}
+		for _, text := range strings.Split(strings.TrimSuffix(strings.TrimPrefix(comment.Text, "/*"), "*/"), "\n") {
+			lines = append(lines, commentLine{Text: strings.TrimSpace(text), Position: position})
+			position.Line++
+		}
+	}
+	return lines
+}
+
 // taggedFields returns the fields that have a tag, one for each name: the name of an embedded field is that of its type.
 func taggedFields(list []*ast.Field) []*ast.Field {
 	fields := make([]*ast.Field, 0, len(list))
-- 
2.43.0


From 7fd5db2c58aae6076b9b7a8458218b31ed517479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:20 +0000
Subject: [PATCH 48/56] fix: generate repeats a struct's table for an index
 annotation near it

---
 pkg/internal/lang/go/extract_source.go | 28 ++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/pkg/internal/lang/go/extract_source.go b/pkg/internal/lang/go/extract_source.go
index fe0036a..222a98c 100644
--- a/pkg/internal/lang/go/extract_source.go
+++ b/pkg/internal/lang/go/extract_source.go
@@ -12,6 +12,7 @@ import (
 
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
 	"github.com/kunitsucom/ddlctl/pkg/internal/config"
+	langutil "github.com/kunitsucom/ddlctl/pkg/internal/lang/util"
 	"github.com/kunitsucom/ddlctl/pkg/logs"
 )
 
@@ -61,7 +62,12 @@ func extractDDLSourceFromDDLTagGo(_ context.Context, fset *token.FileSet, f *ast
 						Position:     commentLine.Position,
 						CommentGroup: commentGroup,
 					}
+					// NOTE: a comment that only declares indexes declares a table only if it is the doc comment of the struct.
+					declaresTable := hasDoc(commentedNode, commentGroup) || !declaresOnlyIndexes(commentLines(fset, commentGroup))
 					ast.Inspect(commentedNode, func(node ast.Node) bool {
+						if !declaresTable {
+							return false
+						}
 						switch n := node.(type) {
 						case *ast.TypeSpec:
 							s.TypeSpec = n
@@ -88,3 +94,25 @@ func extractDDLSourceFromDDLTagGo(_ context.Context, fset *token.FileSet, f *ast
 
 	return ddlSrc, nil
 }
+
+// declaresOnlyIndexes reports whether all annotations in the lines are index annotations.
+func declaresOnlyIndexes(lines []commentLine) bool {
+	for _, line := range lines {
+		if DDLTagGoCommentLineRegex().MatchString(line.Text) && !langutil.StmtRegexCreateIndex.Regex.MatchString(line.Text) {
+			return false
+		}
+	}
+	return true
+}
+
+// hasDoc reports whether the comment group is the doc comment of the type declaration.
+func hasDoc(node ast.Node, commentGroup *ast.CommentGroup) bool {
+	switch n := node.(type) {
+	case *ast.GenDecl:
+		return n.Doc == commentGroup
+	case *ast.TypeSpec:
+		return n.Doc == commentGroup
+	default:
+		return false
+	}
+}
-- 
2.43.0


From 98938cd14db22af91ff63e7135738bc47656f089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:33 +0000
Subject: [PATCH 49/56] fix: generate puts an index before its table, and
 annotations on one line in random order

---
 pkg/internal/lang/go/extract_source.go |  4 ++++
 pkg/internal/lang/go/parse.go          | 12 ++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/internal/lang/go/extract_source.go b/pkg/internal/lang/go/extract_source.go
index 222a98c..f83d429 100644
--- a/pkg/internal/lang/go/extract_source.go
+++ b/pkg/internal/lang/go/extract_source.go
@@ -6,6 +6,7 @@ import (
 	"go/ast"
 	"go/token"
 	"regexp"
+	"sort"
 	"sync"
 
 	filepathz "github.com/kunitsucom/util.go/path/filepath"
@@ -92,6 +93,9 @@ func extractDDLSourceFromDDLTagGo(_ context.Context, fset *token.FileSet, f *ast
 		return nil, apperr.Errorf("go-ddl-tag=%s: %w", config.DDLTagGo(), apperr.ErrDDLTagGoAnnotationNotFoundInSource)
 	}
 
+	// NOTE: the iteration order of the comment map is random
+	sort.Slice(ddlSrc, func(i, j int) bool { return ddlSrc[i].CommentGroup.Pos() < ddlSrc[j].CommentGroup.Pos() })
+
 	return ddlSrc, nil
 }
 
diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index 10b3641..4519c7f 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -228,8 +228,16 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 		}
 	}
 
-	sort.Slice(stmts, func(i, j int) bool {
-		return fmt.Sprintf("%s:%09d", stmts[i].GetSourceFile(), stmts[i].GetSourceLine()) < fmt.Sprintf("%s:%09d", stmts[j].GetSourceFile(), stmts[j].GetSourceLine())
+	sort.SliceStable(stmts, func(i, j int) bool {
+		left := fmt.Sprintf("%s:%09d", stmts[i].GetSourceFile(), stmts[i].GetSourceLine())
+		right := fmt.Sprintf("%s:%09d", stmts[j].GetSourceFile(), stmts[j].GetSourceLine())
+		if left != right {
+			return left < right
+		}
+		// NOTE: if the first annotation of the table's comment is an index, the table must come first
+		_, leftIsTable := stmts[i].(*generator.CreateTableStmt)
+		_, rightIsIndex := stmts[j].(*generator.CreateIndexStmt)
+		return leftIsTable && rightIsIndex
 	})
 
 	for i := range stmts {
-- 
2.43.0


From 67a64dbd51920def32ef2660df3ab98d6a0c404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:58 +0000
Subject: [PATCH 50/56] fix: drop foreign keys and dependent tables before the
 keys and indexes they need

---
 pkg/ddl/cockroachdb/diff.go | 54 ++++++++++++++++++++++++-------------
 pkg/ddl/mysql/diff.go       | 54 ++++++++++++++++++++++++-------------
 pkg/ddl/postgres/diff.go    | 54 ++++++++++++++++++++++++-------------
 pkg/ddl/spanner/diff.go     | 53 +++++++++++++++++++++++-------------
 4 files changed, 142 insertions(+), 73 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff.go b/pkg/ddl/cockroachdb/diff.go
index a9a1c1c..e013bb2 100644
--- a/pkg/ddl/cockroachdb/diff.go
+++ b/pkg/ddl/cockroachdb/diff.go
@@ -111,31 +111,49 @@ func Diff(before, after *DDL) (*DDL, error) {
 // sortStmts sorts the statements of a migration by what they depend on, keeping the order of the others:
 // what goes away is removed before the columns change, and what is new is added after that.
 func sortStmts(before *DDL, stmts []Stmt) {
-	slices.SortStableFunc(stmts, func(a, b Stmt) int {
-		return stmtOrder(before, a) - stmtOrder(before, b)
-	})
-	// a table may refer to the tables declared before it
-	if first := slices.IndexFunc(stmts, isDropTableStmt); first >= 0 {
-		last := first
-		for last < len(stmts) && isDropTableStmt(stmts[last]) {
-			last++
+	droppedTables := make(map[string]bool)
+	for _, stmt := range stmts {
+		if s, ok := stmt.(*DropTableStmt); ok {
+			droppedTables[s.Name.StringForDiff()] = true
 		}
-		slices.Reverse(stmts[first:last])
 	}
+	slices.SortStableFunc(stmts, func(a, b Stmt) int {
+		orderA, orderB := stmtOrder(before, droppedTables, a), stmtOrder(before, droppedTables, b)
+		switch {
+		case orderA != orderB:
+			return orderA - orderB
+		case orderA == dropTableOrder:
+			// a table may refer to the tables declared before it
+			return slices.Index(before.Stmts, findDroppedStmt(before, b)) - slices.Index(before.Stmts, findDroppedStmt(before, a))
+		}
+		return 0
+	})
 }
 
-func isDropTableStmt(stmt Stmt) bool {
-	_, ok := stmt.(*DropTableStmt)
-	return ok
+// findDroppedStmt finds the declaration of what the statement drops.
+func findDroppedStmt(before *DDL, stmt Stmt) Stmt { //nolint:ireturn
+	switch s := stmt.(type) {
+	case *DropTableStmt:
+		return findStmtByTypeAndName(&CreateTableStmt{Name: s.Name}, before.Stmts)
+	case *DropIndexStmt:
+		return findStmtByTypeAndName(&CreateIndexStmt{Name: s.Name}, before.Stmts)
+	}
+	return nil
 }
 
+// dropTableOrder is the place of the tables to be dropped and of their indexes.
+const dropTableOrder = 2
+
 //nolint:cyclop,gomnd
-func stmtOrder(before *DDL, stmt Stmt) int {
+func stmtOrder(before *DDL, droppedTables map[string]bool, stmt Stmt) int {
 	switch s := stmt.(type) {
-	case *DropIndexStmt:
-		return 1
 	case *DropTableStmt:
-		return 4
+		return dropTableOrder
+	case *DropIndexStmt:
+		if index, ok := findDroppedStmt(before, s).(*CreateIndexStmt); ok && droppedTables[index.TableName.StringForDiff()] {
+			return dropTableOrder
+		}
+		return 3
 	case *CreateTableStmt:
 		return 7
 	case *CreateIndexStmt:
@@ -148,10 +166,10 @@ func stmtOrder(before *DDL, stmt Stmt) int {
 		case *DropConstraint:
 			if table, ok := findStmtByTypeAndName(&CreateTableStmt{Name: s.Name}, before.Stmts).(*CreateTableStmt); ok {
 				if _, ok := findConstraintByName(action.Name.Name, table.Constraints).(*ForeignKeyConstraint); ok {
-					return 2
+					return 1
 				}
 			}
-			return 3
+			return 4
 		case *AddConstraint:
 			if _, ok := action.Constraint.(*ForeignKeyConstraint); ok {
 				return 8
diff --git a/pkg/ddl/mysql/diff.go b/pkg/ddl/mysql/diff.go
index d39bb31..bb77b90 100644
--- a/pkg/ddl/mysql/diff.go
+++ b/pkg/ddl/mysql/diff.go
@@ -111,31 +111,49 @@ func Diff(before, after *DDL) (*DDL, error) {
 // sortStmts sorts the statements of a migration by what they depend on, keeping the order of the others:
 // what goes away is removed before the columns change, and what is new is added after that.
 func sortStmts(before *DDL, stmts []Stmt) {
-	slices.SortStableFunc(stmts, func(a, b Stmt) int {
-		return stmtOrder(before, a) - stmtOrder(before, b)
-	})
-	// a table may refer to the tables declared before it
-	if first := slices.IndexFunc(stmts, isDropTableStmt); first >= 0 {
-		last := first
-		for last < len(stmts) && isDropTableStmt(stmts[last]) {
-			last++
+	droppedTables := make(map[string]bool)
+	for _, stmt := range stmts {
+		if s, ok := stmt.(*DropTableStmt); ok {
+			droppedTables[s.Name.StringForDiff()] = true
 		}
-		slices.Reverse(stmts[first:last])
 	}
+	slices.SortStableFunc(stmts, func(a, b Stmt) int {
+		orderA, orderB := stmtOrder(before, droppedTables, a), stmtOrder(before, droppedTables, b)
+		switch {
+		case orderA != orderB:
+			return orderA - orderB
+		case orderA == dropTableOrder:
+			// a table may refer to the tables declared before it
+			return slices.Index(before.Stmts, findDroppedStmt(before, b)) - slices.Index(before.Stmts, findDroppedStmt(before, a))
+		}
+		return 0
+	})
 }
 
-func isDropTableStmt(stmt Stmt) bool {
-	_, ok := stmt.(*DropTableStmt)
-	return ok
+// findDroppedStmt finds the declaration of what the statement drops.
+func findDroppedStmt(before *DDL, stmt Stmt) Stmt { //nolint:ireturn
+	switch s := stmt.(type) {
+	case *DropTableStmt:
+		return findStmtByTypeAndName(&CreateTableStmt{Name: s.Name}, before.Stmts)
+	case *DropIndexStmt:
+		return findStmtByTypeAndName(&CreateIndexStmt{Name: s.Name}, before.Stmts)
+	}
+	return nil
 }
 
+// dropTableOrder is the place of the tables to be dropped and of their indexes.
+const dropTableOrder = 2
+
 //nolint:cyclop,gomnd
-func stmtOrder(before *DDL, stmt Stmt) int {
+func stmtOrder(before *DDL, droppedTables map[string]bool, stmt Stmt) int {
 	switch s := stmt.(type) {
-	case *DropIndexStmt:
-		return 1
 	case *DropTableStmt:
-		return 4
+		return dropTableOrder
+	case *DropIndexStmt:
+		if index, ok := findDroppedStmt(before, s).(*CreateIndexStmt); ok && droppedTables[index.TableName.StringForDiff()] {
+			return dropTableOrder
+		}
+		return 3
 	case *CreateTableStmt:
 		return 7
 	case *CreateIndexStmt:
@@ -148,10 +166,10 @@ func stmtOrder(before *DDL, stmt Stmt) int {
 		case *DropConstraint:
 			if table, ok := findStmtByTypeAndName(&CreateTableStmt{Name: s.Name}, before.Stmts).(*CreateTableStmt); ok {
 				if _, ok := findConstraintByName(action.Name.Name, table.Constraints).(*ForeignKeyConstraint); ok {
-					return 2
+					return 1
 				}
 			}
-			return 3
+			return 4
 		case *AddConstraint:
 			if _, ok := action.Constraint.(*ForeignKeyConstraint); ok {
 				return 8
diff --git a/pkg/ddl/postgres/diff.go b/pkg/ddl/postgres/diff.go
index f520315..6dc4363 100644
--- a/pkg/ddl/postgres/diff.go
+++ b/pkg/ddl/postgres/diff.go
@@ -111,31 +111,49 @@ func Diff(before, after *DDL) (*DDL, error) {
 // sortStmts sorts the statements of a migration by what they depend on, keeping the order of the others:
 // what goes away is removed before the columns change, and what is new is added after that.
 func sortStmts(before *DDL, stmts []Stmt) {
-	slices.SortStableFunc(stmts, func(a, b Stmt) int {
-		return stmtOrder(before, a) - stmtOrder(before, b)
-	})
-	// a table may refer to the tables declared before it
-	if first := slices.IndexFunc(stmts, isDropTableStmt); first >= 0 {
-		last := first
-		for last < len(stmts) && isDropTableStmt(stmts[last]) {
-			last++
+	droppedTables := make(map[string]bool)
+	for _, stmt := range stmts {
+		if s, ok := stmt.(*DropTableStmt); ok {
+			droppedTables[s.Name.StringForDiff()] = true
 		}
-		slices.Reverse(stmts[first:last])
 	}
+	slices.SortStableFunc(stmts, func(a, b Stmt) int {
+		orderA, orderB := stmtOrder(before, droppedTables, a), stmtOrder(before, droppedTables, b)
+		switch {
+		case orderA != orderB:
+			return orderA - orderB
+		case orderA == dropTableOrder:
+			// a table may refer to the tables declared before it
+			return slices.Index(before.Stmts, findDroppedStmt(before, b)) - slices.Index(before.Stmts, findDroppedStmt(before, a))
+		}
+		return 0
+	})
 }
 
-func isDropTableStmt(stmt Stmt) bool {
-	_, ok := stmt.(*DropTableStmt)
-	return ok
+// findDroppedStmt finds the declaration of what the statement drops.
+func findDroppedStmt(before *DDL, stmt Stmt) Stmt { //nolint:ireturn
+	switch s := stmt.(type) {
+	case *DropTableStmt:
+		return findStmtByTypeAndName(&CreateTableStmt{Name: s.Name}, before.Stmts)
+	case *DropIndexStmt:
+		return findStmtByTypeAndName(&CreateIndexStmt{Name: s.Name}, before.Stmts)
+	}
+	return nil
 }
 
+// dropTableOrder is the place of the tables to be dropped and of their indexes.
+const dropTableOrder = 2
+
 //nolint:cyclop,gomnd
-func stmtOrder(before *DDL, stmt Stmt) int {
+func stmtOrder(before *DDL, droppedTables map[string]bool, stmt Stmt) int {
 	switch s := stmt.(type) {
-	case *DropIndexStmt:
-		return 1
 	case *DropTableStmt:
-		return 4
+		return dropTableOrder
+	case *DropIndexStmt:
+		if index, ok := findDroppedStmt(before, s).(*CreateIndexStmt); ok && droppedTables[index.TableName.StringForDiff()] {
+			return dropTableOrder
+		}
+		return 3
 	case *CreateTableStmt:
 		return 7
 	case *CreateIndexStmt:
@@ -148,10 +166,10 @@ func stmtOrder(before *DDL, stmt Stmt) int {
 		case *DropConstraint:
 			if table, ok := findStmtByTypeAndName(&CreateTableStmt{Name: s.Name}, before.Stmts).(*CreateTableStmt); ok {
 				if _, ok := findConstraintByName(action.Name.Name, table.Constraints).(*ForeignKeyConstraint); ok {
-					return 2
+					return 1
 				}
 			}
-			return 3
+			return 4
 		case *AddConstraint:
 			if _, ok := action.Constraint.(*ForeignKeyConstraint); ok {
 				return 8
diff --git a/pkg/ddl/spanner/diff.go b/pkg/ddl/spanner/diff.go
index ba87b08..c4228af 100644
--- a/pkg/ddl/spanner/diff.go
+++ b/pkg/ddl/spanner/diff.go
@@ -111,20 +111,34 @@ func Diff(before, after *DDL) (*DDL, error) {
 // sortStmts sorts the statements of a migration by what they depend on, keeping the order of the others:
 // what goes away is removed before the columns change, and what is new is added after that, in the order of its declaration.
 func sortStmts(before, after *DDL, stmts []Stmt) {
+	droppedTables := make(map[string]bool)
+	for _, stmt := range stmts {
+		if s, ok := stmt.(*DropTableStmt); ok {
+			droppedTables[s.Name.StringForDiff()] = true
+		}
+	}
 	slices.SortStableFunc(stmts, func(a, b Stmt) int {
-		if order := stmtOrder(before, a) - stmtOrder(before, b); order != 0 {
-			return order
+		orderA, orderB := stmtOrder(before, droppedTables, a), stmtOrder(before, droppedTables, b)
+		switch {
+		case orderA != orderB:
+			return orderA - orderB
+		case orderA == dropTableOrder:
+			// a table may refer to the tables declared before it
+			return slices.Index(before.Stmts, findDroppedStmt(before, b)) - slices.Index(before.Stmts, findDroppedStmt(before, a))
 		}
 		return slices.Index(after.Stmts, a) - slices.Index(after.Stmts, b)
 	})
-	// a table may refer to the tables declared before it
-	if first := slices.IndexFunc(stmts, isDropTableStmt); first >= 0 {
-		last := first
-		for last < len(stmts) && isDropTableStmt(stmts[last]) {
-			last++
-		}
-		slices.Reverse(stmts[first:last])
+}
+
+// findDroppedStmt finds the declaration of what the statement drops.
+func findDroppedStmt(before *DDL, stmt Stmt) Stmt { //nolint:ireturn
+	switch s := stmt.(type) {
+	case *DropTableStmt:
+		return findStmtByTypeAndName(&CreateTableStmt{Name: s.Name}, before.Stmts)
+	case *DropIndexStmt:
+		return findStmtByTypeAndName(&CreateIndexStmt{Name: s.Name}, before.Stmts)
 	}
+	return nil
 }
 
 // isRecreated reports whether the migration drops the table and creates it again, which takes the indexes of the table along.
@@ -133,18 +147,19 @@ func isRecreated(stmts []Stmt, tableName *ObjectName) bool {
 	return findStmtByTypeAndName(&DropTableStmt{Name: tableName}, stmts) != nil && findStmtByTypeAndName(table, stmts) != nil
 }
 
-func isDropTableStmt(stmt Stmt) bool {
-	_, ok := stmt.(*DropTableStmt)
-	return ok
-}
+// dropTableOrder is the place of the tables to be dropped and of their indexes.
+const dropTableOrder = 2
 
 //nolint:cyclop,gomnd
-func stmtOrder(before *DDL, stmt Stmt) int {
+func stmtOrder(before *DDL, droppedTables map[string]bool, stmt Stmt) int {
 	switch s := stmt.(type) {
-	case *DropIndexStmt:
-		return 1
 	case *DropTableStmt:
-		return 4
+		return dropTableOrder
+	case *DropIndexStmt:
+		if index, ok := findDroppedStmt(before, s).(*CreateIndexStmt); ok && droppedTables[index.TableName.StringForDiff()] {
+			return dropTableOrder
+		}
+		return 3
 	case *CreateTableStmt, *CreateIndexStmt:
 		return 7
 	case *AlterTableStmt:
@@ -154,10 +169,10 @@ func stmtOrder(before *DDL, stmt Stmt) int {
 		case *DropConstraint:
 			if table, ok := findStmtByTypeAndName(&CreateTableStmt{Name: s.Name}, before.Stmts).(*CreateTableStmt); ok {
 				if _, ok := findConstraintByName(action.Name.Name, table.Constraints).(*ForeignKeyConstraint); ok {
-					return 2
+					return 1
 				}
 			}
-			return 3
+			return 4
 		case *AddConstraint:
 			if _, ok := action.Constraint.(*ForeignKeyConstraint); ok {
 				return 8
-- 
2.43.0


From e9d87246fe22aac7ce6927cb0508bc98de93ad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:51 +0000
Subject: [PATCH 51/56] fix: refuse column lists that are no lists of columns

---
 pkg/ddl/cockroachdb/parser.go | 39 ++++++++++++++++--------------
 pkg/ddl/mysql/parser.go       | 43 +++++++++++++++++----------------
 pkg/ddl/postgres/parser.go    | 23 ++++++++++--------
 pkg/ddl/spanner/parser.go     | 45 +++++++++++++++++++++--------------
 4 files changed, 84 insertions(+), 66 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index b9fdaf2..c639ef3 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -847,34 +847,37 @@ func (p *Parser) parseDataType() (*DataType, error) {
 func (p *Parser) parseColumnIdents() ([]*ColumnIdent, error) {
 	idents := make([]*ColumnIdent, 0)
 
-LabelIdents:
+	if err := p.checkCurrentToken(TOKEN_OPEN_PAREN); err != nil {
+		return nil, apperr.Errorf("checkCurrentToken: %w", err)
+	}
+
 	for {
+		p.nextToken() // current = column_name
+		if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
+			return nil, apperr.Errorf("checkCurrentToken: %w", err)
+		}
+		ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
+		switch p.peekToken.Type { //nolint:exhaustive //diff:ignore-line-postgres-cockroach
+		case TOKEN_ASC: //diff:ignore-line-postgres-cockroach
+			ident.Order = &Order{Desc: false} //diff:ignore-line-postgres-cockroach
+			p.nextToken()                     // current = ASC //diff:ignore-line-postgres-cockroach
+		case TOKEN_DESC: //diff:ignore-line-postgres-cockroach
+			ident.Order = &Order{Desc: true} //diff:ignore-line-postgres-cockroach
+			p.nextToken()                    // current = DESC //diff:ignore-line-postgres-cockroach
+		} //diff:ignore-line-postgres-cockroach
+		idents = append(idents, ident)
+
+		p.nextToken()                // current = COMMA or CLOSE_PAREN
 		switch p.currentToken.Type { //nolint:exhaustive
-		case TOKEN_OPEN_PAREN:
-			// do nothing
-		case TOKEN_IDENT:
-			ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
-			switch p.peekToken.Type { //nolint:exhaustive //diff:ignore-line-postgres-cockroach
-			case TOKEN_ASC: //diff:ignore-line-postgres-cockroach
-				ident.Order = &Order{Desc: false} //diff:ignore-line-postgres-cockroach
-				p.nextToken()                     // current = ASC //diff:ignore-line-postgres-cockroach
-			case TOKEN_DESC: //diff:ignore-line-postgres-cockroach
-				ident.Order = &Order{Desc: true} //diff:ignore-line-postgres-cockroach
-				p.nextToken()                    // current = DESC //diff:ignore-line-postgres-cockroach
-			} //diff:ignore-line-postgres-cockroach
-			idents = append(idents, ident)
 		case TOKEN_COMMA:
 			// do nothing
 		case TOKEN_CLOSE_PAREN:
 			p.nextToken()
-			break LabelIdents
+			return idents, nil
 		default:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		}
-		p.nextToken()
 	}
-
-	return idents, nil
 }
 
 func (p *Parser) parseIdents() ([]*Ident, error) {
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 7e4b08e..efb2390 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -821,36 +821,39 @@ func (p *Parser) parseDataType() (*DataType, error) {
 func (p *Parser) parseColumnIdents() ([]*ColumnIdent, error) {
 	idents := make([]*ColumnIdent, 0)
 
-LabelIdents:
+	if err := p.checkCurrentToken(TOKEN_OPEN_PAREN); err != nil {
+		return nil, apperr.Errorf("checkCurrentToken: %w", err)
+	}
+
 	for {
-		switch p.currentToken.Type { //nolint:exhaustive
-		case TOKEN_OPEN_PAREN:
+		p.nextToken() // current = column_name
+		if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
+			return nil, apperr.Errorf("checkCurrentToken: %w", err)
+		}
+		ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
+		switch p.peekToken.Type { //nolint:exhaustive
+		case TOKEN_ASC:
+			ident.Order = &Order{Desc: false}
+			p.nextToken() // current = ASC
+		case TOKEN_DESC:
+			ident.Order = &Order{Desc: true}
+			p.nextToken() // current = DESC
+		default:
 			// do nothing
-		case TOKEN_IDENT:
-			ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
-			switch p.peekToken.Type { //nolint:exhaustive
-			case TOKEN_ASC:
-				ident.Order = &Order{Desc: false}
-				p.nextToken() // current = ASC
-			case TOKEN_DESC:
-				ident.Order = &Order{Desc: true}
-				p.nextToken() // current = DESC
-			default:
-				// do nothing
-			}
-			idents = append(idents, ident)
+		}
+		idents = append(idents, ident)
+
+		p.nextToken()                // current = COMMA or CLOSE_PAREN
+		switch p.currentToken.Type { //nolint:exhaustive
 		case TOKEN_COMMA:
 			// do nothing
 		case TOKEN_CLOSE_PAREN:
 			p.nextToken()
-			break LabelIdents
+			return idents, nil
 		default:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		}
-		p.nextToken()
 	}
-
-	return idents, nil
 }
 
 func (p *Parser) parseOnAction() (onAction string, err error) {
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 28071ae..3e374f4 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -748,26 +748,29 @@ func (p *Parser) parseDataType() (*DataType, error) {
 func (p *Parser) parseColumnIdents() ([]*ColumnIdent, error) {
 	idents := make([]*ColumnIdent, 0)
 
-LabelIdents:
+	if err := p.checkCurrentToken(TOKEN_OPEN_PAREN); err != nil {
+		return nil, apperr.Errorf("checkCurrentToken: %w", err)
+	}
+
 	for {
+		p.nextToken() // current = column_name
+		if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
+			return nil, apperr.Errorf("checkCurrentToken: %w", err)
+		}
+		ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
+		idents = append(idents, ident)
+
+		p.nextToken()                // current = COMMA or CLOSE_PAREN
 		switch p.currentToken.Type { //nolint:exhaustive
-		case TOKEN_OPEN_PAREN:
-			// do nothing
-		case TOKEN_IDENT:
-			ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
-			idents = append(idents, ident)
 		case TOKEN_COMMA:
 			// do nothing
 		case TOKEN_CLOSE_PAREN:
 			p.nextToken()
-			break LabelIdents
+			return idents, nil
 		default:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		}
-		p.nextToken()
 	}
-
-	return idents, nil
 }
 
 func (p *Parser) parseIdents() ([]*Ident, error) {
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index e078ac4..017c201 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -739,34 +739,43 @@ func (p *Parser) parseDataType() (*DataType, error) {
 func (p *Parser) parseColumnIdents() ([]*ColumnIdent, error) {
 	idents := make([]*ColumnIdent, 0)
 
-LabelIdents:
+	if err := p.checkCurrentToken(TOKEN_OPEN_PAREN); err != nil {
+		return nil, apperr.Errorf("checkCurrentToken: %w", err)
+	}
+
+	if p.isPeekToken(TOKEN_CLOSE_PAREN) { // PRIMARY KEY ()
+		p.nextToken() // current = CLOSE_PAREN
+		p.nextToken()
+		return idents, nil
+	}
+
 	for {
+		p.nextToken() // current = column_name
+		if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
+			return nil, apperr.Errorf("checkCurrentToken: %w", err)
+		}
+		ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
+		switch p.peekToken.Type { //nolint:exhaustive //diff:ignore-line-postgres-cockroach
+		case TOKEN_ASC: //diff:ignore-line-postgres-cockroach
+			ident.Order = &Order{Desc: false} //diff:ignore-line-postgres-cockroach
+			p.nextToken()                     // current = ASC //diff:ignore-line-postgres-cockroach
+		case TOKEN_DESC: //diff:ignore-line-postgres-cockroach
+			ident.Order = &Order{Desc: true} //diff:ignore-line-postgres-cockroach
+			p.nextToken()                    // current = DESC //diff:ignore-line-postgres-cockroach
+		} //diff:ignore-line-postgres-cockroach
+		idents = append(idents, ident)
+
+		p.nextToken()                // current = COMMA or CLOSE_PAREN
 		switch p.currentToken.Type { //nolint:exhaustive
-		case TOKEN_OPEN_PAREN:
-			// do nothing
-		case TOKEN_IDENT:
-			ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
-			switch p.peekToken.Type { //nolint:exhaustive //diff:ignore-line-postgres-cockroach
-			case TOKEN_ASC: //diff:ignore-line-postgres-cockroach
-				ident.Order = &Order{Desc: false} //diff:ignore-line-postgres-cockroach
-				p.nextToken()                     // current = ASC //diff:ignore-line-postgres-cockroach
-			case TOKEN_DESC: //diff:ignore-line-postgres-cockroach
-				ident.Order = &Order{Desc: true} //diff:ignore-line-postgres-cockroach
-				p.nextToken()                    // current = DESC //diff:ignore-line-postgres-cockroach
-			} //diff:ignore-line-postgres-cockroach
-			idents = append(idents, ident)
 		case TOKEN_COMMA:
 			// do nothing
 		case TOKEN_CLOSE_PAREN:
 			p.nextToken()
-			break LabelIdents
+			return idents, nil
 		default:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		}
-		p.nextToken()
 	}
-
-	return idents, nil
 }
 
 func (p *Parser) parseIdents() ([]*Ident, error) {
-- 
2.43.0


From 452e9f331696fb6267387edf36508e6a77a441c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:16 +0000
Subject: [PATCH 52/56] fix: refuse words that CREATE INDEX does not understand

The word after CREATE UNIQUE was taken for INDEX whatever it was, and one word after the column list was skipped. Either
way a part of the declaration was dropped without a word.
---
 pkg/ddl/cockroachdb/parser.go | 8 ++++++++
 pkg/ddl/mysql/parser.go       | 8 ++++++++
 pkg/ddl/postgres/parser.go    | 8 ++++++++
 pkg/ddl/spanner/parser.go     | 8 ++++++++
 4 files changed, 32 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index c639ef3..50b20f7 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -220,6 +220,10 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 		p.nextToken() // current = INDEX
 	}
 
+	if err := p.checkCurrentToken(TOKEN_INDEX); err != nil {
+		return nil, apperr.Errorf("checkCurrentToken: %w", err)
+	}
+
 	if p.isPeekToken(TOKEN_IF) {
 		p.nextToken() // current = IF
 		if err := p.checkPeekToken(TOKEN_NOT); err != nil {
@@ -284,6 +288,10 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 		createIndexStmt.UsingPostColumns = using
 	}
 
+	if err := p.checkCurrentToken(TOKEN_SEMICOLON, TOKEN_EOF); err != nil {
+		return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+	}
+
 	return createIndexStmt, nil
 }
 
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index efb2390..4f4f0f1 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -287,6 +287,10 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 		p.nextToken() // current = INDEX
 	}
 
+	if err := p.checkCurrentToken(TOKEN_INDEX); err != nil {
+		return nil, apperr.Errorf("checkCurrentToken: %w", err)
+	}
+
 	if p.isPeekToken(TOKEN_IF) {
 		p.nextToken() // current = IF
 		if err := p.checkPeekToken(TOKEN_NOT); err != nil {
@@ -341,6 +345,10 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 
 	createIndexStmt.Columns = idents
 
+	if err := p.checkCurrentToken(TOKEN_SEMICOLON, TOKEN_EOF); err != nil {
+		return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+	}
+
 	return createIndexStmt, nil
 }
 
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 3e374f4..460a62e 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -220,6 +220,10 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 		p.nextToken() // current = INDEX
 	}
 
+	if err := p.checkCurrentToken(TOKEN_INDEX); err != nil {
+		return nil, apperr.Errorf("checkCurrentToken: %w", err)
+	}
+
 	if p.isPeekToken(TOKEN_IF) {
 		p.nextToken() // current = IF
 		if err := p.checkPeekToken(TOKEN_NOT); err != nil {
@@ -274,6 +278,10 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 
 	createIndexStmt.Columns = idents
 
+	if err := p.checkCurrentToken(TOKEN_SEMICOLON, TOKEN_EOF); err != nil {
+		return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+	}
+
 	return createIndexStmt, nil
 }
 
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 017c201..d6b93e4 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -359,6 +359,10 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 		p.nextToken() // current = INDEX
 	}
 
+	if err := p.checkCurrentToken(TOKEN_INDEX); err != nil {
+		return nil, apperr.Errorf("checkCurrentToken: %w", err)
+	}
+
 	if p.isPeekToken(TOKEN_IF) {
 		p.nextToken() // current = IF
 		if err := p.checkPeekToken(TOKEN_NOT); err != nil {
@@ -413,6 +417,10 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 
 	createIndexStmt.Columns = idents
 
+	if err := p.checkCurrentToken(TOKEN_SEMICOLON, TOKEN_EOF); err != nil {
+		return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+	}
+
 	return createIndexStmt, nil
 }
 
-- 
2.43.0


From e3ccce1548714be324caaa976857295fe272a20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:17 +0000
Subject: [PATCH 53/56] fix: create and drop tables in the order in which they
 refer to each other

The order of the declaration was used. The tables of a database are declared in the order of their names (show), those of Go
sources in the order of the files, so a table was created before, or dropped after, the one that it refers to.
---
 pkg/ddl/cockroachdb/diff.go | 66 ++++++++++++++++++++++++++++++++-----
 pkg/ddl/mysql/diff.go       | 66 ++++++++++++++++++++++++++++++++-----
 pkg/ddl/postgres/diff.go    | 66 ++++++++++++++++++++++++++++++++-----
 pkg/ddl/spanner/diff.go     | 56 ++++++++++++++++++++++++++++---
 4 files changed, 226 insertions(+), 28 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff.go b/pkg/ddl/cockroachdb/diff.go
index e013bb2..b766a29 100644
--- a/pkg/ddl/cockroachdb/diff.go
+++ b/pkg/ddl/cockroachdb/diff.go
@@ -19,6 +19,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 	switch {
 	case before == nil && after != nil:
 		result.Stmts = append(result.Stmts, after.Stmts...)
+		sortStmts(&DDL{}, after, result.Stmts)
 		return result, nil
 	case before != nil && after == nil:
 		for _, stmt := range before.Stmts {
@@ -35,7 +36,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 				return nil, apperr.Errorf("%s: %T: %w", s.GetNameForDiff(), s, ddl.ErrNotSupported)
 			}
 		}
-		sortStmts(before, result.Stmts)
+		sortStmts(before, &DDL{}, result.Stmts)
 		return result, nil
 	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, ddl.ErrNoDifference
@@ -103,33 +104,79 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
-	sortStmts(before, result.Stmts)
+	sortStmts(before, after, result.Stmts)
 
 	return result, nil
 }
 
 // sortStmts sorts the statements of a migration by what they depend on, keeping the order of the others:
-// what goes away is removed before the columns change, and what is new is added after that.
-func sortStmts(before *DDL, stmts []Stmt) {
+// what goes away is removed before the columns change, and what is new is added after that, a table after those it refers to.
+func sortStmts(before, after *DDL, stmts []Stmt) {
 	droppedTables := make(map[string]bool)
 	for _, stmt := range stmts {
 		if s, ok := stmt.(*DropTableStmt); ok {
 			droppedTables[s.Name.StringForDiff()] = true
 		}
 	}
+	declared, created := sortByReference(before.Stmts), sortByReference(after.Stmts)
 	slices.SortStableFunc(stmts, func(a, b Stmt) int {
 		orderA, orderB := stmtOrder(before, droppedTables, a), stmtOrder(before, droppedTables, b)
 		switch {
 		case orderA != orderB:
 			return orderA - orderB
 		case orderA == dropTableOrder:
-			// a table may refer to the tables declared before it
-			return slices.Index(before.Stmts, findDroppedStmt(before, b)) - slices.Index(before.Stmts, findDroppedStmt(before, a))
+			return slices.Index(declared, findDroppedStmt(before, b)) - slices.Index(declared, findDroppedStmt(before, a))
+		case orderA == createTableOrder:
+			return slices.Index(created, a) - slices.Index(created, b)
 		}
 		return 0
 	})
 }
 
+// sortByReference returns the statements of a schema with each after those it refers to, keeping the order of the others:
+// the schema of a database is declared in the order of the names.
+func sortByReference(stmts []Stmt) []Stmt {
+	rest, sorted := slices.Clone(stmts), make([]Stmt, 0, len(stmts))
+	for len(rest) > 0 {
+		next := slices.IndexFunc(rest, func(stmt Stmt) bool {
+			return !slices.ContainsFunc(rest, func(other Stmt) bool { return stmt != other && refersTo(stmt, other) })
+		})
+		if next < 0 { // tables that refer to each other
+			next = 0
+		}
+		sorted = append(sorted, rest[next])
+		rest = slices.Delete(rest, next, next+1)
+	}
+	return sorted
+}
+
+// refersTo reports whether the statement needs the other one to have been executed before.
+func refersTo(stmt, other Stmt) bool {
+	switch s := stmt.(type) {
+	case *CreateTableStmt:
+		return slices.ContainsFunc(s.Constraints, func(constraint Constraint) bool {
+			foreignKey, ok := constraint.(*ForeignKeyConstraint)
+			return ok && isReferencedBy(other, foreignKey)
+		})
+	case *CreateIndexStmt:
+		table, ok := other.(*CreateTableStmt)
+		return ok && table.Name.StringForDiff() == s.TableName.StringForDiff()
+	}
+	return false
+}
+
+// isReferencedBy reports whether the statement creates the table or the key of the foreign key.
+func isReferencedBy(stmt Stmt, foreignKey *ForeignKeyConstraint) bool {
+	switch s := stmt.(type) {
+	case *CreateTableStmt:
+		return s.Name.StringForDiff() == foreignKey.Ref.StringForDiff()
+	case *CreateIndexStmt:
+		return s.Unique && s.TableName.StringForDiff() == foreignKey.Ref.StringForDiff() &&
+			slices.EqualFunc(s.Columns, foreignKey.RefColumns, func(a, b *ColumnIdent) bool { return a.Ident.Name == b.Ident.Name })
+	}
+	return false
+}
+
 // findDroppedStmt finds the declaration of what the statement drops.
 func findDroppedStmt(before *DDL, stmt Stmt) Stmt { //nolint:ireturn
 	switch s := stmt.(type) {
@@ -144,6 +191,9 @@ func findDroppedStmt(before *DDL, stmt Stmt) Stmt { //nolint:ireturn
 // dropTableOrder is the place of the tables to be dropped and of their indexes.
 const dropTableOrder = 2
 
+// createTableOrder is the place of the new tables and of their indexes.
+const createTableOrder = 7
+
 //nolint:cyclop,gomnd
 func stmtOrder(before *DDL, droppedTables map[string]bool, stmt Stmt) int {
 	switch s := stmt.(type) {
@@ -155,12 +205,12 @@ func stmtOrder(before *DDL, droppedTables map[string]bool, stmt Stmt) int {
 		}
 		return 3
 	case *CreateTableStmt:
-		return 7
+		return createTableOrder
 	case *CreateIndexStmt:
 		if findStmtByTypeAndName(&CreateTableStmt{Name: s.TableName}, before.Stmts) != nil {
 			return 6
 		}
-		return 7
+		return createTableOrder
 	case *AlterTableStmt:
 		switch action := s.Action.(type) {
 		case *DropConstraint:
diff --git a/pkg/ddl/mysql/diff.go b/pkg/ddl/mysql/diff.go
index bb77b90..e53bb3f 100644
--- a/pkg/ddl/mysql/diff.go
+++ b/pkg/ddl/mysql/diff.go
@@ -19,6 +19,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 	switch {
 	case before == nil && after != nil:
 		result.Stmts = append(result.Stmts, after.Stmts...)
+		sortStmts(&DDL{}, after, result.Stmts)
 		return result, nil
 	case before != nil && after == nil:
 		for _, stmt := range before.Stmts {
@@ -35,7 +36,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 				return nil, apperr.Errorf("%s: %T: %w", s.GetNameForDiff(), s, ddl.ErrNotSupported)
 			}
 		}
-		sortStmts(before, result.Stmts)
+		sortStmts(before, &DDL{}, result.Stmts)
 		return result, nil
 	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, ddl.ErrNoDifference
@@ -103,33 +104,79 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
-	sortStmts(before, result.Stmts)
+	sortStmts(before, after, result.Stmts)
 
 	return result, nil
 }
 
 // sortStmts sorts the statements of a migration by what they depend on, keeping the order of the others:
-// what goes away is removed before the columns change, and what is new is added after that.
-func sortStmts(before *DDL, stmts []Stmt) {
+// what goes away is removed before the columns change, and what is new is added after that, a table after those it refers to.
+func sortStmts(before, after *DDL, stmts []Stmt) {
 	droppedTables := make(map[string]bool)
 	for _, stmt := range stmts {
 		if s, ok := stmt.(*DropTableStmt); ok {
 			droppedTables[s.Name.StringForDiff()] = true
 		}
 	}
+	declared, created := sortByReference(before.Stmts), sortByReference(after.Stmts)
 	slices.SortStableFunc(stmts, func(a, b Stmt) int {
 		orderA, orderB := stmtOrder(before, droppedTables, a), stmtOrder(before, droppedTables, b)
 		switch {
 		case orderA != orderB:
 			return orderA - orderB
 		case orderA == dropTableOrder:
-			// a table may refer to the tables declared before it
-			return slices.Index(before.Stmts, findDroppedStmt(before, b)) - slices.Index(before.Stmts, findDroppedStmt(before, a))
+			return slices.Index(declared, findDroppedStmt(before, b)) - slices.Index(declared, findDroppedStmt(before, a))
+		case orderA == createTableOrder:
+			return slices.Index(created, a) - slices.Index(created, b)
 		}
 		return 0
 	})
 }
 
+// sortByReference returns the statements of a schema with each after those it refers to, keeping the order of the others:
+// the schema of a database is declared in the order of the names.
+func sortByReference(stmts []Stmt) []Stmt {
+	rest, sorted := slices.Clone(stmts), make([]Stmt, 0, len(stmts))
+	for len(rest) > 0 {
+		next := slices.IndexFunc(rest, func(stmt Stmt) bool {
+			return !slices.ContainsFunc(rest, func(other Stmt) bool { return stmt != other && refersTo(stmt, other) })
+		})
+		if next < 0 { // tables that refer to each other
+			next = 0
+		}
+		sorted = append(sorted, rest[next])
+		rest = slices.Delete(rest, next, next+1)
+	}
+	return sorted
+}
+
+// refersTo reports whether the statement needs the other one to have been executed before.
+func refersTo(stmt, other Stmt) bool {
+	switch s := stmt.(type) {
+	case *CreateTableStmt:
+		return slices.ContainsFunc(s.Constraints, func(constraint Constraint) bool {
+			foreignKey, ok := constraint.(*ForeignKeyConstraint)
+			return ok && isReferencedBy(other, foreignKey)
+		})
+	case *CreateIndexStmt:
+		table, ok := other.(*CreateTableStmt)
+		return ok && table.Name.StringForDiff() == s.TableName.StringForDiff()
+	}
+	return false
+}
+
+// isReferencedBy reports whether the statement creates the table or the key of the foreign key.
+func isReferencedBy(stmt Stmt, foreignKey *ForeignKeyConstraint) bool {
+	switch s := stmt.(type) {
+	case *CreateTableStmt:
+		return s.Name.StringForDiff() == foreignKey.Ref.StringForDiff()
+	case *CreateIndexStmt:
+		return s.Unique && s.TableName.StringForDiff() == foreignKey.Ref.StringForDiff() &&
+			slices.EqualFunc(s.Columns, foreignKey.RefColumns, func(a, b *ColumnIdent) bool { return a.Ident.Name == b.Ident.Name })
+	}
+	return false
+}
+
 // findDroppedStmt finds the declaration of what the statement drops.
 func findDroppedStmt(before *DDL, stmt Stmt) Stmt { //nolint:ireturn
 	switch s := stmt.(type) {
@@ -144,6 +191,9 @@ func findDroppedStmt(before *DDL, stmt Stmt) Stmt { //nolint:ireturn
 // dropTableOrder is the place of the tables to be dropped and of their indexes.
 const dropTableOrder = 2
 
+// createTableOrder is the place of the new tables and of their indexes.
+const createTableOrder = 7
+
 //nolint:cyclop,gomnd
 func stmtOrder(before *DDL, droppedTables map[string]bool, stmt Stmt) int {
 	switch s := stmt.(type) {
@@ -155,12 +205,12 @@ func stmtOrder(before *DDL, droppedTables map[string]bool, stmt Stmt) int {
 		}
 		return 3
 	case *CreateTableStmt:
-		return 7
+		return createTableOrder
 	case *CreateIndexStmt:
 		if findStmtByTypeAndName(&CreateTableStmt{Name: s.TableName}, before.Stmts) != nil {
 			return 6
 		}
-		return 7
+		return createTableOrder
 	case *AlterTableStmt:
 		switch action := s.Action.(type) {
 		case *DropConstraint:
diff --git a/pkg/ddl/postgres/diff.go b/pkg/ddl/postgres/diff.go
index 6dc4363..51c9b6e 100644
--- a/pkg/ddl/postgres/diff.go
+++ b/pkg/ddl/postgres/diff.go
@@ -19,6 +19,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 	switch {
 	case before == nil && after != nil:
 		result.Stmts = append(result.Stmts, after.Stmts...)
+		sortStmts(&DDL{}, after, result.Stmts)
 		return result, nil
 	case before != nil && after == nil:
 		for _, stmt := range before.Stmts {
@@ -35,7 +36,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 				return nil, apperr.Errorf("%s: %T: %w", s.GetNameForDiff(), s, ddl.ErrNotSupported)
 			}
 		}
-		sortStmts(before, result.Stmts)
+		sortStmts(before, &DDL{}, result.Stmts)
 		return result, nil
 	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, ddl.ErrNoDifference
@@ -103,33 +104,79 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
-	sortStmts(before, result.Stmts)
+	sortStmts(before, after, result.Stmts)
 
 	return result, nil
 }
 
 // sortStmts sorts the statements of a migration by what they depend on, keeping the order of the others:
-// what goes away is removed before the columns change, and what is new is added after that.
-func sortStmts(before *DDL, stmts []Stmt) {
+// what goes away is removed before the columns change, and what is new is added after that, a table after those it refers to.
+func sortStmts(before, after *DDL, stmts []Stmt) {
 	droppedTables := make(map[string]bool)
 	for _, stmt := range stmts {
 		if s, ok := stmt.(*DropTableStmt); ok {
 			droppedTables[s.Name.StringForDiff()] = true
 		}
 	}
+	declared, created := sortByReference(before.Stmts), sortByReference(after.Stmts)
 	slices.SortStableFunc(stmts, func(a, b Stmt) int {
 		orderA, orderB := stmtOrder(before, droppedTables, a), stmtOrder(before, droppedTables, b)
 		switch {
 		case orderA != orderB:
 			return orderA - orderB
 		case orderA == dropTableOrder:
-			// a table may refer to the tables declared before it
-			return slices.Index(before.Stmts, findDroppedStmt(before, b)) - slices.Index(before.Stmts, findDroppedStmt(before, a))
+			return slices.Index(declared, findDroppedStmt(before, b)) - slices.Index(declared, findDroppedStmt(before, a))
+		case orderA == createTableOrder:
+			return slices.Index(created, a) - slices.Index(created, b)
 		}
 		return 0
 	})
 }
 
+// sortByReference returns the statements of a schema with each after those it refers to, keeping the order of the others:
+// the schema of a database is declared in the order of the names.
+func sortByReference(stmts []Stmt) []Stmt {
+	rest, sorted := slices.Clone(stmts), make([]Stmt, 0, len(stmts))
+	for len(rest) > 0 {
+		next := slices.IndexFunc(rest, func(stmt Stmt) bool {
+			return !slices.ContainsFunc(rest, func(other Stmt) bool { return stmt != other && refersTo(stmt, other) })
+		})
+		if next < 0 { // tables that refer to each other
+			next = 0
+		}
+		sorted = append(sorted, rest[next])
+		rest = slices.Delete(rest, next, next+1)
+	}
+	return sorted
+}
+
+// refersTo reports whether the statement needs the other one to have been executed before.
+func refersTo(stmt, other Stmt) bool {
+	switch s := stmt.(type) {
+	case *CreateTableStmt:
+		return slices.ContainsFunc(s.Constraints, func(constraint Constraint) bool {
+			foreignKey, ok := constraint.(*ForeignKeyConstraint)
+			return ok && isReferencedBy(other, foreignKey)
+		})
+	case *CreateIndexStmt:
+		table, ok := other.(*CreateTableStmt)
+		return ok && table.Name.StringForDiff() == s.TableName.StringForDiff()
+	}
+	return false
+}
+
+// isReferencedBy reports whether the statement creates the table or the key of the foreign key.
+func isReferencedBy(stmt Stmt, foreignKey *ForeignKeyConstraint) bool {
+	switch s := stmt.(type) {
+	case *CreateTableStmt:
+		return s.Name.StringForDiff() == foreignKey.Ref.StringForDiff()
+	case *CreateIndexStmt:
+		return s.Unique && s.TableName.StringForDiff() == foreignKey.Ref.StringForDiff() &&
+			slices.EqualFunc(s.Columns, foreignKey.RefColumns, func(a, b *ColumnIdent) bool { return a.Ident.Name == b.Ident.Name })
+	}
+	return false
+}
+
 // findDroppedStmt finds the declaration of what the statement drops.
 func findDroppedStmt(before *DDL, stmt Stmt) Stmt { //nolint:ireturn
 	switch s := stmt.(type) {
@@ -144,6 +191,9 @@ func findDroppedStmt(before *DDL, stmt Stmt) Stmt { //nolint:ireturn
 // dropTableOrder is the place of the tables to be dropped and of their indexes.
 const dropTableOrder = 2
 
+// createTableOrder is the place of the new tables and of their indexes.
+const createTableOrder = 7
+
 //nolint:cyclop,gomnd
 func stmtOrder(before *DDL, droppedTables map[string]bool, stmt Stmt) int {
 	switch s := stmt.(type) {
@@ -155,12 +205,12 @@ func stmtOrder(before *DDL, droppedTables map[string]bool, stmt Stmt) int {
 		}
 		return 3
 	case *CreateTableStmt:
-		return 7
+		return createTableOrder
 	case *CreateIndexStmt:
 		if findStmtByTypeAndName(&CreateTableStmt{Name: s.TableName}, before.Stmts) != nil {
 			return 6
 		}
-		return 7
+		return createTableOrder
 	case *AlterTableStmt:
 		switch action := s.Action.(type) {
 		case *DropConstraint:
diff --git a/pkg/ddl/spanner/diff.go b/pkg/ddl/spanner/diff.go
index c4228af..28af4be 100644
--- a/pkg/ddl/spanner/diff.go
+++ b/pkg/ddl/spanner/diff.go
@@ -19,6 +19,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 	switch {
 	case before == nil && after != nil:
 		result.Stmts = append(result.Stmts, after.Stmts...)
+		sortStmts(&DDL{}, after, result.Stmts)
 		return result, nil
 	case before != nil && after == nil:
 		for _, stmt := range before.Stmts {
@@ -109,7 +110,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 }
 
 // sortStmts sorts the statements of a migration by what they depend on, keeping the order of the others:
-// what goes away is removed before the columns change, and what is new is added after that, in the order of its declaration.
+// what goes away is removed before the columns change, and what is new is added after that, a table after those it refers to.
 func sortStmts(before, after *DDL, stmts []Stmt) {
 	droppedTables := make(map[string]bool)
 	for _, stmt := range stmts {
@@ -117,19 +118,66 @@ func sortStmts(before, after *DDL, stmts []Stmt) {
 			droppedTables[s.Name.StringForDiff()] = true
 		}
 	}
+	declared, created := sortByReference(before.Stmts), sortByReference(after.Stmts)
 	slices.SortStableFunc(stmts, func(a, b Stmt) int {
 		orderA, orderB := stmtOrder(before, droppedTables, a), stmtOrder(before, droppedTables, b)
 		switch {
 		case orderA != orderB:
 			return orderA - orderB
 		case orderA == dropTableOrder:
-			// a table may refer to the tables declared before it
-			return slices.Index(before.Stmts, findDroppedStmt(before, b)) - slices.Index(before.Stmts, findDroppedStmt(before, a))
+			return slices.Index(declared, findDroppedStmt(before, b)) - slices.Index(declared, findDroppedStmt(before, a))
 		}
-		return slices.Index(after.Stmts, a) - slices.Index(after.Stmts, b)
+		return slices.Index(created, a) - slices.Index(created, b)
 	})
 }
 
+// sortByReference returns the statements of a schema with each after those it refers to, keeping the order of the others:
+// the schema of a database is declared in the order of the names.
+func sortByReference(stmts []Stmt) []Stmt {
+	rest, sorted := slices.Clone(stmts), make([]Stmt, 0, len(stmts))
+	for len(rest) > 0 {
+		next := slices.IndexFunc(rest, func(stmt Stmt) bool {
+			return !slices.ContainsFunc(rest, func(other Stmt) bool { return stmt != other && refersTo(stmt, other) })
+		})
+		if next < 0 { // tables that refer to each other
+			next = 0
+		}
+		sorted = append(sorted, rest[next])
+		rest = slices.Delete(rest, next, next+1)
+	}
+	return sorted
+}
+
+// refersTo reports whether the statement needs the other one to have been executed before.
+func refersTo(stmt, other Stmt) bool {
+	switch s := stmt.(type) {
+	case *CreateTableStmt:
+		return slices.ContainsFunc(s.Constraints, func(constraint Constraint) bool {
+			foreignKey, ok := constraint.(*ForeignKeyConstraint)
+			return ok && isReferencedBy(other, foreignKey)
+		}) || slices.ContainsFunc(s.Options, func(option *Option) bool {
+			table, ok := other.(*CreateTableStmt)
+			return ok && option.Name == "INTERLEAVE IN PARENT" && table.Name.StringForDiff() == option.Value.Idents[0].StringForDiff()
+		})
+	case *CreateIndexStmt:
+		table, ok := other.(*CreateTableStmt)
+		return ok && table.Name.StringForDiff() == s.TableName.StringForDiff()
+	}
+	return false
+}
+
+// isReferencedBy reports whether the statement creates the table or the key of the foreign key.
+func isReferencedBy(stmt Stmt, foreignKey *ForeignKeyConstraint) bool {
+	switch s := stmt.(type) {
+	case *CreateTableStmt:
+		return s.Name.StringForDiff() == foreignKey.Ref.StringForDiff()
+	case *CreateIndexStmt:
+		return s.Unique && s.TableName.StringForDiff() == foreignKey.Ref.StringForDiff() &&
+			slices.EqualFunc(s.Columns, foreignKey.RefColumns, func(a, b *ColumnIdent) bool { return a.Ident.Name == b.Ident.Name })
+	}
+	return false
+}
+
 // findDroppedStmt finds the declaration of what the statement drops.
 func findDroppedStmt(before *DDL, stmt Stmt) Stmt { //nolint:ireturn
 	switch s := stmt.(type) {
-- 
2.43.0


From 28ab4d4cff0e83267ed9df692e011082e0b0ee50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:44 +0000
Subject: [PATCH 54/56] fix: drop the row deletion policy before the column it
 is over

---
 pkg/ddl/spanner/ddl_table.go         |  5 +++++
 pkg/ddl/spanner/diff_create_table.go | 19 +++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/pkg/ddl/spanner/ddl_table.go b/pkg/ddl/spanner/ddl_table.go
index 8abee43..14a097b 100644
--- a/pkg/ddl/spanner/ddl_table.go
+++ b/pkg/ddl/spanner/ddl_table.go
@@ -321,6 +321,11 @@ func (o *Option) StringForDiff() string {
 	return o.Name + " " + o.Value.StringForDiff()
 }
 
+// isOver reports whether the value of the option names the column.
+func (o *Option) isOver(column *Column) bool {
+	return slices.ContainsFunc(o.Value.Idents, func(ident *Ident) bool { return ident.Name == column.Name.Name })
+}
+
 func (o *Option) GoString() string { return internal.GoString(*o) }
 
 type Options []*Option
diff --git a/pkg/ddl/spanner/diff_create_table.go b/pkg/ddl/spanner/diff_create_table.go
index 383eb18..545ebc7 100644
--- a/pkg/ddl/spanner/diff_create_table.go
+++ b/pkg/ddl/spanner/diff_create_table.go
@@ -2,6 +2,7 @@ package spanner
 
 import (
 	"reflect"
+	"slices"
 
 	"github.com/kunitsucom/util.go/exp/diff/simplediff"
 
@@ -156,6 +157,24 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 				Name:    after.Name,
 				Action:  &DropRowDeletionPolicy{},
 			})
+		case slices.ContainsFunc(onlyLeftColumn(before.Columns, after.Columns), before.RowDeletionPolicy.isOver):
+			// ALTER TABLE table_name DROP ROW DELETION POLICY, before its column is dropped
+			// ALTER TABLE table_name ADD ROW DELETION POLICY, after its column is added
+			result.Stmts = append(
+				result.Stmts,
+				&AlterTableStmt{
+					Comment: simplediff.Diff(before.RowDeletionPolicy.String(), "").String(),
+					Name:    after.Name,
+					Action:  &DropRowDeletionPolicy{},
+				},
+				&AlterTableStmt{
+					Comment: simplediff.Diff("", after.RowDeletionPolicy.String()).String(),
+					Name:    after.Name,
+					Action: &AddRowDeletionPolicy{
+						RowDeletionPolicy: after.RowDeletionPolicy,
+					},
+				},
+			)
 		default:
 			// ALTER TABLE table_name REPLACE ROW DELETION POLICY
 			result.Stmts = append(result.Stmts, &AlterTableStmt{
-- 
2.43.0


From 61d03f18e03ed0340134b92f9df421da38def136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:46 +0000
Subject: [PATCH 55/56] fix: accept commas between the table options of MySQL

---
 pkg/ddl/mysql/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 4f4f0f1..2b41344 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -273,6 +273,9 @@ LabelTableOptions:
 		}
 		createTableStmt.Options = append(createTableStmt.Options, opt)
 		p.nextToken()
+		if p.isCurrentToken(TOKEN_COMMA) && !p.isPeekToken(TOKEN_SEMICOLON, TOKEN_EOF) {
+			p.nextToken() // current = table_option
+		}
 	}
 
 	return createTableStmt, nil
-- 
2.43.0


From e09776cb7607b06b22fb8812f4f4b251e3d541d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:28 +0000
Subject: [PATCH 56/56] fix: leave the compared statement as it is when a table
 is renamed

DiffCreateTable completed the name of the renamed table with the schema of
the old one by writing into the statement of the caller, so comparing two
tables changed one of them.
---
 pkg/ddl/cockroachdb/diff_create_table.go | 9 ++++++---
 pkg/ddl/mysql/diff_create_table.go       | 9 ++++++---
 pkg/ddl/postgres/diff_create_table.go    | 9 ++++++---
 pkg/ddl/spanner/diff_create_table.go     | 9 ++++++---
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index 74717be..24ef072 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -60,12 +60,15 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 
 	if before.Name.StringForDiff() != after.Name.StringForDiff() {
 		// ALTER TABLE table_name RENAME TO new_table_name;
+		if after.Name.Schema == nil && before.Name.Schema != nil {
+			// The table stays in the schema of before. Copy, so that the statement of the caller is left as it was.
+			inSchema := *after
+			inSchema.Name = &ObjectName{Schema: before.Name.Schema, Name: after.Name.Name}
+			after = &inSchema
+		}
 		rename := &RenameTable{
 			NewName: after.Name,
 		}
-		if rename.NewName.Schema == nil {
-			rename.NewName.Schema = before.Name.Schema
-		}
 		result.Stmts = append(result.Stmts, &AlterTableStmt{
 			Comment: simplediff.Diff(before.Name.StringForDiff(), after.Name.StringForDiff()).String(),
 			Name:    before.Name,
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 6ab141e..2bc0209 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -60,12 +60,15 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 
 	if before.Name.StringForDiff() != after.Name.StringForDiff() {
 		// ALTER TABLE table_name RENAME TO new_table_name;
+		if after.Name.Schema == nil && before.Name.Schema != nil {
+			// The table stays in the schema of before. Copy, so that the statement of the caller is left as it was.
+			inSchema := *after
+			inSchema.Name = &ObjectName{Schema: before.Name.Schema, Name: after.Name.Name}
+			after = &inSchema
+		}
 		rename := &RenameTable{
 			NewName: after.Name,
 		}
-		if rename.NewName.Schema == nil {
-			rename.NewName.Schema = before.Name.Schema
-		}
 		result.Stmts = append(result.Stmts, &AlterTableStmt{
 			Comment: simplediff.Diff(before.Name.StringForDiff(), after.Name.StringForDiff()).String(),
 			Name:    before.Name,
diff --git a/pkg/ddl/postgres/diff_create_table.go b/pkg/ddl/postgres/diff_create_table.go
index 37fbc47..d990c0f 100644
--- a/pkg/ddl/postgres/diff_create_table.go
+++ b/pkg/ddl/postgres/diff_create_table.go
@@ -59,12 +59,15 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 
 	if before.Name.StringForDiff() != after.Name.StringForDiff() {
 		// ALTER TABLE table_name RENAME TO new_table_name;
+		if after.Name.Schema == nil && before.Name.Schema != nil {
+			// The table stays in the schema of before. Copy, so that the statement of the caller is left as it was.
+			inSchema := *after
+			inSchema.Name = &ObjectName{Schema: before.Name.Schema, Name: after.Name.Name}
+			after = &inSchema
+		}
 		rename := &RenameTable{
 			NewName: after.Name,
 		}
-		if rename.NewName.Schema == nil {
-			rename.NewName.Schema = before.Name.Schema
-		}
 		result.Stmts = append(result.Stmts, &AlterTableStmt{
 			Comment: simplediff.Diff(before.Name.StringForDiff(), after.Name.StringForDiff()).String(),
 			Name:    before.Name,
diff --git a/pkg/ddl/spanner/diff_create_table.go b/pkg/ddl/spanner/diff_create_table.go
index 545ebc7..62aaa30 100644
--- a/pkg/ddl/spanner/diff_create_table.go
+++ b/pkg/ddl/spanner/diff_create_table.go
@@ -68,12 +68,15 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 
 	if before.Name.StringForDiff() != after.Name.StringForDiff() {
 		// ALTER TABLE table_name RENAME TO new_table_name;
+		if after.Name.Schema == nil && before.Name.Schema != nil {
+			// The table stays in the schema of before. Copy, so that the statement of the caller is left as it was.
+			inSchema := *after
+			inSchema.Name = &ObjectName{Schema: before.Name.Schema, Name: after.Name.Name}
+			after = &inSchema
+		}
 		rename := &RenameTable{
 			NewName: after.Name,
 		}
-		if rename.NewName.Schema == nil {
-			rename.NewName.Schema = before.Name.Schema
-		}
 		result.Stmts = append(result.Stmts, &AlterTableStmt{
 			Comment: simplediff.Diff(before.Name.StringForDiff(), after.Name.StringForDiff()).String(),
 			Name:    before.Name,
-- 
2.43.0

