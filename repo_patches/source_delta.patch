From af1e27ea076909835341baf9a9288e04df02f440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:34 +0000
Subject: [PATCH 01/58] fix: lexers panic on an unterminated quote and split
 literals at a doubled quote

---
 pkg/ddl/cockroachdb/lexar.go | 13 ++++++++++++-
 pkg/ddl/mysql/lexar.go       | 13 ++++++++++++-
 pkg/ddl/postgres/lexar.go    | 13 ++++++++++++-
 pkg/ddl/spanner/lexar.go     | 13 ++++++++++++-
 4 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index af40fb0..df4a882 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -324,8 +324,12 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'':
+		quote := l.ch
 		tok.Type = TOKEN_IDENT
-		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		tok.Literal = Literal{Str: l.readQuotedLiteral(quote)}
+		if l.ch != quote { // unterminated quote
+			tok.Type = TOKEN_ILLEGAL
+		}
 	case '|':
 		if l.peekChar() == '|' {
 			ch := l.ch
@@ -392,10 +396,17 @@ func (l *Lexer) readQuotedLiteral(quote byte) string {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
+		if l.ch == quote && l.peekChar() == quote { // escaped quote
+			l.readChar()
+			continue
+		}
 		if l.ch == quote || l.ch == 0 {
 			break
 		}
 	}
+	if l.position >= len(l.input) { // unterminated quote
+		return l.input[position:]
+	}
 	return l.input[position : l.position+1]
 }
 
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index be26985..ff39ad1 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -347,8 +347,12 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'', '`':
+		quote := l.ch
 		tok.Type = TOKEN_IDENT
-		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		tok.Literal = Literal{Str: l.readQuotedLiteral(quote)}
+		if l.ch != quote { // unterminated quote
+			tok.Type = TOKEN_ILLEGAL
+		}
 	// MEMO: backup
 	// case '|':
 	// 	if l.peekChar() == '|' {
@@ -416,10 +420,17 @@ func (l *Lexer) readQuotedLiteral(quote byte) string {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
+		if l.ch == quote && l.peekChar() == quote { // escaped quote
+			l.readChar()
+			continue
+		}
 		if l.ch == quote || l.ch == 0 {
 			break
 		}
 	}
+	if l.position >= len(l.input) { // unterminated quote
+		return l.input[position:]
+	}
 	return l.input[position : l.position+1]
 }
 
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index 6a6be0d..0480cd7 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -303,8 +303,12 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'':
+		quote := l.ch
 		tok.Type = TOKEN_IDENT
-		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		tok.Literal = Literal{Str: l.readQuotedLiteral(quote)}
+		if l.ch != quote { // unterminated quote
+			tok.Type = TOKEN_ILLEGAL
+		}
 	case '|':
 		if l.peekChar() == '|' {
 			ch := l.ch
@@ -366,10 +370,17 @@ func (l *Lexer) readQuotedLiteral(quote byte) string {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
+		if l.ch == quote && l.peekChar() == quote { // escaped quote
+			l.readChar()
+			continue
+		}
 		if l.ch == quote || l.ch == 0 {
 			break
 		}
 	}
+	if l.position >= len(l.input) { // unterminated quote
+		return l.input[position:]
+	}
 	return l.input[position : l.position+1]
 }
 
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index fb7a2ad..0e76d20 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -303,8 +303,12 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'', '`':
+		quote := l.ch
 		tok.Type = TOKEN_IDENT
-		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		tok.Literal = Literal{Str: l.readQuotedLiteral(quote)}
+		if l.ch != quote { // unterminated quote
+			tok.Type = TOKEN_ILLEGAL
+		}
 	// MEMO: backup
 	// case '|':
 	// 	if l.peekChar() == '|' {
@@ -372,10 +376,17 @@ func (l *Lexer) readQuotedLiteral(quote byte) string {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
+		if l.ch == quote && l.peekChar() == quote { // escaped quote
+			l.readChar()
+			continue
+		}
 		if l.ch == quote || l.ch == 0 {
 			break
 		}
 	}
+	if l.position >= len(l.input) { // unterminated quote
+		return l.input[position:]
+	}
 	return l.input[position : l.position+1]
 }
 
-- 
2.43.0


From 4d8d62e5d43bc51a7365555fdb35c6bf044fcd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 02/58] fix: inline REFERENCES and CHECK swallow the token that
 follows them

---
 pkg/ddl/cockroachdb/parser.go | 3 +++
 pkg/ddl/mysql/parser.go       | 2 ++
 pkg/ddl/postgres/parser.go    | 3 +++
 pkg/ddl/spanner/parser.go     | 2 ++
 4 files changed, 10 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 2723959..72bc01d 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -581,9 +581,11 @@ LabelConstraints:
 					onAction += " " + p.currentToken.Literal.String() // current = ACTION
 				}
 				constraint.OnAction = onAction
+				p.nextToken() // current = next of CASCADE or ACTION
 			}
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+			continue // current = next of REFERENCES ...
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{ //diff:ignore-line-postgres-cockroach
 				Unique:  true, //diff:ignore-line-postgres-cockroach
@@ -604,6 +606,7 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+			continue // current = next of CHECK (...)
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
 		default:
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 4b72a3c..b13cdbb 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -571,6 +571,7 @@ LabelConstraints:
 
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+			continue // current = next of REFERENCES ...
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{
 				Unique:  true,
@@ -591,6 +592,7 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+			continue // current = next of CHECK (...)
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN, TOKEN_COMMENT:
 			break LabelConstraints
 		default:
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 7d3d3af..80e6b4c 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -474,9 +474,11 @@ LabelConstraints:
 					onAction += " " + p.currentToken.Literal.String() // current = ACTION
 				}
 				constraint.OnAction = onAction
+				p.nextToken() // current = next of CASCADE or ACTION
 			}
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+			continue // current = next of REFERENCES ...
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&UniqueConstraint{ //diff:ignore-line-postgres-cockroach
 				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
@@ -496,6 +498,7 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+			continue // current = next of CHECK (...)
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
 		default:
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 4e1177a..80e2f06 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -595,6 +595,7 @@ LabelConstraints:
 			}
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+			continue // current = next of REFERENCES ...
 		case TOKEN_CHECK:
 			if err := p.checkPeekToken(TOKEN_OPEN_PAREN); err != nil {
 				return nil, apperr.Errorf("checkPeekToken: %w", err)
@@ -609,6 +610,7 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+			continue // current = next of CHECK (...)
 		case TOKEN_OPTIONS, TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
 		default:
-- 
2.43.0


From 2fe21eb0ba61bdc0e95ef31da42a3a8b61227bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:16 +0000
Subject: [PATCH 03/58] fix: postgres and cockroachdb reject foreign key
 actions of table constraints and keep only one action

---
 pkg/ddl/cockroachdb/parser.go | 29 +++++++++++++++++++----------
 pkg/ddl/postgres/parser.go    | 29 +++++++++++++++++++----------
 2 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 72bc01d..0a73af7 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -6,6 +6,7 @@ package cockroachdb
 import (
 	"fmt"
 	"runtime"
+	"sort"
 	"strings"
 
 	filepathz "github.com/kunitsucom/util.go/path/filepath"
@@ -560,8 +561,8 @@ LabelConstraints:
 				return nil, apperr.Errorf("parseColumnIdents: %w", err)
 			}
 			// TODO: support ON DELETE, ON UPDATE
-			//nolint:nestif
-			if p.isCurrentToken(TOKEN_ON) {
+			var onActions []string
+			for p.isCurrentToken(TOKEN_ON) {
 				onAction := p.currentToken.Literal.String() // current = ON
 				p.nextToken()                               // current = DELETE or UPDATE
 				if err := p.checkCurrentToken(TOKEN_DELETE, TOKEN_UPDATE); err != nil {
@@ -580,9 +581,11 @@ LabelConstraints:
 					p.nextToken()                                     // current = ACTION
 					onAction += " " + p.currentToken.Literal.String() // current = ACTION
 				}
-				constraint.OnAction = onAction
+				onActions = append(onActions, strings.ToUpper(onAction))
 				p.nextToken() // current = next of CASCADE or ACTION
 			}
+			sort.Strings(onActions) // ON DELETE, ON UPDATE
+			constraint.OnAction = strings.Join(onActions, " ")
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
 			continue // current = next of REFERENCES ...
@@ -680,10 +683,10 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			return nil, apperr.Errorf("parseColumnIdents: %w", err)
 		}
 		// TODO: support ON DELETE, ON UPDATE
-		var onAction string
-		if p.isCurrentToken(TOKEN_ON) {
-			onAction = p.currentToken.Literal.String() // current = ON
-			p.nextToken()                              // current = DELETE or UPDATE
+		var onActions []string
+		for p.isCurrentToken(TOKEN_ON) {
+			onAction := p.currentToken.Literal.String() // current = ON
+			p.nextToken()                               // current = DELETE or UPDATE
 			if err := p.checkCurrentToken(TOKEN_DELETE, TOKEN_UPDATE); err != nil {
 				return nil, apperr.Errorf("checkCurrentToken: %w", err)
 			}
@@ -693,11 +696,17 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			}
 			p.nextToken()                                     // current = CASCADE or NO
 			onAction += " " + p.currentToken.Literal.String() // current = CASCADE or NO
-			if p.isCurrentToken(TOKEN_NO) && p.isPeekToken(TOKEN_ACTION) {
-				p.nextToken()                                     // current = ACTION
+			if p.isCurrentToken(TOKEN_NO) {
+				p.nextToken() // current = ACTION
+				if err := p.checkCurrentToken(TOKEN_ACTION); err != nil {
+					return nil, apperr.Errorf("checkCurrentToken: %w", err)
+				}
 				onAction += " " + p.currentToken.Literal.String() // current = ACTION
 			}
+			onActions = append(onActions, strings.ToUpper(onAction))
+			p.nextToken() // current = next of CASCADE or ACTION
 		}
+		sort.Strings(onActions) // ON DELETE, ON UPDATE
 		if constraintName == nil {
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
@@ -711,7 +720,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			Columns:    idents,
 			Ref:        refName,
 			RefColumns: identsRef,
-			OnAction:   onAction,
+			OnAction:   strings.Join(onActions, " "),
 		}, nil
 
 	case TOKEN_UNIQUE, TOKEN_INDEX: //diff:ignore-line-postgres-cockroach
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 80e6b4c..348e58f 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -6,6 +6,7 @@ package postgres
 import (
 	"fmt"
 	"runtime"
+	"sort"
 	"strings"
 
 	filepathz "github.com/kunitsucom/util.go/path/filepath"
@@ -453,8 +454,8 @@ LabelConstraints:
 				return nil, apperr.Errorf("parseColumnIdents: %w", err)
 			}
 			// TODO: support ON DELETE, ON UPDATE
-			//nolint:nestif
-			if p.isCurrentToken(TOKEN_ON) {
+			var onActions []string
+			for p.isCurrentToken(TOKEN_ON) {
 				onAction := p.currentToken.Literal.String() // current = ON
 				p.nextToken()                               // current = DELETE or UPDATE
 				if err := p.checkCurrentToken(TOKEN_DELETE, TOKEN_UPDATE); err != nil {
@@ -473,9 +474,11 @@ LabelConstraints:
 					p.nextToken()                                     // current = ACTION
 					onAction += " " + p.currentToken.Literal.String() // current = ACTION
 				}
-				constraint.OnAction = onAction
+				onActions = append(onActions, strings.ToUpper(onAction))
 				p.nextToken() // current = next of CASCADE or ACTION
 			}
+			sort.Strings(onActions) // ON DELETE, ON UPDATE
+			constraint.OnAction = strings.Join(onActions, " ")
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
 			continue // current = next of REFERENCES ...
@@ -572,10 +575,10 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			return nil, apperr.Errorf("parseColumnIdents: %w", err)
 		}
 		// TODO: support ON DELETE, ON UPDATE
-		var onAction string
-		if p.isCurrentToken(TOKEN_ON) {
-			onAction = p.currentToken.Literal.String() // current = ON
-			p.nextToken()                              // current = DELETE or UPDATE
+		var onActions []string
+		for p.isCurrentToken(TOKEN_ON) {
+			onAction := p.currentToken.Literal.String() // current = ON
+			p.nextToken()                               // current = DELETE or UPDATE
 			if err := p.checkCurrentToken(TOKEN_DELETE, TOKEN_UPDATE); err != nil {
 				return nil, apperr.Errorf("checkCurrentToken: %w", err)
 			}
@@ -585,11 +588,17 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			}
 			p.nextToken()                                     // current = CASCADE or NO
 			onAction += " " + p.currentToken.Literal.String() // current = CASCADE or NO
-			if p.isCurrentToken(TOKEN_NO) && p.isPeekToken(TOKEN_ACTION) {
-				p.nextToken()                                     // current = ACTION
+			if p.isCurrentToken(TOKEN_NO) {
+				p.nextToken() // current = ACTION
+				if err := p.checkCurrentToken(TOKEN_ACTION); err != nil {
+					return nil, apperr.Errorf("checkCurrentToken: %w", err)
+				}
 				onAction += " " + p.currentToken.Literal.String() // current = ACTION
 			}
+			onActions = append(onActions, strings.ToUpper(onAction))
+			p.nextToken() // current = next of CASCADE or ACTION
 		}
+		sort.Strings(onActions) // ON DELETE, ON UPDATE
 		if constraintName == nil {
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
@@ -603,7 +612,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			Columns:    idents,
 			Ref:        refName,
 			RefColumns: identsRef,
-			OnAction:   onAction,
+			OnAction:   strings.Join(onActions, " "),
 		}, nil
 
 	case TOKEN_UNIQUE: //diff:ignore-line-postgres-cockroach
-- 
2.43.0


From 9dfdb2d5a52633ba1e130858c2aebb9abb0f92b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 04/58] fix: mysql drops foreign key actions when printing and
 comparing

---
 pkg/ddl/mysql/ddl_table.go |  6 ++++++
 pkg/ddl/mysql/parser.go    | 13 ++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index c0dfe95..128f3f8 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -104,6 +104,9 @@ func (c *ForeignKeyConstraint) String() string {
 	str += " (" + stringz.JoinStringers(", ", c.Columns...) + ")"
 	str += " REFERENCES " + c.Ref.String()
 	str += " (" + stringz.JoinStringers(", ", c.RefColumns...) + ")"
+	if c.OnAction != "" {
+		str += " " + c.OnAction
+	}
 	return str
 }
 
@@ -130,6 +133,9 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 		str += v.StringForDiff()
 	}
 	str += ")"
+	if c.OnAction != "" {
+		str += " " + c.OnAction
+	}
 	return str
 }
 
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index b13cdbb..61908cc 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -5,6 +5,7 @@ package mysql
 import (
 	"fmt"
 	"runtime"
+	"sort"
 	"strings"
 
 	filepathz "github.com/kunitsucom/util.go/path/filepath"
@@ -566,7 +567,7 @@ LabelConstraints:
 				if err != nil {
 					return nil, apperr.Errorf("parseOnAction: %w", err)
 				}
-				constraint.OnAction = onAction
+				constraint.OnAction = joinOnActions(constraint.OnAction, onAction)
 			}
 
 			constraint.RefColumns = idents
@@ -677,7 +678,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			if err != nil {
 				return nil, apperr.Errorf("parseOnAction: %w", err)
 			}
-			onActions += " " + onAction
+			onActions = joinOnActions(onActions, onAction)
 		}
 
 		if constraintName == nil {
@@ -860,7 +861,13 @@ func (p *Parser) parseOnAction() (onAction string, err error) {
 	}
 	p.nextToken() // current = any
 
-	return onAction, nil
+	return strings.ToUpper(onAction), nil
+}
+
+// joinOnActions joins actions in the order ON DELETE, ON UPDATE.
+func joinOnActions(onActions ...string) string {
+	sort.Strings(onActions)
+	return strings.Join(onActions, " ")
 }
 
 func (p *Parser) parseIdents() ([]*Ident, error) {
-- 
2.43.0


From b581e63190c00747c8e337f2010d163d046303a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:40 +0000
Subject: [PATCH 05/58] fix: mysql MODIFY loses the character set of the column

---
 pkg/ddl/mysql/diff_create_table.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 2c4472b..9ec58af 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -261,6 +261,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 				Action: &ModifyColumn{
 					Name:          afterColumn.Name,
 					DataType:      afterColumn.DataType,
+					CharacterSet:  afterColumn.CharacterSet,
 					Collate:       afterColumn.Collate,
 					NotNull:       afterColumn.NotNull,
 					AutoIncrement: afterColumn.AutoIncrement,
-- 
2.43.0


From c13a9e5b8395dcaad75c3675e29a44c1ea0d8429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:42 +0000
Subject: [PATCH 06/58] fix: cockroachdb and spanner put the sort order into
 the names of unnamed foreign keys

---
 pkg/ddl/cockroachdb/parser.go | 2 +-
 pkg/ddl/spanner/parser.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 0a73af7..33bc38e 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -710,7 +710,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if constraintName == nil {
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
-				name += "_" + ident.StringForDiff()
+				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
 			constraintName = NewRawIdent(name)
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 80e2f06..30992c5 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -666,7 +666,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if constraintName == nil {
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
-				name += "_" + ident.StringForDiff()
+				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
 			constraintName = NewRawIdent(name)
-- 
2.43.0


From 3f743dfa6a218110b5a0139fbaffb1f0250889c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:06 +0000
Subject: [PATCH 07/58] fix: postgres and cockroachdb do not read the CHECK
 constraints they print

---
 pkg/ddl/cockroachdb/parser.go | 16 ++++++++++++++++
 pkg/ddl/postgres/parser.go    | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 33bc38e..55456a7 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -756,6 +756,22 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			p.nextToken() // current = (
 		}
 		return c, nil
+	case TOKEN_CHECK:
+		// TODO: support CHECK without CONSTRAINT name
+		if constraintName == nil {
+			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+		}
+		if err := p.checkPeekToken(TOKEN_OPEN_PAREN); err != nil {
+			return nil, apperr.Errorf("checkPeekToken: %w", err)
+		}
+		p.nextToken() // current = (
+		idents, err := p.parseExpr()
+		if err != nil {
+			return nil, apperr.Errorf("parseExpr: %w", err)
+		}
+		constraint := &CheckConstraint{Name: constraintName}
+		constraint.Expr = constraint.Expr.Append(idents...)
+		return constraint, nil
 	default:
 		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 	}
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 348e58f..098caf9 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -635,6 +635,22 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		c.Name = constraintName
 		c.Columns = idents
 		return c, nil
+	case TOKEN_CHECK:
+		// TODO: support CHECK without CONSTRAINT name
+		if constraintName == nil {
+			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+		}
+		if err := p.checkPeekToken(TOKEN_OPEN_PAREN); err != nil {
+			return nil, apperr.Errorf("checkPeekToken: %w", err)
+		}
+		p.nextToken() // current = (
+		idents, err := p.parseExpr()
+		if err != nil {
+			return nil, apperr.Errorf("parseExpr: %w", err)
+		}
+		constraint := &CheckConstraint{Name: constraintName}
+		constraint.Expr = constraint.Expr.Append(idents...)
+		return constraint, nil
 	default:
 		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 	}
-- 
2.43.0


From 4ed97522a84d4a045a4bd2f4f16f7881516eca07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:16 +0000
Subject: [PATCH 08/58] fix: cockroachdb rejects USING in CREATE INDEX

---
 pkg/ddl/cockroachdb/parser.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 55456a7..52bd255 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -251,7 +251,6 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 			return nil, apperr.Errorf(errFmtPrefix+"parseExpr: %w", err)
 		}
 		createIndexStmt.UsingPreColumns = using
-		p.nextToken() // current = (
 	}
 
 	if err := p.checkCurrentToken(TOKEN_OPEN_PAREN); err != nil {
@@ -271,7 +270,6 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 			return nil, apperr.Errorf(errFmtPrefix+"parseExpr: %w", err)
 		}
 		createIndexStmt.UsingPostColumns = using
-		p.nextToken() // current = (
 	}
 
 	return createIndexStmt, nil
@@ -469,7 +467,7 @@ LabelAs:
 			}
 			using.With = &With{&Expr{with}}
 			continue
-		case TOKEN_NOT, TOKEN_COMMA, TOKEN_CLOSE_PAREN, TOKEN_VIRTUAL:
+		case TOKEN_NOT, TOKEN_COMMA, TOKEN_CLOSE_PAREN, TOKEN_VIRTUAL, TOKEN_OPEN_PAREN, TOKEN_SEMICOLON, TOKEN_EOF:
 			break LabelAs
 		default:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
@@ -753,7 +751,6 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				return nil, apperr.Errorf("parseExpr: %w", err)
 			}
 			c.UsingPostColumns = using
-			p.nextToken() // current = (
 		}
 		return c, nil
 	case TOKEN_CHECK:
-- 
2.43.0


From 7df527dac47a4cfb7ad5e11740752fd104c991ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:25 +0000
Subject: [PATCH 09/58] fix: spanner rejects OPTIONS after a DEFAULT

---
 pkg/ddl/spanner/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 30992c5..f464c30 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -491,7 +491,7 @@ LabelDefault:
 			}
 			def.Value = def.Value.Append(ids...)
 			continue
-		case TOKEN_NOT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
+		case TOKEN_NOT, TOKEN_COMMA, TOKEN_CLOSE_PAREN, TOKEN_OPTIONS:
 			break LabelDefault
 		default:
 			if isReservedValue(p.currentToken.Type) {
-- 
2.43.0


From 6c330eee853c86e43f8e16025fc1133fd4e3993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:02 +0000
Subject: [PATCH 10/58] fix: generated constraint names of quoted tables and
 columns are printed unquoted

---
 pkg/ddl/cockroachdb/parser.go | 23 +++++++++++++++++------
 pkg/ddl/mysql/parser.go       | 21 ++++++++++++++++-----
 pkg/ddl/postgres/parser.go    | 25 ++++++++++++++++++-------
 pkg/ddl/spanner/parser.go     | 17 ++++++++++++++---
 4 files changed, 65 insertions(+), 21 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 52bd255..ae53bb7 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -39,6 +39,17 @@ func NewRawIdent(raw string) *Ident {
 	}
 }
 
+// newAutoIdent returns the ident of a generated name, quoted if it cannot be written as a bare word.
+func newAutoIdent(name string) *Ident {
+	for i := 0; i < len(name); i++ {
+		if !isLiteral(name[i]) || name[i] == '.' {
+			return NewRawIdent(`"` + name + `"`)
+		}
+	}
+
+	return NewRawIdent(name)
+}
+
 func NewIdent(name, quotationMark, raw string) *Ident {
 	return &Ident{
 		Name:          name,
@@ -540,7 +551,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = KEY
 			constraints = constraints.Append(&PrimaryKeyConstraint{
-				Name:    NewRawIdent(tableName.StringForDiff() + "_pkey"),
+				Name:    newAutoIdent(tableName.StringForDiff() + "_pkey"),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_REFERENCES:
@@ -549,7 +560,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newAutoIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -590,7 +601,7 @@ LabelConstraints:
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{ //diff:ignore-line-postgres-cockroach
 				Unique:  true, //diff:ignore-line-postgres-cockroach
-				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newAutoIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_CHECK:
@@ -599,7 +610,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: newAutoIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -647,7 +658,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			return nil, apperr.Errorf("parseColumnIdents: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_pkey")
+			constraintName = newAutoIdent(tableName.StringForDiff() + "_pkey")
 		}
 		return &PrimaryKeyConstraint{
 			Name:    constraintName,
@@ -711,7 +722,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = newAutoIdent(name)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 61908cc..5ec6b58 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -38,6 +38,17 @@ func NewRawIdent(raw string) *Ident {
 	}
 }
 
+// newAutoIdent returns the ident of a generated name, quoted if it cannot be written as a bare word.
+func newAutoIdent(name string) *Ident {
+	for i := 0; i < len(name); i++ {
+		if !isLiteral(name[i]) || name[i] == '.' {
+			return NewRawIdent("`" + name + "`")
+		}
+	}
+
+	return NewRawIdent(name)
+}
+
 func NewIdent(name, quotationMark, raw string) *Ident {
 	return &Ident{
 		Name:          name,
@@ -545,7 +556,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newAutoIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -576,7 +587,7 @@ LabelConstraints:
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{
 				Unique:  true,
-				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newAutoIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_CHECK:
@@ -585,7 +596,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: newAutoIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -687,7 +698,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				name += "_" + ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = newAutoIdent(name)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
@@ -734,7 +745,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		}
 		if constraintName == nil {
 			// TODO: handle CONSTRAINT name
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_chk")
+			constraintName = newAutoIdent(tableName.StringForDiff() + "_chk")
 		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 098caf9..d07a920 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -39,6 +39,17 @@ func NewRawIdent(raw string) *Ident {
 	}
 }
 
+// newAutoIdent returns the ident of a generated name, quoted if it cannot be written as a bare word.
+func newAutoIdent(name string) *Ident {
+	for i := 0; i < len(name); i++ {
+		if !isLiteral(name[i]) || name[i] == '.' {
+			return NewRawIdent(`"` + name + `"`)
+		}
+	}
+
+	return NewRawIdent(name)
+}
+
 func NewIdent(name, quotationMark, raw string) *Ident {
 	return &Ident{
 		Name:          name,
@@ -435,7 +446,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = KEY
 			constraints = constraints.Append(&PrimaryKeyConstraint{
-				Name:    NewRawIdent(tableName.StringForDiff() + "_pkey"),
+				Name:    newAutoIdent(tableName.StringForDiff() + "_pkey"),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_REFERENCES:
@@ -444,7 +455,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newAutoIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -484,7 +495,7 @@ LabelConstraints:
 			continue // current = next of REFERENCES ...
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&UniqueConstraint{ //diff:ignore-line-postgres-cockroach
-				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newAutoIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_CHECK:
@@ -493,7 +504,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: newAutoIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -541,7 +552,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			return nil, apperr.Errorf("parseColumnIdents: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_pkey")
+			constraintName = newAutoIdent(tableName.StringForDiff() + "_pkey")
 		}
 		return &PrimaryKeyConstraint{
 			Name:    constraintName,
@@ -605,7 +616,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				name += "_" + ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = newAutoIdent(name)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
@@ -630,7 +641,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			for _, ident := range idents {                //diff:ignore-line-postgres-cockroach
 				name += "_" + ident.StringForDiff() //diff:ignore-line-postgres-cockroach
 			} //diff:ignore-line-postgres-cockroach
-			constraintName = NewRawIdent(name) //diff:ignore-line-postgres-cockroach
+			constraintName = newAutoIdent(name) //diff:ignore-line-postgres-cockroach
 		} //diff:ignore-line-postgres-cockroach
 		c.Name = constraintName
 		c.Columns = idents
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index f464c30..f398e05 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -37,6 +37,17 @@ func NewRawIdent(raw string) *Ident {
 	}
 }
 
+// newAutoIdent returns the ident of a generated name, quoted if it cannot be written as a bare word.
+func newAutoIdent(name string) *Ident {
+	for i := 0; i < len(name); i++ {
+		if !isLiteral(name[i]) || name[i] == '.' {
+			return NewRawIdent("`" + name + "`")
+		}
+	}
+
+	return NewRawIdent(name)
+}
+
 func NewIdent(name, quotationMark, raw string) *Ident {
 	return &Ident{
 		Name:          name,
@@ -584,7 +595,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newAutoIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -602,7 +613,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: newAutoIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -669,7 +680,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = newAutoIdent(name)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
-- 
2.43.0


From fc836cf3db7d3446b6562518c7774b76ea28a20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:22 +0000
Subject: [PATCH 11/58] fix: an unnamed CHECK replaces another one and spanner
 panics on it

---
 pkg/ddl/cockroachdb/ddl_table.go | 21 +++++++++++++++++++++
 pkg/ddl/cockroachdb/parser.go    |  2 +-
 pkg/ddl/mysql/ddl_table.go       | 21 +++++++++++++++++++++
 pkg/ddl/mysql/parser.go          | 11 +++++------
 pkg/ddl/postgres/ddl_table.go    | 21 +++++++++++++++++++++
 pkg/ddl/postgres/parser.go       |  2 +-
 pkg/ddl/spanner/ddl_table.go     | 22 +++++++++++++++++++++-
 pkg/ddl/spanner/parser.go        |  5 ++++-
 8 files changed, 95 insertions(+), 10 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index f41883f..19ba405 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -1,6 +1,7 @@
 package cockroachdb
 
 import (
+	"fmt"
 	"sort" //diff:ignore-line-postgres-cockroach
 	"strings"
 
@@ -41,6 +42,26 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	return constraints
 }
 
+// unusedName returns the name for a constraint which was written without one: a constraint that has the name already is not the same one.
+func (constraints Constraints) unusedName(name string) *Ident {
+	ident := newAutoIdent(name)
+	for i := 1; constraints.contains(ident.Name); i++ {
+		ident = newAutoIdent(fmt.Sprintf("%s%d", name, i))
+	}
+
+	return ident
+}
+
+func (constraints Constraints) contains(name string) bool {
+	for i := range constraints {
+		if constraints[i].GetName().Name == name {
+			return true
+		}
+	}
+
+	return false
+}
+
 // PrimaryKeyConstraint represents a PRIMARY KEY constraint.
 type PrimaryKeyConstraint struct {
 	Name    *Ident
diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index ae53bb7..c5c530b 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -610,7 +610,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: newAutoIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: constraints.unusedName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 128f3f8..3cae42a 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -1,6 +1,7 @@
 package mysql
 
 import (
+	"fmt"
 	"sort"
 	"strings"
 
@@ -41,6 +42,26 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	return constraints
 }
 
+// unusedName returns the name for a constraint which was written without one: a constraint that has the name already is not the same one.
+func (constraints Constraints) unusedName(name string) *Ident {
+	ident := newAutoIdent(name)
+	for i := 1; constraints.contains(ident.Name); i++ {
+		ident = newAutoIdent(fmt.Sprintf("%s%d", name, i))
+	}
+
+	return ident
+}
+
+func (constraints Constraints) contains(name string) bool {
+	for i := range constraints {
+		if constraints[i].GetName().Name == name {
+			return true
+		}
+	}
+
+	return false
+}
+
 // PrimaryKeyConstraint represents a PRIMARY KEY constraint.
 type PrimaryKeyConstraint struct {
 	Name    *Ident
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 5ec6b58..8911db6 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -188,6 +188,9 @@ LabelColumns:
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
+			if check, ok := constraint.(*CheckConstraint); ok && check.Name == nil {
+				check.Name = createTableStmt.Constraints.unusedName(createTableStmt.Name.Name.StringForDiff() + "_chk")
+			}
 			createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
 		case p.isCurrentToken(TOKEN_COMMA):
 			p.nextToken()
@@ -596,7 +599,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: newAutoIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: constraints.unusedName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -743,11 +746,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if err != nil {
 			return nil, apperr.Errorf("parseExpr: %w", err)
 		}
-		if constraintName == nil {
-			// TODO: handle CONSTRAINT name
-			constraintName = newAutoIdent(tableName.StringForDiff() + "_chk")
-		}
-		constraint.Name = constraintName
+		constraint.Name = constraintName // NOTE: named by parseCreateTableStmt if it is nil
 		constraint.Expr = constraint.Expr.Append(idents...)
 		return constraint, nil
 	default:
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index 070ca7b..b5ef4db 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -1,6 +1,7 @@
 package postgres
 
 import (
+	"fmt"
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -29,6 +30,26 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	return constraints
 }
 
+// unusedName returns the name for a constraint which was written without one: a constraint that has the name already is not the same one.
+func (constraints Constraints) unusedName(name string) *Ident {
+	ident := newAutoIdent(name)
+	for i := 1; constraints.contains(ident.Name); i++ {
+		ident = newAutoIdent(fmt.Sprintf("%s%d", name, i))
+	}
+
+	return ident
+}
+
+func (constraints Constraints) contains(name string) bool {
+	for i := range constraints {
+		if constraints[i].GetName().Name == name {
+			return true
+		}
+	}
+
+	return false
+}
+
 // PrimaryKeyConstraint represents a PRIMARY KEY constraint.
 type PrimaryKeyConstraint struct {
 	Name    *Ident
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index d07a920..4310331 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -504,7 +504,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: newAutoIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: constraints.unusedName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
diff --git a/pkg/ddl/spanner/ddl_table.go b/pkg/ddl/spanner/ddl_table.go
index 48e3f39..5b08038 100644
--- a/pkg/ddl/spanner/ddl_table.go
+++ b/pkg/ddl/spanner/ddl_table.go
@@ -1,7 +1,7 @@
 package spanner
 
 import (
-	//diff:ignore-line-postgres-cockroach
+	"fmt" //diff:ignore-line-postgres-cockroach
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -31,6 +31,26 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	return constraints
 }
 
+// unusedName returns the name for a constraint which was written without one: a constraint that has the name already is not the same one.
+func (constraints Constraints) unusedName(name string) *Ident {
+	ident := newAutoIdent(name)
+	for i := 1; constraints.contains(ident.Name); i++ {
+		ident = newAutoIdent(fmt.Sprintf("%s%d", name, i))
+	}
+
+	return ident
+}
+
+func (constraints Constraints) contains(name string) bool {
+	for i := range constraints {
+		if constraints[i].GetName().Name == name {
+			return true
+		}
+	}
+
+	return false
+}
+
 // ForeignKeyConstraint represents a FOREIGN KEY constraint.
 type ForeignKeyConstraint struct {
 	Name       *Ident
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index f398e05..bd92986 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -187,6 +187,9 @@ LabelColumns:
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
+			if check, ok := constraint.(*CheckConstraint); ok && check.Name == nil {
+				check.Name = createTableStmt.Constraints.unusedName(createTableStmt.Name.Name.StringForDiff() + "_chk")
+			}
 			createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
 		case p.isCurrentToken(TOKEN_COMMA):
 			p.nextToken()
@@ -613,7 +616,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: newAutoIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: constraints.unusedName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
-- 
2.43.0


From d5b62ca367fcf32e6a12e9bf715b6550274baba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:37 +0000
Subject: [PATCH 12/58] fix: DiffCreateTable writes the schema of the old table
 into the new one

---
 pkg/ddl/cockroachdb/diff_create_table.go | 10 +++++++---
 pkg/ddl/mysql/diff_create_table.go       | 10 +++++++---
 pkg/ddl/postgres/diff_create_table.go    | 10 +++++++---
 pkg/ddl/spanner/diff_create_table.go     | 10 +++++++---
 4 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index b3b9b0f..b98c94c 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -58,14 +58,18 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 		return nil, apperr.Errorf("before: %s, after: %s: %w", before.GetNameForDiff(), after.GetNameForDiff(), ddl.ErrNoDifference)
 	}
 
+	if after.Name.Schema == nil && before.Name.Schema != nil {
+		// MEMO: do not write to after, it belongs to the caller.
+		qualified := *after
+		qualified.Name = &ObjectName{Schema: before.Name.Schema, Name: after.Name.Name}
+		after = &qualified
+	}
+
 	if before.Name.StringForDiff() != after.Name.StringForDiff() {
 		// ALTER TABLE table_name RENAME TO new_table_name;
 		rename := &RenameTable{
 			NewName: after.Name,
 		}
-		if rename.NewName.Schema == nil {
-			rename.NewName.Schema = before.Name.Schema
-		}
 		result.Stmts = append(result.Stmts, &AlterTableStmt{
 			Comment: simplediff.Diff(before.Name.StringForDiff(), after.Name.StringForDiff()).String(),
 			Name:    before.Name,
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 9ec58af..4ef4c2c 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -58,14 +58,18 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 		return nil, apperr.Errorf("before: %s, after: %s: %w", before.GetNameForDiff(), after.GetNameForDiff(), ddl.ErrNoDifference)
 	}
 
+	if after.Name.Schema == nil && before.Name.Schema != nil {
+		// MEMO: do not write to after, it belongs to the caller.
+		qualified := *after
+		qualified.Name = &ObjectName{Schema: before.Name.Schema, Name: after.Name.Name}
+		after = &qualified
+	}
+
 	if before.Name.StringForDiff() != after.Name.StringForDiff() {
 		// ALTER TABLE table_name RENAME TO new_table_name;
 		rename := &RenameTable{
 			NewName: after.Name,
 		}
-		if rename.NewName.Schema == nil {
-			rename.NewName.Schema = before.Name.Schema
-		}
 		result.Stmts = append(result.Stmts, &AlterTableStmt{
 			Comment: simplediff.Diff(before.Name.StringForDiff(), after.Name.StringForDiff()).String(),
 			Name:    before.Name,
diff --git a/pkg/ddl/postgres/diff_create_table.go b/pkg/ddl/postgres/diff_create_table.go
index 37fbc47..baaeab2 100644
--- a/pkg/ddl/postgres/diff_create_table.go
+++ b/pkg/ddl/postgres/diff_create_table.go
@@ -57,14 +57,18 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 		return nil, apperr.Errorf("before: %s, after: %s: %w", before.GetNameForDiff(), after.GetNameForDiff(), ddl.ErrNoDifference)
 	}
 
+	if after.Name.Schema == nil && before.Name.Schema != nil {
+		// MEMO: do not write to after, it belongs to the caller.
+		qualified := *after
+		qualified.Name = &ObjectName{Schema: before.Name.Schema, Name: after.Name.Name}
+		after = &qualified
+	}
+
 	if before.Name.StringForDiff() != after.Name.StringForDiff() {
 		// ALTER TABLE table_name RENAME TO new_table_name;
 		rename := &RenameTable{
 			NewName: after.Name,
 		}
-		if rename.NewName.Schema == nil {
-			rename.NewName.Schema = before.Name.Schema
-		}
 		result.Stmts = append(result.Stmts, &AlterTableStmt{
 			Comment: simplediff.Diff(before.Name.StringForDiff(), after.Name.StringForDiff()).String(),
 			Name:    before.Name,
diff --git a/pkg/ddl/spanner/diff_create_table.go b/pkg/ddl/spanner/diff_create_table.go
index 383eb18..f270f6c 100644
--- a/pkg/ddl/spanner/diff_create_table.go
+++ b/pkg/ddl/spanner/diff_create_table.go
@@ -65,14 +65,18 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 		return nil, apperr.Errorf("before: %s, after: %s: %w", before.GetNameForDiff(), after.GetNameForDiff(), ddl.ErrNoDifference)
 	}
 
+	if after.Name.Schema == nil && before.Name.Schema != nil {
+		// MEMO: do not write to after, it belongs to the caller.
+		qualified := *after
+		qualified.Name = &ObjectName{Schema: before.Name.Schema, Name: after.Name.Name}
+		after = &qualified
+	}
+
 	if before.Name.StringForDiff() != after.Name.StringForDiff() {
 		// ALTER TABLE table_name RENAME TO new_table_name;
 		rename := &RenameTable{
 			NewName: after.Name,
 		}
-		if rename.NewName.Schema == nil {
-			rename.NewName.Schema = before.Name.Schema
-		}
 		result.Stmts = append(result.Stmts, &AlterTableStmt{
 			Comment: simplediff.Diff(before.Name.StringForDiff(), after.Name.StringForDiff()).String(),
 			Name:    before.Name,
-- 
2.43.0


From a34980e424c3d51d3de923dfaaceff9be5ef75a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:43 +0000
Subject: [PATCH 13/58] fix: diff emits statements in an order in which they
 cannot be executed

Foreign keys, indexes and constraints are dropped before what they use, and
created after it; tables are created parents first and dropped children first.
---
 pkg/ddl/cockroachdb/diff.go       |   3 +
 pkg/ddl/cockroachdb/diff_order.go | 140 +++++++++++++++++++++++++++++
 pkg/ddl/mysql/diff.go             |   3 +
 pkg/ddl/mysql/diff_order.go       | 140 +++++++++++++++++++++++++++++
 pkg/ddl/postgres/diff.go          |   3 +
 pkg/ddl/postgres/diff_order.go    | 140 +++++++++++++++++++++++++++++
 pkg/ddl/spanner/diff.go           |   3 +
 pkg/ddl/spanner/diff_order.go     | 145 ++++++++++++++++++++++++++++++
 8 files changed, 577 insertions(+)
 create mode 100644 pkg/ddl/cockroachdb/diff_order.go
 create mode 100644 pkg/ddl/mysql/diff_order.go
 create mode 100644 pkg/ddl/postgres/diff_order.go
 create mode 100644 pkg/ddl/spanner/diff_order.go

diff --git a/pkg/ddl/cockroachdb/diff.go b/pkg/ddl/cockroachdb/diff.go
index 5610efa..c1544c5 100644
--- a/pkg/ddl/cockroachdb/diff.go
+++ b/pkg/ddl/cockroachdb/diff.go
@@ -34,6 +34,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 				return nil, apperr.Errorf("%s: %T: %w", s.GetNameForDiff(), s, ddl.ErrNotSupported)
 			}
 		}
+		result.Stmts = sortStmts(before, result.Stmts)
 		return result, nil
 	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, ddl.ErrNoDifference
@@ -101,6 +102,8 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	result.Stmts = sortStmts(before, result.Stmts)
+
 	return result, nil
 }
 
diff --git a/pkg/ddl/cockroachdb/diff_order.go b/pkg/ddl/cockroachdb/diff_order.go
new file mode 100644
index 0000000..8cee042
--- /dev/null
+++ b/pkg/ddl/cockroachdb/diff_order.go
@@ -0,0 +1,140 @@
+package cockroachdb
+
+import "sort"
+
+// The phases of a migration: every statement finds the objects it uses, and none that uses what it removes.
+const (
+	phaseDropForeignKey = iota
+	phaseDropIndex
+	phaseDropConstraint
+	phaseDropTable
+	phaseAlterTable
+	phaseAddConstraint
+	phaseCreateTable
+	phaseAddForeignKey
+)
+
+// sortStmts brings the statements of a migration into an order in which they can be executed.
+func sortStmts(before *DDL, stmts []Stmt) []Stmt {
+	var (
+		foreignKeys = make(map[string]bool)
+		created     = make(map[string]bool)
+		tables      = make([]*CreateTableStmt, 0)
+	)
+	for _, stmt := range before.Stmts {
+		if s, ok := stmt.(*CreateTableStmt); ok {
+			tables = append(tables, s)
+			for _, c := range s.Constraints {
+				if _, ok := c.(*ForeignKeyConstraint); ok {
+					foreignKeys[s.GetNameForDiff()+"\x00"+c.GetName().Name] = true
+				}
+			}
+		}
+	}
+	creates := make([]*CreateTableStmt, 0)
+	for _, stmt := range stmts {
+		if s, ok := stmt.(*CreateTableStmt); ok {
+			created[s.GetNameForDiff()] = true
+			creates = append(creates, s)
+		}
+	}
+
+	dropRank := rankTables(tables)
+	createRank := rankTables(creates)
+
+	phase := func(stmt Stmt) int {
+		switch s := stmt.(type) {
+		case *DropIndexStmt:
+			return phaseDropIndex
+		case *DropTableStmt:
+			return phaseDropTable
+		case *CreateTableStmt:
+			return phaseCreateTable
+		case *CreateIndexStmt:
+			if !created[s.TableName.StringForDiff()] {
+				return phaseAddConstraint
+			}
+			return phaseCreateTable
+		case *AlterTableStmt:
+			switch a := s.Action.(type) {
+			case *DropConstraint:
+				if foreignKeys[s.Name.StringForDiff()+"\x00"+a.Name.Name] {
+					return phaseDropForeignKey
+				}
+				return phaseDropConstraint
+			case *AddConstraint:
+				if _, ok := a.Constraint.(*ForeignKeyConstraint); ok {
+					return phaseAddForeignKey
+				}
+				return phaseAddConstraint
+			}
+		}
+		return phaseAlterTable
+	}
+
+	rank := func(stmt Stmt) int {
+		switch s := stmt.(type) {
+		case *DropTableStmt:
+			return -dropRank[s.GetNameForDiff()]
+		case *CreateTableStmt:
+			return createRank[s.GetNameForDiff()]
+		case *CreateIndexStmt:
+			return createRank[s.TableName.StringForDiff()]
+		}
+		return 0
+	}
+
+	sorted := append(make([]Stmt, 0, len(stmts)), stmts...)
+	sort.SliceStable(sorted, func(i, j int) bool {
+		if pi, pj := phase(sorted[i]), phase(sorted[j]); pi != pj {
+			return pi < pj
+		}
+		return rank(sorted[i]) < rank(sorted[j])
+	})
+
+	return sorted
+}
+
+// rankTables ranks a table higher than the tables it refers to, and keeps the rank of tables that do not refer to one another.
+func rankTables(tables []*CreateTableStmt) map[string]int {
+	byName := make(map[string]*CreateTableStmt, len(tables))
+	for _, table := range tables {
+		byName[table.GetNameForDiff()] = table
+	}
+
+	ranks := make(map[string]int, len(tables))
+	visiting := make(map[string]bool, len(tables))
+	var visit func(table *CreateTableStmt) int
+	visit = func(table *CreateTableStmt) int {
+		name := table.GetNameForDiff()
+		if rank, ok := ranks[name]; ok || visiting[name] {
+			return rank
+		}
+		visiting[name] = true
+		rank := 1
+		for _, ref := range referredTables(table) {
+			if referred, ok := byName[ref]; ok && ref != name {
+				if r := visit(referred) + 1; rank < r {
+					rank = r
+				}
+			}
+		}
+		ranks[name] = rank
+		return rank
+	}
+	for _, table := range tables {
+		visit(table)
+	}
+
+	return ranks
+}
+
+func referredTables(table *CreateTableStmt) []string {
+	refs := make([]string, 0)
+	for _, c := range table.Constraints {
+		if fk, ok := c.(*ForeignKeyConstraint); ok {
+			refs = append(refs, fk.Ref.StringForDiff())
+		}
+	}
+	return refs
+}
diff --git a/pkg/ddl/mysql/diff.go b/pkg/ddl/mysql/diff.go
index 5df42d8..21fb267 100644
--- a/pkg/ddl/mysql/diff.go
+++ b/pkg/ddl/mysql/diff.go
@@ -34,6 +34,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 				return nil, apperr.Errorf("%s: %T: %w", s.GetNameForDiff(), s, ddl.ErrNotSupported)
 			}
 		}
+		result.Stmts = sortStmts(before, result.Stmts)
 		return result, nil
 	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, ddl.ErrNoDifference
@@ -101,6 +102,8 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	result.Stmts = sortStmts(before, result.Stmts)
+
 	return result, nil
 }
 
diff --git a/pkg/ddl/mysql/diff_order.go b/pkg/ddl/mysql/diff_order.go
new file mode 100644
index 0000000..636b18d
--- /dev/null
+++ b/pkg/ddl/mysql/diff_order.go
@@ -0,0 +1,140 @@
+package mysql
+
+import "sort"
+
+// The phases of a migration: every statement finds the objects it uses, and none that uses what it removes.
+const (
+	phaseDropForeignKey = iota
+	phaseDropIndex
+	phaseDropConstraint
+	phaseDropTable
+	phaseAlterTable
+	phaseAddConstraint
+	phaseCreateTable
+	phaseAddForeignKey
+)
+
+// sortStmts brings the statements of a migration into an order in which they can be executed.
+func sortStmts(before *DDL, stmts []Stmt) []Stmt {
+	var (
+		foreignKeys = make(map[string]bool)
+		created     = make(map[string]bool)
+		tables      = make([]*CreateTableStmt, 0)
+	)
+	for _, stmt := range before.Stmts {
+		if s, ok := stmt.(*CreateTableStmt); ok {
+			tables = append(tables, s)
+			for _, c := range s.Constraints {
+				if _, ok := c.(*ForeignKeyConstraint); ok {
+					foreignKeys[s.GetNameForDiff()+"\x00"+c.GetName().Name] = true
+				}
+			}
+		}
+	}
+	creates := make([]*CreateTableStmt, 0)
+	for _, stmt := range stmts {
+		if s, ok := stmt.(*CreateTableStmt); ok {
+			created[s.GetNameForDiff()] = true
+			creates = append(creates, s)
+		}
+	}
+
+	dropRank := rankTables(tables)
+	createRank := rankTables(creates)
+
+	phase := func(stmt Stmt) int {
+		switch s := stmt.(type) {
+		case *DropIndexStmt:
+			return phaseDropIndex
+		case *DropTableStmt:
+			return phaseDropTable
+		case *CreateTableStmt:
+			return phaseCreateTable
+		case *CreateIndexStmt:
+			if !created[s.TableName.StringForDiff()] {
+				return phaseAddConstraint
+			}
+			return phaseCreateTable
+		case *AlterTableStmt:
+			switch a := s.Action.(type) {
+			case *DropConstraint:
+				if foreignKeys[s.Name.StringForDiff()+"\x00"+a.Name.Name] {
+					return phaseDropForeignKey
+				}
+				return phaseDropConstraint
+			case *AddConstraint:
+				if _, ok := a.Constraint.(*ForeignKeyConstraint); ok {
+					return phaseAddForeignKey
+				}
+				return phaseAddConstraint
+			}
+		}
+		return phaseAlterTable
+	}
+
+	rank := func(stmt Stmt) int {
+		switch s := stmt.(type) {
+		case *DropTableStmt:
+			return -dropRank[s.GetNameForDiff()]
+		case *CreateTableStmt:
+			return createRank[s.GetNameForDiff()]
+		case *CreateIndexStmt:
+			return createRank[s.TableName.StringForDiff()]
+		}
+		return 0
+	}
+
+	sorted := append(make([]Stmt, 0, len(stmts)), stmts...)
+	sort.SliceStable(sorted, func(i, j int) bool {
+		if pi, pj := phase(sorted[i]), phase(sorted[j]); pi != pj {
+			return pi < pj
+		}
+		return rank(sorted[i]) < rank(sorted[j])
+	})
+
+	return sorted
+}
+
+// rankTables ranks a table higher than the tables it refers to, and keeps the rank of tables that do not refer to one another.
+func rankTables(tables []*CreateTableStmt) map[string]int {
+	byName := make(map[string]*CreateTableStmt, len(tables))
+	for _, table := range tables {
+		byName[table.GetNameForDiff()] = table
+	}
+
+	ranks := make(map[string]int, len(tables))
+	visiting := make(map[string]bool, len(tables))
+	var visit func(table *CreateTableStmt) int
+	visit = func(table *CreateTableStmt) int {
+		name := table.GetNameForDiff()
+		if rank, ok := ranks[name]; ok || visiting[name] {
+			return rank
+		}
+		visiting[name] = true
+		rank := 1
+		for _, ref := range referredTables(table) {
+			if referred, ok := byName[ref]; ok && ref != name {
+				if r := visit(referred) + 1; rank < r {
+					rank = r
+				}
+			}
+		}
+		ranks[name] = rank
+		return rank
+	}
+	for _, table := range tables {
+		visit(table)
+	}
+
+	return ranks
+}
+
+func referredTables(table *CreateTableStmt) []string {
+	refs := make([]string, 0)
+	for _, c := range table.Constraints {
+		if fk, ok := c.(*ForeignKeyConstraint); ok {
+			refs = append(refs, fk.Ref.StringForDiff())
+		}
+	}
+	return refs
+}
diff --git a/pkg/ddl/postgres/diff.go b/pkg/ddl/postgres/diff.go
index 8db9540..e198f65 100644
--- a/pkg/ddl/postgres/diff.go
+++ b/pkg/ddl/postgres/diff.go
@@ -34,6 +34,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 				return nil, apperr.Errorf("%s: %T: %w", s.GetNameForDiff(), s, ddl.ErrNotSupported)
 			}
 		}
+		result.Stmts = sortStmts(before, result.Stmts)
 		return result, nil
 	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, ddl.ErrNoDifference
@@ -101,6 +102,8 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	result.Stmts = sortStmts(before, result.Stmts)
+
 	return result, nil
 }
 
diff --git a/pkg/ddl/postgres/diff_order.go b/pkg/ddl/postgres/diff_order.go
new file mode 100644
index 0000000..1300b48
--- /dev/null
+++ b/pkg/ddl/postgres/diff_order.go
@@ -0,0 +1,140 @@
+package postgres
+
+import "sort"
+
+// The phases of a migration: every statement finds the objects it uses, and none that uses what it removes.
+const (
+	phaseDropForeignKey = iota
+	phaseDropIndex
+	phaseDropConstraint
+	phaseDropTable
+	phaseAlterTable
+	phaseAddConstraint
+	phaseCreateTable
+	phaseAddForeignKey
+)
+
+// sortStmts brings the statements of a migration into an order in which they can be executed.
+func sortStmts(before *DDL, stmts []Stmt) []Stmt {
+	var (
+		foreignKeys = make(map[string]bool)
+		created     = make(map[string]bool)
+		tables      = make([]*CreateTableStmt, 0)
+	)
+	for _, stmt := range before.Stmts {
+		if s, ok := stmt.(*CreateTableStmt); ok {
+			tables = append(tables, s)
+			for _, c := range s.Constraints {
+				if _, ok := c.(*ForeignKeyConstraint); ok {
+					foreignKeys[s.GetNameForDiff()+"\x00"+c.GetName().Name] = true
+				}
+			}
+		}
+	}
+	creates := make([]*CreateTableStmt, 0)
+	for _, stmt := range stmts {
+		if s, ok := stmt.(*CreateTableStmt); ok {
+			created[s.GetNameForDiff()] = true
+			creates = append(creates, s)
+		}
+	}
+
+	dropRank := rankTables(tables)
+	createRank := rankTables(creates)
+
+	phase := func(stmt Stmt) int {
+		switch s := stmt.(type) {
+		case *DropIndexStmt:
+			return phaseDropIndex
+		case *DropTableStmt:
+			return phaseDropTable
+		case *CreateTableStmt:
+			return phaseCreateTable
+		case *CreateIndexStmt:
+			if !created[s.TableName.StringForDiff()] {
+				return phaseAddConstraint
+			}
+			return phaseCreateTable
+		case *AlterTableStmt:
+			switch a := s.Action.(type) {
+			case *DropConstraint:
+				if foreignKeys[s.Name.StringForDiff()+"\x00"+a.Name.Name] {
+					return phaseDropForeignKey
+				}
+				return phaseDropConstraint
+			case *AddConstraint:
+				if _, ok := a.Constraint.(*ForeignKeyConstraint); ok {
+					return phaseAddForeignKey
+				}
+				return phaseAddConstraint
+			}
+		}
+		return phaseAlterTable
+	}
+
+	rank := func(stmt Stmt) int {
+		switch s := stmt.(type) {
+		case *DropTableStmt:
+			return -dropRank[s.GetNameForDiff()]
+		case *CreateTableStmt:
+			return createRank[s.GetNameForDiff()]
+		case *CreateIndexStmt:
+			return createRank[s.TableName.StringForDiff()]
+		}
+		return 0
+	}
+
+	sorted := append(make([]Stmt, 0, len(stmts)), stmts...)
+	sort.SliceStable(sorted, func(i, j int) bool {
+		if pi, pj := phase(sorted[i]), phase(sorted[j]); pi != pj {
+			return pi < pj
+		}
+		return rank(sorted[i]) < rank(sorted[j])
+	})
+
+	return sorted
+}
+
+// rankTables ranks a table higher than the tables it refers to, and keeps the rank of tables that do not refer to one another.
+func rankTables(tables []*CreateTableStmt) map[string]int {
+	byName := make(map[string]*CreateTableStmt, len(tables))
+	for _, table := range tables {
+		byName[table.GetNameForDiff()] = table
+	}
+
+	ranks := make(map[string]int, len(tables))
+	visiting := make(map[string]bool, len(tables))
+	var visit func(table *CreateTableStmt) int
+	visit = func(table *CreateTableStmt) int {
+		name := table.GetNameForDiff()
+		if rank, ok := ranks[name]; ok || visiting[name] {
+			return rank
+		}
+		visiting[name] = true
+		rank := 1
+		for _, ref := range referredTables(table) {
+			if referred, ok := byName[ref]; ok && ref != name {
+				if r := visit(referred) + 1; rank < r {
+					rank = r
+				}
+			}
+		}
+		ranks[name] = rank
+		return rank
+	}
+	for _, table := range tables {
+		visit(table)
+	}
+
+	return ranks
+}
+
+func referredTables(table *CreateTableStmt) []string {
+	refs := make([]string, 0)
+	for _, c := range table.Constraints {
+		if fk, ok := c.(*ForeignKeyConstraint); ok {
+			refs = append(refs, fk.Ref.StringForDiff())
+		}
+	}
+	return refs
+}
diff --git a/pkg/ddl/spanner/diff.go b/pkg/ddl/spanner/diff.go
index e960104..f344c3d 100644
--- a/pkg/ddl/spanner/diff.go
+++ b/pkg/ddl/spanner/diff.go
@@ -34,6 +34,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 				return nil, apperr.Errorf("%s: %T: %w", s.GetNameForDiff(), s, ddl.ErrNotSupported)
 			}
 		}
+		result.Stmts = sortStmts(before, result.Stmts)
 		return result, nil
 	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, ddl.ErrNoDifference
@@ -101,6 +102,8 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	result.Stmts = sortStmts(before, result.Stmts)
+
 	return result, nil
 }
 
diff --git a/pkg/ddl/spanner/diff_order.go b/pkg/ddl/spanner/diff_order.go
new file mode 100644
index 0000000..964071b
--- /dev/null
+++ b/pkg/ddl/spanner/diff_order.go
@@ -0,0 +1,145 @@
+package spanner
+
+import "sort"
+
+// The phases of a migration: every statement finds the objects it uses, and none that uses what it removes.
+const (
+	phaseDropForeignKey = iota
+	phaseDropIndex
+	phaseDropConstraint
+	phaseDropTable
+	phaseAlterTable
+	phaseAddConstraint
+	phaseCreateTable
+	phaseAddForeignKey
+)
+
+// sortStmts brings the statements of a migration into an order in which they can be executed.
+func sortStmts(before *DDL, stmts []Stmt) []Stmt {
+	var (
+		foreignKeys = make(map[string]bool)
+		created     = make(map[string]bool)
+		tables      = make([]*CreateTableStmt, 0)
+	)
+	for _, stmt := range before.Stmts {
+		if s, ok := stmt.(*CreateTableStmt); ok {
+			tables = append(tables, s)
+			for _, c := range s.Constraints {
+				if _, ok := c.(*ForeignKeyConstraint); ok {
+					foreignKeys[s.GetNameForDiff()+"\x00"+c.GetName().Name] = true
+				}
+			}
+		}
+	}
+	creates := make([]*CreateTableStmt, 0)
+	for _, stmt := range stmts {
+		if s, ok := stmt.(*CreateTableStmt); ok {
+			created[s.GetNameForDiff()] = true
+			creates = append(creates, s)
+		}
+	}
+
+	dropRank := rankTables(tables)
+	createRank := rankTables(creates)
+
+	phase := func(stmt Stmt) int {
+		switch s := stmt.(type) {
+		case *DropIndexStmt:
+			return phaseDropIndex
+		case *DropTableStmt:
+			return phaseDropTable
+		case *CreateTableStmt:
+			return phaseCreateTable
+		case *CreateIndexStmt:
+			if !created[s.TableName.StringForDiff()] {
+				return phaseAddConstraint
+			}
+			return phaseCreateTable
+		case *AlterTableStmt:
+			switch a := s.Action.(type) {
+			case *DropConstraint:
+				if foreignKeys[s.Name.StringForDiff()+"\x00"+a.Name.Name] {
+					return phaseDropForeignKey
+				}
+				return phaseDropConstraint
+			case *AddConstraint:
+				if _, ok := a.Constraint.(*ForeignKeyConstraint); ok {
+					return phaseAddForeignKey
+				}
+				return phaseAddConstraint
+			}
+		}
+		return phaseAlterTable
+	}
+
+	rank := func(stmt Stmt) int {
+		switch s := stmt.(type) {
+		case *DropTableStmt:
+			return -dropRank[s.GetNameForDiff()]
+		case *CreateTableStmt:
+			return createRank[s.GetNameForDiff()]
+		case *CreateIndexStmt:
+			return createRank[s.TableName.StringForDiff()]
+		}
+		return 0
+	}
+
+	sorted := append(make([]Stmt, 0, len(stmts)), stmts...)
+	sort.SliceStable(sorted, func(i, j int) bool {
+		if pi, pj := phase(sorted[i]), phase(sorted[j]); pi != pj {
+			return pi < pj
+		}
+		return rank(sorted[i]) < rank(sorted[j])
+	})
+
+	return sorted
+}
+
+// rankTables ranks a table higher than the tables it refers to, and keeps the rank of tables that do not refer to one another.
+func rankTables(tables []*CreateTableStmt) map[string]int {
+	byName := make(map[string]*CreateTableStmt, len(tables))
+	for _, table := range tables {
+		byName[table.GetNameForDiff()] = table
+	}
+
+	ranks := make(map[string]int, len(tables))
+	visiting := make(map[string]bool, len(tables))
+	var visit func(table *CreateTableStmt) int
+	visit = func(table *CreateTableStmt) int {
+		name := table.GetNameForDiff()
+		if rank, ok := ranks[name]; ok || visiting[name] {
+			return rank
+		}
+		visiting[name] = true
+		rank := 1
+		for _, ref := range referredTables(table) {
+			if referred, ok := byName[ref]; ok && ref != name {
+				if r := visit(referred) + 1; rank < r {
+					rank = r
+				}
+			}
+		}
+		ranks[name] = rank
+		return rank
+	}
+	for _, table := range tables {
+		visit(table)
+	}
+
+	return ranks
+}
+
+func referredTables(table *CreateTableStmt) []string {
+	refs := make([]string, 0)
+	for _, c := range table.Constraints {
+		if fk, ok := c.(*ForeignKeyConstraint); ok {
+			refs = append(refs, fk.Ref.StringForDiff())
+		}
+	}
+	for _, opt := range table.Options {
+		if opt.Name == "INTERLEAVE IN PARENT" && len(opt.Value.Idents) > 0 {
+			refs = append(refs, opt.Value.Idents[0].StringForDiff())
+		}
+	}
+	return refs
+}
-- 
2.43.0


From 60b05c75aaef6bed20838d616d2c17bc6cd9673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:28 +0000
Subject: [PATCH 14/58] fix: synonymous type names are reported as a difference

A column that the database shows under the canonical name of its type was altered on every run.
---
 pkg/ddl/cockroachdb/parser.go | 6 ++++++
 pkg/ddl/mysql/parser.go       | 9 +++++++--
 pkg/ddl/postgres/parser.go    | 6 ++++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index c5c530b..b095749 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -825,6 +825,12 @@ func (p *Parser) parseDataType() (*DataType, error) {
 		p.nextToken() // current = VARYING
 		dataType.Name += " " + p.currentToken.Literal.String()
 		dataType.Type = TOKEN_VARCHAR //diff:ignore-line-postgres-cockroach
+	case TOKEN_NUMERIC:
+		dataType.Name = p.currentToken.Literal.String()
+		dataType.Type = TOKEN_DECIMAL
+	case TOKEN_REAL:
+		dataType.Name = p.currentToken.Literal.String()
+		dataType.Type = TOKEN_FLOAT4
 	default:
 		dataType.Name = p.currentToken.Literal.String()
 		dataType.Type = p.currentToken.Type
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 8911db6..c073827 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -761,7 +761,7 @@ func (p *Parser) parseDataType() (*DataType, error) {
 	switch p.currentToken.Type { //nolint:exhaustive
 	case TOKEN_BOOLEAN:
 		dataType.Name = "TINYINT"
-		dataType.Type = TOKEN_BOOLEAN
+		dataType.Type = TOKEN_TINYINT
 		dataType.Expr = dataType.Expr.Append(NewRawIdent("1"))
 	case TOKEN_TIMESTAMP:
 		dataType.Name = p.currentToken.Literal.String()
@@ -781,7 +781,6 @@ func (p *Parser) parseDataType() (*DataType, error) {
 		if p.isPeekToken(TOKEN_PRECISION) {
 			p.nextToken() // current = PRECISION
 			dataType.Name += " " + p.currentToken.Literal.String()
-			dataType.Type = TOKEN_DOUBLE_PRECISION
 		}
 	case TOKEN_CHARACTER:
 		dataType.Name = p.currentToken.Literal.String()
@@ -794,6 +793,12 @@ func (p *Parser) parseDataType() (*DataType, error) {
 	case TOKEN_ENUM:
 		dataType.Name = p.currentToken.Literal.String()
 		dataType.Type = TOKEN_ENUM
+	case TOKEN_NUMERIC:
+		dataType.Name = p.currentToken.Literal.String()
+		dataType.Type = TOKEN_DECIMAL
+	case TOKEN_REAL:
+		dataType.Name = p.currentToken.Literal.String()
+		dataType.Type = TOKEN_DOUBLE
 	default:
 		dataType.Name = p.currentToken.Literal.String()
 		dataType.Type = p.currentToken.Type
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 4310331..efefd20 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -710,6 +710,12 @@ func (p *Parser) parseDataType() (*DataType, error) {
 		p.nextToken() // current = VARYING
 		dataType.Name += " " + p.currentToken.Literal.String()
 		dataType.Type = TOKEN_CHARACTER_VARYING //diff:ignore-line-postgres-cockroach
+	case TOKEN_VARYING:
+		dataType.Name = p.currentToken.Literal.String()
+		dataType.Type = TOKEN_CHARACTER_VARYING
+	case TOKEN_DECIMAL:
+		dataType.Name = p.currentToken.Literal.String()
+		dataType.Type = TOKEN_NUMERIC
 	default:
 		dataType.Name = p.currentToken.Literal.String()
 		dataType.Type = p.currentToken.Type
-- 
2.43.0


From 50fab8647e1815f75585a0a353a4fbf3cc6fb2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:30 +0000
Subject: [PATCH 15/58] fix: an index and a constraint that replace each other
 under the same name are dropped as the wrong kind

---
 pkg/ddl/cockroachdb/diff_create_table.go | 67 +++++++++++-----------
 pkg/ddl/mysql/diff_create_table.go       | 71 ++++++++++++------------
 2 files changed, 68 insertions(+), 70 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index b98c94c..0e7cc4f 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -107,46 +107,45 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
 		if afterConstraint != nil {
 			if beforeConstraint.StringForDiff() != afterConstraint.StringForDiff() {
-				switch ac := afterConstraint.(type) { //diff:ignore-line-postgres-cockroach
+				// NOTE: An index and a constraint may replace each other under the same name.                                 //diff:ignore-line-postgres-cockroach
+				switch beforeConstraint.(type) { //diff:ignore-line-postgres-cockroach
 				case *IndexConstraint: //diff:ignore-line-postgres-cockroach
 					// DROP INDEX index_name;                               //diff:ignore-line-postgres-cockroach
-					// CREATE INDEX index_name ON table_name (column_name); //diff:ignore-line-postgres-cockroach
-					result.Stmts = append( //diff:ignore-line-postgres-cockroach
-						result.Stmts, //diff:ignore-line-postgres-cockroach
-						&DropIndexStmt{ //diff:ignore-line-postgres-cockroach
-							Comment: simplediff.Diff(beforeConstraint.String(), afterConstraint.String()).String(), //diff:ignore-line-postgres-cockroach
-							Name:    beforeConstraint.GetName(),                                                    //diff:ignore-line-postgres-cockroach
-						}, //diff:ignore-line-postgres-cockroach
-						&CreateIndexStmt{ //diff:ignore-line-postgres-cockroach
-							Unique:           ac.Unique,           //diff:ignore-line-postgres-cockroach
-							Name:             ac.GetName(),        //diff:ignore-line-postgres-cockroach
-							TableName:        after.Name,          //diff:ignore-line-postgres-cockroach
-							UsingPreColumns:  ac.UsingPreColumns,  //diff:ignore-line-postgres-cockroach
-							Columns:          ac.Columns,          //diff:ignore-line-postgres-cockroach
-							UsingPostColumns: ac.UsingPostColumns, //diff:ignore-line-postgres-cockroach
-						}, //diff:ignore-line-postgres-cockroach
-					) //diff:ignore-line-postgres-cockroach
+					result.Stmts = append(result.Stmts, &DropIndexStmt{ //diff:ignore-line-postgres-cockroach
+						Comment: simplediff.Diff(beforeConstraint.String(), afterConstraint.String()).String(), //diff:ignore-line-postgres-cockroach
+						Name:    beforeConstraint.GetName(),                                                    //diff:ignore-line-postgres-cockroach
+					}) //diff:ignore-line-postgres-cockroach
 				default: //diff:ignore-line-postgres-cockroach
 					// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
-					// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
-					result.Stmts = append(
-						result.Stmts,
-						&AlterTableStmt{
-							Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
-							Name:    after.Name, // ALTER TABLE RENAME TO で変更された後の可能性があるため after.Name を使用する
-							Action: &DropConstraint{
-								Name: beforeConstraint.GetName(),
-							},
+					result.Stmts = append(result.Stmts, &AlterTableStmt{
+						Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
+						Name:    after.Name, // ALTER TABLE RENAME TO で変更された後の可能性があるため after.Name を使用する
+						Action: &DropConstraint{
+							Name: beforeConstraint.GetName(),
 						},
-						&AlterTableStmt{
-							Comment: simplediff.Diff("", afterConstraint.String()).String(),
-							Name:    after.Name,
-							Action: &AddConstraint{
-								Constraint: afterConstraint,
-								NotValid:   config.UseAlterTableAddConstraintNotValid,
-							},
+					})
+				} //diff:ignore-line-postgres-cockroach
+				switch ac := afterConstraint.(type) { //diff:ignore-line-postgres-cockroach
+				case *IndexConstraint: //diff:ignore-line-postgres-cockroach
+					// CREATE INDEX index_name ON table_name (column_name); //diff:ignore-line-postgres-cockroach
+					result.Stmts = append(result.Stmts, &CreateIndexStmt{ //diff:ignore-line-postgres-cockroach
+						Unique:           ac.Unique,           //diff:ignore-line-postgres-cockroach
+						Name:             ac.GetName(),        //diff:ignore-line-postgres-cockroach
+						TableName:        after.Name,          //diff:ignore-line-postgres-cockroach
+						UsingPreColumns:  ac.UsingPreColumns,  //diff:ignore-line-postgres-cockroach
+						Columns:          ac.Columns,          //diff:ignore-line-postgres-cockroach
+						UsingPostColumns: ac.UsingPostColumns, //diff:ignore-line-postgres-cockroach
+					}) //diff:ignore-line-postgres-cockroach
+				default: //diff:ignore-line-postgres-cockroach
+					// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
+					result.Stmts = append(result.Stmts, &AlterTableStmt{
+						Comment: simplediff.Diff("", afterConstraint.String()).String(),
+						Name:    after.Name,
+						Action: &AddConstraint{
+							Constraint: afterConstraint,
+							NotValid:   config.UseAlterTableAddConstraintNotValid,
 						},
-					)
+					})
 				} //diff:ignore-line-postgres-cockroach
 			}
 			continue
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 4ef4c2c..55d8e35 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -110,49 +110,48 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
 		if afterConstraint != nil {
 			if beforeConstraint.StringForDiff() != afterConstraint.StringForDiff() {
-				switch ac := afterConstraint.(type) {
+				// NOTE: An index and a constraint may replace each other under the same name.
+				switch beforeConstraint.(type) {
 				case *IndexConstraint:
 					// DROP INDEX index_name;
-					// CREATE INDEX index_name ON table_name (column_name);
-					result.Stmts = append(
-						result.Stmts,
-						&DropIndexStmt{
-							Name: &ObjectName{
-								Schema: before.Name.Schema,
-								Name:   beforeConstraint.GetName(),
-							},
-						},
-						&CreateIndexStmt{
-							Unique: ac.Unique,
-							Name: &ObjectName{
-								Schema: after.Name.Schema,
-								Name:   ac.GetName(),
-							},
-							TableName: after.Name,
-							Columns:   ac.Columns,
+					result.Stmts = append(result.Stmts, &DropIndexStmt{
+						Name: &ObjectName{
+							Schema: before.Name.Schema,
+							Name:   beforeConstraint.GetName(),
 						},
-					)
+					})
 				default:
 					// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
-					// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
-					result.Stmts = append(
-						result.Stmts,
-						&AlterTableStmt{
-							Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
-							Name:    after.Name, // ALTER TABLE RENAME TO で変更された後の可能性があるため after.Name を使用する
-							Action: &DropConstraint{
-								Name: beforeConstraint.GetName(),
-							},
+					result.Stmts = append(result.Stmts, &AlterTableStmt{
+						Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
+						Name:    after.Name, // ALTER TABLE RENAME TO で変更された後の可能性があるため after.Name を使用する
+						Action: &DropConstraint{
+							Name: beforeConstraint.GetName(),
 						},
-						&AlterTableStmt{
-							Comment: simplediff.Diff("", afterConstraint.String()).String(),
-							Name:    after.Name,
-							Action: &AddConstraint{
-								Constraint: afterConstraint,
-								NotValid:   config.UseAlterTableAddConstraintNotValid,
-							},
+					})
+				}
+				switch ac := afterConstraint.(type) {
+				case *IndexConstraint:
+					// CREATE INDEX index_name ON table_name (column_name);
+					result.Stmts = append(result.Stmts, &CreateIndexStmt{
+						Unique: ac.Unique,
+						Name: &ObjectName{
+							Schema: after.Name.Schema,
+							Name:   ac.GetName(),
+						},
+						TableName: after.Name,
+						Columns:   ac.Columns,
+					})
+				default:
+					// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
+					result.Stmts = append(result.Stmts, &AlterTableStmt{
+						Comment: simplediff.Diff("", afterConstraint.String()).String(),
+						Name:    after.Name,
+						Action: &AddConstraint{
+							Constraint: afterConstraint,
+							NotValid:   config.UseAlterTableAddConstraintNotValid,
 						},
-					)
+					})
 				}
 			}
 			continue
-- 
2.43.0


From c656d8214cd03bcb9ee51ceb2c4e7da85b289b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:30 +0000
Subject: [PATCH 16/58] fix: an index is recreated when only the place of its
 declaration differs, and indexes of different tables are mixed up

mysql and cockroachdb show every index inside its table, so CREATE INDEX never converged.
---
 pkg/ddl/cockroachdb/diff.go | 69 ++++++++++++++++++++++++++++++++++++-
 pkg/ddl/mysql/diff.go       | 63 ++++++++++++++++++++++++++++++++-
 2 files changed, 130 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff.go b/pkg/ddl/cockroachdb/diff.go
index c1544c5..745797f 100644
--- a/pkg/ddl/cockroachdb/diff.go
+++ b/pkg/ddl/cockroachdb/diff.go
@@ -40,6 +40,8 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	before, after = foldIndexes(before, after), foldIndexes(after, before)
+
 	// DROP TABLE table_name;
 	for _, stmt := range onlyLeftStmt(before, after) {
 		switch beforeStmt := stmt.(type) {
@@ -121,9 +123,74 @@ func onlyLeftStmt(left, right *DDL) []Stmt {
 
 func findStmtByTypeAndName(stmt Stmt, stmts []Stmt) Stmt { //nolint:ireturn
 	for _, s := range stmts {
-		if reflect.TypeOf(stmt) == reflect.TypeOf(s) && stmt.GetNameForDiff() == s.GetNameForDiff() {
+		if reflect.TypeOf(stmt) == reflect.TypeOf(s) && stmt.GetNameForDiff() == s.GetNameForDiff() && tableOfIndex(stmt) == tableOfIndex(s) {
 			return s
 		}
 	}
 	return nil
 }
+
+// foldIndexes returns d with each CREATE INDEX moved into its table if other declares an index of that name in the table itself,
+// because the place where an index is declared makes no difference.
+func foldIndexes(d, other *DDL) *DDL {
+	folded := &DDL{Stmts: make([]Stmt, 0, len(d.Stmts))}
+	moved := make(map[string][]*IndexConstraint)
+	for _, stmt := range d.Stmts {
+		if s, ok := stmt.(*CreateIndexStmt); ok && declaresIndex(other, s) && !declaresIndex(d, s) {
+			if table := s.TableName.StringForDiff(); findTable(d, table) != nil {
+				moved[table] = append(moved[table], &IndexConstraint{
+					Name:             s.Name,
+					Unique:           s.Unique,
+					UsingPreColumns:  s.UsingPreColumns,
+					Columns:          s.Columns,
+					UsingPostColumns: s.UsingPostColumns,
+				})
+				continue
+			}
+		}
+		folded.Stmts = append(folded.Stmts, stmt)
+	}
+
+	for i, stmt := range folded.Stmts {
+		if s, ok := stmt.(*CreateTableStmt); ok && len(moved[s.GetNameForDiff()]) > 0 {
+			table := *s
+			table.Constraints = append(Constraints{}, s.Constraints...)
+			for _, c := range moved[s.GetNameForDiff()] {
+				table.Constraints = append(table.Constraints, c)
+			}
+			folded.Stmts[i] = &table
+		}
+	}
+
+	return folded
+}
+
+func declaresIndex(d *DDL, index *CreateIndexStmt) bool {
+	table := findTable(d, index.TableName.StringForDiff())
+	if table == nil {
+		return false
+	}
+	for _, c := range table.Constraints {
+		if ic, ok := c.(*IndexConstraint); ok && ic.Name.StringForDiff() == index.Name.StringForDiff() {
+			return true
+		}
+	}
+	return false
+}
+
+func findTable(d *DDL, name string) *CreateTableStmt {
+	for _, stmt := range d.Stmts {
+		if s, ok := stmt.(*CreateTableStmt); ok && s.GetNameForDiff() == name {
+			return s
+		}
+	}
+	return nil
+}
+
+// tableOfIndex is part of the identity of an index: indexes of different tables may have the same name.
+func tableOfIndex(stmt Stmt) string {
+	if s, ok := stmt.(*CreateIndexStmt); ok {
+		return s.TableName.StringForDiff()
+	}
+	return ""
+}
diff --git a/pkg/ddl/mysql/diff.go b/pkg/ddl/mysql/diff.go
index 21fb267..fe6c6a5 100644
--- a/pkg/ddl/mysql/diff.go
+++ b/pkg/ddl/mysql/diff.go
@@ -40,6 +40,8 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	before, after = foldIndexes(before, after), foldIndexes(after, before)
+
 	// DROP TABLE table_name;
 	for _, stmt := range onlyLeftStmt(before, after) {
 		switch beforeStmt := stmt.(type) {
@@ -121,9 +123,68 @@ func onlyLeftStmt(left, right *DDL) []Stmt {
 
 func findStmtByTypeAndName(stmt Stmt, stmts []Stmt) Stmt { //nolint:ireturn
 	for _, s := range stmts {
-		if reflect.TypeOf(stmt) == reflect.TypeOf(s) && stmt.GetNameForDiff() == s.GetNameForDiff() {
+		if reflect.TypeOf(stmt) == reflect.TypeOf(s) && stmt.GetNameForDiff() == s.GetNameForDiff() && tableOfIndex(stmt) == tableOfIndex(s) {
+			return s
+		}
+	}
+	return nil
+}
+
+// foldIndexes returns d with each CREATE INDEX moved into its table if other declares an index of that name in the table itself,
+// because the place where an index is declared makes no difference.
+func foldIndexes(d, other *DDL) *DDL {
+	folded := &DDL{Stmts: make([]Stmt, 0, len(d.Stmts))}
+	moved := make(map[string][]*IndexConstraint)
+	for _, stmt := range d.Stmts {
+		if s, ok := stmt.(*CreateIndexStmt); ok && declaresIndex(other, s) && !declaresIndex(d, s) {
+			if table := s.TableName.StringForDiff(); findTable(d, table) != nil {
+				moved[table] = append(moved[table], &IndexConstraint{Name: s.Name.Name, Unique: s.Unique, Columns: s.Columns})
+				continue
+			}
+		}
+		folded.Stmts = append(folded.Stmts, stmt)
+	}
+
+	for i, stmt := range folded.Stmts {
+		if s, ok := stmt.(*CreateTableStmt); ok && len(moved[s.GetNameForDiff()]) > 0 {
+			table := *s
+			table.Constraints = append(Constraints{}, s.Constraints...)
+			for _, c := range moved[s.GetNameForDiff()] {
+				table.Constraints = append(table.Constraints, c)
+			}
+			folded.Stmts[i] = &table
+		}
+	}
+
+	return folded
+}
+
+func declaresIndex(d *DDL, index *CreateIndexStmt) bool {
+	table := findTable(d, index.TableName.StringForDiff())
+	if table == nil {
+		return false
+	}
+	for _, c := range table.Constraints {
+		if ic, ok := c.(*IndexConstraint); ok && ic.Name.StringForDiff() == index.Name.Name.StringForDiff() {
+			return true
+		}
+	}
+	return false
+}
+
+func findTable(d *DDL, name string) *CreateTableStmt {
+	for _, stmt := range d.Stmts {
+		if s, ok := stmt.(*CreateTableStmt); ok && s.GetNameForDiff() == name {
 			return s
 		}
 	}
 	return nil
 }
+
+// tableOfIndex is part of the identity of an index: indexes of different tables may have the same name.
+func tableOfIndex(stmt Stmt) string {
+	if s, ok := stmt.(*CreateIndexStmt); ok {
+		return s.TableName.StringForDiff()
+	}
+	return ""
+}
-- 
2.43.0


From 96d9e771cb9e0e1102b6524fc76f2bf0d778447f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:34 +0000
Subject: [PATCH 17/58] fix: spanner recreates a table without the indexes and
 foreign keys that use it

---
 pkg/ddl/spanner/diff.go | 67 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 66 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/spanner/diff.go b/pkg/ddl/spanner/diff.go
index f344c3d..aabaddb 100644
--- a/pkg/ddl/spanner/diff.go
+++ b/pkg/ddl/spanner/diff.go
@@ -102,7 +102,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
-	result.Stmts = sortStmts(before, result.Stmts)
+	result.Stmts = sortStmts(before, restoreDependents(before, after, result.Stmts))
 
 	return result, nil
 }
@@ -127,3 +127,68 @@ func findStmtByTypeAndName(stmt Stmt, stmts []Stmt) Stmt { //nolint:ireturn
 	}
 	return nil
 }
+
+// restoreDependents adds the statements that drop and restore the indexes and the foreign keys that use a table that is dropped and created again.
+func restoreDependents(before, after *DDL, stmts []Stmt) []Stmt {
+	var (
+		dropped = make(map[string]bool)
+		rebuilt = make(map[string]bool)
+		emitted = make(map[string]bool)
+	)
+	for _, stmt := range stmts {
+		switch s := stmt.(type) {
+		case *DropTableStmt:
+			dropped[s.GetNameForDiff()] = true
+		case *CreateTableStmt:
+			rebuilt[s.GetNameForDiff()] = dropped[s.GetNameForDiff()]
+		case *DropIndexStmt:
+			emitted["DROP INDEX "+s.GetNameForDiff()] = true
+		case *CreateIndexStmt:
+			emitted["CREATE INDEX "+s.GetNameForDiff()] = true
+		case *AlterTableStmt:
+			switch a := s.Action.(type) {
+			case *DropConstraint:
+				emitted["DROP "+s.Name.StringForDiff()+"\x00"+a.Name.StringForDiff()] = true
+			case *AddConstraint:
+				emitted["ADD "+s.Name.StringForDiff()+"\x00"+a.Constraint.GetName().StringForDiff()] = true
+			}
+		}
+	}
+
+	for _, stmt := range before.Stmts {
+		switch s := stmt.(type) {
+		case *CreateIndexStmt:
+			if rebuilt[s.TableName.StringForDiff()] && !emitted["DROP INDEX "+s.GetNameForDiff()] {
+				stmts = append(stmts, &DropIndexStmt{Name: s.Name})
+			}
+		case *CreateTableStmt:
+			if dropped[s.GetNameForDiff()] {
+				continue
+			}
+			for _, c := range s.Constraints {
+				if fk, ok := c.(*ForeignKeyConstraint); ok && rebuilt[fk.Ref.StringForDiff()] && !emitted["DROP "+s.GetNameForDiff()+"\x00"+fk.Name.StringForDiff()] {
+					stmts = append(stmts, &AlterTableStmt{Name: s.Name, Action: &DropConstraint{Name: fk.Name}})
+				}
+			}
+		}
+	}
+	for _, stmt := range after.Stmts {
+		switch s := stmt.(type) {
+		case *CreateIndexStmt:
+			if rebuilt[s.TableName.StringForDiff()] && !emitted["CREATE INDEX "+s.GetNameForDiff()] {
+				stmts = append(stmts, s)
+			}
+		case *CreateTableStmt:
+			if dropped[s.GetNameForDiff()] || findStmtByTypeAndName(s, before.Stmts) == nil {
+				continue
+			}
+			for _, c := range s.Constraints {
+				if fk, ok := c.(*ForeignKeyConstraint); ok && rebuilt[fk.Ref.StringForDiff()] && !emitted["ADD "+s.GetNameForDiff()+"\x00"+fk.Name.StringForDiff()] {
+					stmts = append(stmts, &AlterTableStmt{Name: s.Name, Action: &AddConstraint{Constraint: fk}})
+				}
+			}
+		}
+	}
+
+	return stmts
+}
-- 
2.43.0


From 7e00812b37925ba4015fdaff2368639681baf8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:44 +0000
Subject: [PATCH 18/58] fix: spanner creates an index of a rebuilt table before
 the table

---
 pkg/ddl/spanner/diff_order.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/spanner/diff_order.go b/pkg/ddl/spanner/diff_order.go
index 964071b..bf6041c 100644
--- a/pkg/ddl/spanner/diff_order.go
+++ b/pkg/ddl/spanner/diff_order.go
@@ -77,9 +77,9 @@ func sortStmts(before *DDL, stmts []Stmt) []Stmt {
 		case *DropTableStmt:
 			return -dropRank[s.GetNameForDiff()]
 		case *CreateTableStmt:
-			return createRank[s.GetNameForDiff()]
+			return 2 * createRank[s.GetNameForDiff()]
 		case *CreateIndexStmt:
-			return createRank[s.TableName.StringForDiff()]
+			return 2*createRank[s.TableName.StringForDiff()] + 1 // NOTE: The index of a table that is created again may precede it.
 		}
 		return 0
 	}
-- 
2.43.0


From f4d5966f19f641305b7067e419177c8c4ba74fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:58 +0000
Subject: [PATCH 19/58] fix: postgres and cockroachdb panic on a DEFAULT that
 starts with a type name

---
 pkg/ddl/cockroachdb/parser.go | 4 ++--
 pkg/ddl/postgres/parser.go    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index b095749..839066d 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -394,7 +394,7 @@ LabelDefault:
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-				def.Value.Idents = append(def.Value.Idents, NewRawIdent(p.currentToken.Literal.Str))
+				def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
 			}
@@ -442,7 +442,7 @@ LabelAs:
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-				as.Value.Idents = append(as.Value.Idents, NewRawIdent(p.currentToken.Literal.Str))
+				as.Value = as.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
 			}
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index efefd20..3d96c4f 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -369,7 +369,7 @@ LabelDefault:
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-				def.Value.Idents = append(def.Value.Idents, NewRawIdent(p.currentToken.Literal.Str))
+				def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
 			}
-- 
2.43.0


From c9d5045dab5f8085e68efd44e319f0936dc5cf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:48 +0000
Subject: [PATCH 20/58] fix: the case of keywords in expressions is reported as
 a difference

---
 pkg/ddl/cockroachdb/ddl.go         | 17 +++++++++++++++++
 pkg/ddl/cockroachdb/ddl_table.go   |  6 +++---
 pkg/ddl/mysql/ddl.go               | 17 +++++++++++++++++
 pkg/ddl/mysql/ddl_table.go         |  4 ++--
 pkg/ddl/mysql/diff_create_table.go |  2 +-
 pkg/ddl/postgres/ddl.go            | 17 +++++++++++++++++
 pkg/ddl/postgres/ddl_table.go      |  4 ++--
 pkg/ddl/spanner/ddl.go             | 19 ++++++++++++++++++-
 pkg/ddl/spanner/ddl_table.go       |  6 +++---
 9 files changed, 80 insertions(+), 12 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl.go b/pkg/ddl/cockroachdb/ddl.go
index ac7d8cd..595b1be 100644
--- a/pkg/ddl/cockroachdb/ddl.go
+++ b/pkg/ddl/cockroachdb/ddl.go
@@ -1,6 +1,8 @@
 package cockroachdb
 
 import (
+	"strings"
+
 	stringz "github.com/kunitsucom/util.go/strings"
 
 	"github.com/kunitsucom/ddlctl/pkg/ddl/internal"
@@ -79,6 +81,21 @@ func (i *Ident) StringForDiff() string {
 	return i.Name
 }
 
+// stringForDiffInExpr is StringForDiff for an ident in an expression, where keywords are case-insensitive.
+func (i *Ident) stringForDiffInExpr() string {
+	if i != nil && i.QuotationMark == "" {
+		upper := strings.ToUpper(i.Name)
+		switch upper {
+		case "AND", "OR", "IS", "LIKE", "BETWEEN", "CURRENT_TIMESTAMP", "CURRENT_DATE", "CURRENT_TIME":
+			return strings.ToLower(i.Name)
+		}
+		if lookupIdent(upper) != TOKEN_IDENT {
+			return strings.ToLower(i.Name)
+		}
+	}
+	return i.StringForDiff()
+}
+
 type ColumnIdent struct {
 	Ident *Ident
 	Order *Order //diff:ignore-line-postgres-cockroach
diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index 19ba405..f95163b 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -246,7 +246,7 @@ func (c *CheckConstraint) StringForDiff() string {
 		if i != 0 {
 			str += " "
 		}
-		str += v.StringForDiff()
+		str += v.stringForDiffInExpr()
 	}
 	return str
 }
@@ -369,7 +369,7 @@ func (d *Default) StringForDiff() string {
 			if i != 0 {
 				str += " "
 			}
-			str += v.StringForDiff()
+			str += v.stringForDiffInExpr()
 		}
 		return str
 	}
@@ -411,7 +411,7 @@ func (d *As) StringForDiff() string {
 			if i != 0 {
 				str += " "
 			}
-			str += v.StringForDiff()
+			str += v.stringForDiffInExpr()
 		}
 
 		if d.Type != "" {
diff --git a/pkg/ddl/mysql/ddl.go b/pkg/ddl/mysql/ddl.go
index bb98943..7373948 100644
--- a/pkg/ddl/mysql/ddl.go
+++ b/pkg/ddl/mysql/ddl.go
@@ -1,6 +1,8 @@
 package mysql
 
 import (
+	"strings"
+
 	stringz "github.com/kunitsucom/util.go/strings"
 
 	"github.com/kunitsucom/ddlctl/pkg/ddl/internal"
@@ -79,6 +81,21 @@ func (i *Ident) StringForDiff() string {
 	return i.Name
 }
 
+// stringForDiffInExpr is StringForDiff for an ident in an expression, where keywords are case-insensitive.
+func (i *Ident) stringForDiffInExpr() string {
+	if i != nil && i.QuotationMark == "" {
+		upper := strings.ToUpper(i.Name)
+		switch upper {
+		case "AND", "OR", "IS", "LIKE", "BETWEEN", "CURRENT_TIMESTAMP", "CURRENT_DATE", "CURRENT_TIME":
+			return strings.ToLower(i.Name)
+		}
+		if lookupIdent(upper) != TOKEN_IDENT {
+			return strings.ToLower(i.Name)
+		}
+	}
+	return i.StringForDiff()
+}
+
 type ColumnIdent struct {
 	Ident *Ident
 	Order *Order
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 3cae42a..98f6b99 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -234,7 +234,7 @@ func (c *CheckConstraint) StringForDiff() string {
 		if i != 0 {
 			str += " "
 		}
-		str += v.StringForDiff()
+		str += v.stringForDiffInExpr()
 	}
 	return str
 }
@@ -358,7 +358,7 @@ func (d *Default) StringForDiff() string {
 			if i != 0 {
 				str += " "
 			}
-			str += v.StringForDiff()
+			str += v.stringForDiffInExpr()
 		}
 		return str
 	}
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 55d8e35..c4ee994 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -255,7 +255,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 			beforeColumn.NotNull != afterColumn.NotNull ||
 			(!dropDefault && beforeColumn.Default.StringForDiff() != afterColumn.Default.StringForDiff()) ||
 			beforeColumn.AutoIncrement != afterColumn.AutoIncrement ||
-			beforeColumn.OnAction != afterColumn.OnAction ||
+			!strings.EqualFold(beforeColumn.OnAction, afterColumn.OnAction) ||
 			beforeColumn.Comment != afterColumn.Comment {
 			// ALTER TABLE table_name MODIFY column_name data_type NOT NULL;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
diff --git a/pkg/ddl/postgres/ddl.go b/pkg/ddl/postgres/ddl.go
index 9b92e59..ba6082c 100644
--- a/pkg/ddl/postgres/ddl.go
+++ b/pkg/ddl/postgres/ddl.go
@@ -1,6 +1,8 @@
 package postgres
 
 import (
+	"strings"
+
 	stringz "github.com/kunitsucom/util.go/strings"
 
 	"github.com/kunitsucom/ddlctl/pkg/ddl/internal"
@@ -79,6 +81,21 @@ func (i *Ident) StringForDiff() string {
 	return i.Name
 }
 
+// stringForDiffInExpr is StringForDiff for an ident in an expression, where keywords are case-insensitive.
+func (i *Ident) stringForDiffInExpr() string {
+	if i != nil && i.QuotationMark == "" {
+		upper := strings.ToUpper(i.Name)
+		switch upper {
+		case "AND", "OR", "IS", "LIKE", "BETWEEN", "CURRENT_TIMESTAMP", "CURRENT_DATE", "CURRENT_TIME":
+			return strings.ToLower(i.Name)
+		}
+		if lookupIdent(upper) != TOKEN_IDENT {
+			return strings.ToLower(i.Name)
+		}
+	}
+	return i.StringForDiff()
+}
+
 type ColumnIdent struct {
 	Ident *Ident
 }
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index b5ef4db..ff65dd8 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -215,7 +215,7 @@ func (c *CheckConstraint) StringForDiff() string {
 		if i != 0 {
 			str += " "
 		}
-		str += v.StringForDiff()
+		str += v.stringForDiffInExpr()
 	}
 	return str
 }
@@ -335,7 +335,7 @@ func (d *Default) StringForDiff() string {
 			if i != 0 {
 				str += " "
 			}
-			str += v.StringForDiff()
+			str += v.stringForDiffInExpr()
 		}
 		return str
 	}
diff --git a/pkg/ddl/spanner/ddl.go b/pkg/ddl/spanner/ddl.go
index cda8dbb..8bbc3e5 100644
--- a/pkg/ddl/spanner/ddl.go
+++ b/pkg/ddl/spanner/ddl.go
@@ -1,6 +1,8 @@
 package spanner
 
 import (
+	"strings"
+
 	stringz "github.com/kunitsucom/util.go/strings"
 
 	"github.com/kunitsucom/ddlctl/pkg/ddl/internal"
@@ -79,6 +81,21 @@ func (i *Ident) StringForDiff() string {
 	return i.Name
 }
 
+// stringForDiffInExpr is StringForDiff for an ident in an expression, where keywords are case-insensitive.
+func (i *Ident) stringForDiffInExpr() string {
+	if i != nil && i.QuotationMark == "" {
+		upper := strings.ToUpper(i.Name)
+		switch upper {
+		case "AND", "OR", "IS", "LIKE", "BETWEEN", "CURRENT_TIMESTAMP", "CURRENT_DATE", "CURRENT_TIME", "MAX":
+			return strings.ToLower(i.Name)
+		}
+		if lookupIdent(upper) != TOKEN_IDENT {
+			return strings.ToLower(i.Name)
+		}
+	}
+	return i.StringForDiff()
+}
+
 type ColumnIdent struct {
 	Ident *Ident
 	Order *Order //diff:ignore-line-postgres-cockroach
@@ -141,7 +158,7 @@ func (s *DataType) StringForDiff() string {
 	if s.Expr != nil && len(s.Expr.Idents) > 0 {
 		str += "("
 		for _, ident := range s.Expr.Idents {
-			str += ident.StringForDiff()
+			str += ident.stringForDiffInExpr()
 		}
 		str += ")"
 	}
diff --git a/pkg/ddl/spanner/ddl_table.go b/pkg/ddl/spanner/ddl_table.go
index 5b08038..09be649 100644
--- a/pkg/ddl/spanner/ddl_table.go
+++ b/pkg/ddl/spanner/ddl_table.go
@@ -140,7 +140,7 @@ func (c *CheckConstraint) StringForDiff() string {
 		if i != 0 {
 			str += " "
 		}
-		str += v.StringForDiff()
+		str += v.stringForDiffInExpr()
 	}
 	return str
 }
@@ -253,7 +253,7 @@ func (d *Expr) StringForDiff() string {
 		if i != 0 {
 			str += " "
 		}
-		str += v.StringForDiff()
+		str += v.stringForDiffInExpr()
 	}
 
 	return str
@@ -281,7 +281,7 @@ func (d *Default) StringForDiff() string {
 			if i != 0 {
 				str += " "
 			}
-			str += v.StringForDiff()
+			str += v.stringForDiffInExpr()
 		}
 		str += ")"
 		return str
-- 
2.43.0


From 14f18ff44c7a92c69b503383a061d3176073f2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:59 +0000
Subject: [PATCH 21/58] fix: show foreign keys with their referenced columns
 and check constraints of PostgreSQL tables

---
 pkg/show/postgres/show_create_all_tables.go | 53 ++++++++++++---------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/pkg/show/postgres/show_create_all_tables.go b/pkg/show/postgres/show_create_all_tables.go
index a531a92..7a54cad 100644
--- a/pkg/show/postgres/show_create_all_tables.go
+++ b/pkg/show/postgres/show_create_all_tables.go
@@ -44,35 +44,44 @@ LEFT JOIN
     (
         -- CONSTRAINT DEFINITIONS
         SELECT
-            tc.table_schema,
-            tc.table_name,
+            nsp.nspname AS table_schema,
+            rel.relname AS table_name,
             string_agg(
-                'CONSTRAINT ' || tc.constraint_name || ' ' || tc.constraint_type || ' (' || kcu.column_names || ')' ||
-                (CASE WHEN rc.update_rule IS NOT NULL THEN ' ON UPDATE ' || rc.update_rule ELSE '' END) ||
-                (CASE WHEN rc.delete_rule IS NOT NULL THEN ' ON DELETE ' || rc.delete_rule ELSE '' END),
-                ',' || E'\n' || '  '
+                'CONSTRAINT ' || quote_ident(con.conname) || ' ' ||
+                (CASE WHEN con.contype = 'f' THEN
+                    'FOREIGN KEY (' ||
+                    (
+                        SELECT string_agg(quote_ident(att.attname), ', ' ORDER BY array_position(con.conkey, att.attnum))
+                        FROM pg_catalog.pg_attribute att
+                        WHERE att.attrelid = con.conrelid AND att.attnum = ANY(con.conkey)
+                    ) ||
+                    ') REFERENCES ' || quote_ident(refnsp.nspname) || '.' || quote_ident(refrel.relname) || ' (' ||
+                    (
+                        SELECT string_agg(quote_ident(att.attname), ', ' ORDER BY array_position(con.confkey, att.attnum))
+                        FROM pg_catalog.pg_attribute att
+                        WHERE att.attrelid = con.confrelid AND att.attnum = ANY(con.confkey)
+                    ) || ')' ||
+                    (CASE con.confupdtype WHEN 'r' THEN ' ON UPDATE RESTRICT' WHEN 'c' THEN ' ON UPDATE CASCADE' WHEN 'n' THEN ' ON UPDATE SET NULL' WHEN 'd' THEN ' ON UPDATE SET DEFAULT' ELSE '' END) ||
+                    (CASE con.confdeltype WHEN 'r' THEN ' ON DELETE RESTRICT' WHEN 'c' THEN ' ON DELETE CASCADE' WHEN 'n' THEN ' ON DELETE SET NULL' WHEN 'd' THEN ' ON DELETE SET DEFAULT' ELSE '' END)
+                ELSE
+                    regexp_replace(pg_get_constraintdef(con.oid), ' NOT VALID$', '')
+                END),
+                ',' || E'\n' || '  ' ORDER BY con.conname
             ) AS constraint_defs
         FROM
-            information_schema.table_constraints tc
+            pg_catalog.pg_constraint con
         JOIN
-            (
-                -- CONSTRAINT COLUMN NAMES
-                SELECT
-                    kcu.table_schema,
-                    kcu.table_name,
-                    kcu.constraint_name,
-                    string_agg(kcu.column_name, ', ' ORDER BY kcu.ordinal_position) AS column_names
-                FROM
-                    information_schema.key_column_usage kcu
-                GROUP BY
-                    kcu.table_schema, kcu.table_name, kcu.constraint_name
-            ) kcu ON tc.table_schema = kcu.table_schema AND tc.table_name = kcu.table_name AND tc.constraint_name = kcu.constraint_name
+            pg_catalog.pg_class rel ON rel.oid = con.conrelid
+        JOIN
+            pg_catalog.pg_namespace nsp ON nsp.oid = rel.relnamespace
+        LEFT JOIN
+            pg_catalog.pg_class refrel ON refrel.oid = con.confrelid
         LEFT JOIN
-            information_schema.referential_constraints rc ON tc.constraint_name = rc.constraint_name
+            pg_catalog.pg_namespace refnsp ON refnsp.oid = refrel.relnamespace
         WHERE
-            tc.constraint_type IN ('PRIMARY KEY', 'FOREIGN KEY', 'UNIQUE')
+            con.contype IN ('p', 'u', 'f', 'c')
         GROUP BY
-            tc.table_schema, tc.table_name
+            nsp.nspname, rel.relname
     ) cnst ON clmn.table_schema = cnst.table_schema AND clmn.table_name = cnst.table_name
 ORDER BY
     clmn.table_schema, clmn.table_name
-- 
2.43.0


From ba8b9375c914c4e45d056e946ad5b841fb4e75b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:59 +0000
Subject: [PATCH 22/58] fix: do not show views as tables

---
 pkg/show/mysql/show_create_all_tables.go    | 2 +-
 pkg/show/postgres/show_create_all_tables.go | 2 ++
 pkg/show/spanner/show_create_all_tables.go  | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/show/mysql/show_create_all_tables.go b/pkg/show/mysql/show_create_all_tables.go
index a78e141..6c1c942 100644
--- a/pkg/show/mysql/show_create_all_tables.go
+++ b/pkg/show/mysql/show_create_all_tables.go
@@ -52,7 +52,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 	}
 
 	tableNames := new([]*TableName)
-	tableNamesQuery := "SELECT TABLE_NAME FROM information_schema.TABLES WHERE TABLE_SCHEMA = " + databaseQuoted
+	tableNamesQuery := "SELECT TABLE_NAME FROM information_schema.TABLES WHERE TABLE_TYPE = 'BASE TABLE' AND TABLE_SCHEMA = " + databaseQuoted
 	if err := dbz.QueryContext(ctx, tableNames, tableNamesQuery); err != nil {
 		return "", apperr.Errorf("dbz.QueryContext: q=%s: %w", tableNamesQuery, err)
 	}
diff --git a/pkg/show/postgres/show_create_all_tables.go b/pkg/show/postgres/show_create_all_tables.go
index 7a54cad..a35d82a 100644
--- a/pkg/show/postgres/show_create_all_tables.go
+++ b/pkg/show/postgres/show_create_all_tables.go
@@ -35,6 +35,8 @@ FROM
             ) AS column_defs
         FROM
             information_schema.columns c
+        JOIN
+            information_schema.tables t ON t.table_schema = c.table_schema AND t.table_name = c.table_name AND t.table_type = 'BASE TABLE'
         WHERE
             c.table_schema = '%s'
         GROUP BY
diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index f72f9ed..53f4a0b 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -18,7 +18,7 @@ type sqlQueryerContext = interface {
 }
 
 const (
-	querySelectTableName = `SELECT TABLE_NAME FROM INFORMATION_SCHEMA.TABLES WHERE TABLE_SCHEMA = '';`
+	querySelectTableName = `SELECT TABLE_NAME FROM INFORMATION_SCHEMA.TABLES WHERE TABLE_SCHEMA = '' AND TABLE_TYPE = 'BASE TABLE';`
 )
 
 type informationSchemaTable struct {
-- 
2.43.0


From 818d99227e6272dd6619219e2943d422a73b9aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:59 +0000
Subject: [PATCH 23/58] fix: quote names that need it when showing PostgreSQL
 tables

---
 pkg/show/postgres/show_create_all_tables.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/show/postgres/show_create_all_tables.go b/pkg/show/postgres/show_create_all_tables.go
index a35d82a..4a0a871 100644
--- a/pkg/show/postgres/show_create_all_tables.go
+++ b/pkg/show/postgres/show_create_all_tables.go
@@ -17,7 +17,7 @@ type sqlQueryerContext = interface {
 const (
 	formatShowCreateAllTables = `-- CREATE TABLE
 SELECT
-    'CREATE TABLE ' || clmn.table_schema || '.' || clmn.table_name || ' (' || E'\n' || '  ' ||
+    'CREATE TABLE ' || quote_ident(clmn.table_schema) || '.' || quote_ident(clmn.table_name) || ' (' || E'\n' || '  ' ||
     clmn.column_defs ||
     (CASE WHEN cnst.constraint_defs IS NOT NULL THEN ',' || E'\n' || '  ' || cnst.constraint_defs ELSE '' END) || E'\n' || ');' AS create_statement
 FROM
@@ -27,7 +27,7 @@ FROM
             c.table_schema,
             c.table_name,
             string_agg(
-                c.column_name || ' ' || c.data_type ||
+                quote_ident(c.column_name) || ' ' || c.data_type ||
                 (CASE WHEN c.character_maximum_length IS NOT NULL THEN '(' || c.character_maximum_length || ')' ELSE '' END) ||
                 (CASE WHEN c.is_nullable = 'NO' THEN ' NOT NULL' ELSE '' END) ||
                 (CASE WHEN c.column_default IS NOT NULL THEN ' DEFAULT ' || c.column_default ELSE '' END),
-- 
2.43.0


From 15c3e9c8fd7cafb9b0a4a5a53253f0b74c245173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:59 +0000
Subject: [PATCH 24/58] fix: show PostgreSQL indexes that share their name with
 a foreign key or check

---
 pkg/show/postgres/show_create_all_tables.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/show/postgres/show_create_all_tables.go b/pkg/show/postgres/show_create_all_tables.go
index 4a0a871..a906bb6 100644
--- a/pkg/show/postgres/show_create_all_tables.go
+++ b/pkg/show/postgres/show_create_all_tables.go
@@ -112,7 +112,7 @@ WHERE
     schemaname = '%s' AND indexname NOT IN (
         SELECT constraint_name
         FROM information_schema.table_constraints
-        WHERE table_schema = '%s'
+        WHERE constraint_type IN ('PRIMARY KEY', 'UNIQUE') AND table_schema = '%s'
     )
 ;
 `
-- 
2.43.0


From 4d4d02bb2193e3da6544d656322ee8a48bb38b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:07 +0000
Subject: [PATCH 25/58] fix: show the precision of PostgreSQL numeric and
 timestamp columns

---
 pkg/show/postgres/show_create_all_tables.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/show/postgres/show_create_all_tables.go b/pkg/show/postgres/show_create_all_tables.go
index a906bb6..0727524 100644
--- a/pkg/show/postgres/show_create_all_tables.go
+++ b/pkg/show/postgres/show_create_all_tables.go
@@ -27,8 +27,15 @@ FROM
             c.table_schema,
             c.table_name,
             string_agg(
-                quote_ident(c.column_name) || ' ' || c.data_type ||
+                quote_ident(c.column_name) || ' ' ||
+                (CASE
+                    WHEN c.data_type = 'timestamp without time zone' THEN 'timestamp'
+                    WHEN c.data_type = 'timestamp with time zone' AND c.datetime_precision <> 6 THEN 'timestamptz'
+                    ELSE c.data_type
+                END) ||
                 (CASE WHEN c.character_maximum_length IS NOT NULL THEN '(' || c.character_maximum_length || ')' ELSE '' END) ||
+                (CASE WHEN c.data_type = 'numeric' AND c.numeric_precision IS NOT NULL THEN '(' || c.numeric_precision || ', ' || c.numeric_scale || ')' ELSE '' END) ||
+                (CASE WHEN c.data_type LIKE 'timestamp %%' AND c.datetime_precision <> 6 THEN '(' || c.datetime_precision || ')' ELSE '' END) ||
                 (CASE WHEN c.is_nullable = 'NO' THEN ' NOT NULL' ELSE '' END) ||
                 (CASE WHEN c.column_default IS NOT NULL THEN ' DEFAULT ' || c.column_default ELSE '' END),
                 ',' || E'\n' || '  ' ORDER BY c.ordinal_position
-- 
2.43.0


From 455d23bf9df7d5f24b17f4de2c5633d5acefccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:34 +0000
Subject: [PATCH 26/58] fix: show Spanner indexes with their own columns, sort
 orders, quoted names and only of the shown tables

---
 pkg/show/spanner/show_create_all_tables.go | 46 +++++++++++++++-------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index 53f4a0b..5b0da65 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -35,7 +35,7 @@ type informationSchemaTableOptionRowDeletionPolicy struct {
 }
 
 const (
-	queryShowCreateAllTables = `SELECT TABLE_NAME, COLUMN_NAME, COLUMN_DEFAULT, IS_NULLABLE, SPANNER_TYPE FROM INFORMATION_SCHEMA.COLUMNS WHERE TABLE_NAME = ? ORDER BY TABLE_NAME, ORDINAL_POSITION;`
+	queryShowCreateAllTables = `SELECT TABLE_NAME, COLUMN_NAME, COLUMN_DEFAULT, IS_NULLABLE, SPANNER_TYPE FROM INFORMATION_SCHEMA.COLUMNS WHERE TABLE_SCHEMA = '' AND TABLE_NAME = ? ORDER BY TABLE_NAME, ORDINAL_POSITION;`
 )
 
 type informationSchemaColumn struct {
@@ -47,7 +47,7 @@ type informationSchemaColumn struct {
 }
 
 func (c *informationSchemaColumn) String() string {
-	d := fmt.Sprintf("%s %s", c.ColumnName, c.SpannerType)
+	d := fmt.Sprintf("%s %s", quoteIdent(c.ColumnName), c.SpannerType)
 	if c.ColumnDefault != nil {
 		d += fmt.Sprintf(" DEFAULT (%s)", *c.ColumnDefault)
 	}
@@ -58,7 +58,7 @@ func (c *informationSchemaColumn) String() string {
 }
 
 const (
-	queryShowTableColumnOptions = `SELECT COLUMN_NAME, OPTION_NAME, OPTION_VALUE FROM INFORMATION_SCHEMA.COLUMN_OPTIONS WHERE TABLE_NAME = ?;`
+	queryShowTableColumnOptions = `SELECT COLUMN_NAME, OPTION_NAME, OPTION_VALUE FROM INFORMATION_SCHEMA.COLUMN_OPTIONS WHERE TABLE_SCHEMA = '' AND TABLE_NAME = ?;`
 )
 
 type informationSchemaColumnOption struct {
@@ -84,9 +84,11 @@ FROM
 INNER JOIN
     INFORMATION_SCHEMA.INDEX_COLUMNS AS ic
 ON
-    i.TABLE_NAME = ic.TABLE_NAME
+    i.TABLE_SCHEMA = ic.TABLE_SCHEMA
+    AND i.TABLE_NAME = ic.TABLE_NAME
 WHERE
-    i.TABLE_NAME = ?
+    i.TABLE_SCHEMA = ''
+    AND i.TABLE_NAME = ?
     AND i.INDEX_TYPE = "PRIMARY_KEY"
     AND ic.INDEX_TYPE = "PRIMARY_KEY"
 ORDER BY
@@ -106,7 +108,7 @@ type informationSchemaPrimaryKey struct {
 }
 
 const (
-	querySelectIndexes = `SELECT DISTINCT INDEX_NAME, IS_UNIQUE FROM INFORMATION_SCHEMA.INDEXES WHERE TABLE_NAME = ? AND INDEX_TYPE != "PRIMARY_KEY";`
+	querySelectIndexes = `SELECT DISTINCT INDEX_NAME, IS_UNIQUE FROM INFORMATION_SCHEMA.INDEXES WHERE TABLE_SCHEMA = '' AND TABLE_NAME = ? AND INDEX_TYPE != "PRIMARY_KEY";`
 )
 
 type informationSchemaIndexName struct {
@@ -127,11 +129,14 @@ FROM
 INNER JOIN
     INFORMATION_SCHEMA.INDEX_COLUMNS AS ic
 ON
-    i.TABLE_NAME = ic.TABLE_NAME
+    i.TABLE_SCHEMA = ic.TABLE_SCHEMA
+    AND i.TABLE_NAME = ic.TABLE_NAME
+    AND i.INDEX_NAME = ic.INDEX_NAME
 WHERE
-    i.TABLE_NAME = ? 
-    AND i.INDEX_TYPE != "PRIMARY_KEY" 
-    AND ic.INDEX_NAME != "PRIMARY_KEY" 
+    i.TABLE_SCHEMA = ''
+    AND i.TABLE_NAME = ?
+    AND i.INDEX_NAME = ?
+    AND i.INDEX_TYPE != "PRIMARY_KEY"
 ORDER BY
     i.TABLE_NAME, ic.INDEX_NAME, ic.ORDINAL_POSITION
 ;
@@ -148,6 +153,17 @@ type informationSchemaIndex struct {
 	OrdinalPosition int    `db:"ORDINAL_POSITION"`
 }
 
+func quoteIdent(name string) string {
+	return "`" + name + "`"
+}
+
+func keyPart(columnName, columnOrdering string) string {
+	if columnOrdering == "DESC" {
+		return quoteIdent(columnName) + " DESC"
+	}
+	return quoteIdent(columnName)
+}
+
 type showCreateAllTablesConfig struct {
 	schema string
 }
@@ -185,7 +201,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 	tablesLastIndex := len(tables) - 1
 	for tblIdx, tbl := range tables {
 		// TABLE
-		d := fmt.Sprintf("CREATE TABLE %s (\n", tbl.TableName)
+		d := fmt.Sprintf("CREATE TABLE %s (\n", quoteIdent(tbl.TableName))
 
 		columns := make([]*informationSchemaColumn, 0)
 		if err := dbz.QueryContext(ctx, &columns, queryShowCreateAllTables, tbl.TableName); err != nil {
@@ -236,7 +252,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			d += " PRIMARY KEY ("
 			primaryKeyColumnsLastIndex := len(primaryKeyColumns) - 1
 			for i, pk := range primaryKeyColumns {
-				d += pk.ColumnName
+				d += keyPart(pk.ColumnName, pk.ColumnOrdering)
 				if i != primaryKeyColumnsLastIndex {
 					d += ", "
 				}
@@ -268,7 +284,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 
 		for _, indexName := range indexNames {
 			indexes := make([]*informationSchemaIndex, 0)
-			if err := dbz.QueryContext(ctx, &indexes, queryShowIndexes, tbl.TableName); err != nil {
+			if err := dbz.QueryContext(ctx, &indexes, queryShowIndexes, tbl.TableName, indexName.IndexName); err != nil {
 				return "", apperr.Errorf("dbz.QueryContext: %w", err)
 			}
 
@@ -276,11 +292,11 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			if indexName.IsUnique {
 				d += "UNIQUE "
 			}
-			d += fmt.Sprintf("INDEX %s ON %s (", indexName.IndexName, tbl.TableName)
+			d += fmt.Sprintf("INDEX %s ON %s (", quoteIdent(indexName.IndexName), quoteIdent(tbl.TableName))
 
 			indexesLastIndex := len(indexes) - 1
 			for i, idx := range indexes {
-				d += idx.ColumnName
+				d += keyPart(idx.ColumnName, idx.ColumnOrdering)
 				if i != indexesLastIndex {
 					d += ", "
 				}
-- 
2.43.0


From 9e552b7d389dda821ce29dd3680a22b5397c42aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:54 +0000
Subject: [PATCH 27/58] fix: backslash-escaped quotes end MySQL and Spanner
 literals

---
 pkg/ddl/mysql/lexar.go              |  4 ++++
 pkg/ddl/spanner/lexar.go            |  4 ++++
 pkg/internal/util/remove_comment.go | 34 -----------------------------
 3 files changed, 8 insertions(+), 34 deletions(-)
 delete mode 100644 pkg/internal/util/remove_comment.go

diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index ff39ad1..8a4bc61 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -420,6 +420,10 @@ func (l *Lexer) readQuotedLiteral(quote byte) string {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
+		if l.ch == '\\' && quote != '`' { // backslash escape
+			l.readChar()
+			continue
+		}
 		if l.ch == quote && l.peekChar() == quote { // escaped quote
 			l.readChar()
 			continue
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index 0e76d20..d812430 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -376,6 +376,10 @@ func (l *Lexer) readQuotedLiteral(quote byte) string {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
+		if l.ch == '\\' && quote != '`' { // backslash escape
+			l.readChar()
+			continue
+		}
 		if l.ch == quote && l.peekChar() == quote { // escaped quote
 			l.readChar()
 			continue
diff --git a/pkg/internal/util/remove_comment.go b/pkg/internal/util/remove_comment.go
deleted file mode 100644
index bcfb28e..0000000
--- a/pkg/internal/util/remove_comment.go
+++ /dev/null
@@ -1,34 +0,0 @@
-package util
-
-import (
-	"bufio"
-	"strings"
-)
-
-func RemoveCommentsAndEmptyLines(prefix, input string) string {
-	var result strings.Builder
-	scanner := bufio.NewScanner(strings.NewReader(input))
-
-	for scanner.Scan() {
-		line := scanner.Text()
-		trimmedLine := strings.TrimSpace(line)
-
-		// Skip if the entire line is a comment
-		if strings.HasPrefix(trimmedLine, prefix) {
-			continue
-		}
-
-		// Process comments in the line
-		if idx := strings.Index(line, prefix); idx != -1 {
-			line = strings.TrimSpace(line[:idx])
-		}
-
-		// Add only if it is not an empty line
-		if line != "" {
-			result.WriteString(line)
-			result.WriteString("\n")
-		}
-	}
-
-	return result.String()
-}
-- 
2.43.0


From 08aba41ba0e46e7c0c72753eb5466a4cf8207245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:54 +0000
Subject: [PATCH 28/58] fix: apply breaks statements at semicolons, line breaks
 and comment marks inside literals and loses long lines

---
 pkg/ddlctl/apply/ddlctl_apply.go      | 17 +++-----
 pkg/internal/util/split_statements.go | 56 +++++++++++++++++++++++++++
 2 files changed, 61 insertions(+), 12 deletions(-)
 create mode 100644 pkg/internal/util/split_statements.go

diff --git a/pkg/ddlctl/apply/ddlctl_apply.go b/pkg/ddlctl/apply/ddlctl_apply.go
index d775fa0..6a665e2 100644
--- a/pkg/ddlctl/apply/ddlctl_apply.go
+++ b/pkg/ddlctl/apply/ddlctl_apply.go
@@ -13,7 +13,6 @@ import (
 	sqlz "github.com/kunitsucom/util.go/database/sql"
 	errorz "github.com/kunitsucom/util.go/errors"
 	"github.com/kunitsucom/util.go/retry"
-	stringz "github.com/kunitsucom/util.go/strings"
 
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
 	"github.com/kunitsucom/ddlctl/pkg/ddl"
@@ -119,6 +118,7 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
 			ctx,
 			db,
 			ddlStr,
+			true,
 			func(err error) bool {
 				return errorz.Contains(err, "already exists") || errorz.Contains(err, "Duplicate column name")
 			},
@@ -131,6 +131,7 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
 			ctx,
 			db,
 			ddlStr,
+			false,
 			func(_ error) bool { return false }, // TODO: handle error
 			func(_ error) bool { return false }, // TODO: handle error
 		); err != nil {
@@ -152,12 +153,7 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
 				return apperr.Errorf("conn.ExecContext: q=%s: %w", q, err)
 			}
 		}
-		commentTrimmedDDL := stringz.ReadLine(ddlStr, "\n", stringz.ReadLineFuncRemoveCommentLine("--"))
-		for _, q := range strings.Split(commentTrimmedDDL, ";\n") {
-			if len(q) == 0 {
-				// skip empty query
-				continue
-			}
+		for _, q := range util.SplitStatements("--", ddlStr, true) {
 			if _, err := conn.ExecContext(ctx, q); err != nil {
 				return apperr.Errorf("conn.ExecContext: q=%s: %w", q, err)
 			}
@@ -196,19 +192,16 @@ func splitExec(
 		ExecContext(ctx context.Context, query string, args ...any) (sql.Result, error)
 	},
 	ddlStr string,
+	backslashEscapes bool,
 	notErrorNotLogFunc func(err error) bool,
 	errorNotLogFunc func(err error) bool,
 ) error {
-	ddls := strings.Split(util.RemoveCommentsAndEmptyLines("--", ddlStr), ";\n")
+	ddls := util.SplitStatements("--", ddlStr, backslashEscapes)
 	const interval = 500 * time.Millisecond
 	retryer := retry.New(ctx, retry.NewConfig(interval, interval, retry.WithMaxRetries(len(ddls))))
 	if err := retryer.Do(func(ctx context.Context) error {
 		var outerErr error
 		for _, q := range ddls {
-			if len(q) == 0 {
-				// skip empty query
-				continue
-			}
 			if _, err := db.ExecContext(ctx, q); err != nil {
 				// If the error is one of the following, do not error and not log. go to the next DDL;
 				if notErrorNotLogFunc(err) {
diff --git a/pkg/internal/util/split_statements.go b/pkg/internal/util/split_statements.go
new file mode 100644
index 0000000..a8fcbb7
--- /dev/null
+++ b/pkg/internal/util/split_statements.go
@@ -0,0 +1,56 @@
+package util
+
+import "strings"
+
+// SplitStatements splits input into its statements. Comments that start with commentPrefix and empty statements are left out;
+// semicolons, line breaks and comment prefixes in quoted text belong to the statement.
+//
+//nolint:cyclop
+func SplitStatements(commentPrefix, input string, backslashEscapes bool) []string {
+	var statements []string
+	var stmt strings.Builder
+
+	flush := func() {
+		if s := strings.TrimSpace(stmt.String()); s != "" {
+			statements = append(statements, s)
+		}
+		stmt.Reset()
+	}
+
+	for i := 0; i < len(input); {
+		switch c := input[i]; {
+		case c == '\'' || c == '"' || c == '`':
+			end := endOfQuoted(input, i, backslashEscapes && c != '`')
+			stmt.WriteString(input[i:end])
+			i = end
+		case strings.HasPrefix(input[i:], commentPrefix):
+			for i < len(input) && input[i] != '\n' {
+				i++
+			}
+		case c == ';':
+			flush()
+			i++
+		default:
+			stmt.WriteByte(c)
+			i++
+		}
+	}
+	flush()
+
+	return statements
+}
+
+// endOfQuoted returns the index after the quoted text that starts at start.
+// A doubled quote needs no care: it ends one quoted text and starts the next.
+func endOfQuoted(input string, start int, backslashEscapes bool) int {
+	quote := input[start]
+	for i := start + 1; i < len(input); i++ {
+		switch {
+		case backslashEscapes && input[i] == '\\':
+			i++
+		case input[i] == quote:
+			return i + 1
+		}
+	}
+	return len(input)
+}
-- 
2.43.0


From 3dedd9e9c047cd693167d3377b980fa1130b0197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:09 +0000
Subject: [PATCH 29/58] fix: apply reports success when closing the connection
 fails

---
 pkg/ddlctl/apply/ddlctl_apply.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/ddlctl/apply/ddlctl_apply.go b/pkg/ddlctl/apply/ddlctl_apply.go
index 6a665e2..b153a9e 100644
--- a/pkg/ddlctl/apply/ddlctl_apply.go
+++ b/pkg/ddlctl/apply/ddlctl_apply.go
@@ -92,7 +92,7 @@ Enter a value: `
 }
 
 //nolint:cyclop,funlen,gocognit,gocyclo
-func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
+func Apply(ctx context.Context, dialect, dsn, ddlStr string) (err error) {
 	driverName := func() string {
 		switch dialect {
 		case ddlcrdb.Dialect:
@@ -138,7 +138,8 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
 			return apperr.Errorf("splitExec: %w", err)
 		}
 	case ddlspanner.DriverName:
-		conn, err := db.Conn(ctx)
+		var conn *sql.Conn
+		conn, err = db.Conn(ctx)
 		if err != nil {
 			return apperr.Errorf("db.Conn: %w", err)
 		}
-- 
2.43.0


From 5dfb0eca7c5546c466b814606af9935e3089611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:09 +0000
Subject: [PATCH 30/58] fix: a retry of apply executes statements again that
 have succeeded, or out of order

---
 pkg/ddlctl/apply/ddlctl_apply.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/ddlctl/apply/ddlctl_apply.go b/pkg/ddlctl/apply/ddlctl_apply.go
index b153a9e..e571cf6 100644
--- a/pkg/ddlctl/apply/ddlctl_apply.go
+++ b/pkg/ddlctl/apply/ddlctl_apply.go
@@ -202,7 +202,8 @@ func splitExec(
 	retryer := retry.New(ctx, retry.NewConfig(interval, interval, retry.WithMaxRetries(len(ddls))))
 	if err := retryer.Do(func(ctx context.Context) error {
 		var outerErr error
-		for _, q := range ddls {
+		var pending []string // a statement that has succeeded must not be executed again
+		for i, q := range ddls {
 			if _, err := db.ExecContext(ctx, q); err != nil {
 				// If the error is one of the following, do not error and not log. go to the next DDL;
 				if notErrorNotLogFunc(err) {
@@ -211,15 +212,19 @@ func splitExec(
 
 				err = apperr.Errorf("db.ExecContext: q=%s: %w", q, err)
 				outerErr = err
+				pending = append(pending, q)
 				// If the error is one of the following, error but not log. go to the next DDL;
 				if errorNotLogFunc(err) {
 					continue
 				}
 
-				// If the error is not one of the above, error and log. go to the next DDL;
+				// If the error is not one of the above, error and log. the following DDLs may build on this one, so that they have to wait;
 				logs.Warn.Printf(err.Error())
+				pending = append(pending, ddls[i+1:]...)
+				break
 			}
 		}
+		ddls = pending
 		if outerErr != nil {
 			return outerErr
 		}
-- 
2.43.0


From ab742249844c2666b28e71115c3bcf2432045ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:04 +0000
Subject: [PATCH 31/58] fix: an inline PRIMARY KEY is compared as if its column
 were nullable

---
 pkg/ddl/cockroachdb/diff_create_table.go | 23 +++++++++++++++++++++--
 pkg/ddl/mysql/diff_create_table.go       | 23 +++++++++++++++++++++--
 pkg/ddl/postgres/diff_create_table.go    | 23 +++++++++++++++++++++--
 3 files changed, 63 insertions(+), 6 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index 0e7cc4f..e694de6 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -241,7 +241,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 		}
 
 		switch {
-		case beforeColumn.NotNull && !afterColumn.NotNull:
+		case before.isNotNull(beforeColumn) && !after.isNotNull(afterColumn):
 			// ALTER TABLE table_name ALTER COLUMN column_name DROP NOT NULL;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(),
@@ -250,7 +250,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 					Name: afterColumn.Name,
 				},
 			})
-		case !beforeColumn.NotNull && afterColumn.NotNull:
+		case !before.isNotNull(beforeColumn) && after.isNotNull(afterColumn):
 			// ALTER TABLE table_name ALTER COLUMN column_name SET NOT NULL;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(),
@@ -274,6 +274,25 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 	}
 }
 
+// isNotNull reports whether column rejects NULL: the columns of a primary key do so without being declared NOT NULL.
+func (s *CreateTableStmt) isNotNull(column *Column) bool {
+	if column.NotNull {
+		return true
+	}
+	for _, constraint := range s.Constraints {
+		pk, ok := constraint.(*PrimaryKeyConstraint)
+		if !ok {
+			continue
+		}
+		for _, pkColumn := range pk.Columns {
+			if pkColumn.Ident.Name == column.Name.Name {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func onlyLeftColumn(left, right []*Column) []*Column {
 	onlyLeftColumns := make([]*Column, 0)
 	for _, leftColumn := range left {
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index c4ee994..2216839 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -252,7 +252,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 		if beforeColumn.DataType.StringForDiff() != afterColumn.DataType.StringForDiff() ||
 			beforeColumn.CharacterSet.StringForDiff() != afterColumn.CharacterSet.StringForDiff() ||
 			beforeColumn.Collate.StringForDiff() != afterColumn.Collate.StringForDiff() ||
-			beforeColumn.NotNull != afterColumn.NotNull ||
+			before.isNotNull(beforeColumn) != after.isNotNull(afterColumn) ||
 			(!dropDefault && beforeColumn.Default.StringForDiff() != afterColumn.Default.StringForDiff()) ||
 			beforeColumn.AutoIncrement != afterColumn.AutoIncrement ||
 			!strings.EqualFold(beforeColumn.OnAction, afterColumn.OnAction) ||
@@ -266,7 +266,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 					DataType:      afterColumn.DataType,
 					CharacterSet:  afterColumn.CharacterSet,
 					Collate:       afterColumn.Collate,
-					NotNull:       afterColumn.NotNull,
+					NotNull:       after.isNotNull(afterColumn),
 					AutoIncrement: afterColumn.AutoIncrement,
 					Default:       afterColumn.Default,
 					OnAction:      afterColumn.OnAction,
@@ -299,6 +299,25 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 	}
 }
 
+// isNotNull reports whether column rejects NULL: the columns of a primary key do so without being declared NOT NULL.
+func (s *CreateTableStmt) isNotNull(column *Column) bool {
+	if column.NotNull {
+		return true
+	}
+	for _, constraint := range s.Constraints {
+		pk, ok := constraint.(*PrimaryKeyConstraint)
+		if !ok {
+			continue
+		}
+		for _, pkColumn := range pk.Columns {
+			if pkColumn.Ident.Name == column.Name.Name {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func onlyLeftColumn(left, right []*Column) []*Column {
 	onlyLeftColumns := make([]*Column, 0)
 	for _, leftColumn := range left {
diff --git a/pkg/ddl/postgres/diff_create_table.go b/pkg/ddl/postgres/diff_create_table.go
index baaeab2..7fc1eab 100644
--- a/pkg/ddl/postgres/diff_create_table.go
+++ b/pkg/ddl/postgres/diff_create_table.go
@@ -192,7 +192,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 		}
 
 		switch {
-		case beforeColumn.NotNull && !afterColumn.NotNull:
+		case before.isNotNull(beforeColumn) && !after.isNotNull(afterColumn):
 			// ALTER TABLE table_name ALTER COLUMN column_name DROP NOT NULL;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(),
@@ -201,7 +201,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 					Name: afterColumn.Name,
 				},
 			})
-		case !beforeColumn.NotNull && afterColumn.NotNull:
+		case !before.isNotNull(beforeColumn) && after.isNotNull(afterColumn):
 			// ALTER TABLE table_name ALTER COLUMN column_name SET NOT NULL;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(),
@@ -225,6 +225,25 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 	}
 }
 
+// isNotNull reports whether column rejects NULL: the columns of a primary key do so without being declared NOT NULL.
+func (s *CreateTableStmt) isNotNull(column *Column) bool {
+	if column.NotNull {
+		return true
+	}
+	for _, constraint := range s.Constraints {
+		pk, ok := constraint.(*PrimaryKeyConstraint)
+		if !ok {
+			continue
+		}
+		for _, pkColumn := range pk.Columns {
+			if pkColumn.Ident.Name == column.Name.Name {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func onlyLeftColumn(left, right []*Column) []*Column {
 	onlyLeftColumns := make([]*Column, 0)
 	for _, leftColumn := range left {
-- 
2.43.0


From 88cb85ec6b088e460861a4458dbaf6f79d97e0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:23 +0000
Subject: [PATCH 32/58] fix: parentheses around the whole of a CHECK are
 reported as a difference

---
 pkg/ddl/cockroachdb/ddl_table.go | 28 +++++++++++++++++++++++++++-
 pkg/ddl/mysql/ddl_table.go       | 28 +++++++++++++++++++++++++++-
 pkg/ddl/postgres/ddl_table.go    | 28 +++++++++++++++++++++++++++-
 3 files changed, 81 insertions(+), 3 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index f95163b..60217d8 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -242,7 +242,7 @@ func (c *CheckConstraint) StringForDiff() string {
 		str += "CONSTRAINT " + c.Name.StringForDiff() + " "
 	}
 	str += "CHECK "
-	for i, v := range c.Expr.Idents {
+	for i, v := range c.Expr.withoutOuterParens() {
 		if i != 0 {
 			str += " "
 		}
@@ -316,6 +316,32 @@ func (d *Expr) Append(idents ...*Ident) *Expr {
 	return d
 }
 
+// withoutOuterParens returns the idents of the expression without parentheses around the whole of it:
+// databases add some when they report the expression.
+func (d *Expr) withoutOuterParens() []*Ident {
+	idents := d.Idents
+	for len(idents) > 1 && idents[0].Name == "(" && idents[0].QuotationMark == "" {
+		depth := 0
+		for i, v := range idents {
+			switch {
+			case v.QuotationMark != "":
+			case v.Name == "(":
+				depth++
+			case v.Name == ")":
+				depth--
+			}
+			if depth == 0 && i < len(idents)-1 {
+				return idents
+			}
+		}
+		if depth != 0 {
+			return idents
+		}
+		idents = idents[1 : len(idents)-1]
+	}
+	return idents
+}
+
 type Expr struct {
 	Idents []*Ident
 }
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 98f6b99..719f917 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -230,7 +230,7 @@ func (c *CheckConstraint) StringForDiff() string {
 		str += "CONSTRAINT " + c.Name.StringForDiff() + " "
 	}
 	str += "CHECK "
-	for i, v := range c.Expr.Idents {
+	for i, v := range c.Expr.withoutOuterParens() {
 		if i != 0 {
 			str += " "
 		}
@@ -307,6 +307,32 @@ func (d *Expr) Append(idents ...*Ident) *Expr {
 	return d
 }
 
+// withoutOuterParens returns the idents of the expression without parentheses around the whole of it:
+// databases add some when they report the expression.
+func (d *Expr) withoutOuterParens() []*Ident {
+	idents := d.Idents
+	for len(idents) > 1 && idents[0].Name == "(" && idents[0].QuotationMark == "" {
+		depth := 0
+		for i, v := range idents {
+			switch {
+			case v.QuotationMark != "":
+			case v.Name == "(":
+				depth++
+			case v.Name == ")":
+				depth--
+			}
+			if depth == 0 && i < len(idents)-1 {
+				return idents
+			}
+		}
+		if depth != 0 {
+			return idents
+		}
+		idents = idents[1 : len(idents)-1]
+	}
+	return idents
+}
+
 type Expr struct {
 	Idents []*Ident
 }
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index ff65dd8..72152f1 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -211,7 +211,7 @@ func (c *CheckConstraint) StringForDiff() string {
 		str += "CONSTRAINT " + c.Name.StringForDiff() + " "
 	}
 	str += "CHECK "
-	for i, v := range c.Expr.Idents {
+	for i, v := range c.Expr.withoutOuterParens() {
 		if i != 0 {
 			str += " "
 		}
@@ -283,6 +283,32 @@ func (d *Expr) Append(idents ...*Ident) *Expr {
 	return d
 }
 
+// withoutOuterParens returns the idents of the expression without parentheses around the whole of it:
+// databases add some when they report the expression.
+func (d *Expr) withoutOuterParens() []*Ident {
+	idents := d.Idents
+	for len(idents) > 1 && idents[0].Name == "(" && idents[0].QuotationMark == "" {
+		depth := 0
+		for i, v := range idents {
+			switch {
+			case v.QuotationMark != "":
+			case v.Name == "(":
+				depth++
+			case v.Name == ")":
+				depth--
+			}
+			if depth == 0 && i < len(idents)-1 {
+				return idents
+			}
+		}
+		if depth != 0 {
+			return idents
+		}
+		idents = idents[1 : len(idents)-1]
+	}
+	return idents
+}
+
 type Expr struct {
 	Idents []*Ident
 }
-- 
2.43.0


From 92169af5d5b4829303765fef60914a8f21475657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:47 +0000
Subject: [PATCH 33/58] fix: an explicit NO ACTION of a foreign key is reported
 as a difference

---
 pkg/ddl/cockroachdb/diff_create_table.go | 13 ++++++++++++-
 pkg/ddl/mysql/diff_create_table.go       | 12 +++++++++++-
 pkg/ddl/postgres/diff_create_table.go    | 13 ++++++++++++-
 3 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index e694de6..6f4a254 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -2,6 +2,7 @@ package cockroachdb
 
 import (
 	"reflect"
+	"strings"
 
 	"github.com/kunitsucom/util.go/exp/diff/simplediff"
 
@@ -106,7 +107,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 	for _, beforeConstraint := range before.Constraints {
 		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
 		if afterConstraint != nil {
-			if beforeConstraint.StringForDiff() != afterConstraint.StringForDiff() {
+			if constraintForDiff(beforeConstraint) != constraintForDiff(afterConstraint) {
 				// NOTE: An index and a constraint may replace each other under the same name.                                 //diff:ignore-line-postgres-cockroach
 				switch beforeConstraint.(type) { //diff:ignore-line-postgres-cockroach
 				case *IndexConstraint: //diff:ignore-line-postgres-cockroach
@@ -324,6 +325,16 @@ func onlyLeftConstraint(left, right Constraints) []Constraint {
 	return onlyLeftConstraints
 }
 
+// constraintForDiff is StringForDiff without NO ACTION, which is the default of foreign keys.
+func constraintForDiff(constraint Constraint) string {
+	if fk, ok := constraint.(*ForeignKeyConstraint); ok {
+		copied := *fk
+		copied.OnAction = strings.TrimSpace(strings.NewReplacer("ON DELETE NO ACTION", "", "ON UPDATE NO ACTION", "").Replace(fk.OnAction))
+		return copied.StringForDiff()
+	}
+	return constraint.StringForDiff()
+}
+
 func findConstraintByName(name string, constraints []Constraint) Constraint { //nolint:ireturn
 	for _, constraint := range constraints {
 		if constraint.GetName().Name == name {
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 2216839..af2e3d2 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -109,7 +109,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 	for _, beforeConstraint := range before.Constraints {
 		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
 		if afterConstraint != nil {
-			if beforeConstraint.StringForDiff() != afterConstraint.StringForDiff() {
+			if constraintForDiff(beforeConstraint) != constraintForDiff(afterConstraint) {
 				// NOTE: An index and a constraint may replace each other under the same name.
 				switch beforeConstraint.(type) {
 				case *IndexConstraint:
@@ -349,6 +349,16 @@ func onlyLeftConstraint(left, right Constraints) []Constraint {
 	return onlyLeftConstraints
 }
 
+// constraintForDiff is StringForDiff without NO ACTION, which is the default of foreign keys.
+func constraintForDiff(constraint Constraint) string {
+	if fk, ok := constraint.(*ForeignKeyConstraint); ok {
+		copied := *fk
+		copied.OnAction = strings.TrimSpace(strings.NewReplacer("ON DELETE NO ACTION", "", "ON UPDATE NO ACTION", "").Replace(fk.OnAction))
+		return copied.StringForDiff()
+	}
+	return constraint.StringForDiff()
+}
+
 func findConstraintByName(name string, constraints []Constraint) Constraint { //nolint:ireturn
 	for _, constraint := range constraints {
 		if constraint.GetName().Name == name {
diff --git a/pkg/ddl/postgres/diff_create_table.go b/pkg/ddl/postgres/diff_create_table.go
index 7fc1eab..e1730f4 100644
--- a/pkg/ddl/postgres/diff_create_table.go
+++ b/pkg/ddl/postgres/diff_create_table.go
@@ -2,6 +2,7 @@ package postgres
 
 import (
 	"reflect"
+	"strings"
 
 	"github.com/kunitsucom/util.go/exp/diff/simplediff"
 
@@ -96,7 +97,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 	for _, beforeConstraint := range before.Constraints {
 		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
 		if afterConstraint != nil {
-			if beforeConstraint.StringForDiff() != afterConstraint.StringForDiff() {
+			if constraintForDiff(beforeConstraint) != constraintForDiff(afterConstraint) {
 				// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
 				// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
 				result.Stmts = append(
@@ -275,6 +276,16 @@ func onlyLeftConstraint(left, right Constraints) []Constraint {
 	return onlyLeftConstraints
 }
 
+// constraintForDiff is StringForDiff without NO ACTION, which is the default of foreign keys.
+func constraintForDiff(constraint Constraint) string {
+	if fk, ok := constraint.(*ForeignKeyConstraint); ok {
+		copied := *fk
+		copied.OnAction = strings.TrimSpace(strings.NewReplacer("ON DELETE NO ACTION", "", "ON UPDATE NO ACTION", "").Replace(fk.OnAction))
+		return copied.StringForDiff()
+	}
+	return constraint.StringForDiff()
+}
+
 func findConstraintByName(name string, constraints []Constraint) Constraint { //nolint:ireturn
 	for _, constraint := range constraints {
 		if constraint.GetName().Name == name {
-- 
2.43.0


From f0781d5afa614ee6e4f4a8c160fe07b45bc6f622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:06 +0000
Subject: [PATCH 34/58] fix: cockroachdb drops the hidden rowid of tables
 without a primary key

---
 pkg/ddl/cockroachdb/diff_create_table.go | 28 ++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index 6f4a254..91a8ad1 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -66,6 +66,8 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 		after = &qualified
 	}
 
+	before = withoutImplicitRowID(before, after) //diff:ignore-line-postgres-cockroach
+
 	if before.Name.StringForDiff() != after.Name.StringForDiff() {
 		// ALTER TABLE table_name RENAME TO new_table_name;
 		rename := &RenameTable{
@@ -294,6 +296,32 @@ func (s *CreateTableStmt) isNotNull(column *Column) bool {
 	return false
 }
 
+// withoutImplicitRowID returns before without the hidden column rowid and its primary key,
+// which CockroachDB gives to each table that is created without a primary key.
+func withoutImplicitRowID(before, after *CreateTableStmt) *CreateTableStmt {
+	const name = "rowid"
+	rowID := findColumnByName(name, before.Columns)
+	if rowID == nil || !rowID.NotVisible || findColumnByName(name, after.Columns) != nil {
+		return before
+	}
+	copied := *before
+	copied.Columns = make([]*Column, 0, len(before.Columns))
+	for _, column := range before.Columns {
+		if column != rowID {
+			copied.Columns = append(copied.Columns, column)
+		}
+	}
+	copied.Constraints = make(Constraints, 0, len(before.Constraints))
+	for _, constraint := range before.Constraints {
+		pk, ok := constraint.(*PrimaryKeyConstraint)
+		if ok && len(pk.Columns) == 1 && pk.Columns[0].Ident.Name == name {
+			continue
+		}
+		copied.Constraints = append(copied.Constraints, constraint)
+	}
+	return &copied
+}
+
 func onlyLeftColumn(left, right []*Column) []*Column {
 	onlyLeftColumns := make([]*Column, 0)
 	for _, leftColumn := range left {
-- 
2.43.0


From 850ead113a8df7aa37b76f6c0ee079370dd7b6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:53 +0000
Subject: [PATCH 35/58] fix: generate panics on fields without a tag or a name,
 and drops the further names and interpreted tags of fields

---
 pkg/internal/lang/go/parse.go | 57 +++++++++++++++++++++++++++++++++--
 1 file changed, 55 insertions(+), 2 deletions(-)

diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index 71ff2a9..afece5f 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -11,6 +11,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"sort"
+	"strconv"
 	"strings"
 	"unicode"
 
@@ -156,10 +157,10 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 
 		// columns
 		if r.StructType != nil {
-			for _, field := range r.StructType.Fields.List {
+			for _, field := range splitFieldsByName(r.StructType.Fields.List) {
 				column := &generator.CreateTableColumn{}
 
-				tag := reflect.StructTag(strings.Trim(field.Tag.Value, "`"))
+				tag := fieldTag(field)
 
 				// column name
 				switch columnName := tag.Get(config.ColumnTagGo()); columnName {
@@ -240,3 +241,55 @@ func extractContainingCommentFromCommentGroup(commentGroup *ast.CommentGroup, su
 	}
 	return nil
 }
+
+// fieldTag returns the tag of the field, which may be written as a raw or as an interpreted string literal.
+func fieldTag(field *ast.Field) reflect.StructTag {
+	if field.Tag == nil {
+		return ""
+	}
+	tag, err := strconv.Unquote(field.Tag.Value)
+	if err != nil {
+		return reflect.StructTag(strings.Trim(field.Tag.Value, "`"))
+	}
+	return reflect.StructTag(tag)
+}
+
+// splitFieldsByName returns the fields with exactly one name each:
+// an embedded field is named after its type, and a field that declares some names without a tag for the column name is split.
+func splitFieldsByName(fields []*ast.Field) []*ast.Field {
+	split := make([]*ast.Field, 0, len(fields))
+	for _, field := range fields {
+		switch {
+		case len(field.Names) == 0:
+			embedded := *field
+			embedded.Names = []*ast.Ident{embeddedFieldName(field.Type)}
+			split = append(split, &embedded)
+		case fieldTag(field).Get(config.ColumnTagGo()) == "":
+			for _, name := range field.Names {
+				named := *field
+				named.Names = []*ast.Ident{name}
+				split = append(split, &named)
+			}
+		default:
+			split = append(split, field)
+		}
+	}
+	return split
+}
+
+func embeddedFieldName(expr ast.Expr) *ast.Ident {
+	switch t := expr.(type) {
+	case *ast.Ident:
+		return t
+	case *ast.StarExpr:
+		return embeddedFieldName(t.X)
+	case *ast.SelectorExpr:
+		return t.Sel
+	case *ast.IndexExpr:
+		return embeddedFieldName(t.X)
+	case *ast.IndexListExpr:
+		return embeddedFieldName(t.X)
+	default:
+		return ast.NewIdent("_")
+	}
+}
-- 
2.43.0


From c30b9907ab02cc3c115cf0df888ab12cffca0936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:05 +0000
Subject: [PATCH 36/58] fix: the tag of the first generate of a process is used
 for all later ones, and as a pattern

---
 pkg/internal/lang/go/extract_source.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/internal/lang/go/extract_source.go b/pkg/internal/lang/go/extract_source.go
index 92af228..3215d6f 100644
--- a/pkg/internal/lang/go/extract_source.go
+++ b/pkg/internal/lang/go/extract_source.go
@@ -25,10 +25,7 @@ type ddlSource struct {
 }
 
 //nolint:gochecknoglobals
-var (
-	_DDLTagGoCommentLineRegex     *regexp.Regexp
-	_DDLTagGoCommentLineRegexOnce sync.Once
-)
+var _DDLTagGoCommentLineRegexes sync.Map // map[string]*regexp.Regexp: DDLTagGo -> regex
 
 const (
 	//	                                          ________________ <- 1. comment prefix
@@ -39,10 +36,13 @@ const (
 )
 
 func DDLTagGoCommentLineRegex() *regexp.Regexp {
-	_DDLTagGoCommentLineRegexOnce.Do(func() {
-		_DDLTagGoCommentLineRegex = regexp.MustCompile(fmt.Sprintf(_DDLTagGoCommentLineRegexFormat, config.DDLTagGo()))
-	})
-	return _DDLTagGoCommentLineRegex
+	tag := config.DDLTagGo()
+	if re, ok := _DDLTagGoCommentLineRegexes.Load(tag); ok {
+		return re.(*regexp.Regexp) //nolint:forcetypeassert
+	}
+	re := regexp.MustCompile(fmt.Sprintf(_DDLTagGoCommentLineRegexFormat, regexp.QuoteMeta(tag)))
+	_DDLTagGoCommentLineRegexes.Store(tag, re)
+	return re
 }
 
 //
-- 
2.43.0


From 1e22fd4a5e2c74a0c749949bc874ed18bc6fc13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:35 +0000
Subject: [PATCH 37/58] fix: index annotations and comments of files and
 functions declare tables for types they do not annotate

---
 pkg/internal/lang/go/extract_source.go | 37 ++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/pkg/internal/lang/go/extract_source.go b/pkg/internal/lang/go/extract_source.go
index 3215d6f..059162d 100644
--- a/pkg/internal/lang/go/extract_source.go
+++ b/pkg/internal/lang/go/extract_source.go
@@ -12,6 +12,7 @@ import (
 
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
 	"github.com/kunitsucom/ddlctl/pkg/internal/config"
+	langutil "github.com/kunitsucom/ddlctl/pkg/internal/lang/util"
 	"github.com/kunitsucom/ddlctl/pkg/logs"
 )
 
@@ -61,8 +62,14 @@ func extractDDLSourceFromDDLTagGo(_ context.Context, fset *token.FileSet, f *ast
 						Position:     fset.Position(commentLine.Pos()),
 						CommentGroup: commentGroup,
 					}
+					if !annotatesType(commentedNode, commentGroup) {
+						ddlSrc = append(ddlSrc, s)
+						break CommentGroupLoop
+					}
 					ast.Inspect(commentedNode, func(node ast.Node) bool {
 						switch n := node.(type) {
+						case *ast.FuncDecl, *ast.FuncLit:
+							return false // NOTE: the comment of a function does not describe the types in its body
 						case *ast.TypeSpec:
 							s.TypeSpec = n
 							switch t := n.Type.(type) {
@@ -88,3 +95,33 @@ func extractDDLSourceFromDDLTagGo(_ context.Context, fset *token.FileSet, f *ast
 
 	return ddlSrc, nil
 }
+
+// annotatesType reports whether the comment group describes the type declared by the node.
+// A comment of the file, or a comment that is detached from the declaration and contains only indexes, does not.
+func annotatesType(commentedNode ast.Node, commentGroup *ast.CommentGroup) bool {
+	if _, isFile := commentedNode.(*ast.File); isFile {
+		return false
+	}
+
+	attached := false
+	ast.Inspect(commentedNode, func(node ast.Node) bool {
+		switch n := node.(type) {
+		case *ast.GenDecl:
+			attached = attached || n.Doc == commentGroup
+		case *ast.TypeSpec:
+			attached = attached || n.Doc == commentGroup || n.Comment == commentGroup
+		default: // noop
+		}
+		return !attached
+	})
+	if attached {
+		return true
+	}
+
+	for _, commentLine := range commentGroup.List {
+		if DDLTagGoCommentLineRegex().MatchString(commentLine.Text) && !langutil.StmtRegexCreateIndex.Regex.MatchString(commentLine.Text) {
+			return true
+		}
+	}
+	return false
+}
-- 
2.43.0


From f4235f49b190800984ad8ca17d67756aa34c9cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:55 +0000
Subject: [PATCH 38/58] fix: block comments are written to the SQL as they are,
 and annotations in them are misread

---
 pkg/internal/lang/go/extract_source.go | 17 ++++++++++++++---
 pkg/internal/lang/go/parse.go          | 25 +++++++++++++++++++++----
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/pkg/internal/lang/go/extract_source.go b/pkg/internal/lang/go/extract_source.go
index 059162d..ffa557e 100644
--- a/pkg/internal/lang/go/extract_source.go
+++ b/pkg/internal/lang/go/extract_source.go
@@ -57,7 +57,7 @@ func extractDDLSourceFromDDLTagGo(_ context.Context, fset *token.FileSet, f *ast
 			for _, commentLine := range commentGroup.List {
 				logs.Trace.Printf("commentLine=%s: %s", filepathz.Short(fset.Position(commentGroup.Pos()).String()), commentLine.Text)
 				// NOTE: If the comment line matches the DDLTagGo, it is assumed to be a comment line for the struct.
-				if matches := DDLTagGoCommentLineRegex().FindStringSubmatch(commentLine.Text); len(matches) > _DDLTagGoCommentLineRegexContentIndex {
+				if hasAnnotation(commentLine) {
 					s := &ddlSource{
 						Position:     fset.Position(commentLine.Pos()),
 						CommentGroup: commentGroup,
@@ -118,8 +118,19 @@ func annotatesType(commentedNode ast.Node, commentGroup *ast.CommentGroup) bool
 		return true
 	}
 
-	for _, commentLine := range commentGroup.List {
-		if DDLTagGoCommentLineRegex().MatchString(commentLine.Text) && !langutil.StmtRegexCreateIndex.Regex.MatchString(commentLine.Text) {
+	for _, comment := range commentGroup.List {
+		for _, commentLine := range commentLines(comment) {
+			if DDLTagGoCommentLineRegex().MatchString(commentLine) && !langutil.StmtRegexCreateIndex.Regex.MatchString(commentLine) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
+func hasAnnotation(comment *ast.Comment) bool {
+	for _, commentLine := range commentLines(comment) {
+		if matches := DDLTagGoCommentLineRegex().FindStringSubmatch(commentLine); len(matches) > _DDLTagGoCommentLineRegexContentIndex {
 			return true
 		}
 	}
diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index afece5f..ef9a73d 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -16,7 +16,6 @@ import (
 	"unicode"
 
 	filepathz "github.com/kunitsucom/util.go/path/filepath"
-	slicez "github.com/kunitsucom/util.go/slices"
 
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
 	"github.com/kunitsucom/ddlctl/pkg/internal/config"
@@ -112,9 +111,10 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 		createTableStmt.SourceLine = r.Position.Line
 
 		// CREATE TABLE (or INDEX) / CONSTRAINT / OPTIONS (from comments)
-		comments := slicez.Select(r.CommentGroup.List, func(_ int, comment *ast.Comment) string {
-			return strings.TrimLeftFunc(strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(comment.Text, "//"), "/*"), "*/"), unicode.IsSpace)
-		})
+		comments := make([]string, 0)
+		for _, comment := range r.CommentGroup.List {
+			comments = append(comments, commentLines(comment)...)
+		}
 		for _, comment := range comments {
 			logs.Debug.Printf("[COMMENT DETECTED]: %s:%d: %s", createTableStmt.SourceFile, createTableStmt.SourceLine, comment)
 
@@ -242,6 +242,23 @@ func extractContainingCommentFromCommentGroup(commentGroup *ast.CommentGroup, su
 	return nil
 }
 
+// commentLines returns the lines of the comment without the comment marks.
+func commentLines(comment *ast.Comment) []string {
+	if !strings.HasPrefix(comment.Text, "/*") {
+		return []string{strings.TrimLeftFunc(strings.TrimLeft(comment.Text, "/"), unicode.IsSpace)}
+	}
+
+	lines := strings.Split(strings.TrimSuffix(strings.TrimPrefix(comment.Text, "/*"), "*/"), "\n")
+	for i := range lines {
+		lines[i] = strings.TrimSpace(lines[i])
+	}
+	// NOTE: "/*" and "*/" are often on lines of their own
+	if len(lines) > 1 && lines[0] == "" {
+		lines = lines[1:]
+	}
+	return langutil.TrimCommentElementTailEmpty(lines)
+}
+
 // fieldTag returns the tag of the field, which may be written as a raw or as an interpreted string literal.
 func fieldTag(field *ast.Field) reflect.StructTag {
 	if field.Tag == nil {
-- 
2.43.0


From da2a3dc5309e1f36f2c83b7bd3d20240daeda2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:58 +0000
Subject: [PATCH 39/58] fix: comment lines without the DDL tag, or with another
 one, are read as annotations

---
 pkg/internal/lang/go/parse.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index ef9a73d..15bb54c 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -118,6 +118,12 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 		for _, comment := range comments {
 			logs.Debug.Printf("[COMMENT DETECTED]: %s:%d: %s", createTableStmt.SourceFile, createTableStmt.SourceLine, comment)
 
+			// NOTE: only lines with the DDLTagGo are annotations
+			if !DDLTagGoCommentLineRegex().MatchString(comment) {
+				createTableStmt.Comments = append(createTableStmt.Comments, comment)
+				continue
+			}
+
 			// NOTE: CREATE INDEX may be written in CREATE TABLE annotation, so process it here
 			if /* CREATE INDEX */ matches := langutil.StmtRegexCreateIndex.Regex.FindStringSubmatch(comment); len(matches) > langutil.StmtRegexCreateIndex.Index {
 				commentMatchedCreateIndex := comment
-- 
2.43.0


From 5185a5184616f42e16aa3266d18dbe5903b7231d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:16 +0000
Subject: [PATCH 40/58] fix: a symbolic link to a directory is read as an empty
 schema

---
 pkg/internal/lang/go/parse.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index 15bb54c..bfa80df 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -43,6 +43,12 @@ func Parse(ctx context.Context, src string) (*generator.DDL, error) {
 	ddl := generator.NewDDL(ctx)
 
 	if info.IsDir() {
+		// NOTE: filepath.WalkDir does not follow a symbolic link, even if it is the root
+		sourceAbs, err = filepath.EvalSymlinks(sourceAbs)
+		if err != nil {
+			return nil, apperr.Errorf("filepath.EvalSymlinks: %w", err)
+		}
+
 		if err := filepath.WalkDir(sourceAbs, walkDirFn(ctx, ddl)); err != nil {
 			return nil, apperr.Errorf("filepath.WalkDir: %w", err)
 		}
-- 
2.43.0


From 894f4e1b847772ff8884e9da7e7224404b820390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:20 +0000
Subject: [PATCH 41/58] fix: a failing generate empties the destination

---
 pkg/ddlctl/generate/ddlctl_generate.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/ddlctl/generate/ddlctl_generate.go b/pkg/ddlctl/generate/ddlctl_generate.go
index ad272d5..f12ab9a 100644
--- a/pkg/ddlctl/generate/ddlctl_generate.go
+++ b/pkg/ddlctl/generate/ddlctl_generate.go
@@ -1,6 +1,7 @@
 package generate
 
 import (
+	"bytes"
 	"context"
 	"io"
 	"os"
@@ -36,14 +37,15 @@ func Command(ctx context.Context, args []string) error {
 		dst = filepath.Join(dst, "ddlctl.gen.sql")
 	}
 
-	const rw_r__r__ = 0o644 //nolint:revive,stylecheck
-	dstFile, err := os.OpenFile(dst, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, rw_r__r__)
-	if err != nil {
-		return apperr.Errorf("os.OpenFile: %w", err)
+	// NOTE: dst must not be touched if the source cannot be read
+	buf := new(bytes.Buffer)
+	if err := Generate(ctx, buf, src, dialect, language); err != nil {
+		return apperr.Errorf("fprint: %w", err)
 	}
 
-	if err := Generate(ctx, dstFile, src, dialect, language); err != nil {
-		return apperr.Errorf("fprint: %w", err)
+	const rw_r__r__ = 0o644 //nolint:revive,stylecheck
+	if err := os.WriteFile(dst, buf.Bytes(), rw_r__r__); err != nil {
+		return apperr.Errorf("os.WriteFile: %w", err)
 	}
 	return nil
 }
-- 
2.43.0


From 270c9e91faa2ea660233a690b31b35664cbbd27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:31 +0000
Subject: [PATCH 42/58] fix: the order of statements on one line depends on the
 iteration order of a map

---
 pkg/internal/lang/go/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index bfa80df..e6cf1e5 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -234,7 +234,7 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 		}
 	}
 
-	sort.Slice(stmts, func(i, j int) bool {
+	sort.SliceStable(stmts, func(i, j int) bool {
 		return fmt.Sprintf("%s:%09d", stmts[i].GetSourceFile(), stmts[i].GetSourceLine()) < fmt.Sprintf("%s:%09d", stmts[j].GetSourceFile(), stmts[j].GetSourceLine())
 	})
 
-- 
2.43.0


From 45d175b5a33a40422b202fd8d428539c76d3d2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:51 +0000
Subject: [PATCH 43/58] fix: show and generate panic without their arguments

---
 pkg/apperr/errors.go                   | 1 +
 pkg/ddlctl/generate/ddlctl_generate.go | 5 +++++
 pkg/ddlctl/show/ddlctl_show.go         | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/pkg/apperr/errors.go b/pkg/apperr/errors.go
index ea6d128..0a59680 100644
--- a/pkg/apperr/errors.go
+++ b/pkg/apperr/errors.go
@@ -10,6 +10,7 @@ var (
 	ErrCanceled                           = errors.New("canceled")
 	ErrDialectIsEmpty                     = errors.New("dialect is empty")
 	ErrDDLTagGoAnnotationNotFoundInSource = errors.New("go-ddl-tag annotation not found in source")
+	ErrOneArgumentRequired                = errors.New("one argument required")
 	ErrTwoArgumentsRequired               = errors.New("two arguments required")
 	ErrBothArgumentsIsDSN                 = errors.New("both arguments is dsn")
 	ErrBothArgumentsAreNotDSNOrSQLFile    = errors.New("both arguments are not dsn or sql file")
diff --git a/pkg/ddlctl/generate/ddlctl_generate.go b/pkg/ddlctl/generate/ddlctl_generate.go
index f12ab9a..3b5ec6e 100644
--- a/pkg/ddlctl/generate/ddlctl_generate.go
+++ b/pkg/ddlctl/generate/ddlctl_generate.go
@@ -25,6 +25,11 @@ func Command(ctx context.Context, args []string) error {
 
 	dialect := config.Dialect()
 	language := config.Language()
+	const srcAndDst = 2
+	if len(args) < srcAndDst {
+		return apperr.Errorf("args=%v: %w", args, apperr.ErrTwoArgumentsRequired)
+	}
+
 	src := args[0]
 	dst := args[1]
 
diff --git a/pkg/ddlctl/show/ddlctl_show.go b/pkg/ddlctl/show/ddlctl_show.go
index 3f5bfc1..509d4c8 100644
--- a/pkg/ddlctl/show/ddlctl_show.go
+++ b/pkg/ddlctl/show/ddlctl_show.go
@@ -26,6 +26,10 @@ func Command(ctx context.Context, args []string) error {
 		return apperr.Errorf("config.Load: %w", err)
 	}
 
+	if len(args) < 1 {
+		return apperr.Errorf("args=%v: %w", args, apperr.ErrOneArgumentRequired)
+	}
+
 	ddl, err := Show(ctx, config.Dialect(), args[0])
 	if err != nil {
 		return apperr.Errorf("diff: %w", err)
-- 
2.43.0


From b13f16cc6e514167c9f0d34b1331981ab79d67a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:58 +0000
Subject: [PATCH 44/58] fix: an index that is declared before its table is
 created before it

---
 pkg/ddl/cockroachdb/diff_order.go | 4 ++--
 pkg/ddl/mysql/diff_order.go       | 4 ++--
 pkg/ddl/postgres/diff_order.go    | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff_order.go b/pkg/ddl/cockroachdb/diff_order.go
index 8cee042..928789a 100644
--- a/pkg/ddl/cockroachdb/diff_order.go
+++ b/pkg/ddl/cockroachdb/diff_order.go
@@ -77,9 +77,9 @@ func sortStmts(before *DDL, stmts []Stmt) []Stmt {
 		case *DropTableStmt:
 			return -dropRank[s.GetNameForDiff()]
 		case *CreateTableStmt:
-			return createRank[s.GetNameForDiff()]
+			return 2 * createRank[s.GetNameForDiff()]
 		case *CreateIndexStmt:
-			return createRank[s.TableName.StringForDiff()]
+			return 2*createRank[s.TableName.StringForDiff()] + 1 // NOTE: The source may declare the index before its table.
 		}
 		return 0
 	}
diff --git a/pkg/ddl/mysql/diff_order.go b/pkg/ddl/mysql/diff_order.go
index 636b18d..986a2b2 100644
--- a/pkg/ddl/mysql/diff_order.go
+++ b/pkg/ddl/mysql/diff_order.go
@@ -77,9 +77,9 @@ func sortStmts(before *DDL, stmts []Stmt) []Stmt {
 		case *DropTableStmt:
 			return -dropRank[s.GetNameForDiff()]
 		case *CreateTableStmt:
-			return createRank[s.GetNameForDiff()]
+			return 2 * createRank[s.GetNameForDiff()]
 		case *CreateIndexStmt:
-			return createRank[s.TableName.StringForDiff()]
+			return 2*createRank[s.TableName.StringForDiff()] + 1 // NOTE: The source may declare the index before its table.
 		}
 		return 0
 	}
diff --git a/pkg/ddl/postgres/diff_order.go b/pkg/ddl/postgres/diff_order.go
index 1300b48..d7eb47a 100644
--- a/pkg/ddl/postgres/diff_order.go
+++ b/pkg/ddl/postgres/diff_order.go
@@ -77,9 +77,9 @@ func sortStmts(before *DDL, stmts []Stmt) []Stmt {
 		case *DropTableStmt:
 			return -dropRank[s.GetNameForDiff()]
 		case *CreateTableStmt:
-			return createRank[s.GetNameForDiff()]
+			return 2 * createRank[s.GetNameForDiff()]
 		case *CreateIndexStmt:
-			return createRank[s.TableName.StringForDiff()]
+			return 2*createRank[s.TableName.StringForDiff()] + 1 // NOTE: The source may declare the index before its table.
 		}
 		return 0
 	}
-- 
2.43.0


From af43cdb203c3f9e398a93d63e455708660879ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:19 +0000
Subject: [PATCH 45/58] fix: apply executes on a database a migration that was
 computed from a file of that name

---
 pkg/apperr/errors.go             | 1 +
 pkg/ddlctl/apply/ddlctl_apply.go | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/pkg/apperr/errors.go b/pkg/apperr/errors.go
index 0a59680..889412c 100644
--- a/pkg/apperr/errors.go
+++ b/pkg/apperr/errors.go
@@ -12,6 +12,7 @@ var (
 	ErrDDLTagGoAnnotationNotFoundInSource = errors.New("go-ddl-tag annotation not found in source")
 	ErrOneArgumentRequired                = errors.New("one argument required")
 	ErrTwoArgumentsRequired               = errors.New("two arguments required")
+	ErrDSNRequired                        = errors.New("dsn required")
 	ErrBothArgumentsIsDSN                 = errors.New("both arguments is dsn")
 	ErrBothArgumentsAreNotDSNOrSQLFile    = errors.New("both arguments are not dsn or sql file")
 )
diff --git a/pkg/ddlctl/apply/ddlctl_apply.go b/pkg/ddlctl/apply/ddlctl_apply.go
index e571cf6..57a30bf 100644
--- a/pkg/ddlctl/apply/ddlctl_apply.go
+++ b/pkg/ddlctl/apply/ddlctl_apply.go
@@ -12,6 +12,7 @@ import (
 
 	sqlz "github.com/kunitsucom/util.go/database/sql"
 	errorz "github.com/kunitsucom/util.go/errors"
+	osz "github.com/kunitsucom/util.go/os"
 	"github.com/kunitsucom/util.go/retry"
 
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
@@ -41,6 +42,11 @@ func Command(ctx context.Context, args []string) (err error) {
 	language := config.Language()
 	leftArg, rightArg := args[0], args[1]
 
+	// NOTE: leftArg is what the DDL queries are executed on, so that an existing path (its content would be diffed) is not a DSN
+	if osz.Exists(leftArg) {
+		return apperr.Errorf("arg=%s: %w", leftArg, apperr.ErrDSNRequired)
+	}
+
 	buf := new(strings.Builder)
 	if err := diff.Diff(ctx, buf, dialect, language, leftArg, rightArg); err != nil {
 		if errors.Is(err, ddl.ErrNoDifference) {
-- 
2.43.0


From 1f3d5d91429d88ac51bc5395da9af5ccf5ff9f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:11 +0000
Subject: [PATCH 46/58] fix: debug and trace of one invocation remain in the
 next one of the process

---
 pkg/internal/config/config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/internal/config/config.go b/pkg/internal/config/config.go
index 940010f..e7a7dfb 100644
--- a/pkg/internal/config/config.go
+++ b/pkg/internal/config/config.go
@@ -3,6 +3,7 @@ package config
 import (
 	"context"
 	"encoding/json"
+	"fmt"
 	"sync"
 
 	errorz "github.com/kunitsucom/util.go/errors"
@@ -84,6 +85,11 @@ func load(ctx context.Context) (cfg *config, err error) { //nolint:unparam
 		PKTagGo:     loadPKTagGo(ctx, cmd),
 	}
 
+	// NOTE: what a previous Load has enabled must not remain
+	apperr.Errorf = fmt.Errorf //nolint:reassign
+	logs.Trace = logs.NewDiscard()
+	logs.Debug = logs.NewDiscard()
+
 	switch {
 	case c.Trace:
 		apperr.Errorf = errorz.Errorf //nolint:reassign
-- 
2.43.0


From f49e09b925b207380c7f0f5847b8efc79c98126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:43 +0000
Subject: [PATCH 47/58] fix: an unknown command ends with success

---
 pkg/ddlctl/ddlctl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/ddlctl/ddlctl.go b/pkg/ddlctl/ddlctl.go
index 657c4f7..caccc95 100644
--- a/pkg/ddlctl/ddlctl.go
+++ b/pkg/ddlctl/ddlctl.go
@@ -126,13 +126,16 @@ func DDLCtl(ctx context.Context) error {
 				Default:     cliz.Default(false),
 			},
 		},
-		RunFunc: func(ctx context.Context, _ []string) error {
+		RunFunc: func(ctx context.Context, args []string) error {
 			cmd, err := cliz.FromContext(ctx)
 			if err != nil {
 				return apperr.Errorf("cliz.FromContext: %w", err)
 			}
 
 			cmd.ShowUsage()
+			if len(args) > 0 {
+				return apperr.Errorf("command=%s: %w", args[0], apperr.ErrNotSupported)
+			}
 			return cliz.ErrHelp
 		},
 	}
-- 
2.43.0


From 5668b0a55aa4cc22ee50c9c0fa83ff160d30482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:08 +0000
Subject: [PATCH 48/58] fix: a foreign key without a name replaces another one
 of the same columns

---
 pkg/ddl/cockroachdb/parser.go | 21 ++++++++++++++++++---
 pkg/ddl/mysql/parser.go       | 21 ++++++++++++++++++---
 pkg/ddl/postgres/parser.go    | 21 ++++++++++++++++++---
 pkg/ddl/spanner/parser.go     | 21 ++++++++++++++++++---
 4 files changed, 72 insertions(+), 12 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 839066d..6728313 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -181,7 +181,9 @@ LabelColumns:
 			createTableStmt.Columns = append(createTableStmt.Columns, column)
 			if len(constraints) > 0 {
 				for _, c := range constraints {
-					createTableStmt.Constraints = createTableStmt.Constraints.Append(c)
+					if err := createTableStmt.addConstraint(c); err != nil {
+						return nil, apperr.Errorf(errFmtPrefix+"addConstraint: %w", err)
+					}
 				}
 			}
 		case isConstraint(p.currentToken.Type):
@@ -189,7 +191,9 @@ LabelColumns:
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
-			createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
+			if err := createTableStmt.addConstraint(constraint); err != nil {
+				return nil, apperr.Errorf(errFmtPrefix+"addConstraint: %w", err)
+			}
 		case p.isCurrentToken(TOKEN_COMMA):
 			p.nextToken()
 			continue
@@ -210,6 +214,17 @@ LabelColumns:
 	return createTableStmt, nil
 }
 
+// addConstraint adds constraint to the table. A foreign key does not replace another one: only one of them would be left.
+func (s *CreateTableStmt) addConstraint(constraint Constraint) error {
+	if _, ok := constraint.(*ForeignKeyConstraint); ok {
+		if c := findConstraintByName(constraint.GetName().Name, s.Constraints); c != nil && c.StringForDiff() != constraint.StringForDiff() {
+			return apperr.Errorf("constraint_name=%s: another constraint has the name: %w", constraint.GetName().StringForDiff(), ddl.ErrNotSupported)
+		}
+	}
+	s.Constraints = s.Constraints.Append(constraint)
+	return nil
+}
+
 //nolint:cyclop,funlen
 func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 	createIndexStmt := &CreateIndexStmt{}
@@ -560,7 +575,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    newAutoIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    constraints.unusedName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index c073827..8043a3c 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -180,7 +180,9 @@ LabelColumns:
 			createTableStmt.Columns = append(createTableStmt.Columns, column)
 			if len(constraints) > 0 {
 				for _, c := range constraints {
-					createTableStmt.Constraints = createTableStmt.Constraints.Append(c)
+					if err := createTableStmt.addConstraint(c); err != nil {
+						return nil, apperr.Errorf(errFmtPrefix+"addConstraint: %w", err)
+					}
 				}
 			}
 		case isConstraint(p.currentToken.Type):
@@ -191,7 +193,9 @@ LabelColumns:
 			if check, ok := constraint.(*CheckConstraint); ok && check.Name == nil {
 				check.Name = createTableStmt.Constraints.unusedName(createTableStmt.Name.Name.StringForDiff() + "_chk")
 			}
-			createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
+			if err := createTableStmt.addConstraint(constraint); err != nil {
+				return nil, apperr.Errorf(errFmtPrefix+"addConstraint: %w", err)
+			}
 		case p.isCurrentToken(TOKEN_COMMA):
 			p.nextToken()
 			continue
@@ -278,6 +282,17 @@ LabelTableOptions:
 	return createTableStmt, nil
 }
 
+// addConstraint adds constraint to the table. A foreign key does not replace another one: only one of them would be left.
+func (s *CreateTableStmt) addConstraint(constraint Constraint) error {
+	if _, ok := constraint.(*ForeignKeyConstraint); ok {
+		if c := findConstraintByName(constraint.GetName().Name, s.Constraints); c != nil && c.StringForDiff() != constraint.StringForDiff() {
+			return apperr.Errorf("constraint_name=%s: another constraint has the name: %w", constraint.GetName().StringForDiff(), ddl.ErrNotSupported)
+		}
+	}
+	s.Constraints = s.Constraints.Append(constraint)
+	return nil
+}
+
 //nolint:cyclop,funlen
 func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 	createIndexStmt := &CreateIndexStmt{}
@@ -559,7 +574,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    newAutoIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    constraints.unusedName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 3d96c4f..7cf0023 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -181,7 +181,9 @@ LabelColumns:
 			createTableStmt.Columns = append(createTableStmt.Columns, column)
 			if len(constraints) > 0 {
 				for _, c := range constraints {
-					createTableStmt.Constraints = createTableStmt.Constraints.Append(c)
+					if err := createTableStmt.addConstraint(c); err != nil {
+						return nil, apperr.Errorf(errFmtPrefix+"addConstraint: %w", err)
+					}
 				}
 			}
 		case isConstraint(p.currentToken.Type):
@@ -189,7 +191,9 @@ LabelColumns:
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
-			createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
+			if err := createTableStmt.addConstraint(constraint); err != nil {
+				return nil, apperr.Errorf(errFmtPrefix+"addConstraint: %w", err)
+			}
 		case p.isCurrentToken(TOKEN_COMMA):
 			p.nextToken()
 			continue
@@ -208,6 +212,17 @@ LabelColumns:
 	return createTableStmt, nil
 }
 
+// addConstraint adds constraint to the table. A foreign key does not replace another one: only one of them would be left.
+func (s *CreateTableStmt) addConstraint(constraint Constraint) error {
+	if _, ok := constraint.(*ForeignKeyConstraint); ok {
+		if c := findConstraintByName(constraint.GetName().Name, s.Constraints); c != nil && c.StringForDiff() != constraint.StringForDiff() {
+			return apperr.Errorf("constraint_name=%s: another constraint has the name: %w", constraint.GetName().StringForDiff(), ddl.ErrNotSupported)
+		}
+	}
+	s.Constraints = s.Constraints.Append(constraint)
+	return nil
+}
+
 //nolint:cyclop,funlen
 func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 	createIndexStmt := &CreateIndexStmt{}
@@ -455,7 +470,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    newAutoIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    constraints.unusedName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index bd92986..5604fc3 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -179,7 +179,9 @@ LabelColumns:
 			createTableStmt.Columns = append(createTableStmt.Columns, column)
 			if len(constraints) > 0 {
 				for _, c := range constraints {
-					createTableStmt.Constraints = createTableStmt.Constraints.Append(c)
+					if err := createTableStmt.addConstraint(c); err != nil {
+						return nil, apperr.Errorf(errFmtPrefix+"addConstraint: %w", err)
+					}
 				}
 			}
 		case isConstraint(p.currentToken.Type):
@@ -190,7 +192,9 @@ LabelColumns:
 			if check, ok := constraint.(*CheckConstraint); ok && check.Name == nil {
 				check.Name = createTableStmt.Constraints.unusedName(createTableStmt.Name.Name.StringForDiff() + "_chk")
 			}
-			createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
+			if err := createTableStmt.addConstraint(constraint); err != nil {
+				return nil, apperr.Errorf(errFmtPrefix+"addConstraint: %w", err)
+			}
 		case p.isCurrentToken(TOKEN_COMMA):
 			p.nextToken()
 			continue
@@ -349,6 +353,17 @@ LabelTableOptions:
 	return createTableStmt, nil
 }
 
+// addConstraint adds constraint to the table. A foreign key does not replace another one: only one of them would be left.
+func (s *CreateTableStmt) addConstraint(constraint Constraint) error {
+	if _, ok := constraint.(*ForeignKeyConstraint); ok {
+		if c := findConstraintByName(constraint.GetName().Name, s.Constraints); c != nil && c.StringForDiff() != constraint.StringForDiff() {
+			return apperr.Errorf("constraint_name=%s: another constraint has the name: %w", constraint.GetName().StringForDiff(), ddl.ErrNotSupported)
+		}
+	}
+	s.Constraints = s.Constraints.Append(constraint)
+	return nil
+}
+
 //nolint:cyclop,funlen
 func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 	createIndexStmt := &CreateIndexStmt{}
@@ -598,7 +613,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    newAutoIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    constraints.unusedName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
-- 
2.43.0


From 1aff80cc95ec9cb11a9fdb6d26d85959979a8bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:26 +0000
Subject: [PATCH 49/58] fix: the text after a NUL is not read

---
 pkg/ddl/cockroachdb/lexar.go | 4 ++++
 pkg/ddl/mysql/lexar.go       | 4 ++++
 pkg/ddl/postgres/lexar.go    | 4 ++++
 pkg/ddl/spanner/lexar.go     | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index df4a882..981ac31 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -374,6 +374,10 @@ func (l *Lexer) NextToken() Token {
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
 	case 0:
+		if l.position < len(l.input) { // NUL in the text, not the end of it
+			tok = newToken(TOKEN_ILLEGAL, l.ch)
+			break
+		}
 		tok.Literal = Literal{}
 		tok.Type = TOKEN_EOF
 	default:
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index 8a4bc61..1c3648d 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -398,6 +398,10 @@ func (l *Lexer) NextToken() Token {
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
 	case 0:
+		if l.position < len(l.input) { // NUL in the text, not the end of it
+			tok = newToken(TOKEN_ILLEGAL, l.ch)
+			break
+		}
 		tok.Literal = Literal{}
 		tok.Type = TOKEN_EOF
 	default:
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index 0480cd7..19ec5a1 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -348,6 +348,10 @@ func (l *Lexer) NextToken() Token {
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
 	case 0:
+		if l.position < len(l.input) { // NUL in the text, not the end of it
+			tok = newToken(TOKEN_ILLEGAL, l.ch)
+			break
+		}
 		tok.Literal = Literal{}
 		tok.Type = TOKEN_EOF
 	default:
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index d812430..2304afc 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -354,6 +354,10 @@ func (l *Lexer) NextToken() Token {
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
 	case 0:
+		if l.position < len(l.input) { // NUL in the text, not the end of it
+			tok = newToken(TOKEN_ILLEGAL, l.ch)
+			break
+		}
 		tok.Literal = Literal{}
 		tok.Type = TOKEN_EOF
 	default:
-- 
2.43.0


From aa677698f4a06055991671dd9ec65d5385205a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:26 +0000
Subject: [PATCH 50/58] fix: index columns and the end of CREATE INDEX accept
 words that are then lost or become columns

---
 pkg/ddl/cockroachdb/parser.go | 44 +++++++++++++++++++-------------
 pkg/ddl/mysql/parser.go       | 48 +++++++++++++++++++++--------------
 pkg/ddl/postgres/parser.go    | 28 +++++++++++++-------
 pkg/ddl/spanner/parser.go     | 44 +++++++++++++++++++-------------
 4 files changed, 102 insertions(+), 62 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 6728313..b63d62f 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -298,6 +298,10 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 		createIndexStmt.UsingPostColumns = using
 	}
 
+	if err := p.checkCurrentToken(TOKEN_SEMICOLON, TOKEN_EOF); err != nil {
+		return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+	}
+
 	return createIndexStmt, nil
 }
 
@@ -866,32 +870,38 @@ func (p *Parser) parseDataType() (*DataType, error) {
 func (p *Parser) parseColumnIdents() ([]*ColumnIdent, error) {
 	idents := make([]*ColumnIdent, 0)
 
+	if err := p.checkCurrentToken(TOKEN_OPEN_PAREN); err != nil {
+		return nil, apperr.Errorf("checkCurrentToken: %w", err)
+	}
+	p.nextToken() // current = column_name or )
+
 LabelIdents:
-	for {
+	for len(idents) > 0 || !p.isCurrentToken(TOKEN_CLOSE_PAREN) {
+		if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
+			return nil, apperr.Errorf("checkCurrentToken: %w", err)
+		}
+		ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
+		switch p.peekToken.Type { //nolint:exhaustive //diff:ignore-line-postgres-cockroach
+		case TOKEN_ASC: //diff:ignore-line-postgres-cockroach
+			ident.Order = &Order{Desc: false} //diff:ignore-line-postgres-cockroach
+			p.nextToken()                     // current = ASC //diff:ignore-line-postgres-cockroach
+		case TOKEN_DESC: //diff:ignore-line-postgres-cockroach
+			ident.Order = &Order{Desc: true} //diff:ignore-line-postgres-cockroach
+			p.nextToken()                    // current = DESC //diff:ignore-line-postgres-cockroach
+		} //diff:ignore-line-postgres-cockroach
+		idents = append(idents, ident)
+		p.nextToken() // current = , or )
+
 		switch p.currentToken.Type { //nolint:exhaustive
-		case TOKEN_OPEN_PAREN:
-			// do nothing
-		case TOKEN_IDENT:
-			ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
-			switch p.peekToken.Type { //nolint:exhaustive //diff:ignore-line-postgres-cockroach
-			case TOKEN_ASC: //diff:ignore-line-postgres-cockroach
-				ident.Order = &Order{Desc: false} //diff:ignore-line-postgres-cockroach
-				p.nextToken()                     // current = ASC //diff:ignore-line-postgres-cockroach
-			case TOKEN_DESC: //diff:ignore-line-postgres-cockroach
-				ident.Order = &Order{Desc: true} //diff:ignore-line-postgres-cockroach
-				p.nextToken()                    // current = DESC //diff:ignore-line-postgres-cockroach
-			} //diff:ignore-line-postgres-cockroach
-			idents = append(idents, ident)
 		case TOKEN_COMMA:
-			// do nothing
+			p.nextToken() // current = column_name
 		case TOKEN_CLOSE_PAREN:
-			p.nextToken()
 			break LabelIdents
 		default:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		}
-		p.nextToken()
 	}
+	p.nextToken()
 
 	return idents, nil
 }
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 8043a3c..3cc4396 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -356,6 +356,10 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 
 	createIndexStmt.Columns = idents
 
+	if err := p.checkCurrentToken(TOKEN_SEMICOLON, TOKEN_EOF); err != nil {
+		return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+	}
+
 	return createIndexStmt, nil
 }
 
@@ -834,34 +838,40 @@ func (p *Parser) parseDataType() (*DataType, error) {
 func (p *Parser) parseColumnIdents() ([]*ColumnIdent, error) {
 	idents := make([]*ColumnIdent, 0)
 
+	if err := p.checkCurrentToken(TOKEN_OPEN_PAREN); err != nil {
+		return nil, apperr.Errorf("checkCurrentToken: %w", err)
+	}
+	p.nextToken() // current = column_name or )
+
 LabelIdents:
-	for {
-		switch p.currentToken.Type { //nolint:exhaustive
-		case TOKEN_OPEN_PAREN:
+	for len(idents) > 0 || !p.isCurrentToken(TOKEN_CLOSE_PAREN) {
+		if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
+			return nil, apperr.Errorf("checkCurrentToken: %w", err)
+		}
+		ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
+		switch p.peekToken.Type { //nolint:exhaustive
+		case TOKEN_ASC:
+			ident.Order = &Order{Desc: false}
+			p.nextToken() // current = ASC
+		case TOKEN_DESC:
+			ident.Order = &Order{Desc: true}
+			p.nextToken() // current = DESC
+		default:
 			// do nothing
-		case TOKEN_IDENT:
-			ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
-			switch p.peekToken.Type { //nolint:exhaustive
-			case TOKEN_ASC:
-				ident.Order = &Order{Desc: false}
-				p.nextToken() // current = ASC
-			case TOKEN_DESC:
-				ident.Order = &Order{Desc: true}
-				p.nextToken() // current = DESC
-			default:
-				// do nothing
-			}
-			idents = append(idents, ident)
+		}
+		idents = append(idents, ident)
+		p.nextToken() // current = , or )
+
+		switch p.currentToken.Type { //nolint:exhaustive
 		case TOKEN_COMMA:
-			// do nothing
+			p.nextToken() // current = column_name
 		case TOKEN_CLOSE_PAREN:
-			p.nextToken()
 			break LabelIdents
 		default:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		}
-		p.nextToken()
 	}
+	p.nextToken()
 
 	return idents, nil
 }
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 7cf0023..1c20878 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -286,6 +286,10 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 
 	createIndexStmt.Columns = idents
 
+	if err := p.checkCurrentToken(TOKEN_SEMICOLON, TOKEN_EOF); err != nil {
+		return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+	}
+
 	return createIndexStmt, nil
 }
 
@@ -751,24 +755,30 @@ func (p *Parser) parseDataType() (*DataType, error) {
 func (p *Parser) parseColumnIdents() ([]*ColumnIdent, error) {
 	idents := make([]*ColumnIdent, 0)
 
+	if err := p.checkCurrentToken(TOKEN_OPEN_PAREN); err != nil {
+		return nil, apperr.Errorf("checkCurrentToken: %w", err)
+	}
+	p.nextToken() // current = column_name or )
+
 LabelIdents:
-	for {
+	for len(idents) > 0 || !p.isCurrentToken(TOKEN_CLOSE_PAREN) {
+		if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
+			return nil, apperr.Errorf("checkCurrentToken: %w", err)
+		}
+		ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
+		idents = append(idents, ident)
+		p.nextToken() // current = , or )
+
 		switch p.currentToken.Type { //nolint:exhaustive
-		case TOKEN_OPEN_PAREN:
-			// do nothing
-		case TOKEN_IDENT:
-			ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
-			idents = append(idents, ident)
 		case TOKEN_COMMA:
-			// do nothing
+			p.nextToken() // current = column_name
 		case TOKEN_CLOSE_PAREN:
-			p.nextToken()
 			break LabelIdents
 		default:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		}
-		p.nextToken()
 	}
+	p.nextToken()
 
 	return idents, nil
 }
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 5604fc3..7888020 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -427,6 +427,10 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 
 	createIndexStmt.Columns = idents
 
+	if err := p.checkCurrentToken(TOKEN_SEMICOLON, TOKEN_EOF); err != nil {
+		return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+	}
+
 	return createIndexStmt, nil
 }
 
@@ -750,32 +754,38 @@ func (p *Parser) parseDataType() (*DataType, error) {
 func (p *Parser) parseColumnIdents() ([]*ColumnIdent, error) {
 	idents := make([]*ColumnIdent, 0)
 
+	if err := p.checkCurrentToken(TOKEN_OPEN_PAREN); err != nil {
+		return nil, apperr.Errorf("checkCurrentToken: %w", err)
+	}
+	p.nextToken() // current = column_name or )
+
 LabelIdents:
-	for {
+	for len(idents) > 0 || !p.isCurrentToken(TOKEN_CLOSE_PAREN) {
+		if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
+			return nil, apperr.Errorf("checkCurrentToken: %w", err)
+		}
+		ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
+		switch p.peekToken.Type { //nolint:exhaustive //diff:ignore-line-postgres-cockroach
+		case TOKEN_ASC: //diff:ignore-line-postgres-cockroach
+			ident.Order = &Order{Desc: false} //diff:ignore-line-postgres-cockroach
+			p.nextToken()                     // current = ASC //diff:ignore-line-postgres-cockroach
+		case TOKEN_DESC: //diff:ignore-line-postgres-cockroach
+			ident.Order = &Order{Desc: true} //diff:ignore-line-postgres-cockroach
+			p.nextToken()                    // current = DESC //diff:ignore-line-postgres-cockroach
+		} //diff:ignore-line-postgres-cockroach
+		idents = append(idents, ident)
+		p.nextToken() // current = , or )
+
 		switch p.currentToken.Type { //nolint:exhaustive
-		case TOKEN_OPEN_PAREN:
-			// do nothing
-		case TOKEN_IDENT:
-			ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
-			switch p.peekToken.Type { //nolint:exhaustive //diff:ignore-line-postgres-cockroach
-			case TOKEN_ASC: //diff:ignore-line-postgres-cockroach
-				ident.Order = &Order{Desc: false} //diff:ignore-line-postgres-cockroach
-				p.nextToken()                     // current = ASC //diff:ignore-line-postgres-cockroach
-			case TOKEN_DESC: //diff:ignore-line-postgres-cockroach
-				ident.Order = &Order{Desc: true} //diff:ignore-line-postgres-cockroach
-				p.nextToken()                    // current = DESC //diff:ignore-line-postgres-cockroach
-			} //diff:ignore-line-postgres-cockroach
-			idents = append(idents, ident)
 		case TOKEN_COMMA:
-			// do nothing
+			p.nextToken() // current = column_name
 		case TOKEN_CLOSE_PAREN:
-			p.nextToken()
 			break LabelIdents
 		default:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		}
-		p.nextToken()
 	}
+	p.nextToken()
 
 	return idents, nil
 }
-- 
2.43.0


From a4cad1d24841fec196e5247fef2babdcd286cc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:34 +0000
Subject: [PATCH 51/58] fix: arguments of BOOLEAN become part of TINYINT(1)

---
 pkg/ddl/mysql/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 3cc4396..2efe06a 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -782,6 +782,7 @@ func (p *Parser) parseDataType() (*DataType, error) {
 		dataType.Name = "TINYINT"
 		dataType.Type = TOKEN_TINYINT
 		dataType.Expr = dataType.Expr.Append(NewRawIdent("1"))
+		return dataType, nil // BOOLEAN takes no arguments
 	case TOKEN_TIMESTAMP:
 		dataType.Name = p.currentToken.Literal.String()
 		dataType.Type = TOKEN_TIMESTAMP
-- 
2.43.0


From 263ae857da513a225d0750a502bb778a8bdae25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:00 +0000
Subject: [PATCH 52/58] fix: constraints of one name replace each other

---
 pkg/ddl/cockroachdb/parser.go | 8 +++++---
 pkg/ddl/mysql/parser.go       | 8 +++++---
 pkg/ddl/postgres/parser.go    | 8 +++++---
 pkg/ddl/spanner/parser.go     | 8 +++-----
 4 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index b63d62f..9406cdb 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -214,10 +214,12 @@ LabelColumns:
 	return createTableStmt, nil
 }
 
-// addConstraint adds constraint to the table. A foreign key does not replace another one: only one of them would be left.
+// addConstraint adds constraint to the table. Two different constraints of one name are an error, because only one of them would be left;
+// a unique one replaces another, which is the one of a column declared UNIQUE.
 func (s *CreateTableStmt) addConstraint(constraint Constraint) error {
-	if _, ok := constraint.(*ForeignKeyConstraint); ok {
-		if c := findConstraintByName(constraint.GetName().Name, s.Constraints); c != nil && c.StringForDiff() != constraint.StringForDiff() {
+	if c := findConstraintByName(constraint.GetName().Name, s.Constraints); c != nil && c.StringForDiff() != constraint.StringForDiff() {
+		_, ok := constraint.(*IndexConstraint)
+		if _, same := c.(*IndexConstraint); !ok || !same {
 			return apperr.Errorf("constraint_name=%s: another constraint has the name: %w", constraint.GetName().StringForDiff(), ddl.ErrNotSupported)
 		}
 	}
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 2efe06a..d41e9f0 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -282,10 +282,12 @@ LabelTableOptions:
 	return createTableStmt, nil
 }
 
-// addConstraint adds constraint to the table. A foreign key does not replace another one: only one of them would be left.
+// addConstraint adds constraint to the table. Two different constraints of one name are an error, because only one of them would be left;
+// a unique one replaces another, which is the one of a column declared UNIQUE.
 func (s *CreateTableStmt) addConstraint(constraint Constraint) error {
-	if _, ok := constraint.(*ForeignKeyConstraint); ok {
-		if c := findConstraintByName(constraint.GetName().Name, s.Constraints); c != nil && c.StringForDiff() != constraint.StringForDiff() {
+	if c := findConstraintByName(constraint.GetName().Name, s.Constraints); c != nil && c.StringForDiff() != constraint.StringForDiff() {
+		_, ok := constraint.(*IndexConstraint)
+		if _, same := c.(*IndexConstraint); !ok || !same {
 			return apperr.Errorf("constraint_name=%s: another constraint has the name: %w", constraint.GetName().StringForDiff(), ddl.ErrNotSupported)
 		}
 	}
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 1c20878..55600b6 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -212,10 +212,12 @@ LabelColumns:
 	return createTableStmt, nil
 }
 
-// addConstraint adds constraint to the table. A foreign key does not replace another one: only one of them would be left.
+// addConstraint adds constraint to the table. Two different constraints of one name are an error, because only one of them would be left;
+// a unique one replaces another, which is the one of a column declared UNIQUE.
 func (s *CreateTableStmt) addConstraint(constraint Constraint) error {
-	if _, ok := constraint.(*ForeignKeyConstraint); ok {
-		if c := findConstraintByName(constraint.GetName().Name, s.Constraints); c != nil && c.StringForDiff() != constraint.StringForDiff() {
+	if c := findConstraintByName(constraint.GetName().Name, s.Constraints); c != nil && c.StringForDiff() != constraint.StringForDiff() {
+		_, ok := constraint.(*UniqueConstraint)
+		if _, same := c.(*UniqueConstraint); !ok || !same {
 			return apperr.Errorf("constraint_name=%s: another constraint has the name: %w", constraint.GetName().StringForDiff(), ddl.ErrNotSupported)
 		}
 	}
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 7888020..6e52568 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -353,12 +353,10 @@ LabelTableOptions:
 	return createTableStmt, nil
 }
 
-// addConstraint adds constraint to the table. A foreign key does not replace another one: only one of them would be left.
+// addConstraint adds constraint to the table. Two different constraints of one name are an error, because only one of them would be left.
 func (s *CreateTableStmt) addConstraint(constraint Constraint) error {
-	if _, ok := constraint.(*ForeignKeyConstraint); ok {
-		if c := findConstraintByName(constraint.GetName().Name, s.Constraints); c != nil && c.StringForDiff() != constraint.StringForDiff() {
-			return apperr.Errorf("constraint_name=%s: another constraint has the name: %w", constraint.GetName().StringForDiff(), ddl.ErrNotSupported)
-		}
+	if c := findConstraintByName(constraint.GetName().Name, s.Constraints); c != nil && c.StringForDiff() != constraint.StringForDiff() {
+		return apperr.Errorf("constraint_name=%s: another constraint has the name: %w", constraint.GetName().StringForDiff(), ddl.ErrNotSupported)
 	}
 	s.Constraints = s.Constraints.Append(constraint)
 	return nil
-- 
2.43.0


From ada1f2d402cda97c800534210ccd308f79de3fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:31 +0000
Subject: [PATCH 53/58] fix: strip one quote from each end of a quoted word,
 not every quote

---
 pkg/ddl/cockroachdb/parser.go | 2 +-
 pkg/ddl/mysql/parser.go       | 2 +-
 pkg/ddl/postgres/parser.go    | 2 +-
 pkg/ddl/spanner/parser.go     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 9406cdb..3949166 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -25,7 +25,7 @@ func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
 		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          strings.TrimSuffix(strings.TrimPrefix(raw, q), q),
 				QuotationMark: q,
 				Raw:           raw,
 			}
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index d41e9f0..29f1068 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -24,7 +24,7 @@ func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
 		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          strings.TrimSuffix(strings.TrimPrefix(raw, q), q),
 				QuotationMark: q,
 				Raw:           raw,
 			}
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 55600b6..4724eaa 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -25,7 +25,7 @@ func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
 		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          strings.TrimSuffix(strings.TrimPrefix(raw, q), q),
 				QuotationMark: q,
 				Raw:           raw,
 			}
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 6e52568..6052ded 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -23,7 +23,7 @@ func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
 		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          strings.TrimSuffix(strings.TrimPrefix(raw, q), q),
 				QuotationMark: q,
 				Raw:           raw,
 			}
-- 
2.43.0


From f56d01182a8c3d68910e12ba6661574b5c0d4d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:31 +0000
Subject: [PATCH 54/58] fix: keep operators of several characters together

---
 pkg/ddl/cockroachdb/lexar.go  | 25 +++++++++++++++++++++++++
 pkg/ddl/cockroachdb/parser.go |  2 +-
 pkg/ddl/mysql/lexar.go        | 25 +++++++++++++++++++++++++
 pkg/ddl/postgres/lexar.go     | 25 +++++++++++++++++++++++++
 pkg/ddl/postgres/parser.go    |  2 +-
 pkg/ddl/spanner/lexar.go      | 25 +++++++++++++++++++++++++
 6 files changed, 102 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index 981ac31..f046077 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -49,6 +49,7 @@ const (
 	TOKEN_ASTERISK        TokenType = "ASTERISK"        // *
 	TOKEN_SLASH           TokenType = "SLASH"           // /
 	TOKEN_STRING_CONCAT   TokenType = "STRING_CONCAT"   //nolint:gosec // ||
+	TOKEN_OPERATOR        TokenType = "OPERATOR"        // another operator of several characters
 	TOKEN_TYPECAST        TokenType = "TYPECAST"        // ::
 	TOKEN_TYPE_ANNOTATION TokenType = "TYPE_ANNOTATION" // ::: //diff:ignore-line-postgres-cockroach
 
@@ -322,6 +323,13 @@ func (l *Lexer) NextToken() Token {
 		return l.NextToken()
 	}
 
+	if op := l.peekOperator(); op != "" {
+		for range op {
+			l.readChar()
+		}
+		return Token{Type: TOKEN_OPERATOR, Literal: Literal{Str: op}}
+	}
+
 	switch l.ch {
 	case '"', '\'':
 		quote := l.ch
@@ -394,6 +402,23 @@ func (l *Lexer) NextToken() Token {
 	return tok
 }
 
+// operators are those of several characters which have no token type of their own, the longer ones first.
+//
+//nolint:gochecknoglobals
+var operators = []string{"!~*", "->>", "#>>", "!=", "!~", "~*", "->", "#>", "@>", "<@", "&&", "?|", "?&"}
+
+func (l *Lexer) peekOperator() string {
+	if l.position >= len(l.input) {
+		return ""
+	}
+	for _, op := range operators {
+		if strings.HasPrefix(l.input[l.position:], op) {
+			return op
+		}
+	}
+	return ""
+}
+
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
 func (l *Lexer) readQuotedLiteral(quote byte) string {
 	// position := l.position + 1 // クォーテーションの次の文字から開始
diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 3949166..5930056 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -936,7 +936,7 @@ func isOperator(tokenType TokenType) bool {
 	case TOKEN_EQUAL, TOKEN_GREATER, TOKEN_LESS,
 		TOKEN_PLUS, TOKEN_MINUS, TOKEN_ASTERISK, TOKEN_SLASH,
 		TOKEN_TYPE_ANNOTATION, //diff:ignore-line-postgres-cockroach
-		TOKEN_STRING_CONCAT, TOKEN_TYPECAST:
+		TOKEN_STRING_CONCAT, TOKEN_TYPECAST, TOKEN_OPERATOR:
 		return true
 	default:
 		return false
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index 1c3648d..601b1b7 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -49,6 +49,7 @@ const (
 	TOKEN_ASTERISK        TokenType = "ASTERISK"        // *
 	TOKEN_SLASH           TokenType = "SLASH"           // /
 	TOKEN_STRING_CONCAT   TokenType = "STRING_CONCAT"   //nolint:gosec // ||
+	TOKEN_OPERATOR        TokenType = "OPERATOR"        // another operator of several characters
 	TOKEN_TYPECAST        TokenType = "TYPECAST"        // ::
 	TOKEN_TYPE_ANNOTATION TokenType = "TYPE_ANNOTATION" // :::
 
@@ -345,6 +346,13 @@ func (l *Lexer) NextToken() Token {
 		return l.NextToken()
 	}
 
+	if op := l.peekOperator(); op != "" {
+		for range op {
+			l.readChar()
+		}
+		return Token{Type: TOKEN_OPERATOR, Literal: Literal{Str: op}}
+	}
+
 	switch l.ch {
 	case '"', '\'', '`':
 		quote := l.ch
@@ -418,6 +426,23 @@ func (l *Lexer) NextToken() Token {
 	return tok
 }
 
+// operators are those of several characters which have no token type of their own, the longer ones first.
+//
+//nolint:gochecknoglobals
+var operators = []string{"<=>", "->>", "!=", "->", "&&", "||"}
+
+func (l *Lexer) peekOperator() string {
+	if l.position >= len(l.input) {
+		return ""
+	}
+	for _, op := range operators {
+		if strings.HasPrefix(l.input[l.position:], op) {
+			return op
+		}
+	}
+	return ""
+}
+
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
 func (l *Lexer) readQuotedLiteral(quote byte) string {
 	// position := l.position + 1 // クォーテーションの次の文字から開始
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index 19ec5a1..046204c 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -49,6 +49,7 @@ const (
 	TOKEN_ASTERISK      TokenType = "ASTERISK"      // *
 	TOKEN_SLASH         TokenType = "SLASH"         // /
 	TOKEN_STRING_CONCAT TokenType = "STRING_CONCAT" //nolint:gosec // ||
+	TOKEN_OPERATOR      TokenType = "OPERATOR"      // another operator of several characters
 	TOKEN_TYPECAST      TokenType = "TYPECAST"      // ::
 
 	// VERB.
@@ -301,6 +302,13 @@ func (l *Lexer) NextToken() Token {
 		return l.NextToken()
 	}
 
+	if op := l.peekOperator(); op != "" {
+		for range op {
+			l.readChar()
+		}
+		return Token{Type: TOKEN_OPERATOR, Literal: Literal{Str: op}}
+	}
+
 	switch l.ch {
 	case '"', '\'':
 		quote := l.ch
@@ -368,6 +376,23 @@ func (l *Lexer) NextToken() Token {
 	return tok
 }
 
+// operators are those of several characters which have no token type of their own, the longer ones first.
+//
+//nolint:gochecknoglobals
+var operators = []string{"!~~*", "!~~", "!~*", "->>", "#>>", "~~*", "!=", "!~", "~*", "~~", "->", "#>", "#-", "@>", "<@", "@@", "&&", "?|", "?&"}
+
+func (l *Lexer) peekOperator() string {
+	if l.position >= len(l.input) {
+		return ""
+	}
+	for _, op := range operators {
+		if strings.HasPrefix(l.input[l.position:], op) {
+			return op
+		}
+	}
+	return ""
+}
+
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
 func (l *Lexer) readQuotedLiteral(quote byte) string {
 	// position := l.position + 1 // クォーテーションの次の文字から開始
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 4724eaa..8951813 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -812,7 +812,7 @@ func isOperator(tokenType TokenType) bool {
 	switch tokenType { //nolint:exhaustive
 	case TOKEN_EQUAL, TOKEN_GREATER, TOKEN_LESS,
 		TOKEN_PLUS, TOKEN_MINUS, TOKEN_ASTERISK, TOKEN_SLASH,
-		TOKEN_STRING_CONCAT, TOKEN_TYPECAST:
+		TOKEN_STRING_CONCAT, TOKEN_TYPECAST, TOKEN_OPERATOR:
 		return true
 	default:
 		return false
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index 2304afc..469d982 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -49,6 +49,7 @@ const (
 	TOKEN_ASTERISK        TokenType = "ASTERISK"        // *
 	TOKEN_SLASH           TokenType = "SLASH"           // /
 	TOKEN_STRING_CONCAT   TokenType = "STRING_CONCAT"   //nolint:gosec // ||
+	TOKEN_OPERATOR        TokenType = "OPERATOR"        // another operator of several characters
 	TOKEN_TYPECAST        TokenType = "TYPECAST"        // ::
 	TOKEN_TYPE_ANNOTATION TokenType = "TYPE_ANNOTATION" // ::: //diff:ignore-line-postgres-cockroach
 
@@ -301,6 +302,13 @@ func (l *Lexer) NextToken() Token {
 		return l.NextToken()
 	}
 
+	if op := l.peekOperator(); op != "" {
+		for range op {
+			l.readChar()
+		}
+		return Token{Type: TOKEN_OPERATOR, Literal: Literal{Str: op}}
+	}
+
 	switch l.ch {
 	case '"', '\'', '`':
 		quote := l.ch
@@ -374,6 +382,23 @@ func (l *Lexer) NextToken() Token {
 	return tok
 }
 
+// operators are those of several characters which have no token type of their own, the longer ones first.
+//
+//nolint:gochecknoglobals
+var operators = []string{"!=", "||"}
+
+func (l *Lexer) peekOperator() string {
+	if l.position >= len(l.input) {
+		return ""
+	}
+	for _, op := range operators {
+		if strings.HasPrefix(l.input[l.position:], op) {
+			return op
+		}
+	}
+	return ""
+}
+
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
 func (l *Lexer) readQuotedLiteral(quote byte) string {
 	// position := l.position + 1 // クォーテーションの次の文字から開始
-- 
2.43.0


From 6c77b29f4d3a650ba57800a37118feec75103020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:31 +0000
Subject: [PATCH 55/58] fix: accept signed numbers as defaults in MySQL

---
 pkg/ddl/mysql/parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 29f1068..dce8168 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -471,6 +471,16 @@ LabelDefault:
 		switch p.currentToken.Type { //nolint:exhaustive
 		case TOKEN_IDENT, TOKEN_CURRENT_TIMESTAMP:
 			def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.String()))
+		case TOKEN_MINUS, TOKEN_PLUS:
+			if def.Value != nil {
+				return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+			}
+			sign := p.currentToken.Literal.Str
+			if err := p.checkPeekToken(TOKEN_IDENT); err != nil {
+				return nil, apperr.Errorf("checkPeekToken: %w", err)
+			}
+			p.nextToken() // current = IDENT
+			def.Value = def.Value.Append(NewRawIdent(sign + p.currentToken.Literal.String()))
 		case TOKEN_OPEN_PAREN:
 			ids, err := p.parseExpr()
 			if err != nil {
-- 
2.43.0


From d59f6d22438bd751e8da811e35ce13af01bcb2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:39 +0000
Subject: [PATCH 56/58] fix: tell apart enumerations whose values contain
 commas in MySQL

---
 pkg/ddl/mysql/ddl.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ddl/mysql/ddl.go b/pkg/ddl/mysql/ddl.go
index 7373948..e46eb6f 100644
--- a/pkg/ddl/mysql/ddl.go
+++ b/pkg/ddl/mysql/ddl.go
@@ -162,6 +162,10 @@ func (s *DataType) StringForDiff() string {
 	if s.Expr != nil && len(s.Expr.Idents) > 0 {
 		str += "("
 		for _, ident := range s.Expr.Idents {
+			if ident.QuotationMark != "" {
+				str += "'" + ident.Name + "'" // a value of an enumeration may contain a comma
+				continue
+			}
 			str += ident.StringForDiff()
 		}
 		str += ")"
-- 
2.43.0


From 4ffa72151ae1609a9b3090390037ba867f08e4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:39 +0000
Subject: [PATCH 57/58] fix: tell apart a text and a name or keyword spelled
 alike

---
 pkg/ddl/cockroachdb/ddl.go   | 12 ++++++++++++
 pkg/ddl/mysql/ddl.go         | 12 ++++++++++++
 pkg/ddl/mysql/ddl_table.go   |  4 ++++
 pkg/ddl/postgres/ddl.go      | 12 ++++++++++++
 pkg/ddl/spanner/ddl.go       | 12 ++++++++++++
 pkg/ddl/spanner/ddl_table.go |  4 ++++
 6 files changed, 56 insertions(+)

diff --git a/pkg/ddl/cockroachdb/ddl.go b/pkg/ddl/cockroachdb/ddl.go
index 595b1be..0bd4cae 100644
--- a/pkg/ddl/cockroachdb/ddl.go
+++ b/pkg/ddl/cockroachdb/ddl.go
@@ -1,6 +1,7 @@
 package cockroachdb
 
 import (
+	"strconv"
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -83,6 +84,9 @@ func (i *Ident) StringForDiff() string {
 
 // stringForDiffInExpr is StringForDiff for an ident in an expression, where keywords are case-insensitive.
 func (i *Ident) stringForDiffInExpr() string {
+	if i != nil && i.QuotationMark == "'" {
+		return i.stringForDiffAsText()
+	}
 	if i != nil && i.QuotationMark == "" {
 		upper := strings.ToUpper(i.Name)
 		switch upper {
@@ -96,6 +100,14 @@ func (i *Ident) stringForDiffInExpr() string {
 	return i.StringForDiff()
 }
 
+// stringForDiffAsText keeps a text apart from a name or keyword spelled alike. Databases report numbers and booleans with or without quotes.
+func (i *Ident) stringForDiffAsText() string {
+	if _, err := strconv.ParseFloat(i.Name, 64); err == nil || strings.EqualFold(i.Name, "true") || strings.EqualFold(i.Name, "false") {
+		return i.StringForDiff()
+	}
+	return "'" + i.Name + "'"
+}
+
 type ColumnIdent struct {
 	Ident *Ident
 	Order *Order //diff:ignore-line-postgres-cockroach
diff --git a/pkg/ddl/mysql/ddl.go b/pkg/ddl/mysql/ddl.go
index e46eb6f..916466a 100644
--- a/pkg/ddl/mysql/ddl.go
+++ b/pkg/ddl/mysql/ddl.go
@@ -1,6 +1,7 @@
 package mysql
 
 import (
+	"strconv"
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -83,6 +84,9 @@ func (i *Ident) StringForDiff() string {
 
 // stringForDiffInExpr is StringForDiff for an ident in an expression, where keywords are case-insensitive.
 func (i *Ident) stringForDiffInExpr() string {
+	if i != nil && i.QuotationMark == "'" {
+		return i.stringForDiffAsText()
+	}
 	if i != nil && i.QuotationMark == "" {
 		upper := strings.ToUpper(i.Name)
 		switch upper {
@@ -96,6 +100,14 @@ func (i *Ident) stringForDiffInExpr() string {
 	return i.StringForDiff()
 }
 
+// stringForDiffAsText keeps a text apart from a name or keyword spelled alike. Databases report numbers and booleans with or without quotes.
+func (i *Ident) stringForDiffAsText() string {
+	if _, err := strconv.ParseFloat(i.Name, 64); err == nil || strings.EqualFold(i.Name, "true") || strings.EqualFold(i.Name, "false") {
+		return i.StringForDiff()
+	}
+	return "'" + i.Name + "'"
+}
+
 type ColumnIdent struct {
 	Ident *Ident
 	Order *Order
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 719f917..0d7d321 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -384,6 +384,10 @@ func (d *Default) StringForDiff() string {
 			if i != 0 {
 				str += " "
 			}
+			if v.QuotationMark == `"` {
+				str += v.stringForDiffAsText()
+				continue
+			}
 			str += v.stringForDiffInExpr()
 		}
 		return str
diff --git a/pkg/ddl/postgres/ddl.go b/pkg/ddl/postgres/ddl.go
index ba6082c..4826e7f 100644
--- a/pkg/ddl/postgres/ddl.go
+++ b/pkg/ddl/postgres/ddl.go
@@ -1,6 +1,7 @@
 package postgres
 
 import (
+	"strconv"
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -83,6 +84,9 @@ func (i *Ident) StringForDiff() string {
 
 // stringForDiffInExpr is StringForDiff for an ident in an expression, where keywords are case-insensitive.
 func (i *Ident) stringForDiffInExpr() string {
+	if i != nil && i.QuotationMark == "'" {
+		return i.stringForDiffAsText()
+	}
 	if i != nil && i.QuotationMark == "" {
 		upper := strings.ToUpper(i.Name)
 		switch upper {
@@ -96,6 +100,14 @@ func (i *Ident) stringForDiffInExpr() string {
 	return i.StringForDiff()
 }
 
+// stringForDiffAsText keeps a text apart from a name or keyword spelled alike. Databases report numbers and booleans with or without quotes.
+func (i *Ident) stringForDiffAsText() string {
+	if _, err := strconv.ParseFloat(i.Name, 64); err == nil || strings.EqualFold(i.Name, "true") || strings.EqualFold(i.Name, "false") {
+		return i.StringForDiff()
+	}
+	return "'" + i.Name + "'"
+}
+
 type ColumnIdent struct {
 	Ident *Ident
 }
diff --git a/pkg/ddl/spanner/ddl.go b/pkg/ddl/spanner/ddl.go
index 8bbc3e5..fe2929a 100644
--- a/pkg/ddl/spanner/ddl.go
+++ b/pkg/ddl/spanner/ddl.go
@@ -1,6 +1,7 @@
 package spanner
 
 import (
+	"strconv"
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -83,6 +84,9 @@ func (i *Ident) StringForDiff() string {
 
 // stringForDiffInExpr is StringForDiff for an ident in an expression, where keywords are case-insensitive.
 func (i *Ident) stringForDiffInExpr() string {
+	if i != nil && i.QuotationMark == "'" {
+		return i.stringForDiffAsText()
+	}
 	if i != nil && i.QuotationMark == "" {
 		upper := strings.ToUpper(i.Name)
 		switch upper {
@@ -96,6 +100,14 @@ func (i *Ident) stringForDiffInExpr() string {
 	return i.StringForDiff()
 }
 
+// stringForDiffAsText keeps a text apart from a name or keyword spelled alike. Databases report numbers and booleans with or without quotes.
+func (i *Ident) stringForDiffAsText() string {
+	if _, err := strconv.ParseFloat(i.Name, 64); err == nil || strings.EqualFold(i.Name, "true") || strings.EqualFold(i.Name, "false") {
+		return i.StringForDiff()
+	}
+	return "'" + i.Name + "'"
+}
+
 type ColumnIdent struct {
 	Ident *Ident
 	Order *Order //diff:ignore-line-postgres-cockroach
diff --git a/pkg/ddl/spanner/ddl_table.go b/pkg/ddl/spanner/ddl_table.go
index 09be649..2cfbd9e 100644
--- a/pkg/ddl/spanner/ddl_table.go
+++ b/pkg/ddl/spanner/ddl_table.go
@@ -281,6 +281,10 @@ func (d *Default) StringForDiff() string {
 			if i != 0 {
 				str += " "
 			}
+			if v.QuotationMark == `"` {
+				str += v.stringForDiffAsText()
+				continue
+			}
 			str += v.stringForDiffInExpr()
 		}
 		str += ")"
-- 
2.43.0


From 614081fc060ad1fc1f57fb6e48dccc8559cc9e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:38 +0000
Subject: [PATCH 58/58] fix: the pause between retries overflows after a few
 dozen of them

---
 pkg/ddlctl/apply/ddlctl_apply.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ddlctl/apply/ddlctl_apply.go b/pkg/ddlctl/apply/ddlctl_apply.go
index 57a30bf..ff88985 100644
--- a/pkg/ddlctl/apply/ddlctl_apply.go
+++ b/pkg/ddlctl/apply/ddlctl_apply.go
@@ -205,7 +205,9 @@ func splitExec(
 ) error {
 	ddls := util.SplitStatements("--", ddlStr, backslashEscapes)
 	const interval = 500 * time.Millisecond
-	retryer := retry.New(ctx, retry.NewConfig(interval, interval, retry.WithMaxRetries(len(ddls))))
+	// the interval does not grow: the default backoff doubles it without limit, so that it overflows after a few dozen retries.
+	constant := func(interval time.Duration, _ int) time.Duration { return interval }
+	retryer := retry.New(ctx, retry.NewConfig(interval, interval, retry.WithMaxRetries(len(ddls)), retry.WithBackoff(constant)))
 	if err := retryer.Do(func(ctx context.Context) error {
 		var outerErr error
 		var pending []string // a statement that has succeeded must not be executed again
-- 
2.43.0

