From c0890742fd34846e3196cef709ceabb2d8c8e3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 001/114] fix: lex 0x3E+1 as a hexadecimal number and an
 addition

---
 build/lex.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/build/lex.go b/build/lex.go
index 30639ea..b6b4a55 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -626,8 +626,9 @@ func (in *input) Lex(val *yySymType) int {
 		if !isIdent(c) {
 			if c == '+' || c == '-' {
 				t := in.peekToken()
-				// Parse 12.3e-4 and 12.3E+4 as a single token.
-				if !(len(t) > 0 && t[0] >= '0' && t[0] <= '9' && (t[len(t)-1] == 'e' || t[len(t)-1] == 'E')) {
+				// Parse 12.3e-4 and 12.3E+4 as a single token, but not 0x3e-4.
+				if !(len(t) > 0 && t[0] >= '0' && t[0] <= '9' && (t[len(t)-1] == 'e' || t[len(t)-1] == 'E')) ||
+					bytes.HasPrefix(t, []byte("0x")) || bytes.HasPrefix(t, []byte("0X")) {
 					break
 				}
 			} else {
-- 
2.43.0


From bd0e30c8dfdb74ef6fc909af97e9b025097ac955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 002/114] fix: parse &=, ^=, <<= and >>= as assignments

---
 build/parse.y    | 2 +-
 build/parse.y.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/build/parse.y b/build/parse.y
index 0eaf470..7b23b4c 100644
--- a/build/parse.y
+++ b/build/parse.y
@@ -1076,7 +1076,7 @@ func binary(x Expr, pos Position, op string, y Expr) Expr {
 	ystart, _ := y.Span()
 
 	switch op {
-	case "=", "+=", "-=", "*=", "/=", "//=", "%=", "|=":
+	case "=", "+=", "-=", "*=", "/=", "//=", "%=", "&=", "|=", "^=", "<<=", ">>=":
 		return &AssignExpr{
 			LHS:       x,
 			OpPos:     pos,
diff --git a/build/parse.y.go b/build/parse.y.go
index 11dec91..794b9ab 100644
--- a/build/parse.y.go
+++ b/build/parse.y.go
@@ -165,7 +165,7 @@ func binary(x Expr, pos Position, op string, y Expr) Expr {
 	ystart, _ := y.Span()
 
 	switch op {
-	case "=", "+=", "-=", "*=", "/=", "//=", "%=", "|=":
+	case "=", "+=", "-=", "*=", "/=", "//=", "%=", "&=", "|=", "^=", "<<=", ">>=":
 		return &AssignExpr{
 			LHS:       x,
 			OpPos:     pos,
-- 
2.43.0


From 5939b672958de63940b69c7b9b8232f1a4ba433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 003/114] fix: conditional expressions are right-associative
 and bind tighter than the comma

---
 build/parse.y    | 8 ++++----
 build/parse.y.go | 4 ++--
 build/print.go   | 7 ++++---
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/build/parse.y b/build/parse.y
index 7b23b4c..36e5a11 100644
--- a/build/parse.y
+++ b/build/parse.y
@@ -185,11 +185,11 @@ package build
 // e.g. "x = a if c > 0 else 'bar'"
 // followed by
 // 'if' and 'else' which have lower precedence than all other operators.
-// e.g. "a, b if c > 0 else 'foo'" is either a tuple of (a,b) or 'foo'
-// and not a tuple of "(a, (b if ... ))"
+// except for the comma,
+// e.g. "a, b if c > 0 else 'foo'" is a tuple of "(a, (b if ... ))"
 %left  '=' _AUGM
-%left  _IF _ELSE _ELIF
 %left  ','
+%right _IF _ELSE _ELIF
 %left  ':'
 %left  _IS
 %left  _OR
@@ -1037,7 +1037,7 @@ for_clause_with_if_clauses_opt:
 	{
 		$$ = []Expr{$1}
 	}
-|	for_clause_with_if_clauses_opt _IF test
+|	for_clause_with_if_clauses_opt _IF test %prec _IN
 	{
 		$$ = append($1, &IfClause{
 			If: $2,
diff --git a/build/parse.y.go b/build/parse.y.go
index 794b9ab..1571c77 100644
--- a/build/parse.y.go
+++ b/build/parse.y.go
@@ -532,7 +532,7 @@ var yyPact = [...]int16{
 	971, 191, 206, -1000, 152, 21, 21, -1000, -1000, -1000,
 	-1000, 200, 136, 547, 200, 73, 110, 205, 461, 200,
 	214, 590, 8, -1000, -35, 632, -1000, -1000, -1000, 971,
-	72, 204, 204, 684, 590, 174, 365, -1000, -1000, -1000,
+	72, 204, 204, 590, 590, 174, 365, -1000, -1000, -1000,
 	-1000, -1000, 90, 90, 1005, 1005, 1005, 1005, 1005, 1005,
 	1005, 971, 770, 813, 889, 131, 347, 35, 35, 727,
 	504, 75, 365, -1000, 213, 200, 899, 203, -1000, 124,
@@ -543,7 +543,7 @@ var yyPact = [...]int16{
 	21, -1000, -1000, -1000, 855, -1000, 590, 150, 971, 971,
 	-1000, -1000, 971, -1000, -1000, 590, 200, -1000, 4, 971,
 	43, 590, -1000, -1000, 590, -1000, 461, -1000, -37, -1000,
-	-1000, 365, -1000, 684, -1000, -1000, 75, 971, 179, 178,
+	-1000, 365, -1000, 590, -1000, -1000, 75, 971, 179, 178,
 	-1000, 971, 590, 590, 133, 590, 58, 684, 971, 260,
 	-1000, -1000, -1000, 418, 971, 971, 590, -1000, 971, 197,
 	-1000, -1000, 143, 684, -1000, 971, 590, 590, 92, 210,
diff --git a/build/print.go b/build/print.go
index 0492dd4..b8c71f7 100644
--- a/build/print.go
+++ b/build/print.go
@@ -840,10 +840,11 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		p.listFor(v)
 
 	case *ConditionalExpr:
-		addParen(precSuffix)
-		p.expr(v.Then, precIfElse)
+		addParen(precIfElse)
+		// Conditional expressions are right-associative.
+		p.expr(v.Then, precIfElse+1)
 		p.printf(" if ")
-		p.expr(v.Test, precIfElse)
+		p.expr(v.Test, precIfElse+1)
 		p.printf(" else ")
 		p.expr(v.Else, precIfElse)
 
-- 
2.43.0


From 41d5386c0fe1e75a51caaeed05d25b1b2e0935c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 004/114] fix: not binds looser than comparisons and other
 operators

---
 build/parse.y    |   3 +-
 build/parse.y.go | 268 ++++++++++++++++++++++++-----------------------
 build/print.go   |  15 ++-
 3 files changed, 148 insertions(+), 138 deletions(-)

diff --git a/build/parse.y b/build/parse.y
index 36e5a11..de0828a 100644
--- a/build/parse.y
+++ b/build/parse.y
@@ -194,6 +194,7 @@ package build
 %left  _IS
 %left  _OR
 %left  _AND
+%right _UNARY_NOT
 %left  '<' '>' _EQ _NE _LE _GE _NOT _IN
 %left  '|'
 %left  '^'
@@ -836,7 +837,7 @@ test:
 			},
 		}
 	}
-|	_NOT test %prec _UNARY { $$ = unary($1, $<tok>1, $2) }
+|	_NOT test %prec _UNARY_NOT { $$ = unary($1, $<tok>1, $2) }
 |	'-' test  %prec _UNARY { $$ = unary($1, $<tok>1, $2) }
 |	'+' test  %prec _UNARY { $$ = unary($1, $<tok>1, $2) }
 |	'~' test  %prec _UNARY { $$ = unary($1, $<tok>1, $2) }
diff --git a/build/parse.y.go b/build/parse.y.go
index 1571c77..a38d8a9 100644
--- a/build/parse.y.go
+++ b/build/parse.y.go
@@ -71,7 +71,8 @@ const _INDENT = 57377
 const _UNINDENT = 57378
 const ShiftInstead = 57379
 const _ASSERT = 57380
-const _UNARY = 57381
+const _UNARY_NOT = 57381
+const _UNARY = 57382
 
 var yyToknames = [...]string{
 	"$end",
@@ -134,6 +135,7 @@ var yyToknames = [...]string{
 	"ShiftInstead",
 	"'\\n'",
 	"_ASSERT",
+	"_UNARY_NOT",
 	"_UNARY",
 	"';'",
 }
@@ -144,7 +146,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line build/parse.y:1058
+//line build/parse.y:1059
 
 // Go helper code.
 
@@ -525,11 +527,11 @@ var yyPact = [...]int16{
 	192, 72, -1000, 173, 971, -1000, -1000, -1000, -10, 49,
 	590, 68, 971, 151, 88, 971, 971, 971, 971, -1000,
 	-1000, -1000, 217, 971, 971, 971, -1000, 175, 13, -1000,
-	-1000, -41, 365, 78, 151, 971, 971, 971, 204, 971,
+	-1000, -42, 365, 78, 151, 971, 971, 971, 204, 971,
 	971, 106, -1000, 971, 971, 971, 971, 971, 971, 971,
 	971, 971, 971, 971, 971, 971, 3, 971, 971, 971,
 	971, 971, 971, 971, 971, 971, 216, 180, 54, 200,
-	971, 191, 206, -1000, 152, 21, 21, -1000, -1000, -1000,
+	971, 191, 206, -1000, 152, 21, 21, 813, -1000, -1000,
 	-1000, 200, 136, 547, 200, 73, 110, 205, 461, 200,
 	214, 590, 8, -1000, -35, 632, -1000, -1000, -1000, 971,
 	72, 204, 204, 590, 590, 174, 365, -1000, -1000, -1000,
@@ -605,7 +607,7 @@ var yyChk = [...]int16{
 	22, 23, 45, 46, 38, 34, 32, -17, 11, 5,
 	17, -9, -8, -7, -24, 7, 43, -13, -13, -13,
 	-13, 5, -15, -13, -19, -35, -36, -19, -13, -37,
-	-15, -13, 11, 33, -47, 62, -39, 59, -32, 37,
+	-15, -13, 11, 33, -47, 63, -39, 59, -32, 37,
 	9, -17, -17, -13, -13, -17, 13, 34, -13, -13,
 	-13, -13, -13, -13, -13, -13, -13, -13, -13, -13,
 	-13, 37, -13, -13, -13, -13, -13, -13, -13, -13,
@@ -660,7 +662,7 @@ var yyTok1 = [...]int8{
 	3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
 	3, 3, 3, 3, 3, 3, 3, 4, 22, 3,
 	5, 6, 7, 8, 9, 10, 11, 12, 3, 3,
-	3, 3, 3, 3, 3, 3, 3, 3, 13, 62,
+	3, 3, 3, 3, 3, 3, 3, 3, 13, 63,
 	14, 15, 16, 3, 3, 3, 3, 3, 3, 3,
 	3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
 	3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
@@ -674,7 +676,7 @@ var yyTok2 = [...]int8{
 	2, 3, 25, 26, 27, 28, 29, 30, 31, 32,
 	33, 34, 35, 36, 37, 38, 39, 40, 41, 42,
 	43, 44, 45, 46, 47, 48, 49, 50, 51, 52,
-	53, 54, 55, 56, 57, 58, 60, 61,
+	53, 54, 55, 56, 57, 58, 60, 61, 62,
 }
 
 var yyTok3 = [...]int8{
@@ -1020,14 +1022,14 @@ yydefault:
 
 	case 1:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:218
+//line build/parse.y:219
 		{
 			yylex.(*input).file = &File{Stmt: yyDollar[1].exprs}
 			return 0
 		}
 	case 2:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:225
+//line build/parse.y:226
 		{
 			statements := yyDollar[4].exprs
 			if yyDollar[2].exprs != nil {
@@ -1049,20 +1051,20 @@ yydefault:
 		}
 	case 3:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:245
+//line build/parse.y:246
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 6:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:253
+//line build/parse.y:254
 		{
 			yyVAL.exprs = nil
 			yyVAL.lastStmt = nil
 		}
 	case 7:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:258
+//line build/parse.y:259
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 			yyVAL.lastStmt = yyDollar[1].lastStmt
@@ -1076,21 +1078,21 @@ yydefault:
 		}
 	case 8:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:270
+//line build/parse.y:271
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 			yyVAL.lastStmt = nil
 		}
 	case 9:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:276
+//line build/parse.y:277
 		{
 			yyVAL.exprs = nil
 			yyVAL.lastStmt = nil
 		}
 	case 10:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:281
+//line build/parse.y:282
 		{
 			// If this statement follows a comment block,
 			// attach the comments to the statement.
@@ -1123,7 +1125,7 @@ yydefault:
 		}
 	case 11:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:312
+//line build/parse.y:313
 		{
 			// Blank line; sever last rule from future comments.
 			yyVAL.exprs = yyDollar[1].exprs
@@ -1131,7 +1133,7 @@ yydefault:
 		}
 	case 12:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:318
+//line build/parse.y:319
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 			yyVAL.lastStmt = yyDollar[1].lastStmt
@@ -1145,14 +1147,14 @@ yydefault:
 		}
 	case 13:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:332
+//line build/parse.y:333
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 			yyVAL.lastStmt = yyDollar[1].exprs[len(yyDollar[1].exprs)-1]
 		}
 	case 14:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:337
+//line build/parse.y:338
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 			yyVAL.lastStmt = yyDollar[1].expr
@@ -1166,7 +1168,7 @@ yydefault:
 		}
 	case 15:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:351
+//line build/parse.y:352
 		{
 			yyVAL.def_header = &DefStmt{
 				Function: Function{
@@ -1180,14 +1182,14 @@ yydefault:
 		}
 	case 17:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:366
+//line build/parse.y:367
 		{
 			yyDollar[1].def_header.Type = yyDollar[3].expr
 			yyVAL.def_header = yyDollar[1].def_header
 		}
 	case 18:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:373
+//line build/parse.y:374
 		{
 			yyDollar[1].def_header.Function.Body = yyDollar[3].exprs
 			yyDollar[1].def_header.ColonPos = yyDollar[2].pos
@@ -1196,7 +1198,7 @@ yydefault:
 		}
 	case 19:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line build/parse.y:380
+//line build/parse.y:381
 		{
 			yyVAL.expr = &ForStmt{
 				For:  yyDollar[1].pos,
@@ -1208,14 +1210,14 @@ yydefault:
 		}
 	case 20:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:390
+//line build/parse.y:391
 		{
 			yyVAL.expr = yyDollar[1].ifstmt
 			yyVAL.lastStmt = yyDollar[1].lastStmt
 		}
 	case 21:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:398
+//line build/parse.y:399
 		{
 			yyVAL.ifstmt = &IfStmt{
 				If:   yyDollar[1].pos,
@@ -1226,7 +1228,7 @@ yydefault:
 		}
 	case 22:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:407
+//line build/parse.y:408
 		{
 			yyVAL.ifstmt = yyDollar[1].ifstmt
 			inner := yyDollar[1].ifstmt
@@ -1245,7 +1247,7 @@ yydefault:
 		}
 	case 24:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:428
+//line build/parse.y:429
 		{
 			yyVAL.ifstmt = yyDollar[1].ifstmt
 			inner := yyDollar[1].ifstmt
@@ -1258,26 +1260,26 @@ yydefault:
 		}
 	case 27:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:445
+//line build/parse.y:446
 		{
 			yyVAL.exprs = append([]Expr{yyDollar[1].expr}, yyDollar[2].exprs...)
 			yyVAL.lastStmt = yyVAL.exprs[len(yyVAL.exprs)-1]
 		}
 	case 28:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:451
+//line build/parse.y:452
 		{
 			yyVAL.exprs = []Expr{}
 		}
 	case 29:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:455
+//line build/parse.y:456
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 31:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:462
+//line build/parse.y:463
 		{
 			yyVAL.expr = &ReturnStmt{
 				Return: yyDollar[1].pos,
@@ -1286,7 +1288,7 @@ yydefault:
 		}
 	case 32:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:469
+//line build/parse.y:470
 		{
 			yyVAL.expr = &ReturnStmt{
 				Return: yyDollar[1].pos,
@@ -1294,19 +1296,19 @@ yydefault:
 		}
 	case 33:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:474
+//line build/parse.y:475
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 34:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:475
+//line build/parse.y:476
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 35:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:477
+//line build/parse.y:478
 		{
 			yyVAL.expr = &BranchStmt{
 				Token:    yyDollar[1].tok,
@@ -1315,7 +1317,7 @@ yydefault:
 		}
 	case 36:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:484
+//line build/parse.y:485
 		{
 			yyVAL.expr = &BranchStmt{
 				Token:    yyDollar[1].tok,
@@ -1324,7 +1326,7 @@ yydefault:
 		}
 	case 37:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:491
+//line build/parse.y:492
 		{
 			yyVAL.expr = &BranchStmt{
 				Token:    yyDollar[1].tok,
@@ -1333,13 +1335,13 @@ yydefault:
 		}
 	case 42:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:505
+//line build/parse.y:506
 		{
 			yyVAL.expr = yyDollar[1].string
 		}
 	case 43:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:509
+//line build/parse.y:510
 		{
 			yyVAL.expr = &DotExpr{
 				X:       yyDollar[1].expr,
@@ -1350,7 +1352,7 @@ yydefault:
 		}
 	case 44:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line build/parse.y:518
+//line build/parse.y:519
 		{
 			load := &LoadStmt{
 				Load:         yyDollar[1].pos,
@@ -1366,7 +1368,7 @@ yydefault:
 		}
 	case 45:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:532
+//line build/parse.y:533
 		{
 			yyVAL.expr = &CallExpr{
 				X:              yyDollar[1].expr,
@@ -1379,7 +1381,7 @@ yydefault:
 		}
 	case 46:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:543
+//line build/parse.y:544
 		{
 			yyVAL.expr = &IndexExpr{
 				X:          yyDollar[1].expr,
@@ -1390,7 +1392,7 @@ yydefault:
 		}
 	case 47:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line build/parse.y:552
+//line build/parse.y:553
 		{
 			yyVAL.expr = &SliceExpr{
 				X:          yyDollar[1].expr,
@@ -1403,7 +1405,7 @@ yydefault:
 		}
 	case 48:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line build/parse.y:563
+//line build/parse.y:564
 		{
 			yyVAL.expr = &SliceExpr{
 				X:           yyDollar[1].expr,
@@ -1418,7 +1420,7 @@ yydefault:
 		}
 	case 49:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:576
+//line build/parse.y:577
 		{
 			yyVAL.expr = &ListExpr{
 				Start:          yyDollar[1].pos,
@@ -1429,7 +1431,7 @@ yydefault:
 		}
 	case 50:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:585
+//line build/parse.y:586
 		{
 			yyVAL.expr = &Comprehension{
 				Curly:          false,
@@ -1442,7 +1444,7 @@ yydefault:
 		}
 	case 51:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:596
+//line build/parse.y:597
 		{
 			yyVAL.expr = &Comprehension{
 				Curly:          true,
@@ -1455,7 +1457,7 @@ yydefault:
 		}
 	case 52:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:607
+//line build/parse.y:608
 		{
 			exprValues := make([]Expr, 0, len(yyDollar[2].kvs))
 			for _, kv := range yyDollar[2].kvs {
@@ -1470,7 +1472,7 @@ yydefault:
 		}
 	case 53:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:620
+//line build/parse.y:621
 		{
 			yyVAL.expr = &SetExpr{
 				Start:          yyDollar[1].pos,
@@ -1481,7 +1483,7 @@ yydefault:
 		}
 	case 54:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:629
+//line build/parse.y:630
 		{
 			if len(yyDollar[2].exprs) == 1 && yyDollar[2].comma.Line == 0 {
 				// Just a parenthesized expression, not a tuple.
@@ -1503,49 +1505,49 @@ yydefault:
 		}
 	case 55:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:650
+//line build/parse.y:651
 		{
 			yyVAL.exprs = nil
 		}
 	case 56:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:654
+//line build/parse.y:655
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 57:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:660
+//line build/parse.y:661
 		{
 			yyVAL.exprs = []Expr{yyDollar[2].expr}
 		}
 	case 58:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:664
+//line build/parse.y:665
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 60:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:671
+//line build/parse.y:672
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 61:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:675
+//line build/parse.y:676
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 62:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:679
+//line build/parse.y:680
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 63:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:684
+//line build/parse.y:685
 		{
 			yyVAL.loadargs = []*struct {
 				from Ident
@@ -1554,14 +1556,14 @@ yydefault:
 		}
 	case 64:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:688
+//line build/parse.y:689
 		{
 			yyDollar[1].loadargs = append(yyDollar[1].loadargs, yyDollar[3].loadarg)
 			yyVAL.loadargs = yyDollar[1].loadargs
 		}
 	case 65:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:694
+//line build/parse.y:695
 		{
 			start := yyDollar[1].string.Start.add("'")
 			if yyDollar[1].string.TripleQuote {
@@ -1583,7 +1585,7 @@ yydefault:
 		}
 	case 66:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:711
+//line build/parse.y:712
 		{
 			start := yyDollar[3].string.Start.add("'")
 			if yyDollar[3].string.TripleQuote {
@@ -1602,103 +1604,103 @@ yydefault:
 		}
 	case 67:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:726
+//line build/parse.y:727
 		{
 			yyVAL.exprs = nil
 		}
 	case 68:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:730
+//line build/parse.y:731
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 69:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:735
+//line build/parse.y:736
 		{
 			yyVAL.exprs = nil
 		}
 	case 70:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:739
+//line build/parse.y:740
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 71:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:745
+//line build/parse.y:746
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 		}
 	case 72:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:749
+//line build/parse.y:750
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 73:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:756
+//line build/parse.y:757
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 		}
 	case 74:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:760
+//line build/parse.y:761
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 76:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:767
+//line build/parse.y:768
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 77:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:771
+//line build/parse.y:772
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 78:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:775
+//line build/parse.y:776
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, nil)
 		}
 	case 79:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:779
+//line build/parse.y:780
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 81:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:788
+//line build/parse.y:789
 		{
 			yyVAL.expr = typed(yyDollar[1].expr, yyDollar[3].expr)
 		}
 	case 82:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:792
+//line build/parse.y:793
 		{
 			yyVAL.expr = binary(typed(yyDollar[1].expr, yyDollar[3].expr), yyDollar[4].pos, yyDollar[4].tok, yyDollar[5].expr)
 		}
 	case 83:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:796
+//line build/parse.y:797
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, typed(yyDollar[2].expr, yyDollar[4].expr))
 		}
 	case 84:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:800
+//line build/parse.y:801
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, typed(yyDollar[2].expr, yyDollar[4].expr))
 		}
 	case 86:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:807
+//line build/parse.y:808
 		{
 			tuple, ok := yyDollar[1].expr.(*TupleExpr)
 			if !ok || !tuple.NoBrackets {
@@ -1714,13 +1716,13 @@ yydefault:
 		}
 	case 87:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:822
+//line build/parse.y:823
 		{
 			yyVAL.expr = nil
 		}
 	case 90:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:830
+//line build/parse.y:831
 		{
 			yyVAL.expr = &LambdaExpr{
 				Function: Function{
@@ -1732,157 +1734,157 @@ yydefault:
 		}
 	case 91:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:839
+//line build/parse.y:840
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 92:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:840
+//line build/parse.y:841
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 93:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:841
+//line build/parse.y:842
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 94:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:842
+//line build/parse.y:843
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 95:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:843
+//line build/parse.y:844
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 96:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:844
+//line build/parse.y:845
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 97:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:845
+//line build/parse.y:846
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 98:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:846
+//line build/parse.y:847
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 99:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:847
+//line build/parse.y:848
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 100:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:848
+//line build/parse.y:849
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 101:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:849
+//line build/parse.y:850
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 102:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:850
+//line build/parse.y:851
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 103:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:851
+//line build/parse.y:852
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 104:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:852
+//line build/parse.y:853
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 105:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:853
+//line build/parse.y:854
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 106:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:854
+//line build/parse.y:855
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 107:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:855
+//line build/parse.y:856
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 108:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:856
+//line build/parse.y:857
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, "not in", yyDollar[4].expr)
 		}
 	case 109:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:857
+//line build/parse.y:858
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 110:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:858
+//line build/parse.y:859
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 111:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:859
+//line build/parse.y:860
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 112:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:860
+//line build/parse.y:861
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 113:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:861
+//line build/parse.y:862
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 114:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:862
+//line build/parse.y:863
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 115:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:863
+//line build/parse.y:864
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 116:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:865
+//line build/parse.y:866
 		{
 			if b, ok := yyDollar[3].expr.(*UnaryExpr); ok && b.Op == "not" {
 				yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, "is not", b.X)
@@ -1892,7 +1894,7 @@ yydefault:
 		}
 	case 117:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:873
+//line build/parse.y:874
 		{
 			yyVAL.expr = &ConditionalExpr{
 				Then:      yyDollar[1].expr,
@@ -1904,55 +1906,55 @@ yydefault:
 		}
 	case 118:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:885
+//line build/parse.y:886
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 		}
 	case 119:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:889
+//line build/parse.y:890
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 120:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:894
+//line build/parse.y:895
 		{
 			yyVAL.expr = nil
 		}
 	case 122:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:900
+//line build/parse.y:901
 		{
 			yyVAL.exprs, yyVAL.comma = nil, Position{}
 		}
 	case 123:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:904
+//line build/parse.y:905
 		{
 			yyVAL.exprs, yyVAL.comma = yyDollar[1].exprs, yyDollar[2].pos
 		}
 	case 124:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:914
+//line build/parse.y:915
 		{
 			yyVAL.pos = Position{}
 		}
 	case 127:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:925
+//line build/parse.y:926
 		{
 			yyVAL.pos = yyDollar[1].pos
 		}
 	case 128:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:933
+//line build/parse.y:934
 		{
 			yyVAL.pos = Position{}
 		}
 	case 130:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:940
+//line build/parse.y:941
 		{
 			yyVAL.kv = &KeyValueExpr{
 				Key:   yyDollar[1].expr,
@@ -1962,37 +1964,37 @@ yydefault:
 		}
 	case 131:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:950
+//line build/parse.y:951
 		{
 			yyVAL.kvs = []*KeyValueExpr{yyDollar[1].kv}
 		}
 	case 132:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:954
+//line build/parse.y:955
 		{
 			yyVAL.kvs = append(yyDollar[1].kvs, yyDollar[3].kv)
 		}
 	case 133:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:959
+//line build/parse.y:960
 		{
 			yyVAL.kvs = nil
 		}
 	case 134:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:963
+//line build/parse.y:964
 		{
 			yyVAL.kvs = yyDollar[1].kvs
 		}
 	case 135:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:967
+//line build/parse.y:968
 		{
 			yyVAL.kvs = yyDollar[1].kvs
 		}
 	case 137:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:974
+//line build/parse.y:975
 		{
 			tuple, ok := yyDollar[1].expr.(*TupleExpr)
 			if !ok || !tuple.NoBrackets {
@@ -2008,7 +2010,7 @@ yydefault:
 		}
 	case 138:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:990
+//line build/parse.y:991
 		{
 			yyVAL.string = &StringExpr{
 				Start:       yyDollar[1].pos,
@@ -2020,37 +2022,37 @@ yydefault:
 		}
 	case 139:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:1002
+//line build/parse.y:1003
 		{
 			yyVAL.expr = &Ident{NamePos: yyDollar[1].pos, Name: yyDollar[1].tok}
 		}
 	case 140:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:1008
+//line build/parse.y:1009
 		{
 			yyVAL.expr = &LiteralExpr{Start: yyDollar[1].pos, Token: yyDollar[1].tok + "." + yyDollar[3].tok}
 		}
 	case 141:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:1012
+//line build/parse.y:1013
 		{
 			yyVAL.expr = &LiteralExpr{Start: yyDollar[1].pos, Token: yyDollar[1].tok + "."}
 		}
 	case 142:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:1016
+//line build/parse.y:1017
 		{
 			yyVAL.expr = &LiteralExpr{Start: yyDollar[1].pos, Token: "." + yyDollar[2].tok}
 		}
 	case 143:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:1020
+//line build/parse.y:1021
 		{
 			yyVAL.expr = &LiteralExpr{Start: yyDollar[1].pos, Token: yyDollar[1].tok}
 		}
 	case 144:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:1026
+//line build/parse.y:1027
 		{
 			yyVAL.expr = &ForClause{
 				For:  yyDollar[1].pos,
@@ -2061,13 +2063,13 @@ yydefault:
 		}
 	case 145:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:1037
+//line build/parse.y:1038
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 		}
 	case 146:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:1041
+//line build/parse.y:1042
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, &IfClause{
 				If:   yyDollar[2].pos,
@@ -2076,13 +2078,13 @@ yydefault:
 		}
 	case 147:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:1050
+//line build/parse.y:1051
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 148:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:1054
+//line build/parse.y:1055
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[2].exprs...)
 		}
diff --git a/build/print.go b/build/print.go
index b8c71f7..0c8a430 100644
--- a/build/print.go
+++ b/build/print.go
@@ -515,6 +515,7 @@ const (
 	precIfElse
 	precOr
 	precAnd
+	precNot
 	precCmp
 	precBitwiseOr
 	precBitwiseXor
@@ -703,16 +704,22 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		p.printf("]")
 
 	case *UnaryExpr:
-		addParen(precUnary)
+		// Use the next precedence level (precSuffix), so that nested unary expressions are parenthesized,
+		// for example: `not (-(+(~foo)))` instead of `not -+~foo`
+		operandPrec := precSuffix
 		if v.Op == "not" {
+			addParen(precNot)
+			if _, ok := v.X.(*UnaryExpr); !ok {
+				// `not` binds looser than comparisons and all other operators except `and` and `or`.
+				operandPrec = precCmp
+			}
 			p.printf("not ") // Requires a space after it.
 		} else {
+			addParen(precUnary)
 			p.printf("%s", v.Op)
 		}
-		// Use the next precedence level (precSuffix), so that nested unary expressions are parenthesized,
-		// for example: `not (-(+(~foo)))` instead of `not -+~foo`
 		if v.X != nil {
-			p.expr(v.X, precSuffix)
+			p.expr(v.X, operandPrec)
 		}
 
 	case *LambdaExpr:
-- 
2.43.0


From cf59fa756cc1d815268b65b01007c3e316a035b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 005/114] fix: rewriting of floats with a leading or exponent
 zero

---
 build/rewrite.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index e500beb..ab2078e 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1395,7 +1395,7 @@ func editOctals(f *File, _ *Rewriter) {
 		if !ok {
 			return
 		}
-		if len(l.Token) > 1 && l.Token[0] == '0' && l.Token[1] >= '0' && l.Token[1] <= '9' {
+		if len(l.Token) > 1 && l.Token[0] == '0' && strings.Trim(l.Token, "01234567") == "" {
 			l.Token = "0o" + l.Token[1:]
 		}
 	})
@@ -1426,7 +1426,11 @@ func editFloats(f *File, _ *Rewriter) {
 			// Invalid float, skip rewriting.
 			return
 		}
-		l.Token = parts[0] + "e" + strings.TrimLeft(parts[1], "0+")
+		exponent := strings.TrimLeft(parts[1], "0+")
+		if exponent == "" {
+			exponent = "0"
+		}
+		l.Token = parts[0] + "e" + exponent
 	})
 }
 
-- 
2.43.0


From 863ada187c27091aa5b4f09676f0f30cfd4db7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 006/114] fix: keep the parentheses of a number followed by a
 dot

---
 build/print.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/build/print.go b/build/print.go
index 0c8a430..121139a 100644
--- a/build/print.go
+++ b/build/print.go
@@ -660,7 +660,16 @@ func (p *printer) expr(v Expr, outerPrec int) {
 
 	case *DotExpr:
 		addParen(precSuffix)
-		p.expr(v.X, precSuffix)
+		if _, ok := v.X.(*LiteralExpr); ok {
+			// A dot following a number would be parsed as its decimal point.
+			p.printf("(")
+			p.depth++
+			p.expr(v.X, precLow)
+			p.depth--
+			p.printf(")")
+		} else {
+			p.expr(v.X, precSuffix)
+		}
 		_, xEnd := v.X.Span()
 		isMultiline := isDifferentLines(&v.NamePos, &xEnd)
 		if isMultiline {
-- 
2.43.0


From c15f8aa4467fd78f9cc8235d07dfcfbbafae96b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 007/114] fix: no brackets depth and trailing comma for
 implicit tuples

---
 build/print.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/build/print.go b/build/print.go
index 121139a..068af7c 100644
--- a/build/print.go
+++ b/build/print.go
@@ -1058,16 +1058,15 @@ func (p *printer) seq(brack string, start *Position, list *[]Expr, end *End, mod
 		}
 	}
 
+	// Implicit tuples have no brackets.
 	if mode != modeSeq {
 		p.printf("%s", brack[:1])
-	}
-	p.depth++
-	defer func() {
-		p.depth--
-		if mode != modeSeq {
+		p.depth++
+		defer func() {
+			p.depth--
 			p.printf("%s", brack[1:])
-		}
-	}()
+		}()
+	}
 
 	if p.useCompactMode(start, args, end, mode, forceCompact, forceMultiLine) {
 		for i, x := range *args {
@@ -1124,9 +1123,7 @@ func (p *printer) seq(brack string, start *Position, list *[]Expr, end *End, mod
 
 func needsTrailingComma(mode seqMode, v Expr) bool {
 	switch mode {
-	case modeDef:
-		return false
-	case modeParen:
+	case modeDef, modeParen, modeSeq:
 		return false
 	case modeCall:
 		// *args and **kwargs in fn calls
-- 
2.43.0


From eb2a4a9c6d83abea4228f1925f2d0dd070a0118f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 008/114] fix: keep the comments of removed duplicates and
 merged load statements

---
 build/rewrite.go | 57 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index ab2078e..b095444 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -530,22 +530,24 @@ func sortStringLists(f *File, w *Rewriter) {
 
 // deduplicateStringList removes duplicates from a list with string expressions
 // without reordering its elements.
-// Any suffix-comments are lost, any before- and after-comments are preserved.
+// All comments are preserved: suffix-comments move to the first occurrence of the string,
+// before- and after-comments move to the next remaining element or to the end of the list.
 func deduplicateStringList(x Expr) {
 	list, ok := x.(*ListExpr)
 	if !ok {
 		return
 	}
 
-	list.List = deduplicateStringExprs(list.List)
+	list.List = deduplicateStringExprs(list.List, &list.End)
 }
 
 // deduplicateStringExprs removes duplicate string expressions from a slice
 // without reordering its elements.
-// Any suffix-comments are lost, any before- and after-comments are preserved.
-func deduplicateStringExprs(list []Expr) []Expr {
+// All comments are preserved: suffix-comments move to the first occurrence of the string,
+// before- and after-comments move to the next remaining element or to the end of the list.
+func deduplicateStringExprs(list []Expr, end *End) []Expr {
 	var comments []Comment
-	alreadySeen := make(map[string]bool)
+	alreadySeen := make(map[string]*StringExpr)
 	var deduplicated []Expr
 	for _, value := range list {
 		str, ok := value.(*StringExpr)
@@ -554,14 +556,15 @@ func deduplicateStringExprs(list []Expr) []Expr {
 			continue
 		}
 		strVal := str.Value
-		if _, ok := alreadySeen[strVal]; ok {
+		if first, ok := alreadySeen[strVal]; ok {
 			// This is a duplicate of a string above.
 			// Collect comments so that they're not lost.
 			comments = append(comments, str.Comment().Before...)
 			comments = append(comments, str.Comment().After...)
+			first.Comment().Suffix = mergeSuffix(first.Comment().Suffix, str.Comment().Suffix)
 			continue
 		}
-		alreadySeen[strVal] = true
+		alreadySeen[strVal] = str
 		if len(comments) > 0 {
 			comments = append(comments, value.Comment().Before...)
 			value.Comment().Before = comments
@@ -569,9 +572,33 @@ func deduplicateStringExprs(list []Expr) []Expr {
 		}
 		deduplicated = append(deduplicated, value)
 	}
+	// The last elements were duplicates, their comments stay at the end of the list.
+	end.Before = append(comments, end.Before...)
 	return deduplicated
 }
 
+// moveComments appends all comments of one expression to those of another one.
+func moveComments(from, to Expr) {
+	src, dst := from.Comment(), to.Comment()
+	dst.Before = append(dst.Before, src.Before...)
+	dst.Suffix = mergeSuffix(dst.Suffix, src.Suffix)
+	dst.After = append(dst.After, src.After...)
+	*src = Comments{}
+}
+
+// mergeSuffix joins the suffix comments of two expressions to one comment
+// because only one of them fits on the line.
+func mergeSuffix(first, second []Comment) []Comment {
+	if len(first) == 0 || len(second) == 0 {
+		return append(first, second...)
+	}
+	merged := append([]Comment{}, first...)
+	for _, comment := range second {
+		merged[len(merged)-1].Token += " " + comment.Token
+	}
+	return merged
+}
+
 // SortStringList sorts x, a list of strings.
 // The list is broken by non-strings and by blank lines and comments into chunks.
 // Each chunk is sorted in place.
@@ -582,7 +609,7 @@ func SortStringList(x Expr) {
 	}
 
 	if doNotSort(list.List[0]) {
-		list.List = deduplicateStringExprs(list.List)
+		list.List = deduplicateStringExprs(list.List, &list.End)
 		return
 	}
 
@@ -686,6 +713,8 @@ func uniq(sortedList []stringSortKey) []stringSortKey {
 	for _, sk := range sortedList {
 		if len(out) == 0 || sk.value != out[len(out)-1].value {
 			out = append(out, sk)
+		} else {
+			moveComments(sk.x, out[len(out)-1].x)
 		}
 	}
 	return out
@@ -1047,6 +1076,10 @@ func compressSameOriginLoads(f *File, _ *Rewriter) {
 		// Move loaded symbols to the existing load statement
 		previousLoad.From = append(previousLoad.From, load.From...)
 		previousLoad.To = append(previousLoad.To, load.To...)
+		// Keep the comments of the removed statement
+		moveComments(load, previousLoad)
+		moveComments(load.Module, previousLoad.Module)
+		moveComments(&load.Rparen, &previousLoad.Rparen)
 		// Remove the current statement
 		f.Stmt[stmtIndex] = nil
 	}
@@ -1198,7 +1231,7 @@ func sortUseRepoPositionals(f *File, _ *Rewriter) {
 			// Respect the "do not sort" comment on both the first argument and the first repository
 			// name.
 			if doNotSort(call) || doNotSort(call.List[0]) || doNotSort(call.List[1]) {
-				call.List = deduplicateStringExprs(call.List)
+				call.List = deduplicateStringExprs(call.List, &call.End)
 			} else {
 				// Keyword arguments do not have to be sorted here as this has already been done by
 				// the generic callsort rewriter pass.
@@ -1268,7 +1301,11 @@ func (args *loadArgs) deduplicate() {
 	var from, to []*Ident
 	for i := range args.To {
 		if len(to) > 0 && to[len(to)-1].Name == args.To[i].Name {
-			// Overwrite
+			// Overwrite, but keep the comments
+			moveComments(args.From[i], from[len(from)-1])
+			moveComments(args.To[i], to[len(to)-1])
+			moveComments(from[len(from)-1], args.From[i])
+			moveComments(to[len(to)-1], args.To[i])
 			from[len(from)-1] = args.From[i]
 			to[len(to)-1] = args.To[i]
 			args.modified = true
-- 
2.43.0


From 5e02d7d0a288c5f2b9a4aa800eec7747e2a0b7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 009/114] fix: reorder arguments before sorting named ones, so
 that formatting is idempotent

---
 build/rewrite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index b095444..f5c179e 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -125,6 +125,7 @@ var rewrites = []struct {
 	scope FileType
 }{
 	{"removeParens", removeParens, scopeBuild},
+	{"reorderarguments", reorderArguments, scopeBoth},
 	{"callsort", sortCallArgs, scopeBuild},
 	{"label", fixLabels, scopeBuild},
 	{"listsort", sortStringLists, scopeBoth},
@@ -135,7 +136,6 @@ var rewrites = []struct {
 	{"loadsort", sortAllLoadArgs, scopeBoth},
 	{"useRepoPositionalsSort", sortUseRepoPositionals, TypeModule},
 	{"formatdocstrings", formatDocstrings, scopeBoth},
-	{"reorderarguments", reorderArguments, scopeBoth},
 	{"editoctal", editOctals, scopeBoth},
 	{"editfloat", editFloats, scopeBoth},
 	{"collapseEmpty", collapseEmpty, scopeBoth},
-- 
2.43.0


From 50aad9cadf6087d3ac28aaaf1ff7f96e0c89bfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:09 +0000
Subject: [PATCH 010/114] fix: no panic on a backslash before a non-Latin-1
 character in a string

---
 build/quote.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/quote.go b/build/quote.go
index 03bcdb6..65e3ae8 100644
--- a/build/quote.go
+++ b/build/quote.go
@@ -251,7 +251,7 @@ func IsCorrectEscaping(value string) bool {
 			continue
 		}
 
-		if ok := escapable[ch]; !ok {
+		if int(ch) >= len(escapable) || !escapable[ch] {
 			return false
 		}
 		escaped = false
-- 
2.43.0


From a12d4449e18dc7eee48b4369dceeedf70edac9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:22 +0000
Subject: [PATCH 011/114] fix: indentation of docstrings inside elif clauses

---
 build/rewrite.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index f5c179e..bea0f44 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1342,7 +1342,14 @@ func formatDocstrings(f *File, _ *Rewriter) {
 		}
 
 		oldIndentation := docstring.Start.LineRune - 1 // LineRune starts with 1
-		newIndentation := nestedIndentation * len(stk)
+		nesting := len(stk)
+		for i := 1; i < len(stk); i++ {
+			if isElif(stk[i-1], stk[i]) {
+				// An elif clause is a nested if statement, but it's not nested in the file.
+				nesting--
+			}
+		}
+		newIndentation := nestedIndentation * nesting
 
 		// Operate on Token, not Value, because their line breaks can be different if a line ends with
 		// a backslash.
@@ -1355,6 +1362,16 @@ func formatDocstrings(f *File, _ *Rewriter) {
 	})
 }
 
+// isElif reports whether an if statement is printed as an elif clause of its parent.
+func isElif(parent, stmt Expr) bool {
+	outer, ok := parent.(*IfStmt)
+	if !ok || len(outer.False) != 1 || outer.False[0] != stmt {
+		return false
+	}
+	_, ok = stmt.(*IfStmt)
+	return ok && len(outer.ElsePos.Comment().Suffix) == 0 && len(stmt.Comment().Before) == 0
+}
+
 // formatString modifies a string value of a docstring to match the new indentation level and
 // to remove trailing whitespace from its lines.
 func formatString(value string, oldIndentation, newIndentation int) string {
-- 
2.43.0


From 0009abfe25040bd95dd21ce82a8c05c215103c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 012/114] fix: keep sorting after removed duplicates; comments
 before aliased load symbols

---
 build/print.go   | 6 +++++-
 build/rewrite.go | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/build/print.go b/build/print.go
index 068af7c..b0386ef 100644
--- a/build/print.go
+++ b/build/print.go
@@ -822,11 +822,15 @@ func (p *printer) expr(v Expr, outerPrec int) {
 				arg = from.asString()
 				arg.Comment().Before = to.Comment().Before
 			} else {
+				// Before comments make the statement multi-line, they belong to the whole argument.
+				lhs := *to
+				lhs.Comments.Before = nil
 				arg = &AssignExpr{
-					LHS: to,
+					LHS: &lhs,
 					Op:  "=",
 					RHS: from.asString(),
 				}
+				arg.Comment().Before = to.Comment().Before
 			}
 			args = append(args, arg)
 		}
diff --git a/build/rewrite.go b/build/rewrite.go
index bea0f44..7454b0a 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -698,6 +698,7 @@ func sortStringExprs(list []Expr) []Expr {
 				list[i+offset] = key.x
 			}
 			list = append(list[:(i+len(chunk))], list[j:]...)
+			j = i + len(chunk)
 		}
 
 		i = j
-- 
2.43.0


From f906c529ee6e1e23aeb5971c3b6a054f317c3168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 013/114] fix: accept a line continuation before a Windows line
 ending

---
 build/lex.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/build/lex.go b/build/lex.go
index b6b4a55..8634a97 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -430,6 +430,14 @@ func (in *input) Lex(val *yySymType) int {
 			continue
 		}
 
+		if c == '\\' && bytes.HasPrefix(in.remaining, []byte("\\\r\n")) {
+			// The same for files with Windows line endings.
+			in.readRune()
+			in.readRune()
+			in.readRune()
+			continue
+		}
+
 		// Found non-space non-comment.
 		break
 	}
-- 
2.43.0


From f4982d12ad40108c2d442d8f184a74d1fdcc4841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 014/114] fix: keep the comment after the name of a load
 argument that is shortened

---
 build/print.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/build/print.go b/build/print.go
index b0386ef..412b0a9 100644
--- a/build/print.go
+++ b/build/print.go
@@ -821,6 +821,7 @@ func (p *printer) expr(v Expr, outerPrec int) {
 				// they need to be combined.
 				arg = from.asString()
 				arg.Comment().Before = to.Comment().Before
+				arg.Comment().Suffix = mergeSuffix(to.Comment().Suffix, from.Comment().Suffix)
 			} else {
 				// Before comments make the statement multi-line, they belong to the whole argument.
 				lhs := *to
-- 
2.43.0


From f6eec7dd9abbea0173a5e9afc440534ab6f664c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:42 +0000
Subject: [PATCH 015/114] fix: keep the comment after an aliased load argument
 at the argument

---
 build/print.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/build/print.go b/build/print.go
index 412b0a9..2ad0fb3 100644
--- a/build/print.go
+++ b/build/print.go
@@ -823,15 +823,18 @@ func (p *printer) expr(v Expr, outerPrec int) {
 				arg.Comment().Before = to.Comment().Before
 				arg.Comment().Suffix = mergeSuffix(to.Comment().Suffix, from.Comment().Suffix)
 			} else {
-				// Before comments make the statement multi-line, they belong to the whole argument.
+				// The comments make the statement multi-line, they belong to the whole argument.
 				lhs := *to
 				lhs.Comments.Before = nil
+				rhs := from.asString()
+				rhs.Comments.Suffix = nil
 				arg = &AssignExpr{
 					LHS: &lhs,
 					Op:  "=",
-					RHS: from.asString(),
+					RHS: rhs,
 				}
 				arg.Comment().Before = to.Comment().Before
+				arg.Comment().Suffix = from.Comment().Suffix
 			}
 			args = append(args, arg)
 		}
-- 
2.43.0


From a2f6378b7b9519c5d00a3e243db3877838672ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 016/114] fix: parsing does not write after the end of the
 caller's slice

---
 build/lex.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/build/lex.go b/build/lex.go
index 8634a97..475fb62 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -213,7 +213,8 @@ func newInput(filename string, data []byte) *input {
 	// The syntax requires that each simple statement ends with '\n', however it's optional at EOF.
 	// If `data` doesn't end with '\n' we add it here to keep parser simple.
 	// It shouldn't affect neither the parsed tree nor its formatting.
-	data = append(data, '\n')
+	// The full slice expression makes sure the caller's memory after `data` is not modified.
+	data = append(data[:len(data):len(data)], '\n')
 
 	return &input{
 		filename:  filename,
-- 
2.43.0


From 70ef2069868709c484c55ea8d3a3d801784e0182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 017/114] fix: write back edited dictionary entries and
 comprehension clauses

---
 build/walk.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/build/walk.go b/build/walk.go
index dd279a7..844f8ca 100644
--- a/build/walk.go
+++ b/build/walk.go
@@ -171,11 +171,12 @@ func WalkOnce(v Expr, f func(x *Expr)) {
 		for i := range v.List {
 			e := Expr(v.List[i])
 			f(&e)
+			v.List[i] = e.(*KeyValueExpr)
 		}
 	case *Comprehension:
 		f(&v.Body)
-		for _, c := range v.Clauses {
-			f(&c)
+		for i := range v.Clauses {
+			f(&v.Clauses[i])
 		}
 	case *IfClause:
 		f(&v.Cond)
-- 
2.43.0


From 4c084a17af218ec7b9ec5562b6eab69c8e0fd39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 018/114] fix: span of a bare star parameter

---
 build/syntax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/syntax.go b/build/syntax.go
index 2db5b24..ec7a513 100644
--- a/build/syntax.go
+++ b/build/syntax.go
@@ -516,7 +516,7 @@ type UnaryExpr struct {
 // Span returns the start and end positions of the node
 func (x *UnaryExpr) Span() (start, end Position) {
 	if x.X == nil {
-		return x.OpStart, x.OpStart
+		return x.OpStart, x.OpStart.add(x.Op)
 	}
 	_, end = x.X.Span()
 	return x.OpStart, end
-- 
2.43.0


From bf3aaf9769e45042964c736c146ef5b4970bbbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 019/114] fix: print the step of a slice without positions

---
 build/print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/print.go b/build/print.go
index 2ad0fb3..36caf61 100644
--- a/build/print.go
+++ b/build/print.go
@@ -704,7 +704,7 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		if v.To != nil {
 			p.expr(v.To, precLow)
 		}
-		if v.SecondColon.Byte != 0 {
+		if v.SecondColon.Byte != 0 || v.Step != nil {
 			p.printf(":")
 			if v.Step != nil {
 				p.expr(v.Step, precLow)
-- 
2.43.0


From 2c579fc43598e62ea858d58f7d16b7f15d5d3e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 020/114] fix: parenthesize conditional expressions in
 comprehension clauses when printing

---
 build/print.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/build/print.go b/build/print.go
index 36caf61..1df2edc 100644
--- a/build/print.go
+++ b/build/print.go
@@ -950,10 +950,10 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		p.printf("for ")
 		p.expr(v.Vars, precLow)
 		p.printf(" in ")
-		p.expr(v.X, precLow)
+		p.expr(v.X, precIfElse+1)
 	case *IfClause:
 		p.printf("if ")
-		p.expr(v.Cond, precLow)
+		p.expr(v.Cond, precIfElse+1)
 	}
 
 	// Add closing parenthesis if needed.
-- 
2.43.0


From b09b6d146470059b3e0b26b9cd10fa7b08c95f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 021/114] fix: a module path goes before longer ones that begin
 with it whatever its letter case

---
 build/rewrite.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/build/rewrite.go b/build/rewrite.go
index 7454b0a..f0571dd 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1109,6 +1109,11 @@ func comparePaths(path1, path2 string) bool {
 		}
 	}
 
+	if len(chunks1) != len(chunks2) {
+		// The first path is a prefix of the second one.
+		return true
+	}
+
 	// No case-insensitive difference detected. Likely the difference is just in
 	// the case of some symbols, compare case-sensitively for the determinism.
 	return path1 <= path2
-- 
2.43.0


From 4a133a0d0e42a47e78ca30335377f45248a40b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:07 +0000
Subject: [PATCH 022/114] fix: deterministic order of findings on the same line

---
 warn/warn.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/warn/warn.go b/warn/warn.go
index 65b7882..5122c26 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -372,7 +372,20 @@ func FileWarnings(f *build.File, enabledWarnings []string, formatted *[]byte, mo
 			os.Exit(1)
 		}
 	}
-	sort.Slice(findings, func(i, j int) bool { return findings[i].Start.Line < findings[j].Start.Line })
+	// Some checks iterate over maps, order all findings to make the output deterministic.
+	sort.SliceStable(findings, func(i, j int) bool {
+		a, b := findings[i], findings[j]
+		if a.Start.Line != b.Start.Line {
+			return a.Start.Line < b.Start.Line
+		}
+		if a.Category != b.Category {
+			return a.Category < b.Category
+		}
+		if a.Start.LineRune != b.Start.LineRune {
+			return a.Start.LineRune < b.Start.LineRune
+		}
+		return a.Message < b.Message
+	})
 	return findings
 }
 
-- 
2.43.0


From e46a20499ef6e4d44d18bfbfe0fa933d0742a1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:14 +0000
Subject: [PATCH 023/114] fix: no warning category twice in the list of enabled
 warnings

---
 buildifier/config/validation.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/buildifier/config/validation.go b/buildifier/config/validation.go
index 87cc393..c933c5a 100644
--- a/buildifier/config/validation.go
+++ b/buildifier/config/validation.go
@@ -18,6 +18,7 @@ package config
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 )
 
@@ -98,6 +99,19 @@ func ValidateModes(mode, lint *string, dflag *bool, additionalModes ...string) e
 	return nil
 }
 
+// unique returns the list without repeated elements.
+func unique(list []string) []string {
+	seen := map[string]bool{}
+	var result []string
+	for _, s := range list {
+		if !seen[s] {
+			seen[s] = true
+			result = append(result, s)
+		}
+	}
+	return result
+}
+
 // ValidateWarnings validates the value of the --warnings flag
 func ValidateWarnings(warnings *string, allWarnings, defaultWarnings *[]string) ([]string, error) {
 
@@ -132,10 +146,13 @@ func ValidateWarnings(warnings *string, allWarnings, defaultWarnings *[]string)
 					warningsList = append(warningsList, warning)
 				}
 			}
+			added := []string{}
 			for warning := range plus {
-				warningsList = append(warningsList, warning)
+				added = append(added, warning)
 			}
+			sort.Strings(added)
+			warningsList = append(warningsList, added...)
 		}
 	}
-	return warningsList, nil
+	return unique(warningsList), nil
 }
-- 
2.43.0


From 9a396b9e8403542ff990d023927039790690c0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 024/114] fix: remove temporary files whose writing or removal
 of another one failed

---
 buildifier/utils/tempfile.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/buildifier/utils/tempfile.go b/buildifier/utils/tempfile.go
index e5f5f77..dd9f0ab 100644
--- a/buildifier/utils/tempfile.go
+++ b/buildifier/utils/tempfile.go
@@ -40,20 +40,21 @@ func (tf *TempFile) WriteTemp(data []byte) (file string, err error) {
 	}()
 
 	name := f.Name()
+	tf.filenames = append(tf.filenames, name)
 	if _, err := f.Write(data); err != nil {
 		return "", fmt.Errorf("writing temporary file: %v", err)
 	}
-	tf.filenames = append(tf.filenames, name)
 	return name, nil
 }
 
 // Clean removes all created temporary files
 func (tf *TempFile) Clean() error {
+	var firstErr error
 	for _, file := range tf.filenames {
-		if err := os.Remove(file); err != nil {
-			return err
+		if err := os.Remove(file); err != nil && firstErr == nil {
+			firstErr = err
 		}
 	}
 	tf.filenames = []string{}
-	return nil
+	return firstErr
 }
-- 
2.43.0


From 18b5fdf3bb93d7186a7c85ad1863f38f02cfbf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 025/114] fix: report failures of writing the output and of
 reading files in json diagnostics

---
 buildifier/buildifier.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/buildifier/buildifier.go b/buildifier/buildifier.go
index 60124fc..bd64d3c 100644
--- a/buildifier/buildifier.go
+++ b/buildifier/buildifier.go
@@ -202,9 +202,15 @@ func (b *buildifier) run(args []string) int {
 	diagnosticsOutput := diagnostics.Format(b.config.Format, b.config.Verbose)
 	if b.config.Format != "" {
 		// Explicitly provided --format means the diagnostics are printed to stdout
-		fmt.Print(diagnosticsOutput)
+		if _, err := fmt.Print(diagnosticsOutput); err != nil {
+			fmt.Fprintf(os.Stderr, "buildifier: error writing output: %v\n", err)
+			exitCode = 3
+		}
 		// Exit code should be set to 0 so that other tools know they can safely parse the json
-		exitCode = 0
+		// (unless something has failed, in which case the json is incomplete)
+		if exitCode != 3 {
+			exitCode = 0
+		}
 	} else {
 		// --format is not provided, stdout is reserved for file contents
 		fmt.Fprint(os.Stderr, diagnosticsOutput)
@@ -250,6 +256,7 @@ func (b *buildifier) processFiles(files []string, tf *utils.TempFile) (*utils.Di
 	}
 
 	exitCode := 0
+	failed := false
 	fileDiagnostics := []*utils.FileDiagnostics{}
 
 	// Process files. The processing still runs in a single goroutine
@@ -265,17 +272,24 @@ func (b *buildifier) processFiles(files []string, tf *utils.TempFile) (*utils.Di
 		if res.err != nil {
 			fmt.Fprintf(os.Stderr, "buildifier: %v\n", res.err)
 			exitCode = 3
+			failed = true
 			continue
 		}
 		fd, newExitCode := b.processFile(file, res.data, len(files) > 1, tf)
 		if fd != nil {
 			fileDiagnostics = append(fileDiagnostics, fd)
 		}
-		if newExitCode != 0 {
+		// A runtime failure is not hidden by what is found in the files after it.
+		if newExitCode != 0 && exitCode != 3 {
 			exitCode = newExitCode
 		}
 	}
-	return utils.NewDiagnostics(fileDiagnostics...), exitCode
+	diagnostics := utils.NewDiagnostics(fileDiagnostics...)
+	if failed {
+		// The files that can't be read are neither known to be formatted nor without warnings.
+		diagnostics.Success = false
+	}
+	return diagnostics, exitCode
 }
 
 // processFile processes a single file containing data.
@@ -353,7 +367,10 @@ func (b *buildifier) processFile(filename string, data []byte, displayFileNames
 	case "pipe":
 		// pipe mode - reading from stdin, writing to stdout.
 		// ("pipe" is not from the command line; it is set above in main.)
-		os.Stdout.Write(ndata)
+		if _, err := os.Stdout.Write(ndata); err != nil {
+			fmt.Fprintf(os.Stderr, "buildifier: error writing output: %v\n", err)
+			return fileDiagnostics, 3
+		}
 
 	case "fix":
 		// fix mode: update files in place as needed.
-- 
2.43.0


From f9fe10848cc1340797ee8735708252a1472ea19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:16 +0000
Subject: [PATCH 026/114] fix: buildozer reports failures of writing the output

---
 edit/buildozer.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 1b9c186..2e05034 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1245,7 +1245,9 @@ func rewrite(opts *Options, commandsForFile commandsForFile) *rewriteResult {
 	}
 
 	if opts.Stdout || name == stdinPackageName {
-		opts.OutWriter.Write(ndata)
+		if _, err := opts.OutWriter.Write(ndata); err != nil {
+			errs = append(errs, err)
+		}
 		return &rewriteResult{file: name, errs: errs, records: records}
 	}
 
@@ -1410,7 +1412,7 @@ func replaceSavedPipes(s string) string {
 	return strings.ReplaceAll(s, "\x00\x00", "|")
 }
 
-func printRecord(writer io.Writer, record *apipb.Output_Record) {
+func printRecord(writer io.Writer, record *apipb.Output_Record) error {
 	fields := record.Fields
 	line := make([]string, len(fields))
 	for i, field := range fields {
@@ -1435,7 +1437,8 @@ func printRecord(writer io.Writer, record *apipb.Output_Record) {
 		}
 	}
 
-	fmt.Fprint(writer, strings.Join(line, " ")+"\n")
+	_, err := fmt.Fprint(writer, strings.Join(line, " ")+"\n")
+	return err
 }
 
 // Buildozer loops over all arguments on the command line fixing BUILD files.
@@ -1511,7 +1514,10 @@ func Buildozer(opts *Options, args []string) int {
 		if err != nil {
 			log.Fatal("marshaling error: ", err)
 		}
-		fmt.Fprintf(opts.OutWriter, "%s", data)
+		if _, err := opts.OutWriter.Write(data); err != nil {
+			fmt.Fprintf(opts.ErrWriter, "error: writing output: %s\n", err)
+			hasErrors = true
+		}
 	} else if opts.IsPrintingJSON {
 		marshaler := jsonpb.Marshaler{}
 		if err := marshaler.Marshal(opts.OutWriter, &apipb.Output{Records: records}); err != nil {
@@ -1520,7 +1526,11 @@ func Buildozer(opts *Options, args []string) int {
 		fmt.Fprintln(opts.OutWriter)
 	} else {
 		for _, record := range records {
-			printRecord(opts.OutWriter, record)
+			if err := printRecord(opts.OutWriter, record); err != nil {
+				fmt.Fprintf(opts.ErrWriter, "error: writing output: %s\n", err)
+				hasErrors = true
+				break
+			}
 		}
 	}
 
-- 
2.43.0


From 28cd926976e136848bfa3b570fc1b1baf9ab703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 027/114] fix: buildozer replace and substitute reach selects
 with no_match_error

---
 edit/edit.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index e56ee45..ffb481b 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -423,12 +423,12 @@ func allListsFromSelects(e build.Expr) []*build.ListExpr {
 	var lists []*build.ListExpr
 
 	for _, s := range AllSelects(e) {
-		if len(s.List) != 1 {
-			return nil
+		if len(s.List) == 0 {
+			continue
 		}
 		dict, ok := s.List[0].(*build.DictExpr)
 		if !ok {
-			return nil
+			continue
 		}
 		for _, kv := range dict.List {
 			list, ok := kv.Value.(*build.ListExpr)
-- 
2.43.0


From 4d24bf8d06bb34ff523f286cc2f2c75d136a6135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 028/114] fix: buildozer dict_remove keeps entries whose keys
 are not strings

---
 edit/edit.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index ffb481b..b0278ee 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -942,12 +942,10 @@ func DictionaryDelete(dict *build.DictExpr, key string) (deleted build.Expr) {
 	deleted = nil
 	var all []*build.KeyValueExpr
 	for _, kv := range dict.List {
-		if k, ok := kv.Key.(*build.StringExpr); ok {
-			if k.Value == key {
-				deleted = kv
-			} else {
-				all = append(all, kv)
-			}
+		if k, ok := kv.Key.(*build.StringExpr); ok && k.Value == key {
+			deleted = kv
+		} else {
+			all = append(all, kv)
 		}
 	}
 	dict.List = all
-- 
2.43.0


From d34abe60265f0eacfe3c38a1fadb75040d12531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 029/114] fix: buildozer remove leaves lists without the values
 alone

---
 edit/buildozer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 2e05034..64315f6 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -439,10 +439,16 @@ func cmdRemove(opts *Options, env CmdEnvironment) (*build.File, error) {
 	} else { // Remove values in the attribute.
 		fixed := false
 		for _, key := range attrKeysForPattern(env.Rule, env.Args[0]) {
+			deleted := false
 			for _, val := range env.Args[1:] {
-				ListAttributeDelete(env.Rule, key, val, env.Pkg)
-				fixed = true
+				if ListAttributeDelete(env.Rule, key, val, env.Pkg) != nil {
+					deleted = true
+				}
+			}
+			if !deleted {
+				continue
 			}
+			fixed = true
 			ResolveAttr(env.Rule, key, env.Pkg)
 			// Remove the attribute if's an empty list
 			if listExpr, ok := env.Rule.Attr(key).(*build.ListExpr); ok && len(listExpr.List) == 0 {
-- 
2.43.0


From f3f75fc2a15a3a7afe5d7222d14829a69af0df53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 030/114] fix: buildozer remove_if_equal compares numbers

---
 edit/buildozer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 64315f6..e5e4cc5 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -472,6 +472,8 @@ func cmdRemoveIfEqual(opts *Options, env CmdEnvironment) (*build.File, error) {
 		equal = labels.Equal(input.Value, val, env.Pkg)
 	case *build.Ident:
 		equal = input.Name == val
+	case *build.LiteralExpr:
+		equal = input.Token == val
 	default:
 		return nil, nil
 	}
-- 
2.43.0


From ed3f3c5f900e013931d5e4af3671b282f9e30c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 031/114] fix: buildozer replace keeps string values strings

---
 edit/buildozer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index e5e4cc5..62c4dcd 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -534,7 +534,7 @@ func cmdReplace(opts *Options, env CmdEnvironment) (*build.File, error) {
 		attr := env.Rule.Attr(key)
 		if e, ok := attr.(*build.StringExpr); ok {
 			if labels.Equal(e.Value, oldV, env.Pkg) {
-				env.Rule.SetAttr(key, getAttrValueExpr(key, []string{newV}, env))
+				env.Rule.SetAttr(key, getStringExpr(newV, env.Pkg))
 			}
 		} else {
 			ListReplace(attr, oldV, newV, env.Pkg)
-- 
2.43.0


From cf8e729a00c6945baa81b669ea6cedbc0dcadb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:15 +0000
Subject: [PATCH 032/114] fix: buildozer set stores the value as an expression
 that later commands see

---
 edit/buildozer.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 62c4dcd..ff6027a 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -608,10 +608,28 @@ func getAttrValueExpr(attr string, args []string, env CmdEnvironment) build.Expr
 	case IsString(attr):
 		return getStringExpr(args[0], env.Pkg)
 	default:
-		return &build.Ident{Name: args[0]}
+		return getRawExpr(args[0])
 	}
 }
 
+// getRawExpr turns an input argument into the expression it spells, so that further commands see
+// its value. Text that isn't a single expression is taken as it is.
+func getRawExpr(value string) build.Expr {
+	raw := &build.Ident{Name: value}
+	if strings.ContainsAny(value, "#\n") {
+		return raw
+	}
+	f, err := build.ParseDefault("", []byte(value))
+	if err != nil || len(f.Stmt) != 1 {
+		return raw
+	}
+	switch expr := f.Stmt[0].(type) {
+	case *build.StringExpr, *build.LiteralExpr, *build.ListExpr, *build.DictExpr, *build.SetExpr, *build.CallExpr, *build.BinaryExpr:
+		return expr
+	}
+	return raw
+}
+
 // getStringValue extracts a string value, which can be either quoted or not, from an input argument
 func getStringValue(value string) string {
 	if unquoted, _, err := build.Unquote(value); err == nil {
-- 
2.43.0


From 7fd94cedec416319f3172cf629a2aa3e477d893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 033/114] fix: calls in the clauses of a comprehension are not
 rules

---
 build/rule.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/build/rule.go b/build/rule.go
index b6e10bc..4d47552 100644
--- a/build/rule.go
+++ b/build/rule.go
@@ -52,9 +52,10 @@ func (f *File) rules(p func(r *Rule) bool) []*Rule {
 				return
 			}
 
-			// Skip nested calls.
+			// Skip nested calls, and calls in the clauses of comprehensions.
 			for _, frame := range stk {
-				if _, ok := frame.(*CallExpr); ok {
+				switch frame.(type) {
+				case *CallExpr, *ForClause, *IfClause:
 					return
 				}
 			}
-- 
2.43.0


From 52cb8e6d3e9630f40a9c7f16f8dc2a32fe6b6ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 034/114] fix: buildozer comment replaces the end-of-line
 comment of an attribute

---
 edit/buildozer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index ff6027a..281f485 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -118,6 +118,8 @@ func cmdComment(opts *Options, env CmdEnvironment) (*build.File, error) {
 			if fullLine {
 				attr.LHS.Comment().Before = comment
 			} else {
+				// Only one comment fits at the end of the line.
+				attr.Comments.Suffix = nil
 				attr.RHS.Comment().Suffix = comment
 			}
 		}
-- 
2.43.0


From c4e49583ebb98b83a354585622e0a9a9460106de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 035/114] fix: buildozer keeps the comments of lists it
 concatenates

---
 edit/edit.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/edit/edit.go b/edit/edit.go
index b0278ee..28d3613 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -528,6 +528,27 @@ func ContainsComments(expr build.Expr, str string) bool {
 	return false
 }
 
+// concatLists returns the concatenation of two list literals with all their comments.
+func concatLists(e *build.BinaryExpr, x, y *build.ListExpr) *build.ListExpr {
+	list := &build.ListExpr{List: append(x.List, y.List...), End: y.End}
+	for _, c := range []*build.Comments{&e.Comments, &x.Comments, &y.Comments} {
+		list.Comments.Before = append(list.Comments.Before, c.Before...)
+		list.Comments.After = append(list.Comments.After, c.After...)
+	}
+	list.Comments.Before = append(list.Comments.Before, x.Comments.Suffix...)
+	list.Comments.Suffix = append(append([]build.Comment{}, y.Comments.Suffix...), e.Comments.Suffix...)
+	// Comments at the end of the first list are followed by the elements of the second one.
+	comments := append(append([]build.Comment{}, x.End.Before...), x.End.Suffix...)
+	if len(comments) > 0 {
+		next := &list.End.Comments
+		if len(y.List) > 0 {
+			next = y.List[0].Comment()
+		}
+		next.Before = append(comments, next.Before...)
+	}
+	return list
+}
+
 // RemoveEmptySelectsAndConcatLists iterates the tree in order to turn
 // empty selects into empty lists and adjacent lists are concatenated
 func RemoveEmptySelectsAndConcatLists(e build.Expr) build.Expr {
@@ -541,7 +562,7 @@ func RemoveEmptySelectsAndConcatLists(e build.Expr) build.Expr {
 			y, yIsList := e.Y.(*build.ListExpr)
 
 			if xIsList && yIsList {
-				return &build.ListExpr{List: append(x.List, y.List...)}
+				return concatLists(e, x, y)
 			}
 
 			if xIsList && len(x.List) == 0 {
-- 
2.43.0


From b6307f33caf65d1a44991ef6d90be3c079645eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 036/114] fix: buildozer reports results in the order of the
 targets

---
 edit/buildozer.go | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 281f485..e41fb2b 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -29,8 +29,10 @@ import (
 	"path/filepath"
 	"regexp"
 	"runtime"
+	"sort"
 	"strconv"
 	"strings"
+	"sync/atomic"
 
 	apipb "github.com/bazelbuild/buildtools/api_proto"
 	"github.com/bazelbuild/buildtools/build"
@@ -1084,8 +1086,12 @@ func parseCommands(opts *Options, args []string) (commands []command, targets []
 type commandsForTarget struct {
 	target   string
 	commands []command
+	index    int64 // increases in the order the targets are given in
 }
 
+// targetIndex is the index of the last commandsForTarget.
+var targetIndex int64
+
 // commandsForFile contains the file name and all commands that should be
 // applied on that file, indexed by their target.
 type commandsForFile struct {
@@ -1104,6 +1110,7 @@ type rewriteResult struct {
 	file     string
 	errs     []error
 	modified bool
+	output   []byte // the new contents, if they belong on stdout
 	records  []*apipb.Output_Record
 }
 
@@ -1273,10 +1280,7 @@ func rewrite(opts *Options, commandsForFile commandsForFile) *rewriteResult {
 	}
 
 	if opts.Stdout || name == stdinPackageName {
-		if _, err := opts.OutWriter.Write(ndata); err != nil {
-			errs = append(errs, err)
-		}
-		return &rewriteResult{file: name, errs: errs, records: records}
+		return &rewriteResult{file: name, errs: errs, output: ndata, records: records}
 	}
 
 	if bytes.Equal(data, ndata) {
@@ -1374,7 +1378,7 @@ func appendCommands(opts *Options, commandMap map[string][]commandsForTarget, ar
 		}
 
 		for _, file := range buildFiles {
-			commandMap[file] = append(commandMap[file], commandsForTarget{target, commands})
+			commandMap[file] = append(commandMap[file], commandsForTarget{target, commands, atomic.AddInt64(&targetIndex, 1)})
 		}
 	}
 	return nil
@@ -1497,33 +1501,47 @@ func Buildozer(opts *Options, args []string) int {
 	if opts.Parallelism > 0 {
 		runtime.GOMAXPROCS(opts.Parallelism)
 	}
-	results := make(chan *rewriteResult, numFiles)
 	data := make(chan commandsForFile)
 
 	if opts.NumIO < 1 {
 		fmt.Fprintf(opts.ErrWriter, "NumIO must be at least 1; got %d (are you using `NewOpts`?)\n", opts.NumIO)
 		return 1
 	}
+	// Results are reported in the order of the targets.
+	files := make([]string, 0, numFiles)
+	results := make(map[string]chan *rewriteResult, numFiles)
+	for file := range commandsByFile {
+		files = append(files, file)
+		results[file] = make(chan *rewriteResult, 1)
+	}
+	sort.Slice(files, func(i, j int) bool {
+		return commandsByFile[files[i]][0].index < commandsByFile[files[j]][0].index
+	})
 	for i := 0; i < opts.NumIO; i++ {
-		go func(results chan *rewriteResult, data chan commandsForFile) {
+		go func(data chan commandsForFile) {
 			for commandsForFile := range data {
-				results <- rewrite(opts, commandsForFile)
+				results[commandsForFile.file] <- rewrite(opts, commandsForFile)
 			}
-		}(results, data)
+		}(data)
 	}
 
-	for file, commands := range commandsByFile {
-		data <- commandsForFile{file, commands}
+	for _, file := range files {
+		data <- commandsForFile{file, commandsByFile[file]}
 	}
 	close(data)
 	records := []*apipb.Output_Record{}
 	var hasErrors bool
 	var fileModified bool
-	for i := 0; i < numFiles; i++ {
-		fileResults := <-results
+	for _, file := range files {
+		fileResults := <-results[file]
 		if fileResults == nil {
 			continue
 		}
+		if fileResults.output != nil {
+			if _, err := opts.OutWriter.Write(fileResults.output); err != nil {
+				fileResults.errs = append(fileResults.errs, err)
+			}
+		}
 		hasErrors = hasErrors || len(fileResults.errs) > 0
 		fileModified = fileModified || fileResults.modified
 		for _, err := range fileResults.errs {
-- 
2.43.0


From eacf995025a8dd3d900ba0ae03dc6c8c83c55b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 037/114] fix: buildozer processes a build file once however it
 is addressed

---
 edit/buildozer.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index e41fb2b..2730b3e 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1355,6 +1355,24 @@ func findBuildFiles(rootDir string) []string {
 	return buildFiles
 }
 
+// commandMapKey returns the same path for all names a build file can be addressed by, so that it's
+// processed once. Which of the build files of a package is used depends on rewrite.
+func commandMapKey(file string) string {
+	if file == "" || file == stdinPackageName {
+		return file
+	}
+	if abs, err := filepath.Abs(file); err == nil {
+		file = abs
+	}
+	dir, base := filepath.Split(file)
+	for _, buildFileName := range BuildFileNames {
+		if base == buildFileName {
+			return filepath.Join(dir, "BUILD")
+		}
+	}
+	return file
+}
+
 // appendCommands adds the given commands to be applied to each of the given targets
 // via the commandMap.
 func appendCommands(opts *Options, commandMap map[string][]commandsForTarget, args []string) error {
@@ -1377,7 +1395,13 @@ func appendCommands(opts *Options, commandMap map[string][]commandsForTarget, ar
 			buildFiles = targetExpressionToBuildFiles(opts.RootDir, target)
 		}
 
+		seen := make(map[string]bool)
 		for _, file := range buildFiles {
+			file = commandMapKey(file)
+			if seen[file] {
+				continue
+			}
+			seen[file] = true
 			commandMap[file] = append(commandMap[file], commandsForTarget{target, commands, atomic.AddInt64(&targetIndex, 1)})
 		}
 	}
-- 
2.43.0


From 1745994ec5c527a72855ceb9414cd1a308e1ff8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 038/114] fix: buildozer reads exactly the addressed file

---
 edit/buildozer.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 2730b3e..10aeb94 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1179,22 +1179,23 @@ func rewrite(opts *Options, commandsForFile commandsForFile) *rewriteResult {
 		}
 	} else {
 		origName := name
+		names := []string{name}
 		for _, suffix := range BuildFileNames {
 			if strings.HasSuffix(name, "/"+suffix) {
-				name = strings.TrimSuffix(name, suffix)
+				// Any of the build files of the package
+				dir := strings.TrimSuffix(name, suffix)
+				names = nil
+				for _, suffix := range BuildFileNames {
+					names = append(names, dir+suffix)
+				}
 				break
 			}
 		}
-		for _, suffix := range BuildFileNames {
-			name = name + suffix
+		for _, name = range names {
 			data, fi, err = file.ReadFile(name)
-			if err == nil {
+			if err == nil || os.IsPermission(err) {
 				break
 			}
-			name = strings.TrimSuffix(name, suffix)
-		}
-		if err != nil {
-			data, fi, err = file.ReadFile(name)
 		}
 		if err != nil {
 			err = errors.New("file not found or not readable")
@@ -1308,7 +1309,7 @@ var EditFile = func(fi os.FileInfo, name string) error {
 // existing BUILD file paths which match the package.
 func targetExpressionToBuildFiles(rootDir string, target string) []string {
 	file, _, _, _ := InterpretLabelForWorkspaceLocation(rootDir, target)
-	if rootDir == "" {
+	if rootDir == "" && file != "" {
 		var err error
 		if file, err = filepath.Abs(file); err != nil {
 			fmt.Printf("Cannot make path absolute: %s\n", err.Error())
-- 
2.43.0


From 553fbd043ea9331397cc4d86bfea5af95d3ec679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 039/114] fix: @//pkg labels and files in the root directory
 resolve to their package

---
 edit/edit.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index 28d3613..5f3df88 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -58,12 +58,12 @@ func InterpretLabelForWorkspaceLocation(root, target string) (buildFile, repo, p
 	}
 
 	defaultBuildFileName := "BUILD"
-	if strings.HasPrefix(target, "//") {
+	if strings.HasPrefix(strings.TrimLeft(target, "@"), "//") {
 		pkgPath := filepath.Join(rootDir, filepath.FromSlash(pkg))
 		if wspace.IsRegularFile(pkgPath) {
 			// allow operation on other files like WORKSPACE
 			buildFile = pkgPath
-			pkg = path.Dir(pkg)
+			pkg = packageName(path.Dir(pkg))
 			return
 		}
 		for _, buildFileName := range BuildFileNames {
@@ -78,7 +78,7 @@ func InterpretLabelForWorkspaceLocation(root, target string) (buildFile, repo, p
 	if wspace.IsRegularFile(filepath.FromSlash(pkg)) {
 		// allow operation on other files like WORKSPACE
 		buildFile = pkg
-		pkg = filepath.Join(relativePath, filepath.FromSlash(path.Dir(pkg)))
+		pkg = packageName(filepath.Join(relativePath, filepath.FromSlash(path.Dir(pkg))))
 		return
 	}
 
@@ -94,10 +94,18 @@ func InterpretLabelForWorkspaceLocation(root, target string) (buildFile, repo, p
 		buildFile = filepath.Join(pkg, defaultBuildFileName)
 	}
 
-	pkg = filepath.Join(relativePath, filepath.FromSlash(pkg))
+	pkg = packageName(filepath.Join(relativePath, filepath.FromSlash(pkg)))
 	return
 }
 
+// packageName returns the name of the package in the given directory relative to the workspace root.
+func packageName(dir string) string {
+	if dir == "." {
+		return ""
+	}
+	return dir
+}
+
 // InterpretLabel returns the name of the BUILD file to edit, the full
 // package name, and the rule. It uses the pwd for resolving workspace file paths.
 func InterpretLabel(target string) (buildFile string, pkg string, rule string) {
-- 
2.43.0


From fc68ebe0463fc9b4e281fdaee1fd82256574e4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 040/114] fix: buildozer command files apply all commands of a
 line to the labels of *

---
 edit/buildozer.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 10aeb94..a4adc78 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1443,20 +1443,18 @@ func appendCommandsFromReader(opts *Options, reader io.Reader, commandsByFile ma
 			continue
 		}
 		line = saveEscapedPipes(line)
-		args := strings.Split(line, "|")
-		for i, arg := range args {
-			args[i] = replaceSavedPipes(arg)
-		}
-		if len(args) > 1 && args[1] == "*" {
-			cmd := append([]string{args[0]}, labels...)
-			if err := appendCommands(opts, commandsByFile, cmd); err != nil {
-				return err
-			}
-		} else {
-			if err := appendCommands(opts, commandsByFile, args); err != nil {
-				return err
+		var args []string
+		for _, arg := range strings.Split(line, "|") {
+			if arg == "*" {
+				// Stands for all labels of the command line
+				args = append(args, labels...)
+			} else {
+				args = append(args, replaceSavedPipes(arg))
 			}
 		}
+		if err := appendCommands(opts, commandsByFile, args); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From f6e6109befc2f18ce119949bcc3d860efca87c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 041/114] fix: print_comment shows a missing list item as
 (missing) like other missing values

---
 edit/buildozer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index a4adc78..1464557 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1484,7 +1484,7 @@ func printRecord(writer io.Writer, record *apipb.Output_Record) error {
 			switch value.Error {
 			case apipb.Output_Record_Field_UNKNOWN:
 				line[i] = "(unknown)"
-			case apipb.Output_Record_Field_MISSING:
+			case apipb.Output_Record_Field_MISSING, apipb.Output_Record_Field_MISSING_LIST_ITEM:
 				line[i] = "(missing)"
 			}
 		case *apipb.Output_Record_Field_List:
-- 
2.43.0


From 9cbcf26b79a220fbbdaa71da0cc5e42999b0cc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 042/114] fix: buildozer workers share the error writer under a
 lock

---
 edit/buildozer.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 1464557..ef2f531 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -32,6 +32,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"sync"
 	"sync/atomic"
 
 	apipb "github.com/bazelbuild/buildtools/api_proto"
@@ -1496,6 +1497,18 @@ func printRecord(writer io.Writer, record *apipb.Output_Record) error {
 	return err
 }
 
+// syncWriter makes a writer usable from several goroutines.
+type syncWriter struct {
+	mu sync.Mutex
+	w  io.Writer
+}
+
+func (s *syncWriter) Write(p []byte) (int, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	return s.w.Write(p)
+}
+
 // Buildozer loops over all arguments on the command line fixing BUILD files.
 func Buildozer(opts *Options, args []string) int {
 	if opts.OutWriter == nil {
@@ -1504,6 +1517,10 @@ func Buildozer(opts *Options, args []string) int {
 	if opts.ErrWriter == nil {
 		opts.ErrWriter = os.Stderr
 	}
+	// The workers write warnings concurrently.
+	syncOpts := *opts
+	syncOpts.ErrWriter = &syncWriter{w: opts.ErrWriter}
+	opts = &syncOpts
 	commandsByFile := make(map[string][]commandsForTarget)
 	if len(opts.CommandsFiles) > 0 {
 		if err := appendCommandsFromFiles(opts, commandsByFile, args); err != nil {
-- 
2.43.0


From 75547cd1617cb001e4470cbc5706629a3dd8c893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 043/114] fix: -root_dir may be a relative path or end in a
 slash

---
 edit/buildozer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index ef2f531..e7bfd9f 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1521,6 +1521,12 @@ func Buildozer(opts *Options, args []string) int {
 	syncOpts := *opts
 	syncOpts.ErrWriter = &syncWriter{w: opts.ErrWriter}
 	opts = &syncOpts
+	if opts.RootDir != "" {
+		// The workspace root is searched for upwards from an absolute path.
+		if abs, err := filepath.Abs(opts.RootDir); err == nil {
+			opts.RootDir = abs
+		}
+	}
 	commandsByFile := make(map[string][]commandsForTarget)
 	if len(opts.CommandsFiles) > 0 {
 		if err := appendCommandsFromFiles(opts, commandsByFile, args); err != nil {
-- 
2.43.0


From 879dc94b3f8afae22cb5ba4078e6a1b55160656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 044/114] fix: build_file of external repositories may be
 written as @//package:file

---
 wspace/workspace.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wspace/workspace.go b/wspace/workspace.go
index 1587494..c1b460a 100644
--- a/wspace/workspace.go
+++ b/wspace/workspace.go
@@ -142,6 +142,10 @@ func FindRepoBuildFiles(root string) (map[string]string, error) {
 			if buildFile == "" {
 				continue
 			}
+			// Labels of the main repository may be written as @//package:file.
+			if label := strings.TrimLeft(buildFile, "@"); strings.HasPrefix(label, "//") {
+				buildFile = label
+			}
 			buildFile = strings.Replace(buildFile, ":", "/", -1)
 			files[r.Name()] = filepath.Join(root, buildFile)
 		}
-- 
2.43.0


From da13aae6ae3dbf9d4764a9e19426378e0051baba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 045/114] fix: use_repo_add and use_repo_remove accept
 extension labels beginning with //

Arguments such as //:ext.bzl were taken for variable names, because the check
looked for // at the end of the argument.
---
 edit/buildozer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index e7bfd9f..83bd971 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -919,7 +919,7 @@ func cmdFormat(opts *Options, env CmdEnvironment) (*build.File, error) {
 func isExtensionLabel(arg string) bool {
 	// Labels referencing extensions are either absolute or repo-absolute. Repository names are not
 	// allowed to contain "@" or "/".
-	return strings.HasPrefix(arg, "@") || strings.HasSuffix(arg, "//")
+	return strings.HasPrefix(arg, "@") || strings.HasPrefix(arg, "//")
 }
 
 func cmdFix(opts *Options, env CmdEnvironment) (*build.File, error) {
-- 
2.43.0


From 574ba5e3673e5b3977b56ebc5f25b181e431af26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 046/114] fix: replace_load removes all requested symbols of a
 load statement

The loop removed elements from the slice it ranged over, so the symbol after a
removed one was skipped and stayed loaded from the old file as well.
---
 edit/edit.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index 5f3df88..624c2f5 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -1219,17 +1219,14 @@ func ReplaceLoad(stmts []build.Expr, location string, from, to []string) []build
 			continue
 		}
 
+		var fromLeft, toLeft []*build.Ident
 		for i, to := range load.To {
-			if toSymbols[to.Name] {
-				if i < len(load.From)-1 {
-					load.From = append(load.From[:i], load.From[i+1:]...)
-					load.To = append(load.To[:i], load.To[i+1:]...)
-				} else {
-					load.From = load.From[:i]
-					load.To = load.To[:i]
-				}
+			if !toSymbols[to.Name] {
+				fromLeft = append(fromLeft, load.From[i])
+				toLeft = append(toLeft, to)
 			}
 		}
+		load.From, load.To = fromLeft, toLeft
 
 		if len(load.To) > 0 {
 			all = append(all, load)
-- 
2.43.0


From 7c48e396f08df0449da9e948e0385f9896bd8151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 047/114] fix: splitOptions keeps options with quoted spaces or
 expansions in one piece

The condition looked for the two characters '" in a row, so -DX='a b' was
split, and so was $(execpath :x).
---
 edit/fix.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edit/fix.go b/edit/fix.go
index 1b91365..531fe72 100644
--- a/edit/fix.go
+++ b/edit/fix.go
@@ -53,6 +53,9 @@ func splitOptionsWithSpaces(_ *build.File, r *build.Rule, _ string) bool {
 	return fixed
 }
 
+// expansionWithArgument matches the beginning of $(location :x), $(execpath :x) etc.
+var expansionWithArgument = regexp.MustCompile(`\$\(\w+\s`)
+
 func splitStrings(list *build.ListExpr) bool {
 	var all []build.Expr
 	fixed := false
@@ -62,7 +65,9 @@ func splitStrings(list *build.ListExpr) bool {
 			all = append(all, e)
 			continue
 		}
-		if strings.Contains(str.Value, " ") && !strings.Contains(str.Value, "'\"") && !strings.Contains(str.Value, "$(location") {
+		// Quotes and backslashes can protect a space from splitting, and so does
+		// an expansion with an argument, such as $(location :x).
+		if strings.Contains(str.Value, " ") && !strings.ContainsAny(str.Value, "'\"\\") && !expansionWithArgument.MatchString(str.Value) {
 			fixed = true
 			for i, substr := range strings.Fields(str.Value) {
 				item := &build.StringExpr{Value: substr}
-- 
2.43.0


From 051485552fab43367e03a7b747eaddcc2da3c95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 048/114] fix: removeVisibility keeps the visibility of
 exported files

Files are public by default, so a visibility equal to the default of the
package's rules is not redundant.
---
 edit/fix.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edit/fix.go b/edit/fix.go
index 531fe72..f780b53 100644
--- a/edit/fix.go
+++ b/edit/fix.go
@@ -107,6 +107,11 @@ func shortenLabels(_ *build.File, r *build.Rule, pkg string) bool {
 
 // removeVisibility removes useless visibility attributes.
 func removeVisibility(f *build.File, r *build.Rule, pkg string) bool {
+	// Exported files are public by default, whatever the package says.
+	if r.Kind() == "exports_files" {
+		return false
+	}
+
 	// If no default_visibility is given, it is implicitly private.
 	defaultVisibility := []string{"//visibility:private"}
 	if pkgDecl := ExistingPackageDeclaration(f); pkgDecl != nil {
-- 
2.43.0


From 0f70d73e07a33f584aee835a7ffe78e8dd453261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 049/114] fix: genruleFixHeuristicLabels leaves the arguments
 of $(execpath) and the like alone

---
 edit/fix.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edit/fix.go b/edit/fix.go
index f780b53..11d4da3 100644
--- a/edit/fix.go
+++ b/edit/fix.go
@@ -177,8 +177,9 @@ func explicitHeuristicLabels(s string, labels map[string]bool) string {
 	canChange := true
 	for i, part := range parts {
 		// We don't want to add $(location when it's already present.
-		// So we skip the next label when we see location(s).
-		if part == "location" || part == "locations" {
+		// So we skip the next label when we see location(s) or a similar function.
+		switch part {
+		case "location", "locations", "execpath", "execpaths", "rootpath", "rootpaths", "rlocationpath", "rlocationpaths":
 			canChange = false
 		}
 		if !labels[part] {
-- 
2.43.0


From 8809989d98c84736ef13f8001500f9069a6e0705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 050/114] fix: mergeLiteralLists keeps the comments of the
 lists

---
 edit/fix.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edit/fix.go b/edit/fix.go
index 11d4da3..48fd4f6 100644
--- a/edit/fix.go
+++ b/edit/fix.go
@@ -301,9 +301,9 @@ func evaluateListConcatenation(expr build.Expr) build.Expr {
 	if !ok1 || !ok2 {
 		return expr
 	}
-	res := *li1
-	res.List = append(li1.List, li2.List...)
-	return &res
+	res := concatLists(bin, li1, li2)
+	res.Start, res.End.Pos, res.ForceMultiLine = li1.Start, li1.End.Pos, li1.ForceMultiLine
+	return res
 }
 
 // mergeLiteralLists evaluates the concatenation of two literal lists.
-- 
2.43.0


From 4d5258435c2476cde13d376c7cacfb4738113a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:40 +0000
Subject: [PATCH 051/114] fix: usePlusEqual leaves calls with keyword or
 unpacked arguments alone

x.append(*y) became x += [*y], which is no valid Starlark.
---
 edit/fix.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/edit/fix.go b/edit/fix.go
index 48fd4f6..b6d2715 100644
--- a/edit/fix.go
+++ b/edit/fix.go
@@ -338,6 +338,16 @@ func usePlusEqual(f *build.File) bool {
 			continue
 		}
 
+		// Keyword arguments and unpacked sequences are no operands.
+		switch arg := call.List[0].(type) {
+		case *build.AssignExpr:
+			continue
+		case *build.UnaryExpr:
+			if arg.Op == "*" || arg.Op == "**" {
+				continue
+			}
+		}
+
 		var fix *build.AssignExpr
 		if dot.Name == "extend" {
 			fix = &build.AssignExpr{LHS: obj, Op: "+=", RHS: call.List[0]}
-- 
2.43.0


From 4bca95103d04b5abeeab094a360d3161354f5424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 052/114] fix: moveLicenses does not lose the licenses when
 there is no package declaration

The list of statements with the new declaration was overwritten.
---
 edit/fix.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/edit/fix.go b/edit/fix.go
index b6d2715..6f825e9 100644
--- a/edit/fix.go
+++ b/edit/fix.go
@@ -465,21 +465,23 @@ func movePackageDeclarationToTheTop(f *build.File) bool {
 // The function shouldn't appear more than once in the file (depot cleanup has
 // been done).
 func moveToPackage(f *build.File, attrname string) bool {
-	var all []build.Expr
-	fixed := false
+	var all, calls []build.Expr
 	for _, stmt := range f.Stmt {
 		rule, ok := ExprToRule(stmt, attrname)
 		if !ok || len(rule.Call.List) != 1 {
 			all = append(all, stmt)
 			continue
 		}
+		calls = append(calls, stmt)
+	}
+	f.Stmt = all
+	for _, stmt := range calls {
+		// May insert a package declaration into f.Stmt.
 		pkgDecl := PackageDeclaration(f)
-		pkgDecl.SetAttr(attrname, rule.Call.List[0])
+		pkgDecl.SetAttr(attrname, stmt.(*build.CallExpr).List[0])
 		pkgDecl.AttrDefn(attrname).Comments = *stmt.Comment()
-		fixed = true
 	}
-	f.Stmt = all
-	return fixed
+	return len(calls) > 0
 }
 
 // moveLicenses replaces the 'licenses' function with an attribute
-- 
2.43.0


From 870e3c1297dd8f1cf1cb1055d4efe98529f2307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 053/114] fix: shortening a label keeps canonical repository
 names

@@r//p:p became @r//p, which names another repository.
---
 labels/labels.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/labels/labels.go b/labels/labels.go
index 7564621..c3fac59 100644
--- a/labels/labels.go
+++ b/labels/labels.go
@@ -109,6 +109,10 @@ func Shorten(input, pkg string) string {
 		// Maybe it's not a label at all, e.g. a filename.
 		return input
 	}
+	if strings.HasPrefix(input, "@@") {
+		// A canonical repository name, which Format would turn into an apparent one.
+		return input
+	}
 	label := Parse(input)
 	return label.FormatRelative(pkg)
 }
-- 
2.43.0


From d589913e1f402d84d904d4c34a238f1b7e7789d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 054/114] fix: unused_deps reads attributes of the main section
 of jar manifests by their exact name

---
 unused_deps/jar_manifest.go | 46 +++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/unused_deps/jar_manifest.go b/unused_deps/jar_manifest.go
index af6f65b..71d6ffe 100644
--- a/unused_deps/jar_manifest.go
+++ b/unused_deps/jar_manifest.go
@@ -51,6 +51,35 @@ func manifestIndexNewline(manifest string) (int, int, error) {
 	return r, r + 1, nil
 }
 
+// manifestMainValue returns the value of the attribute named key in the main
+// section of a manifest, which is the part that precedes the first empty line.
+// The second result is false if the main section has no such attribute.
+func manifestMainValue(manifest string, key string) (string, bool) {
+	value, found := "", false
+	for {
+		line, rest := manifest, ""
+		newline, next, err := manifestIndexNewline(manifest)
+		if err == nil {
+			line, rest = manifest[:newline], manifest[next:]
+		}
+		if strings.HasPrefix(line, " ") {
+			// A continuation of the value on the previous line.
+			value += line[1:]
+		} else {
+			if found {
+				return value, true
+			}
+			if line == "" {
+				return "", false
+			}
+			name, rawValue, ok := strings.Cut(line, ":")
+			value = strings.TrimPrefix(rawValue, " ")
+			found = ok && strings.EqualFold(name, key) // Names are case-insensitive.
+		}
+		manifest = rest
+	}
+}
+
 // jarManifestValue returns the value associated with key in the manifest of
 // the jar file named jarFileName.
 func jarManifestValue(jarFileName string, key string) (string, error) {
@@ -75,23 +104,10 @@ func jarManifestValue(jarFileName string, key string) (string, error) {
 		if err != nil {
 			return "", err
 		}
-		contents := string(bytes)
-
-		found := strings.Index(contents, key+":")
-		if found < 0 {
+		label, ok := manifestMainValue(string(bytes), key)
+		if !ok {
 			return "", fmt.Errorf("manifest of jar %s contains no key %s", jarFileName, key)
 		}
-
-		label := ""
-		rest := contents[found+len(key+":"):]
-		for len(rest) > 0 && rest[0] == ' ' {
-			newline, next, err := manifestIndexNewline(rest)
-			if err != nil {
-				return "", fmt.Errorf("bad value for key %s in manifest of jar %s", key, jarFileName)
-			}
-			label += rest[1:newline]
-			rest = rest[next:]
-		}
 		return label, nil
 	}
 	return "", fmt.Errorf("jar file %s has no manifest", jarFileName)
-- 
2.43.0


From b8f60309e3e0868679cc1033602f3a50038817ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:19 +0000
Subject: [PATCH 055/114] fix: unused_deps resolves elements of deps relative
 to the rule that lists them

---
 unused_deps/unused_deps.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index ef5d8f4..cd6aab2 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -259,6 +259,23 @@ func hasRuntimeComment(expr build.Expr) bool {
 	return false
 }
 
+// absoluteLabel returns dep, an element of an attribute of the rule identified by
+// the absolute label ruleLabel, as an absolute label.
+func absoluteLabel(dep, ruleLabel string) string {
+	if strings.HasPrefix(dep, "@") {
+		return dep
+	}
+	repo, rest, ok := strings.Cut(ruleLabel, "//")
+	if !ok {
+		return dep
+	}
+	if strings.HasPrefix(dep, "//") {
+		return repo + dep
+	}
+	pkg, _, _ := strings.Cut(rest, ":")
+	return repo + "//" + pkg + ":" + strings.TrimPrefix(dep, ":")
+}
+
 // printCommands prints, for each key in the deps map, a buildozer command
 // to remove that entry from the deps attribute of the rule identified by label.
 // Returns true if at least one command was printed, or false otherwise.
@@ -277,18 +294,15 @@ func printCommands(label string, deps map[string]bool) (anyCommandPrinted bool)
 				if !ok {
 					continue
 				}
-				buildLabel := str.Value
-				if repo != "" && buildLabel[:2] == "//" {
-					buildLabel = fmt.Sprintf("@%s%s", repo, str.Value)
-				}
-				if !labels.Equal(buildLabel, dep, pkg) {
+				depLabel := absoluteLabel(str.Value, label)
+				if !labels.Equal(depLabel, dep, pkg) {
 					continue
 				}
 				if hasRuntimeComment(str) {
 					fmt.Printf("buildozer 'move deps runtime_deps %s' %s\n", str.Value, label)
 				} else {
 					// add dep's exported dependencies to label before removing dep
-					fmt.Printf("buildozer \"add deps $(%s query 'labels(exports, %s)' | tr '\\n' ' ')\" %s\n", *buildTool, str.Value, label)
+					fmt.Printf("buildozer \"add deps $(%s query 'labels(exports, %s)' | tr '\\n' ' ')\" %s\n", *buildTool, depLabel, label)
 					fmt.Printf("buildozer 'remove deps %s' %s\n", str.Value, label)
 				}
 				anyCommandPrinted = true
-- 
2.43.0


From de22fb0f398e47079386b43f3f498e1f6a1067b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:20 +0000
Subject: [PATCH 056/114] fix: unused_deps finds the BUILD files of external
 repositories

---
 unused_deps/unused_deps.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index cd6aab2..2d9168b 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -281,9 +281,14 @@ func absoluteLabel(dep, ruleLabel string) string {
 // Returns true if at least one command was printed, or false otherwise.
 func printCommands(label string, deps map[string]bool) (anyCommandPrinted bool) {
 	buildFileName, repo, pkg, ruleName := edit.InterpretLabelWithRepo(label)
-	if repo != "" {
+	if repo != "" && buildFileName == "" {
 		outputBase := blazeInfo(config.DefaultOutputBase)
-		buildFileName = fmt.Sprintf("%s/external/%s/%s", outputBase, repo, buildFileName)
+		for _, name := range edit.BuildFileNames {
+			buildFileName = path.Join(outputBase, "external", repo, pkg, name)
+			if _, err := os.Stat(buildFileName); err == nil {
+				break
+			}
+		}
 	}
 
 	depsExpr := getDepsExpr(buildFileName, ruleName)
-- 
2.43.0


From 373a02f189d2cb3b8bbd9e3bc87c9498d6225efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:20 +0000
Subject: [PATCH 057/114] fix: unused_deps reports the unused deps of an extra
 action

---
 unused_deps/unused_deps.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index 2d9168b..8990bd9 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -28,6 +28,7 @@ import (
 	"os"
 	"os/exec"
 	"path"
+	"sort"
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
@@ -113,10 +114,15 @@ func getJarPath(path string) (string, error) {
 
 // writeUnusedDeps writes the labels of unused direct deps, one per line, to outputFileName.
 func writeUnusedDeps(jarPath, outputFileName string) {
-	depsPath := strings.Replace(jarPath, ".jar", ".jdeps", 1)
+	depsPath := strings.TrimSuffix(jarPath, ".jar") + ".jdeps"
 	paramsPath := jarPath + "-2.params"
+	var deps []string
+	for dep := range unusedDeps(depsPath, directDepParams("bazel-out", paramsPath)) {
+		deps = append(deps, dep)
+	}
+	sort.Strings(deps)
 	file, _ := os.Create(outputFileName)
-	for dep := range unusedDeps(depsPath, directDepParams(paramsPath)) {
+	for _, dep := range deps {
 		file.WriteString(dep + "\n")
 	}
 }
-- 
2.43.0


From de5feb4a25a2a4ecdfec5a87bc5383faf6af996d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:20 +0000
Subject: [PATCH 058/114] fix: unused_deps does not read the params file of
 another rule

---
 unused_deps/unused_deps.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index 8990bd9..6fdc265 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -428,7 +428,9 @@ func main() {
 		if repo != "" {
 			blazeBin = fmt.Sprintf("%s/external/%s", binDir, repo)
 		}
-		depsByJar := directDepParams(blazeOutputPath, inputFileName(blazeBin, pkg, ruleName, "javac_params"))
+		// The aspect names the params file after the rule, without a "lib" prefix.
+		paramsFile := fmt.Sprintf("%s/%s/%s.javac_params", blazeBin, pkg, ruleName)
+		depsByJar := directDepParams(blazeOutputPath, paramsFile)
 		depsToRemove := unusedDeps(inputFileName(blazeBin, pkg, ruleName, "jdeps"), depsByJar)
 		// TODO(bazel-team): instead of printing, have buildifier-like modes?
 		anyCommandPrinted = printCommands(label, depsToRemove) || anyCommandPrinted
-- 
2.43.0


From f882d0cb7d8e3d67c62f82be233ea6891c1da0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 059/114] fix: tables can be merged into tables that were
 overridden partially

---
 tables/tables.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/tables/tables.go b/tables/tables.go
index 7ff8b02..e3917d0 100644
--- a/tables/tables.go
+++ b/tables/tables.go
@@ -279,25 +279,47 @@ func OverrideTables(labelArg, denylist, listArg, sortableListArg, sortDenylist,
 }
 
 // MergeTables allows a user of the build package to override the special-case rules. The user-provided tables are merged into the built-in tables.
+// Tables that an earlier call of OverrideTables left out are nil.
 func MergeTables(labelArg, denylist, listArg, sortableListArg, sortDenylist, sortAllowlist map[string]bool, namePriority map[string]int, stripLabelLeadingSlashes, shortenAbsoluteLabelsToRelative bool) {
+	if IsLabelArg == nil {
+		IsLabelArg = make(map[string]bool)
+	}
 	for k, v := range labelArg {
 		IsLabelArg[k] = v
 	}
+	if LabelDenylist == nil {
+		LabelDenylist = make(map[string]bool)
+	}
 	for k, v := range denylist {
 		LabelDenylist[k] = v
 	}
+	if IsListArg == nil {
+		IsListArg = make(map[string]bool)
+	}
 	for k, v := range listArg {
 		IsListArg[k] = v
 	}
+	if IsSortableListArg == nil {
+		IsSortableListArg = make(map[string]bool)
+	}
 	for k, v := range sortableListArg {
 		IsSortableListArg[k] = v
 	}
+	if SortableDenylist == nil {
+		SortableDenylist = make(map[string]bool)
+	}
 	for k, v := range sortDenylist {
 		SortableDenylist[k] = v
 	}
+	if SortableAllowlist == nil {
+		SortableAllowlist = make(map[string]bool)
+	}
 	for k, v := range sortAllowlist {
 		SortableAllowlist[k] = v
 	}
+	if NamePriority == nil {
+		NamePriority = make(map[string]int)
+	}
 	for k, v := range namePriority {
 		NamePriority[k] = v
 	}
-- 
2.43.0


From 421da4a95034744d8e89f224375a73f4dd1b1765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:30 +0000
Subject: [PATCH 060/114] fix: reporting cfg = "data" does not change the call

---
 warn/warn_bazel_api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 61de4e6..852acb7 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -395,7 +395,8 @@ func attrConfigurationWarning(f *build.File) []*LinterFinding {
 		newCall := *call
 		switch value.Value {
 		case "data":
-			newCall.List = append(newCall.List[:i], newCall.List[i+1:]...)
+			newCall.List = append([]build.Expr{}, call.List[:i]...)
+			newCall.List = append(newCall.List, call.List[i+1:]...)
 			findings = append(findings,
 				makeLinterFinding(param, `cfg = "data" for attr definitions has no effect and should be removed.`,
 					LinterReplacement{expr, &newCall}))
-- 
2.43.0


From 9adfde2a6f16cb7acd6f99038cc1d2f7542c6ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:30 +0000
Subject: [PATCH 061/114] fix: apparent repository names belong to the
 workspace of the file

---
 warn/warn_bazel_api.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 852acb7..8c4327f 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -22,6 +22,7 @@ import (
 	"fmt"
 	"sort"
 	"strings"
+	"sync"
 
 	"github.com/bazelbuild/buildtools/build"
 	"github.com/bazelbuild/buildtools/bzlenv"
@@ -174,8 +175,32 @@ func insertLoad(f *build.File, module string, symbols []string) *LinterReplaceme
 	return &LinterReplacement{&(f.Stmt[i]), edit.NewLoad(module, symbols, symbols)}
 }
 
-// Caches the result of bzlmod.ExtractModuleToApparentNameMapping.
-var moduleToApparentRepoName func(string) string
+// apparentRepoNames is the result of bzlmod.ExtractModuleToApparentNameMapping for a file reader.
+type apparentRepoNames struct {
+	fileReader *FileReader
+	mapping    func(string) string
+}
+
+// Caches the result of bzlmod.ExtractModuleToApparentNameMapping for the last used file reader
+// (other file readers may belong to other workspaces).
+var moduleToApparentRepoName *apparentRepoNames
+var moduleToApparentRepoNameMutex sync.Mutex
+
+// getApparentRepoName returns the apparent name of a module in the workspace of the file reader.
+func getApparentRepoName(module string, fileReader *FileReader) string {
+	moduleToApparentRepoNameMutex.Lock()
+	defer moduleToApparentRepoNameMutex.Unlock()
+
+	if moduleToApparentRepoName == nil || moduleToApparentRepoName.fileReader != fileReader {
+		moduleToApparentRepoName = &apparentRepoNames{
+			fileReader: fileReader,
+			mapping: bzlmod.ExtractModuleToApparentNameMapping(func(relPath string) *build.File {
+				return fileReader.GetFile("", relPath)
+			}),
+		}
+	}
+	return moduleToApparentRepoName.mapping(module)
+}
 
 // useApparentRepoNameIfExternal replaces the module name in a load statement with the apparent repository
 // name used by the root Bazel module (if any).
@@ -184,13 +209,8 @@ func useApparentRepoNameIfExternal(load string, fileReader *FileReader) string {
 		// Not a load from an external repository or we can't load external files.
 		return load
 	}
-	if moduleToApparentRepoName == nil {
-		moduleToApparentRepoName = bzlmod.ExtractModuleToApparentNameMapping(func(relPath string) *build.File {
-			return fileReader.GetFile("", relPath)
-		})
-	}
 	l := labels.Parse(load)
-	apparentName := moduleToApparentRepoName(l.Repository)
+	apparentName := getApparentRepoName(l.Repository, fileReader)
 	if apparentName == "" {
 		// The module that hosts the load is not a bazel_dep of the root module. We assume that's
 		// because it is a WORKSPACE repo, which uses the legacy name.
-- 
2.43.0


From 3f9c33034bbd79028d5bb5d187ff8d77dd42a50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:30 +0000
Subject: [PATCH 062/114] fix: placeholders for new load statements do not stay
 in the tree

---
 warn/warn.go           | 21 +++++++++++++++++++++
 warn/warn_bazel_api.go | 18 ++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/warn/warn.go b/warn/warn.go
index 5122c26..a1640d9 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -275,6 +275,10 @@ func ruleWarningWrapper(ruleWarning func(call *build.CallExpr, pkg string) *Lint
 // runWarningsFunction runs a linter/fixer function over a file and applies the fixes conditionally
 func runWarningsFunction(category string, f *build.File, fct func(f *build.File, pkg string, fileReader *FileReader) []*LinterFinding, formatted *[]byte, mode LintMode, fileReader *FileReader) []*Finding {
 	findings := []*Finding{}
+	// Fixers may insert nil statements as placeholders for new statements, drop those that remain
+	// unused (because nothing is being fixed or because the findings are disabled).
+	defer dropNilStatements(f)
+
 	for _, w := range fct(f, f.Pkg, fileReader) {
 		if !DisabledWarning(f, w.Start.Line, category) {
 			finding := makeFinding(f, w.Start, w.End, category, w.URL, w.Message, true, len(w.Replacement) > 0, nil)
@@ -308,6 +312,23 @@ func runWarningsFunction(category string, f *build.File, fct func(f *build.File,
 	return findings
 }
 
+// dropNilStatements removes nil statements from the top level of a file.
+func dropNilStatements(f *build.File) {
+	for _, stmt := range f.Stmt {
+		if stmt != nil {
+			continue
+		}
+		stmts := []build.Expr{}
+		for _, stmt := range f.Stmt {
+			if stmt != nil {
+				stmts = append(stmts, stmt)
+			}
+		}
+		f.Stmt = stmts
+		return
+	}
+}
+
 // HasDisablingComment checks if a node has a comment that disables a certain warning
 func HasDisablingComment(expr build.Expr, warning string) bool {
 	return edit.ContainsComments(expr, "buildifier: disable="+warning) ||
diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 8c4327f..312ab36 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -330,7 +330,25 @@ func notLoadedUsageCheck(f *build.File, fileReader *FileReader, functions, symbo
 	}
 
 	sort.Strings(loads)
+	oldStmts := f.Stmt
 	replacement := insertLoad(f, loadFrom, loads)
+	if len(oldStmts) < len(f.Stmt) {
+		// The statements have been moved, replacements of whole statements should follow them.
+		moved := make(map[*build.Expr]*build.Expr)
+		for i, j := 0, 0; i < len(oldStmts); i, j = i+1, j+1 {
+			if &f.Stmt[j] == replacement.Old {
+				j++
+			}
+			moved[&oldStmts[i]] = &f.Stmt[j]
+		}
+		for _, finding := range findings {
+			for i, r := range finding.Replacement {
+				if stmt, ok := moved[r.Old]; ok {
+					finding.Replacement[i].Old = stmt
+				}
+			}
+		}
+	}
 	if replacement != nil {
 		// Add the same replacement to all relevant findings.
 		for _, f := range findings {
-- 
2.43.0


From 84cf5114bf5a85d28a5e49aba377db2f781dc909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:30 +0000
Subject: [PATCH 063/114] fix: unused variables are reported in a deterministic
 way

---
 warn/warn_control_flow.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 19206a2..2958c56 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -20,6 +20,7 @@ package warn
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
@@ -480,7 +481,16 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 			for symbol := range used {
 				usedSymbols[symbol.Name] = true
 			}
-			for symbol, isSuppressed := range assigned {
+			// Iterate in the source order, the same symbol may be assigned to more than once.
+			assignedIdents := []*build.Ident{}
+			for symbol := range assigned {
+				assignedIdents = append(assignedIdents, symbol)
+			}
+			sort.Slice(assignedIdents, func(i, j int) bool {
+				return assignedIdents[i].NamePos.Byte < assignedIdents[j].NamePos.Byte
+			})
+			for _, symbol := range assignedIdents {
+				isSuppressed := assigned[symbol]
 				if _, ok := definedSymbols[symbol.Name]; !ok {
 					definedSymbols[symbol.Name] = symbol
 					if isSuppressed {
-- 
2.43.0


From b692cf2506c1b713f4ada63b2c94d6ff39ef6672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:30 +0000
Subject: [PATCH 064/114] fix: columns of findings in docstrings

---
 warn/warn_docstring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/warn/warn_docstring.go b/warn/warn_docstring.go
index 71b3256..fbaaadb 100644
--- a/warn/warn_docstring.go
+++ b/warn/warn_docstring.go
@@ -145,7 +145,7 @@ func parseFunctionDocstring(doc *build.StringExpr) docstringInfo {
 		case prefix + "Arguments:":
 			info.argumentsPos = build.Position{
 				Line:     start.Line + i,
-				LineRune: indent,
+				LineRune: indent + 1,
 			}
 			isArgumentsDescription = true
 			continue
@@ -179,7 +179,7 @@ func parseFunctionDocstring(doc *build.StringExpr) docstringInfo {
 					argIndentation = newIndentation
 					info.args[result[1]] = build.Position{
 						Line:     start.Line + i,
-						LineRune: indent + argIndentation,
+						LineRune: argIndentation + 1,
 					}
 				}
 			}
-- 
2.43.0


From 771361d017b59b50fde871cef2110e438b40cc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:30 +0000
Subject: [PATCH 065/114] fix: macro analysis is deterministic and handles
 recursion

---
 warn/warn_macro.go | 45 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/warn/warn_macro.go b/warn/warn_macro.go
index 65b071c..6acbd14 100644
--- a/warn/warn_macro.go
+++ b/warn/warn_macro.go
@@ -20,6 +20,7 @@ package warn
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
@@ -208,17 +209,34 @@ func (ma macroAnalyzer) getFileData(pkg, label string) fileData {
 }
 
 // IsMacro is a public function that checks whether the given function is a macro
-func (ma macroAnalyzer) IsMacro(fn function) (report functionReport) {
+func (ma macroAnalyzer) IsMacro(fn function) functionReport {
+	visited := make(map[function]bool)
+	report := ma.isMacro(fn, visited)
+	if !report.isMacro {
+		// None of the functions that can be reached from fn is a macro.
+		for visitedFn := range visited {
+			ma.cache[visitedFn] = functionReport{}
+		}
+	}
+	return report
+}
+
+// isMacro checks whether the given function is a macro without considering the functions that have
+// already been visited, this prevents stack overflow crashes if the input data contains recursion.
+// A negative result for a part of a recursion may be incomplete and therefore is not cached here.
+func (ma macroAnalyzer) isMacro(fn function, visited map[function]bool) (report functionReport) {
 	// Check the cache first
 	if cached, ok := ma.cache[fn]; ok {
 		return cached
 	}
-	// Write a negative result to the cache before analyzing. This will prevent stack overflow crashes
-	// if the input data contains recursion.
-	ma.cache[fn] = report
+	if visited[fn] {
+		return
+	}
+	visited[fn] = true
 	defer func() {
-		// Update the cache with the actual result
-		ma.cache[fn] = report
+		if report.isMacro {
+			ma.cache[fn] = report
+		}
 	}()
 
 	// Check for native rules
@@ -237,7 +255,7 @@ func (ma macroAnalyzer) IsMacro(fn function) (report functionReport) {
 
 	// Check whether fn.name is an alias for another function
 	if alias, ok := fileData.aliases[fn.name]; ok {
-		if ma.IsMacro(alias).isMacro {
+		if ma.isMacro(alias, visited).isMacro {
 			report.isMacro = true
 		}
 		return
@@ -266,8 +284,19 @@ func (ma macroAnalyzer) IsMacro(fn function) (report functionReport) {
 		}
 	}
 
+	// Make sure the result doesn't depend on the iteration order of the map.
+	for _, fcs := range [][]funCall{knownFunCalls, newFunCalls} {
+		sort.Slice(fcs, func(i, j int) bool {
+			if fcs[i].line != fcs[j].line {
+				return fcs[i].line < fcs[j].line
+			}
+			return fcs[i].nameAlias < fcs[j].nameAlias
+		})
+	}
+
 	for _, fc := range append(knownFunCalls, newFunCalls...) {
-		if ma.IsMacro(fc.function).isMacro {
+		fc := fc
+		if ma.isMacro(fc.function, visited).isMacro {
 			report.isMacro = true
 			report.fc = &fc
 			return
-- 
2.43.0


From 768eda923db90385de4412d4f586fe9964acdcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 066/114] fix: disabling comments name whole categories

---
 warn/warn.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/warn/warn.go b/warn/warn.go
index a1640d9..a884e1f 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -21,10 +21,11 @@ import (
 	"fmt"
 	"log"
 	"os"
+	"regexp"
 	"sort"
+	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
-	"github.com/bazelbuild/buildtools/edit"
 )
 
 // LintMode is an enum representing a linter mode. Can be either "warn", "fix", or "suggest"
@@ -331,10 +332,22 @@ func dropNilStatements(f *build.File) {
 
 // HasDisablingComment checks if a node has a comment that disables a certain warning
 func HasDisablingComment(expr build.Expr, warning string) bool {
-	return edit.ContainsComments(expr, "buildifier: disable="+warning) ||
-		edit.ContainsComments(expr, "buildozer: disable="+warning)
+	comments := expr.Comment()
+	for _, block := range [][]build.Comment{comments.Before, comments.Suffix, comments.After} {
+		for _, comment := range block {
+			for _, match := range disablingCommentRegex.FindAllStringSubmatch(comment.Token, -1) {
+				if strings.EqualFold(match[1], warning) {
+					return true
+				}
+			}
+		}
+	}
+	return false
 }
 
+// disablingCommentRegex matches a disabling comment together with the name of the disabled warning
+var disablingCommentRegex = regexp.MustCompile(`(?i)(?:buildifier|buildozer): disable=([\w-]+)`)
+
 // DisabledWarning checks if the warning was disabled by a comment.
 // The comment format is buildozer: disable=<warning>
 func DisabledWarning(f *build.File, findingLine int, warning string) bool {
-- 
2.43.0


From d2b60b0faf0666bdc3883f5241cd1582dc437b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 067/114] fix: *name does not accept a name argument

---
 warn/warn_macro.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warn/warn_macro.go b/warn/warn_macro.go
index 6acbd14..dbce144 100644
--- a/warn/warn_macro.go
+++ b/warn/warn_macro.go
@@ -53,7 +53,7 @@ type funCall struct {
 // either directly or via **kwargs.
 func acceptsNameArgument(def *build.DefStmt) bool {
 	for _, param := range def.Params {
-		if name, op := build.GetParamName(param); name == "name" || op == "**" {
+		if name, op := build.GetParamName(param); name == "name" && op == "" || op == "**" {
   		return true
 		}
 	}
-- 
2.43.0


From f5c06dd9f55f97a632200e1a09c28eba156b7c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 068/114] fix: report each load of a deprecated function

---
 warn/warn_deprecated.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/warn/warn_deprecated.go b/warn/warn_deprecated.go
index d7422d4..61fc581 100644
--- a/warn/warn_deprecated.go
+++ b/warn/warn_deprecated.go
@@ -25,12 +25,12 @@ import (
 	"github.com/bazelbuild/buildtools/labels"
 )
 
-func checkDeprecatedFunction(stmt build.Expr, loadedSymbols *map[string]*build.Ident, fullLabel string) *LinterFinding {
+func checkDeprecatedFunction(stmt build.Expr, loadedSymbols map[string][]*build.Ident, fullLabel string) []*LinterFinding {
 	def, ok := stmt.(*build.DefStmt)
 	if !ok {
 		return nil
 	}
-	node, ok := (*loadedSymbols)[def.Name]
+	nodes, ok := loadedSymbols[def.Name]
 	if !ok {
 		return nil
 	}
@@ -47,7 +47,11 @@ func checkDeprecatedFunction(stmt build.Expr, loadedSymbols *map[string]*build.I
 		return nil
 	}
 
-	return makeLinterFinding(node, fmt.Sprintf("The function %q defined in %q is deprecated.", def.Name, fullLabel))
+	findings := []*LinterFinding{}
+	for _, node := range nodes {
+		findings = append(findings, makeLinterFinding(node, fmt.Sprintf("The function %q defined in %q is deprecated.", def.Name, fullLabel)))
+	}
+	return findings
 }
 
 func deprecatedFunctionWarning(f *build.File, fileReader *FileReader) []*LinterFinding {
@@ -69,15 +73,14 @@ func deprecatedFunctionWarning(f *build.File, fileReader *FileReader) []*LinterF
 		if loadedFile == nil {
 			continue
 		}
-		loadedSymbols := make(map[string]*build.Ident)
+		// The same symbol may be loaded with different names
+		loadedSymbols := make(map[string][]*build.Ident)
 		for _, from := range load.From {
-			loadedSymbols[from.Name] = from
+			loadedSymbols[from.Name] = append(loadedSymbols[from.Name], from)
 		}
 
 		for _, stmt := range loadedFile.Stmt {
-			if finding := checkDeprecatedFunction(stmt, &loadedSymbols, loadedFile.CanonicalPath()); finding != nil {
-				findings = append(findings, finding)
-			}
+			findings = append(findings, checkDeprecatedFunction(stmt, loadedSymbols, loadedFile.CanonicalPath())...)
 		}
 
 	}
-- 
2.43.0


From 4631eebdf5997941caf2362b26a2f85da1bce414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:57 +0000
Subject: [PATCH 069/114] fix: suffix comments of parameterless def headers

---
 build/lex.go   | 19 +++++++++++++++++++
 build/print.go |  6 +++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/build/lex.go b/build/lex.go
index 475fb62..29991b4 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -821,6 +821,10 @@ func (in *input) order(v Expr) {
 		for _, x := range v.Params {
 			in.order(x)
 		}
+		if len(v.Params) == 0 {
+			// No other node can hold a suffix comment of the header
+			in.post = append(in.post, &defHeader{v})
+		}
 		for _, x := range v.Body {
 			in.order(x)
 		}
@@ -847,6 +851,17 @@ func (in *input) order(v Expr) {
 	}
 }
 
+// defHeader represents the header of a function definition in the postorder list.
+// Suffix comments assigned to it belong to the definition itself.
+type defHeader struct {
+	*DefStmt
+}
+
+// Span returns the start and end positions of the header, including the colon.
+func (x *defHeader) Span() (start, end Position) {
+	return x.HeaderSpan()
+}
+
 // assignComments attaches comments to nearby syntax.
 func (in *input) assignComments() {
 	// Generate preorder and postorder lists.
@@ -879,6 +894,10 @@ func (in *input) assignSuffixComments() {
 	// If multiple suffix comments were appended to the same
 	// expression node, they are now in reverse. Fix that.
 	for _, x := range in.post {
+		if _, ok := x.(*defHeader); ok {
+			// Shares its comments with the definition
+			continue
+		}
 		reverseComments(x.Comment().Suffix)
 	}
 
diff --git a/build/print.go b/build/print.go
index 1df2edc..89ee9dd 100644
--- a/build/print.go
+++ b/build/print.go
@@ -888,6 +888,8 @@ func (p *printer) expr(v Expr, outerPrec int) {
 			p.expr(v.Type, precLow)
 		}
 		p.printf(":")
+		// Suffix comments belong to the header.
+		p.comment = append(p.comment, v.Comment().Suffix...)
 		p.nestedStatements(v.Body)
 
 	case *ForStmt:
@@ -964,7 +966,9 @@ func (p *printer) expr(v Expr, outerPrec int) {
 
 	// Queue end-of-line comments for printing when we
 	// reach the end of the line.
-	p.comment = append(p.comment, v.Comment().Suffix...)
+	if _, ok := v.(*DefStmt); !ok {
+		p.comment = append(p.comment, v.Comment().Suffix...)
+	}
 }
 
 // A seqMode describes a formatting mode for a sequence of values,
-- 
2.43.0


From 62b7e1272359d645d3ec9e0642be91b756182738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:48 +0000
Subject: [PATCH 070/114] fix: don't shorten labels with colons in the package

---
 build/rewrite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index f0571dd..f044bbf 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -255,7 +255,7 @@ func fixLabels(f *File, w *Rewriter) {
 	}
 	// labelRE matches label strings, e.g. @r//x/y/z:abc
 	// where $1 is @r//x/y/z, $2 is @r//, $3 is r, $4 is z, $5 is abc.
-	labelRE := regexp.MustCompile(`^(((?:@(\w+))?//|` + labelPrefix + `)(?:.+/)?([^:]*))(?::([^:]+))?$`)
+	labelRE := regexp.MustCompile(`^(((?:@(\w+))?//|` + labelPrefix + `)(?:[^:]+/)?([^:]*))(?::([^:]+))?$`)
 
 	shortenLabel := func(v Expr) {
 		str, ok := v.(*StringExpr)
-- 
2.43.0


From c55c0f16902b8e0710a641aefbe13beb7f710fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 071/114] fix: no blank lines before comments moved into a
 function body

---
 build/lex.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/build/lex.go b/build/lex.go
index 29991b4..241c1d1 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -868,6 +868,17 @@ func (in *input) assignComments() {
 	in.order(in.file)
 	in.assignSuffixComments()
 	in.assignLineComments()
+
+	// Comments in the parameter list may have been assigned to the first statement of a function,
+	// don't start its body with blank lines.
+	for _, x := range in.pre {
+		if def, ok := x.(*DefStmt); ok && len(def.Body) > 0 {
+			com := def.Body[0].Comment()
+			for len(com.Before) > 0 && com.Before[0].Token == "" {
+				com.Before = com.Before[1:]
+			}
+		}
+	}
 }
 
 func (in *input) assignSuffixComments() {
-- 
2.43.0


From 5ee137238aba85357221e77662e5877e108b1bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:40 +0000
Subject: [PATCH 072/114] fix: replace all mentions of skylark

---
 warn/warn_cosmetic.go | 56 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 52 insertions(+), 4 deletions(-)

diff --git a/warn/warn_cosmetic.go b/warn/warn_cosmetic.go
index e0401c0..7f3cc2f 100644
--- a/warn/warn_cosmetic.go
+++ b/warn/warn_cosmetic.go
@@ -225,11 +225,14 @@ func skylarkToStarlark(s string) string {
 func replaceSkylark(s string) (newString string, changed bool) {
 	skylarkRegex := regexp.MustCompile("(?i)skylark")
 	newString = s
-	for _, r := range skylarkRegex.FindAllStringIndex(s, -1) {
+	matches := skylarkRegex.FindAllStringIndex(s, -1)
+	// Replace from the end to keep the indices of the remaining matches valid
+	for i := len(matches) - 1; i >= 0; i-- {
+		r := matches[i]
 		if r[0] > 0 && s[r[0]-1] == '/' {
 			continue
 		}
-		if r[1] < len(s)-1 && s[r[1]+1] == '/' {
+		if r[1] < len(s) && s[r[1]] == '/' {
 			continue
 		}
 		newString = newString[:r[0]] + skylarkToStarlark(newString[r[0]:r[1]]) + newString[r[1]:]
@@ -241,8 +244,19 @@ func skylarkCommentWarning(f *build.File) []*LinterFinding {
 	var findings []*LinterFinding
 	msg := `"Skylark" is an outdated name of the language, please use "starlark" instead.`
 
+	// Pointers to the nodes of the tree and modified copies of some of them
+	pointers := make(map[build.Expr]*build.Expr)
+	copies := make(map[build.Expr]build.Expr)
+	getCopy := func(expr build.Expr) build.Expr {
+		if _, ok := copies[expr]; !ok {
+			copies[expr] = expr.Copy()
+		}
+		return copies[expr]
+	}
+
 	// Check comments
 	build.WalkPointers(f, func(expr *build.Expr, stack []build.Expr) {
+		pointers[*expr] = expr
 		comments := (*expr).Comment()
 		newComments := build.Comments{
 			Before: append([]build.Comment{}, comments.Before...),
@@ -272,11 +286,45 @@ func skylarkCommentWarning(f *build.File) []*LinterFinding {
 		if !isModified {
 			return
 		}
-		newExpr := (*expr).Copy()
+		newExpr := getCopy(*expr)
 		newExpr.Comment().Before = newComments.Before
 		newExpr.Comment().Suffix = newComments.Suffix
 		newExpr.Comment().After = newComments.After
-		finding := makeLinterFinding(*expr, msg, LinterReplacement{expr, newExpr})
+		replacement := LinterReplacement{expr, newExpr}
+
+		// Items of dicts and arguments of load statements can't be replaced individually,
+		// replace their parents.
+		if len(stack) > 0 {
+			switch parent := stack[len(stack)-1].(type) {
+			case *build.DictExpr:
+				newParent := getCopy(parent).(*build.DictExpr)
+				newParent.List = append([]*build.KeyValueExpr{}, newParent.List...)
+				for i, item := range parent.List {
+					if build.Expr(item) == *expr {
+						newParent.List[i] = newExpr.(*build.KeyValueExpr)
+					}
+				}
+				replacement = LinterReplacement{pointers[parent], newParent}
+			case *build.LoadStmt:
+				newParent := getCopy(parent).(*build.LoadStmt)
+				newParent.From = append([]*build.Ident{}, newParent.From...)
+				newParent.To = append([]*build.Ident{}, newParent.To...)
+				if build.Expr(parent.Module) == *expr {
+					newParent.Module = newExpr.(*build.StringExpr)
+				}
+				for i := range parent.To {
+					if build.Expr(parent.From[i]) == *expr {
+						newParent.From[i] = newExpr.(*build.Ident)
+					}
+					if build.Expr(parent.To[i]) == *expr {
+						newParent.To[i] = newExpr.(*build.Ident)
+					}
+				}
+				replacement = LinterReplacement{pointers[parent], newParent}
+			}
+		}
+
+		finding := makeLinterFinding(*expr, msg, replacement)
 		finding.Start = start
 		finding.End = end
 		findings = append(findings, finding)
-- 
2.43.0


From 267e71c9d4db96f2a8001a88e6f41671e6119321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:40 +0000
Subject: [PATCH 073/114] fix: remove all unused loads at once

---
 warn/warn_control_flow.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 2958c56..0cdbfd5 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -598,10 +598,11 @@ Consider using a new variable instead.`, left.Name)))
 
 func unusedLoadWarning(f *build.File) []*LinterFinding {
 	findings := []*LinterFinding{}
-	loaded := make(map[string]struct {
+	type loadedSymbol struct {
 		label, from string
 		line        int
-	})
+	}
+	loaded := make(map[string]loadedSymbol)
 
 	symbols := edit.UsedSymbols(f)
 	types := edit.UsedTypes(f)
@@ -613,6 +614,8 @@ func unusedLoadWarning(f *build.File) []*LinterFinding {
 
 		// Findings related to the current load statement
 		loadFindings := []*LinterFinding{}
+		// Indices of those of them that are about removed symbols
+		removed := []int{}
 
 		// Copy the `load` object to provide a replacement if needed
 		load := *originalLoad
@@ -625,18 +628,16 @@ func unusedLoadWarning(f *build.File) []*LinterFinding {
 			// Check if the symbol was already loaded
 			origin, alreadyLoaded := loaded[to.Name]
 			start, _ := from.Span()
-			loaded[to.Name] = struct {
-				label, from string
-				line        int
-			}{load.Module.Token, from.Name, start.Line}
 
 			if alreadyLoaded {
+				loaded[to.Name] = loadedSymbol{load.Module.Token, from.Name, start.Line}
 				// The same symbol has already been loaded earlier
 				if origin.label == load.Module.Token && origin.from == from.Name {
 					// Only fix if it's loaded from the same label and variable
 					load.To = append(load.To[:i], load.To[i+1:]...)
 					load.From = append(load.From[:i], load.From[i+1:]...)
 					i--
+					removed = append(removed, len(loadFindings))
 					loadFindings = append(loadFindings, makeLinterFinding(to,
 						fmt.Sprintf("Symbol %q has already been loaded on line %d. Please remove it.", to.Name, origin.line)))
 					continue
@@ -656,6 +657,7 @@ func unusedLoadWarning(f *build.File) []*LinterFinding {
 				load.To = append(load.To[:i], load.To[i+1:]...)
 				load.From = append(load.From[:i], load.From[i+1:]...)
 				i--
+				removed = append(removed, len(loadFindings))
 
 				loadFindings = append(loadFindings, makeLinterFinding(to,
 					fmt.Sprintf("Loaded symbol %q is unused. Please remove it.\nTo disable the warning, add '@unused' in a comment.", to.Name)))
@@ -667,11 +669,14 @@ If you want to re-export a symbol, use the following pattern:
     %s = _%s
 `, to.Name, from.Name, to.Name, to.Name)
 				}
+				continue
 			}
+			loaded[to.Name] = loadedSymbol{load.Module.Token, from.Name, start.Line}
 		}
 
-		if len(loadFindings) == 0 {
-			// No problems with the current load statement
+		findings = append(findings, loadFindings...)
+		if len(removed) == 0 {
+			// Nothing to fix in the current load statement
 			continue
 		}
 
@@ -693,9 +698,8 @@ If you want to re-export a symbol, use the following pattern:
 		//
 		//     load(":foo.bzl")
 		//
-		// A workaround is to attach the full replacement to the first finding.
-		loadFindings[0].Replacement = []LinterReplacement{replacement}
-		findings = append(findings, loadFindings...)
+		// A workaround is to attach the full replacement to the first of such findings.
+		loadFindings[removed[0]].Replacement = []LinterReplacement{replacement}
 	}
 	return findings
 }
-- 
2.43.0


From 62c9ad6cd015853cc50722b2903c6d259f0b0325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:40 +0000
Subject: [PATCH 074/114] fix: assignments to names in parentheses are not uses

---
 edit/edit.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/edit/edit.go b/edit/edit.go
index 624c2f5..225f35e 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -1035,7 +1035,15 @@ func UsedSymbols(stmt build.Expr) map[string]bool {
 		// Check if we are on the left-side of an assignment
 		for _, e := range stack {
 			if as, ok := e.(*build.AssignExpr); ok {
-				if as.LHS == expr {
+				lhs := as.LHS
+				for {
+					paren, ok := lhs.(*build.ParenExpr)
+					if !ok {
+						break
+					}
+					lhs = paren.X
+				}
+				if lhs == expr {
 					return
 				}
 			}
-- 
2.43.0


From 801eacb908a855e3c006b09e7e6d224a90e31a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:40 +0000
Subject: [PATCH 075/114] fix: lint fixes converge, suggestions leave the tree
 alone

---
 warn/warn.go | 84 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 69 insertions(+), 15 deletions(-)

diff --git a/warn/warn.go b/warn/warn.go
index a884e1f..e5a8f99 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -273,9 +273,11 @@ func ruleWarningWrapper(ruleWarning func(call *build.CallExpr, pkg string) *Lint
 	}
 }
 
-// runWarningsFunction runs a linter/fixer function over a file and applies the fixes conditionally
-func runWarningsFunction(category string, f *build.File, fct func(f *build.File, pkg string, fileReader *FileReader) []*LinterFinding, formatted *[]byte, mode LintMode, fileReader *FileReader) []*Finding {
+// runWarningsFunction runs a linter/fixer function over a file and applies the fixes conditionally.
+// Besides the findings it returns the number of applied fixes.
+func runWarningsFunction(category string, f *build.File, fct func(f *build.File, pkg string, fileReader *FileReader) []*LinterFinding, formatted *[]byte, mode LintMode, fileReader *FileReader) ([]*Finding, int) {
 	findings := []*Finding{}
+	fixed := 0
 	// Fixers may insert nil statements as placeholders for new statements, drop those that remain
 	// unused (because nothing is being fixed or because the findings are disabled).
 	defer dropNilStatements(f)
@@ -292,6 +294,7 @@ func runWarningsFunction(category string, f *build.File, fct func(f *build.File,
 						*r.Old = r.New
 					}
 					finding = nil
+					fixed++
 				case ModeSuggest:
 					// Apply the fix, calculate the diff and roll back the fix
 					newContents := formatWithFix(f, &w.Replacement)
@@ -310,7 +313,7 @@ func runWarningsFunction(category string, f *build.File, fct func(f *build.File,
 			}
 		}
 	}
-	return findings
+	return findings, fixed
 }
 
 // dropNilStatements removes nil statements from the top level of a file.
@@ -379,6 +382,9 @@ func DisabledWarning(f *build.File, findingLine int, warning string) bool {
 	return disabled
 }
 
+// maxFixRounds limits how many times the warnings are run in the fix mode.
+const maxFixRounds = 10
+
 // FileWarnings returns a list of all warnings found in the file.
 func FileWarnings(f *build.File, enabledWarnings []string, formatted *[]byte, mode LintMode, fileReader *FileReader) []*Finding {
 	findings := []*Finding{}
@@ -394,16 +400,33 @@ func FileWarnings(f *build.File, enabledWarnings []string, formatted *[]byte, mo
 		formatted = &contents
 	}
 
-	for _, warn := range warnings {
-		if fct, ok := FileWarningMap[warn]; ok {
-			findings = append(findings, runWarningsFunction(warn, f, fileWarningWrapper(fct), formatted, mode, fileReader)...)
-		} else if fct, ok := MultiFileWarningMap[warn]; ok {
-			findings = append(findings, runWarningsFunction(warn, f, multiFileWarningWrapper(fct), formatted, mode, fileReader)...)
-		} else if fct, ok := RuleWarningMap[warn]; ok {
-			findings = append(findings, runWarningsFunction(warn, f, ruleWarningWrapper(fct), formatted, mode, fileReader)...)
-		} else {
-			log.Printf("unexpected warning %q", warn)
-			os.Exit(1)
+	for round := 0; round < maxFixRounds; round++ {
+		findings = findings[:0]
+		fixed := 0
+		for _, warn := range warnings {
+			var fct func(*build.File, string, *FileReader) []*LinterFinding
+			if fileFct, ok := FileWarningMap[warn]; ok {
+				fct = fileWarningWrapper(fileFct)
+			} else if multiFileFct, ok := MultiFileWarningMap[warn]; ok {
+				fct = multiFileWarningWrapper(multiFileFct)
+			} else if ruleFct, ok := RuleWarningMap[warn]; ok {
+				fct = ruleWarningWrapper(ruleFct)
+			} else {
+				log.Printf("unexpected warning %q", warn)
+				os.Exit(1)
+			}
+			newFindings, newFixed := runWarningsFunction(warn, f, fct, formatted, mode, fileReader)
+			findings = append(findings, newFindings...)
+			fixed += newFixed
+		}
+		if fixed == 0 {
+			break
+		}
+		// Fixes may interfere with each other (e.g. if one affects a node inside another affected
+		// node) or enable other fixes, try again until there's nothing to fix.
+		// Refresh the tree first, the new nodes don't have positions and formatting hints.
+		if refreshed := reparse(f, build.Format(f)); refreshed != nil {
+			f.Comments, f.Stmt = refreshed.Comments, refreshed.Stmt
 		}
 	}
 	// Some checks iterate over maps, order all findings to make the output deterministic.
@@ -423,7 +446,7 @@ func FileWarnings(f *build.File, enabledWarnings []string, formatted *[]byte, mo
 	return findings
 }
 
-// formatWithFix applies a fix, formats a file, and rolls back the fix
+// formatWithFix applies a fix, formats a copy of the file, and rolls back the fix
 func formatWithFix(f *build.File, replacements *[]LinterReplacement) []byte {
 	for i := range *replacements {
 		r := (*replacements)[i]
@@ -432,7 +455,38 @@ func formatWithFix(f *build.File, replacements *[]LinterReplacement) []byte {
 		defer func() { *r.Old = old }()
 	}
 
-	return build.Format(f)
+	return formatCopy(f)
+}
+
+// formatCopy formats a copy of the file, unlike build.Format it doesn't modify the file itself.
+func formatCopy(f *build.File) []byte {
+	contents := build.FormatWithoutRewriting(f)
+	copied := reparse(f, contents)
+	if copied == nil {
+		return contents
+	}
+	return build.Format(copied)
+}
+
+// reparse parses the printed contents of a file. Returns nil if it can't be parsed.
+func reparse(f *build.File, contents []byte) *build.File {
+	parse := build.ParseDefault
+	switch f.Type {
+	case build.TypeBuild:
+		parse = build.ParseBuild
+	case build.TypeWorkspace:
+		parse = build.ParseWorkspace
+	case build.TypeBzl:
+		parse = build.ParseBzl
+	case build.TypeModule:
+		parse = build.ParseModule
+	}
+	copied, err := parse(f.Path, contents)
+	if err != nil {
+		return nil
+	}
+	copied.Pkg, copied.Label, copied.WorkspaceRoot = f.Pkg, f.Label, f.WorkspaceRoot
+	return copied
 }
 
 // calculateDifference compares two file contents and returns a replacement in the form of
-- 
2.43.0


From 9d99d8f34799ac27263ca826d82baf8c0da1c844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 076/114] fix: find more uninitialized variables

---
 warn/warn_control_flow.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 0cdbfd5..cc7af3b 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -761,6 +761,10 @@ func findUninitializedVariables(stmts []build.Expr, previouslyInitialized map[st
 				// Don't traverse into nested def statements
 				return &build.StopTraversalError{}
 			case *build.AssignExpr:
+				if expr.Op != "=" {
+					// An augmented assignment (e.g. `a += b`) reads its left-hand side
+					return
+				}
 				for _, ident := range bzlenv.CollectLValues(expr.LHS) {
 					lValues[ident] = true
 				}
@@ -815,9 +819,11 @@ func findUninitializedVariables(stmts []build.Expr, previouslyInitialized map[st
 		newlyDefinedVariables := make(map[string]bool)
 		switch stmt := stmt.(type) {
 		case *build.DefStmt:
-			// Don't traverse nested functions
+			// Don't traverse nested functions, but they define their names
+			newlyDefinedVariables[stmt.Name] = true
 		case *build.CallExpr:
 			if _, ok := isFunctionCall(stmt, "fail"); ok {
+				findUninitializedIdents(stmt, callback)
 				return true, locallyInitialized
 			}
 		case *build.ReturnStmt:
@@ -904,6 +910,14 @@ func uninitializedVariableWarning(f *build.File) []*LinterFinding {
 		for _, ident := range collectLocalVariables(def.Body) {
 			localVars[ident.Name] = true
 		}
+		// Nested functions are local variables too.
+		build.WalkStatements(def, func(expr build.Expr, stack []build.Expr) (err error) {
+			if nested, ok := expr.(*build.DefStmt); ok && len(stack) > 0 {
+				localVars[nested.Name] = true
+				return &build.StopTraversalError{}
+			}
+			return
+		})
 
 		// Function parameters are guaranteed to be defined everywhere in the function, even if they
 		// are redefined inside the function body. They shouldn't be taken into consideration.
-- 
2.43.0


From 26cb51ab4acf9b31112080833057af6b201b5022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 077/114] fix: defaults of parameters use variables of the
 outer scope

---
 warn/warn_control_flow.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index cc7af3b..b0cfc75 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -408,6 +408,9 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 	// Symbols that are used in the current and inner scopes
 	usedSymbols := make(map[string]bool)
 
+	// Symbols of the outer scope that are used in the default values of the parameters
+	usedInDefaults := make(map[string]bool)
+
 	// Symbols for which the warning should be suppressed
 	suppressedWarnings := make(map[string]bool)
 
@@ -452,8 +455,8 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 						suppressedWarnings[ident.Name] = true
 					}
 				}
-				// The default variables for the parameters are defined in the outer
-				// scope but used here.
+				// The default values of the parameters are evaluated in the outer scope,
+				// where a symbol may differ from a symbol with the same name in this scope.
 				assign, ok := param.(*build.AssignExpr)
 				if !ok {
 					continue
@@ -464,7 +467,7 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 				// a function call with a keyword parameter.
 				_, used := extractIdentsFromStmt(assign.RHS)
 				for ident := range used {
-					usedSymbols[ident.Name] = true
+					usedInDefaults[ident.Name] = true
 				}
 			}
 
@@ -507,7 +510,7 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 	// make the variable with the same name from an outer scope also used.
 	// Collect variables that are used in the current or inner scopes but are not
 	// defined in the current scope.
-	usedSymbolsFromOuterScope := make(map[string]bool)
+	usedSymbolsFromOuterScope := usedInDefaults
 	for symbol := range usedSymbols {
 		if _, ok := definedSymbols[symbol]; ok {
 			continue
-- 
2.43.0


From c356be2bb14e3f6abf7c73868c54c2a4271d866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 078/114] fix: scopes of comprehensions and lambdas

---
 warn/warn_control_flow.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index b0cfc75..e9b832b 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -226,6 +226,27 @@ func noEffectWarning(f *build.File) []*LinterFinding {
 	return findings
 }
 
+// isInOuterScope takes a path from a comprehension or a lambda to one of its descendants and reports
+// whether the descendant belongs to the outer scope, i.e. it's a part of the first iterable of the
+// comprehension or of a default value of a lambda parameter.
+func isInOuterScope(path []build.Expr) bool {
+	if len(path) < 3 {
+		return false
+	}
+	switch expr := path[0].(type) {
+	case *build.Comprehension:
+		forClause, ok := path[1].(*build.ForClause)
+		return ok && path[1] == expr.Clauses[0] && path[2] == forClause.X
+	case *build.LambdaExpr:
+		for _, param := range expr.Params {
+			if assign, ok := param.(*build.AssignExpr); ok && path[1] == param {
+				return path[2] == assign.RHS
+			}
+		}
+	}
+	return false
+}
+
 // extractIdentsFromStmt returns all idents from an AST node representing a
 // single statement that are either defined outside the node and used inside,
 // or defined inside the node and can be used outside.
@@ -361,16 +382,17 @@ func extractIdentsFromStmt(stmt build.Expr) (assigned, used map[*build.Ident]boo
 			// Similar to Comprehension nodes
 			scope := make(map[string]bool)
 			for _, param := range expr.Params {
-				for _, lValue := range bzlenv.CollectLValues(param) {
-					scope[lValue.Name] = true
+				if ident, _ := build.GetParamIdent(param); ident != nil {
+					scope[ident.Name] = true
 				}
 			}
 			scopes[expr] = scope
 
 		case *build.Ident:
 			// If the identifier is defined in an intermediate scope, ignore it.
-			for _, node := range stack {
-				if scope, ok := scopes[node]; ok {
+			path := append(append([]build.Expr{}, stack...), node)
+			for i, node := range stack {
+				if scope, ok := scopes[node]; ok && !isInOuterScope(path[i:]) {
 					if _, ok := scope[expr.Name]; ok {
 						return
 					}
-- 
2.43.0


From bee451a5b3bf31e9c5d3f6eb3f54f568e7683640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 079/114] fix: assignment targets in parentheses

---
 bzlenv/bzlenv.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bzlenv/bzlenv.go b/bzlenv/bzlenv.go
index 40394af..d254bd8 100644
--- a/bzlenv/bzlenv.go
+++ b/bzlenv/bzlenv.go
@@ -144,6 +144,8 @@ func CollectLValues(node build.Expr) []*build.Ident {
 	switch node := node.(type) {
 	case *build.Ident:
 		result = append(result, node)
+	case *build.ParenExpr:
+		result = append(result, CollectLValues(node.X)...)
 	case *build.TupleExpr:
 		for _, item := range node.List {
 			result = append(result, CollectLValues(item)...)
-- 
2.43.0


From 104ec7ddd9f5971074a5dc6eb9464846e4b07b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:09 +0000
Subject: [PATCH 080/114] fix: nested functions in the static environment

---
 bzlenv/bzlenv.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bzlenv/bzlenv.go b/bzlenv/bzlenv.go
index d254bd8..7d3d97a 100644
--- a/bzlenv/bzlenv.go
+++ b/bzlenv/bzlenv.go
@@ -184,6 +184,8 @@ func declareLocalVariables(stmts []build.Expr, env *Environment) {
 				env.declare(id.Name, Local, node)
 			}
 			declareLocalVariables(node.Body, env)
+		case *build.DefStmt:
+			env.declare(node.Name, Function, node)
 		}
 	}
 }
@@ -196,12 +198,13 @@ func WalkOnceWithEnvironment(node build.Expr, env *Environment, fct func(e *buil
 		declareGlobals(node.Stmt, env)
 		build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
 	case *build.DefStmt:
+		outer := env.Function
 		env.enterBlock()
 		env.Function = node
 		declareParams(node, env)
 		declareLocalVariables(node.Body, env)
 		build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
-		env.Function = nil
+		env.Function = outer
 		env.exitBlock()
 	case *build.Comprehension:
 		env.enterBlock()
-- 
2.43.0


From 04f857bbed5124b73ffe3327a1583e3c49850c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:10 +0000
Subject: [PATCH 081/114] fix: global names defined in compound statements

---
 bzlenv/bzlenv.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bzlenv/bzlenv.go b/bzlenv/bzlenv.go
index 7d3d97a..7cb1a3b 100644
--- a/bzlenv/bzlenv.go
+++ b/bzlenv/bzlenv.go
@@ -133,6 +133,14 @@ func declareGlobals(stmts []build.Expr, env *Environment) {
 			}
 		case *build.DefStmt:
 			env.declare(node.Name, Function, node)
+		case *build.IfStmt:
+			declareGlobals(node.True, env)
+			declareGlobals(node.False, env)
+		case *build.ForStmt:
+			for _, id := range CollectLValues(node.Vars) {
+				env.declare(id.Name, Global, node)
+			}
+			declareGlobals(node.Body, env)
 		}
 	}
 }
-- 
2.43.0


From db44c82f2b332c0d4fbfb501bc1213b5e3377c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:12 +0000
Subject: [PATCH 082/114] fix: keywords of arguments and names in loaded files
 are not variables

---
 bzlenv/bzlenv.go | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/bzlenv/bzlenv.go b/bzlenv/bzlenv.go
index 7cb1a3b..798bbc0 100644
--- a/bzlenv/bzlenv.go
+++ b/bzlenv/bzlenv.go
@@ -198,6 +198,32 @@ func declareLocalVariables(stmts []build.Expr, env *Environment) {
 	}
 }
 
+// isElement reports whether the list contains the given node.
+func isElement(list []build.Expr, node build.Expr) bool {
+	for _, e := range list {
+		if e == node {
+			return true
+		}
+	}
+	return false
+}
+
+// walkAssignExpr calls fct on the children of an assign expression, which may also be a named
+// argument of a function call.
+func walkAssignExpr(node *build.AssignExpr, env *Environment, fct func(e *build.Expr, env *Environment)) {
+	if len(env.Stack) > 1 {
+		switch parent := env.Stack[len(env.Stack)-2].(type) {
+		case *build.CallExpr:
+			if isElement(parent.List, node) {
+				// The keyword of a named argument is not a variable.
+				fct(&node.RHS, env)
+				return
+			}
+		}
+	}
+	build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
+}
+
 // WalkOnceWithEnvironment calls fct on every child of node, while maintaining the Environment of all available symbols.
 func WalkOnceWithEnvironment(node build.Expr, env *Environment, fct func(e *build.Expr, env *Environment)) {
 	env.Stack = append(env.Stack, node)
@@ -214,6 +240,18 @@ func WalkOnceWithEnvironment(node build.Expr, env *Environment, fct func(e *buil
 		build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
 		env.Function = outer
 		env.exitBlock()
+	case *build.AssignExpr:
+		walkAssignExpr(node, env, fct)
+	case *build.LoadStmt:
+		build.WalkOnce(node, func(e *build.Expr) {
+			for _, from := range node.From {
+				if *e == build.Expr(from) {
+					// A name in the loaded file, not a variable.
+					return
+				}
+			}
+			fct(e, env)
+		})
 	case *build.Comprehension:
 		env.enterBlock()
 		for _, clause := range node.Clauses {
-- 
2.43.0


From 516baac430f56fe591f152638b8f63e75b67cf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:13 +0000
Subject: [PATCH 083/114] fix: parameters of lambdas in the static environment

---
 bzlenv/bzlenv.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bzlenv/bzlenv.go b/bzlenv/bzlenv.go
index 798bbc0..77665d5 100644
--- a/bzlenv/bzlenv.go
+++ b/bzlenv/bzlenv.go
@@ -166,8 +166,8 @@ func CollectLValues(node build.Expr) []*build.Ident {
 	return result
 }
 
-func declareParams(fct *build.DefStmt, env *Environment) {
-	for _, node := range fct.Params {
+func declareParams(params []build.Expr, env *Environment) {
+	for _, node := range params {
 		name, _ := build.GetParamName(node)
 		env.declare(name, Parameter, node)
 	}
@@ -235,11 +235,16 @@ func WalkOnceWithEnvironment(node build.Expr, env *Environment, fct func(e *buil
 		outer := env.Function
 		env.enterBlock()
 		env.Function = node
-		declareParams(node, env)
+		declareParams(node.Params, env)
 		declareLocalVariables(node.Body, env)
 		build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
 		env.Function = outer
 		env.exitBlock()
+	case *build.LambdaExpr:
+		env.enterBlock()
+		declareParams(node.Params, env)
+		build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
+		env.exitBlock()
 	case *build.AssignExpr:
 		walkAssignExpr(node, env, fct)
 	case *build.LoadStmt:
-- 
2.43.0


From c0ce412000a3593629379736329d1644ab5ec378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:15 +0000
Subject: [PATCH 084/114] fix: the first iterable of a comprehension is outside
 of it

---
 bzlenv/bzlenv.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/bzlenv/bzlenv.go b/bzlenv/bzlenv.go
index 77665d5..58d8617 100644
--- a/bzlenv/bzlenv.go
+++ b/bzlenv/bzlenv.go
@@ -198,6 +198,16 @@ func declareLocalVariables(stmts []build.Expr, env *Environment) {
 	}
 }
 
+// walkOutside calls fct on the expression e with the environment outside of the innermost block.
+// It's used for expressions that are a part of a node which creates a block but are evaluated
+// outside of that block.
+func walkOutside(e *build.Expr, env *Environment, fct func(e *build.Expr, env *Environment)) {
+	inner := env.currentBlock()
+	env.exitBlock()
+	fct(e, env)
+	env.Blocks = append(env.Blocks, inner)
+}
+
 // isElement reports whether the list contains the given node.
 func isElement(list []build.Expr, node build.Expr) bool {
 	for _, e := range list {
@@ -257,6 +267,17 @@ func WalkOnceWithEnvironment(node build.Expr, env *Environment, fct func(e *buil
 			}
 			fct(e, env)
 		})
+	case *build.ForClause:
+		if len(env.Stack) > 1 {
+			parent, ok := env.Stack[len(env.Stack)-2].(*build.Comprehension)
+			if ok && len(parent.Clauses) > 0 && parent.Clauses[0] == build.Expr(node) {
+				// The first iterable of a comprehension is evaluated outside of it.
+				fct(&node.Vars, env)
+				walkOutside(&node.X, env, fct)
+				break
+			}
+		}
+		build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
 	case *build.Comprehension:
 		env.enterBlock()
 		for _, clause := range node.Clauses {
-- 
2.43.0


From 8b58946f07d4bb71e94eb36b79a0cdcb2f44f68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:15 +0000
Subject: [PATCH 085/114] fix: defaults of parameters are evaluated outside of
 the function

---
 bzlenv/bzlenv.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/bzlenv/bzlenv.go b/bzlenv/bzlenv.go
index 58d8617..fe0b5a7 100644
--- a/bzlenv/bzlenv.go
+++ b/bzlenv/bzlenv.go
@@ -69,12 +69,14 @@ type Environment struct {
 	Function *build.DefStmt // enclosing function (or nil on top-level)
 	nextID   int            // used to create unique identifiers
 	Stack    []build.Expr   // parents of the current node
+
+	outerFunction *build.DefStmt // the function that encloses Function (if any)
 }
 
 // NewEnvironment creates a new empty Environment.
 func NewEnvironment() *Environment {
 	sc := block{}
-	return &Environment{[]block{sc}, nil, 0, []build.Expr{}}
+	return &Environment{Blocks: []block{sc}, Stack: []build.Expr{}}
 }
 
 func (e *Environment) enterBlock() {
@@ -219,7 +221,7 @@ func isElement(list []build.Expr, node build.Expr) bool {
 }
 
 // walkAssignExpr calls fct on the children of an assign expression, which may also be a named
-// argument of a function call.
+// argument of a function call or a parameter with a default value.
 func walkAssignExpr(node *build.AssignExpr, env *Environment, fct func(e *build.Expr, env *Environment)) {
 	if len(env.Stack) > 1 {
 		switch parent := env.Stack[len(env.Stack)-2].(type) {
@@ -229,6 +231,21 @@ func walkAssignExpr(node *build.AssignExpr, env *Environment, fct func(e *build.
 				fct(&node.RHS, env)
 				return
 			}
+		case *build.DefStmt:
+			if isElement(parent.Params, node) {
+				fct(&node.LHS, env)
+				function := env.Function
+				env.Function = env.outerFunction
+				walkOutside(&node.RHS, env, fct)
+				env.Function = function
+				return
+			}
+		case *build.LambdaExpr:
+			if isElement(parent.Params, node) {
+				fct(&node.LHS, env)
+				walkOutside(&node.RHS, env, fct)
+				return
+			}
 		}
 	}
 	build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
@@ -242,13 +259,13 @@ func WalkOnceWithEnvironment(node build.Expr, env *Environment, fct func(e *buil
 		declareGlobals(node.Stmt, env)
 		build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
 	case *build.DefStmt:
-		outer := env.Function
+		outer, outerOuter := env.Function, env.outerFunction
 		env.enterBlock()
-		env.Function = node
+		env.Function, env.outerFunction = node, outer
 		declareParams(node.Params, env)
 		declareLocalVariables(node.Body, env)
 		build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
-		env.Function = outer
+		env.Function, env.outerFunction = outer, outerOuter
 		env.exitBlock()
 	case *build.LambdaExpr:
 		env.enterBlock()
-- 
2.43.0


From d43b8947297ec0ce8eb6ad5a71cda4581a9551a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 086/114] fix: keyword-positional-params only concerns builtins

---
 warn/warn_bazel_api.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 312ab36..771aa5a 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -1121,7 +1121,10 @@ func keywordPositionalParametersWarning(f *build.File) []*LinterFinding {
 	var findings []*LinterFinding
 
 	// Check for legacy typeKeyword parameters
-	build.WalkPointers(f, func(expr *build.Expr, stack []build.Expr) {
+	var walk func(expr *build.Expr, env *bzlenv.Environment)
+	walk = func(expr *build.Expr, env *bzlenv.Environment) {
+		defer bzlenv.WalkOnceWithEnvironment(*expr, env, walk)
+
 		call, ok := (*expr).(*build.CallExpr)
 		if !ok || len(call.List) == 0 {
 			return
@@ -1130,6 +1133,10 @@ func keywordPositionalParametersWarning(f *build.File) []*LinterFinding {
 		if !ok {
 			return
 		}
+		if ident, ok := call.X.(*build.Ident); ok && env.Get(ident.Name) != nil {
+			// Not a builtin function
+			return
+		}
 
 		// Findings and replacements for the current call expression
 		var callFindings []*LinterFinding
@@ -1194,7 +1201,9 @@ func keywordPositionalParametersWarning(f *build.File) []*LinterFinding {
 		}
 
 		findings = append(findings, callFindings...)
-	})
+	}
+	var expr build.Expr = f
+	walk(&expr, bzlenv.NewEnvironment())
 
 	return findings
 }
-- 
2.43.0


From d191684c437785722955fd5953f6bd63eb2e2e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 087/114] fix: no automatic fix for actions with unknown
 arguments

---
 warn/warn_bazel_api.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 771aa5a..c80f297 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -632,6 +632,14 @@ func ctxActionsWarning(f *build.File) []*LinterFinding {
 					makeLinterFinding(dot, fmt.Sprintf(`"ctx.new_file" is deprecated in favor of "ctx.actions.declare_file".`)))
 				return
 			}
+			for _, arg := range call.List {
+				if t, _ := paramType(arg); t == typeArgs || t == typeKwargs {
+					// Can't fix automatically because the number of arguments is unknown
+					findings = append(findings,
+						makeLinterFinding(dot, fmt.Sprintf(`"ctx.new_file" is deprecated in favor of "ctx.actions.declare_file".`)))
+					return
+				}
+			}
 			newDot.Name = "actions.declare_file"
 			if len(call.List) == 2 {
 				// swap arguments:
@@ -652,8 +660,18 @@ func ctxActionsWarning(f *build.File) []*LinterFinding {
 			}
 		case "action":
 			newDot.Name = "actions.run"
+			_, _, executable := getParam(call.List, "executable")
 			if _, _, command := getParam(call.List, "command"); command != nil {
 				newDot.Name = "actions.run_shell"
+			} else if executable == nil {
+				for _, arg := range call.List {
+					if t, _ := paramType(arg); t == typeKwargs {
+						// Can't fix automatically because it's not known whether there's a command
+						findings = append(findings,
+							makeLinterFinding(dot, `"ctx.action" is deprecated in favor of "ctx.actions.run" or "ctx.actions.run_shell".`))
+						return
+					}
+				}
 			}
 		case "empty_action":
 			newDot.Name = "actions.do_nothing"
-- 
2.43.0


From 6a551d20e41b09eff039954bb7eac91d7a0285e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 088/114] fix: nested attribute definitions with single_file

---
 warn/warn_bazel_api.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index c80f297..61f8400 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -579,12 +579,14 @@ func attrSingleFileWarning(f *build.File) []*LinterFinding {
 					singleFileIndex--
 				}
 			}
+			newParam := *singleFileParam
+			newParam.LHS = &newSingleFileKw
+			newParam.RHS = singleFileValue
+			newCall.List[singleFileIndex] = &newParam
 		}
 		findings = append(findings,
 			makeLinterFinding(singleFileParam, "single_file is deprecated in favor of allow_single_file.",
 				LinterReplacement{expr, &newCall},
-				LinterReplacement{&singleFileParam.LHS, &newSingleFileKw},
-				LinterReplacement{&singleFileParam.RHS, singleFileValue},
 			))
 	})
 	return findings
-- 
2.43.0


From aa8afbaaded25b82a100204913326a0758f37b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 089/114] fix: single_file with an unknown value

---
 warn/warn_bazel_api.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 61f8400..bf0d1eb 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -573,6 +573,12 @@ func attrSingleFileWarning(f *build.File) []*LinterFinding {
 			// search for `allow_files` parameter in the same attr definition and remove it
 			allowFileIndex, _, allowFilesParam := getParam(call.List, "allow_files")
 			if allowFilesParam != nil {
+				if boolean, ok := singleFileValue.(*build.Ident); !ok || boolean.Name != "True" {
+					// It's not known which of the parameters `allow_files` should become.
+					findings = append(findings,
+						makeLinterFinding(singleFileParam, "single_file is deprecated in favor of allow_single_file."))
+					return
+				}
 				singleFileValue = allowFilesParam.RHS
 				newCall.List = append(newCall.List[:allowFileIndex], newCall.List[allowFileIndex+1:]...)
 				if singleFileIndex > allowFileIndex {
-- 
2.43.0


From 2a7a861196800d18c79046c3f43541c9cd6fe5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 090/114] fix: native rules shadowed by names of the file

---
 warn/warn_bazel_api.go | 44 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index bf0d1eb..d807e18 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -223,6 +223,27 @@ func useApparentRepoNameIfExternal(load string, fileReader *FileReader) string {
 	return l.Format()
 }
 
+// isLoadedFrom checks whether the binding is a symbol loaded from the given module under its own name.
+func isLoadedFrom(binding *bzlenv.NameInfo, env *bzlenv.Environment, module string, fileReader *FileReader) bool {
+	f, ok := env.Stack[0].(*build.File)
+	if !ok || binding.Kind != bzlenv.Imported {
+		return false
+	}
+	module = useApparentRepoNameIfExternal(module, fileReader)
+	for _, stmt := range f.Stmt {
+		load, ok := stmt.(*build.LoadStmt)
+		if !ok {
+			continue
+		}
+		for i, to := range load.To {
+			if build.Expr(to) == binding.Definition {
+				return load.Module.Value == module && load.From[i].Name == binding.Name
+			}
+		}
+	}
+	return false
+}
+
 func notLoadedFunctionUsageCheckInternal(expr *build.Expr, env *bzlenv.Environment, globals []string, loadFrom string, fileReader *FileReader) ([]string, []*LinterFinding) {
 	var loads []string
 	var findings []*LinterFinding
@@ -234,6 +255,7 @@ func notLoadedFunctionUsageCheckInternal(expr *build.Expr, env *bzlenv.Environme
 
 	var name string
 	var replacements []LinterReplacement
+	shadowed := false
 	switch node := call.X.(type) {
 	case *build.DotExpr:
 		// Maybe native.`global`?
@@ -243,6 +265,11 @@ func notLoadedFunctionUsageCheckInternal(expr *build.Expr, env *bzlenv.Environme
 		}
 
 		name = node.Name
+		if binding := env.Get(name); binding != nil && !isLoadedFrom(binding, env, loadFrom, fileReader) {
+			// `foo` is something else here, `native.foo()` can't be replaced with `foo()`.
+			shadowed = true
+			break
+		}
 		// Replace `native.foo()` with `foo()`
 		newCall := *call
 		newCall.X = &build.Ident{Name: node.Name}
@@ -259,7 +286,9 @@ func notLoadedFunctionUsageCheckInternal(expr *build.Expr, env *bzlenv.Environme
 
 	for _, global := range globals {
 		if name == global {
-			loads = append(loads, name)
+			if !shadowed {
+				loads = append(loads, name)
+			}
 			findings = append(findings,
 				makeLinterFinding(call.X, fmt.Sprintf(`Function %q is not global anymore and needs to be loaded from %q.`, global, useApparentRepoNameIfExternal(loadFrom, fileReader)), replacements...))
 			break
@@ -297,14 +326,19 @@ func notLoadedSymbolUsageCheckInternal(expr *build.Expr, env *bzlenv.Environment
 // and adds a load statement if necessary.
 func notLoadedUsageCheck(f *build.File, fileReader *FileReader, functions, symbols []string, loadFrom string) []*LinterFinding {
 	toLoad := make(map[string]bool)
-	var findings []*LinterFinding
+	var findings, shadowedFindings []*LinterFinding
 
 	var walk func(expr *build.Expr, env *bzlenv.Environment)
 	walk = func(expr *build.Expr, env *bzlenv.Environment) {
 		defer bzlenv.WalkOnceWithEnvironment(*expr, env, walk)
 
 		functionLoads, functionFindings := notLoadedFunctionUsageCheckInternal(expr, env, functions, loadFrom, fileReader)
-		findings = append(findings, functionFindings...)
+		if len(functionLoads) == 0 {
+			// Nothing can be fixed
+			shadowedFindings = append(shadowedFindings, functionFindings...)
+		} else {
+			findings = append(findings, functionFindings...)
+		}
 		for _, load := range functionLoads {
 			toLoad[load] = true
 		}
@@ -319,7 +353,7 @@ func notLoadedUsageCheck(f *build.File, fileReader *FileReader, functions, symbo
 	walk(&expr, bzlenv.NewEnvironment())
 
 	if len(toLoad) == 0 {
-		return nil
+		return shadowedFindings
 	}
 
 	loadFrom = useApparentRepoNameIfExternal(loadFrom, fileReader)
@@ -356,7 +390,7 @@ func notLoadedUsageCheck(f *build.File, fileReader *FileReader, functions, symbo
 		}
 	}
 
-	return findings
+	return append(findings, shadowedFindings...)
 }
 
 // NotLoadedFunctionUsageCheck checks whether there's a usage of a given not imported function in the file
-- 
2.43.0


From 6eb99219b78a5b7c6f4df6afd9be5b459f8ee09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 091/114] fix: negation of non-literals in attr-non-empty

---
 warn/warn_bazel_api.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index d807e18..5819f5e 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -53,7 +53,7 @@ func negateExpression(expr build.Expr) build.Expr {
 	}
 
 	boolean, ok := expr.(*build.Ident)
-	if ok {
+	if ok && (boolean.Name == "True" || boolean.Name == "False") {
 		newBoolean := *boolean
 		if boolean.Name == "True" {
 			newBoolean.Name = "False"
@@ -63,6 +63,15 @@ func negateExpression(expr build.Expr) build.Expr {
 		return &newBoolean
 	}
 
+	switch e := expr.(type) {
+	case *build.ConditionalExpr, *build.LambdaExpr:
+		expr = &build.ParenExpr{X: expr}
+	case *build.BinaryExpr:
+		if e.Op == "and" || e.Op == "or" {
+			// `not` binds tighter
+			expr = &build.ParenExpr{X: expr}
+		}
+	}
 	return &build.UnaryExpr{
 		Op: "not",
 		X:  expr,
-- 
2.43.0


From 121687ab973b4a892d886b4d8f685e17c3ad50ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 092/114] fix: arithmetic of an int and a float gives a float

---
 warn/types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/warn/types.go b/warn/types.go
index 07dbb6c..2df84cd 100644
--- a/warn/types.go
+++ b/warn/types.go
@@ -161,6 +161,9 @@ func DetectTypes(f *build.File) map[build.Expr]Type {
 				// preserve the type
 				if t, ok := result[node.X]; ok {
 					nodeType = t
+					if t == Int && result[node.Y] == Float {
+						nodeType = Float
+					}
 				} else if t, ok := result[node.Y]; ok {
 					if node.Op != "%" || t == String {
 						// The percent operator is special because it can be applied to to arguments of
-- 
2.43.0


From 80f48b5cb55acba8a4e0bd8fcf171fe2d40026a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:24 +0000
Subject: [PATCH 093/114] fix: brackets of converted tuples

---
 convertast/convert_ast.go | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/convertast/convert_ast.go b/convertast/convert_ast.go
index 6978354..18ee0f8 100644
--- a/convertast/convert_ast.go
+++ b/convertast/convert_ast.go
@@ -163,6 +163,23 @@ func convClauses(list []syntax.Node) []build.Expr {
 	return res
 }
 
+// convTuple converts a tuple. It gets brackets, even if not required by the caller,
+// if it can't be printed without them: it has just one element or elements with comments.
+func convTuple(e *syntax.TupleExpr, noBrackets bool) *build.TupleExpr {
+	list := convExprs(e.List)
+	for _, x := range list {
+		if c := x.Comment(); len(list) == 1 || len(c.Before) > 0 || len(c.Suffix) > 0 {
+			noBrackets = false
+		}
+	}
+	return &build.TupleExpr{
+		List:         list,
+		NoBrackets:   noBrackets,
+		Comments:     convComments(e.Comments()),
+		ForceCompact: singleLine(e),
+	}
+}
+
 func convExpr(e syntax.Expr) build.Expr {
 	if e == nil {
 		return nil
@@ -251,17 +268,23 @@ func convExpr(e syntax.Expr) build.Expr {
 			Curly:    e.Curly,
 		}
 	case *syntax.ParenExpr:
+		if tuple, ok := e.X.(*syntax.TupleExpr); ok && !tuple.Lparen.IsValid() {
+			// The parentheses are the brackets of the tuple,
+			// the comments of the inner tuple are inside of them.
+			res := convTuple(tuple, false)
+			first, last := res.List[0].Comment(), res.List[len(res.List)-1].Comment()
+			first.Before = append(res.Before, first.Before...)
+			last.Suffix = append(last.Suffix, res.Suffix...)
+			res.Comments = convComments(e.Comments())
+			res.ForceCompact = singleLine(e)
+			return res
+		}
 		return &build.ParenExpr{
 			X:        convExpr(e.X),
 			Comments: convComments(e.Comments()),
 		}
 	case *syntax.TupleExpr:
-		return &build.TupleExpr{
-			List:         convExprs(e.List),
-			NoBrackets:   !e.Lparen.IsValid(),
-			Comments:     convComments(e.Comments()),
-			ForceCompact: singleLine(e),
-		}
+		return convTuple(e, !e.Lparen.IsValid())
 	case *syntax.IndexExpr:
 		return &build.IndexExpr{
 			X:        convExpr(e.X),
-- 
2.43.0


From bd238dc90c825ade1541d7b6c8403946be5dd1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:24 +0000
Subject: [PATCH 094/114] fix: convert dict comprehensions

---
 convertast/convert_ast.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/convertast/convert_ast.go b/convertast/convert_ast.go
index 18ee0f8..71397cb 100644
--- a/convertast/convert_ast.go
+++ b/convertast/convert_ast.go
@@ -253,6 +253,13 @@ func convExpr(e syntax.Expr) build.Expr {
 			})
 		}
 		return &build.DictExpr{List: list, Comments: convComments(e.Comments())}
+	case *syntax.DictEntry:
+		// The body of a dict comprehension.
+		return &build.KeyValueExpr{
+			Key:      convExpr(e.Key),
+			Value:    convExpr(e.Value),
+			Comments: convComments(e.Comments()),
+		}
 	case *syntax.CondExpr:
 		return &build.ConditionalExpr{
 			Then:     convExpr(e.True),
-- 
2.43.0


From 6c75dedf88be8043d845b55d2479bfc275ca2756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:24 +0000
Subject: [PATCH 095/114] fix: keep the spelling of converted strings

---
 convertast/convert_ast.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/convertast/convert_ast.go b/convertast/convert_ast.go
index 71397cb..46f4632 100644
--- a/convertast/convert_ast.go
+++ b/convertast/convert_ast.go
@@ -198,6 +198,7 @@ func convExpr(e syntax.Expr) build.Expr {
 		case syntax.STRING:
 			return &build.StringExpr{
 				Value:       e.Value.(string),
+				Token:       e.Raw,
 				TripleQuote: strings.HasPrefix(e.Raw, "\"\"\""),
 				Comments:    convComments(e.Comments())}
 		}
-- 
2.43.0


From 809b145ce67de3a8f4ff4ee44d4c472283f65026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:24 +0000
Subject: [PATCH 096/114] fix: convert big integers

---
 convertast/convert_ast.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/convertast/convert_ast.go b/convertast/convert_ast.go
index 46f4632..d29ef2e 100644
--- a/convertast/convert_ast.go
+++ b/convertast/convert_ast.go
@@ -22,7 +22,6 @@ package convertast
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
@@ -189,7 +188,7 @@ func convExpr(e syntax.Expr) build.Expr {
 		switch e.Token {
 		case syntax.INT:
 			return &build.LiteralExpr{
-				Token:    strconv.FormatInt(e.Value.(int64), 10),
+				Token:    fmt.Sprint(e.Value), // int64 or *big.Int
 				Comments: convComments(e.Comments())}
 		case syntax.FLOAT:
 			return &build.LiteralExpr{
-- 
2.43.0


From 0c258153613252bede351926d08889536073c619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:18 +0000
Subject: [PATCH 097/114] fix: keep the package of files whose rules are
 deleted

---
 edit/bzlmod/bzlmod.go |  4 +++-
 edit/edit.go          | 17 ++++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/edit/bzlmod/bzlmod.go b/edit/bzlmod/bzlmod.go
index 4a3fc42..fbd93c6 100644
--- a/edit/bzlmod/bzlmod.go
+++ b/edit/bzlmod/bzlmod.go
@@ -115,7 +115,9 @@ func NewUseRepo(f *build.File, proxies []string) (*build.File, *build.CallExpr)
 	}
 	stmt := append(f.Stmt[:lastUsage+1], append([]build.Expr{useRepo}, f.Stmt[lastUsage+1:]...)...)
 
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: stmt, Type: build.TypeModule}, useRepo
+	res := *f
+	res.Stmt = stmt
+	return &res, useRepo
 }
 
 // AddRepoUsages adds the given repos to the given use_repo calls without introducing duplicate
diff --git a/edit/edit.go b/edit/edit.go
index 225f35e..d5560d8 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -181,6 +181,13 @@ func PackageDeclaration(f *build.File) *build.Rule {
 	return &build.Rule{Call: call, ImplicitName: ""}
 }
 
+// withStmts returns a copy of the file with other statements.
+func withStmts(f *build.File, stmts []build.Expr) *build.File {
+	res := *f
+	res.Stmt = stmts
+	return &res
+}
+
 // RemoveEmptyPackage removes empty package declarations from the file, i.e.:
 //
 //	package()
@@ -195,7 +202,7 @@ func RemoveEmptyPackage(f *build.File) *build.File {
 		}
 		all = append(all, stmt)
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: f.Type}
+	return withStmts(f, all)
 }
 
 func isEmptyPackage(expr build.Expr) bool {
@@ -229,7 +236,7 @@ func RemoveEmptyUseRepoCalls(f *build.File) *build.File {
 		}
 		all = append(all, stmt)
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: build.TypeModule}
+	return withStmts(f, all)
 }
 
 func isEmptyUseRepoCall(expr build.Expr) bool {
@@ -356,7 +363,7 @@ func DeleteRule(f *build.File, rule *build.Rule) *build.File {
 		}
 		all = append(all, stmt)
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: f.Type}
+	return withStmts(f, all)
 }
 
 // DeleteRuleByName returns the AST without the rules that have the
@@ -374,7 +381,7 @@ func DeleteRuleByName(f *build.File, name string) *build.File {
 			all = append(all, stmt)
 		}
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: f.Type}
+	return withStmts(f, all)
 }
 
 // DeleteRuleByKind removes the rules of the specified kind from the AST.
@@ -392,7 +399,7 @@ func DeleteRuleByKind(f *build.File, kind string) *build.File {
 			all = append(all, stmt)
 		}
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: f.Type}
+	return withStmts(f, all)
 }
 
 // AllLists returns all the lists concatenated in an expression.
-- 
2.43.0


From ffedee284da57b05666857a0c91e5cb08ca17461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:03 +0000
Subject: [PATCH 098/114] fix: loaded symbols used in type annotations

---
 edit/edit.go | 22 +++++++++++++++-------
 edit/fix.go  |  3 +++
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index d5560d8..e80cdb0 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -1063,6 +1063,17 @@ func UsedSymbols(stmt build.Expr) map[string]bool {
 // UsedTypes returns the set of types used in the BUILD file (variables, function names).
 func UsedTypes(stmt build.Expr) map[string]bool {
 	symbols := make(map[string]bool)
+	// A type may be any expression, e.g. a subscript, a union or a struct field.
+	addTypes := func(t build.Expr) {
+		if t == nil {
+			return
+		}
+		build.Walk(t, func(expr build.Expr, stack []build.Expr) {
+			if ident, ok := expr.(*build.Ident); ok {
+				symbols[ident.Name] = true
+			}
+		})
+	}
 	build.Walk(stmt, func(expr build.Expr, stack []build.Expr) {
 		// Don't traverse inside load statements
 		if len(stack) > 0 {
@@ -1070,16 +1081,13 @@ func UsedTypes(stmt build.Expr) map[string]bool {
 				return
 			}
 		}
-		// Types can only be found in method declarations and
+		// Types can only be found in method declarations and parameters,
+		// they are not visited by the traversal.
 		switch expr := expr.(type) {
 		case *build.TypedIdent:
-			for _, t := range build.GetTypes(expr) {
-				symbols[t] = true
-			}
+			addTypes(expr.Type)
 		case *build.DefStmt:
-			for _, t := range build.GetTypes(expr) {
-				symbols[t] = true
-			}
+			addTypes(expr.Type)
 		}
 	})
 	return symbols
diff --git a/edit/fix.go b/edit/fix.go
index 6f825e9..7c1f8e6 100644
--- a/edit/fix.go
+++ b/edit/fix.go
@@ -369,6 +369,9 @@ func usePlusEqual(f *build.File) bool {
 // statements when the list is empty.
 func cleanUnusedLoads(f *build.File) bool {
 	symbols := UsedSymbols(f)
+	for name := range UsedTypes(f) {
+		symbols[name] = true
+	}
 	fixed := false
 
 	// Map of symbol in this file -> modules it's loaded from
-- 
2.43.0


From f815ac6da7c9653df3c9a3874ffaf24381c0cb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:32 +0000
Subject: [PATCH 099/114] fix: DelRules determines implicit names before it
 deletes

---
 build/rule.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/build/rule.go b/build/rule.go
index 4d47552..4c0b40f 100644
--- a/build/rule.go
+++ b/build/rule.go
@@ -108,7 +108,8 @@ func (f *File) RuleNamed(name string) *Rule {
 // An empty kind matches all kinds; an empty name matches all names.
 // It returns the number of rules that were deleted.
 func (f *File) DelRules(kind, name string) int {
-	var i int
+	// The statements of the file must not change before all implicit names are determined.
+	kept := []Expr{}
 	for _, stmt := range f.Stmt {
 		if call, ok := stmt.(*CallExpr); ok {
 			r := f.Rule(call)
@@ -117,11 +118,10 @@ func (f *File) DelRules(kind, name string) int {
 				continue
 			}
 		}
-		f.Stmt[i] = stmt
-		i++
+		kept = append(kept, stmt)
 	}
-	n := len(f.Stmt) - i
-	f.Stmt = f.Stmt[:i]
+	n := len(f.Stmt) - len(kept)
+	f.Stmt = kept
 	return n
 }
 
-- 
2.43.0


From 5ca4849418d93352d663d71dd386fc105eabe338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:59 +0000
Subject: [PATCH 100/114] fix: bzl-visibility compares directories, not string
 prefixes

---
 warn/warn_visibility.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/warn/warn_visibility.go b/warn/warn_visibility.go
index c02c659..4d20f18 100644
--- a/warn/warn_visibility.go
+++ b/warn/warn_visibility.go
@@ -28,6 +28,12 @@ import (
 
 var internalDirectory = regexp.MustCompile("/(internal|private)[/:]")
 
+// isInsideDirectory reports whether the file with the given canonical name belongs to the
+// directory or to one of its subdirectories.
+func isInsideDirectory(path, dir string) bool {
+	return strings.HasPrefix(path, dir+"/") || strings.HasPrefix(path, dir+":")
+}
+
 func bzlVisibilityWarning(f *build.File) []*LinterFinding {
 	var findings []*LinterFinding
 
@@ -64,8 +70,8 @@ func bzlVisibilityWarning(f *build.File) []*LinterFinding {
 			continue
 		}
 
-		if strings.HasPrefix(path, chunks[0]) ||
-			strings.HasPrefix(strings.Replace(path, "/javatests/", "/java/", 1), chunks[0]) {
+		if isInsideDirectory(path, chunks[0]) ||
+			isInsideDirectory(strings.Replace(path, "/javatests/", "/java/", 1), chunks[0]) {
 			continue
 		}
 
-- 
2.43.0


From c3e4de99f2534e1d39068628e6cbe9ca7f7783b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:01 +0000
Subject: [PATCH 101/114] fix: -edit-variables edits the assignment in effect
 at the rule

---
 edit/buildozer.go | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 83bd971..b6c14b8 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1115,15 +1115,20 @@ type rewriteResult struct {
 	records  []*apipb.Output_Record
 }
 
-// getGlobalVariables returns the global variable assignments in the provided list of expressions.
+// getGlobalVariables returns the global variable assignments in the provided list of expressions
+// that are in effect where the rule is instantiated.
 // That is, for each variable assignment of the form
 //
 //	a = v
 //
-// vars["a"] will contain the AssignExpr whose RHS value is the assignment "a = v".
-func getGlobalVariables(exprs []build.Expr) (vars map[string]*build.AssignExpr) {
+// vars["a"] will contain the AssignExpr whose RHS value is the assignment "a = v". If a variable is
+// assigned repeatedly, it's the last assignment in front of the rule.
+func getGlobalVariables(exprs []build.Expr, rule *build.Rule) (vars map[string]*build.AssignExpr) {
 	vars = make(map[string]*build.AssignExpr)
 	for _, expr := range exprs {
+		if rule != nil && instantiates(expr, rule) {
+			break
+		}
 		if as, ok := expr.(*build.AssignExpr); ok {
 			if lhs, ok := as.LHS.(*build.Ident); ok {
 				vars[lhs.Name] = as
@@ -1133,6 +1138,22 @@ func getGlobalVariables(exprs []build.Expr) (vars map[string]*build.AssignExpr)
 	return vars
 }
 
+// instantiates returns whether the rule is instantiated when the top-level statement is executed.
+func instantiates(stmt build.Expr, rule *build.Rule) bool {
+	switch stmt.(type) {
+	case *build.CallExpr:
+		return stmt == build.Expr(rule.Call)
+	case *build.DefStmt:
+		// The body of a function is executed later.
+		return false
+	}
+	found := false
+	build.Walk(stmt, func(e build.Expr, _ []build.Expr) {
+		found = found || e == build.Expr(rule.Call)
+	})
+	return found
+}
+
 // When checking the filesystem, we need to look for any of the
 // possible BuildFileNames. For historical reasons, the
 // parts of the tool that generate paths that we may want to examine
@@ -1214,10 +1235,6 @@ func rewrite(opts *Options, commandsForFile commandsForFile) *rewriteResult {
 	}
 	f.WorkspaceRoot, f.Pkg, f.Label = wspace.SplitFilePath(name)
 
-	vars := map[string]*build.AssignExpr{}
-	if opts.EditVariables {
-		vars = getGlobalVariables(f.Stmt)
-	}
 	var errs []error
 	changed := false
 	for _, commands := range commandsForFile.commands {
@@ -1251,6 +1268,10 @@ func rewrite(opts *Options, commandsForFile commandsForFile) *rewriteResult {
 				cmdTargets = []*build.Rule{nil}
 			}
 			for _, r := range cmdTargets {
+				vars := map[string]*build.AssignExpr{}
+				if opts.EditVariables {
+					vars = getGlobalVariables(f.Stmt, r)
+				}
 				record := &apipb.Output_Record{}
 				newf, err := cmdInfo.Fn(opts, CmdEnvironment{f, r, vars, absPkg, cmd.tokens[1:], record})
 				if len(record.Fields) != 0 {
-- 
2.43.0


From 16e4c773570314958beec613e2c0fb7964bfa9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:52 +0000
Subject: [PATCH 102/114] fix: keyword arguments in default values are not
 uninitialized variables

---
 warn/warn_control_flow.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index e9b832b..ce7085d 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -772,7 +772,11 @@ func findUninitializedVariables(stmts []build.Expr, previouslyInitialized map[st
 		// Collect lValues, they shouldn't be taken into account
 		// For example, if the expression is `a = foo(b = c)`, only `c` can be an uninitialized variable here.
 		lValues := make(map[*build.Ident]bool)
+		nestedBodies := make(map[build.Expr]bool)
 		build.WalkInterruptable(expr, func(expr build.Expr, stack []build.Expr) (err error) {
+			if nestedBodies[expr] {
+				return &build.StopTraversalError{}
+			}
 			switch expr := expr.(type) {
 			case *build.DefStmt:
 				// Function arguments can't be uninitialized, even if they share the same
@@ -783,8 +787,11 @@ func findUninitializedVariables(stmts []build.Expr, previouslyInitialized map[st
 						lValues[ident] = true
 					}
 				}
-				// Don't traverse into nested def statements
-				return &build.StopTraversalError{}
+				// Don't traverse into the bodies of nested def statements. Their headers may contain
+				// keyword arguments, e.g. in `def f(a = foo(b = c))`.
+				for _, stmt := range expr.Body {
+					nestedBodies[stmt] = true
+				}
 			case *build.AssignExpr:
 				if expr.Op != "=" {
 					// An augmented assignment (e.g. `a += b`) reads its left-hand side
-- 
2.43.0


From fa7084490e9295e9b57a138faf5e80fe320a5d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:39 +0000
Subject: [PATCH 103/114] fix: buildozer: report an error for 'set kind'
 without a kind

---
 edit/buildozer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index b6c14b8..98b53b2 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -572,6 +572,9 @@ func cmdSet(opts *Options, env CmdEnvironment) (*build.File, error) {
 	attr := env.Args[0]
 	args := env.Args[1:]
 	if attr == "kind" {
+		if len(args) == 0 {
+			return nil, fmt.Errorf("set: no kind given")
+		}
 		env.Rule.SetKind(args[0])
 	} else {
 		env.Rule.SetAttr(attr, getAttrValueExpr(attr, args, env))
-- 
2.43.0


From 8f399ba3ef1218f1692f110198d4778f825ec718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:39 +0000
Subject: [PATCH 104/114] fix: buildozer: report a missing extension name in
 use_repo_add and use_repo_remove

---
 edit/buildozer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 98b53b2..7f6aee0 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -880,6 +880,9 @@ func cmdImplUseRepo(env CmdEnvironment, mode string) (*build.File, error) {
 	var proxies []string
 	var repos []string
 	if isExtensionLabel(args[0]) {
+		if len(args) < 2 {
+			return nil, fmt.Errorf("%s: no extension name given for %q", mode, args[0])
+		}
 		extBzlFile := args[0]
 		extName := args[1]
 
-- 
2.43.0


From 9a6a232fd521288a54fabd044025c50f554535cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:39 +0000
Subject: [PATCH 105/114] fix: buildozer: don't duplicate non-string elements
 of a select with a single branch

---
 edit/edit.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/edit/edit.go b/edit/edit.go
index e80cdb0..9074e81 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -660,6 +660,12 @@ func SelectListsIntersection(sel *build.CallExpr, pkg string) (intersection []bu
 	}
 
 	if val, ok := dict.List[0].Value.(*build.ListExpr); ok {
+		for _, elem := range val.List {
+			if _, ok := elem.(*build.StringExpr); !ok {
+				// Only strings can be found in and removed from the lists.
+				return nil
+			}
+		}
 		intersection = make([]build.Expr, len(val.List))
 		copy(intersection, val.List)
 	}
-- 
2.43.0


From 4d4a5b46a16a419f7e138e222d38ec9dc4cbdf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:50 +0000
Subject: [PATCH 106/114] fix: print all end-of-line comments of the last
 element of a sequence with its indentation

---
 build/print.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/build/print.go b/build/print.go
index 89ee9dd..75f162e 100644
--- a/build/print.go
+++ b/build/print.go
@@ -118,22 +118,27 @@ func (p *printer) indent() int {
 // in brackets of some kind, use breakline instead.
 func (p *printer) newline() {
 	p.needsNewLine = false
-	if len(p.comment) > 0 {
-		p.printf("  ")
-		for i, com := range p.comment {
-			if i > 0 {
-				p.trim()
-				p.printf("\n%*s", p.margin, "")
-			}
-			p.printf("%s", strings.TrimSpace(com.Token))
-		}
-		p.comment = p.comment[:0]
-	}
-
+	p.flushComments()
 	p.trim()
 	p.printf("\n%*s", p.margin, "")
 }
 
+// flushComments prints the pending end-of-line comments.
+func (p *printer) flushComments() {
+	if len(p.comment) == 0 {
+		return
+	}
+	p.printf("  ")
+	for i, com := range p.comment {
+		if i > 0 {
+			p.trim()
+			p.printf("\n%*s", p.margin, "")
+		}
+		p.printf("%s", strings.TrimSpace(com.Token))
+	}
+	p.comment = p.comment[:0]
+}
+
 // softNewline postpones a call to newline to the next call of p.newlineIfNeeded()
 // If softNewline is called several times, just one newline is printed.
 // Usecase: if there are several nested blocks ending at the same time, for instance
@@ -1126,8 +1131,11 @@ func (p *printer) seq(brack string, start *Position, list *[]Expr, end *End, mod
 			p.printf("%s", strings.TrimSpace(com.Token))
 		}
 	}
-	p.margin -= indentation
 	// in modeDef print the closing bracket on the same line
+	if mode != modeDef {
+		p.flushComments()
+	}
+	p.margin -= indentation
 	if mode != modeDef {
 		p.newline()
 	}
@@ -1198,6 +1206,7 @@ func (p *printer) listFor(v *Comprehension) {
 			p.newline()
 			p.printf("%s", strings.TrimSpace(com.Token))
 		}
+		p.flushComments()
 		p.margin -= listIndentation
 		p.newline()
 	}
-- 
2.43.0


From 9eccfb99eb948f762b8581e8ffe8596cc7ae7b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:50 +0000
Subject: [PATCH 107/114] fix: separate comments from one-line blocks

---
 build/print.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/build/print.go b/build/print.go
index 75f162e..f2abb4b 100644
--- a/build/print.go
+++ b/build/print.go
@@ -233,6 +233,14 @@ func (p *printer) statements(rawStmts []Expr) {
 			p.softNewline()
 		}
 
+		switch stmt.(type) {
+		case *DefStmt, *ForStmt, *IfStmt:
+			// The comments don't belong to the block, they need to be separated from it.
+			if len(stmt.Comment().After) > 0 {
+				p.newlineIfNeeded()
+				p.newline()
+			}
+		}
 		for _, com := range stmt.Comment().After {
 			p.newlineIfNeeded()
 			p.printf("%s", strings.TrimSpace(com.Token))
-- 
2.43.0


From 82db7f913c598e25ec5a0ecd40094957a82b6aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:50 +0000
Subject: [PATCH 108/114] fix: keep comments inside arguments of load
 statements

---
 build/print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/print.go b/build/print.go
index f2abb4b..6d6b4bb 100644
--- a/build/print.go
+++ b/build/print.go
@@ -833,7 +833,7 @@ func (p *printer) expr(v Expr, outerPrec int) {
 				// Before comments are attached to the `from` token,
 				// they need to be combined.
 				arg = from.asString()
-				arg.Comment().Before = to.Comment().Before
+				arg.Comment().Before = append(append([]Comment{}, to.Comment().Before...), from.Comment().Before...)
 				arg.Comment().Suffix = mergeSuffix(to.Comment().Suffix, from.Comment().Suffix)
 			} else {
 				// The comments make the statement multi-line, they belong to the whole argument.
-- 
2.43.0


From c0645a0b1152f390617bfc73bb58afa9d916e970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:50 +0000
Subject: [PATCH 109/114] fix: keep comments after a conditional statement
 inside an else-block

---
 build/print.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/build/print.go b/build/print.go
index 6d6b4bb..52fdfbf 100644
--- a/build/print.go
+++ b/build/print.go
@@ -937,7 +937,7 @@ func (p *printer) expr(v Expr, outerPrec int) {
 			// If the else-block contains just one statement which is an IfStmt, flatten it as a part
 			// of if-elif chain.
 			// Don't do it if the "else" statement has a suffix comment or if the next "if" statement
-			// has a before-comment.
+			// has a before-comment or an after-comment.
 			if len(block.False) != 1 {
 				break
 			}
@@ -945,7 +945,7 @@ func (p *printer) expr(v Expr, outerPrec int) {
 			if !ok {
 				break
 			}
-			if len(block.ElsePos.Comment().Suffix) == 0 && len(next.Comment().Before) == 0 {
+			if len(block.ElsePos.Comment().Suffix) == 0 && len(next.Comment().Before) == 0 && len(next.Comment().After) == 0 {
 				block = next
 				continue
 			}
-- 
2.43.0


From 86f3d9fac1c4bc42908808b70efea72b08cebdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:50 +0000
Subject: [PATCH 110/114] fix: don't break lines inside implicit tuples outside
 of brackets

---
 build/print.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/build/print.go b/build/print.go
index 52fdfbf..18458c0 100644
--- a/build/print.go
+++ b/build/print.go
@@ -1006,7 +1006,12 @@ func (p *printer) useCompactMode(start *Position, list *[]Expr, end *End, mode s
 	// If there are line comments, use multiline
 	// so we can print the comments before the closing bracket.
 	for _, x := range *list {
-		if len(x.Comment().Before) > 0 || (len(x.Comment().Suffix) > 0 && mode != modeDef) {
+		if len(x.Comment().Before) > 0 {
+			return false
+		}
+		// An implicit tuple may be not enclosed in any brackets and can't be broken then,
+		// the suffix comments go to the end of the line.
+		if len(x.Comment().Suffix) > 0 && mode != modeDef && !(mode == modeSeq && p.depth == 0) {
 			return false
 		}
 	}
-- 
2.43.0


From 10b66325b11337b6897dbb547c6201cdec9be2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:50 +0000
Subject: [PATCH 111/114] fix: keep comments at the end of index and slice
 expressions

---
 build/lex.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/build/lex.go b/build/lex.go
index 241c1d1..52cdccf 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -803,9 +803,17 @@ func (in *input) order(v Expr) {
 		in.order(v.From)
 		in.order(v.To)
 		in.order(v.Step)
+		last := v.X
+		for _, x := range []Expr{v.From, v.To, v.Step} {
+			if x != nil {
+				last = x
+			}
+		}
+		in.pre = append(in.pre, &closingBracket{End{Pos: v.End}, last})
 	case *IndexExpr:
 		in.order(v.X)
 		in.order(v.Y)
+		in.pre = append(in.pre, &closingBracket{End{Pos: v.End}, v.Y})
 	case *LambdaExpr:
 		for _, param := range v.Params {
 			in.order(param)
@@ -851,6 +859,13 @@ func (in *input) order(v Expr) {
 	}
 }
 
+// closingBracket represents the closing bracket of an index or a slice expression in the preorder
+// list. Line comments right before the bracket become suffix comments of the expression before it.
+type closingBracket struct {
+	End
+	last Expr
+}
+
 // defHeader represents the header of a function definition in the postorder list.
 // Suffix comments assigned to it belong to the definition itself.
 type defHeader struct {
@@ -922,6 +937,16 @@ func (in *input) assignLineComments() {
 	for _, x := range in.pre {
 		start, _ := x.Span()
 		xcom := x.Comment()
+		if bracket, ok := x.(*closingBracket); ok {
+			com := bracket.last.Comment()
+			for len(line) > 0 && start.Byte >= line[0].Start.Byte {
+				if line[0].Token != "" {
+					com.Suffix = append(com.Suffix, line[0])
+				}
+				line = line[1:]
+			}
+			continue
+		}
 		for len(line) > 0 && start.Byte >= line[0].Start.Byte {
 			xcom.Before = append(xcom.Before, line[0])
 			line = line[1:]
-- 
2.43.0


From 2170c707d2543dbd6349067f1af4ba27f1d2f8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:04 +0000
Subject: [PATCH 112/114] fix: buildozer: remove the implicit package
 declaration after the commands for it

---
 edit/buildozer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 7f6aee0..e2b3431 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1297,6 +1297,10 @@ func rewrite(opts *Options, commandsForFile commandsForFile) *rewriteResult {
 				}
 			}
 		}
+		if rule == "__pkg__" {
+			// The package declaration may have been added just for these commands.
+			f = RemoveEmptyPackage(f)
+		}
 	}
 	if !changed {
 		return &rewriteResult{file: name, errs: errs, records: records}
-- 
2.43.0


From 3d83e32f8b03b40194b714373b411af174832765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:37 +0000
Subject: [PATCH 113/114] fix: buildozer: do not move keyword arguments of
 licenses() to the package function

---
 edit/fix.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/edit/fix.go b/edit/fix.go
index 7c1f8e6..9e0084a 100644
--- a/edit/fix.go
+++ b/edit/fix.go
@@ -318,6 +318,18 @@ func mergeLiteralLists(_ *build.File, r *build.Rule, _ string) bool {
 	return fixed
 }
 
+// isKeywordOrUnpacked reports whether a call argument is a keyword argument
+// (`name = value`) or an unpacked sequence (`*args`, `**kwargs`).
+func isKeywordOrUnpacked(arg build.Expr) bool {
+	switch arg := arg.(type) {
+	case *build.AssignExpr:
+		return true
+	case *build.UnaryExpr:
+		return arg.Op == "*" || arg.Op == "**"
+	}
+	return false
+}
+
 // usePlusEqual replaces uses of extend and append with the += operator.
 // e.g. foo.extend(bar)  =>  foo += bar
 //
@@ -339,13 +351,8 @@ func usePlusEqual(f *build.File) bool {
 		}
 
 		// Keyword arguments and unpacked sequences are no operands.
-		switch arg := call.List[0].(type) {
-		case *build.AssignExpr:
+		if isKeywordOrUnpacked(call.List[0]) {
 			continue
-		case *build.UnaryExpr:
-			if arg.Op == "*" || arg.Op == "**" {
-				continue
-			}
 		}
 
 		var fix *build.AssignExpr
@@ -475,6 +482,11 @@ func moveToPackage(f *build.File, attrname string) bool {
 			all = append(all, stmt)
 			continue
 		}
+		// Keyword arguments and unpacked sequences are no attribute values.
+		if isKeywordOrUnpacked(rule.Call.List[0]) {
+			all = append(all, stmt)
+			continue
+		}
 		calls = append(calls, stmt)
 	}
 	f.Stmt = all
-- 
2.43.0


From 997729c2da4d092d0f210d449fab3305628e98c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:18 +0000
Subject: [PATCH 114/114] fix: buildozer: keep usePlusEqual's operand parsable
 if it has comments or line breaks

---
 edit/fix.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/edit/fix.go b/edit/fix.go
index 9e0084a..cd480e1 100644
--- a/edit/fix.go
+++ b/edit/fix.go
@@ -330,6 +330,24 @@ func isKeywordOrUnpacked(arg build.Expr) bool {
 	return false
 }
 
+// parenthesizeMultiLine wraps an argument of a call in parentheses if it
+// can't span several lines without the brackets of the call around it.
+func parenthesizeMultiLine(arg build.Expr) build.Expr {
+	switch arg := arg.(type) {
+	case *build.StringExpr, *build.ListExpr, *build.TupleExpr, *build.DictExpr, *build.SetExpr, *build.Comprehension, *build.ParenExpr:
+		return arg
+	case *build.CallExpr:
+		if _, ok := arg.X.(*build.Ident); ok {
+			return arg
+		}
+	}
+	start, end := arg.Span()
+	if start.Line == end.Line {
+		return arg
+	}
+	return &build.ParenExpr{Start: start, X: arg, End: build.End{Pos: end}}
+}
+
 // usePlusEqual replaces uses of extend and append with the += operator.
 // e.g. foo.extend(bar)  =>  foo += bar
 //
@@ -357,7 +375,7 @@ func usePlusEqual(f *build.File) bool {
 
 		var fix *build.AssignExpr
 		if dot.Name == "extend" {
-			fix = &build.AssignExpr{LHS: obj, Op: "+=", RHS: call.List[0]}
+			fix = &build.AssignExpr{LHS: obj, Op: "+=", RHS: parenthesizeMultiLine(call.List[0])}
 		} else if dot.Name == "append" {
 			list := &build.ListExpr{List: []build.Expr{call.List[0]}}
 			fix = &build.AssignExpr{LHS: obj, Op: "+=", RHS: list}
@@ -365,6 +383,12 @@ func usePlusEqual(f *build.File) bool {
 			continue
 		}
 		fix.Comments = call.Comments // Keep original comments
+		if dot.Name == "extend" {
+			// Comments in front of the argument can't stay between the operator and its operand.
+			arg := call.List[0].Comment()
+			fix.Before = append(fix.Before[:len(fix.Before):len(fix.Before)], arg.Before...)
+			arg.Before = nil
+		}
 		f.Stmt[i] = fix
 		fixed = true
 	}
-- 
2.43.0

