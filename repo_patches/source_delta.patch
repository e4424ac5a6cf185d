From 1b84678c0fa839c8d331cc7dbb58384a4c525dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:35 +0000
Subject: [PATCH 01/68] fix: don't turn floats with leading zeros into octal
 literals

editOctals looked at the first two characters only, so 00.5 became 0o0.5 and
01e5 became 0o1e5, neither of which is a number.
---
 build/rewrite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index e500beb..f8af50b 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1395,7 +1395,7 @@ func editOctals(f *File, _ *Rewriter) {
 		if !ok {
 			return
 		}
-		if len(l.Token) > 1 && l.Token[0] == '0' && l.Token[1] >= '0' && l.Token[1] <= '9' {
+		if len(l.Token) > 1 && l.Token[0] == '0' && strings.Trim(l.Token, "01234567") == "" {
 			l.Token = "0o" + l.Token[1:]
 		}
 	})
-- 
2.43.0


From f5566918bd391eb10abb8ea639cd23e6ee94119c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:35 +0000
Subject: [PATCH 02/68] fix: keep the exponent of a float when it is zero

editFloats trimmed all the zeros, so 1.0e0 and 1.0e+00 became 1.0e, which
isn't a number.
---
 build/rewrite.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index f8af50b..ae5740e 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1426,7 +1426,12 @@ func editFloats(f *File, _ *Rewriter) {
 			// Invalid float, skip rewriting.
 			return
 		}
-		l.Token = parts[0] + "e" + strings.TrimLeft(parts[1], "0+")
+		exponent := strings.TrimLeft(parts[1], "0+")
+		if exponent == "" {
+			// The exponent is zero, it shouldn't become empty.
+			exponent = "0"
+		}
+		l.Token = parts[0] + "e" + exponent
 	})
 }
 
-- 
2.43.0


From fedf67dda4cc8ddb5693f46f9d07d34a29ac95d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 03/68] fix: don't print a trailing comma after a tuple without
 brackets

With a comment inside, such a tuple is printed on several lines, and the
trailing comma made the output a syntax error: loop variables, indices.
---
 build/print.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/build/print.go b/build/print.go
index 0492dd4..4701d97 100644
--- a/build/print.go
+++ b/build/print.go
@@ -1111,6 +1111,9 @@ func needsTrailingComma(mode seqMode, v Expr) bool {
 		return false
 	case modeParen:
 		return false
+	case modeSeq:
+		// A trailing comma isn't allowed after a tuple without brackets
+		return false
 	case modeCall:
 		// *args and **kwargs in fn calls
 		switch v := v.(type) {
-- 
2.43.0


From 82a5a818760bd8fe2fe4d284e6e2bc157049e44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:22 +0000
Subject: [PATCH 04/68] fix: keep a comment between a key and its value apart
 from the key's own

When a whole-line comment had to start a new line, pending end-of-line comments
were left behind and ended up glued to it.
---
 build/print.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/build/print.go b/build/print.go
index 4701d97..4d8d183 100644
--- a/build/print.go
+++ b/build/print.go
@@ -575,8 +575,14 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		// Line comments must be at the current margin.
 		p.trim()
 		if p.indent() > 0 {
-			// There's other text on the line. Start a new line.
-			p.printf("\n")
+			// There's other text on the line. Start a new line,
+			// end-of-line comments belong to the current one.
+			if len(p.comment) > 0 {
+				p.newline()
+				p.trim()
+			} else {
+				p.printf("\n")
+			}
 		}
 		// Re-indent to margin.
 		p.printf("%*s", p.margin, "")
-- 
2.43.0


From 76745ceb44044ca34590d76812e5db58af394bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:57 +0000
Subject: [PATCH 05/68] fix: keep the comments of load statements that get
 merged

Merging a load statement into another one from the same file dropped the
comments above, after and inside it, and removing a repeated symbol dropped the
comments of the first mention.
---
 build/rewrite.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/build/rewrite.go b/build/rewrite.go
index ae5740e..b1bc1bd 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1047,11 +1047,27 @@ func compressSameOriginLoads(f *File, _ *Rewriter) {
 		// Move loaded symbols to the existing load statement
 		previousLoad.From = append(previousLoad.From, load.From...)
 		previousLoad.To = append(previousLoad.To, load.To...)
+		moveLoadComments(previousLoad, load)
 		// Remove the current statement
 		f.Stmt[stmtIndex] = nil
 	}
 }
 
+// moveLoadComments moves the comments attached to a load statement or to its module to another
+// load statement, to be used if the former gets merged into the latter.
+func moveLoadComments(to, from *LoadStmt) {
+	before := &to.Comment().Before
+	for _, x := range []Expr{from, from.Module} {
+		*before = append(*before, x.Comment().Before...)
+	}
+	// There's no place for multiple suffix comments, they become whole-line comments.
+	for _, x := range []Expr{from.Module, &from.Rparen, from} {
+		*before = append(*before, x.Comment().Suffix...)
+	}
+	to.Rparen.Before = append(to.Rparen.Before, from.Rparen.Before...)
+	to.After = append(to.After, from.After...)
+}
+
 // comparePaths compares two strings as if they were paths (the path delimiter,
 // '/', should be treated as smallest symbol).
 func comparePaths(path1, path2 string) bool {
@@ -1269,6 +1285,8 @@ func (args *loadArgs) deduplicate() {
 	for i := range args.To {
 		if len(to) > 0 && to[len(to)-1].Name == args.To[i].Name {
 			// Overwrite
+			prependComments(args.From[i], from[len(from)-1])
+			prependComments(args.To[i], to[len(to)-1])
 			from[len(from)-1] = args.From[i]
 			to[len(to)-1] = args.To[i]
 			args.modified = true
@@ -1282,6 +1300,14 @@ func (args *loadArgs) deduplicate() {
 	args.To = to
 }
 
+// prependComments adds the comments of one node before the comments of another node.
+func prependComments(to, from Expr) {
+	toComments, fromComments := to.Comment(), from.Comment()
+	toComments.Before = append(fromComments.Before, toComments.Before...)
+	toComments.Suffix = append(fromComments.Suffix, toComments.Suffix...)
+	toComments.After = append(fromComments.After, toComments.After...)
+}
+
 // SortLoadArgs sorts a load statement arguments (lexicographically, but positional first)
 func SortLoadArgs(load *LoadStmt) bool {
 	args := loadArgs{From: load.From, To: load.To}
-- 
2.43.0


From b42460aec7a1b790d3034d183e67be3b2f3bbce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 06/68] fix: print a multi-line load if a comment is inside a
 renamed symbol

Comments before the local or the original name were not noticed when choosing
between the compact and the multi-line form, and were printed in the middle of
a compact statement.
---
 build/print.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/build/print.go b/build/print.go
index 4d8d183..1aad320 100644
--- a/build/print.go
+++ b/build/print.go
@@ -812,11 +812,15 @@ func (p *printer) expr(v Expr, outerPrec int) {
 				arg = from.asString()
 				arg.Comment().Before = to.Comment().Before
 			} else {
+				// Before comments belong before the whole argument.
+				lhs, rhs := *to, from.asString()
 				arg = &AssignExpr{
-					LHS: to,
+					LHS: &lhs,
 					Op:  "=",
-					RHS: from.asString(),
+					RHS: rhs,
 				}
+				arg.Comment().Before = append(append([]Comment{}, lhs.Before...), rhs.Before...)
+				lhs.Before, rhs.Before = nil, nil
 			}
 			args = append(args, arg)
 		}
-- 
2.43.0


From c78ae7b84b6eb226f574fed2e6f273fd7df761fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 07/68] fix: keep the comments of a duplicate at the end of a
 list

Comments before a removed duplicate move to the next element, they were lost if
there was none.
---
 build/rewrite.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index b1bc1bd..28d5760 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -545,7 +545,8 @@ func deduplicateStringList(x Expr) {
 // Any suffix-comments are lost, any before- and after-comments are preserved.
 func deduplicateStringExprs(list []Expr) []Expr {
 	var comments []Comment
-	alreadySeen := make(map[string]bool)
+	alreadySeen := make(map[string]*StringExpr)
+	var lastDuplicate string
 	var deduplicated []Expr
 	for _, value := range list {
 		str, ok := value.(*StringExpr)
@@ -559,9 +560,10 @@ func deduplicateStringExprs(list []Expr) []Expr {
 			// Collect comments so that they're not lost.
 			comments = append(comments, str.Comment().Before...)
 			comments = append(comments, str.Comment().After...)
+			lastDuplicate = strVal
 			continue
 		}
-		alreadySeen[strVal] = true
+		alreadySeen[strVal] = str
 		if len(comments) > 0 {
 			comments = append(comments, value.Comment().Before...)
 			value.Comment().Before = comments
@@ -569,6 +571,11 @@ func deduplicateStringExprs(list []Expr) []Expr {
 		}
 		deduplicated = append(deduplicated, value)
 	}
+	if len(comments) > 0 {
+		// There's nothing after the last duplicate, keep its comments with the original.
+		original := alreadySeen[lastDuplicate]
+		original.Comment().Before = append(original.Comment().Before, comments...)
+	}
 	return deduplicated
 }
 
-- 
2.43.0


From fd111e6004be993527f4d5e443160f3b934a5d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 08/68] fix: don't shorten strings with several colons as
 labels

//:/a:a isn't a label, it became //:/a.
---
 build/rewrite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index 28d5760..52802a8 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -255,7 +255,7 @@ func fixLabels(f *File, w *Rewriter) {
 	}
 	// labelRE matches label strings, e.g. @r//x/y/z:abc
 	// where $1 is @r//x/y/z, $2 is @r//, $3 is r, $4 is z, $5 is abc.
-	labelRE := regexp.MustCompile(`^(((?:@(\w+))?//|` + labelPrefix + `)(?:.+/)?([^:]*))(?::([^:]+))?$`)
+	labelRE := regexp.MustCompile(`^(((?:@(\w+))?//|` + labelPrefix + `)(?:[^:]+/)?([^:]*))(?::([^:]+))?$`)
 
 	shortenLabel := func(v Expr) {
 		str, ok := v.(*StringExpr)
-- 
2.43.0


From 5388e93c2726dc0d52e379cd7b7acf1428712dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:16 +0000
Subject: [PATCH 09/68] fix: indent all end-of-line comments of the last
 element

If there are several of them, all but the first one are printed on lines of
their own, and those were indented like the closing bracket.
---
 build/print.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/build/print.go b/build/print.go
index 1aad320..fb6ddd6 100644
--- a/build/print.go
+++ b/build/print.go
@@ -118,6 +118,15 @@ func (p *printer) indent() int {
 // in brackets of some kind, use breakline instead.
 func (p *printer) newline() {
 	p.needsNewLine = false
+	p.flushComments()
+
+	p.trim()
+	p.printf("\n%*s", p.margin, "")
+}
+
+// flushComments prints the pending end-of-line comments.
+// It must only be called right before a newline.
+func (p *printer) flushComments() {
 	if len(p.comment) > 0 {
 		p.printf("  ")
 		for i, com := range p.comment {
@@ -129,9 +138,6 @@ func (p *printer) newline() {
 		}
 		p.comment = p.comment[:0]
 	}
-
-	p.trim()
-	p.printf("\n%*s", p.margin, "")
 }
 
 // softNewline postpones a call to newline to the next call of p.newlineIfNeeded()
@@ -1108,10 +1114,14 @@ func (p *printer) seq(brack string, start *Position, list *[]Expr, end *End, mod
 			p.printf("%s", strings.TrimSpace(com.Token))
 		}
 	}
-	p.margin -= indentation
 	// in modeDef print the closing bracket on the same line
 	if mode != modeDef {
+		// Flush the comments before changing the margin, each but the first one gets its own line.
+		p.flushComments()
+		p.margin -= indentation
 		p.newline()
+	} else {
+		p.margin -= indentation
 	}
 }
 
@@ -1185,6 +1195,7 @@ func (p *printer) listFor(v *Comprehension) {
 			p.newline()
 			p.printf("%s", strings.TrimSpace(com.Token))
 		}
+		p.flushComments()
 		p.margin -= listIndentation
 		p.newline()
 	}
-- 
2.43.0


From 6bcf0f0f7c58f250862fcf00e3f6d35f4a93c6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:16 +0000
Subject: [PATCH 10/68] fix: print comments at the end of the file on lines of
 their own

A comment before the closing bracket of an index belongs to the file if there's
nothing after it, it was glued to the last statement.
---
 build/print.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/build/print.go b/build/print.go
index fb6ddd6..81bc4e1 100644
--- a/build/print.go
+++ b/build/print.go
@@ -196,6 +196,7 @@ func (p *printer) file(f *File) {
 	p.statements(f.Stmt)
 
 	for _, com := range f.After {
+		p.newlineIfNeeded()
 		p.printf("%s", strings.TrimSpace(com.Token))
 		p.newline()
 	}
-- 
2.43.0


From 9bc1048e9e2b300ccce2baba6ac0c12709a64537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:29 +0000
Subject: [PATCH 11/68] fix: don't print an extra blank line before comments
 moved out of brackets

---
 build/print.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/build/print.go b/build/print.go
index 81bc4e1..a511273 100644
--- a/build/print.go
+++ b/build/print.go
@@ -577,7 +577,13 @@ func (p *printer) expr(v Expr, outerPrec int) {
 	// recent \n not following a \ line.
 	p.newlineIfNeeded()
 
-	if before := v.Comment().Before; len(before) > 0 {
+	before := v.Comment().Before
+	for p.depth == 0 && len(before) > 0 && before[0].Token == "" {
+		// Comments of statements start with a blank line if they have been moved out of
+		// brackets, statements are already separated.
+		before = before[1:]
+	}
+	if len(before) > 0 {
 		// Want to print a line comment.
 		// Line comments must be at the current margin.
 		p.trim()
-- 
2.43.0


From 06a82744f956b6921a481f2d79ab9320368f25d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:19 +0000
Subject: [PATCH 12/68] fix: keep edits of dictionary entries and comprehension
 clauses

---
 build/walk.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/build/walk.go b/build/walk.go
index dd279a7..844f8ca 100644
--- a/build/walk.go
+++ b/build/walk.go
@@ -171,11 +171,12 @@ func WalkOnce(v Expr, f func(x *Expr)) {
 		for i := range v.List {
 			e := Expr(v.List[i])
 			f(&e)
+			v.List[i] = e.(*KeyValueExpr)
 		}
 	case *Comprehension:
 		f(&v.Body)
-		for _, c := range v.Clauses {
-			f(&c)
+		for i := range v.Clauses {
+			f(&v.Clauses[i])
 		}
 	case *IfClause:
 		f(&v.Cond)
-- 
2.43.0


From 6bdba7d5572b18852c4d6dfc08970c2bf4e8f490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 13/68] fix: correct the positions of files and of a bare
 asterisk

---
 build/syntax.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/build/syntax.go b/build/syntax.go
index 2db5b24..c7f7d2a 100644
--- a/build/syntax.go
+++ b/build/syntax.go
@@ -134,7 +134,7 @@ func (f *File) Span() (start, end Position) {
 		p := Position{Line: 1, LineRune: 1}
 		return p, p
 	}
-	start = Position{}
+	start = Position{Line: 1, LineRune: 1}
 	end = stmtsEnd(f.Stmt)
 	return start, end
 }
@@ -516,7 +516,7 @@ type UnaryExpr struct {
 // Span returns the start and end positions of the node
 func (x *UnaryExpr) Span() (start, end Position) {
 	if x.X == nil {
-		return x.OpStart, x.OpStart
+		return x.OpStart, x.OpStart.add(x.Op)
 	}
 	_, end = x.X.Span()
 	return x.OpStart, end
-- 
2.43.0


From a91926cf43a45b1b8012caace7b40088e3dccf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 14/68] fix: print comments pending before an empty list on
 lines of their own

---
 build/print.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/build/print.go b/build/print.go
index a511273..e2dc213 100644
--- a/build/print.go
+++ b/build/print.go
@@ -1095,18 +1095,18 @@ func (p *printer) seq(brack string, start *Position, list *[]Expr, end *End, mod
 	}
 	p.margin += indentation
 
-	for i, x := range *args {
-		// If we are about to break the line before the first
-		// element and there are trailing end-of-line comments
-		// waiting to be printed, delay them and print them as
-		// whole-line comments preceding that element.
-		// Do this by printing a newline ourselves and positioning
-		// so that the end-of-line comment, with the two spaces added,
-		// will line up with the current margin.
-		if i == 0 && len(p.comment) > 0 {
-			p.printf("\n%*s", p.margin-2, "")
-		}
+	// If we are about to break the line before the first
+	// element (or the closing bracket if there are none) and there
+	// are trailing end-of-line comments waiting to be printed, delay
+	// them and print them as whole-line comments preceding that element.
+	// Do this by printing a newline ourselves and positioning
+	// so that the end-of-line comment, with the two spaces added,
+	// will line up with the current margin.
+	if len(p.comment) > 0 {
+		p.printf("\n%*s", p.margin-2, "")
+	}
 
+	for i, x := range *args {
 		p.newline()
 		p.expr(x, precLow)
 
-- 
2.43.0


From e92dad7c7c6ae41b2c58f94d2bfda1c57415233c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 15/68] fix: don't shorten a string that is only a part of a
 label

---
 build/rewrite.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index 52802a8..520d61c 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -293,6 +293,9 @@ func fixLabels(f *File, w *Rewriter) {
 		}
 	}
 
+	// Operands of concatenations, a string among them is a part of a label only.
+	operands := make(map[Expr]bool)
+
 	// Join and shorten labels within a container of labels (which can be a single
 	// label, e.g. a single string expression or a concatenation of them).
 	// Gracefully finish if the argument is of a different type.
@@ -315,8 +318,15 @@ func fixLabels(f *File, w *Rewriter) {
 				shortenLabel(set.List[i])
 			}
 		} else {
+			isOperand := operands[*e]
 			joinLabel(e)
-			shortenLabel(*e)
+			if add, ok := (*e).(*BinaryExpr); ok && add.Op == "+" {
+				operands[add.X] = true
+				operands[add.Y] = true
+			}
+			if !isOperand {
+				shortenLabel(*e)
+			}
 		}
 	}
 
-- 
2.43.0


From 5cc8ecc8b6fde5d0f4e4c9125b71b401a8d1fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 16/68] fix: join all parts of a label at once

---
 build/rewrite.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index 520d61c..873cb26 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -220,11 +220,13 @@ func keepSorted(x Expr) bool {
 // "//third_party/m4:m4" into "//third_party/m4" as well as ones like
 // "@foo//:foo" into "@foo".
 func fixLabels(f *File, w *Rewriter) {
-	joinLabel := func(p *Expr) {
+	var joinLabel func(p *Expr)
+	joinLabel = func(p *Expr) {
 		add, ok := (*p).(*BinaryExpr)
 		if !ok || add.Op != "+" {
 			return
 		}
+		joinLabel(&add.X)
 		str1, ok := add.X.(*StringExpr)
 		if !ok || !strings.HasPrefix(str1.Value, "//") || strings.Contains(str1.Value, " ") {
 			return
-- 
2.43.0


From bbffc2a636a00c7890cee2fe0e2213d42c9cc31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:55 +0000
Subject: [PATCH 17/68] fix: reject signs in the digits of escape sequences

---
 build/quote.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/build/quote.go b/build/quote.go
index 03bcdb6..2caed11 100644
--- a/build/quote.go
+++ b/build/quote.go
@@ -183,7 +183,7 @@ func Unquote(quoted string) (s string, triple bool, err error) {
 				err = fmt.Errorf(`truncated escape sequence %s`, quoted)
 				return
 			}
-			n, err1 := strconv.ParseInt(quoted[2:6], 16, 0)
+			n, err1 := strconv.ParseUint(quoted[2:6], 16, 0)
 			if err1 != nil {
 				err = fmt.Errorf(`invalid escape sequence %s`, quoted[:6])
 				return
@@ -201,7 +201,7 @@ func Unquote(quoted string) (s string, triple bool, err error) {
 				err = fmt.Errorf(`truncated escape sequence %s`, quoted)
 				return
 			}
-			n, err1 := strconv.ParseInt(quoted[2:10], 16, 0)
+			n, err1 := strconv.ParseUint(quoted[2:10], 16, 0)
 			if err1 != nil {
 				err = fmt.Errorf(`invalid escape sequence %s`, quoted[:10])
 				return
@@ -223,7 +223,7 @@ func Unquote(quoted string) (s string, triple bool, err error) {
 				err = fmt.Errorf(`truncated escape sequence %s`, quoted)
 				return
 			}
-			n, err1 := strconv.ParseInt(quoted[2:4], 16, 0)
+			n, err1 := strconv.ParseUint(quoted[2:4], 16, 0)
 			if err1 != nil {
 				err = fmt.Errorf(`invalid escape sequence %s`, quoted[:4])
 				return
-- 
2.43.0


From 08093bddfb9da3f72effcf76bd41547dbc4d00cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:55 +0000
Subject: [PATCH 18/68] fix: don't crash on a backslash before a non-Latin-1
 character

---
 build/quote.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/quote.go b/build/quote.go
index 2caed11..0610699 100644
--- a/build/quote.go
+++ b/build/quote.go
@@ -251,7 +251,7 @@ func IsCorrectEscaping(value string) bool {
 			continue
 		}
 
-		if ok := escapable[ch]; !ok {
+		if int(ch) >= len(escapable) || !escapable[ch] {
 			return false
 		}
 		escaped = false
-- 
2.43.0


From 7b8a3de4e68da93072bf027385d879b2982e412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 19/68] fix: parse chained conditional expressions right to
 left

---
 build/parse.y    | 4 ++--
 build/parse.y.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/build/parse.y b/build/parse.y
index 0eaf470..4d90929 100644
--- a/build/parse.y
+++ b/build/parse.y
@@ -188,7 +188,7 @@ package build
 // e.g. "a, b if c > 0 else 'foo'" is either a tuple of (a,b) or 'foo'
 // and not a tuple of "(a, (b if ... ))"
 %left  '=' _AUGM
-%left  _IF _ELSE _ELIF
+%right _IF _ELSE _ELIF
 %left  ','
 %left  ':'
 %left  _IS
@@ -1037,7 +1037,7 @@ for_clause_with_if_clauses_opt:
 	{
 		$$ = []Expr{$1}
 	}
-|	for_clause_with_if_clauses_opt _IF test
+|	for_clause_with_if_clauses_opt _IF test %prec ','
 	{
 		$$ = append($1, &IfClause{
 			If: $2,
diff --git a/build/parse.y.go b/build/parse.y.go
index 11dec91..c09219e 100644
--- a/build/parse.y.go
+++ b/build/parse.y.go
@@ -543,7 +543,7 @@ var yyPact = [...]int16{
 	21, -1000, -1000, -1000, 855, -1000, 590, 150, 971, 971,
 	-1000, -1000, 971, -1000, -1000, 590, 200, -1000, 4, 971,
 	43, 590, -1000, -1000, 590, -1000, 461, -1000, -37, -1000,
-	-1000, 365, -1000, 684, -1000, -1000, 75, 971, 179, 178,
+	-1000, 365, -1000, 590, -1000, -1000, 75, 971, 179, 178,
 	-1000, 971, 590, 590, 133, 590, 58, 684, 971, 260,
 	-1000, -1000, -1000, 418, 971, 971, 590, -1000, 971, 197,
 	-1000, -1000, 143, 684, -1000, 971, 590, 590, 92, 210,
-- 
2.43.0


From 34c6f1ea9173b3fc69fb33aa81645601247cccce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 20/68] fix: print parentheses around conditional expressions
 where they are needed

---
 build/print.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/build/print.go b/build/print.go
index e2dc213..324cd62 100644
--- a/build/print.go
+++ b/build/print.go
@@ -863,10 +863,10 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		p.listFor(v)
 
 	case *ConditionalExpr:
-		addParen(precSuffix)
-		p.expr(v.Then, precIfElse)
+		addParen(precIfElse)
+		p.expr(v.Then, precIfElse+1)
 		p.printf(" if ")
-		p.expr(v.Test, precIfElse)
+		p.expr(v.Test, precIfElse+1)
 		p.printf(" else ")
 		p.expr(v.Else, precIfElse)
 
-- 
2.43.0


From e949eb44d521cadaec1b9bcb2f66e1d457fdcc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 21/68] fix: parse not with its precedence below comparisons

---
 build/parse.y    |   3 +-
 build/parse.y.go | 268 ++++++++++++++++++++++++-----------------------
 build/print.go   |  15 ++-
 3 files changed, 148 insertions(+), 138 deletions(-)

diff --git a/build/parse.y b/build/parse.y
index 4d90929..12c7497 100644
--- a/build/parse.y
+++ b/build/parse.y
@@ -194,6 +194,7 @@ package build
 %left  _IS
 %left  _OR
 %left  _AND
+%right NotOperator // precedence of the unary "not"
 %left  '<' '>' _EQ _NE _LE _GE _NOT _IN
 %left  '|'
 %left  '^'
@@ -836,7 +837,7 @@ test:
 			},
 		}
 	}
-|	_NOT test %prec _UNARY { $$ = unary($1, $<tok>1, $2) }
+|	_NOT test %prec NotOperator { $$ = unary($1, $<tok>1, $2) }
 |	'-' test  %prec _UNARY { $$ = unary($1, $<tok>1, $2) }
 |	'+' test  %prec _UNARY { $$ = unary($1, $<tok>1, $2) }
 |	'~' test  %prec _UNARY { $$ = unary($1, $<tok>1, $2) }
diff --git a/build/parse.y.go b/build/parse.y.go
index c09219e..c733691 100644
--- a/build/parse.y.go
+++ b/build/parse.y.go
@@ -71,7 +71,8 @@ const _INDENT = 57377
 const _UNINDENT = 57378
 const ShiftInstead = 57379
 const _ASSERT = 57380
-const _UNARY = 57381
+const NotOperator = 57381
+const _UNARY = 57382
 
 var yyToknames = [...]string{
 	"$end",
@@ -134,6 +135,7 @@ var yyToknames = [...]string{
 	"ShiftInstead",
 	"'\\n'",
 	"_ASSERT",
+	"NotOperator",
 	"_UNARY",
 	"';'",
 }
@@ -144,7 +146,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line build/parse.y:1058
+//line build/parse.y:1059
 
 // Go helper code.
 
@@ -525,11 +527,11 @@ var yyPact = [...]int16{
 	192, 72, -1000, 173, 971, -1000, -1000, -1000, -10, 49,
 	590, 68, 971, 151, 88, 971, 971, 971, 971, -1000,
 	-1000, -1000, 217, 971, 971, 971, -1000, 175, 13, -1000,
-	-1000, -41, 365, 78, 151, 971, 971, 971, 204, 971,
+	-1000, -42, 365, 78, 151, 971, 971, 971, 204, 971,
 	971, 106, -1000, 971, 971, 971, 971, 971, 971, 971,
 	971, 971, 971, 971, 971, 971, 3, 971, 971, 971,
 	971, 971, 971, 971, 971, 971, 216, 180, 54, 200,
-	971, 191, 206, -1000, 152, 21, 21, -1000, -1000, -1000,
+	971, 191, 206, -1000, 152, 21, 21, 813, -1000, -1000,
 	-1000, 200, 136, 547, 200, 73, 110, 205, 461, 200,
 	214, 590, 8, -1000, -35, 632, -1000, -1000, -1000, 971,
 	72, 204, 204, 684, 590, 174, 365, -1000, -1000, -1000,
@@ -605,7 +607,7 @@ var yyChk = [...]int16{
 	22, 23, 45, 46, 38, 34, 32, -17, 11, 5,
 	17, -9, -8, -7, -24, 7, 43, -13, -13, -13,
 	-13, 5, -15, -13, -19, -35, -36, -19, -13, -37,
-	-15, -13, 11, 33, -47, 62, -39, 59, -32, 37,
+	-15, -13, 11, 33, -47, 63, -39, 59, -32, 37,
 	9, -17, -17, -13, -13, -17, 13, 34, -13, -13,
 	-13, -13, -13, -13, -13, -13, -13, -13, -13, -13,
 	-13, 37, -13, -13, -13, -13, -13, -13, -13, -13,
@@ -660,7 +662,7 @@ var yyTok1 = [...]int8{
 	3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
 	3, 3, 3, 3, 3, 3, 3, 4, 22, 3,
 	5, 6, 7, 8, 9, 10, 11, 12, 3, 3,
-	3, 3, 3, 3, 3, 3, 3, 3, 13, 62,
+	3, 3, 3, 3, 3, 3, 3, 3, 13, 63,
 	14, 15, 16, 3, 3, 3, 3, 3, 3, 3,
 	3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
 	3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
@@ -674,7 +676,7 @@ var yyTok2 = [...]int8{
 	2, 3, 25, 26, 27, 28, 29, 30, 31, 32,
 	33, 34, 35, 36, 37, 38, 39, 40, 41, 42,
 	43, 44, 45, 46, 47, 48, 49, 50, 51, 52,
-	53, 54, 55, 56, 57, 58, 60, 61,
+	53, 54, 55, 56, 57, 58, 60, 61, 62,
 }
 
 var yyTok3 = [...]int8{
@@ -1020,14 +1022,14 @@ yydefault:
 
 	case 1:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:218
+//line build/parse.y:219
 		{
 			yylex.(*input).file = &File{Stmt: yyDollar[1].exprs}
 			return 0
 		}
 	case 2:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:225
+//line build/parse.y:226
 		{
 			statements := yyDollar[4].exprs
 			if yyDollar[2].exprs != nil {
@@ -1049,20 +1051,20 @@ yydefault:
 		}
 	case 3:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:245
+//line build/parse.y:246
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 6:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:253
+//line build/parse.y:254
 		{
 			yyVAL.exprs = nil
 			yyVAL.lastStmt = nil
 		}
 	case 7:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:258
+//line build/parse.y:259
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 			yyVAL.lastStmt = yyDollar[1].lastStmt
@@ -1076,21 +1078,21 @@ yydefault:
 		}
 	case 8:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:270
+//line build/parse.y:271
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 			yyVAL.lastStmt = nil
 		}
 	case 9:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:276
+//line build/parse.y:277
 		{
 			yyVAL.exprs = nil
 			yyVAL.lastStmt = nil
 		}
 	case 10:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:281
+//line build/parse.y:282
 		{
 			// If this statement follows a comment block,
 			// attach the comments to the statement.
@@ -1123,7 +1125,7 @@ yydefault:
 		}
 	case 11:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:312
+//line build/parse.y:313
 		{
 			// Blank line; sever last rule from future comments.
 			yyVAL.exprs = yyDollar[1].exprs
@@ -1131,7 +1133,7 @@ yydefault:
 		}
 	case 12:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:318
+//line build/parse.y:319
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 			yyVAL.lastStmt = yyDollar[1].lastStmt
@@ -1145,14 +1147,14 @@ yydefault:
 		}
 	case 13:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:332
+//line build/parse.y:333
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 			yyVAL.lastStmt = yyDollar[1].exprs[len(yyDollar[1].exprs)-1]
 		}
 	case 14:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:337
+//line build/parse.y:338
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 			yyVAL.lastStmt = yyDollar[1].expr
@@ -1166,7 +1168,7 @@ yydefault:
 		}
 	case 15:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:351
+//line build/parse.y:352
 		{
 			yyVAL.def_header = &DefStmt{
 				Function: Function{
@@ -1180,14 +1182,14 @@ yydefault:
 		}
 	case 17:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:366
+//line build/parse.y:367
 		{
 			yyDollar[1].def_header.Type = yyDollar[3].expr
 			yyVAL.def_header = yyDollar[1].def_header
 		}
 	case 18:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:373
+//line build/parse.y:374
 		{
 			yyDollar[1].def_header.Function.Body = yyDollar[3].exprs
 			yyDollar[1].def_header.ColonPos = yyDollar[2].pos
@@ -1196,7 +1198,7 @@ yydefault:
 		}
 	case 19:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line build/parse.y:380
+//line build/parse.y:381
 		{
 			yyVAL.expr = &ForStmt{
 				For:  yyDollar[1].pos,
@@ -1208,14 +1210,14 @@ yydefault:
 		}
 	case 20:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:390
+//line build/parse.y:391
 		{
 			yyVAL.expr = yyDollar[1].ifstmt
 			yyVAL.lastStmt = yyDollar[1].lastStmt
 		}
 	case 21:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:398
+//line build/parse.y:399
 		{
 			yyVAL.ifstmt = &IfStmt{
 				If:   yyDollar[1].pos,
@@ -1226,7 +1228,7 @@ yydefault:
 		}
 	case 22:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:407
+//line build/parse.y:408
 		{
 			yyVAL.ifstmt = yyDollar[1].ifstmt
 			inner := yyDollar[1].ifstmt
@@ -1245,7 +1247,7 @@ yydefault:
 		}
 	case 24:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:428
+//line build/parse.y:429
 		{
 			yyVAL.ifstmt = yyDollar[1].ifstmt
 			inner := yyDollar[1].ifstmt
@@ -1258,26 +1260,26 @@ yydefault:
 		}
 	case 27:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:445
+//line build/parse.y:446
 		{
 			yyVAL.exprs = append([]Expr{yyDollar[1].expr}, yyDollar[2].exprs...)
 			yyVAL.lastStmt = yyVAL.exprs[len(yyVAL.exprs)-1]
 		}
 	case 28:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:451
+//line build/parse.y:452
 		{
 			yyVAL.exprs = []Expr{}
 		}
 	case 29:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:455
+//line build/parse.y:456
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 31:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:462
+//line build/parse.y:463
 		{
 			yyVAL.expr = &ReturnStmt{
 				Return: yyDollar[1].pos,
@@ -1286,7 +1288,7 @@ yydefault:
 		}
 	case 32:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:469
+//line build/parse.y:470
 		{
 			yyVAL.expr = &ReturnStmt{
 				Return: yyDollar[1].pos,
@@ -1294,19 +1296,19 @@ yydefault:
 		}
 	case 33:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:474
+//line build/parse.y:475
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 34:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:475
+//line build/parse.y:476
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 35:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:477
+//line build/parse.y:478
 		{
 			yyVAL.expr = &BranchStmt{
 				Token:    yyDollar[1].tok,
@@ -1315,7 +1317,7 @@ yydefault:
 		}
 	case 36:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:484
+//line build/parse.y:485
 		{
 			yyVAL.expr = &BranchStmt{
 				Token:    yyDollar[1].tok,
@@ -1324,7 +1326,7 @@ yydefault:
 		}
 	case 37:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:491
+//line build/parse.y:492
 		{
 			yyVAL.expr = &BranchStmt{
 				Token:    yyDollar[1].tok,
@@ -1333,13 +1335,13 @@ yydefault:
 		}
 	case 42:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:505
+//line build/parse.y:506
 		{
 			yyVAL.expr = yyDollar[1].string
 		}
 	case 43:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:509
+//line build/parse.y:510
 		{
 			yyVAL.expr = &DotExpr{
 				X:       yyDollar[1].expr,
@@ -1350,7 +1352,7 @@ yydefault:
 		}
 	case 44:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line build/parse.y:518
+//line build/parse.y:519
 		{
 			load := &LoadStmt{
 				Load:         yyDollar[1].pos,
@@ -1366,7 +1368,7 @@ yydefault:
 		}
 	case 45:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:532
+//line build/parse.y:533
 		{
 			yyVAL.expr = &CallExpr{
 				X:              yyDollar[1].expr,
@@ -1379,7 +1381,7 @@ yydefault:
 		}
 	case 46:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:543
+//line build/parse.y:544
 		{
 			yyVAL.expr = &IndexExpr{
 				X:          yyDollar[1].expr,
@@ -1390,7 +1392,7 @@ yydefault:
 		}
 	case 47:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line build/parse.y:552
+//line build/parse.y:553
 		{
 			yyVAL.expr = &SliceExpr{
 				X:          yyDollar[1].expr,
@@ -1403,7 +1405,7 @@ yydefault:
 		}
 	case 48:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line build/parse.y:563
+//line build/parse.y:564
 		{
 			yyVAL.expr = &SliceExpr{
 				X:           yyDollar[1].expr,
@@ -1418,7 +1420,7 @@ yydefault:
 		}
 	case 49:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:576
+//line build/parse.y:577
 		{
 			yyVAL.expr = &ListExpr{
 				Start:          yyDollar[1].pos,
@@ -1429,7 +1431,7 @@ yydefault:
 		}
 	case 50:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:585
+//line build/parse.y:586
 		{
 			yyVAL.expr = &Comprehension{
 				Curly:          false,
@@ -1442,7 +1444,7 @@ yydefault:
 		}
 	case 51:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:596
+//line build/parse.y:597
 		{
 			yyVAL.expr = &Comprehension{
 				Curly:          true,
@@ -1455,7 +1457,7 @@ yydefault:
 		}
 	case 52:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:607
+//line build/parse.y:608
 		{
 			exprValues := make([]Expr, 0, len(yyDollar[2].kvs))
 			for _, kv := range yyDollar[2].kvs {
@@ -1470,7 +1472,7 @@ yydefault:
 		}
 	case 53:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:620
+//line build/parse.y:621
 		{
 			yyVAL.expr = &SetExpr{
 				Start:          yyDollar[1].pos,
@@ -1481,7 +1483,7 @@ yydefault:
 		}
 	case 54:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:629
+//line build/parse.y:630
 		{
 			if len(yyDollar[2].exprs) == 1 && yyDollar[2].comma.Line == 0 {
 				// Just a parenthesized expression, not a tuple.
@@ -1503,49 +1505,49 @@ yydefault:
 		}
 	case 55:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:650
+//line build/parse.y:651
 		{
 			yyVAL.exprs = nil
 		}
 	case 56:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:654
+//line build/parse.y:655
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 57:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:660
+//line build/parse.y:661
 		{
 			yyVAL.exprs = []Expr{yyDollar[2].expr}
 		}
 	case 58:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:664
+//line build/parse.y:665
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 60:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:671
+//line build/parse.y:672
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 61:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:675
+//line build/parse.y:676
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 62:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:679
+//line build/parse.y:680
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 63:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:684
+//line build/parse.y:685
 		{
 			yyVAL.loadargs = []*struct {
 				from Ident
@@ -1554,14 +1556,14 @@ yydefault:
 		}
 	case 64:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:688
+//line build/parse.y:689
 		{
 			yyDollar[1].loadargs = append(yyDollar[1].loadargs, yyDollar[3].loadarg)
 			yyVAL.loadargs = yyDollar[1].loadargs
 		}
 	case 65:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:694
+//line build/parse.y:695
 		{
 			start := yyDollar[1].string.Start.add("'")
 			if yyDollar[1].string.TripleQuote {
@@ -1583,7 +1585,7 @@ yydefault:
 		}
 	case 66:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:711
+//line build/parse.y:712
 		{
 			start := yyDollar[3].string.Start.add("'")
 			if yyDollar[3].string.TripleQuote {
@@ -1602,103 +1604,103 @@ yydefault:
 		}
 	case 67:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:726
+//line build/parse.y:727
 		{
 			yyVAL.exprs = nil
 		}
 	case 68:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:730
+//line build/parse.y:731
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 69:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:735
+//line build/parse.y:736
 		{
 			yyVAL.exprs = nil
 		}
 	case 70:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:739
+//line build/parse.y:740
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 71:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:745
+//line build/parse.y:746
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 		}
 	case 72:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:749
+//line build/parse.y:750
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 73:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:756
+//line build/parse.y:757
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 		}
 	case 74:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:760
+//line build/parse.y:761
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 76:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:767
+//line build/parse.y:768
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 77:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:771
+//line build/parse.y:772
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 78:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:775
+//line build/parse.y:776
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, nil)
 		}
 	case 79:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:779
+//line build/parse.y:780
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 81:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:788
+//line build/parse.y:789
 		{
 			yyVAL.expr = typed(yyDollar[1].expr, yyDollar[3].expr)
 		}
 	case 82:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:792
+//line build/parse.y:793
 		{
 			yyVAL.expr = binary(typed(yyDollar[1].expr, yyDollar[3].expr), yyDollar[4].pos, yyDollar[4].tok, yyDollar[5].expr)
 		}
 	case 83:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:796
+//line build/parse.y:797
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, typed(yyDollar[2].expr, yyDollar[4].expr))
 		}
 	case 84:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:800
+//line build/parse.y:801
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, typed(yyDollar[2].expr, yyDollar[4].expr))
 		}
 	case 86:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:807
+//line build/parse.y:808
 		{
 			tuple, ok := yyDollar[1].expr.(*TupleExpr)
 			if !ok || !tuple.NoBrackets {
@@ -1714,13 +1716,13 @@ yydefault:
 		}
 	case 87:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:822
+//line build/parse.y:823
 		{
 			yyVAL.expr = nil
 		}
 	case 90:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:830
+//line build/parse.y:831
 		{
 			yyVAL.expr = &LambdaExpr{
 				Function: Function{
@@ -1732,157 +1734,157 @@ yydefault:
 		}
 	case 91:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:839
+//line build/parse.y:840
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 92:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:840
+//line build/parse.y:841
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 93:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:841
+//line build/parse.y:842
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 94:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:842
+//line build/parse.y:843
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 95:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:843
+//line build/parse.y:844
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 96:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:844
+//line build/parse.y:845
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 97:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:845
+//line build/parse.y:846
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 98:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:846
+//line build/parse.y:847
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 99:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:847
+//line build/parse.y:848
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 100:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:848
+//line build/parse.y:849
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 101:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:849
+//line build/parse.y:850
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 102:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:850
+//line build/parse.y:851
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 103:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:851
+//line build/parse.y:852
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 104:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:852
+//line build/parse.y:853
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 105:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:853
+//line build/parse.y:854
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 106:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:854
+//line build/parse.y:855
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 107:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:855
+//line build/parse.y:856
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 108:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:856
+//line build/parse.y:857
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, "not in", yyDollar[4].expr)
 		}
 	case 109:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:857
+//line build/parse.y:858
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 110:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:858
+//line build/parse.y:859
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 111:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:859
+//line build/parse.y:860
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 112:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:860
+//line build/parse.y:861
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 113:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:861
+//line build/parse.y:862
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 114:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:862
+//line build/parse.y:863
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 115:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:863
+//line build/parse.y:864
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 116:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:865
+//line build/parse.y:866
 		{
 			if b, ok := yyDollar[3].expr.(*UnaryExpr); ok && b.Op == "not" {
 				yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, "is not", b.X)
@@ -1892,7 +1894,7 @@ yydefault:
 		}
 	case 117:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:873
+//line build/parse.y:874
 		{
 			yyVAL.expr = &ConditionalExpr{
 				Then:      yyDollar[1].expr,
@@ -1904,55 +1906,55 @@ yydefault:
 		}
 	case 118:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:885
+//line build/parse.y:886
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 		}
 	case 119:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:889
+//line build/parse.y:890
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 120:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:894
+//line build/parse.y:895
 		{
 			yyVAL.expr = nil
 		}
 	case 122:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:900
+//line build/parse.y:901
 		{
 			yyVAL.exprs, yyVAL.comma = nil, Position{}
 		}
 	case 123:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:904
+//line build/parse.y:905
 		{
 			yyVAL.exprs, yyVAL.comma = yyDollar[1].exprs, yyDollar[2].pos
 		}
 	case 124:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:914
+//line build/parse.y:915
 		{
 			yyVAL.pos = Position{}
 		}
 	case 127:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:925
+//line build/parse.y:926
 		{
 			yyVAL.pos = yyDollar[1].pos
 		}
 	case 128:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:933
+//line build/parse.y:934
 		{
 			yyVAL.pos = Position{}
 		}
 	case 130:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:940
+//line build/parse.y:941
 		{
 			yyVAL.kv = &KeyValueExpr{
 				Key:   yyDollar[1].expr,
@@ -1962,37 +1964,37 @@ yydefault:
 		}
 	case 131:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:950
+//line build/parse.y:951
 		{
 			yyVAL.kvs = []*KeyValueExpr{yyDollar[1].kv}
 		}
 	case 132:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:954
+//line build/parse.y:955
 		{
 			yyVAL.kvs = append(yyDollar[1].kvs, yyDollar[3].kv)
 		}
 	case 133:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:959
+//line build/parse.y:960
 		{
 			yyVAL.kvs = nil
 		}
 	case 134:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:963
+//line build/parse.y:964
 		{
 			yyVAL.kvs = yyDollar[1].kvs
 		}
 	case 135:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:967
+//line build/parse.y:968
 		{
 			yyVAL.kvs = yyDollar[1].kvs
 		}
 	case 137:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:974
+//line build/parse.y:975
 		{
 			tuple, ok := yyDollar[1].expr.(*TupleExpr)
 			if !ok || !tuple.NoBrackets {
@@ -2008,7 +2010,7 @@ yydefault:
 		}
 	case 138:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:990
+//line build/parse.y:991
 		{
 			yyVAL.string = &StringExpr{
 				Start:       yyDollar[1].pos,
@@ -2020,37 +2022,37 @@ yydefault:
 		}
 	case 139:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:1002
+//line build/parse.y:1003
 		{
 			yyVAL.expr = &Ident{NamePos: yyDollar[1].pos, Name: yyDollar[1].tok}
 		}
 	case 140:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:1008
+//line build/parse.y:1009
 		{
 			yyVAL.expr = &LiteralExpr{Start: yyDollar[1].pos, Token: yyDollar[1].tok + "." + yyDollar[3].tok}
 		}
 	case 141:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:1012
+//line build/parse.y:1013
 		{
 			yyVAL.expr = &LiteralExpr{Start: yyDollar[1].pos, Token: yyDollar[1].tok + "."}
 		}
 	case 142:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:1016
+//line build/parse.y:1017
 		{
 			yyVAL.expr = &LiteralExpr{Start: yyDollar[1].pos, Token: "." + yyDollar[2].tok}
 		}
 	case 143:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:1020
+//line build/parse.y:1021
 		{
 			yyVAL.expr = &LiteralExpr{Start: yyDollar[1].pos, Token: yyDollar[1].tok}
 		}
 	case 144:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:1026
+//line build/parse.y:1027
 		{
 			yyVAL.expr = &ForClause{
 				For:  yyDollar[1].pos,
@@ -2061,13 +2063,13 @@ yydefault:
 		}
 	case 145:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:1037
+//line build/parse.y:1038
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 		}
 	case 146:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:1041
+//line build/parse.y:1042
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, &IfClause{
 				If:   yyDollar[2].pos,
@@ -2076,13 +2078,13 @@ yydefault:
 		}
 	case 147:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:1050
+//line build/parse.y:1051
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 148:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:1054
+//line build/parse.y:1055
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[2].exprs...)
 		}
diff --git a/build/print.go b/build/print.go
index 324cd62..4e67232 100644
--- a/build/print.go
+++ b/build/print.go
@@ -522,6 +522,7 @@ const (
 	precIfElse
 	precOr
 	precAnd
+	precNot
 	precCmp
 	precBitwiseOr
 	precBitwiseXor
@@ -722,16 +723,22 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		p.printf("]")
 
 	case *UnaryExpr:
-		addParen(precUnary)
+		// Use a high precedence level (precSuffix), so that nested unary expressions are parenthesized,
+		// for example: `not (-(+(~foo)))` instead of `not -+~foo`
+		prec := precSuffix
 		if v.Op == "not" {
+			addParen(precNot)
 			p.printf("not ") // Requires a space after it.
+			if _, ok := v.X.(*BinaryExpr); ok {
+				// "not" binds weaker than comparisons and arithmetic operators.
+				prec = precCmp
+			}
 		} else {
+			addParen(precUnary)
 			p.printf("%s", v.Op)
 		}
-		// Use the next precedence level (precSuffix), so that nested unary expressions are parenthesized,
-		// for example: `not (-(+(~foo)))` instead of `not -+~foo`
 		if v.X != nil {
-			p.expr(v.X, precSuffix)
+			p.expr(v.X, prec)
 		}
 
 	case *LambdaExpr:
-- 
2.43.0


From 8b99f5dcb9eb7eed85f0c32b2c690d64a9c52087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 22/68] fix: print parentheses around conditional expressions
 in comprehension clauses

---
 build/print.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/build/print.go b/build/print.go
index 4e67232..6ea029c 100644
--- a/build/print.go
+++ b/build/print.go
@@ -955,10 +955,10 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		p.printf("for ")
 		p.expr(v.Vars, precLow)
 		p.printf(" in ")
-		p.expr(v.X, precLow)
+		p.expr(v.X, precIfElse+1)
 	case *IfClause:
 		p.printf("if ")
-		p.expr(v.Cond, precLow)
+		p.expr(v.Cond, precIfElse+1)
 	}
 
 	// Add closing parenthesis if needed.
-- 
2.43.0


From 20cd5d507556ec3eabb231cf8b63947a6e9ac729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:08 +0000
Subject: [PATCH 23/68] fix: group the arguments of a call before sorting them

---
 build/rewrite.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index 873cb26..9de3750 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -118,13 +118,15 @@ const (
 
 // rewrites is the list of all Buildifier rewrites, in the order in which they are applied.
 // The order here matters: for example, label canonicalization must happen
-// before sorting lists of strings.
+// before sorting lists of strings, and arguments must be grouped by their type
+// before sorting the keyword arguments.
 var rewrites = []struct {
 	name  string
 	fn    func(*File, *Rewriter)
 	scope FileType
 }{
 	{"removeParens", removeParens, scopeBuild},
+	{"reorderarguments", reorderArguments, scopeBoth},
 	{"callsort", sortCallArgs, scopeBuild},
 	{"label", fixLabels, scopeBuild},
 	{"listsort", sortStringLists, scopeBoth},
@@ -135,7 +137,6 @@ var rewrites = []struct {
 	{"loadsort", sortAllLoadArgs, scopeBoth},
 	{"useRepoPositionalsSort", sortUseRepoPositionals, TypeModule},
 	{"formatdocstrings", formatDocstrings, scopeBoth},
-	{"reorderarguments", reorderArguments, scopeBoth},
 	{"editoctal", editOctals, scopeBoth},
 	{"editfloat", editFloats, scopeBoth},
 	{"collapseEmpty", collapseEmpty, scopeBoth},
-- 
2.43.0


From e76cffdb443b74bd8609564ca3181ee1d5036bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:12 +0000
Subject: [PATCH 24/68] fix: do not repeat non-string elements of single-branch
 selects

Adding or removing a value of a list attribute moves the elements common to
all branches of a select to the list. With a single branch all its elements
counted as common, but only strings are removed from the branch, so that
variables were repeated by every command.
---
 edit/edit.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/edit/edit.go b/edit/edit.go
index e56ee45..7a39ee3 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -624,6 +624,12 @@ func SelectListsIntersection(sel *build.CallExpr, pkg string) (intersection []bu
 	}
 
 	if val, ok := dict.List[0].Value.(*build.ListExpr); ok {
+		for _, elem := range val.List {
+			// Only strings can be removed from the lists they are extracted from.
+			if _, ok := elem.(*build.StringExpr); !ok {
+				return nil
+			}
+		}
 		intersection = make([]build.Expr, len(val.List))
 		copy(intersection, val.List)
 	}
-- 
2.43.0


From 749b55bea1e76e3d3c998b085bac954f1f0a90f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 25/68] fix: keep comments when adjacent lists are merged

Adding or removing a value of a list attribute merges adjacent list literals
and drops empty ones. Comments attached to the lists themselves (before a list
or after its last element) were lost.
---
 edit/edit.go | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index 7a39ee3..383062d 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -541,15 +541,15 @@ func RemoveEmptySelectsAndConcatLists(e build.Expr) build.Expr {
 			y, yIsList := e.Y.(*build.ListExpr)
 
 			if xIsList && yIsList {
-				return &build.ListExpr{List: append(x.List, y.List...)}
+				return moveCommentsBefore(concatLists(x, y), e.Comments.Before, e.Comments.Suffix, e.Comments.After)
 			}
 
 			if xIsList && len(x.List) == 0 {
-				return e.Y
+				return moveCommentsBefore(e.Y, e.Comments.Before, allComments(x), e.Comments.Suffix, e.Comments.After)
 			}
 
 			if yIsList && len(y.List) == 0 {
-				return e.X
+				return moveCommentsBefore(e.X, e.Comments.Before, e.Comments.Suffix, allComments(y), e.Comments.After)
 			}
 		}
 	case *build.CallExpr:
@@ -574,6 +574,40 @@ func RemoveEmptySelectsAndConcatLists(e build.Expr) build.Expr {
 	return e
 }
 
+// allComments returns the comments of a list itself, i.e. not those of its elements.
+func allComments(list *build.ListExpr) (comments []build.Comment) {
+	for _, c := range []*build.Comments{&list.Comments, &list.End.Comments} {
+		comments = append(comments, c.Before...)
+		comments = append(comments, c.Suffix...)
+		comments = append(comments, c.After...)
+	}
+	return comments
+}
+
+// moveCommentsBefore adds comments in front of an expression and returns the expression.
+func moveCommentsBefore(e build.Expr, comments ...[]build.Comment) build.Expr {
+	var before []build.Comment
+	for _, c := range comments {
+		before = append(before, c...)
+	}
+	e.Comment().Before = append(before, e.Comment().Before...)
+	return e
+}
+
+// concatLists returns the concatenation of two list literals, comments included.
+func concatLists(x, y *build.ListExpr) *build.ListExpr {
+	list := &build.ListExpr{List: append(x.List, y.List...), Comments: x.Comments, End: y.End}
+	if len(y.List) > 0 {
+		moveCommentsBefore(y.List[0], x.End.Before, x.End.Suffix, x.End.After, y.Comments.Before, y.Comments.Suffix, y.Comments.After)
+	} else {
+		list.End = build.End{Pos: y.End.Pos}
+		for _, c := range [][]build.Comment{x.End.Before, x.End.Suffix, x.End.After, allComments(y)} {
+			list.End.Before = append(list.End.Before, c...)
+		}
+	}
+	return list
+}
+
 // ComputeIntersection returns the intersection of the two lists given as parameters;
 // if the containing elements are not build.StringExpr, the result will be nil.
 func ComputeIntersection(list1, list2 []build.Expr) []build.Expr {
-- 
2.43.0


From 59efeb31f39e62409f4f7a37711374505866d38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:22 +0000
Subject: [PATCH 26/68] fix: leave lists without the removed values as they are

---
 edit/buildozer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 1b9c186..a0a7ae7 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -439,10 +439,16 @@ func cmdRemove(opts *Options, env CmdEnvironment) (*build.File, error) {
 	} else { // Remove values in the attribute.
 		fixed := false
 		for _, key := range attrKeysForPattern(env.Rule, env.Args[0]) {
+			deleted := false
 			for _, val := range env.Args[1:] {
-				ListAttributeDelete(env.Rule, key, val, env.Pkg)
-				fixed = true
+				if ListAttributeDelete(env.Rule, key, val, env.Pkg) != nil {
+					deleted = true
+				}
+			}
+			if !deleted {
+				continue // Leave lists without the values as they are.
 			}
+			fixed = true
 			ResolveAttr(env.Rule, key, env.Pkg)
 			// Remove the attribute if's an empty list
 			if listExpr, ok := env.Rule.Attr(key).(*build.ListExpr); ok && len(listExpr.List) == 0 {
-- 
2.43.0


From 80fe216f79a8a21bd2ab5cd45715ff5c43b892b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:22 +0000
Subject: [PATCH 27/68] fix: replace strings in place

The replace and substitute commands turned string attributes into lists or identifiers and dropped their comments.
---
 edit/buildozer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index a0a7ae7..e3ca3d9 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -532,7 +532,7 @@ func cmdReplace(opts *Options, env CmdEnvironment) (*build.File, error) {
 		attr := env.Rule.Attr(key)
 		if e, ok := attr.(*build.StringExpr); ok {
 			if labels.Equal(e.Value, oldV, env.Pkg) {
-				env.Rule.SetAttr(key, getAttrValueExpr(key, []string{newV}, env))
+				env.Rule.SetAttr(key, &build.StringExpr{Value: ShortenLabel(newV, env.Pkg), Comments: e.Comments})
 			}
 		} else {
 			ListReplace(attr, oldV, newV, env.Pkg)
@@ -555,7 +555,7 @@ func cmdSubstitute(opts *Options, env CmdEnvironment) (*build.File, error) {
 			continue
 		}
 		if newValue, ok := stringSubstitute(e.Value, oldRegexp, newTemplate); ok {
-			env.Rule.SetAttr(key, getStringExpr(newValue, env.Pkg))
+			env.Rule.SetAttr(key, &build.StringExpr{Value: ShortenLabel(newValue, env.Pkg), Comments: e.Comments})
 		}
 	}
 	return env.File, nil
-- 
2.43.0


From c3317260bb513d3bb7dd8cdf4e5ae7521742ad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:55 +0000
Subject: [PATCH 28/68] fix: keep values moved within one attribute

---
 edit/edit.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edit/edit.go b/edit/edit.go
index 383062d..de043c2 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -930,6 +930,9 @@ func MoveAllListAttributeValues(rule *build.Rule, oldAttr, newAttr, pkg string,
 	if rule.Attr(oldAttr) == nil {
 		return fmt.Errorf("no attribute %s found in %s", oldAttr, rule.Name())
 	}
+	if oldAttr == newAttr {
+		return nil
+	}
 	if rule.Attr(newAttr) == nil {
 		RenameAttribute(rule, oldAttr, newAttr)
 		return nil
-- 
2.43.0


From f3cce19b23055a274c5da78d7fa041b663cece5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:24 +0000
Subject: [PATCH 29/68] fix: keep entries with computed keys when removing from
 a dictionary

---
 edit/edit.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index de043c2..14855ca 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -985,12 +985,10 @@ func DictionaryDelete(dict *build.DictExpr, key string) (deleted build.Expr) {
 	deleted = nil
 	var all []*build.KeyValueExpr
 	for _, kv := range dict.List {
-		if k, ok := kv.Key.(*build.StringExpr); ok {
-			if k.Value == key {
-				deleted = kv
-			} else {
-				all = append(all, kv)
-			}
+		if k, ok := kv.Key.(*build.StringExpr); ok && k.Value == key {
+			deleted = kv
+		} else {
+			all = append(all, kv)
 		}
 	}
 	dict.List = all
-- 
2.43.0


From 6b7968ab4a5d64e5329e4d7b25dae87babb1cf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:24 +0000
Subject: [PATCH 30/68] fix: don't overwrite attributes that are not
 dictionaries in dict commands

---
 edit/buildozer.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index e3ca3d9..08866f5 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -645,15 +645,27 @@ func cmdCopyNoOverwrite(opts *Options, env CmdEnvironment) (*build.File, error)
 	return copyAttributeBetweenRules(env, attrName, from)
 }
 
+// dictForAttr returns the dictionary an attribute holds, or a new one if there is no such attribute.
+func dictForAttr(rule *build.Rule, attr string) (*build.DictExpr, error) {
+	value := rule.Attr(attr)
+	if value == nil {
+		return &build.DictExpr{}, nil
+	}
+	dict, ok := value.(*build.DictExpr)
+	if !ok {
+		return nil, fmt.Errorf("attribute %s in rule %s is not a dictionary", attr, rule.Name())
+	}
+	return dict, nil
+}
+
 // cmdDictAdd adds a key to a dict, if that key does _not_ exit already.
 func cmdDictAdd(opts *Options, env CmdEnvironment) (*build.File, error) {
 	attr := env.Args[0]
 	args := env.Args[1:]
 
-	dict := &build.DictExpr{}
-	currDict, ok := env.Rule.Attr(attr).(*build.DictExpr)
-	if ok {
-		dict = currDict
+	dict, err := dictForAttr(env.Rule, attr)
+	if err != nil {
+		return nil, err
 	}
 
 	for _, x := range args {
@@ -710,10 +722,9 @@ func cmdDictSet(opts *Options, env CmdEnvironment) (*build.File, error) {
 	attr := env.Args[0]
 	args := env.Args[1:]
 
-	dict := &build.DictExpr{}
-	currDict, ok := env.Rule.Attr(attr).(*build.DictExpr)
-	if ok {
-		dict = currDict
+	dict, err := dictForAttr(env.Rule, attr)
+	if err != nil {
+		return nil, err
 	}
 
 	for _, x := range args {
@@ -789,9 +800,9 @@ func cmdDictListAdd(opts *Options, env CmdEnvironment) (*build.File, error) {
 	key := env.Args[1]
 	args := env.Args[2:]
 
-	dict := &build.DictExpr{}
-	if currDict, ok := env.Rule.Attr(attr).(*build.DictExpr); ok {
-		dict = currDict
+	dict, err := dictForAttr(env.Rule, attr)
+	if err != nil {
+		return nil, err
 	}
 
 	prev := DictionaryGet(dict, key)
-- 
2.43.0


From 27a728127709905bcd662e16c76d1ff82efef185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:45 +0000
Subject: [PATCH 31/68] fix: apply every command of a command-file line to the
 targets '*' stands for

---
 edit/buildozer.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 08866f5..b64be18 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1402,19 +1402,18 @@ func appendCommandsFromReader(opts *Options, reader io.Reader, commandsByFile ma
 		}
 		line = saveEscapedPipes(line)
 		args := strings.Split(line, "|")
-		for i, arg := range args {
-			args[i] = replaceSavedPipes(arg)
-		}
-		if len(args) > 1 && args[1] == "*" {
-			cmd := append([]string{args[0]}, labels...)
-			if err := appendCommands(opts, commandsByFile, cmd); err != nil {
-				return err
-			}
-		} else {
-			if err := appendCommands(opts, commandsByFile, args); err != nil {
-				return err
+		var expanded []string
+		for _, arg := range args {
+			if arg == "*" {
+				// Stands for the targets given on the command line.
+				expanded = append(expanded, labels...)
+			} else {
+				expanded = append(expanded, replaceSavedPipes(arg))
 			}
 		}
+		if err := appendCommands(opts, commandsByFile, expanded); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From f9a21d121cd703926b3a62252272a927f879c776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:52 +0000
Subject: [PATCH 32/68] fix: group targets by absolute file names when a root
 directory is given

---
 edit/buildozer.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index b64be18..786d9a4 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1291,12 +1291,12 @@ var EditFile = func(fi os.FileInfo, name string) error {
 // existing BUILD file paths which match the package.
 func targetExpressionToBuildFiles(rootDir string, target string) []string {
 	file, _, _, _ := InterpretLabelForWorkspaceLocation(rootDir, target)
-	if rootDir == "" {
-		var err error
-		if file, err = filepath.Abs(file); err != nil {
-			fmt.Printf("Cannot make path absolute: %s\n", err.Error())
-			os.Exit(1)
-		}
+	// Use absolute paths, so that all targets in a file are recognized as such regardless of
+	// how they are spelled.
+	file, err := filepath.Abs(file)
+	if err != nil {
+		fmt.Printf("Cannot make path absolute: %s\n", err.Error())
+		os.Exit(1)
 	}
 
 	suffix := filepath.Join("", "...", "BUILD") // /.../BUILD
-- 
2.43.0


From d4ce3d6d51c5ec61260df5684744ade472cf92df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:48 +0000
Subject: [PATCH 33/68] fix: edit only one build file per directory for target
 patterns

---
 edit/buildozer.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 786d9a4..1293a2d 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1307,7 +1307,7 @@ func targetExpressionToBuildFiles(rootDir string, target string) []string {
 	return findBuildFiles(strings.TrimSuffix(file, suffix))
 }
 
-// Given a root directory, returns all "BUILD" files in that subtree recursively.
+// Given a root directory, returns the build files of all packages in that subtree recursively.
 func findBuildFiles(rootDir string) []string {
 	var buildFiles []string
 	searchDirs := []string{rootDir}
@@ -1322,15 +1322,19 @@ func findBuildFiles(rootDir string) []string {
 			continue
 		}
 
+		found := make(map[string]bool)
 		for _, dirFile := range dirFiles {
 			if dirFile.IsDir() {
 				searchDirs = append(searchDirs, filepath.Join(dir, dirFile.Name()))
 			} else {
-				for _, buildFileName := range BuildFileNames {
-					if dirFile.Name() == buildFileName {
-						buildFiles = append(buildFiles, filepath.Join(dir, dirFile.Name()))
-					}
-				}
+				found[dirFile.Name()] = true
+			}
+		}
+		// A directory has only one build file, the others are ignored.
+		for _, buildFileName := range BuildFileNames {
+			if found[buildFileName] {
+				buildFiles = append(buildFiles, filepath.Join(dir, buildFileName))
+				break
 			}
 		}
 	}
-- 
2.43.0


From bc164613780a007be8fa8ef228d7d79fe1b7cbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:32 +0000
Subject: [PATCH 34/68] fix: keep the package of a file when statements are
 added or removed

---
 edit/bzlmod/bzlmod.go |  5 ++++-
 edit/edit.go          | 17 ++++++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/edit/bzlmod/bzlmod.go b/edit/bzlmod/bzlmod.go
index 4a3fc42..7469e60 100644
--- a/edit/bzlmod/bzlmod.go
+++ b/edit/bzlmod/bzlmod.go
@@ -115,7 +115,10 @@ func NewUseRepo(f *build.File, proxies []string) (*build.File, *build.CallExpr)
 	}
 	stmt := append(f.Stmt[:lastUsage+1], append([]build.Expr{useRepo}, f.Stmt[lastUsage+1:]...)...)
 
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: stmt, Type: build.TypeModule}, useRepo
+	result := *f
+	result.Stmt = stmt
+	result.Type = build.TypeModule
+	return &result, useRepo
 }
 
 // AddRepoUsages adds the given repos to the given use_repo calls without introducing duplicate
diff --git a/edit/edit.go b/edit/edit.go
index 14855ca..7fdd7aa 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -173,6 +173,13 @@ func PackageDeclaration(f *build.File) *build.Rule {
 	return &build.Rule{Call: call, ImplicitName: ""}
 }
 
+// withStatements returns a copy of the file with other statements.
+func withStatements(f *build.File, stmt []build.Expr) *build.File {
+	result := *f
+	result.Stmt = stmt
+	return &result
+}
+
 // RemoveEmptyPackage removes empty package declarations from the file, i.e.:
 //
 //	package()
@@ -187,7 +194,7 @@ func RemoveEmptyPackage(f *build.File) *build.File {
 		}
 		all = append(all, stmt)
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: f.Type}
+	return withStatements(f, all)
 }
 
 func isEmptyPackage(expr build.Expr) bool {
@@ -221,7 +228,7 @@ func RemoveEmptyUseRepoCalls(f *build.File) *build.File {
 		}
 		all = append(all, stmt)
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: build.TypeModule}
+	return withStatements(f, all)
 }
 
 func isEmptyUseRepoCall(expr build.Expr) bool {
@@ -348,7 +355,7 @@ func DeleteRule(f *build.File, rule *build.Rule) *build.File {
 		}
 		all = append(all, stmt)
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: f.Type}
+	return withStatements(f, all)
 }
 
 // DeleteRuleByName returns the AST without the rules that have the
@@ -366,7 +373,7 @@ func DeleteRuleByName(f *build.File, name string) *build.File {
 			all = append(all, stmt)
 		}
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: f.Type}
+	return withStatements(f, all)
 }
 
 // DeleteRuleByKind removes the rules of the specified kind from the AST.
@@ -384,7 +391,7 @@ func DeleteRuleByKind(f *build.File, kind string) *build.File {
 			all = append(all, stmt)
 		}
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: f.Type}
+	return withStatements(f, all)
 }
 
 // AllLists returns all the lists concatenated in an expression.
-- 
2.43.0


From 66632800a55dede5a09f4f64ad088ca13c5b827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:04 +0000
Subject: [PATCH 35/68] fix: keep the arguments of replace_load for the next
 file

---
 edit/buildozer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 1293a2d..ec40724 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -283,7 +283,8 @@ func findInsertionIndex(env CmdEnvironment) (bool, int, error) {
 // splitLoadArgs splits arguments of form <[to=]from>
 // into a slice of froms and a slice of tos.
 func splitLoadArgs(args []string) ([]string, []string) {
-	from := args
+	// The arguments may be used for several files, don't modify them.
+	from := append([]string{}, args...)
 	to := append([]string{}, args...)
 	for i := range from {
 		if s := strings.SplitN(from[i], "=", 2); len(s) == 2 {
-- 
2.43.0


From 2b5cfc161285c7005c58f9a38b52bb329e76f210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:40 +0000
Subject: [PATCH 36/68] fix: remove all replaced symbols from a load statement

---
 edit/edit.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index 7fdd7aa..21d29b4 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -1240,17 +1240,14 @@ func ReplaceLoad(stmts []build.Expr, location string, from, to []string) []build
 			continue
 		}
 
+		var fromIdents, toIdents []*build.Ident
 		for i, to := range load.To {
-			if toSymbols[to.Name] {
-				if i < len(load.From)-1 {
-					load.From = append(load.From[:i], load.From[i+1:]...)
-					load.To = append(load.To[:i], load.To[i+1:]...)
-				} else {
-					load.From = load.From[:i]
-					load.To = load.To[:i]
-				}
+			if !toSymbols[to.Name] {
+				fromIdents = append(fromIdents, load.From[i])
+				toIdents = append(toIdents, to)
 			}
 		}
+		load.From, load.To = fromIdents, toIdents
 
 		if len(load.To) > 0 {
 			all = append(all, load)
-- 
2.43.0


From 145ad5be7a822cf94f400e576d62f92761e98513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:47 +0000
Subject: [PATCH 37/68] fix: keep loads that are used in type annotations only

---
 edit/fix.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edit/fix.go b/edit/fix.go
index 1b91365..a201da0 100644
--- a/edit/fix.go
+++ b/edit/fix.go
@@ -348,6 +348,9 @@ func usePlusEqual(f *build.File) bool {
 // statements when the list is empty.
 func cleanUnusedLoads(f *build.File) bool {
 	symbols := UsedSymbols(f)
+	for name := range UsedTypes(f) {
+		symbols[name] = true
+	}
 	fixed := false
 
 	// Map of symbol in this file -> modules it's loaded from
-- 
2.43.0


From 612d97ce56b89510638f5c51305ca8eeea9a8914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:24 +0000
Subject: [PATCH 38/68] fix: find the names in types with several arguments,
 unions and members

---
 build/utils.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/build/utils.go b/build/utils.go
index 1e7c2b9..6da5954 100644
--- a/build/utils.go
+++ b/build/utils.go
@@ -70,11 +70,24 @@ func GetTypes(t Expr) []string {
 		right := GetTypes(t.Y)
 		return append(left, right...)
 	case *DotExpr:
-		// Special handling for skylark-rust interpreter, types are referred to by a `.type` suffix
-		if t.Name == "type" {
-			return GetTypes(t.X)
+		// A member of a struct or, for skylark-rust interpreter, a type referred to by a `.type` suffix
+		return GetTypes(t.X)
+	case *BinaryExpr:
+		return append(GetTypes(t.X), GetTypes(t.Y)...)
+	case *ParenExpr:
+		return GetTypes(t.X)
+	case *TupleExpr:
+		var ret []string
+		for _, x := range t.List {
+			ret = append(ret, GetTypes(x)...)
 		}
-		return []string{}
+		return ret
+	case *ListExpr:
+		var ret []string
+		for _, x := range t.List {
+			ret = append(ret, GetTypes(x)...)
+		}
+		return ret
 	default:
 		return []string{}
 	}
-- 
2.43.0


From c2c2ae44602760c25ea51deef94f2a0e51a10a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:22 +0000
Subject: [PATCH 39/68] fix: add a repository that is requested twice only once

---
 edit/bzlmod/bzlmod.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edit/bzlmod/bzlmod.go b/edit/bzlmod/bzlmod.go
index 7469e60..70c7855 100644
--- a/edit/bzlmod/bzlmod.go
+++ b/edit/bzlmod/bzlmod.go
@@ -149,6 +149,7 @@ func AddRepoUsages(useRepos []*build.CallExpr, repos ...string) {
 		if _, ok := seen[repo]; ok {
 			continue
 		}
+		seen[repo] = struct{}{}
 		// Sorting of use_repo arguments is handled by Buildify.
 		// TODO: Add a keyword argument instead if repo is of the form "key=value".
 		lastUseRepo.List = append(lastUseRepo.List, &build.StringExpr{Value: repo})
-- 
2.43.0


From 1f8dadc7563efb49aa035e8bdeee461a52e0d0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 40/68] fix: report a missing extension name of use_repo
 commands

---
 edit/buildozer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index ec40724..793d76f 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -864,6 +864,9 @@ func cmdImplUseRepo(env CmdEnvironment, mode string) (*build.File, error) {
 	var proxies []string
 	var repos []string
 	if isExtensionLabel(args[0]) {
+		if len(args) < 2 {
+			return nil, fmt.Errorf("%s: no extension name given for %q", mode, args[0])
+		}
 		extBzlFile := args[0]
 		extName := args[1]
 
-- 
2.43.0


From 370ba0ce8c20657badadc2b5beab55dfa400dfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:34 +0000
Subject: [PATCH 41/68] fix: recognize labels of extensions in the main
 repository

---
 edit/buildozer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 793d76f..f3374af 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -909,7 +909,7 @@ func cmdFormat(opts *Options, env CmdEnvironment) (*build.File, error) {
 func isExtensionLabel(arg string) bool {
 	// Labels referencing extensions are either absolute or repo-absolute. Repository names are not
 	// allowed to contain "@" or "/".
-	return strings.HasPrefix(arg, "@") || strings.HasSuffix(arg, "//")
+	return strings.HasPrefix(arg, "@") || strings.HasPrefix(arg, "//")
 }
 
 func cmdFix(opts *Options, env CmdEnvironment) (*build.File, error) {
-- 
2.43.0


From a0e7db617bf72053aefcc3ccd30c6a4d94b4a00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:24 +0000
Subject: [PATCH 42/68] fix: report augmented assignments to uninitialized
 variables

---
 warn/warn_control_flow.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 19206a2..af87db2 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -747,6 +747,10 @@ func findUninitializedVariables(stmts []build.Expr, previouslyInitialized map[st
 				// Don't traverse into nested def statements
 				return &build.StopTraversalError{}
 			case *build.AssignExpr:
+				if expr.Op != "=" {
+					// Augmented assignments (e.g. `x += 1`) use the old value.
+					return
+				}
 				for _, ident := range bzlenv.CollectLValues(expr.LHS) {
 					lValues[ident] = true
 				}
-- 
2.43.0


From 45a81e37c3e16a06d5f68b45a566330adbfc6c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:24 +0000
Subject: [PATCH 43/68] fix: report uninitialized variables in arguments of
 fail

---
 warn/warn_control_flow.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index af87db2..2c595e1 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -808,6 +808,7 @@ func findUninitializedVariables(stmts []build.Expr, previouslyInitialized map[st
 			// Don't traverse nested functions
 		case *build.CallExpr:
 			if _, ok := isFunctionCall(stmt, "fail"); ok {
+				findUninitializedIdents(stmt, callback)
 				return true, locallyInitialized
 			}
 		case *build.ReturnStmt:
-- 
2.43.0


From 3a11dce7e31896ce07f8212277767aa5ddb05888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:24 +0000
Subject: [PATCH 44/68] fix: respect scopes of lambda parameters, their
 defaults and the first iterable of comprehensions

---
 warn/warn_control_flow.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 2c595e1..70dfa56 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -247,6 +247,10 @@ func extractIdentsFromStmt(stmt build.Expr) (assigned, used map[*build.Ident]boo
 	// Local scopes for comprehensions
 	scopes := make(map[build.Expr]map[string]bool)
 
+	// Expressions inside of the local scopes that are evaluated outside of them:
+	// the first iterable of a comprehension and default values of lambda parameters
+	outsideScope := make(map[build.Expr]build.Expr)
+
 	// Nodes that are excluded from traversal
 	blockedNodes := make(map[build.Expr]bool)
 
@@ -344,12 +348,15 @@ func extractIdentsFromStmt(stmt build.Expr) (assigned, used map[*build.Ident]boo
 			// the usage of variables with the same name outside the comprehension
 			// scope.
 			scope := make(map[string]bool)
-			for _, clause := range expr.Clauses {
+			for i, clause := range expr.Clauses {
 				forClause, ok := clause.(*build.ForClause)
 				if !ok {
 					// if-clause
 					continue
 				}
+				if i == 0 {
+					outsideScope[forClause.X] = expr
+				}
 				for _, lValue := range bzlenv.CollectLValues(forClause.Vars) {
 					scope[lValue.Name] = true
 				}
@@ -360,20 +367,31 @@ func extractIdentsFromStmt(stmt build.Expr) (assigned, used map[*build.Ident]boo
 			// Similar to Comprehension nodes
 			scope := make(map[string]bool)
 			for _, param := range expr.Params {
-				for _, lValue := range bzlenv.CollectLValues(param) {
-					scope[lValue.Name] = true
+				if ident, _ := build.GetParamIdent(param); ident != nil {
+					scope[ident.Name] = true
+				}
+				if assign, ok := param.(*build.AssignExpr); ok {
+					outsideScope[assign.RHS] = expr
 				}
 			}
 			scopes[expr] = scope
 
 		case *build.Ident:
 			// If the identifier is defined in an intermediate scope, ignore it.
-			for _, node := range stack {
-				if scope, ok := scopes[node]; ok {
+			var outside build.Expr // the innermost scope `node` is not inside of
+			for i := len(stack); i >= 0; i-- {
+				current := node
+				if i < len(stack) {
+					current = stack[i]
+				}
+				if scope, ok := scopes[current]; ok && current != outside {
 					if _, ok := scope[expr.Name]; ok {
 						return
 					}
 				}
+				if scope, ok := outsideScope[current]; ok {
+					outside = scope
+				}
 			}
 			used[expr] = true
 
-- 
2.43.0


From d9819625fa89eaf43a57374098d8a443d9c532d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:25 +0000
Subject: [PATCH 45/68] fix: default values of parameters use variables of the
 outer scope

---
 warn/warn_control_flow.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 70dfa56..c3a99cb 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -425,6 +425,10 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 	// Symbols that are used in the current and inner scopes
 	usedSymbols := make(map[string]bool)
 
+	// Symbols that are used in default values of parameters. They are evaluated
+	// in the outer scope even if a symbol with the same name is defined here.
+	usedInDefaults := make(map[string]bool)
+
 	// Symbols for which the warning should be suppressed
 	suppressedWarnings := make(map[string]bool)
 
@@ -481,7 +485,7 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 				// a function call with a keyword parameter.
 				_, used := extractIdentsFromStmt(assign.RHS)
 				for ident := range used {
-					usedSymbols[ident.Name] = true
+					usedInDefaults[ident.Name] = true
 				}
 			}
 
@@ -525,6 +529,9 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 		}
 		usedSymbolsFromOuterScope[symbol] = true
 	}
+	for symbol := range usedInDefaults {
+		usedSymbolsFromOuterScope[symbol] = true
+	}
 
 	// Top-level variables defined in .bzl or generic Starlark files
 	// can be imported from elsewhere, even if not used in the current file.
-- 
2.43.0


From e6cfe97b3e52de9632a7f7fa22cab3573ac5dd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:25 +0000
Subject: [PATCH 46/68] fix: variables that are used in type annotations are
 not unused

---
 warn/warn_control_flow.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index c3a99cb..713e759 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -410,6 +410,19 @@ func extractIdentsFromStmt(stmt build.Expr) (assigned, used map[*build.Ident]boo
 	return assigned, used
 }
 
+// typesOfParam returns the symbols that are used in the type annotation of a function parameter.
+func typesOfParam(param build.Expr) []string {
+	switch param := param.(type) {
+	case *build.TypedIdent:
+		return build.GetTypes(param.Type)
+	case *build.AssignExpr:
+		return typesOfParam(param.LHS)
+	case *build.UnaryExpr:
+		return typesOfParam(param.X)
+	}
+	return nil
+}
+
 // unusedVariableCheck checks for unused variables inside a given node `stmt` (either *build.File or
 // *build.DefStmt) and variables that are used in the current scope or subscopes,
 // but not defined here.
@@ -425,8 +438,9 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 	// Symbols that are used in the current and inner scopes
 	usedSymbols := make(map[string]bool)
 
-	// Symbols that are used in default values of parameters. They are evaluated
-	// in the outer scope even if a symbol with the same name is defined here.
+	// Symbols that are used in default values and types of parameters. They are
+	// evaluated in the outer scope even if a symbol with the same name is defined
+	// here.
 	usedInDefaults := make(map[string]bool)
 
 	// Symbols for which the warning should be suppressed
@@ -458,6 +472,11 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 				return &build.StopTraversalError{}
 			}
 
+			// The type of the result is evaluated in the outer scope.
+			for _, symbol := range build.GetTypes(expr.Type) {
+				usedInDefaults[symbol] = true
+			}
+
 			// The function is a root for the current scope.
 			// Collect its parameters as defined in the current scope.
 			for _, param := range expr.Params {
@@ -473,6 +492,9 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 						suppressedWarnings[ident.Name] = true
 					}
 				}
+				for _, symbol := range typesOfParam(param) {
+					usedInDefaults[symbol] = true
+				}
 				// The default variables for the parameters are defined in the outer
 				// scope but used here.
 				assign, ok := param.(*build.AssignExpr)
-- 
2.43.0


From 36d8858988031d94c540d61907d6de7df0888642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:26 +0000
Subject: [PATCH 47/68] fix: keyword arguments in defaults of nested functions
 are not variables

---
 warn/warn_control_flow.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 713e759..29f9087 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -780,7 +780,11 @@ func findUninitializedVariables(stmts []build.Expr, previouslyInitialized map[st
 		// Collect lValues, they shouldn't be taken into account
 		// For example, if the expression is `a = foo(b = c)`, only `c` can be an uninitialized variable here.
 		lValues := make(map[*build.Ident]bool)
+		nestedStatements := make(map[build.Expr]bool)
 		build.WalkInterruptable(expr, func(expr build.Expr, stack []build.Expr) (err error) {
+			if nestedStatements[expr] {
+				return &build.StopTraversalError{}
+			}
 			switch expr := expr.(type) {
 			case *build.DefStmt:
 				// Function arguments can't be uninitialized, even if they share the same
@@ -791,8 +795,11 @@ func findUninitializedVariables(stmts []build.Expr, previouslyInitialized map[st
 						lValues[ident] = true
 					}
 				}
-				// Don't traverse into nested def statements
-				return &build.StopTraversalError{}
+				// Don't traverse into the bodies of nested def statements, but still
+				// collect keyword arguments in default values of their parameters.
+				for _, stmt := range expr.Body {
+					nestedStatements[stmt] = true
+				}
 			case *build.AssignExpr:
 				if expr.Op != "=" {
 					// Augmented assignments (e.g. `x += 1`) use the old value.
-- 
2.43.0


From 8b2e5d3243c479a32e2f33ed293ad4cf92181eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:26 +0000
Subject: [PATCH 48/68] fix: names in parentheses can be assigned

---
 bzlenv/bzlenv.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bzlenv/bzlenv.go b/bzlenv/bzlenv.go
index 40394af..d254bd8 100644
--- a/bzlenv/bzlenv.go
+++ b/bzlenv/bzlenv.go
@@ -144,6 +144,8 @@ func CollectLValues(node build.Expr) []*build.Ident {
 	switch node := node.(type) {
 	case *build.Ident:
 		result = append(result, node)
+	case *build.ParenExpr:
+		result = append(result, CollectLValues(node.X)...)
 	case *build.TupleExpr:
 		for _, item := range node.List {
 			result = append(result, CollectLValues(item)...)
-- 
2.43.0


From 8f83409cce3874b2f56837694d9cd5a231fc4b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:48 +0000
Subject: [PATCH 49/68] fix: report findings of the same line in a fixed order

The order depended on the iteration over maps in the checks.
---
 warn/warn.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/warn/warn.go b/warn/warn.go
index 65b7882..452d3e7 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -372,7 +372,20 @@ func FileWarnings(f *build.File, enabledWarnings []string, formatted *[]byte, mo
 			os.Exit(1)
 		}
 	}
-	sort.Slice(findings, func(i, j int) bool { return findings[i].Start.Line < findings[j].Start.Line })
+	// The checks may return their findings in any order.
+	sort.SliceStable(findings, func(i, j int) bool {
+		a, b := findings[i], findings[j]
+		if a.Start.Line != b.Start.Line {
+			return a.Start.Line < b.Start.Line
+		}
+		if a.Category != b.Category {
+			return a.Category < b.Category
+		}
+		if a.Start.LineRune != b.Start.LineRune {
+			return a.Start.LineRune < b.Start.LineRune
+		}
+		return a.Message < b.Message
+	})
 	return findings
 }
 
-- 
2.43.0


From 78a4c0c615dddddee11155187e302e3eafdbfcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:50 +0000
Subject: [PATCH 50/68] fix: find macros independently of the order of calls
 and definitions

Negative results for functions of an unfinished recursion were kept, and calls
were visited in the order of a map.
---
 warn/warn_macro.go | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/warn/warn_macro.go b/warn/warn_macro.go
index 65b071c..f41348a 100644
--- a/warn/warn_macro.go
+++ b/warn/warn_macro.go
@@ -20,6 +20,7 @@ package warn
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
@@ -175,6 +176,16 @@ func analyzeFile(f *build.File) fileData {
 	return report
 }
 
+// sortFunCalls sorts function calls by their position in the file
+func sortFunCalls(calls []funCall) {
+	sort.Slice(calls, func(i, j int) bool {
+		if calls[i].line != calls[j].line {
+			return calls[i].line < calls[j].line
+		}
+		return calls[i].nameAlias < calls[j].nameAlias
+	})
+}
+
 // functionReport represents the analysis result of a function
 type functionReport struct {
 	isMacro bool     // whether the function is a macro (or a rule)
@@ -208,7 +219,21 @@ func (ma macroAnalyzer) getFileData(pkg, label string) fileData {
 }
 
 // IsMacro is a public function that checks whether the given function is a macro
-func (ma macroAnalyzer) IsMacro(fn function) (report functionReport) {
+func (ma macroAnalyzer) IsMacro(fn function) functionReport {
+	report := ma.isMacro(fn)
+	if report.isMacro {
+		// Negative results for functions that call each other recursively with `fn` are incomplete,
+		// they shouldn't be used for other functions.
+		for other, cached := range ma.cache {
+			if !cached.isMacro {
+				delete(ma.cache, other)
+			}
+		}
+	}
+	return report
+}
+
+func (ma macroAnalyzer) isMacro(fn function) (report functionReport) {
 	// Check the cache first
 	if cached, ok := ma.cache[fn]; ok {
 		return cached
@@ -237,7 +262,7 @@ func (ma macroAnalyzer) IsMacro(fn function) (report functionReport) {
 
 	// Check whether fn.name is an alias for another function
 	if alias, ok := fileData.aliases[fn.name]; ok {
-		if ma.IsMacro(alias).isMacro {
+		if ma.isMacro(alias).isMacro {
 			report.isMacro = true
 		}
 		return
@@ -265,9 +290,11 @@ func (ma macroAnalyzer) IsMacro(fn function) (report functionReport) {
 			newFunCalls = append(newFunCalls, fc)
 		}
 	}
+	sortFunCalls(knownFunCalls)
+	sortFunCalls(newFunCalls)
 
 	for _, fc := range append(knownFunCalls, newFunCalls...) {
-		if ma.IsMacro(fc.function).isMacro {
+		if ma.isMacro(fc.function).isMacro {
 			report.isMacro = true
 			report.fc = &fc
 			return
-- 
2.43.0


From f07c4cb848d92701c634d272e717111751f4a09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:52 +0000
Subject: [PATCH 51/68] fix: a disabling comment only applies to the category
 it names

"disable=load-on-top" used to disable "load" as well.
---
 warn/warn.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/warn/warn.go b/warn/warn.go
index 452d3e7..2d76a24 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -22,9 +22,9 @@ import (
 	"log"
 	"os"
 	"sort"
+	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
-	"github.com/bazelbuild/buildtools/edit"
 )
 
 // LintMode is an enum representing a linter mode. Can be either "warn", "fix", or "suggest"
@@ -310,8 +310,32 @@ func runWarningsFunction(category string, f *build.File, fct func(f *build.File,
 
 // HasDisablingComment checks if a node has a comment that disables a certain warning
 func HasDisablingComment(expr build.Expr, warning string) bool {
-	return edit.ContainsComments(expr, "buildifier: disable="+warning) ||
-		edit.ContainsComments(expr, "buildozer: disable="+warning)
+	comments := expr.Comment()
+	for _, list := range [][]build.Comment{comments.Before, comments.Suffix, comments.After} {
+		for _, comment := range list {
+			if containsDirective(comment.Token, "buildifier: disable="+warning) ||
+				containsDirective(comment.Token, "buildozer: disable="+warning) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
+// containsDirective checks if a comment contains a directive that ends with a category name (and
+// not with a longer name that just starts with it).
+func containsDirective(comment, directive string) bool {
+	comment, directive = strings.ToLower(comment), strings.ToLower(directive)
+	for {
+		i := strings.Index(comment, directive)
+		if i < 0 {
+			return false
+		}
+		comment = comment[i+len(directive):]
+		if comment == "" || !strings.ContainsRune("abcdefghijklmnopqrstuvwxyz0123456789-_", rune(comment[0])) {
+			return true
+		}
+	}
 }
 
 // DisabledWarning checks if the warning was disabled by a comment.
-- 
2.43.0


From ac6bdc49ff14d84efc47e45fc7eb9deec625a668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:54 +0000
Subject: [PATCH 52/68] fix: suggestions leave the file unchanged

Formatting a file with a fix moved and merged statements, rolling the fix back
did not restore them.
---
 warn/warn.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/warn/warn.go b/warn/warn.go
index 2d76a24..511592a 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -422,9 +422,37 @@ func formatWithFix(f *build.File, replacements *[]LinterReplacement) []byte {
 		defer func() { *r.Old = old }()
 	}
 
+	// Formatting moves nodes around and may merge or remove them, so that the fix couldn't be rolled
+	// back. Format a copy of the file instead.
+	if fixed, err := reparse(f); err == nil {
+		return build.Format(fixed)
+	}
 	return build.Format(f)
 }
 
+// reparse returns a copy of the file that doesn't share any nodes with it
+func reparse(f *build.File) (*build.File, error) {
+	parse := build.ParseDefault
+	switch f.Type {
+	case build.TypeBuild:
+		parse = build.ParseBuild
+	case build.TypeWorkspace:
+		parse = build.ParseWorkspace
+	case build.TypeModule:
+		parse = build.ParseModule
+	case build.TypeBzl:
+		parse = build.ParseBzl
+	}
+	result, err := parse(f.Path, build.FormatWithoutRewriting(f))
+	if err != nil {
+		return nil, err
+	}
+	result.Pkg = f.Pkg
+	result.Label = f.Label
+	result.WorkspaceRoot = f.WorkspaceRoot
+	return result, nil
+}
+
 // calculateDifference compares two file contents and returns a replacement in the form of
 // a 3-tuple (byte from, byte to (non inclusive), a string to replace with).
 func calculateDifference(old, new *[]byte) (start, end int, replacement string) {
-- 
2.43.0


From 588f11da62af8cb201bbed8b9f2694a581d9222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:56 +0000
Subject: [PATCH 53/68] fix: replace calls of native rules in top-level
 statements

When a load statement was to be inserted, other replacements still pointed to
the old list of statements.
---
 warn/warn_bazel_api.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 61de4e6..10d0dee 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -310,7 +310,27 @@ func notLoadedUsageCheck(f *build.File, fileReader *FileReader, functions, symbo
 	}
 
 	sort.Strings(loads)
+	oldStmts := f.Stmt
 	replacement := insertLoad(f, loadFrom, loads)
+	if len(f.Stmt) > len(oldStmts) {
+		// A placeholder has been inserted to a new list of statements, the replacements of top-level
+		// statements should point to the new list as well.
+		moved := make(map[*build.Expr]*build.Expr)
+		offset := 0
+		for i := range oldStmts {
+			if offset == 0 && replacement.Old == &f.Stmt[i] {
+				offset = 1
+			}
+			moved[&oldStmts[i]] = &f.Stmt[i+offset]
+		}
+		for _, finding := range findings {
+			for i, r := range finding.Replacement {
+				if stmt, ok := moved[r.Old]; ok {
+					finding.Replacement[i].Old = stmt
+				}
+			}
+		}
+	}
 	if replacement != nil {
 		// Add the same replacement to all relevant findings.
 		for _, f := range findings {
-- 
2.43.0


From 8ab308c8765abcc91e396f4f237b2cbe7f64a203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:58 +0000
Subject: [PATCH 54/68] fix: attach the fix of a load statement to a finding
 that it fixes

---
 warn/warn_control_flow.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 29f9087..1f36bed 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -650,6 +650,8 @@ func unusedLoadWarning(f *build.File) []*LinterFinding {
 
 		// Findings related to the current load statement
 		loadFindings := []*LinterFinding{}
+		// The first of them that can be fixed
+		var fixable *LinterFinding
 
 		// Copy the `load` object to provide a replacement if needed
 		load := *originalLoad
@@ -676,6 +678,9 @@ func unusedLoadWarning(f *build.File) []*LinterFinding {
 					i--
 					loadFindings = append(loadFindings, makeLinterFinding(to,
 						fmt.Sprintf("Symbol %q has already been loaded on line %d. Please remove it.", to.Name, origin.line)))
+					if fixable == nil {
+						fixable = loadFindings[len(loadFindings)-1]
+					}
 					continue
 				}
 
@@ -696,6 +701,9 @@ func unusedLoadWarning(f *build.File) []*LinterFinding {
 
 				loadFindings = append(loadFindings, makeLinterFinding(to,
 					fmt.Sprintf("Loaded symbol %q is unused. Please remove it.\nTo disable the warning, add '@unused' in a comment.", to.Name)))
+				if fixable == nil {
+					fixable = loadFindings[len(loadFindings)-1]
+				}
 				if f.Type == build.TypeDefault || f.Type == build.TypeBzl {
 					loadFindings[len(loadFindings)-1].Message += fmt.Sprintf(`
 If you want to re-export a symbol, use the following pattern:
@@ -707,8 +715,9 @@ If you want to re-export a symbol, use the following pattern:
 			}
 		}
 
-		if len(loadFindings) == 0 {
-			// No problems with the current load statement
+		findings = append(findings, loadFindings...)
+		if fixable == nil {
+			// Nothing to fix in the current load statement
 			continue
 		}
 
@@ -730,9 +739,8 @@ If you want to re-export a symbol, use the following pattern:
 		//
 		//     load(":foo.bzl")
 		//
-		// A workaround is to attach the full replacement to the first finding.
-		loadFindings[0].Replacement = []LinterReplacement{replacement}
-		findings = append(findings, loadFindings...)
+		// A workaround is to attach the full replacement to the first finding that can be fixed.
+		fixable.Replacement = []LinterReplacement{replacement}
 	}
 	return findings
 }
-- 
2.43.0


From f549acf924f76b0c797e22c994e4ec29d4bd14d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:00 +0000
Subject: [PATCH 55/68] fix: apply fixes to nested expressions

The fix of an outer expression is a copy with the unfixed inner one.
---
 warn/warn.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/warn/warn.go b/warn/warn.go
index 511592a..9e3352d 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -274,7 +274,23 @@ func ruleWarningWrapper(ruleWarning func(call *build.CallExpr, pkg string) *Lint
 
 // runWarningsFunction runs a linter/fixer function over a file and applies the fixes conditionally
 func runWarningsFunction(category string, f *build.File, fct func(f *build.File, pkg string, fileReader *FileReader) []*LinterFinding, formatted *[]byte, mode LintMode, fileReader *FileReader) []*Finding {
+	findings, fixed := runWarningsFunctionOnce(category, f, fct, formatted, mode, fileReader)
+	// Fixes of nested nodes are independent of each other: the fix of an outer node is made of a copy
+	// of the node before the inner one is fixed. Run the function again until nothing is left to fix.
+	for i := 0; fixed && i < maxFixRounds; i++ {
+		findings, fixed = runWarningsFunctionOnce(category, f, fct, formatted, mode, fileReader)
+	}
+	return findings
+}
+
+// maxFixRounds limits the number of attempts to fix nested nodes.
+const maxFixRounds = 100
+
+// runWarningsFunctionOnce runs a linter/fixer function over a file once. Returns the findings (except
+// for those that have been fixed) and whether any fix has been applied to the file.
+func runWarningsFunctionOnce(category string, f *build.File, fct func(f *build.File, pkg string, fileReader *FileReader) []*LinterFinding, formatted *[]byte, mode LintMode, fileReader *FileReader) ([]*Finding, bool) {
 	findings := []*Finding{}
+	fixed := false
 	for _, w := range fct(f, f.Pkg, fileReader) {
 		if !DisabledWarning(f, w.Start.Line, category) {
 			finding := makeFinding(f, w.Start, w.End, category, w.URL, w.Message, true, len(w.Replacement) > 0, nil)
@@ -287,6 +303,7 @@ func runWarningsFunction(category string, f *build.File, fct func(f *build.File,
 						*r.Old = r.New
 					}
 					finding = nil
+					fixed = true
 				case ModeSuggest:
 					// Apply the fix, calculate the diff and roll back the fix
 					newContents := formatWithFix(f, &w.Replacement)
@@ -305,7 +322,7 @@ func runWarningsFunction(category string, f *build.File, fct func(f *build.File,
 			}
 		}
 	}
-	return findings
+	return findings, fixed
 }
 
 // HasDisablingComment checks if a node has a comment that disables a certain warning
-- 
2.43.0


From 22ffd955e35245366a79257298324a63e755cb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:13 +0000
Subject: [PATCH 56/68] fix: resolve names of nested scopes to their innermost
 definition

Nested functions are declared in the enclosing function, the enclosing
function is current again after them, lambdas have scopes of their own,
default values and the first iterable of a comprehension are evaluated
outside, and top-level if and for statements declare global variables.
---
 bzlenv/bzlenv.go | 125 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 93 insertions(+), 32 deletions(-)

diff --git a/bzlenv/bzlenv.go b/bzlenv/bzlenv.go
index d254bd8..0d630b0 100644
--- a/bzlenv/bzlenv.go
+++ b/bzlenv/bzlenv.go
@@ -69,12 +69,14 @@ type Environment struct {
 	Function *build.DefStmt // enclosing function (or nil on top-level)
 	nextID   int            // used to create unique identifiers
 	Stack    []build.Expr   // parents of the current node
+
+	functions []*build.DefStmt // values of Function outside of the enclosing functions
 }
 
 // NewEnvironment creates a new empty Environment.
 func NewEnvironment() *Environment {
 	sc := block{}
-	return &Environment{[]block{sc}, nil, 0, []build.Expr{}}
+	return &Environment{Blocks: []block{sc}, Stack: []build.Expr{}}
 }
 
 func (e *Environment) enterBlock() {
@@ -88,6 +90,36 @@ func (e *Environment) exitBlock() {
 	e.Blocks = e.Blocks[:len(e.Blocks)-1]
 }
 
+func (e *Environment) enterFunction(def *build.DefStmt) {
+	e.functions = append(e.functions, e.Function)
+	e.Function = def
+}
+
+func (e *Environment) exitFunction() {
+	e.Function = e.functions[len(e.functions)-1]
+	e.functions = e.functions[:len(e.functions)-1]
+}
+
+// parent returns the parent of the current node (or nil).
+func (e *Environment) parent() build.Expr {
+	if len(e.Stack) < 2 {
+		return nil
+	}
+	return e.Stack[len(e.Stack)-2]
+}
+
+// outside runs a function in the environment outside of the current block.
+func (e *Environment) outside(def bool, fct func()) {
+	blocks, function, functions := e.Blocks, e.Function, e.functions
+	e.Blocks = blocks[: len(blocks)-1 : len(blocks)-1]
+	if def {
+		e.Function = functions[len(functions)-1]
+		e.functions = functions[: len(functions)-1 : len(functions)-1]
+	}
+	fct()
+	e.Blocks, e.Function, e.functions = blocks, function, functions
+}
+
 func (e *Environment) currentBlock() block {
 	return e.Blocks[len(e.Blocks)-1]
 }
@@ -117,24 +149,7 @@ func (e *Environment) declare(name string, kind ValueKind, node build.Expr) {
 }
 
 func declareGlobals(stmts []build.Expr, env *Environment) {
-	for _, node := range stmts {
-		switch node := node.(type) {
-		case *build.LoadStmt:
-			for _, ident := range node.To {
-				env.declare(ident.Name, Imported, ident)
-			}
-		case *build.AssignExpr:
-			kind := Local
-			if env.Function == nil {
-				kind = Global
-			}
-			for _, id := range CollectLValues(node.LHS) {
-				env.declare(id.Name, kind, node)
-			}
-		case *build.DefStmt:
-			env.declare(node.Name, Function, node)
-		}
-	}
+	declareVariables(stmts, Global, env)
 }
 
 // CollectLValues returns the list of identifiers that are assigned (assuming that node is a valid
@@ -158,36 +173,61 @@ func CollectLValues(node build.Expr) []*build.Ident {
 	return result
 }
 
-func declareParams(fct *build.DefStmt, env *Environment) {
-	for _, node := range fct.Params {
+func declareParams(params []build.Expr, env *Environment) {
+	for _, node := range params {
 		name, _ := build.GetParamName(node)
 		env.declare(name, Parameter, node)
 	}
 }
 
 func declareLocalVariables(stmts []build.Expr, env *Environment) {
+	declareVariables(stmts, Local, env)
+}
+
+// declareVariables declares everything that is defined by statements of the same block, `kind` is
+// the kind of variables.
+func declareVariables(stmts []build.Expr, kind ValueKind, env *Environment) {
 	for _, stmt := range stmts {
 		switch node := stmt.(type) {
-		case *build.AssignExpr:
-			kind := Local
-			if env.Function == nil {
-				kind = Global
+		case *build.LoadStmt:
+			for _, ident := range node.To {
+				env.declare(ident.Name, Imported, ident)
 			}
+		case *build.AssignExpr:
 			for _, id := range CollectLValues(node.LHS) {
 				env.declare(id.Name, kind, node)
 			}
+		case *build.DefStmt:
+			env.declare(node.Name, Function, node)
 		case *build.IfStmt:
-			declareLocalVariables(node.True, env)
-			declareLocalVariables(node.False, env)
+			declareVariables(node.True, kind, env)
+			declareVariables(node.False, kind, env)
 		case *build.ForStmt:
 			for _, id := range CollectLValues(node.Vars) {
-				env.declare(id.Name, Local, node)
+				env.declare(id.Name, kind, node)
 			}
-			declareLocalVariables(node.Body, env)
+			declareVariables(node.Body, kind, env)
 		}
 	}
 }
 
+// isParam checks whether node is one of the parameters of a function (a DefStmt or a LambdaExpr).
+func isParam(node, function build.Expr) (param, def bool) {
+	var params []build.Expr
+	switch function := function.(type) {
+	case *build.DefStmt:
+		params, def = function.Params, true
+	case *build.LambdaExpr:
+		params = function.Params
+	}
+	for _, param := range params {
+		if param == node {
+			return true, def
+		}
+	}
+	return false, def
+}
+
 // WalkOnceWithEnvironment calls fct on every child of node, while maintaining the Environment of all available symbols.
 func WalkOnceWithEnvironment(node build.Expr, env *Environment, fct func(e *build.Expr, env *Environment)) {
 	env.Stack = append(env.Stack, node)
@@ -197,12 +237,33 @@ func WalkOnceWithEnvironment(node build.Expr, env *Environment, fct func(e *buil
 		build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
 	case *build.DefStmt:
 		env.enterBlock()
-		env.Function = node
-		declareParams(node, env)
+		env.enterFunction(node)
+		declareParams(node.Params, env)
 		declareLocalVariables(node.Body, env)
 		build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
-		env.Function = nil
+		env.exitFunction()
 		env.exitBlock()
+	case *build.LambdaExpr:
+		env.enterBlock()
+		declareParams(node.Params, env)
+		build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
+		env.exitBlock()
+	case *build.AssignExpr:
+		if param, def := isParam(node, env.parent()); param {
+			// The default value of a parameter is evaluated outside of the function.
+			fct(&node.LHS, env)
+			env.outside(def, func() { fct(&node.RHS, env) })
+			break
+		}
+		build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
+	case *build.ForClause:
+		if comprehension, ok := env.parent().(*build.Comprehension); ok && comprehension.Clauses[0] == node {
+			// The first sequence is evaluated outside of the comprehension.
+			fct(&node.Vars, env)
+			env.outside(false, func() { fct(&node.X, env) })
+			break
+		}
+		build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
 	case *build.Comprehension:
 		env.enterBlock()
 		for _, clause := range node.Clauses {
-- 
2.43.0


From e239593cfd8108e98ae69e9951d397d42d3e236b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:13 +0000
Subject: [PATCH 57/68] fix: merge definitions into overridden tables

Definitions given with -tables leave the tables they do not mention nil,
adding to them with -add_tables panicked.
---
 tables/tables.go | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/tables/tables.go b/tables/tables.go
index 7ff8b02..d0067c8 100644
--- a/tables/tables.go
+++ b/tables/tables.go
@@ -278,29 +278,25 @@ func OverrideTables(labelArg, denylist, listArg, sortableListArg, sortDenylist,
 	ShortenAbsoluteLabelsToRelative = shortenAbsoluteLabelsToRelative
 }
 
-// MergeTables allows a user of the build package to override the special-case rules. The user-provided tables are merged into the built-in tables.
-func MergeTables(labelArg, denylist, listArg, sortableListArg, sortDenylist, sortAllowlist map[string]bool, namePriority map[string]int, stripLabelLeadingSlashes, shortenAbsoluteLabelsToRelative bool) {
-	for k, v := range labelArg {
-		IsLabelArg[k] = v
-	}
-	for k, v := range denylist {
-		LabelDenylist[k] = v
-	}
-	for k, v := range listArg {
-		IsListArg[k] = v
-	}
-	for k, v := range sortableListArg {
-		IsSortableListArg[k] = v
-	}
-	for k, v := range sortDenylist {
-		SortableDenylist[k] = v
+// mergeInto copies the entries of src to *dst. An overridden table may be nil.
+func mergeInto[V any](dst *map[string]V, src map[string]V) {
+	if *dst == nil {
+		*dst = make(map[string]V, len(src))
 	}
-	for k, v := range sortAllowlist {
-		SortableAllowlist[k] = v
-	}
-	for k, v := range namePriority {
-		NamePriority[k] = v
+	for k, v := range src {
+		(*dst)[k] = v
 	}
+}
+
+// MergeTables allows a user of the build package to override the special-case rules. The user-provided tables are merged into the built-in tables.
+func MergeTables(labelArg, denylist, listArg, sortableListArg, sortDenylist, sortAllowlist map[string]bool, namePriority map[string]int, stripLabelLeadingSlashes, shortenAbsoluteLabelsToRelative bool) {
+	mergeInto(&IsLabelArg, labelArg)
+	mergeInto(&LabelDenylist, denylist)
+	mergeInto(&IsListArg, listArg)
+	mergeInto(&IsSortableListArg, sortableListArg)
+	mergeInto(&SortableDenylist, sortDenylist)
+	mergeInto(&SortableAllowlist, sortAllowlist)
+	mergeInto(&NamePriority, namePriority)
 	StripLabelLeadingSlashes = stripLabelLeadingSlashes || StripLabelLeadingSlashes
 	ShortenAbsoluteLabelsToRelative = shortenAbsoluteLabelsToRelative || ShortenAbsoluteLabelsToRelative
 }
-- 
2.43.0


From 831c520b51665beecefbbcaa814f1261a0157e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:29 +0000
Subject: [PATCH 58/68] fix: list every selected warning once and in a fixed
 order

---
 buildifier/config/validation.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/buildifier/config/validation.go b/buildifier/config/validation.go
index 87cc393..a263c3e 100644
--- a/buildifier/config/validation.go
+++ b/buildifier/config/validation.go
@@ -98,6 +98,20 @@ func ValidateModes(mode, lint *string, dflag *bool, additionalModes ...string) e
 	return nil
 }
 
+// unique removes repeated elements from a list. Running a warning twice would
+// report its findings twice.
+func unique(list []string) []string {
+	var result []string
+	seen := make(map[string]bool)
+	for _, s := range list {
+		if !seen[s] {
+			seen[s] = true
+			result = append(result, s)
+		}
+	}
+	return result
+}
+
 // ValidateWarnings validates the value of the --warnings flag
 func ValidateWarnings(warnings *string, allWarnings, defaultWarnings *[]string) ([]string, error) {
 
@@ -112,11 +126,11 @@ func ValidateWarnings(warnings *string, allWarnings, defaultWarnings *[]string)
 		// Either all or no warning categories should start with "+" or "-".
 		// If all of them start with "+" or "-", the semantics is
 		// "default set of warnings + something - something".
-		plus := map[string]bool{}
+		var plus []string
 		minus := map[string]bool{}
 		for _, warning := range strings.Split(*warnings, ",") {
 			if strings.HasPrefix(warning, "+") {
-				plus[warning[1:]] = true
+				plus = append(plus, warning[1:])
 			} else if strings.HasPrefix(warning, "-") {
 				minus[warning[1:]] = true
 			} else {
@@ -132,10 +146,9 @@ func ValidateWarnings(warnings *string, allWarnings, defaultWarnings *[]string)
 					warningsList = append(warningsList, warning)
 				}
 			}
-			for warning := range plus {
-				warningsList = append(warningsList, warning)
-			}
+			warningsList = append(warningsList, plus...)
 		}
+		warningsList = unique(warningsList)
 	}
 	return warningsList, nil
 }
-- 
2.43.0


From 9905fc3a789b73e3744bf4919e2a900ce778e8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:29 +0000
Subject: [PATCH 59/68] fix: a run with unreadable files is not successful

---
 buildifier/buildifier.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/buildifier/buildifier.go b/buildifier/buildifier.go
index 60124fc..bfb65a3 100644
--- a/buildifier/buildifier.go
+++ b/buildifier/buildifier.go
@@ -250,6 +250,7 @@ func (b *buildifier) processFiles(files []string, tf *utils.TempFile) (*utils.Di
 	}
 
 	exitCode := 0
+	readError := false
 	fileDiagnostics := []*utils.FileDiagnostics{}
 
 	// Process files. The processing still runs in a single goroutine
@@ -265,6 +266,7 @@ func (b *buildifier) processFiles(files []string, tf *utils.TempFile) (*utils.Di
 		if res.err != nil {
 			fmt.Fprintf(os.Stderr, "buildifier: %v\n", res.err)
 			exitCode = 3
+			readError = true
 			continue
 		}
 		fd, newExitCode := b.processFile(file, res.data, len(files) > 1, tf)
@@ -275,7 +277,12 @@ func (b *buildifier) processFiles(files []string, tf *utils.TempFile) (*utils.Di
 			exitCode = newExitCode
 		}
 	}
-	return utils.NewDiagnostics(fileDiagnostics...), exitCode
+	diagnostics := utils.NewDiagnostics(fileDiagnostics...)
+	if readError {
+		// Files that can't be read have no diagnostics of their own.
+		diagnostics.Success = false
+	}
+	return diagnostics, exitCode
 }
 
 // processFile processes a single file containing data.
-- 
2.43.0


From c8ef445cea55208c61990dd38ecc5ca2c7038a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:29 +0000
Subject: [PATCH 60/68] fix: find the workspace of a path with superfluous
 elements

---
 wspace/workspace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wspace/workspace.go b/wspace/workspace.go
index 1587494..2d39ed9 100644
--- a/wspace/workspace.go
+++ b/wspace/workspace.go
@@ -70,7 +70,7 @@ func findContextPath(rootDir string) (string, error) {
 	if rootDir == "" {
 		return os.Getwd()
 	}
-	return rootDir, nil
+	return filepath.Clean(rootDir), nil
 }
 
 // FindWorkspaceRoot splits the current code context (the rootDir if present,
-- 
2.43.0


From 512946e7b9c83f519915176bbc362d00f73475d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:45 +0000
Subject: [PATCH 61/68] fix: print the step of slices without positions

---
 build/print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/print.go b/build/print.go
index 6ea029c..21f4351 100644
--- a/build/print.go
+++ b/build/print.go
@@ -714,7 +714,7 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		if v.To != nil {
 			p.expr(v.To, precLow)
 		}
-		if v.SecondColon.Byte != 0 {
+		if v.SecondColon.Byte != 0 || v.Step != nil {
 			p.printf(":")
 			if v.Step != nil {
 				p.expr(v.Step, precLow)
-- 
2.43.0


From 4bdd9ef19573475e17d1d2827c7ddc5f2fec64c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:45 +0000
Subject: [PATCH 62/68] fix: convert integers that don't fit into 64 bits

---
 convertast/convert_ast.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convertast/convert_ast.go b/convertast/convert_ast.go
index 6978354..349c10c 100644
--- a/convertast/convert_ast.go
+++ b/convertast/convert_ast.go
@@ -22,7 +22,6 @@ package convertast
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
@@ -171,8 +170,9 @@ func convExpr(e syntax.Expr) build.Expr {
 	case *syntax.Literal:
 		switch e.Token {
 		case syntax.INT:
+			// The value is an int64 or a *big.Int
 			return &build.LiteralExpr{
-				Token:    strconv.FormatInt(e.Value.(int64), 10),
+				Token:    fmt.Sprint(e.Value),
 				Comments: convComments(e.Comments())}
 		case syntax.FLOAT:
 			return &build.LiteralExpr{
-- 
2.43.0


From 7dc52b39a8e10087eab04f3b9237b20cfa28b96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:46 +0000
Subject: [PATCH 63/68] fix: convert dictionary comprehensions

---
 convertast/convert_ast.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/convertast/convert_ast.go b/convertast/convert_ast.go
index 349c10c..6ad4783 100644
--- a/convertast/convert_ast.go
+++ b/convertast/convert_ast.go
@@ -228,14 +228,15 @@ func convExpr(e syntax.Expr) build.Expr {
 	case *syntax.DictExpr:
 		list := []*build.KeyValueExpr{}
 		for i := range e.List {
-			entry := e.List[i].(*syntax.DictEntry)
-			list = append(list, &build.KeyValueExpr{
-				Key:      convExpr(entry.Key),
-				Value:    convExpr(entry.Value),
-				Comments: convComments(entry.Comments()),
-			})
+			list = append(list, convExpr(e.List[i]).(*build.KeyValueExpr))
 		}
 		return &build.DictExpr{List: list, Comments: convComments(e.Comments())}
+	case *syntax.DictEntry:
+		return &build.KeyValueExpr{
+			Key:      convExpr(e.Key),
+			Value:    convExpr(e.Value),
+			Comments: convComments(e.Comments()),
+		}
 	case *syntax.CondExpr:
 		return &build.ConditionalExpr{
 			Then:     convExpr(e.True),
-- 
2.43.0


From 9cf59cc736c2448d004a1f83e9e43bbb294d5d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:47 +0000
Subject: [PATCH 64/68] fix: convert tuples in brackets to tuples in brackets

Tuples of one element lost their comma.
---
 convertast/convert_ast.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/convertast/convert_ast.go b/convertast/convert_ast.go
index 6ad4783..27c91f6 100644
--- a/convertast/convert_ast.go
+++ b/convertast/convert_ast.go
@@ -252,6 +252,19 @@ func convExpr(e syntax.Expr) build.Expr {
 			Curly:    e.Curly,
 		}
 	case *syntax.ParenExpr:
+		if tuple, ok := e.X.(*syntax.TupleExpr); ok && !tuple.Lparen.IsValid() {
+			// The brackets of a non-empty tuple
+			list := convExprs(tuple.List)
+			inner := convComments(tuple.Comments())
+			first, last := list[0].Comment(), list[len(list)-1].Comment()
+			first.Before = append(inner.Before, first.Before...)
+			last.Suffix = append(last.Suffix, inner.Suffix...)
+			return &build.TupleExpr{
+				List:         list,
+				Comments:     convComments(e.Comments()),
+				ForceCompact: singleLine(e),
+			}
+		}
 		return &build.ParenExpr{
 			X:        convExpr(e.X),
 			Comments: convComments(e.Comments()),
-- 
2.43.0


From 8b1dbfd6f78b96c766c4c344fec7c73cbb446a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:30 +0000
Subject: [PATCH 65/68] fix: replace the end-of-line comment of an attribute
 instead of adding another one

The parser attaches the comment to the assignment, the comment command attached
the new one to the value: both were printed, and the old one ended up on the
next line.
---
 edit/buildozer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index f3374af..003f3c5 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -118,7 +118,8 @@ func cmdComment(opts *Options, env CmdEnvironment) (*build.File, error) {
 			if fullLine {
 				attr.LHS.Comment().Before = comment
 			} else {
-				attr.RHS.Comment().Suffix = comment
+				// This is also where the parser puts it: don't leave two comments at the end of the line.
+				attr.Comments.Suffix = comment
 			}
 		}
 	case 3: // Attach to a specific value in a list
-- 
2.43.0


From c1ed8eb756b9f41841241725d96918e47d3692af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:20 +0000
Subject: [PATCH 66/68] fix: compute the names of modules for every workspace

---
 warn/warn_bazel_api.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 10d0dee..012ed54 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -174,9 +174,13 @@ func insertLoad(f *build.File, module string, symbols []string) *LinterReplaceme
 	return &LinterReplacement{&(f.Stmt[i]), edit.NewLoad(module, symbols, symbols)}
 }
 
-// Caches the result of bzlmod.ExtractModuleToApparentNameMapping.
+// Caches the result of bzlmod.ExtractModuleToApparentNameMapping for moduleToApparentRepoNameReader.
 var moduleToApparentRepoName func(string) string
 
+// The file reader moduleToApparentRepoName has been computed with: readers of different workspaces
+// have different mappings.
+var moduleToApparentRepoNameReader *FileReader
+
 // useApparentRepoNameIfExternal replaces the module name in a load statement with the apparent repository
 // name used by the root Bazel module (if any).
 func useApparentRepoNameIfExternal(load string, fileReader *FileReader) string {
@@ -184,7 +188,8 @@ func useApparentRepoNameIfExternal(load string, fileReader *FileReader) string {
 		// Not a load from an external repository or we can't load external files.
 		return load
 	}
-	if moduleToApparentRepoName == nil {
+	if moduleToApparentRepoName == nil || moduleToApparentRepoNameReader != fileReader {
+		moduleToApparentRepoNameReader = fileReader
 		moduleToApparentRepoName = bzlmod.ExtractModuleToApparentNameMapping(func(relPath string) *build.File {
 			return fileReader.GetFile("", relPath)
 		})
-- 
2.43.0


From 0b5a32f75e6d73c5084dd073c0cc8c1de661b626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:11 +0000
Subject: [PATCH 67/68] fix: sort the chunk that follows removed duplicates

---
 build/rewrite.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index 9de3750..9833215 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -693,7 +693,8 @@ func sortStringExprs(list []Expr) []Expr {
 			list = append(list[:(i+len(chunk))], list[j:]...)
 		}
 
-		i = j
+		// Duplicates may have been removed
+		i += len(chunk)
 	}
 
 	return list
-- 
2.43.0


From d8a0f440dd98313b8aba04b704f51d3a16f29f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:23 +0000
Subject: [PATCH 68/68] fix: a sign after a hexadecimal number is an operator

---
 build/lex.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/build/lex.go b/build/lex.go
index 30639ea..119d437 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -626,8 +626,9 @@ func (in *input) Lex(val *yySymType) int {
 		if !isIdent(c) {
 			if c == '+' || c == '-' {
 				t := in.peekToken()
-				// Parse 12.3e-4 and 12.3E+4 as a single token.
-				if !(len(t) > 0 && t[0] >= '0' && t[0] <= '9' && (t[len(t)-1] == 'e' || t[len(t)-1] == 'E')) {
+				// Parse 12.3e-4 and 12.3E+4 as a single token, but not 0xe+4.
+				isHex := len(t) > 1 && t[0] == '0' && (t[1] == 'x' || t[1] == 'X')
+				if isHex || !(len(t) > 0 && t[0] >= '0' && t[0] <= '9' && (t[len(t)-1] == 'e' || t[len(t)-1] == 'E')) {
 					break
 				}
 			} else {
-- 
2.43.0

