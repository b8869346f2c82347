From 62fee7c841519316bd10ac6b0d80bc5baa70a3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:35 +0000
Subject: [PATCH 01/14] fix: refuse oversized run lengths before building runs

---
 alg/dict/runs.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/alg/dict/runs.go b/alg/dict/runs.go
index 5277be4..83ef15e 100644
--- a/alg/dict/runs.go
+++ b/alg/dict/runs.go
@@ -84,14 +84,17 @@ func RunsChain(lc addchain.Chain) (addchain.Chain, error) {
 		return nil, err
 	}
 
+	// Refuse oversized lengths before starting to build runs.
+	for _, l := range lc {
+		if !l.IsUint64() {
+			return nil, errors.New("values in lengths chain are far too large")
+		}
+	}
+
 	c := addchain.New()
 	s := map[uint]uint{} // current largest shift of each run length
 	for _, op := range p {
 		a, b := bigint.MinMax(lc[op.I], lc[op.J])
-		if !a.IsUint64() || !b.IsUint64() {
-			return nil, errors.New("values in lengths chain are far too large")
-		}
-
 		la := uint(a.Uint64())
 		lb := uint(b.Uint64())
 
-- 
2.43.0


From 437403272f20ede3187dc4ee1b54579fab228a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 02/14] fix: window sizes beyond the range of int

---
 alg/dict/dict.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/alg/dict/dict.go b/alg/dict/dict.go
index 08a1fa0..600ae3a 100644
--- a/alg/dict/dict.go
+++ b/alg/dict/dict.go
@@ -85,7 +85,7 @@ func (w FixedWindow) Decompose(x *big.Int) Sum {
 	sum := Sum{}
 	h := x.BitLen()
 	for h > 0 {
-		l := max(h-int(w.K), 0)
+		l := lower(h, w.K)
 		d := bigint.Extract(x, uint(l), uint(h))
 		if bigint.IsNonZero(d) {
 			sum = append(sum, Term{D: d, E: uint(l)})
@@ -120,7 +120,7 @@ func (w SlidingWindow) Decompose(x *big.Int) Sum {
 		}
 
 		// Look down k positions.
-		l := max(h-int(w.K)+1, 0)
+		l := lower(h+1, w.K)
 
 		// Advance to the next 1.
 		for x.Bit(l) == 0 {
@@ -425,10 +425,11 @@ func primitive(sum Sum, c addchain.Chain) (Sum, addchain.Chain, error) {
 	return out, pruned, nil
 }
 
-// max returns the maximum of a and b.
-func max(a, b int) int {
-	if a > b {
-		return a
+// lower returns the low end of a k-bit window with (exclusive) high end h. The
+// window is cut off at zero.
+func lower(h int, k uint) int {
+	if k >= uint(h) {
+		return 0
 	}
-	return b
+	return h - int(k)
 }
-- 
2.43.0


From b1a053bef4c5506ddef8ebc49d0797ca76002520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 03/14] fix: report division by zero in expressions as an error

---
 internal/calc/calc.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/calc/calc.go b/internal/calc/calc.go
index 71eed0c..4892301 100644
--- a/internal/calc/calc.go
+++ b/internal/calc/calc.go
@@ -21,13 +21,14 @@ type operator struct {
 	precedence    int
 	associativity associativity
 	apply         func(*big.Int, *big.Int, *big.Int) *big.Int
+	divides       bool // whether the second operand must be non-zero
 }
 
 // operators supported by the calculator.
 var operators = map[byte]operator{
 	'^': {precedence: 3, associativity: rightassociative, apply: func(z, x, y *big.Int) *big.Int { return z.Exp(x, y, nil) }},
 	'*': {precedence: 3, associativity: leftassociative, apply: (*big.Int).Mul},
-	'/': {precedence: 3, associativity: leftassociative, apply: (*big.Int).Div},
+	'/': {precedence: 3, associativity: leftassociative, apply: (*big.Int).Div, divides: true},
 	'+': {precedence: 2, associativity: leftassociative, apply: (*big.Int).Add},
 	'-': {precedence: 2, associativity: leftassociative, apply: (*big.Int).Sub},
 }
@@ -70,6 +71,10 @@ func (y *yard) apply(op operator) error {
 		return errors.New("too few operands")
 	}
 
+	if op.divides && y.operands[n-1].Sign() == 0 {
+		return errors.New("division by zero")
+	}
+
 	z := new(big.Int)
 	op.apply(z, y.operands[n-2], y.operands[n-1])
 	y.operands = append(y.operands[:n-2], z)
-- 
2.43.0


From 690e7d6fd91c0597b901f931c743926531d923ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 04/14] fix: allocate programs in which an index has several
 names

---
 acc/pass/alloc.go  | 4 ++--
 acc/pass/naming.go | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/acc/pass/alloc.go b/acc/pass/alloc.go
index 812df5a..0e9857c 100644
--- a/acc/pass/alloc.go
+++ b/acc/pass/alloc.go
@@ -24,8 +24,8 @@ type Allocator struct {
 
 // Execute performs temporary variable allocation.
 func (a Allocator) Execute(p *ir.Program) error {
-	// Canonicalize operands, collect unique indexes, and delete all names.
-	if err := Exec(p, Func(CanonicalizeOperands), Func(Indexes), Func(ClearNames)); err != nil {
+	// Delete all names, canonicalize operands, and collect unique indexes.
+	if err := Exec(p, Func(ClearNames), Func(CanonicalizeOperands), Func(Indexes)); err != nil {
 		return err
 	}
 
diff --git a/acc/pass/naming.go b/acc/pass/naming.go
index e417ef1..39f1bbb 100644
--- a/acc/pass/naming.go
+++ b/acc/pass/naming.go
@@ -23,6 +23,14 @@ var (
 
 // ClearNames deletes all operand names.
 func ClearNames(p *ir.Program) error {
+	// Clear every occurrence before canonicalization, which would otherwise
+	// refuse an index that goes by more than one name.
+	for _, i := range p.Instructions {
+		for _, operand := range i.Operands() {
+			operand.Identifier = ""
+		}
+	}
+
 	if err := CanonicalizeOperands(p); err != nil {
 		return err
 	}
-- 
2.43.0


From 28f70992099c13bac8166caac25eb8e00127a7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 05/14] fix: build a script for the one-element chain

---
 acc/build.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/acc/build.go b/acc/build.go
index 38adda3..e7f9e8d 100644
--- a/acc/build.go
+++ b/acc/build.go
@@ -51,6 +51,15 @@ func newbuilder(p *ir.Program) *builder {
 func (b *builder) process() error {
 	insts := b.prog.Instructions
 	n := len(insts)
+
+	// Without instructions the chain is the first element alone.
+	if n == 0 {
+		b.chain.Statements = append(b.chain.Statements, ast.Statement{
+			Expr: ast.Operand(0),
+		})
+		return nil
+	}
+
 	complexity := 0
 	for i := 0; i < n; i++ {
 		complexity++
-- 
2.43.0


From 2e3e1bba5a50912e5e2e3517fba703e5b1c3d63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 06/14] fix: reject chain indexes beyond the range of int

---
 acc/parse/acc.peg                    |  6 +-
 acc/parse/internal/parser/zparser.go | 90 +++++++++++++++-------------
 2 files changed, 52 insertions(+), 44 deletions(-)

diff --git a/acc/parse/acc.peg b/acc/parse/acc.peg
index bd80d7e..ce0b5af 100644
--- a/acc/parse/acc.peg
+++ b/acc/parse/acc.peg
@@ -96,7 +96,11 @@ One <- '1' {
 }
 
 Index <- '[' _ idx:UintLiteral _ ']' {
-    return ast.Operand(idx.(uint)), nil
+    op := ast.Operand(idx.(uint))
+    if op < 0 {
+        return op, errors.New("index out of range")
+    }
+    return op, nil
 }
 
 // Identifiers
diff --git a/acc/parse/internal/parser/zparser.go b/acc/parse/internal/parser/zparser.go
index 0472dae..cc1e964 100644
--- a/acc/parse/internal/parser/zparser.go
+++ b/acc/parse/internal/parser/zparser.go
@@ -564,15 +564,15 @@ var g = &grammar{
 		},
 		{
 			name: "Identifier",
-			pos:  position{line: 104, col: 1, offset: 1807},
+			pos:  position{line: 108, col: 1, offset: 1894},
 			expr: &actionExpr{
-				pos: position{line: 104, col: 15, offset: 1821},
+				pos: position{line: 108, col: 15, offset: 1908},
 				run: (*parser).callonIdentifier1,
 				expr: &seqExpr{
-					pos: position{line: 104, col: 15, offset: 1821},
+					pos: position{line: 108, col: 15, offset: 1908},
 					exprs: []interface{}{
 						&charClassMatcher{
-							pos:        position{line: 104, col: 15, offset: 1821},
+							pos:        position{line: 108, col: 15, offset: 1908},
 							val:        "[a-zA-Z_]",
 							chars:      []rune{'_'},
 							ranges:     []rune{'a', 'z', 'A', 'Z'},
@@ -580,9 +580,9 @@ var g = &grammar{
 							inverted:   false,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 104, col: 25, offset: 1831},
+							pos: position{line: 108, col: 25, offset: 1918},
 							expr: &charClassMatcher{
-								pos:        position{line: 104, col: 25, offset: 1831},
+								pos:        position{line: 108, col: 25, offset: 1918},
 								val:        "[a-zA-Z0-9_]",
 								chars:      []rune{'_'},
 								ranges:     []rune{'a', 'z', 'A', 'Z', '0', '9'},
@@ -596,15 +596,15 @@ var g = &grammar{
 		},
 		{
 			name: "UintLiteral",
-			pos:  position{line: 110, col: 1, offset: 1904},
+			pos:  position{line: 114, col: 1, offset: 1991},
 			expr: &actionExpr{
-				pos: position{line: 110, col: 16, offset: 1919},
+				pos: position{line: 114, col: 16, offset: 2006},
 				run: (*parser).callonUintLiteral1,
 				expr: &labeledExpr{
-					pos:   position{line: 110, col: 16, offset: 1919},
+					pos:   position{line: 114, col: 16, offset: 2006},
 					label: "u64",
 					expr: &ruleRefExpr{
-						pos:  position{line: 110, col: 20, offset: 1923},
+						pos:  position{line: 114, col: 20, offset: 2010},
 						name: "Uint64Literal",
 					},
 				},
@@ -612,23 +612,23 @@ var g = &grammar{
 		},
 		{
 			name: "Uint64Literal",
-			pos:  position{line: 114, col: 1, offset: 1977},
+			pos:  position{line: 118, col: 1, offset: 2064},
 			expr: &actionExpr{
-				pos: position{line: 114, col: 18, offset: 1994},
+				pos: position{line: 118, col: 18, offset: 2081},
 				run: (*parser).callonUint64Literal1,
 				expr: &choiceExpr{
-					pos: position{line: 114, col: 19, offset: 1995},
+					pos: position{line: 118, col: 19, offset: 2082},
 					alternatives: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 114, col: 19, offset: 1995},
+							pos:  position{line: 118, col: 19, offset: 2082},
 							name: "HexUintLiteral",
 						},
 						&ruleRefExpr{
-							pos:  position{line: 114, col: 36, offset: 2012},
+							pos:  position{line: 118, col: 36, offset: 2099},
 							name: "OctalUintLiteral",
 						},
 						&ruleRefExpr{
-							pos:  position{line: 114, col: 55, offset: 2031},
+							pos:  position{line: 118, col: 55, offset: 2118},
 							name: "DecimalUintLiteral",
 						},
 					},
@@ -637,11 +637,11 @@ var g = &grammar{
 		},
 		{
 			name: "DecimalUintLiteral",
-			pos:  position{line: 118, col: 1, offset: 2108},
+			pos:  position{line: 122, col: 1, offset: 2195},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 118, col: 23, offset: 2130},
+				pos: position{line: 122, col: 23, offset: 2217},
 				expr: &charClassMatcher{
-					pos:        position{line: 118, col: 23, offset: 2130},
+					pos:        position{line: 122, col: 23, offset: 2217},
 					val:        "[0-9]",
 					ranges:     []rune{'0', '9'},
 					ignoreCase: false,
@@ -651,20 +651,20 @@ var g = &grammar{
 		},
 		{
 			name: "HexUintLiteral",
-			pos:  position{line: 120, col: 1, offset: 2138},
+			pos:  position{line: 124, col: 1, offset: 2225},
 			expr: &seqExpr{
-				pos: position{line: 120, col: 19, offset: 2156},
+				pos: position{line: 124, col: 19, offset: 2243},
 				exprs: []interface{}{
 					&litMatcher{
-						pos:        position{line: 120, col: 19, offset: 2156},
+						pos:        position{line: 124, col: 19, offset: 2243},
 						val:        "0x",
 						ignoreCase: false,
 						want:       "\"0x\"",
 					},
 					&oneOrMoreExpr{
-						pos: position{line: 120, col: 24, offset: 2161},
+						pos: position{line: 124, col: 24, offset: 2248},
 						expr: &charClassMatcher{
-							pos:        position{line: 120, col: 24, offset: 2161},
+							pos:        position{line: 124, col: 24, offset: 2248},
 							val:        "[0-9a-fA-F]",
 							ranges:     []rune{'0', '9', 'a', 'f', 'A', 'F'},
 							ignoreCase: false,
@@ -676,20 +676,20 @@ var g = &grammar{
 		},
 		{
 			name: "OctalUintLiteral",
-			pos:  position{line: 122, col: 1, offset: 2175},
+			pos:  position{line: 126, col: 1, offset: 2262},
 			expr: &seqExpr{
-				pos: position{line: 122, col: 21, offset: 2195},
+				pos: position{line: 126, col: 21, offset: 2282},
 				exprs: []interface{}{
 					&litMatcher{
-						pos:        position{line: 122, col: 21, offset: 2195},
+						pos:        position{line: 126, col: 21, offset: 2282},
 						val:        "0",
 						ignoreCase: false,
 						want:       "\"0\"",
 					},
 					&oneOrMoreExpr{
-						pos: position{line: 122, col: 25, offset: 2199},
+						pos: position{line: 126, col: 25, offset: 2286},
 						expr: &charClassMatcher{
-							pos:        position{line: 122, col: 25, offset: 2199},
+							pos:        position{line: 126, col: 25, offset: 2286},
 							val:        "[0-7]",
 							ranges:     []rune{'0', '7'},
 							ignoreCase: false,
@@ -701,31 +701,31 @@ var g = &grammar{
 		},
 		{
 			name: "__",
-			pos:  position{line: 126, col: 1, offset: 2229},
+			pos:  position{line: 130, col: 1, offset: 2316},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 126, col: 7, offset: 2235},
+				pos: position{line: 130, col: 7, offset: 2322},
 				expr: &ruleRefExpr{
-					pos:  position{line: 126, col: 7, offset: 2235},
+					pos:  position{line: 130, col: 7, offset: 2322},
 					name: "Whitespace",
 				},
 			},
 		},
 		{
 			name: "_",
-			pos:  position{line: 127, col: 1, offset: 2247},
+			pos:  position{line: 131, col: 1, offset: 2334},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 127, col: 6, offset: 2252},
+				pos: position{line: 131, col: 6, offset: 2339},
 				expr: &ruleRefExpr{
-					pos:  position{line: 127, col: 6, offset: 2252},
+					pos:  position{line: 131, col: 6, offset: 2339},
 					name: "Whitespace",
 				},
 			},
 		},
 		{
 			name: "Whitespace",
-			pos:  position{line: 129, col: 1, offset: 2265},
+			pos:  position{line: 133, col: 1, offset: 2352},
 			expr: &charClassMatcher{
-				pos:        position{line: 129, col: 15, offset: 2279},
+				pos:        position{line: 133, col: 15, offset: 2366},
 				val:        "[ \\t\\r]",
 				chars:      []rune{' ', '\t', '\r'},
 				ignoreCase: false,
@@ -734,9 +734,9 @@ var g = &grammar{
 		},
 		{
 			name: "EOL",
-			pos:  position{line: 130, col: 1, offset: 2287},
+			pos:  position{line: 134, col: 1, offset: 2374},
 			expr: &litMatcher{
-				pos:        position{line: 130, col: 8, offset: 2294},
+				pos:        position{line: 134, col: 8, offset: 2381},
 				val:        "\n",
 				ignoreCase: false,
 				want:       "\"\\n\"",
@@ -744,11 +744,11 @@ var g = &grammar{
 		},
 		{
 			name: "EOF",
-			pos:  position{line: 131, col: 1, offset: 2299},
+			pos:  position{line: 135, col: 1, offset: 2386},
 			expr: &notExpr{
-				pos: position{line: 131, col: 8, offset: 2306},
+				pos: position{line: 135, col: 8, offset: 2393},
 				expr: &anyMatcher{
-					line: 131, col: 9, offset: 2307,
+					line: 135, col: 9, offset: 2394,
 				},
 			},
 		},
@@ -880,7 +880,11 @@ func (p *parser) callonOne1() (interface{}, error) {
 }
 
 func (c *current) onIndex1(idx interface{}) (interface{}, error) {
-	return ast.Operand(idx.(uint)), nil
+	op := ast.Operand(idx.(uint))
+	if op < 0 {
+		return op, errors.New("index out of range")
+	}
+	return op, nil
 }
 
 func (p *parser) callonIndex1() (interface{}, error) {
-- 
2.43.0


From 1a4f011565406d19fb016a01e6d9e4f33c2e6777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 07/14] fix: dbl is an operator only when it is not the start
 of a name

---
 acc/parse/acc.peg                    |   2 +-
 acc/parse/internal/parser/zparser.go | 148 +++++++++++++++------------
 2 files changed, 83 insertions(+), 67 deletions(-)

diff --git a/acc/parse/acc.peg b/acc/parse/acc.peg
index ce0b5af..ec78fb8 100644
--- a/acc/parse/acc.peg
+++ b/acc/parse/acc.peg
@@ -83,7 +83,7 @@ AddOperator <- '+' / "add"
 
 ShiftOperator <- "<<" / "shl"
 
-DoubleOperator <- '2' _ '*' / "dbl"
+DoubleOperator <- '2' _ '*' / "dbl" ![a-zA-Z0-9_]
 
 // Operands
 
diff --git a/acc/parse/internal/parser/zparser.go b/acc/parse/internal/parser/zparser.go
index cc1e964..701f2c5 100644
--- a/acc/parse/internal/parser/zparser.go
+++ b/acc/parse/internal/parser/zparser.go
@@ -469,37 +469,53 @@ var g = &grammar{
 							},
 						},
 					},
-					&litMatcher{
-						pos:        position{line: 86, col: 31, offset: 1575},
-						val:        "dbl",
-						ignoreCase: false,
-						want:       "\"dbl\"",
+					&seqExpr{
+						pos: position{line: 86, col: 31, offset: 1575},
+						exprs: []interface{}{
+							&litMatcher{
+								pos:        position{line: 86, col: 31, offset: 1575},
+								val:        "dbl",
+								ignoreCase: false,
+								want:       "\"dbl\"",
+							},
+							&notExpr{
+								pos: position{line: 86, col: 37, offset: 1581},
+								expr: &charClassMatcher{
+									pos:        position{line: 86, col: 38, offset: 1582},
+									val:        "[a-zA-Z0-9_]",
+									chars:      []rune{'_'},
+									ranges:     []rune{'a', 'z', 'A', 'Z', '0', '9'},
+									ignoreCase: false,
+									inverted:   false,
+								},
+							},
+						},
 					},
 				},
 			},
 		},
 		{
 			name: "Operand",
-			pos:  position{line: 90, col: 1, offset: 1595},
+			pos:  position{line: 90, col: 1, offset: 1609},
 			expr: &actionExpr{
-				pos: position{line: 90, col: 12, offset: 1606},
+				pos: position{line: 90, col: 12, offset: 1620},
 				run: (*parser).callonOperand1,
 				expr: &labeledExpr{
-					pos:   position{line: 90, col: 12, offset: 1606},
+					pos:   position{line: 90, col: 12, offset: 1620},
 					label: "op",
 					expr: &choiceExpr{
-						pos: position{line: 90, col: 17, offset: 1611},
+						pos: position{line: 90, col: 17, offset: 1625},
 						alternatives: []interface{}{
 							&ruleRefExpr{
-								pos:  position{line: 90, col: 17, offset: 1611},
+								pos:  position{line: 90, col: 17, offset: 1625},
 								name: "One",
 							},
 							&ruleRefExpr{
-								pos:  position{line: 90, col: 23, offset: 1617},
+								pos:  position{line: 90, col: 23, offset: 1631},
 								name: "Index",
 							},
 							&ruleRefExpr{
-								pos:  position{line: 90, col: 31, offset: 1625},
+								pos:  position{line: 90, col: 31, offset: 1639},
 								name: "Identifier",
 							},
 						},
@@ -509,12 +525,12 @@ var g = &grammar{
 		},
 		{
 			name: "One",
-			pos:  position{line: 94, col: 1, offset: 1662},
+			pos:  position{line: 94, col: 1, offset: 1676},
 			expr: &actionExpr{
-				pos: position{line: 94, col: 8, offset: 1669},
+				pos: position{line: 94, col: 8, offset: 1683},
 				run: (*parser).callonOne1,
 				expr: &litMatcher{
-					pos:        position{line: 94, col: 8, offset: 1669},
+					pos:        position{line: 94, col: 8, offset: 1683},
 					val:        "1",
 					ignoreCase: false,
 					want:       "\"1\"",
@@ -523,37 +539,37 @@ var g = &grammar{
 		},
 		{
 			name: "Index",
-			pos:  position{line: 98, col: 1, offset: 1709},
+			pos:  position{line: 98, col: 1, offset: 1723},
 			expr: &actionExpr{
-				pos: position{line: 98, col: 10, offset: 1718},
+				pos: position{line: 98, col: 10, offset: 1732},
 				run: (*parser).callonIndex1,
 				expr: &seqExpr{
-					pos: position{line: 98, col: 10, offset: 1718},
+					pos: position{line: 98, col: 10, offset: 1732},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 98, col: 10, offset: 1718},
+							pos:        position{line: 98, col: 10, offset: 1732},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&ruleRefExpr{
-							pos:  position{line: 98, col: 14, offset: 1722},
+							pos:  position{line: 98, col: 14, offset: 1736},
 							name: "_",
 						},
 						&labeledExpr{
-							pos:   position{line: 98, col: 16, offset: 1724},
+							pos:   position{line: 98, col: 16, offset: 1738},
 							label: "idx",
 							expr: &ruleRefExpr{
-								pos:  position{line: 98, col: 20, offset: 1728},
+								pos:  position{line: 98, col: 20, offset: 1742},
 								name: "UintLiteral",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 98, col: 32, offset: 1740},
+							pos:  position{line: 98, col: 32, offset: 1754},
 							name: "_",
 						},
 						&litMatcher{
-							pos:        position{line: 98, col: 34, offset: 1742},
+							pos:        position{line: 98, col: 34, offset: 1756},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -564,15 +580,15 @@ var g = &grammar{
 		},
 		{
 			name: "Identifier",
-			pos:  position{line: 108, col: 1, offset: 1894},
+			pos:  position{line: 108, col: 1, offset: 1908},
 			expr: &actionExpr{
-				pos: position{line: 108, col: 15, offset: 1908},
+				pos: position{line: 108, col: 15, offset: 1922},
 				run: (*parser).callonIdentifier1,
 				expr: &seqExpr{
-					pos: position{line: 108, col: 15, offset: 1908},
+					pos: position{line: 108, col: 15, offset: 1922},
 					exprs: []interface{}{
 						&charClassMatcher{
-							pos:        position{line: 108, col: 15, offset: 1908},
+							pos:        position{line: 108, col: 15, offset: 1922},
 							val:        "[a-zA-Z_]",
 							chars:      []rune{'_'},
 							ranges:     []rune{'a', 'z', 'A', 'Z'},
@@ -580,9 +596,9 @@ var g = &grammar{
 							inverted:   false,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 108, col: 25, offset: 1918},
+							pos: position{line: 108, col: 25, offset: 1932},
 							expr: &charClassMatcher{
-								pos:        position{line: 108, col: 25, offset: 1918},
+								pos:        position{line: 108, col: 25, offset: 1932},
 								val:        "[a-zA-Z0-9_]",
 								chars:      []rune{'_'},
 								ranges:     []rune{'a', 'z', 'A', 'Z', '0', '9'},
@@ -596,15 +612,15 @@ var g = &grammar{
 		},
 		{
 			name: "UintLiteral",
-			pos:  position{line: 114, col: 1, offset: 1991},
+			pos:  position{line: 114, col: 1, offset: 2005},
 			expr: &actionExpr{
-				pos: position{line: 114, col: 16, offset: 2006},
+				pos: position{line: 114, col: 16, offset: 2020},
 				run: (*parser).callonUintLiteral1,
 				expr: &labeledExpr{
-					pos:   position{line: 114, col: 16, offset: 2006},
+					pos:   position{line: 114, col: 16, offset: 2020},
 					label: "u64",
 					expr: &ruleRefExpr{
-						pos:  position{line: 114, col: 20, offset: 2010},
+						pos:  position{line: 114, col: 20, offset: 2024},
 						name: "Uint64Literal",
 					},
 				},
@@ -612,23 +628,23 @@ var g = &grammar{
 		},
 		{
 			name: "Uint64Literal",
-			pos:  position{line: 118, col: 1, offset: 2064},
+			pos:  position{line: 118, col: 1, offset: 2078},
 			expr: &actionExpr{
-				pos: position{line: 118, col: 18, offset: 2081},
+				pos: position{line: 118, col: 18, offset: 2095},
 				run: (*parser).callonUint64Literal1,
 				expr: &choiceExpr{
-					pos: position{line: 118, col: 19, offset: 2082},
+					pos: position{line: 118, col: 19, offset: 2096},
 					alternatives: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 118, col: 19, offset: 2082},
+							pos:  position{line: 118, col: 19, offset: 2096},
 							name: "HexUintLiteral",
 						},
 						&ruleRefExpr{
-							pos:  position{line: 118, col: 36, offset: 2099},
+							pos:  position{line: 118, col: 36, offset: 2113},
 							name: "OctalUintLiteral",
 						},
 						&ruleRefExpr{
-							pos:  position{line: 118, col: 55, offset: 2118},
+							pos:  position{line: 118, col: 55, offset: 2132},
 							name: "DecimalUintLiteral",
 						},
 					},
@@ -637,11 +653,11 @@ var g = &grammar{
 		},
 		{
 			name: "DecimalUintLiteral",
-			pos:  position{line: 122, col: 1, offset: 2195},
+			pos:  position{line: 122, col: 1, offset: 2209},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 122, col: 23, offset: 2217},
+				pos: position{line: 122, col: 23, offset: 2231},
 				expr: &charClassMatcher{
-					pos:        position{line: 122, col: 23, offset: 2217},
+					pos:        position{line: 122, col: 23, offset: 2231},
 					val:        "[0-9]",
 					ranges:     []rune{'0', '9'},
 					ignoreCase: false,
@@ -651,20 +667,20 @@ var g = &grammar{
 		},
 		{
 			name: "HexUintLiteral",
-			pos:  position{line: 124, col: 1, offset: 2225},
+			pos:  position{line: 124, col: 1, offset: 2239},
 			expr: &seqExpr{
-				pos: position{line: 124, col: 19, offset: 2243},
+				pos: position{line: 124, col: 19, offset: 2257},
 				exprs: []interface{}{
 					&litMatcher{
-						pos:        position{line: 124, col: 19, offset: 2243},
+						pos:        position{line: 124, col: 19, offset: 2257},
 						val:        "0x",
 						ignoreCase: false,
 						want:       "\"0x\"",
 					},
 					&oneOrMoreExpr{
-						pos: position{line: 124, col: 24, offset: 2248},
+						pos: position{line: 124, col: 24, offset: 2262},
 						expr: &charClassMatcher{
-							pos:        position{line: 124, col: 24, offset: 2248},
+							pos:        position{line: 124, col: 24, offset: 2262},
 							val:        "[0-9a-fA-F]",
 							ranges:     []rune{'0', '9', 'a', 'f', 'A', 'F'},
 							ignoreCase: false,
@@ -676,20 +692,20 @@ var g = &grammar{
 		},
 		{
 			name: "OctalUintLiteral",
-			pos:  position{line: 126, col: 1, offset: 2262},
+			pos:  position{line: 126, col: 1, offset: 2276},
 			expr: &seqExpr{
-				pos: position{line: 126, col: 21, offset: 2282},
+				pos: position{line: 126, col: 21, offset: 2296},
 				exprs: []interface{}{
 					&litMatcher{
-						pos:        position{line: 126, col: 21, offset: 2282},
+						pos:        position{line: 126, col: 21, offset: 2296},
 						val:        "0",
 						ignoreCase: false,
 						want:       "\"0\"",
 					},
 					&oneOrMoreExpr{
-						pos: position{line: 126, col: 25, offset: 2286},
+						pos: position{line: 126, col: 25, offset: 2300},
 						expr: &charClassMatcher{
-							pos:        position{line: 126, col: 25, offset: 2286},
+							pos:        position{line: 126, col: 25, offset: 2300},
 							val:        "[0-7]",
 							ranges:     []rune{'0', '7'},
 							ignoreCase: false,
@@ -701,31 +717,31 @@ var g = &grammar{
 		},
 		{
 			name: "__",
-			pos:  position{line: 130, col: 1, offset: 2316},
+			pos:  position{line: 130, col: 1, offset: 2330},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 130, col: 7, offset: 2322},
+				pos: position{line: 130, col: 7, offset: 2336},
 				expr: &ruleRefExpr{
-					pos:  position{line: 130, col: 7, offset: 2322},
+					pos:  position{line: 130, col: 7, offset: 2336},
 					name: "Whitespace",
 				},
 			},
 		},
 		{
 			name: "_",
-			pos:  position{line: 131, col: 1, offset: 2334},
+			pos:  position{line: 131, col: 1, offset: 2348},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 131, col: 6, offset: 2339},
+				pos: position{line: 131, col: 6, offset: 2353},
 				expr: &ruleRefExpr{
-					pos:  position{line: 131, col: 6, offset: 2339},
+					pos:  position{line: 131, col: 6, offset: 2353},
 					name: "Whitespace",
 				},
 			},
 		},
 		{
 			name: "Whitespace",
-			pos:  position{line: 133, col: 1, offset: 2352},
+			pos:  position{line: 133, col: 1, offset: 2366},
 			expr: &charClassMatcher{
-				pos:        position{line: 133, col: 15, offset: 2366},
+				pos:        position{line: 133, col: 15, offset: 2380},
 				val:        "[ \\t\\r]",
 				chars:      []rune{' ', '\t', '\r'},
 				ignoreCase: false,
@@ -734,9 +750,9 @@ var g = &grammar{
 		},
 		{
 			name: "EOL",
-			pos:  position{line: 134, col: 1, offset: 2374},
+			pos:  position{line: 134, col: 1, offset: 2388},
 			expr: &litMatcher{
-				pos:        position{line: 134, col: 8, offset: 2381},
+				pos:        position{line: 134, col: 8, offset: 2395},
 				val:        "\n",
 				ignoreCase: false,
 				want:       "\"\\n\"",
@@ -744,11 +760,11 @@ var g = &grammar{
 		},
 		{
 			name: "EOF",
-			pos:  position{line: 135, col: 1, offset: 2386},
+			pos:  position{line: 135, col: 1, offset: 2400},
 			expr: &notExpr{
-				pos: position{line: 135, col: 8, offset: 2393},
+				pos: position{line: 135, col: 8, offset: 2407},
 				expr: &anyMatcher{
-					line: 135, col: 9, offset: 2394,
+					line: 135, col: 9, offset: 2408,
 				},
 			},
 		},
-- 
2.43.0


From 7a1257013cd3f153ee01b86655a9677d0487ebdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 08/14] fix: parenthesise operands as the grammar requires

---
 acc/printer/printer.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/acc/printer/printer.go b/acc/printer/printer.go
index 96e8baa..2eadd9a 100644
--- a/acc/printer/printer.go
+++ b/acc/printer/printer.go
@@ -61,7 +61,7 @@ func (p *printer) node(n interface{}) {
 	case ast.Statement:
 		p.statement(n)
 	case ast.Expr:
-		p.expr(n, nil)
+		p.expr(n, ast.LowestPrec)
 	default:
 		p.SetError(errutil.UnexpectedType(n))
 	}
@@ -73,15 +73,16 @@ func (p *printer) statement(stmt ast.Statement) {
 	} else {
 		p.Printf("return\t\t")
 	}
-	p.expr(stmt.Expr, nil)
+	p.expr(stmt.Expr, ast.LowestPrec)
 	p.NL()
 }
 
-func (p *printer) expr(e, parent ast.Expr) {
-	// Parens required if the precence of this operator is less than its parent.
-	if parent != nil && e.Precedence() < parent.Precedence() {
+func (p *printer) expr(e ast.Expr, prec int) {
+	// Parens required if the precedence of this operator is less than the least
+	// allowed at its position.
+	if e.Precedence() < prec {
 		p.Printf("(")
-		p.expr(e, nil)
+		p.expr(e, ast.LowestPrec)
 		p.Printf(")")
 		return
 	}
@@ -103,18 +104,19 @@ func (p *printer) expr(e, parent ast.Expr) {
 }
 
 func (p *printer) add(a ast.Add) {
-	p.expr(a.X, a)
+	// Addition is left associative.
+	p.expr(a.X, a.Precedence())
 	p.Printf(" + ")
-	p.expr(a.Y, a)
+	p.expr(a.Y, a.Precedence()+1)
 }
 
 func (p *printer) double(d ast.Double) {
 	p.Printf("2*")
-	p.expr(d.X, d)
+	p.expr(d.X, ast.HighestPrec)
 }
 
 func (p *printer) shift(s ast.Shift) {
-	p.expr(s.X, s)
+	p.expr(s.X, ast.HighestPrec)
 	p.Printf(" << %d", s.S)
 }
 
-- 
2.43.0


From 9450c594a949aa13228350506f39857c8eb6e781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 09/14] fix: parse nested expressions in linear time

---
 acc/parse/parse.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/acc/parse/parse.go b/acc/parse/parse.go
index 8523e14..b5ca166 100644
--- a/acc/parse/parse.go
+++ b/acc/parse/parse.go
@@ -11,15 +11,19 @@ import (
 
 //go:generate pigeon -o internal/parser/zparser.go acc.peg
 
+// memoize avoids parsing nested expressions again for every alternative, which
+// takes time exponential in the nesting depth.
+var memoize = parser.Memoize(true)
+
 // File parses filename.
 func File(filename string) (*ast.Chain, error) {
-	return cast(parser.ParseFile(filename))
+	return cast(parser.ParseFile(filename, memoize))
 }
 
 // Reader parses the data from r using filename as information in
 // error messages.
 func Reader(filename string, r io.Reader) (*ast.Chain, error) {
-	return cast(parser.ParseReader(filename, r))
+	return cast(parser.ParseReader(filename, r, memoize))
 }
 
 // String parses s.
-- 
2.43.0


From b424e2f73bae4c36c6c5fb1869d9050338acfe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 10/14] fix: reject shifts by zero

---
 acc/translate.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acc/translate.go b/acc/translate.go
index 91bfcf1..f33ca10 100644
--- a/acc/translate.go
+++ b/acc/translate.go
@@ -1,6 +1,7 @@
 package acc
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/mmcloughlin/addchain/acc/ast"
@@ -105,6 +106,11 @@ func (s *state) double(d ast.Double) (*ir.Operand, error) {
 }
 
 func (s *state) shift(sh ast.Shift) (*ir.Operand, error) {
+	// A shift by zero computes nothing, so has no output.
+	if sh.S == 0 {
+		return nil, errors.New("shift by zero")
+	}
+
 	x, err := s.expr(sh.X)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b5eb0f1b99c1c8e0d1d3e2ec8b84aa4ec1e437b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 11/14] fix: refuse to generate from values that no instruction
 outputs

---
 internal/gen/gen.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index 46a7775..2cee6ee 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -56,9 +56,9 @@ func PrepareData(cfg Config, s *ast.Chain) (*Data, error) {
 		return nil, err
 	}
 
-	// Apply processing passes: temporary variable allocation, and computing the
-	// full addition chain sequence and operations.
-	if err := pass.Exec(p, cfg.Allocator, pass.Func(pass.Eval)); err != nil {
+	// Apply processing passes: validation, temporary variable allocation, and
+	// computing the full addition chain sequence and operations.
+	if err := pass.Exec(p, pass.Validate, cfg.Allocator, pass.Func(pass.Eval)); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 9a510da264e6960fd0692b7ed20f3b95f2980062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 12/14] fix: report programs without instructions when
 allocating variables

---
 acc/pass/alloc.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acc/pass/alloc.go b/acc/pass/alloc.go
index 0e9857c..1500aaf 100644
--- a/acc/pass/alloc.go
+++ b/acc/pass/alloc.go
@@ -1,6 +1,7 @@
 package pass
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/mmcloughlin/addchain/acc/ir"
@@ -24,6 +25,11 @@ type Allocator struct {
 
 // Execute performs temporary variable allocation.
 func (a Allocator) Execute(p *ir.Program) error {
+	// Without instructions there is no output to allocate.
+	if len(p.Instructions) == 0 {
+		return errors.New("no instructions to allocate variables for")
+	}
+
 	// Delete all names, canonicalize operands, and collect unique indexes.
 	if err := Exec(p, Func(ClearNames), Func(CanonicalizeOperands), Func(Indexes)); err != nil {
 		return err
-- 
2.43.0


From 2108d58e098129a8443743d6f824fe559ee5d24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:05 +0000
Subject: [PATCH 13/14] fix: report targets and concurrency limits that are not
 positive

---
 cmd/addchain/search.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/addchain/search.go b/cmd/addchain/search.go
index 434e484..4d5c2a3 100644
--- a/cmd/addchain/search.go
+++ b/cmd/addchain/search.go
@@ -58,6 +58,10 @@ func (cmd *search) Execute(_ context.Context, f *flag.FlagSet, _ ...interface{})
 	}
 	expr := f.Arg(0)
 
+	if cmd.concurrency < 1 {
+		return cmd.UsageError("concurrency must be positive")
+	}
+
 	// Evaluate expression.
 	cmd.Log.Printf("expr: %q", expr)
 
@@ -69,6 +73,10 @@ func (cmd *search) Execute(_ context.Context, f *flag.FlagSet, _ ...interface{})
 	cmd.Log.Printf("hex: %x", n)
 	cmd.Log.Printf("dec: %s", n)
 
+	if n.Sign() <= 0 {
+		return cmd.Fail("target must be positive")
+	}
+
 	// Execute an ensemble of algorithms.
 	ex := exec.NewParallel()
 	if cmd.verbose {
-- 
2.43.0


From 89c7abc740666df4e24f0bfcfc26cd914ab37e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:06 +0000
Subject: [PATCH 14/14] fix: bound the wait for completion by the number of
 algorithms

---
 alg/exec/exec.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/alg/exec/exec.go b/alg/exec/exec.go
index 54935e7..37699e5 100644
--- a/alg/exec/exec.go
+++ b/alg/exec/exec.go
@@ -76,6 +76,11 @@ func (p *Parallel) SetLogger(l *log.Logger) {
 func (p Parallel) Execute(n *big.Int, as []alg.ChainAlgorithm) []Result {
 	rs := make([]Result, len(as))
 
+	// There is no use for more than one slot per algorithm.
+	if p.limit > len(as) {
+		p.limit = len(as)
+	}
+
 	// Use buffered channel to limit concurrency.
 	type token struct{}
 	sem := make(chan token, p.limit)
-- 
2.43.0

