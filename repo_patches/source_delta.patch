From 34547c0691771ea1dcac6b5cc972c432d542709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:22 +0000
Subject: [PATCH 01/42] fix: parser panics on a digit tone after a multi-letter
 syllable

addTone looked up tone.Diacritic by the digit itself, which has no entry:
parsing "hio4" panicked.
---
 ast/nodes.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ast/nodes.go b/ast/nodes.go
index 1c3c4cd..471e906 100644
--- a/ast/nodes.go
+++ b/ast/nodes.go
@@ -131,6 +131,10 @@ func endParen(p Parenthetical, s *Mod, ki Word) *Parenthetical {
 // addTone swaps the first letter of des with its diacritic variant given the tone rune.
 func addTone(des, ton string) string {
 	t, _ := utf8.DecodeRuneInString(ton)
+	if '1' <= t && t <= '7' {
+		// Tones can also be written as the digits 1 through 7.
+		t = rune(`-/V?^\~`[t-'1'])
+	}
 	_, w := utf8.DecodeRuneInString(des)
 	return tone.Diacritic[t][des[:w]][0] + des[w:]
 }
-- 
2.43.0


From 3c61eacef39e7310a0fb54f65e2e26168548bd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:36 +0000
Subject: [PATCH 02/42] fix: results of Parser.Word and errors depend on
 previous calls

Word reset the parse-tree memo instead of the action memo, so two calls
returned trees that shared state. Its errors were those of the full_text
rule at an offset relative to the word, and any error depended on the
fail position and fail trees left by earlier calls on the same parser.
---
 ast/parser.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index db2add7..5f93e7b 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -52,7 +52,7 @@ func NewParser(text string) *Parser {
 
 // Tree returns the full parse tree of the text.
 func (p *Parser) Tree() (*peg.Node, Error) {
-	if err := p.parse(_full_textAccepts, 0); err != nil {
+	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
 		return nil, err
 	}
 	_, t := _full_textNode(p._Parser, 0)
@@ -66,20 +66,20 @@ func (p *Parser) Tree() (*peg.Node, Error) {
 // Word returns the word at the given byte-offset into the text
 // with any trailing whitespace attached and the number of bytes parsed.
 func (p *Parser) Word(offs int) (*Word, int, Error) {
-	if err := p.parse(_wordAccepts, offs); err != nil {
+	if err := p.parse(_wordAccepts, _wordFail, offs); err != nil {
 		return nil, 0, err
 	}
 	pos, t := _wordAction(p._Parser, offs)
 	// Reset so a subsequent call returns a different tree.
 	// This allows the caller to modify the returned tree
 	// without affecting the tree made by subsequent calls.
-	p._Parser.node = make(map[_key]*peg.Node)
+	p._Parser.act = make(map[_key]interface{})
 	return *t, pos - offs, nil
 }
 
 // Text returns the AST of the text.
 func (p *Parser) Text() (*Text, Error) {
-	if err := p.parse(_full_textAccepts, 0); err != nil {
+	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
 		return nil, err
 	}
 	_, txt := _full_textAction(p._Parser, 0)
@@ -90,12 +90,18 @@ func (p *Parser) Text() (*Text, Error) {
 	return txt, nil
 }
 
-func (p *Parser) parse(rule func(*_Parser, int) (int, int), start int) Error {
-	pos, perr := rule(p._Parser, start)
+func (p *Parser) parse(accepts func(*_Parser, int) (int, int), fail func(*_Parser, int, int) (int, *peg.Fail), start int) Error {
+	pos, perr := accepts(p._Parser, start)
 	if pos >= 0 {
 		return nil
 	}
-	_, failTree := _full_textFail(p._Parser, 0, perr)
+	// perr is relative to start.
+	errPos := start + perr
+	// Reset the state left by any previous call,
+	// so the error is only that of the current call.
+	p._Parser.lastFail = errPos
+	p._Parser.fail = make(map[_key]*peg.Fail)
+	_, failTree := fail(p._Parser, start, errPos)
 	return &parseError{
 		fail: failTree,
 		err:  peg.SimpleError(p._Parser.text, failTree),
-- 
2.43.0


From 6e7c23bd702fe5f3ed81c943f2eb8a919cff8d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 03/42] fix: text after invalid UTF-8 or U+FFFD is silently
 dropped

EOF is !., and . does not match a RuneError, so a text was accepted as if
it ended there.
---
 ast/parser.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index 5f93e7b..e6c8065 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -52,7 +52,7 @@ func NewParser(text string) *Parser {
 
 // Tree returns the full parse tree of the text.
 func (p *Parser) Tree() (*peg.Node, Error) {
-	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
+	if err := p.parseFullText(); err != nil {
 		return nil, err
 	}
 	_, t := _full_textNode(p._Parser, 0)
@@ -79,7 +79,7 @@ func (p *Parser) Word(offs int) (*Word, int, Error) {
 
 // Text returns the AST of the text.
 func (p *Parser) Text() (*Text, Error) {
-	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
+	if err := p.parseFullText(); err != nil {
 		return nil, err
 	}
 	_, txt := _full_textAction(p._Parser, 0)
@@ -90,6 +90,24 @@ func (p *Parser) Text() (*Text, Error) {
 	return txt, nil
 }
 
+// parseFullText parses the full text, which must extend to the end of the input.
+// The EOF rule also matches at U+FFFD and at invalid UTF-8, which . does not match,
+// so acceptance alone does not mean that everything was consumed.
+func (p *Parser) parseFullText() Error {
+	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
+		return err
+	}
+	n, _ := _full_textAccepts(p._Parser, 0)
+	if n == len(p._Parser.text) {
+		return nil
+	}
+	failTree := &peg.Fail{Name: "full_text", Kids: []*peg.Fail{{Pos: n, Want: "EOF"}}}
+	return &parseError{
+		fail: failTree,
+		err:  peg.SimpleError(p._Parser.text, failTree),
+	}
+}
+
 func (p *Parser) parse(accepts func(*_Parser, int) (int, int), fail func(*_Parser, int, int) (int, *peg.Fail), start int) Error {
 	pos, perr := accepts(p._Parser, start)
 	if pos >= 0 {
-- 
2.43.0


From 1ef9f4246ae6dfa51b0b8d8d2a9a43744d65c4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:55 +0000
Subject: [PATCH 04/42] fix: Error.ByteOffset takes exponential time

The fail tree is a DAG; "lu? lu? lu? lu? lu? lu? lu? lu? x" already needs
hundreds of millions of steps.
---
 ast/parser.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index e6c8065..1602df0 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -25,17 +25,8 @@ func (err *parseError) Tree() *peg.Fail { return err.fail }
 func (err *parseError) ByteOffset() int { return byteOffset(err.fail) }
 
 func byteOffset(fail *peg.Fail) int {
-	if len(fail.Kids) == 0 {
-		return fail.Pos
-	}
-	max := -1
-	for _, k := range fail.Kids {
-		if o := byteOffset(k); o > max {
-			max = o
-		}
-	}
-	return max
-
+	// The tree shares sub-trees; walking it naively can take exponential time.
+	return peg.LeafFails(fail)[0].Pos
 }
 
 // A Parser parses a given Toaq text.
-- 
2.43.0


From 423588eb89d44b815d0d84621c670db6e4a3469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:10 +0000
Subject: [PATCH 05/42] fix: Predication.End panics if there are no terms and
 no terminator

---
 ast/ast.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 79e9909..47d07f1 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -157,8 +157,14 @@ type Predication struct {
 	NA        *Word
 }
 
-func (n *Predication) Start() int                   { return n.Predicate.Start() }
-func (n *Predication) End() int                     { return end(n.NA, n.Terms) }
+func (n *Predication) Start() int { return n.Predicate.Start() }
+func (n *Predication) End() int {
+	if n.NA == nil && n.Terms == nil {
+		return n.Predicate.End()
+	}
+	return end(n.NA, n.Terms)
+}
+
 func (n Predication) modNode(m *Mod) Node           { return n.mod(m) }
 func (n Predication) modStatement(m *Mod) Statement { return n.mod(m) }
 
-- 
2.43.0


From 17ecc8c3ba9ccbe8ada7d9e0acdd06c813670847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:25 +0000
Subject: [PATCH 06/42] fix: Text.Start and Text.End panic on a text without
 words

---
 ast/ast.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 47d07f1..341789c 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -41,8 +41,19 @@ func (n Text) modNode(m *Mod) Node { n.Discourse = *n.Discourse.mod(m); return &
 // A Discourse is a non-empty sequence of sentences and/or fragments.
 type Discourse []Node
 
-func (n *Discourse) Start() int { return (*n)[0].Start() }
-func (n *Discourse) End() int   { return (*n)[len(*n)-1].End() }
+func (n *Discourse) Start() int {
+	if len(*n) == 0 {
+		return 0
+	}
+	return (*n)[0].Start()
+}
+
+func (n *Discourse) End() int {
+	if len(*n) == 0 {
+		return 0
+	}
+	return (*n)[len(*n)-1].End()
+}
 
 func (n Discourse) modNode(m *Mod) Node { return n.mod(m) }
 
-- 
2.43.0


From 54f5d37580edc5e123674c5de0866977496d2f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:41 +0000
Subject: [PATCH 07/42] fix: space after a parenthetical is moved inside of it

It was attached to the quoted discourse instead of to ki, so writing the
tree out again gave the words in another order.
---
 ast/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index 341789c..8241c68 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -636,7 +636,7 @@ func (n Parenthetical) modNode(m *Mod) Node         { return n.mod(m) }
 func (n Parenthetical) modFragment(m *Mod) Fragment { return n.mod(m) }
 
 func (n Parenthetical) mod(m *Mod) Mod {
-	n.Discourse = *n.Discourse.mod(m)
+	n.KI = *n.KI.mod(m)
 	return &n
 }
 
-- 
2.43.0


From 915365a2cf2a735a4b305e6ac93d9de4f2e10d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:43 +0000
Subject: [PATCH 08/42] fix: a connected argument of a preposition uses its
 left side twice

---
 logic/interp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index 85573fb..5fb8c6c 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -681,7 +681,7 @@ func (interp *interpreter) predicationPreposition(p ast.Predicate, arg0 interfac
 		return &Connection{
 			Connector: connector(arg1.RU),
 			Left:      interp.predicationPreposition(p, arg0, arg1.Left.(ast.Argument)),
-			Right:     interp.predicationPreposition(p, arg0, arg1.Left.(ast.Argument)),
+			Right:     interp.predicationPreposition(p, arg0, arg1.Right.(ast.Argument)),
 			AST:       arg1,
 		}
 	default:
-- 
2.43.0


From af4f3e78d210cf56dd892a139bb83aecc8fac715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:45 +0000
Subject: [PATCH 09/42] fix: the second of two connected arguments loses
 alternatives

Both branches of the first connection modified the same slice of terms, so
"de? ji/ ru suq/ ho/ ru maq/" lost de(S, H).
---
 logic/interp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index 5fb8c6c..367714a 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -1088,8 +1088,9 @@ func goPos(w ast.Word) int {
 	panic("impossible: " + w.T)
 }
 
-// withTerm0 sets ts[0] to t and returns ts.
+// withTerm0 returns a copy of ts with ts[0] set to t.
 func withTerm0(t ast.Term, ts ast.Terms) ast.Terms {
+	ts = append(ast.Terms{}, ts...)
 	ts[0] = t
 	return ts
 }
-- 
2.43.0


From 4d4585e6cd224084079c3b3a3ee57616dc471999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:20 +0000
Subject: [PATCH 10/42] =?UTF-8?q?fix:=20descriptions=20that=20depend=20on?=
 =?UTF-8?q?=20a=20local=20=CE=B9-binding=20are=20lifted=20out=20of=20its?=
 =?UTF-8?q?=20scope?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Only bindings that were lifted to the top-most scope are in scope there.
Explicit ke-bindings, roi-bindings and the binding of the argument whose
relative clause is being interpreted are not.
---
 logic/interp.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 367714a..e5dfc59 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -586,7 +586,7 @@ func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatemen
 		return bindScope(b, st)
 	case ast.Preposition:
 		sub := interp.prenexStatement(args, n, terms[1:])
-		if hasFreeVars(sub) {
+		if interp.hasFreeVars(sub) {
 			return interp.preposition(t, &statementTail{args, n, terms[1:]})
 		}
 		x := interp.newVar()
@@ -609,7 +609,7 @@ func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatemen
 			Arguments: []Argument{a},
 			AST:       t,
 		}
-		if hasFreeVars(sub) {
+		if interp.hasFreeVars(sub) {
 			b.Quantifier = All
 			return bindScope(b, interp.adverb(t, a))
 		}
@@ -824,7 +824,7 @@ func (interp *interpreter) predicateArgument(n *ast.PredicateArgument) (*Binding
 	}
 
 	if b.Quantifier == The {
-		if hasFreeVars(b) {
+		if interp.hasFreeVars(b) {
 			b.Quantifier = All
 			return b, a
 		}
@@ -1096,15 +1096,19 @@ func withTerm0(t ast.Term, ts ast.Terms) ast.Terms {
 }
 
 // hasFreeVars returns whether a logic-sub-tree has un-bound variables.
-func hasFreeVars(n Node) bool {
+// The variables of bindings lifted to the top-most scope are not free.
+func (interp *interpreter) hasFreeVars(n Node) bool {
 	free := false
 	binds := make(map[*Binding]bool)
+	for _, b := range interp.theScope {
+		binds[b] = true
+	}
 	n.Visit(func(n Node) {
 		switch n := n.(type) {
 		case *Binding:
 			binds[n] = true
 		case *Variable:
-			if n.Def != nil && n.Def.Quantifier != The && !binds[n.Def] {
+			if n.Def != nil && !binds[n.Def] {
 				free = true
 			}
 		}
-- 
2.43.0


From f3155a9e48a0dd9961d37b066c7c4842a7874285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:24 +0000
Subject: [PATCH 11/42] fix: variables bound inside of or above a hi-question
 become unbound
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

clearHiFreeVarDefs cleared every variable that was not a do-variable:
"de? hi po/ ji/" became [ιX0 : ji(X4)] [¿X2 : raq(X3, X4)] de(X2).
---
 logic/interp.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index e5dfc59..21e554c 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -182,9 +182,23 @@ func (interp *interpreter) subordinate(f func() Statement) Statement {
 // and assigns a new, unique number
 // to all Variables over which the hi-binding was lifted.
 func (interp *interpreter) clearHiFreeVarDefs(scope []varScope, hi *Binding) {
+	// The variables of bindings inside of the hi-binding itself,
+	// of those lifted to the top-most scope, and of those referred to by hoa
+	// remain in scope.
+	binds := make(map[*Binding]bool)
+	for _, b := range interp.theScope {
+		binds[b] = true
+	}
+	for _, b := range interp.hoaScope {
+		binds[b] = true
+	}
 	hi.Visit(func(n Node) {
+		if b, ok := n.(*Binding); ok {
+			binds[b] = true
+			return
+		}
 		v, ok := n.(*Variable)
-		if !ok {
+		if !ok || binds[v.Def] {
 			return
 		}
 		for _, s := range scope {
-- 
2.43.0


From 295cd5d3174d4ade1cc56dc56b8ed12d6ac1749a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:01 +0000
Subject: [PATCH 12/42] fix: a lifted description is reused where its unbound
 variable is bound

In "de? to ru ji/ to sa do/ po/ do/" the second alternative used the
description lifted by the first one, where do/ is unbound.
---
 logic/interp.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index 21e554c..b8d0d4d 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -811,7 +811,7 @@ func (interp *interpreter) roiRight(x *Variable, left Argument, right ast.Argume
 }
 
 func (interp *interpreter) predicateArgument(n *ast.PredicateArgument) (*Binding, Argument) {
-	if b, ok := interp.liftedScope[n]; ok {
+	if b, ok := interp.liftedScope[n]; ok && !interp.rebinds(b) {
 		// This was a ι- or hi-quantified predicate
 		// that already had its scope lifted
 		// by a previous conditional branch.
@@ -863,6 +863,34 @@ func (interp *interpreter) predicateArgument(n *ast.PredicateArgument) (*Binding
 	return b, a
 }
 
+// rebinds returns whether an un-bound variable of a lifted ι-binding
+// is bound in the current conditional branch.
+func (interp *interpreter) rebinds(lifted *Binding) bool {
+	rebinds := false
+	if lifted.Quantifier != The {
+		return false
+	}
+	lifted.Visit(func(n Node) {
+		v, ok := n.(*Variable)
+		if !ok || v.Def != nil {
+			return
+		}
+		var pred ast.Predicate
+		switch n := v.AST.(type) {
+		case *ast.PredicateArgument:
+			pred = n.Predicate
+		case *ast.WordPredicate:
+			pred = n
+		}
+		if _, s, ok := isVariablePredicate(pred); ok {
+			if _, def := interp.lookupVar(s); def != nil {
+				rebinds = true
+			}
+		}
+	})
+	return rebinds
+}
+
 func (interp *interpreter) varArgument(n *ast.PredicateArgument) (*Binding, Argument) {
 	_, s, ok := isVariablePredicate(n.Predicate)
 	if !ok {
-- 
2.43.0


From 8633660bc9a4f769d583e6367a067ad0ddf58a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:03 +0000
Subject: [PATCH 13/42] fix: a hi-question in a clause that is interpreted
 twice is bound only once

---
 logic/interp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/logic/interp.go b/logic/interp.go
index b8d0d4d..277d1eb 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -174,6 +174,9 @@ func (interp *interpreter) subordinate(f func() Statement) Statement {
 		scope = append(scope, varScope{"", hi})
 		interp.clearHiFreeVarDefs(scope, hi)
 		st = bindScope(hi, st)
+		// It is not in scope outside of this statement,
+		// nor if this statement is interpreted again in another branch.
+		delete(interp.liftedScope, hi.AST.(ast.Argument))
 	}
 	return st
 }
-- 
2.43.0


From 99d7d7032ea461c6fefa458942bb10147cef9708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:35 +0000
Subject: [PATCH 14/42] fix: an abstraction with a gap in its arguments loses
 an argument

"go ji/ pa lu? mai? hoa/" substituted the missing first argument and
dropped ji.
---
 logic/simplify.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/logic/simplify.go b/logic/simplify.go
index 514b385..1bd23ba 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -209,10 +209,10 @@ func swap(s *state, n *Predication, swap *Swap) Statement {
 }
 
 func lambdaSub(s *state, n *Predication, pred *Abstraction) Statement {
-	var nargs int
+	nargs := len(n.Arguments)
 	for _, a := range n.Arguments {
-		if a != nil {
-			nargs++
+		if a == nil {
+			return nil
 		}
 	}
 	var nlambda int
-- 
2.43.0


From fcda640aacc9be33ae5808a733980001a9149035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:37 +0000
Subject: [PATCH 15/42] fix: a variable used in a serial predicate is
 substituted away

Its binding was removed while the predicate still refers to it.
---
 logic/simplify.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/logic/simplify.go b/logic/simplify.go
index 1bd23ba..d13b527 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -115,15 +115,24 @@ func newState(n Statement) *state {
 		if !ok {
 			return
 		}
-		v, ok := p.Predicate.(*Variable)
-		if !ok {
-			return
-		}
-		s.predVars[v.N] = true
+		s.addPredVars(p.Predicate)
 	})
 	return s
 }
 
+// addPredVars adds all variables that are part of a predicate.
+func (s *state) addPredVars(p Predicate) {
+	switch p := p.(type) {
+	case *Variable:
+		s.predVars[p.N] = true
+	case *Serial:
+		s.addPredVars(p.Left)
+		s.addPredVars(p.Right)
+	case *Swap:
+		s.addPredVars(p.Predicate)
+	}
+}
+
 func (n *Binding) simplifyStatement(s *state) Statement {
 	if n.Restriction != nil {
 		n.Restriction = n.Restriction.simplifyStatement(s)
-- 
2.43.0


From d9f2e0a6b30a264dfbb6bc83250f495c2ae19bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:39 +0000
Subject: [PATCH 16/42] fix: interpreting a clause connected to an unmarked
 statement panics

"de? jai^ na ru bu? meo?" and "de? ji/ jaiV na ru bu? meo?" are
grammatical, but failed a type assertion.
---
 logic/interp.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 277d1eb..0ff268f 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -406,12 +406,19 @@ func (interp *interpreter) predicate(n ast.Predicate) interface{} {
 	// but it's possible as an intermediate state during interpretation.
 	// Here, we reconcile it by converting to {abstraction}(·) form.
 	case *ast.CoPContent:
-		return &predConnection{
-			con:   connector(n.RU),
-			left:  interp.predicate(n.Left.(ast.Predicate)),
-			right: interp.predicate(n.Right.(ast.Predicate)),
-			AST:   n,
-		}
+		con := &predConnection{
+			con:  connector(n.RU),
+			left: interp.predicate(n.Left.(ast.Predicate)),
+			AST:  n,
+		}
+		if r, ok := n.Right.(ast.Predicate); ok {
+			con.right = interp.predicate(r)
+		} else {
+			// Only the left side needs to be marked as a content clause.
+			sub := interp.subordinateStatement(n.Right.(ast.Statement))
+			con.right = interp.makeContentPred(n.Right, sub)
+		}
+		return con
 	case *ast.LUContent:
 		sub := interp.subordinateStatement(n.Statement)
 		return interp.makeContentPred(n, sub)
@@ -996,12 +1003,18 @@ func (interp *interpreter) relativeClause(b *Binding, n ast.Relative) Statement
 	case *ast.LURelative:
 		return interp.subordinateStatement(n.Statement)
 	case *ast.CoPRelative:
-		return &Connection{
+		con := &Connection{
 			Connector: connector(n.RU),
 			Left:      interp.relativeClause(nil, n.Left.(ast.Relative)),
-			Right:     interp.relativeClause(nil, n.Right.(ast.Relative)),
 			AST:       n,
 		}
+		if r, ok := n.Right.(ast.Relative); ok {
+			con.Right = interp.relativeClause(nil, r)
+		} else {
+			// Only the left side needs to be marked as a relative clause.
+			con.Right = interp.subordinateStatement(n.Right.(ast.Statement))
+		}
+		return con
 	default:
 		panic(fmt.Sprintf("unknown relative clause type %T", n))
 	}
-- 
2.43.0


From 4a5275e61eb761879d7cd618b7035872a0f8a33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:40 +0000
Subject: [PATCH 17/42] fix: the server reports a run-time error in the
 interpreter as a fragment

---
 server/server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/server.go b/server/server.go
index bf6a6b7..3a4746a 100644
--- a/server/server.go
+++ b/server/server.go
@@ -2,7 +2,7 @@ package main
 
 import (
 	"encoding/json"
-	"errors"
+	"fmt"
 	"html/template"
 	"io/ioutil"
 	"net/http"
@@ -86,8 +86,8 @@ func rootHandler(w http.ResponseWriter, req *http.Request) {
 // on some things that are unimplemented.
 func safeInterp(text *ast.Text) (st logic.Statement, err error) {
 	defer func() {
-		if str, ok := recover().(string); ok {
-			err = errors.New("bug: " + str)
+		if r := recover(); r != nil {
+			err = fmt.Errorf("bug: %v", r)
 		}
 	}()
 	return logic.Interpret(text), nil
-- 
2.43.0


From 1b8a235977d333ca777b30bb843f15b4b6ccefa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:42 +0000
Subject: [PATCH 18/42] fix: the bot dies on texts that the interpreter does
 not support

---
 bot/bot.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/bot/bot.go b/bot/bot.go
index 2bc85ea..ed9e6f3 100644
--- a/bot/bot.go
+++ b/bot/bot.go
@@ -80,15 +80,29 @@ func parse(input string) string {
 		parse += "\n"
 	}
 	var math string
-	stmt := logic.Interpret(text)
-	if stmt == nil {
+	switch stmt, err := safeInterp(text); {
+	case err != nil:
+		math = err.Error()
+	case stmt == nil:
 		math = "fragment"
-	} else {
+	default:
 		math = logic.PrettyString(stmt)
 	}
 	return parse + math
 }
 
+// safeInterp calls the interpreter and recovers any panics.
+// The interpreter should not panic, but currently it does
+// on some things that are unimplemented.
+func safeInterp(text *ast.Text) (st logic.Statement, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("bug: %v", r)
+		}
+	}()
+	return logic.Interpret(text), nil
+}
+
 func fixBridgeMessage(msg *chat.Message) {
 	if msg.From == nil ||
 		msg.From.Nick != "ToaqBridgeBot" ||
-- 
2.43.0


From 1533300d363d4af8520ab48533541a999f7b698e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:44 +0000
Subject: [PATCH 19/42] fix: loading the dictionary panics on replies without
 an error or data

---
 dict/dict.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dict/dict.go b/dict/dict.go
index 25e3946..68fcc4e 100644
--- a/dict/dict.go
+++ b/dict/dict.go
@@ -41,8 +41,14 @@ func Load(url string, query string) (map[string]Word, error) {
 		return nil, err
 	}
 	if !response.Success {
+		if response.Error == nil {
+			return nil, fmt.Errorf("Toadua returned an unknown error")
+		}
 		return nil, fmt.Errorf("Toadua returned error: %s", *response.Error)
 	}
+	if response.Entries == nil {
+		return nil, fmt.Errorf("Toadua returned no data")
+	}
 	entries := *response.Entries
 	ws := make(map[string]Word)
 	for _, e := range entries {
-- 
2.43.0


From f8e2818443016e6f0787d7f6a63f41ebf9d9363d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:00 +0000
Subject: [PATCH 20/42] fix: ToASCII puts the tone of a syllable before its
 capital Q

---
 tone/tone.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tone/tone.go b/tone/tone.go
index ce1893b..add95ae 100644
--- a/tone/tone.go
+++ b/tone/tone.go
@@ -160,7 +160,7 @@ func ToASCII(txt string) string {
 			continue
 		}
 		if t != None {
-			if !strings.ContainsRune(vowels, r) && r != 'q' {
+			if !strings.ContainsRune(vowels, r) && r != 'q' && r != 'Q' {
 				s.WriteRune(t)
 				t = None
 			}
-- 
2.43.0


From 00ad494af1511baa2ff38719b7235696a0aa10a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:16 +0000
Subject: [PATCH 21/42] fix: upper-case form in the table of lower-case
 diacritics

---
 tone/tone.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tone/tone.go b/tone/tone.go
index add95ae..f8bb1a6 100644
--- a/tone/tone.go
+++ b/tone/tone.go
@@ -40,7 +40,7 @@ var (
 			"u": {"ǔ", "ŭ"},
 			"U": {"Ǔ", "Ŭ"},
 			"i": {"ǐ", "ĭ"},
-			"ı": {"ǐ", "Ĭ"},
+			"ı": {"ǐ", "ĭ"},
 			"I": {"Ǐ", "Ĭ"},
 			"o": {"ǒ", "ŏ"},
 			"O": {"Ǒ", "Ŏ"},
-- 
2.43.0


From 05dab46f1a2e1e61394eb0daf26cfd19e5288a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:18 +0000
Subject: [PATCH 22/42] fix: Do is not recognized as a variable if it begins
 with a capital

---
 logic/interp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index 0ff268f..975cde9 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -1220,7 +1220,7 @@ var oLetters, oTones = func() ([]rune, []rune) {
 // If the text does not begin with "do" in any tone,
 // then false is returned.
 func splitVar(txt string) (rune, string, bool) {
-	if len(txt) < 1 || txt[0] != 'd' || txt[0] == 'D' {
+	if len(txt) < 1 || txt[0] != 'd' && txt[0] != 'D' {
 		return tone.None, "", false
 	}
 	r, w := utf8.DecodeRuneInString(txt[1:])
-- 
2.43.0


From 752940d4e63ca16bc541c8c7ba6cdff86737e9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:20 +0000
Subject: [PATCH 23/42] fix: variables in shared sub-trees are numbered twice

---
 logic/simplify.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/logic/simplify.go b/logic/simplify.go
index d13b527..effe1c3 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -11,7 +11,13 @@ func simplify(n Statement) Statement {
 
 func sequenceVarNums(n Statement) {
 	var i int
+	seen := make(map[Node]bool)
 	n.Visit(func(n Node) {
+		if seen[n] {
+			// Alternatives and substitutions can share sub-trees.
+			return
+		}
+		seen[n] = true
 		switch n := n.(type) {
 		case *Binding:
 			n.N = i
-- 
2.43.0


From fe95eb2458fea499df0a396b47ad893aec2f4517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:05 +0000
Subject: [PATCH 24/42] fix: formulas with an unused quantified variable print
 without variable names
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

"sa do/ bi gi? sa poq/" printed as ∃X0 [∃X1 : poq(X1)] gi(X1) with no
final period, as if it was only a part of a formula.
---
 logic/string.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/string.go b/logic/string.go
index 218228e..2a227a8 100644
--- a/logic/string.go
+++ b/logic/string.go
@@ -113,6 +113,10 @@ func print(pr *printer, n Node) error {
 	max := -1
 	n.Visit(func(n Node) {
 		v, ok := n.(*Variable)
+		if b, isBinding := n.(*Binding); isBinding {
+			// The variable of a binding may be otherwise unused.
+			v, ok = &Variable{N: b.N, Def: b}, true
+		}
 		if !ok || seen[v.N] {
 			return
 		}
-- 
2.43.0


From a5451e7d968f5203c34798d14fc9bc9fcd6c11d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:19 +0000
Subject: [PATCH 25/42] fix: toaq.peg lists diaeresis spellings that the parser
 does not accept

---
 ast/toaq.peg | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ast/toaq.peg b/ast/toaq.peg
index a9a9ffa..c0878f2 100644
--- a/ast/toaq.peg
+++ b/ast/toaq.peg
@@ -183,14 +183,13 @@ compound_tone <- [\-1]
 é <- [éÉ]/e (acute_combiner/arg_tone)
 acute_combiner "◌́" <- "\u0301"
 arg_tone <- [/2]
-ǎ <- [ǎǍăĂäÄ]/a (caron_combiner/breve_combiner/diaeresis_combiner/relative_tone)
-ǔ <- [ǔǓŭŬüÜ]/u (caron_combiner/breve_combiner/diaeresis_combiner/relative_tone)
-ǐ <- [ǐǏĭĬïÏ]/i (caron_combiner/breve_combiner/diaeresis_combiner/relative_tone)
-ǒ <- [ǒǑŏŎöÖ]/o (caron_combiner/breve_combiner/diaeresis_combiner/relative_tone)
-ě <- [ěĚĕĔëË]/e (caron_combiner/breve_combiner/diaeresis_combiner/relative_tone)
+ǎ <- [ǎǍăĂ]/a (caron_combiner/breve_combiner/relative_tone)
+ǔ <- [ǔǓŭŬ]/u (caron_combiner/breve_combiner/relative_tone)
+ǐ <- [ǐǏĭĬ]/i (caron_combiner/breve_combiner/relative_tone)
+ǒ <- [ǒǑŏŎ]/o (caron_combiner/breve_combiner/relative_tone)
+ě <- [ěĚĕĔ]/e (caron_combiner/breve_combiner/relative_tone)
 caron_combiner "◌̌" <- "\u030c"
 breve_combiner "◌̆" <- "\u0306"
-diaeresis_combiner "◌̈" <- "\u0308"
 relative_tone <- [V3]
 ả <- [ảẢ]/a (hook_combiner/verb_tone)
 ủ <- [ủỦ]/u (hook_combiner/verb_tone)
-- 
2.43.0


From 6ed4f37258d9abf22d6784f0b9ad1ce95326bdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:33 +0000
Subject: [PATCH 26/42] fix: Tone returns the tone of a later syllable if the
 first has none

---
 tone/tone.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/tone/tone.go b/tone/tone.go
index f8bb1a6..e33baef 100644
--- a/tone/tone.go
+++ b/tone/tone.go
@@ -216,10 +216,18 @@ func WithTone(str string, t rune) string {
 
 // Tone returns the tone of first syllable of the string.
 func Tone(s string) rune {
-	ascii := ToASCII(s)
-	i := strings.IndexAny(ascii, toneNameRunes)
-	if i < 0 {
-		return None
+	// The first syllable ends at its tone marker
+	// or at the first consonant other than q that follows a vowel.
+	vowel := false
+	for _, r := range ToASCII(s) {
+		switch {
+		case strings.ContainsRune(toneNameRunes, r):
+			return r
+		case strings.ContainsRune(vowels, r):
+			vowel = true
+		case vowel && r != 'q' && r != 'Q':
+			return None
+		}
 	}
-	return rune(ascii[i])
+	return None
 }
-- 
2.43.0


From 29f31ff265381c9a44cf699c45d1ddc31296cdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:20 +0000
Subject: [PATCH 27/42] fix: Visit visits the absent terms of a predication
 that has none

---
 ast/visit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/visit.go b/ast/visit.go
index 435f0a3..444212c 100644
--- a/ast/visit.go
+++ b/ast/visit.go
@@ -33,7 +33,7 @@ func Visit(n Node, v Visitor) {
 	if n == nil {
 		return
 	}
-	if v := reflect.ValueOf(n); v.Kind() == reflect.Ptr && v.IsNil() {
+	if v := reflect.ValueOf(n); (v.Kind() == reflect.Ptr || v.Kind() == reflect.Slice) && v.IsNil() {
 		return
 	}
 	if v = v.Visit(n); v == nil {
-- 
2.43.0


From c006d36cfc6e1f164122465ce45f623a8d539f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:45 +0000
Subject: [PATCH 28/42] fix: Equal panics on the CoP and LUPhrase nodes that
 Visit visits

---
 ast/equal.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ast/equal.go b/ast/equal.go
index 4e36931..01b2be0 100644
--- a/ast/equal.go
+++ b/ast/equal.go
@@ -185,6 +185,14 @@ func Equal(a, b Node) bool {
 		b, ok := b.(*Space)
 		return ok && wordEqual((*Word)(a), (*Word)(b))
 
+	case *CoP:
+		b, ok := b.(*CoP)
+		return ok && copEqual(a, b)
+
+	case *LUPhrase:
+		b, ok := b.(*LUPhrase)
+		return ok && wordEqual(&a.LU, &b.LU) && Equal(a.Statement, b.Statement)
+
 	case *Word:
 		b, ok := b.(*Word)
 		return ok && wordEqual(a, b)
-- 
2.43.0


From 562c6d6186bceb9278155313ee3649a1d3d1d3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:21 +0000
Subject: [PATCH 29/42] fix: precomposed letters with breve are kept while a
 combining breve becomes a caron

---
 ast/toaq.go    | 1409 +++++++++++++++++++++++++++---------------------
 ast/toaq.peggy |   10 +-
 2 files changed, 792 insertions(+), 627 deletions(-)

diff --git a/ast/toaq.go b/ast/toaq.go
index 1a0a4d6..8403967 100644
--- a/ast/toaq.go
+++ b/ast/toaq.go
@@ -39870,21 +39870,27 @@ fail:
 }
 
 func _ǎAccepts(parser *_Parser, start int) (deltaPos, deltaErr int) {
-	var labels [1]string
+	var labels [2]string
 	use(labels)
 	if dp, de, ok := _memo(parser, _ǎ, start); ok {
 		return dp, de
 	}
 	pos, perr := start, -1
-	// [ǎǍăĂ]/l:a (caron_combiner/breve_combiner/relative_tone) {…}
+	// b:[ǎǍăĂ] {…}/l:a (caron_combiner/breve_combiner/relative_tone) {…}
 	{
 		pos3 := pos
-		// [ǎǍăĂ]
-		if r, w := _next(parser, pos); r != 'ǎ' && r != 'Ǎ' && r != 'ă' && r != 'Ă' {
-			perr = _max(perr, pos)
-			goto fail4
-		} else {
-			pos += w
+		// action
+		// b:[ǎǍăĂ]
+		{
+			pos5 := pos
+			// [ǎǍăĂ]
+			if r, w := _next(parser, pos); r != 'ǎ' && r != 'Ǎ' && r != 'ă' && r != 'Ă' {
+				perr = _max(perr, pos)
+				goto fail4
+			} else {
+				pos += w
+			}
+			labels[0] = parser.text[pos5:pos]
 		}
 		goto ok0
 	fail4:
@@ -39893,43 +39899,43 @@ func _ǎAccepts(parser *_Parser, start int) (deltaPos, deltaErr int) {
 		// l:a (caron_combiner/breve_combiner/relative_tone)
 		// l:a
 		{
-			pos7 := pos
+			pos8 := pos
 			// a
 			if !_accept(parser, _aAccepts, &pos, &perr) {
-				goto fail5
+				goto fail6
 			}
-			labels[0] = parser.text[pos7:pos]
+			labels[1] = parser.text[pos8:pos]
 		}
 		// (caron_combiner/breve_combiner/relative_tone)
 		// caron_combiner/breve_combiner/relative_tone
 		{
-			pos11 := pos
+			pos12 := pos
 			// caron_combiner
 			if !_accept(parser, _caron_combinerAccepts, &pos, &perr) {
-				goto fail12
+				goto fail13
 			}
-			goto ok8
-		fail12:
-			pos = pos11
+			goto ok9
+		fail13:
+			pos = pos12
 			// breve_combiner
 			if !_accept(parser, _breve_combinerAccepts, &pos, &perr) {
-				goto fail13
+				goto fail14
 			}
-			goto ok8
-		fail13:
-			pos = pos11
+			goto ok9
+		fail14:
+			pos = pos12
 			// relative_tone
 			if !_accept(parser, _relative_toneAccepts, &pos, &perr) {
-				goto fail14
+				goto fail15
 			}
-			goto ok8
-		fail14:
-			pos = pos11
-			goto fail5
-		ok8:
+			goto ok9
+		fail15:
+			pos = pos12
+			goto fail6
+		ok9:
 		}
 		goto ok0
-	fail5:
+	fail6:
 		pos = pos3
 		goto fail
 	ok0:
@@ -39940,7 +39946,7 @@ fail:
 }
 
 func _ǎNode(parser *_Parser, start int) (int, *peg.Node) {
-	var labels [1]string
+	var labels [2]string
 	use(labels)
 	dp := parser.deltaPos[start][_ǎ]
 	if dp < 0 {
@@ -39953,16 +39959,22 @@ func _ǎNode(parser *_Parser, start int) (int, *peg.Node) {
 	}
 	pos := start
 	node = &peg.Node{Name: "ǎ"}
-	// [ǎǍăĂ]/l:a (caron_combiner/breve_combiner/relative_tone) {…}
+	// b:[ǎǍăĂ] {…}/l:a (caron_combiner/breve_combiner/relative_tone) {…}
 	{
 		pos3 := pos
 		nkids1 := len(node.Kids)
-		// [ǎǍăĂ]
-		if r, w := _next(parser, pos); r != 'ǎ' && r != 'Ǎ' && r != 'ă' && r != 'Ă' {
-			goto fail4
-		} else {
-			node.Kids = append(node.Kids, _leaf(parser, pos, pos+w))
-			pos += w
+		// action
+		// b:[ǎǍăĂ]
+		{
+			pos5 := pos
+			// [ǎǍăĂ]
+			if r, w := _next(parser, pos); r != 'ǎ' && r != 'Ǎ' && r != 'ă' && r != 'Ă' {
+				goto fail4
+			} else {
+				node.Kids = append(node.Kids, _leaf(parser, pos, pos+w))
+				pos += w
+			}
+			labels[0] = parser.text[pos5:pos]
 		}
 		goto ok0
 	fail4:
@@ -39972,53 +39984,53 @@ func _ǎNode(parser *_Parser, start int) (int, *peg.Node) {
 		// l:a (caron_combiner/breve_combiner/relative_tone)
 		// l:a
 		{
-			pos7 := pos
+			pos8 := pos
 			// a
 			if !_node(parser, _aNode, node, &pos) {
-				goto fail5
+				goto fail6
 			}
-			labels[0] = parser.text[pos7:pos]
+			labels[1] = parser.text[pos8:pos]
 		}
 		// (caron_combiner/breve_combiner/relative_tone)
 		{
-			nkids8 := len(node.Kids)
-			pos09 := pos
+			nkids9 := len(node.Kids)
+			pos010 := pos
 			// caron_combiner/breve_combiner/relative_tone
 			{
-				pos13 := pos
-				nkids11 := len(node.Kids)
+				pos14 := pos
+				nkids12 := len(node.Kids)
 				// caron_combiner
 				if !_node(parser, _caron_combinerNode, node, &pos) {
-					goto fail14
+					goto fail15
 				}
-				goto ok10
-			fail14:
-				node.Kids = node.Kids[:nkids11]
-				pos = pos13
+				goto ok11
+			fail15:
+				node.Kids = node.Kids[:nkids12]
+				pos = pos14
 				// breve_combiner
 				if !_node(parser, _breve_combinerNode, node, &pos) {
-					goto fail15
+					goto fail16
 				}
-				goto ok10
-			fail15:
-				node.Kids = node.Kids[:nkids11]
-				pos = pos13
+				goto ok11
+			fail16:
+				node.Kids = node.Kids[:nkids12]
+				pos = pos14
 				// relative_tone
 				if !_node(parser, _relative_toneNode, node, &pos) {
-					goto fail16
+					goto fail17
 				}
-				goto ok10
-			fail16:
-				node.Kids = node.Kids[:nkids11]
-				pos = pos13
-				goto fail5
-			ok10:
+				goto ok11
+			fail17:
+				node.Kids = node.Kids[:nkids12]
+				pos = pos14
+				goto fail6
+			ok11:
 			}
-			sub := _sub(parser, pos09, pos, node.Kids[nkids8:])
-			node.Kids = append(node.Kids[:nkids8], sub)
+			sub := _sub(parser, pos010, pos, node.Kids[nkids9:])
+			node.Kids = append(node.Kids[:nkids9], sub)
 		}
 		goto ok0
-	fail5:
+	fail6:
 		node.Kids = node.Kids[:nkids1]
 		pos = pos3
 		goto fail
@@ -40032,7 +40044,7 @@ fail:
 }
 
 func _ǎFail(parser *_Parser, start, errPos int) (int, *peg.Fail) {
-	var labels [1]string
+	var labels [2]string
 	use(labels)
 	pos, failure := _failMemo(parser, _ǎ, start, errPos)
 	if failure != nil {
@@ -40043,20 +40055,26 @@ func _ǎFail(parser *_Parser, start, errPos int) (int, *peg.Fail) {
 		Pos:  int(start),
 	}
 	key := _key{start: start, rule: _ǎ}
-	// [ǎǍăĂ]/l:a (caron_combiner/breve_combiner/relative_tone) {…}
+	// b:[ǎǍăĂ] {…}/l:a (caron_combiner/breve_combiner/relative_tone) {…}
 	{
 		pos3 := pos
-		// [ǎǍăĂ]
-		if r, w := _next(parser, pos); r != 'ǎ' && r != 'Ǎ' && r != 'ă' && r != 'Ă' {
-			if pos >= errPos {
-				failure.Kids = append(failure.Kids, &peg.Fail{
-					Pos:  int(pos),
-					Want: "[ǎǍăĂ]",
-				})
+		// action
+		// b:[ǎǍăĂ]
+		{
+			pos5 := pos
+			// [ǎǍăĂ]
+			if r, w := _next(parser, pos); r != 'ǎ' && r != 'Ǎ' && r != 'ă' && r != 'Ă' {
+				if pos >= errPos {
+					failure.Kids = append(failure.Kids, &peg.Fail{
+						Pos:  int(pos),
+						Want: "[ǎǍăĂ]",
+					})
+				}
+				goto fail4
+			} else {
+				pos += w
 			}
-			goto fail4
-		} else {
-			pos += w
+			labels[0] = parser.text[pos5:pos]
 		}
 		goto ok0
 	fail4:
@@ -40065,43 +40083,43 @@ func _ǎFail(parser *_Parser, start, errPos int) (int, *peg.Fail) {
 		// l:a (caron_combiner/breve_combiner/relative_tone)
 		// l:a
 		{
-			pos7 := pos
+			pos8 := pos
 			// a
 			if !_fail(parser, _aFail, errPos, failure, &pos) {
-				goto fail5
+				goto fail6
 			}
-			labels[0] = parser.text[pos7:pos]
+			labels[1] = parser.text[pos8:pos]
 		}
 		// (caron_combiner/breve_combiner/relative_tone)
 		// caron_combiner/breve_combiner/relative_tone
 		{
-			pos11 := pos
+			pos12 := pos
 			// caron_combiner
 			if !_fail(parser, _caron_combinerFail, errPos, failure, &pos) {
-				goto fail12
+				goto fail13
 			}
-			goto ok8
-		fail12:
-			pos = pos11
+			goto ok9
+		fail13:
+			pos = pos12
 			// breve_combiner
 			if !_fail(parser, _breve_combinerFail, errPos, failure, &pos) {
-				goto fail13
+				goto fail14
 			}
-			goto ok8
-		fail13:
-			pos = pos11
+			goto ok9
+		fail14:
+			pos = pos12
 			// relative_tone
 			if !_fail(parser, _relative_toneFail, errPos, failure, &pos) {
-				goto fail14
+				goto fail15
 			}
-			goto ok8
-		fail14:
-			pos = pos11
-			goto fail5
-		ok8:
+			goto ok9
+		fail15:
+			pos = pos12
+			goto fail6
+		ok9:
 		}
 		goto ok0
-	fail5:
+	fail6:
 		pos = pos3
 		goto fail
 	ok0:
@@ -40114,9 +40132,10 @@ fail:
 }
 
 func _ǎAction(parser *_Parser, start int) (int, *string) {
-	var labels [1]string
+	var labels [2]string
 	use(labels)
 	var label0 string
+	var label1 string
 	dp := parser.deltaPos[start][_ǎ]
 	if dp < 0 {
 		return -1, nil
@@ -40129,16 +40148,30 @@ func _ǎAction(parser *_Parser, start int) (int, *string) {
 	}
 	var node string
 	pos := start
-	// [ǎǍăĂ]/l:a (caron_combiner/breve_combiner/relative_tone) {…}
+	// b:[ǎǍăĂ] {…}/l:a (caron_combiner/breve_combiner/relative_tone) {…}
 	{
 		pos3 := pos
 		var node2 string
-		// [ǎǍăĂ]
-		if r, w := _next(parser, pos); r != 'ǎ' && r != 'Ǎ' && r != 'ă' && r != 'Ă' {
-			goto fail4
-		} else {
-			node = parser.text[pos : pos+w]
-			pos += w
+		// action
+		{
+			start5 := pos
+			// b:[ǎǍăĂ]
+			{
+				pos6 := pos
+				// [ǎǍăĂ]
+				if r, w := _next(parser, pos); r != 'ǎ' && r != 'Ǎ' && r != 'ă' && r != 'Ă' {
+					goto fail4
+				} else {
+					label0 = parser.text[pos : pos+w]
+					pos += w
+				}
+				labels[0] = parser.text[pos6:pos]
+			}
+			node = func(
+				start, end int, b string) string {
+				return string(tone.WithTone(b, 'V'))
+			}(
+				start5, pos, label0)
 		}
 		goto ok0
 	fail4:
@@ -40146,62 +40179,62 @@ func _ǎAction(parser *_Parser, start int) (int, *string) {
 		pos = pos3
 		// action
 		{
-			start6 := pos
+			start8 := pos
 			// l:a (caron_combiner/breve_combiner/relative_tone)
 			// l:a
 			{
-				pos8 := pos
+				pos10 := pos
 				// a
 				if p, n := _aAction(parser, pos); n == nil {
-					goto fail5
+					goto fail7
 				} else {
-					label0 = *n
+					label1 = *n
 					pos = p
 				}
-				labels[0] = parser.text[pos8:pos]
+				labels[1] = parser.text[pos10:pos]
 			}
 			// (caron_combiner/breve_combiner/relative_tone)
 			// caron_combiner/breve_combiner/relative_tone
 			{
-				pos12 := pos
+				pos14 := pos
 				// caron_combiner
 				if p, n := _caron_combinerAction(parser, pos); n == nil {
-					goto fail13
+					goto fail15
 				} else {
 					pos = p
 				}
-				goto ok9
-			fail13:
-				pos = pos12
+				goto ok11
+			fail15:
+				pos = pos14
 				// breve_combiner
 				if p, n := _breve_combinerAction(parser, pos); n == nil {
-					goto fail14
+					goto fail16
 				} else {
 					pos = p
 				}
-				goto ok9
-			fail14:
-				pos = pos12
+				goto ok11
+			fail16:
+				pos = pos14
 				// relative_tone
 				if p, n := _relative_toneAction(parser, pos); n == nil {
-					goto fail15
+					goto fail17
 				} else {
 					pos = p
 				}
-				goto ok9
-			fail15:
-				pos = pos12
-				goto fail5
-			ok9:
+				goto ok11
+			fail17:
+				pos = pos14
+				goto fail7
+			ok11:
 			}
 			node = func(
-				start, end int, l string) string {
+				start, end int, b string, l string) string {
 				return string(tone.Diacritic['V'][l][0])
 			}(
-				start6, pos, label0)
+				start8, pos, label0, label1)
 		}
 		goto ok0
-	fail5:
+	fail7:
 		node = node2
 		pos = pos3
 		goto fail
@@ -40214,21 +40247,27 @@ fail:
 }
 
 func _ǔAccepts(parser *_Parser, start int) (deltaPos, deltaErr int) {
-	var labels [1]string
+	var labels [2]string
 	use(labels)
 	if dp, de, ok := _memo(parser, _ǔ, start); ok {
 		return dp, de
 	}
 	pos, perr := start, -1
-	// [ǔǓŭŬ]/l:u (caron_combiner/breve_combiner/relative_tone) {…}
+	// b:[ǔǓŭŬ] {…}/l:u (caron_combiner/breve_combiner/relative_tone) {…}
 	{
 		pos3 := pos
-		// [ǔǓŭŬ]
-		if r, w := _next(parser, pos); r != 'ǔ' && r != 'Ǔ' && r != 'ŭ' && r != 'Ŭ' {
-			perr = _max(perr, pos)
-			goto fail4
-		} else {
-			pos += w
+		// action
+		// b:[ǔǓŭŬ]
+		{
+			pos5 := pos
+			// [ǔǓŭŬ]
+			if r, w := _next(parser, pos); r != 'ǔ' && r != 'Ǔ' && r != 'ŭ' && r != 'Ŭ' {
+				perr = _max(perr, pos)
+				goto fail4
+			} else {
+				pos += w
+			}
+			labels[0] = parser.text[pos5:pos]
 		}
 		goto ok0
 	fail4:
@@ -40237,43 +40276,43 @@ func _ǔAccepts(parser *_Parser, start int) (deltaPos, deltaErr int) {
 		// l:u (caron_combiner/breve_combiner/relative_tone)
 		// l:u
 		{
-			pos7 := pos
+			pos8 := pos
 			// u
 			if !_accept(parser, _uAccepts, &pos, &perr) {
-				goto fail5
+				goto fail6
 			}
-			labels[0] = parser.text[pos7:pos]
+			labels[1] = parser.text[pos8:pos]
 		}
 		// (caron_combiner/breve_combiner/relative_tone)
 		// caron_combiner/breve_combiner/relative_tone
 		{
-			pos11 := pos
+			pos12 := pos
 			// caron_combiner
 			if !_accept(parser, _caron_combinerAccepts, &pos, &perr) {
-				goto fail12
+				goto fail13
 			}
-			goto ok8
-		fail12:
-			pos = pos11
+			goto ok9
+		fail13:
+			pos = pos12
 			// breve_combiner
 			if !_accept(parser, _breve_combinerAccepts, &pos, &perr) {
-				goto fail13
+				goto fail14
 			}
-			goto ok8
-		fail13:
-			pos = pos11
+			goto ok9
+		fail14:
+			pos = pos12
 			// relative_tone
 			if !_accept(parser, _relative_toneAccepts, &pos, &perr) {
-				goto fail14
+				goto fail15
 			}
-			goto ok8
-		fail14:
-			pos = pos11
-			goto fail5
-		ok8:
+			goto ok9
+		fail15:
+			pos = pos12
+			goto fail6
+		ok9:
 		}
 		goto ok0
-	fail5:
+	fail6:
 		pos = pos3
 		goto fail
 	ok0:
@@ -40284,7 +40323,7 @@ fail:
 }
 
 func _ǔNode(parser *_Parser, start int) (int, *peg.Node) {
-	var labels [1]string
+	var labels [2]string
 	use(labels)
 	dp := parser.deltaPos[start][_ǔ]
 	if dp < 0 {
@@ -40297,16 +40336,22 @@ func _ǔNode(parser *_Parser, start int) (int, *peg.Node) {
 	}
 	pos := start
 	node = &peg.Node{Name: "ǔ"}
-	// [ǔǓŭŬ]/l:u (caron_combiner/breve_combiner/relative_tone) {…}
+	// b:[ǔǓŭŬ] {…}/l:u (caron_combiner/breve_combiner/relative_tone) {…}
 	{
 		pos3 := pos
 		nkids1 := len(node.Kids)
-		// [ǔǓŭŬ]
-		if r, w := _next(parser, pos); r != 'ǔ' && r != 'Ǔ' && r != 'ŭ' && r != 'Ŭ' {
-			goto fail4
-		} else {
-			node.Kids = append(node.Kids, _leaf(parser, pos, pos+w))
-			pos += w
+		// action
+		// b:[ǔǓŭŬ]
+		{
+			pos5 := pos
+			// [ǔǓŭŬ]
+			if r, w := _next(parser, pos); r != 'ǔ' && r != 'Ǔ' && r != 'ŭ' && r != 'Ŭ' {
+				goto fail4
+			} else {
+				node.Kids = append(node.Kids, _leaf(parser, pos, pos+w))
+				pos += w
+			}
+			labels[0] = parser.text[pos5:pos]
 		}
 		goto ok0
 	fail4:
@@ -40316,53 +40361,53 @@ func _ǔNode(parser *_Parser, start int) (int, *peg.Node) {
 		// l:u (caron_combiner/breve_combiner/relative_tone)
 		// l:u
 		{
-			pos7 := pos
+			pos8 := pos
 			// u
 			if !_node(parser, _uNode, node, &pos) {
-				goto fail5
+				goto fail6
 			}
-			labels[0] = parser.text[pos7:pos]
+			labels[1] = parser.text[pos8:pos]
 		}
 		// (caron_combiner/breve_combiner/relative_tone)
 		{
-			nkids8 := len(node.Kids)
-			pos09 := pos
+			nkids9 := len(node.Kids)
+			pos010 := pos
 			// caron_combiner/breve_combiner/relative_tone
 			{
-				pos13 := pos
-				nkids11 := len(node.Kids)
+				pos14 := pos
+				nkids12 := len(node.Kids)
 				// caron_combiner
 				if !_node(parser, _caron_combinerNode, node, &pos) {
-					goto fail14
+					goto fail15
 				}
-				goto ok10
-			fail14:
-				node.Kids = node.Kids[:nkids11]
-				pos = pos13
+				goto ok11
+			fail15:
+				node.Kids = node.Kids[:nkids12]
+				pos = pos14
 				// breve_combiner
 				if !_node(parser, _breve_combinerNode, node, &pos) {
-					goto fail15
+					goto fail16
 				}
-				goto ok10
-			fail15:
-				node.Kids = node.Kids[:nkids11]
-				pos = pos13
+				goto ok11
+			fail16:
+				node.Kids = node.Kids[:nkids12]
+				pos = pos14
 				// relative_tone
 				if !_node(parser, _relative_toneNode, node, &pos) {
-					goto fail16
+					goto fail17
 				}
-				goto ok10
-			fail16:
-				node.Kids = node.Kids[:nkids11]
-				pos = pos13
-				goto fail5
-			ok10:
+				goto ok11
+			fail17:
+				node.Kids = node.Kids[:nkids12]
+				pos = pos14
+				goto fail6
+			ok11:
 			}
-			sub := _sub(parser, pos09, pos, node.Kids[nkids8:])
-			node.Kids = append(node.Kids[:nkids8], sub)
+			sub := _sub(parser, pos010, pos, node.Kids[nkids9:])
+			node.Kids = append(node.Kids[:nkids9], sub)
 		}
 		goto ok0
-	fail5:
+	fail6:
 		node.Kids = node.Kids[:nkids1]
 		pos = pos3
 		goto fail
@@ -40376,7 +40421,7 @@ fail:
 }
 
 func _ǔFail(parser *_Parser, start, errPos int) (int, *peg.Fail) {
-	var labels [1]string
+	var labels [2]string
 	use(labels)
 	pos, failure := _failMemo(parser, _ǔ, start, errPos)
 	if failure != nil {
@@ -40387,20 +40432,26 @@ func _ǔFail(parser *_Parser, start, errPos int) (int, *peg.Fail) {
 		Pos:  int(start),
 	}
 	key := _key{start: start, rule: _ǔ}
-	// [ǔǓŭŬ]/l:u (caron_combiner/breve_combiner/relative_tone) {…}
+	// b:[ǔǓŭŬ] {…}/l:u (caron_combiner/breve_combiner/relative_tone) {…}
 	{
 		pos3 := pos
-		// [ǔǓŭŬ]
-		if r, w := _next(parser, pos); r != 'ǔ' && r != 'Ǔ' && r != 'ŭ' && r != 'Ŭ' {
-			if pos >= errPos {
-				failure.Kids = append(failure.Kids, &peg.Fail{
-					Pos:  int(pos),
-					Want: "[ǔǓŭŬ]",
-				})
+		// action
+		// b:[ǔǓŭŬ]
+		{
+			pos5 := pos
+			// [ǔǓŭŬ]
+			if r, w := _next(parser, pos); r != 'ǔ' && r != 'Ǔ' && r != 'ŭ' && r != 'Ŭ' {
+				if pos >= errPos {
+					failure.Kids = append(failure.Kids, &peg.Fail{
+						Pos:  int(pos),
+						Want: "[ǔǓŭŬ]",
+					})
+				}
+				goto fail4
+			} else {
+				pos += w
 			}
-			goto fail4
-		} else {
-			pos += w
+			labels[0] = parser.text[pos5:pos]
 		}
 		goto ok0
 	fail4:
@@ -40409,43 +40460,43 @@ func _ǔFail(parser *_Parser, start, errPos int) (int, *peg.Fail) {
 		// l:u (caron_combiner/breve_combiner/relative_tone)
 		// l:u
 		{
-			pos7 := pos
+			pos8 := pos
 			// u
 			if !_fail(parser, _uFail, errPos, failure, &pos) {
-				goto fail5
+				goto fail6
 			}
-			labels[0] = parser.text[pos7:pos]
+			labels[1] = parser.text[pos8:pos]
 		}
 		// (caron_combiner/breve_combiner/relative_tone)
 		// caron_combiner/breve_combiner/relative_tone
 		{
-			pos11 := pos
+			pos12 := pos
 			// caron_combiner
 			if !_fail(parser, _caron_combinerFail, errPos, failure, &pos) {
-				goto fail12
+				goto fail13
 			}
-			goto ok8
-		fail12:
-			pos = pos11
+			goto ok9
+		fail13:
+			pos = pos12
 			// breve_combiner
 			if !_fail(parser, _breve_combinerFail, errPos, failure, &pos) {
-				goto fail13
+				goto fail14
 			}
-			goto ok8
-		fail13:
-			pos = pos11
+			goto ok9
+		fail14:
+			pos = pos12
 			// relative_tone
 			if !_fail(parser, _relative_toneFail, errPos, failure, &pos) {
-				goto fail14
+				goto fail15
 			}
-			goto ok8
-		fail14:
-			pos = pos11
-			goto fail5
-		ok8:
+			goto ok9
+		fail15:
+			pos = pos12
+			goto fail6
+		ok9:
 		}
 		goto ok0
-	fail5:
+	fail6:
 		pos = pos3
 		goto fail
 	ok0:
@@ -40458,9 +40509,10 @@ fail:
 }
 
 func _ǔAction(parser *_Parser, start int) (int, *string) {
-	var labels [1]string
+	var labels [2]string
 	use(labels)
 	var label0 string
+	var label1 string
 	dp := parser.deltaPos[start][_ǔ]
 	if dp < 0 {
 		return -1, nil
@@ -40473,16 +40525,30 @@ func _ǔAction(parser *_Parser, start int) (int, *string) {
 	}
 	var node string
 	pos := start
-	// [ǔǓŭŬ]/l:u (caron_combiner/breve_combiner/relative_tone) {…}
+	// b:[ǔǓŭŬ] {…}/l:u (caron_combiner/breve_combiner/relative_tone) {…}
 	{
 		pos3 := pos
 		var node2 string
-		// [ǔǓŭŬ]
-		if r, w := _next(parser, pos); r != 'ǔ' && r != 'Ǔ' && r != 'ŭ' && r != 'Ŭ' {
-			goto fail4
-		} else {
-			node = parser.text[pos : pos+w]
-			pos += w
+		// action
+		{
+			start5 := pos
+			// b:[ǔǓŭŬ]
+			{
+				pos6 := pos
+				// [ǔǓŭŬ]
+				if r, w := _next(parser, pos); r != 'ǔ' && r != 'Ǔ' && r != 'ŭ' && r != 'Ŭ' {
+					goto fail4
+				} else {
+					label0 = parser.text[pos : pos+w]
+					pos += w
+				}
+				labels[0] = parser.text[pos6:pos]
+			}
+			node = func(
+				start, end int, b string) string {
+				return string(tone.WithTone(b, 'V'))
+			}(
+				start5, pos, label0)
 		}
 		goto ok0
 	fail4:
@@ -40490,62 +40556,62 @@ func _ǔAction(parser *_Parser, start int) (int, *string) {
 		pos = pos3
 		// action
 		{
-			start6 := pos
+			start8 := pos
 			// l:u (caron_combiner/breve_combiner/relative_tone)
 			// l:u
 			{
-				pos8 := pos
+				pos10 := pos
 				// u
 				if p, n := _uAction(parser, pos); n == nil {
-					goto fail5
+					goto fail7
 				} else {
-					label0 = *n
+					label1 = *n
 					pos = p
 				}
-				labels[0] = parser.text[pos8:pos]
+				labels[1] = parser.text[pos10:pos]
 			}
 			// (caron_combiner/breve_combiner/relative_tone)
 			// caron_combiner/breve_combiner/relative_tone
 			{
-				pos12 := pos
+				pos14 := pos
 				// caron_combiner
 				if p, n := _caron_combinerAction(parser, pos); n == nil {
-					goto fail13
+					goto fail15
 				} else {
 					pos = p
 				}
-				goto ok9
-			fail13:
-				pos = pos12
+				goto ok11
+			fail15:
+				pos = pos14
 				// breve_combiner
 				if p, n := _breve_combinerAction(parser, pos); n == nil {
-					goto fail14
+					goto fail16
 				} else {
 					pos = p
 				}
-				goto ok9
-			fail14:
-				pos = pos12
+				goto ok11
+			fail16:
+				pos = pos14
 				// relative_tone
 				if p, n := _relative_toneAction(parser, pos); n == nil {
-					goto fail15
+					goto fail17
 				} else {
 					pos = p
 				}
-				goto ok9
-			fail15:
-				pos = pos12
-				goto fail5
-			ok9:
+				goto ok11
+			fail17:
+				pos = pos14
+				goto fail7
+			ok11:
 			}
 			node = func(
-				start, end int, l string) string {
+				start, end int, b string, l string) string {
 				return string(tone.Diacritic['V'][l][0])
 			}(
-				start6, pos, label0)
+				start8, pos, label0, label1)
 		}
 		goto ok0
-	fail5:
+	fail7:
 		node = node2
 		pos = pos3
 		goto fail
@@ -40558,21 +40624,27 @@ fail:
 }
 
 func _ǐAccepts(parser *_Parser, start int) (deltaPos, deltaErr int) {
-	var labels [1]string
+	var labels [2]string
 	use(labels)
 	if dp, de, ok := _memo(parser, _ǐ, start); ok {
 		return dp, de
 	}
 	pos, perr := start, -1
-	// [ǐǏĭĬ]/l:i (caron_combiner/breve_combiner/relative_tone) {…}
+	// b:[ǐǏĭĬ] {…}/l:i (caron_combiner/breve_combiner/relative_tone) {…}
 	{
 		pos3 := pos
-		// [ǐǏĭĬ]
-		if r, w := _next(parser, pos); r != 'ǐ' && r != 'Ǐ' && r != 'ĭ' && r != 'Ĭ' {
-			perr = _max(perr, pos)
-			goto fail4
-		} else {
-			pos += w
+		// action
+		// b:[ǐǏĭĬ]
+		{
+			pos5 := pos
+			// [ǐǏĭĬ]
+			if r, w := _next(parser, pos); r != 'ǐ' && r != 'Ǐ' && r != 'ĭ' && r != 'Ĭ' {
+				perr = _max(perr, pos)
+				goto fail4
+			} else {
+				pos += w
+			}
+			labels[0] = parser.text[pos5:pos]
 		}
 		goto ok0
 	fail4:
@@ -40581,43 +40653,43 @@ func _ǐAccepts(parser *_Parser, start int) (deltaPos, deltaErr int) {
 		// l:i (caron_combiner/breve_combiner/relative_tone)
 		// l:i
 		{
-			pos7 := pos
+			pos8 := pos
 			// i
 			if !_accept(parser, _iAccepts, &pos, &perr) {
-				goto fail5
+				goto fail6
 			}
-			labels[0] = parser.text[pos7:pos]
+			labels[1] = parser.text[pos8:pos]
 		}
 		// (caron_combiner/breve_combiner/relative_tone)
 		// caron_combiner/breve_combiner/relative_tone
 		{
-			pos11 := pos
+			pos12 := pos
 			// caron_combiner
 			if !_accept(parser, _caron_combinerAccepts, &pos, &perr) {
-				goto fail12
+				goto fail13
 			}
-			goto ok8
-		fail12:
-			pos = pos11
+			goto ok9
+		fail13:
+			pos = pos12
 			// breve_combiner
 			if !_accept(parser, _breve_combinerAccepts, &pos, &perr) {
-				goto fail13
+				goto fail14
 			}
-			goto ok8
-		fail13:
-			pos = pos11
+			goto ok9
+		fail14:
+			pos = pos12
 			// relative_tone
 			if !_accept(parser, _relative_toneAccepts, &pos, &perr) {
-				goto fail14
+				goto fail15
 			}
-			goto ok8
-		fail14:
-			pos = pos11
-			goto fail5
-		ok8:
+			goto ok9
+		fail15:
+			pos = pos12
+			goto fail6
+		ok9:
 		}
 		goto ok0
-	fail5:
+	fail6:
 		pos = pos3
 		goto fail
 	ok0:
@@ -40628,7 +40700,7 @@ fail:
 }
 
 func _ǐNode(parser *_Parser, start int) (int, *peg.Node) {
-	var labels [1]string
+	var labels [2]string
 	use(labels)
 	dp := parser.deltaPos[start][_ǐ]
 	if dp < 0 {
@@ -40641,16 +40713,22 @@ func _ǐNode(parser *_Parser, start int) (int, *peg.Node) {
 	}
 	pos := start
 	node = &peg.Node{Name: "ǐ"}
-	// [ǐǏĭĬ]/l:i (caron_combiner/breve_combiner/relative_tone) {…}
+	// b:[ǐǏĭĬ] {…}/l:i (caron_combiner/breve_combiner/relative_tone) {…}
 	{
 		pos3 := pos
 		nkids1 := len(node.Kids)
-		// [ǐǏĭĬ]
-		if r, w := _next(parser, pos); r != 'ǐ' && r != 'Ǐ' && r != 'ĭ' && r != 'Ĭ' {
-			goto fail4
-		} else {
-			node.Kids = append(node.Kids, _leaf(parser, pos, pos+w))
-			pos += w
+		// action
+		// b:[ǐǏĭĬ]
+		{
+			pos5 := pos
+			// [ǐǏĭĬ]
+			if r, w := _next(parser, pos); r != 'ǐ' && r != 'Ǐ' && r != 'ĭ' && r != 'Ĭ' {
+				goto fail4
+			} else {
+				node.Kids = append(node.Kids, _leaf(parser, pos, pos+w))
+				pos += w
+			}
+			labels[0] = parser.text[pos5:pos]
 		}
 		goto ok0
 	fail4:
@@ -40660,53 +40738,53 @@ func _ǐNode(parser *_Parser, start int) (int, *peg.Node) {
 		// l:i (caron_combiner/breve_combiner/relative_tone)
 		// l:i
 		{
-			pos7 := pos
+			pos8 := pos
 			// i
 			if !_node(parser, _iNode, node, &pos) {
-				goto fail5
+				goto fail6
 			}
-			labels[0] = parser.text[pos7:pos]
+			labels[1] = parser.text[pos8:pos]
 		}
 		// (caron_combiner/breve_combiner/relative_tone)
 		{
-			nkids8 := len(node.Kids)
-			pos09 := pos
+			nkids9 := len(node.Kids)
+			pos010 := pos
 			// caron_combiner/breve_combiner/relative_tone
 			{
-				pos13 := pos
-				nkids11 := len(node.Kids)
+				pos14 := pos
+				nkids12 := len(node.Kids)
 				// caron_combiner
 				if !_node(parser, _caron_combinerNode, node, &pos) {
-					goto fail14
+					goto fail15
 				}
-				goto ok10
-			fail14:
-				node.Kids = node.Kids[:nkids11]
-				pos = pos13
+				goto ok11
+			fail15:
+				node.Kids = node.Kids[:nkids12]
+				pos = pos14
 				// breve_combiner
 				if !_node(parser, _breve_combinerNode, node, &pos) {
-					goto fail15
+					goto fail16
 				}
-				goto ok10
-			fail15:
-				node.Kids = node.Kids[:nkids11]
-				pos = pos13
+				goto ok11
+			fail16:
+				node.Kids = node.Kids[:nkids12]
+				pos = pos14
 				// relative_tone
 				if !_node(parser, _relative_toneNode, node, &pos) {
-					goto fail16
+					goto fail17
 				}
-				goto ok10
-			fail16:
-				node.Kids = node.Kids[:nkids11]
-				pos = pos13
-				goto fail5
-			ok10:
+				goto ok11
+			fail17:
+				node.Kids = node.Kids[:nkids12]
+				pos = pos14
+				goto fail6
+			ok11:
 			}
-			sub := _sub(parser, pos09, pos, node.Kids[nkids8:])
-			node.Kids = append(node.Kids[:nkids8], sub)
+			sub := _sub(parser, pos010, pos, node.Kids[nkids9:])
+			node.Kids = append(node.Kids[:nkids9], sub)
 		}
 		goto ok0
-	fail5:
+	fail6:
 		node.Kids = node.Kids[:nkids1]
 		pos = pos3
 		goto fail
@@ -40720,7 +40798,7 @@ fail:
 }
 
 func _ǐFail(parser *_Parser, start, errPos int) (int, *peg.Fail) {
-	var labels [1]string
+	var labels [2]string
 	use(labels)
 	pos, failure := _failMemo(parser, _ǐ, start, errPos)
 	if failure != nil {
@@ -40731,20 +40809,26 @@ func _ǐFail(parser *_Parser, start, errPos int) (int, *peg.Fail) {
 		Pos:  int(start),
 	}
 	key := _key{start: start, rule: _ǐ}
-	// [ǐǏĭĬ]/l:i (caron_combiner/breve_combiner/relative_tone) {…}
+	// b:[ǐǏĭĬ] {…}/l:i (caron_combiner/breve_combiner/relative_tone) {…}
 	{
 		pos3 := pos
-		// [ǐǏĭĬ]
-		if r, w := _next(parser, pos); r != 'ǐ' && r != 'Ǐ' && r != 'ĭ' && r != 'Ĭ' {
-			if pos >= errPos {
-				failure.Kids = append(failure.Kids, &peg.Fail{
-					Pos:  int(pos),
-					Want: "[ǐǏĭĬ]",
-				})
+		// action
+		// b:[ǐǏĭĬ]
+		{
+			pos5 := pos
+			// [ǐǏĭĬ]
+			if r, w := _next(parser, pos); r != 'ǐ' && r != 'Ǐ' && r != 'ĭ' && r != 'Ĭ' {
+				if pos >= errPos {
+					failure.Kids = append(failure.Kids, &peg.Fail{
+						Pos:  int(pos),
+						Want: "[ǐǏĭĬ]",
+					})
+				}
+				goto fail4
+			} else {
+				pos += w
 			}
-			goto fail4
-		} else {
-			pos += w
+			labels[0] = parser.text[pos5:pos]
 		}
 		goto ok0
 	fail4:
@@ -40753,43 +40837,43 @@ func _ǐFail(parser *_Parser, start, errPos int) (int, *peg.Fail) {
 		// l:i (caron_combiner/breve_combiner/relative_tone)
 		// l:i
 		{
-			pos7 := pos
+			pos8 := pos
 			// i
 			if !_fail(parser, _iFail, errPos, failure, &pos) {
-				goto fail5
+				goto fail6
 			}
-			labels[0] = parser.text[pos7:pos]
+			labels[1] = parser.text[pos8:pos]
 		}
 		// (caron_combiner/breve_combiner/relative_tone)
 		// caron_combiner/breve_combiner/relative_tone
 		{
-			pos11 := pos
+			pos12 := pos
 			// caron_combiner
 			if !_fail(parser, _caron_combinerFail, errPos, failure, &pos) {
-				goto fail12
+				goto fail13
 			}
-			goto ok8
-		fail12:
-			pos = pos11
+			goto ok9
+		fail13:
+			pos = pos12
 			// breve_combiner
 			if !_fail(parser, _breve_combinerFail, errPos, failure, &pos) {
-				goto fail13
+				goto fail14
 			}
-			goto ok8
-		fail13:
-			pos = pos11
+			goto ok9
+		fail14:
+			pos = pos12
 			// relative_tone
 			if !_fail(parser, _relative_toneFail, errPos, failure, &pos) {
-				goto fail14
+				goto fail15
 			}
-			goto ok8
-		fail14:
-			pos = pos11
-			goto fail5
-		ok8:
+			goto ok9
+		fail15:
+			pos = pos12
+			goto fail6
+		ok9:
 		}
 		goto ok0
-	fail5:
+	fail6:
 		pos = pos3
 		goto fail
 	ok0:
@@ -40802,9 +40886,10 @@ fail:
 }
 
 func _ǐAction(parser *_Parser, start int) (int, *string) {
-	var labels [1]string
+	var labels [2]string
 	use(labels)
 	var label0 string
+	var label1 string
 	dp := parser.deltaPos[start][_ǐ]
 	if dp < 0 {
 		return -1, nil
@@ -40817,16 +40902,30 @@ func _ǐAction(parser *_Parser, start int) (int, *string) {
 	}
 	var node string
 	pos := start
-	// [ǐǏĭĬ]/l:i (caron_combiner/breve_combiner/relative_tone) {…}
+	// b:[ǐǏĭĬ] {…}/l:i (caron_combiner/breve_combiner/relative_tone) {…}
 	{
 		pos3 := pos
 		var node2 string
-		// [ǐǏĭĬ]
-		if r, w := _next(parser, pos); r != 'ǐ' && r != 'Ǐ' && r != 'ĭ' && r != 'Ĭ' {
-			goto fail4
-		} else {
-			node = parser.text[pos : pos+w]
-			pos += w
+		// action
+		{
+			start5 := pos
+			// b:[ǐǏĭĬ]
+			{
+				pos6 := pos
+				// [ǐǏĭĬ]
+				if r, w := _next(parser, pos); r != 'ǐ' && r != 'Ǐ' && r != 'ĭ' && r != 'Ĭ' {
+					goto fail4
+				} else {
+					label0 = parser.text[pos : pos+w]
+					pos += w
+				}
+				labels[0] = parser.text[pos6:pos]
+			}
+			node = func(
+				start, end int, b string) string {
+				return string(tone.WithTone(b, 'V'))
+			}(
+				start5, pos, label0)
 		}
 		goto ok0
 	fail4:
@@ -40834,62 +40933,62 @@ func _ǐAction(parser *_Parser, start int) (int, *string) {
 		pos = pos3
 		// action
 		{
-			start6 := pos
+			start8 := pos
 			// l:i (caron_combiner/breve_combiner/relative_tone)
 			// l:i
 			{
-				pos8 := pos
+				pos10 := pos
 				// i
 				if p, n := _iAction(parser, pos); n == nil {
-					goto fail5
+					goto fail7
 				} else {
-					label0 = *n
+					label1 = *n
 					pos = p
 				}
-				labels[0] = parser.text[pos8:pos]
+				labels[1] = parser.text[pos10:pos]
 			}
 			// (caron_combiner/breve_combiner/relative_tone)
 			// caron_combiner/breve_combiner/relative_tone
 			{
-				pos12 := pos
+				pos14 := pos
 				// caron_combiner
 				if p, n := _caron_combinerAction(parser, pos); n == nil {
-					goto fail13
+					goto fail15
 				} else {
 					pos = p
 				}
-				goto ok9
-			fail13:
-				pos = pos12
+				goto ok11
+			fail15:
+				pos = pos14
 				// breve_combiner
 				if p, n := _breve_combinerAction(parser, pos); n == nil {
-					goto fail14
+					goto fail16
 				} else {
 					pos = p
 				}
-				goto ok9
-			fail14:
-				pos = pos12
+				goto ok11
+			fail16:
+				pos = pos14
 				// relative_tone
 				if p, n := _relative_toneAction(parser, pos); n == nil {
-					goto fail15
+					goto fail17
 				} else {
 					pos = p
 				}
-				goto ok9
-			fail15:
-				pos = pos12
-				goto fail5
-			ok9:
+				goto ok11
+			fail17:
+				pos = pos14
+				goto fail7
+			ok11:
 			}
 			node = func(
-				start, end int, l string) string {
+				start, end int, b string, l string) string {
 				return string(tone.Diacritic['V'][l][0])
 			}(
-				start6, pos, label0)
+				start8, pos, label0, label1)
 		}
 		goto ok0
-	fail5:
+	fail7:
 		node = node2
 		pos = pos3
 		goto fail
@@ -40902,21 +41001,27 @@ fail:
 }
 
 func _ǒAccepts(parser *_Parser, start int) (deltaPos, deltaErr int) {
-	var labels [1]string
+	var labels [2]string
 	use(labels)
 	if dp, de, ok := _memo(parser, _ǒ, start); ok {
 		return dp, de
 	}
 	pos, perr := start, -1
-	// [ǒǑŏŎ]/l:o (caron_combiner/breve_combiner/relative_tone) {…}
+	// b:[ǒǑŏŎ] {…}/l:o (caron_combiner/breve_combiner/relative_tone) {…}
 	{
 		pos3 := pos
-		// [ǒǑŏŎ]
-		if r, w := _next(parser, pos); r != 'ǒ' && r != 'Ǒ' && r != 'ŏ' && r != 'Ŏ' {
-			perr = _max(perr, pos)
-			goto fail4
-		} else {
-			pos += w
+		// action
+		// b:[ǒǑŏŎ]
+		{
+			pos5 := pos
+			// [ǒǑŏŎ]
+			if r, w := _next(parser, pos); r != 'ǒ' && r != 'Ǒ' && r != 'ŏ' && r != 'Ŏ' {
+				perr = _max(perr, pos)
+				goto fail4
+			} else {
+				pos += w
+			}
+			labels[0] = parser.text[pos5:pos]
 		}
 		goto ok0
 	fail4:
@@ -40925,43 +41030,43 @@ func _ǒAccepts(parser *_Parser, start int) (deltaPos, deltaErr int) {
 		// l:o (caron_combiner/breve_combiner/relative_tone)
 		// l:o
 		{
-			pos7 := pos
+			pos8 := pos
 			// o
 			if !_accept(parser, _oAccepts, &pos, &perr) {
-				goto fail5
+				goto fail6
 			}
-			labels[0] = parser.text[pos7:pos]
+			labels[1] = parser.text[pos8:pos]
 		}
 		// (caron_combiner/breve_combiner/relative_tone)
 		// caron_combiner/breve_combiner/relative_tone
 		{
-			pos11 := pos
+			pos12 := pos
 			// caron_combiner
 			if !_accept(parser, _caron_combinerAccepts, &pos, &perr) {
-				goto fail12
+				goto fail13
 			}
-			goto ok8
-		fail12:
-			pos = pos11
+			goto ok9
+		fail13:
+			pos = pos12
 			// breve_combiner
 			if !_accept(parser, _breve_combinerAccepts, &pos, &perr) {
-				goto fail13
+				goto fail14
 			}
-			goto ok8
-		fail13:
-			pos = pos11
+			goto ok9
+		fail14:
+			pos = pos12
 			// relative_tone
 			if !_accept(parser, _relative_toneAccepts, &pos, &perr) {
-				goto fail14
+				goto fail15
 			}
-			goto ok8
-		fail14:
-			pos = pos11
-			goto fail5
-		ok8:
+			goto ok9
+		fail15:
+			pos = pos12
+			goto fail6
+		ok9:
 		}
 		goto ok0
-	fail5:
+	fail6:
 		pos = pos3
 		goto fail
 	ok0:
@@ -40972,7 +41077,7 @@ fail:
 }
 
 func _ǒNode(parser *_Parser, start int) (int, *peg.Node) {
-	var labels [1]string
+	var labels [2]string
 	use(labels)
 	dp := parser.deltaPos[start][_ǒ]
 	if dp < 0 {
@@ -40985,16 +41090,22 @@ func _ǒNode(parser *_Parser, start int) (int, *peg.Node) {
 	}
 	pos := start
 	node = &peg.Node{Name: "ǒ"}
-	// [ǒǑŏŎ]/l:o (caron_combiner/breve_combiner/relative_tone) {…}
+	// b:[ǒǑŏŎ] {…}/l:o (caron_combiner/breve_combiner/relative_tone) {…}
 	{
 		pos3 := pos
 		nkids1 := len(node.Kids)
-		// [ǒǑŏŎ]
-		if r, w := _next(parser, pos); r != 'ǒ' && r != 'Ǒ' && r != 'ŏ' && r != 'Ŏ' {
-			goto fail4
-		} else {
-			node.Kids = append(node.Kids, _leaf(parser, pos, pos+w))
-			pos += w
+		// action
+		// b:[ǒǑŏŎ]
+		{
+			pos5 := pos
+			// [ǒǑŏŎ]
+			if r, w := _next(parser, pos); r != 'ǒ' && r != 'Ǒ' && r != 'ŏ' && r != 'Ŏ' {
+				goto fail4
+			} else {
+				node.Kids = append(node.Kids, _leaf(parser, pos, pos+w))
+				pos += w
+			}
+			labels[0] = parser.text[pos5:pos]
 		}
 		goto ok0
 	fail4:
@@ -41004,53 +41115,53 @@ func _ǒNode(parser *_Parser, start int) (int, *peg.Node) {
 		// l:o (caron_combiner/breve_combiner/relative_tone)
 		// l:o
 		{
-			pos7 := pos
+			pos8 := pos
 			// o
 			if !_node(parser, _oNode, node, &pos) {
-				goto fail5
+				goto fail6
 			}
-			labels[0] = parser.text[pos7:pos]
+			labels[1] = parser.text[pos8:pos]
 		}
 		// (caron_combiner/breve_combiner/relative_tone)
 		{
-			nkids8 := len(node.Kids)
-			pos09 := pos
+			nkids9 := len(node.Kids)
+			pos010 := pos
 			// caron_combiner/breve_combiner/relative_tone
 			{
-				pos13 := pos
-				nkids11 := len(node.Kids)
+				pos14 := pos
+				nkids12 := len(node.Kids)
 				// caron_combiner
 				if !_node(parser, _caron_combinerNode, node, &pos) {
-					goto fail14
+					goto fail15
 				}
-				goto ok10
-			fail14:
-				node.Kids = node.Kids[:nkids11]
-				pos = pos13
+				goto ok11
+			fail15:
+				node.Kids = node.Kids[:nkids12]
+				pos = pos14
 				// breve_combiner
 				if !_node(parser, _breve_combinerNode, node, &pos) {
-					goto fail15
+					goto fail16
 				}
-				goto ok10
-			fail15:
-				node.Kids = node.Kids[:nkids11]
-				pos = pos13
+				goto ok11
+			fail16:
+				node.Kids = node.Kids[:nkids12]
+				pos = pos14
 				// relative_tone
 				if !_node(parser, _relative_toneNode, node, &pos) {
-					goto fail16
+					goto fail17
 				}
-				goto ok10
-			fail16:
-				node.Kids = node.Kids[:nkids11]
-				pos = pos13
-				goto fail5
-			ok10:
+				goto ok11
+			fail17:
+				node.Kids = node.Kids[:nkids12]
+				pos = pos14
+				goto fail6
+			ok11:
 			}
-			sub := _sub(parser, pos09, pos, node.Kids[nkids8:])
-			node.Kids = append(node.Kids[:nkids8], sub)
+			sub := _sub(parser, pos010, pos, node.Kids[nkids9:])
+			node.Kids = append(node.Kids[:nkids9], sub)
 		}
 		goto ok0
-	fail5:
+	fail6:
 		node.Kids = node.Kids[:nkids1]
 		pos = pos3
 		goto fail
@@ -41064,7 +41175,7 @@ fail:
 }
 
 func _ǒFail(parser *_Parser, start, errPos int) (int, *peg.Fail) {
-	var labels [1]string
+	var labels [2]string
 	use(labels)
 	pos, failure := _failMemo(parser, _ǒ, start, errPos)
 	if failure != nil {
@@ -41075,20 +41186,26 @@ func _ǒFail(parser *_Parser, start, errPos int) (int, *peg.Fail) {
 		Pos:  int(start),
 	}
 	key := _key{start: start, rule: _ǒ}
-	// [ǒǑŏŎ]/l:o (caron_combiner/breve_combiner/relative_tone) {…}
+	// b:[ǒǑŏŎ] {…}/l:o (caron_combiner/breve_combiner/relative_tone) {…}
 	{
 		pos3 := pos
-		// [ǒǑŏŎ]
-		if r, w := _next(parser, pos); r != 'ǒ' && r != 'Ǒ' && r != 'ŏ' && r != 'Ŏ' {
-			if pos >= errPos {
-				failure.Kids = append(failure.Kids, &peg.Fail{
-					Pos:  int(pos),
-					Want: "[ǒǑŏŎ]",
-				})
+		// action
+		// b:[ǒǑŏŎ]
+		{
+			pos5 := pos
+			// [ǒǑŏŎ]
+			if r, w := _next(parser, pos); r != 'ǒ' && r != 'Ǒ' && r != 'ŏ' && r != 'Ŏ' {
+				if pos >= errPos {
+					failure.Kids = append(failure.Kids, &peg.Fail{
+						Pos:  int(pos),
+						Want: "[ǒǑŏŎ]",
+					})
+				}
+				goto fail4
+			} else {
+				pos += w
 			}
-			goto fail4
-		} else {
-			pos += w
+			labels[0] = parser.text[pos5:pos]
 		}
 		goto ok0
 	fail4:
@@ -41097,43 +41214,43 @@ func _ǒFail(parser *_Parser, start, errPos int) (int, *peg.Fail) {
 		// l:o (caron_combiner/breve_combiner/relative_tone)
 		// l:o
 		{
-			pos7 := pos
+			pos8 := pos
 			// o
 			if !_fail(parser, _oFail, errPos, failure, &pos) {
-				goto fail5
+				goto fail6
 			}
-			labels[0] = parser.text[pos7:pos]
+			labels[1] = parser.text[pos8:pos]
 		}
 		// (caron_combiner/breve_combiner/relative_tone)
 		// caron_combiner/breve_combiner/relative_tone
 		{
-			pos11 := pos
+			pos12 := pos
 			// caron_combiner
 			if !_fail(parser, _caron_combinerFail, errPos, failure, &pos) {
-				goto fail12
+				goto fail13
 			}
-			goto ok8
-		fail12:
-			pos = pos11
+			goto ok9
+		fail13:
+			pos = pos12
 			// breve_combiner
 			if !_fail(parser, _breve_combinerFail, errPos, failure, &pos) {
-				goto fail13
+				goto fail14
 			}
-			goto ok8
-		fail13:
-			pos = pos11
+			goto ok9
+		fail14:
+			pos = pos12
 			// relative_tone
 			if !_fail(parser, _relative_toneFail, errPos, failure, &pos) {
-				goto fail14
+				goto fail15
 			}
-			goto ok8
-		fail14:
-			pos = pos11
-			goto fail5
-		ok8:
+			goto ok9
+		fail15:
+			pos = pos12
+			goto fail6
+		ok9:
 		}
 		goto ok0
-	fail5:
+	fail6:
 		pos = pos3
 		goto fail
 	ok0:
@@ -41146,9 +41263,10 @@ fail:
 }
 
 func _ǒAction(parser *_Parser, start int) (int, *string) {
-	var labels [1]string
+	var labels [2]string
 	use(labels)
 	var label0 string
+	var label1 string
 	dp := parser.deltaPos[start][_ǒ]
 	if dp < 0 {
 		return -1, nil
@@ -41161,16 +41279,30 @@ func _ǒAction(parser *_Parser, start int) (int, *string) {
 	}
 	var node string
 	pos := start
-	// [ǒǑŏŎ]/l:o (caron_combiner/breve_combiner/relative_tone) {…}
+	// b:[ǒǑŏŎ] {…}/l:o (caron_combiner/breve_combiner/relative_tone) {…}
 	{
 		pos3 := pos
 		var node2 string
-		// [ǒǑŏŎ]
-		if r, w := _next(parser, pos); r != 'ǒ' && r != 'Ǒ' && r != 'ŏ' && r != 'Ŏ' {
-			goto fail4
-		} else {
-			node = parser.text[pos : pos+w]
-			pos += w
+		// action
+		{
+			start5 := pos
+			// b:[ǒǑŏŎ]
+			{
+				pos6 := pos
+				// [ǒǑŏŎ]
+				if r, w := _next(parser, pos); r != 'ǒ' && r != 'Ǒ' && r != 'ŏ' && r != 'Ŏ' {
+					goto fail4
+				} else {
+					label0 = parser.text[pos : pos+w]
+					pos += w
+				}
+				labels[0] = parser.text[pos6:pos]
+			}
+			node = func(
+				start, end int, b string) string {
+				return string(tone.WithTone(b, 'V'))
+			}(
+				start5, pos, label0)
 		}
 		goto ok0
 	fail4:
@@ -41178,62 +41310,62 @@ func _ǒAction(parser *_Parser, start int) (int, *string) {
 		pos = pos3
 		// action
 		{
-			start6 := pos
+			start8 := pos
 			// l:o (caron_combiner/breve_combiner/relative_tone)
 			// l:o
 			{
-				pos8 := pos
+				pos10 := pos
 				// o
 				if p, n := _oAction(parser, pos); n == nil {
-					goto fail5
+					goto fail7
 				} else {
-					label0 = *n
+					label1 = *n
 					pos = p
 				}
-				labels[0] = parser.text[pos8:pos]
+				labels[1] = parser.text[pos10:pos]
 			}
 			// (caron_combiner/breve_combiner/relative_tone)
 			// caron_combiner/breve_combiner/relative_tone
 			{
-				pos12 := pos
+				pos14 := pos
 				// caron_combiner
 				if p, n := _caron_combinerAction(parser, pos); n == nil {
-					goto fail13
+					goto fail15
 				} else {
 					pos = p
 				}
-				goto ok9
-			fail13:
-				pos = pos12
+				goto ok11
+			fail15:
+				pos = pos14
 				// breve_combiner
 				if p, n := _breve_combinerAction(parser, pos); n == nil {
-					goto fail14
+					goto fail16
 				} else {
-					pos = p
-				}
-				goto ok9
-			fail14:
-				pos = pos12
+					pos = p
+				}
+				goto ok11
+			fail16:
+				pos = pos14
 				// relative_tone
 				if p, n := _relative_toneAction(parser, pos); n == nil {
-					goto fail15
+					goto fail17
 				} else {
 					pos = p
 				}
-				goto ok9
-			fail15:
-				pos = pos12
-				goto fail5
-			ok9:
+				goto ok11
+			fail17:
+				pos = pos14
+				goto fail7
+			ok11:
 			}
 			node = func(
-				start, end int, l string) string {
+				start, end int, b string, l string) string {
 				return string(tone.Diacritic['V'][l][0])
 			}(
-				start6, pos, label0)
+				start8, pos, label0, label1)
 		}
 		goto ok0
-	fail5:
+	fail7:
 		node = node2
 		pos = pos3
 		goto fail
@@ -41246,21 +41378,27 @@ fail:
 }
 
 func _ěAccepts(parser *_Parser, start int) (deltaPos, deltaErr int) {
-	var labels [1]string
+	var labels [2]string
 	use(labels)
 	if dp, de, ok := _memo(parser, _ě, start); ok {
 		return dp, de
 	}
 	pos, perr := start, -1
-	// [ěĚĕĔ]/l:e (caron_combiner/breve_combiner/relative_tone) {…}
+	// b:[ěĚĕĔ] {…}/l:e (caron_combiner/breve_combiner/relative_tone) {…}
 	{
 		pos3 := pos
-		// [ěĚĕĔ]
-		if r, w := _next(parser, pos); r != 'ě' && r != 'Ě' && r != 'ĕ' && r != 'Ĕ' {
-			perr = _max(perr, pos)
-			goto fail4
-		} else {
-			pos += w
+		// action
+		// b:[ěĚĕĔ]
+		{
+			pos5 := pos
+			// [ěĚĕĔ]
+			if r, w := _next(parser, pos); r != 'ě' && r != 'Ě' && r != 'ĕ' && r != 'Ĕ' {
+				perr = _max(perr, pos)
+				goto fail4
+			} else {
+				pos += w
+			}
+			labels[0] = parser.text[pos5:pos]
 		}
 		goto ok0
 	fail4:
@@ -41269,43 +41407,43 @@ func _ěAccepts(parser *_Parser, start int) (deltaPos, deltaErr int) {
 		// l:e (caron_combiner/breve_combiner/relative_tone)
 		// l:e
 		{
-			pos7 := pos
+			pos8 := pos
 			// e
 			if !_accept(parser, _eAccepts, &pos, &perr) {
-				goto fail5
+				goto fail6
 			}
-			labels[0] = parser.text[pos7:pos]
+			labels[1] = parser.text[pos8:pos]
 		}
 		// (caron_combiner/breve_combiner/relative_tone)
 		// caron_combiner/breve_combiner/relative_tone
 		{
-			pos11 := pos
+			pos12 := pos
 			// caron_combiner
 			if !_accept(parser, _caron_combinerAccepts, &pos, &perr) {
-				goto fail12
+				goto fail13
 			}
-			goto ok8
-		fail12:
-			pos = pos11
+			goto ok9
+		fail13:
+			pos = pos12
 			// breve_combiner
 			if !_accept(parser, _breve_combinerAccepts, &pos, &perr) {
-				goto fail13
+				goto fail14
 			}
-			goto ok8
-		fail13:
-			pos = pos11
+			goto ok9
+		fail14:
+			pos = pos12
 			// relative_tone
 			if !_accept(parser, _relative_toneAccepts, &pos, &perr) {
-				goto fail14
+				goto fail15
 			}
-			goto ok8
-		fail14:
-			pos = pos11
-			goto fail5
-		ok8:
+			goto ok9
+		fail15:
+			pos = pos12
+			goto fail6
+		ok9:
 		}
 		goto ok0
-	fail5:
+	fail6:
 		pos = pos3
 		goto fail
 	ok0:
@@ -41316,7 +41454,7 @@ fail:
 }
 
 func _ěNode(parser *_Parser, start int) (int, *peg.Node) {
-	var labels [1]string
+	var labels [2]string
 	use(labels)
 	dp := parser.deltaPos[start][_ě]
 	if dp < 0 {
@@ -41329,16 +41467,22 @@ func _ěNode(parser *_Parser, start int) (int, *peg.Node) {
 	}
 	pos := start
 	node = &peg.Node{Name: "ě"}
-	// [ěĚĕĔ]/l:e (caron_combiner/breve_combiner/relative_tone) {…}
+	// b:[ěĚĕĔ] {…}/l:e (caron_combiner/breve_combiner/relative_tone) {…}
 	{
 		pos3 := pos
 		nkids1 := len(node.Kids)
-		// [ěĚĕĔ]
-		if r, w := _next(parser, pos); r != 'ě' && r != 'Ě' && r != 'ĕ' && r != 'Ĕ' {
-			goto fail4
-		} else {
-			node.Kids = append(node.Kids, _leaf(parser, pos, pos+w))
-			pos += w
+		// action
+		// b:[ěĚĕĔ]
+		{
+			pos5 := pos
+			// [ěĚĕĔ]
+			if r, w := _next(parser, pos); r != 'ě' && r != 'Ě' && r != 'ĕ' && r != 'Ĕ' {
+				goto fail4
+			} else {
+				node.Kids = append(node.Kids, _leaf(parser, pos, pos+w))
+				pos += w
+			}
+			labels[0] = parser.text[pos5:pos]
 		}
 		goto ok0
 	fail4:
@@ -41348,53 +41492,53 @@ func _ěNode(parser *_Parser, start int) (int, *peg.Node) {
 		// l:e (caron_combiner/breve_combiner/relative_tone)
 		// l:e
 		{
-			pos7 := pos
+			pos8 := pos
 			// e
 			if !_node(parser, _eNode, node, &pos) {
-				goto fail5
+				goto fail6
 			}
-			labels[0] = parser.text[pos7:pos]
+			labels[1] = parser.text[pos8:pos]
 		}
 		// (caron_combiner/breve_combiner/relative_tone)
 		{
-			nkids8 := len(node.Kids)
-			pos09 := pos
+			nkids9 := len(node.Kids)
+			pos010 := pos
 			// caron_combiner/breve_combiner/relative_tone
 			{
-				pos13 := pos
-				nkids11 := len(node.Kids)
+				pos14 := pos
+				nkids12 := len(node.Kids)
 				// caron_combiner
 				if !_node(parser, _caron_combinerNode, node, &pos) {
-					goto fail14
+					goto fail15
 				}
-				goto ok10
-			fail14:
-				node.Kids = node.Kids[:nkids11]
-				pos = pos13
+				goto ok11
+			fail15:
+				node.Kids = node.Kids[:nkids12]
+				pos = pos14
 				// breve_combiner
 				if !_node(parser, _breve_combinerNode, node, &pos) {
-					goto fail15
+					goto fail16
 				}
-				goto ok10
-			fail15:
-				node.Kids = node.Kids[:nkids11]
-				pos = pos13
+				goto ok11
+			fail16:
+				node.Kids = node.Kids[:nkids12]
+				pos = pos14
 				// relative_tone
 				if !_node(parser, _relative_toneNode, node, &pos) {
-					goto fail16
+					goto fail17
 				}
-				goto ok10
-			fail16:
-				node.Kids = node.Kids[:nkids11]
-				pos = pos13
-				goto fail5
-			ok10:
+				goto ok11
+			fail17:
+				node.Kids = node.Kids[:nkids12]
+				pos = pos14
+				goto fail6
+			ok11:
 			}
-			sub := _sub(parser, pos09, pos, node.Kids[nkids8:])
-			node.Kids = append(node.Kids[:nkids8], sub)
+			sub := _sub(parser, pos010, pos, node.Kids[nkids9:])
+			node.Kids = append(node.Kids[:nkids9], sub)
 		}
 		goto ok0
-	fail5:
+	fail6:
 		node.Kids = node.Kids[:nkids1]
 		pos = pos3
 		goto fail
@@ -41408,7 +41552,7 @@ fail:
 }
 
 func _ěFail(parser *_Parser, start, errPos int) (int, *peg.Fail) {
-	var labels [1]string
+	var labels [2]string
 	use(labels)
 	pos, failure := _failMemo(parser, _ě, start, errPos)
 	if failure != nil {
@@ -41419,20 +41563,26 @@ func _ěFail(parser *_Parser, start, errPos int) (int, *peg.Fail) {
 		Pos:  int(start),
 	}
 	key := _key{start: start, rule: _ě}
-	// [ěĚĕĔ]/l:e (caron_combiner/breve_combiner/relative_tone) {…}
+	// b:[ěĚĕĔ] {…}/l:e (caron_combiner/breve_combiner/relative_tone) {…}
 	{
 		pos3 := pos
-		// [ěĚĕĔ]
-		if r, w := _next(parser, pos); r != 'ě' && r != 'Ě' && r != 'ĕ' && r != 'Ĕ' {
-			if pos >= errPos {
-				failure.Kids = append(failure.Kids, &peg.Fail{
-					Pos:  int(pos),
-					Want: "[ěĚĕĔ]",
-				})
+		// action
+		// b:[ěĚĕĔ]
+		{
+			pos5 := pos
+			// [ěĚĕĔ]
+			if r, w := _next(parser, pos); r != 'ě' && r != 'Ě' && r != 'ĕ' && r != 'Ĕ' {
+				if pos >= errPos {
+					failure.Kids = append(failure.Kids, &peg.Fail{
+						Pos:  int(pos),
+						Want: "[ěĚĕĔ]",
+					})
+				}
+				goto fail4
+			} else {
+				pos += w
 			}
-			goto fail4
-		} else {
-			pos += w
+			labels[0] = parser.text[pos5:pos]
 		}
 		goto ok0
 	fail4:
@@ -41441,43 +41591,43 @@ func _ěFail(parser *_Parser, start, errPos int) (int, *peg.Fail) {
 		// l:e (caron_combiner/breve_combiner/relative_tone)
 		// l:e
 		{
-			pos7 := pos
+			pos8 := pos
 			// e
 			if !_fail(parser, _eFail, errPos, failure, &pos) {
-				goto fail5
+				goto fail6
 			}
-			labels[0] = parser.text[pos7:pos]
+			labels[1] = parser.text[pos8:pos]
 		}
 		// (caron_combiner/breve_combiner/relative_tone)
 		// caron_combiner/breve_combiner/relative_tone
 		{
-			pos11 := pos
+			pos12 := pos
 			// caron_combiner
 			if !_fail(parser, _caron_combinerFail, errPos, failure, &pos) {
-				goto fail12
+				goto fail13
 			}
-			goto ok8
-		fail12:
-			pos = pos11
+			goto ok9
+		fail13:
+			pos = pos12
 			// breve_combiner
 			if !_fail(parser, _breve_combinerFail, errPos, failure, &pos) {
-				goto fail13
+				goto fail14
 			}
-			goto ok8
-		fail13:
-			pos = pos11
+			goto ok9
+		fail14:
+			pos = pos12
 			// relative_tone
 			if !_fail(parser, _relative_toneFail, errPos, failure, &pos) {
-				goto fail14
+				goto fail15
 			}
-			goto ok8
-		fail14:
-			pos = pos11
-			goto fail5
-		ok8:
+			goto ok9
+		fail15:
+			pos = pos12
+			goto fail6
+		ok9:
 		}
 		goto ok0
-	fail5:
+	fail6:
 		pos = pos3
 		goto fail
 	ok0:
@@ -41490,9 +41640,10 @@ fail:
 }
 
 func _ěAction(parser *_Parser, start int) (int, *string) {
-	var labels [1]string
+	var labels [2]string
 	use(labels)
 	var label0 string
+	var label1 string
 	dp := parser.deltaPos[start][_ě]
 	if dp < 0 {
 		return -1, nil
@@ -41505,16 +41656,30 @@ func _ěAction(parser *_Parser, start int) (int, *string) {
 	}
 	var node string
 	pos := start
-	// [ěĚĕĔ]/l:e (caron_combiner/breve_combiner/relative_tone) {…}
+	// b:[ěĚĕĔ] {…}/l:e (caron_combiner/breve_combiner/relative_tone) {…}
 	{
 		pos3 := pos
 		var node2 string
-		// [ěĚĕĔ]
-		if r, w := _next(parser, pos); r != 'ě' && r != 'Ě' && r != 'ĕ' && r != 'Ĕ' {
-			goto fail4
-		} else {
-			node = parser.text[pos : pos+w]
-			pos += w
+		// action
+		{
+			start5 := pos
+			// b:[ěĚĕĔ]
+			{
+				pos6 := pos
+				// [ěĚĕĔ]
+				if r, w := _next(parser, pos); r != 'ě' && r != 'Ě' && r != 'ĕ' && r != 'Ĕ' {
+					goto fail4
+				} else {
+					label0 = parser.text[pos : pos+w]
+					pos += w
+				}
+				labels[0] = parser.text[pos6:pos]
+			}
+			node = func(
+				start, end int, b string) string {
+				return string(tone.WithTone(b, 'V'))
+			}(
+				start5, pos, label0)
 		}
 		goto ok0
 	fail4:
@@ -41522,62 +41687,62 @@ func _ěAction(parser *_Parser, start int) (int, *string) {
 		pos = pos3
 		// action
 		{
-			start6 := pos
+			start8 := pos
 			// l:e (caron_combiner/breve_combiner/relative_tone)
 			// l:e
 			{
-				pos8 := pos
+				pos10 := pos
 				// e
 				if p, n := _eAction(parser, pos); n == nil {
-					goto fail5
+					goto fail7
 				} else {
-					label0 = *n
+					label1 = *n
 					pos = p
 				}
-				labels[0] = parser.text[pos8:pos]
+				labels[1] = parser.text[pos10:pos]
 			}
 			// (caron_combiner/breve_combiner/relative_tone)
 			// caron_combiner/breve_combiner/relative_tone
 			{
-				pos12 := pos
+				pos14 := pos
 				// caron_combiner
 				if p, n := _caron_combinerAction(parser, pos); n == nil {
-					goto fail13
+					goto fail15
 				} else {
 					pos = p
 				}
-				goto ok9
-			fail13:
-				pos = pos12
+				goto ok11
+			fail15:
+				pos = pos14
 				// breve_combiner
 				if p, n := _breve_combinerAction(parser, pos); n == nil {
-					goto fail14
+					goto fail16
 				} else {
 					pos = p
 				}
-				goto ok9
-			fail14:
-				pos = pos12
+				goto ok11
+			fail16:
+				pos = pos14
 				// relative_tone
 				if p, n := _relative_toneAction(parser, pos); n == nil {
-					goto fail15
+					goto fail17
 				} else {
 					pos = p
 				}
-				goto ok9
-			fail15:
-				pos = pos12
-				goto fail5
-			ok9:
+				goto ok11
+			fail17:
+				pos = pos14
+				goto fail7
+			ok11:
 			}
 			node = func(
-				start, end int, l string) string {
+				start, end int, b string, l string) string {
 				return string(tone.Diacritic['V'][l][0])
 			}(
-				start6, pos, label0)
+				start8, pos, label0, label1)
 		}
 		goto ok0
-	fail5:
+	fail7:
 		node = node2
 		pos = pos3
 		goto fail
diff --git a/ast/toaq.peggy b/ast/toaq.peggy
index 9ba1973..21abf82 100644
--- a/ast/toaq.peggy
+++ b/ast/toaq.peggy
@@ -481,11 +481,11 @@ arg_tone <- [/2]
 
 # This also includes the combining breve forms ( \u0306 ),
 # because la jelca is too lazy to fix his keyboard. (Yes they are.)
-ǎ <- [ǎǍăĂ] / l:a ( caron_combiner / breve_combiner / relative_tone ) { return string(tone.Diacritic['V'][l][0]) }
-ǔ <- [ǔǓŭŬ] / l:u ( caron_combiner / breve_combiner / relative_tone ) { return string(tone.Diacritic['V'][l][0]) }
-ǐ <- [ǐǏĭĬ] / l:i ( caron_combiner / breve_combiner / relative_tone ) { return string(tone.Diacritic['V'][l][0]) }
-ǒ <- [ǒǑŏŎ] / l:o ( caron_combiner / breve_combiner / relative_tone ) { return string(tone.Diacritic['V'][l][0]) }
-ě <- [ěĚĕĔ] / l:e ( caron_combiner / breve_combiner / relative_tone ) { return string(tone.Diacritic['V'][l][0]) }
+ǎ <- b:[ǎǍăĂ] { return string(tone.WithTone(b, 'V')) } / l:a ( caron_combiner / breve_combiner / relative_tone ) { return string(tone.Diacritic['V'][l][0]) }
+ǔ <- b:[ǔǓŭŬ] { return string(tone.WithTone(b, 'V')) } / l:u ( caron_combiner / breve_combiner / relative_tone ) { return string(tone.Diacritic['V'][l][0]) }
+ǐ <- b:[ǐǏĭĬ] { return string(tone.WithTone(b, 'V')) } / l:i ( caron_combiner / breve_combiner / relative_tone ) { return string(tone.Diacritic['V'][l][0]) }
+ǒ <- b:[ǒǑŏŎ] { return string(tone.WithTone(b, 'V')) } / l:o ( caron_combiner / breve_combiner / relative_tone ) { return string(tone.Diacritic['V'][l][0]) }
+ě <- b:[ěĚĕĔ] { return string(tone.WithTone(b, 'V')) } / l:e ( caron_combiner / breve_combiner / relative_tone ) { return string(tone.Diacritic['V'][l][0]) }
 caron_combiner "\u25CC\u030C" <- "\u030C"
 breve_combiner "\u25CC\u0306" <- "\u0306"
 relative_tone <- [V3]
-- 
2.43.0


From 48f53e6081c5226c25a7a6225711536bf970a55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:59 +0000
Subject: [PATCH 30/42] fix: simplification removes a description whose
 restriction equates other things
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

[ιX : J=‹gi›] does not say what X is, and [ιX : X=⌊X, J⌉] cannot be
substituted; removing the binding left X unbound, printed with the number
of another variable.
---
 logic/simplify.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/logic/simplify.go b/logic/simplify.go
index effe1c3..417521d 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -172,6 +172,10 @@ func sub(s *state, n *Binding) bool {
 			return false
 		}
 	}
+	if l.N != n.N || occurs(l.N, right) {
+		// This does not give the value of the bound variable.
+		return false
+	}
 	if s.predVars[l.N] {
 		// This variable is used as a predicate; we cannot substitute it.
 		return false
@@ -185,6 +189,17 @@ func sub(s *state, n *Binding) bool {
 	return true
 }
 
+// occurs returns whether variable number x occurs in a sub-tree.
+func occurs(x int, n Node) bool {
+	found := false
+	n.Visit(func(n Node) {
+		if v, ok := n.(*Variable); ok && v.N == x {
+			found = true
+		}
+	})
+	return found
+}
+
 func (n *Connection) simplifyStatement(s *state) Statement {
 	n.Left = n.Left.simplifyStatement(s)
 	n.Right = n.Right.simplifyStatement(s)
-- 
2.43.0


From 03b183b7819f95d5c038ef6cf574f8ab927a3247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:24 +0000
Subject: [PATCH 31/42] fix: a variable predicate is not substituted when its
 lambda is removed
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

{λY Y(Z)}(X) simplified to Y(Z), with Y bound by nothing.
---
 logic/simplify.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/logic/simplify.go b/logic/simplify.go
index 417521d..becf4c6 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -255,9 +255,18 @@ func lambdaSub(s *state, n *Predication, pred *Abstraction) Statement {
 		return nil
 	}
 
-	var i int
 	st := pred.Statement
-	for i = 0; i < nlambda; i++ {
+	for i := 0; i < nlambda; i++ {
+		b := st.(*Binding)
+		if _, ok := n.Arguments[i].(*Variable); !ok && s.predVars[b.N] {
+			// This variable is used as a predicate;
+			// we can only substitute another variable for it.
+			return nil
+		}
+		st = b.Scope
+	}
+	st = pred.Statement
+	for i := 0; i < nlambda; i++ {
 		b := st.(*Binding)
 		s.sub[b.N] = n.Arguments[i]
 		st = b.Scope
@@ -265,7 +274,12 @@ func lambdaSub(s *state, n *Predication, pred *Abstraction) Statement {
 	return st.simplifyStatement(s)
 }
 
-func (n *Variable) simplifyPredicate(s *state) Predicate { return n }
+func (n *Variable) simplifyPredicate(s *state) Predicate {
+	if v, ok := s.sub[n.N].(*Variable); ok {
+		return v
+	}
+	return n
+}
 
 func (n *Variable) simplifyArgument(s *state) Argument {
 	if a, ok := s.sub[n.N]; ok {
-- 
2.43.0


From 49c171f6e0f257da774c1f8825c465d1e3fad827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:46 +0000
Subject: [PATCH 32/42] fix: a hi-phrase inside of another makes its own
 variable unbound
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

gi? hi po/ hi suq/ was [¿S : suq(U)] [¿R : raq(R, U)] gi(R).
---
 logic/interp.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 975cde9..f076369 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -167,11 +167,14 @@ func (interp *interpreter) subordinate(f func() Statement) Statement {
 
 	st := f()
 
-	scope := interp.varScope
+	scope := append([]varScope{}, interp.varScope...)
 	hiScope := interp.hiScope[len(interp.hiScope)-1]
+	for _, hi := range hiScope {
+		// A hi-binding can refer to those before it.
+		scope = append(scope, varScope{"", hi})
+	}
 	for i := len(hiScope) - 1; i >= 0; i-- {
 		hi := hiScope[i]
-		scope = append(scope, varScope{"", hi})
 		interp.clearHiFreeVarDefs(scope, hi)
 		st = bindScope(hi, st)
 		// It is not in scope outside of this statement,
-- 
2.43.0


From a3e5b073978b9677a817f764165f295298b6b4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:18 +0000
Subject: [PATCH 33/42] fix: variables bound within a roi-phrase are in scope
 after it

They are quantified in the restriction of the phrase's own variable.
---
 logic/interp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/logic/interp.go b/logic/interp.go
index f076369..3ce4ee5 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -761,6 +761,9 @@ func (interp *interpreter) adverb(n ast.Adverb, arg Argument) Statement {
 }
 
 func (interp *interpreter) roi(n *ast.CoPArgument) (*Binding, Argument) {
+	// Variables bound within are only in scope within the restriction.
+	defer func(s []varScope) { interp.varScope = s }(interp.varScope)
+
 	x := interp.newVar()
 	b := &Binding{N: x, Quantifier: The, AST: n}
 	a := &Variable{N: x, Def: b, AST: n}
-- 
2.43.0


From 33509a53eb6693bcee33272b505a9024e9354c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:30 +0000
Subject: [PATCH 34/42] fix: a description after a preposition is introduced
 twice

The rest of the sentence is interpreted a second time if it has free
variables. A description with a variable that the preposition binds
was introduced by both.
---
 logic/interp.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/logic/interp.go b/logic/interp.go
index 3ce4ee5..7a4ae0f 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -103,6 +103,23 @@ func (interp *interpreter) popHoa() {
 	interp.hoaScope = interp.hoaScope[:len(interp.hoaScope)-1]
 }
 
+// saveLifted returns a function that forgets
+// all bindings lifted after the call to saveLifted.
+func (interp *interpreter) saveLifted() func() {
+	theScope := interp.theScope
+	top := len(interp.hiScope) - 1
+	hi := interp.hiScope[top]
+	lifted := make(map[ast.Argument]*Binding)
+	for n, b := range interp.liftedScope {
+		lifted[n] = b
+	}
+	return func() {
+		interp.theScope = theScope
+		interp.hiScope[top] = hi
+		interp.liftedScope = lifted
+	}
+}
+
 func (interp *interpreter) text(n *ast.Text) Statement {
 	return interp.discourse(&n.Discourse)
 }
@@ -612,8 +629,11 @@ func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatemen
 		st := interp.prenexStatement(args, n, terms[1:])
 		return bindScope(b, st)
 	case ast.Preposition:
+		undo := interp.saveLifted()
 		sub := interp.prenexStatement(args, n, terms[1:])
 		if interp.hasFreeVars(sub) {
+			// It is interpreted again in the scope of the arguments.
+			undo()
 			return interp.preposition(t, &statementTail{args, n, terms[1:]})
 		}
 		x := interp.newVar()
-- 
2.43.0


From 6d8f10c96286796dfa8fb292c87848dfb1ba7b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:51 +0000
Subject: [PATCH 35/42] fix: variables bound in one alternative of a roi-phrase
 are in scope in the other

Close their scope where their quantifier ends, as for other arguments.
---
 logic/interp.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 7a4ae0f..0fab3ac 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -781,9 +781,6 @@ func (interp *interpreter) adverb(n ast.Adverb, arg Argument) Statement {
 }
 
 func (interp *interpreter) roi(n *ast.CoPArgument) (*Binding, Argument) {
-	// Variables bound within are only in scope within the restriction.
-	defer func(s []varScope) { interp.varScope = s }(interp.varScope)
-
 	x := interp.newVar()
 	b := &Binding{N: x, Quantifier: The, AST: n}
 	a := &Variable{N: x, Def: b, AST: n}
@@ -792,6 +789,8 @@ func (interp *interpreter) roi(n *ast.CoPArgument) (*Binding, Argument) {
 }
 
 func (interp *interpreter) roiLeft(x *Variable, left, right ast.Argument) Statement {
+	defer func(s []varScope) { interp.varScope = s }(interp.varScope)
+
 	var a Argument
 	var b *Binding
 	switch n := left.(type) {
@@ -815,6 +814,8 @@ func (interp *interpreter) roiLeft(x *Variable, left, right ast.Argument) Statem
 }
 
 func (interp *interpreter) roiRight(x *Variable, left Argument, right ast.Argument) Statement {
+	defer func(s []varScope) { interp.varScope = s }(interp.varScope)
+
 	var a Argument
 	var b *Binding
 	switch n := right.(type) {
-- 
2.43.0


From a63ed084a754af97c45f6bf01c450418cc7d01db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:29 +0000
Subject: [PATCH 36/42] fix: interpreting a to-connected predicate in argument
 tone panics

gi? to ru ji/ to suq? has an argument node on the left of the connection.
---
 logic/interp.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index 0fab3ac..7f472dc 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -411,9 +411,15 @@ func (interp *interpreter) predicate(n ast.Predicate) interface{} {
 		// If we keep lo?, it's just a content: (λX X = {...})
 		return &Abstraction{Statement: bindScope(b, st), AST: n}
 	case *ast.CoPPredicate:
+		left := n.Left
+		if a, ok := left.(*ast.PredicateArgument); ok {
+			// In **to ru ji/ to suq?**, the left side is parsed as an argument,
+			// which never has a quantifier or relative clause of its own.
+			left = a.Predicate
+		}
 		return &predConnection{
 			con:   connector(n.RU),
-			left:  interp.predicate(n.Left.(ast.Predicate)),
+			left:  interp.predicate(left.(ast.Predicate)),
 			right: interp.predicate(n.Right.(ast.Predicate)),
 			AST:   n,
 		}
-- 
2.43.0


From e6d75c0bbd01ab4a7e7115f697a223fce0304925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:37 +0000
Subject: [PATCH 37/42] fix: a dictionary entry is filed under a headword with
 a tone mark

---
 dict/words.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dict/words.go b/dict/words.go
index 0ab653f..5a05ff3 100644
--- a/dict/words.go
+++ b/dict/words.go
@@ -2,4 +2,4 @@ package dict
 
 // Words contains the dictionary of words.
 // Last updated: 2019-06-30 00:15:47.830382702 +0200 CEST m=+3.632452927.
-var Words = map[string]Word{" boqsiashe": Word{Word: " boqsiashe", Def: "tende", By: "spreadsheet", Score: 0}, " chaqmuo": Word{Word: " chaqmuo", Def: "▯ occurs for an entire day", By: "seaqtaq", Score: 0}, " daqfia saqjue nei jue meaheo da.": Word{Word: " daqfia saqjue nei jue meaheo da.", Def: "(A0144) March comes before the 9 other months.", By: "examples", Score: 0}, " diaijue pa jaq suao jie poji naqpao da. ": Word{Word: " diaijue pa jaq suao jie poji naqpao da. ", Def: "(A0152) July is very important to my dad.", By: "examples", Score: 0}, " diomuo": Word{Word: " diomuo", Def: "▯ occurs for an entire daytime", By: "seaqtaq", Score: 0}, "( bu ( pu ( biaq mai ) ) ) liqdeo ji.": Word{Word: "( bu ( pu ( biaq mai ) ) ) liqdeo ji.", Def: "(SRP.4) The girl did not love me enough.", By: "official", Score: 0}, "(gea)buaijio": Word{Word: "(gea)buaijio", Def: "▯ is a tower", By: "seaqtaq", Score: 0}, "(jio)luko": Word{Word: "(jio)luko", Def: "dog", By: "spreadsheet", Score: -1}, "(mi) gaiha": Word{Word: "(mi) gaiha", Def: "Earth (planet)", By: "spreadsheet", Score: 0}, "(mi) guaqkioq": Word{Word: "(mi) guaqkioq", Def: "Earth (planet)", By: "spreadsheet", Score: 0}, "(nui)pionuq": Word{Word: "(nui)pionuq", Def: "(fork of #xz315kPZa) ▯ is a crocodile.", By: "seaqtaq", Score: 0}, "(pai)muqduo": Word{Word: "(pai)muqduo", Def: "▯waves at▯", By: "seaqtaq", Score: 0}, "(req)ruodiu": Word{Word: "(req)ruodiu", Def: "▯is psychology", By: "seaqtaq", Score: 0}, "(tue) guasoi": Word{Word: "(tue) guasoi", Def: "war", By: "spreadsheet", Score: 0}, "@toacia": Word{Word: "@toacia", Def: "▯ is a pie", By: "seaqtaq", Score: 0}, "a": Word{Word: "a", Def: "interjection: realization, \"aha!\"", By: "lynn", Score: 0}, "ba": Word{Word: "ba", Def: "illocution: ‘imperative’; imperative", By: "official", Score: 0}, "babado": Word{Word: "babado", Def: "▯ pertains to the culture of Barbados.", By: "countries", Score: 0}, "babadogua": Word{Word: "babadogua", Def: "▯ is the country Barbados.", By: "countries", Score: 0}, "babadotoaq": Word{Word: "babadotoaq", Def: "▯ is (one of) the language(s) spoken in Barbados.", By: "countries", Score: 0}, "babue": Word{Word: "babue", Def: "▯ is a member of genus Papio (the baboons).", By: "Hoemai", Score: 0}, "baga": Word{Word: "baga", Def: "pull", By: "spreadsheet", Score: 0}, "bahama": Word{Word: "bahama", Def: "▯ pertains to the culture of The Bahamas → Bahamas, The.", By: "countries", Score: 0}, "bahamagua": Word{Word: "bahamagua", Def: "▯ is the country The Bahamas → Bahamas, The.", By: "countries", Score: 0}, "bahamatoaq": Word{Word: "bahamatoaq", Def: "▯ is (one of) the language(s) spoken in The Bahamas → Bahamas, The.", By: "countries", Score: 0}, "bai": Word{Word: "bai", Def: "chỏq dóshī sa múoq tûa dóshī jîq dógū da", By: "uakci", Score: 0}, "baigiq": Word{Word: "baigiq", Def: "▯ disassembles/deconstructs ▯.", By: "Ilmen", Score: 0}, "bailoha": Word{Word: "bailoha", Def: "▯ is the metal iron", By: "seaqtaq", Score: 0}, "baipaq": Word{Word: "baipaq", Def: "part (component for assembling)", By: "spreadsheet", Score: 0}, "baise": Word{Word: "baise", Def: "artificial", By: "spreadsheet", Score: 0}, "baitoaq": Word{Word: "baitoaq", Def: "▯ is a constructed language / conlang.", By: "lynn", Score: 0}, "baja": Word{Word: "baja", Def: "bar, counter, barja", By: "spreadsheet", Score: -1}, "baka": Word{Word: "baka", Def: "cattle", By: "spreadsheet", Score: -1}, "bakajia": Word{Word: "bakajia", Def: "▯ pertains to the culture of Abkhazia → Abkhazia.", By: "countries", Score: 0}, "bakajiagua": Word{Word: "bakajiagua", Def: "▯ is the country Abkhazia → Abkhazia.", By: "countries", Score: 0}, "bakajiatoaq": Word{Word: "bakajiatoaq", Def: "▯ is (one of) the language(s) spoken in Abkhazia → Abkhazia.", By: "countries", Score: 0}, "bakamoqda": Word{Word: "bakamoqda", Def: "▯ is a Toaq illocution; ▯ is one of <ba>, <ka>, <moq>, and <da>.", By: "uakci", Score: 0}, "bakanueq": Word{Word: "bakanueq", Def: "▯ is beef", By: "seaqtaq", Score: 0}, "bake": Word{Word: "bake", Def: "▯ is a button", By: "seaqtaq", Score: -1}, "bana": Word{Word: "bana", Def: "mark (barna)", By: "spreadsheet", Score: -1}, "banaku": Word{Word: "banaku", Def: "▯ is a guanaco (Lama guanicoe).", By: "Hoemai", Score: 0}, "banuatu": Word{Word: "banuatu", Def: "▯ pertains to the culture of Vanuatu – Republic of Vanuatu.", By: "countries", Score: 0}, "banuatugua": Word{Word: "banuatugua", Def: "▯ is the country Vanuatu – Republic of Vanuatu.", By: "countries", Score: 0}, "banuatutoaq": Word{Word: "banuatutoaq", Def: "▯ is (one of) the language(s) spoken in Vanuatu – Republic of Vanuatu.", By: "countries", Score: 0}, "bao": Word{Word: "bao", Def: "rẻo sa báq mỉa gỉo dóshī da", By: "uakci", Score: 0}, "baobao": Word{Word: "baobao", Def: "dog", By: "spreadsheet", Score: 0}, "baogui": Word{Word: "baogui", Def: "predicate: ‘rice’; ▯ is rice.", By: "official", Score: 0}, "baoreo": Word{Word: "baoreo", Def: "predicate: ‘white’; ▯ is of white colour.", By: "official", Score: 0}, "baq": Word{Word: "baq", Def: "dóshī pa, tủq lî dủafūı ra rảqmōıfūı jẻo ja dó dógū da", By: "uakci", Score: 0}, "baq helu bi buai baq huohua da.": Word{Word: "baq helu bi buai baq huohua da.", Def: "(A0126) About elephants: they have long ears.", By: "examples", Score: 0}, "baq nao dui siq pa bue sia cie he da.": Word{Word: "baq nao dui siq pa bue sia cie he da.", Def: "(A0325) Water that is too pure is the home of no fish.", By: "examples", Score: 0}, "baq poq choasia pa soq li gi huosi baq ja poq da.": Word{Word: "baq poq choasia pa soq li gi huosi baq ja poq da.", Def: "(A0327) A silent man is the best one to listen to.", By: "examples", Score: 0}, "baqbu": Word{Word: "baqbu", Def: "bamboo", By: "spreadsheet", Score: 0}, "baqcho": Word{Word: "baqcho", Def: "▯ likes things that satisfy property ▯; ▯ likes all that ▯'s.", By: "Ilmen", Score: 0}, "baqdaki": Word{Word: "baqdaki", Def: "▯ is a member of the species Solanum melongena (eggplant/aubergine).", By: "Hoemai", Score: 0}, "baqfaq": Word{Word: "baqfaq", Def: "Gnomic Aspect", By: "spreadsheet", Score: 0}, "baqjo": Word{Word: "baqjo", Def: "▯ is a banjo.", By: "Ilmen", Score: 0}, "baqladeshi": Word{Word: "baqladeshi", Def: "▯ pertains to the culture of Bangladesh – People's Republic of Bangladesh.", By: "countries", Score: 0}, "baqladeshigua": Word{Word: "baqladeshigua", Def: "▯ is the country Bangladesh – People's Republic of Bangladesh.", By: "countries", Score: 0}, "baqladeshitoaq": Word{Word: "baqladeshitoaq", Def: "▯ is (one of) the language(s) spoken in Bangladesh – People's Republic of Bangladesh.", By: "countries", Score: 0}, "baqsiu": Word{Word: "baqsiu", Def: "▯ is similar to the generic exemplifier of the property ▯.", By: "Ilmen", Score: 0}, "baqtue": Word{Word: "baqtue", Def: "bảq\u00a0tủe ▯ ▯", By: "fagri", Score: -1}, "barabara": Word{Word: "barabara", Def: "▯ is barbarous.", By: "Ilmen", Score: 0}, "baraini": Word{Word: "baraini", Def: "▯ pertains to the culture of Bahrain – Kingdom of Bahrain.", By: "countries", Score: 0}, "barainigua": Word{Word: "barainigua", Def: "▯ is the country Bahrain – Kingdom of Bahrain.", By: "countries", Score: 0}, "barainitoaq": Word{Word: "barainitoaq", Def: "▯ is (one of) the language(s) spoken in Bahrain – Kingdom of Bahrain.", By: "countries", Score: 0}, "barajiu": Word{Word: "barajiu", Def: "▯ pertains to the culture of Brazil – Federative Republic of Brazil.", By: "countries", Score: 0}, "barajiugua": Word{Word: "barajiugua", Def: "▯ is the country Brazil – Federative Republic of Brazil.", By: "countries", Score: 0}, "barajiutoaq": Word{Word: "barajiutoaq", Def: "▯ is (one of) the language(s) spoken in Brazil – Federative Republic of Brazil.", By: "countries", Score: 0}, "barala": Word{Word: "barala", Def: "▯ is a member of genus Varanus (the monitor lizards).", By: "Hoemai", Score: 0}, "bariqci": Word{Word: "bariqci", Def: "▯ is a plant belonging to the Oryza genus.", By: "Ilmen", Score: 0}, "basue": Word{Word: "basue", Def: "I ask you to make it so that ▯/0 happens.", By: "uakci", Score: 0}, "bata": Word{Word: "bata", Def: "butter", By: "spreadsheet", Score: 0}, "batata": Word{Word: "batata", Def: "predicate: ‘potato’; ▯ is a potato.", By: "official", Score: 0}, "batikaq": Word{Word: "batikaq", Def: "▯ pertains to the culture of Vatican City – Vatican City State.", By: "countries", Score: 0}, "batikaqgua": Word{Word: "batikaqgua", Def: "▯ is the country Vatican City – Vatican City State.", By: "countries", Score: 0}, "batikaqtoaq": Word{Word: "batikaqtoaq", Def: "▯ is (one of) the language(s) spoken in Vatican City – Vatican City State.", By: "countries", Score: 0}, "be": Word{Word: "be", Def: "prefix binary operator: bind second place of following predicate to the noun phrase that follows; be V N ∈ RAI.", By: "uakci", Score: 0}, "bea": Word{Word: "bea", Def: "predicate: ‘hinge.joint’; ▯ is a knee/elbow/knuckle.", By: "official", Score: 0}, "beagoa": Word{Word: "beagoa", Def: "▯ is a corner.", By: "Ilmen", Score: 0}, "beapue": Word{Word: "beapue", Def: "▯ is an arthropod.", By: "Hoemai", Score: 0}, "beapueq": Word{Word: "beapueq", Def: "▯ knuckle-walks.", By: "Ilmen", Score: 0}, "beapueqhe": Word{Word: "beapueqhe", Def: "▯ is a knuckle-walker.", By: "Ilmen", Score: 0}, "beaq": Word{Word: "beaq", Def: "rod", By: "spreadsheet", Score: 0}, "beaqchea": Word{Word: "beaqchea", Def: "▯ is an umbrella.", By: "Ilmen", Score: 0}, "beaqme": Word{Word: "beaqme", Def: "▯ is a ladder.", By: "uakci", Score: 0}, "beaqsiu": Word{Word: "beaqsiu", Def: "▯ pertains to the culture of Poland – Republic of Poland.", By: "seaqtaq", Score: 0}, "beatiai": Word{Word: "beatiai", Def: "▯ is a box with a hinged lid.", By: "Ilmen", Score: 0}, "bebe": Word{Word: "bebe", Def: "predicate: ‘baby’; ▯ is a baby.", By: "official", Score: 0}, "bebere": Word{Word: "bebere", Def: "▯ belongs to the Viverra taxonomic genus.", By: "Ilmen", Score: 0}, "befilanoi": Word{Word: "befilanoi", Def: "…", By: "uakci", Score: 0}, "bego": Word{Word: "bego", Def: "▯ is a member of genus Fagus (the beech trees).", By: "Hoemai", Score: 0}, "beheaq": Word{Word: "beheaq", Def: "egg", By: "spreadsheet", Score: -1}, "beheq": Word{Word: "beheq", Def: "▯ is pregnant.", By: "Ilmen", Score: 0}, "behiti": Word{Word: "behiti", Def: "▯ is a grapevine.", By: "Ilmen", Score: 0}, "bei": Word{Word: "bei", Def: "prefix: ‘emphasis’; puts emphasis on the following word", By: "official", Score: 0}, "bei bu jia niqguo kuq ji cu suq da!": Word{Word: "bei bu jia niqguo kuq ji cu suq da!", Def: "(A0479) I will *not* tell you again!", By: "examples", Score: 0}, "bei ji pa juaq mao meo kuai shoi roq da.": Word{Word: "bei ji pa juaq mao meo kuai shoi roq da.", Def: "(A0977) ", By: "examples", Score: 0}, "beiho": Word{Word: "beiho", Def: "▯ is wine (an alcoholic beverage made by fermenting the juice of grapes).", By: "Hoemai", Score: 0}, "beitua": Word{Word: "beitua", Def: "▯ emphasizes ▯.", By: "Ilmen", Score: 0}, "bekioq": Word{Word: "bekioq", Def: "egg", By: "spreadsheet", Score: -1}, "bekiqtaq": Word{Word: "bekiqtaq", Def: "▯ pertains to the culture of Uzbekistan – Republic of Uzbekistan.", By: "countries", Score: 0}, "bekiqtaqgua": Word{Word: "bekiqtaqgua", Def: "▯ is the country Uzbekistan – Republic of Uzbekistan.", By: "countries", Score: 0}, "bekiqtaqtoaq": Word{Word: "bekiqtaqtoaq", Def: "▯ is (one of) the language(s) spoken in Uzbekistan – Republic of Uzbekistan.", By: "countries", Score: 0}, "belarusi": Word{Word: "belarusi", Def: "▯ pertains to the culture of Belarus – Republic of Belarus.", By: "countries", Score: 0}, "belarusigua": Word{Word: "belarusigua", Def: "▯ is the country Belarus – Republic of Belarus.", By: "countries", Score: 0}, "belarusitoaq": Word{Word: "belarusitoaq", Def: "▯ is (one of) the language(s) spoken in Belarus – Republic of Belarus.", By: "countries", Score: 0}, "beleji": Word{Word: "beleji", Def: "▯ pertains to the culture of Belgium – Kingdom of Belgium.", By: "countries", Score: 0}, "belejigua": Word{Word: "belejigua", Def: "▯ is the country Belgium – Kingdom of Belgium.", By: "countries", Score: 0}, "belejitoaq": Word{Word: "belejitoaq", Def: "▯ is (one of) the language(s) spoken in Belgium – Kingdom of Belgium.", By: "countries", Score: 0}, "belije": Word{Word: "belije", Def: "▯ pertains to the culture of Belize.", By: "countries", Score: 0}, "belijegua": Word{Word: "belijegua", Def: "▯ is the country Belize.", By: "countries", Score: 0}, "belijetoaq": Word{Word: "belijetoaq", Def: "▯ is (one of) the language(s) spoken in Belize.", By: "countries", Score: 0}, "benejuela": Word{Word: "benejuela", Def: "▯ pertains to the culture of Venezuela – Bolivarian Republic of Venezuela.", By: "countries", Score: 0}, "benejuelagua": Word{Word: "benejuelagua", Def: "▯ is the country Venezuela – Bolivarian Republic of Venezuela.", By: "countries", Score: 0}, "benejuelatoaq": Word{Word: "benejuelatoaq", Def: "▯ is (one of) the language(s) spoken in Venezuela – Bolivarian Republic of Venezuela.", By: "countries", Score: 0}, "beniq": Word{Word: "beniq", Def: "▯ pertains to the culture of Benin – Republic of Benin[i].", By: "countries", Score: 0}, "beniqgua": Word{Word: "beniqgua", Def: "▯ is the country Benin – Republic of Benin[i].", By: "countries", Score: 0}, "beniqtoaq": Word{Word: "beniqtoaq", Def: "▯ is (one of) the language(s) spoken in Benin – Republic of Benin[i].", By: "countries", Score: 0}, "beniu": Word{Word: "beniu", Def: "sapling", By: "spreadsheet", Score: 0}, "beo": Word{Word: "beo", Def: "= [X2] Sa dósāq sa dójō bủ dỏsāq bı lẻaqshīu lû sa dỏgū dóshī dósāq ru sıa dójō na lû sa dỏgū dóshī sıa dósāq ru dójō.", By: "Ilmen", Score: 1}, "beodai": Word{Word: "beodai", Def: "▯ is a variable (mathematics).", By: "Hoemai", Score: 1}, "beodo": Word{Word: "beodo", Def: "▯ is a variable; ▯ is a property which at, any given point in context space, is satisfied by exactly one maximal reference.", By: "uakci", Score: 0}, "beodoa": Word{Word: "beodoa", Def: "modify, galfi", By: "spreadsheet", Score: 0}, "beokopi": Word{Word: "beokopi", Def: "▯ is a fork (modified copy) of ▯.", By: "Ilmen", Score: 0}, "beoli": Word{Word: "beoli", Def: "What has the property ▯ changes.", By: "Ilmen", Score: 0}, "beoq": Word{Word: "beoq", Def: "▯ is a base, foundation of ▯.", By: "uakci", Score: 0}, "beoqsai": Word{Word: "beoqsai", Def: "▯ is a chemical", By: "seaqtaq", Score: 0}, "beoqshai": Word{Word: "beoqshai", Def: "▯ slips.", By: "uakci", Score: -1}, "beotua": Word{Word: "beotua", Def: "modify, galfi", By: "spreadsheet", Score: 0}, "beq": Word{Word: "beq", Def: "predicate: ‘extrusion’; ▯ is an extrusion/swelling/convex.", By: "official", Score: 0}, "beqde": Word{Word: "beqde", Def: "team/group/band/gang ()", By: "spreadsheet", Score: -2}, "beqgiq": Word{Word: "beqgiq", Def: "concavity, depression", By: "spreadsheet", Score: -1}, "beqheq": Word{Word: "beqheq", Def: "▯ is the convex hull of ▯.", By: "lynn", Score: 0}, "beqra": Word{Word: "beqra", Def: "▯ is a date palm (genus Phoenix).", By: "Hoemai", Score: 0}, "bera": Word{Word: "bera", Def: "borrow", By: "spreadsheet", Score: -1}, "beratoa": Word{Word: "beratoa", Def: "loanword", By: "spreadsheet", Score: -1}, "besioq": Word{Word: "besioq", Def: "version", By: "spreadsheet", Score: 0}, "beta": Word{Word: "beta", Def: "▯ is a plant belonging to the Beta genus.", By: "Ilmen", Score: 0}, "beu": Word{Word: "beu", Def: "▯ is much the case relatively to how much it is the case for ▯; ▯ has property ▯ to a great extent relatively to how much ▯ have that property; the amount of ▯ having property ▯ is greater than the average among ▯.", By: "Ilmen", Score: 0}, "bi": Word{Word: "bi", Def: "particle: ‘:’; terminates prenex", By: "official", Score: 0}, "bia": Word{Word: "bia", Def: "predicate: ‘sick’; ▯ is sick/ill; ▯ is sick/ill with ▯.", By: "official", Score: 0}, "bia ho da.": Word{Word: "bia ho da.", Def: "(A0018) He is sick.", By: "examples", Score: 0}, "biadiu": Word{Word: "biadiu", Def: "medicine (science)", By: "spreadsheet", Score: 0}, "biajio": Word{Word: "biajio", Def: "predicate: ‘hospital’; ▯ is a hospital.", By: "official", Score: 0}, "biao": Word{Word: "biao", Def: "predicate: ‘confused’; ▯ is confused.", By: "official", Score: 0}, "biaobia": Word{Word: "biaobia", Def: "▯ is drunk.", By: "uakci", Score: 0}, "biaokoi": Word{Word: "biaokoi", Def: "▯ stumbles / staggers / lurches / flounders.", By: "lynn", Score: 1}, "biaonao": Word{Word: "biaonao", Def: "▯ is alcohol.", By: "Ilmen", Score: 1}, "biaq": Word{Word: "biaq", Def: "▯ satisfies property ▯ enough to satisfy property ▯", By: "fagri", Score: 0}, "biaqdui": Word{Word: "biaqdui", Def: "▯(0) is redundant\u00a0", By: "seaqtaq", Score: 0}, "biasai": Word{Word: "biasai", Def: "▯ is toxic/poison/venom.", By: "Ilmen", Score: 0}, "biashua": Word{Word: "biashua", Def: "▯ a tombé malade. [définition d’Ilmen]", By: "uakci", Score: -1}, "biatacha": Word{Word: "biatacha", Def: "▯ is a member of the family Blattaria (cockroaches).", By: "Hoemai", Score: 0}, "biatue": Word{Word: "biatue", Def: "disease", By: "spreadsheet", Score: 0}, "bideo": Word{Word: "bideo", Def: "predicate: ‘video’; ▯ is a video.", By: "official", Score: 0}, "bideoluaqmu": Word{Word: "bideoluaqmu", Def: "▯ is a video game.", By: "lynn", Score: 0}, "bie": Word{Word: "bie", Def: "≈ [00] Sỉe dóshī dógū pó dáq.", By: "Ilmen", Score: 0}, "biejao": Word{Word: "biejao", Def: "predicate: ‘long.after’; ▯ takes place long after ▯.", By: "official", Score: 0}, "biejaqguo": Word{Word: "biejaqguo", Def: "▯ occurs for the first time in a long time.", By: "Ilmen", Score: 0}, "biejui": Word{Word: "biejui", Def: "predicate: ‘shortly.after’; ▯ takes place shortly after ▯.", By: "official", Score: 0}, "biejui bi shai ruqshua": Word{Word: "biejui bi shai ruqshua", Def: "(B0029) Soon the rain stopped", By: "oldexamples", Score: 0}, "biekao": Word{Word: "biekao", Def: "▯ is a will ", By: "seaqtaq", Score: 0}, "biemiu": Word{Word: "biemiu", Def: "foresee", By: "spreadsheet", Score: 0}, "bienaq": Word{Word: "bienaq", Def: "▯ pertains to the culture of Vietnam – Socialist Republic of Vietnam.", By: "countries", Score: 0}, "bienaqgua": Word{Word: "bienaqgua", Def: "▯ is the country Vietnam – Socialist Republic of Vietnam.", By: "countries", Score: 0}, "bienaqtoaq": Word{Word: "bienaqtoaq", Def: "▯ is (one of) the language(s) spoken in Vietnam – Socialist Republic of Vietnam.", By: "countries", Score: 0}, "biene": Word{Word: "biene", Def: "temci", By: "spreadsheet", Score: -1}, "bifi": Word{Word: "bifi", Def: "▯ is wifi", By: "seaqtaq", Score: 0}, "bihi": Word{Word: "bihi", Def: "bee, bifce", By: "spreadsheet", Score: -1}, "bihoi": Word{Word: "bihoi", Def: "Anaphoric pronoun: refers back to the last argument that appeared in a prenex.", By: "Ilmen", Score: 0}, "bikini": Word{Word: "bikini", Def: "predicate: ‘bikini’; ▯ is a bikini.", By: "official", Score: 0}, "biliada": Word{Word: "biliada", Def: "▯ is billiards/pool (game).", By: "Hoemai", Score: 0}, "bio": Word{Word: "bio", Def: "predicate: ‘cup’; ▯ is a cup/glass.", By: "official", Score: 0}, "biq": Word{Word: "biq", Def: "predicate: ‘thousand’; ▯ are a thousand in number.", By: "official", Score: 0}, "biqbiq": Word{Word: "biqbiq", Def: "▯ is a million.", By: "uakci", Score: 0}, "bira": Word{Word: "bira", Def: "predicate: ‘beer’; ▯ is beer.", By: "official", Score: 0}, "birai": Word{Word: "birai", Def: "▯ is the topic (prenex) of this sentence.", By: "uakci", Score: 0}, "biriqji": Word{Word: "biriqji", Def: "▯ is a member of genus Oryza (rice).", By: "Hoemai", Score: 0}, "biru": Word{Word: "biru", Def: "▯ is a virus (infectious agent).", By: "Ilmen", Score: 0}, "bisaq": Word{Word: "bisaq", Def: "▯ is a member of genus Bison (the bisons).", By: "Hoemai", Score: 0}, "biti": Word{Word: "biti", Def: "▯ is a grapevine.", By: "Ilmen", Score: 0}, "bitiheu": Word{Word: "bitiheu", Def: "▯ is grape.", By: "Ilmen", Score: 0}, "bitiheume": Word{Word: "bitiheume", Def: "▯ is a bunch of grapes.", By: "Ilmen", Score: 0}, "biu": Word{Word: "biu", Def: "predicate: ‘tube’; ▯ is a tube.", By: "official", Score: 0}, "biucheoq": Word{Word: "biucheoq", Def: "▯ is a tube (container).", By: "seaqtaq", Score: 0}, "biuniai": Word{Word: "biuniai", Def: "▯ is a worm.", By: "Ilmen", Score: 0}, "biushoaicia": Word{Word: "biushoaicia", Def: "predicate: ‘flea’; ▯ is a flea.", By: "official", Score: 0}, "biutoai": Word{Word: "biutoai", Def: "▯ is a ring (shape).", By: "Ilmen", Score: 0}, "biutoaihaq": Word{Word: "biutoaihaq", Def: "▯ is a bagel/donut", By: "seaqtaq", Score: 0}, "bo": Word{Word: "bo", Def: "predicate: ‘have’; ▯ has/possesses ▯.", By: "official", Score: 0}, "bo ho sa pui geo kue da.": Word{Word: "bo ho sa pui geo kue da.", Def: "(A0240) He has some old books.", By: "examples", Score: 0}, "bo hoi poq sia nuai da.": Word{Word: "bo hoi poq sia nuai da.", Def: "(A0308) The afermentioned people have no money.", By: "examples", Score: 0}, "bo ji sa shi baoreo kaifua ru sa shi kuoreo kaifua da.": Word{Word: "bo ji sa shi baoreo kaifua ru sa shi kuoreo kaifua da.", Def: "(A0225) I have a white desk and a black desk.", By: "examples", Score: 0}, "boa": Word{Word: "boa", Def: "neck (BOA)", By: "spreadsheet", Score: -1}, "boai": Word{Word: "boai", Def: "▯ yields to, surrenders to, gives up to ▯. [opposite of #fea]", By: "uakci", Score: 2}, "boaihe": Word{Word: "boaihe", Def: "▯ is submissive (personality-wise)", By: "seaqtaq", Score: 0}, "boaikuai": Word{Word: "boaikuai", Def: "▯ is compliant/submissive", By: "seaqtaq", Score: 0}, "boao": Word{Word: "boao", Def: "▯ knows the answer to ▯ (indirect question)", By: "fagri", Score: 0}, "boaq": Word{Word: "boaq", Def: "predicate: ‘shadow’; ▯ is a shadow; ▯ is a shadow of ▯.", By: "official", Score: 0}, "boaqhuoi": Word{Word: "boaqhuoi", Def: "▯ is a tree squirrel; ▯ belongs to the Sciurus taxonomic genus.", By: "Ilmen", Score: 0}, "boaqhuoisiu": Word{Word: "boaqhuoisiu", Def: "▯ is a squirrel.", By: "Ilmen", Score: 0}, "boaqreo": Word{Word: "boaqreo", Def: "▯ is colored some dark color (not necessarily black)", By: "fagri", Score: 0}, "boceo": Word{Word: "boceo", Def: "▯acquires▯", By: "seaqtaq", Score: 0}, "bodoa": Word{Word: "bodoa", Def: "predicate: ‘give’; ▯ gives possession of ▯ to ▯.", By: "official", Score: 0}, "bodoa ji cu ho ni tiai.": Word{Word: "bodoa ji cu ho ni tiai.", Def: "(LIN.1) I give to them this box.", By: "official", Score: 0}, "boe": Word{Word: "boe", Def: "predicate: ‘leaf’; ▯ is a leaf/sheet.", By: "official", Score: 0}, "boe(siu)guaq": Word{Word: "boe(siu)guaq", Def: "▯ is a plain", By: "seaqtaq", Score: 0}, "boehaq": Word{Word: "boehaq", Def: "▯ is a pancake", By: "seaqtaq", Score: 0}, "boejio": Word{Word: "boejio", Def: "▯ is a tent", By: "fagri", Score: 0}, "boeme": Word{Word: "boeme", Def: "▯ is a salad of ▯ (= me2).", By: "uakci", Score: 0}, "boepata": Word{Word: "boepata", Def: "▯ is a chip", By: "seaqtaq", Score: 0}, "boesiu": Word{Word: "boesiu", Def: "flat", By: "spreadsheet", Score: 0}, "boeteimuhuaqtuamu": Word{Word: "boeteimuhuaqtuamu", Def: "▯ is flattered.", By: "uakci", Score: 0}, "boetuo": Word{Word: "boetuo", Def: "▯ is a sloth.", By: "Ilmen", Score: 0}, "bohiaq": Word{Word: "bohiaq", Def: "predicate: ‘poor’; ▯ is poor/unwealthy.", By: "official", Score: 0}, "boi": Word{Word: "boi", Def: "rảo dóshī tu lú bủ shỉu hóa dógū da", By: "uakci", Score: 0}, "boi neijue bi, duq fa jí chíejīo da.": Word{Word: "boi neijue bi, duq fa jí chíejīo da.", Def: "(A0155) Starting September, I'll be going to school.", By: "examples", Score: 0}, "boi ru nai noaqchoa ji": Word{Word: "boi ru nai noaqchoa ji", Def: "(B0054) I have been reading aloud", By: "examples", Score: 0}, "bojea": Word{Word: "bojea", Def: "(fork of #CVROI7VgF) ▯ buys possesion of ▯", By: "seaqtaq", Score: 0}, "bojeo": Word{Word: "bojeo", Def: "▯ is such that all referents of ▯ they they possess satisfy the property ▯.", By: "uakci", Score: 0}, "boke": Word{Word: "boke", Def: "cattle", By: "spreadsheet", Score: 0}, "bokenio": Word{Word: "bokenio", Def: "calf", By: "spreadsheet", Score: 0}, "bolibia": Word{Word: "bolibia", Def: "▯ pertains to the culture of Bolivia – Plurinational State of Bolivia.", By: "countries", Score: 0}, "bolibiagua": Word{Word: "bolibiagua", Def: "▯ is the country Bolivia – Plurinational State of Bolivia.", By: "countries", Score: 0}, "bolibiatoaq": Word{Word: "bolibiatoaq", Def: "▯ is (one of) the language(s) spoken in Bolivia – Plurinational State of Bolivia.", By: "countries", Score: 0}, "bomia": Word{Word: "bomia", Def: "predicate: ‘rich’; ▯ is rich/wealthy.", By: "official", Score: 0}, "bona": Word{Word: "bona", Def: "wave", By: "spreadsheet", Score: -1}, "bona sforza": Word{Word: "bona sforza", Def: "\u200b", By: "uakci", Score: 0}, "bone": Word{Word: "bone", Def: "predicate: ‘wealth’; ▯ is the amount of ▯'s wealth.", By: "official", Score: 0}, "bonua": Word{Word: "bonua", Def: "predicate: ‘take’; ▯ takes possession of ▯ from ▯.", By: "official", Score: 0}, "boq": Word{Word: "boq", Def: "predicate: ‘prevent’; ▯ prevents ▯.", By: "oldofficial", Score: -1}, "boqbu": Word{Word: "boqbu", Def: "despite", By: "spreadsheet", Score: 0}, "boqcia": Word{Word: "boqcia", Def: "free", By: "spreadsheet", Score: 0}, "boqgiq": Word{Word: "boqgiq", Def: "▯ encourages/facilitates ▯ to occur", By: "seaqtaq", Score: -1}, "boqleo": Word{Word: "boqleo", Def: "resist", By: "spreadsheet", Score: 0}, "boqte": Word{Word: "boqte", Def: "▯ is prevented from happening.", By: "uakci", Score: 0}, "bose": Word{Word: "bose", Def: "predicate: ‘wasp’; ▯ is a wasp.", By: "official", Score: 0}, "boseaq": Word{Word: "boseaq", Def: "▯ practises (practices) BDSM with ▯.", By: "uakci", Score: 0}, "boshai": Word{Word: "boshai", Def: "(fork of official) predicate: ‘lose’; ▯ loses ▯.", By: "uakci", Score: 0}, "boshaitao": Word{Word: "boshaitao", Def: "▯ discards/abandons/relinquishes/throws away ▯.", By: "Ilmen", Score: 0}, "bosho": Word{Word: "bosho", Def: "▯ gains/acquires/gets ▯", By: "seaqtaq", Score: 0}, "bosuana": Word{Word: "bosuana", Def: "▯ pertains to the culture of Botswana – Republic of Botswana.", By: "countries", Score: 0}, "bosuanagua": Word{Word: "bosuanagua", Def: "▯ is the country Botswana – Republic of Botswana.", By: "countries", Score: 0}, "bosuanatoaq": Word{Word: "bosuanatoaq", Def: "▯ is (one of) the language(s) spoken in Botswana – Republic of Botswana.", By: "countries", Score: 0}, "bosue": Word{Word: "bosue", Def: "▯ requests from ▯ (to have) ▯; ▯ asks ▯ for ▯", By: "seaqtaq", Score: 0}, "bu": Word{Word: "bu", Def: "= gıq #jẻo", By: "uakci", Score: 0}, "bu bi ruqshua da.": Word{Word: "bu bi ruqshua da.", Def: "(PRX.3) It isn't raining.", By: "official", Score: 0}, "bu caidua ji. je, dai bia ho da.": Word{Word: "bu caidua ji. je, dai bia ho da.", Def: "(A0422) I'm not certain. Maybe he's ill.", By: "examples", Score: 0}, "bu cho ji baq bira da.": Word{Word: "bu cho ji baq bira da.", Def: "(A0017) I don't like beer.", By: "examples", Score: 0}, "bu cho ji chu ji baq poqme da.": Word{Word: "bu cho ji chu ji baq poqme da.", Def: "(A0348) I don't like being in the middle of a crowd.", By: "examples", Score: 0}, "bu cho ji ni kiq da.": Word{Word: "bu cho ji ni kiq da.", Def: "(A0247) I don't like this movie.", By: "examples", Score: 0}, "bu cho ji posuq se tua no kio bu due ki.": Word{Word: "bu cho ji posuq se tua no kio bu due ki.", Def: "(A0452) I don't like your translation ((it) isn't correct)", By: "examples", Score: 0}, "bu choaijaq maq da.": Word{Word: "bu choaijaq maq da.", Def: "(A0119) It isn't expensive.", By: "examples", Score: 0}, "bu chufaq kaqsi ji tibi da.": Word{Word: "bu chufaq kaqsi ji tibi da.", Def: "(A0537) I am not looking at tv right now.", By: "examples", Score: 0}, "bu chuq suq shamu ba.": Word{Word: "bu chuq suq shamu ba.", Def: "(A0178) Don't eat the apple.", By: "examples", Score: 0}, "bu chuqkuai ji, keo piekuai ji da.": Word{Word: "bu chuqkuai ji, keo piekuai ji da.", Def: "(A0508) I'm not hungry, but I am thirsty.", By: "examples", Score: 0}, "bu dai": Word{Word: "bu dai", Def: "predicate: ‘impossible’; ▯ is impossible.", By: "official", Score: 0}, "bu dai gaq fa ji da.": Word{Word: "bu dai gaq fa ji da.", Def: "(A0828) It won't be possible for me to go with.", By: "examples", Score: 0}, "bu dai hoq da.": Word{Word: "bu dai hoq da.", Def: "(A0052) It is not possible.", By: "examples", Score: 0}, "bu daqfai taoshao fa ji da.": Word{Word: "bu daqfai taoshao fa ji da.", Def: "(A0401) I don't often intend to go.", By: "examples", Score: 0}, "bu de ni puq tuifua keo tua foaq maq da.": Word{Word: "bu de ni puq tuifua keo tua foaq maq da.", Def: "(A0511) These chairs aren't pretty but they are comfortable.", By: "examples", Score: 0}, "bu deq hie ji ni kaifua da.": Word{Word: "bu deq hie ji ni kaifua da.", Def: "(A0224) I can't carry this desk.", By: "examples", Score: 0}, "bu deq kai ji baq lai da.": Word{Word: "bu deq kai ji baq lai da.", Def: "(A0226) I can't write letters (of the alphabet).", By: "examples", Score: 0}, "bu deq noaq ji da.": Word{Word: "bu deq noaq ji da.", Def: "(A0069) I can't read.", By: "examples", Score: 0}, "bu dua ji chua hi rai ni da.": Word{Word: "bu dua ji chua hi rai ni da.", Def: "(A0040) I don't know what this thing is named.", By: "examples", Score: 0}, "bu dua ji hi rai ni.": Word{Word: "bu dua ji hi rai ni.", Def: "(INT.7) I don't know what this is.", By: "official", Score: 0}, "bu dua ji huaqcho ho baq kafe ri baq chai da.": Word{Word: "bu dua ji huaqcho ho baq kafe ri baq chai da.", Def: "(A0335) I don't know whether he prefers coffee or tea.", By: "examples", Score: 0}, "bu dua ji ma hai biaq loq nao da.": Word{Word: "bu dua ji ma hai biaq loq nao da.", Def: "(A0292) I don't know whether the water is already sufficiently hot.", By: "examples", Score: 0}, "bu dua ji ti poji jaokuq hi rai da.": Word{Word: "bu dua ji ti poji jaokuq hi rai da.", Def: "(A0136) I don't know where my phone is.", By: "examples", Score: 0}, "bu dua ji tio sao maq da.": Word{Word: "bu dua ji tio sao maq da.", Def: "(A0578) I don't know how big it is.", By: "examples", Score: 0}, "bu dua ji. keo ruaq ho ku hoq ji ★ da.": Word{Word: "bu dua ji. keo ruaq ho ku hoq ji ★ da.", Def: "(A0421) I don't know. But this is what he told me.  [ruaq3?]", By: "examples", Score: 0}, "bu fai niaoshua rao gujue ti ji da.": Word{Word: "bu fai niaoshua rao gujue ti ji da.", Def: "(A0141) It doesn't often snow in February where I am.", By: "examples", Score: 0}, "bu gei ji baq jake rao baq loqcao da.": Word{Word: "bu gei ji baq jake rao baq loqcao da.", Def: "(A0265) I don't wear jackets in the summer.", By: "examples", Score: 0}, "bu ho ji da.": Word{Word: "bu ho ji da.", Def: "(A0482) I am not him.", By: "examples", Score: 0}, "bu hoq da.": Word{Word: "bu hoq da.", Def: "(A0083) It isn't.", By: "examples", Score: 0}, "bu hoq duafui da.": Word{Word: "bu hoq duafui da.", Def: "(A0192) It isn't, obviously.", By: "examples", Score: 0}, "bu hui hoi choaqjio da.": Word{Word: "bu hui hoi choaqjio da.", Def: "(A0124) The afermentioned hotel isn't bad.", By: "examples", Score: 0}, "bu jaq fai ni toa da.": Word{Word: "bu jaq fai ni toa da.", Def: "(A0447) This word isn't very frequent.", By: "examples", Score: 0}, "bu jaq gi ni choaqjio da.": Word{Word: "bu jaq gi ni choaqjio da.", Def: "(A0527) This hotel isn't very good.", By: "examples", Score: 0}, "bu jei ho ji da.": Word{Word: "bu jei ho ji da.", Def: "(A0482) I am not him.", By: "oldexamples", Score: 0}, "bu jei ji ho da": Word{Word: "bu jei ji ho da", Def: "(A0482) I am not him.", By: "oldexamples", Score: 0}, "bu jei ji ho da.": Word{Word: "bu jei ji ho da.", Def: "(A0482) I am not him.", By: "oldexamples", Score: 0}, "bu joe moaq ji da.": Word{Word: "bu joe moaq ji da.", Def: "(A0108) I don't have a good memory.", By: "examples", Score: 0}, "bu juoq meo ji keoru jeo meo.": Word{Word: "bu juoq meo ji keoru jeo meo.", Def: "(A0573) I shouldn't be sad but I indeed am.", By: "examples", Score: 0}, "bu kaqgai ji maq da.": Word{Word: "bu kaqgai ji maq da.", Def: "(A0197) I don't see it.", By: "examples", Score: 0}, "bu kiu riudoa fuq te gei da.": Word{Word: "bu kiu riudoa fuq te gei da.", Def: "(A0967) An article of clothing which has been worn is not able to be given back.", By: "examples", Score: 0}, "bu ko shi ji meo.": Word{Word: "bu ko shi ji meo.", Def: "(A0472) I am not among the first of those who are sad.", By: "examples", Score: 0}, "bu koa maq da.": Word{Word: "bu koa maq da.", Def: "(A0021) It is not cold.", By: "examples", Score: 0}, "bu luai hoq da.": Word{Word: "bu luai hoq da.", Def: "(A0263) It's not funny.", By: "examples", Score: 0}, "bu muidua ji da.": Word{Word: "bu muidua ji da.", Def: "(A0313) I don't understand.", By: "examples", Score: 0}, "bu naqfu ni deo ji da.": Word{Word: "bu naqfu ni deo ji da.", Def: "(A0301) This boy is not my son.", By: "examples", Score: 0}, "bu nie deo buajio da.": Word{Word: "bu nie deo buajio da.", Def: "(A0011) The children are not inside the house.", By: "examples", Score: 0}, "bu niq ni diaqkue da.": Word{Word: "bu niq ni diaqkue da.", Def: "(A0057) This monthly periodical is not new.", By: "examples", Score: 0}, "bu nuo ho duoi sa chaq fe ca jaq jaq nuokuai.": Word{Word: "bu nuo ho duoi sa chaq fe ca jaq jaq nuokuai.", Def: "(A0448) He hasn't slept for five days, causing (him) to be very very tired.", By: "examples", Score: 0}, "bu pie deo baq kafe ba.": Word{Word: "bu pie deo baq kafe ba.", Def: "(A0195) The child shouldn't drink coffee.", By: "examples", Score: 0}, "bu poji jaokuq ni da.": Word{Word: "bu poji jaokuq ni da.", Def: "(A0138) **This is not my phone.", By: "examples", Score: 0}, "bu ruqshua da.": Word{Word: "bu ruqshua da.", Def: "(A0539) It didn't rain.", By: "examples", Score: 0}, "bu suao ma moijoe suq da.": Word{Word: "bu suao ma moijoe suq da.", Def: "(A0288) It's not important whether you are smart or not.", By: "examples", Score: 0}, "bu taoshao daqfai fa ji da.": Word{Word: "bu taoshao daqfai fa ji da.", Def: "(A0398) I don't intend to go often.", By: "examples", Score: 0}, "bu taq shao fagaq ho, la cuakuqse da.": Word{Word: "bu taq shao fagaq ho, la cuakuqse da.", Def: "(A0623) She doesn't want to tag along (this sentence is (her) reply.)", By: "examples", Score: 0}, "bu teoqkuq kui hi rai moq": Word{Word: "bu teoqkuq kui hi rai moq", Def: "(A0566) Why don't you ask?", By: "examples", Score: 0}, "bu ti": Word{Word: "bu ti", Def: "predicate: ‘away’; ▯ is away; ▯ is not present at ▯.", By: "official", Score: 0}, "bu ti ho guairiaq da.": Word{Word: "bu ti ho guairiaq da.", Def: "(A0081) He isn't at work.", By: "examples", Score: 0}, "bu ti ho ni da.": Word{Word: "bu ti ho ni da.", Def: "(A0007) They are not here.", By: "examples", Score: 0}, "bu ti maq husona gua da.": Word{Word: "bu ti maq husona gua da.", Def: "(A0521) It is not in the United States.", By: "examples", Score: 0}, "bua": Word{Word: "bua", Def: "predicate: ‘inhabit’; ▯ inhabits ▯.", By: "official", Score: 0}, "bua ho merika da.": Word{Word: "bua ho merika da.", Def: "(A0135) He lives in America.", By: "examples", Score: 0}, "bua ji heoropa da.": Word{Word: "bua ji heoropa da.", Def: "(A0134) I live in Europe.", By: "examples", Score: 0}, "bua sa jo mi maria ni jio.": Word{Word: "bua sa jo mi maria ni jio.", Def: "(NAM.4) Four Marias live in this building.", By: "official", Score: 0}, "bua suq ti hi rai moq.": Word{Word: "bua suq ti hi rai moq.", Def: "(A0005) Where do you live?", By: "examples", Score: 0}, "buachao": Word{Word: "buachao", Def: "▯ is a van / mobile home / motor home.", By: "Ilmen", Score: 0}, "buai": Word{Word: "buai", Def: "▯ is [relatively] long; ▯ is as long as things which satisfy property ▯.", By: "uakci", Score: 0}, "buai poho shiaq da.": Word{Word: "buai poho shiaq da.", Def: "(A0721) She has long legs.", By: "examples", Score: 0}, "buaikioq": Word{Word: "buaikioq", Def: "▯ is a 3D oval shape (oblong sphere-like shape, similar to the shape of a bird's egg).", By: "Ilmen", Score: 1}, "buaikioqtei": Word{Word: "buaikioqtei", Def: "▯ is the oval shape", By: "fagri", Score: 0}, "buaikua": Word{Word: "buaikua", Def: "(fork of #SLZi6wb8_) ▯ is a hall.", By: "seaqtaq", Score: 0}, "buaitechuo": Word{Word: "buaitechuo", Def: "sword", By: "spreadsheet", Score: 0}, "buaitoq": Word{Word: "buaitoq", Def: "predicate: ‘plank’; ▯ is a plank.", By: "official", Score: 0}, "buajeq": Word{Word: "buajeq", Def: "▯ is a housemate/roommate/flatmate of ▯.", By: "Ilmen", Score: 0}, "buajio": Word{Word: "buajio", Def: "predicate: ‘house’; ▯ is a house (building for living in).", By: "official", Score: 0}, "buajio maq da.": Word{Word: "buajio maq da.", Def: "(A0008) It's a house.", By: "examples", Score: 0}, "buame": Word{Word: "buame", Def: "population", By: "spreadsheet", Score: 0}, "buaq": Word{Word: "buaq", Def: "= #leo ru bủ", By: "uakci", Score: 0}, "buaq gai": Word{Word: "buaq gai", Def: "predicate: ‘miss’; ▯ misses ▯; ▯ fails to observe ▯.", By: "official", Score: 0}, "buaqfei": Word{Word: "buaqfei", Def: "frustrated", By: "spreadsheet", Score: 0}, "buaqmeo": Word{Word: "buaqmeo", Def: "frustrated", By: "spreadsheet", Score: 0}, "buaqroa": Word{Word: "buaqroa", Def: "▯ attempts to do ▯ without further thought, that action being an end in itself and not a step in a progressive effort to achieve another goal, but that attempt ends in a failure.", By: "Ilmen", Score: 1}, "buba": Word{Word: "buba", Def: "▯ is a naysayer.", By: "uakci", Score: 0}, "bubiaqcuetue": Word{Word: "bubiaqcuetue", Def: "▯ is hypocrisy", By: "seaqtaq", Score: -1}, "buboqkiu": Word{Word: "buboqkiu", Def: "predicate: ‘inevitable’; ▯ is inevitable.", By: "official", Score: 0}, "bubu": Word{Word: "bubu", Def: "▯ is not not the case; It's not the case that ▯ isn't the case; ▯ indeed is the case.", By: "uakci", Score: 0}, "buca": Word{Word: "buca", Def: "predicate: ‘prevent’; That ▯ is the case prevents ▯ from being the case.", By: "Ilmen", Score: 1}, "buda": Word{Word: "buda", Def: "▯ is a buddha.", By: "Ilmen", Score: 1}, "budachuaq": Word{Word: "budachuaq", Def: "▯ is Buddhism.", By: "Ilmen", Score: 0}, "budaibu": Word{Word: "budaibu", Def: "It is not possible for ▯ not to be the case; ▯ must happen.", By: "uakci", Score: 0}, "budie": Word{Word: "budie", Def: "▯ warns ▯ against doing ▯.", By: "Ilmen", Score: 2}, "buduo": Word{Word: "buduo", Def: "unexpected", By: "spreadsheet", Score: 0}, "buduoceaq": Word{Word: "buduoceaq", Def: "▯ is a cheetah.", By: "Ilmen", Score: 0}, "bue": Word{Word: "bue", Def: "predicate: ‘home’; ▯ is a home of ▯.", By: "official", Score: 0}, "bue ho tijui guairiaq da.": Word{Word: "bue ho tijui guairiaq da.", Def: "(A0717) She lives near the office.", By: "examples", Score: 0}, "bue pui riq liao poji nuotoq da.": Word{Word: "bue pui riq liao poji nuotoq da.", Def: "(A0945) Many green fungi live in my mattress.", By: "examples", Score: 0}, "buejai": Word{Word: "buejai", Def: "▯ has a subjective feeling of safety, relaxation, and peace-of-mind due to being at home; ▯ has a \"home-sweet-home\" feeling.", By: "Ilmen", Score: 0}, "bufoaqca": Word{Word: "bufoaqca", Def: "predicate: annoy; ▯ annoys ▯; ▯ is annoying.", By: "Xylochoron", Score: 0}, "buhuoi": Word{Word: "buhuoi", Def: "▯ is a member of the order Anura (the frogs and toads).", By: "Hoemai", Score: 0}, "buhuokiu": Word{Word: "buhuokiu", Def: "predicate: ‘inaudible’; ▯ is inaudible.", By: "official", Score: 0}, "bui": Word{Word: "bui", Def: "predicate: ‘outside’; ▯ is outside of ▯.", By: "official", Score: 0}, "bui deo buajio da.": Word{Word: "bui deo buajio da.", Def: "(A0012) The children are outside the house.", By: "examples", Score: 0}, "buiduo": Word{Word: "buiduo", Def: "predicate: ‘move.outside’; ▯ moves out of ▯.", By: "official", Score: 0}, "buifa": Word{Word: "buifa", Def: "predicate: ‘exit’; ▯ goes out of / exits ▯.", By: "official", Score: 0}, "buifa ho to ru daqfai rao dio to daqlei rao nuaq.": Word{Word: "buifa ho to ru daqfai rao dio to daqlei rao nuaq.", Def: "(TER.3) They go outside usually during the day and rarely at night.", By: "official", Score: 0}, "buifa ji bue rao ni diosiao chui da.": Word{Word: "buifa ji bue rao ni diosiao chui da.", Def: "(A0707) I left home early this morning.", By: "examples", Score: 0}, "buifa suq hu shaohui ba!": Word{Word: "buifa suq hu shaohui ba!", Def: "(A0463) Leave, wicked ones!", By: "examples", Score: 0}, "buigaja": Word{Word: "buigaja", Def: "▯ is an extraterrestrial.", By: "seaqtaq", Score: 0}, "buihoq": Word{Word: "buihoq", Def: "▯ is the next outer proposition.", By: "Ilmen", Score: 0}, "buikoe": Word{Word: "buikoe", Def: "▯ excludes ▯ among ▯ for satisfying property ▯", By: "seaqtaq", Score: 0}, "buiku": Word{Word: "buiku", Def: "▯ is a uterus", By: "seaqtaq", Score: 0}, "buikubiu": Word{Word: "buikubiu", Def: "▯ is a fallopian tube", By: "seaqtaq", Score: 0}, "buikuboaq": Word{Word: "buikuboaq", Def: "▯ is a placenta", By: "seaqtaq", Score: 0}, "buisha": Word{Word: "buisha", Def: "▯ gets out of ▯.", By: "Ilmen", Score: 0}, "buitua": Word{Word: "buitua", Def: "▯ expels ▯ from ▯", By: "seaqtaq", Score: 0}, "bujeo": Word{Word: "bujeo", Def: "▯ is neither true nor false", By: "fagri", Score: 0}, "bujui": Word{Word: "bujui", Def: "barely (almost not)", By: "spreadsheet", Score: -1}, "buka": Word{Word: "buka", Def: "▯ dares to do ▯.", By: "Ilmen", Score: 0}, "bukaqkiu": Word{Word: "bukaqkiu", Def: "predicate: ‘invisible’; ▯ is invisible.", By: "official", Score: -2}, "bukuibu": Word{Word: "bukuibu", Def: "despite", By: "spreadsheet", Score: 0}, "bula": Word{Word: "bula", Def: "▯ is a bubble.", By: "Ilmen", Score: 0}, "bulame": Word{Word: "bulame", Def: "▯ is foam/froth.", By: "Ilmen", Score: 0}, "bumeraq": Word{Word: "bumeraq", Def: "predicate: ‘boomerang’; ▯ is a boomerang.", By: "official", Score: 0}, "bumiu": Word{Word: "bumiu", Def: "doubt", By: "spreadsheet", Score: 0}, "buo": Word{Word: "buo", Def: "predicate: ‘ready’; ▯ is ready to satisfy property ▯.", By: "official", Score: 0}, "buo chuihaq da.": Word{Word: "buo chuihaq da.", Def: "(A0041) Breakfast is ready.", By: "examples", Score: 0}, "buoheu": Word{Word: "buoheu", Def: "ripe", By: "spreadsheet", Score: 0}, "buoi": Word{Word: "buoi", Def: "[LU] ▯ is the proposition [proposition], which is false.", By: "uakci", Score: 0}, "buoq": Word{Word: "buoq", Def: "predicate: ‘non-serious’; ▯ is non-serious.", By: "official", Score: 0}, "buoqgaq": Word{Word: "buoqgaq", Def: "▯ hangs out with ▯", By: "seaqtaq", Score: 0}, "buoqkuq": Word{Word: "buoqkuq", Def: "▯ says non-serious thing ▯ to ▯.", By: "lynn", Score: 0}, "buoqlai": Word{Word: "buoqlai", Def: "▯ is a glyph/symbol of levity or non-seriosity, e.g. “%)”.", By: "lynn", Score: 1}, "buoqlua": Word{Word: "buoqlua", Def: "▯ is a comedy (dramatic sense).", By: "lynn", Score: 0}, "buoqruaq": Word{Word: "buoqruaq", Def: "▯ jokingly / sarcastically / non-seriously asserts that ▯ is the case.", By: "lynn", Score: 0}, "buq": Word{Word: "buq", Def: "hủa dóshī, na ru chủo dóshī lî chủq da", By: "uakci", Score: 0}, "buqbeq": Word{Word: "buqbeq", Def: "▯ is a muzzle/snout.", By: "Ilmen", Score: 0}, "buqbiu": Word{Word: "buqbiu", Def: "▯ is a proboscis.", By: "Ilmen", Score: 0}, "buqcaijiai": Word{Word: "buqcaijiai", Def: "bite", By: "spreadsheet", Score: 0}, "buqhie": Word{Word: "buqhie", Def: "▯ carries ▯ with their mouth.", By: "Ilmen", Score: 0}, "buqjeoq": Word{Word: "buqjeoq", Def: "▯ is an oral cavity.", By: "Ilmen", Score: 0}, "buqjiai": Word{Word: "buqjiai", Def: "▯ bites ▯", By: "fagri", Score: 0}, "buqjiaicai": Word{Word: "buqjiaicai", Def: "bite", By: "spreadsheet", Score: 0}, "buqkuoq": Word{Word: "buqkuoq", Def: "▯ is a tooth.", By: "Ilmen", Score: 0}, "buqlia": Word{Word: "buqlia", Def: "cheek", By: "spreadsheet", Score: 0}, "buqlia(ti)sho": Word{Word: "buqlia(ti)sho", Def: "▯ debuccalizes", By: "seaqtaq", Score: 0}, "buqluao": Word{Word: "buqluao", Def: "predicate: ‘lip’; ▯ is a lip.", By: "official", Score: 0}, "buqnao": Word{Word: "buqnao", Def: "▯ is saliva.", By: "Ilmen", Score: 1}, "buqpio": Word{Word: "buqpio", Def: "▯ is a tooth.", By: "Ilmen", Score: 0}, "buqriai": Word{Word: "buqriai", Def: "jaw", By: "spreadsheet", Score: 0}, "buqseaq": Word{Word: "buqseaq", Def: "▯ performs oral sex on ▯", By: "seaqtaq", Score: 0}, "buqtiabiu": Word{Word: "buqtiabiu", Def: "▯ is a pharynx.", By: "Ilmen", Score: 0}, "burasi": Word{Word: "burasi", Def: "is Brazilian / is of Brazil, its languages or people.", By: "Ilmen", Score: 0}, "burasihebe": Word{Word: "burasihebe", Def: "▯ is a rubber tree (Hevea brasiliensis).", By: "Ilmen", Score: 0}, "buri": Word{Word: "buri", Def: "▯ is brie.", By: "Ilmen", Score: 0}, "buriaq": Word{Word: "buriaq", Def: "▯ is a utopia", By: "seaqtaq", Score: 0}, "buro": Word{Word: "buro", Def: "donkey", By: "spreadsheet", Score: -1}, "buruaq": Word{Word: "buruaq", Def: "▯ denies ▯.", By: "Ilmen", Score: 1}, "buruo": Word{Word: "buruo", Def: "▯ is a typical moss, belonging to the Bryum taxonomic genus.", By: "Ilmen", Score: 0}, "buruoniu": Word{Word: "buruoniu", Def: "▯ is a bryophyte (Bryophyta taxonomic phylum).", By: "Ilmen", Score: 0}, "buruoqduo": Word{Word: "buruoqduo", Def: "bow (v)", By: "spreadsheet", Score: 0}, "busa": Word{Word: "busa", Def: "▯/0 is true or false or something else; ▯ is whatever, I don’t care; Ignore ▯.", By: "uakci", Score: 1}, "bushebu": Word{Word: "bushebu", Def: "▯ has ▯ as a necessary, but not necessarily sufficient condition; For ▯, ▯ must happen.", By: "uakci", Score: 0}, "butaq": Word{Word: "butaq", Def: "▯ pertains to the culture of Bhutan – Kingdom of Bhutan.", By: "countries", Score: 0}, "butaqgua": Word{Word: "butaqgua", Def: "▯ is the country Bhutan – Kingdom of Bhutan.", By: "countries", Score: 0}, "butaqtoaq": Word{Word: "butaqtoaq", Def: "▯ is (one of) the language(s) spoken in Bhutan – Kingdom of Bhutan.", By: "countries", Score: 0}, "butiduo": Word{Word: "butiduo", Def: "▯ moves away from ▯.", By: "lynn", Score: 0}, "butifa shiu heishijue na suq ba.": Word{Word: "butifa shiu heishijue na suq ba.", Def: "(A0160) Leave before November!", By: "examples", Score: 0}, "butimeo": Word{Word: "butimeo", Def: "predicate: ‘miss’; ▯ misses ▯; ▯ is sad that ▯ is not there.", By: "official", Score: -2}, "ca": Word{Word: "ca", Def: "predicate: ‘cause’; ▯ physically causes ▯ to be the case.", By: "official", Score: 0}, "ca ma jia ruqshua na jia tao ji hi rai da.": Word{Word: "ca ma jia ruqshua na jia tao ji hi rai da.", Def: "(A0332) Whether it will rain conditions what I'll do.", By: "examples", Score: 0}, "ca poaq": Word{Word: "ca poaq", Def: "predicate: ‘cause.to.break’; ▯ breaks/splits/separates ▯.", By: "official", Score: 0}, "cabiaq": Word{Word: "cabiaq", Def: "predicate: ‘enough.to’; ▯ is sufficiently the case for ▯ to be the case; ▯ is so much so that ▯ is the case.", By: "Ilmen", Score: 0}, "caca": Word{Word: "caca", Def: "▯ indirectly causes ▯.", By: "Ilmen", Score: 0}, "cagi": Word{Word: "cagi", Def: "efficient", By: "spreadsheet", Score: -1}, "cagideoq": Word{Word: "cagideoq", Def: "eloquent", By: "spreadsheet", Score: 0}, "cai": Word{Word: "cai", Def: "predicate: ‘strong’; ▯ is strong.", By: "official", Score: 0}, "caichi": Word{Word: "caichi", Def: "▯ feels certain that ▯ is the case", By: "fagri", Score: 0}, "caichoa": Word{Word: "caichoa", Def: "shout, yell", By: "spreadsheet", Score: 0}, "caichoamu": Word{Word: "caichoamu", Def: "▯ is strong/forte articulated (phonetics)", By: "seaqtaq", Score: 0}, "caicoe": Word{Word: "caicoe", Def: "stick(y)", By: "spreadsheet", Score: 0}, "caidua": Word{Word: "caidua", Def: "confident", By: "spreadsheet", Score: 0}, "caiduadoa": Word{Word: "caiduadoa", Def: "▯ assures that ▯ for listener ▯.", By: "uakci", Score: 0}, "caihua": Word{Word: "caihua", Def: "muscle", By: "spreadsheet", Score: 0}, "caijio": Word{Word: "caijio", Def: "castle", By: "spreadsheet", Score: 0}, "caikoi": Word{Word: "caikoi", Def: "▯ strides / walks fiercely or strongly.", By: "lynn", Score: 0}, "cailai": Word{Word: "cailai", Def: "exclamation mark, exclamation point (!)", By: "uakci", Score: 0}, "caimoaq": Word{Word: "caimoaq", Def: "▯ remembers ▯ vividly/clearly/in detail.", By: "lynn", Score: 0}, "caimoe": Word{Word: "caimoe", Def: "excited", By: "spreadsheet", Score: 1}, "caireqro": Word{Word: "caireqro", Def: "shoot ⓥ (shooting device as the subject)", By: "spreadsheet", Score: -1}, "caitua": Word{Word: "caitua", Def: "▯ forces ▯ to happen", By: "fagri", Score: 0}, "cajoi": Word{Word: "cajoi", Def: "▯ happens for purpose ▯", By: "seaqtaq", Score: 0}, "cajoq": Word{Word: "cajoq", Def: "▯ directly causes ▯.", By: "uakci", Score: 0}, "calu": Word{Word: "calu", Def: "logically entail, nibli", By: "spreadsheet", Score: 0}, "caniqdua": Word{Word: "caniqdua", Def: "explain", By: "spreadsheet", Score: 0}, "cao": Word{Word: "cao", Def: "predicate: ‘season’; ▯ is a season.", By: "official", Score: 0}, "capaq": Word{Word: "capaq", Def: "▯ is part of the cause of ▯.", By: "Ilmen", Score: 0}, "capo": Word{Word: "capo", Def: "▯ is a mamey sapote (Pouteria sapota).", By: "Ilmen", Score: 0}, "caq": Word{Word: "caq", Def: "predicate: ‘conduct’; ▯ conducts/directs/manages ▯.", By: "official", Score: 0}, "caqbo": Word{Word: "caqbo", Def: "▯ owns/possesses ▯.", By: "Ilmen", Score: 0}, "caqche": Word{Word: "caqche", Def: "director", By: "spreadsheet", Score: 0}, "caqchuo": Word{Word: "caqchuo", Def: "predicate: ‘controller’; ▯ is a controller (instrument for controlling) for ▯.", By: "official", Score: 0}, "caqduai": Word{Word: "caqduai", Def: "▯ is responsible for satisfying property ▯", By: "seaqtaq", Score: 0}, "caqgio": Word{Word: "caqgio", Def: "predicate: ‘traffic.light’; ▯ is a traffic light.", By: "official", Score: 0}, "caqhe": Word{Word: "caqhe", Def: "▯ is dominant (personality-wise)", By: "seaqtaq", Score: 0}, "caqhui": Word{Word: "caqhui", Def: "For ▯ having happened, ▯ is to be blamed; ▯ is ▯’s fault.", By: "uakci", Score: 0}, "caqhupapaq": Word{Word: "caqhupapaq", Def: "▯ is a button control.", By: "Ilmen", Score: 0}, "caqmuse": Word{Word: "caqmuse", Def: "▯ is the result of being conducted by ▯.", By: "uakci", Score: 0}, "caruoq": Word{Word: "caruoq", Def: "▯ directly causes ▯.", By: "Ilmen", Score: 0}, "casiao": Word{Word: "casiao", Def: "▯ is the source of ▯", By: "seaqtaq", Score: 0}, "cataq": Word{Word: "cataq", Def: "▯ happens automatically", By: "seaqtaq", Score: 0}, "ce": Word{Word: "ce", Def: "predicate: ‘node’; ▯ is a node/station/port.", By: "official", Score: 0}, "cea": Word{Word: "cea", Def: "predicate: ‘sack’; ▯ is a sack/bag/pocket.", By: "official", Score: 0}, "ceabo": Word{Word: "ceabo", Def: "▯ is a marsupial.", By: "Ilmen", Score: 0}, "ceahako": Word{Word: "ceahako", Def: "▯ is a member of genus Phascolarctos (the koala and extinct relatives).", By: "Hoemai", Score: 0}, "ceahua": Word{Word: "ceahua", Def: "pouch, body part", By: "spreadsheet", Score: -1}, "ceaniai": Word{Word: "ceaniai", Def: "▯ is a marsupial.", By: "Ilmen", Score: 0}, "ceaq": Word{Word: "ceaq", Def: "▯ is a claw/nail.", By: "Ilmen", Score: 0}, "ceaqpueqhe": Word{Word: "ceaqpueqhe", Def: "▯ is unguligrade; ▯ walks/treads on his/her/its nails/hoofs.", By: "Ilmen", Score: 0}, "ceaqtechuo": Word{Word: "ceaqtechuo", Def: "▯ are nail clippers.", By: "Ilmen", Score: 0}, "cei": Word{Word: "cei", Def: "terminates statement prefix clauses.", By: "Ilmen", Score: 0}, "cemeq": Word{Word: "cemeq", Def: "▯ is cement.", By: "Ilmen", Score: 0}, "ceo": Word{Word: "ceo", Def: "= [0] Lẻaqshīu bû dóshī na jêo dóshī.\n= [X1] Lẻaqshīu bû dóshī dógū na jêo dóshī dógū.", By: "Ilmen", Score: 0}, "ceochaq": Word{Word: "ceochaq", Def: "Monday", By: "uakci", Score: 0}, "ceohio": Word{Word: "ceohio", Def: "▯ greets ▯ on meeting him/her/them.", By: "Ilmen", Score: 0}, "ceolui": Word{Word: "ceolui", Def: "▯ has begun to be the case and still is the case; ▯ has been and is the case. [JEO]", By: "uakci", Score: 0}, "ceoq": Word{Word: "ceoq", Def: "▯ is electronic/electrical/electric.", By: "uakci", Score: 0}, "ceoqgiu": Word{Word: "ceoqgiu", Def: "▯ is wire.", By: "uakci", Score: 0}, "ceoqkaideoq": Word{Word: "ceoqkaideoq", Def: "▯ e-mails ▯; ▯ e’s ▯ a mail.", By: "uakci", Score: 0}, "ceoqkue": Word{Word: "ceoqkue", Def: "▯ is an e-book.", By: "uakci", Score: 0}, "ceoqmoi": Word{Word: "ceoqmoi", Def: "▯ is artificial intelligence; Program ▯ ‘thinks’ ▯.", By: "uakci", Score: 0}, "ceoqpeq": Word{Word: "ceoqpeq", Def: "▯ is an e-mail.", By: "uakci", Score: 0}, "ceoqshua": Word{Word: "ceoqshua", Def: "There is lightning; ▯ is lightning; Lightning ▯ hits spot ▯ from ▯.", By: "uakci", Score: 0}, "ceoriaq": Word{Word: "ceoriaq", Def: "origin / source", By: "spreadsheet", Score: 0}, "ceqbudachuaq": Word{Word: "ceqbudachuaq", Def: "▯ is Zen Buddhism.", By: "Ilmen", Score: 0}, "ceqbudisuq": Word{Word: "ceqbudisuq", Def: "▯ is Zen Buddhism", By: "fagri", Score: 0}, "ceu": Word{Word: "ceu", Def: "▯ is material/matter/substance.", By: "Ilmen", Score: -2}, "ceutoai": Word{Word: "ceutoai", Def: "▯ is a molecule.", By: "Ilmen", Score: -2}, "cha": Word{Word: "cha", Def: "predicate: ‘manner’; ▯ takes place in way/form ▯.", By: "official", Score: 0}, "chafaq": Word{Word: "chafaq", Def: "▯ takes place in a way that suggests that ▯ is true", By: "fagri", Score: 0}, "chahiraikuq": Word{Word: "chahiraikuq", Def: "(fork of #yGNkIcUQb) ▯ is something I don't know how to say; ▯ is a difficult-to-express concept.", By: "Hoemai", Score: 0}, "chai": Word{Word: "chai", Def: "pỉehāq dóshī, na ru sa dó nǐuboe (kıo sỏq fảı shî mỉ Kảmēlīa Jủqgūo níu rǎq hóa dó kı) bı, mủoq dóshī sa lú shỏ bủı hóa dó rào nîe dó sa náo lỏq da", By: "uakci", Score: 0}, "chaibio": Word{Word: "chaibio", Def: "▯ is a teapot.", By: "uakci", Score: 0}, "chaiboe": Word{Word: "chaiboe", Def: "▯ is tea leaf that yields tea ▯.", By: "uakci", Score: 0}, "chaica": Word{Word: "chaica", Def: "▯ infuses in liquid ▯, resulting in this latter becoming a (herbal) tea.", By: "Ilmen", Score: 1}, "chaikioi": Word{Word: "chaikioi", Def: "▯ brews (prepares) tea ▯ in water ▯.", By: "uakci", Score: 0}, "chailoq": Word{Word: "chailoq", Def: "▯ is water so hot that tea can brew; ▯ is boiling hot.", By: "uakci", Score: 0}, "chainaguaq(toaq)": Word{Word: "chainaguaq(toaq)", Def: "▯ is Tcaingwaq.", By: "uakci", Score: 0}, "chainiu": Word{Word: "chainiu", Def: "▯ is the tea plant / Camellia sinensis.", By: "lynn", Score: 0}, "chajeq": Word{Word: "chajeq", Def: "▯ takes place in the same way/manner as ▯.", By: "Ilmen", Score: 0}, "chamu": Word{Word: "chamu", Def: "▯ is a way/form of doing ▯", By: "seaqtaq", Score: 0}, "chao": Word{Word: "chao", Def: "predicate: ‘vehicle’; ▯ is a vehicle.", By: "official", Score: 0}, "chaobia": Word{Word: "chaobia", Def: "▯ has motion/car/travel sickness.", By: "Ilmen", Score: 0}, "chaocaq": Word{Word: "chaocaq", Def: "pilot (v), drive", By: "spreadsheet", Score: 0}, "chaodoa": Word{Word: "chaodoa", Def: "▯ ships ▯ to ▯", By: "seaqtaq", Score: 0}, "chaotieq": Word{Word: "chaotieq", Def: "predicate: ‘road’; ▯ is a road/street.", By: "official", Score: 0}, "chaq": Word{Word: "chaq", Def: "predicate: ‘day’; ▯ is a day.", By: "official", Score: 0}, "chaqchui": Word{Word: "chaqchui", Def: "▯ takes place early in the day.", By: "Ilmen", Score: 0}, "chaqdaq": Word{Word: "chaqdaq", Def: "▯ is a date", By: "seaqtaq", Score: -1}, "chaqdiaq": Word{Word: "chaqdiaq", Def: "▯ occurs daily / every day.", By: "lynn", Score: 1}, "chaqgu": Word{Word: "chaqgu", Def: "▯ is a two-day period.", By: "lynn", Score: 0}, "chaqheijo": Word{Word: "chaqheijo", Def: "(fork of #3BRrXlJdH) ▯ is a fortnight", By: "seaqtaq", Score: 0}, "chaqne": Word{Word: "chaqne", Def: "day (duration, 24h)", By: "spreadsheet", Score: -1}, "chaqraochiu": Word{Word: "chaqraochiu", Def: "time, tcika", By: "spreadsheet", Score: 0}, "chaqreoq": Word{Word: "chaqreoq", Def: "▯ takes place late in the day.", By: "Ilmen", Score: 0}, "chaqtu": Word{Word: "chaqtu", Def: "predicate: ‘daily’; ▯ happens every day; ▯ is daily.", By: "official", Score: 0}, "chasiu": Word{Word: "chasiu", Def: "sỉu lú chả dóshī hóa na lú chả jêo dógū sa pó dóshī na hóa da", By: "uakci", Score: 0}, "che": Word{Word: "che", Def: "dủq ru jỏe tảo dóshī dógū da", By: "uakci", Score: 0}, "che chaocaq": Word{Word: "che chaocaq", Def: "▯ is a chauffeur", By: "seaqtaq", Score: 0}, "che chaocaq ji baq tasi da": Word{Word: "che chaocaq ji baq tasi da", Def: "(A0505) I'm a taxi driver.", By: "examples", Score: 0}, "che chie": Word{Word: "che chie", Def: "▯ is a learner / student of ▯ (subject).", By: "lynn", Score: 0}, "che chie bi kai ho lu kuq che chietua hoa da.": Word{Word: "che chie bi kai ho lu kuq che chietua hoa da.", Def: "(A0222) The learner writes what the teacher says.", By: "examples", Score: 0}, "che chietua": Word{Word: "che chietua", Def: "predicate: ‘teacher’; ▯ is a teacher.", By: "official", Score: 0}, "che chietua ji da.": Word{Word: "che chietua ji da.", Def: "(A0517) I'm a teacher.", By: "examples", Score: 0}, "che giaqtao": Word{Word: "che giaqtao", Def: "predicate: ‘musician’; ▯ is a musician.", By: "official", Score: 0}, "che ji guai juq hie ja do heqchuo tiai ti meaqce da.": Word{Word: "che ji guai juq hie ja do heqchuo tiai ti meaqce da.", Def: "(A0954) I am a worker of accepting and transporting container boxes at harbour.", By: "examples", Score: 0}, "che suq hi rai moq.": Word{Word: "che suq hi rai moq.", Def: "(A0516) What is your job?", By: "examples", Score: 0}, "chea": Word{Word: "chea", Def: "predicate: ‘chair’; ▯ is a chair.", By: "uakci", Score: 0}, "chealiao": Word{Word: "chealiao", Def: "predicate: ‘mushroom’; ▯ is a mushroom.", By: "official", Score: 1}, "cheaq": Word{Word: "cheaq", Def: "predicate: ‘trusty’; ▯ is trusty/trusted to ▯.", By: "official", Score: 0}, "cheaq(gi)chi": Word{Word: "cheaq(gi)chi", Def: "▯ believes ▯to be trustworthy; ▯ trusts▯", By: "seaqtaq", Score: 0}, "cheaqgi": Word{Word: "cheaqgi", Def: "▯ is trustworty/reliable.", By: "Ilmen", Score: 0}, "cheaqlu": Word{Word: "cheaqlu", Def: "▯ has been asserted by a trustworthy source.", By: "Ilmen", Score: 0}, "chefuq": Word{Word: "chefuq", Def: "▯ is clothing/garment/uniform typically worn by ▯-ers while they satisfy that predicate.", By: "lynn", Score: 1}, "chei": Word{Word: "chei", Def: "predicate: ‘digit’; ▯ is a digit/finger/toe.", By: "official", Score: 0}, "cheibea": Word{Word: "cheibea", Def: "▯ is a knuckle; ▯ is a finger or toe joint.", By: "Ilmen", Score: 0}, "cheibio": Word{Word: "cheibio", Def: "▯ is a cup.", By: "Ilmen", Score: 0}, "cheipueq": Word{Word: "cheipueq", Def: "▯ walks/treads on his/her/its toes.", By: "Ilmen", Score: 0}, "cheipueqhe": Word{Word: "cheipueqhe", Def: "▯ is digitigrade.", By: "Ilmen", Score: 0}, "cheiruedea": Word{Word: "cheiruedea", Def: "▯ drums their fingers; ▯ drums their fingers on ▯", By: "fagri", Score: 0}, "cheise": Word{Word: "cheise", Def: "▯ is a finger print/toe print", By: "seaqtaq", Score: 1}, "cheisheaq": Word{Word: "cheisheaq", Def: "▯ stands on his/her/its toes.", By: "Ilmen", Score: 0}, "cheisheaqhe": Word{Word: "cheisheaqhe", Def: "▯ is digitigrade.", By: "Ilmen", Score: 0}, "cheitoq": Word{Word: "cheitoq", Def: "▯ is a nail (of the body)", By: "seaqtaq", Score: 0}, "cheme": Word{Word: "cheme", Def: "▯ is a community of ▯-ers.", By: "uakci", Score: 1}, "cheo": Word{Word: "cheo", Def: "= [XX2] Tu shí tảmēa dỏshī tu bú hỏı shǐ tảmēa dỏshī pa sa dỏgū.", By: "Ilmen", Score: 0}, "cheo butimeo": Word{Word: "cheo butimeo", Def: "▯ miss each other's company.", By: "lynn", Score: 0}, "cheo cheaq": Word{Word: "cheo cheaq", Def: "▯ trust each other.", By: "lynn", Score: 0}, "cheo choadeoq": Word{Word: "cheo choadeoq", Def: "chat", By: "spreadsheet", Score: 0}, "cheo deaqsoi mi jini roi mi chali.": Word{Word: "cheo deaqsoi mi jini roi mi chali.", Def: "(CON.3) Ginny and Charlie are arguing.", By: "official", Score: 0}, "cheo deaqsoi mi jini ru mi chali.": Word{Word: "cheo deaqsoi mi jini ru mi chali.", Def: "(CON.4) Ginny argued with each other, and Charlie argued with each other.", By: "official", Score: 0}, "cheo deoq": Word{Word: "cheo deoq", Def: "▯ communicate with each other.", By: "lynn", Score: 0}, "cheo fuo": Word{Word: "cheo fuo", Def: "▯ touch one another / are in contact.", By: "lynn", Score: 0}, "cheo geojeq": Word{Word: "cheo geojeq", Def: "▯ are the same age as each other", By: "seaqtaq", Score: 0}, "cheo geqkuai": Word{Word: "cheo geqkuai", Def: "▯ long to meet one another.", By: "lynn", Score: 0}, "cheo goajao": Word{Word: "cheo goajao", Def: "▯ are scattered / far away from one another in space.", By: "lynn", Score: 0}, "cheo heo puqho li duq chuq ja poq ja haq da.": Word{Word: "cheo heo puqho li duq chuq ja poq ja haq da.", Def: "(A0333) They differ in what food they habitually eat.", By: "examples", Score: 0}, "cheo jao mu ne jai poq da.": Word{Word: "cheo jao mu ne jai poq da.", Def: "(A0866) The friends feel all different amounts of happiness.", By: "examples", Score: 0}, "cheo jao ti pai da.": Word{Word: "cheo jao ti pai da.", Def: "(A0860) The friends are far from one another.", By: "examples", Score: 0}, "cheo jui mu ne jai poq da.": Word{Word: "cheo jui mu ne jai poq da.", Def: "(A0856) The people are about has happy as each other.", By: "examples", Score: 0}, "cheo jui ti pai da.": Word{Word: "cheo jui ti pai da.", Def: "(A0850) The friends are near each other.", By: "examples", Score: 0}, "cheo kaqgai": Word{Word: "cheo kaqgai", Def: "▯ see each other.", By: "lynn", Score: 0}, "cheo kaqgai suq roi ji niqguo ba.": Word{Word: "cheo kaqgai suq roi ji niqguo ba.", Def: "(A0315) Let's look at each other again.", By: "examples", Score: 0}, "cheo leaq": Word{Word: "cheo leaq", Def: "▯ are mutually adjacent in relationship ▯.", By: "lynn", Score: 0}, "cheo leaq ti pai da.": Word{Word: "cheo leaq ti pai da.", Def: "(A0870) The friends are all next to each other.", By: "examples", Score: 0}, "cheo leaqbua": Word{Word: "cheo leaqbua", Def: "▯ are neighbours; ▯ live next to each other.", By: "lynn", Score: 0}, "cheo lia": Word{Word: "cheo lia", Def: "▯ are aligned (all next to each other).", By: "lynn", Score: 0}, "cheo loi": Word{Word: "cheo loi", Def: "▯ (mutually) hate each other.", By: "lynn", Score: 0}, "cheo mai": Word{Word: "cheo mai", Def: "▯ love each other.", By: "lynn", Score: 0}, "cheo maigaq": Word{Word: "cheo maigaq", Def: "▯ are each others' partners / significant others.", By: "lynn", Score: 0}, "cheo meajeq": Word{Word: "cheo meajeq", Def: "▯ are all the same thing.", By: "lynn", Score: 0}, "cheo miai": Word{Word: "cheo miai", Def: "▯ rhyme with each other.", By: "lynn", Score: 0}, "cheo nejeq geo ji roi poji pai da.": Word{Word: "cheo nejeq geo ji roi poji pai da.", Def: "(A0742) Me and my friend are the same age as each other.", By: "examples", Score: 0}, "cheo nue cheo": Word{Word: "cheo nue cheo", Def: "▯ mutually promise/threaten to be in reciprocal relationship ▯ with each other.", By: "niucuq", Score: -1}, "cheo poe mu ne jai poq da.": Word{Word: "cheo poe mu ne jai poq da.", Def: "(A0884) The friends are all separate amounts of happy.", By: "examples", Score: 0}, "cheo poe ti pai da.": Word{Word: "cheo poe ti pai da.", Def: "(A0878) The friends are apart from one another (in space).", By: "examples", Score: 0}, "cheo puqho li ja do bi dua ja rai chufaq ruaqhui do da.": Word{Word: "cheo puqho li ja do bi dua ja rai chufaq ruaqhui do da.", Def: "(A0561) They know that each other is lying.", By: "examples", Score: 0}, "cheo seaq": Word{Word: "cheo seaq", Def: "▯ have sex with each other.", By: "lynn", Score: 0}, "cheo seo": Word{Word: "cheo seo", Def: "▯ are married to each other.", By: "lynn", Score: 0}, "cheo siu": Word{Word: "cheo siu", Def: "▯ are similar / resemble each other.", By: "lynn", Score: 0}, "cheo soi baobao roi maomao le ca suo kua da.": Word{Word: "cheo soi baobao roi maomao le ca suo kua da.", Def: "(A0973) Bow-wow and meow-meow are fighting each other, probably causing that the room is broken.", By: "oldexamples", Score: 0}, "cheo taq teq cheo": Word{Word: "cheo taq teq cheo", Def: "▯ mutually pay themselves for being in reciprocal relationship ▯.", By: "niucuq", Score: -1}, "cheodoa": Word{Word: "cheodoa", Def: "▯ exchanges service ▯ (property) for service ▯ (property) with person ▯.", By: "Ilmen", Score: 0}, "cheojao": Word{Word: "cheojao", Def: "▯ is diverse in what it satisfies relation ▯ with.", By: "uakci", Score: 0}, "cheoq": Word{Word: "cheoq", Def: "predicate: ‘bottle’; ▯ is a bottle.", By: "official", Score: 0}, "cheoshe": Word{Word: "cheoshe", Def: "iff", By: "spreadsheet", Score: 0}, "cheoteq": Word{Word: "cheoteq", Def: "▯ barters ▯ with person ▯ for ▯.", By: "uakci", Score: 0}, "cheu": Word{Word: "cheu", Def: "deceive", By: "spreadsheet", Score: 0}, "chi": Word{Word: "chi", Def: "predicate: ‘believe’; ▯ believe ▯ to be the case / to be true.", By: "official", Score: 0}, "chi ho geaq baq suhu da.": Word{Word: "chi ho geaq baq suhu da.", Def: "(A0380) They believe that pigs are dirty.", By: "examples", Score: 0}, "chi ji heq nao sa cie da.": Word{Word: "chi ji heq nao sa cie da.", Def: "(A0022) I believe the water contains some fish.", By: "examples", Score: 0}, "chi ji lu bu huogai ho lu kuq suq sa rai da.": Word{Word: "chi ji lu bu huogai ho lu kuq suq sa rai da.", Def: "(A0228) I think he didn't hear you say anything.", By: "examples", Score: 0}, "chi sia poq cheaq tai hoi goiche da.": Word{Word: "chi sia poq cheaq tai hoi goiche da.", Def: "(A0953) Nobody believes that the doctor is trusted to succeed.", By: "examples", Score: 0}, "chi(jio)joaq": Word{Word: "chi(jio)joaq", Def: "▯ is a priest/rabbi/imam", By: "seaqtaq", Score: 0}, "chia": Word{Word: "chia", Def: "shẻ bû dẻq dóshī dósāq na bû jẻo dóshī dógū da", By: "uakci", Score: 0}, "chiabia": Word{Word: "chiabia", Def: "▯ is desperate to satisfy ▯ so that they can satisfy ▯; ▯ needs to be ▯ to such a high extent that they’ll sacrifice their morality, integrity, dignity, and/or rational thinking to get it.", By: "uakci", Score: 0}, "chiadoa": Word{Word: "chiadoa", Def: "provide", By: "spreadsheet", Score: 0}, "chiai": Word{Word: "chiai", Def: "sa dó jěı dûa dóshī dógū bı, fảq dó, na ru keo bủ mỏı dóshı dó da", By: "uakci", Score: 0}, "chiai da; pu tao ho hoq, keo bu soq hui da.": Word{Word: "chiai da; pu tao ho hoq, keo bu soq hui da.", Def: "(A0612) Wrong; he did that, but it wasn't the worst thing.", By: "examples", Score: 0}, "chiai po suq da.  jeo jo shiaq, keo due fe shiaq na she hao da.": Word{Word: "chiai po suq da.  jeo jo shiaq, keo due fe shiaq na she hao da.", Def: "(A0619) You(r answer) is wrong.  It's true that there are four legs, but in this case it's correct to say there are five.", By: "examples", Score: 0}, "chiaica": Word{Word: "chiaica", Def: "mislead", By: "spreadsheet", Score: 0}, "chiairetao": Word{Word: "chiairetao", Def: "▯ recovers ▯", By: "seaqtaq", Score: 0}, "chiaitao": Word{Word: "chiaitao", Def: "predicate: ‘err’; ▯ errs; ▯ makes mistake ▯.", By: "official", Score: 0}, "chiaitaose": Word{Word: "chiaitaose", Def: "mistake", By: "spreadsheet", Score: -1}, "chiaitaosi": Word{Word: "chiaitaosi", Def: "▯ is careful (pays attention to avoid making mistakes).", By: "lynn", Score: 1}, "chiaitaotue": Word{Word: "chiaitaotue", Def: "mistake", By: "spreadsheet", Score: -1}, "chiaitua": Word{Word: "chiaitua", Def: "mislead", By: "spreadsheet", Score: 0}, "chiaituere": Word{Word: "chiaituere", Def: "▯ is a back up/recovery of ▯", By: "seaqtaq", Score: 0}, "chiao": Word{Word: "chiao", Def: "▯ is about ▯; ▯ is on topic ▯.", By: "uakci", Score: 0}, "chiapoai": Word{Word: "chiapoai", Def: "▯ are chia seeds.", By: "uakci", Score: 0}, "chiaq": Word{Word: "chiaq", Def: "= #dua ru lủ bủ #sỉ", By: "uakci", Score: 0}, "chiaqbia": Word{Word: "chiaqbia", Def: "▯ is sentient", By: "seaqtaq", Score: 0}, "chiaqdui": Word{Word: "chiaqdui", Def: "(fork of #aEMoaKPIy) ▯ is sentient", By: "seaqtaq", Score: 0}, "chiaqhua": Word{Word: "chiaqhua", Def: "▯ is a mind.", By: "Ilmen", Score: 1}, "chiaqnuo": Word{Word: "chiaqnuo", Def: "▯ is lucid-dreaming", By: "brunofrancosalamin", Score: -1}, "chiaqrue": Word{Word: "chiaqrue", Def: "▯ is not very aware; ▯ is in a daze", By: "fagri", Score: 1}, "chiaqsha": Word{Word: "chiaqsha", Def: "realize that", By: "spreadsheet", Score: 0}, "chiaqsho": Word{Word: "chiaqsho", Def: "▯ notices ▯; ▯ becomes aware of ▯", By: "fagri", Score: 0}, "chicai": Word{Word: "chicai", Def: "▯ is confident that ▯ is the case", By: "seaqtaq", Score: 0}, "chichuaq": Word{Word: "chichuaq", Def: "▯ is a religion – a system of dogmas (beliefs) ▯.", By: "uakci", Score: 1}, "chicia": Word{Word: "chicia", Def: "▯ is skeptical of ▯; ▯ can’t believe ▯.", By: "uakci", Score: 0}, "chidui": Word{Word: "chidui", Def: "▯ is naive.", By: "Ilmen", Score: 0}, "chie": Word{Word: "chie", Def: "tảo shỏ dủa dóshī sa lú rảq hóa dógū da", By: "uakci", Score: 0}, "chie ji rao tu chaq sa niq da.": Word{Word: "chie ji rao tu chaq sa niq da.", Def: "(A0043) I learn something new every day.", By: "examples", Score: 0}, "chieche": Word{Word: "chieche", Def: "▯ is a learner / student of ▯ (subject).", By: "lynn", Score: 0}, "chiechefuai": Word{Word: "chiechefuai", Def: "▯ is a student council.", By: "lynn", Score: 0}, "chiefuai": Word{Word: "chiefuai", Def: "▯ is a learning/school board", By: "seaqtaq", Score: 0}, "chiejio": Word{Word: "chiejio", Def: "predicate: ‘school’; ▯ is a school.", By: "official", Score: 0}, "chiekua": Word{Word: "chiekua", Def: "▯ is a classroom", By: "seaqtaq", Score: 0}, "chiekue": Word{Word: "chiekue", Def: "▯ is a textbook", By: "fagri", Score: 0}, "chieme": Word{Word: "chieme", Def: "▯ is a class / a group of students that have lessons together.", By: "lynn", Score: 1}, "chiemegaq": Word{Word: "chiemegaq", Def: "▯ is a classmate of ▯.", By: "lynn", Score: 0}, "chieniq": Word{Word: "chieniq", Def: "beginner", By: "spreadsheet", Score: 0}, "chieq": Word{Word: "chieq", Def: "predicate: ‘cross’; ▯ intersects/crosses/traverses ▯.", By: "official", Score: 0}, "chieqdoa": Word{Word: "chieqdoa", Def: "▯ shares ▯ with ▯", By: "seaqtaq", Score: 0}, "chieqfa": Word{Word: "chieqfa", Def: "predicate: ‘cross’; ▯ crosses ▯; ▯ goes across ▯.", By: "official", Score: 0}, "chieqkai": Word{Word: "chieqkai", Def: "(fork of #C3MrLHjRw) ▯ transcribes text ▯", By: "seaqtaq", Score: 0}, "chieqrie": Word{Word: "chieqrie", Def: "▯ is a corner between ▯.", By: "Ilmen", Score: 0}, "chieqseaqrioq": Word{Word: "chieqseaqrioq", Def: "▯ is transgender", By: "seaqtaq", Score: 0}, "chieqtei": Word{Word: "chieqtei", Def: "▯ is a cross (shape).", By: "Ilmen", Score: 0}, "chieqteq": Word{Word: "chieqteq", Def: "trade.v", By: "seaqtaq", Score: -1}, "chieqtieq": Word{Word: "chieqtieq", Def: "▯ is a crossroad", By: "seaqtaq", Score: 0}, "chietao": Word{Word: "chietao", Def: "study ⓥ", By: "spreadsheet", Score: 0}, "chietao ji nihoqtoaq da.": Word{Word: "chietao ji nihoqtoaq da.", Def: "(A0732) I study Japanese.", By: "examples", Score: 0}, "chietoai": Word{Word: "chietoai", Def: "▯ is a lesson", By: "seaqtaq", Score: 0}, "chietua": Word{Word: "chietua", Def: "predicate: ‘teach’; ▯ teaches ▯ property ▯.", By: "official", Score: 0}, "chietua suq ji ba.": Word{Word: "chietua suq ji ba.", Def: "(A0045) Teach me.", By: "examples", Score: 0}, "chiheokiao(toq)": Word{Word: "chiheokiao(toq)", Def: "▯ is a door that you keep wanting to push but it's actually a pull door, or vice-versa", By: "seaqtaq", Score: 0}, "chijio": Word{Word: "chijio", Def: "predicate: ‘temple’; ▯ is a temple/church/sanctuary/synagogue/shrine.", By: "official", Score: 0}, "chika": Word{Word: "chika", Def: "time, tcika", By: "spreadsheet", Score: -1}, "chila": Word{Word: "chila", Def: "detail", By: "spreadsheet", Score: -1}, "chilakuq": Word{Word: "chilakuq", Def: "describe", By: "spreadsheet", Score: -1}, "chile": Word{Word: "chile", Def: "▯ pertains to the culture of Chile – Republic of Chile.", By: "countries", Score: 0}, "chilegua": Word{Word: "chilegua", Def: "▯ is the country Chile – Republic of Chile.", By: "countries", Score: 0}, "chiletoaq": Word{Word: "chiletoaq", Def: "▯ is (one of) the language(s) spoken in Chile – Republic of Chile.", By: "countries", Score: 0}, "chinoa": Word{Word: "chinoa", Def: "▯ is unbelievable; ▯ is hard to believe.", By: "Ilmen", Score: 0}, "chio": Word{Word: "chio", Def: "tủq gủo go dóshī sa lú pủınē dógū hóa", By: "Ilmen", Score: 0}, "chio gu bi denoaqchoa": Word{Word: "chio gu bi denoaqchoa", Def: "(B0014) I recited twice", By: "examples", Score: 0}, "chio gu bi denoaqkuq": Word{Word: "chio gu bi denoaqkuq", Def: "(B0014) I recited twice", By: "oldexamples", Score: 0}, "chiopui": Word{Word: "chiopui", Def: "▯ happens many times, from time to time, often.", By: "uakci", Score: 0}, "chiopui ruaq naqdeo ti cai noi peso poho da.": Word{Word: "chiopui ruaq naqdeo ti cai noi peso poho da.", Def: "(A0952) Boy repeatedly asserts that strong pain is at his penis.", By: "examples", Score: 0}, "chiq": Word{Word: "chiq", Def: "insect/bug (CHIQ)", By: "spreadsheet", Score: -1}, "chiqbe": Word{Word: "chiqbe", Def: "larva", By: "spreadsheet", Score: 0}, "chiqchuq": Word{Word: "chiqchuq", Def: "▯ is insectivorous.", By: "Ilmen", Score: 0}, "chiqdiu": Word{Word: "chiqdiu", Def: "▯is entomology", By: "seaqtaq", Score: 0}, "chiqshiqhua": Word{Word: "chiqshiqhua", Def: "▯ is an antennae", By: "seaqtaq", Score: 0}, "chireq": Word{Word: "chireq", Def: "▯ is Homo religiosus; ▯ is a human being considered as inherently in need to believe something.", By: "uakci", Score: 0}, "chisha": Word{Word: "chisha", Def: "deceive", By: "spreadsheet", Score: 0}, "chisia": Word{Word: "chisia", Def: "▯ is skeptical (in general).", By: "uakci", Score: 0}, "chita": Word{Word: "chita", Def: "label, tag, tcita", By: "spreadsheet", Score: -1}, "chitu": Word{Word: "chitu", Def: "▯ is naive.", By: "Ilmen", Score: 0}, "chituafui": Word{Word: "chituafui", Def: "▯ is naive.", By: "Ilmen", Score: 0}, "chiu": Word{Word: "chiu", Def: "predicate: ‘address’; ▯ is the address/coordinates of ▯.", By: "official", Score: 0}, "cho": Word{Word: "cho", Def: "gỉ ra dẻq ra pủa dógū jìe dóshī da", By: "uakci", Score: 0}, "cho ho baq chai da.": Word{Word: "cho ho baq chai da.", Def: "(A0390) He likes tea.", By: "oldexamples", Score: 0}, "cho ho baq tiaqreo kaqhua da.": Word{Word: "cho ho baq tiaqreo kaqhua da.", Def: "(A0201) He likes brown eyes.", By: "examples", Score: 0}, "cho ho chai da.": Word{Word: "cho ho chai da.", Def: "(A0032) He likes the tea.", By: "examples", Score: 0}, "cho ho to ru baq nuai to shu ‹ nuai › da.": Word{Word: "cho ho to ru baq nuai to shu ‹ nuai › da.", Def: "(A0309) He likes money and the word \"money\".", By: "examples", Score: 0}, "cho ji baq kue kui pua noaq ji da.": Word{Word: "cho ji baq kue kui pua noaq ji da.", Def: "(A0241) I like books because I enjoy reading.", By: "examples", Score: 0}, "cho ji baq nao da.": Word{Word: "cho ji baq nao da.", Def: "(A0016) I like water.", By: "examples", Score: 0}, "cho ji guai ji rao baq nuaq da.": Word{Word: "cho ji guai ji rao baq nuaq da.", Def: "(A0087) I like working at night.", By: "examples", Score: 0}, "cho ji lu rao nuo ji bi gei ji sia rai da.": Word{Word: "cho ji lu rao nuo ji bi gei ji sia rai da.", Def: "(A0097) I like the fact that when I sleep, I wear nothing.", By: "examples", Score: 0}, "cho ji ni reo.": Word{Word: "cho ji ni reo.", Def: "phrase: \"I like this colour.\"", By: "official", Score: 0}, "cho ji reo po posuq sueta da.": Word{Word: "cho ji reo po posuq sueta da.", Def: "(A0729) I like the color of your sweater.", By: "examples", Score: 0}, "cho ji suq da.": Word{Word: "cho ji suq da.", Def: "(A0044) I like you.", By: "examples", Score: 0}, "cho ji to ru noaq to luaikuq da.": Word{Word: "cho ji to ru noaq to luaikuq da.", Def: "(A0423) I like to both read and tell jokes.", By: "examples", Score: 0}, "cho jia liqho rua.": Word{Word: "cho jia liqho rua.", Def: "(ADV.5) She will like the flower.", By: "official", Score: 0}, "cho naqho nao pu.": Word{Word: "cho naqho nao pu.", Def: "(ADV.6) He liked the water.", By: "official", Score: 0}, "cho suq hi giaq moq.": Word{Word: "cho suq hi giaq moq.", Def: "(A0095) What music do you like?", By: "examples", Score: 0}, "cho suq hi reo moq.": Word{Word: "cho suq hi reo moq.", Def: "(A0730) Which color do you like?", By: "examples", Score: 0}, "choa": Word{Word: "choa", Def: "chỏq dóshī sa pó dóshī ga bủq lâq dógū da", By: "uakci", Score: 0}, "choa suq dia laqcai ba.": Word{Word: "choa suq dia laqcai ba.", Def: "(A0583) Talk less loudly.", By: "examples", Score: 0}, "choa suq jeaq meoq ba.": Word{Word: "choa suq jeaq meoq ba.", Def: "(A0584) Talk more slowly.", By: "examples", Score: 0}, "choaboq": Word{Word: "choaboq", Def: "▯ is a consonant", By: "seaqtaq", Score: 0}, "choacha": Word{Word: "choacha", Def: "(fork of #5Nw1t8LlS) ▯ is phonotation (phonetics)", By: "seaqtaq", Score: 0}, "choacia": Word{Word: "choacia", Def: "▯ is dumbfounded, unable to speak.", By: "uakci", Score: 0}, "choadeoq": Word{Word: "choadeoq", Def: "predicate: ‘talk’; ▯ talks to ▯.", By: "official", Score: 0}, "choadeq": Word{Word: "choadeq", Def: "(fork of #bCR9LN-E5) utterable, ▯ is able to utter ▯", By: "brunofrancosalamin", Score: 0}, "choai": Word{Word: "choai", Def: "predicate: ‘cost’; ▯ costs ▯.", By: "official", Score: 0}, "choaijaq": Word{Word: "choaijaq", Def: "▯ is expensive", By: "seaqtaq", Score: 0}, "choaijaq ni haq da.": Word{Word: "choaijaq ni haq da.", Def: "(A0117) This food is expensive.", By: "examples", Score: 0}, "choaikeo": Word{Word: "choaikeo", Def: "▯ is worth being the case despite its corollary cost ▯; ▯ has ▯ as worth of doing despite the cost of having to ▯ also.", By: "uakci", Score: 2}, "choaisia": Word{Word: "choaisia", Def: "▯ is free", By: "seaqtaq", Score: 0}, "choaituao": Word{Word: "choaituao", Def: "▯ is cheap.", By: "Xeizzen", Score: 0}, "choaituao maq da.": Word{Word: "choaituao maq da.", Def: "(A0120) It's cheap.", By: "examples", Score: 0}, "choakao": Word{Word: "choakao", Def: "▯ is a voice recording.", By: "Ilmen", Score: 0}, "choakiu": Word{Word: "choakiu", Def: "(fork of #Cv0I8W1nM) (fork of #bCR9LN-E5) utterable, ▯ is able to utter ▯", By: "brunofrancosalamin", Score: 0}, "choakuq": Word{Word: "choakuq", Def: "▯ says vocally ▯ to ▯.", By: "Ilmen", Score: 0}, "choakuq suq sa rai no hiqlitoaq ba.": Word{Word: "choakuq suq sa rai no hiqlitoaq ba.", Def: "(A0484) Say something in english.", By: "examples", Score: 0}, "choakuqse": Word{Word: "choakuqse", Def: "▯ is a voice message", By: "seaqtaq", Score: 0}, "choakuqtoai": Word{Word: "choakuqtoai", Def: "phoneme", By: "spreadsheet", Score: 0}, "choalaq": Word{Word: "choalaq", Def: "predicate: ‘voice’; ▯ is a voice.", By: "official", Score: 0}, "choao": Word{Word: "choao", Def: "▯ is a cube/cuboid/box/voxel; ▯ is of the shape of a cuboid.", By: "uakci", Score: 0}, "choapoa": Word{Word: "choapoa", Def: "▯ is a consonant", By: "seaqtaq", Score: 0}, "choaq": Word{Word: "choaq", Def: "predicate: ‘guest’; ▯ is a guest; ▯ is a guest of ▯.", By: "official", Score: 0}, "choaqcho": Word{Word: "choaqcho", Def: "▯ shows hospitality towards ▯.", By: "uakci", Score: 0}, "choaqfa": Word{Word: "choaqfa", Def: "visit", By: "spreadsheet", Score: 0}, "choaqfa ho rao pujoa ji da.": Word{Word: "choaqfa ho rao pujoa ji da.", Def: "(A0182) He visited me last week.", By: "examples", Score: 0}, "choaqfa saqchio pu ji faraqse da.": Word{Word: "choaqfa saqchio pu ji faraqse da.", Def: "(A0330) ", By: "examples", Score: 0}, "choaqhio": Word{Word: "choaqhio", Def: "▯ welcomes ▯.", By: "Ilmen", Score: 0}, "choaqjio": Word{Word: "choaqjio", Def: "predicate: ‘hotel’; ▯ is a hotel/guesthouse.", By: "official", Score: 0}, "choaqjuq": Word{Word: "choaqjuq", Def: "▯ has guest(s) ▯; ▯ entertains ▯; ▯ is a host (for ▯).", By: "uakci", Score: 0}, "choaqsue": Word{Word: "choaqsue", Def: "invite", By: "spreadsheet", Score: 0}, "choaria": Word{Word: "choaria", Def: "▯ is a vowel", By: "seaqtaq", Score: 0}, "choase": Word{Word: "choase", Def: "▯ is an utterance", By: "seaqtaq", Score: 0}, "choashuo": Word{Word: "choashuo", Def: "(fork of #dQxpjhrbo) ▯ is a phonetic inventory", By: "seaqtaq", Score: 0}, "choasia": Word{Word: "choasia", Def: "predicate: ‘say.nothing.’; ▯ says nothing / is silent.", By: "Ilmen", Score: 0}, "choatoai": Word{Word: "choatoai", Def: "vocal sound", By: "spreadsheet", Score: 0}, "choatoaq": Word{Word: "choatoaq", Def: "▯ is a spoken language.", By: "lynn", Score: 0}, "chodie": Word{Word: "chodie", Def: "▯ recommends to ▯ ▯; ▯ gives to ▯ recommendation for thing ▯; ▯ suggests that ▯ like ▯.", By: "uakci", Score: 0}, "choe": Word{Word: "choe", Def: "predicate: ‘until’; ▯ takes place until ▯.", By: "official", Score: 0}, "choe tîshue ji na roaijue da.": Word{Word: "choe tîshue ji na roaijue da.", Def: "(A0153) My stay lasts until August.", By: "examples", Score: 0}, "choechio": Word{Word: "choechio", Def: "▯ repeats until ▯ is the case.", By: "Ilmen", Score: 1}, "choi": Word{Word: "choi", Def: "predicate: ‘sharp’; ▯ is sharp.", By: "official", Score: 0}, "choibeq": Word{Word: "choibeq", Def: "predicate: ‘thorn’; ▯ is a thorn.", By: "official", Score: 0}, "choiceaq": Word{Word: "choiceaq", Def: "▯ is a claw/talon.", By: "Ilmen", Score: 0}, "choicia": Word{Word: "choicia", Def: "(fork of #bkT5bqnBQ) ▯ is dull", By: "seaqtaq", Score: 0}, "choidea": Word{Word: "choidea", Def: "▯ (not necessarily agentive) stabs ▯.", By: "Ilmen", Score: 0}, "choigiu": Word{Word: "choigiu", Def: "▯ is a sharp edge.", By: "Ilmen", Score: 0}, "choigoai": Word{Word: "choigoai", Def: "▯ scratches ▯ (not necessarily leaving a visible cut or notch).", By: "Ilmen", Score: 0}, "choigue": Word{Word: "choigue", Def: "▯ is a hook.", By: "Ilmen", Score: -1}, "choihiao": Word{Word: "choihiao", Def: "▯ stings ▯.", By: "Ilmen", Score: 0}, "choihua": Word{Word: "choihua", Def: "horn / jirna", By: "spreadsheet", Score: 0}, "choinioq": Word{Word: "choinioq", Def: "▯ is a canine teeth/cuspid/fang.", By: "Ilmen", Score: 0}, "choipeo": Word{Word: "choipeo", Def: "▯ pierces ▯.", By: "Ilmen", Score: 0}, "choisai": Word{Word: "choisai", Def: "▯ is an acid.", By: "Ilmen", Score: 0}, "choishoai": Word{Word: "choishoai", Def: "▯ is a hawk belonging to the Accipiter genus.", By: "Ilmen", Score: 0}, "choishoaisiu": Word{Word: "choishoaisiu", Def: "▯ is a bird of prey; ▯ belongs to the Accipitridae taxonomic family.", By: "Ilmen", Score: 0}, "choisoe": Word{Word: "choisoe", Def: "▯ is acid.", By: "Ilmen", Score: 0}, "choko": Word{Word: "choko", Def: "chocolate", By: "spreadsheet", Score: 0}, "chokola": Word{Word: "chokola", Def: "chocolate", By: "spreadsheet", Score: 0}, "chokolate": Word{Word: "chokolate", Def: "chocolate", By: "spreadsheet", Score: 0}, "choq": Word{Word: "choq", Def: "cả tâo dóshī sa lú rảq hóa dógū na na jêaq fủı dósāq dóshī da", By: "uakci", Score: 0}, "choq go ni cha hi rai moq.": Word{Word: "choq go ni cha hi rai moq.", Def: "(A0433) How to use this?", By: "examples", Score: 0}, "choq ji sa piano ru sa gita da.": Word{Word: "choq ji sa piano ru sa gita da.", Def: "(A0340) I use a piano and a guitar.", By: "examples", Score: 0}, "choqchua": Word{Word: "choqchua", Def: "▯ is a username", By: "seaqtaq", Score: 0}, "choqgi": Word{Word: "choqgi", Def: "predicate: ‘useful’; ▯ is useful for doing ▯.", By: "official", Score: 0}, "choqgi hoi joemu da.": Word{Word: "choqgi hoi joemu da.", Def: "phrase: \"That skill is useful.\"", By: "official", Score: 0}, "choqhui": Word{Word: "choqhui", Def: "predicate: ‘useless’; ▯ is useless/inconvenient for doing ▯.", By: "official", Score: 0}, "choqkiu": Word{Word: "choqkiu", Def: "▯ is available; ▯ is available for being or doing ▯.", By: "Ilmen", Score: 0}, "choqmia": Word{Word: "choqmia", Def: "▯ is versatile", By: "seaqtaq", Score: 0}, "choqtiao": Word{Word: "choqtiao", Def: "predicate: ‘usable’; ▯ is useful for doing ▯", By: "seaqtaq", Score: 1}, "chorakeniai": Word{Word: "chorakeniai", Def: "crocodilia", By: "spreadsheet", Score: 0}, "chosoq": Word{Word: "chosoq", Def: "predicate: ‘favourite’; ▯ is the favourite of ▯ among ▯.", By: "official", Score: 0}, "chosoq ji jue saqjue": Word{Word: "chosoq ji jue saqjue", Def: "(A0143) I like the month that is March the most.", By: "examples", Score: 0}, "chosoqgaokorea": Word{Word: "chosoqgaokorea", Def: "▯ pertains to the culture of North Korea → Korea, North.", By: "countries", Score: 0}, "chosoqgaokoreagua": Word{Word: "chosoqgaokoreagua", Def: "▯ is the country North Korea → Korea, North.", By: "countries", Score: 0}, "chosoqgaokoreatoaq": Word{Word: "chosoqgaokoreatoaq", Def: "▯ is (one of) the language(s) spoken in North Korea → Korea, North.", By: "countries", Score: 0}, "chou": Word{Word: "chou", Def: "▯ is cabbage.", By: "uakci", Score: 0}, "chu": Word{Word: "chu", Def: "predicate: ‘middle’; ▯ is a middle; ▯ is the middle of ▯.", By: "official", Score: 0}, "chua": Word{Word: "chua", Def: "tủq dógū lî lảı dóshī ja dó da", By: "uakci", Score: 0}, "chua hi rai ni moq.": Word{Word: "chua hi rai ni moq.", Def: "(A0039) What is the name of this?", By: "examples", Score: 0}, "chua hi rai suq moq.": Word{Word: "chua hi rai suq moq.", Def: "(A0038) What is your name?", By: "examples", Score: 0}, "chuabeo": Word{Word: "chuabeo", Def: "▯ changes their name to be ▯", By: "seaqtaq", Score: 0}, "chuabo": Word{Word: "chuabo", Def: "▯ is called ▯.", By: "Ilmen", Score: 0}, "chuadoa": Word{Word: "chuadoa", Def: "predicate: ‘name’; ▯ names/calls ▯ name ▯.", By: "official", Score: 0}, "chuai": Word{Word: "chuai", Def: "solid", By: "spreadsheet", Score: 0}, "chuaihiao": Word{Word: "chuaihiao", Def: "▯ ice-burns ▯", By: "seaqtaq", Score: 0}, "chuaikea": Word{Word: "chuaikea", Def: "predicate: ‘freezer’; ▯ is a freezer.", By: "official", Score: 0}, "chuainao": Word{Word: "chuainao", Def: "predicate: ‘ice’; ▯ is ice (frozen water).", By: "official", Score: 0}, "chuairuq": Word{Word: "chuairuq", Def: "predicate: ‘hail’; ▯ is hail.", By: "official", Score: 0}, "chuairuqshua": Word{Word: "chuairuqshua", Def: "predicate: ‘hail’; It hails; ▯ hails; ▯ hails onto ▯.", By: "official", Score: 0}, "chuairuqshua.": Word{Word: "chuairuqshua.", Def: "phrase: \"It's hailing.\"", By: "official", Score: 0}, "chuaishai": Word{Word: "chuaishai", Def: "melt", By: "spreadsheet", Score: 0}, "chuajoe": Word{Word: "chuajoe", Def: "▯ has title ▯ in field ▯; ▯ is certified with honorary affix ▯ to have gained expertise on subject ▯/1.", By: "uakci", Score: 0}, "chuakai": Word{Word: "chuakai", Def: "▯ signs/writes their signature ▯ on ▯", By: "seaqtaq", Score: 0}, "chuao": Word{Word: "chuao", Def: "hole", By: "spreadsheet", Score: 0}, "chuaotie": Word{Word: "chuaotie", Def: "predicate: ‘window cover’; ▯ is a window cover.", By: "official", Score: 0}, "chuaq": Word{Word: "chuaq", Def: "predicate: ‘ism’; ▯ is a tendency of behaviour, action, state, condition or opinion belonging to a class or group of persons, or the result of a doctrine, ideology or principle or lack thereof; ▯ is an ideology based on concept ▯; ▯ is an ism; ▯ is an ▯-ism.", By: "official", Score: 0}, "chuaq jiureai": Word{Word: "chuaq jiureai", Def: "(fork of #xwo4kqGnR) ▯ is antinatalism", By: "seaqtaq", Score: 0}, "chuaq jiusoiheo": Word{Word: "chuaq jiusoiheo", Def: "▯ is antinatalism", By: "seaqtaq", Score: 0}, "chuaqraq": Word{Word: "chuaqraq", Def: "▯ is ▯-istic; ▯ displays properties of the ideology ▯ (= chuaq.2).", By: "uakci", Score: 0}, "chuaqshi": Word{Word: "chuaqshi", Def: "▯ are united in ideology ▯", By: "seaqtaq", Score: 0}, "chuchaq": Word{Word: "chuchaq", Def: "Wednesday", By: "uakci", Score: 0}, "chuche": Word{Word: "chuche", Def: "▯ armchairly satisfies property ▯; ▯ is not really a professional and potentially merely an enthusiast and/or doesn't have formal education to satisfy property ▯", By: "seaqtaq", Score: 0}, "chuchua": Word{Word: "chuchua", Def: "▯ is a middle name", By: "seaqtaq", Score: 0}, "chudari": Word{Word: "chudari", Def: "kernel", By: "spreadsheet", Score: -1}, "chue": Word{Word: "chue", Def: "predicate: ‘train’; ▯ is a train/caravan/succession.", By: "official", Score: 0}, "chuece": Word{Word: "chuece", Def: "predicate: ‘train.station’; ▯ is a train station.", By: "official", Score: 0}, "chufaq": Word{Word: "chufaq", Def: "predicate: ‘-ing’; ▯ is ongoing; ▯ is in the middle of taking place; ▯ is ▯ing.", By: "official", Score: 0}, "chufaq bi nuo bebe da.": Word{Word: "chufaq bi nuo bebe da.", Def: "(A0029) The baby is sleeping.", By: "examples", Score: 0}, "chufaq chietao ho da.": Word{Word: "chufaq chietao ho da.", Def: "(A0731) He is studying now.", By: "examples", Score: 0}, "chufaq fa ji jeariaq da.": Word{Word: "chufaq fa ji jeariaq da.", Def: "(A0073) I am going to the store.", By: "examples", Score: 0}, "chufaq jiai ho sa shamu da.": Word{Word: "chufaq jiai ho sa shamu da.", Def: "(A0175) He is reaching for an apple.", By: "examples", Score: 0}, "chufaq joepoi lao ji": Word{Word: "chufaq joepoi lao ji", Def: "(B0043) I am patiently waiting", By: "examples", Score: 0}, "chufaq lao ho tisho puichao da.": Word{Word: "chufaq lao ho tisho puichao da.", Def: "(A0541) He is waiting for the bus to arrive.", By: "examples", Score: 0}, "chufaq lao suq hi rai moq.": Word{Word: "chufaq lao suq hi rai moq.", Def: "(A0256) What are you waiting for?", By: "examples", Score: 0}, "chufaq mieq ji ne buai ja rai toqfua da.": Word{Word: "chufaq mieq ji ne buai ja rai toqfua da.", Def: "(A0585) I'm measuring the length of the table.", By: "examples", Score: 0}, "chufaq mieq ne buai ji toqfua da.": Word{Word: "chufaq mieq ne buai ji toqfua da.", Def: "(A0586) I'm measuring the length of the table.", By: "examples", Score: 0}, "chufaq peo ho sahara ga neaqguaq da.": Word{Word: "chufaq peo ho sahara ga neaqguaq da.", Def: "(A0218) He is passing through the Sahara desert.", By: "examples", Score: 0}, "chufaq ti ho sa biajio da.": Word{Word: "chufaq ti ho sa biajio da.", Def: "(A0019) He is staying at some hospital.", By: "examples", Score: 0}, "chufaqkuq": Word{Word: "chufaqkuq", Def: "▯ interrupts ▯ (person) to say ▯", By: "fagri", Score: 0}, "chuhuaq": Word{Word: "chuhuaq", Def: "▯ is greater than the median among ▯ when sorted on the scale ▯ (property).", By: "Ilmen", Score: 0}, "chui": Word{Word: "chui", Def: "pủı sa tủq lủ shủı dóshī hoa da", By: "uakci", Score: 0}, "chuichuq": Word{Word: "chuichuq", Def: "▯ eats breakfast", By: "seaqtaq", Score: 0}, "chuifeo": Word{Word: "chuifeo", Def: "east  (CHUIFEO)", By: "spreadsheet", Score: 0}, "chuihaq": Word{Word: "chuihaq", Def: "predicate: ‘breakfast’; ▯ is breakfast.", By: "official", Score: 0}, "chuilio": Word{Word: "chuilio", Def: "▯ is the north (direction).", By: "Ilmen", Score: 0}, "chuiriao": Word{Word: "chuiriao", Def: "predicate: ‘dawn’; ▯ is dawn.", By: "official", Score: 0}, "chuisiaq": Word{Word: "chuisiaq", Def: "south (direction)", By: "spreadsheet", Score: 0}, "chujiurioq": Word{Word: "chujiurioq", Def: "▯ is intersex", By: "seaqtaq", Score: 0}, "chukuq": Word{Word: "chukuq", Def: "▯ mediates between/among ▯.", By: "Hoemai", Score: 0}, "chuo": Word{Word: "chuo", Def: "dảı chôq sa ráı dóshī lî sa dó bı tủa ja ráı jẻo dó dógū da", By: "uakci", Score: 0}, "chuo joai maigeq": Word{Word: "chuo joai maigeq", Def: "▯ is a dating app.", By: "uakci", Score: 0}, "chuo ni hi rai moq.": Word{Word: "chuo ni hi rai moq.", Def: "(A0432) What is this used for?", By: "examples", Score: 0}, "chuo taq joai maigeq": Word{Word: "chuo taq joai maigeq", Def: "▯ is a dating app.", By: "uakci", Score: 0}, "chuocha": Word{Word: "chuocha", Def: "chỏq sa ráı dógū lî tủa ja dó dóshī da", By: "uakci", Score: 0}, "chuochoq": Word{Word: "chuochoq", Def: "▯ uses tool ▯ for its intended purpose.", By: "Ilmen", Score: 0}, "chuodoe": Word{Word: "chuodoe", Def: "function (perfom its purpose), is (turned) on", By: "spreadsheet", Score: 0}, "chuoi": Word{Word: "chuoi", Def: "▯ is a thread/rope/cord/string.", By: "Ilmen", Score: 0}, "chuoiniu": Word{Word: "chuoiniu", Def: "▯ is a vine/climber (climbing or trailing plant).", By: "Ilmen", Score: 0}, "chuomia": Word{Word: "chuomia", Def: "▯ is versatile", By: "seaqtaq", Score: 0}, "chuomu": Word{Word: "chuomu", Def: "purpose (indended function)", By: "spreadsheet", Score: 0}, "chuq": Word{Word: "chuq", Def: "tảo dóshī sa lú to ru shỏ nỉe jòı hóa dógū dóshī to cả hóa dâı chỏq dóshī dógū dâı dủoı mỉe dóshī da", By: "uakci", Score: 0}, "chuq ho baq chuihaq rao baq diosiao da.": Word{Word: "chuq ho baq chuihaq rao baq diosiao da.", Def: "(A0063) He eats breakfast in the morning.", By: "examples", Score: 0}, "chuq ho ku shamu da": Word{Word: "chuq ho ku shamu da", Def: "(A0477) It's an apple that he ate.", By: "examples", Score: 0}, "chuq ho sa shi shamu da.": Word{Word: "chuq ho sa shi shamu da.", Def: "(A0542) He eats an apple.", By: "examples", Score: 0}, "chuq ji choko.": Word{Word: "chuq ji choko.", Def: "(PRD.1) I am eating chocolate.", By: "official", Score: 0}, "chuq ji nijui na ru chuq suq nijao.": Word{Word: "chuq ji nijui na ru chuq suq nijao.", Def: "(TER.2) I eat this and you eat that.", By: "official", Score: 0}, "chuq ji rao nichaq sa cie da.": Word{Word: "chuq ji rao nichaq sa cie da.", Def: "(A0025) I ate some fish today.", By: "examples", Score: 0}, "chuq ji.": Word{Word: "chuq ji.", Def: "(PRD.2) I am eating.", By: "official", Score: 0}, "chuq to ru ji nijui to suq nijao.": Word{Word: "chuq to ru ji nijui to suq nijao.", Def: "(TER.1) I eat this and you that.", By: "official", Score: 0}, "chuqbeaq": Word{Word: "chuqbeaq", Def: "▯ are chopsticks.", By: "lynn", Score: 0}, "chuqchuo": Word{Word: "chuqchuo", Def: "cutlery", By: "spreadsheet", Score: 0}, "chuqdere": Word{Word: "chuqdere", Def: "▯ is obsessed with eating.", By: "uakci", Score: 0}, "chuqgi": Word{Word: "chuqgi", Def: "▯ is edible.", By: "uakci", Score: 0}, "chuqgiq": Word{Word: "chuqgiq", Def: "vomit", By: "spreadsheet", Score: 0}, "chuqgiqkuai": Word{Word: "chuqgiqkuai", Def: "nausea", By: "spreadsheet", Score: 0}, "chuqguao": Word{Word: "chuqguao", Def: "predicate: ‘fork’; ▯ is a fork.", By: "official", Score: 0}, "chuqguq": Word{Word: "chuqguq", Def: "▯ is a chungus (a very fat animal)", By: "fagri", Score: 0}, "chuqjeariaq": Word{Word: "chuqjeariaq", Def: "restaurant", By: "spreadsheet", Score: 0}, "chuqjuao": Word{Word: "chuqjuao", Def: "▯ is a diet", By: "seaqtaq", Score: 1}, "chuqkua": Word{Word: "chuqkua", Def: "▯ is a dining room", By: "seaqtaq", Score: 0}, "chuqkuai": Word{Word: "chuqkuai", Def: "predicate: ‘hungry’; ▯ is hungry.", By: "official", Score: 0}, "chuqmuaq(sho)": Word{Word: "chuqmuaq(sho)", Def: "▯ dies from starvation ▯", By: "seaqtaq", Score: 0}, "chuqroe": Word{Word: "chuqroe", Def: "▯ is healthy to eat.", By: "uakci", Score: 0}, "chuqtiao": Word{Word: "chuqtiao", Def: "predicate: ‘edible’; ▯ is edible.", By: "official", Score: 0}, "churie": Word{Word: "churie", Def: "▯ is halfway between point ▯ and point ▯.", By: "uakci", Score: 0}, "churiohua": Word{Word: "churiohua", Def: "▯ is a diaphragm", By: "seaqtaq", Score: 0}, "churioq": Word{Word: "churioq", Def: "▯ is a hybrid ▯", By: "seaqtaq", Score: 0}, "chuseaqrioq": Word{Word: "chuseaqrioq", Def: "▯ is gender-neutral", By: "fagri", Score: 0}, "chuti": Word{Word: "chuti", Def: "▯ is in the middle of ▯", By: "seaqtaq", Score: 0}, "ci": Word{Word: "ci", Def: "predicate: ‘six’; ▯ are six in number.", By: "official", Score: 0}, "ci poq ti chiejio da. ": Word{Word: "ci poq ti chiejio da. ", Def: "(A0368) There are five people at school.", By: "examples", Score: 0}, "cia": Word{Word: "cia", Def: "bủ dóshī dógū fãq ru hũı da", By: "uakci", Score: 0}, "ciacheo": Word{Word: "ciacheo", Def: "▯ complements ▯ in propertie(s) ▯; ▯ has, but ▯ hasn’t – or has to an insufficient extent – propertie(s) ▯.", By: "uakci", Score: 0}, "ciao": Word{Word: "ciao", Def: "▯ is a culture entailing activities ▯.", By: "uakci", Score: 1}, "ciaojie": Word{Word: "ciaojie", Def: "▯ is a mythological or stereotypical fact of culture ▯.", By: "uakci", Score: 0}, "ciaopaq": Word{Word: "ciaopaq", Def: "▯ is a meme; ▯ is lore of culture ▯.", By: "uakci", Score: 0}, "cie": Word{Word: "cie", Def: "predicate: ‘fish’; ▯ is a fish.", By: "official", Score: 0}, "ciechuq": Word{Word: "ciechuq", Def: "▯ is a pescatarian", By: "seaqtaq", Score: 0}, "ciejuku": Word{Word: "ciejuku", Def: "fish (v)", By: "spreadsheet", Score: 0}, "ciepoq": Word{Word: "ciepoq", Def: "▯ is half-fish, half-human (a non-gender-specific mermaid)", By: "fagri", Score: 0}, "ciereq": Word{Word: "ciereq", Def: "▯ is a merfolk / merperson.", By: "lynn", Score: 1}, "cifujuao": Word{Word: "cifujuao", Def: "▯ is Zipf's law.", By: "Ilmen", Score: 1}, "cihea": Word{Word: "cihea", Def: "▯ is a die, a dice, dice.", By: "uakci", Score: 0}, "cijieq": Word{Word: "cijieq", Def: "▯ is a hexagone.", By: "Ilmen", Score: 0}, "cijue": Word{Word: "cijue", Def: "▯ is June", By: "lynn", Score: 1}, "ciko": Word{Word: "ciko", Def: "predicate: ‘sixth’; ▯ is sixth among ▯.", By: "official", Score: 0}, "cilaqtei": Word{Word: "cilaqtei", Def: "▯ is the sixth tone (low).", By: "lynn", Score: 0}, "cineicheo": Word{Word: "cineicheo", Def: "▯ (plural) do 69 (sex position).", By: "Hoemai", Score: 1}, "cio": Word{Word: "cio", Def: "pủjūı to ru shảı dẻo to cẻo kỏaq dóshī da", By: "uakci", Score: 0}, "cioi": Word{Word: "cioi", Def: "▯ cooks ▯; ▯ prepares ▯ by means of a series of short-term processes (mostly heating, but also: combining ingredients, mixing, applying physical transformations such as chopping, dicing and others, whipping, …).", By: "uakci", Score: 0}, "cioibeaq": Word{Word: "cioibeaq", Def: "(fork of #k-WhFouNm) ▯ is a mortar\u00a0", By: "seaqtaq", Score: 0}, "cioikea": Word{Word: "cioikea", Def: "▯ is an oven/microwave; ▯ is any apparatus aiding in cooking", By: "seaqtaq", Score: 0}, "ciokoaq": Word{Word: "ciokoaq", Def: "▯ is a young adult.", By: "uakci", Score: 0}, "cipue": Word{Word: "cipue", Def: "▯ is a member of subphylum Hexapoda (the six legged arthropods).", By: "Hoemai", Score: 0}, "ciq": Word{Word: "ciq", Def: "▯ is done/acted out in a way similar to/reminiscent of all ▯s.", By: "uakci", Score: -1}, "ciqpeqji": Word{Word: "ciqpeqji", Def: "▯ is a chimpanzee.", By: "Ilmen", Score: 0}, "cishiaq": Word{Word: "cishiaq", Def: "insect/bug (CHIQ)", By: "spreadsheet", Score: 0}, "citoq": Word{Word: "citoq", Def: "▯ is a cube.", By: "Ilmen", Score: 1}, "ciu": Word{Word: "ciu", Def: "tủa dóshī lû to ru pẻo dógū sa gúoq pỏ dóshī to bủı dógū dóshī ceı, na ru lủı nủa sa túaı pỏ dóshī lî hẻq ja dó sa háq na dógū da", By: "uakci", Score: 0}, "ciuchia": Word{Word: "ciuchia", Def: "need to excrete", By: "spreadsheet", Score: 0}, "ciukuai": Word{Word: "ciukuai", Def: "need to excrete", By: "spreadsheet", Score: 0}, "ciuriaq": Word{Word: "ciuriaq", Def: "predicate: ‘toilet’; ▯ is a toilet.", By: "official", Score: 0}, "ciuriaq ti hi rai moq": Word{Word: "ciuriaq ti hi rai moq", Def: "(A0031) Where is there a toilet?", By: "examples", Score: 0}, "ciuse": Word{Word: "ciuse", Def: "predicate: ‘excretion’; ▯ is an excretion.", By: "official", Score: 0}, "co": Word{Word: "co", Def: "quantifier: ‘how.many’; quantifier: how many", By: "official", Score: 0}, "co rai pa mu raqdua suq moq": Word{Word: "co rai pa mu raqdua suq moq", Def: "(A0579) How much do you know?", By: "examples", Score: 0}, "coa": Word{Word: "coa", Def: "predicate: ‘bridge’; ▯ is a bridge.", By: "official", Score: 0}, "coai": Word{Word: "coai", Def: "▯ pulls ▯.", By: "uakci", Score: 0}, "coaq": Word{Word: "coaq", Def: "predicate: ‘tamed’; ▯ is tame/domesticated.", By: "official", Score: 0}, "coaqbariqci": Word{Word: "coaqbariqci", Def: "▯ is rice (Oryza sativa).", By: "Ilmen", Score: 0}, "coaqluko": Word{Word: "coaqluko", Def: "▯ is a dog (canis lupus familiaris).", By: "Ilmen", Score: 0}, "coe": Word{Word: "coe", Def: "sa dó bı, fủo dóshī dó, na ru fủo dó dógū da (kıo dảı mêajēq dóshī ra dógū dó kı)", By: "uakci", Score: 0}, "coebui": Word{Word: "coebui", Def: "▯ is offline from ▯.", By: "uakci", Score: 0}, "coechu": Word{Word: "coechu", Def: "▯ is enduring a connection with ▯; ▯ is online.", By: "uakci", Score: 0}, "coechuopue": Word{Word: "coechuopue", Def: "arthropod", By: "spreadsheet", Score: 0}, "coeguaq": Word{Word: "coeguaq", Def: "▯ pertains to the culture of United Kingdom – United Kingdom of Great Britain and Northern Ireland.", By: "countries", Score: 0}, "coeguaqgua": Word{Word: "coeguaqgua", Def: "▯ is the country United Kingdom – United Kingdom of Great Britain and Northern Ireland.", By: "countries", Score: 0}, "coeguaqtoaq": Word{Word: "coeguaqtoaq", Def: "▯ is (one of) the language(s) spoken in United Kingdom – United Kingdom of Great Britain and Northern Ireland.", By: "countries", Score: 0}, "coejaq": Word{Word: "coejaq", Def: "stick(y)", By: "spreadsheet", Score: 0}, "coesai": Word{Word: "coesai", Def: "▯ is glue.", By: "Ilmen", Score: 0}, "coetano": Word{Word: "coetano", Def: "▯ is clay.", By: "Ilmen", Score: 0}, "coetoa": Word{Word: "coetoa", Def: "conjunction", By: "spreadsheet", Score: 0}, "coetua": Word{Word: "coetua", Def: "predicate: ‘join’; ▯ joins ▯ with ▯.", By: "official", Score: 0}, "coi": Word{Word: "coi", Def: "▯ is a thing; ▯ is something (restricted to concrete, three-dimensional (ourworldly) objects).", By: "uakci", Score: 0}, "colijeo": Word{Word: "colijeo", Def: "▯ is a piecewise predicate which, depending on the arity, expands to one of the following predicates with the matching arity.", By: "uakci", Score: 0}, "comoq": Word{Word: "comoq", Def: "▯ is a ‘co… moq’ question.", By: "uakci", Score: 0}, "copoi": Word{Word: "copoi", Def: "▯ is an event in which how many are the x1?", By: "seaqtaq", Score: 0}, "coq": Word{Word: "coq", Def: "▯ is empty; ▯ is zero in cardinality.", By: "uakci", Score: 0}, "cotoa": Word{Word: "cotoa", Def: "▯ is a quantifier.", By: "Ilmen", Score: 0}, "cu": Word{Word: "cu", Def: "linking word: ‘3rd.place’; linking word: 3rd argument place", By: "official", Score: 0}, "cua": Word{Word: "cua", Def: "tảo dóshī dósāq kùı tâq gảı dóshī dógū da", By: "uakci", Score: 0}, "cuaboq": Word{Word: "cuaboq", Def: "▯ mutes ▯", By: "seaqtaq", Score: 0}, "cuai": Word{Word: "cuai", Def: "predicate: ‘wet’; ▯ is wet.", By: "official", Score: 0}, "cuaichoatoai": Word{Word: "cuaichoatoai", Def: "▯ is a liquid (phonetics)", By: "seaqtaq", Score: 0}, "cuaishiqhua": Word{Word: "cuaishiqhua", Def: "▯ is a rhinarium / nose leather.", By: "Ilmen", Score: 0}, "cuakuq": Word{Word: "cuakuq", Def: "predicate: ‘respond’; ▯ responds ▯ to ▯.", By: "official", Score: 0}, "cuakuqkuai": Word{Word: "cuakuqkuai", Def: "▯ is hungry for comments about ▯.", By: "Ilmen", Score: 0}, "cuakuqse": Word{Word: "cuakuqse", Def: "▯ is a response.", By: "lynn", Score: 0}, "cuao": Word{Word: "cuao", Def: "predicate: ‘beyond’; ▯ is beyond ▯ in property ▯.", By: "official", Score: 0}, "cuaq": Word{Word: "cuaq", Def: "predicate, selbri", By: "spreadsheet", Score: 0}, "cuaq de": Word{Word: "cuaq de", Def: "argument phrase: \"the concept of beauty\"", By: "official", Score: 0}, "cuaq mie": Word{Word: "cuaq mie", Def: "▯ is the concept of life.", By: "lynn", Score: 0}, "cuaq muaq": Word{Word: "cuaq muaq", Def: "▯ is the concept of death.", By: "lynn", Score: 0}, "cuaq req hi rai moq": Word{Word: "cuaq req hi rai moq", Def: "(A0499) What is it to be human?", By: "examples", Score: 0}, "cuaq roe": Word{Word: "cuaq roe", Def: "health (healthiness)", By: "spreadsheet", Score: 0}, "cuaq tao luai": Word{Word: "cuaq tao luai", Def: "humor", By: "spreadsheet", Score: 0}, "cuaqjie": Word{Word: "cuaqjie", Def: "Ithkuil's Interpretative Case: X (abstract) is the interpretation of Y as seen by Z", By: "spreadsheet", Score: 0}, "cuaqko": Word{Word: "cuaqko", Def: "argument, sumti (X satisfies the Y-th slot of predicate Z)", By: "spreadsheet", Score: 0}, "cuaqkotoa": Word{Word: "cuaqkotoa", Def: "▯ is a noun.", By: "Ilmen", Score: 0}, "cuaqtoa": Word{Word: "cuaqtoa", Def: "verb", By: "spreadsheet", Score: 0}, "cuataq": Word{Word: "cuataq", Def: "▯ answers their own question ▯.", By: "uakci", Score: 0}, "cuataqteoqkuq": Word{Word: "cuataqteoqkuq", Def: "▯ asks question ▯ to ▯, despite the fact that they already know the answer.", By: "uakci", Score: 0}, "cue": Word{Word: "cue", Def: "predicate: ‘reign’; ▯ reigns over ▯.", By: "official", Score: 0}, "cuediu": Word{Word: "cuediu", Def: "▯ is politics.", By: "Ilmen", Score: 0}, "cuefuai": Word{Word: "cuefuai", Def: "predicate: ‘government’; ▯ is a government; ▯ is a government of ▯.", By: "official", Score: 0}, "cueq": Word{Word: "cueq", Def: "▯ is public.", By: "uakci", Score: 0}, "cuetaq": Word{Word: "cuetaq", Def: "▯ is sovereign (said of a political entity, possibly as small as one person)", By: "fagri", Score: 1}, "cuga": Word{Word: "cuga", Def: "▯ is a hemlock tree.", By: "Hoemai", Score: 0}, "cui": Word{Word: "cui", Def: "predicate: ‘magenta’; ▯ is the colour magenta.", By: "official", Score: 0}, "cuireo": Word{Word: "cuireo", Def: "predicate: ‘magenta’; ▯ is magenta-coloured.", By: "official", Score: 0}, "cuka": Word{Word: "cuka", Def: "throw", By: "spreadsheet", Score: 0}, "cukague": Word{Word: "cukague", Def: "bow, weapon", By: "spreadsheet", Score: 0}, "cukapoaq": Word{Word: "cukapoaq", Def: "▯ explodes.", By: "Ilmen", Score: 0}, "cukataq": Word{Word: "cukataq", Def: "jump", By: "spreadsheet", Score: 0}, "cuki": Word{Word: "cuki", Def: "▯ nods", By: "fagri", Score: 0}, "cunami": Word{Word: "cunami", Def: "▯ is a tsunami.", By: "Ilmen", Score: 0}, "cuo": Word{Word: "cuo", Def: "bủ dủa dóshī câ hı ráı dûaı jẻo dógū na na, na ru mỉu dóshī dógū da", By: "uakci", Score: 0}, "cuoshe": Word{Word: "cuoshe", Def: "▯ is true under assumption ▯.", By: "uakci", Score: 0}, "cuq": Word{Word: "cuq", Def: "The embedded predication is satisfied with first place ▯ and all original places moved one to the right. [LU]", By: "uakci", Score: 0}, "cutao": Word{Word: "cutao", Def: "predicate: ‘spit’; ▯ spits.", By: "official", Score: 0}, "cutaq": Word{Word: "cutaq", Def: "<▯1, ▯2> are such that <x1, x2, x1> satisfy ternary relation ▯/3; ▯ does/is ▯/3 to themselves.", By: "uakci", Score: 1}, "cutie": Word{Word: "cutie", Def: "▯ stands on, blocks, obtrudes the path between ▯ and ▯;", By: "uakci", Score: 0}, "da": Word{Word: "da", Def: "[DA] Dảkūq kúq kúqsē da.", By: "Ilmen", Score: 0}, "dada": Word{Word: "dada", Def: "▯ is a chest (anatomy).", By: "Ilmen", Score: 0}, "dafuq": Word{Word: "dafuq", Def: "▯ is confused about ▯.", By: "uakci", Score: 1}, "dai": Word{Word: "dai", Def: "bủ dủaı bû dóshī da", By: "uakci", Score: 0}, "dai jia niqdua puqho.": Word{Word: "dai jia niqdua puqho.", Def: "(SRP.3) It is possible that they will make a discovery.", By: "official", Score: 0}, "dai lu loi ho nai ji da.": Word{Word: "dai lu loi ho nai ji da.", Def: "(A0270) It's possible that he hates me now.", By: "examples", Score: 0}, "daichi": Word{Word: "daichi", Def: "predicate: ‘hope’; ▯ has hope that ▯ is the case; ▯ believes ▯ can happen.", By: "official", Score: 0}, "daichiheu": Word{Word: "daichiheu", Def: "(fork of #T59m4qVvi) apple", By: "seaqtaq", Score: -2}, "daigai": Word{Word: "daigai", Def: "perceivable", By: "spreadsheet", Score: 0}, "daigi": Word{Word: "daigi", Def: "there is a chance/opportunity for ▯ to happen.", By: "Ilmen", Score: 0}, "daimoi": Word{Word: "daimoi", Def: "imagine", By: "spreadsheet", Score: -1}, "daipeopaq": Word{Word: "daipeopaq", Def: "▯ is a hole though ▯", By: "Xylochoron", Score: 0}, "dairia": Word{Word: "dairia", Def: "▯ is such that the doorway is spatially obscured by door (▯), yet not disabling entrance", By: "spreadsheet", Score: 0}, "daisi": Word{Word: "daisi", Def: "imagine", By: "spreadsheet", Score: -1}, "daisio": Word{Word: "daisio", Def: "predicate: ‘idea’; ▯ is an idea.", By: "official", Score: 0}, "daki": Word{Word: "daki", Def: "▯ is a forehead.", By: "Ilmen", Score: 0}, "dao": Word{Word: "dao", Def: "predicate: ‘information’; ▯ is information/data.", By: "official", Score: 0}, "daobaq": Word{Word: "daobaq", Def: "▯ is a file.", By: "uakci", Score: 0}, "daochiu": Word{Word: "daochiu", Def: "▯ is an address / URL / file path to data\u00a0 ▯.", By: "lynn", Score: 0}, "daocoe": Word{Word: "daocoe", Def: "▯ is data connection", By: "seaqtaq", Score: 0}, "daofaq": Word{Word: "daofaq", Def: "▯(video, audio file, GIF, etc.) plays", By: "seaqtaq", Score: 0}, "daogai": Word{Word: "daogai", Def: "▯ has perception ▯ (raw perception, neither the stimuli/cause thereof nor any proposition induced from it).", By: "Ilmen", Score: 0}, "daojioqdiu": Word{Word: "daojioqdiu", Def: "▯ is computer science.", By: "lynn", Score: 0}, "daojuq": Word{Word: "daojuq", Def: "▯ accesses ▯", By: "seaqtaq", Score: 0}, "daojuqkiu": Word{Word: "daojuqkiu", Def: "▯ is accessible", By: "seaqtaq", Score: 0}, "daokai": Word{Word: "daokai", Def: "▯ inputs data ▯ in form/record ▯.", By: "lynn", Score: 0}, "daokaichuo": Word{Word: "daokaichuo", Def: "▯ is an input device (e.g. a keyboard).", By: "lynn", Score: 0}, "daome": Word{Word: "daome", Def: "▯ is a digital cloud", By: "seaqtaq", Score: 0}, "daone": Word{Word: "daone", Def: "▯ is the size of file/cache/folder ▯", By: "seaqtaq", Score: 0}, "daoraq": Word{Word: "daoraq", Def: "▯ links to ▯ by means of ▯; ▯ references/points to ▯ with ▯.", By: "uakci", Score: 0}, "daorioi": Word{Word: "daorioi", Def: "▯ is a proxy server", By: "seaqtaq", Score: 0}, "daosho": Word{Word: "daosho", Def: "▯(device) connects to service/network ▯", By: "seaqtaq", Score: 0}, "daoshuo": Word{Word: "daoshuo", Def: "▯ is a cache(computing)", By: "seaqtaq", Score: 0}, "daosi": Word{Word: "daosi", Def: "predicate: ‘interested’; ▯ is interested in ▯; ▯ is curious about ▯.", By: "official", Score: 0}, "daosi suq diu su hi rai moq.": Word{Word: "daosi suq diu su hi rai moq.", Def: "(A0949) You are interested in the science of what thing?", By: "examples", Score: 0}, "daosica": Word{Word: "daosica", Def: "▯ interests ▯; ▯ is interesting to ▯.", By: "uakci", Score: 0}, "daosue": Word{Word: "daosue", Def: "▯ wants to know from ▯ fact ▯; ▯ asks ▯ fact ▯.", By: "Ilmen", Score: 0}, "daoteidiu": Word{Word: "daoteidiu", Def: "▯ is statistics.", By: "lynn", Score: 0}, "dapa": Word{Word: "dapa", Def: "▯ is a hand palm / foot sole.", By: "Ilmen", Score: 0}, "dapapueq": Word{Word: "dapapueq", Def: "▯ walks plantigradally / on the sole of his/her/its feet.", By: "Ilmen", Score: 0}, "dapapueqhe": Word{Word: "dapapueqhe", Def: "▯ is a plantigrade.", By: "Ilmen", Score: 0}, "dapasheaq": Word{Word: "dapasheaq", Def: "▯ walks plantigradally / on the sole of his/her/its feet.", By: "Ilmen", Score: 0}, "dapasheaqhe": Word{Word: "dapasheaqhe", Def: "▯ is a plantigrade.", By: "Ilmen", Score: 0}, "daq": Word{Word: "daq", Def: "mẻa dóshī ta lú rảq hóa sa túq củaq shỉu ra bỉe da\u00a0", By: "uakci", Score: 0}, "daqchiu": Word{Word: "daqchiu", Def: "date (time)", By: "spreadsheet", Score: 0}, "daqchoq": Word{Word: "daqchoq", Def: "▯ spends time to do ▯.", By: "Ilmen", Score: 1}, "daqchune": Word{Word: "daqchune", Def: "▯ is the time distance between ▯ and ▯.", By: "seaqtaq", Score: 0}, "daqchuq": Word{Word: "daqchuq", Def: "▯ is chronophage.", By: "Ilmen", Score: 0}, "daqcu": Word{Word: "daqcu", Def: "dance", By: "spreadsheet", Score: -1}, "daqdu": Word{Word: "daqdu", Def: "hang (dandu)", By: "spreadsheet", Score: -1}, "daqduai": Word{Word: "daqduai", Def: "▯ is due (before deadline▯)", By: "seaqtaq", Score: 0}, "daqfai": Word{Word: "daqfai", Def: "adverb: \"often\"", By: "official", Score: 0}, "daqfai bu taoshao fa ji da.": Word{Word: "daqfai bu taoshao fa ji da.", Def: "(A0402) Often I don't intend to go.", By: "examples", Score: 0}, "daqfai koa baq heigujue.": Word{Word: "daqfai koa baq heigujue.", Def: "(A0162) It is usually cold in December.", By: "examples", Score: 0}, "daqfai lu chuqkuai ji da.": Word{Word: "daqfai lu chuqkuai ji da.", Def: "(A0035) It's often the case that I'm hungry.", By: "examples", Score: 0}, "daqfai lu poji koqpiuta pa suo da.": Word{Word: "daqfai lu poji koqpiuta pa suo da.", Def: "(A0251) My computer is often broken.", By: "examples", Score: 0}, "daqfai taoshao bu fa ji da.": Word{Word: "daqfai taoshao bu fa ji da.", Def: "(A0403) Often I intend not to go.", By: "examples", Score: 0}, "daqfao": Word{Word: "daqfao", Def: "predicate: ‘temporal.end’; ▯ is the end of ▯; ▯ is the point at which ▯ ceases to be.", By: "official", Score: 0}, "daqfia": Word{Word: "daqfia", Def: "predicate: ‘previous’; ▯ is previous to ▯ in time.", By: "official", Score: 0}, "daqfu": Word{Word: "daqfu", Def: "solution", By: "spreadsheet", Score: -1}, "daqgia": Word{Word: "daqgia", Def: "▯ is a time zone; ▯ is a zone where there is the exact same time (▯) everywhere in it.", By: "uakci", Score: 0}, "daqgoa": Word{Word: "daqgoa", Def: "▯ is spacetime.", By: "Ilmen", Score: 0}, "daqgoamoa": Word{Word: "daqgoamoa", Def: "▯ is a point in spacetime.", By: "Ilmen", Score: 0}, "daqhiaq": Word{Word: "daqhiaq", Def: "▯ has little time that they can spend satisfying property ▯.", By: "lynn", Score: 0}, "daqjaone": Word{Word: "daqjaone", Def: "temci", By: "spreadsheet", Score: -1}, "daqjaq": Word{Word: "daqjaq", Def: "long (duration)", By: "spreadsheet", Score: 0}, "daqjaq bu geq da.": Word{Word: "daqjaq bu geq da.", Def: "(A0395) Long time no see!", By: "examples", Score: 0}, "daqkea": Word{Word: "daqkea", Def: "predicate: ‘clock’; ▯ is a clock.", By: "official", Score: 0}, "daqko": Word{Word: "daqko", Def: "▯ is the ▯th among those satisfying property ▯, sorted by time", By: "fagri", Score: 0}, "daqlei": Word{Word: "daqlei", Def: "adverb: \"seldom\"", By: "official", Score: 0}, "daqme": Word{Word: "daqme", Def: "▯ is a time period.", By: "Ilmen", Score: 0}, "daqmia": Word{Word: "daqmia", Def: "▯ has lots of time that they can spend satisfying property ▯.", By: "lynn", Score: 0}, "daqmiq": Word{Word: "daqmiq", Def: "predicate: ‘eternal’; ▯ is eternal/forever.", By: "official", Score: 0}, "daqmoa": Word{Word: "daqmoa", Def: "≈ [X] Tỏaı dóshī báq dảq da. Hủaq dảqtūao sıa ráı dóshī da.", By: "Ilmen", Score: 0}, "daqnie": Word{Word: "daqnie", Def: "▯ is within the time-span of ▯.", By: "Ilmen", Score: 1}, "daqpaq": Word{Word: "daqpaq", Def: "▯ is a temporal slice of ▯.", By: "Ilmen", Score: 0}, "daqrea": Word{Word: "daqrea", Def: "▯ is a deadline/time limit", By: "seaqtaq", Score: 0}, "daqriaq": Word{Word: "daqriaq", Def: "period", By: "spreadsheet", Score: 0}, "daqsao": Word{Word: "daqsao", Def: "long (duration)", By: "spreadsheet", Score: 0}, "daqshei": Word{Word: "daqshei", Def: "▯ has free time; ▯ has time to satisfy property ▯.", By: "Hoemai", Score: 0}, "daqshue": Word{Word: "daqshue", Def: "▯ continues to be the case", By: "seaqtaq", Score: 0}, "daqsiao": Word{Word: "daqsiao", Def: "predicate: ‘temporal.beginning’; ▯ is the beginning of ▯; is the point at which ▯ begins to be.", By: "official", Score: 0}, "daqsie": Word{Word: "daqsie", Def: "predicate: ‘following’; ▯ is following to ▯ in time.", By: "official", Score: 0}, "daqtuao": Word{Word: "daqtuao", Def: "(fork of #uh7F6PT8j) ▯ occurs for a short while", By: "seaqtaq", Score: 0}, "daqtuaodoa": Word{Word: "daqtuaodoa", Def: "lend", By: "spreadsheet", Score: 0}, "dari": Word{Word: "dari", Def: "jdari (firm, hard)", By: "spreadsheet", Score: -1}, "dasi": Word{Word: "dasi", Def: "dare", By: "spreadsheet", Score: -1}, "de": Word{Word: "de", Def: "gỉ ra pủacā sa pó dóshī ga kảq ra tẻı da\u00a0", By: "seaqtaq", Score: 1}, "de ni fuaq da.": Word{Word: "de ni fuaq da.", Def: "(A0718) This picture is beautiful.", By: "examples", Score: 0}, "de ni giaq da.": Word{Word: "de ni giaq da.", Def: "(A0096) This music is beautiful.", By: "examples", Score: 0}, "de ni rua da.": Word{Word: "de ni rua da.", Def: "(ILL.1) This flower is beautiful.", By: "official", Score: 0}, "de ni rua.": Word{Word: "de ni rua.", Def: "(ILL.2) This flower is beautiful.", By: "official", Score: 0}, "de nichaq da.": Word{Word: "de nichaq da.", Def: "(A0024) Today is beautiful.", By: "examples", Score: 0}, "de suq da.": Word{Word: "de suq da.", Def: "(A0066) You are beautiful.", By: "examples", Score: 0}, "de tu poq da.": Word{Word: "de tu poq da.", Def: "(A0635) All people are beautiful.", By: "examples", Score: 0}, "dea": Word{Word: "dea", Def: "= #caı #cẻo #fủo", By: "uakci", Score: 0}, "deadicha": Word{Word: "deadicha", Def: "lightning", By: "spreadsheet", Score: -1}, "deaduo": Word{Word: "deaduo", Def: "collide", By: "spreadsheet", Score: 0}, "deaq": Word{Word: "deaq", Def: "predicate: ‘floor’; ▯ is a floor.", By: "official", Score: 0}, "deaqgiq": Word{Word: "deaqgiq", Def: "ceiling", By: "spreadsheet", Score: 0}, "deaqkiaq": Word{Word: "deaqkiaq", Def: "grass", By: "spreadsheet", Score: 0}, "deaqkoi": Word{Word: "deaqkoi", Def: "predicate: ‘crawl’; ▯ crawls.", By: "official", Score: 0}, "deaqme": Word{Word: "deaqme", Def: "▯ are stairs.", By: "uakci", Score: 0}, "deaqnietua": Word{Word: "deaqnietua", Def: "bury", By: "spreadsheet", Score: 0}, "dease": Word{Word: "dease", Def: "shock", By: "spreadsheet", Score: 0}, "decha": Word{Word: "decha", Def: "▯ happens/takes place beautifully/in a beautiful way.", By: "Hoemai", Score: 0}, "dechuo": Word{Word: "dechuo", Def: "▯ is an ornament.", By: "Ilmen", Score: 0}, "dedoa": Word{Word: "dedoa", Def: "adorn", By: "spreadsheet", Score: 0}, "deduo": Word{Word: "deduo", Def: "▯ dances.", By: "Ilmen", Score: 0}, "degiq": Word{Word: "degiq", Def: "ugly", By: "spreadsheet", Score: 0}, "deha": Word{Word: "deha", Def: "▯ temporarily ceases to be the case; ▯ pauses.", By: "Ilmen", Score: -1}, "dehaqguqkorea": Word{Word: "dehaqguqkorea", Def: "▯ pertains to the culture of South Korea → Korea, South.", By: "countries", Score: 0}, "dehaqguqkoreagua": Word{Word: "dehaqguqkoreagua", Def: "▯ is the country South Korea → Korea, South.", By: "countries", Score: 0}, "dehaqguqkoreatoaq": Word{Word: "dehaqguqkoreatoaq", Def: "▯ is (one of) the language(s) spoken in South Korea → Korea, South.", By: "countries", Score: 0}, "dei": Word{Word: "dei", Def: "answer", By: "spreadsheet", Score: -1}, "deini": Word{Word: "deini", Def: "owe", By: "spreadsheet", Score: -1}, "dekaidiu": Word{Word: "dekaidiu", Def: "▯is calligraphy", By: "seaqtaq", Score: 0}, "demeoca": Word{Word: "demeoca", Def: "▯ is beautifully sad; ▯ is both beautiful to and makes sad experiencer ▯.", By: "Hoemai", Score: 0}, "denai": Word{Word: "denai", Def: "Sentence ▯/0 is true with the term referred to by ▯ attached to its tail.", By: "uakci", Score: 0}, "deo": Word{Word: "deo", Def: "predicate: ‘child’; ▯ is a child.", By: "official", Score: 0}, "deo pia hoa ji bi gu ho da.": Word{Word: "deo pia hoa ji bi gu ho da.", Def: "(A0360) There are two children which are my siblings.", By: "examples", Score: 0}, "deogoiche": Word{Word: "deogoiche", Def: "▯is a pediatrician", By: "seaqtaq", Score: 0}, "deoq": Word{Word: "deoq", Def: "= #cheo #dỏa #dủa", By: "uakci", Score: 0}, "deoq suq no hi toaq moq": Word{Word: "deoq suq no hi toaq moq", Def: "phrase: \"In what language are you communicating?\"", By: "official", Score: 0}, "deoq(cheo)tue": Word{Word: "deoq(cheo)tue", Def: "▯ is a session (computing)", By: "seaqtaq", Score: 0}, "deoqcai": Word{Word: "deoqcai", Def: "eloquent", By: "spreadsheet", Score: 0}, "deoqcheo": Word{Word: "deoqcheo", Def: "casnu", By: "spreadsheet", Score: 0}, "deoqcheo suq roi ji ba.": Word{Word: "deoqcheo suq roi ji ba.", Def: "(A0460) Let's talk.", By: "examples", Score: 0}, "deoqchuaq": Word{Word: "deoqchuaq", Def: "▯ is a society of ▯.", By: "uakci", Score: 0}, "deoqduoi": Word{Word: "deoqduoi", Def: "▯ just can’t stahp talking.", By: "uakci", Score: 1}, "deoqgaq": Word{Word: "deoqgaq", Def: "▯ keeps ▯ company.", By: "uakci", Score: 0}, "deoqpeq": Word{Word: "deoqpeq", Def: "▯ is a letter.", By: "uakci", Score: 1}, "deoqriaq": Word{Word: "deoqriaq", Def: "▯ is a chatroom", By: "seaqtaq", Score: 0}, "deoqsoi": Word{Word: "deoqsoi", Def: "▯ argues with ▯.", By: "lynn", Score: 0}, "depaq": Word{Word: "depaq", Def: "▯ is an ornament to ▯; ▯ decorates/ornates (intransitive sense) ▯.", By: "uakci", Score: 0}, "depi": Word{Word: "depi", Def: "▯ is a common dolphin (Delphinus genus).", By: "Ilmen", Score: 0}, "depio": Word{Word: "depio", Def: "gem", By: "spreadsheet", Score: 0}, "depisiu": Word{Word: "depisiu", Def: "▯ is an oceanic dolphin (Delphinidae taxonomic family).", By: "Ilmen", Score: 0}, "deq": Word{Word: "deq", Def: "= #daı #tảo", By: "uakci", Score: 0}, "deq choa bebe shu ‹ mama › ru shu ‹ papa › da.": Word{Word: "deq choa bebe shu ‹ mama › ru shu ‹ papa › da.", Def: "(A0323) The baby can say \"mama\" and \"papa\".", By: "examples", Score: 0}, "deq kaqgai tu poq lu jo ni tuifua da.": Word{Word: "deq kaqgai tu poq lu jo ni tuifua da.", Def: "(A0365) Everyone can see that these are four chairs.", By: "examples", Score: 0}, "deq ni deo sa lu bu deq ji hoa da.": Word{Word: "deq ni deo sa lu bu deq ji hoa da.", Def: "(A0072) This kid can do things that I can't do.", By: "examples", Score: 0}, "deq teq ji sa pui nuai ke muaqtua go ho da.": Word{Word: "deq teq ji sa pui nuai ke muaqtua go ho da.", Def: "(A0466) I can pay a lot of money for killing him.", By: "examples", Score: 0}, "deqcai": Word{Word: "deqcai", Def: "▯ is powerful", By: "seaqtaq", Score: 0}, "deqgi": Word{Word: "deqgi", Def: "▯ has the ability to do ▯.", By: "uakci", Score: 0}, "deqkuaqsue": Word{Word: "deqkuaqsue", Def: "▯ challenges ▯ to do ▯.", By: "Ilmen", Score: 0}, "deqmi": Word{Word: "deqmi", Def: "▯ is dense.", By: "Ilmen", Score: 0}, "deqmiq": Word{Word: "deqmiq", Def: "▯ is omnipotent/all-powerful", By: "seaqtaq", Score: 0}, "deqroa": Word{Word: "deqroa", Def: "▯ innately satisfies property ▯.", By: "Ilmen", Score: 0}, "detiao": Word{Word: "detiao", Def: "harmonious", By: "spreadsheet", Score: 0}, "detoa": Word{Word: "detoa", Def: "▯ is poetry.", By: "uakci", Score: 0}, "detoache": Word{Word: "detoache", Def: "▯ is a poet.", By: "uakci", Score: 0}, "deu": Word{Word: "deu", Def: "terminate sentence non-assertively.", By: "uakci", Score: 0}, "di": Word{Word: "di", Def: "shỏe sa ráı dóshī dógū da", By: "uakci", Score: 0}, "dia": Word{Word: "dia", Def: "predicate: ‘decrease’; ▯ decreases in how much it satisfies property ▯.", By: "official", Score: 0}, "diai": Word{Word: "diai", Def: "predicate: ‘seven’; ▯ are seven in number.", By: "official", Score: 0}, "diai poq suai ru niti": Word{Word: "diai poq suai ru niti", Def: "(A0371) There are seven people who are fast and are here.", By: "oldexamples", Score: 0}, "diai poq suai ru niti da.": Word{Word: "diai poq suai ru niti da.", Def: "(A0371) There are seven people who are fast and are here.", By: "examples", Score: 0}, "diaijue": Word{Word: "diaijue", Def: "▯ is July", By: "lynn", Score: 1}, "diaiko": Word{Word: "diaiko", Def: "predicate: ‘seventh’; ▯ is seventh among ▯.", By: "official", Score: 0}, "diailaqtei": Word{Word: "diailaqtei", Def: "▯ is the seventh tone (creaky falling-rising).", By: "lynn", Score: 0}, "dialimi": Word{Word: "dialimi", Def: "▯ is the one-sided mathematical limit of the function ▯ as its input approaches the number ▯ from above.", By: "Ilmen", Score: 0}, "diao": Word{Word: "diao", Def: "predicate: ‘drop’; ▯ is a drop.", By: "official", Score: 0}, "diaq": Word{Word: "diaq", Def: "predicate: ‘regular’; ▯ occurs at regular intervals; ▯ satisfies property ▯ at regular intervals.", By: "official", Score: 0}, "diaq suaikoi ji da.": Word{Word: "diaq suaikoi ji da.", Def: "(A0060) I regularly run.", By: "examples", Score: 0}, "diaqkue": Word{Word: "diaqkue", Def: "predicate: ‘journal’; ▯ is a journal/periodical/newspaper.", By: "official", Score: 0}, "diashai": Word{Word: "diashai", Def: "Ithkuil's Depletive Extension", By: "spreadsheet", Score: 0}, "diba": Word{Word: "diba", Def: "replace/instead", By: "spreadsheet", Score: -1}, "dibu": Word{Word: "dibu", Def: "▯ is disallowed.", By: "Ilmen", Score: 0}, "dicha": Word{Word: "dicha", Def: "electricity", By: "spreadsheet", Score: -1}, "dichario": Word{Word: "dichario", Def: "▯ is plasma (state of matter).", By: "Ilmen", Score: -1}, "die": Word{Word: "die", Def: "kủaq dóshī lî gỉjīe ja dó tê tảo dógū da", By: "uakci", Score: 0}, "die ji luaq suqji luaqgo ka.": Word{Word: "die ji luaq suqji luaqgo ka.", Def: "(A0391) I hereby suggest we play Go.", By: "examples", Score: 0}, "diedoa": Word{Word: "diedoa", Def: "▯ advises ▯ to ▯", By: "seaqtaq", Score: 0}, "dieq": Word{Word: "dieq", Def: "tảotūa tủa tỉ dóshī sa ráı dógū dósāq da", By: "uakci", Score: 0}, "diese": Word{Word: "diese", Def: "advice", By: "spreadsheet", Score: 0}, "dietaq": Word{Word: "dietaq", Def: "candidate", By: "spreadsheet", Score: 0}, "digiq": Word{Word: "digiq", Def: "▯ is disallowed.", By: "Ilmen", Score: 0}, "dihi": Word{Word: "dihi", Def: "dikni", By: "spreadsheet", Score: 0}, "dimeqsioq": Word{Word: "dimeqsioq", Def: "dimension", By: "spreadsheet", Score: 0}, "dine": Word{Word: "dine", Def: "▯ pertains to the Navajo/Diné culture.", By: "Ilmen", Score: 0}, "dio": Word{Word: "dio", Def: "pảq dóshī sa dó chǎq na, na ru jẻq rảo dóshī sa lú gủo hóa gâıkīu sa hóe da", By: "uakci", Score: 0}, "diochu": Word{Word: "diochu", Def: "predicate: ‘noon’; ▯ is a noon.", By: "official", Score: 1}, "diochuchuq": Word{Word: "diochuchuq", Def: "▯ eats lunch", By: "seaqtaq", Score: 0}, "diochuhaq": Word{Word: "diochuhaq", Def: "predicate: ‘lunch’; ▯ is a lunch.", By: "official", Score: 0}, "diofao": Word{Word: "diofao", Def: "predicate: ‘evening’; ▯ is an evening.", By: "official", Score: 0}, "diohoe": Word{Word: "diohoe", Def: "▯ is our sun (any star regularly bringing light and warmth to the place where the speaker is at the time of utterance; the star(s) the speaker is currently orbiting).", By: "Ilmen", Score: 1}, "diomesiu": Word{Word: "diomesiu", Def: "▯ is an albatross of the family Diomedeidae.", By: "Hoemai", Score: 0}, "dionai": Word{Word: "dionai", Def: "It's day time.", By: "fagri", Score: 0}, "dionuisoq": Word{Word: "dionuisoq", Def: "▯ is a winter solstice.", By: "Ilmen", Score: 0}, "dioq": Word{Word: "dioq", Def: "variable Y", By: "uakci", Score: 0}, "diosiao": Word{Word: "diosiao", Def: "predicate: ‘morning’; ▯ is a morning.", By: "official", Score: 0}, "diosiaohaq": Word{Word: "diosiaohaq", Def: "▯ is a breakfast.", By: "sheireq", Score: -1}, "dipaq": Word{Word: "dipaq", Def: "▯ = ▯ / ▯.", By: "uakci", Score: 0}, "dishe": Word{Word: "dishe", Def: "decide that", By: "spreadsheet", Score: 0}, "diu": Word{Word: "diu", Def: "predicate: ‘science’; ▯ is the branch of knowledge that studies ▯; ▯ is a science.", By: "official", Score: 0}, "diuche": Word{Word: "diuche", Def: "▯ is a scientist.", By: "Ilmen", Score: 0}, "dỉa laqcai suq ba!": Word{Word: "dỉa laqcai suq ba!", Def: "(A0344) Be less loud!", By: "examples", Score: 0}, "do": Word{Word: "do", Def: "predicate: ‘variable.X’; variable X", By: "official", Score: 0}, "doa": Word{Word: "doa", Def: "tảo dóshī lî ja dó bı to ru shảı bỏ dó dógū to cẻo bỏ dósāq dógū da", By: "uakci", Score: 0}, "doa bo suq luereo ji ba.": Word{Word: "doa bo suq luereo ji ba.", Def: "(A0180) You ought to give me the yellow thing.", By: "examples", Score: 0}, "doa bo suq ni poji naqpia ba.": Word{Word: "doa bo suq ni poji naqpia ba.", Def: "(A0210) Give this to my brother.", By: "examples", Score: 0}, "doacheo": Word{Word: "doacheo", Def: "exchange/trade", By: "spreadsheet", Score: -1}, "doai": Word{Word: "doai", Def: "predicate: ‘bread’; ▯ is bread.", By: "official", Score: 0}, "doaibiu": Word{Word: "doaibiu", Def: "▯ is a loaf of bread", By: "seaqtaq", Score: 0}, "doaitoq": Word{Word: "doaitoq", Def: "▯ is a breadboard", By: "seaqtaq", Score: 0}, "doajuq": Word{Word: "doajuq", Def: "(fork of #WA-zoAJATw) receive", By: "seaqtaq", Score: 0}, "doao": Word{Word: "doao", Def: "▯ is a group whose members engage together in activity ▯; ▯ is a band of ▯-ers.", By: "uakci", Score: -1}, "doaodoai": Word{Word: "doaodoai", Def: "▯ is a donut (doughnut).", By: "uakci", Score: 0}, "doaq": Word{Word: "doaq", Def: "predicate: ‘settlement’; ▯ is a settlement/town/village/city.", By: "official", Score: 0}, "doaqpaq": Word{Word: "doaqpaq", Def: "predicate: ‘district’; ▯ is a district.", By: "official", Score: 0}, "doaraoti": Word{Word: "doaraoti", Def: "▯ was at ▯ when they were handing out ▯", By: "fagri", Score: 0}, "dobeo": Word{Word: "dobeo", Def: "Variable ▯ is changing.", By: "uakci", Score: 0}, "doe": Word{Word: "doe", Def: "dảı chôq sa ráı dóshī sa ráı kùı jêo dóshī dógū da", By: "uakci", Score: 0}, "doe shuo miao gio cha nuoq maq hoegio da.": Word{Word: "doe shuo miao gio cha nuoq maq hoegio da.", Def: "(A0944) Moon functions as a light source in manner that it reflects sunlight.", By: "examples", Score: 0}, "doecaq": Word{Word: "doecaq", Def: "▯ is an administers, maintains, supports ▯.", By: "uakci", Score: 0}, "doecaqche": Word{Word: "doecaqche", Def: "administrator, maintainer, technician, supporter", By: "uakci", Score: 0}, "doecia": Word{Word: "doecia", Def: "▯ is useless (\"without function\").", By: "lynn", Score: 0}, "doedao": Word{Word: "doedao", Def: "▯ encodes information about performing task ▯; ▯ is computer code for doing ▯.", By: "uakci", Score: 0}, "doekai": Word{Word: "doekai", Def: "▯ programs in order to make ▯ perform task ▯; ▯ writes code for computer ▯ in order to do ▯.", By: "uakci", Score: 0}, "doekaiche": Word{Word: "doekaiche", Def: "▯ is a programmer.", By: "uakci", Score: 0}, "doekao": Word{Word: "doekao", Def: "▯ is a program.", By: "Ilmen", Score: 0}, "doekaotoaq": Word{Word: "doekaotoaq", Def: "▯ is a programming language.", By: "lynn", Score: 0}, "doele": Word{Word: "doele", Def: "▯ tends to satisfy the property ▯.", By: "Ilmen", Score: 0}, "doeme": Word{Word: "doeme", Def: "▯ is a system of parts ▯ working together to perform function ▯.", By: "uakci", Score: 0}, "doemiq": Word{Word: "doemiq", Def: "#miqdoe", By: "uakci", Score: 0}, "doetao": Word{Word: "doetao", Def: "▯ does ▯ on purpose; ▯ does ▯ to accomplish ▯.", By: "uakci", Score: 0}, "doetiao": Word{Word: "doetiao", Def: "suitable, kaipti / X is suitable for satisfying property Y", By: "spreadsheet", Score: 0}, "doetoa": Word{Word: "doetoa", Def: "particle, cmavo", By: "spreadsheet", Score: 0}, "doetua": Word{Word: "doetua", Def: "▯ turns ▯ on.", By: "uakci", Score: 0}, "doi": Word{Word: "doi", Def: "pre-predicate particle: forces the meaning of the predicate associated with the highest arity, regardless of the actual number of parameters given.", By: "uakci", Score: 1}, "doiche": Word{Word: "doiche", Def: "▯ pertains to the culture of Germany – Federal Republic of Germany.", By: "countries", Score: 0}, "doichegua": Word{Word: "doichegua", Def: "▯ is the country Germany – Federal Republic of Germany.", By: "countries", Score: 0}, "doichetoaq": Word{Word: "doichetoaq", Def: "▯ is (one of) the language(s) spoken in Germany – Federal Republic of Germany.", By: "countries", Score: 0}, "dojeo": Word{Word: "dojeo", Def: "▯ is the value of the variable ▯ at point ▯ in context space.", By: "uakci", Score: 0}, "doko": Word{Word: "doko", Def: "▯ is the variable labeled with property ▯; the label identifier is treated verbatim like a quote, and not as an abstract property.", By: "Ilmen", Score: 0}, "dola": Word{Word: "dola", Def: "dollar", By: "spreadsheet", Score: 0}, "domei": Word{Word: "domei", Def: "▯ is tamed, domesticated.", By: "uakci", Score: 0}, "dopa": Word{Word: "dopa", Def: "The referent(s) of the variable X satisfy property ▯.", By: "Ilmen", Score: 0}, "doq": Word{Word: "doq", Def: "= gıq #bủaı", By: "uakci", Score: 0}, "doq ni kiaq da.": Word{Word: "doq ni kiaq da.", Def: "(A0064) This hair is short.", By: "examples", Score: 0}, "doq poho shiaq da.": Word{Word: "doq poho shiaq da.", Def: "(A0734) His legs are short.", By: "examples", Score: 0}, "doqbideo(dbd)": Word{Word: "doqbideo(dbd)", Def: "▯ is a GIF", By: "seaqtaq", Score: 0}, "doqdaq": Word{Word: "doqdaq", Def: "▯ is a minute.", By: "uakci", Score: 0}, "doqhuaq": Word{Word: "doqhuaq", Def: "▯ is a womaniser (womanizer).", By: "uakci", Score: 0}, "doqhuoi": Word{Word: "doqhuoi", Def: "▯ is a member of the infraorder Brachyura (the true crabs).", By: "Hoemai", Score: 0}, "doqkopi": Word{Word: "doqkopi", Def: "▯ is a summary of ▯", By: "fagri", Score: 0}, "doqshiu": Word{Word: "doqshiu", Def: "▯ happened recently", By: "seaqtaq", Score: 0}, "doragoq": Word{Word: "doragoq", Def: "dragon", By: "spreadsheet", Score: 0}, "du": Word{Word: "du", Def: "sa dó bı sỉu jêo dóshī dó na sa jéı jêo dóshī dógū na lě da", By: "uakci", Score: 0}, "du bu le hoq da.": Word{Word: "du bu le hoq da.", Def: "(A0439) That seems improbable.", By: "examples", Score: 0}, "du chuqkuai suq da.": Word{Word: "du chuqkuai suq da.", Def: "(A0036) You seem hungry.", By: "examples", Score: 0}, "du piao lu die suq hoa da.": Word{Word: "du piao lu die suq hoa da.", Def: "(A0336) Your suggestion seems complex.", By: "examples", Score: 0}, "du ru bu": Word{Word: "du ru bu", Def: "▯ is seemingly the case (but actually isn't); ▯ seemingly satisfies the property ▯ (but actually doesn't).", By: "Ilmen", Score: 1}, "dua": Word{Word: "dua", Def: "predicate: ‘know’; ▯ knows ▯ to be the case / to be true.", By: "official", Score: 0}, "dua jeo ji dua suq co rai da.": Word{Word: "dua jeo ji dua suq co rai da.", Def: "(A0580) I do know how much you know.", By: "examples", Score: 0}, "dua ji cho suq ji.": Word{Word: "dua ji cho suq ji.", Def: "(CCL.1) I know that you like me.", By: "official", Score: 0}, "dua ji dua ji sia rai da.": Word{Word: "dua ji dua ji sia rai da.", Def: "(A0054) I know that I know nothing.", By: "examples", Score: 0}, "dua ji pu kaqgai suq hi rai da.": Word{Word: "dua ji pu kaqgai suq hi rai da.", Def: "(A0295) I know what you saw.", By: "examples", Score: 0}, "dua ji pu tao suq hi rai rao daqfia loqcao da.": Word{Word: "dua ji pu tao suq hi rai rao daqfia loqcao da.", Def: "(INT.6) I know what you did last summer.", By: "official", Score: 0}, "dua ji tao ji hi rai rao luechaq da.": Word{Word: "dua ji tao ji hi rai rao luechaq da.", Def: "(A0261) I know what I did on Wednesday.", By: "examples", Score: 0}, "dua ji tao suq hi rai rao daqfia loqcao da.": Word{Word: "dua ji tao suq hi rai rao daqfia loqcao da.", Def: "(A0268) I know what you did last summer.", By: "examples", Score: 0}, "dua puqho hoq bu dai.": Word{Word: "dua puqho hoq bu dai.", Def: "(ADV.8) They don't possibly know.", By: "official", Score: 0}, "dua puqho hoq dai bu.": Word{Word: "dua puqho hoq dai bu.", Def: "(ADV.7) They possibly don't know.", By: "official", Score: 0}, "dua suq dai hoq da.": Word{Word: "dua suq dai hoq da.", Def: "(A0051) You know that it is possible.", By: "examples", Score: 0}, "duacai": Word{Word: "duacai", Def: "▯ is certain that ▯ is the case.", By: "Ilmen", Score: 0}, "duacaibu": Word{Word: "duacaibu", Def: "doubt", By: "spreadsheet", Score: 0}, "duachie": Word{Word: "duachie", Def: "predicate: ‘learn’; ▯ learns that ▯ is the case.", By: "official", Score: 0}, "duadīu": Word{Word: "duadīu", Def: "▯ is epistemology.", By: "lynn", Score: 0}, "duafai": Word{Word: "duafai", Def: "▯ is widely / commonly known to be the case.", By: "lynn", Score: 0}, "duafui": Word{Word: "duafui", Def: "= #fuı #dủa", By: "uakci", Score: 0}, "duagi": Word{Word: "duagi", Def: "predicate: ‘wise’; ▯ is wise.", By: "official", Score: 0}, "duagikuqse": Word{Word: "duagikuqse", Def: "proverb", By: "spreadsheet", Score: 1}, "duagikuqsesiuloaqdea": Word{Word: "duagikuqsesiuloaqdea", Def: "▯ delivers a proverbial kick in the arse to ▯.", By: "uakci", Score: 0}, "duagitoa": Word{Word: "duagitoa", Def: "proverb", By: "spreadsheet", Score: 0}, "duahui": Word{Word: "duahui", Def: "predicate: ‘foolish’; ▯ is foolish.", By: "official", Score: 0}, "duai": Word{Word: "duai", Def: "predicate: ‘must’; ▯ must satisfy property ▯.", By: "official", Score: 0}, "duailia": Word{Word: "duailia", Def: "right (krali)", By: "spreadsheet", Score: 0}, "duaimia": Word{Word: "duaimia", Def: "busy", By: "spreadsheet", Score: 0}, "duaise": Word{Word: "duaise", Def: "▯ is a chore/homework/assignment/anything mandatory", By: "seaqtaq", Score: 0}, "duaitoai": Word{Word: "duaitoai", Def: "task", By: "spreadsheet", Score: 0}, "duajaq": Word{Word: "duajaq", Def: "predicate: ‘certain’; ▯ is certain that ▯ is the case.", By: "Ilmen", Score: 0}, "duamaidiu": Word{Word: "duamaidiu", Def: "(fork of #CJ6FwndUsP) philosophy", By: "seaqtaq", Score: 0}, "duamuo": Word{Word: "duamuo", Def: "predicate: ‘certain’; ▯ is certain that ▯ is the case.", By: "Ilmen", Score: 1}, "duao": Word{Word: "duao", Def: "predicate: ‘sweet’; ▯ is sweet/sugary.", By: "official", Score: 0}, "duaoboe": Word{Word: "duaoboe", Def: "▯ is a cookie", By: "fagri", Score: 0}, "duaohea": Word{Word: "duaohea", Def: "predicate: ‘candy’; ▯ is a piece of candy.", By: "official", Score: 0}, "duaomuoihaq": Word{Word: "duaomuoihaq", Def: "▯ is a donut", By: "seaqtaq", Score: 0}, "duaopuao": Word{Word: "duaopuao", Def: "▯ is cotton candy", By: "seaqtaq", Score: 1}, "duaopuo": Word{Word: "duaopuo", Def: "▯ is sugar", By: "fagri", Score: 0}, "duaosai": Word{Word: "duaosai", Def: "▯ is sugar", By: "seaqtaq", Score: 0}, "duaoshuaqniai": Word{Word: "duaoshuaqniai", Def: "bee, bifce", By: "spreadsheet", Score: 0}, "duapui": Word{Word: "duapui", Def: "famous", By: "spreadsheet", Score: 0}, "duaq": Word{Word: "duaq", Def: "predicate: ‘larva’; ▯ is a larva (distinct juvenile form undergone before metamorphosis into adult form).", By: "official", Score: 0}, "duaroa": Word{Word: "duaroa", Def: "▯ intuits ▯.", By: "Ilmen", Score: 0}, "duasha": Word{Word: "duasha", Def: "realize that", By: "spreadsheet", Score: 0}, "duashao": Word{Word: "duashao", Def: "predicate: ‘wonder’; ▯ wonders about ▯.", By: "official", Score: 0}, "duashao ji ma juoq butifa ji.": Word{Word: "duashao ji ma juoq butifa ji.", Def: "(INT.8) I'm wondering whether I should leave.", By: "official", Score: 0}, "duasho": Word{Word: "duasho", Def: "predicate: ‘find.out’; ▯ discovers / finds out ▯.", By: "official", Score: 0}, "duasue": Word{Word: "duasue", Def: "predicate: ‘ask’; ▯ wants to know from ▯ fact ▯; ▯ asks ▯ fact ▯.", By: "official", Score: 0}, "duatu": Word{Word: "duatu", Def: "famous", By: "spreadsheet", Score: 0}, "duatua": Word{Word: "duatua", Def: "Tủa\u00a0dủa ▯, ▯, ▯.", By: "fagri", Score: 0}, "duatua cu reoq po leaqsie chaochue ka.": Word{Word: "duatua cu reoq po leaqsie chaochue ka.", Def: "(A0986) ", By: "examples", Score: 0}, "duceo": Word{Word: "duceo", Def: "actually, it turns out that", By: "spreadsheet", Score: -1}, "duceo bi pu du se dea po chiq pa keq po shuao da.": Word{Word: "duceo bi pu du se dea po chiq pa keq po shuao da.", Def: "(A0965) It turns out that what seemed to be a result of hitting of a bug is poo of a bird.", By: "examples", Score: 0}, "due": Word{Word: "due", Def: "▯ is the answer to problem ▯.", By: "uakci", Score: 0}, "due hi shi toa moq.": Word{Word: "due hi shi toa moq.", Def: "(A0358) What word is correct?", By: "examples", Score: 0}, "due hoq da!": Word{Word: "due hoq da!", Def: "(A0616) That's right!", By: "examples", Score: 0}, "duekuaq": Word{Word: "duekuaq", Def: "▯ hereby corrects their previous utterance to ▯.", By: "uakci", Score: 0}, "duemiu": Word{Word: "duemiu", Def: "▯ is right in his/her/their opinion ▯.", By: "Ilmen", Score: 0}, "dueq": Word{Word: "dueq", Def: "predicate: ‘field’; ▯ is a field.", By: "official", Score: 0}, "dufaq": Word{Word: "dufaq", Def: "▯ is a phenomenon.", By: "Ilmen", Score: 0}, "dui": Word{Word: "dui", Def: "predicate: ‘too.much’; ▯ is too much ▯; ▯ satisfies property ▯ too much to satisfy property ▯.", By: "official", Score: 0}, "dui hiaq miu suq da.": Word{Word: "dui hiaq miu suq da.", Def: "(A0842) You have too few opinions.", By: "examples", Score: 0}, "dui loq haq da.": Word{Word: "dui loq haq da.", Def: "(A0115) The food is too hot.", By: "examples", Score: 0}, "dui nui shi tuifua.": Word{Word: "dui nui shi tuifua.", Def: "(ARG.1) The [one] chair is too small.", By: "official", Score: 0}, "dui reoq doi ceo suq": Word{Word: "dui reoq doi ceo suq", Def: "(B0070) We started too late", By: "examples", Score: 0}, "dui reoq tisho suq da.": Word{Word: "dui reoq tisho suq da.", Def: "(A0513) You showed up too late.", By: "examples", Score: 0}, "dui seakuai ji li fa go biajio da.": Word{Word: "dui seakuai ji li fa go biajio da.", Def: "(A0971) I am too exhausted to go to hospital.", By: "examples", Score: 0}, "duibokuai": Word{Word: "duibokuai", Def: "▯ is greedy", By: "seaqtaq", Score: 0}, "duidaq": Word{Word: "duidaq", Def: "▯(proposition) is true too many times", By: "seaqtaq", Score: 0}, "duihioq": Word{Word: "duihioq", Def: "▯ is cocky", By: "seaqtaq", Score: 0}, "duilu": Word{Word: "duilu", Def: "The proposition ▯ is an exaggeration of how much ▯ is the case.", By: "Ilmen", Score: 0}, "duime": Word{Word: "duime", Def: "▯ is too much ▯ (partitive); ▯ is an aggregate of too much ▯ for the resulting aggregate to satisfy ▯.", By: "lynn", Score: 0}, "duine": Word{Word: "duine", Def: "du'emei", By: "seaqtaq", Score: 0}, "dukui": Word{Word: "dukui", Def: "It seems that ▯ because it seems that ▯; ▯ seems to have property ▯ because it seems to have property ▯.", By: "uakci", Score: 0}, "dumai": Word{Word: "dumai", Def: "▯ shows affection towards not ▯ themselves, but their image ▯ (set of p-ties).", By: "uakci", Score: 0}, "duo": Word{Word: "duo", Def: "= [XXX] Fảq sa lú sỉao tî dóshī dósāq na hóa na ru fảo tî dóshī dógū bủ dỏsāq na hóa.", By: "Ilmen", Score: 0}, "duobo": Word{Word: "duobo", Def: "▯ gestures, changes posture, shape or orientation.", By: "Ilmen", Score: 0}, "duocakea": Word{Word: "duocakea", Def: "engine", By: "spreadsheet", Score: 0}, "duode": Word{Word: "duode", Def: "graceful", By: "uakci", Score: 1}, "duodeaq": Word{Word: "duodeaq", Def: "▯ is a vehicle.", By: "uakci", Score: 0}, "duoduo": Word{Word: "duoduo", Def: "▯ chases after ▯", By: "fagri", Score: 0}, "duofuaq": Word{Word: "duofuaq", Def: "predicate: ‘movie’; ▯ is a movie.", By: "official", Score: 0}, "duohua": Word{Word: "duohua", Def: "▯ is a muscle.", By: "uakci", Score: 0}, "duoi": Word{Word: "duoi", Def: "predicate: ‘continue’; ▯ lasts/continues; ▯ lasts for time ▯.", By: "official", Score: 0}, "duoi koacao hi rai pa bu boq leaqbie go maq jeaqcao da.": Word{Word: "duoi koacao hi rai pa bu boq leaqbie go maq jeaqcao da.", Def: "(A0328) No matter how long the winter, spring is sure to follow.", By: "examples", Score: 0}, "duoido": Word{Word: "duoido", Def: "▯ is a constant.", By: "uakci", Score: 0}, "duoijao": Word{Word: "duoijao", Def: "▯ elapses for nowhere near ▯ (period of time)", By: "seaqtaq", Score: 0}, "duoijui": Word{Word: "duoijui", Def: "▯ lasts/continues for approximately time ▯", By: "seaqtaq", Score: 0}, "duojiai": Word{Word: "duojiai", Def: "▯ runs their hand over ▯; ▯ pets or strokes ▯.", By: "uakci", Score: 0}, "duojoe": Word{Word: "duojoe", Def: "▯ is graceful.", By: "uakci", Score: 0}, "duokea": Word{Word: "duokea", Def: "▯ is a motor.", By: "Ilmen", Score: 0}, "duolai": Word{Word: "duolai", Def: "▯ is an arrow (symbol).", By: "Ilmen", Score: 0}, "duomuoq": Word{Word: "duomuoq", Def: "▯ is a fluid.", By: "uakci", Score: 0}, "duonao": Word{Word: "duonao", Def: "flow", By: "spreadsheet", Score: 0}, "duonieq": Word{Word: "duonieq", Def: "▯ is clumsy.", By: "uakci", Score: 0}, "duorio": Word{Word: "duorio", Def: "wind", By: "spreadsheet", Score: 0}, "duoshai": Word{Word: "duoshai", Def: "▯ stops moving.", By: "lynn", Score: 0}, "duosia": Word{Word: "duosia", Def: "motionless, immobile", By: "spreadsheet", Score: 0}, "duotaq": Word{Word: "duotaq", Def: "▯ vibrates", By: "seaqtaq", Score: 0}, "duotaqkea": Word{Word: "duotaqkea", Def: "▯ is a vibrator", By: "seaqtaq", Score: 0}, "duotua": Word{Word: "duotua", Def: "send", By: "spreadsheet", Score: 0}, "duq": Word{Word: "duq", Def: "predicate: ‘habitually’; ▯ habitually satisfies property ▯.", By: "official", Score: 0}, "duq ji chuichuq ja do sa doai da.": Word{Word: "duq ji chuichuq ja do sa doai da.", Def: "(A0720) I always eat bread for breakfast.", By: "examples", Score: 0}, "duq pie suq to ri chai to kafe moq": Word{Word: "duq pie suq to ri chai to kafe moq", Def: "(A0426) Do you (habitually) drink tea or coffee?", By: "examples", Score: 0}, "duqfaq": Word{Word: "duqfaq", Def: "Habitual Aspect", By: "spreadsheet", Score: 0}, "duqku": Word{Word: "duqku", Def: "anguish", By: "spreadsheet", Score: -1}, "dutao": Word{Word: "dutao", Def: "pretend", By: "spreadsheet", Score: 0}, "e": Word{Word: "e", Def: "[Interjection] Erase one or more words. (Number of words erased depends on context but should be less than a full sentence.)", By: "fagri", Score: -1}, "eq": Word{Word: "eq", Def: "hesitation, »holding the floor«", By: "uakci", Score: 0}, "fa": Word{Word: "fa", Def: "= tảo dủo", By: "Ilmen", Score: 0}, "fa deo chiejio ba.": Word{Word: "fa deo chiejio ba.", Def: "(A0042) The child should go to school.", By: "examples", Score: 0}, "fa ji boi nai": Word{Word: "fa ji boi nai", Def: "(B0037) I will go now", By: "examples", Score: 0}, "fa ji rao tu loachaq kuejio da.": Word{Word: "fa ji rao tu loachaq kuejio da.", Def: "(A0700) I go to the library every Sunday.", By: "examples", Score: 0}, "fa ji to ro rao nichaq to rao jiachaq da.": Word{Word: "fa ji to ro rao nichaq to rao jiachaq da.", Def: "(A0425) I will go either today or tommorow.", By: "examples", Score: 0}, "fa mi helena nuidoaq.": Word{Word: "fa mi helena nuidoaq.", Def: "(NAM.3) Helena goes to town.", By: "official", Score: 0}, "fa suq hi rai moq.": Word{Word: "fa suq hi rai moq.", Def: "(A0075) Where are you going?", By: "examples", Score: 0}, "fa suq naokua ba.": Word{Word: "fa suq naokua ba.", Def: "(A0074) You ought to go to the bathroom.", By: "examples", Score: 0}, "fa suq nijui geabuai jio ba.": Word{Word: "fa suq nijui geabuai jio ba.", Def: "(A0169) Go to that tall building!", By: "examples", Score: 0}, "fa suqji sa kiqjio ba.": Word{Word: "fa suqji sa kiqjio ba.", Def: "(A0246) You go to a movie theater", By: "examples", Score: 0}, "fabi": Word{Word: "fabi", Def: "develop", By: "spreadsheet", Score: 0}, "facaq": Word{Word: "facaq", Def: "lead (gidva)", By: "spreadsheet", Score: -1}, "fafi": Word{Word: "fafi", Def: "▯ is ▯’s pet name; ▯ is a diminutive/familiar name for/of ▯.", By: "uakci", Score: 0}, "fafia": Word{Word: "fafia", Def: "▯ leads ▯; ▯ shows ▯ the way (to ▯).", By: "uakci", Score: 0}, "fagaq": Word{Word: "fagaq", Def: "▯ goes with ▯ to ▯ from ▯.", By: "lynn", Score: 0}, "fai": Word{Word: "fai", Def: "pủı sa túq lủ gủo hóa jêo dóshī dógū da", By: "uakci", Score: 0}, "fai choaijaq ni da.": Word{Word: "fai choaijaq ni da.", Def: "(A0806) This is typically expensive.", By: "examples", Score: 0}, "fai hiaq bo poq da.": Word{Word: "fai hiaq bo poq da.", Def: "(A0803) The person is typical in being poor.", By: "examples", Score: 0}, "fai jai ji da.": Word{Word: "fai jai ji da.", Def: "(A0800) I'm typical in being happy.", By: "examples", Score: 0}, "fai liu liqdeo da.": Word{Word: "fai liu liqdeo da.", Def: "(A0804) The girl is typically light.", By: "examples", Score: 0}, "fai liu naqdeo da.": Word{Word: "fai liu naqdeo da.", Def: "(A0805) The boy is typically light.", By: "examples", Score: 0}, "fai meoca nijao da.": Word{Word: "fai meoca nijao da.", Def: "(A0807) That's typical in being sad.", By: "examples", Score: 0}, "fai mia pai ho da.": Word{Word: "fai mia pai ho da.", Def: "(A0802) She is typical in being popular.", By: "examples", Score: 0}, "fai moi go cuaq de ba.": Word{Word: "fai moi go cuaq de ba.", Def: "(A0498) Think often about beauty.", By: "examples", Score: 0}, "fai moinieq suq da.": Word{Word: "fai moinieq suq da.", Def: "(A0809) You're typically stupid.", By: "examples", Score: 0}, "fai ruaq ji lu cijue pa jei naraq jue da.": Word{Word: "fai ruaq ji lu cijue pa jei naraq jue da.", Def: "(A0149) I often say that June is the orange month.", By: "examples", Score: 0}, "fai tijao jao da.": Word{Word: "fai tijao jao da.", Def: "(A0808) That far thing is typical in being far away.", By: "examples", Score: 0}, "fai tishue ho po ji ga buajio.": Word{Word: "fai tishue ho po ji ga buajio.", Def: "(ADV.2) It is frequent that they stay at my house.", By: "official", Score: 0}, "fai tuoq ni piohea da.": Word{Word: "fai tuoq ni piohea da.", Def: "(A0801) This stone is typically heavy.", By: "examples", Score: 0}, "faidu": Word{Word: "faidu", Def: "▯ (number or representation thereof) is the least n such that the n-th element of ▯ satisfies the property ▯.", By: "uakci", Score: 0}, "faigodeoq": Word{Word: "faigodeoq", Def: "▯ is barley (Hordeum vulgare).", By: "Ilmen", Score: 0}, "faiji": Word{Word: "faiji", Def: "▯ is the earliest element of ▯ that satisfies the property ▯.", By: "uakci", Score: 0}, "faikua": Word{Word: "faikua", Def: "▯ is a living room", By: "fagri", Score: -1}, "fajeq": Word{Word: "fajeq", Def: "= [X] Jẻq fả.", By: "Ilmen", Score: 0}, "fakea": Word{Word: "fakea", Def: "▯ is a robot (not necessarily humanoid).", By: "Ilmen", Score: 0}, "fanilapaq": Word{Word: "fanilapaq", Def: "▯ is vanilla extract", By: "fagri", Score: 0}, "fao": Word{Word: "fao", Def: "predicate: ‘end’; ▯ is an end/ending; ▯ is an end/ending of ▯.", By: "official", Score: 0}, "faoboq": Word{Word: "faoboq", Def: "save", By: "spreadsheet", Score: 0}, "faofaitoai": Word{Word: "faofaitoai", Def: "▯ is a common transformative complex-forming suffix.", By: "uakci", Score: 0}, "faolai": Word{Word: "faolai", Def: "full stop, period (.)", By: "uakci", Score: 0}, "faolaime": Word{Word: "faolaime", Def: "▯ is an ending", By: "seaqtaq", Score: 0}, "faoreoq": Word{Word: "faoreoq", Def: "finally", By: "spreadsheet", Score: 0}, "faosia": Word{Word: "faosia", Def: "endless", By: "spreadsheet", Score: 0}, "faotua": Word{Word: "faotua", Def: "finish", By: "spreadsheet", Score: 0}, "faq": Word{Word: "faq", Def: "rảo sa ráı dóshī sa", By: "uakci", Score: 0}, "faq pu hoq sa rai.": Word{Word: "faq pu hoq sa rai.", Def: "(QUA.7) It happened somehow.", By: "official", Score: 0}, "faqba": Word{Word: "faqba", Def: "translate, fanva", By: "spreadsheet", Score: -1}, "faqduq": Word{Word: "faqduq", Def: "Habitual Aspect", By: "spreadsheet", Score: 0}, "faqjui": Word{Word: "faqjui", Def: "(fork of #ykUUiLX02) ▯(event, period of time) elapses for close to ▯ unit of time", By: "seaqtaq", Score: 0}, "faqrioi": Word{Word: "faqrioi", Def: "(fork of #uj3xeJG6G) ▯ is the case instead of ▯ being the case", By: "seaqtaq", Score: 0}, "faqriu": Word{Word: "faqriu", Def: "Resumptive Aspect", By: "spreadsheet", Score: 0}, "faqru": Word{Word: "faqru", Def: "▯ is a function defined to have value ▯ with variable ▯ replaced with the argument.", By: "uakci", Score: 0}, "faqshoq": Word{Word: "faqshoq", Def: "function (mathematics)", By: "spreadsheet", Score: 0}, "faqshu": Word{Word: "faqshu", Def: "▯ is the result of applying function ▯ to ▯; ▯ = ▯‘▯.", By: "uakci", Score: 0}, "faqtei": Word{Word: "faqtei", Def: "manner", By: "spreadsheet", Score: 0}, "faraqse": Word{Word: "faraqse", Def: "▯ pertains to the culture of France – French Republic.", By: "countries", Score: 0}, "faraqsegua": Word{Word: "faraqsegua", Def: "▯ is the country France – French Republic.", By: "countries", Score: 0}, "faraqsepoq": Word{Word: "faraqsepoq", Def: "Person ▯ is a result related to ▯’s venture to ▯ from ▯.", By: "uakci", Score: 0}, "faraqsetoaq": Word{Word: "faraqsetoaq", Def: "▯ is (one of) the language(s) spoken in France – French Republic.", By: "countries", Score: 0}, "farika": Word{Word: "farika", Def: "predicate: ‘Africa’; ▯ is Africa.", By: "official", Score: 0}, "fasa": Word{Word: "fasa", Def: "punish", By: "spreadsheet", Score: -1}, "fasiao": Word{Word: "fasiao", Def: "▯ is the origin of ▯'s journey to place ▯.", By: "Hoemai", Score: 0}, "fatao": Word{Word: "fatao", Def: "▯ goes elsewhere to do ▯.", By: "lynn", Score: 0}, "fe": Word{Word: "fe", Def: "predicate: ‘five’; ▯ are five in number.", By: "official", Score: 0}, "fea": Word{Word: "fea", Def: "predicate: ‘endure’; ▯ endures ▯.", By: "official", Score: 0}, "feabuo": Word{Word: "feabuo", Def: "▯ is resigned to satisfy the property ▯.", By: "Ilmen", Score: 0}, "fei": Word{Word: "fei", Def: "cả bû tỉaojāı dóshī sa ráı na môı dóshī sa púı cảı da", By: "uakci", Score: 0}, "feigaq": Word{Word: "feigaq", Def: "▯ and ▯ are angry with/at one another; ▯ is at odds with ▯.", By: "uakci", Score: 0}, "feijaq": Word{Word: "feijaq", Def: "▯ is furious/mad.", By: "Ilmen", Score: 0}, "feikuai": Word{Word: "feikuai", Def: "▯is aggressive", By: "seaqtaq", Score: 0}, "feikui": Word{Word: "feikui", Def: "nuisance", By: "spreadsheet", Score: 0}, "feiluaq": Word{Word: "feiluaq", Def: "▯ teases, nags, pranks, picks on, bullies ▯; ▯ harasses ▯ for their own enjoyment.", By: "uakci", Score: 2}, "fejieq": Word{Word: "fejieq", Def: "▯ is a pentagone.", By: "Ilmen", Score: 0}, "fejue": Word{Word: "fejue", Def: "▯ is May", By: "Xeizzen", Score: 0}, "feko": Word{Word: "feko", Def: "predicate: ‘fifth’; ▯ is fifth among ▯.", By: "official", Score: 0}, "fekoq": Word{Word: "fekoq", Def: "Predication ▯ has ▯ as its fifth argument place.", By: "uakci", Score: 0}, "felaqtei": Word{Word: "felaqtei", Def: "▯ is the fifth tone (peaking).", By: "lynn", Score: 0}, "fele": Word{Word: "fele", Def: "▯ belongs to the Felis taxonomic genus.", By: "Ilmen", Score: 0}, "feletei": Word{Word: "feletei", Def: "▯ belongs to the Feliformia taxonomic suborder.", By: "Ilmen", Score: 0}, "fenoq": Word{Word: "fenoq", Def: "▯ is a fellow ▯-er to ▯; ▯ is someone who satisfies p-ty ▯ who isn’t ▯.", By: "uakci", Score: 0}, "feo": Word{Word: "feo", Def: "predicate: ‘direction’; ▯ is a direction.", By: "official", Score: 0}, "feochiu": Word{Word: "feochiu", Def: "▯ are the spherical coordinates (distance, inclination and azimuth) of the direction ▯ relatively to the spatial frame of reference ▯.", By: "Ilmen", Score: 0}, "feoduo": Word{Word: "feoduo", Def: "▯ moves towards ▯.", By: "Ilmen", Score: 0}, "feokuaq": Word{Word: "feokuaq", Def: "point to (e.g. with a finger)", By: "spreadsheet", Score: 0}, "feone": Word{Word: "feone", Def: "▯ is the angle formed by the two straight lines or planes ▯ and ▯.", By: "Ilmen", Score: 0}, "feoni": Word{Word: "feoni", Def: "Pointing demonstrative", By: "spreadsheet", Score: 0}, "feoti": Word{Word: "feoti", Def: "▯ is at the direction ▯ from ▯.", By: "Ilmen", Score: 1}, "feoti tuchaoce hi feo ni moq.": Word{Word: "feoti tuchaoce hi feo ni moq.", Def: "(A0956) At which direction busstop is from here?", By: "examples", Score: 0}, "feq": Word{Word: "feq", Def: "start new sentence — retract the assertion of veridicality for the preceding sentence — bind hoa to the precêding for\u00a0the entirety of following sentence — used for comments.", By: "uakci", Score: -1}, "feqbihaq": Word{Word: "feqbihaq", Def: "▯ talks about others using excessive verbiage while using the phrase ‘excessive verbiage’ themselves, which is excessive and verbiage.", By: "uakci", Score: 0}, "feu": Word{Word: "feu", Def: "fanza", By: "spreadsheet", Score: -1}, "feuca": Word{Word: "feuca", Def: "▯ is annoying", By: "seaqtaq", Score: 0}, "feujuaoreai": Word{Word: "feujuaoreai", Def: "▯ is annoyingly rebellious", By: "seaqtaq", Score: 1}, "fi": Word{Word: "fi", Def: "linking word: first argument place", By: "lynn", Score: 0}, "fia": Word{Word: "fia", Def: "predicate: ‘previous’; ▯ is previous to ▯ in sequence ▯; ▯ precedes ▯ in sequence ▯.", By: "official", Score: 0}, "fiachaq": Word{Word: "fiachaq", Def: "Tuesday", By: "uakci", Score: 0}, "fiacu": Word{Word: "fiacu", Def: "sequence (abstract)", By: "spreadsheet", Score: 0}, "fiacuko": Word{Word: "fiacuko", Def: "pormoi", By: "spreadsheet", Score: 0}, "fiacume": Word{Word: "fiacume", Def: "konkatena", By: "spreadsheet", Score: 0}, "fiaho": Word{Word: "fiaho", Def: "▯ is him (obviative); ▯ is the second-to-lastly mentioned animate referent.", By: "Ilmen", Score: 0}, "fiahoa": Word{Word: "fiahoa", Def: "predicate: relative pronoun whose antecedent is the head of the next outer containing relative clause.", By: "Ilmen", Score: 0}, "fiajeo": Word{Word: "fiajeo", Def: "zilbri", By: "spreadsheet", Score: 0}, "fiako": Word{Word: "fiako", Def: "▯, in the sequence ▯, is at position ▯, counting from the end/right direction, the last slot having 1 as its index.", By: "Ilmen", Score: 0}, "fiamaq": Word{Word: "fiamaq", Def: "▯ is it (obviative); ▯ is the second-to-lastly mentioned inanimate referent.", By: "Ilmen", Score: 0}, "fiame": Word{Word: "fiame", Def: "konkatena", By: "spreadsheet", Score: 0}, "fiasia": Word{Word: "fiasia", Def: "▯ is last in sequence ▯.", By: "Ilmen", Score: 0}, "fiasoq": Word{Word: "fiasoq", Def: "▯ is a primate.", By: "Ilmen", Score: 0}, "fiasu": Word{Word: "fiasu", Def: "predicate: repeats the next to last predicate.", By: "Ilmen", Score: 0}, "fiatu": Word{Word: "fiatu", Def: "▯ is previous in sequence ▯.", By: "Ilmen", Score: 0}, "fichoa": Word{Word: "fichoa", Def: "whistle", By: "spreadsheet", Score: 0}, "fie": Word{Word: "fie", Def: "predicate: ‘ugly’; ▯ is ugly.", By: "official", Score: 0}, "fieq": Word{Word: "fieq", Def: "author", By: "spreadsheet", Score: -1}, "fieq sa pui toaqpoq sa toa.": Word{Word: "fieq sa pui toaqpoq sa toa.", Def: "(A0562) Many Toaqians create words.", By: "examples", Score: 0}, "fieqjoe": Word{Word: "fieqjoe", Def: "▯ is creative\u00a0", By: "seaqtaq", Score: 1}, "fieqkuaige": Word{Word: "fieqkuaige", Def: "▯ inspires ▯ to create ▯.", By: "uakci", Score: 0}, "fieqse": Word{Word: "fieqse", Def: "▯ is a creation", By: "seaqtaq", Score: 0}, "fiji": Word{Word: "fiji", Def: "(fork of #Ysze9KPwZ) ▯ is satisfied by me.", By: "sheireq", Score: 0}, "fikuheu": Word{Word: "fikuheu", Def: "fig", By: "spreadsheet", Score: 0}, "fili": Word{Word: "fili", Def: "▯ is a minute.", By: "uakci", Score: 0}, "fioq": Word{Word: "fioq", Def: "▯ makes a copy of ▯ which satisfies property ▯; ▯ translates/transforms ▯ into something which ▯-s (original thing not necessarily consumed in the process).", By: "uakci", Score: 0}, "fioqse": Word{Word: "fioqse", Def: "▯ is a copy/parallel of ▯ which satisfies property ▯; ▯ is a translation/version/rework of ▯ that does ▯.", By: "uakci", Score: 0}, "fiq": Word{Word: "fiq", Def: "▯ throws, flings, darts, shoots, hurls, swings ▯ at/towards ▯; ▯ propels object ▯ by means of a dynamic, instantaneous body movement.", By: "uakci", Score: 0}, "fiu": Word{Word: "fiu", Def: "predicate: ‘shallow’; ▯ is shallow.", By: "official", Score: 0}, "fiutoe": Word{Word: "fiutoe", Def: "▯ notches/cuts ▯ (incomplete cut, not resulting in a complete separation).", By: "Ilmen", Score: 0}, "flaq bi flutter gailȳ": Word{Word: "flaq bi flutter gailȳ", Def: "(B0052) The flags are gaily fluttering", By: "examples", Score: 0}, "fo": Word{Word: "fo", Def: "Proposition ▯, in addition to being true/actual, satisfies property ▯.", By: "uakci", Score: 0}, "foa": Word{Word: "foa", Def: "predicate: ‘feel’; ▯ feels ▯ (good or bad); ▯ is ▯ (ill or well).", By: "official", Score: 0}, "foacia": Word{Word: "foacia", Def: "▯ doesn’t feel good or bad; ▯ doesn’t feel in any way in particular.", By: "uakci", Score: 0}, "foai": Word{Word: "foai", Def: "▯ is a detail of/on ▯.", By: "uakci", Score: 0}, "foaidoa": Word{Word: "foaidoa", Def: "▯ gives description ▯ of ▯", By: "seaqtaq", Score: 0}, "foaimia": Word{Word: "foaimia", Def: "▯ is detailed, precise.", By: "uakci", Score: 0}, "foaimiu": Word{Word: "foaimiu", Def: "▯ is the exegesis of ▯; ▯ is a hermeneutical analysis of ▯; ▯ is a semantic decomposition of ▯.", By: "uakci", Score: 0}, "foaisidui": Word{Word: "foaisidui", Def: "▯ is petty about ▯.", By: "uakci", Score: 0}, "foaq": Word{Word: "foaq", Def: "predicate: ‘comfortable’; ▯ is comfortable; ▯ feels comfort; ▯ feels comfort in satisfying property ▯.", By: "official", Score: 0}, "foaq nie ni kua da.": Word{Word: "foaq nie ni kua da.", Def: "(A0231) (I'm) comfortable in this room.", By: "examples", Score: 0}, "foaqca": Word{Word: "foaqca", Def: "comfortable (e.g. chair…)", By: "spreadsheet", Score: 0}, "foaqfui": Word{Word: "foaqfui", Def: "predicate: ‘convenient’; ▯ is convenient; ▯ is comfortably easy.", By: "official", Score: 0}, "foi": Word{Word: "foi", Def: "▯ is bored.", By: "seaqtaq", Score: 0}, "foica": Word{Word: "foica", Def: "▯ is boring/dull", By: "seaqtaq", Score: 0}, "foilie": Word{Word: "foilie", Def: "▯ is bored", By: "seaqtaq", Score: 0}, "foimoe": Word{Word: "foimoe", Def: "▯ is bored.", By: "lynn", Score: 0}, "foq": Word{Word: "foq", Def: "predicate: ‘phone’; ▯ is a telephone.", By: "official", Score: 0}, "foqchiu": Word{Word: "foqchiu", Def: "▯ is a phone number.", By: "uakci", Score: 1}, "foqcua": Word{Word: "foqcua", Def: "▯ picks up the phone /\u00a0answers the phone.", By: "lynn", Score: 0}, "foqdeoq": Word{Word: "foqdeoq", Def: "predicate: ‘talk.on.the.phone’; ▯ talks on the phone with ▯.", By: "official", Score: 0}, "foqjuq": Word{Word: "foqjuq", Def: "▯ answers the phone", By: "fagri", Score: 0}, "foqlaq": Word{Word: "foqlaq", Def: "▯ is a ringtone", By: "seaqtaq", Score: 0}, "foqpai": Word{Word: "foqpai", Def: "▯ is a contact", By: "seaqtaq", Score: 0}, "foqtao": Word{Word: "foqtao", Def: "▯ calls ▯\u00a0", By: "seaqtaq", Score: 0}, "foto": Word{Word: "foto", Def: "predicate: ‘photo’; ▯ is a photograph.", By: "official", Score: 0}, "fu": Word{Word: "fu", Def: "= mu roaq", By: "Ilmen", Score: 0}, "fua": Word{Word: "fua", Def: "predicate: ‘furniture’; ▯ is an item of furniture.", By: "official", Score: 0}, "fuai": Word{Word: "fuai", Def: "predicate: ‘committee’; ▯ is a committee.", By: "official", Score: 0}, "fuaijoaq": Word{Word: "fuaijoaq", Def: "▯ is the chairperson of ▯.", By: "lynn", Score: 0}, "fuaimea": Word{Word: "fuaimea", Def: "▯ is a member of ▯ (a committee).", By: "lynn", Score: 0}, "fuaq": Word{Word: "fuaq", Def: "predicate: ‘picture’; ▯ is an image / a picture.", By: "official", Score: 0}, "fuaqfieq": Word{Word: "fuaqfieq", Def: "▯ creates/invents picture ▯.", By: "lynn", Score: 0}, "fuaqkai": Word{Word: "fuaqkai", Def: "predicate: ‘draw’; ▯ draws image ▯ on ▯.", By: "official", Score: 0}, "fuaqkea": Word{Word: "fuaqkea", Def: "predicate: ‘camera’; ▯ is a photo-camera.", By: "official", Score: 0}, "fuaqmuoq": Word{Word: "fuaqmuoq", Def: "▯ is paint (a dye specifically for painting).", By: "uakci", Score: 0}, "fuaqnueqchuo": Word{Word: "fuaqnueqchuo", Def: "mirror (object)", By: "spreadsheet", Score: -1}, "fuaqnuoqchuo": Word{Word: "fuaqnuoqchuo", Def: "▯ is a mirror.", By: "Ilmen", Score: 0}, "fuaqtao": Word{Word: "fuaqtao", Def: "▯ takes a photo", By: "seaqtaq", Score: 0}, "fuaqtaotaq": Word{Word: "fuaqtaotaq", Def: "▯ takes a selfie", By: "seaqtaq", Score: 0}, "fuaqtaq": Word{Word: "fuaqtaq", Def: "▯ is a selfie", By: "seaqtaq", Score: 0}, "fubu": Word{Word: "fubu", Def: "▯ dives/swoops.", By: "Ilmen", Score: 0}, "fue": Word{Word: "fue", Def: "predicate: ‘hundred’; ▯ are a hundred in number.", By: "official", Score: 0}, "fuepaq": Word{Word: "fuepaq", Def: "percent (hundred part)", By: "spreadsheet", Score: 0}, "fueq": Word{Word: "fueq", Def: "responsible [polysemous?]", By: "spreadsheet", Score: 0}, "fueshu": Word{Word: "fueshu", Def: "flow", By: "spreadsheet", Score: 0}, "fufu\u00a0": Word{Word: "fufu\u00a0", Def: "▯ is the offspring of the offspring of ▯", By: "seaqtaq", Score: 0}, "fuheq": Word{Word: "fuheq", Def: "pregnant", By: "spreadsheet", Score: 0}, "fuhie": Word{Word: "fuhie", Def: "pregnant", By: "spreadsheet", Score: 0}, "fui": Word{Word: "fui", Def: "predicate: ‘easy’; Satisfying property ▯ is easy for ▯.", By: "official", Score: 0}, "fukioq": Word{Word: "fukioq", Def: "egg", By: "spreadsheet", Score: -1}, "fuluigiq": Word{Word: "fuluigiq", Def: "pregnant", By: "spreadsheet", Score: 0}, "fuo": Word{Word: "fuo", Def: "= #soq #jủı", By: "uakci", Score: 0}, "fuq": Word{Word: "fuq", Def: "predicate: ‘clothing’; ▯ is an article of clothing / garment / dress.", By: "official", Score: 0}, "fuqcea": Word{Word: "fuqcea", Def: "pocket", By: "spreadsheet", Score: 0}, "fuqcia": Word{Word: "fuqcia", Def: "▯ is naked/bare", By: "seaqtaq", Score: 0}, "fuqguepaqnuachuo": Word{Word: "fuqguepaqnuachuo", Def: "▯ is an iron", By: "seaqtaq", Score: 0}, "fuqheq": Word{Word: "fuqheq", Def: "▯ is a dresser/wardrobe", By: "seaqtaq", Score: 0}, "fuqluaiche": Word{Word: "fuqluaiche", Def: "▯ is a clown.", By: "Ilmen", Score: 0}, "fuqpaqcea": Word{Word: "fuqpaqcea", Def: "pocket", By: "spreadsheet", Score: 0}, "fuqshuaq": Word{Word: "fuqshuaq", Def: "sheep", By: "spreadsheet", Score: 0}, "fuqsia": Word{Word: "fuqsia", Def: "naked", By: "spreadsheet", Score: 0}, "fuqtiai": Word{Word: "fuqtiai", Def: "▯ is a drawer (for clothes)", By: "fagri", Score: 0}, "fura": Word{Word: "fura", Def: "rotten, decayed", By: "spreadsheet", Score: -1}, "furi": Word{Word: "furi", Def: "oscillate", By: "spreadsheet", Score: 0}, "fusha": Word{Word: "fusha", Def: "rub", By: "spreadsheet", Score: -1}, "fushuaq": Word{Word: "fushuaq", Def: "(fork of #MPIwE70e7) ▯ procreates/reproduces; ▯ begets offspring ▯.", By: "seaqtaq", Score: 0}, "fushuaqdeqbu": Word{Word: "fushuaqdeqbu", Def: "▯ is infertile.", By: "uakci", Score: 0}, "fushuaqtaoshao": Word{Word: "fushuaqtaoshao", Def: "▯ plans to have kids.", By: "uakci", Score: 0}, "futoq": Word{Word: "futoq", Def: "mattress", By: "spreadsheet", Score: -1}, "ga": Word{Word: "ga", Def: "end-conversion: ‘END’; terminates conversion via predicalizer.", By: "official", Score: 0}, "gace": Word{Word: "gace", Def: "▯ feels itchy.", By: "Ilmen", Score: 0}, "gai": Word{Word: "gai", Def: "predicate: ‘perceive’; ▯ senses/observes/perceives state of affairs ▯.", By: "official", Score: 0}, "gai ji sa hiaq reobo da.": Word{Word: "gai ji sa hiaq reobo da.", Def: "(A0845) I see something with not many colors.", By: "examples", Score: 0}, "gai ji sa mia ca da.": Word{Word: "gai ji sa mia ca da.", Def: "(A0836) I see something that cause a lot of other things.", By: "examples", Score: 0}, "gaichiai": Word{Word: "gaichiai", Def: "▯ halluciates; ▯ has hallucination ▯.", By: "Ilmen", Score: 1}, "gaicia": Word{Word: "gaicia", Def: "▯ is numb.", By: "Ilmen", Score: 0}, "gaifuili": Word{Word: "gaifuili", Def: "It is easy to sense what satisfies property ▯.", By: "fagri", Score: 0}, "gaihua": Word{Word: "gaihua", Def: "▯ is a sensory organ; ▯ is ▯’s body part which is used for perception.", By: "uakci", Score: 0}, "gaiji": Word{Word: "gaiji", Def: "I perceive here and now that ▯ is the case.", By: "Ilmen", Score: 0}, "gaikiu": Word{Word: "gaikiu", Def: "▯ is perceptible / observable / able to be sensed.", By: "niucuq", Score: 0}, "gaikiuboq": Word{Word: "gaikiuboq", Def: "hide", By: "spreadsheet", Score: 0}, "gaikiubu": Word{Word: "gaikiubu", Def: "▯ is imperceptible.", By: "Ilmen", Score: 0}, "gaikiubutua": Word{Word: "gaikiubutua", Def: "hide", By: "spreadsheet", Score: 0}, "gaikuai": Word{Word: "gaikuai", Def: "hope", By: "spreadsheet", Score: 0}, "gaimoaq": Word{Word: "gaimoaq", Def: "▯ remembers from perception/experience that ▯ was the case.", By: "Ilmen", Score: 0}, "gaimoaqji": Word{Word: "gaimoaqji", Def: "I know from memory of direct experience that ▯ was the case.", By: "Ilmen", Score: 0}, "gaimuo": Word{Word: "gaimuo", Def: "▯ sees ▯ for what it is; ▯ understands ▯", By: "fagri", Score: 1}, "gaimuomuo": Word{Word: "gaimuomuo", Def: "▯ is enlightened", By: "fagri", Score: 0}, "gaimuotua": Word{Word: "gaimuotua", Def: "Tủa\u00a0gảımūo ▯ ▯ ▯.", By: "fagri", Score: 0}, "gaino": Word{Word: "gaino", Def: "▯ is a sense; ▯ is a mode of perception concerning stimuli ▯.", By: "uakci", Score: 1}, "gaipua": Word{Word: "gaipua", Def: "predicate: ‘enjoy’; ▯ enjoys sensing/observing ▯.", By: "official", Score: 0}, "gairaq": Word{Word: "gairaq", Def: "▯ is perceptual.", By: "Ilmen", Score: 0}, "gaise": Word{Word: "gaise", Def: "▯ is a perception; ▯ is a perception of ▯.", By: "Ilmen", Score: 0}, "gaishao": Word{Word: "gaishao", Def: "hope", By: "spreadsheet", Score: 0}, "gaisho": Word{Word: "gaisho", Def: "appear", By: "spreadsheet", Score: 0}, "gaja": Word{Word: "gaja", Def: "▯ is the planet earth", By: "seaqtaq", Score: 0}, "gaji": Word{Word: "gaji", Def: "article (grammar)", By: "spreadsheet", Score: -1}, "galei": Word{Word: "galei", Def: "▯ is an edible dormouse (Glis glis).", By: "Ilmen", Score: 0}, "galeipuq": Word{Word: "galeipuq", Def: "▯ belongs to the Glires taxonomic clade (rodents and lagomorphs).", By: "Ilmen", Score: 0}, "galo": Word{Word: "galo", Def: "chicken", By: "spreadsheet", Score: -1}, "galu": Word{Word: "galu", Def: "jgalu (nail/claw)", By: "spreadsheet", Score: -1}, "gama": Word{Word: "gama", Def: "camel", By: "spreadsheet", Score: 0}, "game": Word{Word: "game", Def: "gamete / sovda", By: "spreadsheet", Score: 0}, "gana": Word{Word: "gana", Def: "▯ pertains to the culture of Ghana – Republic of Ghana.", By: "countries", Score: 0}, "ganagua": Word{Word: "ganagua", Def: "▯ is the country Ghana – Republic of Ghana.", By: "countries", Score: 0}, "ganatoaq": Word{Word: "ganatoaq", Def: "▯ is (one of) the language(s) spoken in Ghana – Republic of Ghana.", By: "countries", Score: 0}, "gao": Word{Word: "gao", Def: "dảı shûa sa ráı dóshī dógū, na ru bủ dảı shûa sa ráı dógū dóshī da", By: "uakci", Score: 0}, "gaoduo": Word{Word: "gaoduo", Def: "predicate: ‘move.upwards’; ▯ moves upwards.", By: "official", Score: 0}, "gaofeo": Word{Word: "gaofeo", Def: "(fork of #_wOmouB1-) ▯ is the north direction", By: "seaqtaq", Score: 0}, "gaojeaq": Word{Word: "gaojeaq", Def: "▯ rises", By: "seaqtaq", Score: 0}, "gaojiai": Word{Word: "gaojiai", Def: "▯ reaches up to grab ▯", By: "seaqtaq", Score: 0}, "gaokoi": Word{Word: "gaokoi", Def: "predicate: ‘climb’; ▯ climbs.", By: "official", Score: 0}, "gaokoichuo": Word{Word: "gaokoichuo", Def: "▯ is a ladder.", By: "Ilmen", Score: 0}, "gaokoifua": Word{Word: "gaokoifua", Def: "▯ is a stairway/staircase.", By: "Ilmen", Score: 0}, "gaokoiniai": Word{Word: "gaokoiniai", Def: "▯ is a tree shrew (Scandentia taxonomic order).", By: "Ilmen", Score: 0}, "gaopaq": Word{Word: "gaopaq", Def: "predicate: ‘top’; ▯ is the top of ▯.", By: "official", Score: 0}, "gaoshiaq": Word{Word: "gaoshiaq", Def: "▯ is the upper leg; ▯ are thighs.", By: "uakci", Score: 0}, "gaq": Word{Word: "gaq", Def: "tảo dóshī roı dógū dósāq da", By: "uakci", Score: 0}, "gaq cheo choadeoq ji puqho da.": Word{Word: "gaq cheo choadeoq ji puqho da.", Def: "(A0822) I'm chatting with them.", By: "examples", Score: 0}, "gaq cheo choadeoq suq ji roi puqho ba.": Word{Word: "gaq cheo choadeoq suq ji roi puqho ba.", Def: "(A0823) You should come chat with us.", By: "examples", Score: 0}, "gaq ho ji che chie ti masachuseci rao koniaq… gubiqsaq, ju ruemoaq ji da.": Word{Word: "gaq ho ji che chie ti masachuseci rao koniaq… gubiqsaq, ju ruemoaq ji da.", Def: "(A0455) She and I studied together in Massachusetts in… 2003, I think it was.", By: "examples", Score: 0}, "gaq ji suq fa ja poq bue da.": Word{Word: "gaq ji suq fa ja poq bue da.", Def: "(A0820) I go with you to the home.", By: "examples", Score: 0}, "gaq suq ji fa ja poq bue da.": Word{Word: "gaq suq ji fa ja poq bue da.", Def: "(A0821) You come with me to the home.", By: "examples", Score: 0}, "gaqcheo": Word{Word: "gaqcheo", Def: "▯ do ▯ together.", By: "uakci", Score: 0}, "gaqcia": Word{Word: "gaqcia", Def: "(fork of official) predicate: ‘alone’; ▯ is alone.", By: "seaqtaq", Score: 0}, "gaqcu": Word{Word: "gaqcu", Def: "organize", By: "spreadsheet", Score: -1}, "gaqguru": Word{Word: "gaqguru", Def: "▯ is a kangaroo (family Macropodidae).", By: "Hoemai", Score: 0}, "gaqgurugua": Word{Word: "gaqgurugua", Def: "▯ is Australia.", By: "Ilmen", Score: 2}, "gaqhao": Word{Word: "gaqhao", Def: "▯ keeps ▯ company; ▯ stays with ▯ so they will not be lonely", By: "fagri", Score: -3}, "gaqjui": Word{Word: "gaqjui", Def: "▯ accompanies ▯; ▯ stays with ▯.", By: "uakci", Score: 0}, "gaqkoe": Word{Word: "gaqkoe", Def: "▯ includes ▯ among ▯ for satisfying property ▯", By: "seaqtaq", Score: 0}, "gaqme": Word{Word: "gaqme", Def: "team/group/band/gang ()", By: "spreadsheet", Score: 0}, "gaqnuao": Word{Word: "gaqnuao", Def: "▯ is a synapsid.", By: "Ilmen", Score: 0}, "gaqsiamoe": Word{Word: "gaqsiamoe", Def: "lonely ()", By: "spreadsheet", Score: 0}, "gaqtao": Word{Word: "gaqtao", Def: "▯ takes part in ▯; ▯ participates in ▯.", By: "uakci", Score: 0}, "gara": Word{Word: "gara", Def: "▯ is a stomach.", By: "Hoemai", Score: 0}, "garapue": Word{Word: "garapue", Def: "▯ is a gastropod.", By: "Hoemai", Score: 0}, "garu": Word{Word: "garu", Def: "▯ combs ▯.", By: "Ilmen", Score: 0}, "garuchuo": Word{Word: "garuchuo", Def: "▯ is a comb.", By: "Ilmen", Score: 0}, "gau": Word{Word: "gau", Def: "▯ jai gau gasnu fai lo nei fe ▯.", By: "uakci", Score: 0}, "ge": Word{Word: "ge", Def: "predicate: ‘stimulus’; ▯ is a stimulus.", By: "official", Score: 0}, "gea": Word{Word: "gea", Def: "predicate: ‘high’; ▯ is high.", By: "official", Score: 0}, "geachua": Word{Word: "geachua", Def: "▯ is a caption/heading/title", By: "seaqtaq", Score: 0}, "geajeaqkea": Word{Word: "geajeaqkea", Def: "predicate: ‘lift’; ▯ is a lift.", By: "official", Score: 0}, "geanua": Word{Word: "geanua", Def: "predicate: ‘lift’; ▯ lifts up ▯.", By: "official", Score: 0}, "geaq": Word{Word: "geaq", Def: "predicate: ‘dirty’; ▯ is dirty/unclean/contaminated.", By: "official", Score: 0}, "geaq po suq ga toqfua kui hi rai moq": Word{Word: "geaq po suq ga toqfua kui hi rai moq", Def: "(PCT.3) Why is your table dirty?", By: "official", Score: 0}, "geaqpuo": Word{Word: "geaqpuo", Def: "dust", By: "spreadsheet", Score: 0}, "geaqsai": Word{Word: "geaqsai", Def: "▯ is dirt", By: "fagri", Score: 0}, "geatuaq": Word{Word: "geatuaq", Def: "▯ is a member of genus Aepyceros (the impala).", By: "Hoemai", Score: 0}, "gegai": Word{Word: "gegai", Def: "▯ has perception ▯ of ▯ (stimulus).", By: "Ilmen", Score: 0}, "gegu": Word{Word: "gegu", Def: "▯ is cartilage/gristle.", By: "Hoemai", Score: 0}, "gegucie": Word{Word: "gegucie", Def: "▯ is a member of the class Chondrichthyes (the cartilaginous fishes).", By: "Hoemai", Score: 0}, "gehopabi": Word{Word: "gehopabi", Def: "▯ is the alphabet. [Elderly Lojbanist should get the joke.]", By: "uakci", Score: 0}, "gei": Word{Word: "gei", Def: "predicate: ‘wear’; ▯ wears ▯.", By: "official", Score: 0}, "gei ho sa sao chea da.": Word{Word: "gei ho sa sao chea da.", Def: "(A0046) He wears a big hat.", By: "examples", Score: 0}, "gei poji liqfu sa cuireo da.": Word{Word: "gei poji liqfu sa cuireo da.", Def: "(A0726) My daughter is wearing something magenta.", By: "examples", Score: 0}, "geibeo": Word{Word: "geibeo", Def: "▯ changes clothes", By: "seaqtaq", Score: 0}, "geiciajui": Word{Word: "geiciajui", Def: "▯ is half-naked; ▯ wears nothing but underwear.", By: "uakci", Score: 0}, "geifao": Word{Word: "geifao", Def: "▯ is outerwear.", By: "uakci", Score: 0}, "geinua": Word{Word: "geinua", Def: "▯ takes clothing ▯ off ▯.", By: "uakci", Score: 0}, "geisho": Word{Word: "geisho", Def: "▯ gets dressed", By: "seaqtaq", Score: 0}, "geisia": Word{Word: "geisia", Def: "▯ is naked.", By: "Ilmen", Score: 0}, "geisiao": Word{Word: "geisiao", Def: "▯ is underwear.", By: "uakci", Score: 0}, "geli": Word{Word: "geli", Def: "▯ is bile.", By: "Ilmen", Score: 0}, "gemo": Word{Word: "gemo", Def: "▯ is a member of genus Homo.", By: "Hoemai", Score: 0}, "gemoi": Word{Word: "gemoi", Def: "▯ has ▯ come to their mind.", By: "uakci", Score: 0}, "gena": Word{Word: "gena", Def: "▯ is a knot.", By: "Ilmen", Score: 0}, "geo": Word{Word: "geo", Def: "predicate: ‘old’; ▯ is old.", By: "official", Score: 0}, "geo diaqkue da.": Word{Word: "geo diaqkue da.", Def: "(A0058) The monthly periodical is old.", By: "examples", Score: 0}, "geobia": Word{Word: "geobia", Def: "▯ is senecent.", By: "Ilmen", Score: 0}, "geodiu": Word{Word: "geodiu", Def: "▯ is archaeology.", By: "Ilmen", Score: 0}, "geokoaqnaq": Word{Word: "geokoaqnaq", Def: "An old man.", By: "Xeizzen", Score: 0}, "geone": Word{Word: "geone", Def: "predicate: ‘age’; ▯ is the age of ▯.", By: "official", Score: 0}, "geosoariaq": Word{Word: "geosoariaq", Def: "▯is a nursing home", By: "seaqtaq", Score: 0}, "geq": Word{Word: "geq", Def: "shỏ jẻq tỉ dóshī dógū kùı chêo kủaı ra chỉa dẻoq dóshī roı dógū da.", By: "uakci", Score: 0}, "geqhu": Word{Word: "geqhu", Def: "hook", By: "spreadsheet", Score: -1}, "geqkuai": Word{Word: "geqkuai", Def: "predicate: ‘miss’; ▯ misses ▯; ▯ hungers to meet ▯ (again).", By: "official", Score: 0}, "geqme": Word{Word: "geqme", Def: "▯ is a congress/assembly/conference/convention/meeting of ▯ (plural).", By: "Hoemai", Score: 0}, "geqsia": Word{Word: "geqsia", Def: "predicate: ‘alone’; ▯ is alone.", By: "official", Score: 0}, "gere": Word{Word: "gere", Def: "▯ is a hedgehog.", By: "Ilmen", Score: 0}, "gero": Word{Word: "gero", Def: "▯ is a crane (Grus genus)", By: "Ilmen", Score: 1}, "getea": Word{Word: "getea", Def: "▯ fears ▯ (stimulus).", By: "Ilmen", Score: 0}, "geu": Word{Word: "geu", Def: "▯ is ▯/1 lots of ▯ in property ▯; ▯ is ▯/1 as much as ▯ in p’ty ▯.", By: "uakci", Score: 0}, "gi": Word{Word: "gi", Def: "dóshī pa, lủ to ra shảo báq pỏq hóa, to rảq hóa sa lú cả hóa sa túe mỉedūoı ra jaı da", By: "uakci", Score: 0}, "gi ba.": Word{Word: "gi ba.", Def: "generic expression of good wishes for the listener (‘May it be good’); or generic request (‘Please be good.’)", By: "uakci", Score: 0}, "gi chaq ba.": Word{Word: "gi chaq ba.", Def: "phrase: \"Good day!\"", By: "official", Score: 0}, "gi chaq da.": Word{Word: "gi chaq da.", Def: "(A0090) The day is good.", By: "examples", Score: 0}, "gi diosiao ba.": Word{Word: "gi diosiao ba.", Def: "(A0062) The morning ought to be good.", By: "examples", Score: 0}, "gi haq tu haq heq hoa papika.": Word{Word: "gi haq tu haq heq hoa papika.", Def: "(QUA.3) Any food that contains paprika is good food.", By: "official", Score: 0}, "gi hoq jie ji da.": Word{Word: "gi hoq jie ji da.", Def: "(A0173) It is good to me.", By: "examples", Score: 0}, "gi jiuchaq ba!": Word{Word: "gi jiuchaq ba!", Def: "(A0601) Happy birthday!", By: "examples", Score: 0}, "gi ni niaq ba!": Word{Word: "gi ni niaq ba!", Def: "(A0600) Happy new year!", By: "examples", Score: 0}, "gi nuaq ba.": Word{Word: "gi nuaq ba.", Def: "phrase: \"Good night!\"", By: "official", Score: 0}, "gi nuaq da.": Word{Word: "gi nuaq da.", Def: "(A0091) The night is good.", By: "examples", Score: 0}, "gi sa daqmoa da.": Word{Word: "gi sa daqmoa da.", Def: "(A0130) Some moment is good.", By: "examples", Score: 0}, "gi seoqtue nai da. ": Word{Word: "gi seoqtue nai da. ", Def: "(A0538) The weather is nice now.", By: "examples", Score: 0}, "gi seoqtue rao nichaq da.": Word{Word: "gi seoqtue rao nichaq da.", Def: "(A0331) ", By: "examples", Score: 0}, "gia": Word{Word: "gia", Def: "predicate: ‘ribbon’; ▯ is a ribbon/tape/strip/stripe.", By: "official", Score: 0}, "giai": Word{Word: "giai", Def: "predicate: ‘incise’; ▯ incises/carves/scratches/engraves/cuts into ▯.", By: "official", Score: 0}, "giaikai": Word{Word: "giaikai", Def: "▯ carves ▯ on ▯.", By: "Ilmen", Score: 0}, "giaite": Word{Word: "giaite", Def: "▯ is an insect.", By: "Hoemai", Score: 0}, "giaitediu": Word{Word: "giaitediu", Def: "▯ is entomology.", By: "Ilmen", Score: 0}, "giakaq": Word{Word: "giakaq", Def: "▯ is a strip (a visual pattern, not a tridimentional shape).", By: "Ilmen", Score: 0}, "giao": Word{Word: "giao", Def: "predicate: ‘dry’; ▯ is dry.", By: "official", Score: 0}, "giaobia": Word{Word: "giaobia", Def: "land ▯ experiences a drought", By: "seaqtaq", Score: 0}, "giaoheu": Word{Word: "giaoheu", Def: "▯ is dried fruit; ▯ is a prune.", By: "uakci", Score: 0}, "giaq": Word{Word: "giaq", Def: "= to ru to ra #laq to #mẻ #lảq to to ra #pủa to #tẻ to ra #fỉeq to #dỏa #sảlī #tẻı", By: "uakci", Score: 0}, "giaqbiu": Word{Word: "giaqbiu", Def: "▯ is a flute.", By: "Ilmen", Score: 0}, "giaqcaimoe": Word{Word: "giaqcaimoe", Def: "▯ feels frission", By: "fagri", Score: -1}, "giaqche": Word{Word: "giaqche", Def: "▯ is a musician.", By: "Hoemai", Score: 0}, "giaqchoq": Word{Word: "giaqchoq", Def: "play (musical instrument)", By: "spreadsheet", Score: 0}, "giaqchuo": Word{Word: "giaqchuo", Def: "predicate: ‘musical.instrument’; ▯ is a musical instrument.", By: "official", Score: 0}, "giaqduo": Word{Word: "giaqduo", Def: "▯ dances to music/rhythm ▯.", By: "uakci", Score: 0}, "giaqkai": Word{Word: "giaqkai", Def: "▯ composes music ▯; ▯ writes notes ▯.", By: "uakci", Score: 0}, "giaqkaise": Word{Word: "giaqkaise", Def: "▯ is a music score; ▯ is a composition (written).", By: "uakci", Score: 0}, "giaqkoi": Word{Word: "giaqkoi", Def: "▯ walks to music / marches.", By: "lynn", Score: 0}, "giaqlai": Word{Word: "giaqlai", Def: "▯ is a note (musical) signifying ▯.", By: "uakci", Score: 0}, "giaqtei": Word{Word: "giaqtei", Def: "▯ is a melody; ▯ is a/the melody to music fragment ▯.", By: "uakci", Score: 0}, "giaqtoa": Word{Word: "giaqtoa", Def: "▯ are the lyrics to music/song ▯.", By: "Hoemai", Score: 0}, "giaqtoai": Word{Word: "giaqtoai", Def: "tone", By: "spreadsheet", Score: 0}, "gibaje": Word{Word: "gibaje", Def: "‘please’", By: "uakci", Score: 0}, "gicia": Word{Word: "gicia", Def: "predicate: ‘free.of’; ▯ is free of property ▯; ▯ not having property ▯ is good.", By: "official", Score: 0}, "gidaitue": Word{Word: "gidaitue", Def: "have the opportunity to", By: "spreadsheet", Score: 0}, "gideq": Word{Word: "gideq", Def: "▯ can do ▯ well; ▯ has the ability to do ▯.", By: "uakci", Score: 0}, "gie": Word{Word: "gie", Def: "predicate: ‘arm’; ▯ is an arm.", By: "official", Score: 0}, "giebea": Word{Word: "giebea", Def: "predicate: ‘elbow’; ▯ is an elbow.", By: "official", Score: 0}, "giegu": Word{Word: "giegu", Def: "▯ is (one's) both arms.", By: "lynn", Score: 0}, "giehie": Word{Word: "giehie", Def: "▯ carries ▯ with their arms (possibly only one arm, but not using only the hands).", By: "Ilmen", Score: 0}, "giejeoq": Word{Word: "giejeoq", Def: "predicate: ‘armpit’; ▯ is an armpit.", By: "official", Score: 0}, "giekea": Word{Word: "giekea", Def: "▯ is a robotic arm.", By: "Ilmen", Score: 0}, "gieq": Word{Word: "gieq", Def: "predicate: ‘shock’; ▯ shocks ▯.", By: "official", Score: 0}, "gieshio": Word{Word: "gieshio", Def: "predicate: ‘shoulder’; ▯ is a shoulder.", By: "official", Score: 0}, "gifaq": Word{Word: "gifaq", Def: "▯ is a good occurrence; ▯ takes place and is good.", By: "Hoemai", Score: 0}, "gifoa": Word{Word: "gifoa", Def: "be pleasured by", By: "spreadsheet", Score: 0}, "giga": Word{Word: "giga", Def: "predicate: ‘giga’; ▯ are 10^9 (1,000,000,000) in number; ▯ are a billion.", By: "official", Score: 0}, "gigaq": Word{Word: "gigaq", Def: "accustomed to", By: "spreadsheet", Score: 0}, "gigiodoa": Word{Word: "gigiodoa", Def: "▯ is krill of the Euphausia taxonomic genus.", By: "Ilmen", Score: 0}, "gigiodoasiu": Word{Word: "gigiodoasiu", Def: "▯ is krill of the Euphausiidae taxonomic family.", By: "Ilmen", Score: 0}, "gihuaq": Word{Word: "gihuaq", Def: "▯ is better than / preferable to ▯; ▯ zabnymau ▯", By: "fagri", Score: 0}, "gijaq": Word{Word: "gijaq", Def: "▯ is awesome.", By: "uakci", Score: 0}, "gijie": Word{Word: "gijie", Def: "jỉe gỉ dógū dóshī", By: "uakci", Score: 0}, "gijiejuq": Word{Word: "gijiejuq", Def: "▯ accepts p-ty ▯.", By: "uakci", Score: 1}, "gikuicia": Word{Word: "gikuicia", Def: "▯ happens for no good reason; ▯ does ▯ for no good reason.", By: "fagri", Score: 1}, "gikuq": Word{Word: "gikuq", Def: "praise", By: "spreadsheet", Score: 0}, "gila": Word{Word: "gila", Def: "▯ is in charge of satisfying the property ▯.", By: "Ilmen", Score: 1}, "gile": Word{Word: "gile", Def: "(fork of #1bop7NTap) There’s an opportunity for ▯ to happen; ▯ has the opportunity to do ▯ [JEO].", By: "uakci", Score: 1}, "gilie ti suq ni ba.": Word{Word: "gilie ti suq ni ba.", Def: "welcome! (interjection)", By: "spreadsheet", Score: 0}, "gimiu": Word{Word: "gimiu", Def: "approve", By: "spreadsheet", Score: -1}, "gina": Word{Word: "gina", Def: "▯ is a gene.", By: "Ilmen", Score: 0}, "gine": Word{Word: "gine", Def: "▯ is ▯’s score [in a game].", By: "uakci", Score: 0}, "gineq": Word{Word: "gineq", Def: "predicate: ‘fortunate’; ▯ is fortunate for ▯.", By: "official", Score: 0}, "ginetoai": Word{Word: "ginetoai", Def: "▯ is a point [in a game].", By: "uakci", Score: 0}, "ginue": Word{Word: "ginue", Def: "predicate: ‘promise’; ▯ promises to ▯ to satisfy property ▯, which is good for the latter.", By: "official", Score: 0}, "gio": Word{Word: "gio", Def: "cả sa pó dóshī gâıkīu sa báq da", By: "uakci", Score: 0}, "gioca": Word{Word: "gioca", Def: "▯ emits light ▯; ▯ shines with light ▯.", By: "uakci", Score: 0}, "giocia": Word{Word: "giocia", Def: "predicate: ‘dark’; ▯ is dark (without light).", By: "official", Score: 0}, "giodieq": Word{Word: "giodieq", Def: "▯ lights/illuminates ▯.", By: "Ilmen", Score: 0}, "giodoa": Word{Word: "giodoa", Def: "▯ lights/illuminates ▯.", By: "Ilmen", Score: 0}, "giofuaq": Word{Word: "giofuaq", Def: "predicate: ‘photograph’; ▯ is a photograph.", By: "official", Score: 0}, "giogoaq": Word{Word: "giogoaq", Def: "▯ is sufficiently smooth as to shine.", By: "Ilmen", Score: 0}, "giohiaq": Word{Word: "giohiaq", Def: "predicate: ‘dark’; ▯ is dark (poorly illuminated).", By: "official", Score: 0}, "giohoaqbeaq": Word{Word: "giohoaqbeaq", Def: "candle", By: "spreadsheet", Score: 0}, "giokea": Word{Word: "giokea", Def: "predicate: ‘lamp’; ▯ is a lamp.", By: "official", Score: 0}, "giomia": Word{Word: "giomia", Def: "predicate: ‘light’; ▯ is bright.", By: "official", Score: 0}, "gioniaq": Word{Word: "gioniaq", Def: "▯ is a light year.", By: "Hoemai", Score: 0}, "gionueqchuo": Word{Word: "gionueqchuo", Def: "mirror (object)", By: "spreadsheet", Score: -1}, "gionuoqchuo": Word{Word: "gionuoqchuo", Def: "▯ is a mirror.", By: "Ilmen", Score: 0}, "giopeokiu": Word{Word: "giopeokiu", Def: "clear (klina)", By: "spreadsheet", Score: 0}, "giopeoshoe": Word{Word: "giopeoshoe", Def: "transparent", By: "spreadsheet", Score: 0}, "gioria": Word{Word: "gioria", Def: "transparent", By: "spreadsheet", Score: 0}, "gioshuaq": Word{Word: "gioshuaq", Def: "shine ⓥ", By: "spreadsheet", Score: 0}, "gioshuaq nihoe ": Word{Word: "gioshuaq nihoe ", Def: "(B0006) The sun shines", By: "examples", Score: 0}, "gioti": Word{Word: "gioti", Def: "▯ (object/space) is illuminated.", By: "uakci", Score: 0}, "giotica": Word{Word: "giotica", Def: "▯ illuminates object/space ▯.", By: "uakci", Score: 0}, "gioticia": Word{Word: "gioticia", Def: "▯ is unilluminated; ▯ is not lit by anything.", By: "uakci", Score: 0}, "giotie": Word{Word: "giotie", Def: "▯ is opaque.", By: "uakci", Score: 0}, "giotituao": Word{Word: "giotituao", Def: "▯ is ill-lit.", By: "uakci", Score: 0}, "gipa": Word{Word: "gipa", Def: "▯ is made to satisfy property ▯, which is good for them; ▯ satisfies property ▯, which is done by somebody for them.", By: "uakci", Score: 0}, "giq": Word{Word: "giq", Def: "predicate: ‘opposite’; ▯ satisfies with reversed polarity property ▯.", By: "official", Score: 0}, "giq choi": Word{Word: "giq choi", Def: "▯ is dull", By: "seaqtaq", Score: 0}, "giq gi": Word{Word: "giq gi", Def: "predicate: ‘ungood’; ▯ is ungood.", By: "official", Score: 0}, "giq le hoai moaq roaqroaq sa po suq da.": Word{Word: "giq le hoai moaq roaqroaq sa po suq da.", Def: "(A0961) It's unlikely that grandparent still remembers something of yours.", By: "examples", Score: 0}, "giqbuoq": Word{Word: "giqbuoq", Def: "▯ is ironic/sarcastic (the surface-level content is non-serious, and the actual intent or meaning is the opposite.)", By: "lynn", Score: 0}, "giqkuq": Word{Word: "giqkuq", Def: "▯ is sarcastic; ▯ says ▯ sarcastically to ▯", By: "fagri", Score: 0}, "giqluapoq": Word{Word: "giqluapoq", Def: "▯ is an antagonist in story/movie/book/TV show ▯", By: "fagri", Score: 0}, "giqmiai": Word{Word: "giqmiai", Def: "▯ alliterates with ▯.", By: "uakci", Score: 0}, "giqseu": Word{Word: "giqseu", Def: "▯ = −▯. ▯ is the inverse of the number ▯.", By: "Ilmen", Score: 0}, "giqtua": Word{Word: "giqtua", Def: "▯/c does ▯/0 after having done ▯/0 in order to revert ▯/0 to its previous state; ▯, by doing (making happen) ▯, undoes ▯, bringing back ▯.", By: "uakci", Score: 1}, "gira": Word{Word: "gira", Def: "proud", By: "spreadsheet", Score: 0}, "giruaq": Word{Word: "giruaq", Def: "praise", By: "spreadsheet", Score: 0}, "gisieq": Word{Word: "gisieq", Def: "admire", By: "spreadsheet", Score: 0}, "gita": Word{Word: "gita", Def: "predicate: ‘guitar’; ▯ is a guitar.", By: "official", Score: 0}, "gitua": Word{Word: "gitua", Def: "▯ makes good thing ▯ happen.", By: "lynn", Score: 0}, "giu": Word{Word: "giu", Def: "mẻ dóshī sa móa na, na ru tu lủ jẻı hóa sa dópā shỉ roı sa dórē shỉ roı dó shỉ na lǔ to ru sảq hóa to mẻa hóa lú mẻ dóshī hóa ceı bı, sỏq dó lî tỉjūı ja dó to ru dópā to dórē na tu gíu bǔ jẻı dóshī da", By: "uakci", Score: 0}, "giuchoi": Word{Word: "giuchoi", Def: "▯ is a blade.", By: "Ilmen", Score: 0}, "giufa": Word{Word: "giufa", Def: "▯ goes along path ▯ from ▯", By: "seaqtaq", Score: 0}, "giunui": Word{Word: "giunui", Def: "▯ is narrow; ▯ is skinny; ▯ is improportionately short in a direction perpendicular to the main line along which the object is considered.", By: "uakci", Score: 0}, "giusao": Word{Word: "giusao", Def: "▯ is wide; ▯ is fat; ▯ is improportionately long in a direction perpendicular to the main line along which the object is considered.", By: "uakci", Score: 0}, "go": Word{Word: "go", Def: "linking word: ‘2nd.place’; linking word, indicates that the following argument fills the second argument place of the predicate.", By: "official", Score: 0}, "goa": Word{Word: "goa", Def: "area", By: "spreadsheet", Score: 0}, "goabui": Word{Word: "goabui", Def: "▯ is outside of ▯ in space.", By: "lynn", Score: 0}, "goadiu": Word{Word: "goadiu", Def: "▯ is geometry.", By: "Ilmen", Score: 0}, "goafai": Word{Word: "goafai", Def: "predicate: ‘widespread’; ▯ is widespread/common.", By: "official", Score: 0}, "goafuaq": Word{Word: "goafuaq", Def: "▯ is a sculpture / statue / figurine / three-dimensional model or picture.", By: "lynn", Score: 0}, "goai": Word{Word: "goai", Def: "predicate: ‘rub’; ▯ rubs against ▯ (intransitive non-agentive).", By: "official", Score: 0}, "goaica": Word{Word: "goaica", Def: "predicate: ‘rub’; ▯ causes ▯ to rub against ▯.", By: "official", Score: 0}, "goaicheo": Word{Word: "goaicheo", Def: "predicate: ‘rub.against.each.other’; ▯ rub against each other.", By: "official", Score: 0}, "goaigoaq": Word{Word: "goaigoaq", Def: "▯ is slippery", By: "seaqtaq", Score: 0}, "goaiheu": Word{Word: "goaiheu", Def: "▯ is a berry", By: "seaqtaq", Score: 0}, "goainua": Word{Word: "goainua", Def: "\u00a0▯ abrades material ▯ off ▯.", By: "Ilmen", Score: 0}, "goaise": Word{Word: "goaise", Def: "▯ is friction", By: "seaqtaq", Score: 0}, "goaisiaduo": Word{Word: "goaisiaduo", Def: "▯ slips/slides/glides (on ▯).", By: "Ilmen", Score: 0}, "goaitua": Word{Word: "goaitua", Def: "predicate: ‘rub’; ▯ makes ▯ rub against ▯.", By: "official", Score: 0}, "goajao": Word{Word: "goajao", Def: "predicate: ‘far’; ▯ is spatially far away from ▯.", By: "official", Score: 0}, "goajaq": Word{Word: "goajaq", Def: "▯ is voluminous.", By: "Ilmen", Score: 0}, "goamiq": Word{Word: "goamiq", Def: "▯ is ubiquitous/everywhere.", By: "Ilmen", Score: 0}, "goamoa": Word{Word: "goamoa", Def: "≈ [X] Tỏaı dóshī báq gỏa da. Hủaq nủı sıa ráı dóshī da.", By: "Ilmen", Score: 0}, "goane": Word{Word: "goane", Def: "▯ is the volume of ▯.", By: "Ilmen", Score: 0}, "goanie": Word{Word: "goanie", Def: "▯ is inside of ▯ in space.", By: "lynn", Score: 0}, "goanuai": Word{Word: "goanuai", Def: "▯_ is physical money/cash/coins", By: "seaqtaq", Score: 0}, "goanui": Word{Word: "goanui", Def: "▯ is spatially small / takes up little space.", By: "lynn", Score: 0}, "goaq": Word{Word: "goaq", Def: "predicate: ‘smooth’; ▯ is smooth/even.", By: "official", Score: 0}, "goaqchoacha": Word{Word: "goaqchoacha", Def: "▯ is breathy/murmured voice (phonetics)", By: "seaqtaq", Score: 0}, "goaqneoduo": Word{Word: "goaqneoduo", Def: "slip, slide, glide", By: "spreadsheet", Score: 0}, "goasao": Word{Word: "goasao", Def: "▯ is spatially big / takes up lots of space.", By: "lynn", Score: 0}, "goatei": Word{Word: "goatei", Def: "▯ is a spatial / three-dimensional shape; ▯ is the spatial / three-dimensional shape of ▯.", By: "lynn", Score: 0}, "goatuao": Word{Word: "goatuao", Def: "▯ has a small volume.", By: "Ilmen", Score: 0}, "gocha": Word{Word: "gocha", Def: "▯ is an hour.", By: "uakci", Score: 0}, "godeoq": Word{Word: "godeoq", Def: "▯ is a grass of the Hordeum genus.", By: "Ilmen", Score: 0}, "godoi": Word{Word: "godoi", Def: "▯ is a pika.", By: "Hoemai", Score: 0}, "goe": Word{Word: "goe", Def: "predicate: ‘in’; ▯ will happen in ▯ (amount of time) from now.", By: "official", Score: 0}, "goe sa buai daqne": Word{Word: "goe sa buai daqne", Def: "phrase: \"a long time from now\"", By: "official", Score: 0}, "gogo": Word{Word: "gogo", Def: "▯ uses the word \"go\" to skip over the first slot of a sentence when they could just as easily have filled it with a short pronoun", By: "fagri", Score: 0}, "goha": Word{Word: "goha", Def: "the game of Go", By: "uakci", Score: 0}, "goho": Word{Word: "goho", Def: "▯ is in relation ▯ with them/her/him.", By: "Ilmen", Score: 2}, "goi": Word{Word: "goi", Def: "predicate: ‘treat’; ▯ treats/doctors ▯.", By: "official", Score: 0}, "goicha": Word{Word: "goicha", Def: "▯is a (medical) treatment", By: "seaqtaq", Score: 0}, "goichache": Word{Word: "goichache", Def: "▯is a therapist", By: "seaqtaq", Score: 0}, "goichadiu": Word{Word: "goichadiu", Def: "▯is therapy", By: "seaqtaq", Score: 0}, "goiche": Word{Word: "goiche", Def: "▯is a doctor", By: "seaqtaq", Score: 0}, "goidiu": Word{Word: "goidiu", Def: "▯ is medicine (science).", By: "Ilmen", Score: 1}, "goijuq": Word{Word: "goijuq", Def: "▯is a patient", By: "seaqtaq", Score: 0}, "goinao": Word{Word: "goinao", Def: "▯is medicine", By: "seaqtaq", Score: 0}, "goinuo": Word{Word: "goinuo", Def: "▯ is under narcosis; ▯ is in a drug-induced state of unconsciousness.", By: "uakci", Score: 0}, "goisai": Word{Word: "goisai", Def: "▯ is a medicine.", By: "lynn", Score: 0}, "goisoa": Word{Word: "goisoa", Def: "▯is a nurse", By: "seaqtaq", Score: 0}, "goji": Word{Word: "goji", Def: "▯ is in relation ▯ with me.", By: "Ilmen", Score: 2}, "golofe": Word{Word: "golofe", Def: "▯ is golf (game).", By: "Hoemai", Score: 0}, "gong": Word{Word: "gong", Def: "gong", By: "uakci", Score: 0}, "goqfe": Word{Word: "goqfe", Def: "▯ is golf (game).", By: "Hoemai", Score: 0}, "gorila": Word{Word: "gorila", Def: "gorilla", By: "spreadsheet", Score: 0}, "gorilai": Word{Word: "gorilai", Def: "▯ is a gorilla.", By: "Ilmen", Score: 0}, "goso": Word{Word: "goso", Def: "▯ is a member of genus Gallus (the junglefowls and the chicken).", By: "Hoemai", Score: 0}, "gosuq": Word{Word: "gosuq", Def: "▯ is in relation ▯ with you.", By: "Ilmen", Score: 2}, "gu": Word{Word: "gu", Def: "= [X] Sa dógū ru sa dósāq bủ dỏgū pa mẻa dóshī.", By: "Ilmen", Score: -2}, "gu pa lui cheo ruao da.": Word{Word: "gu pa lui cheo ruao da.", Def: "(A0361) The two have forgiven each other.", By: "examples", Score: 0}, "gua": Word{Word: "gua", Def: "predicate: ‘country’; ▯ is a country.", By: "official", Score: 0}, "guabua": Word{Word: "guabua", Def: "▯ inhabits country ▯; ▯ is from country ▯; ▯ is a ▯-er; ‘▯ comes from ▯.’", By: "uakci", Score: 0}, "guache": Word{Word: "guache", Def: "▯ is a monarch/president/head of the state.", By: "uakci", Score: 0}, "guai": Word{Word: "guai", Def: "tảo dóshī dógū, na ru dógū pa lủ sa dó báq bı cả tâo dó dógū na kûaı sẻa dó da", By: "uakci", Score: 0}, "guai jaq baq mori da. jaq daqfai mao hao da.": Word{Word: "guai jaq baq mori da. jaq daqfai mao hao da.", Def: "(A0444) Ants work very hard. Very frequently as well.", By: "examples", Score: 0}, "guai ji chufaq da.": Word{Word: "guai ji chufaq da.", Def: "(A0085) I'm working.", By: "examples", Score: 0}, "guaiciu": Word{Word: "guaiciu", Def: "▯ sweats.", By: "Ilmen", Score: -1}, "guaigaq": Word{Word: "guaigaq", Def: "▯ is a co-worker of ▯", By: "seaqtaq", Score: 0}, "guaihua": Word{Word: "guaihua", Def: "muscle", By: "spreadsheet", Score: 0}, "guaimuaq": Word{Word: "guaimuaq", Def: "▯ has died due to Karōshi/Arbeitstod; ▯ has died from excessive work.", By: "uakci", Score: 0}, "guainao": Word{Word: "guainao", Def: "sweat ()", By: "spreadsheet", Score: 0}, "guainaociu": Word{Word: "guainaociu", Def: "▯ sweats.", By: "Ilmen", Score: -1}, "guairiaq": Word{Word: "guairiaq", Def: "predicate: ‘workplace’; ▯ is a work place / office.", By: "official", Score: 0}, "guairieq": Word{Word: "guairieq", Def: "procrastinate", By: "spreadsheet", Score: 0}, "guairieqshao": Word{Word: "guairieqshao", Def: "lazy", By: "spreadsheet", Score: 0}, "guaisheibu": Word{Word: "guaisheibu", Def: "(fork of #0g6fatxeB) ▯ is a slave", By: "seaqtaq", Score: 0}, "guaitoai": Word{Word: "guaitoai", Def: "▯ is Gua\\spi.", By: "uakci", Score: 0}, "guao": Word{Word: "guao", Def: "predicate: ‘furcation’; ▯ is a furcation/fork/intersection/junction.", By: "official", Score: 0}, "guaokopi": Word{Word: "guaokopi", Def: "▯ is a fork (modified copy) of ▯.", By: "Ilmen", Score: 0}, "guapaq": Word{Word: "guapaq", Def: "region", By: "spreadsheet", Score: 0}, "guaq": Word{Word: "guaq", Def: "ground", By: "spreadsheet", Score: 0}, "guaqbeodiu": Word{Word: "guaqbeodiu", Def: "▯ is geology.", By: "Ilmen", Score: 0}, "guaqbeotua": Word{Word: "guaqbeotua", Def: "▯ terraforms ▯\u00a0", By: "seaqtaq", Score: 0}, "guaqbo": Word{Word: "guaqbo", Def: "▯ has territory ▯.", By: "Ilmen", Score: 0}, "guaqdiu": Word{Word: "guaqdiu", Def: "▯ is geography.", By: "Ilmen", Score: 0}, "guaqdiuche": Word{Word: "guaqdiuche", Def: "▯ is a geographer.", By: "Ilmen", Score: 0}, "guaqdīu": Word{Word: "guaqdīu", Def: "▯ is topography.", By: "lynn", Score: 1}, "guaqfuaq": Word{Word: "guaqfuaq", Def: "map", By: "uakci", Score: 0}, "guaqguq": Word{Word: "guaqguq", Def: "cave", By: "spreadsheet", Score: 0}, "guaqguqniefa": Word{Word: "guaqguqniefa", Def: "▯ is a chimpanzee.", By: "Ilmen", Score: 0}, "guaqhuai": Word{Word: "guaqhuai", Def: "▯ digs ▯ in ▯.", By: "Ilmen", Score: 0}, "guaqkioq": Word{Word: "guaqkioq", Def: "planet", By: "spreadsheet", Score: 0}, "guaqkioqpiu": Word{Word: "guaqkioqpiu", Def: "▯ is the crust of a planet.", By: "Ilmen", Score: 0}, "guaqkuoq": Word{Word: "guaqkuoq", Def: "stone", By: "spreadsheet", Score: -1}, "guaqlai": Word{Word: "guaqlai", Def: "map", By: "uakci", Score: 0}, "guaqleoq(tao)kuai": Word{Word: "guaqleoq(tao)kuai", Def: "▯ is territorial", By: "seaqtaq", Score: 0}, "guaqmiq": Word{Word: "guaqmiq", Def: "continent", By: "spreadsheet", Score: -1}, "guaqmuoq": Word{Word: "guaqmuoq", Def: "soil", By: "spreadsheet", Score: 0}, "guaqnao": Word{Word: "guaqnao", Def: "predicate: ‘lake’; ▯ is a lake.", By: "official", Score: 0}, "guaqpuao": Word{Word: "guaqpuao", Def: "▯ is a sea of clouds.", By: "Ilmen", Score: 0}, "guaqrioq": Word{Word: "guaqrioq", Def: "▯ is a (terrestrial) biome", By: "seaqtaq", Score: 0}, "guaqsai": Word{Word: "guaqsai", Def: "▯ is soil.", By: "Ilmen", Score: 1}, "guaqseoqgiu": Word{Word: "guaqseoqgiu", Def: "horizon", By: "spreadsheet", Score: 0}, "guaqteidiu": Word{Word: "guaqteidiu", Def: "▯ is geomorphology.", By: "Ilmen", Score: 0}, "guaqtoq": Word{Word: "guaqtoq", Def: "tectonic plate", By: "spreadsheet", Score: 0}, "guarie": Word{Word: "guarie", Def: "international", By: "spreadsheet", Score: 0}, "guatemala": Word{Word: "guatemala", Def: "▯ pertains to the culture of Guatemala – Republic of Guatemala.", By: "countries", Score: 0}, "guatemalagua": Word{Word: "guatemalagua", Def: "▯ is the country Guatemala – Republic of Guatemala.", By: "countries", Score: 0}, "guatemalatoaq": Word{Word: "guatemalatoaq", Def: "▯ is (one of) the language(s) spoken in Guatemala – Republic of Guatemala.", By: "countries", Score: 0}, "gubutu": Word{Word: "gubutu", Def: "▯ is zero or one of ▯ and ▯.", By: "uakci", Score: 0}, "gucha": Word{Word: "gucha", Def: "▯ satisfy property ▯ two at a time.", By: "Hoemai", Score: 0}, "guchio": Word{Word: "guchio", Def: "predicate: ‘twice’; ▯ happens twice / two times.", By: "official", Score: 0}, "guco": Word{Word: "guco", Def: "▯ is neither, either, or both of ▯ and ▯.", By: "uakci", Score: 0}, "guda": Word{Word: "guda", Def: "▯ is devoted to satisfying the property ▯.", By: "Ilmen", Score: 1}, "gue": Word{Word: "gue", Def: "predicate: ‘curved’; ▯ is curved/bent.", By: "official", Score: 0}, "guedai": Word{Word: "guedai", Def: "flexible", By: "spreadsheet", Score: 0}, "guegie": Word{Word: "guegie", Def: "tentacle", By: "spreadsheet", Score: 0}, "guekai": Word{Word: "guekai", Def: "▯ writes ▯ on ▯ in cursive", By: "seaqtaq", Score: 0}, "guekuai": Word{Word: "guekuai", Def: "▯ is malleable", By: "seaqtaq", Score: 0}, "guele": Word{Word: "guele", Def: "▯ is a gland.", By: "Hoemai", Score: 0}, "guelo": Word{Word: "guelo", Def: "▯ is a wolverine.", By: "Ilmen", Score: 0}, "guene": Word{Word: "guene", Def: "(fork of #cP2VNUvV8) ▯ is the curvature of ▯", By: "seaqtaq", Score: 0}, "guero": Word{Word: "guero", Def: "▯ belongs to the Ferae taxonomic clade; ▯ is a pangolin or a carnivoran.", By: "Ilmen", Score: 0}, "guetei": Word{Word: "guetei", Def: "▯ is a bend/curve", By: "seaqtaq", Score: 0}, "guetu": Word{Word: "guetu", Def: "▯ is a member of genus Betula (the birch trees).", By: "Hoemai", Score: 0}, "gufu": Word{Word: "gufu", Def: "▯ is a grandchild of ▯’s.", By: "uakci", Score: 0}, "guhuaq": Word{Word: "guhuaq", Def: "▯ is more related to ▯ than to ▯ by binary property ▯.", By: "lynn", Score: 0}, "gui": Word{Word: "gui", Def: "predicate: ‘grain’; ▯ is grain/cereal.", By: "official", Score: 0}, "guiche": Word{Word: "guiche", Def: "▯ is a serialist", By: "seaqtaq", Score: 0}, "guidiu": Word{Word: "guidiu", Def: "▯ is serial science", By: "seaqtaq", Score: 0}, "guine": Word{Word: "guine", Def: "▯ is the length of ▯ in units ▯", By: "Xylochoron", Score: 0}, "guipuo": Word{Word: "guipuo", Def: "predicate: ‘flour’; ▯ is flour.", By: "official", Score: 0}, "guitoa": Word{Word: "guitoa", Def: "serial (e.g., dủq gủai)", By: "uakci", Score: 1}, "gujeo": Word{Word: "gujeo", Def: "▯ and ▯ satisfy relation ▯.", By: "uakci", Score: 0}, "gujieq": Word{Word: "gujieq", Def: "▯ is a finite straight line.", By: "Ilmen", Score: 0}, "gujue": Word{Word: "gujue", Def: "▯ is january", By: "Xeizzen", Score: -1}, "gujue pa soq doq jue da.": Word{Word: "gujue pa soq doq jue da.", Def: "(A0142) February is the shortest month.", By: "examples", Score: 0}, "guka": Word{Word: "guka", Def: "erode, abrade", By: "spreadsheet", Score: -1}, "guko": Word{Word: "guko", Def: "predicate: ‘second’; ▯ is second among ▯.", By: "official", Score: 0}, "gulaqtei": Word{Word: "gulaqtei", Def: "▯ is the second tone (rising).", By: "lynn", Score: 0}, "guliaq": Word{Word: "guliaq", Def: "predicate: ‘pair’; ▯ is a pair/couple.", By: "official", Score: 0}, "gulo": Word{Word: "gulo", Def: "▯ is a wolverine.", By: "Ilmen", Score: -1}, "guluaqmu": Word{Word: "guluaqmu", Def: "▯ is a two-player game.", By: "lynn", Score: 0}, "gulueq": Word{Word: "gulueq", Def: "▯ serves ▯ by being in relation ▯ with them.", By: "uakci", Score: 0}, "gumie": Word{Word: "gumie", Def: "▯ is an amphibian.", By: "Ilmen", Score: 0}, "gumiedaosai": Word{Word: "gumiedaosai", Def: "▯ is DNA.", By: "Ilmen", Score: 0}, "gunu": Word{Word: "gunu", Def: "▯ is a gnu.", By: "Hoemai", Score: 0}, "guo": Word{Word: "guo", Def: "sa dó bı mẻ dóshī dó, na ru tu lú mẻa hóa dó pa lỉ sa ráı tu lú jủı hóa měa hóa dó na ja ráı pa rảotī da", By: "uakci", Score: 0}, "guobo": Word{Word: "guobo", Def: "▯ is a pattern.", By: "Ilmen", Score: 0}, "guodui": Word{Word: "guodui", Def: "▯ repeats too many times.", By: "uakci", Score: 0}, "guofia": Word{Word: "guofia", Def: "▯ is the previous occurrence of ▯.", By: "Ilmen", Score: 0}, "guojuaq": Word{Word: "guojuaq", Def: "▯ happens *again*.", By: "uakci", Score: 0}, "guokao": Word{Word: "guokao", Def: "▯ is a statistic of satisfying property ▯", By: "seaqtaq", Score: 0}, "guoko": Word{Word: "guoko", Def: "▯ is the ▯-th repetition/instance of ▯", By: "Ilmen", Score: 0}, "guoq": Word{Word: "guoq", Def: "predicate: ‘anus’; ▯ is an anus.", By: "official", Score: 0}, "guoqpoq": Word{Word: "guoqpoq", Def: "▯ is an asshole\u00a0", By: "seaqtaq", Score: 0}, "guoqseaq": Word{Word: "guoqseaq", Def: "▯ has anal sex with ▯", By: "seaqtaq", Score: 0}, "guosa": Word{Word: "guosa", Def: "predicate: ‘sometimes’; ▯ happens sometimes.", By: "official", Score: 0}, "guosia": Word{Word: "guosia", Def: "predicate: ‘never’; ▯ happens never.", By: "official", Score: 0}, "guoso": Word{Word: "guoso", Def: "▯ is cattle (Bos taxonomic genus).", By: "Ilmen", Score: 1}, "guotei": Word{Word: "guotei", Def: "▯ is a pattern.", By: "Ilmen", Score: 0}, "gupaq": Word{Word: "gupaq", Def: "(fork of official) predicate: ‘half’; ▯ is a half of ▯.", By: "seaqtaq", Score: 1}, "gupaqcoaqluko": Word{Word: "gupaqcoaqluko", Def: "▯ is a wolf-dog.", By: "Ilmen", Score: 0}, "gupaqhuaq": Word{Word: "gupaqhuaq", Def: "most (more than half)", By: "spreadsheet", Score: 0}, "gupaqjeo": Word{Word: "gupaqjeo", Def: "half-true", By: "spreadsheet", Score: 0}, "gupu": Word{Word: "gupu", Def: "▯ rots/decays.", By: "Ilmen", Score: 0}, "guq": Word{Word: "guq", Def: "= mu #gảo", By: "uakci", Score: 0}, "guqcoe": Word{Word: "guqcoe", Def: "hang (dandu)", By: "spreadsheet", Score: 1}, "guqdi": Word{Word: "guqdi", Def: "industry", By: "spreadsheet", Score: 0}, "guqduo": Word{Word: "guqduo", Def: "predicate: ‘move.downwards’; ▯ moves downwards.", By: "official", Score: 0}, "guqfeo": Word{Word: "guqfeo", Def: "(fork of #crFstUdes) ▯ is the south direction", By: "seaqtaq", Score: 0}, "guqguaq": Word{Word: "guqguaq", Def: "cave", By: "spreadsheet", Score: 0}, "guqjeoq": Word{Word: "guqjeoq", Def: "predicate: ‘bowl’; ▯ is a bowl (shape)", By: "Xylochoron", Score: 0}, "guqpaq": Word{Word: "guqpaq", Def: "predicate: ‘bottom’; ▯ is the bottom of ▯.", By: "official", Score: 0}, "guqsheaq": Word{Word: "guqsheaq", Def: "▯ understands ▯", By: "seaqtaq", Score: 0}, "guqta": Word{Word: "guqta", Def: "attack", By: "spreadsheet", Score: -1}, "guqtieq": Word{Word: "guqtieq", Def: "tunnel", By: "spreadsheet", Score: 0}, "gure": Word{Word: "gure", Def: "▯ is both or none of ▯ and ▯.", By: "uakci", Score: 0}, "gureq": Word{Word: "gureq", Def: "▯ is a kidney.", By: "Hoemai", Score: 0}, "guriopie": Word{Word: "guriopie", Def: "▯ is a lungfish (Dipnoi taxonomic subclass).", By: "Ilmen", Score: 0}, "guroaq": Word{Word: "guroaq", Def: "▯ is a grandparent of ▯’s.", By: "uakci", Score: 0}, "gusa": Word{Word: "gusa", Def: "▯ is at least one of ▯ and ▯.", By: "uakci", Score: 0}, "gushe": Word{Word: "gushe", Def: "▯ allows ▯ to happen given ▯; ▯ is what is needed to infer ▯ from ▯.", By: "uakci", Score: 0}, "gusheaq": Word{Word: "gusheaq", Def: "▯ stands bipedally / on two feet.", By: "Ilmen", Score: 0}, "gusheaqhe": Word{Word: "gusheaqhe", Def: "▯ is a bipede.", By: "Ilmen", Score: 0}, "gushi": Word{Word: "gushi", Def: "▯ is either ▯ or ▯, but not both.", By: "uakci", Score: 0}, "gusho": Word{Word: "gusho", Def: "split in half (vi)", By: "spreadsheet", Score: 0}, "gushoai": Word{Word: "gushoai", Def: "predicate: ‘fly’; ▯ is a fly.", By: "official", Score: 0}, "gusia": Word{Word: "gusia", Def: "▯ is neither of ▯ or ▯.", By: "uakci", Score: 0}, "gusieme": Word{Word: "gusieme", Def: "▯ is an ordered pair; ▯ is the ordered pair ⟨▯, ▯⟩.", By: "Ilmen", Score: 0}, "gusioq": Word{Word: "gusioq", Def: "predicate: ‘bicycle’; ▯ is a bicycle/bike.", By: "official", Score: 0}, "gusioqfa": Word{Word: "gusioqfa", Def: "▯ goes [FA] by bike.", By: "uakci", Score: 0}, "guteu": Word{Word: "guteu", Def: "▯ = ▯²; ▯ = ▯^2.", By: "uakci", Score: 0}, "gutu": Word{Word: "gutu", Def: "▯ is both of ▯ and ▯.", By: "uakci", Score: 0}, "gutua": Word{Word: "gutua", Def: "split in half (vt)", By: "spreadsheet", Score: 0}, "ha": Word{Word: "ha", Def: "predicate: ‘one’; ▯ is one/you/they (generic impersonal pronoun).", By: "official", Score: 0}, "ha ha, ma jeo hoq moq": Word{Word: "ha ha, ma jeo hoq moq", Def: "(A0420) Ha ha, is that true?", By: "examples", Score: 0}, "ha, bu pu miu jí jîa ni da.": Word{Word: "ha, bu pu miu jí jîa ni da.", Def: "(A0354) Heh, I didn't think this would happen.", By: "examples", Score: 0}, "habaca": Word{Word: "habaca", Def: "▯ pertains to the culture of Croatia – Republic of Croatia.", By: "countries", Score: 0}, "habacagua": Word{Word: "habacagua", Def: "▯ is the country Croatia – Republic of Croatia.", By: "countries", Score: 0}, "habacatoaq": Word{Word: "habacatoaq", Def: "▯ is (one of) the language(s) spoken in Croatia – Republic of Croatia.", By: "countries", Score: 0}, "habeti": Word{Word: "habeti", Def: "▯ is an advertisement/ad/commercial", By: "seaqtaq", Score: 0}, "hacaki": Word{Word: "hacaki", Def: "▯ pertains to the culture of Artsakh → Artsakh.", By: "countries", Score: 0}, "hacakigua": Word{Word: "hacakigua", Def: "▯ is the country Artsakh → Artsakh.", By: "countries", Score: 0}, "hacakitoaq": Word{Word: "hacakitoaq", Def: "▯ is (one of) the language(s) spoken in Artsakh → Artsakh.", By: "countries", Score: 0}, "hachao": Word{Word: "hachao", Def: "laugh (HATAO) (HAfrati)", By: "spreadsheet", Score: 0}, "hachu": Word{Word: "hachu", Def: "▯ is being depleted.", By: "Ilmen", Score: -1}, "hacua": Word{Word: "hacua", Def: "laugh (HATAO) (HAfrati)", By: "spreadsheet", Score: 0}, "hafagaq": Word{Word: "hafagaq", Def: "▯ pertains to the culture of Afghanistan – Islamic Republic of Afghanistan.", By: "countries", Score: 0}, "hafagaqgua": Word{Word: "hafagaqgua", Def: "▯ is the country Afghanistan – Islamic Republic of Afghanistan.", By: "countries", Score: 0}, "hafagaqtoaq": Word{Word: "hafagaqtoaq", Def: "▯ is (one of) the language(s) spoken in Afghanistan – Islamic Republic of Afghanistan.", By: "countries", Score: 0}, "hageqtina": Word{Word: "hageqtina", Def: "▯ pertains to the culture of Argentina – Argentine Republic[g].", By: "countries", Score: 0}, "hageqtinagua": Word{Word: "hageqtinagua", Def: "▯ is the country Argentina – Argentine Republic[g].", By: "countries", Score: 0}, "hageqtinatoaq": Word{Word: "hageqtinatoaq", Def: "▯ is (one of) the language(s) spoken in Argentina – Argentine Republic[g].", By: "countries", Score: 0}, "haha": Word{Word: "haha", Def: "I am laughing.", By: "Ilmen", Score: 0}, "hai": Word{Word: "hai", Def: "predicate: ‘already’; ▯ is already the case; ▯ already satisfies property ▯.", By: "official", Score: 0}, "hai biaq loq nao da.": Word{Word: "hai biaq loq nao da.", Def: "(A0294) The water is already hot enough.", By: "examples", Score: 0}, "hai lui kaqgai ji sa lu siu hoa ni da.": Word{Word: "hai lui kaqgai ji sa lu siu hoa ni da.", Def: "(A0211) I've already seen something like that.", By: "examples", Score: 0}, "haigiq": Word{Word: "haigiq", Def: "only then (later than expected)", By: "spreadsheet", Score: 0}, "haigiqkie": Word{Word: "haigiqkie", Def: "▯ thanks ▯ in advance for ▯; ▯ thanks ▯ for will doing ▯.", By: "uakci", Score: 0}, "haiti": Word{Word: "haiti", Def: "▯ pertains to the culture of Haiti – Republic of Haiti.", By: "countries", Score: 0}, "haitigua": Word{Word: "haitigua", Def: "▯ is the country Haiti – Republic of Haiti.", By: "countries", Score: 0}, "haititoaq": Word{Word: "haititoaq", Def: "▯ is (one of) the language(s) spoken in Haiti – Republic of Haiti.", By: "countries", Score: 0}, "haka": Word{Word: "haka", Def: "root", By: "spreadsheet", Score: 0}, "hake": Word{Word: "hake", Def: "(fork of #NS3RX4TZH) ▯ is the result of applying the Ackermann function on arguments (▯, ▯, ▯); ▯ = Ackermann(▯, ▯, ▯).", By: "Xylochoron", Score: 0}, "hakecuaq": Word{Word: "hakecuaq", Def: "▯ is the result of applying the Ackermann function on arguments (▯, ▯, ▯); ▯ = Ackermann(▯, ▯, ▯).", By: "uakci", Score: 0}, "hakepetecuaq": Word{Word: "hakepetecuaq", Def: "▯ is the result of applying the Ackermann–Péter function to arguments ▯ and ▯; ▯ = ack(▯, ▯).", By: "uakci", Score: 0}, "hakileopuebeq": Word{Word: "hakileopuebeq", Def: "▯ is ▯'s Achilles' heel.", By: "Ilmen", Score: 0}, "hakileopuebeqjeo": Word{Word: "hakileopuebeqjeo", Def: "▯ has ▯ as their ‘Achilles’ heel’; ▯ has tragic weak spot ▯.", By: "uakci", Score: 0}, "hakileupuebeq": Word{Word: "hakileupuebeq", Def: "▯ is ▯'s Achilles' heel.", By: "Ilmen", Score: 0}, "hako": Word{Word: "hako", Def: "bear / cribe", By: "spreadsheet", Score: 0}, "hamenia": Word{Word: "hamenia", Def: "▯ pertains to the culture of Armenia – Republic of Armenia.", By: "countries", Score: 0}, "hameniagua": Word{Word: "hameniagua", Def: "▯ is the country Armenia – Republic of Armenia.", By: "countries", Score: 0}, "hameniatoaq": Word{Word: "hameniatoaq", Def: "▯ is (one of) the language(s) spoken in Armenia – Republic of Armenia.", By: "countries", Score: 0}, "hanoi": Word{Word: "hanoi", Def: "I feel pain.", By: "Ilmen", Score: 0}, "hao": Word{Word: "hao", Def: "hỏq hâo da", By: "uakci", Score: 0}, "hao ba.": Word{Word: "hao ba.", Def: "elliptical request/command/suggestion", By: "uakci", Score: 0}, "haogaq": Word{Word: "haogaq", Def: "▯ keeps ▯ company; ▯ stays with ▯ so they will not be lonely", By: "fagri", Score: 0}, "haohao": Word{Word: "haohao", Def: "thingamajig", By: "spreadsheet", Score: -1}, "haorai": Word{Word: "haorai", Def: "thingamajig", By: "spreadsheet", Score: 0}, "haosia": Word{Word: "haosia", Def: "▯ sits around and does nothing ", By: "seaqtaq", Score: 1}, "hapa": Word{Word: "hapa", Def: "One/you/they (generic impersonal pronoun) satisfies property ▯.", By: "Ilmen", Score: 0}, "hapa kuq": Word{Word: "hapa kuq", Def: "‘what they say’; ‘what is said’", By: "uakci", Score: 0}, "hapaka": Word{Word: "hapaka", Def: "▯ is an alpaca (Vicugna pacos).", By: "Hoemai", Score: 0}, "hapi": Word{Word: "hapi", Def: "bee, bifce", By: "spreadsheet", Score: 0}, "hapibue": Word{Word: "hapibue", Def: "▯ is a hive.", By: "Ilmen", Score: 0}, "hapiduao": Word{Word: "hapiduao", Def: "honey", By: "spreadsheet", Score: -1}, "hapipuebea": Word{Word: "hapipuebea", Def: "▯ is bee’s knees; ▯ is among the 12 knees that bee ▯ has.", By: "uakci", Score: 0}, "hapisai": Word{Word: "hapisai", Def: "▯ is beeswax.", By: "lynn", Score: 0}, "hapu": Word{Word: "hapu", Def: "▯ is an application", By: "seaqtaq", Score: 0}, "haq": Word{Word: "haq", Def: "= #tıao #chủq", By: "uakci", Score: 0}, "haqbai": Word{Word: "haqbai", Def: "predicate: ‘prepare.food’; ▯ prepares food / cooks.", By: "official", Score: 0}, "haqbaiche": Word{Word: "haqbaiche", Def: "cook, person (cook CHE)", By: "spreadsheet", Score: 0}, "haqbaiji": Word{Word: "haqbaiji", Def: "Satisfying property ▯ is a way of preparing food ▯", By: "fagri", Score: 0}, "haqbaikua": Word{Word: "haqbaikua", Def: "▯ is a kitchen.", By: "lynn", Score: 0}, "haqbaise": Word{Word: "haqbaise", Def: "predicate: ‘meal’; ▯ is a meal; ▯ is prepared food.", By: "official", Score: 0}, "haqbi": Word{Word: "haqbi", Def: "meta-predicate: ▯ is that which obviously fits into the surrounding description; jẻı ▯´ lú [containing sentence with haqbī replaced with hoa].", By: "uakci", Score: 0}, "haqboe": Word{Word: "haqboe", Def: "▯ is a menu in a restaurant\u00a0", By: "seaqtaq", Score: 0}, "haqbuo": Word{Word: "haqbuo", Def: "ripe", By: "spreadsheet", Score: 0}, "haqchai": Word{Word: "haqchai", Def: "▯ is soup.", By: "Ilmen", Score: 0}, "haqche": Word{Word: "haqche", Def: "cook, person (cook CHE)", By: "spreadsheet", Score: 0}, "haqciaruoi": Word{Word: "haqciaruoi", Def: "▯ is scrawny.", By: "Ilmen", Score: 0}, "haqciu": Word{Word: "haqciu", Def: "▯ vomits up ▯.", By: "lynn", Score: 0}, "haqdoa": Word{Word: "haqdoa", Def: "predicate: ‘feed’; ▯ feeds ▯ to ▯.", By: "official", Score: 0}, "haqdora": Word{Word: "haqdora", Def: "▯ pertains to the culture of Andorra – Principality of Andorra.", By: "countries", Score: 0}, "haqdoragua": Word{Word: "haqdoragua", Def: "▯ is the country Andorra – Principality of Andorra.", By: "countries", Score: 0}, "haqdoratoaq": Word{Word: "haqdoratoaq", Def: "▯ is (one of) the language(s) spoken in Andorra – Principality of Andorra.", By: "countries", Score: 0}, "haqfuq": Word{Word: "haqfuq", Def: "▯ is an apron", By: "seaqtaq", Score: 0}, "haqgiq": Word{Word: "haqgiq", Def: "toxic, poison", By: "spreadsheet", Score: 0}, "haqgola": Word{Word: "haqgola", Def: "▯ pertains to the culture of Angola – Republic of Angola.", By: "countries", Score: 0}, "haqgolagua": Word{Word: "haqgolagua", Def: "▯ is the country Angola – Republic of Angola.", By: "countries", Score: 0}, "haqgolatoaq": Word{Word: "haqgolatoaq", Def: "▯ is (one of) the language(s) spoken in Angola – Republic of Angola.", By: "countries", Score: 0}, "haqhua": Word{Word: "haqhua", Def: "predicate: ‘stomach’; ▯ is a stomach.", By: "official", Score: 0}, "haqhuachoa": Word{Word: "haqhuachoa", Def: "ventriloquist", By: "spreadsheet", Score: 0}, "haqhuapue": Word{Word: "haqhuapue", Def: "▯ is a gastropod.", By: "Ilmen", Score: 0}, "haqjuq": Word{Word: "haqjuq", Def: "▯ feeds itself/himself/herself/themselves; ▯eats/drink; ▯ eats/drinks/feeds on ▯.", By: "Ilmen", Score: 0}, "haqjuqbiu": Word{Word: "haqjuqbiu", Def: "▯ is a digestive tract / alimentary canal (including the intestine).", By: "Ilmen", Score: 0}, "haqka": Word{Word: "haqka", Def: "nervous", By: "spreadsheet", Score: -1}, "haqloqbeo": Word{Word: "haqloqbeo", Def: "Raw food ▯ cooks, yielding cooked food ▯. (Refers to food prepared by heating).", By: "uakci", Score: 0}, "haqpao": Word{Word: "haqpao", Def: "▯ agriculturally cultivates/raises plants/animals ▯.", By: "Ilmen", Score: 0}, "haqpaodiu": Word{Word: "haqpaodiu", Def: "▯ is agriculture.", By: "Ilmen", Score: 0}, "haqpaoriaq": Word{Word: "haqpaoriaq", Def: "▯ is a farm.", By: "Ilmen", Score: 0}, "haqpaq": Word{Word: "haqpaq", Def: "▯ is an ingredient", By: "seaqtaq", Score: 0}, "haqra": Word{Word: "haqra", Def: "▯, but not ▯, satisfies property ▯.", By: "uakci", Score: 0}, "haqriai": Word{Word: "haqriai", Def: "predicate: ‘plate’; ▯ is a plate/dish.", By: "official", Score: 0}, "haqshe": Word{Word: "haqshe", Def: "▯ is a donkey/ass (Equus africanus asinus).", By: "Ilmen", Score: 0}, "haqshu": Word{Word: "haqshu", Def: "▯ is a donkey/ass (Equus africanus asinus).", By: "Hoemai", Score: 0}, "haqsue": Word{Word: "haqsue", Def: "▯ orders/requests dish ▯\u00a0", By: "seaqtaq", Score: 0}, "haqtiao": Word{Word: "haqtiao", Def: "▯ is food for animal ▯; ▯ is nutritious to ▯.", By: "Ilmen", Score: 0}, "haqtiguaroibabuda": Word{Word: "haqtiguaroibabuda", Def: "▯ pertains to the culture of Antigua and Barbuda.", By: "countries", Score: 0}, "haqtiguaroibabudagua": Word{Word: "haqtiguaroibabudagua", Def: "▯ is the country Antigua and Barbuda.", By: "countries", Score: 0}, "haqtiguaroibabudatoaq": Word{Word: "haqtiguaroibabudatoaq", Def: "▯ is (one of) the language(s) spoken in Antigua and Barbuda.", By: "countries", Score: 0}, "haqtoai": Word{Word: "haqtoai", Def: "▯ is a nutrient; ▯ is a nutrient for ▯.", By: "Ilmen", Score: 0}, "haqtu": Word{Word: "haqtu", Def: "▯ is a spirit, soul or ghost.", By: "Ilmen", Score: 0}, "hara": Word{Word: "hara", Def: "scorpion", By: "spreadsheet", Score: 0}, "harane": Word{Word: "harane", Def: "predicate: ‘spider’; ▯ is a spider.", By: "official", Score: 0}, "haranekoai": Word{Word: "haranekoai", Def: "▯ is a spiderweb.", By: "Hoemai", Score: 0}, "haranesuhu": Word{Word: "haranesuhu", Def: "▯ does whatever a spider pig does.", By: "Ilmen", Score: 0}, "haranika": Word{Word: "haranika", Def: "▯ is a member of genus Arnica.", By: "Hoemai", Score: 0}, "harugumeq": Word{Word: "harugumeq", Def: "argument, sumti (X satisfies the Y-th slot of predicate Z)", By: "spreadsheet", Score: 0}, "hasebai": Word{Word: "hasebai", Def: "▯ pertains to the culture of Azerbaijan – Republic of Azerbaijan.", By: "countries", Score: 0}, "hasebaigua": Word{Word: "hasebaigua", Def: "▯ is the country Azerbaijan – Republic of Azerbaijan.", By: "countries", Score: 0}, "hasebaitoaq": Word{Word: "hasebaitoaq", Def: "▯ is (one of) the language(s) spoken in Azerbaijan – Republic of Azerbaijan.", By: "countries", Score: 0}, "hashidao": Word{Word: "hashidao", Def: "▯ is a hash-tag.", By: "uakci", Score: 1}, "hashu": Word{Word: "hashu", Def: "▯ sneezes.", By: "Ilmen", Score: 0}, "hasia": Word{Word: "hasia", Def: "predicate: ‘Asia’; ▯ is Asia.", By: "official", Score: 0}, "hasiq": Word{Word: "hasiq", Def: "donkey", By: "spreadsheet", Score: 1}, "hate": Word{Word: "hate", Def: "liver", By: "spreadsheet", Score: 0}, "hatomo": Word{Word: "hatomo", Def: "atome", By: "spreadsheet", Score: 0}, "hatomochu": Word{Word: "hatomochu", Def: "nucleus (of an atom)", By: "spreadsheet", Score: 0}, "hatomochuraq": Word{Word: "hatomochuraq", Def: "nuclear", By: "spreadsheet", Score: 0}, "he": Word{Word: "he", Def: "▯ is the case as a general truth/aphorism, regardless of time and place.", By: "lynn", Score: 0}, "he ca hoegio shaisia na neaqguaq da.": Word{Word: "he ca hoegio shaisia na neaqguaq da.", Def: "(A0326) Sunshine all the time makes a desert.", By: "examples", Score: 0}, "he ca roq toe ha sa kepa na ha da.": Word{Word: "he ca roq toe ha sa kepa na ha da.", Def: "(A0588) Cutting onions causes weeping.", By: "examples", Score: 0}, "he ca sho chuqkuai chuq da.": Word{Word: "he ca sho chuqkuai chuq da.", Def: "(A0324) Appetite comes with eating.", By: "examples", Score: 0}, "he cho ho baq chai da.": Word{Word: "he cho ho baq chai da.", Def: "(A0390) He likes tea.", By: "examples", Score: 0}, "he huilie ▯bia": Word{Word: "he huilie ▯bia", Def: "▯ has/suffers from ▯ (illness/sickness)", By: "seaqtaq", Score: 0}, "he joafao rao tu miochaq ru tu loachaq da.": Word{Word: "he joafao rao tu miochaq ru tu loachaq da.", Def: "(A0185) It is the weekend on every Saturday and Sunday.", By: "examples", Score: 0}, "he juoi ho ji li moijoe da. ": Word{Word: "he juoi ho ji li moijoe da. ", Def: "phrase: They describe me as smart.", By: "official", Score: 1}, "he luereo baq maoja da.": Word{Word: "he luereo baq maoja da.", Def: "(A0179) Bananas are yellow.", By: "examples", Score: 0}, "he paq go baq muq sa fe chei da.": Word{Word: "he paq go baq muq sa fe chei da.", Def: "(A0366) A hand has five fingers.", By: "examples", Score: 0}, "he riu duq fa ji chiejio rao baq roaijue da.": Word{Word: "he riu duq fa ji chiejio rao baq roaijue da.", Def: "(A0154) I generally go back to school in August.", By: "examples", Score: 0}, "he teqguai ho rao baq miochaq da.": Word{Word: "he teqguai ho rao baq miochaq da.", Def: "(A0630) He works on Sundays.", By: "examples", Score: 0}, "hea": Word{Word: "hea", Def: "predicate: ‘piece’; ▯ is a piece/chunk; ▯ is a piece/chunk of substance ▯.", By: "official", Score: 0}, "heaq": Word{Word: "heaq", Def: "predicate: ‘carry’; ▯ carries/holds ▯.", By: "official", Score: 0}, "heaqfa": Word{Word: "heaqfa", Def: "▯ carries ▯ to ▯ from ▯", By: "seaqtaq", Score: 0}, "heaqjuq": Word{Word: "heaqjuq", Def: "receive", By: "spreadsheet", Score: 0}, "hebe": Word{Word: "hebe", Def: "▯ is a plant of the Hevea genus.", By: "Ilmen", Score: 0}, "hebesai": Word{Word: "hebesai", Def: "▯ is rubber.", By: "Ilmen", Score: 0}, "hebi": Word{Word: "hebi", Def: "▯ is a bird (Aves taxonomic class).", By: "Ilmen", Score: 0}, "hei": Word{Word: "hei", Def: "predicate: ‘ten’; ▯ are ten in number.", By: "official", Score: 0}, "heiga": Word{Word: "heiga", Def: "predicate: ‘oak’; ▯ is an oak.", By: "official", Score: 0}, "heigaheu": Word{Word: "heigaheu", Def: "acorn", By: "spreadsheet", Score: 0}, "heigujue": Word{Word: "heigujue", Def: "▯ is December", By: "lynn", Score: 1}, "heijue": Word{Word: "heijue", Def: "▯ is October", By: "lynn", Score: 1}, "heiko": Word{Word: "heiko", Def: "predicate: ‘tenth’; ▯ is tenth in number.", By: "oldofficial", Score: 0}, "heishijue": Word{Word: "heishijue", Def: "▯ is November", By: "lynn", Score: 1}, "heja": Word{Word: "heja", Def: "jaw", By: "spreadsheet", Score: -1}, "hejakiaq": Word{Word: "hejakiaq", Def: "beard  (xedja KIAQ)", By: "spreadsheet", Score: -1}, "hekero": Word{Word: "hekero", Def: "▯ is a maple tree.", By: "Ilmen", Score: 0}, "heko": Word{Word: "heko", Def: "horse", By: "spreadsheet", Score: -1}, "heku": Word{Word: "heku", Def: "predicate: ‘equine’; ▯ is an equine/member of genus Equus (the horses, donkeys, and zebras).", By: "Ilmen", Score: 0}, "hekuadoro": Word{Word: "hekuadoro", Def: "▯ pertains to the culture of Ecuador – Republic of Ecuador.", By: "countries", Score: 0}, "hekuadorogua": Word{Word: "hekuadorogua", Def: "▯ is the country Ecuador – Republic of Ecuador.", By: "countries", Score: 0}, "hekuadorotoaq": Word{Word: "hekuadorotoaq", Def: "▯ is (one of) the language(s) spoken in Ecuador – Republic of Ecuador.", By: "countries", Score: 0}, "hekucie": Word{Word: "hekucie", Def: "▯ is a member of genus Hippocampus (the seahorses).", By: "Hoemai", Score: 0}, "hekuhu": Word{Word: "hekuhu", Def: "smoke (danmo)", By: "spreadsheet", Score: 0}, "helasa": Word{Word: "helasa", Def: "▯ pertains to the culture of Greece – Hellenic Republic.", By: "countries", Score: 0}, "helasagua": Word{Word: "helasagua", Def: "▯ is the country Greece – Hellenic Republic.", By: "countries", Score: 0}, "helasatoaq": Word{Word: "helasatoaq", Def: "▯ is (one of) the language(s) spoken in Greece – Hellenic Republic.", By: "countries", Score: 0}, "hele": Word{Word: "hele", Def: "▯ is a red deer.", By: "Ilmen", Score: 0}, "heleki": Word{Word: "heleki", Def: "▯ is a member of genus Alces (the moose).", By: "Hoemai", Score: 0}, "helemo": Word{Word: "helemo", Def: "▯ is an elm.", By: "Ilmen", Score: 0}, "heleq": Word{Word: "heleq", Def: "▯ is an elbow bone/ulna (The bone of the forearm that extends from the elbow to the wrist on the side opposite to the thumb).", By: "Hoemai", Score: 0}, "helu": Word{Word: "helu", Def: "predicate: ‘elephant’; ▯ is an elephant.", By: "official", Score: 0}, "heo": Word{Word: "heo", Def: "= bu #jẻq", By: "uakci", Score: 0}, "heocheo": Word{Word: "heocheo", Def: "▯ are varied, dissimilar from each other; ▯ are varied in what they are in relation ▯ with.", By: "Ilmen", Score: 0}, "heocia": Word{Word: "heocia", Def: "indistinguishable", By: "spreadsheet", Score: 0}, "heocua": Word{Word: "heocua", Def: "▯ has an allergic reaction to ▯.", By: "Hoemai", Score: 0}, "heocuage": Word{Word: "heocuage", Def: "▯ is an allergen.", By: "Hoemai", Score: 0}, "heocuahe": Word{Word: "heocuahe", Def: "▯ is allergic to ▯.", By: "Hoemai", Score: 0}, "heoha": Word{Word: "heoha", Def: "obviative generic impersonal pronoun (\"one, you, they\" but different from the one(s) referred to by an earlier **ha**).", By: "Hoemai", Score: 0}, "heomaq": Word{Word: "heomaq", Def: "Obviative \"it\"", By: "spreadsheet", Score: 0}, "heome": Word{Word: "heome", Def: "▯ has a heterogenous composition.", By: "Ilmen", Score: 0}, "heomieq": Word{Word: "heomieq", Def: "compare", By: "spreadsheet", Score: 0}, "heomiu": Word{Word: "heomiu", Def: "▯ is an act of hypocrisy; ▯ is hypocritical in doing ▯.", By: "uakci", Score: 1}, "heoq": Word{Word: "heoq", Def: "predicate: ‘waist’; ▯ is a waist.", By: "official", Score: 0}, "heoqgia": Word{Word: "heoqgia", Def: "predicate: ‘belt’; ▯ is a belt.", By: "official", Score: 0}, "heoqgiabo": Word{Word: "heoqgiabo", Def: "▯ is an armadillo (Cingulata taxonomic order).", By: "Ilmen", Score: 0}, "heoqshaq": Word{Word: "heoqshaq", Def: "▯ is a belly.", By: "Ilmen", Score: 0}, "heoropa": Word{Word: "heoropa", Def: "predicate: ‘Europe’; ▯ is Europe.", By: "official", Score: 0}, "heoruo": Word{Word: "heoruo", Def: "▯ pretends to be ▯/1; ▯ acts as ▯/1.", By: "uakci", Score: 0}, "heosi": Word{Word: "heosi", Def: "compare", By: "spreadsheet", Score: 0}, "heosia": Word{Word: "heosia", Def: "indistinguishable", By: "spreadsheet", Score: 0}, "heotoaqtua": Word{Word: "heotoaqtua", Def: "▯ exports ▯ from Toaq as ▯; ▯ translates ▯ from Toaq as ▯.", By: "uakci", Score: 0}, "hepete": Word{Word: "hepete", Def: "▯ is a mongoose of the Herpestes genus.", By: "Ilmen", Score: 0}, "hepetesiu": Word{Word: "hepetesiu", Def: "▯ is a mongoose.", By: "Ilmen", Score: 0}, "heq": Word{Word: "heq", Def: "nỉe ru lỉ bủ pảq ra cỏe ja dó ja dó na dóshī dógū da", By: "uakci", Score: 0}, "heq tiai hi rai moq": Word{Word: "heq tiai hi rai moq", Def: "(ILL.3) What's in the box?", By: "official", Score: 0}, "heqchuo": Word{Word: "heqchuo", Def: "(fork of official) predicate: ‘container’; ▯ is a container; ▯ is a contained designed to contain anything satisfying property ▯.", By: "Ilmen", Score: 0}, "heqfa": Word{Word: "heqfa", Def: "▯ is an elf.", By: "fagri", Score: 1}, "heqgu": Word{Word: "heqgu", Def: "▯ is an eel.", By: "Hoemai", Score: 0}, "heqjeoq": Word{Word: "heqjeoq", Def: "▯ is a bowl.", By: "Ilmen", Score: 0}, "heqle": Word{Word: "heqle", Def: "▯ is Greek or related to the ‘Ode on a Grecian Urn’.", By: "uakci", Score: 0}, "heqmuo": Word{Word: "heqmuo", Def: "full  (contain complete)", By: "spreadsheet", Score: 0}, "heqshea": Word{Word: "heqshea", Def: "predicate: ‘empty’; ▯ is empty.", By: "official", Score: 0}, "heqtai": Word{Word: "heqtai", Def: "▯ succeeds at containing ▯", By: "seaqtaq", Score: 0}, "heqti": Word{Word: "heqti", Def: "▯ is a member of genus Anas (containing various species of dabbling duck).", By: "Hoemai", Score: 0}, "herie": Word{Word: "herie", Def: "▯ pertains to the culture of Ireland[25].", By: "countries", Score: 0}, "heriegua": Word{Word: "heriegua", Def: "▯ is the country Ireland[25].", By: "countries", Score: 0}, "herietoaq": Word{Word: "herietoaq", Def: "▯ is (one of) the language(s) spoken in Ireland[25].", By: "countries", Score: 0}, "hesa": Word{Word: "hesa", Def: "predicate: ‘exa’; ▯ are 10^18 (1,000,000,000,000,000,000) in number; ▯ are a quintillion.", By: "official", Score: 0}, "hesuti": Word{Word: "hesuti", Def: "▯ pertains to the culture of Estonia – Republic of Estonia.", By: "countries", Score: 0}, "hesutigua": Word{Word: "hesutigua", Def: "▯ is the country Estonia – Republic of Estonia.", By: "countries", Score: 0}, "hesutitoaq": Word{Word: "hesutitoaq", Def: "▯ is (one of) the language(s) spoken in Estonia – Republic of Estonia.", By: "countries", Score: 0}, "heu": Word{Word: "heu", Def: "fruit", By: "spreadsheet", Score: 0}, "heubuo": Word{Word: "heubuo", Def: "▯ is ripe", By: "fagri", Score: 0}, "heujua": Word{Word: "heujua", Def: "▯ is a fruit, and uakci and fagri are currently having a discussion about the plurality of a slot of a new word they are inventing", By: "fagri", Score: 0}, "heukoaq": Word{Word: "heukoaq", Def: "▯ is ripe.", By: "Ilmen", Score: 0}, "heume": Word{Word: "heume", Def: "▯ is a bunch of fruits, many fruits on a shared stem/branch (e.g. bananas, grapes…).", By: "Ilmen", Score: 0}, "heumuaome": Word{Word: "heumuaome", Def: "▯ is an orchard.", By: "Ilmen", Score: 0}, "heunao": Word{Word: "heunao", Def: "▯ is fruit juice.", By: "lynn", Score: 0}, "hi": Word{Word: "hi", Def: "quantifier: ‘which’; which?", By: "official", Score: 0}, "hi chuece pa soq fui tisha koi fa maq ni moq.": Word{Word: "hi chuece pa soq fui tisha koi fa maq ni moq.", Def: "(A0955) Which train station is the easiest to arrive at for walker going there from here?", By: "examples", Score: 0}, "hi haq pa lu shao suq bojea ji hoa moq.": Word{Word: "hi haq pa lu shao suq bojea ji hoa moq.", Def: "(A0113) What food do you want me to buy?", By: "examples", Score: 0}, "hi kiq pa lu cho suq hoa moq.": Word{Word: "hi kiq pa lu cho suq hoa moq.", Def: "(A0245) What movies do you like?", By: "examples", Score: 0}, "hi rai ni moq": Word{Word: "hi rai ni moq", Def: "(INT.2) What is this?", By: "official", Score: 0}, "hi rai ni moq.": Word{Word: "hi rai ni moq.", Def: "(A0311) What is this?", By: "examples", Score: 0}, "hia, pu tai ji!": Word{Word: "hia, pu tai ji!", Def: "(IJC.2) Yay, I did it!", By: "official", Score: 0}, "hiabuqko": Word{Word: "hiabuqko", Def: "apple", By: "uakci", Score: 0}, "hiai": Word{Word: "hiai", Def: "alcohol", By: "spreadsheet", Score: -1}, "hiai suq kui hi rai moq.": Word{Word: "hiai suq kui hi rai moq.", Def: "(A0581) Why are you laughing?", By: "examples", Score: 0}, "hiaibia": Word{Word: "hiaibia", Def: "drunk", By: "spreadsheet", Score: 0}, "hiaise": Word{Word: "hiaise", Def: "predicate: ‘laughter’; ▯ is laughter.", By: "official", Score: 0}, "hiao": Word{Word: "hiao", Def: "cả dóshī jûq dógū sa húı", By: "uakci", Score: 0}, "hiaoboq": Word{Word: "hiaoboq", Def: "protect", By: "spreadsheet", Score: 0}, "hiaochuo": Word{Word: "hiaochuo", Def: "weapon", By: "spreadsheet", Score: 0}, "hiaociasio": Word{Word: "hiaociasio", Def: "▯ is the idea of safety/security", By: "seaqtaq", Score: 0}, "hiaodai": Word{Word: "hiaodai", Def: "predicate: ‘dangerous’; ▯ is dangerous.", By: "official", Score: 0}, "hiaodaicia": Word{Word: "hiaodaicia", Def: "secure/safe", By: "spreadsheet", Score: 0}, "hiaodairuaq": Word{Word: "hiaodairuaq", Def: "warn", By: "spreadsheet", Score: 0}, "hiaodairuaqse": Word{Word: "hiaodairuaqse", Def: "▯ is a warning.", By: "lynn", Score: 0}, "hiaodaisi": Word{Word: "hiaodaisi", Def: "careful", By: "spreadsheet", Score: 0}, "hiaogaipua": Word{Word: "hiaogaipua", Def: "▯ is pleasured by seeing ▯ suffer. [schadenfreude]", By: "uakci", Score: 0}, "hiaoheaq": Word{Word: "hiaoheaq", Def: "▯ is armed.", By: "Ilmen", Score: 0}, "hiaojuqcho": Word{Word: "hiaojuqcho", Def: "▯ is a masochist; ▯ is enjoys the hurt from ▯.", By: "uakci", Score: 0}, "hiaokuai": Word{Word: "hiaokuai", Def: "▯ is aggressive.", By: "Ilmen", Score: 1}, "hiaoleo": Word{Word: "hiaoleo", Def: "▯ attacks ▯.", By: "Ilmen", Score: 0}, "hiaomoe": Word{Word: "hiaomoe", Def: "▯ feels hurt by ▯.", By: "uakci", Score: 0}, "hiaomuoq": Word{Word: "hiaomuoq", Def: "toxic, poison", By: "spreadsheet", Score: -1}, "hiaopuo": Word{Word: "hiaopuo", Def: "▯ is gunpowder", By: "seaqtaq", Score: 0}, "hiaorieq": Word{Word: "hiaorieq", Def: "predicate: ‘escape’; ▯ escapes from ▯.", By: "official", Score: 0}, "hiaorieqsoa": Word{Word: "hiaorieqsoa", Def: "▯ rescues ▯ from satisfying property ▯.", By: "Ilmen", Score: 0}, "hiaorieqsoache": Word{Word: "hiaorieqsoache", Def: "▯ is a rescuer/lifeguard.", By: "Ilmen", Score: 0}, "hiaosai": Word{Word: "hiaosai", Def: "(fork of #zPsTH0LqJ) ▯ is poison", By: "seaqtaq", Score: 1}, "hiaose": Word{Word: "hiaose", Def: "wound", By: "spreadsheet", Score: -1}, "hiaoshao": Word{Word: "hiaoshao", Def: "▯ is cruel towards ▯.", By: "uakci", Score: 0}, "hiaosi": Word{Word: "hiaosi", Def: "careful", By: "spreadsheet", Score: 0}, "hiaosuao": Word{Word: "hiaosuao", Def: "▯ is severe; ▯ is severely bad for ▯.", By: "uakci", Score: 0}, "hiaotaocho": Word{Word: "hiaotaocho", Def: "▯ is a sadist; ▯ is sadistic towards ▯.", By: "uakci", Score: 0}, "hiaote": Word{Word: "hiaote", Def: "▯ is hurt/injuried.", By: "Ilmen", Score: 0}, "hiaotoai": Word{Word: "hiaotoai", Def: "▯is a pathogen", By: "seaqtaq", Score: 0}, "hiaotuafai": Word{Word: "hiaotuafai", Def: "▯ is cruel towards ▯.\u00a0", By: "uakci", Score: 0}, "hiaq": Word{Word: "hiaq", Def: "predicate: ‘poor’; ▯ is poor in relation ▯; ▯ is in relation ▯ to/with few things.", By: "official", Score: 0}, "hiaq bo ho da.": Word{Word: "hiaq bo ho da.", Def: "(A0839) He doesn't own much.", By: "examples", Score: 0}, "hiaq bo ji da.": Word{Word: "hiaq bo ji da.", Def: "(A0840) I don't own much.", By: "examples", Score: 0}, "hiaq dua ji da.": Word{Word: "hiaq dua ji da.", Def: "(A0847) I don't know much.", By: "examples", Score: 0}, "hiaq ji li bu hai kuq ja poq ja rai.": Word{Word: "hiaq ji li bu hai kuq ja poq ja rai.", Def: "(A0844) There isn't much I haven't already said.", By: "examples", Score: 0}, "hiaq miu suq da.": Word{Word: "hiaq miu suq da.", Def: "(A0841) You don't have many opinions.", By: "examples", Score: 0}, "hiba": Word{Word: "hiba", Def: "I didn't understand what you just said, and I would like you to repeat it.", By: "lynn", Score: 0}, "hibu": Word{Word: "hibu", Def: "▯ is whatever; ▯ is something and I don’t care what it is exactly; ▯ satisfies property ▯, whatever be it in the end.", By: "uakci", Score: 0}, "hica": Word{Word: "hica", Def: "condition ⓥ (depend on), fancuka, kaunka", By: "spreadsheet", Score: 0}, "hiderudo": Word{Word: "hiderudo", Def: "▯ is a red raspberry (Rubus ideaus).", By: "Hoemai", Score: 0}, "hie": Word{Word: "hie", Def: "predicate: ‘carry’; ▯ carries/bears/hauls ▯.", By: "official", Score: 0}, "hiefa": Word{Word: "hiefa", Def: "▯ carries/bears/hauls ▯ to ▯ from ▯.", By: "Ilmen", Score: 0}, "hieheku": Word{Word: "hieheku", Def: "▯ is a hippopotamus.", By: "Ilmen", Score: 0}, "hiejeoq": Word{Word: "hiejeoq", Def: "▯ is a bucket.", By: "Ilmen", Score: 0}, "hieku": Word{Word: "hieku", Def: "▯ is a liver.", By: "Hoemai", Score: 0}, "hieq": Word{Word: "hieq", Def: "▯ throws ▯.", By: "Ilmen", Score: 0}, "hieqbiu": Word{Word: "hieqbiu", Def: "▯ is a cannon/barrel.", By: "Ilmen", Score: 0}, "hieqbiukea": Word{Word: "hieqbiukea", Def: "▯ is a gun/rifle.", By: "Ilmen", Score: 0}, "hieqpoaq": Word{Word: "hieqpoaq", Def: "▯ explodes.", By: "Ilmen", Score: 0}, "hieqtaq": Word{Word: "hieqtaq", Def: "▯ jumps", By: "fagri", Score: 1}, "hietisha": Word{Word: "hietisha", Def: "bring", By: "spreadsheet", Score: 0}, "higuana": Word{Word: "higuana", Def: "▯ is an iguana.", By: "Hoemai", Score: 0}, "hijeo": Word{Word: "hijeo", Def: "▯ is the indirect question of: what satisfies p’ty ▯.", By: "uakci", Score: 0}, "hikui": Word{Word: "hikui", Def: "depend on", By: "spreadsheet", Score: 0}, "hila": Word{Word: "hila", Def: "Beverage ▯ contains alcohol.", By: "uakci", Score: 0}, "hilu": Word{Word: "hilu", Def: "▯ is the proposition P such that the things X having property ▯ are such that P is that X have that property.", By: "Ilmen", Score: 0}, "himei": Word{Word: "himei", Def: "email", By: "spreadsheet", Score: -1}, "himeichiu": Word{Word: "himeichiu", Def: "(fork of #G5ff-ZDoe) (fork of #jQe0Ez9Kwy) ▯ is an email address", By: "seaqtaq", Score: 0}, "himeidoa": Word{Word: "himeidoa", Def: "(fork of #G5ff-ZDoe) (fork of #jQe0Ez9Kwy) ▯ emails ▯ to ▯", By: "seaqtaq", Score: 0}, "himieq": Word{Word: "himieq", Def: "[XX1] Dóshī pa lủ tu dójō měa hóa dógū bı, mỉeq hóa lî ja dófē měa hóa dósāq bı jẻo dójō dófē.", By: "Ilmen", Score: 0}, "himoq": Word{Word: "himoq", Def: "▯ is a ‘hi… moq’ question.", By: "uakci", Score: 0}, "hio": Word{Word: "hio", Def: "kủaq shảo dóshī cêo ra shảı chẻo dẻoq dóshī roı dógū da", By: "uakci", Score: 0}, "hio ji suq ka.": Word{Word: "hio ji suq ka.", Def: "(A0132) I greet you.", By: "examples", Score: 0}, "hio ka.": Word{Word: "hio ka.", Def: "(A0207) Hello!", By: "examples", Score: 0}, "hiodadeoq": Word{Word: "hiodadeoq", Def: "▯ speaks the dialect of Toaq where an utterance is grammatical iff the exact reverse of it is grammatical in regular Toaq.", By: "uakci", Score: 0}, "hioq": Word{Word: "hioq", Def: "predicate: ‘proud’; ▯ is proud / feels pride.", By: "official", Score: 0}, "hioqgiq": Word{Word: "hioqgiq", Def: "▯ is ashamed.", By: "Ilmen", Score: 0}, "hioqkuq": Word{Word: "hioqkuq", Def: "▯ brags about ▯.", By: "uakci", Score: 0}, "hioqruo": Word{Word: "hioqruo", Def: "▯ is audacious in their ▯-ness.", By: "uakci", Score: 0}, "hioqshuikuq": Word{Word: "hioqshuikuq", Def: "▯ humble brags ▯ to ▯", By: "seaqtaq", Score: 0}, "hiota": Word{Word: "hiota", Def: "predicate: ‘yotta’; ▯ are 10^24 (1,000,000,000,000,000,000,000,000) in number; ▯ are a septillion.", By: "official", Score: 0}, "hipoi": Word{Word: "hipoi", Def: "▯ is an event in which what was the x1?", By: "seaqtaq", Score: 0}, "hipote": Word{Word: "hipote", Def: "hypothesis", By: "spreadsheet", Score: 0}, "hiqdia": Word{Word: "hiqdia", Def: "▯ pertains to the culture of India.", By: "Ilmen", Score: 0}, "hiqdiagua": Word{Word: "hiqdiagua", Def: "▯ is India.", By: "Ilmen", Score: 0}, "hiqdiamaqkaiheaq": Word{Word: "hiqdiamaqkaiheaq", Def: "▯ is the common mango tree (Mangifera indica).", By: "Ilmen", Score: 0}, "hiqdonesia": Word{Word: "hiqdonesia", Def: "▯ pertains to the culture of Indonesia – Republic of Indonesia.", By: "countries", Score: 0}, "hiqdonesiagua": Word{Word: "hiqdonesiagua", Def: "▯ is the country Indonesia – Republic of Indonesia.", By: "countries", Score: 0}, "hiqdonesiatoaq": Word{Word: "hiqdonesiatoaq", Def: "▯ is (one of) the language(s) spoken in Indonesia – Republic of Indonesia.", By: "countries", Score: 0}, "hiqgiq": Word{Word: "hiqgiq", Def: "▯ is such that the function ▯ at that point yields ▯ (default: 0); ▯ is such that function ▯ vanishes at that point.", By: "uakci", Score: 0}, "hiqhui": Word{Word: "hiqhui", Def: "▯ is a word-for-word/literal translation; ▯ is an idiom or peculiarity of speech directly translated without any consideration for the semantics, grammar, and idiomatic patterns of the target language; ▯ is [not necessarily] a figure of speech commonly used in natlangs, but meaningless in the context of this loglang; ▯ is malglico.", By: "uakci", Score: 0}, "hiqli": Word{Word: "hiqli", Def: "English language", By: "spreadsheet", Score: 0}, "hiqlisha": Word{Word: "hiqlisha", Def: "English language", By: "spreadsheet", Score: 0}, "hiqlishi": Word{Word: "hiqlishi", Def: "English language", By: "spreadsheet", Score: 0}, "hiqlitoaq": Word{Word: "hiqlitoaq", Def: "English language", By: "spreadsheet", Score: 1}, "hiraichua": Word{Word: "hiraichua", Def: "▯ is a thingy, a widget, a what-was-it-called.", By: "uakci", Score: 0}, "hiraki": Word{Word: "hiraki", Def: "▯ pertains to the culture of Iraq – Republic of Iraq.", By: "countries", Score: 0}, "hirakigua": Word{Word: "hirakigua", Def: "▯ is the country Iraq – Republic of Iraq.", By: "countries", Score: 0}, "hirakitoaq": Word{Word: "hirakitoaq", Def: "▯ is (one of) the language(s) spoken in Iraq – Republic of Iraq.", By: "countries", Score: 0}, "hirani": Word{Word: "hirani", Def: "▯ pertains to the culture of Iran – Islamic Republic of Iran.", By: "countries", Score: 0}, "hiranigua": Word{Word: "hiranigua", Def: "▯ is the country Iran – Islamic Republic of Iran.", By: "countries", Score: 0}, "hiranitoaq": Word{Word: "hiranitoaq", Def: "▯ is (one of) the language(s) spoken in Iran – Islamic Republic of Iran.", By: "countries", Score: 0}, "hirisi": Word{Word: "hirisi", Def: "IRC", By: "uakci", Score: 0}, "hisaq": Word{Word: "hisaq", Def: "horse", By: "spreadsheet", Score: -1}, "hishao": Word{Word: "hishao", Def: "what does ▯ want?", By: "seaqtaq", Score: 0}, "hishiq": Word{Word: "hishiq", Def: "maize, corn", By: "spreadsheet", Score: 0}, "hitali": Word{Word: "hitali", Def: "▯ (sequence of written glyphs) is italicized", By: "fagri", Score: 0}, "hitalia": Word{Word: "hitalia", Def: "▯ pertains to the culture of Italy – Italian Republic.", By: "countries", Score: 0}, "hitaliagua": Word{Word: "hitaliagua", Def: "▯ is the country Italy – Italian Republic.", By: "countries", Score: 0}, "hitaliatoaq": Word{Word: "hitaliatoaq", Def: "▯ is (one of) the language(s) spoken in Italy – Italian Republic.", By: "countries", Score: 0}, "hiu": Word{Word: "hiu", Def: "predicate: ‘river’; ▯ is a river.", By: "official", Score: 0}, "hiufa": Word{Word: "hiufa", Def: "grammar", By: "spreadsheet", Score: 0}, "hiuguao": Word{Word: "hiuguao", Def: "▯ is a fork in a river.", By: "lynn", Score: 0}, "hiuguoq": Word{Word: "hiuguoq", Def: "▯ is the mouth of a river", By: "seaqtaq", Score: 0}, "hiuhekuo": Word{Word: "hiuhekuo", Def: "▯ is a member of genus Hippopotamus.", By: "Hoemai", Score: 0}, "hiurea": Word{Word: "hiurea", Def: "river bank", By: "spreadsheet", Score: 0}, "hiureareaq": Word{Word: "hiureareaq", Def: "▯ is a crocodile.", By: "Ilmen", Score: 0}, "ho": Word{Word: "ho", Def: "predicate: ‘they’; ▯ is him/her/it / are them.", By: "official", Score: 0}, "ho lao nai rao ruqshua pa roq.": Word{Word: "ho lao nai rao ruqshua pa roq.", Def: "(PAN.3) They who now wait while it is raining weep.", By: "official", Score: 0}, "hoa": Word{Word: "hoa", Def: "predicate: ‘it’; relative pronoun whose antecedent is the head of the containing relative clause", By: "official", Score: 0}, "hoai": Word{Word: "hoai", Def: "predicate: ‘still’; ▯ is still the case.", By: "official", Score: 0}, "hoapa": Word{Word: "hoapa", Def: "The antecedent(s) of the relative clause satisfies property ▯.", By: "Ilmen", Score: 0}, "hoapoi": Word{Word: "hoapoi", Def: "▯ is an event in which hoa is the x1", By: "seaqtaq", Score: 0}, "hoaq": Word{Word: "hoaq", Def: "▯ burns in oxidizer ▯.", By: "Ilmen", Score: 0}, "hoaq choe juoq bu shue ti kuoq da.": Word{Word: "hoaq choe juoq bu shue ti kuoq da.", Def: "(A0951) It burns until even bone doesn't remain.", By: "examples", Score: 0}, "hoaqbeaq": Word{Word: "hoaqbeaq", Def: "candle", By: "spreadsheet", Score: 0}, "hoaqfaq": Word{Word: "hoaqfaq", Def: "fire", By: "spreadsheet", Score: 0}, "hoaqfui": Word{Word: "hoaqfui", Def: "▯ is flammable/inflammable; ▯ is easily set on fire.", By: "Ilmen", Score: 0}, "hoaqgio": Word{Word: "hoaqgio", Def: "▯ is firelight / candlelight ; ▯ is the light produced by a fire", By: "fagri", Score: 0}, "hoaqgio sa loe nie heaqkiu giokea ba.": Word{Word: "hoaqgio sa loe nie heaqkiu giokea ba.", Def: "(A0950) Let/May some fire be a flame-light in portable lamp.", By: "examples", Score: 0}, "hoaqhaq": Word{Word: "hoaqhaq", Def: "fuel", By: "spreadsheet", Score: 0}, "hoaqhiao": Word{Word: "hoaqhiao", Def: "▯ burns (injury) ▯\u00a0", By: "seaqtaq", Score: 0}, "hoaqkea": Word{Word: "hoaqkea", Def: "predicate: ‘lighter’; ▯ is a lighter.", By: "official", Score: 0}, "hoaqkiu": Word{Word: "hoaqkiu", Def: "▯ is flammable", By: "seaqtaq", Score: 0}, "hoaqleq": Word{Word: "hoaqleq", Def: "▯ is a flame.", By: "Ilmen", Score: 0}, "hoaqloha": Word{Word: "hoaqloha", Def: "▯ is magnesium.", By: "Ilmen", Score: 0}, "hoaqlui": Word{Word: "hoaqlui", Def: "▯ is charcoal.", By: "Ilmen", Score: 0}, "hoaqluq": Word{Word: "hoaqluq", Def: "▯ smolders.", By: "Ilmen", Score: 0}, "hoaqmei": Word{Word: "hoaqmei", Def: "volcano", By: "spreadsheet", Score: 0}, "hoaqnao": Word{Word: "hoaqnao", Def: "▯ is alcohol.", By: "Ilmen", Score: 1}, "hoaqpio": Word{Word: "hoaqpio", Def: "▯ is coal.", By: "Ilmen", Score: 0}, "hoaqpiotui": Word{Word: "hoaqpiotui", Def: "▯ is a dragon", By: "seaqtaq", Score: 0}, "hoaqpuao": Word{Word: "hoaqpuao", Def: "smoke (danmo)", By: "spreadsheet", Score: 0}, "hoaqpuo": Word{Word: "hoaqpuo", Def: "ash", By: "spreadsheet", Score: -1}, "hoaqpuoloha": Word{Word: "hoaqpuoloha", Def: "▯ is potassium.", By: "Ilmen", Score: 0}, "hoaqrio": Word{Word: "hoaqrio", Def: "fire", By: "spreadsheet", Score: 0}, "hoaqshuao": Word{Word: "hoaqshuao", Def: "▯ is a phoenix", By: "seaqtaq", Score: 0}, "hoaqtue": Word{Word: "hoaqtue", Def: "fire", By: "spreadsheet", Score: 0}, "hobi": Word{Word: "hobi", Def: "sheep", By: "spreadsheet", Score: -1}, "hoe": Word{Word: "hoe", Def: "sảo ru lỏq dóshī, na ru gảıkīu rào sa ráı tî dóshī sa séoq da", By: "uakci", Score: 0}, "hoebuaq": Word{Word: "hoebuaq", Def: "▯ is a brown dwarf (failed star).", By: "Ilmen", Score: 0}, "hoediu": Word{Word: "hoediu", Def: "▯ is astronomy", By: "seaqtaq", Score: 0}, "hoedue": Word{Word: "hoedue", Def: "predicate: ‘legal’; ▯ is legal", By: "seaqtaq", Score: 0}, "hoefu": Word{Word: "hoefu", Def: "▯ is a Toaqist.", By: "uakci", Score: 0}, "hoegio": Word{Word: "hoegio", Def: "▯ is sunlight", By: "fagri", Score: 0}, "hoejie": Word{Word: "hoejie", Def: "adverb: \"according to Hoemāı;\" \"Hoemāı says...\"", By: "seaqtaq", Score: 0}, "hoeloha": Word{Word: "hoeloha", Def: "▯ is gold.", By: "Ilmen", Score: 1}, "hoelui": Word{Word: "hoelui", Def: "▯ is a stellar remnant (white dwarf, neutron star, black hole…).", By: "Ilmen", Score: 0}, "hoemai": Word{Word: "hoemai", Def: "mảı dóshī báq hỏe da", By: "uakci", Score: 0}, "hoene": Word{Word: "hoene", Def: "▯ is an hour.", By: "uakci", Score: 1}, "hoesai": Word{Word: "hoesai", Def: "▯ is helium.", By: "Ilmen", Score: 0}, "hoesioq": Word{Word: "hoesioq", Def: "▯ is a galaxy.", By: "Ilmen", Score: 0}, "hoesioqme": Word{Word: "hoesioqme", Def: "▯ is a cluster of galaxies.", By: "Ilmen", Score: 0}, "hoetoaq": Word{Word: "hoetoaq", Def: "▯ is Toaq.", By: "uakci", Score: 0}, "hohao": Word{Word: "hohao", Def: "▯ is he/she/them and the others.", By: "Ilmen", Score: 0}, "hohoi": Word{Word: "hohoi", Def: "▯ is the person referred to by the pronoun #ho before the new referent of #ho was established.", By: "uakci", Score: -2}, "hoi": Word{Word: "hoi", Def: "predicate: ‘aforementioned’; ▯ are the aforementioned things; ▯ is/are the aforementioned things that satisfy property ▯.", By: "official", Score: 0}, "hoi kua pa sao ri nui moq.": Word{Word: "hoi kua pa sao ri nui moq.", Def: "(A0230) Is the afermentioned room big or small? ", By: "examples", Score: 0}, "hoilaseu": Word{Word: "hoilaseu", Def: "▯ is Euler's number.", By: "Ilmen", Score: 0}, "hoitoa": Word{Word: "hoitoa", Def: "▯ is an anaphora", By: "seaqtaq", Score: 0}, "hojeo": Word{Word: "hojeo", Def: "What the last person said is true [nullary predicate]; ‘What they said.’", By: "uakci", Score: 0}, "hoji": Word{Word: "hoji", Def: "▯ are us (exclusive we, listener not included).", By: "Hoemai", Score: 0}, "hokapi": Word{Word: "hokapi", Def: "▯ is an okapi.", By: "Ilmen", Score: 0}, "hokei": Word{Word: "hokei", Def: "▯ is OK (okay, fine, acceptable, all right).", By: "lynn", Score: 0}, "hoki": Word{Word: "hoki", Def: "▯ is hockey (game).", By: "Hoemai", Score: 0}, "homo": Word{Word: "homo", Def: "predicate: ‘human’; ▯ is a human.", By: "seaqtaq", Score: 0}, "hono": Word{Word: "hono", Def: "honor, honour", By: "spreadsheet", Score: 0}, "hopa": Word{Word: "hopa", Def: "▯ is satisfied by him/her/them.", By: "lynn", Score: 1}, "hopoi": Word{Word: "hopoi", Def: "▯ is an event in which he/she/they is the x1", By: "seaqtaq", Score: 0}, "hoq": Word{Word: "hoq", Def: "The most recently uttered proposition is true; ▯ is the most recently uttered proposition.", By: "uakci", Score: 0}, "hoq kui hi rai moq.": Word{Word: "hoq kui hi rai moq.", Def: "(A0239) Why is it?", By: "examples", Score: 0}, "hoqba": Word{Word: "hoqba", Def: "▯ is such that ▯ has expressed it with #ba.", By: "uakci", Score: 0}, "hoqbie": Word{Word: "hoqbie", Def: "adverb: ‘afterwards’; afterwards, after that", By: "official", Score: 0}, "hoqdura": Word{Word: "hoqdura", Def: "▯ pertains to the culture of Honduras – Republic of Honduras.", By: "countries", Score: 0}, "hoqduragua": Word{Word: "hoqduragua", Def: "▯ is the country Honduras – Republic of Honduras.", By: "countries", Score: 0}, "hoqduratoaq": Word{Word: "hoqduratoaq", Def: "▯ is (one of) the language(s) spoken in Honduras – Republic of Honduras.", By: "countries", Score: 0}, "hoqhelo": Word{Word: "hoqhelo", Def: "▯ is the Xorlo reform; ▯ is the modification to Lojban centered around Xorxes’ {lo}.", By: "uakci", Score: 0}, "hoqka": Word{Word: "hoqka", Def: "▯ is true by virtue of ▯ ka-saying so.", By: "uakci", Score: 0}, "hoqkeo": Word{Word: "hoqkeo", Def: "▯ is however the case.", By: "Ilmen", Score: 0}, "hoqkui": Word{Word: "hoqkui", Def: "adverb: ‘therefore’; therefore, because of that", By: "official", Score: 0}, "hoqni": Word{Word: "hoqni", Def: "▯ is the matter at hand.", By: "uakci", Score: 0}, "hoqrai": Word{Word: "hoqrai", Def: "▯ is abstract.", By: "Ilmen", Score: 0}, "hoqsa": Word{Word: "hoqsa", Def: "▯ is a jaguar (Panthera onca).", By: "Ilmen", Score: 0}, "hoqshiu": Word{Word: "hoqshiu", Def: "▯ takes place beforehand.", By: "lynn", Score: 0}, "hoqsie": Word{Word: "hoqsie", Def: "▯ is the case afterwards.", By: "Hoemai", Score: 0}, "hoqsiu": Word{Word: "hoqsiu", Def: "▯ (event) is similar to ▯ (event)", By: "fagri", Score: 0}, "hoqtoaq": Word{Word: "hoqtoaq", Def: "(fork of #Uc-jEpfvk) ▯ is the language this utterance is in; ▯ is Toaq.", By: "uakci", Score: 0}, "hora": Word{Word: "hora", Def: "predicate: ‘hour’; ▯ is an hour.", By: "official", Score: 0}, "horabaq": Word{Word: "horabaq", Def: "▯ is the hour numbered ▯", By: "fagri", Score: 0}, "horachiu": Word{Word: "horachiu", Def: "▯ is the time ▯ (three- or four-digit number)", By: "fagri", Score: 0}, "horai": Word{Word: "horai", Def: "▯ is animate.", By: "Ilmen", Score: 0}, "horane": Word{Word: "horane", Def: "▯ is the duration of an hour multiplied by ▯", By: "seaqtaq", Score: 0}, "horolo": Word{Word: "horolo", Def: "▯ is Xorlo.", By: "Ilmen", Score: 0}, "hoserai": Word{Word: "hoserai", Def: "▯ pertains to the culture of Austria – Republic of Austria.", By: "countries", Score: 0}, "hoseraigua": Word{Word: "hoseraigua", Def: "▯ is the country Austria – Republic of Austria.", By: "countries", Score: 0}, "hoseraitoaq": Word{Word: "hoseraitoaq", Def: "▯ is (one of) the language(s) spoken in Austria – Republic of Austria.", By: "countries", Score: 0}, "hosuqji": Word{Word: "hosuqji", Def: "▯ is you, I and the others.", By: "Ilmen", Score: 1}, "hu": Word{Word: "hu", Def: "vocative: ‘O’; vocative", By: "official", Score: 0}, "hu mi josefo!": Word{Word: "hu mi josefo!", Def: "(FRG.3) Hey, Joseph!", By: "official", Score: 0}, "hu tu suq, niqdao hi po suq moq.": Word{Word: "hu tu suq, niqdao hi po suq moq.", Def: "(A0637) To each of you, what's new about you?", By: "examples", Score: 0}, "hua": Word{Word: "hua", Def: "predicate: ‘body.part’; ▯ is a body part.", By: "official", Score: 0}, "huaduo": Word{Word: "huaduo", Def: "gesture / move (without overall location change)", By: "spreadsheet", Score: 0}, "huagai": Word{Word: "huagai", Def: "▯ feels ▯ via proprioception.", By: "Ilmen", Score: 1}, "huai": Word{Word: "huai", Def: "predicate: ‘scoop’; ▯ scoops ▯ out of ▯.", By: "official", Score: 0}, "huaichuo": Word{Word: "huaichuo", Def: "predicate: ‘spoon’; ▯ is a spoon.", By: "official", Score: 0}, "huaichuofuaq": Word{Word: "huaichuofuaq", Def: "▯ is a picture of a spoon.", By: "uakci", Score: 0}, "huaifai": Word{Word: "huaifai", Def: "Wi-Fi", By: "uakci", Score: 0}, "huakea": Word{Word: "huakea", Def: "▯ is a prosthetic limb", By: "seaqtaq", Score: 0}, "huakuq": Word{Word: "huakuq", Def: "▯ signs/gestures ▯ to ▯.", By: "lynn", Score: 1}, "huao": Word{Word: "huao", Def: "predicate: ‘loose’; ▯ is loose.", By: "official", Score: 0}, "huapaq": Word{Word: "huapaq", Def: "▯ is a body part of ▯", By: "fagri", Score: 0}, "huaq": Word{Word: "huaq", Def: "= [XX2] Lú jảqlīnēlī hóa dósāq bı sẻuhūaq lú sa bỉhōı hóa dóshī na lú sa bỉhōı hóa dỏgū.", By: "Ilmen", Score: 0}, "huaq gi": Word{Word: "huaq gi", Def: "predicate: ‘better’; ▯ is better than ▯.", By: "official", Score: 0}, "huaq hui": Word{Word: "huaq hui", Def: "predicate: ‘worse’; ▯ is worse than ▯.", By: "official", Score: 0}, "huaq pui": Word{Word: "huaq pui", Def: "predicate: ‘more.numerous’; ▯ are more numerous than ▯.", By: "official", Score: 0}, "huaq suai suq ji da.": Word{Word: "huaq suai suq ji da.", Def: "(A0392) You're faster than I am.", By: "examples", Score: 0}, "huaqcho": Word{Word: "huaqcho", Def: "predicate: ‘prefer’; ▯ prefers ▯ over ▯.", By: "official", Score: 0}, "huaqcho suq baq kafe ri baq chai moq.": Word{Word: "huaqcho suq baq kafe ri baq chai moq.", Def: "(A0193) Do you prefer coffee or tea?", By: "examples", Score: 0}, "huaqcuao": Word{Word: "huaqcuao", Def: "even more", By: "spreadsheet", Score: 0}, "huaqfaq": Word{Word: "huaqfaq", Def: "(fork of #I30t4CdGm) ▯ elapses for more than ▯(period of time)", By: "seaqtaq", Score: 0}, "huaqgiq": Word{Word: "huaqgiq", Def: "less than", By: "spreadsheet", Score: 0}, "huaqjuaq": Word{Word: "huaqjuaq", Def: "even more", By: "spreadsheet", Score: 0}, "huaqlemiu": Word{Word: "huaqlemiu", Def: "▯ overestimates how much ▯ is the case.", By: "Ilmen", Score: 0}, "huaqloi": Word{Word: "huaqloi", Def: "▯ envies ▯ for being more ▯/1 than themselves; ▯ is jealous for ▯’s ▯/1-ness.", By: "uakci", Score: 1}, "huaqma": Word{Word: "huaqma", Def: "▯ is greater than an average ▯ (p’ty) in satisfying p’ty ▯.", By: "uakci", Score: 0}, "huaqmea": Word{Word: "huaqmea", Def: "▯ is the majority of ▯", By: "seaqtaq", Score: 0}, "huaqmu": Word{Word: "huaqmu", Def: "less than", By: "spreadsheet", Score: 0}, "huaqshe": Word{Word: "huaqshe", Def: "▯ is more the case the more ▯ is the case.", By: "sheireq", Score: 0}, "hue": Word{Word: "hue", Def: "predicate: ‘feather’; ▯ is a feather.", By: "official", Score: 0}, "huela": Word{Word: "huela", Def: "▯ is a vulva.", By: "Hoemai", Score: 0}, "huelaleq(fuo)": Word{Word: "huelaleq(fuo)", Def: "▯ performs cunnilingus on ▯.", By: "Hoemai", Score: 1}, "hugaqda": Word{Word: "hugaqda", Def: "▯ pertains to the culture of Uganda – Republic of Uganda.", By: "countries", Score: 0}, "hugaqdagua": Word{Word: "hugaqdagua", Def: "▯ is the country Uganda – Republic of Uganda.", By: "countries", Score: 0}, "hugaqdatoaq": Word{Word: "hugaqdatoaq", Def: "▯ is (one of) the language(s) spoken in Uganda – Republic of Uganda.", By: "countries", Score: 0}, "hui": Word{Word: "hui", Def: "= gıq #gỉ", By: "uakci", Score: 0}, "hui sa daqmoa da.": Word{Word: "hui sa daqmoa da.", Def: "(A0131) Some moment is bad.", By: "examples", Score: 0}, "huibonua": Word{Word: "huibonua", Def: "▯ steals ▯ from ▯", By: "fagri", Score: -1}, "huicaqruaq": Word{Word: "huicaqruaq", Def: "▯ blames ▯ (for satisfying property ▯)", By: "seaqtaq", Score: 0}, "huichiai": Word{Word: "huichiai", Def: "▯ is morally wrong", By: "seaqtaq", Score: 0}, "huicia": Word{Word: "huicia", Def: "predicate: ‘lack’; ▯ is lacking in that does not satisfy property ▯; ▯ lacking property ▯ is bad.", By: "official", Score: 0}, "huidai": Word{Word: "huidai", Def: "risk", By: "spreadsheet", Score: 0}, "huidaimeoq": Word{Word: "huidaimeoq", Def: "▯ proceeds with care.", By: "Ilmen", Score: 0}, "huidaimoe": Word{Word: "huidaimoe", Def: "▯ feels anxiety; ▯ is anxious.", By: "Ilmen", Score: 0}, "huidaimoi": Word{Word: "huidaimoi", Def: "▯ feels anxiety; ▯ is anxious.", By: "Ilmen", Score: 0}, "huidaisi": Word{Word: "huidaisi", Def: "careful", By: "spreadsheet", Score: -1}, "huifaq": Word{Word: "huifaq", Def: "▯ goes wrong/awry", By: "seaqtaq", Score: 0}, "huigaipua": Word{Word: "huigaipua", Def: "▯ enjoys observing someone else's misfortune; ▯ feels schadenfreude.", By: "Ilmen", Score: 0}, "huijie": Word{Word: "huijie", Def: "jỉe hủı dógū dóshī da", By: "uakci", Score: 0}, "huilie": Word{Word: "huilie", Def: "predicate: ‘suffer’; ▯ suffers from experiencing property ▯.", By: "official", Score: 0}, "huilieruaq": Word{Word: "huilieruaq", Def: "▯ complains that ▯ is the case.", By: "Ilmen", Score: 0}, "huiloaq": Word{Word: "huiloaq", Def: "▯ is a badass.", By: "uakci", Score: 0}, "huimoaq": Word{Word: "huimoaq", Def: "▯ has ▯ on their conscience.", By: "uakci", Score: 0}, "huimoi": Word{Word: "huimoi", Def: "▯ feels anxiety; ▯ is anxious.", By: "Ilmen", Score: 0}, "huineq": Word{Word: "huineq", Def: "predicate: ‘unfortunate’; ▯ is unfortunate for ▯.", By: "official", Score: 0}, "huinua": Word{Word: "huinua", Def: "▯ steals ▯ from ▯.", By: "uakci", Score: 0}, "huinue": Word{Word: "huinue", Def: "predicate: ‘threaten’; ▯ threatens ▯ with satisfying property ▯.", By: "official", Score: 0}, "huipiotui": Word{Word: "huipiotui", Def: "▯ is a dinosaur (reptile)", By: "seaqtaq", Score: 0}, "huiseaq": Word{Word: "huiseaq", Def: "▯ is fucking true; ▯ fucking satisfies property ▯", By: "fagri", Score: 1}, "huiseoq": Word{Word: "huiseoq", Def: "▯ is a storm", By: "seaqtaq", Score: 0}, "huishao": Word{Word: "huishao", Def: "▯ is malicious/has ill-will towards ▯.", By: "Hoemai", Score: 0}, "huishaokuaq": Word{Word: "huishaokuaq", Def: "curse (v)", By: "spreadsheet", Score: 0}, "huishaokuq": Word{Word: "huishaokuq", Def: "curse (v)", By: "spreadsheet", Score: 0}, "huishue": Word{Word: "huishue", Def: "waste (bad deplete)", By: "spreadsheet", Score: 0}, "huisi": Word{Word: "huisi", Def: "careful", By: "spreadsheet", Score: 0}, "huitaoheq": Word{Word: "huitaoheq", Def: "▯ is a jail.", By: "Ilmen", Score: 0}, "huitaojio": Word{Word: "huitaojio", Def: "▯ is a jail/prison.", By: "Ilmen", Score: 0}, "huitua": Word{Word: "huitua", Def: "▯ makes bad thing ▯ happen.", By: "lynn", Score: 0}, "huku": Word{Word: "huku", Def: "▯ is a squash/pumpkin/gourd of the Cucurbita genus.", By: "Ilmen", Score: 0}, "hukushu": Word{Word: "hukushu", Def: "▯ is a squash/pumpkin/gourd of the Cucurbita genus.", By: "Ilmen", Score: 0}, "huna": Word{Word: "huna", Def: "soft, ranti", By: "spreadsheet", Score: 0}, "hunagie": Word{Word: "hunagie", Def: "▯ is a tentacle.", By: "Ilmen", Score: 0}, "huo": Word{Word: "huo", Def: "predicate: ‘auditory’; ▯ is auditory; ▯ pertains to the sense of hearing/audition.", By: "official", Score: 0}, "huobuai": Word{Word: "huobuai", Def: "rabbit", By: "spreadsheet", Score: -1}, "huode": Word{Word: "huode", Def: "▯ sounds beautiful; ▯ has a beautiful sound.", By: "Hoemai", Score: 0}, "huofie": Word{Word: "huofie", Def: "▯ sounds ugly.", By: "Ilmen", Score: 0}, "huogai": Word{Word: "huogai", Def: "predicate: ‘hear’; ▯ hears ▯.", By: "official", Score: 0}, "huogai ji giaq ru choalaq.": Word{Word: "huogai ji giaq ru choalaq.", Def: "(CON.1) I'm hearing music and voices.", By: "official", Score: 0}, "huogai ji sa laq da.": Word{Word: "huogai ji sa laq da.", Def: "(A0128) I hear a voice.", By: "examples", Score: 0}, "huogai ji sa rai.": Word{Word: "huogai ji sa rai.", Def: "(QUA.1) I hear something.", By: "official", Score: 0}, "huogai ji sia rai da.": Word{Word: "huogai ji sia rai da.", Def: "(A0125) I hear nothing.", By: "examples", Score: 0}, "huogaikea": Word{Word: "huogaikea", Def: "▯ is a microphone.", By: "lynn", Score: 0}, "huogaikiu sa po jiao ga chua po budachuaq ba.": Word{Word: "huogaikiu sa po jiao ga chua po budachuaq ba.", Def: "(A0964) Make some god's name of Buddhism audible.", By: "examples", Score: 0}, "huogi": Word{Word: "huogi", Def: "predicate: ‘sound.good’; ▯ sounds good; ▯ sounds good to ▯.", By: "official", Score: 0}, "huohua": Word{Word: "huohua", Def: "predicate: ‘ear’; ▯ is an ear.", By: "official", Score: 0}, "huohuabuai": Word{Word: "huohuabuai", Def: "rabbit", By: "spreadsheet", Score: -1}, "huohualaqkea": Word{Word: "huohualaqkea", Def: "earphones", By: "spreadsheet", Score: 0}, "huohuanui": Word{Word: "huohuanui", Def: "▯ is a South American sea lion (genus Otaria).", By: "Ilmen", Score: 0}, "huohuanuisiu": Word{Word: "huohuanuisiu", Def: "▯ belongs to the Otarridae taxonomic family (the sea lions and fur seals).", By: "Ilmen", Score: 0}, "huohui": Word{Word: "huohui", Def: "▯ sounds bad.", By: "Ilmen", Score: 0}, "huoi": Word{Word: "huoi", Def: "predicate: ‘tail’; ▯ is a tail.", By: "official", Score: 0}, "huoichuqcheo": Word{Word: "huoichuqcheo", Def: "▯ (pl.) eat one another’s tails.", By: "uakci", Score: 0}, "huoicia": Word{Word: "huoicia", Def: "frog", By: "spreadsheet", Score: 0}, "huoisia": Word{Word: "huoisia", Def: "frog", By: "spreadsheet", Score: -1}, "huokiu": Word{Word: "huokiu", Def: "predicate: ‘audible’; ▯ is audible.", By: "official", Score: 0}, "huosi": Word{Word: "huosi", Def: "predicate: ‘listen’; ▯ listens to ▯.", By: "official", Score: 0}, "huosi ba.": Word{Word: "huosi ba.", Def: "(A0127) Listen!", By: "examples", Score: 0}, "huosi ji baq giaq rao tu chaq da.": Word{Word: "huosi ji baq giaq rao tu chaq da.", Def: "(A0094) I listen to music every day.", By: "examples", Score: 0}, "huosikea": Word{Word: "huosikea", Def: "microphone", By: "spreadsheet", Score: 0}, "huosiu": Word{Word: "huosiu", Def: "▯ sounds like ▯", By: "seaqtaq", Score: 0}, "huosuao": Word{Word: "huosuao", Def: "▯is a phoneme", By: "seaqtaq", Score: 0}, "huotoai": Word{Word: "huotoai", Def: "▯ is a phone(linguistics)", By: "seaqtaq", Score: 0}, "hupa": Word{Word: "hupa", Def: "push", By: "spreadsheet", Score: 0}, "hupa(mieq)chuo": Word{Word: "hupa(mieq)chuo", Def: "▯ is a barometer", By: "seaqtaq", Score: 0}, "hupacheoq": Word{Word: "hupacheoq", Def: "▯ is a tube (container).", By: "Ilmen", Score: 0}, "huparei": Word{Word: "huparei", Def: "▯ squeezes ▯.", By: "Ilmen", Score: 0}, "hupi": Word{Word: "hupi", Def: "fox", By: "spreadsheet", Score: 0}, "huq": Word{Word: "huq", Def: "self-vocative: analogous to «hu», but describes the speaker and not the intended listener.", By: "uakci", Score: 0}, "huqkia": Word{Word: "huqkia", Def: "▯ is a jaguar (Panthera onca).", By: "Ilmen", Score: -1}, "huqsi ka.": Word{Word: "huqsi ka.", Def: "Oops", By: "uakci", Score: 0}, "hura": Word{Word: "hura", Def: "xlura", By: "spreadsheet", Score: -1}, "hurahe": Word{Word: "hurahe", Def: "▯ is a witch", By: "seaqtaq", Score: -1}, "huri": Word{Word: "huri", Def: "▯ is wild, untamed, not domesticated.", By: "Ilmen", Score: 0}, "hurigupaqluko": Word{Word: "hurigupaqluko", Def: "▯ is a wolf-dog.", By: "Ilmen", Score: 0}, "huriluko": Word{Word: "huriluko", Def: "▯ is a wolf.", By: "Ilmen", Score: 0}, "huruguai": Word{Word: "huruguai", Def: "▯ pertains to the culture of Uruguay – Oriental Republic of Uruguay.", By: "countries", Score: 0}, "huruguaigua": Word{Word: "huruguaigua", Def: "▯ is the country Uruguay – Oriental Republic of Uruguay.", By: "countries", Score: 0}, "huruguaitoaq": Word{Word: "huruguaitoaq", Def: "▯ is (one of) the language(s) spoken in Uruguay – Oriental Republic of Uruguay.", By: "countries", Score: 0}, "hushi": Word{Word: "hushi", Def: "▯ has joke ▯ fly over their head.", By: "uakci", Score: 0}, "husho": Word{Word: "husho", Def: "predicate: ‘hush’; ▯ becomes quiet/silent; ▯ hushes.", By: "official", Score: 0}, "husona": Word{Word: "husona", Def: "▯ pertains to the culture of United States – United States of America.", By: "countries", Score: 0}, "husonagua": Word{Word: "husonagua", Def: "▯ is the country United States – United States of America.", By: "countries", Score: 0}, "husonatoaq": Word{Word: "husonatoaq", Def: "▯ is (one of) the language(s) spoken in United States – United States of America.", By: "countries", Score: 0}, "ja": Word{Word: "ja", Def: "quantifier: ‘lambda’; quantifier: lambda", By: "official", Score: 0}, "jai": Word{Word: "jai", Def: "predicate: ‘happy’; ▯ is happy/glad/joyful.", By: "official", Score: 0}, "jai ho kui jiajui jeaqcao da.": Word{Word: "jai ho kui jiajui jeaqcao da.", Def: "(A0212) He's happy because it will soon be spring.", By: "examples", Score: 0}, "jai ji da.": Word{Word: "jai ji da.", Def: "(SMP.1) I am happy.", By: "official", Score: 0}, "jai ji kui lu kuaochaq da.": Word{Word: "jai ji kui lu kuaochaq da.", Def: "(A0244) I'm happy because it's Friday.", By: "examples", Score: 0}, "jaibuq": Word{Word: "jaibuq", Def: "▯ smiles", By: "fagri", Score: 0}, "jaica chaq pa suai shai": Word{Word: "jaica chaq pa suai shai", Def: "(B0019) The happy days passed quickly", By: "examples", Score: 0}, "jaile": Word{Word: "jaile", Def: "▯ is a jail", By: "fagri", Score: -2}, "jailuq": Word{Word: "jailuq", Def: "▯ feels the emotion between joy and calm; ▯ geksurla", By: "fagri", Score: 0}, "jake": Word{Word: "jake", Def: "predicate: ‘jacket’; ▯ is a jacket.", By: "official", Score: 0}, "jamaika": Word{Word: "jamaika", Def: "▯ pertains to the culture of Jamaica.", By: "countries", Score: 0}, "jamaikagua": Word{Word: "jamaikagua", Def: "▯ is the country Jamaica.", By: "countries", Score: 0}, "jamaikatoaq": Word{Word: "jamaikatoaq", Def: "▯ is (one of) the language(s) spoken in Jamaica.", By: "countries", Score: 0}, "jane": Word{Word: "jane", Def: "predicate arity, terbrimei", By: "spreadsheet", Score: 0}, "jao": Word{Word: "jao", Def: "predicate: ‘far’; ▯ is far away from ▯ in property ▯.", By: "official", Score: 0}, "jao miu ji baq poq da.": Word{Word: "jao miu ji baq poq da.", Def: "(A0867) My opinions are far from those of a typical person.", By: "examples", Score: 0}, "jao mu ne dua ji suq gi jiao.": Word{Word: "jao mu ne dua ji suq gi jiao.", Def: "(A0863) We are far apart in how much we know that God is good.", By: "examples", Score: 0}, "jao mu ne joe ho liqho da.": Word{Word: "jao mu ne joe ho liqho da.", Def: "(A0864) They are far from her in how skilled they are.", By: "examples", Score: 0}, "jao mu ne joe koi ho liqho da.": Word{Word: "jao mu ne joe koi ho liqho da.", Def: "(A0865) They are far from her in how skilled they are at walking.", By: "examples", Score: 0}, "jao rao hoq sho bia ji da.": Word{Word: "jao rao hoq sho bia ji da.", Def: "(A0862) It was far (in time) from my becoming sick.", By: "examples", Score: 0}, "jao rao koi ji na jai ji da.": Word{Word: "jao rao koi ji na jai ji da.", Def: "(A0861) My walking is far (in time) from my being happy.", By: "examples", Score: 0}, "jao ti ji suq da.": Word{Word: "jao ti ji suq da.", Def: "(A0859) I am far from you.", By: "examples", Score: 0}, "jao ti ni piohea ji da.": Word{Word: "jao ti ni piohea ji da.", Def: "(A0858) That rock is far from me.", By: "examples", Score: 0}, "jao[kaq]biu": Word{Word: "jao[kaq]biu", Def: "▯ is a telescope.", By: "Hoemai", Score: 0}, "jaodoa": Word{Word: "jaodoa", Def: "▯ sends ▯ to ▯", By: "seaqtaq", Score: 0}, "jaokaise": Word{Word: "jaokaise", Def: "▯ is a telegram.", By: "Ilmen", Score: 0}, "jaokuq": Word{Word: "jaokuq", Def: "predicate: ‘telephone’; ▯ is a telephone / walkie talkie.", By: "official", Score: 0}, "jaq": Word{Word: "jaq", Def: "predicate: ‘very’; ▯ is very much the case; ▯ is very/extremely ▯.", By: "official", Score: 0}, "jaq bu": Word{Word: "jaq bu", Def: "predicate: ‘not.at.all’; ▯ is not at all the case; ▯ does not satisfy property ▯ at all; ▯ very much does not satisfy property ▯.", By: "official", Score: 0}, "jaq bu chỉ ji da.": Word{Word: "jaq bu chỉ ji da.", Def: "(A0409) I don't believe it at all.", By: "examples", Score: 0}, "jaq chuqkuai ji nai da.": Word{Word: "jaq chuqkuai ji nai da.", Def: "(A0242) I'm very hungry now.", By: "examples", Score: 0}, "jaq de baq rua jie ho da.": Word{Word: "jaq de baq rua jie ho da.", Def: "(A0172) The flowers are very beautiful to him.", By: "examples", Score: 0}, "jaq de shu nuai": Word{Word: "jaq de shu nuai", Def: "(QUO.1) The word 'nuai' is very beautiful.", By: "official", Score: 0}, "jaq de suq da.": Word{Word: "jaq de suq da.", Def: "(A0067) You are very beautiful.", By: "examples", Score: 0}, "jaq foi posuq teoq.": Word{Word: "jaq foi posuq teoq.", Def: "(A0496) Your questions are very boring.", By: "examples", Score: 0}, "jaq geo liqreq ho da.": Word{Word: "jaq geo liqreq ho da.", Def: "(A0510) She is a very old woman.", By: "examples", Score: 0}, "jaq geo naqreq ho da.": Word{Word: "jaq geo naqreq ho da.", Def: "(A0509) He is a very old man.", By: "examples", Score: 0}, "jaq geo ni jio da.": Word{Word: "jaq geo ni jio da.", Def: "(A0171) This building is very old", By: "examples", Score: 0}, "jaq gi maq da.": Word{Word: "jaq gi maq da.", Def: "(A0089) It's very good.", By: "examples", Score: 0}, "jaq giomia tu rai!": Word{Word: "jaq giomia tu rai!", Def: "(QUA.2) Everything is so bright!", By: "official", Score: 0}, "jaq lei": Word{Word: "jaq lei", Def: "▯ is rare in property ▯.", By: "Ilmen", Score: 0}, "jaq liu ni puefuq da.": Word{Word: "jaq liu ni puefuq da.", Def: "(A0743) These shoes are very light.", By: "examples", Score: 0}, "jaq luai hoi lua da.": Word{Word: "jaq luai hoi lua da.", Def: "(A0705) That's a very funny story.", By: "examples", Score: 0}, "jaq mia ji li ti ja poq ja gua rao sa rai da.": Word{Word: "jaq mia ji li ti ja poq ja gua rao sa rai da.", Def: "(A0833) I've been to a lot of countries at one point or another.", By: "examples", Score: 0}, "jaq paigi poho luo da.": Word{Word: "jaq paigi poho luo da.", Def: "(A0260) His family is very friendly.", By: "examples", Score: 0}, "jaq piekuai ji da.": Word{Word: "jaq piekuai ji da.", Def: "(A0013) I'm very thirsty.", By: "examples", Score: 0}, "jaq pui lu deq ho hoa da.": Word{Word: "jaq pui lu deq ho hoa da.", Def: "(A0338) He can do a lot of things.", By: "examples", Score: 0}, "jaqbe": Word{Word: "jaqbe", Def: "bell", By: "spreadsheet", Score: -1}, "jaqbia": Word{Word: "jaqbia", Def: "▯ pertains to the culture of Zambia – Republic of Zambia.", By: "oldcountries", Score: 0}, "jaqbiagua": Word{Word: "jaqbiagua", Def: "▯ is the country Zambia – Republic of Zambia.", By: "oldcountries", Score: 0}, "jaqbiaq": Word{Word: "jaqbiaq", Def: "▯ pertains to the culture of Zambia – Republic of Zambia.", By: "countries", Score: 0}, "jaqbiaqgua": Word{Word: "jaqbiaqgua", Def: "▯ is the country Zambia – Republic of Zambia.", By: "countries", Score: 0}, "jaqbiaqtoaq": Word{Word: "jaqbiaqtoaq", Def: "▯ is (one of) the language(s) spoken in Zambia – Republic of Zambia.", By: "countries", Score: 0}, "jaqbiatoaq": Word{Word: "jaqbiatoaq", Def: "▯ is (one of) the language(s) spoken in Zambia – Republic of Zambia.", By: "oldcountries", Score: 0}, "jaqbu": Word{Word: "jaqbu", Def: "▯ is not very much the case; ▯ is somewhat the case. ▯ has property ▯ to some non-extreme extent.", By: "Ilmen", Score: 0}, "jaqchu": Word{Word: "jaqchu", Def: "▯ is mildly the case; ▯ is the case to an average extent.", By: "Ilmen", Score: 0}, "jaqda": Word{Word: "jaqda", Def: "so much", By: "spreadsheet", Score: 0}, "jaqgala": Word{Word: "jaqgala", Def: "predicate: ‘jungle’; ▯ is a jungle.", By: "official", Score: 0}, "jaqge": Word{Word: "jaqge", Def: "▯ seems very good at first, but turns out to be worse and worse the deeper you go into it.", By: "uakci", Score: 0}, "jaqgiq": Word{Word: "jaqgiq", Def: "-> tuao", By: "uakci", Score: 0}, "jaqheo": Word{Word: "jaqheo", Def: "predicate: ‘to.different.degree’; ▯ is not the same amount as ▯ in property ▯.", By: "official", Score: 0}, "jaqhi": Word{Word: "jaqhi", Def: "▯ is moderately ▯; ▯ is not much, but not little in property ▯.", By: "uakci", Score: 0}, "jaqjaq": Word{Word: "jaqjaq", Def: "▯ is extremely the case.", By: "uakci", Score: 0}, "jaqjeq": Word{Word: "jaqjeq", Def: "predicate: ‘to.same.degree’; ▯ is as much as ▯ in property ▯.", By: "official", Score: 0}, "jaqjui": Word{Word: "jaqjui", Def: "▯ is about the same as ▯ in property ▯(1)", By: "fagri", Score: 0}, "jaqlineli": Word{Word: "jaqlineli", Def: "▯ is the amount relation equivalent to the greatness property ▯.", By: "Ilmen", Score: 0}, "jaqluneli": Word{Word: "jaqluneli", Def: "= [10] Sa dósāq sa dójō bı to ru lủcā ru mu lủcā dógū jêo dósāq dóshī to jảqlīnēlī dóshī dójō.", By: "Ilmen", Score: 0}, "jaqnui": Word{Word: "jaqnui", Def: "predicate: ‘tiny’; ▯ is tiny.", By: "official", Score: 0}, "jaqsao": Word{Word: "jaqsao", Def: "predicate: ‘huge’; ▯ is huge.", By: "official", Score: 0}, "jaqso": Word{Word: "jaqso", Def: "so much", By: "spreadsheet", Score: 0}, "jaqtuao": Word{Word: "jaqtuao", Def: "▯ is the case to a rather/somewhat large extent (large but not very much so either); ▯ has property ▯ to a rather/somewhat large extent.", By: "Ilmen", Score: 0}, "jaqtuao doq ni sueta da.": Word{Word: "jaqtuao doq ni sueta da.", Def: "(A0733) This sweater is a little short.", By: "examples", Score: 0}, "jarafa": Word{Word: "jarafa", Def: "predicate: ‘giraffe’; ▯ is a giraffe.", By: "official", Score: 0}, "jashi": Word{Word: "jashi", Def: "zilkai", By: "spreadsheet", Score: 0}, "jbo": Word{Word: "jbo", Def: "stick(y)", By: "spreadsheet", Score: 0}, "je": Word{Word: "je", Def: "sentence prefix: ‘new.sentence’; begin new sentence", By: "official", Score: 0}, "je chuqkuai ji.": Word{Word: "je chuqkuai ji.", Def: "(SPR.1) I am hungry.", By: "official", Score: 0}, "je ma miujeq hoq suq moq": Word{Word: "je ma miujeq hoq suq moq", Def: "isn't it?, consensus-seeking particle", By: "spreadsheet", Score: 0}, "je, bu foqcua ho, ju hoqkui le rara muaq ho, la buoq da.": Word{Word: "je, bu foqcua ho, ju hoqkui le rara muaq ho, la buoq da.", Def: "(A0624) Well, he won't answer the phone, so he's probably dead or something (this sentence is non-serious.)", By: "examples", Score: 0}, "je, due jie ji ku jo da.": Word{Word: "je, due jie ji ku jo da.", Def: "(A0620) Well, I think four is correct.", By: "examples", Score: 0}, "jea": Word{Word: "jea", Def: "tẻq dóshī sa ráı dógū dósāq lî dỏa ja dó dógū dóshī da", By: "uakci", Score: 0}, "jea bo": Word{Word: "jea bo", Def: "▯ buys possesion of ▯", By: "seaqtaq", Score: 0}, "jea bo ho ti jeariaq sa haq da.": Word{Word: "jea bo ho ti jeariaq sa haq da.", Def: "(A0116) He buys some food at the store.", By: "examples", Score: 0}, "jeai": Word{Word: "jeai", Def: "▯ is the same as ▯; ▯ = ▯.", By: "uakci", Score: 0}, "jeajio": Word{Word: "jeajio", Def: "predicate: ‘mall’; ▯ is a mall.", By: "official", Score: 0}, "jeao": Word{Word: "jeao", Def: "▯ and ▯ are in relation ▯.", By: "uakci", Score: 0}, "jeaq": Word{Word: "jeaq", Def: "= [0] Sa dósāq bı lẻaqshīu nê dósāq dógū na nê sa sẻuhūaq dỏsāq dógū;\n= [X1] Sa dójō bı lẻaqshīu nê dósāq jêo dógū dósāq na na nê sa sẻuhūaq dỏjō jêo dógū dósāq.", By: "Ilmen", Score: 0}, "jeaq gi": Word{Word: "jeaq gi", Def: "predicate: ‘improve’; ▯ improves / gets better.", By: "official", Score: 0}, "jeaq gi lua da.": Word{Word: "jeaq gi lua da.", Def: "(A0202) The story gets better.", By: "examples", Score: 0}, "jeaq suai suq ba.": Word{Word: "jeaq suai suq ba.", Def: "(A0213) Go faster!", By: "examples", Score: 0}, "jeaq tijui": Word{Word: "jeaq tijui", Def: "predicate: ‘approach’; ▯ increases in its proximity to ▯.", By: "official", Score: 0}, "jeaqcai": Word{Word: "jeaqcai", Def: "▯ is normal, regular, without additions.", By: "uakci", Score: -1}, "jeaqcao": Word{Word: "jeaqcao", Def: "predicate: ‘spring’; ▯ is spring (season).", By: "official", Score: 0}, "jeaqceo": Word{Word: "jeaqceo", Def: "Ithkuil's Graduative Extension", By: "spreadsheet", Score: 0}, "jeaqcia": Word{Word: "jeaqcia", Def: "▯ satisfies property ▯ at its (their) maximum; ▯ can ▯ no more than they (it) currently are (is).", By: "uakci", Score: 0}, "jeaqcoe": Word{Word: "jeaqcoe", Def: "The more ▯, the more ▯.", By: "lynn", Score: -1}, "jeaqdaibu": Word{Word: "jeaqdaibu", Def: "▯ cannot increase; ▯ is the case to the largest possible extent.", By: "Ilmen", Score: 1}, "jeaqdia": Word{Word: "jeaqdia", Def: "▯ fluctuates in how much it is the case; ▯ fluctuates in how much it satisfies the property ▯.", By: "Ilmen", Score: 1}, "jeaqdiakai": Word{Word: "jeaqdiakai", Def: "▯ WriTEs ▯ oN ▯ LIkE tHiS", By: "seaqtaq", Score: 0}, "jeaqdoa": Word{Word: "jeaqdoa", Def: "predicate: ‘add’; ▯ adds ▯ to ▯.", By: "official", Score: 0}, "jeaqlimi": Word{Word: "jeaqlimi", Def: "▯ is the one-sided mathematical limit of the function ▯ as its input approaches the number ▯ from below.", By: "Ilmen", Score: 0}, "jeaqshe": Word{Word: "jeaqshe", Def: "▯ increases if/as ▯ increases.", By: "Ilmen", Score: 0}, "jeariaq": Word{Word: "jeariaq", Def: "(fork of official) ▯ is a market/shop where things satisfying ▯ can be bought.", By: "lynn", Score: 1}, "jeatoai": Word{Word: "jeatoai", Def: "▯ is a transaction/purchase", By: "seaqtaq", Score: 0}, "jeda": Word{Word: "jeda", Def: "▯ is an assertive sentence.", By: "Ilmen", Score: 0}, "jedai": Word{Word: "jedai", Def: "▯ is a jedi.", By: "Ilmen", Score: 0}, "jehoq": Word{Word: "jehoq", Def: "▯ is the proposition expressed by the previous sentence.", By: "Ilmen", Score: 0}, "jehua": Word{Word: "jehua", Def: "▯ is a/the body part satisfying property ▯ of body ▯.", By: "uakci", Score: 0}, "jei": Word{Word: "jei", Def: "jẻı dó dóshī shè dô dóshī da", By: "uakci", Score: 0}, "jei hi rai posuq chua moq.": Word{Word: "jei hi rai posuq chua moq.", Def: "(A0523) What's your name?", By: "examples", Score: 0}, "jei ji lu jia tai hoa ba.": Word{Word: "jei ji lu jia tai hoa ba.", Def: "(A0217) May I be the one who will succeed!", By: "examples", Score: 0}, "jei mi chaq muaqtua da.": Word{Word: "jei mi chaq muaqtua da.", Def: "(PCT.1) The killer is Chang.", By: "official", Score: 0}, "jei ni lu bai lui ji hoa da.": Word{Word: "jei ni lu bai lui ji hoa da.", Def: "(A0216) This is something made by me.", By: "examples", Score: 0}, "jeibei": Word{Word: "jeibei", Def: "{mei}", By: "spreadsheet", Score: 0}, "jeichiaq": Word{Word: "jeichiaq", Def: "▯ recognises (recognizes) ▯.", By: "uakci", Score: 0}, "jeidua": Word{Word: "jeidua", Def: "▯ knows who/what ▯ is; ▯ knows the identity of ▯.", By: "Hoemai", Score: 0}, "jeigai": Word{Word: "jeigai", Def: "recognize", By: "spreadsheet", Score: 0}, "jeisio": Word{Word: "jeisio", Def: "▯ is identity", By: "seaqtaq", Score: 0}, "jemeq": Word{Word: "jemeq", Def: "▯ pertains to the culture of Yemen – Republic of Yemen.", By: "countries", Score: 0}, "jemeqgua": Word{Word: "jemeqgua", Def: "▯ is the country Yemen – Republic of Yemen.", By: "countries", Score: 0}, "jemeqtoaq": Word{Word: "jemeqtoaq", Def: "▯ is (one of) the language(s) spoken in Yemen – Republic of Yemen.", By: "countries", Score: 0}, "jena": Word{Word: "jena", Def: "earn", By: "spreadsheet", Score: 0}, "jeo": Word{Word: "jeo", Def: "▯ is true / is the case; ▯ satisfies property ▯; ▯ and ▯ are in relation ▯; […]", By: "uakci", Score: 0}, "jeo bi daqmiq mai raq poq ji.": Word{Word: "jeo bi daqmiq mai raq poq ji.", Def: "(PAN.1) Truly, eternal is the love of the person that is me.", By: "official", Score: 0}, "jeo hoe mi hoemai da": Word{Word: "jeo hoe mi hoemai da", Def: "‘Indeed, solpahi is a star.’", By: "uakci", Score: 0}, "jeo hoq da.": Word{Word: "jeo hoq da.", Def: "(A0190) It's true.", By: "examples", Score: 0}, "jeo juqguo ho da.": Word{Word: "jeo juqguo ho da.", Def: "(A0532) He is indeed chinese.", By: "examples", Score: 0}, "jeo kuqshao ji shu teq da.": Word{Word: "jeo kuqshao ji shu teq da.", Def: "(A0493) Indeed, I meant \"teq.\"", By: "examples", Score: 0}, "jeo sia lu ruaq suq hoa da.": Word{Word: "jeo sia lu ruaq suq hoa da.", Def: "(A0191) Nothing you say is true.", By: "examples", Score: 0}, "jeobu": Word{Word: "jeobu", Def: "▯ is the truth value of the lufe ▯", By: "fagri", Score: 0}, "jeocho": Word{Word: "jeocho", Def: "▯ likes things that satisfy property ▯; ▯ likes all that ▯'s.", By: "uakci", Score: 0}, "jeocu": Word{Word: "jeocu", Def: "predicate modifier: move x3 first", By: "spreadsheet", Score: 0}, "jeocueche": Word{Word: "jeocueche", Def: "▯ belongs to the Euarchonta taxonomic grandorder (treeshrews, colugos and primates).", By: "Ilmen", Score: 0}, "jeocuechegalei": Word{Word: "jeocuechegalei", Def: "▯ belongs to the Euarchontoglires taxonomic superorder.", By: "Ilmen", Score: 0}, "jeoduaidoa": Word{Word: "jeoduaidoa", Def: "▯ proves that ▯ must be the case.", By: "uakci", Score: 0}, "jeofe": Word{Word: "jeofe", Def: "Proposition ▯ is true if ▯ is assigned to its fifth place.", By: "uakci", Score: 1}, "jeofuaq": Word{Word: "jeofuaq", Def: "▯ is a picture representing the proposition ▯.", By: "Ilmen", Score: 0}, "jeogi": Word{Word: "jeogi", Def: "▯ is suitable/appropriate for satisfying property ▯.", By: "Ilmen", Score: 0}, "jeogo": Word{Word: "jeogo", Def: "predicate modifier: move x2 first", By: "spreadsheet", Score: 0}, "jeogupaq": Word{Word: "jeogupaq", Def: "half-true", By: "spreadsheet", Score: 0}, "jeohi": Word{Word: "jeohi", Def: "what are the properties satisfied by ▯? what is the relation between ▯ and ▯ (and ▯ (…))?", By: "Ilmen", Score: 1}, "jeohuaq": Word{Word: "jeohuaq", Def: "predicate: ‘rather’; ▯ is rather the case than ▯; ▯ is more true than ▯.", By: "official", Score: 0}, "jeoi": Word{Word: "jeoi", Def: "[LU] ▯ is the proposition [proposition], which is true.", By: "uakci", Score: 0}, "jeojeo": Word{Word: "jeojeo", Def: "▯ is for sure / certainly true; ▯ surely / certainly satisfies property ▯", By: "fagri", Score: 0}, "jeojeq": Word{Word: "jeojeq", Def: "shẻ dóshī dógū, na ru shẻ dógū dóshī da", By: "uakci", Score: 0}, "jeojuaq": Word{Word: "jeojuaq", Def: "even ▯ is the case; it is even the case that ▯ satisfies the property ▯.", By: "Ilmen", Score: 0}, "jeojui": Word{Word: "jeojui", Def: "predicate: ‘almost’; ▯ is almost the case; ▯ almost satisfies property ▯.", By: "official", Score: 1}, "jeoke": Word{Word: "jeoke", Def: "predicate modifier: move x4 first", By: "spreadsheet", Score: 0}, "jeoko": Word{Word: "jeoko", Def: "Exactly one of ▯, ▯, ▯… is the case; ▯ ⩡ ▯ ⩡ ▯\u00a0⩡\u00a0…", By: "uakci", Score: 0}, "jeolu": Word{Word: "jeolu", Def: "proposition (logic)", By: "spreadsheet", Score: 0}, "jeomao": Word{Word: "jeomao", Def: "▯ is also the case; it is also the case that ▯ satisfies the property ▯.", By: "Ilmen", Score: 0}, "jeomieq": Word{Word: "jeomieq", Def: "verify", By: "spreadsheet", Score: 0}, "jeomieqtue": Word{Word: "jeomieqtue", Def: "test", By: "spreadsheet", Score: 0}, "jeomoe": Word{Word: "jeomoe", Def: "have an impression/huch that", By: "spreadsheet", Score: -1}, "jeomuo": Word{Word: "jeomuo", Def: "▯ is exactly true, not imprecise at all", By: "fagri", Score: 0}, "jeone": Word{Word: "jeone", Def: "= #manē", By: "uakci", Score: 0}, "jeonue": Word{Word: "jeonue", Def: "predicate: ‘promise’; ▯ promises to ▯ that ▯ is the case.", By: "official", Score: 0}, "jeopuine": Word{Word: "jeopuine", Def: "ilka'u, kaidza / ▯ is the number of things having property ▯ (among ▯)", By: "spreadsheet", Score: 0}, "jeoq": Word{Word: "jeoq", Def: "predicate: ‘concave’; ▯ is a concave shape; ▯ is a cavity/hollow/cavern.", By: "official", Score: 0}, "jeoqchuo": Word{Word: "jeoqchuo", Def: "▯ is a bowl/pan/basin/tub.", By: "Ilmen", Score: 0}, "jeoqhua": Word{Word: "jeoqhua", Def: "▯ is a pelvis.", By: "uakci", Score: 0}, "jeorioi": Word{Word: "jeorioi", Def: "(fork of #98INR8O34) (fork of #uj3xeJG6G) ▯ is the case instead of ▯ being the case; ▯ instead of ▯ satisfies property ▯", By: "seaqtaq", Score: 0}, "jeoriu": Word{Word: "jeoriu", Def: "Resumptive Aspect", By: "spreadsheet", Score: 0}, "jeoru": Word{Word: "jeoru", Def: "▯ is the case and ▯ is the case; ▯ satisfies property ▯ and satisfies property ▯.", By: "uakci", Score: 0}, "jeoruaq": Word{Word: "jeoruaq", Def: "▯ confirms that ▯ is true", By: "fagri", Score: 0}, "jeotaq": Word{Word: "jeotaq", Def: "Property ▯ satisfies itself.", By: "uakci", Score: 0}, "jeotiao": Word{Word: "jeotiao", Def: "▯ is suitable for satisfying property ▯.", By: "Ilmen", Score: 0}, "jeotichio": Word{Word: "jeotichio", Def: "In/at ▯, there are ▯ (number) of ▯/1-ers.", By: "uakci", Score: 0}, "jeotoa": Word{Word: "jeotoa", Def: "verb", By: "spreadsheet", Score: 0}, "jeq": Word{Word: "jeq", Def: "= [XX2] Tu dójō bı sa jẻo dỏsāq to re dóshī dójō to dógū dójō.", By: "Ilmen", Score: 0}, "jeqdaruo": Word{Word: "jeqdaruo", Def: "▯ exhibits / performs gender ▯ (property).", By: "lynn", Score: 0}, "jeqheo": Word{Word: "jeqheo", Def: "▯ is the same as ▯ except for ▯ (2)", By: "fagri", Score: 0}, "jeqhuaq": Word{Word: "jeqhuaq", Def: "≥", By: "spreadsheet", Score: 0}, "jeqjeq": Word{Word: "jeqjeq", Def: "uniform", By: "spreadsheet", Score: 0}, "jeqkuoi": Word{Word: "jeqkuoi", Def: "≤", By: "spreadsheet", Score: 0}, "jeqmaq": Word{Word: "jeqmaq", Def: "Proximal \"it\"", By: "spreadsheet", Score: 0}, "jeqshoai": Word{Word: "jeqshoai", Def: "▯ is a member of infraorder Isoptera (the termites).", By: "Hoemai", Score: 0}, "jeqshuaq": Word{Word: "jeqshuaq", Def: "predicate: ‘copy’; ▯ copies ▯; ▯ produces an object identical to ▯.", By: "official", Score: 0}, "jeqti": Word{Word: "jeqti", Def: "▯ (roı) are all at the same place", By: "seaqtaq", Score: 0}, "jeqtu": Word{Word: "jeqtu", Def: "predicate: ‘identical’; ▯ is identical to ▯.", By: "official", Score: 0}, "jeu": Word{Word: "jeu", Def: "Shorthand for \"ja rái\"", By: "fagri", Score: 0}, "ji": Word{Word: "ji", Def: "[X ⚙] Lảı shú jỉ lú kủq hóa kúqsē pǎq hóı tỏa hóa da.", By: "Ilmen", Score: 0}, "ji da.": Word{Word: "ji da.", Def: "(A0285) It's me.", By: "examples", Score: 0}, "ji ru poji naqpia pa joe luaq shaha da.": Word{Word: "ji ru poji naqpia pa joe luaq shaha da.", Def: "(A0503) My brother and I are skilled at playing chess.", By: "examples", Score: 0}, "jia": Word{Word: "jia", Def: "= [00] Bỉe dóshī náı.", By: "Ilmen", Score: 0}, "jia chaocaq suq gusioq ro riochao": Word{Word: "jia chaocaq suq gusioq ro riochao", Def: "(A0469) You will ride a bike or (pilot) an airplane.", By: "examples", Score: 0}, "jia haqsue ji to ra galonueq to bakanueq.": Word{Word: "jia haqsue ji to ra galonueq to bakanueq.", Def: "(A0424) I will order either chicken or beef, or both.", By: "examples", Score: 0}, "jia hi rai moq.": Word{Word: "jia hi rai moq.", Def: "(A0166) What will happen?", By: "examples", Score: 0}, "jia nuo suq ti hi rai moq.": Word{Word: "jia nuo suq ti hi rai moq.", Def: "(A0451) Where will you sleep?", By: "examples", Score: 0}, "jia ti dai ji hoi riaq da.": Word{Word: "jia ti dai ji hoi riaq da.", Def: "(A0053) I may be there in the future.", By: "examples", Score: 0}, "jiachaq": Word{Word: "jiachaq", Def: "predicate: ‘tomorrow’; ▯ is tomorrow; ▯ is the day after today.", By: "official", Score: 0}, "jiadiu": Word{Word: "jiadiu", Def: "▯ is futurology.", By: "Ilmen", Score: 0}, "jiai": Word{Word: "jiai", Def: "predicate: ‘grasp’; ▯ grasps/holds ▯.", By: "official", Score: 0}, "jiai suq po ji ga muq ba.": Word{Word: "jiai suq po ji ga muq ba.", Def: "(ILL.5) Take my hand.", By: "official", Score: 0}, "jiai suq poji muq ba.": Word{Word: "jiai suq poji muq ba.", Def: "(A0174) You ought to hold my hand.", By: "examples", Score: 0}, "jiaideq": Word{Word: "jiaideq", Def: "▯ is prehensile.", By: "Ilmen", Score: 0}, "jiaigue": Word{Word: "jiaigue", Def: "▯ is a hook.", By: "uakci", Score: 0}, "jiaikoi": Word{Word: "jiaikoi", Def: "predicate: ‘climb’; ▯ climbs.", By: "official", Score: 0}, "jiainioq": Word{Word: "jiainioq", Def: "▯ is a canine teeth/cuspid/fang.", By: "Ilmen", Score: 0}, "jiainua": Word{Word: "jiainua", Def: "predicate: ‘remove’; ▯ takes/removes ▯ from ▯.", By: "official", Score: 0}, "jiaipaq": Word{Word: "jiaipaq", Def: "handle", By: "spreadsheet", Score: -1}, "jiaise": Word{Word: "jiaise", Def: "▯ is a handful / an amount or volume grasped.", By: "lynn", Score: 0}, "jiaishiqhua": Word{Word: "jiaishiqhua", Def: "▯ is a prehensile nose trunk (proboscis).", By: "Ilmen", Score: 0}, "jiaisoi": Word{Word: "jiaisoi", Def: "wrestle", By: "spreadsheet", Score: 0}, "jiaitai": Word{Word: "jiaitai", Def: "catch", By: "spreadsheet", Score: 0}, "jiajao": Word{Word: "jiajao", Def: "predicate: ‘a.long.time.from.now’; ▯ will happen a long time from now.", By: "official", Score: 0}, "jiajiachaq": Word{Word: "jiajiachaq", Def: "▯ is the day after tomorrow.", By: "lynn", Score: 0}, "jiajoa": Word{Word: "jiajoa", Def: "▯ is next week.", By: "lynn", Score: 0}, "jiajue": Word{Word: "jiajue", Def: "▯ is next month.", By: "lynn", Score: 0}, "jiajui": Word{Word: "jiajui", Def: "= #jıa ru #nảıjūı", By: "uakci", Score: 0}, "jiakoe": Word{Word: "jiakoe", Def: "▯ plans to do ▯.", By: "Ilmen", Score: 0}, "jiane": Word{Word: "jiane", Def: "▯ is the time separating the future event ▯ from now.", By: "Ilmen", Score: 0}, "jianiaq": Word{Word: "jianiaq", Def: "▯ is next year.", By: "lynn", Score: 0}, "jiao": Word{Word: "jiao", Def: "predicate: ‘god’; ▯ is a god.", By: "official", Score: 0}, "jiaodeoq": Word{Word: "jiaodeoq", Def: "▯ prays / communicates with supernatural or divine being ▯.", By: "Ilmen", Score: 0}, "jiaodīu": Word{Word: "jiaodīu", Def: "▯ is theology.", By: "lynn", Score: 0}, "jiaohui": Word{Word: "jiaohui", Def: "(fork of #VRpFtCyZB) ▯ is blasphemy; ▯ commits blasphemy ▯.", By: "uakci", Score: 1}, "jiaojie": Word{Word: "jiaojie", Def: "▯ has ▯ as their god; ▯ believes in god ▯.", By: "uakci", Score: 0}, "jiaojio": Word{Word: "jiaojio", Def: "predicate: ‘temple’; ▯ is a temple/church/sanctuary/synagogue/shrine.", By: "official", Score: 0}, "jiaokuq": Word{Word: "jiaokuq", Def: "▯ preaches", By: "fagri", Score: 0}, "jiaolua": Word{Word: "jiaolua", Def: "▯ is a myth.", By: "Ilmen", Score: 0}, "jiaoraq": Word{Word: "jiaoraq", Def: "▯ is divine", By: "seaqtaq", Score: 0}, "jiaosue": Word{Word: "jiaosue", Def: "▯ prays supernatural or higher being ▯ for making ▯ be the case.", By: "Ilmen", Score: 0}, "jiaotuaichaq": Word{Word: "jiaotuaichaq", Def: "▯ is Corpus Christi (the holiday).", By: "uakci", Score: 0}, "jiaq": Word{Word: "jiaq", Def: "▯ is Guillaume.", By: "uakci", Score: -1}, "jiaq lu ti hoa bi dai tu rai": Word{Word: "jiaq lu ti hoa bi dai tu rai", Def: "(STP.2) a world where anything is possible", By: "official", Score: 0}, "jiaq pa de ru sao da.": Word{Word: "jiaq pa de ru sao da.", Def: "(A0168) The world is beautiful and big.", By: "examples", Score: 0}, "jiaqbu": Word{Word: "jiaqbu", Def: "▯ is false in world ▯.", By: "Ilmen", Score: 0}, "jiaqjeo": Word{Word: "jiaqjeo", Def: "▯ is true in world ▯.", By: "Ilmen", Score: 0}, "jiaqkoai": Word{Word: "jiaqkoai", Def: "▯ is the World Wide Web; ▯ is the Internet.", By: "Hoemai", Score: 0}, "jiaqtu": Word{Word: "jiaqtu", Def: "predicate: ‘universe’; ▯ is the universe.", By: "official", Score: 0}, "jiashao": Word{Word: "jiashao", Def: "predicate: ‘hope’; ▯ hopes that ▯ will be the case.", By: "official", Score: 0}, "jiashao ji lu rao nichaq bi daqshei sea ji da.": Word{Word: "jiashao ji lu rao nichaq bi daqshei sea ji da.", Def: "(STP.1) I hope that today, I'll have time to relax.", By: "official", Score: 0}, "jicha": Word{Word: "jicha", Def: "jikca", By: "spreadsheet", Score: -1}, "jicho": Word{Word: "jicho", Def: "▯ is something I like. (“I like ▯.”)", By: "lynn", Score: 0}, "jicho laq po shuashoe go chai loq cu bio da.": Word{Word: "jicho laq po shuashoe go chai loq cu bio da.", Def: "(A0627) I like the sound of hot tea being poured into a cup.", By: "examples", Score: 0}, "jichosoq": Word{Word: "jichosoq", Def: "▯ is my favorite among ▯.", By: "lynn", Score: 0}, "jidao": Word{Word: "jidao", Def: "▯ is a fennec.", By: "Ilmen", Score: 0}, "jie": Word{Word: "jie", Def: "= mu #mỉu", By: "uakci", Score: -1}, "jie ji": Word{Word: "jie ji", Def: "pe'i, in my opinion", By: "spreadsheet", Score: 0}, "jiegiqlu": Word{Word: "jiegiqlu", Def: "▯ is objective", By: "seaqtaq", Score: 0}, "jiehe": Word{Word: "jiehe", Def: "▯ is regarded as true by most.", By: "uakci", Score: 0}, "jiekiu": Word{Word: "jiekiu", Def: "▯ is subjective", By: "seaqtaq", Score: 0}, "jiekiugiq": Word{Word: "jiekiugiq", Def: "▯ is objective", By: "seaqtaq", Score: 0}, "jielu": Word{Word: "jielu", Def: "▯ is subjective", By: "seaqtaq", Score: 0}, "jieq": Word{Word: "jieq", Def: "predicate: ‘tip’; ▯ is a tip / pointed end.", By: "official", Score: 0}, "jieqgiu": Word{Word: "jieqgiu", Def: "(fork of #uB9fSiocb) ▯ is an angle", By: "seaqtaq", Score: 0}, "jieqgiune": Word{Word: "jieqgiune", Def: "(fork of #Uy-_Gua5X) ▯ is the angle of ▯", By: "seaqtaq", Score: 0}, "jieqguese": Word{Word: "jieqguese", Def: "▯ is an angle", By: "seaqtaq", Score: 0}, "jieqlai": Word{Word: "jieqlai", Def: "(fork of #dynyHRDb0) ▯ is an arrow (symbol).", By: "seaqtaq", Score: 0}, "jigi": Word{Word: "jigi", Def: "▯ is done with me as the beneficient; ▯ is done for me.", By: "uakci", Score: 0}, "jihao": Word{Word: "jihao", Def: "▯ is us (me and the others).", By: "Ilmen", Score: 0}, "jijie": Word{Word: "jijie", Def: "▯ is how I deem/judge things to be / is my opinion.", By: "lynn", Score: 0}, "jiloq": Word{Word: "jiloq", Def: "▯ is a free Toaq root; ▯ is a Guillaume.", By: "uakci", Score: 0}, "jine": Word{Word: "jine", Def: "ring, shape", By: "spreadsheet", Score: -1}, "jinu": Word{Word: "jinu", Def: "intuit", By: "spreadsheet", Score: -1}, "jio": Word{Word: "jio", Def: "predicate: ‘building’; ▯ is a building.", By: "official", Score: 0}, "jiobaipio": Word{Word: "jiobaipio", Def: "▯ is construction material, mortar, plaster, .etc", By: "seaqtaq", Score: 0}, "jiobaisai": Word{Word: "jiobaisai", Def: "(fork of #7PdZ-UKNr) ▯ is construction material, mortar, plaster, .etc", By: "seaqtaq", Score: 0}, "jiobiu": Word{Word: "jiobiu", Def: "▯ is a chimney", By: "seaqtaq", Score: 0}, "jiochea": Word{Word: "jiochea", Def: "roof", By: "spreadsheet", Score: 0}, "jiodīu": Word{Word: "jiodīu", Def: "▯ is architecture.", By: "lynn", Score: 1}, "jioi": Word{Word: "jioi", Def: "predicate to conjunction: turns the following binary predicate into a logical conjunction; terminator: \"ga\".", By: "Ilmen", Score: 1}, "jioluko": Word{Word: "jioluko", Def: "▯ is a dog (canis lupus familiaris).", By: "Ilmen", Score: 0}, "jiopuefuq": Word{Word: "jiopuefuq", Def: "▯ is a slipper.", By: "Ilmen", Score: 0}, "jioq": Word{Word: "jioq", Def: "gủaı dóshī lî dủachīe ja dó hı râı sa lú to ru sẻu hóa to pủıjēq hóa dógū da", By: "uakci", Score: 0}, "jioqdiu": Word{Word: "jioqdiu", Def: "mathematics", By: "spreadsheet", Score: 1}, "jioqkea": Word{Word: "jioqkea", Def: "predicate: ‘computer’; ▯ is a computer.", By: "official", Score: 0}, "jioqtai": Word{Word: "jioqtai", Def: "▯ calculates that ▯ is what satisfies property ▯.", By: "Ilmen", Score: 0}, "jipa": Word{Word: "jipa", Def: "serial predicate operator: fill in first place of following verb with «jí»", By: "uakci", Score: -2}, "jipoi": Word{Word: "jipoi", Def: "▯ is an event in which I am x1.", By: "uakci", Score: 1}, "jiq": Word{Word: "jiq", Def: "tỉ dóshī ní jỉaq da", By: "uakci", Score: 0}, "jiqbabue": Word{Word: "jiqbabue", Def: "▯ pertains to the culture of Zimbabwe – Republic of Zimbabwe.", By: "countries", Score: 0}, "jiqbabuegua": Word{Word: "jiqbabuegua", Def: "▯ is the country Zimbabwe – Republic of Zimbabwe.", By: "countries", Score: 0}, "jiqbabuetoaq": Word{Word: "jiqbabuetoaq", Def: "▯ is (one of) the language(s) spoken in Zimbabwe – Republic of Zimbabwe.", By: "countries", Score: 0}, "jiqchuaq": Word{Word: "jiqchuaq", Def: "▯ is existentialism", By: "seaqtaq", Score: 0}, "jiqci": Word{Word: "jiqci", Def: "▯ (property) is inherent/inalienable to ▯", By: "fagri", Score: 0}, "jiqdiu": Word{Word: "jiqdiu", Def: "physics", By: "spreadsheet", Score: 0}, "jiqdua": Word{Word: "jiqdua", Def: "predicate: ‘know’; ▯ knows that ▯ exists.", By: "official", Score: 0}, "jiqga": Word{Word: "jiqga", Def: "win", By: "spreadsheet", Score: -1}, "jiqjeo": Word{Word: "jiqjeo", Def: "▯ is literally true (not a metaphor)", By: "fagri", Score: 0}, "jiqjiaq": Word{Word: "jiqjiaq", Def: "▯ is reality.", By: "Hoemai", Score: 0}, "jiqkame": Word{Word: "jiqkame", Def: "▯ is Camellia sinensis (plant used to make tea).", By: "Ilmen", Score: 1}, "jiqkaq": Word{Word: "jiqkaq", Def: "▯ is real; ▯ is out there.", By: "uakci", Score: 0}, "jiqnoi": Word{Word: "jiqnoi", Def: "weltschmerz", By: "spreadsheet", Score: 0}, "jiqpaq": Word{Word: "jiqpaq", Def: "▯ is what's left of ▯; ▯ is the rest of ▯", By: "fagri", Score: -1}, "jiqshi": Word{Word: "jiqshi", Def: "▯ is an entity.", By: "uakci", Score: 0}, "jiqte": Word{Word: "jiqte", Def: "limit", By: "spreadsheet", Score: -1}, "jiqtiao": Word{Word: "jiqtiao", Def: "accurate", By: "spreadsheet", Score: 0}, "jirafa": Word{Word: "jirafa", Def: "giraffe", By: "spreadsheet", Score: 0}, "jire": Word{Word: "jire", Def: "▯ is in relation ▯/2 with me.", By: "uakci", Score: 0}, "jiu": Word{Word: "jiu", Def: "predicate: ‘born’; ▯ is born.", By: "official", Score: 0}, "jiu poji naqpao rao fejue da.": Word{Word: "jiu poji naqpao rao fejue da.", Def: "(A0147) My dad was born in May.", By: "examples", Score: 0}, "jiuchaq": Word{Word: "jiuchaq", Def: "predicate: ‘birthday’; ▯ is a birthday of ▯.", By: "official", Score: 0}, "jiuhua": Word{Word: "jiuhua", Def: "▯ is a womb/uterus.", By: "Ilmen", Score: 0}, "jiujiaq": Word{Word: "jiujiaq", Def: "▯ is ▯'s homeworld", By: "seaqtaq", Score: 0}, "jiuna": Word{Word: "jiuna", Def: "compete", By: "spreadsheet", Score: -1}, "jiupune": Word{Word: "jiupune", Def: "age", By: "spreadsheet", Score: 0}, "jiuriaq": Word{Word: "jiuriaq", Def: "▯ is where ▯ was born; ▯ is ▯'s birthplace.", By: "uakci", Score: 0}, "jiuseaqrioq": Word{Word: "jiuseaqrioq", Def: "▯ is sex", By: "seaqtaq", Score: 0}, "jỉa leo kuq jí maq no mí toaq da.": Word{Word: "jỉa leo kuq jí maq no mí toaq da.", Def: "(A0352) I'll try to say it in Toaq.", By: "examples", Score: 0}, "jo": Word{Word: "jo", Def: "predicate: ‘four’; ▯ are four in number.", By: "official", Score: 0}, "joa": Word{Word: "joa", Def: "predicate: ‘week’; ▯ is a week.", By: "official", Score: 0}, "joachaq": Word{Word: "joachaq", Def: "predicate: ‘weekday’; ▯ is a weekday (day of the week).", By: "official", Score: 0}, "joachu": Word{Word: "joachu", Def: "predicate: ‘during.the.weak’; ▯ is during the week (not during a weekend).", By: "oldofficial", Score: 0}, "joaci": Word{Word: "joaci", Def: "Saturday", By: "uakci", Score: 0}, "joadiai": Word{Word: "joadiai", Def: "Sunday", By: "uakci", Score: 0}, "joadiaq": Word{Word: "joadiaq", Def: "predicate: ‘weekly’; ▯ occurs weekly.", By: "official", Score: 0}, "joafao": Word{Word: "joafao", Def: "predicate: ‘weekend’; ▯ is a weekend.", By: "official", Score: 0}, "joafe": Word{Word: "joafe", Def: "Friday", By: "uakci", Score: 0}, "joagu": Word{Word: "joagu", Def: "▯ is a fortnight", By: "seaqtaq", Score: 0}, "joai": Word{Word: "joai", Def: "sỉ dóshī sa pó dóshī ga rẻı kùı shâo dóshī shô dủa dóshī tî go hı ráı sa lú to ru jẻo hóa dógū to bủ hảı tỉdūa dóshī hóa da", By: "uakci", Score: 0}, "joai suq chufaq hi rai moq.": Word{Word: "joai suq chufaq hi rai moq.", Def: "(A0186) What are you looking for?", By: "examples", Score: 0}, "joai suq ji da.": Word{Word: "joai suq ji da.", Def: "(A0187) I'm looking for you.", By: "examples", Score: 0}, "joaitai": Word{Word: "joaitai", Def: "▯ finds (succeeds in searching for) something satisfying property ▯", By: "fagri", Score: 0}, "joajo": Word{Word: "joajo", Def: "Thursday", By: "uakci", Score: 0}, "joajoq": Word{Word: "joajoq", Def: "Sunday", By: "uakci", Score: 0}, "joaq": Word{Word: "joaq", Def: "director", By: "spreadsheet", Score: 0}, "joasaq": Word{Word: "joasaq", Def: "Wednesday", By: "uakci", Score: 0}, "joashi": Word{Word: "joashi", Def: "Monday", By: "uakci", Score: 0}, "joe": Word{Word: "joe", Def: "dẻq dóshī dógū, na ru gỉ lú cả go hóa tâo dóshī dógū da", By: "uakci", Score: 0}, "joe joai ni kune li po marihuana ga shiq se puichio chietua da.": Word{Word: "joe joai ni kune li po marihuana ga shiq se puichio chietua da.", Def: "(A0996) This dog is skilled at searching for the smell of marijuana as a result of teaching (it) many times.", By: "examples", Score: 0}, "joe liai ho da.": Word{Word: "joe liai ho da.", Def: "(A0522) He swims well.", By: "examples", Score: 0}, "joe moaq ji da.": Word{Word: "joe moaq ji da.", Def: "(A0107) I have a good memory.", By: "examples", Score: 0}, "joecaq": Word{Word: "joecaq", Def: "▯ is a master, mentor, teacher, guru.", By: "uakci", Score: 0}, "joegi": Word{Word: "joegi", Def: "▯ is a master at ▯.", By: "uakci", Score: 0}, "joejaq": Word{Word: "joejaq", Def: "▯ is expert at satisfying property ▯.", By: "Ilmen", Score: 0}, "joemieq": Word{Word: "joemieq", Def: "▯ assesses the level of skill of ▯ in skill ▯ (property)", By: "Ilmen", Score: 0}, "joepoi": Word{Word: "joepoi", Def: "▯ does ▯/1 while being good at it; to ru jỏe to tảo ▯ ▯.", By: "uakci", Score: 0}, "joetao": Word{Word: "joetao", Def: "predicate: ‘practice’; ▯ practices skill ▯.", By: "official", Score: 0}, "joetao ho rao tu nuaq da.": Word{Word: "joetao ho rao tu nuaq da.", Def: "(A0112) He practices every night.", By: "examples", Score: 0}, "joetao ji ba.": Word{Word: "joetao ji ba.", Def: "(A0111) I ought to practice.", By: "examples", Score: 0}, "joetao suq ba.": Word{Word: "joetao suq ba.", Def: "(A0110) You ought to practice.", By: "examples", Score: 0}, "joi": Word{Word: "joi", Def: "predicate: ‘along.with’; ▯ is case the case along with ▯; ▯ happens together with ▯.", By: "official", Score: 0}, "joigiq": Word{Word: "joigiq", Def: "▯ is the case instead of ▯", By: "seaqtaq", Score: 0}, "joikeo": Word{Word: "joikeo", Def: "▯ is true, but ▯ is true as well.", By: "seaqtaq", Score: 0}, "joirioi": Word{Word: "joirioi", Def: "▯ is the case instead of ▯ being the case", By: "seaqtaq", Score: 0}, "jojieq": Word{Word: "jojieq", Def: "▯ is a square.", By: "Ilmen", Score: 0}, "jojue": Word{Word: "jojue", Def: "▯ is April", By: "Xeizzen", Score: 0}, "jojue pa tua moi ji duao ru baq rua. ": Word{Word: "jojue pa tua moi ji duao ru baq rua. ", Def: "(A0145) April reminds me of sugar and flowers.", By: "examples", Score: 0}, "joko": Word{Word: "joko", Def: "predicate: ‘fourth’; ▯ is fourth among ▯.", By: "official", Score: 0}, "jolaqtei": Word{Word: "jolaqtei", Def: "▯ is the fourth tone (peaking).", By: "lynn", Score: -3}, "joliaq": Word{Word: "joliaq", Def: "predicate: ‘quartet’; ▯ is a quartet.", By: "official", Score: 0}, "jolu": Word{Word: "jolu", Def: "For X = ▯, relation ▯/2 holds for that X has property ▯ and that X has property ▯; For <X, C, P1, P2> = <▯, ▯, ▯, ▯>, C(<P1(X)>, <P2(X)>).", By: "uakci", Score: 0}, "jopue": Word{Word: "jopue", Def: "▯ is a tetrapod (Tetrapoda taxonomic superclass).", By: "Ilmen", Score: 0}, "joq": Word{Word: "joq", Def: "= #soq #sủao", By: "uakci", Score: 0}, "joqdoaq": Word{Word: "joqdoaq", Def: "predicate: ‘capital’; ▯ is a capital city of ▯.", By: "official", Score: 0}, "joqhiu": Word{Word: "joqhiu", Def: "▯ is the Main.", By: "uakci", Score: 0}, "joqhua": Word{Word: "joqhua", Def: "predicate: ‘head’; ▯ is a head (body part).", By: "official", Score: 0}, "joqkiaq": Word{Word: "joqkiaq", Def: "▯ is head hair.", By: "Ilmen", Score: 0}, "joqkua": Word{Word: "joqkua", Def: "▯ is a living room", By: "fagri", Score: 0}, "joqluapoq": Word{Word: "joqluapoq", Def: "▯ is a protagonist in story/movie/book/TV show ▯", By: "fagri", Score: 0}, "joqmuq": Word{Word: "joqmuq", Def: "▯ is the dominant hand of ▯.", By: "Ilmen", Score: 0}, "joqreo": Word{Word: "joqreo", Def: " ▯ is a hue.", By: "Ilmen", Score: 0}, "joqriaq": Word{Word: "joqriaq", Def: "▯ is the main place of ▯ being done among ▯.", By: "uakci", Score: 0}, "joqshaq": Word{Word: "joqshaq", Def: "predicate: ‘face’; ▯ is a face.", By: "official", Score: 0}, "joqshaqmuqtoq": Word{Word: "joqshaqmuqtoq", Def: "▯ face-palms.", By: "uakci", Score: 0}, "joqshaqtie": Word{Word: "joqshaqtie", Def: "▯ is a mask.", By: "Ilmen", Score: 0}, "joqtoai": Word{Word: "joqtoai", Def: "▯ is a protein", By: "seaqtaq", Score: 0}, "joqtoaihui": Word{Word: "joqtoaihui", Def: "▯ is a prion", By: "seaqtaq", Score: 0}, "josheaq": Word{Word: "josheaq", Def: "▯ stands quadrupedally / on four legs, or with both feet and hands.", By: "Ilmen", Score: 0}, "josheaqhe": Word{Word: "josheaqhe", Def: "▯ is a quadrupede.", By: "Ilmen", Score: 0}, "ju": Word{Word: "ju", Def: "free modifier: ‘begin.incidental’; begin incidental clause", By: "official", Score: 0}, "jua": Word{Word: "jua", Def: "bủ lẻjīe dóshī sa pó dógū da", By: "uakci", Score: 0}, "jua kea ni da.": Word{Word: "jua kea ni da.", Def: "(A0254) This is a strange machine.", By: "examples", Score: 0}, "juabea": Word{Word: "juabea", Def: "▯ is a xenarthran (Xenarthra taxonomic superorder: the anteaters, sloths, armadillos, glyptodonts, and pampatheriids).", By: "Ilmen", Score: 0}, "juacia": Word{Word: "juacia", Def: "normal (not strange)", By: "spreadsheet", Score: 0}, "juagiq": Word{Word: "juagiq", Def: "▯ is ordinary/normal/regular", By: "seaqtaq", Score: 0}, "juai": Word{Word: "juai", Def: "predicate: ‘serious’; ▯ is serious/earnest.", By: "official", Score: 0}, "juai kui tisha sa ruai neoq goe tuao minu da.": Word{Word: "juai kui tisha sa ruai neoq goe tuao minu da.", Def: "(A0940) There is seriousness because some noble Mr./Mrs./Ms./Miss. will arrive in few minutes.", By: "examples", Score: 0}, "jualuai": Word{Word: "jualuai", Def: "▯ is absurd, grotesque, ridiculous, ludicrous.", By: "uakci", Score: 0}, "juamiu": Word{Word: "juamiu", Def: "▯ finds ▯ weird.", By: "Ilmen", Score: 0}, "juao": Word{Word: "juao", Def: "predicate: ‘rule’; ▯ is a rule/law.", By: "official", Score: 0}, "juaobui": Word{Word: "juaobui", Def: "▯ is an exception(to rule▯)", By: "seaqtaq", Score: 0}, "juaoche": Word{Word: "juaoche", Def: "▯ is a police officer", By: "fagri", Score: 0}, "juaochiai": Word{Word: "juaochiai", Def: "predicate: ‘illegal’; ▯ is illegal; ▯ breaks rule ▯; ▯ is against law ▯.", By: "official", Score: 0}, "juaochiainua": Word{Word: "juaochiainua", Def: "steal", By: "spreadsheet", Score: -1}, "juaochuq": Word{Word: "juaochuq", Def: "▯ eats according to a diet", By: "seaqtaq", Score: 1}, "juaocue": Word{Word: "juaocue", Def: "authority", By: "spreadsheet", Score: 0}, "juaocuegi": Word{Word: "juaocuegi", Def: "▯ is official; ▯ is approved by authority ▯.", By: "Ilmen", Score: 0}, "juaodeq": Word{Word: "juaodeq", Def: "▯ has the right to satisfy property ▯ according to law/rule ▯.", By: "Ilmen", Score: 0}, "juaodi": Word{Word: "juaodi", Def: "▯ is legal; ▯ is allowed by rule/law ▯.", By: "Ilmen", Score: 0}, "juaodue": Word{Word: "juaodue", Def: "predicate: ‘legal’; ▯ is legal; ▯ is according to rule/law ▯.", By: "official", Score: 0}, "juaome": Word{Word: "juaome", Def: "▯ is a policy/law code", By: "seaqtaq", Score: 0}, "juaomea": Word{Word: "juaomea", Def: "▯ conforms to rule ▯; ▯ is right under rule ▯; ▯ is mandated by rule ▯.", By: "uakci", Score: 0}, "juaosoache": Word{Word: "juaosoache", Def: "lawyer", By: "spreadsheet", Score: 0}, "juaotua": Word{Word: "juaotua", Def: "▯ limits ▯ in property ▯", By: "seaqtaq", Score: 0}, "juaq": Word{Word: "juaq", Def: "predicate: ‘even’; Even ▯ is the case; even ▯ satisfies property ▯.", By: "official", Score: 0}, "juaq he shua baq simo cu baq muao da.": Word{Word: "juaq he shua baq simo cu baq muao da.", Def: "(A0736) Even monkeys fall from trees.", By: "examples", Score: 0}, "juatei": Word{Word: "juatei", Def: "▯ is a xenomorph", By: "seaqtaq", Score: 0}, "juci": Word{Word: "juci", Def: "species", By: "spreadsheet", Score: -1}, "jue": Word{Word: "jue", Def: "predicate: ‘month’; ▯ is a month.", By: "official", Score: 0}, "juediaq": Word{Word: "juediaq", Def: "predicate: ‘monthly’; ▯ occurs monthly.", By: "official", Score: 0}, "juegu": Word{Word: "juegu", Def: "▯ is a two-month period.", By: "lynn", Score: 0}, "juemieq": Word{Word: "juemieq", Def: "▯ lasts for ▯ months", By: "fagri", Score: -1}, "juene": Word{Word: "juene", Def: "▯ is the duration of a month (multiplied by ▯).", By: "Ilmen", Score: 0}, "jui": Word{Word: "jui", Def: "predicate: ‘near’; ▯ is near ▯ in property ▯.", By: "official", Score: 0}, "jui miu ji baq poq da.": Word{Word: "jui miu ji baq poq da.", Def: "(A0857) I have opinions that are close to those of a typical person.", By: "examples", Score: 0}, "jui mu ne dua ji suq gi jiao.": Word{Word: "jui mu ne dua ji suq gi jiao.", Def: "(A0853) I'm near to you in how much I know that God is good.", By: "examples", Score: 0}, "jui mu ne joe ho liqho da.": Word{Word: "jui mu ne joe ho liqho da.", Def: "(A0854) They're near to her in how skilled they are.", By: "examples", Score: 0}, "jui mu ne joe koi ho liqho da.": Word{Word: "jui mu ne joe koi ho liqho da.", Def: "(A0855) They're near to her in how skilled at walking they are.", By: "examples", Score: 0}, "jui rao hoq sho bia ji da.": Word{Word: "jui rao hoq sho bia ji da.", Def: "(A0852) It was near (in time) to me becomming sick.", By: "examples", Score: 0}, "jui rao koi ji na jai ji da.": Word{Word: "jui rao koi ji na jai ji da.", Def: "(A0851) My walking was near (in time) to my being happy.", By: "examples", Score: 0}, "jui ti ji suq da.": Word{Word: "jui ti ji suq da.", Def: "(A0849) I am near you.", By: "examples", Score: 0}, "jui ti ni piohea ji da.": Word{Word: "jui ti ni piohea ji da.", Def: "(A0848) This rock is near to me.", By: "examples", Score: 0}, "juibu": Word{Word: "juibu", Def: "▯ is barely the case; ▯ barely satisfies property ▯.", By: "lynn", Score: 0}, "juikoi": Word{Word: "juikoi", Def: "▯ passes by ▯", By: "seaqtaq", Score: 0}, "juipeo": Word{Word: "juipeo", Def: "pass by", By: "spreadsheet", Score: -1}, "juishiu": Word{Word: "juishiu", Def: "▯ is in the recent past of ▯", By: "Xylochoron", Score: 0}, "juku": Word{Word: "juku", Def: "▯ hunts for ▯/1.", By: "uakci", Score: 0}, "juku cie": Word{Word: "juku cie", Def: "fish (v)", By: "spreadsheet", Score: 0}, "julu": Word{Word: "julu", Def: "▯ is incidental", By: "seaqtaq", Score: 0}, "june": Word{Word: "june", Def: "net", By: "spreadsheet", Score: -1}, "juo": Word{Word: "juo", Def: "kảı sa ráı sa dó dóshī, na ru kủaı kủq dóshī dó sa ráı da", By: "uakci", Score: 0}, "juoboq": Word{Word: "juoboq", Def: "▯ \"blocks\" / prevents them receiving any further written messages from ▯.", By: "lynn", Score: 0}, "juochiu": Word{Word: "juochiu", Def: "▯ is a mail address of ▯.", By: "lynn", Score: 1}, "juodeoq": Word{Word: "juodeoq", Def: "▯ communicates to ▯ property ▯ via a written medium.", By: "uakci", Score: 0}, "juoheq": Word{Word: "juoheq", Def: "▯ is an envelope", By: "seaqtaq", Score: 0}, "juoi": Word{Word: "juoi", Def: "predicate: ‘describe’; ▯ describes ▯ as satisfying property ▯.", By: "official", Score: 1}, "juoikuq": Word{Word: "juoikuq", Def: "▯ describes ▯ to ▯ as having property ▯.", By: "uakci", Score: 1}, "juoimu": Word{Word: "juoimu", Def: "▯ is described by ▯ as satisfying property ▯.", By: "Hoemai", Score: 1}, "juoisoa": Word{Word: "juoisoa", Def: "▯ explains to ▯ thing ▯ as having property ▯.", By: "uakci", Score: 1}, "juoq": Word{Word: "juoq", Def: "mỉu há hûı bû dóshī dógū da", By: "uakci", Score: 0}, "juoq ji goi go ja do shiu dui reoq da.": Word{Word: "juoq ji goi go ja do shiu dui reoq da.", Def: "(A0970) I should be treated before it's too late.", By: "examples", Score: 0}, "juq": Word{Word: "juq", Def: "receive", By: "spreadsheet", Score: 0}, "juq jeaqdoa ji ku co noai moq": Word{Word: "juq jeaqdoa ji ku co noai moq", Def: "(A0626) How much milk is it that I should add?", By: "examples", Score: 0}, "juq.": Word{Word: "juq.", Def: "Roger; je'e.", By: "uakci", Score: 0}, "juqgi": Word{Word: "juqgi", Def: "jủq dóshī lî gảı ja dó dógū na, fãq ru lũ gỉjīe dóshī hóa da", By: "uakci", Score: 0}, "juqguo": Word{Word: "juqguo", Def: "▯ pertains to the culture of China – People's Republic of China[l].", By: "countries", Score: 0}, "juqguogua": Word{Word: "juqguogua", Def: "▯ is the country China – People's Republic of China[l].", By: "countries", Score: 0}, "juqguokame": Word{Word: "juqguokame", Def: "▯ is Camellia sinensis (plant used to make tea).", By: "Ilmen", Score: 0}, "juqguokameraq": Word{Word: "juqguokameraq", Def: "▯ is Camellia sinensis (plant used to make tea).", By: "Ilmen", Score: 0}, "juqguokedoro": Word{Word: "juqguokedoro", Def: "▯ is a sweet orange tree (Citrus sinensis).", By: "Ilmen", Score: 0}, "juqguokero": Word{Word: "juqguokero", Def: "▯ is a sweet orange tree (Citrus sinensis).", By: "Ilmen", Score: 0}, "juqguose": Word{Word: "juqguose", Def: "▯ is made in China.", By: "Ilmen", Score: 1}, "juqguotoaq": Word{Word: "juqguotoaq", Def: "▯ is (one of) the language(s) spoken in China – People's Republic of China[l].", By: "countries", Score: 0}, "juqhui": Word{Word: "juqhui", Def: "jủq dóshī lî gảı ja dó dógū na, fãq ru lũ hủıjīe dóshī hóa da\n", By: "uakci", Score: 0}, "juqjai": Word{Word: "juqjai", Def: "satisfied", By: "spreadsheet", Score: 0}, "juqkea": Word{Word: "juqkea", Def: "▯ is a client machine.", By: "uakci", Score: 0}, "juqlu": Word{Word: "juqlu", Def: "Event ▯ has ▯ as patient.", By: "uakci", Score: 0}, "juqpua": Word{Word: "juqpua", Def: "satisfied", By: "spreadsheet", Score: 0}, "ka": Word{Word: "ka", Def: "illocution: ‘hereby’; performative illocution", By: "official", Score: 0}, "kabajo": Word{Word: "kabajo", Def: "horse", By: "spreadsheet", Score: -1}, "kabalo": Word{Word: "kabalo", Def: "horse", By: "spreadsheet", Score: -1}, "kada": Word{Word: "kada", Def: "card", By: "spreadsheet", Score: -1}, "kafe": Word{Word: "kafe", Def: "predicate: ‘coffee’; ▯ is coffee.", By: "official", Score: 0}, "kafepuo": Word{Word: "kafepuo", Def: "▯ is coffee grounds.", By: "lynn", Score: 1}, "kaha": Word{Word: "kaha", Def: "predicate: ‘cough’; ▯ coughs.", By: "official", Score: 0}, "kai": Word{Word: "kai", Def: "tủa tỉ dóshī sa lú lảı hóa dógū jìe dóshī na dósāq da", By: "uakci", Score: 0}, "kai nai poq nieshue kui koa ba.": Word{Word: "kai nai poq nieshue kui koa ba.", Def: "(PAN.2) May the people who are staying inside due to it being cold write now.", By: "official", Score: 0}, "kai suq posuq chua ba.": Word{Word: "kai suq posuq chua ba.", Def: "(A0221) Write your name.", By: "examples", Score: 0}, "kai suq sa diai gi kuqtoai ba.": Word{Word: "kai suq sa diai gi kuqtoai ba.", Def: "(A0370) Write at least seven good sentences.", By: "examples", Score: 0}, "kai suq sa mua la sue ba.": Word{Word: "kai suq sa mua la sue ba.", Def: "(A0571) Write an example please.", By: "examples", Score: 0}, "kaibeaq": Word{Word: "kaibeaq", Def: "pen", By: "spreadsheet", Score: 0}, "kaicha": Word{Word: "kaicha", Def: "▯ is a writing system", By: "seaqtaq", Score: 0}, "kaiche": Word{Word: "kaiche", Def: "▯ is an author", By: "seaqtaq", Score: 0}, "kaichuo": Word{Word: "kaichuo", Def: "▯ is a writing implement (e.g. a pen).", By: "lynn", Score: 0}, "kaidoa": Word{Word: "kaidoa", Def: "▯ posts message ▯ to board/channel/group/comment section ▯", By: "seaqtaq", Score: 1}, "kaifieq": Word{Word: "kaifieq", Def: "▯ writes ▯; ▯ is a writer.", By: "uakci", Score: 0}, "kaifua": Word{Word: "kaifua", Def: "predicate: ‘desk’; ▯ is a desk.", By: "official", Score: 0}, "kaikea": Word{Word: "kaikea", Def: "predicate: ‘type.writer’; ▯ is a type writer.", By: "official", Score: 0}, "kaikue": Word{Word: "kaikue", Def: "▯ is a notebook", By: "fagri", Score: 0}, "kailai": Word{Word: "kailai", Def: "letter, character, lerfu", By: "spreadsheet", Score: 0}, "kaimoa": Word{Word: "kaimoa", Def: "▯ is a dot/full stop/ period", By: "seaqtaq", Score: 0}, "kaimuoq": Word{Word: "kaimuoq", Def: "▯ is ink.", By: "uakci", Score: 0}, "kainao": Word{Word: "kainao", Def: "▯ is ink.", By: "lynn", Score: 0}, "kaipio": Word{Word: "kaipio", Def: "▯ is graphite.", By: "lynn", Score: 1}, "kaipume": Word{Word: "kaipume", Def: "▯ is an archive of ▯", By: "seaqtaq", Score: 0}, "kairioq": Word{Word: "kairioq", Def: "▯ is a font", By: "seaqtaq", Score: 0}, "kaise": Word{Word: "kaise", Def: "predicate: ‘text’; ▯ is text/writing.", By: "official", Score: 0}, "kaishea": Word{Word: "kaishea", Def: "▯ is blank (lacking writing).", By: "Ilmen", Score: 0}, "kaishoe": Word{Word: "kaishoe", Def: "▯ authorizes/allows ▯ by writing something\u00a0", By: "seaqtaq", Score: 0}, "kaitoai": Word{Word: "kaitoai", Def: "▯ is a written stroke.", By: "Ilmen", Score: 0}, "kaitoq": Word{Word: "kaitoq", Def: "▯ is a whiteboard/blackboard", By: "seaqtaq", Score: 0}, "kakoe": Word{Word: "kakoe", Def: "▯ decides ▯.", By: "Ilmen", Score: 0}, "kakuaq": Word{Word: "kakuaq", Def: "▯ declares/pronounces ▯ to be true, by virtue of them saying it.", By: "lynn", Score: 1}, "kakuq": Word{Word: "kakuq", Def: "▯ declares/pronounces ▯ to be true, by virtue of them saying it.", By: "lynn", Score: 0}, "kamechai": Word{Word: "kamechai", Def: "▯ is a Camellia tea.", By: "Ilmen", Score: 0}, "kameraq": Word{Word: "kameraq", Def: "▯ is a plant of the Camellia genus.", By: "Ilmen", Score: 0}, "kanada": Word{Word: "kanada", Def: "▯ pertains to the culture of Canada[k].", By: "countries", Score: 0}, "kanadagua": Word{Word: "kanadagua", Def: "▯ is the country Canada[k].", By: "countries", Score: 0}, "kanadatoaq": Word{Word: "kanadatoaq", Def: "▯ is (one of) the language(s) spoken in Canada[k].", By: "countries", Score: 0}, "kani": Word{Word: "kani", Def: "▯ is a rabbit.", By: "uakci", Score: 0}, "kanitu": Word{Word: "kanitu", Def: "▯ is a spirit, soul or ghost.", By: "Ilmen", Score: 0}, "kanoa": Word{Word: "kanoa", Def: "canoe", By: "spreadsheet", Score: 0}, "kao": Word{Word: "kao", Def: "hẻq dóshī sa dáo rǎq hóa dógū da", By: "uakci", Score: 0}, "kaochio": Word{Word: "kaochio", Def: "▯ logs into ▯", By: "seaqtaq", Score: 0}, "kaodieq": Word{Word: "kaodieq", Def: "▯ uploads / sends file ▯ to ▯.", By: "Ilmen", Score: 2}, "kaojuq": Word{Word: "kaojuq", Def: "▯ downloads / receives file ▯ from ▯.", By: "Ilmen", Score: 2}, "kaolai": Word{Word: "kaolai", Def: "▯ is a file.", By: "seaqtaq", Score: 0}, "kaoshai": Word{Word: "kaoshai", Def: "▯ logs out of ▯", By: "seaqtaq", Score: 0}, "kaosho": Word{Word: "kaosho", Def: "▯ signs up/registers for ▯", By: "seaqtaq", Score: 0}, "kaoshuaq": Word{Word: "kaoshuaq", Def: "record (rejgau)", By: "spreadsheet", Score: 0}, "kaosu": Word{Word: "kaosu", Def: "chaos", By: "uakci", Score: 0}, "kaotua": Word{Word: "kaotua", Def: "create record ", By: "spreadsheet", Score: 0}, "kapasa": Word{Word: "kapasa", Def: "▯ is a plant belonging to the Gossypium genus, from which cotton is harvested.", By: "Ilmen", Score: 0}, "kapu": Word{Word: "kapu", Def: "The volume of ▯ measured in cups is ▯", By: "fagri", Score: -1}, "kaq": Word{Word: "kaq", Def: "predicate: ‘visual’; ▯ is visual/optical; ▯ pertains to the sense of sight/vision.", By: "official", Score: 0}, "kaqchuo": Word{Word: "kaqchuo", Def: "predicate: ‘optical.tool’; ▯ is an optical tool.", By: "official", Score: 0}, "kaqde": Word{Word: "kaqde", Def: "▯ is visually beautiful; ▯ is pleasant to look at; ▯ is pleasing to the eye.", By: "Hoemai", Score: 0}, "kaqdeqbu": Word{Word: "kaqdeqbu", Def: "▯ is blind", By: "fagri", Score: 0}, "kaqdeqbu roi hoaqbeaq, la chua da.": Word{Word: "kaqdeqbu roi hoaqbeaq, la chua da.", Def: "(A0622) The Blind Person and the Candle (this sentence is its name.)", By: "examples", Score: 0}, "kaqdeqcia": Word{Word: "kaqdeqcia", Def: "▯ is blind", By: "fagri", Score: 0}, "kaqdoq": Word{Word: "kaqdoq", Def: "▯ winks; ▯ blinks one of their eyes.", By: "uakci", Score: 0}, "kaqfie": Word{Word: "kaqfie", Def: "▯ is visually ugly.", By: "Ilmen", Score: 0}, "kaqgai": Word{Word: "kaqgai", Def: "predicate: ‘see’; ▯ sees ▯.", By: "official", Score: 0}, "kaqgai ba, nijaoti poji pai da.": Word{Word: "kaqgai ba, nijaoti poji pai da.", Def: "(A0502) Look, here is my friend.", By: "examples", Score: 0}, "kaqgai baq gama rao sia daqmoa poho beq da.": Word{Word: "kaqgai baq gama rao sia daqmoa poho beq da.", Def: "(A0329) A camel never sees its own hump.", By: "examples", Score: 0}, "kaqgai ji ku sa shuao ": Word{Word: "kaqgai ji ku sa shuao ", Def: "(A0478) A bird, is what I saw.", By: "examples", Score: 0}, "kaqgai ji sa fe baobao da.": Word{Word: "kaqgai ji sa fe baobao da.", Def: "(A0367) I see five dogs.", By: "examples", Score: 0}, "kaqgai ji suq da.": Word{Word: "kaqgai ji suq da.", Def: "(A0196) I see you.", By: "examples", Score: 0}, "kaqgai suq hi rai moq.": Word{Word: "kaqgai suq hi rai moq.", Def: "(A0198) What do you see?", By: "examples", Score: 0}, "kaqgai suq puq deo luaq ti soaq moq": Word{Word: "kaqgai suq puq deo luaq ti soaq moq", Def: "(REL.1) Do you see the children who are playing in the garden?", By: "official", Score: 0}, "kaqgaitaqchuo": Word{Word: "kaqgaitaqchuo", Def: "▯ is a mirror.", By: "Ilmen", Score: 0}, "kaqgegai": Word{Word: "kaqgegai", Def: "▯ has visual perception ▯ (view) of ▯ (stimulus).", By: "Ilmen", Score: 0}, "kaqgi": Word{Word: "kaqgi", Def: "handsome", By: "spreadsheet", Score: 0}, "kaqhua": Word{Word: "kaqhua", Def: "predicate: ‘eye’; ▯ is an eye.", By: "official", Score: 0}, "kaqhuaciu": Word{Word: "kaqhuaciu", Def: "▯ accumulates rheum/gound ▯ in their eyes.", By: "Ilmen", Score: 0}, "kaqhuaciuse": Word{Word: "kaqhuaciuse", Def: "▯ is rheum / gound (mucus that accumulates in the eyes during sleep).", By: "Ilmen", Score: 0}, "kaqhuakiaq": Word{Word: "kaqhuakiaq", Def: "eyelash", By: "spreadsheet", Score: 0}, "kaqhuamuoitua": Word{Word: "kaqhuamuoitua", Def: "▯ rolls their eyes", By: "seaqtaq", Score: 0}, "kaqhuatie": Word{Word: "kaqhuatie", Def: "predicate: ‘eyelid’; ▯ is an eyelid.", By: "official", Score: 0}, "kaqhui": Word{Word: "kaqhui", Def: "▯ looks bad.", By: "Ilmen", Score: 0}, "kaqjeo": Word{Word: "kaqjeo", Def: "▯ satisfies property ▯, which describes something about how it/they look", By: "fagri", Score: 0}, "kaqkiu": Word{Word: "kaqkiu", Def: "predicate: ‘visible’; ▯ is visible.", By: "official", Score: 0}, "kaqkiubu": Word{Word: "kaqkiubu", Def: "predicate: ‘invisible’; ▯ is invisible.", By: "Ilmen", Score: 1}, "kaqlugai": Word{Word: "kaqlugai", Def: "▯ sees that ▯ is the case; ▯ gets information ▯ (proposition) from their/his/her/its current visual perception.", By: "Ilmen", Score: 0}, "kaqmuoi": Word{Word: "kaqmuoi", Def: "▯ rolls their eyes", By: "fagri", Score: 1}, "kaqnuao": Word{Word: "kaqnuao", Def: "▯ is a brow.", By: "Ilmen", Score: 0}, "kaqnuaokiaq": Word{Word: "kaqnuaokiaq", Def: "▯ is an eyebrow.", By: "Ilmen", Score: 0}, "kaqnuo": Word{Word: "kaqnuo", Def: "predicate: ‘dream’; ▯ dreams ▯.", By: "official", Score: 0}, "kaqpa": Word{Word: "kaqpa", Def: "dig", By: "spreadsheet", Score: -1}, "kaqpashuaq": Word{Word: "kaqpashuaq", Def: "dig", By: "spreadsheet", Score: -1}, "kaqpua": Word{Word: "kaqpua", Def: "pleasant to look at; handsome; (another sense of) beautiful", By: "uakci", Score: 0}, "kaqse": Word{Word: "kaqse", Def: "view, jvinu", By: "spreadsheet", Score: 0}, "kaqshia": Word{Word: "kaqshia", Def: "predicate: ‘glasses’; ▯ are glasses.", By: "official", Score: 0}, "kaqsi": Word{Word: "kaqsi", Def: "predicate: ‘look.at’; ▯ looks at ▯.", By: "official", Score: 0}, "kaqsi ho duoi sa shi hora puq puao da.": Word{Word: "kaqsi ho duoi sa shi hora puq puao da.", Def: "(A0220) He looks at clouds for an hour.", By: "examples", Score: 0}, "kaqsi ji sa kiq rao nidaq.": Word{Word: "kaqsi ji sa kiq rao nidaq.", Def: "(A0565) I'm watching a movie now.", By: "examples", Score: 0}, "kaqsi sa poq chuq hoa na ji da.": Word{Word: "kaqsi sa poq chuq hoa na ji da.", Def: "(REL.2) Someone who is eating is looking at me.", By: "official", Score: 0}, "kaqsi suq nijao naraqreo fuq ba.": Word{Word: "kaqsi suq nijao naraqreo fuq ba.", Def: "(A0299) Look at that orange clothing.", By: "examples", Score: 0}, "kaqsiu": Word{Word: "kaqsiu", Def: "▯ is visually similar to ▯ ; ▯ looks like ▯", By: "seaqtaq", Score: 0}, "kaqtienua": Word{Word: "kaqtienua", Def: "▯ opens his/her/its/their eyes.", By: "Ilmen", Score: 0}, "kara": Word{Word: "kara", Def: "goat", By: "spreadsheet", Score: 0}, "karama": Word{Word: "karama", Def: "▯ is the karma of ▯.", By: "Ilmen", Score: 0}, "karate": Word{Word: "karate", Def: "▯ is karate.", By: "Hoemai", Score: 0}, "karo": Word{Word: "karo", Def: "▯ is a goat (Capra taxonomic genus).", By: "Ilmen", Score: 0}, "karonui": Word{Word: "karonui", Def: "▯ is a mouse-deer of the Tragulus genus.", By: "Ilmen", Score: 0}, "karonuisiu": Word{Word: "karonuisiu", Def: "▯ is a mouse-deer/chevrotain.", By: "Ilmen", Score: 0}, "karotoq": Word{Word: "karotoq", Def: "▯ is a carrot.", By: "Ilmen", Score: 2}, "karuaq": Word{Word: "karuaq", Def: "▯ makes ▯ true by virtue of saying it", By: "fagri", Score: 1}, "kasha": Word{Word: "kasha", Def: "▯ offers to ▯ that he/she/they (the former) satisfies the property ▯.", By: "Ilmen", Score: 0}, "kasi": Word{Word: "kasi", Def: "nut", By: "spreadsheet", Score: 0}, "kasu": Word{Word: "kasu", Def: "mock", By: "spreadsheet", Score: -1}, "kasuari": Word{Word: "kasuari", Def: "▯ is a cassowary.", By: "Ilmen", Score: 0}, "kata": Word{Word: "kata", Def: "▯ is a card.", By: "Ilmen", Score: 0}, "katana": Word{Word: "katana", Def: "▯ is a katana.", By: "Ilmen", Score: 0}, "katena": Word{Word: "katena", Def: "chain ()", By: "spreadsheet", Score: 0}, "kato": Word{Word: "kato", Def: "▯ is a cat.", By: "Ilmen", Score: 3}, "katopue": Word{Word: "katopue", Def: "▯ is a member of the genus Ailuropoda (the pandas).", By: "Hoemai", Score: 0}, "katoro": Word{Word: "katoro", Def: "▯ is a member of genus Castor (the beavers).", By: "Hoemai", Score: 0}, "katosoi": Word{Word: "katosoi", Def: "▯ catfights with/against ▯.", By: "Ilmen", Score: 0}, "katu": Word{Word: "katu", Def: "cat", By: "spreadsheet", Score: 0}, "ke": Word{Word: "ke", Def: "linking word: ‘4th.place’; linking word: 4th argument place", By: "oldofficial", Score: 0}, "kea": Word{Word: "kea", Def: "sa ráı pa lủ bảı hóa dóshī kùı shâo hóa chûo dóshī dógū da", By: "uakci", Score: 0}, "kea daqrea": Word{Word: "kea daqrea", Def: "▯ is a timer", By: "seaqtaq", Score: 0}, "keafuaq": Word{Word: "keafuaq", Def: "▯ is a screenshot", By: "seaqtaq", Score: 0}, "keafuaqtao": Word{Word: "keafuaqtao", Def: "▯ takes a screenshot", By: "seaqtaq", Score: 0}, "keajuao": Word{Word: "keajuao", Def: "▯ are the settings for a device", By: "seaqtaq", Score: -1}, "keakai": Word{Word: "keakai", Def: "▯ types text ▯ on machine ▯.", By: "Ilmen", Score: 0}, "keakuq": Word{Word: "keakuq", Def: "▯ texts ▯ (quote) to ▯", By: "fagri", Score: 0}, "keapoq": Word{Word: "keapoq", Def: "▯ is a robot / android / artificial intelligence (sci-fi sense)\u00a0/ machine person.", By: "lynn", Score: 0}, "keaq": Word{Word: "keaq", Def: "predicate: ‘salty’; ▯ is salty.", By: "official", Score: 0}, "keaqdoate": Word{Word: "keaqdoate", Def: "▯ is a salad.", By: "uakci", Score: 0}, "keaqloha": Word{Word: "keaqloha", Def: "▯ is sodium.", By: "Ilmen", Score: 0}, "keaqmuoq": Word{Word: "keaqmuoq", Def: "salt", By: "spreadsheet", Score: 0}, "keaqpio": Word{Word: "keaqpio", Def: "salt", By: "spreadsheet", Score: 0}, "keaqsai": Word{Word: "keaqsai", Def: "▯ is salt", By: "seaqtaq", Score: 0}, "keaqsaiheq": Word{Word: "keaqsaiheq", Def: "▯ is a salt shaker", By: "seaqtaq", Score: 0}, "keaqtuanueq": Word{Word: "keaqtuanueq", Def: "_ is a salami", By: "brunofrancosalamin", Score: 0}, "kebiq": Word{Word: "kebiq", Def: "▯ is a kelvin; ▯ is ▯ (number of property) kelvin.", By: "Hoemai", Score: 0}, "kebo": Word{Word: "kebo", Def: "predicate: ‘horse’; ▯ is a horse (member of species Equus ferus caballus).", By: "official", Score: 0}, "kedoro": Word{Word: "kedoro", Def: "▯ is a tree or shrub of the Citrus genus.", By: "Ilmen", Score: 0}, "kefu": Word{Word: "kefu", Def: "kefir", By: "uakci", Score: 0}, "kehoq": Word{Word: "kehoq", Def: "(nullary predicate:) The previous sentence is true.", By: "uakci", Score: 0}, "kejeo": Word{Word: "kejeo", Def: "▯ satisfies the property that satisfies the property ▯.", By: "Ilmen", Score: 0}, "keji": Word{Word: "keji", Def: "ashamed", By: "spreadsheet", Score: -1}, "keleo": Word{Word: "keleo", Def: "▯ is a clitoris.", By: "Hoemai", Score: 0}, "kemea": Word{Word: "kemea", Def: "▯ is among the things having property ▯.", By: "Ilmen", Score: 0}, "kena": Word{Word: "kena", Def: "▯ is a stork.", By: "Hoemai", Score: 0}, "keneide": Word{Word: "keneide", Def: "▯ is a cnidarian (jellyfish, coral, hydra, etc.).", By: "Ilmen", Score: 0}, "kenia": Word{Word: "kenia", Def: "▯ pertains to the culture of Kenya – Republic of Kenya.", By: "countries", Score: 0}, "keniagua": Word{Word: "keniagua", Def: "▯ is the country Kenya – Republic of Kenya.", By: "countries", Score: 0}, "keniatoaq": Word{Word: "keniatoaq", Def: "▯ is (one of) the language(s) spoken in Kenya – Republic of Kenya.", By: "countries", Score: 0}, "keniq": Word{Word: "keniq", Def: "▯ is a kenning; ▯ is to ▯ as ▯ is to ▯ as ▯ is to ▯ etc.; ▯ : ▯ :: ▯ : ▯.\u00a0", By: "uakci", Score: 0}, "keo": Word{Word: "keo", Def: "sentence prefix: ‘but’; but/however", By: "official", Score: 0}, "keo bu suaojie ji.": Word{Word: "keo bu suaojie ji.", Def: "(SPR.2) But I don't care.", By: "official", Score: 0}, "keo fa ho mu boqbu da.": Word{Word: "keo fa ho mu boqbu da.", Def: "(A0829) But they'll go anyway.", By: "examples", Score: 0}, "keo gaq ji ho!": Word{Word: "keo gaq ji ho!", Def: "(A0827) But I'm with him!", By: "examples", Score: 0}, "keo haq bi jaq gi maq.": Word{Word: "keo haq bi jaq gi maq.", Def: "(PRX.6) The food though, it's very good.", By: "official", Score: 0}, "keo haq bi, mia mu cho maq da!": Word{Word: "keo haq bi, mia mu cho maq da!", Def: "(A0835) But as for the food, everyone liked it!", By: "examples", Score: 0}, "keo haq pa jaq gi.": Word{Word: "keo haq pa jaq gi.", Def: "(PRX.5) The food though, it's very good.", By: "official", Score: 0}, "keo hiaq bo ha pa, bu ca hiaq ha dai jai ja poq rao ja rai da.": Word{Word: "keo hiaq bo ha pa, bu ca hiaq ha dai jai ja poq rao ja rai da.", Def: "(A0846) But owning little doesn't mean that you can only rarely be happy.", By: "examples", Score: 0}, "keo sishai pu gaq choadeoq hai da.": Word{Word: "keo sishai pu gaq choadeoq hai da.", Def: "(A0826) But the one who was chatting along already left.", By: "examples", Score: 0}, "keo, hai koe tao ji da!": Word{Word: "keo, hai koe tao ji da!", Def: "(A0898) But, I have already decided what to do!", By: "examples", Score: 0}, "keo, hai sishai pu gaq choadeoq da.": Word{Word: "keo, hai sishai pu gaq choadeoq da.", Def: "(A0825) But, the one who was chatting along already left.", By: "examples", Score: 0}, "keoko": Word{Word: "keoko", Def: "▯ is a member of genus Cygnus (the swans).", By: "Hoemai", Score: 0}, "keopi": Word{Word: "keopi", Def: "▯ is a quasi-copy of ▯, but it satisfies ▯ (unlike the original).", By: "lynn", Score: 0}, "keopishuaq": Word{Word: "keopishuaq", Def: "▯ creates a quasi-copy of ▯ that satisfies ▯, unlike the original;\u00a0 ▯ adapts ▯ into a version that distinguishes itself by satisfying ▯.", By: "lynn", Score: 0}, "keoru": Word{Word: "keoru", Def: "jẻo dógū, keo mảo dóshī lî jẻo ja dó da", By: "uakci", Score: 0}, "kepa": Word{Word: "kepa", Def: "▯ is an onion.", By: "Ilmen", Score: 0}, "kepaq": Word{Word: "kepaq", Def: "▯ is part of the thing(s) satisfying the property ▯.", By: "Ilmen", Score: 0}, "keq": Word{Word: "keq", Def: "= #te #cỉu", By: "uakci", Score: 0}, "keqciu": Word{Word: "keqciu", Def: "predicate: ‘defecate’; ▯ defecates/shits.", By: "official", Score: 0}, "keqdoa": Word{Word: "keqdoa", Def: "▯ gives (a) shit ▯ about ▯.", By: "uakci", Score: 0}, "keqjeq": Word{Word: "keqjeq", Def: "▯ is shitty in property ▯.", By: "Ilmen", Score: 1}, "keqsa": Word{Word: "keqsa", Def: "[Metapredicate to be used as a head of a serial:] the following word/s is/are to be interpreted as a sequence of foreign sounds rather than a native compound.", By: "uakci", Score: 0}, "keqsia": Word{Word: "keqsia", Def: "[Metapredicate to be used as a head of a serial:] the following word/s is/are to be interpreted as a native compound rather than a sequence of foreign sounds.", By: "uakci", Score: 0}, "kere": Word{Word: "kere", Def: "▯ is a scrotum/ballsack", By: "seaqtaq", Score: 0}, "kerioq": Word{Word: "kerioq", Def: "▯ is a type of/kind of things that satisfy property ▯", By: "seaqtaq", Score: 0}, "kero": Word{Word: "kero", Def: "▯ is a tree or shrub of the Citrus genus.", By: "Ilmen", Score: 0}, "kesha": Word{Word: "kesha", Def: "▯ is a clown.", By: "Ilmen", Score: 0}, "keso": Word{Word: "keso", Def: "cheese", By: "spreadsheet", Score: 0}, "ketea": Word{Word: "ketea", Def: "▯ is a member of the order Cetacea (the whales, porpoises and dolphins).", By: "Hoemai", Score: 0}, "keti": Word{Word: "keti", Def: "pity", By: "spreadsheet", Score: -1}, "keto": Word{Word: "keto", Def: "▯ is a cetacean.", By: "Ilmen", Score: 0}, "keu": Word{Word: "keu", Def: "Lojban «kau» – explicitly mark a question word as signifying of an implicit question.", By: "uakci", Score: 0}, "ki": Word{Word: "ki", Def: "end-parenthetical: ‘)’; terminates parenthetical", By: "official", Score: 0}, "kia": Word{Word: "kia", Def: "rẻo sa báq sỉaı dóshī da", By: "uakci", Score: 0}, "kiachaq": Word{Word: "kiachaq", Def: "predicate: ‘Monday’; ▯ is a Monday.", By: "official", Score: 0}, "kiachaq nichaq da.": Word{Word: "kiachaq nichaq da.", Def: "(A0026) Today is Monday.", By: "examples", Score: 0}, "kiacuao": Word{Word: "kiacuao", Def: "▯ is an infrared color.", By: "Ilmen", Score: 0}, "kiai": Word{Word: "kiai", Def: "nurse", By: "spreadsheet", Score: 0}, "kialoha": Word{Word: "kialoha", Def: "▯ is copper.", By: "Ilmen", Score: 0}, "kiao": Word{Word: "kiao", Def: "predicate: ‘door’; ▯ is a doorway.", By: "official", Score: 0}, "kiaoche": Word{Word: "kiaoche", Def: "gatekeeper", By: "spreadsheet", Score: -1}, "kiaotoq": Word{Word: "kiaotoq", Def: "predicate: ‘door’; ▯ is a door.", By: "official", Score: 0}, "kiapio": Word{Word: "kiapio", Def: "▯ is brick", By: "seaqtaq", Score: 0}, "kiaq": Word{Word: "kiaq", Def: "predicate: ‘hair’; ▯ is a hair.", By: "official", Score: 0}, "kiaqchuo": Word{Word: "kiaqchuo", Def: "▯ is a comb or brush", By: "fagri", Score: 0}, "kiaqketea": Word{Word: "kiaqketea", Def: "▯ is a baleen whale.", By: "Hoemai", Score: 0}, "kiaqme": Word{Word: "kiaqme", Def: "▯ is a patch of hairs; ▯ is fur (not necessarily of a dead animal).", By: "Ilmen", Score: 0}, "kiaqniu": Word{Word: "kiaqniu", Def: "▯ is grass.", By: "Ilmen", Score: 0}, "kiaqnua": Word{Word: "kiaqnua", Def: "▯ cuts/trims/shaves hair ▯ off body ▯.", By: "uakci", Score: 0}, "kiareo": Word{Word: "kiareo", Def: "predicate: ‘red’; ▯ is of red colour.", By: "official", Score: 0}, "kiareo poji kiaq da.": Word{Word: "kiareo poji kiaq da.", Def: "(A0027) My hair is red.", By: "examples", Score: 0}, "kiariba": Word{Word: "kiariba", Def: "▯ is a redcurrant (Ribes rubrum).", By: "Hoemai", Score: 0}, "kibo": Word{Word: "kibo", Def: "▯ is the internet.", By: "Ilmen", Score: -1}, "kiboriaq": Word{Word: "kiboriaq", Def: "▯ is a website.", By: "Ilmen", Score: 0}, "kie": Word{Word: "kie", Def: "tỉaojāı dóshī jêo dógū dósāq lũı ru jùqgī dóshī da", By: "uakci", Score: 0}, "kie ji rao tu chaq kui mie ji da.": Word{Word: "kie ji rao tu chaq kui mie ji da.", Def: "(A0249) I am thankful every day because I'm alive.", By: "examples", Score: 0}, "kiedoa": Word{Word: "kiedoa", Def: "(fork of #w55XRPL8z) ▯ gives reward ▯ to ▯.", By: "Ilmen", Score: 0}, "kiegiq": Word{Word: "kiegiq", Def: "▯ feels resentment/bitterness towards ▯ for action ▯.", By: "Ilmen", Score: 0}, "kiejuq": Word{Word: "kiejuq", Def: "▯ gets reward ▯.", By: "Ilmen", Score: 0}, "kiejuqtiao": Word{Word: "kiejuqtiao", Def: "▯ merits ▯.", By: "Ilmen", Score: 0}, "kiekuq": Word{Word: "kiekuq", Def: "predicate: ‘thank’; ▯ says thanks to ▯.", By: "official", Score: 0}, "kieq": Word{Word: "kieq", Def: "predicate: ‘disgusted’; ▯ experiences disgust.", By: "official", Score: 0}, "kieqca": Word{Word: "kieqca", Def: "▯ is disgusting", By: "seaqtaq", Score: 0}, "kieqgue": Word{Word: "kieqgue", Def: "▯ has recoiled in disgust; ▯ cringes.", By: "uakci", Score: 2}, "kieqgueca": Word{Word: "kieqgueca", Def: "▯ is cringy", By: "seaqtaq", Score: 0}, "kihiheu": Word{Word: "kihiheu", Def: "kiwifruit", By: "spreadsheet", Score: 0}, "kihoq": Word{Word: "kihoq", Def: "Basically, ▯.", By: "uakci", Score: 0}, "kihote": Word{Word: "kihote", Def: "▯ is quixotic – pertaining to Don Quixote.", By: "uakci", Score: 0}, "kiku": Word{Word: "kiku", Def: "key", By: "spreadsheet", Score: -1}, "kilo": Word{Word: "kilo", Def: "▯ is a kilogram; ▯ is ▯ (number of property) kilograms.", By: "Hoemai", Score: 0}, "kilone": Word{Word: "kilone", Def: "▯ is the mass of ▯ in kilogram.", By: "Ilmen", Score: 0}, "kilu": Word{Word: "kilu", Def: "▯ is such that ▯ is the property of being equal to it; kilu.2 = lî jei kílu.1 já.", By: "uakci", Score: 0}, "kime": Word{Word: "kime", Def: "In the sequence ▯, each nonfinal member is related to the next member by the relation ▯.", By: "Ilmen", Score: 1}, "kio": Word{Word: "kio", Def: "start-parenthetical: ‘(’; start parenthetical", By: "official", Score: 0}, "kioi": Word{Word: "kioi", Def: "▯ applies a brewing, smoking, fermenting, (intentional) spoiling process or any other similar long-term transformative process that is not cooking onto ▯.", By: "uakci", Score: 0}, "kioishi": Word{Word: "kioishi", Def: "▯ is the first brew of tea (leaves) ▯.", By: "uakci", Score: 0}, "kioq": Word{Word: "kioq", Def: "sa dó mỏa sa dónē tu dóhēo tǐ hóa lú rẻa hóa dóshī bı nẻ dónē jûı tỉ dó dóhēo da", By: "uakci", Score: 0}, "kioqbiu": Word{Word: "kioqbiu", Def: "▯ is a cylinder", By: "seaqtaq", Score: 0}, "kioqboe": Word{Word: "kioqboe", Def: "disc, shape", By: "spreadsheet", Score: 0}, "kioqchiu": Word{Word: "kioqchiu", Def: "▯ are the spherical coordinates (distance, inclination and azimuth) of ▯ relatively to the spatial frame of reference ▯.", By: "Ilmen", Score: 0}, "kioqgiu": Word{Word: "kioqgiu", Def: "circle", By: "spreadsheet", Score: 0}, "kioqlieq": Word{Word: "kioqlieq", Def: "predicate: ‘cone’; ▯ is a cone (shape).", By: "Xylochoron", Score: 0}, "kioqmuoi": Word{Word: "kioqmuoi", Def: "▯ is a torus", By: "seaqtaq", Score: 0}, "kioqmuoihaq": Word{Word: "kioqmuoihaq", Def: "▯ is a bagel/donut", By: "seaqtaq", Score: 0}, "kioqseu": Word{Word: "kioqseu", Def: "▯ is the number π.", By: "Ilmen", Score: 0}, "kiq": Word{Word: "kiq", Def: "kảo dóshī sa lú mẻ hóa sa fủaq ceı dǔ dủo hóa da", By: "uakci", Score: 0}, "kiqgai": Word{Word: "kiqgai", Def: "▯ watches a movie", By: "seaqtaq", Score: 0}, "kiqjio": Word{Word: "kiqjio", Def: "predicate: ‘cinema’; ▯ is a cinema / movie theater.", By: "official", Score: 0}, "kiqkea": Word{Word: "kiqkea", Def: "predicate: ‘camera’; ▯ is a film camera.", By: "official", Score: 0}, "kiqtoq": Word{Word: "kiqtoq", Def: "▯ is a screen.", By: "Ilmen", Score: 0}, "kiribati": Word{Word: "kiribati", Def: "▯ pertains to the culture of Kiribati – Republic of Kiribati.", By: "countries", Score: 0}, "kiribatigua": Word{Word: "kiribatigua", Def: "▯ is the country Kiribati – Republic of Kiribati.", By: "countries", Score: 0}, "kiribatitoaq": Word{Word: "kiribatitoaq", Def: "▯ is (one of) the language(s) spoken in Kiribati – Republic of Kiribati.", By: "countries", Score: 0}, "kishu": Word{Word: "kishu", Def: "describe", By: "spreadsheet", Score: 0}, "kisieme": Word{Word: "kisieme", Def: "▯ is a sequence (ordering) of the members of ▯ (roi) in which each non-final member is related to the next by the relation ▯", By: "fagri", Score: 0}, "kiu": Word{Word: "kiu", Def: "dẻq sa ráı lî gủjēo ja dó dóshī dógū da", By: "uakci", Score: 0}, "kiu mamieq": Word{Word: "kiu mamieq", Def: "▯ (fact) is verifiable.", By: "Ilmen", Score: 0}, "ko": Word{Word: "ko", Def: "bủ hủaq pủı dósāq dógū, na ru jèojēq shî dósāq pa, sỏq dóshī dójō dógū, na ru jèojēq bû pủq dósāq na sa dó lỉ shỉ sa túq lủ bủ jẻojēq mêa hóa ja ráı na mêa hóa dósāq bı, kỏ dóshī sa lú dóhēo hỏa bı sỏq go dójō cu dógū fı sa lú tủq hóa lú jẻojēq mêa hóa dóhēo na mêa hóa dógū ceı ceı ceı dó dójō da", By: "uakci", Score: -1}, "ko gu": Word{Word: "ko gu", Def: "predicate: ‘second’; ▯ is the second among ▯ sorted by property ▯.", By: "official", Score: 0}, "ko saq": Word{Word: "ko saq", Def: "predicate: ‘third’; ▯ is the third among ▯ sorted by property ▯.", By: "official", Score: 0}, "ko shi": Word{Word: "ko shi", Def: "predicate: ‘first’; ▯ is the first among ▯ sorted by property ▯.", By: "official", Score: 0}, "ko shi ho poq li chui tisha da.": Word{Word: "ko shi ho poq li chui tisha da.", Def: "(A0393) He was the first person to arrive.", By: "examples", Score: 0}, "ko shi ji lao.": Word{Word: "ko shi ji lao.", Def: "(ORD.1) I am first among those who are waiting.", By: "official", Score: 0}, "koa": Word{Word: "koa", Def: "= gıq #lỏq", By: "uakci", Score: 0}, "koa poji muq da.": Word{Word: "koa poji muq da.", Def: "(A0520) My hands are cold.", By: "examples", Score: 0}, "koacao": Word{Word: "koacao", Def: "predicate: ‘winter’; ▯ is winter.", By: "official", Score: 0}, "koai": Word{Word: "koai", Def: "predicate: ‘net’; ▯ is a net/web/sieve/filter.", By: "official", Score: 0}, "koaikero": Word{Word: "koaikero", Def: "▯ is a mandarin orange tree (Citrus reticulata).", By: "Ilmen", Score: 0}, "koainuibokedoro": Word{Word: "koainuibokedoro", Def: "▯ is a mandarin orange tree (Citrus reticulata).", By: "Ilmen", Score: 0}, "koakea": Word{Word: "koakea", Def: "predicate: ‘refridgerator’; ▯ is a refridgerator.", By: "official", Score: 0}, "koaq": Word{Word: "koaq", Def: "predicate: ‘mature’; ▯ is mature/ripe/full-grown/adult.", By: "official", Score: 0}, "koaqheu": Word{Word: "koaqheu", Def: "▯ is ripe.", By: "Ilmen", Score: 0}, "koaqliq": Word{Word: "koaqliq", Def: "predicate: ‘woman’; ▯ is a woman (adult female).", By: "official", Score: 0}, "koaqnaq": Word{Word: "koaqnaq", Def: "predicate: ‘man’; ▯ is a man (adult male).", By: "official", Score: 0}, "koaqnuase": Word{Word: "koaqnuase", Def: "▯ is the harvest from plant(ation) ▯.", By: "uakci", Score: 0}, "koaqreq": Word{Word: "koaqreq", Def: "predicate: ‘adult’; ▯ is an adult human.", By: "official", Score: 0}, "kobodo": Word{Word: "kobodo", Def: "▯ is a Kobold (fantasy species)", By: "fagri", Score: 0}, "koe": Word{Word: "koe", Def: "dủa dóshī lû tu dó měa hóa dósāq bı dẻq dóshī lî gủjēo ja ráı dó dójō na na, na ru gủjēo dóshī ku dógū dójō da", By: "uakci", Score: 0}, "koe ji suq tuq poq li mai ja poq ja de da.": Word{Word: "koe ji suq tuq poq li mai ja poq ja de da.", Def: "(A0894) I choose you, beautiful, out of all people, to love.", By: "examples", Score: 0}, "koe mai ji suq tuq poq da.": Word{Word: "koe mai ji suq tuq poq da.", Def: "(A0895) I choose you, out of all people, to love.", By: "examples", Score: 0}, "koe ruaq ji jia jeo da.": Word{Word: "koe ruaq ji jia jeo da.", Def: "(A0897) I chode to declare that it is true.", By: "examples", Score: 0}, "koe ruaq ji pu bu da.": Word{Word: "koe ruaq ji pu bu da.", Def: "(A0896) I chose to declare that it is false.", By: "examples", Score: 0}, "koe suq sa rai maq tiao ja do ba.": Word{Word: "koe suq sa rai maq tiao ja do ba.", Def: "(A0487) Pick something out of them for being appropriate.", By: "examples", Score: 0}, "koe suq sa tiao ba.": Word{Word: "koe suq sa tiao ba.", Def: "(A0486) Pick something appropriate.", By: "examples", Score: 0}, "koecachuaq": Word{Word: "koecachuaq", Def: "▯ is determinism", By: "seaqtaq", Score: 0}, "koechuaq": Word{Word: "koechuaq", Def: "▯ is existentialism", By: "seaqtaq", Score: 0}, "koekuaq": Word{Word: "koekuaq", Def: "vote", By: "spreadsheet", Score: 1}, "koelao": Word{Word: "koelao", Def: "\u00a0▯ hesitates between ▯ for satisfying property ▯.", By: "Ilmen", Score: 0}, "koemea": Word{Word: "koemea", Def: "predicate: ‘option’; ▯ is an option.", By: "official", Score: 0}, "koemoi": Word{Word: "koemoi", Def: "▯ hesitates between ▯ for satisfying property ▯.", By: "Ilmen", Score: 0}, "koemu": Word{Word: "koemu", Def: "It is ▯'s turn to do ▯", By: "fagri", Score: 0}, "koepaq": Word{Word: "koepaq", Def: "▯ is a chapter; ▯ is a chapter of book ▯.", By: "solpahi", Score: -1}, "koese": Word{Word: "koese", Def: "▯ was chosen from a set of ▯-ers for purpose ▯; ▯ is a particular ▯-er.", By: "uakci", Score: 0}, "koeshei": Word{Word: "koeshei", Def: "▯ is available", By: "seaqtaq", Score: 0}, "koeshuq": Word{Word: "koeshuq", Def: "▯ was not chosen from the set of ▯-ers for ▯; ▯ is a non-particular, random ▯-er.", By: "uakci", Score: 0}, "koesuaidui": Word{Word: "koesuaidui", Def: "hasty", By: "uakci", Score: 0}, "kogiq": Word{Word: "kogiq", Def: "▯ is the x-th to last among ▯ where x is the number ▯, when sorted by property ▯.", By: "Ilmen", Score: 0}, "koi": Word{Word: "koi", Def: "fả dóshī chùochā sa pó dóshī ga pủe da", By: "uakci", Score: 0}, "koibeaq": Word{Word: "koibeaq", Def: "▯ is a walking stick.", By: "Ilmen", Score: 0}, "koiceaq": Word{Word: "koiceaq", Def: "▯ is a hoof.", By: "Ilmen", Score: 0}, "koiceaqbo": Word{Word: "koiceaqbo", Def: "▯ is an ungulate.", By: "Ilmen", Score: 0}, "koifa": Word{Word: "koifa", Def: "▯ goes to ▯ from ▯ on foot.", By: "lynn", Score: 0}, "koihua": Word{Word: "koihua", Def: "▯ is a leg.", By: "Ilmen", Score: 0}, "koikoi": Word{Word: "koikoi", Def: "▯ goes for a walk.", By: "uakci", Score: 0}, "koipeo": Word{Word: "koipeo", Def: "▯ ambulates through ▯.", By: "Ilmen", Score: 0}, "koitieq": Word{Word: "koitieq", Def: "predicate: ‘path’; ▯ is a walking path.", By: "official", Score: 0}, "koitoai": Word{Word: "koitoai", Def: "step (motion)", By: "spreadsheet", Score: 1}, "koluqbao": Word{Word: "koluqbao", Def: "▯ is a member of genus Columba (containing some doves and pigeons, the typical pigeons).", By: "Hoemai", Score: 0}, "komodobarala": Word{Word: "komodobarala", Def: "▯ is a Komodo dragon/Komodo monitor (Varanus komodoensis).", By: "Hoemai", Score: 0}, "kone": Word{Word: "kone", Def: "dog", By: "spreadsheet", Score: 0}, "koni": Word{Word: "koni", Def: "▯ is a European rabbit (Oryctolagus cuniculus).", By: "Ilmen", Score: 1}, "koniaq": Word{Word: "koniaq", Def: "▯ is year ▯/n.", By: "lynn", Score: 0}, "koniq": Word{Word: "koniq", Def: "▯ is a European rabbit (Oryctolagus cuniculus).", By: "Ilmen", Score: 0}, "konosho": Word{Word: "konosho", Def: "▯ pertains to Qo'noS (the homeworld of the Klingons)", By: "seaqtaq", Score: 0}, "kopi": Word{Word: "kopi", Def: "predicate: ‘copy’; ▯ is a copy of ▯.", By: "official", Score: 0}, "kopio": Word{Word: "kopio", Def: "scorpion", By: "spreadsheet", Score: 0}, "kopiruo": Word{Word: "kopiruo", Def: "▯ mimics/immitates ▯.", By: "Ilmen", Score: 0}, "kopishuaq": Word{Word: "kopishuaq", Def: "predicate: ‘copy’; ▯ copies ▯.", By: "official", Score: 0}, "koq": Word{Word: "koq", Def: "predicate: ‘rough’; ▯ is rough/uneven.", By: "official", Score: 0}, "koqchoacha": Word{Word: "koqchoacha", Def: "▯ is creaky voice (phonetics)", By: "seaqtaq", Score: 0}, "koqfia": Word{Word: "koqfia", Def: "▯ happens at a time significantly closer to the next ▯-er than to the last.", By: "uakci", Score: 0}, "koqgo": Word{Word: "koqgo", Def: "▯ pertains to the culture of Congo, Republic of the[q].", By: "countries", Score: 0}, "koqgogua": Word{Word: "koqgogua", Def: "▯ is the country Congo, Republic of the[q].", By: "countries", Score: 0}, "koqgotoaq": Word{Word: "koqgotoaq", Def: "▯ is (one of) the language(s) spoken in Congo, Republic of the[q].", By: "countries", Score: 0}, "koqpani": Word{Word: "koqpani", Def: "company", By: "spreadsheet", Score: 0}, "koqpiuta": Word{Word: "koqpiuta", Def: "predicate: ‘computer’; ▯ is a computer.", By: "official", Score: 0}, "koqpue": Word{Word: "koqpue", Def: "▯ is an armadillo (Dasypus genus).", By: "Ilmen", Score: 0}, "koqsie": Word{Word: "koqsie", Def: "▯ happens at a time significantly closer to the last ▯-er than to the next.", By: "uakci", Score: 0}, "koqto": Word{Word: "koqto", Def: "▯ is an internet account\u00a0", By: "seaqtaq", Score: 0}, "kori": Word{Word: "kori", Def: "rope", By: "spreadsheet", Score: -1}, "korotu": Word{Word: "korotu", Def: "▯ is a spotted hyena (Crocuta crocuta).", By: "Ilmen", Score: 0}, "koruo": Word{Word: "koruo", Def: "▯ is a raven/crow/jackdaw/rook; ▯ belongs to the Corvus genus.", By: "Ilmen", Score: 0}, "koselo": Word{Word: "koselo", Def: "▯ is a hazel.", By: "Ilmen", Score: 0}, "kosi": Word{Word: "kosi", Def: "▯ = cos(▯).", By: "Ilmen", Score: 0}, "kosofo": Word{Word: "kosofo", Def: "▯ pertains to the culture of Kosovo → Kosovo.", By: "countries", Score: 0}, "kosofogua": Word{Word: "kosofogua", Def: "▯ is the country Kosovo → Kosovo.", By: "countries", Score: 0}, "kosofotoaq": Word{Word: "kosofotoaq", Def: "▯ is (one of) the language(s) spoken in Kosovo → Kosovo.", By: "countries", Score: 0}, "kotibuare": Word{Word: "kotibuare", Def: "▯ pertains to the culture of Côte d'Ivoire → Ivory Coast.", By: "countries", Score: 0}, "kotibuaregua": Word{Word: "kotibuaregua", Def: "▯ is the country Côte d'Ivoire → Ivory Coast.", By: "countries", Score: 0}, "kotibuaretoaq": Word{Word: "kotibuaretoaq", Def: "▯ is (one of) the language(s) spoken in Côte d'Ivoire → Ivory Coast.", By: "countries", Score: 0}, "ku": Word{Word: "ku", Def: "[KU] Shú kủ pa shẻıdōetōa na ru lảı nîqdāo pó tóa fǐa hóa bíhōı da. Mũa bı mủıjēq mó «kỏı ku jí» teo mó «jỉ kóı» teo kıo nỉqdāo pó shú jỉ kı da.", By: "Ilmen", Score: 0}, "ku bira pa, m, lu... ca pie poq hoa duime na, ruo duahui ho da.": Word{Word: "ku bira pa, m, lu... ca pie poq hoa duime na, ruo duahui ho da.", Def: "(A0621) Now, beer is, um… stuff that, when people drink too much of it, they act foolish.", By: "examples", Score: 0}, "ku neijue pa ": Word{Word: "ku neijue pa ", Def: "(A0156) ", By: "examples", Score: 0}, "kua": Word{Word: "kua", Def: "predicate: ‘room’; ▯ is a room.", By: "official", Score: 0}, "kuabue": Word{Word: "kuabue", Def: "predicate: ‘appartment’; ▯ is an appartment/flat.", By: "official", Score: 0}, "kuai": Word{Word: "kuai", Def: "= #taq #shảo #jẻo", By: "uakci", Score: 0}, "kuai shai gaikiu": Word{Word: "kuai shai gaikiu", Def: "▯ has a hunger/urge/longing to disappear.", By: "niucuq", Score: 0}, "kuaiboai": Word{Word: "kuaiboai", Def: "▯ surrenders to the drive/impulsion of doing ▯.", By: "Ilmen", Score: 0}, "kuaiboaile": Word{Word: "kuaiboaile", Def: "▯ is impulsive.", By: "Ilmen", Score: 0}, "kuaiboq": Word{Word: "kuaiboq", Def: ".", By: "uakci", Score: 0}, "kuaibutao": Word{Word: "kuaibutao", Def: "▯ does ▯ against their will.", By: "uakci", Score: 0}, "kuaica": Word{Word: "kuaica", Def: "▯ is tempting to ▯.", By: "Ilmen", Score: 0}, "kuaige": Word{Word: "kuaige", Def: "▯ is an inspiration; ▯ inspires ▯ to satisfy property ▯", By: "seaqtaq", Score: 0}, "kuailui": Word{Word: "kuailui", Def: "▯ is satisfied, as their/his/her/its urge/drive/hunger/longing ▯ has been fulfilled.", By: "Ilmen", Score: 0}, "kuairuo(he)": Word{Word: "kuairuo(he)", Def: "▯ is impulsive", By: "seaqtaq", Score: 0}, "kuaishai": Word{Word: "kuaishai", Def: "▯ gets bored of/loses the urge to satisfy property ▯", By: "seaqtaq", Score: 0}, "kuao": Word{Word: "kuao", Def: "predicate: ‘cyan’; ▯ is the colour cyan.", By: "official", Score: 0}, "kuaochaq": Word{Word: "kuaochaq", Def: "predicate: ‘Friday’; ▯ is a Friday.", By: "official", Score: 0}, "kuaoreo": Word{Word: "kuaoreo", Def: "predicate: ‘cyan’; ▯ is of cyan colour.", By: "official", Score: 0}, "kuaq": Word{Word: "kuaq", Def: "tủa dủa chà kûq dóshī sa ráı na dóshī jêo dóshī dógū da", By: "uakci", Score: 0}, "kuaq ka.": Word{Word: "kuaq ka.", Def: "elliptical performative", By: "uakci", Score: 0}, "kuaq kie": Word{Word: "kuaq kie", Def: "predicate: ‘thank’; ▯ thanks ▯.", By: "official", Score: 0}, "kuaq kie ji ka.": Word{Word: "kuaq kie ji ka.", Def: "(A0236) I hereby display my gratefulness.", By: "examples", Score: 0}, "kuaq kie suq ho ba.": Word{Word: "kuaq kie suq ho ba.", Def: "(A0235) You ought to be grateful to him.", By: "examples", Score: 0}, "kuaq kuai muaq ho chaqtu ca noilie da.": Word{Word: "kuaq kuai muaq ho chaqtu ca noilie da.", Def: "(A0972) Painfully, he/she shows urge to be dead every day.", By: "examples", Score: 0}, "kuaq sheo": Word{Word: "kuaq sheo", Def: "predicate: ▯ apologizes to ▯.", By: "official", Score: 0}, "kuaq sheo ji ka.": Word{Word: "kuaq sheo ji ka.", Def: "(A0238) I hereby display my regret.", By: "examples", Score: 0}, "kuaq taijai": Word{Word: "kuaq taijai", Def: "congratulate", By: "spreadsheet", Score: -1}, "kuaqba": Word{Word: "kuaqba", Def: "▯ challenges ▯ to do ▯.", By: "Ilmen", Score: 0}, "kuaqgi": Word{Word: "kuaqgi", Def: "▯ is sincere in expressing property ▯.", By: "Ilmen", Score: 0}, "kuaqni": Word{Word: "kuaqni", Def: "Pointing demonstrative", By: "spreadsheet", Score: 0}, "kuasu": Word{Word: "kuasu", Def: "▯ is kvass (a type of traditional fermented Russian no- or low-alcohol beverage, made from bread, often flavored with fruit).", By: "Hoemai", Score: 0}, "kuba": Word{Word: "kuba", Def: "▯ pertains to the culture of Cuba – Republic of Cuba.", By: "countries", Score: 0}, "kubagua": Word{Word: "kubagua", Def: "▯ is the country Cuba – Republic of Cuba.", By: "countries", Score: 0}, "kubatoaq": Word{Word: "kubatoaq", Def: "▯ is (one of) the language(s) spoken in Cuba – Republic of Cuba.", By: "countries", Score: 0}, "kudefi": Word{Word: "kudefi", Def: "▯ says ▯ telephonically to ▯.", By: "uakci", Score: 0}, "kudo": Word{Word: "kudo", Def: "▯ gives kudos to ▯; ▯ sums up ▯’s helpful effort in a thank-you.", By: "uakci", Score: 0}, "kue": Word{Word: "kue", Def: "mẻ dóshī sa bóe, na ru lẻ kâı sa ráı sa ráı dóshī da", By: "uakci", Score: 0}, "kue ...m... pa neo toqfua.": Word{Word: "kue ...m... pa neo toqfua.", Def: "(IJC.1) The book is, er, on the table.", By: "official", Score: 0}, "kueboe": Word{Word: "kueboe", Def: "page", By: "spreadsheet", Score: 0}, "kuecea": Word{Word: "kuecea", Def: "▯ is a book-bag", By: "fagri", Score: 0}, "kuechua": Word{Word: "kuechua", Def: "▯ is the title of a book", By: "seaqtaq", Score: 0}, "kuejio": Word{Word: "kuejio", Def: "predicate: ‘library’; ▯ is a library.", By: "official", Score: 0}, "kuemui": Word{Word: "kuemui", Def: "▯ is the definition of ▯", By: "seaqtaq", Score: 0}, "kuepaq": Word{Word: "kuepaq", Def: "(fork of #n6bXVbhwV) ▯ is a chapter; ▯ is a chapter of book ▯.", By: "solpahi", Score: 0}, "kuepo": Word{Word: "kuepo", Def: "▯ is a vagina.", By: "Hoemai", Score: 0}, "kueq": Word{Word: "kueq", Def: "predicate: ‘gather’; ▯ (plural) gather/collect at locus ▯ (intransitive and non-agentive).", By: "official", Score: 0}, "kueq mori gue rea su deaq da.": Word{Word: "kueq mori gue rea su deaq da.", Def: "(A0960) Ants gathers at corner of floor.", By: "examples", Score: 0}, "kueqtua": Word{Word: "kueqtua", Def: "predicate: ‘collect’; ▯ collects/gathers ▯ (plural) at locus ▯.", By: "official", Score: 0}, "kueshuo": Word{Word: "kueshuo", Def: "predicate: ‘library’; ▯ is a library.", By: "official", Score: 0}, "kuetie": Word{Word: "kuetie", Def: "▯ is a book cover; ▯ is a book cover of book ▯.", By: "Hoemai", Score: 0}, "kufai": Word{Word: "kufai", Def: "▯ pertains to the culture of Kuwait – State of Kuwait.", By: "countries", Score: 0}, "kufaigua": Word{Word: "kufaigua", Def: "▯ is the country Kuwait – State of Kuwait.", By: "countries", Score: 0}, "kufaitoaq": Word{Word: "kufaitoaq", Def: "▯ is (one of) the language(s) spoken in Kuwait – State of Kuwait.", By: "countries", Score: 0}, "kui": Word{Word: "kui", Def: "preposition: \"because\"", By: "official", Score: 0}, "kui hi rai bi bu guai suq moq.": Word{Word: "kui hi rai bi bu guai suq moq.", Def: "(A0086) Why aren't you working?", By: "examples", Score: 0}, "kui hi rai bi bu kuaq sheo suq moq.": Word{Word: "kui hi rai bi bu kuaq sheo suq moq.", Def: "(A0237) Why aren't you sorry?", By: "examples", Score: 0}, "kui hi rai bi meo suq moq.": Word{Word: "kui hi rai bi meo suq moq.", Def: "(A0297) Why are you sad?", By: "examples", Score: 0}, "kui hi rai bi nu choaijaq maq moq": Word{Word: "kui hi rai bi nu choaijaq maq moq", Def: "(A0528) Why is it that expensive?", By: "examples", Score: 0}, "kui hi rai bi nu choaijaq ni haq moq.": Word{Word: "kui hi rai bi nu choaijaq ni haq moq.", Def: "(A0118) Why is this food so expensive?", By: "examples", Score: 0}, "kui jeaqcao bi ceo rua ti sa pui da.": Word{Word: "kui jeaqcao bi ceo rua ti sa pui da.", Def: "(A0214) Because it's spring, flowers are popping up all over the place.", By: "examples", Score: 0}, "kui shaikuai bi sue shoe ji suq bu huogai ka.": Word{Word: "kui shaikuai bi sue shoe ji suq bu huogai ka.", Def: "(A0989) ", By: "examples", Score: 0}, "kuifieq": Word{Word: "kuifieq", Def: "▯ rationalises (rationalizes) ▯; ▯ explains to themselves that ▯ was caused by ▯.", By: "uakci", Score: 0}, "kuigiq": Word{Word: "kuigiq", Def: "▯ is the case despite ▯ being the case", By: "seaqtaq", Score: 0}, "kuigiqbu": Word{Word: "kuigiqbu", Def: "despite", By: "spreadsheet", Score: 0}, "kuihi": Word{Word: "kuihi", Def: "Why is ▯ the case?", By: "Ilmen", Score: 0}, "kuimiu": Word{Word: "kuimiu", Def: "(fork of #lGsq5NaFt) ▯ concludes that ▯ is the case", By: "seaqtaq", Score: 0}, "kuitao cu": Word{Word: "kuitao cu", Def: "goal", By: "spreadsheet", Score: 0}, "kuitue": Word{Word: "kuitue", Def: "predicate: ‘reason’; ▯ is a reason why ▯ is the case.", By: "official", Score: 0}, "kuku": Word{Word: "kuku", Def: "▯ is a typical cuckoo (Cuculus genus).", By: "Ilmen", Score: 0}, "kulo": Word{Word: "kulo", Def: "mosquito", By: "spreadsheet", Score: 0}, "kune": Word{Word: "kune", Def: "dog", By: "spreadsheet", Score: 0}, "kunechoa": Word{Word: "kunechoa", Def: "▯ barks (▯)", By: "seaqtaq", Score: 0}, "kunechoa sa kune": Word{Word: "kunechoa sa kune", Def: "(B0003) Dogs bark", By: "examples", Score: 0}, "kunecie": Word{Word: "kunecie", Def: "shark", By: "spreadsheet", Score: 0}, "kunemuse": Word{Word: "kunemuse", Def: "▯ is a prairie dog.", By: "Ilmen", Score: 0}, "kunetei": Word{Word: "kunetei", Def: "▯ belongs to the Caniformia taxonomic suborder.", By: "Ilmen", Score: 0}, "kuniq": Word{Word: "kuniq", Def: "rabbit", By: "spreadsheet", Score: -1}, "kunu": Word{Word: "kunu", Def: "culture", By: "spreadsheet", Score: -1}, "kuo": Word{Word: "kuo", Def: "rẻo sa cía lủ hẻq hóa sa gío bỉaq pủı na dóshī da", By: "uakci", Score: 0}, "kuochai": Word{Word: "kuochai", Def: "▯ is black tea.", By: "uakci", Score: 0}, "kuohuohua": Word{Word: "kuohuohua", Def: "▯ is a caracal.", By: "Ilmen", Score: 0}, "kuoi": Word{Word: "kuoi", Def: "= gıq #hủaq", By: "uakci", Score: 0}, "kuoi shueq ni rioq riqchai da.": Word{Word: "kuoi shueq ni rioq riqchai da.", Def: "(A0946) This type of green tea is less bitter.", By: "examples", Score: 0}, "kuoi soe ni rioq kafe da.": Word{Word: "kuoi soe ni rioq kafe da.", Def: "(A0947) This type of coffee is less sour.", By: "examples", Score: 0}, "kuoifaq": Word{Word: "kuoifaq", Def: "(fork of #P3HJeyfzI) ▯ elapses for less than ▯ (period of time)", By: "seaqtaq", Score: 0}, "kuoilemiu": Word{Word: "kuoilemiu", Def: "▯ underestimates how much ▯ is the case.", By: "Ilmen", Score: 0}, "kuoimea": Word{Word: "kuoimea", Def: "▯ is the minority of ▯", By: "seaqtaq", Score: 0}, "kuojeoq": Word{Word: "kuojeoq", Def: "▯ is a black hole.", By: "Ilmen", Score: 0}, "kuonoqneaq": Word{Word: "kuonoqneaq", Def: "▯_ is pepper", By: "seaqtaq", Score: 0}, "kuonoqpio": Word{Word: "kuonoqpio", Def: "(fork of #TUowVe6em) ▯_ is pepper", By: "seaqtaq", Score: 0}, "kuonoqsai": Word{Word: "kuonoqsai", Def: "(fork of #TUowVe6em) ▯_ is pepper", By: "seaqtaq", Score: 0}, "kuoq": Word{Word: "kuoq", Def: "predicate: ‘bone’; ▯ is a bone.", By: "official", Score: 0}, "kuoqbo": Word{Word: "kuoqbo", Def: "▯ is a vertebrate.", By: "Ilmen", Score: 0}, "kuoqbuq": Word{Word: "kuoqbuq", Def: "beak", By: "spreadsheet", Score: -1}, "kuoqcia": Word{Word: "kuoqcia", Def: "(fork of #qsUddqLYg) ▯ is an invertebrate.", By: "seaqtaq", Score: 0}, "kuoqhuna": Word{Word: "kuoqhuna", Def: "▯ is cartilage.", By: "Ilmen", Score: 0}, "kuoqhunacie": Word{Word: "kuoqhunacie", Def: "▯ is a cartilaginous fish (Chondrichthyes).", By: "Ilmen", Score: 0}, "kuoqme": Word{Word: "kuoqme", Def: "▯ is a skeleton.", By: "Ilmen", Score: 0}, "kuoqniai": Word{Word: "kuoqniai", Def: "vertebrate", By: "spreadsheet", Score: -1}, "kuoqsai": Word{Word: "kuoqsai", Def: "▯ is bone (material).", By: "lynn", Score: 1}, "kuoreo": Word{Word: "kuoreo", Def: "predicate: ‘black’; ▯ is of black colour.", By: "official", Score: 0}, "kuoreo ni kafe da.": Word{Word: "kuoreo ni kafe da.", Def: "(A0194) This coffee is black.", By: "examples", Score: 0}, "kuoreo poji bikini da.": Word{Word: "kuoreo poji bikini da.", Def: "(A0102) My bikini is black.", By: "examples", Score: 0}, "kuoriba": Word{Word: "kuoriba", Def: "▯ is a blackcurrant (Ribes nigrum).", By: "Hoemai", Score: 0}, "kuoshuao": Word{Word: "kuoshuao", Def: "▯ is a crow", By: "fagri", Score: 0}, "kuq": Word{Word: "kuq", Def: "predicate: ‘say’; ▯ says ▯ to ▯.", By: "official", Score: 0}, "kuq ho mia ca da.": Word{Word: "kuq ho mia ca da.", Def: "(A0838) He spoke, causing many things to happen.", By: "examples", Score: 0}, "kuq suq sa rai ba.": Word{Word: "kuq suq sa rai ba.", Def: "(A0229) Say something.", By: "examples", Score: 0}, "kuqcheu": Word{Word: "kuqcheu", Def: "▯ tells lie ▯ (quote).", By: "Ilmen", Score: -1}, "kuqchi": Word{Word: "kuqchi", Def: "hear that (hearsay, indirect information), ti'erna", By: "spreadsheet", Score: 0}, "kuqcu": Word{Word: "kuqcu", Def: "That ▯ was said to ▯; It was said to (x2) that (x1).", By: "uakci", Score: 0}, "kuqcuji": Word{Word: "kuqcuji", Def: "As it was said to me, ▯. [evidentiality]", By: "uakci", Score: 0}, "kuqgai": Word{Word: "kuqgai", Def: "▯ knows ▯ from hearsay.", By: "uakci", Score: 1}, "kuqgo": Word{Word: "kuqgo", Def: "That ▯ was said by ▯; ▯ is as ▯ said it.", By: "uakci", Score: 0}, "kuqhiao": Word{Word: "kuqhiao", Def: "▯ insults ▯.", By: "lynn", Score: 0}, "kuqhui": Word{Word: "kuqhui", Def: "▯ tells the lie ▯.", By: "Ilmen", Score: 0}, "kuqkai": Word{Word: "kuqkai", Def: "▯ transcribes text ▯", By: "seaqtaq", Score: 0}, "kuqmia": Word{Word: "kuqmia", Def: "It is alleged that ▯; ▯ is alleged to ▯/1. [JEO]", By: "uakci", Score: -1}, "kuqmoi": Word{Word: "kuqmoi", Def: "▯ says ▯ in his/her/their mind; ▯ thinks ▯ (quote).", By: "Ilmen", Score: 1}, "kuqmuo": Word{Word: "kuqmuo", Def: "▯ is done talking; ▯ has said everything they had to say so far.", By: "uakci", Score: 0}, "kuqnu": Word{Word: "kuqnu", Def: "(fork of #4sR7f97iF) ▯ is said/alleged to be so; ▯ allegedly (\"so they say\") satisfies property ▯.", By: "uakci", Score: 1}, "kuqse": Word{Word: "kuqse", Def: "predicate: ‘text’; ▯ is text (spoken or written).", By: "official", Score: 0}, "kuqshao": Word{Word: "kuqshao", Def: "meant to say, skudji", By: "spreadsheet", Score: 0}, "kuqtoai": Word{Word: "kuqtoai", Def: "predicate: ‘sentence’; ▯ is a sentence.", By: "official", Score: 0}, "kuraisu": Word{Word: "kuraisu", Def: "Christ", By: "uakci", Score: 0}, "kusu": Word{Word: "kusu", Def: "▯ is a member of genus Cucurbita (squashes, gourds, pumpkins).", By: "Hoemai", Score: 0}, "la": Word{Word: "la", Def: "incidental: ‘meta’; begin meta clause; makes a comment about the containing sentence (text not content).", By: "official", Score: 0}, "la chi na": Word{Word: "la chi na", Def: "as far as I know; if I’m not mistaken; as I believe", By: "uakci", Score: 0}, "la chio bi che chaocaq ji.": Word{Word: "la chio bi che chaocaq ji.", Def: "(A0458) I repeat: I am a chauffeur.", By: "examples", Score: 0}, "la hiaodairuaqse na: dai heq go toai hea kasi da.": Word{Word: "la hiaodairuaqse na: dai heq go toai hea kasi da.", Def: "(A0625) Warning: may contain trace amounts of nuts.", By: "examples", Score: 0}, "la juai": Word{Word: "la juai", Def: "to be honest; in all honesty; to be serious", By: "uakci", Score: 0}, "la muijeq": Word{Word: "la muijeq", Def: "“To say something that means the same thing…” (→ implied: “In other words…”)", By: "lynn", Score: 0}, "la toaheo": Word{Word: "la toaheo", Def: "In other words, …", By: "Ilmen", Score: 0}, "la toese": Word{Word: "la toese", Def: "\"and so on\", \"et cetera\"", By: "lynn", Score: 0}, "labi": Word{Word: "labi", Def: "lion", By: "spreadsheet", Score: 0}, "labipada": Word{Word: "labipada", Def: "▯ is a spotted small cat of the Leopardus genus.", By: "Ilmen", Score: 0}, "lageria": Word{Word: "lageria", Def: "▯ pertains to the culture of Algeria – People's Democratic Republic of Algeria.", By: "countries", Score: 0}, "lageriagua": Word{Word: "lageriagua", Def: "▯ is the country Algeria – People's Democratic Republic of Algeria.", By: "countries", Score: 0}, "lageriatoaq": Word{Word: "lageriatoaq", Def: "▯ is (one of) the language(s) spoken in Algeria – People's Democratic Republic of Algeria.", By: "countries", Score: 0}, "lago": Word{Word: "lago", Def: "rabbit", By: "spreadsheet", Score: -1}, "lai": Word{Word: "lai", Def: "dảı gâı sa póq dóshī na ru mûı sa dógū dóshī da", By: "uakci", Score: 0}, "laiboe": Word{Word: "laiboe", Def: "▯ is a flag.", By: "Ilmen", Score: 0}, "laiciuse": Word{Word: "laiciuse", Def: "▯ is a hormone.", By: "lynn", Score: 0}, "laihaqji": Word{Word: "laihaqji", Def: "▯ is a Chinese character / Han character.", By: "lynn", Score: 0}, "laijeq": Word{Word: "laijeq", Def: "▯ is homographs with ▯", By: "seaqtaq", Score: 0}, "laikoekea": Word{Word: "laikoekea", Def: "▯ is a keyboard ", By: "seaqtaq", Score: 0}, "laime": Word{Word: "laime", Def: "(fork of #iyyJWvFwY) ▯ is a code\u00a0", By: "seaqtaq", Score: 0}, "lairioi": Word{Word: "lairioi", Def: "▯ is a label/tag", By: "seaqtaq", Score: 0}, "laitei": Word{Word: "laitei", Def: "▯ is a letterform.", By: "lynn", Score: 0}, "laiteime": Word{Word: "laiteime", Def: "▯ is a font or typeface.", By: "lynn", Score: 0}, "laketa": Word{Word: "laketa", Def: "▯ is a member of genus Alligator.SUBMIT", By: "Hoemai", Score: 0}, "laki": Word{Word: "laki", Def: "jgalu (nail/claw)", By: "spreadsheet", Score: -1}, "lama": Word{Word: "lama", Def: "▯ is a llama.", By: "Ilmen", Score: 0}, "lana": Word{Word: "lana", Def: "side", By: "spreadsheet", Score: -1}, "lao": Word{Word: "lao", Def: "rào hâıgīq dógū pa, bủ tảo dóshī sa ráı da", By: "uakci", Score: 0}, "lao ba.": Word{Word: "lao ba.", Def: "(A0257) Wait.", By: "examples", Score: 0}, "lao ji lu joafao da.": Word{Word: "lao ji lu joafao da.", Def: "(A0183) I am waiting for the weekend.", By: "examples", Score: 0}, "lao ji ti sa poq da.": Word{Word: "lao ji ti sa poq da.", Def: "(A0543) I'm waiting for some people to be here.", By: "examples", Score: 0}, "lao tu poq ba.": Word{Word: "lao tu poq ba.", Def: "(ILL.6) Everybody should wait.", By: "official", Score: 0}, "laocai": Word{Word: "laocai", Def: "patient (adj)", By: "spreadsheet", Score: -1}, "laocaicia": Word{Word: "laocaicia", Def: "▯ is impatient", By: "fagri", Score: 0}, "laocaiciajaqjaq": Word{Word: "laocaiciajaqjaq", Def: "▯ has had it up to *here* with ▯ (0)", By: "fagri", Score: -1}, "laocaiciajaqni": Word{Word: "laocaiciajaqni", Def: "▯ has had it up to *here* with ▯ (0)", By: "fagri", Score: 0}, "laochoa": Word{Word: "laochoa", Def: "▯ stutters/hesitates.", By: "uakci", Score: 0}, "laogiu": Word{Word: "laogiu", Def: "▯ is a queue/line of persons waiting for ▯ to be the case.", By: "Hoemai", Score: 0}, "laojai": Word{Word: "laojai", Def: "▯ looks forward to ▯; ▯ is in joyful anticipation of ▯.", By: "Ilmen", Score: 0}, "laojoe": Word{Word: "laojoe", Def: "▯ is patient.", By: "Ilmen", Score: 0}, "laolai": Word{Word: "laolai", Def: "ellipsis (…)", By: "uakci", Score: 0}, "laona": Word{Word: "laona", Def: "clown", By: "spreadsheet", Score: 0}, "laoni": Word{Word: "laoni", Def: "clown", By: "spreadsheet", Score: 0}, "laonieq": Word{Word: "laonieq", Def: "▯ is impatient.", By: "Ilmen", Score: 0}, "laorue": Word{Word: "laorue", Def: "▯ is impatient.", By: "Ilmen", Score: 0}, "laotaq": Word{Word: "laotaq", Def: "▯(file, game) loads", By: "seaqtaq", Score: 0}, "lapi": Word{Word: "lapi", Def: "horn / jirna", By: "spreadsheet", Score: 0}, "lapipo": Word{Word: "lapipo", Def: "deer", By: "spreadsheet", Score: 0}, "laq": Word{Word: "laq", Def: "= kıu #hủogāı", By: "uakci", Score: 0}, "laqcai": Word{Word: "laqcai", Def: "cảı dóshī lảq da", By: "uakci", Score: 0}, "laqda": Word{Word: "laqda", Def: "▯ is a lambda function (anonymous function; abstraction with open places like #lî).", By: "uakci", Score: 0}, "laqdiu": Word{Word: "laqdiu", Def: "▯ is the field of acoustics (physics)", By: "seaqtaq", Score: 0}, "laqfia": Word{Word: "laqfia", Def: "▯ pertains to the culture of Latvia – Republic of Latvia.", By: "countries", Score: 0}, "laqfiagua": Word{Word: "laqfiagua", Def: "▯ is the country Latvia – Republic of Latvia.", By: "countries", Score: 0}, "laqfiatoaq": Word{Word: "laqfiatoaq", Def: "▯ is (one of) the language(s) spoken in Latvia – Republic of Latvia.", By: "countries", Score: 0}, "laqgea": Word{Word: "laqgea", Def: "▯ is a high-pitched sound.", By: "Ilmen", Score: 0}, "laqgeatei": Word{Word: "laqgeatei", Def: "▯ is a pitch-contour, tune or melody.", By: "Ilmen", Score: 1}, "laqgeateilai": Word{Word: "laqgeateilai", Def: "▯ is a tone mark.", By: "Ilmen", Score: 0}, "laqgia": Word{Word: "laqgia", Def: "predicate: ‘tape’; ▯ is an audio tape.", By: "official", Score: 0}, "laqjeq": Word{Word: "laqjeq", Def: "▯ is homophonous with ▯", By: "seaqtaq", Score: 0}, "laqkea": Word{Word: "laqkea", Def: "▯ is a speaker", By: "seaqtaq", Score: 0}, "laqkeafuq": Word{Word: "laqkeafuq", Def: "▯ is headphones or earbuds", By: "fagri", Score: 0}, "laqko": Word{Word: "laqko", Def: "▯ carries the X-th tone ▯, where X is the cardinality of any ▯-er.\u00a0", By: "uakci", Score: 0}, "laqkue": Word{Word: "laqkue", Def: "predicate: ‘audiobook’; ▯ is an audiobook.", By: "official", Score: 0}, "laqlaq": Word{Word: "laqlaq", Def: "▯ is a famous male pianist.", By: "uakci", Score: 0}, "laqleoq": Word{Word: "laqleoq", Def: "▯ are earplugs/earmuffs/anything used to protect he ears from excessive and or unwanted noise ", By: "seaqtaq", Score: 0}, "laqli": Word{Word: "laqli", Def: "analyse", By: "spreadsheet", Score: -1}, "laqnia": Word{Word: "laqnia", Def: "▯ is a low-pitched sound.", By: "Ilmen", Score: 0}, "laqnueq": Word{Word: "laqnueq", Def: "echo (v)", By: "spreadsheet", Score: 0}, "laqnuoq": Word{Word: "laqnuoq", Def: "▯ is an echo.", By: "Ilmen", Score: 0}, "laqrue": Word{Word: "laqrue", Def: "quiet", By: "uakci", Score: -1}, "laqshuo": Word{Word: "laqshuo", Def: "▯ is a phonetic inventory", By: "seaqtaq", Score: 0}, "laqtei": Word{Word: "laqtei", Def: "▯ is the pitch contour of sound ▯.", By: "lynn", Score: 0}, "laqteitoaq": Word{Word: "laqteitoaq", Def: "▯ is a tonal language.", By: "lynn", Score: 0}, "lasi": Word{Word: "lasi", Def: "plastic", By: "spreadsheet", Score: -1}, "le": Word{Word: "le", Def: "pủı sa túq tủe shě dóshī hóa da", By: "uakci", Score: 0}, "le jia bu fa ho da.": Word{Word: "le jia bu fa ho da.", Def: "(A0440) She probably won't go.", By: "examples", Score: 0}, "le jia bu jai ho da.": Word{Word: "le jia bu jai ho da.", Def: "(A0438) He probably won't be happy.", By: "examples", Score: 0}, "lea": Word{Word: "lea", Def: "predicate: ‘art’; ▯ is art.", By: "official", Score: 0}, "leache": Word{Word: "leache", Def: "predicate: ‘artist’; ▯ is an artist.", By: "official", Score: 0}, "leagi": Word{Word: "leagi", Def: "▯ is of good quality.", By: "uakci", Score: 0}, "leagikuai": Word{Word: "leagikuai", Def: "▯ is a perfectionist; ▯ strives for the quality of ▯.", By: "uakci", Score: 0}, "leajuq": Word{Word: "leajuq", Def: "▯ is dedicated to ▯", By: "fagri", Score: -1}, "leaq": Word{Word: "leaq", Def: "predicate: ‘adjacent’; ▯ is adjacent to ▯ in property ▯.", By: "official", Score: 0}, "leaq mu ne dua ji suq gi jiao.": Word{Word: "leaq mu ne dua ji suq gi jiao.", Def: "(A0873) My knowledge that God is good borders yours (either just above or just below in intensity).", By: "examples", Score: 0}, "leaq mu ne joe ho liqho da.": Word{Word: "leaq mu ne joe ho liqho da.", Def: "(A0874) Their skills border hers (either just above or just below).", By: "examples", Score: 0}, "leaq mu ne joe koi ho liqho da.": Word{Word: "leaq mu ne joe koi ho liqho da.", Def: "(A0875) Their skills at walking border hers (either just above or just below).", By: "examples", Score: 0}, "leaq rao hoq sho bia ji da.": Word{Word: "leaq rao hoq sho bia ji da.", Def: "(A0872) It happened right before/after I got sick.", By: "examples", Score: 0}, "leaq rao koi ji na jai ji da.": Word{Word: "leaq rao koi ji na jai ji da.", Def: "(A0871) My walking was right before/after my being happy.", By: "examples", Score: 0}, "leaq ti ji suq da.": Word{Word: "leaq ti ji suq da.", Def: "(A0869) I am right next to you.", By: "examples", Score: 0}, "leaq ti ni piohea ji da.": Word{Word: "leaq ti ni piohea ji da.", Def: "(A0868) This rock is right next to me.", By: "examples", Score: 0}, "leaqbie": Word{Word: "leaqbie", Def: "▯ takes place next after ▯", By: "Ilmen", Score: 0}, "leaqbua": Word{Word: "leaqbua", Def: "▯ is a neighbor of ▯.", By: "Ilmen", Score: 0}, "leaqfia": Word{Word: "leaqfia", Def: "predicate: ‘precede’; ▯ immediately precedes ▯ in sequence ▯.", By: "official", Score: 0}, "leaqshiu": Word{Word: "leaqshiu", Def: "= [00] Shỉu dóshī dógū na ru sıa dósāq bı shỉu dósāq dógū na ru bỉe dósāq dóshī.", By: "Ilmen", Score: 0}, "leaqsie": Word{Word: "leaqsie", Def: "predicate: ‘next’; ▯ immediately follows ▯ in sequence ▯; ▯ is next after ▯ in sequence ▯.", By: "official", Score: 0}, "leaqsiegiq": Word{Word: "leaqsiegiq", Def: "▯ is right before ▯ in sequence ▯", By: "fagri", Score: -3}, "leatiq(me)": Word{Word: "leatiq(me)", Def: "▯ is a mosaic", By: "seaqtaq", Score: 0}, "lebaq": Word{Word: "lebaq", Def: "▯ pertains to the culture of Lebanon – Lebanese Republic.", By: "countries", Score: 0}, "lebaqgua": Word{Word: "lebaqgua", Def: "▯ is the country Lebanon – Lebanese Republic.", By: "countries", Score: 0}, "lebaqtoaq": Word{Word: "lebaqtoaq", Def: "▯ is (one of) the language(s) spoken in Lebanon – Lebanese Republic.", By: "countries", Score: 0}, "leca": Word{Word: "leca", Def: "fauxlu", By: "spreadsheet", Score: 0}, "lecadoa": Word{Word: "lecadoa", Def: "prove", By: "spreadsheet", Score: 0}, "lechi": Word{Word: "lechi", Def: "expect, kanpe", By: "spreadsheet", Score: 0}, "ledua": Word{Word: "ledua", Def: "▯ guesses/loosely assumes/kind of knows that ▯.\u00a0", By: "uakci", Score: 0}, "leho": Word{Word: "leho", Def: "aggressive", By: "spreadsheet", Score: -1}, "lehuaqshe": Word{Word: "lehuaqshe", Def: "fauxlu", By: "spreadsheet", Score: 0}, "lei": Word{Word: "lei", Def: "(fork of official) predicate: ‘uncommon’; ▯ is uncommon/unfrequent in property ▯.", By: "Ilmen", Score: 0}, "lei choaijaq ni da.": Word{Word: "lei choaijaq ni da.", Def: "(A0816) This is uncommonly expensive.", By: "examples", Score: 0}, "lei hiaq bo poq da.": Word{Word: "lei hiaq bo poq da.", Def: "(A0813) The person is rare in being poor.", By: "examples", Score: 0}, "lei jai ji da.": Word{Word: "lei jai ji da.", Def: "(A0810) I'm rare in being happy.", By: "examples", Score: 0}, "lei liu liqdeo da.": Word{Word: "lei liu liqdeo da.", Def: "(A0814) The girl is uncommonly light.", By: "examples", Score: 0}, "lei liu naqdeo da.": Word{Word: "lei liu naqdeo da.", Def: "(A0815) The boy is uncommonly light.", By: "examples", Score: 0}, "lei meoca nijao da.": Word{Word: "lei meoca nijao da.", Def: "(A0817) That's rare in being sad.", By: "examples", Score: 0}, "lei mia pai ho da.": Word{Word: "lei mia pai ho da.", Def: "(A0812) She is rare in being popular.", By: "examples", Score: 0}, "lei moinieq suq da.": Word{Word: "lei moinieq suq da.", Def: "(A0819) You're uncommonly stupid.", By: "examples", Score: 0}, "lei tijao jao da.": Word{Word: "lei tijao jao da.", Def: "(A0818) That far thing is rare in being far away.", By: "examples", Score: 0}, "lei tuoq ni piohea da.": Word{Word: "lei tuoq ni piohea da.", Def: "(A0811) This stone is rare in being heavy.", By: "examples", Score: 0}, "leigiq": Word{Word: "leigiq", Def: "▯ is a confusing joke entry in dictionary/corpus ▯.", By: "uakci", Score: 0}, "lejie": Word{Word: "lejie", Def: "▯ is expected to happen (according to ▯).", By: "uakci", Score: 0}, "lemiu": Word{Word: "lemiu", Def: "expect, kanpe", By: "spreadsheet", Score: 0}, "lemui": Word{Word: "lemui", Def: "interpretation (PAI)", By: "uakci", Score: 0}, "lemuo": Word{Word: "lemuo", Def: "▯ is sure to occur; ▯ is bound to take place/be the case.", By: "uakci", Score: 0}, "lemure": Word{Word: "lemure", Def: "▯ is a ring-tailed lemur.", By: "Ilmen", Score: 0}, "lemuresiu": Word{Word: "lemuresiu", Def: "▯ is a lemur.", By: "Ilmen", Score: 0}, "lene": Word{Word: "lene", Def: "▯ is the probability/likelihood of ▯/0.", By: "lynn", Score: 0}, "lenediu": Word{Word: "lenediu", Def: "▯ is probability theory.", By: "lynn", Score: 0}, "leo": Word{Word: "leo", Def: "▯ is a property; property ▯ is satisfied by ▯.", By: "uakci", Score: -1}, "leo cheo deoq tu poq ba.": Word{Word: "leo cheo deoq tu poq ba.", Def: "(A0576) All people should try to communicate.", By: "examples", Score: 0}, "leo ji soa ja do.": Word{Word: "leo ji soa ja do.", Def: "(PRO.1) I try to help.", By: "official", Score: 0}, "leo soa ji.": Word{Word: "leo soa ji.", Def: "(PRO.2) I try to help.", By: "official", Score: 0}, "leoq": Word{Word: "leoq", Def: "▯ is unlikely/improbable.", By: "uakci", Score: 0}, "leoq(tao)kuai": Word{Word: "leoq(tao)kuai", Def: "▯ is defensive", By: "seaqtaq", Score: 0}, "leoqchea": Word{Word: "leoqchea", Def: "▯ is a helmet.", By: "Ilmen", Score: 0}, "leoqchuo": Word{Word: "leoqchuo", Def: "predicate: ‘shield’; ▯ is a shield.", By: "official", Score: 0}, "leoqhiesiu": Word{Word: "leoqhiesiu", Def: "▯ is a house centipede; ▯ is a member of family Scutigeridae", By: "seaqtaq", Score: 0}, "leoqriaq": Word{Word: "leoqriaq", Def: "▯ is a shelter/refuge/retreat/harbor (protecting against satisfying property ▯).", By: "Ilmen", Score: 0}, "leoqtao": Word{Word: "leoqtao", Def: "▯ protects/defends/guards ▯ against ▯.", By: "Ilmen", Score: 0}, "leoroa": Word{Word: "leoroa", Def: "▯ tries to do ▯ without further thought, that action being an end in itself and not a step in a progressive effort to achieve another goal.", By: "Ilmen", Score: 1}, "lepo": Word{Word: "lepo", Def: "rabbit", By: "spreadsheet", Score: -1}, "leposiu": Word{Word: "leposiu", Def: "▯ is a rabbit/hare.", By: "Ilmen", Score: 0}, "leq": Word{Word: "leq", Def: "predicate: ‘tongue’; ▯ is a tongue.", By: "official", Score: 0}, "leqfuo": Word{Word: "leqfuo", Def: "▯ licks ▯.", By: "Hoemai", Score: 1}, "leqhuai": Word{Word: "leqhuai", Def: "▯ licks ▯ off ▯.", By: "uakci", Score: 0}, "leu": Word{Word: "leu", Def: "particle — import the following foreign word on the first tone (can treat as compound) — the parsing of foreign sounds stops the moment the high tone is abandoned — the place structured is guesstimated or calqued, if only the source language is structured enough to provide for this (Lojban sequential, or English S–DO–IndO–Obl, although this is only a contract between the speaker and the listener and not a formal conversion).", By: "uakci", Score: 0}, "li": Word{Word: "li", Def: "statement prefix: ‘the.property’; statement prefix: turn statement into property", By: "official", Score: 0}, "li chaocaq ja rai sa gusioq pa jaq fui da.": Word{Word: "li chaocaq ja rai sa gusioq pa jaq fui da.", Def: "(A0415) Driving a bicycle is very easy.", By: "examples", Score: 0}, "lia": Word{Word: "lia", Def: "predicate: ‘beside’; ▯ is beside ▯; ▯ is to the side of ▯; ▯ is next to ▯.", By: "official", Score: 0}, "liadao": Word{Word: "liadao", Def: "▯ is a tag; ▯ tags ▯; ▯ is complementary information to object ▯.", By: "uakci", Score: -1}, "liadaodoa": Word{Word: "liadaodoa", Def: "▯ adds supplementary information ▯ on/to ▯; ▯ adds note ▯ for ▯.", By: "uakci", Score: 0}, "liafieq": Word{Word: "liafieq", Def: "▯ invents ▯ in parallel to ▯ (or without knowledge of its existence).", By: "uakci", Score: -1}, "liai": Word{Word: "liai", Def: "predicate: ‘swim’; ▯ swims.", By: "official", Score: 0}, "liaihua": Word{Word: "liaihua", Def: "▯ is a fin (body part).", By: "Ilmen", Score: 0}, "liaihuapue": Word{Word: "liaihuapue", Def: "▯ is a pinniped.", By: "Ilmen", Score: 0}, "liairiaq": Word{Word: "liairiaq", Def: "▯ is a swimming pool", By: "seaqtaq", Score: 0}, "liaishoai": Word{Word: "liaishoai", Def: "▯ is a fin (body part).", By: "Ilmen", Score: 0}, "liajeo": Word{Word: "liajeo", Def: "▯ is parallel to ▯; ▯ and ▯ score differently on scale (property) ▯, but the same on all other scales in set ▯.", By: "uakci", Score: 0}, "liakoi": Word{Word: "liakoi", Def: "▯ crab-walks; ▯ moves to the side", By: "seaqtaq", Score: 0}, "liao": Word{Word: "liao", Def: "predicate: ‘fungus’; ▯ is a fungus/mushroom/mold.", By: "official", Score: 0}, "liaodiu": Word{Word: "liaodiu", Def: "▯ is mycology.", By: "Ilmen", Score: 0}, "liaq": Word{Word: "liaq", Def: "predicate: ‘tuple’; ▯ is a ▯-tuple.", By: "official", Score: 0}, "liaq gu posuq loaq she roe suq da.": Word{Word: "liaq gu posuq loaq she roe suq da.", Def: "(A0942) Your buttocks are a pair if you are healthy.", By: "examples", Score: 0}, "liaqdi": Word{Word: "liaqdi", Def: "Predicate ▯ might take ▯ places; ▯ has as one of its arities ▯.", By: "uakci", Score: 0}, "liaqsa": Word{Word: "liaqsa", Def: "At least one n-tuple satisfies n-ary relation ▯.", By: "uakci", Score: 0}, "liaqsia": Word{Word: "liaqsia", Def: "No n-tuple satisfies n-ary relation ▯.", By: "uakci", Score: 0}, "liaqtu": Word{Word: "liaqtu", Def: "All n-tuples satisfy n-ary relation ▯.", By: "uakci", Score: 0}, "libai": Word{Word: "libai", Def: "▯ makes something satisfying property ▯", By: "fagri", Score: 1}, "libi": Word{Word: "libi", Def: "▯ is true with a quantification domain restricted to what satisfies the property ▯.", By: "Ilmen", Score: 0}, "libo": Word{Word: "libo", Def: "▯ has property ▯.", By: "Ilmen", Score: 0}, "lica": Word{Word: "lica", Def: "having property ▯ causes having property ▯.", By: "Ilmen", Score: 0}, "licagi": Word{Word: "licagi", Def: "satisfying property ▯ is a way/method for satisfying property ▯.", By: "Ilmen", Score: 0}, "lico": Word{Word: "lico", Def: "[N1] lỉcō dóshī dógū tu ráı da\n[N1X]\n  sa dótūq lủ tủq hóa lî ja dó bı to ru jẻo dó dógū to mẻa dó dósāq bı\n    pẻı dóshī dótūq da", By: "uakci", Score: 0}, "lie": Word{Word: "lie", Def: "predicate: ‘experience’; ▯ experiences satisfying property ▯.", By: "official", Score: 0}, "lie ji rao ni loqcao sa pui gi da.": Word{Word: "lie ji rao ni loqcao sa pui gi da.", Def: "(A0266) I'll do a lot of fun things thí summer.", By: "examples", Score: 0}, "liecho": Word{Word: "liecho", Def: "▯ likes to experience satisfying property ▯", By: "seaqtaq", Score: 0}, "liecho ji li kaqsi ja rai baq fuaq da.": Word{Word: "liecho ji li kaqsi ja rai baq fuaq da.", Def: "(A0701) I like looking at pictures", By: "examples", Score: 0}, "liecia": Word{Word: "liecia", Def: "▯ has never experienced satisfying property ▯.", By: "Ilmen", Score: 0}, "liedua": Word{Word: "liedua", Def: "slabu", By: "spreadsheet", Score: 0}, "liejoe": Word{Word: "liejoe", Def: "experienced", By: "spreadsheet", Score: 0}, "lielui": Word{Word: "lielui", Def: "pu'i", By: "spreadsheet", Score: 0}, "liemia": Word{Word: "liemia", Def: "experienced", By: "spreadsheet", Score: 0}, "liemoaq": Word{Word: "liemoaq", Def: "▯ remembers experience ▯.", By: "Ilmen", Score: -2}, "lieq": Word{Word: "lieq", Def: "wedge", By: "spreadsheet", Score: -1}, "lieqgoa": Word{Word: "lieqgoa", Def: "▯ is a corner.", By: "Ilmen", Score: 0}, "lietaqse": Word{Word: "lietaqse", Def: "self", By: "spreadsheet", Score: 0}, "lietufa": Word{Word: "lietufa", Def: "▯ pertains to the culture of Lithuania – Republic of Lithuania.", By: "countries", Score: 0}, "lietufagua": Word{Word: "lietufagua", Def: "▯ is the country Lithuania – Republic of Lithuania.", By: "countries", Score: 0}, "lietufatoaq": Word{Word: "lietufatoaq", Def: "▯ is (one of) the language(s) spoken in Lithuania – Republic of Lithuania.", By: "countries", Score: 0}, "lifieq": Word{Word: "lifieq", Def: "▯ invents something satisfying property ▯.", By: "lynn", Score: 0}, "ligu": Word{Word: "ligu", Def: "solid", By: "spreadsheet", Score: -1}, "ligusiqgiqhuamemuoqsehuamegiubuiseca": Word{Word: "ligusiqgiqhuamemuoqsehuamegiubuiseca", Def: "(fork of official) predicate: ‘defecate’; ▯ defecates/shits.", By: "seaqtaq", Score: -1}, "liheq": Word{Word: "liheq", Def: "Having property ▯ entails having property ▯.", By: "Ilmen", Score: 0}, "lihoi": Word{Word: "lihoi", Def: "▯ is the referent of the most recently mentioned lî-clause.", By: "Ilmen", Score: 0}, "lihoq": Word{Word: "lihoq", Def: "▯ is the property or relation referred to by the previous lı-clause.", By: "Ilmen", Score: 0}, "lijie": Word{Word: "lijie", Def: "Ithkuil's Interpretative Case: X (abstract) is the interpretation of Y as seen by Z", By: "spreadsheet", Score: 0}, "lile": Word{Word: "lile", Def: "violent", By: "spreadsheet", Score: -1}, "lilu": Word{Word: "lilu", Def: "oscillate", By: "spreadsheet", Score: -1}, "limeq": Word{Word: "limeq", Def: "▯ is the limit, for a variable T approaching value ▯ (from either side), of function ▯/2 (f(x) = y iff P(y, x)).", By: "uakci", Score: 0}, "limi": Word{Word: "limi", Def: "▯ is the mathematical limit of the function ▯ as its input approaches the number ▯.", By: "Ilmen", Score: 0}, "line": Word{Word: "line", Def: "▯ is the amount of things that satisfy property ▯", By: "seaqtaq", Score: 0}, "linu": Word{Word: "linu", Def: "▯ is a Linux; ▯ is a Unix system.", By: "uakci", Score: 0}, "lio": Word{Word: "lio", Def: "predicate: ‘left’; ▯ is to the left of ▯.", By: "official", Score: 0}, "lioduo": Word{Word: "lioduo", Def: "predicate: ‘move.left’; ▯ moves leftwards.", By: "official", Score: 0}, "liofeo": Word{Word: "liofeo", Def: "▯ is the west direction", By: "seaqtaq", Score: 0}, "liohoi": Word{Word: "liohoi", Def: "▯ is the former; ▯ is/are the referents of the left part of the conjunction ▯.", By: "uakci", Score: 0}, "liomuqpoq": Word{Word: "liomuqpoq", Def: "▯ is left-handed.", By: "Ilmen", Score: 0}, "liopaq": Word{Word: "liopaq", Def: "predicate: ‘left.part’; ▯ is the left part of ▯.", By: "official", Score: 0}, "lipo": Word{Word: "lipo", Def: "[PO] The arguments to this predicate satisfy the given relation.", By: "uakci", Score: 0}, "lipuine": Word{Word: "lipuine", Def: "ilka'u, kaidza / ▯ is the number of things having property ▯ (among ▯)", By: "spreadsheet", Score: 0}, "liq": Word{Word: "liq", Def: "jủı rủo dóshī sa báq lủ pảq go hóa sa kélēo da", By: "uakci", Score: 0}, "liq baka": Word{Word: "liq baka", Def: "cow", By: "spreadsheet", Score: 0}, "liq boke": Word{Word: "liq boke", Def: "cow", By: "spreadsheet", Score: 0}, "liqdeo": Word{Word: "liqdeo", Def: "predicate: ‘girl’; ▯ is a girl.", By: "official", Score: 0}, "liqfu": Word{Word: "liqfu", Def: "predicate: ‘daughter’; ▯ is a daughter (female biological offspring) of ▯.", By: "official", Score: 0}, "liqgame": Word{Word: "liqgame", Def: "ovum", By: "spreadsheet", Score: 0}, "liqgoso": Word{Word: "liqgoso", Def: "▯ is a hen of genus Gallus; ▯ is a female chicken.", By: "Hoemai", Score: 0}, "liqliq": Word{Word: "liqliq", Def: "▯ is a famous male pianist.", By: "uakci", Score: 0}, "liqpao": Word{Word: "liqpao", Def: "predicate: ‘mother’; ▯ is a mother of ▯; ▯ acts as a mother towards ▯.", By: "official", Score: 0}, "liqpia": Word{Word: "liqpia", Def: "predicate: ‘sister’; ▯ is a sister of ▯.", By: "official", Score: 0}, "liqreq": Word{Word: "liqreq", Def: "predicate: ‘woman’; ▯ is a female human; ▯ is a woman.", By: "official", Score: 0}, "liqroaq": Word{Word: "liqroaq", Def: "predicate: ‘mother’; ▯ is a biological mother of ▯.", By: "official", Score: 0}, "liqseo": Word{Word: "liqseo", Def: "predicate: ‘wife’; ▯ is a wife of ▯.", By: "official", Score: 0}, "liqsi": Word{Word: "liqsi", Def: "chain ()", By: "spreadsheet", Score: -1}, "liqsiunaq": Word{Word: "liqsiunaq", Def: "▯ is an effeminate man.", By: "uakci", Score: 0}, "liqteqtai": Word{Word: "liqteqtai", Def: "▯ pertains to the culture of Liechtenstein – Principality of Liechtenstein.", By: "countries", Score: 0}, "liqteqtaigua": Word{Word: "liqteqtaigua", Def: "▯ is the country Liechtenstein – Principality of Liechtenstein.", By: "countries", Score: 0}, "liqteqtaitoaq": Word{Word: "liqteqtaitoaq", Def: "▯ is (one of) the language(s) spoken in Liechtenstein – Principality of Liechtenstein.", By: "countries", Score: 0}, "lisiu": Word{Word: "lisiu", Def: "▯ is similar to what has the property ▯.", By: "Ilmen", Score: -1}, "liu": Word{Word: "liu", Def: "predicate: ‘light’; ▯ is light in weight.", By: "official", Score: 0}, "liu posuq cea da.": Word{Word: "liu posuq cea da.", Def: "(A0744) Your bag is light.", By: "examples", Score: 0}, "liuloha": Word{Word: "liuloha", Def: "▯ is aluminium.", By: "Ilmen", Score: 0}, "liumiaoloha": Word{Word: "liumiaoloha", Def: "▯ is aluminium.", By: "Ilmen", Score: 0}, "liusoqloha": Word{Word: "liusoqloha", Def: "▯ is lithium.", By: "Ilmen", Score: 0}, "lo": Word{Word: "lo", Def: "[LU] Generates a predicate meaning \"▯ is an instantiation of [the contained predication]\"", By: "fagri", Score: 0}, "loa": Word{Word: "loa", Def: "rẻo sa báq jẻı sa gío kỉarēo roı sa gío mỉorêo dóshī da", By: "uakci", Score: 0}, "loachaq": Word{Word: "loachaq", Def: "predicate: ‘sunday’; ▯ is a Sunday.", By: "official", Score: 0}, "loacuao": Word{Word: "loacuao", Def: "▯ is an ultraviolet color.", By: "Ilmen", Score: 0}, "loai": Word{Word: "loai", Def: "dủo dóshī nảo da", By: "uakci", Score: 0}, "loaidai": Word{Word: "loaidai", Def: "▯ is a fluid.", By: "Ilmen", Score: 0}, "loaidaituao": Word{Word: "loaidaituao", Def: "▯ is semiliquid.", By: "Ilmen", Score: 0}, "loaifua": Word{Word: "loaifua", Def: "▯ is a fountain (artificial structure).", By: "Ilmen", Score: 0}, "loaihua": Word{Word: "loaihua", Def: "▯ is a heart.", By: "Ilmen", Score: 0}, "loaikea": Word{Word: "loaikea", Def: "▯ is a pump.", By: "Ilmen", Score: 0}, "loaimeoq": Word{Word: "loaimeoq", Def: "= #meoq #lỏaı", By: "uakci", Score: 0}, "loairiai": Word{Word: "loairiai", Def: "▯ is a fountain (artificial structure).", By: "Ilmen", Score: 0}, "loaisai": Word{Word: "loaisai", Def: "(fork of #cITn2BsKx) ▯ is a fluid.", By: "seaqtaq", Score: 0}, "loaishua": Word{Word: "loaishua", Def: "▯ pours onto ▯ from ▯.", By: "Ilmen", Score: 0}, "loaishueq": Word{Word: "loaishueq", Def: "▯ is a base", By: "seaqtaq", Score: 0}, "loaitua": Word{Word: "loaitua", Def: "▯ is a lung", By: "seaqtaq", Score: 0}, "loaniu": Word{Word: "loaniu", Def: "▯ is a violet; ▯ is a plant of genus Viola.", By: "uakci", Score: 0}, "loao": Word{Word: "loao", Def: "[PO] property ▯ is satisfied by [complement]", By: "fagri", Score: 0}, "loaq": Word{Word: "loaq", Def: "predicate: ‘buttocks’; ▯ is a buttocks/ass/behind.", By: "official", Score: 0}, "loaqjeoq": Word{Word: "loaqjeoq", Def: "▯ is an asscrack/ buttcrack", By: "seaqtaq", Score: 0}, "loaqtia": Word{Word: "loaqtia", Def: "▯ is a city with poor transport options; ▯ is an inconvenient place to be/live in.", By: "uakci", Score: 0}, "loareo": Word{Word: "loareo", Def: "predicate: ‘purple’; ▯ is of purple colour.", By: "official", Score: 0}, "loashoai": Word{Word: "loashoai", Def: "▯ is a member of genus Phoenicopterus (the flamingos).", By: "Hoemai", Score: 0}, "loe": Word{Word: "loe", Def: "(fork of #dxqdTmqwa) ▯ is a property; property ▯ is satisfied by ▯.", By: "uakci", Score: -2}, "loefua": Word{Word: "loefua", Def: "▯ is a wood-burner / wood stove.", By: "Ilmen", Score: 0}, "loehaq": Word{Word: "loehaq", Def: "▯ is fuel; ▯ is a combustible.", By: "Ilmen", Score: 0}, "loehieqchuo": Word{Word: "loehieqchuo", Def: "▯ is a flame thrower", By: "seaqtaq", Score: 0}, "loemei": Word{Word: "loemei", Def: "▯ is a volcano.", By: "Hoemai", Score: 1}, "loenao": Word{Word: "loenao", Def: "▯ is lava", By: "seaqtaq", Score: 0}, "loepio": Word{Word: "loepio", Def: "▯ is coal.", By: "Ilmen", Score: 0}, "loepoai": Word{Word: "loepoai", Def: "▯ is ember.", By: "Ilmen", Score: 0}, "loereobo": Word{Word: "loereobo", Def: "▯ is a bullfinch (genus Pyrrhula).", By: "Hoemai", Score: 0}, "loeriaq": Word{Word: "loeriaq", Def: "▯ is a fireplace.", By: "Ilmen", Score: 0}, "loeshuao": Word{Word: "loeshuao", Def: "▯ is a phoenix.", By: "Hoemai", Score: 0}, "logaq": Word{Word: "logaq", Def: "▯ is the main branch of the logarithm function; ▯ = ln ▯.", By: "uakci", Score: 0}, "logiq": Word{Word: "logiq", Def: "▯ is the exponential function; ▯ = e^ ▯.", By: "uakci", Score: 0}, "loha": Word{Word: "loha", Def: "▯ is metal.", By: "Ilmen", Score: 0}, "lohaluai": Word{Word: "lohaluai", Def: "▯ is ironic; ▯ is funny in how it turns out or was said with the intention of being contrary to one’s expectation.", By: "uakci", Score: 0}, "loi": Word{Word: "loi", Def: "jảq bủ chỏ dóshī dógū, na ru cả môı dóshī dógū na mêo ra fẻı dóshī da", By: "uakci", Score: 0}, "loi ji baq kiachaq da.": Word{Word: "loi ji baq kiachaq da.", Def: "(A0271) I hate mondays.", By: "examples", Score: 0}, "loi ji baq ni, la cuakuq da.": Word{Word: "loi ji baq ni, la cuakuq da.", Def: "(A0459) I hate these things, *in response*.", By: "examples", Score: 0}, "loi ji daqmiq suq.": Word{Word: "loi ji daqmiq suq.", Def: "(ADV.4) I hate you eternally.", By: "official", Score: 0}, "loifea": Word{Word: "loifea", Def: "▯ puts up with ▯; ▯ tolerates ▯’s presence despite not endorsing it.", By: "uakci", Score: 0}, "loikuaq": Word{Word: "loikuaq", Def: "curse (v)", By: "spreadsheet", Score: 0}, "loimujuo": Word{Word: "loimujuo", Def: "▯ is spam.", By: "uakci", Score: 0}, "loji": Word{Word: "loji", Def: "logic", By: "spreadsheet", Score: 0}, "lojibaq": Word{Word: "lojibaq", Def: "predicate: ‘Lojban’; ▯ is the Lojban language.", By: "official", Score: 0}, "lojibaqhui": Word{Word: "lojibaqhui", Def: "▯ is bad because it's too Lojban-esque.", By: "lynn", Score: 0}, "lojijeo": Word{Word: "lojijeo", Def: "▯ is true under the logical system ▯ (axioms).", By: "Ilmen", Score: 0}, "loq": Word{Word: "loq", Def: "jẻo dóshī sa lú rảq hóa sa báq lỏe da", By: "uakci", Score: 0}, "loq jeaq kua da.": Word{Word: "loq jeaq kua da.", Def: "(A0203) The room is increasingly warm.", By: "examples", Score: 0}, "loq(nemieq)chuo": Word{Word: "loq(nemieq)chuo", Def: "▯ is a thermometer", By: "seaqtaq", Score: 0}, "loqcao": Word{Word: "loqcao", Def: "predicate: ‘summer’; ▯ is summer.", By: "official", Score: 0}, "loqcioi": Word{Word: "loqcioi", Def: "▯ bakes ▯", By: "seaqtaq", Score: 0}, "loqhaq": Word{Word: "loqhaq", Def: "▯ is brewed food.", By: "uakci", Score: 0}, "loqhaqbai": Word{Word: "loqhaqbai", Def: "▯ brews food ▯.", By: "uakci", Score: 0}, "loqkea": Word{Word: "loqkea", Def: "predicate: ‘heater’; ▯ is a heater.", By: "official", Score: 0}, "loqloaidai": Word{Word: "loqloaidai", Def: "▯ is molten.", By: "Ilmen", Score: 0}, "loqmei": Word{Word: "loqmei", Def: "volcano", By: "spreadsheet", Score: -1}, "loqne": Word{Word: "loqne", Def: "▯ is the temperature of ▯.", By: "Ilmen", Score: 0}, "loqsa": Word{Word: "loqsa", Def: "▯ is a jaguar (Panthera onca).", By: "Hoemai", Score: 0}, "lu": Word{Word: "lu", Def: "statement prefix: ‘that’; statement prefix: turn statement into predicate", By: "official", Score: 0}, "lu bua hoa juqguo pa, huaqpui giga da.": Word{Word: "lu bua hoa juqguo pa, huaqpui giga da.", Def: "(A0410) The inhabitants of China are more than a billion.", By: "examples", Score: 0}, "lu leaqbua hoa ji pa pao sa saq fu da.": Word{Word: "lu leaqbua hoa ji pa pao sa saq fu da.", Def: "(A0272) My neighbors are parents of 3.", By: "examples", Score: 0}, "lu mai ji hoa cei suq da.": Word{Word: "lu mai ji hoa cei suq da.", Def: "(A0545) You are such that I like you.", By: "examples", Score: 0}, "lua": Word{Word: "lua", Def: "predicate: ‘story’; ▯ is a story.", By: "official", Score: 0}, "luafaq": Word{Word: "luafaq", Def: "▯ is the plot of story ▯", By: "fagri", Score: 0}, "luai": Word{Word: "luai", Def: "predicate: ‘funny’; ▯ is funny/comical.", By: "official", Score: 0}, "luai ni chea da.": Word{Word: "luai ni chea da.", Def: "(A0047) This hat is funny.", By: "examples", Score: 0}, "luaiche": Word{Word: "luaiche", Def: "▯ is a humorist/comedian/clown/jester.", By: "Ilmen", Score: 0}, "luaikuq": Word{Word: "luaikuq", Def: "joke ⓥ", By: "spreadsheet", Score: 0}, "luailua": Word{Word: "luailua", Def: "predicate: ‘joke’; ▯ is a joke.", By: "official", Score: 0}, "luaitao": Word{Word: "luaitao", Def: "▯ pranks ▯ by doing ▯", By: "seaqtaq", Score: 0}, "luaitoa": Word{Word: "luaitoa", Def: "(fork of #IZRJjEKrf) ▯ is a joke word.", By: "uakci", Score: 1}, "luaitoaq": Word{Word: "luaitoaq", Def: "▯ is a joke word.", By: "uakci", Score: -1}, "luakoaq": Word{Word: "luakoaq", Def: "▯ is a koan", By: "fagri", Score: 0}, "luao": Word{Word: "luao", Def: "predicate: ‘lip’; ▯ is a lip (general sense).", By: "official", Score: 0}, "luaofuo": Word{Word: "luaofuo", Def: "kiss", By: "spreadsheet", Score: 0}, "luaokiaq": Word{Word: "luaokiaq", Def: "▯ is a mustache.", By: "Ilmen", Score: 0}, "luaokiaqketea": Word{Word: "luaokiaqketea", Def: "▯ is a baleen whale.", By: "Ilmen", Score: 0}, "luaoroinioq": Word{Word: "luaoroinioq", Def: "▯ is labiodental (phonetics)", By: "seaqtaq", Score: 0}, "luapoq": Word{Word: "luapoq", Def: "▯ is a character in movie/book/TV show/story ▯", By: "fagri", Score: -1}, "luaq": Word{Word: "luaq", Def: "chỏq dóshī dógū lî sẻa ra pủaq ja dó sa lú rảq hóa dógū da", By: "uakci", Score: 0}, "luaq chufaq deo ti tieq da.": Word{Word: "luaq chufaq deo ti tieq da.", Def: "(A0540) The children are playing on the path right now.", By: "examples", Score: 0}, "luaq sa deo": Word{Word: "luaq sa deo", Def: "(B0002) Children play", By: "examples", Score: 0}, "luaqbuaqne": Word{Word: "luaqbuaqne", Def: "▯ is the game negative score of player ▯ (the higher the number, the worse for the player).", By: "Ilmen", Score: 1}, "luaqcaqchuo": Word{Word: "luaqcaqchuo", Def: "▯ is a game controller / gamepad / joystick.", By: "lynn", Score: 0}, "luaqche": Word{Word: "luaqche", Def: "▯ is a professional player.", By: "lynn", Score: 0}, "luaqchuo": Word{Word: "luaqchuo", Def: "▯ is a toy.", By: "lynn", Score: 0}, "luaqduogiaqme": Word{Word: "luaqduogiaqme", Def: "▯ is a suite.", By: "uakci", Score: 0}, "luaqgaq": Word{Word: "luaqgaq", Def: "▯ plays with ▯ ; ▯ and ▯ play together", By: "fagri", Score: 0}, "luaqgo": Word{Word: "luaqgo", Def: "the game of Go", By: "uakci", Score: 0}, "luaqguo": Word{Word: "luaqguo", Def: "▯ is a turn in game ▯.", By: "Ilmen", Score: 0}, "luaqjaqkeq": Word{Word: "luaqjaqkeq", Def: "▯ is the game of rock-paper-sciccors.", By: "lynn", Score: 0}, "luaqjuao": Word{Word: "luaqjuao", Def: "▯ is a rule of a game.", By: "lynn", Score: 0}, "luaqkea": Word{Word: "luaqkea", Def: "▯ is a video game console.", By: "lynn", Score: 0}, "luaqmu": Word{Word: "luaqmu", Def: "▯ is a game (e.g. Chess)", By: "fagri", Score: 0}, "luaqne": Word{Word: "luaqne", Def: "▯ is a game variable; ▯ is game points.", By: "uakci", Score: 0}, "luaqse": Word{Word: "luaqse", Def: "▯ is a game played / a “match” / a completed event of playing.", By: "lynn", Score: 0}, "luaqtai": Word{Word: "luaqtai", Def: "▯ wins in game ▯", By: "fagri", Score: 0}, "luaqtaine": Word{Word: "luaqtaine", Def: "▯ is the game score of player ▯.", By: "Ilmen", Score: 0}, "luaqtao": Word{Word: "luaqtao", Def: "▯ play(s) game ▯.", By: "uakci", Score: 0}, "luaqtoai": Word{Word: "luaqtoai", Def: "▯ is a game turn.", By: "Ilmen", Score: 0}, "luaruaq": Word{Word: "luaruaq", Def: "▯ tells story ▯ to ▯", By: "fagri", Score: 0}, "luaruo": Word{Word: "luaruo", Def: "▯ acts out / roleplays having property ▯.", By: "lynn", Score: 0}, "luasi": Word{Word: "luasi", Def: "▯ listens to / watches / enjoys / reads story ▯.", By: "uakci", Score: 1}, "luca": Word{Word: "luca", Def: "logically entail, nibli", By: "spreadsheet", Score: 0}, "lucadiu": Word{Word: "lucadiu", Def: "logic", By: "spreadsheet", Score: 0}, "lue": Word{Word: "lue", Def: "predicate: ‘yellow’; ▯ is the colour yellow.", By: "official", Score: 0}, "luechaq": Word{Word: "luechaq", Def: "predicate: ‘wednesday’; ▯ is a Wednesday.", By: "official", Score: 0}, "lueloha": Word{Word: "lueloha", Def: "(fork of #n5yoso9Q4) ▯ is gold", By: "seaqtaq", Score: 0}, "lueq": Word{Word: "lueq", Def: "predicate: ‘serve’; ▯ serves ▯ with property ▯.", By: "official", Score: 0}, "lueqche": Word{Word: "lueqche", Def: "predicate: ‘servant’; ▯ is a servant of ▯ with property ▯.", By: "official", Score: 0}, "lueqduai": Word{Word: "lueqduai", Def: "▯ is a slave", By: "seaqtaq", Score: 0}, "lueqjuq": Word{Word: "lueqjuq", Def: "▯ is a client; ▯ receives ▯’s service ▯.", By: "uakci", Score: 0}, "lueqkea": Word{Word: "lueqkea", Def: "▯ is a server.", By: "uakci", Score: 0}, "lueqtue": Word{Word: "lueqtue", Def: "service", By: "spreadsheet", Score: 0}, "luereo": Word{Word: "luereo", Def: "predicate: ‘yellow’; ▯ is of yellow colour.", By: "official", Score: 0}, "lufe": Word{Word: "lufe", Def: "▯ is a subordinate proposition created using the fifth tone.", By: "fagri", Score: 0}, "lugai": Word{Word: "lugai", Def: "▯ perceives that ▯ is the case.", By: "Ilmen", Score: 0}, "luheq": Word{Word: "luheq", Def: "The proposition ▯ entails the proposition ▯.", By: "Ilmen", Score: 0}, "luhoi": Word{Word: "luhoi", Def: "▯ is among one group of ▯-ers.", By: "uakci", Score: 0}, "luhoq": Word{Word: "luhoq", Def: "▯ is the proposition referred to by the previous lu-clause.", By: "Ilmen", Score: 0}, "lui": Word{Word: "lui", Def: "predicate: ‘has.happened’; ▯ has taken place.", By: "official", Score: 0}, "lui beo miu ji da.": Word{Word: "lui beo miu ji da.", Def: "(A0568) I've changed my mind.", By: "examples", Score: 0}, "lui ceo chietao ji puq": Word{Word: "lui ceo chietao ji puq", Def: "(B0049) We have been studying", By: "examples", Score: 0}, "lui noaq ji cu sa ci kuepaq da.": Word{Word: "lui noaq ji cu sa ci kuepaq da.", Def: "(A0369) I have read six chapters.", By: "examples", Score: 0}, "lui poaq cheoq da.": Word{Word: "lui poaq cheoq da.", Def: "(A0049) The bottle has broken.", By: "examples", Score: 0}, "lui shua sa rai chaotieq da.": Word{Word: "lui shua sa rai chaotieq da.", Def: "(A0735) Something has fallen on the road.", By: "examples", Score: 0}, "luigiq": Word{Word: "luigiq", Def: "pu'o", By: "spreadsheet", Score: 0}, "luigiqjui": Word{Word: "luigiqjui", Def: "pu'ozi", By: "spreadsheet", Score: 0}, "luijao": Word{Word: "luijao", Def: "It’s (been) a long time since ▯ last happened.", By: "uakci", Score: 0}, "luine": Word{Word: "luine", Def: "predicate: ‘age’; ▯ is the age of ▯; ▯ is the time since ▯ has taken place.", By: "official", Score: 0}, "luisho": Word{Word: "luisho", Def: "▯ passes / goes by (timewise).", By: "Ilmen", Score: 0}, "luko": Word{Word: "luko", Def: "▯ is a dog/wolf; ▯ is a canis lupus.", By: "Ilmen", Score: 0}, "luni": Word{Word: "luni", Def: "orbit ⓥ", By: "spreadsheet", Score: -1}, "luo": Word{Word: "luo", Def: "predicate: ‘family’; ▯ is a family.", By: "official", Score: 0}, "luochua": Word{Word: "luochua", Def: "▯ is a family name / surname of ▯.", By: "lynn", Score: 0}, "luoq": Word{Word: "luoq", Def: "predicate: ‘balanced’; ▯ is in balance with ▯.", By: "official", Score: 0}, "luoqgai": Word{Word: "luoqgai", Def: "▯ feels ▯ via equilibrioception (sense of balance, vestibular sense).", By: "Ilmen", Score: 0}, "luoqkea": Word{Word: "luoqkea", Def: "▯ is a balance scale", By: "seaqtaq", Score: 0}, "luoraq": Word{Word: "luoraq", Def: "▯ is related to ▯", By: "seaqtaq", Score: 0}, "lupaq": Word{Word: "lupaq", Def: "the proposition ▯ is entailed by the proposition ▯.", By: "Ilmen", Score: 0}, "lupaqjioqjuq": Word{Word: "lupaqjioqjuq", Def: "▯ deduces proposition ▯ from proposition ▯.", By: "Ilmen", Score: 0}, "luq": Word{Word: "luq", Def: "jẻo dóshī sıa cáı da", By: "uakci", Score: 0}, "luqdiu": Word{Word: "luqdiu", Def: "▯ is mindfulness.", By: "uakci", Score: 1}, "luqke": Word{Word: "luqke", Def: "Ancient Greek λύγξ (lúnx), PL λύγκες (lúnkes).", By: "Ilmen", Score: -1}, "luqmoe": Word{Word: "luqmoe", Def: "predicate: ‘calm’; ▯ is calm (emotionally).", By: "official", Score: 0}, "luqtua": Word{Word: "luqtua", Def: "(fork of #TxYEc1h1e) ▯ mutes ▯", By: "seaqtaq", Score: 0}, "lura": Word{Word: "lura", Def: "xlura", By: "spreadsheet", Score: -1}, "lurai": Word{Word: "lurai", Def: "▯ is a proposition.", By: "Ilmen", Score: 0}, "luriai": Word{Word: "luriai", Def: "▯ justifies/warrants ▯; ▯ is a good, acceptable reason for ▯.", By: "Ilmen", Score: 0}, "lusha": Word{Word: "lusha", Def: "▯ slips/slides/glides on ▯.", By: "Ilmen", Score: 0}, "lusu": Word{Word: "lusu", Def: "predicate anaphora: repeats the last clausal verb.", By: "Ilmen", Score: 0}, "lutea": Word{Word: "lutea", Def: "▯ is afraid of ▯ being the case.", By: "Ilmen", Score: 0}, "ma": Word{Word: "ma", Def: "statement prefix: ‘whether’; statement prefix: whether", By: "official", Score: 0}, "ma biaq daqjaq nuo suq moq.": Word{Word: "ma biaq daqjaq nuo suq moq.", Def: "(A0590) Have you slept long enough?", By: "examples", Score: 0}, "ma biaq loq nao moq.": Word{Word: "ma biaq loq nao moq.", Def: "(A0293) Is the water hot enough?", By: "examples", Score: 0}, "ma bo suq sa koqpiuta moq.": Word{Word: "ma bo suq sa koqpiuta moq.", Def: "(A0250) Do you have a computer?", By: "examples", Score: 0}, "ma bu naqfu sa rai suq moq.": Word{Word: "ma bu naqfu sa rai suq moq.", Def: "(A0738) Do you not have any sons?", By: "examples", Score: 0}, "ma buai poho kiaq moq.": Word{Word: "ma buai poho kiaq moq.", Def: "(A0028) Is his hair long?", By: "examples", Score: 0}, "ma buajio ni moq.": Word{Word: "ma buajio ni moq.", Def: "(A0009) Is this a house?", By: "examples", Score: 0}, "ma chi suq lu jiao moq.": Word{Word: "ma chi suq lu jiao moq.", Def: "(A0176) Do you believe in god?", By: "examples", Score: 0}, "ma chi suq lu jiq sa jiao moq.": Word{Word: "ma chi suq lu jiq sa jiao moq.", Def: "(A0177) Do you believe any gods exist?", By: "examples", Score: 0}, "ma cho moi suq deoqsoi moq.": Word{Word: "ma cho moi suq deoqsoi moq.", Def: "(A0355) Do you like to think about debating?", By: "examples", Score: 0}, "ma cho suq jojue moq.": Word{Word: "ma cho suq jojue moq.", Def: "(A0146) Do you like April?", By: "examples", Score: 0}, "ma chuq diaq suq moq.": Word{Word: "ma chuq diaq suq moq.", Def: "(A0065) Do you eat regularly?", By: "examples", Score: 0}, "ma chuqkuai suq moq": Word{Word: "ma chuqkuai suq moq", Def: "(INT.4) Are you hungry?", By: "official", Score: 0}, "ma cua liqho cu sho fei moq": Word{Word: "ma cua liqho cu sho fei moq", Def: "(A0464) Did she respond by getting angry?", By: "examples", Score: 0}, "ma dai hoq moq.": Word{Word: "ma dai hoq moq.", Def: "(A0055) Is it possible?", By: "examples", Score: 0}, "ma daqfai ruqshua moq.": Word{Word: "ma daqfai ruqshua moq.", Def: "(A0205) Does it frequently rain?", By: "examples", Score: 0}, "ma daqshei suq bie ni moq.": Word{Word: "ma daqshei suq bie ni moq.", Def: "(A0713) Do you have time after this?", By: "examples", Score: 0}, "ma da…": Word{Word: "ma da…", Def: "‘Oh really?,’ ‘Well I never,’ ‘Huh…’.", By: "uakci", Score: 0}, "ma de ni moq.": Word{Word: "ma de ni moq.", Def: "(A0068) Is this beautiful?", By: "examples", Score: 0}, "ma deq hao suq kio liai ki moq": Word{Word: "ma deq hao suq kio liai ki moq", Def: "(A0453) Can you do it(swim)?", By: "examples", Score: 0}, "ma deq kaqgai suq po ji ga buajio moq": Word{Word: "ma deq kaqgai suq po ji ga buajio moq", Def: "(A0442) Can you see my house?", By: "examples", Score: 0}, "ma deq liai suq moq.": Word{Word: "ma deq liai suq moq.", Def: "(A0070) Can you swim?", By: "examples", Score: 0}, "ma deq noaq suq ni puq lai moq.": Word{Word: "ma deq noaq suq ni puq lai moq.", Def: "(A0255) Can you read all of these letters?", By: "examples", Score: 0}, "ma deq suq li liai moq": Word{Word: "ma deq suq li liai moq", Def: "(STP.3) Can you swim?", By: "official", Score: 0}, "ma di chuq ji ni haq moq": Word{Word: "ma di chuq ji ni haq moq", Def: "(PER.1) May I eat this food?", By: "official", Score: 0}, "ma dua suq naokua ti hi rai moq": Word{Word: "ma dua suq naokua ti hi rai moq", Def: "(CCL.2) Do you know where there is a bathroom?", By: "official", Score: 0}, "ma dua suq ti naokua hi rai moq": Word{Word: "ma dua suq ti naokua hi rai moq", Def: "(INT.9) Do you know where the bathroom is?", By: "official", Score: 0}, "ma due poji kuqtoai moq": Word{Word: "ma due poji kuqtoai moq", Def: "(A0560) Are my sentences correct?", By: "examples", Score: 0}, "ma dui loq haq moq.": Word{Word: "ma dui loq haq moq.", Def: "(A0114) Is the food too hot?", By: "examples", Score: 0}, "ma fieq go ni ku suq moq.": Word{Word: "ma fieq go ni ku suq moq.", Def: "(A0476) Is it you who created this?", By: "examples", Score: 0}, "ma fui go suq li noaq cu baq juqguo lai moq.": Word{Word: "ma fui go suq li noaq cu baq juqguo lai moq.", Def: "(A0419) Is it easy to you to read Chinese characters?", By: "examples", Score: 0}, "ma gai suq mia pai ho moq.": Word{Word: "ma gai suq mia pai ho moq.", Def: "(A0837) Do you see that they are popular?", By: "examples", Score: 0}, "ma gi maq moq.": Word{Word: "ma gi maq moq.", Def: "(A0088) Is it good?", By: "examples", Score: 0}, "ma gilie posuq puq pao moq.": Word{Word: "ma gilie posuq puq pao moq.", Def: "(A0526) Are your parents doing fine?", By: "examples", Score: 0}, "ma gua kanada moq.": Word{Word: "ma gua kanada moq.", Def: "(A0079) Is Canada a country?", By: "examples", Score: 0}, "ma hai te dua muaq caq moq.": Word{Word: "ma hai te dua muaq caq moq.", Def: "(A0892) Is it already known that the conductor is dead?", By: "examples", Score: 0}, "ma heqshea cheoq moq.": Word{Word: "ma heqshea cheoq moq.", Def: "(A0048) Is the bottle empty?", By: "examples", Score: 0}, "ma ho ni moq.": Word{Word: "ma ho ni moq.", Def: "(A0206) Is that him?", By: "examples", Score: 0}, "ma hui choaqjio maq moq.": Word{Word: "ma hui choaqjio maq moq.", Def: "(A0123) Is it a bad hotel?", By: "examples", Score: 0}, "ma hui haq moq.": Word{Word: "ma hui haq moq.", Def: "(A0121) Is the food bad?", By: "examples", Score: 0}, "ma huosi suq moq.": Word{Word: "ma huosi suq moq.", Def: "(A0129) Are you listening?", By: "examples", Score: 0}, "ma jei ho ni moq.": Word{Word: "ma jei ho ni moq.", Def: "(A0215) Is he this guy?", By: "examples", Score: 0}, "ma jeidua sia rai lui kai su ni pui hui kuqtoai moq.": Word{Word: "ma jeidua sia rai lui kai su ni pui hui kuqtoai moq.", Def: "(A0985) ", By: "examples", Score: 0}, "ma jeidua suq ni liqdeo moq.": Word{Word: "ma jeidua suq ni liqdeo moq.", Def: "(A0710) Do you know who this girl is?", By: "examples", Score: 0}, "ma jia gaq suq moq.": Word{Word: "ma jia gaq suq moq.", Def: "(A0824) Will you join?", By: "examples", Score: 0}, "ma juqguo posuq pai moq.": Word{Word: "ma juqguo posuq pai moq.", Def: "(A0531) Is your friend Chinese?", By: "examples", Score: 0}, "ma kao ni pui faq gai suq hoa rao ku tu chaq moq.": Word{Word: "ma kao ni pui faq gai suq hoa rao ku tu chaq moq.", Def: "(A0976) ", By: "examples", Score: 0}, "ma kaqgai suq ji moq.": Word{Word: "ma kaqgai suq ji moq.", Def: "(A0357) Do you see me?", By: "examples", Score: 0}, "ma kaqgai suq roai shuao moq": Word{Word: "ma kaqgai suq roai shuao moq", Def: "(A0372) Did you see the eight birds?", By: "examples", Score: 0}, "ma kaqgi ni jie suq moq.": Word{Word: "ma kaqgi ni jie suq moq.", Def: "(A0199) Does this look good to you?", By: "examples", Score: 0}, "ma koa ni nao moq.": Word{Word: "ma koa ni nao moq.", Def: "(A0020) Is this water cold?", By: "examples", Score: 0}, "ma kuoreo posuq gusioq moq.": Word{Word: "ma kuoreo posuq gusioq moq.", Def: "(A0534) Is your bike black?", By: "examples", Score: 0}, "ma lui tiduasho suq poji jaokuq moq.": Word{Word: "ma lui tiduasho suq poji jaokuq moq.", Def: "(A0137) Have you found my phone?", By: "examples", Score: 0}, "ma mai suq ji moq.": Word{Word: "ma mai suq ji moq.", Def: "(A0275) Do you love me?", By: "examples", Score: 0}, "ma mao chuqkuai suq moq.": Word{Word: "ma mao chuqkuai suq moq.", Def: "(A0243) Are you also hungry?", By: "examples", Score: 0}, "ma mi li suq moq.": Word{Word: "ma mi li suq moq.", Def: "(A0286) Are you Lee?", By: "examples", Score: 0}, "ma miu suq jei ho mi chaq moq": Word{Word: "ma miu suq jei ho mi chaq moq", Def: "(A0481) Do you think he is Chang?", By: "oldexamples", Score: 0}, "ma miujeq suq ji moq.": Word{Word: "ma miujeq suq ji moq.", Def: "(A0437) Do you agree with me?", By: "examples", Score: 0}, "ma moai poji shiaq moq.": Word{Word: "ma moai poji shiaq moq.", Def: "(A0722) Are my legs thick?", By: "examples", Score: 0}, "ma moaq suq sia rai moq.": Word{Word: "ma moaq suq sia rai moq.", Def: "(A0106) Do you remember nothing?", By: "examples", Score: 0}, "ma moq": Word{Word: "ma moq", Def: "elliptical question", By: "uakci", Score: 0}, "ma muidua suq po shu ‹ tua › moq.": Word{Word: "ma muidua suq po shu ‹ tua › moq.", Def: "(A0279) Do you understand \"tua\"?", By: "examples", Score: 0}, "ma noqgi ni suq moq.": Word{Word: "ma noqgi ni suq moq.", Def: "(A0104) Does this taste good to you?", By: "examples", Score: 0}, "ma nuokuai suq moq.": Word{Word: "ma nuokuai suq moq.", Def: "(A0004) Are you tired?", By: "examples", Score: 0}, "ma pai ho mi li moq.": Word{Word: "ma pai ho mi li moq.", Def: "(A0282) Is he friends with Lee?", By: "examples", Score: 0}, "ma pai suq ji moq": Word{Word: "ma pai suq ji moq", Def: "(SMP.3) Are you my friend?", By: "official", Score: 0}, "ma piekuai suq moq.": Word{Word: "ma piekuai suq moq.", Def: "(A0014) Are you thirsty?", By: "examples", Score: 0}, "ma posuq ni cea moq.": Word{Word: "ma posuq ni cea moq.", Def: "(A0704) Is this bag yours?", By: "examples", Score: 0}, "ma pu cho suq poho kua moq.": Word{Word: "ma pu cho suq poho kua moq.", Def: "(A0234) Did you like his room?", By: "examples", Score: 0}, "ma pu kuq ji sa luai moq.": Word{Word: "ma pu kuq ji sa luai moq.", Def: "(A0262) Did I say something funny?", By: "examples", Score: 0}, "ma pu soa suq hoi hiaote kune moq.": Word{Word: "ma pu soa suq hoi hiaote kune moq.", Def: "phrase: \"Did you help that injured dog?\"", By: "official", Score: 0}, "ma pua huosi suq baq giaq moq.": Word{Word: "ma pua huosi suq baq giaq moq.", Def: "(A0092) Do you enjoy listening to music?", By: "examples", Score: 0}, "ma rao ni loqcao bi fa ho faraqse moq.": Word{Word: "ma rao ni loqcao bi fa ho faraqse moq.", Def: "(A0267) Does he go to France this summer?", By: "examples", Score: 0}, "ma raq maq ji moq.": Word{Word: "ma raq maq ji moq.", Def: "(A0441) Is it related to me?", By: "examples", Score: 0}, "ma shao suq pai suq ji moq.": Word{Word: "ma shao suq pai suq ji moq.", Def: "(A0339) Do you want to be my friend?", By: "examples", Score: 0}, "ma shu ‹ li › posuq chua moq.": Word{Word: "ma shu ‹ li › posuq chua moq.", Def: "(A0312) Is \"Lee\" your name?", By: "examples", Score: 0}, "ma soq hui ku li huibonua ja poq moq": Word{Word: "ma soq hui ku li huibonua ja poq moq", Def: "(A0615) Was stealing the worst thing?", By: "examples", Score: 0}, "ma soq hui ku li muaqtua ja poq sa heo moq": Word{Word: "ma soq hui ku li muaqtua ja poq sa heo moq", Def: "(A0613) Was killing somebody (else) the worst thing?", By: "examples", Score: 0}, "ma soq hui ku li shoi kuq ja do cu sa deo moq": Word{Word: "ma soq hui ku li shoi kuq ja do cu sa deo moq", Def: "(A0611) Was yelling at a child the worst thing?", By: "examples", Score: 0}, "ma suao puq nijao moq": Word{Word: "ma suao puq nijao moq", Def: "(ILL.4) Are those things important?", By: "official", Score: 0}, "ma suq bi hiaq pai moq.": Word{Word: "ma suq bi hiaq pai moq.", Def: "(A0843) As for you, do you have few friends?", By: "examples", Score: 0}, "ma suq ni moq.": Word{Word: "ma suq ni moq.", Def: "(A0381) Is this you?", By: "examples", Score: 0}, "ma taoshao fa sa bu ji moq.": Word{Word: "ma taoshao fa sa bu ji moq.", Def: "(A0287) Does somebody other than me intend to go?", By: "examples", Score: 0}, "ma teaqriai ni lu nai joai hoa suq moq.": Word{Word: "ma teaqriai ni lu nai joai hoa suq moq.", Def: "(A0982) Is it this bra that you're searching for now?", By: "examples", Score: 0}, "ma teoq ni moq": Word{Word: "ma teoq ni moq", Def: "(A0497) Was that a question?", By: "examples", Score: 0}, "ma ti sa rai dai jea ji hoa moq": Word{Word: "ma ti sa rai dai jea ji hoa moq", Def: "(REL.3) Is there anything there that I could buy?", By: "official", Score: 0}, "ma tijao guairiaq posuq buajio moq.": Word{Word: "ma tijao guairiaq posuq buajio moq.", Def: "(A0082) Is the workplace far from your house?", By: "examples", Score: 0}, "ma tỉao ní jake pojī sueta moq.": Word{Word: "ma tỉao ní jake pojī sueta moq.", Def: "(A0345) Does this jacket suit my sweater?", By: "examples", Score: 0}, "ma toaqdeq suq mi toaq moq.": Word{Word: "ma toaqdeq suq mi toaq moq.", Def: "(A0414) Do you speak Toaq?", By: "examples", Score: 0}, "ma tue deoqsoi po laqcai suq roi posuq pia moq": Word{Word: "ma tue deoqsoi po laqcai suq roi posuq pia moq", Def: "(A0470) Was you and and your sibling being loud an argument?", By: "examples", Score: 0}, "mabula": Word{Word: "mabula", Def: "▯ is execrable/deplorable/wretched/shitty/awful/rotten/miserable/contemptible/crappy/inferior/low-quality.", By: "Ilmen", Score: 0}, "madamada": Word{Word: "madamada", Def: "There's still some way to go before the goal; we're not there yet.", By: "Ilmen", Score: 1}, "madi": Word{Word: "madi", Def: "guess", By: "spreadsheet", Score: -1}, "madigi": Word{Word: "madigi", Def: "▯ is a clue/hint.", By: "Ilmen", Score: -1}, "madurudura": Word{Word: "madurudura", Def: "▯ is a specific kind of bad weather characterized by large dark rain clouds that block out most of the daylight, large, cold rain drops and an overall dark, uncomfortable and unsettling atmosphere, optionally accompanied by icy wind, such that a change in the weather conditions would be a relief to anyone present, both physically and emotionally.", By: "Hoemai", Score: 0}, "maheo": Word{Word: "maheo", Def: "▯ have different truth values.", By: "Ilmen", Score: -1}, "mahi": Word{Word: "mahi", Def: "maize, corn", By: "spreadsheet", Score: 0}, "mahogani": Word{Word: "mahogani", Def: "▯ is a mahogany tree (Swietenia).", By: "lynn", Score: 0}, "mai": Word{Word: "mai", Def: "= #jaq #chỏ", By: "uakci", Score: 0}, "mai ji suq da.": Word{Word: "mai ji suq da.", Def: "(A0274) I love you.", By: "examples", Score: 0}, "mai ji suq da. je ma mai suq ji moq": Word{Word: "mai ji suq da. je ma mai suq ji moq", Def: "(SPR.3) I love you. Do you love me?", By: "official", Score: 0}, "mai ji suq.": Word{Word: "mai ji suq.", Def: "(SMP.2) I love you.", By: "official", Score: 0}, "mai puqji suq hu mi hoemai da!": Word{Word: "mai puqji suq hu mi hoemai da!", Def: "(A0462) We love you Solpahi!", By: "examples", Score: 0}, "maibia": Word{Word: "maibia", Def: "▯ is in love with ▯.", By: "uakci", Score: 0}, "maigaq": Word{Word: "maigaq", Def: "predicate: ‘SO’; ▯ is a boyfriend/girlfriend/SO of ▯.", By: "official", Score: 0}, "maigeq": Word{Word: "maigeq", Def: "▯ goes out on a date with ▯; ▯ dates ▯; ▯ is on a date with ▯; ▯ and ▯ date.", By: "uakci", Score: 0}, "maijīai": Word{Word: "maijīai", Def: "▯hugs▯", By: "seaqtaq", Score: 1}, "maijuo": Word{Word: "maijuo", Def: "predicate: ‘love.letter’; ▯ is a love letter.", By: "official", Score: 0}, "maiki": Word{Word: "maiki", Def: "maize, corn", By: "spreadsheet", Score: 0}, "maili": Word{Word: "maili", Def: "mile (unit)", By: "spreadsheet", Score: 0}, "maimu": Word{Word: "maimu", Def: "▯ is beloved (affective adjective); ▯ is loved by ▯.", By: "uakci", Score: 0}, "maipai": Word{Word: "maipai", Def: "▯ is ▯’s loved one.", By: "uakci", Score: 0}, "maishua": Word{Word: "maishua", Def: "▯ falls in love with ▯.", By: "uakci", Score: 0}, "maitue": Word{Word: "maitue", Def: "have a romance", By: "spreadsheet", Score: 0}, "majara": Word{Word: "majara", Def: "▯ pertains to the culture of Hungary.", By: "countries", Score: 0}, "majaragua": Word{Word: "majaragua", Def: "▯ is the country Hungary.", By: "countries", Score: 0}, "majaratoaq": Word{Word: "majaratoaq", Def: "▯ is (one of) the language(s) spoken in Hungary.", By: "countries", Score: 0}, "majeo": Word{Word: "majeo", Def: "▯ is the indirect question of: whether ▯ is true [dyadic]; ▯ is the indirect question of: whether ▯ has p’ty ▯ [triadic].", By: "uakci", Score: 0}, "majeq": Word{Word: "majeq", Def: "▯ and ▯ have the same truth value.", By: "Ilmen", Score: 0}, "maji": Word{Word: "maji", Def: "magic", By: "spreadsheet", Score: 0}, "majiche": Word{Word: "majiche", Def: "▯ is a magician (a performer who practices and presents tricks)", By: "fagri", Score: 0}, "majijeo": Word{Word: "majijeo", Def: "▯ happens by magic; ▯ does ▯ by magic", By: "fagri", Score: 1}, "majipoq": Word{Word: "majipoq", Def: "▯ is a magician (someone who is literally capable of using magic)", By: "fagri", Score: 0}, "makaka": Word{Word: "makaka", Def: "▯ is a member of genus Macaca (the macaques).", By: "Hoemai", Score: 0}, "makasiq": Word{Word: "makasiq", Def: "▯ is a moccasin (kind of shoe).", By: "Ilmen", Score: 0}, "makui": Word{Word: "makui", Def: "whether ▯ is the case conditions whether ▯ is the case.", By: "Ilmen", Score: 0}, "mama": Word{Word: "mama", Def: "predicate: ‘mama’; ▯ is mama (Mom, mommy, mum, mother).", By: "official", Score: 0}, "mamieq": Word{Word: "mamieq", Def: "verify", By: "spreadsheet", Score: 0}, "mamieqkiu": Word{Word: "mamieqkiu", Def: "The truth value of ▯ (proposition) is verifiable.", By: "Ilmen", Score: 0}, "mamoq": Word{Word: "mamoq", Def: "▯ is a ‘ma… moq’ (yes–no) question.", By: "uakci", Score: 0}, "mamutu": Word{Word: "mamutu", Def: "▯ is a member of genus Mammuthus (the mammoths).", By: "Hoemai", Score: 0}, "mane": Word{Word: "mane", Def: "nẻ dóshī lû jẻo dógū da", By: "uakci", Score: 0}, "mao": Word{Word: "mao", Def: "[X1] Bủ tủq háo dógū na ru dỏshī sa tájēo dỏgū.", By: "Ilmen", Score: 1}, "mao du suo maq da.": Word{Word: "mao du suo maq da.", Def: "(A0278) It too, seems broken.", By: "examples", Score: 0}, "mao lu pu kaqgai ji sa tiqshoai da.": Word{Word: "mao lu pu kaqgai ji sa tiqshoai da.", Def: "(A0277) I also saw a butterfly.", By: "examples", Score: 0}, "maoja": Word{Word: "maoja", Def: "predicate: ‘banana’; ▯ is a banana.", By: "official", Score: 0}, "maomao": Word{Word: "maomao", Def: "cat", By: "spreadsheet", Score: 0}, "maoru": Word{Word: "maoru", Def: "Not only ▯, but also ▯ is the case; Not only ▯, but also ▯ satisfies property ▯.", By: "uakci", Score: 0}, "maq": Word{Word: "maq", Def: "predicate: ‘it’; ▯ is it (non-personal concrete).", By: "official", Score: 0}, "maqbaniai": Word{Word: "maqbaniai", Def: "crocodilia", By: "spreadsheet", Score: 0}, "maqfa": Word{Word: "maqfa", Def: "magic", By: "spreadsheet", Score: -1}, "maqha": Word{Word: "maqha", Def: "▯ crushes/smashes/flattens/squeezes ▯.", By: "fagri", Score: -1}, "maqhabeaq": Word{Word: "maqhabeaq", Def: "(fork of #JG5lQzlY0) (fork of #k-WhFouNm) ▯ is a mortar\u00a0", By: "seaqtaq", Score: -1}, "maqhanioq": Word{Word: "maqhanioq", Def: "▯ is a molar(tooth)", By: "seaqtaq", Score: -1}, "maqkaiheaq": Word{Word: "maqkaiheaq", Def: "▯ is a mango tree (Mangifera genus).", By: "Ilmen", Score: 0}, "maqneloha": Word{Word: "maqneloha", Def: "▯ is magnesium.", By: "Ilmen", Score: 0}, "maqpa": Word{Word: "maqpa", Def: "▯ is satisfied by it.", By: "lynn", Score: 0}, "maqrai": Word{Word: "maqrai", Def: "▯ is inanimate.", By: "Ilmen", Score: 0}, "maqto": Word{Word: "maqto", Def: "mammoth", By: "uakci", Score: 0}, "mara": Word{Word: "mara", Def: "▯ is fluffy/airy/soft/fuzzy in texture.", By: "Ilmen", Score: 0}, "mari": Word{Word: "mari", Def: "horse", By: "spreadsheet", Score: -1}, "marihuana": Word{Word: "marihuana", Def: "▯ is marihuana (genus Cannabis).", By: "Hoemai", Score: 0}, "mariki": Word{Word: "mariki", Def: "maize, corn", By: "spreadsheet", Score: 0}, "masua": Word{Word: "masua", Def: "▯ yawns.", By: "Ilmen", Score: 0}, "mateoq": Word{Word: "mateoq", Def: "▯ is a yes-no question (polar question).", By: "Hoemai", Score: 0}, "matio": Word{Word: "matio", Def: "truth value", By: "spreadsheet", Score: 0}, "me": Word{Word: "me", Def: "[XX] Tủq pảq dógū dóshī.", By: "Ilmen", Score: 0}, "me soiche": Word{Word: "me soiche", Def: "▯ is an army", By: "seaqtaq", Score: 0}, "me soitue": Word{Word: "me soitue", Def: "▯ is a war", By: "seaqtaq", Score: 0}, "mea": Word{Word: "mea", Def: "predicate: ‘among’; ▯ is among ▯.", By: "official", Score: 0}, "meaheo": Word{Word: "meaheo", Def: "predicate: ‘other’; ▯ is different from ▯; ▯ is not the same thing as ▯; ▯ is something else than ▯.", By: "official", Score: 0}, "meai": Word{Word: "meai", Def: "▯ stitches/knits/sews; ▯ forms string into ▯.", By: "uakci", Score: 0}, "meajeq": Word{Word: "meajeq", Def: "jẻq dóshī dógū lî mẻa ja dó háqbī da; jẻı dóshī dógū da", By: "uakci", Score: 0}, "meakuq": Word{Word: "meakuq", Def: "predicate: ‘mention’; ▯ mentions ▯ to ▯.", By: "official", Score: 0}, "meali": Word{Word: "meali", Def: "the property ▯ is satisfied by something among ▯.", By: "Ilmen", Score: 0}, "meame": Word{Word: "meame", Def: "▯ is a set; ▯ is the set with members ▯.", By: "Ilmen", Score: 0}, "meamiq": Word{Word: "meamiq", Def: "▯ are infinitely many.", By: "Ilmen", Score: 1}, "meane": Word{Word: "meane", Def: "{mei}", By: "spreadsheet", Score: 0}, "meao": Word{Word: "meao", Def: "Mẻa sa\u00a0dó\u00a0dóshī ru\u00a0dógū da.", By: "fagri", Score: 0}, "meaq": Word{Word: "meaq", Def: "predicate: ‘ship’; ▯ is a ship/boat/vessel.", By: "official", Score: 0}, "meaqbia": Word{Word: "meaqbia", Def: "▯ is seasick.", By: "Ilmen", Score: 0}, "meaqcaqche": Word{Word: "meaqcaqche", Def: "sailor", By: "spreadsheet", Score: 0}, "meaqce": Word{Word: "meaqce", Def: "predicate: ‘harbour’; ▯ is a harbour/haven.", By: "official", Score: 0}, "meaqche": Word{Word: "meaqche", Def: "sailor", By: "spreadsheet", Score: 0}, "measia": Word{Word: "measia", Def: "▯ is the empty set; ▯ is zero in number.", By: "uakci", Score: 0}, "measuao": Word{Word: "measuao", Def: "▯ is special (among ▯)", By: "seaqtaq", Score: 0}, "meatio": Word{Word: "meatio", Def: "{mei}", By: "spreadsheet", Score: 0}, "meatu": Word{Word: "meatu", Def: "common to, kampu / everything has property ▯ (among ▯)", By: "spreadsheet", Score: 0}, "meatuq": Word{Word: "meatuq", Def: "predicate: ‘same’; ▯ is the same thing as ▯.", By: "Ilmen", Score: 0}, "mechakucha": Word{Word: "mechakucha", Def: "▯ is absurd.", By: "uakci", Score: 0}, "media": Word{Word: "media", Def: "media", By: "spreadsheet", Score: 0}, "mefaq": Word{Word: "mefaq", Def: "The aggregate event made of sub-events X (plural) [together with Y (plural)] happens.", By: "spreadsheet", Score: 0}, "mefiti": Word{Word: "mefiti", Def: "▯ is a skunk of the Mephitis genus.", By: "Ilmen", Score: 0}, "mefitisiu": Word{Word: "mefitisiu", Def: "▯ belongs to the Mephitidae taxonomic family (comprising the skunks and stink badgers).", By: "Ilmen", Score: 0}, "mega": Word{Word: "mega", Def: "predicate: ‘mega’; ▯ are 10^6 (1,000,000) in number; ▯ are a million.", By: "official", Score: 0}, "mehikonuai": Word{Word: "mehikonuai", Def: "▯ is a Mexican peso.", By: "Ilmen", Score: 0}, "mei": Word{Word: "mei", Def: "predicate: ‘mountain’; ▯ is a mountain/hill.", By: "official", Score: 0}, "meibi": Word{Word: "meibi", Def: "▯ is the case with regards to hills/mountains.", By: "Ilmen", Score: 0}, "meidei": Word{Word: "meidei", Def: "▯ SOS’s; ▯ sends an SOS (emergency, call for help) signal.", By: "uakci", Score: 0}, "meigiq": Word{Word: "meigiq", Def: "valley", By: "spreadsheet", Score: 0}, "meiharanika": Word{Word: "meiharanika", Def: "▯ is mountain arnica (Arnica montana).", By: "Hoemai", Score: 0}, "meilu": Word{Word: "meilu", Def: "▯ is an email", By: "fagri", Score: 0}, "meirie": Word{Word: "meirie", Def: "▯ is a valley", By: "Ilmen", Score: 0}, "mejeo": Word{Word: "mejeo", Def: "▯ (predicate) is true of the argument structure ▯ (sequence of arguments).", By: "Ilmen", Score: 0}, "memea": Word{Word: "memea", Def: "mıeq", By: "uakci", Score: 0}, "meneu": Word{Word: "meneu", Def: "▯ is the sum of the number sequence/multiset ▯.", By: "Ilmen", Score: 0}, "meneuchu": Word{Word: "meneuchu", Def: "▯ is the arithmetic mean of ▯ (sequence/multiset of numbers).", By: "Ilmen", Score: 0}, "meni": Word{Word: "meni", Def: "▯ is a pangolin of the Manis genus.", By: "Ilmen", Score: 0}, "menisiu": Word{Word: "menisiu", Def: "▯ is a pangolin.", By: "Ilmen", Score: 0}, "meo": Word{Word: "meo", Def: "predicate: ‘sad’; ▯ is sad.", By: "official", Score: 0}, "meo ho kui lu kiachaq nichaq da.": Word{Word: "meo ho kui lu kiachaq nichaq da.", Def: "(A0248) He's sad because today it's a Monday.", By: "examples", Score: 0}, "meo ji kui bu tishue suq da.": Word{Word: "meo ji kui bu tishue suq da.", Def: "(A0298) I'm sad because you aren't here.", By: "examples", Score: 0}, "meobia": Word{Word: "meobia", Def: "depressed", By: "spreadsheet", Score: 0}, "meocai": Word{Word: "meocai", Def: "▯ is emotionally strong (e.g. in the face of hard times)", By: "fagri", Score: 1}, "meoi": Word{Word: "meoi", Def: "▯ is imaginary; ▯ is made up; ▯ is non-existent.", By: "uakci", Score: 0}, "meoijua": Word{Word: "meoijua", Def: "▯ is absurd.", By: "uakci", Score: 0}, "meoiluai": Word{Word: "meoiluai", Def: "▯ is dadaistic; ▯ is absurdly funny.", By: "uakci", Score: 0}, "meojaq": Word{Word: "meojaq", Def: "▯ feels sorrow.", By: "Ilmen", Score: 0}, "meoq": Word{Word: "meoq", Def: "= gıq #sủaı", By: "uakci", Score: 0}, "meoq bi riasho saojaq kiao": Word{Word: "meoq bi riasho saojaq kiao", Def: "(B0022) Slowly the great door opened", By: "examples", Score: 0}, "meoqkoi": Word{Word: "meoqkoi", Def: "predicate: ‘walk’; ▯ walks.", By: "official", Score: 0}, "meoqkuai": Word{Word: "meoqkuai", Def: "▯ is in no hurry whatsoever / is taking their time; ▯ wants to satisfying property ▯ slowly.", By: "lynn", Score: 0}, "mepuine": Word{Word: "mepuine", Def: "▯ is the cardinality of the set/multiset/sequence ▯.", By: "Ilmen", Score: 0}, "meq": Word{Word: "meq", Def: "pre-prepositional nominaliser: transform the following prepositional phrase into a side statement of the inside noun’s satisfying of property of the containing clause, where the lambda variable is to be placed in the expected position, as if the meq-clause were itself one noun (which still participated in the containing clause).", By: "uakci", Score: 0}, "meqli": Word{Word: "meqli", Def: "mind", By: "spreadsheet", Score: -3}, "meqso": Word{Word: "meqso", Def: "▯ is a mathematical expression meaning ▯; ▯ mekso.", By: "uakci", Score: 0}, "meqēa": Word{Word: "meqēa", Def: "≈ [XX] Pảq dóshī méamē dỏgū", By: "Ilmen", Score: 0}, "mereu": Word{Word: "mereu", Def: "▯ is the product of the number sequence/multiset ▯.", By: "Ilmen", Score: 0}, "mereuchu": Word{Word: "mereuchu", Def: "▯ is the geometric mean of ▯ (sequence/multiset of numbers).", By: "Ilmen", Score: 0}, "merieqda": Word{Word: "merieqda", Def: "▯ is an afternoon/evening snack", By: "seaqtaq", Score: 0}, "merika": Word{Word: "merika", Def: "predicate: ‘America’; ▯ is America (continent).", By: "official", Score: 0}, "mesho": Word{Word: "mesho", Def: "blend (vi)", By: "spreadsheet", Score: 1}, "meta": Word{Word: "meta", Def: "meter (unit)", By: "spreadsheet", Score: 0}, "meta:alphabet": Word{Word: "meta:alphabet", Def: "ha bi ci di he fi gi pa hi ji ki li mi ni ho pi ga ri si ti hu fa ba ka ja sa [for letter compounds in language codes and others]", By: "uakci", Score: 0}, "meta:simple_counting": Word{Word: "meta:simple_counting", Def: "Start with pa = 0, then count pu, pi, pe, po; add -q for the fifths' place (paq = 5, puq…). Then, iterate on the consonants: t = 10, k = 20, f = 30, s = 40, ch = 50, h = 60, r = 70, l = 80, j = 90. This closes off a simple base-100 positional counting system.", By: "uakci", Score: 0}, "metafo": Word{Word: "metafo", Def: "metaphor", By: "spreadsheet", Score: 0}, "metafora": Word{Word: "metafora", Def: "metaphor", By: "spreadsheet", Score: 0}, "metebuaine": Word{Word: "metebuaine", Def: "meter (unit)", By: "spreadsheet", Score: 0}, "metene": Word{Word: "metene", Def: "meter (unit)", By: "spreadsheet", Score: 0}, "metoa": Word{Word: "metoa", Def: "compound (e.g., toamē)", By: "uakci", Score: 1}, "meu": Word{Word: "meu", Def: "start full-text name quote: ▯ is named like this quote.", By: "uakci", Score: 0}, "mi": Word{Word: "mi", Def: "predicatizer: ‘those.named’; turns following phrase X into predicate: ▯ is/are the one(s) called X.", By: "official", Score: 0}, "mi bianaq": Word{Word: "mi bianaq", Def: "Mảo mỉ lỉmēq hó. Je fỉeq hóı húaqmēa tỏa pỏ míerīoqdīu na ru mỏı jãq fảı tûa hủaq chỏqgī ru chỏqkīu go ní dẻ tỏaq kũı pủı póhō fỉeqsē. Je jũlū bı sỏq fảı kủaı tủa sỉ hó dâı chỏadēoq.", By: "seaqtaq", Score: 0}, "mi bu": Word{Word: "mi bu", Def: "False [boolean value]", By: "fagri", Score: 0}, "mi chaq roi poho pia pa cheo luaqgaq.": Word{Word: "mi chaq roi poho pia pa cheo luaqgaq.", Def: "(A0461) Chang and his sibling play with each other.", By: "examples", Score: 0}, "mi chuabeo": Word{Word: "mi chuabeo", Def: "lủ jảq pủı chúa dǎı tủq pủ mu chỏq na, nỉ pỏq so dũafūı da. Je mủa shú jỉaqmūaotūa ru shú dỏecāqchē tỉaofōatūa ru shú sảqdī ru shú hipokritos ru shú hủaqshī ru shú hỏelōı da. Fỉeq hó sa púı rảı jùqgī ní chẻmē (kıo mủa ní dảocē! kı) da.", By: "seaqtaq", Score: 0}, "mi guhei teoq pa jaq gi!": Word{Word: "mi guhei teoq pa jaq gi!", Def: "(A0376) Twenty Questions is awesome!", By: "examples", Score: 0}, "mi halufīq pa, rao hi chaq paq hoa heijue moq": Word{Word: "mi halufīq pa, rao hi chaq paq hoa heijue moq", Def: "(A0157) Halloween… on which day in October is that?", By: "examples", Score: 0}, "mi hikaru ji da.": Word{Word: "mi hikaru ji da.", Def: "(A0536) I'm Hikaru.", By: "examples", Score: 0}, "mi hiqlaq": Word{Word: "mi hiqlaq", Def: "England", By: "spreadsheet", Score: 0}, "mi hoaqgiomi gui": Word{Word: "mi hoaqgiomi gui", Def: "Ní tỏaqpōq bı shú gủı pa dảı tỉao kùı sa lúaı nǒ hóa híqlītōaq, keo gủhūaq chỏ hó shú hỏaqgīo hóı so mỉu da. Mảo hó fîeq ru tâo ja lúaı sa púı rảı jùqgī ní chẻmē. Je mủa mí serial ru sa méahēo bǔ dẻq mỏaq chũfāq jí da.", By: "seaqtaq", Score: 0}, "mi hoemai": Word{Word: "mi hoemai", Def: "Lủ fỏa gỉ hó. Keo sỏq sủao fîeq hó mỉ tỏaq. Je ku jí pa shủerēoq bủ dủa sa púı rảı rǎq hóa hó càjōq bû dẻq dủatūa cu sa púı.", By: "seaqtaq", Score: 0}, "mi jeo": Word{Word: "mi jeo", Def: "True [boolean value]", By: "fagri", Score: 0}, "mi joq ji da.": Word{Word: "mi joq ji da.", Def: "(NAM.1) I am John.", By: "official", Score: 0}, "mi lisa pa husona da.": Word{Word: "mi lisa pa husona da.", Def: "(A0535) Lisa is American.", By: "examples", Score: 0}, "mi luinoaq": Word{Word: "mi luinoaq", Def: "Reddit", By: "uakci", Score: 0}, "mi meotoaq": Word{Word: "mi meotoaq", Def: "Lojban", By: "uakci", Score: 0}, "mi nuihiu": Word{Word: "mi nuihiu", Def: "Bach", By: "uakci", Score: 0}, "mi pita pu geq suq hoa pa pai ji.": Word{Word: "mi pita pu geq suq hoa pa pai ji.", Def: "(NAM.5) The Peter you met is my friend.", By: "official", Score: 0}, "mi poha liqneoq": Word{Word: "mi poha liqneoq", Def: "▯ is the Notre Dame cathedral.", By: "uakci", Score: 0}, "mi punoaq": Word{Word: "mi punoaq", Def: "(fork of #MzTsw00xO) Reddit", By: "uakci", Score: 0}, "mi samaqta ju bua ho ni buajio pa bo sa shi de soaq.": Word{Word: "mi samaqta ju bua ho ni buajio pa bo sa shi de soaq.", Def: "(INC.1) Samantha, who lives in this house, has a beautiful garden.", By: "official", Score: 0}, "mi sara ni da.": Word{Word: "mi sara ni da.", Def: "(A0281) This is Sarah.", By: "examples", Score: 0}, "mi shipio": Word{Word: "mi shipio", Def: "Einstein", By: "uakci", Score: 0}, "mia": Word{Word: "mia", Def: "▯ has many things be in relation ▯ with it.", By: "uakci", Score: 0}, "mia buo ho da.": Word{Word: "mia buo ho da.", Def: "(A0831) He's ready for anything.", By: "examples", Score: 0}, "mia dua ho da.": Word{Word: "mia dua ho da.", Def: "(A0830) She knows a lot.", By: "examples", Score: 0}, "mia moe nai ji da.": Word{Word: "mia moe nai ji da.", Def: "(A0832) I'm feeling a lot of emotions right now.", By: "examples", Score: 0}, "mia mu": Word{Word: "mia mu", Def: "▯ has many things in relation ▯ with it.", By: "uakci", Score: 0}, "miai": Word{Word: "miai", Def: "predicate: ‘rhyme’; ▯ rhymes with ▯.", By: "official", Score: 0}, "miaise": Word{Word: "miaise", Def: "predicate: ‘rhyme’; ▯ is a rhyme.", By: "official", Score: 0}, "miao": Word{Word: "miao", Def: "mỉao mîao mìao míaomīao mǐao\u00a0mĩao", By: "uakci", Score: 0}, "miaochoa": Word{Word: "miaochoa", Def: "to meow", By: "uakci", Score: 0}, "miaogio": Word{Word: "miaogio", Def: "▯ is moonlight", By: "fagri", Score: 0}, "miaojoq": Word{Word: "miaojoq", Def: "▯ is a second.", By: "uakci", Score: 0}, "miaoloha": Word{Word: "miaoloha", Def: "▯ is silver.", By: "Ilmen", Score: 0}, "miaq": Word{Word: "miaq", Def: "predicate: ‘value’; ▯ is the value of ▯.", By: "official", Score: 0}, "miaqgai": Word{Word: "miaqgai", Def: "predicate: ‘esteem’; ▯ appreciates/esteems ▯.", By: "official", Score: 0}, "miaqjaq": Word{Word: "miaqjaq", Def: "▯ is precious, of high value.", By: "Ilmen", Score: 0}, "miaqjie": Word{Word: "miaqjie", Def: "predicate: ‘appreciate’; ▯ appreciates ▯.", By: "official", Score: 0}, "miaqmia": Word{Word: "miaqmia", Def: "▯ is valuable.", By: "uakci", Score: 0}, "miaqmieq": Word{Word: "miaqmieq", Def: "▯ evaluates/assesses the value of ▯.", By: "Ilmen", Score: 0}, "miaqsao": Word{Word: "miaqsao", Def: "▯ is valuable (financially) / dear (emotionally) to ▯.", By: "uakci", Score: -1}, "mie": Word{Word: "mie", Def: "dẻq ra jẻo sẻaq ra chủq ra dủo dóshī da", By: "uakci", Score: 0}, "miedaosai": Word{Word: "miedaosai", Def: "▯ is a nucleic acid (DNA or RNA).", By: "Ilmen", Score: 0}, "miediu": Word{Word: "miediu", Def: "biology", By: "spreadsheet", Score: -1}, "miedua": Word{Word: "miedua", Def: "▯ is savoir-vivre; ▯ is good manners.", By: "uakci", Score: 0}, "miefea": Word{Word: "miefea", Def: "predicate: ‘survive’; ▯ survives ▯.", By: "official", Score: 0}, "miehaqtu": Word{Word: "miehaqtu", Def: "▯ is a ghost that is alive.", By: "uakci", Score: 0}, "miehua": Word{Word: "miehua", Def: "predicate: ‘heart’; ▯ is a heart.", By: "official", Score: 0}, "miejoai": Word{Word: "miejoai", Def: "(fork of #IK7hm5ItL) ▯ hunts for ▯/1.", By: "seaqtaq", Score: 0}, "mielua": Word{Word: "mielua", Def: "▯ is a bio(graphy)", By: "seaqtaq", Score: 0}, "mieme": Word{Word: "mieme", Def: "▯ is a biome", By: "seaqtaq", Score: 0}, "miemuaq": Word{Word: "miemuaq", Def: "▯ is among the living dead; ▯ is undead/a zombie/vampire /etc.", By: "Hoemai", Score: 0}, "miepio": Word{Word: "miepio", Def: "▯ is a fossil of ▯.", By: "Ilmen", Score: 0}, "mieq": Word{Word: "mieq", Def: "predicate: ‘measure’; ▯ measures/evaluates/determines what satisfies property ▯.", By: "official", Score: 0}, "mieqchuo": Word{Word: "mieqchuo", Def: "measure tool (LOECHUO)", By: "spreadsheet", Score: 0}, "mieqchuo pa lui geibeo da.": Word{Word: "mieqchuo pa lui geibeo da.", Def: "Przebrała się miarka.", By: "uakci", Score: 0}, "mieqtai": Word{Word: "mieqtai", Def: "▯ determines that ▯ is what satisfies property ▯.", By: "Ilmen", Score: 0}, "mieqtoai": Word{Word: "mieqtoai", Def: "measure unit", By: "spreadsheet", Score: 0}, "mierio": Word{Word: "mierio", Def: "▯ is dioxygen.", By: "Ilmen", Score: 0}, "mierioq": Word{Word: "mierioq", Def: "species", By: "spreadsheet", Score: 0}, "mierioqdiu": Word{Word: "mierioqdiu", Def: "▯ is taxonomy", By: "seaqtaq", Score: 0}, "mierioqjeq": Word{Word: "mierioqjeq", Def: "▯ is a fellow creature of ▯; ▯ is of the same species as ▯.", By: "Ilmen", Score: 0}, "mierioqjeqchuq": Word{Word: "mierioqjeqchuq", Def: "▯ is a cannibal.", By: "Ilmen", Score: 0}, "mieshi": Word{Word: "mieshi", Def: "▯ is a living being/organism.", By: "Ilmen", Score: 0}, "mietao": Word{Word: "mietao", Def: "▯ lives (activity); ▯ leads or lives their life.", By: "Ilmen", Score: 0}, "mietiai": Word{Word: "mietiai", Def: "▯ is a chest.", By: "Ilmen", Score: 0}, "mietoai": Word{Word: "mietoai", Def: "biological cell", By: "uakci", Score: 0}, "mietue": Word{Word: "mietue", Def: "▯ is life; ▯ is the life of ▯.", By: "Ilmen", Score: 0}, "migiq": Word{Word: "migiq", Def: "▯ = ▯ - ▯.", By: "uakci", Score: 0}, "mihoi": Word{Word: "mihoi", Def: "last thing referred to by a name constructed with #mi", By: "uakci", Score: 0}, "miku": Word{Word: "miku", Def: "automatic / zmiku", By: "spreadsheet", Score: -1}, "milu": Word{Word: "milu", Def: "particle/meta-predicate: stands for predicate related to the following name.", By: "uakci", Score: -1}, "mima": Word{Word: "mima", Def: "set member, cmima", By: "spreadsheet", Score: -1}, "mimi": Word{Word: "mimi", Def: "▯ is a meme / internet joke", By: "fagri", Score: 0}, "mina": Word{Word: "mina", Def: "jmina", By: "spreadsheet", Score: -1}, "minu": Word{Word: "minu", Def: "predicate: ‘minute’; ▯ is a minute.", By: "official", Score: 0}, "minune": Word{Word: "minune", Def: "▯ is the duration of a minute multiplied by number ▯", By: "fagri", Score: 1}, "mio": Word{Word: "mio", Def: "rẻo sa báq sẻoq rào sa báq dỉo dóshī da", By: "uakci", Score: 0}, "miochaq": Word{Word: "miochaq", Def: "predicate: ‘saturday’; ▯ is a Saturday.", By: "official", Score: 0}, "mionioq": Word{Word: "mionioq", Def: "▯ is bluetooth", By: "seaqtaq", Score: 0}, "mioreo": Word{Word: "mioreo", Def: "predicate: ‘blue’; ▯ is of blue colour.", By: "official", Score: 0}, "miq": Word{Word: "miq", Def: "predicate: ‘infinite’; ▯ is infinite in property ▯.", By: "official", Score: 0}, "miqdoe": Word{Word: "miqdoe", Def: "▯ executes ▯ perpetually; ▯ is stuck in infinite loop ▯; ▯ doesn’t halt.", By: "uakci", Score: 0}, "miqgaikiutua": Word{Word: "miqgaikiutua", Def: "▯ pins a message to group/channel ▯", By: "seaqtaq", Score: 0}, "miqgiq": Word{Word: "miqgiq", Def: "▯ is temporary / impermanent.", By: "lynn", Score: -1}, "miqgiqdoa": Word{Word: "miqgiqdoa", Def: "▯ lends ▯ to ▯.", By: "lynn", Score: 0}, "miqgiqnua": Word{Word: "miqgiqnua", Def: "▯ borrows (temporarily takes) ▯ from ▯.", By: "lynn", Score: 0}, "miqroa": Word{Word: "miqroa", Def: "▯ is innately ▯/1.", By: "uakci", Score: 0}, "mita": Word{Word: "mita", Def: "▯ is ▯ times the unit metre (meter); ▯ = ▯ m.", By: "uakci", Score: 0}, "mitoaq": Word{Word: "mitoaq", Def: "▯ is the Toaq language.", By: "lynn", Score: 0}, "mitoaqdiu": Word{Word: "mitoaqdiu", Def: "▯ is Toaqology (study of the Toaq language).", By: "lynn", Score: 0}, "miu": Word{Word: "miu", Def: "rủo dóshī sa lú shẻ rûo dóshī hóa na hê jẻo dógū da", By: "uakci", Score: 0}, "miu dai ji hoq da.": Word{Word: "miu dai ji hoq da.", Def: "(A0434) I think it is possible.", By: "examples", Score: 0}, "miu huitua": Word{Word: "miu huitua", Def: "▯ opines that ▯ made bad thing ▯ happen;\u00a0 ▯ blames ▯ for ▯.", By: "lynn", Score: 0}, "miu ji dai hoq da.": Word{Word: "miu ji dai hoq da.", Def: "(A0435) I think it is possible.", By: "examples", Score: 0}, "miu mi sara buaq suq li ja do bi tua dua do ho.": Word{Word: "miu mi sara buaq suq li ja do bi tua dua do ho.", Def: "(A0431) Sarah thought you failed at alerting her.", By: "examples", Score: 0}, "miu puqho bu dai da.": Word{Word: "miu puqho bu dai da.", Def: "(A0436) They think it's not possible.", By: "examples", Score: 0}, "miubururuaq": Word{Word: "miubururuaq", Def: "▯ asserts that ▯, which isn’t their opinion; ▯ states ▯ hypocritically.", By: "uakci", Score: 1}, "miucai": Word{Word: "miucai", Def: "confident", By: "spreadsheet", Score: 0}, "miudaometua": Word{Word: "miudaometua", Def: "▯ collects data ▯ about ▯’s opinions on ▯; ▯ holds a questionnaire/poll ▯ for participants ▯ about topic ▯.", By: "uakci", Score: -2}, "miudiu": Word{Word: "miudiu", Def: "philosophy", By: "spreadsheet", Score: 0}, "miudoa": Word{Word: "miudoa", Def: "▯ gives their opinion about/of ▯ to ▯", By: "seaqtaq", Score: 0}, "miujeq": Word{Word: "miujeq", Def: "predicate: ‘agree’; ▯ agrees with ▯ that ▯ is the case.", By: "official", Score: 0}, "miuji": Word{Word: "miuji", Def: "pe'i, in my opinion", By: "spreadsheet", Score: 0}, "miukuaq": Word{Word: "miukuaq", Def: "▯ expresses their opinion ▯; ▯ says they think ▯ to be the case.", By: "uakci", Score: 0}, "miukuaq ba.": Word{Word: "miukuaq ba.", Def: "a phrase asking the listener to share his thoughts; ‘What are your thoughts?’; ‘What do you think?’; ‘Share your opinion!’.", By: "uakci", Score: 0}, "miumieq": Word{Word: "miumieq", Def: "▯ polls ▯ about ▯", By: "seaqtaq", Score: -1}, "miuq": Word{Word: "miuq", Def: "▯ showcases an interesting legal Toaq nucleus ▯.", By: "uakci", Score: 0}, "miuse": Word{Word: "miuse", Def: "▯ is an opinion", By: "seaqtaq", Score: 0}, "miuteoq": Word{Word: "miuteoq", Def: "▯ is a poll towards ▯ (group) about ▯/1.", By: "uakci", Score: 1}, "mo": Word{Word: "mo", Def: "text-quote: ‘«’; begin full-text quote.", By: "official", Score: 0}, "moa": Word{Word: "moa", Def: "predicate: ‘point’; ▯ is a point in ▯.", By: "official", Score: 0}, "moai": Word{Word: "moai", Def: "predicate: ‘thick’; ▯ is thick.", By: "official", Score: 0}, "moaikai": Word{Word: "moaikai", Def: "▯ writes ▯ on ▯ in bold", By: "seaqtaq", Score: 0}, "moajao": Word{Word: "moajao", Def: "▯ (point in a metric space) is far from ▯ (point in the same metric space)", By: "fagri", Score: 0}, "moajeo": Word{Word: "moajeo", Def: "(fork of #z3q-tM8u2) ▯ occurs instantly; ▯ instantly satisfies property ▯", By: "seaqtaq", Score: 0}, "moajui": Word{Word: "moajui", Def: "▯ (point in a metric space) is near to ▯ (point in the same metric space)", By: "fagri", Score: 0}, "moalai": Word{Word: "moalai", Def: "▯ is a dot, period, or full stop (written character).", By: "Ilmen", Score: 0}, "moaleaq": Word{Word: "moaleaq", Def: "▯ (region of a metric space) is adjacent to ▯ (region of the same metric space)", By: "fagri", Score: 0}, "moanuoi": Word{Word: "moanuoi", Def: "▯ bites ▯", By: "seaqtaq", Score: 0}, "moao": Word{Word: "moao", Def: "[MO] ▯ says [text] to ▯", By: "fagri", Score: 0}, "moapoe": Word{Word: "moapoe", Def: "▯ (region of a space) is disjoint from ▯ (region of the same space)", By: "fagri", Score: 0}, "moaq": Word{Word: "moaq", Def: "hỏaı dẻq tảocīa rảqmōı dóshī dógū da", By: "uakci", Score: 0}, "moaq ji lu baoreo taqchao da.": Word{Word: "moaq ji lu baoreo taqchao da.", Def: "(A0105) I remember that the car is white.", By: "examples", Score: 0}, "moaq suq hi rai raq hoa hoi chaq moq.": Word{Word: "moaq suq hi rai raq hoa hoi chaq moq.", Def: "(A0283) What do you remember about the aforementioned day?", By: "examples", Score: 0}, "moaqbaise": Word{Word: "moaqbaise", Def: "▯ is a monument to the memory of ▯.", By: "Hoemai", Score: 0}, "moaqchie": Word{Word: "moaqchie", Def: "▯ memorizes ▯.", By: "Hoemai", Score: 0}, "moaqchuo": Word{Word: "moaqchuo", Def: "predicate: ‘mnemonic’; ▯ is a mnemonic for remembering ▯.", By: "official", Score: 0}, "moaqshai": Word{Word: "moaqshai", Def: "predicate: ‘forget’; ▯ forgets ▯.", By: "official", Score: 0}, "moaqshuetao": Word{Word: "moaqshuetao", Def: "▯ memorizes ▯.", By: "Hoemai", Score: 0}, "moaqsio": Word{Word: "moaqsio", Def: "predicate: ‘memory’; ▯ is a memory.", By: "official", Score: 0}, "moaqtao": Word{Word: "moaqtao", Def: "▯ recalls ▯.", By: "Hoemai", Score: 0}, "moasuai": Word{Word: "moasuai", Def: "▯ occurs suddenly; ▯ suddenly satisfies property ▯", By: "seaqtaq", Score: 0}, "moe": Word{Word: "moe", Def: "predicate: ‘feel’; ▯ feels ▯; ▯ has emotion ▯.", By: "official", Score: 0}, "moechoa": Word{Word: "moechoa", Def: "▯ moans; ▯ expresses emotion ▯ vocally, but not verbally.", By: "uakci", Score: 0}, "moedea": Word{Word: "moedea", Def: "▯ causes emotional shock in ▯.", By: "Ilmen", Score: 0}, "moedou": Word{Word: "moedou", Def: "moved emotionally", By: "spreadsheet", Score: -1}, "moefea": Word{Word: "moefea", Def: "▯ tolerates ▯ (0)", By: "seaqtaq", Score: 0}, "moegaq": Word{Word: "moegaq", Def: "▯ empathizes with ▯.", By: "lynn", Score: 0}, "moege": Word{Word: "moege", Def: "▯ is emotionally moving / elicits an emotional response.", By: "lynn", Score: 0}, "moehao": Word{Word: "moehao", Def: "O, ▯!", By: "fagri", Score: 0}, "moehiao": Word{Word: "moehiao", Def: "▯ hurts emotionally ▯.", By: "Ilmen", Score: 0}, "moehua": Word{Word: "moehua", Def: "predicate: ‘organ.of.feeling’; ▯ is an organ of feeling/emotion (\"heart\").", By: "official", Score: 0}, "moejeq": Word{Word: "moejeq", Def: "▯ sympathises (sympathizes) with ▯ in feeling ▯.", By: "uakci", Score: 0}, "moejoe": Word{Word: "moejoe", Def: "▯ has a heart.", By: "uakci", Score: 0}, "moekiaq": Word{Word: "moekiaq", Def: "▯ is an eyebrow.", By: "Ilmen", Score: 0}, "moekuaq": Word{Word: "moekuaq", Def: "▯ expresses emotion ▯.", By: "uakci", Score: 0}, "moekuaqsia": Word{Word: "moekuaqsia", Def: "▯ doesn't display any emotion.", By: "Ilmen", Score: 0}, "moemia": Word{Word: "moemia", Def: "▯ has mixed feelings", By: "fagri", Score: 0}, "moeriaq": Word{Word: "moeriaq", Def: "predicate: ‘center.of.emotion’; ▯ is a heart/emotional/spiritual center/core.", By: "official", Score: 0}, "moesia": Word{Word: "moesia", Def: "▯ doesn't feel any emotion.", By: "Ilmen", Score: 0}, "moetuai": Word{Word: "moetuai", Def: "▯ is a spirit, soul of ▯.", By: "uakci", Score: 0}, "mohe": Word{Word: "mohe", Def: "convert sumti to mex operand; sample use in story arithmetic: [3 apples] + [3 apples] = what.", By: "uakci", Score: 0}, "mohoi": Word{Word: "mohoi", Def: "last #mo-quote", By: "uakci", Score: 0}, "moi": Word{Word: "moi", Def: "predicate: ‘think’; ▯ thinks / is having a thought; ▯ thinks thought ▯.", By: "official", Score: 0}, "moi daqfai suq. je gi hao.": Word{Word: "moi daqfai suq. je gi hao.", Def: "(A0443) You think alot. That's good.", By: "examples", Score: 0}, "moi ji chufaq da.": Word{Word: "moi ji chufaq da.", Def: "(A0284) I'm remembering.", By: "examples", Score: 0}, "moi ji lu baokiareo helu da.": Word{Word: "moi ji lu baokiareo helu da.", Def: "(A0289) I think about the pink elf.", By: "examples", Score: 0}, "moi shiu tao ba.": Word{Word: "moi shiu tao ba.", Def: "(A0290) Think before you do.", By: "examples", Score: 0}, "moibaq": Word{Word: "moibaq", Def: "▯ is a mind.", By: "uakci", Score: 0}, "moibia": Word{Word: "moibia", Def: "fenki", By: "spreadsheet", Score: 0}, "moicai": Word{Word: "moicai", Def: "▯ is sure of themself / feels certain; ▯ feels certain that ▯ is true (the truth of this proposition is not asserted by moicāi, however)", By: "fagri", Score: -1}, "moiche": Word{Word: "moiche", Def: "▯is a psychologist", By: "seaqtaq", Score: 0}, "moichiaiche": Word{Word: "moichiaiche", Def: "▯is a psychiatrist", By: "seaqtaq", Score: 0}, "moichīaidīu": Word{Word: "moichīaidīu", Def: "▯is psychiatry", By: "seaqtaq", Score: 0}, "moiciachiaq": Word{Word: "moiciachiaq", Def: "▯ intuits, has the intuition that ▯ is the case.", By: "uakci", Score: 0}, "moideoqkuq": Word{Word: "moideoqkuq", Def: "▯ says ▯ to ▯ telepathically.", By: "uakci", Score: 0}, "moidīu": Word{Word: "moidīu", Def: "▯is psychology", By: "seaqtaq", Score: 0}, "moige": Word{Word: "moige", Def: "▯ is an intellectual stimulus / really makes you think / is food for thought.", By: "lynn", Score: 0}, "moihua": Word{Word: "moihua", Def: "predicate: ‘brain’; ▯ is a brain.", By: "official", Score: 0}, "moijideo": Word{Word: "moijideo", Def: "▯ is a member of the order Mantodea (the mantises).", By: "Hoemai", Score: 0}, "moijoe": Word{Word: "moijoe", Def: "predicate: ‘clever’; ▯ is clever/smart/witty/intelligent.", By: "official", Score: 0}, "moikaq": Word{Word: "moikaq", Def: "▯is imaginary", By: "seaqtaq", Score: 0}, "moikuq": Word{Word: "moikuq", Def: "▯ thinks of saying ▯; ▯ says ▯ in their mind.", By: "uakci", Score: 1}, "moilao": Word{Word: "moilao", Def: "predicate: ‘hesitate’; ▯ hesitates.", By: "official", Score: 0}, "moiluq": Word{Word: "moiluq", Def: "▯ is thoughtful/meditative.", By: "Ilmen", Score: 0}, "moinieq": Word{Word: "moinieq", Def: "predicate: ‘stupid’; ▯ is dumb/stupid/unintelligent.", By: "official", Score: 0}, "moiruaq": Word{Word: "moiruaq", Def: "▯ asserts telephatically ▯ to ▯.", By: "Ilmen", Score: 0}, "moirue": Word{Word: "moirue", Def: "▯ is not sure of themself / feels uncertain", By: "fagri", Score: 0}, "moise": Word{Word: "moise", Def: "predicate: ‘thought’; ▯ is a thought.", By: "official", Score: 0}, "moisi": Word{Word: "moisi", Def: "predicate: ‘ponder’; ▯ ponders / concentrates mentally on ▯.", By: "official", Score: 0}, "moisia": Word{Word: "moisia", Def: "▯ meditates", By: "fagri", Score: 0}, "moiteoq": Word{Word: "moiteoq", Def: "problem", By: "spreadsheet", Score: 0}, "mojeo": Word{Word: "mojeo", Def: "▯ (piece of text) represents a sentence that is true", By: "fagri", Score: 0}, "mokuq": Word{Word: "mokuq", Def: "quote Ⓥ", By: "spreadsheet", Score: 0}, "molai": Word{Word: "molai", Def: "quotation mark (\" ' «)", By: "uakci", Score: 0}, "mole": Word{Word: "mole", Def: "▯ is one mole (measure unit).", By: "Ilmen", Score: 0}, "molekula": Word{Word: "molekula", Def: "molecule", By: "spreadsheet", Score: 0}, "momoi": Word{Word: "momoi", Def: "▯ says ▯ in his/her/their mind.", By: "Ilmen", Score: 0}, "monachu": Word{Word: "monachu", Def: "▯ is a monk.", By: "Ilmen", Score: 0}, "moni": Word{Word: "moni", Def: "moan", By: "spreadsheet", Score: -1}, "monu": Word{Word: "monu", Def: "▯ goes by the lines of the most recent #mo-quote.", By: "uakci", Score: 1}, "moq": Word{Word: "moq", Def: "illocution: ‘?’; interrogative illocution", By: "official", Score: 0}, "moqkuaq": Word{Word: "moqkuaq", Def: "▯ asks ▯ what satisfies the predicate ▯.", By: "Ilmen", Score: 0}, "moqlai": Word{Word: "moqlai", Def: "▯ is a question mark.", By: "lynn", Score: 2}, "moqsuta": Word{Word: "moqsuta", Def: "▯ is a monster", By: "seaqtaq", Score: 0}, "mora": Word{Word: "mora", Def: "mora", By: "spreadsheet", Score: 0}, "morai": Word{Word: "morai", Def: "▯ is a text.", By: "Ilmen", Score: 0}, "mori": Word{Word: "mori", Def: "horse", By: "spreadsheet", Score: -1}, "moruichuq": Word{Word: "moruichuq", Def: "▯ is a member of genus Myrmecophaga (the giant anteater).", By: "Hoemai", Score: 0}, "moruimei": Word{Word: "moruimei", Def: "▯ is a formicary/anthill.", By: "Hoemai", Score: 0}, "mosiu": Word{Word: "mosiu", Def: "(fork of #FE4jfH93T) ▯ goes by the lines of the most recent #mo-quote.", By: "seaqtaq", Score: 0}, "moteo": Word{Word: "moteo", Def: "▯ is a text.", By: "Ilmen", Score: 0}, "mu": Word{Word: "mu", Def: "[pó mí Hủaqchī ga mủı bı:] gủjēo dógū dóshī dósāq da", By: "uakci", Score: 0}, "mu boqbu": Word{Word: "mu boqbu", Def: "▯ isn't prevented by ▯. (= ▯ happens despite ▯.)", By: "lynn", Score: 0}, "mu cha": Word{Word: "mu cha", Def: "manner", By: "spreadsheet", Score: 0}, "mu choqdai": Word{Word: "mu choqdai", Def: "available", By: "spreadsheet", Score: 0}, "mu feu": Word{Word: "mu feu", Def: "annoyed", By: "spreadsheet", Score: -1}, "mu kaqgai ho.": Word{Word: "mu kaqgai ho.", Def: "phrase: \"They are being seen.\"", By: "official", Score: 0}, "mu miu": Word{Word: "mu miu", Def: "according to", By: "spreadsheet", Score: 0}, "mu rioq": Word{Word: "mu rioq", Def: "class (klesi)", By: "spreadsheet", Score: 0}, "mu ru jeao": Word{Word: "mu ru jeao", Def: "▯ and ▯ are in relation ▯, and vice versa.", By: "uakci", Score: 0}, "mu ruo": Word{Word: "mu ruo", Def: "behavior", By: "spreadsheet", Score: 0}, "mu she": Word{Word: "mu she", Def: "▯ is the case only if ▯ is the case; if ▯ is the case, then ▯ is the case; ▯ is a sufficient condition for ▯ to be the case.", By: "Ilmen", Score: 0}, "mu teoqcua": Word{Word: "mu teoqcua", Def: "answer", By: "spreadsheet", Score: 0}, "mua": Word{Word: "mua", Def: "predicate: ‘example’; ▯ is an example of ▯.", By: "official", Score: 0}, "mua kuqtoai mo pu beo suq kiaqreo teo da.": Word{Word: "mua kuqtoai mo pu beo suq kiaqreo teo da.", Def: "(A0570) \"You changed my mind\" is an examplr sentence.", By: "examples", Score: 0}, "muagiq": Word{Word: "muagiq", Def: "▯ is an exception to rule/property ▯", By: "seaqtaq", Score: 0}, "muagiqtao": Word{Word: "muagiqtao", Def: "▯ does ▯ as an exception; ▯ shows mercy in doing ▯; ▯ goes out of their way to do ▯.", By: "uakci", Score: 0}, "muai": Word{Word: "muai", Def: "predicate: ‘umami’; ▯ has an umami taste.", By: "official", Score: 0}, "muao": Word{Word: "muao", Def: "predicate: ‘tree’; ▯ is a tree.", By: "official", Score: 0}, "muaobe": Word{Word: "muaobe", Def: "sapling", By: "spreadsheet", Score: 0}, "muaogie": Word{Word: "muaogie", Def: "tree branch", By: "spreadsheet", Score: 0}, "muaogiekuoq": Word{Word: "muaogiekuoq", Def: "antler", By: "spreadsheet", Score: -1}, "muaogietuaq": Word{Word: "muaogietuaq", Def: "▯ is an antler.", By: "Ilmen", Score: 0}, "muaoguaq": Word{Word: "muaoguaq", Def: "predicate: ‘forest’; ▯ is a forest.", By: "official", Score: 0}, "muaokuoq": Word{Word: "muaokuoq", Def: "wood", By: "spreadsheet", Score: 0}, "muaome": Word{Word: "muaome", Def: "predicate: ‘forest’; ▯ is a forest.", By: "official", Score: 0}, "muaome rei buajio da.": Word{Word: "muaome rei buajio da.", Def: "(A0404) The house is surrounded by forest.", By: "examples", Score: 0}, "muaonui": Word{Word: "muaonui", Def: "shrub", By: "spreadsheet", Score: 0}, "muaopiu": Word{Word: "muaopiu", Def: "▯ is bark of a tree.", By: "lynn", Score: 2}, "muaosai": Word{Word: "muaosai", Def: "(fork of #Ip1S8wNr8) wood", By: "seaqtaq", Score: 1}, "muaose": Word{Word: "muaose", Def: "wood", By: "spreadsheet", Score: -1}, "muaotiehua": Word{Word: "muaotiehua", Def: "bark (of a tree)", By: "spreadsheet", Score: 0}, "muaotuaq": Word{Word: "muaotuaq", Def: "▯ is an antler.", By: "Ilmen", Score: 0}, "muaq": Word{Word: "muaq", Def: "= bu #mỉe", By: "uakci", Score: 0}, "muaqbue": Word{Word: "muaqbue", Def: "grave", By: "spreadsheet", Score: 0}, "muaqbueguaq": Word{Word: "muaqbueguaq", Def: "graveyard", By: "spreadsheet", Score: 0}, "muaqbueme": Word{Word: "muaqbueme", Def: "graveyard", By: "spreadsheet", Score: 0}, "muaqhaqtu": Word{Word: "muaqhaqtu", Def: "▯ is a ghost.", By: "Ilmen", Score: 0}, "muaqhoe": Word{Word: "muaqhoe", Def: "▯ is a stellar remnant (white dwarf, neutron star, black hole…).", By: "Ilmen", Score: 0}, "muaqjuo": Word{Word: "muaqjuo", Def: "▯ is a letter left behind by a person about to die (perhaps expressing their last will); ▯ is a testament/(last) will; ▯ is a death note/suicide note.", By: "uakci", Score: 1}, "muaqkao": Word{Word: "muaqkao", Def: "▯ is an obituary", By: "seaqtaq", Score: 0}, "muaqlua": Word{Word: "muaqlua", Def: "▯ is an obituary", By: "seaqtaq", Score: 0}, "muaqmeo": Word{Word: "muaqmeo", Def: "▯ mourns/grieves over the death of ▯.", By: "Hoemai", Score: 0}, "muaqpeojuo": Word{Word: "muaqpeojuo", Def: "▯ is a will; ▯ is a letter wilfully left behind by a dead person.", By: "uakci", Score: -2}, "muaqsho": Word{Word: "muaqsho", Def: "predicate: ‘die’; ▯ dies.", By: "official", Score: 0}, "muaqsho geo naqreq na, ru shue mie nio liqdeo.": Word{Word: "muaqsho geo naqreq na, ru shue mie nio liqdeo.", Def: "(SRP.7) The old man dies, the young girl lives.", By: "official", Score: 0}, "muaqsho tu hai koe tao ba.": Word{Word: "muaqsho tu hai koe tao ba.", Def: "(A0899) ", By: "examples", Score: 0}, "muaqtiai": Word{Word: "muaqtiai", Def: "▯ is a coffin", By: "seaqtaq", Score: 0}, "muaqtua": Word{Word: "muaqtua", Def: "predicate: ‘kill’; ▯ kills ▯.", By: "official", Score: 0}, "muaqtua naq sa nei soiche paigiq": Word{Word: "muaqtua naq sa nei soiche paigiq", Def: "(A0375) The man killed nine enemy soldiers.", By: "examples", Score: 0}, "muchoa": Word{Word: "muchoa", Def: "to moo", By: "uakci", Score: 0}, "mue": Word{Word: "mue", Def: "There is something such that it and ▯ are in relation ▯ (2); ▯ is [being] ▯-ed.", By: "uakci", Score: 0}, "mui": Word{Word: "mui", Def: "sa dó pỏq bı, rảo gâı dó dógū na môı ra mỉu dó dóshī da\u00a0", By: "uakci", Score: 0}, "mui go hoi toa sa gu da.": Word{Word: "mui go hoi toa sa gu da.", Def: "(A0489) That word has two meanings.", By: "examples", Score: 0}, "mui hi rai ni moq (kio niqchie ji ki)": Word{Word: "mui hi rai ni moq (kio niqchie ji ki)", Def: "(PAR.1) What does this mean? (I'm a beginner)", By: "official", Score: 0}, "mui hi rai shu ‹ sueta › moq.": Word{Word: "mui hi rai shu ‹ sueta › moq.", Def: "(A0488) What does \"sueta\" mean?", By: "examples", Score: 0}, "muibo": Word{Word: "muibo", Def: "symbol", By: "spreadsheet", Score: 0}, "muichuo": Word{Word: "muichuo", Def: "predicate: 'argument'; ◌ is an argument of predicate ◌ filling place number ◌ .", By: "lackafi", Score: 0}, "muicia": Word{Word: "muicia", Def: "▯ is asemic/meaningless (w/o negative connotation)", By: "seaqtaq", Score: 0}, "muidao": Word{Word: "muidao", Def: "▯ is a definition of ▯.", By: "Ilmen", Score: 0}, "muideoq": Word{Word: "muideoq", Def: "explain", By: "spreadsheet", Score: -1}, "muidiu": Word{Word: "muidiu", Def: "▯ is the field of Semantics", By: "seaqtaq", Score: 0}, "muidoa": Word{Word: "muidoa", Def: "▯ explains fact ▯ to ▯.", By: "uakci", Score: 0}, "muidua": Word{Word: "muidua", Def: "predicate: ‘understand’; ▯ understands the meaning of ▯.", By: "official", Score: 0}, "muidua ho bu po sa rai kuq ji hoa da.": Word{Word: "muidua ho bu po sa rai kuq ji hoa da.", Def: "(A0280) He doesn't understand anything that I say.", By: "examples", Score: 0}, "muidua ji bu.": Word{Word: "muidua ji bu.", Def: "(ADV.3) I don't understand.", By: "official", Score: 0}, "muidue": Word{Word: "muidue", Def: "▯ is semantically correct.", By: "lynn", Score: 2}, "muifuaq": Word{Word: "muifuaq", Def: "graph, diagram", By: "uakci", Score: 1}, "muigi": Word{Word: "muigi", Def: "▯ is positive in meaning; ▯ has positive connotations ▯.", By: "uakci", Score: 0}, "muihieq": Word{Word: "muihieq", Def: "▯ is a form of speech whose particular form includes, among others, repetition of form and already known facts which do not contribute to the statement the speaker aims to make, use of refined vocabulary which, despite this, contains many and a lot of synonyms and words with meaning similar to each other, and an abundance of appositive phrases – periphrastic expressions, too – reintroductions of the same idea cloaked in different words, and also interjecting sentences – do you see now? – and s-st-stuttering and, uhm, what was I saying?, hesitation, too, not to mention long lists; ▯ is verbose.", By: "uakci", Score: 1}, "muihui": Word{Word: "muihui", Def: "▯ is pejorative; ▯ carries negative connotations ▯.", By: "uakci", Score: 0}, "muijeq": Word{Word: "muijeq", Def: "▯ means the same thing as ▯.", By: "lynn", Score: 0}, "muijeqkuq": Word{Word: "muijeqkuq", Def: "▯ says something with the same meaning as ▯ to ▯.", By: "lynn", Score: 0}, "muijuq": Word{Word: "muijuq", Def: "understand", By: "spreadsheet", Score: 0}, "muikuq": Word{Word: "muikuq", Def: "explain", By: "spreadsheet", Score: 0}, "muilai": Word{Word: "muilai", Def: "▯ is an ideogram, ideograph, logogram.", By: "uakci", Score: 0}, "muilaime": Word{Word: "muilaime", Def: "▯ is a logographic writing system.", By: "uakci", Score: 0}, "muiliaq": Word{Word: "muiliaq", Def: "▯ is a synonym of ▯ ", By: "seaqtaq", Score: 1}, "muimiu": Word{Word: "muimiu", Def: "▯ thinks that ▯ is what ▯ means.", By: "uakci", Score: 0}, "muitiao": Word{Word: "muitiao", Def: "▯ (idea, plan, utterance) is coherent/sensible", By: "seaqtaq", Score: 0}, "muitoa": Word{Word: "muitoa", Def: "verb", By: "spreadsheet", Score: 0}, "muitoai": Word{Word: "muitoai", Def: "▯ is a sememe", By: "seaqtaq", Score: 0}, "muka": Word{Word: "muka", Def: "▯ is a musk deer.", By: "Ilmen", Score: 0}, "mumefaq": Word{Word: "mumefaq", Def: "▯ takes place in a non-continous way, as a bunch of disconnected chunks.", By: "Ilmen", Score: 0}, "muo": Word{Word: "muo", Def: "predicate: ‘whole’; ▯ is whole/complete in aspect ▯.", By: "official", Score: 0}, "muo gi": Word{Word: "muo gi", Def: "predicate: ‘perfect’; ▯ is perfect.", By: "official", Score: 0}, "muobushai": Word{Word: "muobushai", Def: "The event ▯ ceases to take place before reaching completion.", By: "Ilmen", Score: 0}, "muofaq": Word{Word: "muofaq", Def: "co'i", By: "spreadsheet", Score: 0}, "muoi": Word{Word: "muoi", Def: "predicate: ‘rotate’; ▯ rotates/spins/turns.", By: "official", Score: 0}, "muoi ho kui pua jai ru ca jeaq poho *kashi li gea ru nea da.": Word{Word: "muoi ho kui pua jai ru ca jeaq poho *kashi li gea ru nea da.", Def: "(A0993) ", By: "examples", Score: 0}, "muoiduo": Word{Word: "muoiduo", Def: "roll (gunro)", By: "spreadsheet", Score: 0}, "muoimuo": Word{Word: "muoimuo", Def: "▯ undergoes a complete rotation (one turn, 360°).", By: "Ilmen", Score: 0}, "muoine": Word{Word: "muoine", Def: "▯ is the number of turns spun by rotating object ▯.", By: "Ilmen", Score: 0}, "muoipoechuo": Word{Word: "muoipoechuo", Def: "▯ is a screw.", By: "Ilmen", Score: 0}, "muoiriai": Word{Word: "muoiriai", Def: "▯ is an axle.", By: "Ilmen", Score: 0}, "muoishoai": Word{Word: "muoishoai", Def: "▯ is a (bladed) propeller/screw (for boats/aircrafts).", By: "Ilmen", Score: 0}, "muoishoaichao": Word{Word: "muoishoaichao", Def: "▯ is a helicopter.", By: "Ilmen", Score: 0}, "muomie": Word{Word: "muomie", Def: "▯ is a living being/organism.", By: "Ilmen", Score: 0}, "muopaq": Word{Word: "muopaq", Def: "(fork of #mSjWmJDoN) ▯ is a whole/entirety", By: "seaqtaq", Score: 0}, "muoq": Word{Word: "muoq", Def: "pảq dóshī sa tóaı lủ rỉoq hóa dógū da", By: "uakci", Score: 0}, "muoq maq baq shia da.": Word{Word: "muoq maq baq shia da.", Def: "(A0050) It's made of glass.", By: "examples", Score: 0}, "muoq ni chuai noai roi keaq duaoboe da.": Word{Word: "muoq ni chuai noai roi keaq duaoboe da.", Def: "(A0968) This is made of frozen milk and salty cookies.", By: "examples", Score: 0}, "muoqfiu": Word{Word: "muoqfiu", Def: "▯ is sparse.", By: "uakci", Score: 0}, "muoqjaq": Word{Word: "muoqjaq", Def: "▯ is massive.", By: "Ilmen", Score: 0}, "muoqmu": Word{Word: "muoqmu", Def: "matter", By: "spreadsheet", Score: 0}, "muoqne": Word{Word: "muoqne", Def: "mass (physics)", By: "spreadsheet", Score: 0}, "muoqpui": Word{Word: "muoqpui", Def: "▯ is heterogenous.", By: "uakci", Score: 0}, "muoqpuq": Word{Word: "muoqpuq", Def: "#muoqpui", By: "uakci", Score: 0}, "muoqrieqsoa": Word{Word: "muoqrieqsoa", Def: "rescue", By: "spreadsheet", Score: 0}, "muoqshi": Word{Word: "muoqshi", Def: "▯ is homogenous.", By: "uakci", Score: 0}, "muoqshoa": Word{Word: "muoqshoa", Def: "▯ is dense.", By: "uakci", Score: 0}, "muoqtoai": Word{Word: "muoqtoai", Def: "▯ is an atom.", By: "uakci", Score: 0}, "muoqtuao": Word{Word: "muoqtuao", Def: "▯ has a small mass.", By: "Ilmen", Score: 0}, "muoseu": Word{Word: "muoseu", Def: "▯ is an integer/natural number.", By: "Ilmen", Score: 0}, "muotua": Word{Word: "muotua", Def: "predicate: ‘mend’; ▯ mends ▯; ▯ makes ▯ whole; ▯ completes ▯.", By: "official", Score: 0}, "muq": Word{Word: "muq", Def: "hủa dóshī, na ru chủo dóshī lî jỉaı da", By: "uakci", Score: 0}, "muqcea": Word{Word: "muqcea", Def: "predicate: ‘handbag’; ▯ is a handbag.", By: "official", Score: 0}, "muqchei": Word{Word: "muqchei", Def: "predicate: ‘finger’; ▯ is a finger.", By: "official", Score: 0}, "muqcheibea": Word{Word: "muqcheibea", Def: "▯ is a knuckle (finger joint).", By: "Ilmen", Score: 0}, "muqdapa": Word{Word: "muqdapa", Def: "▯ is a hand palm.", By: "Ilmen", Score: 0}, "muqdea": Word{Word: "muqdea", Def: "predicate: ‘punch’; ▯ punches ▯.", By: "official", Score: 0}, "muqdoa": Word{Word: "muqdoa", Def: "▯ hands ▯ to ▯ (gives it by putting it in their hand(s)).", By: "lynn", Score: 0}, "muqdoa suq cu ji ba.": Word{Word: "muqdoa suq cu ji ba.", Def: "(A0465) Hand (it) to me.", By: "examples", Score: 0}, "muqdoa suq cu ji sa shiabio saheq nao ba.": Word{Word: "muqdoa suq cu ji sa shiabio saheq nao ba.", Def: "(A0343)  me a glass of water.", By: "examples", Score: 0}, "muqfuq": Word{Word: "muqfuq", Def: "predicate: ‘glove’; ▯ is a glove.", By: "official", Score: 0}, "muqgiu": Word{Word: "muqgiu", Def: "▯ is a natural line on the skin of a person's hand", By: "fagri", Score: 0}, "muqhie": Word{Word: "muqhie", Def: "▯ carries ▯ with their hand(s).", By: "Ilmen", Score: 0}, "muqhio": Word{Word: "muqhio", Def: "▯ waves hello/goodbye at ▯.", By: "lynn", Score: 0}, "muqjeibea": Word{Word: "muqjeibea", Def: "predicate: ‘knuckle’; ▯ is a knuckle.", By: "official", Score: 0}, "muqjīai": Word{Word: "muqjīai", Def: "▯holds hands with▯", By: "seaqtaq", Score: 0}, "muqjoe": Word{Word: "muqjoe", Def: "dexterous", By: "uakci", Score: 0}, "muqkai": Word{Word: "muqkai", Def: "▯ handwrites ▯.", By: "Ilmen", Score: 1}, "muqnua": Word{Word: "muqnua", Def: "▯ grabs/takes by hand ▯ from ▯.", By: "lynn", Score: 0}, "muqse": Word{Word: "muqse", Def: "▯ is a handprint", By: "seaqtaq", Score: 0}, "muqseaq": Word{Word: "muqseaq", Def: "▯ fists ▯", By: "seaqtaq", Score: 0}, "muqshoai": Word{Word: "muqshoai", Def: "▯ is a member of the order Chiroptera (the bats).", By: "Hoemai", Score: 0}, "muqtoq": Word{Word: "muqtoq", Def: "▯ is the palm of a hand.", By: "uakci", Score: 0}, "musasabi": Word{Word: "musasabi", Def: "▯ is a Japanese giant flying squirrel (species: Petaurista leucogenys).", By: "uakci", Score: 0}, "muse": Word{Word: "muse", Def: "mouse", By: "spreadsheet", Score: 0}, "musekea": Word{Word: "musekea", Def: "▯ is a computer mouse.", By: "Ilmen", Score: 0}, "musela": Word{Word: "musela", Def: "▯ is a weasel (Mustela taxonomic genus).", By: "Ilmen", Score: 0}, "muselasiu": Word{Word: "muselasiu", Def: "▯ belongs to the Mustelidae taxonomic family.", By: "Ilmen", Score: 0}, "musenui": Word{Word: "musenui", Def: "▯ is a house mouse.", By: "Ilmen", Score: 0}, "m̄": Word{Word: "m̄", Def: "hesitation", By: "uakci", Score: 0}, "na": Word{Word: "na", Def: "terminator: ‘END’; terminate statement", By: "official", Score: 0}, "nabe": Word{Word: "nabe", Def: "▯ is a wave (moving disturbance).", By: "Ilmen", Score: 0}, "nabeho": Word{Word: "nabeho", Def: "▯ pertains to the Navajo/Diné culture.", By: "Ilmen", Score: 0}, "nadeq": Word{Word: "nadeq", Def: "▯ is an adder; ▯ is a nadder.", By: "uakci", Score: 0}, "naga": Word{Word: "naga", Def: "▯ is a member of genus Naja (the cobras).", By: "Hoemai", Score: 0}, "nahi": Word{Word: "nahi", Def: "▯ is neither the case nor not the case; ▯ neither satisfies nor not satisfies property ▯.", By: "uakci", Score: 0}, "nai": Word{Word: "nai", Def: "rảo dóshī kûq jí ní da", By: "uakci", Score: 0}, "nai fa ji sa jao": Word{Word: "nai fa ji sa jao", Def: "(B0050) Now I am going away", By: "examples", Score: 0}, "nai hi rai moq.": Word{Word: "nai hi rai moq.", Def: "(A0167) What is happening?", By: "examples", Score: 0}, "nai sho muo tua dua ji suq tu lu dua ji hoa po poq geo da. ": Word{Word: "nai sho muo tua dua ji suq tu lu dua ji hoa po poq geo da. ", Def: "(A0980) Now I have told you all I know about the person.", By: "examples", Score: 0}, "naichaq": Word{Word: "naichaq", Def: "today", By: "uakci", Score: 0}, "naife": Word{Word: "naife", Def: "▯ is naïve.", By: "uakci", Score: 0}, "naijui": Word{Word: "naijui", Def: "jủı rảo dóshī sa náı da", By: "uakci", Score: 0}, "naipu": Word{Word: "naipu", Def: "▯ just happened; ▯ just satisfied property ▯", By: "fagri", Score: 0}, "nali": Word{Word: "nali", Def: "back (body part)", By: "spreadsheet", Score: 0}, "namako": Word{Word: "namako", Def: "▯ is something extra / seasoning / an embellishment / accessory in/on ▯.", By: "lynn", Score: 0}, "nanasa": Word{Word: "nanasa", Def: "▯ is a member of genus Ananas (the pineapple and similar plants).", By: "Hoemai", Score: 0}, "nane": Word{Word: "nane", Def: "most (more than half)", By: "spreadsheet", Score: 0}, "nani": Word{Word: "nani", Def: "▯ exclames in suprise, fright, or frustration", By: "seaqtaq", Score: 0}, "nanidafa": Word{Word: "nanidafa", Def: "(fork of #736TGHimz) ▯ exclames in suprise, fright, or frustration", By: "seaqtaq", Score: 1}, "nano": Word{Word: "nano", Def: "mean, average", By: "spreadsheet", Score: -1}, "nao": Word{Word: "nao", Def: "predicate: ‘water’; ▯ is water.", By: "official", Score: 0}, "naobeq": Word{Word: "naobeq", Def: "▯ is a wave (at the surface of a liquid).", By: "Ilmen", Score: 0}, "naobuaq(moe)": Word{Word: "naobuaq(moe)", Def: "(fork of #zh_7vMEmt) ▯ feels as if they are repeatedly taking water in their hands, only to watch it consistently fall out (a specific type of frustration)\u00a0", By: "seaqtaq", Score: 0}, "naocheoq": Word{Word: "naocheoq", Def: "▯ is a water bottle", By: "fagri", Score: 0}, "naochiohuaimoe": Word{Word: "naochiohuaimoe", Def: "▯ feels as if they are repeatedly taking water in their hands, only to watch it consistently fall out (a specific type of frustration)\u00a0", By: "seaqtaq", Score: 0}, "naoduo": Word{Word: "naoduo", Def: "flow", By: "spreadsheet", Score: 0}, "naofa": Word{Word: "naofa", Def: "swim", By: "spreadsheet", Score: 0}, "naogoaq": Word{Word: "naogoaq", Def: "▯ is slippery", By: "seaqtaq", Score: 0}, "naoguaq": Word{Word: "naoguaq", Def: "predicate: ‘island’; ▯ is an island.", By: "official", Score: 0}, "naohaq": Word{Word: "naohaq", Def: "▯ is soup.", By: "Ilmen", Score: 0}, "naojeoq": Word{Word: "naojeoq", Def: "▯ is a well", By: "seaqtaq", Score: 0}, "naokua": Word{Word: "naokua", Def: "predicate: ‘bathroom’; ▯ is a bathroom.", By: "official", Score: 0}, "naoloha": Word{Word: "naoloha", Def: "▯ is mercury", By: "seaqtaq", Score: 1}, "naoloqchuo": Word{Word: "naoloqchuo", Def: "▯ is a kettle.", By: "uakci", Score: 0}, "naomiq": Word{Word: "naomiq", Def: "sea", By: "spreadsheet", Score: -1}, "naomiqrea": Word{Word: "naomiqrea", Def: "coast", By: "spreadsheet", Score: -1}, "naoneo": Word{Word: "naoneo", Def: "▯ floats.", By: "Ilmen", Score: 0}, "naoniai": Word{Word: "naoniai", Def: "predicate: ‘aquatic.life’; ▯ is an aquatic life form.", By: "official", Score: 0}, "naonie": Word{Word: "naonie", Def: "▯ is immersed.", By: "Ilmen", Score: 0}, "naoniu": Word{Word: "naoniu", Def: "▯ is an alga/seaweed.", By: "Ilmen", Score: 0}, "naonuli": Word{Word: "naonuli", Def: "oil", By: "spreadsheet", Score: 0}, "naosai": Word{Word: "naosai", Def: "▯ is liquid.", By: "lynn", Score: 1}, "naosho": Word{Word: "naosho", Def: "▯ melts/liquefies.", By: "Ilmen", Score: 0}, "naoshoai": Word{Word: "naoshoai", Def: "▯ is a fin (body part).", By: "Ilmen", Score: 0}, "naoshua": Word{Word: "naoshua", Def: "▯ sinks.", By: "Ilmen", Score: 0}, "naoshuo": Word{Word: "naoshuo", Def: "▯ is a water reservoir.", By: "lynn", Score: 0}, "naosiao": Word{Word: "naosiao", Def: "▯ is a water spring.", By: "Ilmen", Score: 0}, "naosiqtua": Word{Word: "naosiqtua", Def: "▯ washes ▯.", By: "Ilmen", Score: 0}, "naosiu": Word{Word: "naosiu", Def: "▯ is liquid", By: "fagri", Score: 0}, "naosiusho": Word{Word: "naosiusho", Def: "melt", By: "spreadsheet", Score: 0}, "naosuhu": Word{Word: "naosuhu", Def: "capybara", By: "spreadsheet", Score: 0}, "naoti": Word{Word: "naoti", Def: "▯ is at least partly immersed (in ▯).", By: "Ilmen", Score: 0}, "naq": Word{Word: "naq", Def: "jủı rủo dóshī sa báq lủ pảq go hóa sa pésō da", By: "uakci", Score: 0}, "naq baka": Word{Word: "naq baka", Def: "▯ is a bull", By: "seaqtaq", Score: 0}, "naq boke": Word{Word: "naq boke", Def: "(fork of #h622eAidK) ▯ is a bull", By: "seaqtaq", Score: 0}, "naq heaq hoa toechuo pa choidea sa puq poq naipu da.": Word{Word: "naq heaq hoa toechuo pa choidea sa puq poq naipu da.", Def: "(A0997) As for the man carrying the knife, he just stabbed the people.", By: "examples", Score: 0}, "naqdeo": Word{Word: "naqdeo", Def: "predicate: ‘boy’; ▯ is a boy.", By: "official", Score: 0}, "naqdeo soq koaq bi choakuq poi hiaodaisi": Word{Word: "naqdeo soq koaq bi choakuq poi hiaodaisi", Def: "(B0031) The oldest boy spoke carefully", By: "examples", Score: 0}, "naqfu": Word{Word: "naqfu", Def: "predicate: ‘son’; ▯ is a son (male biological offspring) of ▯.", By: "official", Score: 0}, "naqfu sa diai ji da.": Word{Word: "naqfu sa diai ji da.", Def: "(A0737) I have seven sons.", By: "examples", Score: 0}, "naqgame": Word{Word: "naqgame", Def: "spermatozoid", By: "spreadsheet", Score: -1}, "naqgoso": Word{Word: "naqgoso", Def: "▯ is a rooster/cock of genus Gallus; ▯ is a male chicken.", By: "Hoemai", Score: 0}, "naqliq": Word{Word: "naqliq", Def: "▯ is both male and female or neither male nor female.", By: "uakci", Score: 0}, "naqpao": Word{Word: "naqpao", Def: "predicate: ‘father’; ▯ is a father of ▯; acts as a father towards ▯.", By: "official", Score: 0}, "naqpaoguqkiaq": Word{Word: "naqpaoguqkiaq", Def: "▯ is candy floss / cotton candy.", By: "uakci", Score: 0}, "naqpia": Word{Word: "naqpia", Def: "predicate: ‘brother’; ▯ is a brother of ▯.", By: "official", Score: 0}, "naqreq": Word{Word: "naqreq", Def: "predicate: ‘man’; ▯ is a male human; ▯ is a man.", By: "official", Score: 0}, "naqroaq": Word{Word: "naqroaq", Def: "predicate: ‘father’; ▯ is a biological father of ▯.", By: "official", Score: 0}, "naqroiliq": Word{Word: "naqroiliq", Def: "▯ is non-binary.", By: "uakci", Score: 0}, "naqseaqnao": Word{Word: "naqseaqnao", Def: "▯ is cum/semen/ejaculate", By: "fagri", Score: 0}, "naqseo": Word{Word: "naqseo", Def: "predicate: ‘husband’; ▯ is a husband of ▯.", By: "official", Score: 0}, "naqsiuliq": Word{Word: "naqsiuliq", Def: "▯ is a butch, a male-seeming female.", By: "uakci", Score: 0}, "naraq": Word{Word: "naraq", Def: "predicate: ‘orange’; ▯ is the colour orange.", By: "official", Score: 0}, "naraqchaq": Word{Word: "naraqchaq", Def: "predicate: ‘tuesday’; ▯ is a Tuesday.", By: "official", Score: 0}, "naraqreo": Word{Word: "naraqreo", Def: "predicate: ‘orange’; ▯ is of orange colour.", By: "official", Score: 0}, "nasa": Word{Word: "nasa", Def: "fenki", By: "spreadsheet", Score: 0}, "ne": Word{Word: "ne", Def: "tẻoqtīao dóshī tıo jâq dógū lî jẻo ja dó da", By: "uakci", Score: 0}, "nea": Word{Word: "nea", Def: "predicate: ‘wide’; ▯ is wide/broad.", By: "official", Score: 0}, "neagiq": Word{Word: "neagiq", Def: "narrow", By: "spreadsheet", Score: 0}, "neaq": Word{Word: "neaq", Def: "predicate: ‘sand’; ▯ is sand.", By: "official", Score: 0}, "neaqguaq": Word{Word: "neaqguaq", Def: "desert", By: "spreadsheet", Score: 0}, "neaqmei": Word{Word: "neaqmei", Def: "▯ is a sandhill.", By: "Ilmen", Score: 0}, "neaqpio": Word{Word: "neaqpio", Def: "▯ is sandstone", By: "seaqtaq", Score: 0}, "neaqrea": Word{Word: "neaqrea", Def: "▯ is a beach.", By: "Xeizzen", Score: 0}, "nebo": Word{Word: "nebo", Def: "the amount that ▯ is the case is ▯.", By: "Ilmen", Score: 0}, "nechu": Word{Word: "nechu", Def: "no'e", By: "spreadsheet", Score: 0}, "nedelaq": Word{Word: "nedelaq", Def: "▯ is Dutch / is of the Netherlands, its languages or people.", By: "lynn", Score: 0}, "nedelaqgua": Word{Word: "nedelaqgua", Def: "▯ is the Netherlands.", By: "lynn", Score: 0}, "nedelaqtoaq": Word{Word: "nedelaqtoaq", Def: "▯ is the Dutch language.", By: "lynn", Score: 0}, "nefuaq": Word{Word: "nefuaq", Def: "chart", By: "uakci", Score: 1}, "nego": Word{Word: "nego", Def: "the amount that ▯ is the case is ▯.", By: "Ilmen", Score: 0}, "nehuaq": Word{Word: "nehuaq", Def: "▯ is more the case than ▯ is the case.", By: "Ilmen", Score: 0}, "nei": Word{Word: "nei", Def: "isn't it?, consensus-seeking particle", By: "spreadsheet", Score: 0}, "neijue": Word{Word: "neijue", Def: "▯ is September", By: "lynn", Score: 1}, "neiko": Word{Word: "neiko", Def: "predicate: ‘ninth’; ▯ is ninth among ▯.", By: "official", Score: 0}, "neini": Word{Word: "neini", Def: "energy", By: "spreadsheet", Score: 0}, "nejeq": Word{Word: "nejeq", Def: "▯ and ▯ have the property ▯ to the same degree/extent; ▯ and ▯ are equal in their degree in satisfying property ▯.", By: "Ilmen", Score: 0}, "nemu": Word{Word: "nemu", Def: "the amount that ▯ is the case is ▯.", By: "Ilmen", Score: 0}, "nene": Word{Word: "nene", Def: "▯ is true in amount ▯", By: "fagri", Score: 0}, "neo": Word{Word: "neo", Def: "predicate: ‘on’; ▯ is on ▯.", By: "official", Score: 0}, "neo kue deaq guq toqfua da.": Word{Word: "neo kue deaq guq toqfua da.", Def: "(A0077) The book is on the floor underneath the table.", By: "examples", Score: 0}, "neo kue toqfua da.": Word{Word: "neo kue toqfua da.", Def: "(A0322) The book is on the table.", By: "examples", Score: 0}, "neo pui shiapoaqse ni koitieq da.": Word{Word: "neo pui shiapoaqse ni koitieq da.", Def: "(A0969) Many pieces of broken glass are on this walking way.", By: "examples", Score: 0}, "neo puqho sa sao nuofua da.": Word{Word: "neo puqho sa sao nuofua da.", Def: "(A0307) They are on a big bed.", By: "examples", Score: 0}, "neo sa pui chao ni chaotieq da.": Word{Word: "neo sa pui chao ni chaotieq da.", Def: "(A0702) There are many cars on this road.", By: "examples", Score: 0}, "neo toqfua": Word{Word: "neo toqfua", Def: "(FRG.1) on the table", By: "official", Score: 0}, "neoq": Word{Word: "neoq", Def: "predicate: ‘mr/mrs’; ▯ is a Mr./Mrs./Ms./Miss.", By: "official", Score: 0}, "neoq suq": Word{Word: "neoq suq", Def: "▯ is you (polite pronoun).", By: "Ilmen", Score: 0}, "neoqsoq": Word{Word: "neoqsoq", Def: "▯ is His/Her/Their Highness/Majesty.", By: "Ilmen", Score: 0}, "neq": Word{Word: "neq", Def: "kủı dóshī sa lú to ru rảq hóa dógū to bủ dảı dûa sa ráı sa ráı lỉ sa dó bı jẻı jêonē dó hóa na ja ráı da", By: "uakci", Score: 0}, "neqcitoq": Word{Word: "neqcitoq", Def: "▯ is a die/dice.", By: "Ilmen", Score: 1}, "neqdoa": Word{Word: "neqdoa", Def: "▯ wishes (to person) ▯ that ▯ happens.", By: "uakci", Score: 0}, "neqfao": Word{Word: "neqfao", Def: "fate", By: "spreadsheet", Score: 0}, "neqfaq": Word{Word: "neqfaq", Def: "▯ happens randomly / unpredictably.", By: "lynn", Score: 0}, "neqjoi": Word{Word: "neqjoi", Def: "▯ is coincidental to ▯(and ▯ and ▯ and ▯...)", By: "seaqtaq", Score: 0}, "neqkui": Word{Word: "neqkui", Def: "▯ is random; ▯ depends on random event ▯; ▯ is a stochastic process of stochastic variable(s) ▯.", By: "uakci", Score: 0}, "neqnieq": Word{Word: "neqnieq", Def: "▯ is bad at ▯, which is fatal for them; ▯ has tragic weak spot (Achilles hill) ▯.", By: "uakci", Score: 0}, "nerea": Word{Word: "nerea", Def: "▯(amount) is the the capacity of ▯(c)", By: "seaqtaq", Score: 0}, "nerie": Word{Word: "nerie", Def: "no'e", By: "spreadsheet", Score: 0}, "nesie": Word{Word: "nesie", Def: "Sequence ▯ is sorted by property ▯; an element in sequence ▯ comes earlier if it scores higher on scale ▯.", By: "uakci", Score: 0}, "netoame": Word{Word: "netoame", Def: "▯ is a linguistic system for describing amounts (e.g. weights, lengths, times, etc)", By: "fagri", Score: 0}, "neu": Word{Word: "neu", Def: "tu dójēq pěı dógū hóa na tu dóhēo pěı dósāq hóa bı, pẻı dóshī tu lú tu dó bı jẻojēq mêa dó hóa na mêa dó dójēq ra dóhēo ceı jèojēq mêa sıa ráı dójēq ru dóhēo da", By: "uakci", Score: 0}, "neu go": Word{Word: "neu go", Def: "▯ = ▯ − ▯.", By: "Ilmen", Score: 0}, "ni": Word{Word: "ni", Def: "gảıkīu dóshī, na ru lủ pủjūı cẻo rảqkūq jí hóa na dóshī da.", By: "uakci", Score: 0}, "ni bỉo pa, pojī ri posuq moq.": Word{Word: "ni bỉo pa, pojī ri posuq moq.", Def: "(A0407) This cup, is it mine or yours?", By: "examples", Score: 0}, "ni kaqhua pa mioreo da.": Word{Word: "ni kaqhua pa mioreo da.", Def: "(A0200) This eye is blue.", By: "examples", Score: 0}, "ni liqdeo bi ruaq ho lu fu ho suq da.": Word{Word: "ni liqdeo bi ruaq ho lu fu ho suq da.", Def: "(A0302) This girl said she was your daughter.", By: "examples", Score: 0}, "ni niai pa bua ti ti baq niao da.": Word{Word: "ni niai pa bua ti ti baq niao da.", Def: "(A0318) This animal lives where there is snow.", By: "examples", Score: 0}, "ni pa mea lu pai hoa ji da.": Word{Word: "ni pa mea lu pai hoa ji da.", Def: "(A0291) This is one of my friends.", By: "examples", Score: 0}, "ni saq jeatoai bi sue teq cu neifueneiheinei ka.": Word{Word: "ni saq jeatoai bi sue teq cu neifueneiheinei ka.", Def: "(A0999) As for these 3 transactions, there was promise of paying the 999 (dollars).", By: "examples", Score: 0}, "nia": Word{Word: "nia", Def: "predicate: ‘low’; ▯ is low.", By: "official", Score: 0}, "niai": Word{Word: "niai", Def: "predicate: ‘animal’; ▯ is an animal.", By: "official", Score: 0}, "niaichita": Word{Word: "niaichita", Def: "▯ is an animal-tag (used by a pet's caregiver to mark the pet in case it gets lost)", By: "fagri", Score: -1}, "niaidiu": Word{Word: "niaidiu", Def: "biology", By: "spreadsheet", Score: -1}, "niaidīu": Word{Word: "niaidīu", Def: "▯ is zoology.", By: "lynn", Score: 1}, "niaihaq": Word{Word: "niaihaq", Def: "meat", By: "spreadsheet", Score: 0}, "niaise": Word{Word: "niaise", Def: "▯ is an animal product.", By: "lynn", Score: 1}, "niaisechuqbu": Word{Word: "niaisechuqbu", Def: "▯ is a vegan", By: "fagri", Score: 0}, "niaiserieq": Word{Word: "niaiserieq", Def: "▯ is a vegan.", By: "lynn", Score: 1}, "niaiserieqchuaq": Word{Word: "niaiserieqchuaq", Def: "▯ is veganism.", By: "lynn", Score: 0}, "niaisoaq": Word{Word: "niaisoaq", Def: "▯ is a zoo/zoological garden.", By: "Hoemai", Score: 0}, "nianua": Word{Word: "nianua", Def: "(fork of official) predicate: ‘lower’; ▯ lowers ▯ down.", By: "seaqtaq", Score: 0}, "niao": Word{Word: "niao", Def: "predicate: ‘snow’; ▯ is snow.", By: "official", Score: 0}, "niao(neo)koi": Word{Word: "niao(neo)koi", Def: "▯ skiis (on snow)", By: "seaqtaq", Score: 0}, "niaoshua": Word{Word: "niaoshua", Def: "predicate: ‘snow’; It snows; ▯ snows; ▯ snows onto ▯.", By: "official", Score: 0}, "niaoshua.": Word{Word: "niaoshua.", Def: "phrase: \"It's snowing.\"", By: "official", Score: 0}, "niaq": Word{Word: "niaq", Def: "predicate: ‘year’; ▯ is a year.", By: "official", Score: 0}, "niaqchaq": Word{Word: "niaqchaq", Def: "(fork of #UbHqsxIBR) ▯ is the anniversary of ▯\u00a0", By: "seaqtaq", Score: 0}, "niaqchui": Word{Word: "niaqchui", Def: "▯ takes place early in the year.", By: "Ilmen", Score: 0}, "niaqdiaq": Word{Word: "niaqdiaq", Def: "predicate: ‘annual’; ▯ is annual.", By: "official", Score: 0}, "niaqfue": Word{Word: "niaqfue", Def: "century", By: "spreadsheet", Score: 0}, "niaqgu": Word{Word: "niaqgu", Def: "▯ is a two-year period.", By: "lynn", Score: 0}, "niaqhei": Word{Word: "niaqhei", Def: "decade", By: "spreadsheet", Score: 0}, "niaqko": Word{Word: "niaqko", Def: "▯ is the year number ▯ in calendar system ▯.", By: "Ilmen", Score: 0}, "niaqne": Word{Word: "niaqne", Def: "▯ is the duration of a year (multiplied by ▯).", By: "Ilmen", Score: -1}, "niaqreoq": Word{Word: "niaqreoq", Def: "▯ takes place late in the year.", By: "Ilmen", Score: 0}, "niashiaq": Word{Word: "niashiaq", Def: "▯ is a lower leg; ▯ is a calf.", By: "uakci", Score: 0}, "nichaq": Word{Word: "nichaq", Def: "predicate: ‘today’; ▯ is today.", By: "official", Score: 0}, "nichaq bi ...": Word{Word: "nichaq bi ...", Def: "(FRG.2) about today ...", By: "official", Score: 0}, "nichaq bi bu daqshei ji.": Word{Word: "nichaq bi bu daqshei ji.", Def: "(PRX.2) As for today, I don't have time.", By: "official", Score: 0}, "nidaq": Word{Word: "nidaq", Def: "predicate: ‘now’; ▯ is the now.", By: "official", Score: 0}, "nidaqriaq": Word{Word: "nidaqriaq", Def: "here and now", By: "spreadsheet", Score: 0}, "nidaqtiao": Word{Word: "nidaqtiao", Def: "modern", By: "spreadsheet", Score: 0}, "nie": Word{Word: "nie", Def: "predicate: ‘inside’; ▯ is inside ▯.", By: "official", Score: 0}, "nie kamera poji cea da.": Word{Word: "nie kamera poji cea da.", Def: "(A0533) The camera is in my bag.", By: "examples", Score: 0}, "nie ni heqchuo naoti bi taq naosiqtua bu ba.": Word{Word: "nie ni heqchuo naoti bi taq naosiqtua bu ba.", Def: "(A0990) In this submerged container, do not bath yourself.", By: "examples", Score: 0}, "nie sa heijo poq kua.": Word{Word: "nie sa heijo poq kua.", Def: "(NUM.2) There are fourteen people inside the room.", By: "official", Score: 0}, "nie sa poq naokua da.": Word{Word: "nie sa poq naokua da.", Def: "(A0303) Someone is in the bathroom.", By: "examples", Score: 0}, "niefa": Word{Word: "niefa", Def: "predicate: ‘enter’; ▯ enters / goes inside ▯.", By: "official", Score: 0}, "niefa suq nijao kua ba.": Word{Word: "niefa suq nijao kua ba.", Def: "(A0232) You ought to go inside that room.", By: "examples", Score: 0}, "niehua": Word{Word: "niehua", Def: "inner organs", By: "spreadsheet", Score: 0}, "nienua": Word{Word: "nienua", Def: "▯ empties ▯.", By: "Ilmen", Score: 0}, "nieq": Word{Word: "nieq", Def: "predicate: ‘unskilled’; ▯ is unskilled at satisfying property ▯.", By: "official", Score: 0}, "nieq moaq ji da.": Word{Word: "nieq moaq ji da.", Def: "(A0109) I have a bad memory.", By: "examples", Score: 0}, "nieshua": Word{Word: "nieshua", Def: "predicate: ‘fall.in’; ▯ falls into ▯.", By: "official", Score: 0}, "nietua": Word{Word: "nietua", Def: "predicate: ‘insert’; ▯ puts ▯ inside ▯.", By: "official", Score: 0}, "nifami": Word{Word: "nifami", Def: "▯ NVM’s; ▯ never minds ▯; ▯ stops caring about topic ▯ per interlocutor’s request.", By: "uakci", Score: 0}, "nigu": Word{Word: "nigu", Def: "▯ knits ▯.", By: "Ilmen", Score: 0}, "niguaq": Word{Word: "niguaq", Def: "▯ is the planet Earth…", By: "uakci", Score: 0}, "nihao": Word{Word: "nihao", Def: "▯ affectatiously greets ▯.", By: "uakci", Score: 0}, "nihoe": Word{Word: "nihoe", Def: "▯ is our sun (any star regularly bringing light and warmth to the place where the speaker is at the time of utterance; the star(s) the speaker is currently orbiting).", By: "Ilmen", Score: 1}, "nihoq": Word{Word: "nihoq", Def: "▯ pertains to the culture of Japan.", By: "countries", Score: 0}, "nihoqgua": Word{Word: "nihoqgua", Def: "▯ is the country Japan.", By: "countries", Score: 0}, "nihoqtoaq": Word{Word: "nihoqtoaq", Def: "▯ is (one of) the language(s) spoken in Japan.", By: "countries", Score: 0}, "nijao": Word{Word: "nijao", Def: "predicate: ‘far.away’; ▯ is that far away thing.", By: "official", Score: 0}, "nijiaq": Word{Word: "nijiaq", Def: "▯ is the real world.", By: "Ilmen", Score: 0}, "nijui": Word{Word: "nijui", Def: "predicate: ‘nearby’; ▯ is this nearby thing.", By: "official", Score: 0}, "nili": Word{Word: "nili", Def: "logically entail, nibli", By: "spreadsheet", Score: 0}, "nimaq": Word{Word: "nimaq", Def: "Demonstrative \"it\"", By: "spreadsheet", Score: 0}, "nimiao": Word{Word: "nimiao", Def: "▯ is/are the moon(s) orbiting the place where the speaker is at the time of utterance.", By: "Ilmen", Score: 1}, "ninuaq": Word{Word: "ninuaq", Def: "predicate: ‘tonight’; ▯ is tonight.", By: "official", Score: 0}, "nio": Word{Word: "nio", Def: "pẻa cêo jỉq dóshī na sa náıjūı da", By: "uakci", Score: 0}, "nioboke": Word{Word: "nioboke", Def: "calf", By: "spreadsheet", Score: 0}, "niode": Word{Word: "niode", Def: "predicate: ‘cute’; ▯ is cute.", By: "official", Score: 0}, "niode nijao niai da.": Word{Word: "niode nijao niai da.", Def: "(A0317) That animal is youthful.", By: "examples", Score: 0}, "niodecua": Word{Word: "niodecua", Def: "▯ has a “aaaaw” reaction to irresistable cuteness.", By: "Ilmen", Score: 0}, "niokato": Word{Word: "niokato", Def: "▯ is a kitten.", By: "lynn", Score: 0}, "niokoaq": Word{Word: "niokoaq", Def: "young adult; adolescent; teenager", By: "uakci", Score: 0}, "niomuao": Word{Word: "niomuao", Def: "sapling", By: "spreadsheet", Score: 0}, "nioniu": Word{Word: "nioniu", Def: "sapling", By: "spreadsheet", Score: 0}, "nioq": Word{Word: "nioq", Def: "predicate: ‘tooth’; ▯ is a tooth.", By: "official", Score: 0}, "nioqbo": Word{Word: "nioqbo", Def: "dragonfly", By: "spreadsheet", Score: 0}, "nioqche": Word{Word: "nioqche", Def: "▯is a dentist", By: "seaqtaq", Score: 0}, "nioqdīu": Word{Word: "nioqdīu", Def: "▯is dentistry", By: "seaqtaq", Score: 0}, "nioqguka": Word{Word: "nioqguka", Def: "▯ gnaws ▯.", By: "Ilmen", Score: 0}, "nioqgukaniai": Word{Word: "nioqgukaniai", Def: "▯ is a rodent.", By: "Ilmen", Score: 0}, "nioqketea": Word{Word: "nioqketea", Def: "▯ is a toothed whale.", By: "Hoemai", Score: 0}, "nioqketo": Word{Word: "nioqketo", Def: "▯ is a toothed whale.", By: "Ilmen", Score: 0}, "nioqkoi": Word{Word: "nioqkoi", Def: "▯ is a walrus.", By: "Ilmen", Score: 0}, "nioqsai": Word{Word: "nioqsai", Def: "▯ is ivory / dentine.", By: "lynn", Score: 0}, "nioqsioq": Word{Word: "nioqsioq", Def: "▯ is a cogwheel / gear wheel.", By: "Ilmen", Score: 0}, "nioqsioqme": Word{Word: "nioqsioqme", Def: "▯ are gears.", By: "Ilmen", Score: 0}, "nioqtoechuo": Word{Word: "nioqtoechuo", Def: "▯ is a saw.", By: "Ilmen", Score: 0}, "nioroesubmit": Word{Word: "nioroesubmit", Def: "▯ manifests youth vigor.", By: "Ilmen", Score: 0}, "niq": Word{Word: "niq", Def: "bủ hảı dủa jí púıbīaq lú rảq hóa dóshī, na ru nảı lú kỏ shỉ cu lî chủı na hóa gǔo hóa gâı jí dóshī da", By: "uakci", Score: 0}, "niq ni diaqkue da.": Word{Word: "niq ni diaqkue da.", Def: "(A0056) This monthly periodical is new.", By: "examples", Score: 0}, "niq poho chao da.": Word{Word: "niq poho chao da.", Def: "(A0711) His car is new.", By: "examples", Score: 0}, "niqchuq": Word{Word: "niqchuq", Def: "▯ chews cud; ▯ ruminates.", By: "Ilmen", Score: 0}, "niqdao": Word{Word: "niqdao", Def: "predicate: ‘news’; ▯ are news.", By: "official", Score: 0}, "niqdao hi po tu suq moq.": Word{Word: "niqdao hi po tu suq moq.", Def: "(A0638) What is new and is about each of you?", By: "examples", Score: 0}, "niqdao hi rai moq.": Word{Word: "niqdao hi rai moq.", Def: "(A0490) What's news?", By: "examples", Score: 0}, "niqdao sia rai pa gi niqdao da.": Word{Word: "niqdao sia rai pa gi niqdao da.", Def: "(A0592) No news is good news.", By: "examples", Score: 0}, "niqdua": Word{Word: "niqdua", Def: "predicate: ‘discover’; ▯ discovers / finds out ▯.", By: "official", Score: 0}, "niqguo": Word{Word: "niqguo", Def: "= #nıq ru #gủo", By: "uakci", Score: 0}, "niqguo ceo po chiejio": Word{Word: "niqguo ceo po chiejio", Def: "(B0009) School began again", By: "examples", Score: 0}, "niqguo kuq ji niqguo kuigiqbu ri kuigiqtuebu cua sia rai moq.": Word{Word: "niqguo kuq ji niqguo kuigiqbu ri kuigiqtuebu cua sia rai moq.", Def: "(A0988) ", By: "examples", Score: 0}, "niqguo laqceo foq": Word{Word: "niqguo laqceo foq", Def: "(B0024) The telephone rang again", By: "examples", Score: 0}, "niqguo tao suq hoq ba.": Word{Word: "niqguo tao suq hoq ba.", Def: "(A0316)  Do it again!", By: "examples", Score: 0}, "niqguokuai": Word{Word: "niqguokuai", Def: "predicate: ‘miss’; ▯ misses ▯; ▯ hungers for ▯ to happen again.", By: "official", Score: 0}, "niqja": Word{Word: "niqja", Def: "▯ is a ninja.", By: "Ilmen", Score: 0}, "niqpaq": Word{Word: "niqpaq", Def: "▯ is an addition to ▯.", By: "uakci", Score: 0}, "niqpiq": Word{Word: "niqpiq", Def: "▯ nitpicks", By: "fagri", Score: 1}, "niqsaihitashakuhikaushuriduji": Word{Word: "niqsaihitashakuhikaushuriduji", Def: "▯ keeps on working despite his reluctance to having to travel more and more.", By: "uakci", Score: 0}, "niqtua": Word{Word: "niqtua", Def: "update", By: "spreadsheet", Score: 0}, "niriaq": Word{Word: "niriaq", Def: "here", By: "spreadsheet", Score: 0}, "niti": Word{Word: "niti", Def: "▯ is here.", By: "uakci", Score: 1}, "nitoaq": Word{Word: "nitoaq", Def: "▯ is the language this utterance is in; ▯ is Toaq.", By: "uakci", Score: 0}, "nitoaqtua": Word{Word: "nitoaqtua", Def: "▯ imports ▯ into Toaq as ▯; ▯ translates ▯ into Toaq ▯.", By: "uakci", Score: 0}, "niu": Word{Word: "niu", Def: "predicate: ‘plant’; ▯ is a plant.", By: "official", Score: 0}, "niube": Word{Word: "niube", Def: "sapling", By: "spreadsheet", Score: 0}, "niuboe": Word{Word: "niuboe", Def: "leaf (of a plant)", By: "spreadsheet", Score: 0}, "niuchuq": Word{Word: "niuchuq", Def: "▯ is vegetarian.", By: "Ilmen", Score: 1}, "niudiu": Word{Word: "niudiu", Def: "▯ is botany.", By: "Ilmen", Score: 0}, "niudiuche": Word{Word: "niudiuche", Def: "▯ is a botanist.", By: "Ilmen", Score: 0}, "niugame": Word{Word: "niugame", Def: "pollen", By: "spreadsheet", Score: -1}, "niuheaq": Word{Word: "niuheaq", Def: "▯ is a seed of plant ▯.", By: "lynn", Score: 0}, "niuriqsai": Word{Word: "niuriqsai", Def: "▯ is chlorophyll.", By: "lynn", Score: 1}, "niushuaqdiu": Word{Word: "niushuaqdiu", Def: "(fork of #teR-oLaTU) ▯ is agriculture.", By: "seaqtaq", Score: 0}, "niusiai": Word{Word: "niusiai", Def: "sap", By: "spreadsheet", Score: 0}, "niusiaipio": Word{Word: "niusiaipio", Def: "▯ is amber.", By: "Ilmen", Score: 0}, "niusiao": Word{Word: "niusiao", Def: "▯ is a root of plant ▯.", By: "lynn", Score: 0}, "no": Word{Word: "no", Def: "predicate: ‘in’; ▯ is in format/medium/genre ▯.", By: "official", Score: 0}, "no faraqse": Word{Word: "no faraqse", Def: "phrase: \"in French\"", By: "official", Score: 0}, "no ni kuqtoai mi toaq da.": Word{Word: "no ni kuqtoai mi toaq da.", Def: "(A0483) This sentence is in Toaq.", By: "examples", Score: 0}, "noa": Word{Word: "noa", Def: "predicate: ‘difficult’; Satisfying property ▯ is difficult for ▯.", By: "official", Score: 0}, "noa li noaq cu ni kue da.": Word{Word: "noa li noaq cu ni kue da.", Def: "(A0416) It's difficult to read this book.", By: "examples", Score: 0}, "noa li si ho ja rai na ji da.": Word{Word: "noa li si ho ja rai na ji da.", Def: "(A0417) It's difficult for me to have his attention.", By: "examples", Score: 0}, "noa muidua lu kuq ho hoa da.": Word{Word: "noa muidua lu kuq ho hoa da.", Def: "(A0418) It's difficult to understand what he says.", By: "examples", Score: 0}, "noa suai fieq pui shuai kuqtoai da.": Word{Word: "noa suai fieq pui shuai kuqtoai da.", Def: "(A0978) It is hard to quickly create many simple sentences.", By: "examples", Score: 0}, "noaca": Word{Word: "noaca", Def: "▯ is a problem/hindrance against doing ▯ for the experiencer ▯.", By: "Ilmen", Score: 0}, "noai": Word{Word: "noai", Def: "predicate: ‘milk’; ▯ is milk.", By: "official", Score: 0}, "noaichai": Word{Word: "noaichai", Def: "▯ is milk tea!!!", By: "uakci", Score: 0}, "noainua": Word{Word: "noainua", Def: "▯ milks ▯.", By: "Ilmen", Score: 0}, "noalie ho po ni joa da.": Word{Word: "noalie ho po ni joa da.", Def: "(A0181) He is frustrated about this week.", By: "examples", Score: 0}, "noaq": Word{Word: "noaq", Def: "sỉ dóshī sa dó lǎı hóa ru tǐ hóa dósāq, na ru mủıjūq dóshī dógū dó da", By: "uakci", Score: 0}, "noaq diaq suq ba.": Word{Word: "noaq diaq suq ba.", Def: "(A0059) Read regularly!", By: "examples", Score: 0}, "noaqtuqshuitua": Word{Word: "noaqtuqshuitua", Def: "(fork of #qDj_XHIx6) ▯ is end to end encryption", By: "seaqtaq", Score: 0}, "nochi": Word{Word: "nochi", Def: "note", By: "spreadsheet", Score: -1}, "noe": Word{Word: "noe", Def: "▯ is normal in its ▯-ness; ▯ is ▯ just like any other ▯-er.", By: "uakci", Score: 0}, "nohe": Word{Word: "nohe", Def: "milxe / a little (mild, towards neither extreme)", By: "spreadsheet", Score: 0}, "noheo": Word{Word: "noheo", Def: "▯ is a translation of ▯ into language ▯ from language ▯", By: "fagri", Score: 0}, "noi": Word{Word: "noi", Def: "gảıkīu dóshī, na ru tu dó bı cả hîao sa ráı dó na lîe sa ráı dóshī da", By: "uakci", Score: 0}, "noilie": Word{Word: "noilie", Def: "predicate: ‘suffer’; ▯ suffers / has pain.", By: "official", Score: 0}, "noq": Word{Word: "noq", Def: "predicate: ‘gustatory’; ▯ is gustatory; ▯ pertains to the sense of taste/gustation.", By: "official", Score: 0}, "noqcai": Word{Word: "noqcai", Def: "▯ is flavorful/strong in flavor", By: "seaqtaq", Score: 0}, "noqcia": Word{Word: "noqcia", Def: "▯ is bland/flavorless", By: "seaqtaq", Score: 0}, "noqde": Word{Word: "noqde", Def: "▯ tastes beautiful.", By: "Ilmen", Score: 0}, "noqgai": Word{Word: "noqgai", Def: "predicate: ‘taste’; ▯ tastes ▯.", By: "official", Score: 0}, "noqgai suq ni piso ba.": Word{Word: "noqgai suq ni piso ba.", Def: "(A0319) Taste this pear.", By: "examples", Score: 0}, "noqgi": Word{Word: "noqgi", Def: "predicate: ‘delicious’; ▯ tastes good / is delicious; ▯ tastes good / is delicious to ▯.", By: "official", Score: 0}, "noqgi baq chai da.": Word{Word: "noqgi baq chai da.", Def: "(A0034) Tea tastes good.", By: "examples", Score: 0}, "noqgi haq lu lui bai suq hoa da.": Word{Word: "noqgi haq lu lui bai suq hoa da.", Def: "(A0321) The food that you have made tastes good.", By: "examples", Score: 0}, "noqgi ni haq da.": Word{Word: "noqgi ni haq da.", Def: "(A0103) This food tastes good.", By: "examples", Score: 0}, "noqhui": Word{Word: "noqhui", Def: "predicate: ‘taste.bad’; ▯ tastes bad; ▯ tastes bad to ▯.", By: "official", Score: 0}, "noqloq": Word{Word: "noqloq", Def: "▯ is spicy", By: "seaqtaq", Score: 0}, "noqpua": Word{Word: "noqpua", Def: "▯ is tasty; ▯ is pleasant to the palate.", By: "uakci", Score: 0}, "noqrue": Word{Word: "noqrue", Def: "▯ is weak (in flavor)", By: "seaqtaq", Score: 0}, "noqrue kuochai po ni haqriaq na jie ji da.": Word{Word: "noqrue kuochai po ni haqriaq na jie ji da.", Def: "(A0981) This restaurant's black tea is weak in flavour to me.", By: "examples", Score: 0}, "noqsai": Word{Word: "noqsai", Def: "▯ is a spice", By: "seaqtaq", Score: 1}, "noqse": Word{Word: "noqse", Def: "▯ is the taste of ▯.", By: "Ilmen", Score: 0}, "noqsi": Word{Word: "noqsi", Def: "predicate: ‘taste-listen’; ▯ listens to the taste of ▯.", By: "official", Score: 0}, "noqsiu": Word{Word: "noqsiu", Def: "▯ tastes like ▯", By: "seaqtaq", Score: 0}, "noshuaq": Word{Word: "noshuaq", Def: "▯ produces something which is ▯ (existing product) but adapted to language/format ▯;\u00a0 ▯ translates/adapts ▯ into ▯.", By: "lynn", Score: 0}, "nu": Word{Word: "nu", Def: "chảsīu dóshī ní da", By: "uakci", Score: 0}, "nua": Word{Word: "nua", Def: "= #doa #bủ", By: "uakci", Score: 0}, "nuadoa": Word{Word: "nuadoa", Def: "replace/instead", By: "spreadsheet", Score: 0}, "nuai": Word{Word: "nuai", Def: "= #chuo #tẻq", By: "uakci", Score: 0}, "nuaidoa": Word{Word: "nuaidoa", Def: "fund ⓥ", By: "spreadsheet", Score: 0}, "nuaiheq": Word{Word: "nuaiheq", Def: "▯ is a wallet", By: "seaqtaq", Score: 1}, "nuaijio": Word{Word: "nuaijio", Def: "predicate: ‘bank’; ▯ is a bank.", By: "official", Score: 0}, "nuaikea": Word{Word: "nuaikea", Def: "▯ is an automated teller machine / ATM machine.", By: "lynn", Score: 0}, "nuailoha": Word{Word: "nuailoha", Def: "▯ is gold", By: "seaqtaq", Score: 0}, "nuairīoq": Word{Word: "nuairīoq", Def: "▯ is currency", By: "seaqtaq", Score: 0}, "nuaituai": Word{Word: "nuaituai", Def: "▯ is physical money (cash/coins…)", By: "Ilmen", Score: 0}, "nuakoe": Word{Word: "nuakoe", Def: "predicate: ‘pick’; ▯ picks ▯: ▯ chooses and takes ▯.", By: "official", Score: 0}, "nuao": Word{Word: "nuao", Def: "predicate: ‘arch’; ▯ is an arch; ▯ arches.", By: "official", Score: 0}, "nuaokuoq": Word{Word: "nuaokuoq", Def: "▯ is a rib (bone).", By: "Ilmen", Score: 0}, "nuaq": Word{Word: "nuaq", Def: "pảq dóshī sa dó chǎq na, na ru jẻq rảo dóshī sa lú gủo hóa bû gảıkīu sa hóe da", By: "uakci", Score: 0}, "nuaqchu": Word{Word: "nuaqchu", Def: "predicate: ‘midnight’; ▯ is midnight.", By: "official", Score: 0}, "nuaqgio": Word{Word: "nuaqgio", Def: "star", By: "spreadsheet", Score: 0}, "nuaqhoe": Word{Word: "nuaqhoe", Def: "▯ is a star (visible at night in the sky).", By: "Ilmen", Score: 0}, "nuaqmuo": Word{Word: "nuaqmuo", Def: "▯ occurs all night", By: "seaqtaq", Score: 0}, "nuaqnai": Word{Word: "nuaqnai", Def: "It's night time.", By: "fagri", Score: 0}, "nuaqtiqshoai": Word{Word: "nuaqtiqshoai", Def: "▯ is a moth.", By: "lynn", Score: 0}, "nubo": Word{Word: "nubo", Def: "▯ is such as ▯; ▯ satisfies the propertie(s) which ▯ is characterised (characterized) to satisfy.", By: "uakci", Score: 0}, "nue": Word{Word: "nue", Def: "predicate: ‘promise’; ▯ promises/threatens to ▯ to satisfy property ▯.", By: "official", Score: 0}, "nue cheo mai": Word{Word: "nue cheo mai", Def: "▯ promise their mutual love to\u00a0▯.", By: "niucuq", Score: 0}, "nueji gaq fa ji suq mehiko ka.": Word{Word: "nueji gaq fa ji suq mehiko ka.", Def: "(A0310) I hereby promise to go with you to Mexico.", By: "examples", Score: 0}, "nuekao": Word{Word: "nuekao", Def: "▯ is a contract.", By: "Ilmen", Score: 0}, "nueq": Word{Word: "nueq", Def: "mirror, reflect", By: "spreadsheet", Score: -1}, "nueqbiu": Word{Word: "nueqbiu", Def: "▯ is a sausage (made out of meat).", By: "Hoemai", Score: 0}, "nueqchuq": Word{Word: "nueqchuq", Def: "▯ is carnivorous.", By: "Ilmen", Score: 0}, "nueqchuqbu": Word{Word: "nueqchuqbu", Def: "▯ is a vegetarian", By: "fagri", Score: 0}, "nueqmuo": Word{Word: "nueqmuo", Def: "▯ is a pancreas", By: "seaqtaq", Score: 0}, "nueqrieq": Word{Word: "nueqrieq", Def: "▯ is a vegetarian.", By: "lynn", Score: 0}, "nueqshoai": Word{Word: "nueqshoai", Def: "▯ is a Sarcopterygii.", By: "Ilmen", Score: 0}, "nueqtuo": Word{Word: "nueqtuo", Def: "▯ is a carnivoran (Carnivora order).", By: "Ilmen", Score: 0}, "nuho": Word{Word: "nuho", Def: "nu'o", By: "spreadsheet", Score: -1}, "nui": Word{Word: "nui", Def: "predicate: ‘small’; ▯ is small/little.", By: "official", Score: 0}, "nui maq da keo choqgi maq da.": Word{Word: "nui maq da keo choqgi maq da.", Def: "(A0306) It's small but it's useful.", By: "examples", Score: 0}, "nui ni pe baq helu da.": Word{Word: "nui ni pe baq helu da.", Def: "phrase: \"This one is small for an elephant.\"", By: "official", Score: 0}, "nuicha": Word{Word: "nuicha", Def: "town", By: "uakci", Score: 0}, "nuichuq": Word{Word: "nuichuq", Def: "▯ eats a snack", By: "seaqtaq", Score: 0}, "nuicioikea": Word{Word: "nuicioikea", Def: "▯ is a microwavw or similar device", By: "seaqtaq", Score: 0}, "nuidao": Word{Word: "nuidao", Def: "▯ is a detail", By: "seaqtaq", Score: 0}, "nuidoaq": Word{Word: "nuidoaq", Def: "predicate: ‘town’; ▯ is a town.", By: "official", Score: 0}, "nuihaq": Word{Word: "nuihaq", Def: "▯ is a snack", By: "seaqtaq", Score: 0}, "nuihaq po diochu": Word{Word: "nuihaq po diochu", Def: "(fork of #-h3KNqJ6s) ▯ is an afternoon/evening snack", By: "seaqtaq", Score: 0}, "nuiheapoaq": Word{Word: "nuiheapoaq", Def: "break into pieces", By: "spreadsheet", Score: 0}, "nuiheasho": Word{Word: "nuiheasho", Def: "break into pieces", By: "spreadsheet", Score: 0}, "nuihoe": Word{Word: "nuihoe", Def: "▯ is a photon.", By: "uakci", Score: 0}, "nuihuaichuo": Word{Word: "nuihuaichuo", Def: "predicate: ‘teaspoon’; ▯ is a teaspoon.", By: "Ilmen", Score: 0}, "nuihuaichuone": Word{Word: "nuihuaichuone", Def: "▯ is the volume in teaspoons of ▯.", By: "Ilmen", Score: 0}, "nuihui": Word{Word: "nuihui", Def: "▯is a pathogen", By: "seaqtaq", Score: 0}, "nuijaq": Word{Word: "nuijaq", Def: "predicate: ‘tiny’; ▯ is tiny.", By: "Ilmen", Score: 0}, "nuikai": Word{Word: "nuikai", Def: "▯ writes ▯ on ▯ in lowercase", By: "seaqtaq", Score: 0}, "nuilieq": Word{Word: "nuilieq", Def: "penguin", By: "spreadsheet", Score: 0}, "nuimei": Word{Word: "nuimei", Def: "▯ is a hill.", By: "Ilmen", Score: 0}, "nuimuao": Word{Word: "nuimuao", Def: "shrub", By: "spreadsheet", Score: 0}, "nuimui": Word{Word: "nuimui", Def: "▯ is the definition of ▯.", By: "uakci", Score: 0}, "nuipaq": Word{Word: "nuipaq", Def: "▯ is a detail.", By: "Ilmen", Score: 0}, "nuipoq": Word{Word: "nuipoq", Def: "▯ is a short person.", By: "uakci", Score: 0}, "nuirea": Word{Word: "nuirea", Def: "▯ is a dwarf (unusually small human).", By: "Ilmen", Score: 0}, "nuisoai": Word{Word: "nuisoai", Def: "kiwifruit", By: "spreadsheet", Score: 0}, "nukui": Word{Word: "nukui", Def: "▯ is therefore; Therefore, ▯.", By: "uakci", Score: 0}, "nukuq": Word{Word: "nukuq", Def: "▯ is said/alleged to be so; ▯ allegedly (\"so they say\") satisfies property ▯.", By: "lynn", Score: -1}, "nuli": Word{Word: "nuli", Def: "grease (oily or fatty matter)", By: "spreadsheet", Score: 0}, "nulicioi": Word{Word: "nulicioi", Def: "▯ fries ▯", By: "seaqtaq", Score: 0}, "nulipio": Word{Word: "nulipio", Def: "▯ is asphalt", By: "seaqtaq", Score: 0}, "nunu": Word{Word: "nunu", Def: "▯ expresses sympathy for ▯ ; ▯ uunmo ▯ (lojban)", By: "fagri", Score: 0}, "nuo": Word{Word: "nuo", Def: "sẻa dóshī, na ru bủ chỉaq dóshī sa báq da", By: "uakci", Score: 0}, "nuo ji rao baq nuaq da.": Word{Word: "nuo ji rao baq nuaq da.", Def: "(A0099) I'm asleep at night.", By: "examples", Score: 0}, "nuo ji ti soaq.": Word{Word: "nuo ji ti soaq.", Def: "(PPH.1) I sleep in the garden.", By: "official", Score: 0}, "nuo suq hu bebe ba.": Word{Word: "nuo suq hu bebe ba.", Def: "(A0305) Sleep, baby!", By: "examples", Score: 0}, "nuoboe": Word{Word: "nuoboe", Def: "▯ is a blanket.", By: "lynn", Score: 0}, "nuochaq": Word{Word: "nuochaq", Def: "Saturday", By: "uakci", Score: 0}, "nuochia": Word{Word: "nuochia", Def: "sleepy", By: "spreadsheet", Score: 0}, "nuochoa": Word{Word: "nuochoa", Def: "▯ utters ▯ in their sleep (talks or snores).", By: "uakci", Score: 0}, "nuociu": Word{Word: "nuociu", Def: "▯ accumulates rheum/gound ▯ in their eyes during sleep.", By: "uakci", Score: 0}, "nuociuse": Word{Word: "nuociuse", Def: "▯ is rheum / gound (mucus that accumulates in the eyes during sleep).", By: "lynn", Score: 1}, "nuofa": Word{Word: "nuofa", Def: "▯ goes to bed; ▯ goes to sleep.", By: "uakci", Score: 0}, "nuofua": Word{Word: "nuofua", Def: "predicate: ‘bed’; ▯ is a bed.", By: "official", Score: 0}, "nuofuq": Word{Word: "nuofuq", Def: "predicate: ‘pyjama’; ▯ is a pyjama.", By: "official", Score: 0}, "nuogai": Word{Word: "nuogai", Def: "▯ dreams ▯.", By: "Ilmen", Score: 2}, "nuogaq": Word{Word: "nuogaq", Def: "▯ sleeps with ▯, literally.", By: "uakci", Score: 0}, "nuoi": Word{Word: "nuoi", Def: "predicate: ‘masticate’; ▯ chews; ▯ chews ▯; ▯ chews on ▯.", By: "official", Score: 0}, "nuoi sa nuq poji loaq da.": Word{Word: "nuoi sa nuq poji loaq da.", Def: "(A0943) Some worm-like animal chews on my buttock.", By: "examples", Score: 0}, "nuoiguo": Word{Word: "nuoiguo", Def: "▯ chews cud; ▯ ruminates.", By: "Ilmen", Score: 0}, "nuoiguoniai": Word{Word: "nuoiguoniai", Def: "▯ is a ruminant.", By: "Ilmen", Score: 0}, "nuoiheu": Word{Word: "nuoiheu", Def: "▯ is a berry", By: "seaqtaq", Score: 0}, "nuoihua": Word{Word: "nuoihua", Def: "▯ is a jaw.", By: "Ilmen", Score: 0}, "nuoihuabeq": Word{Word: "nuoihuabeq", Def: "▯ is a chin.", By: "Ilmen", Score: 0}, "nuoihuakiaq": Word{Word: "nuoihuakiaq", Def: "▯ is a beard.", By: "Ilmen", Score: 0}, "nuokoi": Word{Word: "nuokoi", Def: "▯ is sleep-talk", By: "brunofrancosalamin", Score: -1}, "nuokua": Word{Word: "nuokua", Def: "predicate: ‘bedroom’; ▯ is a bedroom.", By: "official", Score: 0}, "nuokuai": Word{Word: "nuokuai", Def: "predicate: ‘tired’; ▯ is tired.", By: "official", Score: 0}, "nuokuai ho da.": Word{Word: "nuokuai ho da.", Def: "(A0003) They are tired.", By: "examples", Score: 0}, "nuokuai ji da.": Word{Word: "nuokuai ji da.", Def: "(A0001) I'm tired.", By: "examples", Score: 0}, "nuokuai suq da.": Word{Word: "nuokuai suq da.", Def: "(A0002) You are tired.", By: "examples", Score: 0}, "nuomeo": Word{Word: "nuomeo", Def: "sleepy", By: "spreadsheet", Score: 0}, "nuoq": Word{Word: "nuoq", Def: "predicate: ‘reflect’; ▯ reflects/mirrors/echoes ▯.", By: "official", Score: 0}, "nuoqgai": Word{Word: "nuoqgai", Def: "▯ perceives ▯ through echolocation.", By: "Ilmen", Score: 0}, "nuoqsi": Word{Word: "nuoqsi", Def: "▯ uses echolocation (to inspect ▯).", By: "Ilmen", Score: 0}, "nuoqtao": Word{Word: "nuoqtao", Def: "▯ (agent) mirrors action/event ▯ with a corresponding action.", By: "Hoemai", Score: 0}, "nuoriai": Word{Word: "nuoriai", Def: "mattress", By: "spreadsheet", Score: 0}, "nuotoq": Word{Word: "nuotoq", Def: "mattress", By: "spreadsheet", Score: 0}, "nuq": Word{Word: "nuq", Def: "predicate: ‘worm-like’; ▯ is a worm-like animal (animal with long cylindrical tube-like body and no limbs or with short limbs but crawling) (form classification).", By: "official", Score: 0}, "nuqleq": Word{Word: "nuqleq", Def: "▯ is a member of the suborder Vermilingua (the anteaters).", By: "Hoemai", Score: 0}, "o, hai heishijue da!": Word{Word: "o, hai heishijue da!", Def: "(A0159) Whoa, it's already November!", By: "examples", Score: 0}, "pa": Word{Word: "pa", Def: "terminator: terminate prenex and apply prenex arguments to predicate in order", By: "official", Score: 0}, "pachu": Word{Word: "pachu", Def: "pot", By: "spreadsheet", Score: 0}, "pada": Word{Word: "pada", Def: "leopard", By: "spreadsheet", Score: 0}, "pagechi": Word{Word: "pagechi", Def: "▯ is spaghetti, a type of tangly pasta.", By: "uakci", Score: 0}, "pai": Word{Word: "pai", Def: "mỉu gỉ dóshī dógū, na ru chỏ dóshī gâq dógū dóshī, na na ru (lẻ) shảo dóshī fôagī dógū da.", By: "uakci", Score: 0}, "pai poji leaqbua ji da.": Word{Word: "pai poji leaqbua ji da.", Def: "(A0273) My neighbors are my friends.", By: "examples", Score: 0}, "paibuq": Word{Word: "paibuq", Def: "smile", By: "spreadsheet", Score: 0}, "paifusha": Word{Word: "paifusha", Def: "▯ strokes/pets ▯.", By: "Ilmen", Score: -1}, "paigi": Word{Word: "paigi", Def: "predicate: ‘friendly’; ▯ is friendly towards ▯.", By: "official", Score: 0}, "paigiq": Word{Word: "paigiq", Def: "enemy", By: "spreadsheet", Score: 0}, "paigoai": Word{Word: "paigoai", Def: "▯ strokes/pets ▯.", By: "Ilmen", Score: 0}, "painiai": Word{Word: "painiai", Def: "▯ is a pet", By: "fagri", Score: 0}, "pairuo": Word{Word: "pairuo", Def: "predicate: ‘friendly’; ▯ acts friendly/kindly towards ▯.", By: "official", Score: 0}, "palaq": Word{Word: "palaq", Def: "▯ is a hand palm / foot sole.", By: "Ilmen", Score: 0}, "panama": Word{Word: "panama", Def: "▯ is Panamanian (of, from, or pertaining to Panama or Panamanian people).", By: "Hoemai", Score: 0}, "panamagua": Word{Word: "panamagua", Def: "▯ is Panama (country).", By: "Hoemai", Score: 0}, "pao": Word{Word: "pao", Def: "dủq kỉaı dóshī dógū chàsīu rôaq dóshī dógū da", By: "uakci", Score: 0}, "papa": Word{Word: "papa", Def: "predicate: ‘papa’; ▯ is papa (Dad, daddy, father).", By: "official", Score: 0}, "paq": Word{Word: "paq", Def: "predicate: ‘part’; ▯ is a part of ▯.", By: "official", Score: 0}, "paq co shiaq baq kune, she ruaq shiaq ji huoi moq": Word{Word: "paq co shiaq baq kune, she ruaq shiaq ji huoi moq", Def: "(A0617) How many legs does a dog have, if I say that the tail is a leg?", By: "examples", Score: 0}, "paq go ho sa jo shiaq da.": Word{Word: "paq go ho sa jo shiaq da.", Def: "(A0618) It has four legs.", By: "examples", Score: 0}, "paq go tu niaq sa jo cao da. ": Word{Word: "paq go tu niaq sa jo cao da. ", Def: "(A0364) Every year has four seasons.", By: "examples", Score: 0}, "paq sa saq kua ni jio da.": Word{Word: "paq sa saq kua ni jio da.", Def: "(A0233) This building has three rooms.", By: "examples", Score: 0}, "paqbo": Word{Word: "paqbo", Def: "▯ has part ▯.", By: "Ilmen", Score: 0}, "paqcea": Word{Word: "paqcea", Def: "pocket", By: "spreadsheet", Score: 0}, "paqceo": Word{Word: "paqceo", Def: "▯ resumes doing ▯ for a moment (▯ resumes) [Lojban «di’a»].", By: "uakci", Score: 0}, "paqcia": Word{Word: "paqcia", Def: "predicate: ‘lack’; ▯ lacks part ▯; ▯ is missing part ▯.", By: "official", Score: 0}, "paqdoa": Word{Word: "paqdoa", Def: "▯ contributes/adds part ▯ to ▯.", By: "lynn", Score: 0}, "paqduo": Word{Word: "paqduo", Def: "gesture / move (without overall location change)", By: "spreadsheet", Score: 0}, "paqgo": Word{Word: "paqgo", Def: "▯ has part ▯.", By: "Ilmen", Score: 0}, "paqka": Word{Word: "paqka", Def: "park", By: "spreadsheet", Score: 0}, "paqkui": Word{Word: "paqkui", Def: "▯ is the case, partially\u00a0because ▯ (but also for other reasons).", By: "lynn", Score: 0}, "paqme": Word{Word: "paqme", Def: "system", By: "spreadsheet", Score: 0}, "paqmefaqcu": Word{Word: "paqmefaqcu", Def: "Function (expression) ▯ (of free variable ▯ = x) has value ▯ iff x satisfies p’ty ▯, value ▯ iff x satisfies p’ty ▯, etc.", By: "uakci", Score: 0}, "paqmu": Word{Word: "paqmu", Def: "▯ has part ▯.", By: "Ilmen", Score: 0}, "paqmuo": Word{Word: "paqmuo", Def: "predicate: ‘whole’; ▯ is whole/complete.", By: "official", Score: 0}, "paqnua": Word{Word: "paqnua", Def: "predicate: ‘remove’; ▯ removes part ▯ from ▯.", By: "official", Score: 0}, "paqria": Word{Word: "paqria", Def: "▯ is such that the doorway is spatially obscured by door (▯), yet not disabling entrance", By: "spreadsheet", Score: 0}, "paqshai": Word{Word: "paqshai", Def: "▯ stops doing ▯ for a moment (▯ stops happening for a moment); ▯ pauses activity ▯ (activity ▯ pauses/is paused for a moment) [Lojban «de’a»].", By: "uakci", Score: -1}, "paqsimo": Word{Word: "paqsimo", Def: "▯ is a member of genus Pan (the chimpanzees, including the common chimpanzee and the bonobo).", By: "Hoemai", Score: 0}, "paqtao": Word{Word: "paqtao", Def: "predicate: ‘participate’; ▯ takes part in ▯; ▯ participates in ▯.", By: "official", Score: 0}, "paqtera": Word{Word: "paqtera", Def: "▯ belongs to the Panthera taxonomic genus.", By: "Ilmen", Score: 0}, "paqtoai": Word{Word: "paqtoai", Def: "element (selci)", By: "spreadsheet", Score: 0}, "paqtoe": Word{Word: "paqtoe", Def: "▯ notches/cuts ▯ (incomplete cut, not resulting in a complete separation).", By: "Ilmen", Score: 0}, "paqtuq": Word{Word: "paqtuq", Def: "(fork of #W0D8ApTle) ▯ comprise/make up/constitute all the parts of whole ▯.", By: "seaqtaq", Score: 0}, "pasatai": Word{Word: "pasatai", Def: "▯ pertains to the culture of Thailand – Kingdom of Thailand.", By: "countries", Score: 0}, "pasataigua": Word{Word: "pasataigua", Def: "▯ is the country Thailand – Kingdom of Thailand.", By: "countries", Score: 0}, "pasataitoaq": Word{Word: "pasataitoaq", Def: "▯ is (one of) the language(s) spoken in Thailand – Kingdom of Thailand.", By: "countries", Score: 0}, "pati": Word{Word: "pati", Def: "predicate: ‘party’; ▯ is a party (gathering for entertainment, fun and socializing).", By: "official", Score: 0}, "patichea": Word{Word: "patichea", Def: "▯ is a party hat.", By: "lynn", Score: 0}, "pe": Word{Word: "pe", Def: "pủı sa túq lủ hủaq hóa dógū lî jẻo sa lú mẻa hóa dógū na sa pó dóshī da", By: "uakci", Score: 0}, "pea": Word{Word: "pea", Def: "predicate: ‘ago’; ▯ happened ▯ (amount of time) ago.", By: "official", Score: 0}, "pea sa daqne": Word{Word: "pea sa daqne", Def: "phrase: ‘ago’; \"some time ago\"", By: "official", Score: 0}, "peao": Word{Word: "peao", Def: "(fork of #1N1OBHamT) (member of PO) ▯ is among [complement]", By: "fagri", Score: 0}, "peha": Word{Word: "peha", Def: "▯ is true in a figurative sense; Metaphorically speaking, ▯ [used as a sentence prefix or adverb; Lojban borrowing].", By: "uakci", Score: -1}, "pehu": Word{Word: "pehu", Def: "paste, pesxu", By: "spreadsheet", Score: -1}, "pei": Word{Word: "pei", Def: "sẻu dóshī, na ru lảı dóshī pó lú nẻ pủı hóa dógū da", By: "uakci", Score: 0}, "pei meamiq": Word{Word: "pei meamiq", Def: "▯ is infinity (mathematical constant ∞).", By: "Ilmen", Score: 1}, "peijui": Word{Word: "peijui", Def: "▯ is a cardinality near that of anything satisfying property ▯", By: "fagri", Score: 0}, "peike": Word{Word: "peike", Def: "▯ is an European magpie (Pica pica).", By: "Ilmen", Score: 0}, "pekiaqnua": Word{Word: "pekiaqnua", Def: "▯ shaves; ▯ shaves facial hair ▯ off (person) ▯.", By: "uakci", Score: 0}, "pekiaqshai": Word{Word: "pekiaqshai", Def: "▯ shaves; ▯ (person) is shaved.", By: "uakci", Score: 0}, "pelua": Word{Word: "pelua", Def: "▯ is a pelvis (large compound bone structure at the base of the spine that supports the legs).", By: "Hoemai", Score: 0}, "peluka": Word{Word: "peluka", Def: "▯ is a member of genus Falco (the falcons).", By: "Hoemai", Score: 0}, "peo": Word{Word: "peo", Def: "predicate: ‘through’; ▯ passes through ▯.", By: "official", Score: 0}, "peokaqraq": Word{Word: "peokaqraq", Def: "▯ is a moth or caterpillar of the species Cydalima perspectalis.", By: "Ilmen", Score: 0}, "peokaqsiraq": Word{Word: "peokaqsiraq", Def: "▯ is a box tree moth or caterpillar (Cydalima perspectalis).", By: "Ilmen", Score: 0}, "peolai": Word{Word: "peolai", Def: "hyphen, dash (–)", By: "uakci", Score: 0}, "peotoqhua": Word{Word: "peotoqhua", Def: "▯ is a diaphragm", By: "seaqtaq", Score: 0}, "peq": Word{Word: "peq", Def: "predicate: ‘paper’; ▯ is paper.", By: "official", Score: 0}, "peqbi": Word{Word: "peqbi", Def: "pen", By: "spreadsheet", Score: -1}, "peqboe": Word{Word: "peqboe", Def: "predicate: ‘sheet’; ▯ is a sheet of paper.", By: "official", Score: 0}, "peqnuai": Word{Word: "peqnuai", Def: "▯ is paper money", By: "seaqtaq", Score: 0}, "peqshi": Word{Word: "peqshi", Def: "poem ()", By: "spreadsheet", Score: 0}, "peqsi": Word{Word: "peqsi", Def: "pencil", By: "spreadsheet", Score: 0}, "peso": Word{Word: "peso", Def: "= #hua ru #chủo #pỉcīu ru #sẻaqdēa", By: "uakci", Score: 0}, "pesogoaitao": Word{Word: "pesogoaitao", Def: "▯ rubs ▯’s penis with their ▯.", By: "uakci", Score: 0}, "pesojieq": Word{Word: "pesojieq", Def: "▯ is the shaft (head) of penis ▯.", By: "uakci", Score: 0}, "pesojoq": Word{Word: "pesojoq", Def: "▯ is a penis head", By: "fagri", Score: 0}, "pesopiu": Word{Word: "pesopiu", Def: "▯ is foreskin.", By: "uakci", Score: 0}, "pesopiutoete": Word{Word: "pesopiutoete", Def: "Penis ▯ is circumcised.", By: "uakci", Score: 0}, "pesoreq": Word{Word: "pesoreq", Def: "▯ is Homo Phallicus", By: "seaqtaq", Score: 0}, "peta": Word{Word: "peta", Def: "predicate: ‘peta’; ▯ are 10^15 (1,000,000,000,000,000) in number; ▯ are a quadrillion.", By: "official", Score: 0}, "petero": Word{Word: "petero", Def: "▯ is a true sparrow (Passer genus).", By: "Ilmen", Score: 0}, "peterogama": Word{Word: "peterogama", Def: "▯ is a member of genus Struthio (the ostriches).", By: "Hoemai", Score: 0}, "peterotei": Word{Word: "peterotei", Def: "▯ is a passerine (Passeriformes taxonomic order).", By: "Ilmen", Score: 0}, "peu": Word{Word: "peu", Def: "decimal point [@Ilmen]", By: "uakci", Score: 0}, "pi": Word{Word: "pi", Def: "to ru #nao to to ru bủ #sẻaqnāo to to ru bủ #kẻq to #tẻ #cỉu", By: "uakci", Score: 0}, "pia": Word{Word: "pia", Def: "predicate: ‘sibling’; ▯ is a sibling of ▯.", By: "official", Score: 0}, "piafu": Word{Word: "piafu", Def: "▯ is a neice/nephew of ▯", By: "seaqtaq", Score: 0}, "piai": Word{Word: "piai", Def: "project", By: "spreadsheet", Score: 0}, "piano": Word{Word: "piano", Def: "predicate: ‘piano’; ▯ is a piano.", By: "official", Score: 0}, "piao": Word{Word: "piao", Def: "predicate: ‘complicated’; ▯ is complicated/complex.", By: "official", Score: 0}, "piaotoa": Word{Word: "piaotoa", Def: "lujvo", By: "spreadsheet", Score: 0}, "piaq": Word{Word: "piaq", Def: "surprised", By: "spreadsheet", Score: 0}, "piaqji": Word{Word: "piaqji", Def: "I am surprised here and now by ▯.", By: "Ilmen", Score: 0}, "pica": Word{Word: "pica", Def: "pizza", By: "spreadsheet", Score: 0}, "piciu": Word{Word: "piciu", Def: "cỉu dóshī dógū pỉ da", By: "uakci", Score: 0}, "pie": Word{Word: "pie", Def: "chủq dóshī dógū nǎotēı, na na ru bủ jảq chỏq dóshī sa lú nỉe hóa lú bủq hóa dóshī ceı ceı shô fủı chủq dógū dóshī da", By: "uakci", Score: 0}, "pie ji rao tu diosiao sa kafe da.": Word{Word: "pie ji rao tu diosiao sa kafe da.", Def: "(A0706) I drink some coffee every morning.", By: "examples", Score: 0}, "pie suq ba.": Word{Word: "pie suq ba.", Def: "(A0015) Drink!", By: "examples", Score: 0}, "piedoa": Word{Word: "piedoa", Def: "▯ adds to beverage ▯ supplement ▯; ▯ sugars/milks/cinnamons/butters beverage ▯.", By: "uakci", Score: 0}, "piehaq": Word{Word: "piehaq", Def: "▯ is a beverage / a drink.", By: "lynn", Score: 0}, "piejaq": Word{Word: "piejaq", Def: "▯ gulps down ▯", By: "seaqtaq", Score: 0}, "piekuai": Word{Word: "piekuai", Def: "predicate: ‘drink’; ▯ is thirsty.", By: "official", Score: 0}, "pienao": Word{Word: "pienao", Def: "▯ is potable water.", By: "lynn", Score: 0}, "pietuao": Word{Word: "pietuao", Def: "▯ sips ▯", By: "seaqtaq", Score: 0}, "pihi": Word{Word: "pihi", Def: "pilji (×)", By: "spreadsheet", Score: -1}, "pijama": Word{Word: "pijama", Def: "predicate: ‘pyjama’; ▯ is a pyjama.", By: "official", Score: 0}, "pikachu": Word{Word: "pikachu", Def: "▯ is/are Pikachu.", By: "lynn", Score: 0}, "pimieqta": Word{Word: "pimieqta", Def: "(fork of #TUowVe6em) ▯_ is pepper", By: "seaqtaq", Score: 0}, "pinao": Word{Word: "pinao", Def: "▯ is pee/urine/piss.", By: "uakci", Score: 0}, "pinu": Word{Word: "pinu", Def: "▯ is a pine tree.", By: "Ilmen", Score: 0}, "pio": Word{Word: "pio", Def: "predicate: ‘rock’; ▯ is rock (material).", By: "official", Score: 0}, "piocoesai": Word{Word: "piocoesai", Def: "▯ is cement.", By: "Ilmen", Score: 0}, "piodiu": Word{Word: "piodiu", Def: "▯ is calculus.", By: "uakci", Score: -1}, "piodīu": Word{Word: "piodīu", Def: "▯ is geology.", By: "lynn", Score: 0}, "pioguaq": Word{Word: "pioguaq", Def: "desert", By: "spreadsheet", Score: 0}, "piohea": Word{Word: "piohea", Def: "stone", By: "spreadsheet", Score: 0}, "piohoe": Word{Word: "piohoe", Def: "▯ is a planet", By: "seaqtaq", Score: 0}, "piokioq": Word{Word: "piokioq", Def: "pebble", By: "spreadsheet", Score: 0}, "pioloha": Word{Word: "pioloha", Def: "▯ is lithium.", By: "Ilmen", Score: 0}, "piomiq": Word{Word: "piomiq", Def: "▯ is a lithosphere.", By: "Ilmen", Score: 0}, "pionui": Word{Word: "pionui", Def: "pebble", By: "spreadsheet", Score: 0}, "pionuli": Word{Word: "pionuli", Def: "petroleum", By: "spreadsheet", Score: -1}, "piopiu": Word{Word: "piopiu", Def: "▯ is a shell", By: "seaqtaq", Score: 0}, "piosaidiu": Word{Word: "piosaidiu", Def: "▯ is mineralogy.", By: "Ilmen", Score: 0}, "piosiu": Word{Word: "piosiu", Def: "▯ is solid (not liquid or gas)", By: "fagri", Score: 0}, "piotui": Word{Word: "piotui", Def: "lizard, lepidosauria", By: "spreadsheet", Score: 1}, "pipi": Word{Word: "pipi", Def: "▯ pees, pisses. [moderately infantile]", By: "uakci", Score: 0}, "piq": Word{Word: "piq", Def: "▯ pushes, presses, puts force on ▯.", By: "uakci", Score: 0}, "piqduo": Word{Word: "piqduo", Def: "▯ rubs (intransitive), is rubbed against ▯.", By: "uakci", Score: 0}, "piqfea": Word{Word: "piqfea", Def: "▯ is rigid.", By: "uakci", Score: 0}, "piqkai": Word{Word: "piqkai", Def: "▯ sets text ▯ onto ▯ using metal type.", By: "uakci", Score: 0}, "piso": Word{Word: "piso", Def: "predicate: ‘pear’; ▯ is a pear.", By: "official", Score: 0}, "piu": Word{Word: "piu", Def: "predicate: ‘skin’; ▯ is skin/peel/crust/hide/rind/outer cover.", By: "official", Score: 0}, "piuchiq": Word{Word: "piuchiq", Def: "▯ is a louse.", By: "lynn", Score: 0}, "piuciu": Word{Word: "piuciu", Def: "▯ sweats.", By: "lynn", Score: 1}, "piunao": Word{Word: "piunao", Def: "▯ is sweat.", By: "lynn", Score: 1}, "piunua": Word{Word: "piunua", Def: "▯ peels/skins ▯.", By: "Ilmen", Score: 0}, "piushoai": Word{Word: "piushoai", Def: "▯ is a colugo (Dermoptera taxonomic order).", By: "Ilmen", Score: 0}, "po": Word{Word: "po", Def: "pỏ dó dóshī shè râq dó dóshī da", By: "uakci", Score: 0}, "po ji ni da.": Word{Word: "po ji ni da.", Def: "(PCT.2) This is mine.", By: "official", Score: 0}, "po suq ni toese ka.": Word{Word: "po suq ni toese ka.", Def: "(A0991) This slice is hereby yours.", By: "examples", Score: 0}, "poa": Word{Word: "poa", Def: "= bu #kỉu #pẻo", By: "uakci", Score: 0}, "poachoatoai": Word{Word: "poachoatoai", Def: "▯ is a consonant.", By: "Ilmen", Score: 0}, "poai": Word{Word: "poai", Def: "predicate: ‘seed’; ▯ is a seed/spore/egg/gamete/ovum/sperm/pollen.", By: "official", Score: 0}, "poaipao": Word{Word: "poaipao", Def: "▯ is a baobab (a tree of genus Adansonia).", By: "Hoemai", Score: 0}, "poairiaq": Word{Word: "poairiaq", Def: "▯ is an ovary", By: "seaqtaq", Score: 0}, "poaq": Word{Word: "poaq", Def: "pủ mẻ dóshī sa dó, na ru nảı chẻo tỉpōe dó da", By: "uakci", Score: 0}, "poaq lui shia da.": Word{Word: "poaq lui shia da.", Def: "(A0341) The glass has broken.", By: "examples", Score: 0}, "poaqchuq": Word{Word: "poaqchuq", Def: "▯ chews ▯.", By: "Ilmen", Score: 0}, "poaqcuka": Word{Word: "poaqcuka", Def: "▯ explodes.", By: "Ilmen", Score: 0}, "poaqgiu": Word{Word: "poaqgiu", Def: "▯ is a fissure/crack.", By: "Ilmen", Score: 0}, "poaqkuai": Word{Word: "poaqkuai", Def: "▯ is brittle\u00a0", By: "seaqtaq", Score: 0}, "poaqle": Word{Word: "poaqle", Def: "▯ has a tendency to disintegrate/crumble/fall apart; ▯ aţq’asıb.", By: "Ilmen", Score: 0}, "poaqnoa": Word{Word: "poaqnoa", Def: "▯ is resilient/durable/hard to break", By: "seaqtaq", Score: 0}, "poaqnua": Word{Word: "poaqnua", Def: "▯ breaks a piece off of ▯", By: "seaqtaq", Score: 0}, "poaqrei": Word{Word: "poaqrei", Def: "▯ crushes ▯.", By: "Ilmen", Score: 0}, "poaqse": Word{Word: "poaqse", Def: "predicate: ‘shard’; ▯ is a shard/cullet.", By: "official", Score: 0}, "poaqshua": Word{Word: "poaqshua", Def: "▯ collapses.", By: "Ilmen", Score: 0}, "poatie": Word{Word: "poatie", Def: "▯ is a lid.", By: "Ilmen", Score: 0}, "podo": Word{Word: "podo", Def: "▯ is of the referent(s) of the variable X.", By: "Ilmen", Score: 0}, "poe": Word{Word: "poe", Def: "predicate: ‘apart’; ▯ is apart/separate from ▯ in property ▯.", By: "official", Score: 0}, "poe miu ji baq poq da.": Word{Word: "poe miu ji baq poq da.", Def: "(A0885) My opinions are different (separate) from those of a typical person.", By: "examples", Score: 0}, "poe mu ne dua ji suq gi jiao.": Word{Word: "poe mu ne dua ji suq gi jiao.", Def: "(A0881) You and I know to different (separate) degrees that God is good.", By: "examples", Score: 0}, "poe mu ne joe ho liqho da.": Word{Word: "poe mu ne joe ho liqho da.", Def: "(A0882) They and her have separate skill levels.", By: "examples", Score: 0}, "poe mu ne joe koi ho liqho da.": Word{Word: "poe mu ne joe koi ho liqho da.", Def: "(A0883) They are her have separate skill levels at walking.", By: "examples", Score: 0}, "poe rao hoq sho bia ji da.": Word{Word: "poe rao hoq sho bia ji da.", Def: "(A0880) It was apart (in time) from me getting sick.", By: "examples", Score: 0}, "poe rao koi ji na jai ji da.": Word{Word: "poe rao koi ji na jai ji da.", Def: "(A0879) My walking was apart (in time) from my being happy.", By: "examples", Score: 0}, "poe ti ji suq da.": Word{Word: "poe ti ji suq da.", Def: "(A0877) I am apart from you (in space).", By: "examples", Score: 0}, "poe ti ni piohea ji da.": Word{Word: "poe ti ni piohea ji da.", Def: "(A0876) This rock is apart from me (in space).", By: "examples", Score: 0}, "poechuo": Word{Word: "poechuo", Def: "fence", By: "spreadsheet", Score: 0}, "poeduaitue": Word{Word: "poeduaitue", Def: "▯ is segregation", By: "seaqtaq", Score: 0}, "poepaq": Word{Word: "poepaq", Def: "section", By: "spreadsheet", Score: 0}, "poeq": Word{Word: "poeq", Def: "▯ is a piece of literature characterised by its specific use of language, focus on internal experiences, emotions, and abstract ideas, and verse form; ▯ is poetry/verse; ▯ is a poem.", By: "uakci", Score: 0}, "poetoq": Word{Word: "poetoq", Def: "wall", By: "spreadsheet", Score: 0}, "poetoqtoai": Word{Word: "poetoqtoai", Def: "▯ is a brick.", By: "Ilmen", Score: 0}, "poha": Word{Word: "poha", Def: "▯ is one's/yours/theirs (the one(s) of the referent(s) of the generic impersonal pronoun).", By: "Ilmen", Score: 0}, "poho": Word{Word: "poho", Def: "predicate: ‘his/her’; ▯ is his/hers/theirs.", By: "official", Score: 0}, "pohoa": Word{Word: "pohoa", Def: "▯ is of the antecedent(s) of the relative clause.", By: "Ilmen", Score: 0}, "poi": Word{Word: "poi", Def: "▯ is a true proposition whose x1 participant, in participating in the proposition, also does ▯", By: "fagri", Score: 4}, "poja": Word{Word: "poja", Def: "explode", By: "spreadsheet", Score: -1}, "pojakea": Word{Word: "pojakea", Def: "bomb", By: "spreadsheet", Score: -1}, "pojeo": Word{Word: "pojeo", Def: "▯'s something satisfies property ▯; Something of ▯'s satisfies ▯; Jeo pó ▯ ▯.", By: "uakci", Score: 0}, "poji": Word{Word: "poji", Def: "= [X] Pỏ jí dóshī.", By: "Ilmen", Score: 0}, "poji chua pa shu ‹ hana › da.": Word{Word: "poji chua pa shu ‹ hana › da.", Def: "(A0514) About my name: it's \"Hana\".", By: "examples", Score: 0}, "poji liqpia pa goiche da.": Word{Word: "poji liqpia pa goiche da.", Def: "(A0504) My sister is a doctor.", By: "examples", Score: 0}, "pojiao": Word{Word: "pojiao", Def: "▯ is holy/sacred/divine.", By: "Ilmen", Score: 0}, "pokame": Word{Word: "pokame", Def: "▯ is a plant of the Camellia genus.", By: "Ilmen", Score: 1}, "poke": Word{Word: "poke", Def: "▯ is a seal belonging to the Phoca genus.", By: "Ilmen", Score: 0}, "pokemoq": Word{Word: "pokemoq", Def: "▯ is a pokemon.", By: "Ilmen", Score: 0}, "pokesao": Word{Word: "pokesao", Def: "▯ is a harbour porpoise (Phocoena phocoena).", By: "Ilmen", Score: 0}, "pokesaosiu": Word{Word: "pokesaosiu", Def: "▯ is a porpoise.", By: "Ilmen", Score: 0}, "pokesiu": Word{Word: "pokesiu", Def: "▯ is a true seal (Phocidae taxonomic family).", By: "Ilmen", Score: 0}, "polaq": Word{Word: "polaq", Def: "▯ pertains to the culture of Poland – Republic of Poland.", By: "oldcountries", Score: 0}, "polaqgua": Word{Word: "polaqgua", Def: "▯ is the country Poland – Republic of Poland.", By: "oldcountries", Score: 0}, "polaqtoaq": Word{Word: "polaqtoaq", Def: "▯ is (one of) the language(s) spoken in Poland – Republic of Poland.", By: "oldcountries", Score: 0}, "pomaq": Word{Word: "pomaq", Def: "predicate: ‘its’; ▯ is its.", By: "official", Score: 0}, "pomea": Word{Word: "pomea", Def: "(member of PO) ▯ is among [complement]", By: "fagri", Score: -1}, "poni": Word{Word: "poni", Def: "▯ is of this/that; ▯ is related to this/that.", By: "Ilmen", Score: 0}, "popuqho": Word{Word: "popuqho", Def: "predicate: ‘their’; ▯ is theirs.", By: "official", Score: 0}, "popuqji": Word{Word: "popuqji", Def: "predicate: ‘our’; ▯ is ours.", By: "official", Score: 0}, "popuqsuq": Word{Word: "popuqsuq", Def: "predicate: ‘your’; ▯ is yours.", By: "official", Score: 0}, "poq": Word{Word: "poq", Def: "kảqsīu ru rủosīu dóshī jí da", By: "uakci", Score: 0}, "poqchua": Word{Word: "poqchua", Def: "▯ is a given name / first name of ▯.", By: "lynn", Score: 0}, "poqdua": Word{Word: "poqdua", Def: "be acquainted with", By: "spreadsheet", Score: 0}, "poqgo": Word{Word: "poqgo", Def: "▯ is a member of genus Pongo (the orangutans).", By: "Hoemai", Score: 0}, "poqhoitoa": Word{Word: "poqhoitoa", Def: "▯ is a personal pronoun", By: "seaqtaq", Score: 0}, "poqjuao": Word{Word: "poqjuao", Def: "▯ is a societal law.", By: "Ilmen", Score: 0}, "poqkea": Word{Word: "poqkea", Def: "▯ is a robot.", By: "Ilmen", Score: 0}, "poqme": Word{Word: "poqme", Def: "predicate: ‘group.of.people’; ▯ is a group of people.", By: "official", Score: 0}, "poqmea": Word{Word: "poqmea", Def: "▯ is social in group ▯; ▯ socialises in ▯.", By: "uakci", Score: 0}, "poqmecuetaq": Word{Word: "poqmecuetaq", Def: "▯ is a democracy.", By: "Ilmen", Score: 0}, "poqpuqruobia": Word{Word: "poqpuqruobia", Def: "▯ has dissociative identity disorder.", By: "uakci", Score: 0}, "poraq": Word{Word: "poraq", Def: "▯ is Polish.", By: "uakci", Score: 0}, "poroi": Word{Word: "poroi", Def: "▯ is what satisfies the property ▯, together with the other things/persons related to it; ▯ is ▯ and co.", By: "Ilmen", Score: 1}, "poshieq": Word{Word: "poshieq", Def: "▯ is what people are/do in general; One is/does ▯.", By: "uakci", Score: 0}, "posuq": Word{Word: "posuq", Def: "= [X] Pỏ súq dóshī.", By: "Ilmen", Score: 0}, "posuq liqpao pa leo tua si suq ho da.": Word{Word: "posuq liqpao pa leo tua si suq ho da.", Def: "(A0356) Your mom is trying to get you to pay attention to her.", By: "examples", Score: 0}, "posuq toakue bi nai choq ho maq ju bu dua nai ti ji ho hi rai da.": Word{Word: "posuq toakue bi nai choq ho maq ju bu dua nai ti ji ho hi rai da.", Def: "(A0995) As for your dictionary, he is currently using it (I don't know where he is now).", By: "oldexamples", Score: 0}, "posuq toakue bi nai choq ho maq, ju bu dua ji nai ti ho hi rai da.": Word{Word: "posuq toakue bi nai choq ho maq, ju bu dua ji nai ti ho hi rai da.", Def: "(A0995) As for your dictionary, he is currently using it (I don't know where he is now).", By: "examples", Score: 0}, "posuqji": Word{Word: "posuqji", Def: "predicate: ‘our’; ▯ is ours.", By: "official", Score: 0}, "potaq": Word{Word: "potaq", Def: "▯ is related to its/his/her ▯ by the relation ▯.", By: "Ilmen", Score: 0}, "prune": Word{Word: "prune", Def: "▯ is a prune.", By: "uakci", Score: 0}, "pu": Word{Word: "pu", Def: "= [00] Shỉu dóshī náı.", By: "Ilmen", Score: 0}, "pu beo suq kiaqreo.": Word{Word: "pu beo suq kiaqreo.", Def: "(A0569) You turned red.", By: "examples", Score: 0}, "pu bu hio ho ji da.": Word{Word: "pu bu hio ho ji da.", Def: "(A0133) He didn't greet me.", By: "examples", Score: 0}, "pu buaq ho li muidua sa poq po ja rai da.": Word{Word: "pu buaq ho li muidua sa poq po ja rai da.", Def: "(A0314) He failed to be understood.", By: "examples", Score: 0}, "pu doa bo hi rai ni suq moq.": Word{Word: "pu doa bo hi rai ni suq moq.", Def: "(A0209) Who gave this to you?", By: "examples", Score: 0}, "pu du naq jie ji keo nai miu dai le bu hao da.": Word{Word: "pu du naq jie ji keo nai miu dai le bu hao da.", Def: "(A0998) They seemed to be male to me, but now (I) think that it is possible they probably aren't.", By: "examples", Score: 0}, "pu duasue ji ho ma mao taoshao fa ho da.": Word{Word: "pu duasue ji ho ma mao taoshao fa ho da.", Def: "(A0559) I asked him whether he intended to go as well.", By: "examples", Score: 0}, "pu duasue mane mao taoshao fa ji ho da.": Word{Word: "pu duasue mane mao taoshao fa ji ho da.", Def: "(A0558) I asked him whether he intended to go as well.", By: "examples", Score: 0}, "pu gai niai ti ji da.": Word{Word: "pu gai niai ti ji da.", Def: "(A0446) The animal perceived my presence.", By: "examples", Score: 0}, "pu gei ji bikini ti neaqrea da.": Word{Word: "pu gei ji bikini ti neaqrea da.", Def: "(A0101) I wore the bikini at the beach.", By: "examples", Score: 0}, "pu guchio siqtua ji maq da.": Word{Word: "pu guchio siqtua ji maq da.", Def: "(A0388) I cleaned it twice.", By: "examples", Score: 0}, "pu hi rai moq.": Word{Word: "pu hi rai moq.", Def: "(A0165) What happened?", By: "examples", Score: 0}, "pu hiai sa be": Word{Word: "pu hiai sa be", Def: "(B0005) Baby laughed", By: "examples", Score: 0}, "pu hiefa ho cea ": Word{Word: "pu hiefa ho cea ", Def: "(A0639) He brought the bags two at a time.", By: "oldexamples", Score: 0}, "pu hiefa ho cea joi lusu ho chio sa gu tamea maq da.": Word{Word: "pu hiefa ho cea joi lusu ho chio sa gu tamea maq da.", Def: "(A0639) He brought the bags two at a time.", By: "examples", Score: 0}, "pu jea bo ji sa puidui da.": Word{Word: "pu jea bo ji sa puidui da.", Def: "(A0189) I bought too many things.", By: "examples", Score: 0}, "pu jea ji sa roai kue da.": Word{Word: "pu jea ji sa roai kue da.", Def: "(A0709) I bought eight books.", By: "examples", Score: 0}, "pu jiu ji ti kanadagua da.": Word{Word: "pu jiu ji ti kanadagua da.", Def: "(A0525) I was born in Canada.", By: "examples", Score: 0}, "pu jiu ji ti ni gua da.": Word{Word: "pu jiu ji ti ni gua da.", Def: "(A0080) I was born in this country.", By: "examples", Score: 0}, "pu juoi sao ho ni jio da. ": Word{Word: "pu juoi sao ho ni jio da. ", Def: "phrase: They described this building as big.", By: "official", Score: 1}, "pu juoq ruaq ★ suq jeo ho da.": Word{Word: "pu juoq ruaq ★ suq jeo ho da.", Def: "(A0572) You should have told him the truth. [ruaq3?]", By: "examples", Score: 0}, "pu koe mi chaq ke li ta do bi lue do.": Word{Word: "pu koe mi chaq ke li ta do bi lue do.", Def: "(A0429) Chang picked that one for being yellow. ", By: "examples", Score: 0}, "pu kuq ho mo « geqkuai ji poji liqpao da » teo da.": Word{Word: "pu kuq ho mo « geqkuai ji poji liqpao da » teo da.", Def: "(A0582) He said «I miss my mom»", By: "examples", Score: 0}, "pu kuq ji mo « chua hi rai suq moq » teo da.": Word{Word: "pu kuq ji mo « chua hi rai suq moq » teo da.", Def: "(A0227) I said \"What's your name?\".", By: "examples", Score: 0}, "pu kuq ji mo «\u00a0ti nuai hi rai moq\u00a0» teo.": Word{Word: "pu kuq ji mo «\u00a0ti nuai hi rai moq\u00a0» teo.", Def: "(QUO.3) I said 'where is the money?'.", By: "official", Score: 0}, "pu kuqshao ji shu nuofua.": Word{Word: "pu kuqshao ji shu nuofua.", Def: "(QUO.2) I meant to say 'bed'.", By: "official", Score: 0}, "pu pua pie ji chai da.": Word{Word: "pu pua pie ji chai da.", Def: "(A0033) I enjoyed drinking the tea.", By: "examples", Score: 0}, "pu ruaqgai ji lu piao faraqse toaq da.": Word{Word: "pu ruaqgai ji lu piao faraqse toaq da.", Def: "(A0337) I noticed that the French language is complex.", By: "examples", Score: 0}, "pu sho ho li goiche da.": Word{Word: "pu sho ho li goiche da.", Def: "(A0712) He became a doctor.", By: "examples", Score: 0}, "pu sho shie bebe da.": Word{Word: "pu sho shie bebe da.", Def: "(A0030) The baby woke up.", By: "examples", Score: 0}, "pu soa ho sa bia kune da.": Word{Word: "pu soa ho sa bia kune da.", Def: "(A0741) She helped a sick dog.", By: "examples", Score: 0}, "pu suai suaikoi deo": Word{Word: "pu suai suaikoi deo", Def: "(B0010) The child ran quickly", By: "examples", Score: 0}, "pu teoqkuq ji cu ho mo ma tiaq baq muao moq teo da.": Word{Word: "pu teoqkuq ji cu ho mo ma tiaq baq muao moq teo da.", Def: "(A0567) I asked him \"Are trees brown?\"", By: "examples", Score: 0}, "pu tua jeaq doq ho poho joqkiaq da.": Word{Word: "pu tua jeaq doq ho poho joqkiaq da.", Def: "(A0557) He cut his hair.", By: "examples", Score: 0}, "pu tua ti suq hoi kue moq.": Word{Word: "pu tua ti suq hoi kue moq.", Def: "(A0716) Where did you put that book?", By: "examples", Score: 0}, "pua": Word{Word: "pua", Def: "be pleasured by", By: "spreadsheet", Score: -1}, "pua chuq suq ba.": Word{Word: "pua chuq suq ba.", Def: "(A0208) Enjoy your meal!", By: "examples", Score: 0}, "pua geq ji suq da.": Word{Word: "pua geq ji suq da.", Def: "(A0394) Pleased to meet you.", By: "examples", Score: 0}, "pua huosi ji baq giaq jaq da.": Word{Word: "pua huosi ji baq giaq jaq da.", Def: "(A0093) I really enjoy listening to music.", By: "examples", Score: 0}, "pua mietao suq ti nihoqguaq ba.": Word{Word: "pua mietao suq ti nihoqguaq ba.", Def: "(A0728) Enjoy your life in Japan.", By: "examples", Score: 0}, "puagaqkuq": Word{Word: "puagaqkuq", Def: "complain", By: "spreadsheet", Score: -1}, "puahuaqmiu": Word{Word: "puahuaqmiu", Def: "▯ is a snob in doing ▯.", By: "uakci", Score: 0}, "puai": Word{Word: "puai", Def: "predicate: ‘wild’; ▯ is wild/untamed.", By: "official", Score: 0}, "puailuko": Word{Word: "puailuko", Def: "▯ is a wolf.", By: "Ilmen", Score: 0}, "puao": Word{Word: "puao", Def: "predicate: ‘cloud’; ▯ is a cloud.", By: "official", Score: 0}, "puaobiu": Word{Word: "puaobiu", Def: "▯ is specifically the character 🌪 (U+1F32A CLOUD WITH TORNADO; `:cloud_tornado:`).", By: "uakci", Score: 0}, "puaocia": Word{Word: "puaocia", Def: "▯ is free of clouds / clear (as in “clear sky” or “clear weather”) / sunny.", By: "lynn", Score: 1}, "puaokiaq": Word{Word: "puaokiaq", Def: "wool", By: "spreadsheet", Score: 0}, "puaoniai": Word{Word: "puaoniai", Def: "sheep", By: "spreadsheet", Score: 1}, "puaoroq": Word{Word: "puaoroq", Def: "Cloud ▯ rains with ▯.", By: "uakci", Score: 0}, "puaq": Word{Word: "puaq", Def: "predicate: ‘somatic’; ▯ is somatic/tactile; ▯ pertains to the sense of touch/somatosensation.", By: "official", Score: 0}, "puaqcia": Word{Word: "puaqcia", Def: "▯ is numb.", By: "Ilmen", Score: 1}, "puaqgai": Word{Word: "puaqgai", Def: "predicate: ‘touch.feel’; ▯ touch feels ▯.", By: "official", Score: 0}, "puaqgi": Word{Word: "puaqgi", Def: "predicate: ‘feel.good’; ▯ is nice to the touch; ▯ is nice to the touch of ▯.", By: "official", Score: 0}, "puaqse": Word{Word: "puaqse", Def: "▯ is the (typical) tactile sensation perceived when touching ▯.", By: "Ilmen", Score: 0}, "puaqsi": Word{Word: "puaqsi", Def: "predicate: ‘touch.feel’; ▯ focuses on touch feeling ▯.", By: "official", Score: 0}, "puaqsiu": Word{Word: "puaqsiu", Def: "▯ is is textually similar to ▯; ▯ feels like ▯", By: "seaqtaq", Score: 0}, "puchaq": Word{Word: "puchaq", Def: "predicate: ‘yesterday’; ▯ is yesterday.", By: "official", Score: 0}, "puchaq pa pu hui chaq da.": Word{Word: "puchaq pa pu hui chaq da.", Def: "(A0122) Yesterday was a bad day.", By: "examples", Score: 0}, "pudiu": Word{Word: "pudiu", Def: "▯ is history (branch of knowledge).", By: "Ilmen", Score: 0}, "pue": Word{Word: "pue", Def: "= #hua ru #hẻ #chủo #fả", By: "uakci", Score: 0}, "puebea": Word{Word: "puebea", Def: "predicate: ‘knee’; ▯ is a knee.", By: "official", Score: 0}, "puebeq": Word{Word: "puebeq", Def: "▯ is a foot heel.", By: "Ilmen", Score: 0}, "puechei": Word{Word: "puechei", Def: "▯ is a toe.", By: "Ilmen", Score: 0}, "puedapa": Word{Word: "puedapa", Def: "▯ is a foot sole.", By: "Ilmen", Score: 0}, "puedea": Word{Word: "puedea", Def: "predicate: ‘kick’; ▯ kicks ▯.", By: "official", Score: 0}, "puefuq": Word{Word: "puefuq", Def: "predicate: ‘shoe’; ▯ is a shoe.", By: "official", Score: 0}, "puefuqcia": Word{Word: "puefuqcia", Def: "▯ is barefoot.", By: "Ilmen", Score: 0}, "puefuqdapa": Word{Word: "puefuqdapa", Def: "▯ is a shoe sole.", By: "Ilmen", Score: 0}, "puegao": Word{Word: "puegao", Def: "predicate: ‘sock’; ▯ is a sock.", By: "official", Score: 0}, "puejei": Word{Word: "puejei", Def: "predicate: ‘toe’; ▯ is a toe.", By: "official", Score: 0}, "puekioq": Word{Word: "puekioq", Def: "▯ is soccer/football (game).", By: "Hoemai", Score: 0}, "pueq": Word{Word: "pueq", Def: "predicate: ‘tread’; ▯ steps/treads on ▯.", By: "official", Score: 0}, "pueruedea": Word{Word: "pueruedea", Def: "▯ taps their foot", By: "fagri", Score: 0}, "puese": Word{Word: "puese", Def: "▯ is a footprint", By: "seaqtaq", Score: 0}, "pueshio": Word{Word: "pueshio", Def: "predicate: ‘hip’; ▯ is a hip.", By: "official", Score: 0}, "puetuq": Word{Word: "puetuq", Def: "▯ is the sole (of a) foot.", By: "uakci", Score: 0}, "pui": Word{Word: "pui", Def: "sảo péı dỏshī da", By: "uakci", Score: 0}, "puidaome": Word{Word: "puidaome", Def: "▯ is a database", By: "seaqtaq", Score: 0}, "puigiq": Word{Word: "puigiq", Def: "few", By: "spreadsheet", Score: 0}, "puijeq": Word{Word: "puijeq", Def: "predicate: ‘same.number’; ▯ are equal in number to ▯; ▯ and ▯ are equinumerous.", By: "official", Score: 0}, "puimieq": Word{Word: "puimieq", Def: "The count of ▯ is the number ▯.", By: "fagri", Score: -3}, "puimoe": Word{Word: "puimoe", Def: "▯ has mixed feelings.", By: "lynn", Score: 0}, "puine": Word{Word: "puine", Def: "{mei}", By: "spreadsheet", Score: -1}, "puipoqchao": Word{Word: "puipoqchao", Def: "predicate: ‘bus’; ▯ is a bus/omnibus.", By: "official", Score: 0}, "puirie": Word{Word: "puirie", Def: "Number ▯ is between ▯ and ▯", By: "fagri", Score: 0}, "puiseu": Word{Word: "puiseu", Def: "▯ is a large number.", By: "Ilmen", Score: 0}, "puisho": Word{Word: "puisho", Def: "predicate: ‘multiply’; ▯ multiplies.", By: "official", Score: 0}, "puisia": Word{Word: "puisia", Def: "predicate: ‘zero’; ▯ are zero in number; ▯ are none.", By: "official", Score: 0}, "puitao": Word{Word: "puitao", Def: "▯ multitasks (by doing ▯)", By: "seaqtaq", Score: 0}, "puitua": Word{Word: "puitua", Def: "predicate: ‘multiply’; ▯ multiplies ▯.", By: "official", Score: 0}, "puituao": Word{Word: "puituao", Def: "predicate: ‘few’; ▯ are few in number.", By: "official", Score: 0}, "puituao riaq lu bu lie lui ti ji hoa da. ": Word{Word: "puituao riaq lu bu lie lui ti ji hoa da. ", Def: "(A0629) There are few places I haven't gone.", By: "examples", Score: 0}, "puituq": Word{Word: "puituq", Def: "▯ is a significant portion of the things satisfying property ▯", By: "fagri", Score: 0}, "pujao": Word{Word: "pujao", Def: "predicate: ‘long.ago’; ▯ happened a long time ago.", By: "official", Score: 0}, "pujao cheo choadeoq ho da.": Word{Word: "pujao cheo choadeoq ho da.", Def: "(A0300) Along time ago they talked to each other.", By: "examples", Score: 0}, "pujao fuo ho ji soq pujui da.": Word{Word: "pujao fuo ho ji soq pujui da.", Def: "(A0962) It's a long time ago that he/she was in contact with me most recently.", By: "examples", Score: 0}, "pujoa": Word{Word: "pujoa", Def: "▯ is last week.", By: "lynn", Score: 0}, "pujue": Word{Word: "pujue", Def: "▯ is last month.", By: "lynn", Score: 0}, "pujui": Word{Word: "pujui", Def: "= #pu ru #nảıjūı", By: "uakci", Score: 0}, "pukao": Word{Word: "pukao", Def: "history", By: "spreadsheet", Score: 0}, "puma": Word{Word: "puma", Def: "▯ is a puma/cougar.", By: "Ilmen", Score: 0}, "pume": Word{Word: "pume", Def: "history", By: "spreadsheet", Score: 0}, "pune": Word{Word: "pune", Def: "▯ is the time elapsed since ▯", By: "Ilmen", Score: 0}, "puniaq": Word{Word: "puniaq", Def: "▯ is last year.", By: "lynn", Score: 0}, "puo": Word{Word: "puo", Def: "predicate: ‘powder’; ▯ is powder.", By: "official", Score: 0}, "puoi": Word{Word: "puoi", Def: "▯ is a different thing (different identity) than ▯", By: "fagri", Score: 0}, "puoshuao": Word{Word: "puoshuao", Def: "▯ is a phoenix (member of the Pulveridae).", By: "uakci", Score: 0}, "puotua": Word{Word: "puotua", Def: "▯ pulverizes ▯;", By: "Hoemai", Score: 0}, "pupuchaq": Word{Word: "pupuchaq", Def: "▯ is the day before yesterday.", By: "lynn", Score: 1}, "puq": Word{Word: "puq", Def: "hủaq pủı dóshī shí da", By: "uakci", Score: 0}, "puqho": Word{Word: "puqho", Def: "predicate: ‘they’; ▯ are them.", By: "official", Score: 0}, "puqho pa cheo bu biaq deoq da.": Word{Word: "puqho pa cheo bu biaq deoq da.", Def: "(A0575) They don't communicate enough.", By: "examples", Score: 0}, "puqmeame": Word{Word: "puqmeame", Def: "▯ is a multiset/bag.", By: "Ilmen", Score: 0}, "puqto": Word{Word: "puqto", Def: "▯ is one-and-a-half (three halves of) ▯ in quantity.", By: "uakci", Score: 0}, "puqtoa": Word{Word: "puqtoa", Def: "expression", By: "spreadsheet", Score: 0}, "puqtuao": Word{Word: "puqtuao", Def: "▯ is several; ▯ is a couple; ▯ is a few.", By: "uakci", Score: 0}, "pura": Word{Word: "pura", Def: "▯ = ▯ + ▯.", By: "uakci", Score: 0}, "q̄": Word{Word: "q̄", Def: "hesitation", By: "uakci", Score: 0}, "ra": Word{Word: "ra", Def: "conjunction: ‘or’; inclusive or", By: "official", Score: 0}, "ra(siu)choatoai": Word{Word: "ra(siu)choatoai", Def: "▯ is a rhotic sound", By: "seaqtaq", Score: 0}, "radio": Word{Word: "radio", Def: "predicate: ‘radio’; ▯ pertains to radio transmission.", By: "official", Score: 0}, "rahina": Word{Word: "rahina", Def: "▯ pertains to the culture of Ukraine.", By: "countries", Score: 0}, "rahinagua": Word{Word: "rahinagua", Def: "▯ is the country Ukraine.", By: "countries", Score: 0}, "rahinatoaq": Word{Word: "rahinatoaq", Def: "▯ is (one of) the language(s) spoken in Ukraine.", By: "countries", Score: 0}, "rai": Word{Word: "rai", Def: "= [X] Sảlī jêo dóshī ja dógū.", By: "Ilmen", Score: 0}, "rai fi rai": Word{Word: "rai fi rai", Def: "nullary predicate: Something is a thing.", By: "uakci", Score: 0}, "raido": Word{Word: "raido", Def: "▯ is among the things that are of the correct type to fit in the slot this predicate is embedded in.", By: "uakci", Score: 0}, "raihao": Word{Word: "raihao", Def: "▯ satisfies some property [Lojban {bu'a xi rau}].", By: "uakci", Score: 0}, "raijeq": Word{Word: "raijeq", Def: "predicate: ‘same’; ▯ is the same thing as ▯.", By: "official", Score: 0}, "rajeo": Word{Word: "rajeo", Def: "Either ▯ or ▯ is the case, or both", By: "seaqtaq", Score: 0}, "raku": Word{Word: "raku", Def: "scratch ⓥ", By: "spreadsheet", Score: -1}, "rakukuai": Word{Word: "rakukuai", Def: "itch (sensation)", By: "spreadsheet", Score: -1}, "rao": Word{Word: "rao", Def: "= [XX] Pảq sa dáqmōa dóshī ru dógū.", By: "Ilmen", Score: 0}, "rao baq koacao bi he koa baq shiqhua da.": Word{Word: "rao baq koacao bi he koa baq shiqhua da.", Def: "(A0253) In winter, (your) nose can get cold.", By: "examples", Score: 0}, "rao go tuqsīe chaq paq heijue da.": Word{Word: "rao go tuqsīe chaq paq heijue da.", Def: "(A0158) It's on the last day in October.", By: "examples", Score: 0}, "rao jiachaq bi duai chui tishai ji da.": Word{Word: "rao jiachaq bi duai chui tishai ji da.", Def: "(A0397) Tomorrow I have to leave early.", By: "examples", Score: 0}, "rao jiachaq bi duai ji li tishai chui da.": Word{Word: "rao jiachaq bi duai ji li tishai chui da.", Def: "(A0396) Tomorrow I have to leave early.", By: "examples", Score: 0}, "rao jiachaq bi fa ji farika da.": Word{Word: "rao jiachaq bi fa ji farika da.", Def: "(A0163) I'm going to Africa tommorow.", By: "examples", Score: 0}, "rao koacao bi he bai baq deo sa niaopoq da.": Word{Word: "rao koacao bi he bai baq deo sa niaopoq da.", Def: "(A0252) In winter, children build snowmen.", By: "examples", Score: 0}, "rao kuaochaq bi ceo joetao ji ba.": Word{Word: "rao kuaochaq bi ceo joetao ji ba.", Def: "(A0188) On Friday I should start practicing.", By: "examples", Score: 0}, "rao muaqsho ho bi, hai lui tao juq cue puq luaiche da.": Word{Word: "rao muaqsho ho bi, hai lui tao juq cue puq luaiche da.", Def: "(A0589) By the time of his death, the clowns had already taken power.", By: "examples", Score: 0}, "rao nichaq bi deq ji tu rai da.": Word{Word: "rao nichaq bi deq ji tu rai da.", Def: "(A0071) Today, I can do anything.", By: "examples", Score: 0}, "rao ninuaq bi jaq de nuaqgio da.": Word{Word: "rao ninuaq bi jaq de nuaqgio da.", Def: "(A0719) The stars are very beautiful tonight.", By: "examples", Score: 0}, "rao puchaq bi noaq ji sa jaq luai da.": Word{Word: "rao puchaq bi noaq ji sa jaq luai da.", Def: "(A0264) Yesterday I read some very funny things.", By: "examples", Score: 0}, "rao puchaq ju bu gi bi chuq ji sa pui da.": Word{Word: "rao puchaq ju bu gi bi chuq ji sa pui da.", Def: "(A0454) Yesterday, which incidentially wasn't good, I ate alot.", By: "examples", Score: 0}, "rao sa rai": Word{Word: "rao sa rai", Def: "prepositional phrase: \"some time\", \"at some point\"", By: "official", Score: 0}, "rao sa rai bi soicheo siaohusona": Word{Word: "rao sa rai bi soicheo siaohusona", Def: "(B0026) Once the Indians fought here", By: "oldexamples", Score: 0}, "rao sa rai bi soicheo siaomerik": Word{Word: "rao sa rai bi soicheo siaomerik", Def: "(B0026) Once the Indians fought here", By: "examples", Score: 0}, "rao shijue bi niaoshua da.": Word{Word: "rao shijue bi niaoshua da.", Def: "(A0139) In January it snowed.", By: "examples", Score: 0}, "rao sia daqmoa": Word{Word: "rao sia daqmoa", Def: "prepositional phrase: \"never\", \"at no moment\"", By: "official", Score: 0}, "rao tu chaq": Word{Word: "rao tu chaq", Def: "prepositional phrase: \"every day\"", By: "official", Score: 0}, "rao tu daqmoa": Word{Word: "rao tu daqmoa", Def: "prepositional phrase: \"always\", \"at every moment\"", By: "official", Score: 0}, "rao tu joa bi shichio fa ji kuejio da.": Word{Word: "rao tu joa bi shichio fa ji kuejio da.", Def: "(A0386) Every week I go to the library once.", By: "examples", Score: 0}, "raogi": Word{Word: "raogi", Def: "▯ is timely.", By: "Ilmen", Score: 0}, "raojao": Word{Word: "raojao", Def: "▯ is temporally far away from ▯.", By: "Ilmen", Score: 0}, "raojeq": Word{Word: "raojeq", Def: "ze'a", By: "spreadsheet", Score: 0}, "raojui": Word{Word: "raojui", Def: "▯ is temporally close to ▯.", By: "Ilmen", Score: 0}, "raopoeme": Word{Word: "raopoeme", Def: "▯ is temporally discontinuous.", By: "Ilmen", Score: 0}, "raoti": Word{Word: "raoti", Def: "= [XX] Pảq sa dáqgōamōa dóshī ru dógū.", By: "Ilmen", Score: 0}, "raq": Word{Word: "raq", Def: "gủjēo dóshī dógū sa ráı da", By: "uakci", Score: -1}, "raqbui": Word{Word: "raqbui", Def: "▯ is off-topic; ▯ is off topic ▯.", By: "uakci", Score: 0}, "raqche": Word{Word: "raqche", Def: "▯’s occupation is related to ▯; ▯ is a ▯-ician.", By: "uakci", Score: 0}, "raqchie": Word{Word: "raqchie", Def: "▯ learns subject ▯; ▯ learns about ▯_.", By: "uakci", Score: 0}, "raqdeoq": Word{Word: "raqdeoq", Def: "▯ talks with ▯ about ▯", By: "fagri", Score: 0}, "raqdua": Word{Word: "raqdua", Def: "slabu", By: "spreadsheet", Score: 0}, "raqfi": Word{Word: "raqfi", Def: "broda", By: "uakci", Score: 0}, "raqheo": Word{Word: "raqheo", Def: "▯ is about something else; ▯ and ▯ pertain to different things.", By: "lynn", Score: 1}, "raqjoe": Word{Word: "raqjoe", Def: "▯ is skilful (skillful) in subject ▯; ▯ is good at (things related to) ▯.", By: "uakci", Score: 0}, "raqkuq": Word{Word: "raqkuq", Def: "▯ comments on ▯.", By: "uakci", Score: 0}, "raqkuqsue": Word{Word: "raqkuqsue", Def: "▯ asks ▯ to comment on ▯; ▯ makes a Request For Comments; abbrev. rks.", By: "uakci", Score: 0}, "raqme": Word{Word: "raqme", Def: "system", By: "spreadsheet", Score: 0}, "raqmoi": Word{Word: "raqmoi", Def: "predicate: ‘think.about’; ▯ thinks about ▯.", By: "official", Score: 0}, "raqmoi suq lu lui tao suq hi rai ba.": Word{Word: "raqmoi suq lu lui tao suq hi rai ba.", Def: "(A0350) Think about what you've done.", By: "examples", Score: 0}, "raqruo": Word{Word: "raqruo", Def: "treat", By: "spreadsheet", Score: 0}, "raqtaq": Word{Word: "raqtaq", Def: "▯ is meta.", By: "uakci", Score: 1}, "raqtaqraqtaqshoceo": Word{Word: "raqtaqraqtaqshoceo", Def: "▯(event) starts to become meta meta", By: "seaqtaq", Score: 0}, "rara": Word{Word: "rara", Def: "jẻo dóshī sa lú sỉu hóa dógū da", By: "uakci", Score: 0}, "raroi": Word{Word: "raroi", Def: "= [XXX] Tu ráı pa mẻa dóshī na re mẻa go dógū ra dósāq.\n= [XXX…] Tu dóshī bı mẻjēo rảrōı dóshī na re tu dógū bı to re mẻa dógū lú sỉekō shỉ hóa dóshī to sa dósāq sěuhūaq shỉ bı mẻa dógū lú sỉekō hóa dóshī dósāq.", By: "Ilmen", Score: 0}, "rasi": Word{Word: "rasi", Def: "▯ = ▯ × ▯.", By: "uakci", Score: 0}, "ratio": Word{Word: "ratio", Def: "proportion, ratio", By: "spreadsheet", Score: 0}, "rato": Word{Word: "rato", Def: "▯ is a rat.", By: "Ilmen", Score: 0}, "re": Word{Word: "re", Def: "statement prefix: append #súq as the first place to the subordinated statement, shifting places one to the right, then pack into predicate meaning ‘I hereby request/ask/command that [statement] be the case.’", By: "uakci", Score: 0}, "rea": Word{Word: "rea", Def: "= [XX] Mẻ dóshī góamōa lủ hóa bı sa jéo ru sa bú pa lủ pảq go dógū sa góamōa tǐlēaq hóa bíhōı na fĩahōa.", By: "Ilmen", Score: 0}, "reahua": Word{Word: "reahua", Def: "skin", By: "spreadsheet", Score: 0}, "reahuashoai": Word{Word: "reahuashoai", Def: "▯ is a colugo (Dermoptera taxonomic order).", By: "Ilmen", Score: 0}, "reai": Word{Word: "reai", Def: "(fork of #ejVb1Y2FU) ▯ is against ▯.", By: "seaqtaq", Score: 0}, "reame": Word{Word: "reame", Def: "▯ is the surface of ▯.", By: "Ilmen", Score: 0}, "reaq": Word{Word: "reaq", Def: "predicate: ‘lie’; ▯ lies on ▯; ▯ reclines on ▯.", By: "official", Score: 0}, "reaq ru jiai go poji gieshio ba.": Word{Word: "reaq ru jiai go poji gieshio ba.", Def: "(A0966) Recline on and hold my shoulder.", By: "examples", Score: 0}, "reashuitua": Word{Word: "reashuitua", Def: "▯ is end to end encryption", By: "seaqtaq", Score: 0}, "rego": Word{Word: "rego", Def: "▯ is a strawberry plant.", By: "Ilmen", Score: 0}, "regoheu": Word{Word: "regoheu", Def: "▯ is a strawberry", By: "seaqtaq", Score: 0}, "rehe": Word{Word: "rehe", Def: "▯ is religious, spiritual.", By: "uakci", Score: -3}, "rei": Word{Word: "rei", Def: "fẻotī go tu féo cu dógū sa lú mẻa hóa dóshī na\u00a0", By: "uakci", Score: 0}, "rei sa muaome buajio da.": Word{Word: "rei sa muaome buajio da.", Def: "(A0405) The house is surrounded by forest.", By: "examples", Score: 0}, "reiduo": Word{Word: "reiduo", Def: "▯ orbits / moves around\u00a0 ▯.", By: "lynn", Score: 0}, "reijioqchuo": Word{Word: "reijioqchuo", Def: "▯ is an abacus.", By: "uakci", Score: 0}, "reilia": Word{Word: "reilia", Def: "▯ juxtapose ▯", By: "seaqtaq", Score: -1}, "reo": Word{Word: "reo", Def: "predicate: ‘coloured’; ▯ is coloured; ▯ is of colour ▯.", By: "official", Score: 0}, "reo ni hirai moq": Word{Word: "reo ni hirai moq", Def: "phrase: \"What colour is this?\", \"What colour does this have?\"", By: "official", Score: 0}, "reobo": Word{Word: "reobo", Def: "predicate: ‘coloured’; ▯ is coloured; ▯ is of colour ▯.", By: "Ilmen", Score: 0}, "reokaq": Word{Word: "reokaq", Def: "▯ is a color.", By: "Ilmen", Score: 0}, "reomia": Word{Word: "reomia", Def: "▯ is many-coloured/multicoloured/multicolored.", By: "Hoemai", Score: 0}, "reomuoq": Word{Word: "reomuoq", Def: "paint (n)", By: "spreadsheet", Score: -1}, "reoq": Word{Word: "reoq", Def: "= gıq #chủı", By: "uakci", Score: 0}, "reoqchuq": Word{Word: "reoqchuq", Def: "▯ eats dinner", By: "seaqtaq", Score: 0}, "reoqfeo": Word{Word: "reoqfeo", Def: "▯ is the west (direction).", By: "Ilmen", Score: 0}, "reoqhaq": Word{Word: "reoqhaq", Def: "predicate: ‘dinner’; ▯ is dinner (late/evening meal).", By: "official", Score: 0}, "reoqlio": Word{Word: "reoqlio", Def: "▯ is the south (direction)", By: "Ilmen", Score: 0}, "reoqriao": Word{Word: "reoqriao", Def: "predicate: ‘dusk’; ▯ is dusk.", By: "official", Score: 0}, "reoqsiaq": Word{Word: "reoqsiaq", Def: "north (direction)", By: "spreadsheet", Score: -1}, "reosai": Word{Word: "reosai", Def: "▯ is paint/dye.", By: "lynn", Score: 2}, "reosia": Word{Word: "reosia", Def: "predicate: ‘colourless’; ▯ is colourless.", By: "official", Score: 0}, "reotuai": Word{Word: "reotuai", Def: "▯ is a chromosome.", By: "Hoemai", Score: 0}, "repi": Word{Word: "repi", Def: "reptile", By: "spreadsheet", Score: 0}, "req": Word{Word: "req", Def: "predicate: ‘human’; ▯ is a human.", By: "official", Score: 0}, "reqbu": Word{Word: "reqbu", Def: "▯ non-human is.", By: "uakci", Score: 0}, "reqdīu": Word{Word: "reqdīu", Def: "▯ is anthropology.", By: "lynn", Score: 0}, "reqkea": Word{Word: "reqkea", Def: "▯ is an android.", By: "Ilmen", Score: 0}, "reqro": Word{Word: "reqro", Def: "throw", By: "spreadsheet", Score: -1}, "reqse": Word{Word: "reqse", Def: "▯ is artificial/man-made.", By: "Ilmen", Score: 0}, "reqsesai": Word{Word: "reqsesai", Def: "▯ is plastic.", By: "Ilmen", Score: 0}, "reqshuaq": Word{Word: "reqshuaq", Def: "A man made ▯; ▯ is man-made.", By: "uakci", Score: 0}, "reqsiu": Word{Word: "reqsiu", Def: "predicate: ‘humanoid’; ▯ is humanoid/human-like.", By: "official", Score: 0}, "reqsua": Word{Word: "reqsua", Def: "In order for ▯ to be achieved, at least ▯ (number) people’s work is required.", By: "uakci", Score: 0}, "reu": Word{Word: "reu", Def: "tu dópā pǔıjēq hóa dóshī na tu dógū lǔ to ru pủıjēq hóa dógū to lỉ mẻa ja dó to ru dópā to hóa ceı sıa ráı bı pủıjēq dóshī tu lú tu dó bı jẻojēq mêa dó hóa na mê dó sa lú mẻa hóa shỉ dópā na roı sa lú mẻa hóa shỉ dórē da", By: "uakci", Score: 0}, "reu go": Word{Word: "reu go", Def: "▯ = ▯ ÷ ▯.", By: "Ilmen", Score: 0}, "ri": Word{Word: "ri", Def: "Conjunction: which?", By: "fagri", Score: 0}, "ria": Word{Word: "ria", Def: "= #kıu #pẻo", By: "uakci", Score: 0}, "ria ta chuao da.": Word{Word: "ria ta chuao da.", Def: "(QUA.4) The windows is open.", By: "official", Score: 0}, "riachoacha": Word{Word: "riachoacha", Def: "(fork of #qnPvxOOld) ▯ is breathy/murmured voice (phonetics)", By: "seaqtaq", Score: 0}, "riachoatoai": Word{Word: "riachoatoai", Def: "▯ is a vowel.", By: "Ilmen", Score: 0}, "riai": Word{Word: "riai", Def: "predicate: ‘support’; ▯ supports ▯; ▯ holds up ▯.", By: "official", Score: 0}, "riaiceaq": Word{Word: "riaiceaq", Def: "▯ is a hoof.", By: "Ilmen", Score: 0}, "riaigiq": Word{Word: "riaigiq", Def: "▯ is against ▯", By: "seaqtaq", Score: 0}, "riaigiqtaokiu": Word{Word: "riaigiqtaokiu", Def: "▯ is reversable", By: "seaqtaq", Score: 0}, "riaigiqtaokiubu": Word{Word: "riaigiqtaokiubu", Def: "▯ is irreversable", By: "seaqtaq", Score: 0}, "riaihe(kea)": Word{Word: "riaihe(kea)", Def: "▯ is a frame/structure/skeleton/supporting outline.", By: "seaqtaq", Score: 0}, "riaikuq": Word{Word: "riaikuq", Def: "argue that", By: "spreadsheet", Score: 0}, "riaimu": Word{Word: "riaimu", Def: "▯ hangs off of ▯.", By: "uakci", Score: 0}, "riao": Word{Word: "riao", Def: "predicate: ‘twilight’; ▯ is a twilight/dawn/dusk/half-light/glimmering.", By: "official", Score: 0}, "riaq": Word{Word: "riaq", Def: "= mu #tỉ", By: "uakci", Score: 0}, "riaqkea": Word{Word: "riaqkea", Def: "▯ is a map", By: "seaqtaq", Score: 0}, "riaqnua": Word{Word: "riaqnua", Def: "▯ is the result of substituting ▯ for ▯ into ▯; ▯ = [▯ → ▯](▯).", By: "uakci", Score: 0}, "riba": Word{Word: "riba", Def: "▯ is a member of genus Ribes (including the blackcurrant, redcurrant, white currant, the gooseberry and other plants).", By: "Hoemai", Score: 0}, "ridi": Word{Word: "ridi", Def: "bridi", By: "spreadsheet", Score: -1}, "rie": Word{Word: "rie", Def: "predicate: ‘between’; ▯ is between/amidst/among ▯ (plural).", By: "official", Score: 0}, "riegoa": Word{Word: "riegoa", Def: "▯ is the space/room/gap between ▯ (plural).", By: "lynn", Score: 0}, "rieq": Word{Word: "rieq", Def: "predicate: ‘avoid’; ▯ avoids/evades satisfying property ▯.", By: "official", Score: 0}, "rietei": Word{Word: "rietei", Def: "interface", By: "spreadsheet", Score: 0}, "rilu": Word{Word: "rilu", Def: "mail, ship, mrilu", By: "spreadsheet", Score: 0}, "rio": Word{Word: "rio", Def: "predicate: ‘air’; ▯ is air.", By: "official", Score: 0}, "riobiu": Word{Word: "riobiu", Def: "▯ is a hurricane; 🌪.", By: "uakci", Score: -1}, "riochao": Word{Word: "riochao", Def: "predicate: ‘aircraft’; ▯ is an aircraft/plane.", By: "official", Score: 0}, "riociu": Word{Word: "riociu", Def: "burp/fart ()", By: "spreadsheet", Score: 0}, "rioduo": Word{Word: "rioduo", Def: "wind", By: "spreadsheet", Score: 0}, "riofa": Word{Word: "riofa", Def: "fly, vofli", By: "spreadsheet", Score: 0}, "rioi": Word{Word: "rioi", Def: "▯ is a replacement, surrogate, substitute, representation, stand-in for ▯ in satisfying p-ty ▯; ▯ is instead of ▯ in being ▯; ▯ replaces ▯ for task ▯. [Lojban ‘basti’ + ‘krati’]", By: "uakci", Score: 0}, "riolai": Word{Word: "riolai", Def: "comma (,)", By: "uakci", Score: 0}, "rioliai": Word{Word: "rioliai", Def: "▯ flies.", By: "Ilmen", Score: 0}, "riomiq": Word{Word: "riomiq", Def: "▯ is an atmosphere.", By: "Ilmen", Score: 0}, "riomuoibīu": Word{Word: "riomuoibīu", Def: "▯ is a tornado", By: "seaqtaq", Score: 0}, "rionao": Word{Word: "rionao", Def: "▯ is dew.", By: "Ilmen", Score: 0}, "rionaomai": Word{Word: "rionaomai", Def: "▯ is a fruit fly (Drosophila taxonomic genus).", By: "Ilmen", Score: 0}, "riopie": Word{Word: "riopie", Def: "breathe ()", By: "spreadsheet", Score: 0}, "riopiecea": Word{Word: "riopiecea", Def: "lung", By: "spreadsheet", Score: 0}, "riopiehua": Word{Word: "riopiehua", Def: "lung", By: "spreadsheet", Score: 0}, "rioq": Word{Word: "rioq", Def: "mẻa dóshī dógū, na ru jẻo dóshī sa lú bủ jêo tu lú mẻa hóa dógū na hóa da", By: "uakci", Score: 0}, "rioqbaq": Word{Word: "rioqbaq", Def: "▯ is the default", By: "seaqtaq", Score: 0}, "rioqdīu": Word{Word: "rioqdīu", Def: "▯ is typology", By: "seaqtaq", Score: 0}, "rioqheo": Word{Word: "rioqheo", Def: "▯ pa: hẻo ▯ rîoq ja dó", By: "seaqtaq", Score: 0}, "rioqjeqchuq": Word{Word: "rioqjeqchuq", Def: "▯ is a cannibal.", By: "Ilmen", Score: 0}, "riosai": Word{Word: "riosai", Def: "▯ is gas.", By: "lynn", Score: 0}, "riosho": Word{Word: "riosho", Def: "▯ evaporates.", By: "Ilmen", Score: 0}, "riosiu": Word{Word: "riosiu", Def: "gas", By: "spreadsheet", Score: 0}, "riq": Word{Word: "riq", Def: "rẻo sa báq nỉu dóshī da", By: "uakci", Score: 0}, "riqchai": Word{Word: "riqchai", Def: "▯ is green tea.", By: "uakci", Score: 0}, "riqchaq": Word{Word: "riqchaq", Def: "predicate: ‘thursday’; ▯ is a Thursday.", By: "official", Score: 0}, "riqnao": Word{Word: "riqnao", Def: "▯ is bile.", By: "Ilmen", Score: 0}, "riqreo": Word{Word: "riqreo", Def: "predicate: ‘green’; ▯ is of green colour.", By: "official", Score: 0}, "riqshueq": Word{Word: "riqshueq", Def: "▯ is ill-brewed green tea (characterised by a bitter aftertaste).", By: "uakci", Score: 0}, "riteoq": Word{Word: "riteoq", Def: "▯ is a which-of-the-two question (a question using **rı**).", By: "Hoemai", Score: 0}, "riu": Word{Word: "riu", Def: "= #nıqgūo #jẻo", By: "uakci", Score: 0}, "riu roe": Word{Word: "riu roe", Def: "predicate: ‘recover’; ▯ recovers ", By: "seaqtaq", Score: 0}, "riubeaq": Word{Word: "riubeaq", Def: "predicate: ‘boomerang’; ▯ is a boomerang.", By: "official", Score: 0}, "riudoa": Word{Word: "riudoa", Def: "predicate: ‘give.back’; ▯ returns ▯ to ▯; ▯ gives ▯ back to ▯.", By: "official", Score: 0}, "riuduo": Word{Word: "riuduo", Def: "predicate: ‘return’; ▯ returns to ▯; ▯ moves back to ▯.", By: "official", Score: 0}, "riufa": Word{Word: "riufa", Def: "predicate: ‘return’; ▯ returns to ▯; ▯ goes back to ▯.", By: "official", Score: 0}, "riusoi": Word{Word: "riusoi", Def: "▯ revenges on ▯ by doing ▯.", By: "uakci", Score: 0}, "riutao": Word{Word: "riutao", Def: "▯ does ▯/1 in return for ▯/0; (▯ does ▯/1 in gratefulness for ▯; ▯ does ▯/1 to make up for ▯.)", By: "uakci", Score: 0}, "riutua": Word{Word: "riutua", Def: "▯ resets ▯\u00a0", By: "seaqtaq", Score: 0}, "riutue": Word{Word: "riutue", Def: "▯ is the anniversary of ▯\u00a0", By: "seaqtaq", Score: 0}, "ro": Word{Word: "ro", Def: "conjunction: ‘xor’; exclusive or", By: "official", Score: 0}, "roa": Word{Word: "roa", Def: "adverb: ‘naturally’; \"naturally\"", By: "official", Score: 0}, "roacoaq": Word{Word: "roacoaq", Def: "▯ is domesticated.", By: "Ilmen", Score: 0}, "roadeq": Word{Word: "roadeq", Def: "▯ innately satisfies property ▯.", By: "Ilmen", Score: 0}, "roagiq": Word{Word: "roagiq", Def: "artificial", By: "spreadsheet", Score: 0}, "roai": Word{Word: "roai", Def: "predicate: ‘eight’; ▯ are eight in number.", By: "official", Score: 0}, "roai chieniq pa leo choadeoq da.": Word{Word: "roai chieniq pa leo choadeoq da.", Def: "(A0373) The 8 students try to voice chat.", By: "examples", Score: 0}, "roaifeode(poq)": Word{Word: "roaifeode(poq)", Def: "▯ is a 八方美人 [hap·pō·bi·jin]; ▯ is a «person beautiful in eight directions» – somebody who tries to appeal to and be a friend of everybody.", By: "uakci", Score: 0}, "roaijue": Word{Word: "roaijue", Def: "▯ is August", By: "lynn", Score: 1}, "roaiko": Word{Word: "roaiko", Def: "predicate: ‘eighth’; ▯ is eighth among ▯.", By: "official", Score: 0}, "roailaqtei": Word{Word: "roailaqtei", Def: "▯ is the eighth tone (neutral).", By: "lynn", Score: 0}, "roaipue": Word{Word: "roaipue", Def: "octopus", By: "spreadsheet", Score: 0}, "roajiaq": Word{Word: "roajiaq", Def: "predicate: ‘nature’; ▯ is nature.", By: "official", Score: 0}, "roamiu": Word{Word: "roamiu", Def: "instinct", By: "spreadsheet", Score: -1}, "roao": Word{Word: "roao", Def: "▯ decorates/adorns ▯; ▯ is a decoration/embellishment to ▯.", By: "uakci", Score: 0}, "roaq": Word{Word: "roaq", Def: "nỉaı dóshī ru dógū, na ru lủı bảı dóshī dógū da", By: "uakci", Score: 0}, "roaqfu": Word{Word: "roaqfu", Def: "▯ is a half-sibling of ▯.", By: "sheireq", Score: 0}, "roaqpia": Word{Word: "roaqpia", Def: "▯ is an aunt/uncle of ▯ (sibling of parent)", By: "seaqtaq", Score: 0}, "roaqpiafu": Word{Word: "roaqpiafu", Def: "▯ is a cousin of ▯", By: "seaqtaq", Score: 0}, "roaqroaq": Word{Word: "roaqroaq", Def: "▯ is the parent of the parent of ▯", By: "seaqtaq", Score: 0}, "roaqseo": Word{Word: "roaqseo", Def: "▯ is a step-parent of ▯.", By: "sheireq", Score: 0}, "roaqseofu": Word{Word: "roaqseofu", Def: "▯ is a step-sibling of ▯.", By: "sheireq", Score: 0}, "roaqsu": Word{Word: "roaqsu", Def: "(fork of #3UaRLtcuB) ▯ is the parent of the parent of ▯", By: "seaqtaq", Score: 0}, "roaruo": Word{Word: "roaruo", Def: "instinct", By: "spreadsheet", Score: -1}, "roaruodiu": Word{Word: "roaruodiu", Def: "▯ is ethology.", By: "Ilmen", Score: 0}, "roateu": Word{Word: "roateu", Def: "▯ = exp(▯).", By: "Ilmen", Score: 0}, "roateu go": Word{Word: "roateu go", Def: "▯ = ln(▯).", By: "Ilmen", Score: 0}, "roatoaq": Word{Word: "roatoaq", Def: "▯ is a natural language.", By: "lynn", Score: 0}, "rodoq": Word{Word: "rodoq", Def: "rose, plant", By: "spreadsheet", Score: 0}, "rodoqmuao": Word{Word: "rodoqmuao", Def: "▯ is a member of genus Rhododendron.", By: "Hoemai", Score: 0}, "roe": Word{Word: "roe", Def: "predicate: ‘healthy’; ▯ is healthy.", By: "official", Score: 0}, "roediu": Word{Word: "roediu", Def: "medicine (science)", By: "spreadsheet", Score: 0}, "roeduo": Word{Word: "roeduo", Def: "physical exercise", By: "spreadsheet", Score: -1}, "roene": Word{Word: "roene", Def: "health (amount)", By: "spreadsheet", Score: 0}, "roesho": Word{Word: "roesho", Def: "predicate: ‘recover’; ▯ recovers; ▯ becomes healthy.", By: "official", Score: 0}, "roesoamuoq": Word{Word: "roesoamuoq", Def: "medicine (substance)", By: "spreadsheet", Score: 0}, "roha": Word{Word: "roha", Def: "▯ is social.", By: "uakci", Score: -1}, "rohe": Word{Word: "rohe", Def: "▯ is mental.", By: "uakci", Score: -1}, "rohi": Word{Word: "rohi", Def: "▯ is emotional.", By: "uakci", Score: -1}, "roho": Word{Word: "roho", Def: "▯ is bodily, somatic.", By: "uakci", Score: -1}, "rohu": Word{Word: "rohu", Def: "▯ is sexual.", By: "uakci", Score: -1}, "roi": Word{Word: "roi", Def: "[RU] Mủıjēq mó dóshī roı dógū teo mó lú rảrōı hóa dóshī dógū na teo da.", By: "Ilmen", Score: 0}, "roichiaitao": Word{Word: "roichiaitao", Def: "▯ commits Freudian slip ▯.", By: "uakci", Score: 0}, "roijeo": Word{Word: "roijeo", Def: "▯ (predicate) is true of the argument structure ⟨▯, (▯, (▯, …)))⟩; the first argument is a predicate that is true of the argument structure made from to the remaining arguments.", By: "Ilmen", Score: 1}, "roineu": Word{Word: "roineu", Def: "▯ is the sum of all the numbers among ▯.", By: "Ilmen", Score: 0}, "roireu": Word{Word: "roireu", Def: "▯ is the product of all the numbers among ▯.", By: "Ilmen", Score: 0}, "rokodelo": Word{Word: "rokodelo", Def: "▯ is a crocodile.", By: "Ilmen", Score: 0}, "roq": Word{Word: "roq", Def: "bỉaq mẻo dóshī cà shûaq ru lỉ shỏe pẻo ja dó ja ráı sa pó dó ga kảqhūa na dóshī dógū da", By: "uakci", Score: 0}, "roq suq kui hi rai moq.": Word{Word: "roq suq kui hi rai moq.", Def: "(A0587) Why are you crying?", By: "examples", Score: 0}, "roqdiao": Word{Word: "roqdiao", Def: "predicate: ‘tear’; ▯ is a tear/teardrop.", By: "official", Score: 0}, "rotaq": Word{Word: "rotaq", Def: "paradox", By: "uakci", Score: 0}, "roti": Word{Word: "roti", Def: "bread", By: "spreadsheet", Score: 0}, "ru": Word{Word: "ru", Def: "[RU] Shủ rủ lúcōetōa lǎı hóa cúaq tỏrū da.", By: "Ilmen", Score: 0}, "ru mu su": Word{Word: "ru mu su", Def: "… and vice-versa (reciprocity of the two first arguments).", By: "Ilmen", Score: 0}, "ru sugo": Word{Word: "ru sugo", Def: "… and vice-versa (reciprocity of the two first arguments).", By: "Ilmen", Score: 1}, "rua": Word{Word: "rua", Def: "predicate: ‘flower’; ▯ is a flower.", By: "official", Score: 0}, "ruadueq": Word{Word: "ruadueq", Def: "▯ is a flower field.", By: "Ilmen", Score: 0}, "ruai": Word{Word: "ruai", Def: "predicate: ‘royal’; ▯ is royal/noble/aristocratic.", By: "official", Score: 0}, "ruaibue": Word{Word: "ruaibue", Def: "▯ is a palace", By: "seaqtaq", Score: 0}, "ruaicha": Word{Word: "ruaicha", Def: "▯ is done in a noble/dignified manner/fashion.", By: "uakci", Score: 0}, "ruaichea": Word{Word: "ruaichea", Def: "predicate: ‘crown’; ▯ is a crown.", By: "official", Score: 0}, "ruaifu": Word{Word: "ruaifu", Def: "▯ is a prince or princess.", By: "Ilmen", Score: 0}, "ruaijoaq": Word{Word: "ruaijoaq", Def: "predicate: ‘king/queen’; ▯ is a king/queen.", By: "official", Score: 0}, "ruailiqfu": Word{Word: "ruailiqfu", Def: "predicate: ‘princess’; ▯ is a princess.", By: "official", Score: 0}, "ruainaqfu": Word{Word: "ruainaqfu", Def: "predicate: ‘prince’; ▯ is a prince.", By: "official", Score: 0}, "ruairui": Word{Word: "ruairui", Def: "▯ is Earl Grey (Earl Gray) tea.", By: "uakci", Score: 0}, "ruaniai": Word{Word: "ruaniai", Def: "▯ is an anthozoan (Anthozoa taxonomic class: corals, sea anemones, gorgonians).", By: "Ilmen", Score: 0}, "ruao": Word{Word: "ruao", Def: "predicate: ‘forgive’; ▯ forgives ▯ for satisfying property ▯.", By: "official", Score: 0}, "ruaq": Word{Word: "ruaq", Def: "predicate: ‘assert’; ▯ asserts/claims ▯ to be the case.", By: "official", Score: 0}, "ruaq huitua": Word{Word: "ruaq huitua", Def: "▯ asserts that ▯ made bad thing ▯ happen;\u00a0 ▯ criticizes ▯ for ▯.", By: "lynn", Score: 0}, "ruaq suq ti suq niriaq na rao puchaq.": Word{Word: "ruaq suq ti suq niriaq na rao puchaq.", Def: "(CCL.3) You asserted that you were here yesterday.", By: "official", Score: 0}, "ruaqcheu": Word{Word: "ruaqcheu", Def: "▯ tells lie ▯ (proposition); ▯ deceitfully asserts ▯ while not thinking it to be the case.", By: "Ilmen", Score: 0}, "ruaqchi": Word{Word: "ruaqchi", Def: "hear that (hearsay, indirect information), ti'erna", By: "spreadsheet", Score: 0}, "ruaqdiu": Word{Word: "ruaqdiu", Def: "▯ is the field of Pragmatics", By: "seaqtaq", Score: 0}, "ruaqdua": Word{Word: "ruaqdua", Def: "▯ knows ▯ from hearsay (no matter through which medium —spoken, written…— that second-hand information was obtained).", By: "Ilmen", Score: 0}, "ruaqduaji": Word{Word: "ruaqduaji", Def: "I heard that / according to hearsays ▯ is the case.", By: "Ilmen", Score: 0}, "ruaqgai": Word{Word: "ruaqgai", Def: "hear that (hearsay, indirect information), ti'erna", By: "spreadsheet", Score: 1}, "ruaqgi": Word{Word: "ruaqgi", Def: "▯ is sincere/honest.", By: "Ilmen", Score: 0}, "ruaqhui": Word{Word: "ruaqhui", Def: "▯ is lying by asserting ▯.", By: "Ilmen", Score: 0}, "ruaqmoaq": Word{Word: "ruaqmoaq", Def: "hear that (hearsay, indirect information), ti'erna", By: "spreadsheet", Score: 0}, "ruaqnu": Word{Word: "ruaqnu", Def: "▯ is alledged to be the case; ▯ alledgedly satisfies property ▯", By: "seaqtaq", Score: 0}, "ruaqruaq": Word{Word: "ruaqruaq", Def: "▯ reports ▯ (0) to ▯", By: "fagri", Score: 0}, "ruaqse": Word{Word: "ruaqse", Def: "▯is an assertion/claim", By: "seaqtaq", Score: 1}, "ruaqshao": Word{Word: "ruaqshao", Def: "▯ meant to declare ▯", By: "fagri", Score: 0}, "ruashuao": Word{Word: "ruashuao", Def: "hummingbird", By: "spreadsheet", Score: -1}, "ruboq": Word{Word: "ruboq", Def: "▯ omits doing ▯; ▯ could’ve done/been ▯ while doing/being ▯, but they chose to avoid the former and did/were just the latter.", By: "uakci", Score: 0}, "rudo": Word{Word: "rudo", Def: "▯ is a member of genus Rubus (including the raspberries, blackberries, dewberries and other plants).", By: "Hoemai", Score: 0}, "rudobuishabu": Word{Word: "rudobuishabu", Def: "We are not out of the brambles.", By: "Ilmen", Score: 0}, "rue": Word{Word: "rue", Def: "predicate: ‘weak’; ▯ is weak/feeble.", By: "official", Score: 0}, "ruechoakuq": Word{Word: "ruechoakuq", Def: "▯ whispers ▯ to ▯", By: "seaqtaq", Score: 0}, "ruedea": Word{Word: "ruedea", Def: "▯ taps/knocks on ▯", By: "fagri", Score: 0}, "ruedua": Word{Word: "ruedua", Def: "▯ guesses/supposes/conjectures that ▯ is the case.", By: "Ilmen", Score: 0}, "ruekoi": Word{Word: "ruekoi", Def: "▯ walks timidly / treads lightly / tip-toes.", By: "lynn", Score: 0}, "ruemoaq": Word{Word: "ruemoaq", Def: "▯ faintly remembers ▯.", By: "lynn", Score: 0}, "ruenuoi": Word{Word: "ruenuoi", Def: "▯ nibbles at ▯", By: "seaqtaq", Score: 0}, "rueq": Word{Word: "rueq", Def: "predicate: ‘tight’; ▯ is tight.", By: "official", Score: 0}, "rugo": Word{Word: "rugo", Def: "▯ and ▯ are in relation ▯ with each other.", By: "Ilmen", Score: 0}, "rui": Word{Word: "rui", Def: "grey / gray", By: "uakci", Score: 0}, "ruireo": Word{Word: "ruireo", Def: "predicate: ‘gray’; ▯ is of gray colour.", By: "official", Score: 0}, "ruireo seoq da.": Word{Word: "ruireo seoq da.", Def: "(A0378) The sky is gray.", By: "examples", Score: 0}, "rujeo": Word{Word: "rujeo", Def: "Both ▯ and ▯ are the case; both ▯ and ▯ satisfy property ▯", By: "seaqtaq", Score: 0}, "ruji": Word{Word: "ruji", Def: "▯ is cream.", By: "Ilmen", Score: 0}, "ruka": Word{Word: "ruka", Def: "back (body part)", By: "spreadsheet", Score: -1}, "rukahie": Word{Word: "rukahie", Def: "▯ carries ▯ on their back.", By: "Ilmen", Score: 0}, "runa": Word{Word: "runa", Def: "pattern", By: "spreadsheet", Score: 0}, "ruo": Word{Word: "ruo", Def: "predicate: ‘behave’; ▯ behaves in way ▯ (property); ▯ conducts themselves in manner ▯ (property).", By: "official", Score: 0}, "ruobia": Word{Word: "ruobia", Def: "fenki", By: "spreadsheet", Score: 0}, "ruodiu": Word{Word: "ruodiu", Def: "▯ is a behavioral science.", By: "Ilmen", Score: 0}, "ruogi": Word{Word: "ruogi", Def: "polite", By: "spreadsheet", Score: 0}, "ruohui": Word{Word: "ruohui", Def: "▯ (agent) is rude/badly-behaved/mean", By: "fagri", Score: 0}, "ruoi": Word{Word: "ruoi", Def: "predicate: ‘thin’; ▯ is thin.", By: "official", Score: 0}, "ruoluaq": Word{Word: "ruoluaq", Def: "▯ pretends to be ▯; ▯ plays out ▯; ▯ does impression ▯.", By: "uakci", Score: 0}, "ruome": Word{Word: "ruome", Def: "▯ is etiquette", By: "seaqtaq", Score: 0}, "ruonieq": Word{Word: "ruonieq", Def: "clumsy, awkward", By: "uakci", Score: 0}, "ruopoe": Word{Word: "ruopoe", Def: "▯ is independent from ▯.", By: "uakci", Score: -1}, "ruoq": Word{Word: "ruoq", Def: "predicate: ‘straight’; ▯ is straight/linear.", By: "official", Score: 0}, "ruoqgaoduochao": Word{Word: "ruoqgaoduochao", Def: "▯ is a helicopter.", By: "Ilmen", Score: 0}, "ruoshai": Word{Word: "ruoshai", Def: "▯ falls from grace.", By: "uakci", Score: 0}, "ruotue": Word{Word: "ruotue", Def: "behavior", By: "spreadsheet", Score: 0}, "ruq": Word{Word: "ruq", Def: "nảo dóshī, na ru rảo go sa ráı nîe dóshī sa púao da", By: "uakci", Score: 0}, "ruqdiao": Word{Word: "ruqdiao", Def: "predicate: ‘raindrop’; ▯ is a raindrop.", By: "official", Score: 0}, "ruqnuao": Word{Word: "ruqnuao", Def: "predicate: ‘rainbow’; ▯ is a rainbow.", By: "official", Score: 0}, "ruqshua": Word{Word: "ruqshua", Def: "shủa dóshī rủq dógū dósāq da", By: "uakci", Score: 0}, "ruqshua bu da.": Word{Word: "ruqshua bu da.", Def: "(PRX.4) It isn't raining.", By: "official", Score: 0}, "ruqshua da.": Word{Word: "ruqshua da.", Def: "(A0204) It's raining.", By: "examples", Score: 0}, "ruqshua.": Word{Word: "ruqshua.", Def: "phrase: \"It's raining.\"", By: "official", Score: 0}, "ruqshuanai": Word{Word: "ruqshuanai", Def: "It's raining.", By: "fagri", Score: 0}, "ruqtie": Word{Word: "ruqtie", Def: "▯ is an umbrella, an overhang, or any other kind of physical blocker of rain.", By: "uakci", Score: 0}, "ruroi": Word{Word: "ruroi", Def: "▯ are the things that are both among ▯ and among ▯.", By: "Ilmen", Score: 0}, "rushe": Word{Word: "rushe", Def: "process", By: "spreadsheet", Score: -1}, "sa": Word{Word: "sa", Def: "[SA] Shủ sả cótōa lǎı hóa cúaq sảlī da.", By: "Ilmen", Score: 0}, "sa cijue lu rao hoa bi bu ceo chie ji sa meaheo toaq bi hui maq da.": Word{Word: "sa cijue lu rao hoa bi bu ceo chie ji sa meaheo toaq bi hui maq da.", Def: "(A0150) A June in which I don't start learning a new language is bad.", By: "examples", Score: 0}, "sa do bi chufaq chuq ji do da.": Word{Word: "sa do bi chufaq chuq ji do da.", Def: "(A0427) I'm eating something right now.", By: "examples", Score: 0}, "sa do bi kaqgai do ji.": Word{Word: "sa do bi kaqgai do ji.", Def: "(PRX.1) There exist(s) some X such that X sees me.", By: "official", Score: 0}, "sa geo poq pa pua chuq baq gui da.": Word{Word: "sa geo poq pa pua chuq baq gui da.", Def: "(A0100) Some old people like to eat grains.", By: "examples", Score: 0}, "sa joe su kuq no hiqlitoaq pa ruogi soa ji ba.": Word{Word: "sa joe su kuq no hiqlitoaq pa ruogi soa ji ba.", Def: "(A0975) ", By: "examples", Score: 0}, "sa poq": Word{Word: "sa poq", Def: "argument phrase: \"someone\", \"somebody\"", By: "official", Score: 0}, "sa poq pa fa rao tu loachaq baq jiaojio da.": Word{Word: "sa poq pa fa rao tu loachaq baq jiaojio da.", Def: "(A0269) Some people go to church every Sunday.", By: "examples", Score: 0}, "sa poq pa lu lao ji ti hoa da.": Word{Word: "sa poq pa lu lao ji ti hoa da.", Def: "(A0544) About some people: I await  their presence.", By: "examples", Score: 0}, "sa rai": Word{Word: "sa rai", Def: "argument phrase: \"something\"", By: "official", Score: 0}, "sa rai ji toqfua": Word{Word: "sa rai ji toqfua", Def: "(QUA.6) I am in some way related to the table.", By: "official", Score: 0}, "sa suao pa lu bu dua suq hoa da.": Word{Word: "sa suao pa lu bu dua suq hoa da.", Def: "(A0382) There is something important that you don't know.", By: "examples", Score: 0}, "sa tuq rai": Word{Word: "sa tuq rai", Def: "argument phrase: \"all things (together)\"", By: "official", Score: 0}, "sabaq": Word{Word: "sabaq", Def: "predicate: ‘soap’; ▯ is soap.", By: "official", Score: 0}, "sabaq bi naipu hai bojea ji pui maq kui choaidia da.": Word{Word: "sabaq bi naipu hai bojea ji pui maq kui choaidia da.", Def: "(A0772) ", By: "examples", Score: 0}, "sabeka": Word{Word: "sabeka", Def: "▯ is an elder/elderberry (genus Sambucus).", By: "Hoemai", Score: 0}, "sacheo": Word{Word: "sacheo", Def: "At least one pair among ▯ satisfies binary relationship ▯.", By: "lynn", Score: 0}, "sagi": Word{Word: "sagi", Def: "▯ is suitable for being ▯ed.", By: "Ilmen", Score: 0}, "sagiq": Word{Word: "sagiq", Def: "▯ = - ▯.", By: "uakci", Score: 0}, "saheaq": Word{Word: "saheaq", Def: "▯ carries with him/her/it something satisfying property ▯.", By: "Ilmen", Score: 0}, "sai": Word{Word: "sai", Def: "predicate: ‘matter’; ▯ is matter/material/substance.", By: "official", Score: 0}, "saidiu": Word{Word: "saidiu", Def: "▯ is chemistry", By: "seaqtaq", Score: 0}, "saine": Word{Word: "saine", Def: "▯ is the amount of substance of ▯.", By: "Ilmen", Score: 0}, "sairoq": Word{Word: "sairoq", Def: "▯ is iron", By: "fagri", Score: 0}, "saisia": Word{Word: "saisia", Def: "▯ is immaterial.", By: "Ilmen", Score: 0}, "saitoai": Word{Word: "saitoai", Def: "▯ is a molecule.", By: "Ilmen", Score: 0}, "sakaq": Word{Word: "sakaq", Def: "▯ pertains to the culture of Georgia.", By: "countries", Score: 0}, "sakaqgua": Word{Word: "sakaqgua", Def: "▯ is the country Georgia.", By: "countries", Score: 0}, "sakaqtoaq": Word{Word: "sakaqtoaq", Def: "▯ is (one of) the language(s) spoken in Georgia.", By: "countries", Score: 0}, "sake": Word{Word: "sake", Def: "▯ is saké (Japanese rice wine).", By: "Ilmen", Score: 0}, "salami": Word{Word: "salami", Def: "(fork of #qMpgdfm1l) ▯ is a salami", By: "brunofrancosalamin", Score: 0}, "sali": Word{Word: "sali", Def: "some thing(s) has/have property ▯ (among the things having the property ▯)", By: "Ilmen", Score: 0}, "samao": Word{Word: "samao", Def: "Property ▯ is also satisfied by something.", By: "uakci", Score: 0}, "same": Word{Word: "same", Def: "▯ is an aggregate of things having property ▯.", By: "Ilmen", Score: 0}, "samia": Word{Word: "samia", Def: "▯ is a moth of genus Samia (in the family Saturniidae).", By: "Hoemai", Score: 0}, "samuoq": Word{Word: "samuoq", Def: "▯ is made of a material satisfying property ▯.", By: "Ilmen", Score: 0}, "samurai": Word{Word: "samurai", Def: "▯ is a samurai.", By: "Ilmen", Score: 0}, "sani": Word{Word: "sani", Def: "temporary", By: "spreadsheet", Score: -1}, "sao": Word{Word: "sao", Def: "predicate: ‘big’; ▯ is big/large.", By: "official", Score: 0}, "sao gua faraqse da.": Word{Word: "sao gua faraqse da.", Def: "(A0078) France is a big country.", By: "examples", Score: 0}, "sao rua ni.": Word{Word: "sao rua ni.", Def: "(SRP.6) That is a large flower!", By: "official", Score: 0}, "saodi": Word{Word: "saodi", Def: "▯ pertains to the culture of Saudi Arabia – Kingdom of Saudi Arabia.", By: "countries", Score: 0}, "saodigua": Word{Word: "saodigua", Def: "▯ is the country Saudi Arabia – Kingdom of Saudi Arabia.", By: "countries", Score: 0}, "saoditoaq": Word{Word: "saoditoaq", Def: "▯ is (one of) the language(s) spoken in Saudi Arabia – Kingdom of Saudi Arabia.", By: "countries", Score: 0}, "saodoao": Word{Word: "saodoao", Def: "▯ is a telegram channel", By: "seaqtaq", Score: 0}, "saodoaq": Word{Word: "saodoaq", Def: "predicate: ‘city’; ▯ is a city.", By: "official", Score: 0}, "saofa": Word{Word: "saofa", Def: "travel", By: "spreadsheet", Score: 0}, "saogei": Word{Word: "saogei", Def: "▯ is the big gay", By: "seaqtaq", Score: 0}, "saoja": Word{Word: "saoja", Def: "▯ is a member of genus Cavia (guinea pigs, cavies).", By: "Hoemai", Score: 0}, "saojaq": Word{Word: "saojaq", Def: "predicate: ‘huge’; ▯ is huge.", By: "Ilmen", Score: 0}, "saojeaq": Word{Word: "saojeaq", Def: "predicate: ‘grow’; ▯ grows / gets bigger.", By: "official", Score: 0}, "saokai": Word{Word: "saokai", Def: "▯ writes ▯ on ▯ in uppercase", By: "seaqtaq", Score: 0}, "saokiao": Word{Word: "saokiao", Def: "gate", By: "spreadsheet", Score: -1}, "saokiao\u00a0": Word{Word: "saokiao\u00a0", Def: "▯ is a gate", By: "seaqtaq", Score: 0}, "saokua": Word{Word: "saokua", Def: "▯ is a hall.", By: "Hoemai", Score: 0}, "saone": Word{Word: "saone", Def: "▯ is the physical size of ▯", By: "seaqtaq", Score: 0}, "saonuikai": Word{Word: "saonuikai", Def: "(fork of #O3j3bmAUE) ▯ WriTEs ▯ oN ▯ LIkE tHiS", By: "seaqtaq", Score: 0}, "saopoq": Word{Word: "saopoq", Def: "▯ is a tall person.", By: "uakci", Score: 0}, "saopue": Word{Word: "saopue", Def: "kangaroo", By: "spreadsheet", Score: 0}, "saoriolai": Word{Word: "saoriolai", Def: "semicolon (;)", By: "uakci", Score: 0}, "saoro": Word{Word: "saoro", Def: "reptile", By: "spreadsheet", Score: 0}, "saoronuao": Word{Word: "saoronuao", Def: "▯ is a sauropsid.", By: "Ilmen", Score: 0}, "saoteq": Word{Word: "saoteq", Def: "▯ is commerce", By: "seaqtaq", Score: -1}, "sapa": Word{Word: "sapa", Def: "▯ accepts that ▯ be the case.", By: "Ilmen", Score: 0}, "sapabuo": Word{Word: "sapabuo", Def: "▯ is willing to do ▯.", By: "Ilmen", Score: 0}, "sapaqbo": Word{Word: "sapaqbo", Def: "▯ partially satisfies the property ▯, some part of it does and some other part doesn't.", By: "Ilmen", Score: 0}, "sapo": Word{Word: "sapo", Def: "▯ partially satisfies the property ▯, some part of it does and some other part doesn't.", By: "Ilmen", Score: 0}, "sapocheo": Word{Word: "sapocheo", Def: "▯ are partly related to each other by relation ▯; some of ▯ are ▯ to others", By: "fagri", Score: 0}, "sapoi": Word{Word: "sapoi", Def: "▯ is an event in which something is the x1", By: "seaqtaq", Score: 0}, "saq": Word{Word: "saq", Def: "predicate: ‘three’; ▯ are three in number.", By: "official", Score: 0}, "saq mi duagi simi da.": Word{Word: "saq mi duagi simi da.", Def: "(A0362) The Wise Monkeys are three.", By: "examples", Score: 0}, "saqchio": Word{Word: "saqchio", Def: "predicate: ‘thrice’; ▯ happens thrice / three times.", By: "official", Score: 0}, "saqhei,  shifue, jobiq, gubiqsaqfuejoheishi": Word{Word: "saqhei,  shifue, jobiq, gubiqsaqfuejoheishi", Def: "(NUM.3) thirty, one hundred, four thousand, two thousand three hundred fourty-one", By: "official", Score: 0}, "saqjieq": Word{Word: "saqjieq", Def: "▯ is a triangle.", By: "Ilmen", Score: 0}, "saqjue": Word{Word: "saqjue", Def: "▯ is a March", By: "Xeizzen", Score: 0}, "saqjå«e": Word{Word: "saqjå«e", Def: "▯ is March", By: "lynn", Score: 0}, "saqko": Word{Word: "saqko", Def: "predicate: ‘third’; ▯ is third among ▯.", By: "official", Score: 0}, "saqlaqtei": Word{Word: "saqlaqtei", Def: "▯ is the third tone (dipping).", By: "lynn", Score: 0}, "saqli": Word{Word: "saqli", Def: "slip, slide, glide", By: "spreadsheet", Score: -1}, "saqliaq": Word{Word: "saqliaq", Def: "predicate: ‘triplet’; ▯ is a triplet.", By: "official", Score: 0}, "saqpaq": Word{Word: "saqpaq", Def: "▯ is one third (of something).", By: "lynn", Score: 0}, "saqsheaq": Word{Word: "saqsheaq", Def: "▯ is a testicle", By: "seaqtaq", Score: 0}, "saqsheaqcea": Word{Word: "saqsheaqcea", Def: "▯ is a scrotum/ballsack", By: "seaqtaq", Score: 0}, "saqsioq": Word{Word: "saqsioq", Def: "predicate: ‘tricycle’; ▯ is a tricycle.", By: "official", Score: 0}, "saqta": Word{Word: "saqta", Def: "▯ is an umbrella/parasol shielding ▯ from ▯, made of material ▯, supported by ▯.", By: "Ilmen", Score: 0}, "sarai": Word{Word: "sarai", Def: "There exists something that satisfies property ▯; ∃x.▯‘x\u00a0", By: "uakci", Score: 0}, "saraimiu": Word{Word: "saraimiu", Def: "▯ is a quantifier; ▯ asserts that the possible values of free variable ▯ in expression ▯ are exactly the set ▯.", By: "uakci", Score: 0}, "saralia": Word{Word: "saralia", Def: "predicate: ‘Australia’; ▯ is Australia.", By: "official", Score: 0}, "saralia pa sao naoguaq da.": Word{Word: "saralia pa sao naoguaq da.", Def: "(A0379) Australia is a big island.", By: "examples", Score: 0}, "sasa": Word{Word: "sasa", Def: "There exists a pair of things in relation ▯.", By: "uakci", Score: 0}, "se": Word{Word: "se", Def: "predicate: ‘result’; ▯ is a result/product of performing action ▯.", By: "official", Score: 0}, "se chuakai": Word{Word: "se chuakai", Def: "▯ is a signature", By: "seaqtaq", Score: 0}, "se diedoa": Word{Word: "se diedoa", Def: "▯ is advice", By: "seaqtaq", Score: 0}, "se foqtao": Word{Word: "se foqtao", Def: "▯ is a call", By: "seaqtaq", Score: 0}, "sea": Word{Word: "sea", Def: "predicate: ‘rest’; ▯ rests/relaxes.", By: "official", Score: 0}, "sea jia ho bie guai ho da.": Word{Word: "sea jia ho bie guai ho da.", Def: "(A0384) He will relax after he eats.", By: "examples", Score: 0}, "sea suq nai ba.": Word{Word: "sea suq nai ba.", Def: "(A0385) You sleep now.", By: "examples", Score: 0}, "seachaqme": Word{Word: "seachaqme", Def: "holidays", By: "spreadsheet", Score: 0}, "seaha": Word{Word: "seaha", Def: "▯ yawns.", By: "Ilmen", Score: 0}, "seai": Word{Word: "seai", Def: "▯ ejaculates; ▯ comes; ▯ cums; ▯ climaxes.", By: "uakci", Score: 0}, "seaishuifoaqtuataq": Word{Word: "seaishuifoaqtuataq", Def: "▯ masturbates; ▯ pleases themselves.", By: "uakci", Score: 0}, "seaituataq": Word{Word: "seaituataq", Def: "▯ masturbates.", By: "uakci", Score: 0}, "seajai": Word{Word: "seajai", Def: "▯ feels relieved", By: "seaqtaq", Score: 1}, "seakuai": Word{Word: "seakuai", Def: "predicate: ‘exhausted’; ▯ is exhausted.", By: "official", Score: 0}, "seaq": Word{Word: "seaq", Def: "▯ rubs ▯’s stomach.", By: "uakci", Score: 0}, "seaqbe": Word{Word: "seaqbe", Def: "▯ is a sexy baby.", By: "uakci", Score: 0}, "seaqbeaq": Word{Word: "seaqbeaq", Def: "▯ is a phallus.", By: "uakci", Score: 0}, "seaqbeaqfuo": Word{Word: "seaqbeaqfuo", Def: "▯ and ▯ frot; ▯ and ▯ pleasure themselves by touching one another with their penises.", By: "uakci", Score: 0}, "seaqbeaqjieq": Word{Word: "seaqbeaqjieq", Def: "▯ is the glans (head) of penis ▯.", By: "uakci", Score: 0}, "seaqcai": Word{Word: "seaqcai", Def: "(fork of #P9yrkjsgZ) ▯ is sexually aroused.", By: "uakci", Score: 0}, "seaqcaq": Word{Word: "seaqcaq", Def: "▯ dominates ▯; ▯ and ▯ are in a dominance–submission relation.", By: "uakci", Score: 0}, "seaqcaqfi": Word{Word: "seaqcaqfi", Def: "▯ is a top (typically dominating during sex).", By: "uakci", Score: 0}, "seaqcaqgo": Word{Word: "seaqcaqgo", Def: "▯ is a bottom (typically submissive during sex).", By: "uakci", Score: 0}, "seaqcaqru": Word{Word: "seaqcaqru", Def: "▯ is versatile (both dominant and submissive).", By: "uakci", Score: 0}, "seaqcheo": Word{Word: "seaqcheo", Def: "▯ have an orgy.", By: "uakci", Score: 0}, "seaqchoaqjio": Word{Word: "seaqchoaqjio", Def: "▯ is a love hotel (a hotel accommodated for the purpose of having sex).", By: "uakci", Score: 0}, "seaqchuao": Word{Word: "seaqchuao", Def: "▯ is a vagina.", By: "uakci", Score: -1}, "seaqchuq": Word{Word: "seaqchuq", Def: "▯ has fellatio with ▯; ▯ sucks ▯’s reproductive organs.", By: "uakci", Score: 0}, "seaqcia": Word{Word: "seaqcia", Def: "▯ is a virgin", By: "seaqtaq", Score: 1}, "seaqciafei": Word{Word: "seaqciafei", Def: "▯ acts angrily because of not having sex; ▯ is sexually unappeased.", By: "uakci", Score: 0}, "seaqde": Word{Word: "seaqde", Def: "▯ is attractive.", By: "uakci", Score: 0}, "seaqdea": Word{Word: "seaqdea", Def: "fảq ru cảı cîu dóshī dógū sẻaqnāo da", By: "uakci", Score: 0}, "seaqdeajuiduoi": Word{Word: "seaqdeajuiduoi", Def: "▯ edges; ▯ stays keeps close to the point of ejaculations without reaching it for own pleasure.", By: "uakci", Score: 0}, "seaqdiu": Word{Word: "seaqdiu", Def: "▯ is sexology", By: "seaqtaq", Score: 0}, "seaqfeo": Word{Word: "seaqfeo", Def: "▯ is ▯’s sexuality.", By: "uakci", Score: 0}, "seaqfeojeo": Word{Word: "seaqfeojeo", Def: "▯ is attracted sexually, romantically, or otherwise to those who satisfy property ▯; ▯ is a ▯-sexual.", By: "uakci", Score: 0}, "seaqfeojietaq": Word{Word: "seaqfeojietaq", Def: "▯ identifies as being of sexuality ▯; ▯ identities as a ▯-sexual.", By: "uakci", Score: 0}, "seaqfeojua": Word{Word: "seaqfeojua", Def: "▯ is (a) queer; ▯ is a member of the LGBT… community.", By: "uakci", Score: 0}, "seaqfeoruaq": Word{Word: "seaqfeoruaq", Def: "▯ claims ▯ to be their sexuality; ▯ ‘comes out’ as a ▯-sexual.", By: "uakci", Score: 0}, "seaqfeoshui": Word{Word: "seaqfeoshui", Def: "▯ is closeted; ▯ hides their sexuality ▯ from (the) society.", By: "uakci", Score: 0}, "seaqfuaq": Word{Word: "seaqfuaq", Def: "▯ is pornographic; ▯ depicts a pornographic scene.", By: "uakci", Score: 0}, "seaqge": Word{Word: "seaqge", Def: "▯ is attractive; ▯ is something someone gets aroused from.", By: "uakci", Score: 0}, "seaqgeq": Word{Word: "seaqgeq", Def: "▯ hooks up with ▯; ▯ meets ▯ in order to have sex (in general).", By: "uakci", Score: 0}, "seaqgoai": Word{Word: "seaqgoai", Def: "▯ grinds on ▯", By: "seaqtaq", Score: 0}, "seaqguai": Word{Word: "seaqguai", Def: "▯ is a sex worker/prostitute; ▯ has sex with ▯ as work.", By: "uakci", Score: 0}, "seaqgue": Word{Word: "seaqgue", Def: "▯ is ‘bent’ (British slang); ▯ is homosexual.", By: "uakci", Score: 0}, "seaqguq": Word{Word: "seaqguq", Def: "▯ has ▯ on top of them; ▯ is sexually submissive to ▯.", By: "uakci", Score: 0}, "seaqhua": Word{Word: "seaqhua", Def: "▯ are genitals, reproductive organs.", By: "uakci", Score: 0}, "seaqjai": Word{Word: "seaqjai", Def: "▯ is sexually aroused.", By: "uakci", Score: 0}, "seaqkea": Word{Word: "seaqkea", Def: "▯ is a sex toy\u00a0", By: "seaqtaq", Score: 1}, "seaqkiq": Word{Word: "seaqkiq", Def: "▯ is porn; ▯ is a pornographic film (pornographic movie).", By: "uakci", Score: 0}, "seaqkuai": Word{Word: "seaqkuai", Def: "(fork of #SXfED6urN) ▯is sexually aroused/horny", By: "seaqtaq", Score: 0}, "seaqkuaicia": Word{Word: "seaqkuaicia", Def: "▯ is asexual.", By: "uakci", Score: 0}, "seaqluaq": Word{Word: "seaqluaq", Def: "▯ engage in foreplay.", By: "uakci", Score: 0}, "seaqluaqchuo": Word{Word: "seaqluaqchuo", Def: "▯ is a sex toy.", By: "uakci", Score: 0}, "seaqmoe": Word{Word: "seaqmoe", Def: "▯is sexually aroused/horny", By: "seaqtaq", Score: 0}, "seaqmoi": Word{Word: "seaqmoi", Def: "▯ has perverse thought ▯.", By: "uakci", Score: 0}, "seaqmoifai": Word{Word: "seaqmoifai", Def: "▯ is perverted; ▯ is a pervert.", By: "uakci", Score: 0}, "seaqmoige": Word{Word: "seaqmoige", Def: "▯ stimulates ▯ to fantasise ▯; ▯ bears sexual associations for ▯.", By: "uakci", Score: 0}, "seaqnao": Word{Word: "seaqnao", Def: "nảo ru bảo ru lỏaımēoq dóshī, na ru hẻq dóshī sa chúo fủshūaq da", By: "uakci", Score: 0}, "seaqne": Word{Word: "seaqne", Def: "▯ is ▯’s sex; ▯ is ▯’s gender.", By: "uakci", Score: -1}, "seaqnebeo": Word{Word: "seaqnebeo", Def: "▯ is gender-fluid.", By: "uakci", Score: 0}, "seaqneduoi": Word{Word: "seaqneduoi", Def: "▯ is cisgender.", By: "uakci", Score: 0}, "seaqneheoseaq": Word{Word: "seaqneheoseaq", Def: "▯ is heterosexual.", By: "uakci", Score: 0}, "seaqnehuqseaq": Word{Word: "seaqnehuqseaq", Def: "▯ is bisexual/pansexual.", By: "uakci", Score: 0}, "seaqnejeqseaq": Word{Word: "seaqnejeqseaq", Def: "▯ is homosexual.", By: "uakci", Score: 0}, "seaqnejie": Word{Word: "seaqnejie", Def: "According to ▯, it is ▯ that is ▯’s gender; ▯ assigns gender ▯ to person ▯.", By: "uakci", Score: 0}, "seaqnejietaq": Word{Word: "seaqnejietaq", Def: "▯ identifies as being of gender ▯; ▯ identifies as a ▯ (gender) person.", By: "uakci", Score: 0}, "seaqnejua": Word{Word: "seaqnejua", Def: "▯ is genderqueer.", By: "uakci", Score: 0}, "seaqneo": Word{Word: "seaqneo", Def: "▯ is on top of ▯; ▯ sexually dominates ▯.", By: "uakci", Score: 0}, "seaqnesha": Word{Word: "seaqnesha", Def: "▯ is transgender.", By: "uakci", Score: 0}, "seaqnie": Word{Word: "seaqnie", Def: "▯ is ‘inside’ ▯; ▯ has penetrated ▯.", By: "uakci", Score: 0}, "seaqnuli": Word{Word: "seaqnuli", Def: "▯ is personal lubricant; ▯ is lube.", By: "uakci", Score: 0}, "seaqpai": Word{Word: "seaqpai", Def: "▯ is ▯’s ‘friend with benefits’; ▯ has sex with ▯ despite not having romantic interest towards them.", By: "uakci", Score: 0}, "seaqpi": Word{Word: "seaqpi", Def: "sperm", By: "spreadsheet", Score: -1}, "seaqpoja": Word{Word: "seaqpoja", Def: "(fork of #qKuo5iV84) ▯orgasms", By: "seaqtaq", Score: 0}, "seaqreq": Word{Word: "seaqreq", Def: "▯ is Homo sexualis; ▯ is a human considered in terms of its inherent sexuality.", By: "uakci", Score: 0}, "seaqrioq": Word{Word: "seaqrioq", Def: "▯ is gender", By: "seaqtaq", Score: 0}, "seaqrioqbui": Word{Word: "seaqrioqbui", Def: "▯ is non-binary.", By: "uakci", Score: 0}, "seaqrioqduomuoq": Word{Word: "seaqrioqduomuoq", Def: "▯ is gender-fluid.", By: "uakci", Score: 0}, "seaqrioqnie": Word{Word: "seaqrioqnie", Def: "▯ conforms to the binaricity of gender.", By: "uakci", Score: 0}, "seaqruoq": Word{Word: "seaqruoq", Def: "▯ is ‘straight’; ▯ is heterosexual.", By: "uakci", Score: 0}, "seaqsha": Word{Word: "seaqsha", Def: "▯ climaxes.", By: "uakci", Score: 0}, "seaqshaobu": Word{Word: "seaqshaobu", Def: "▯ is a celibate.", By: "uakci", Score: 0}, "seaqtaq": Word{Word: "seaqtaq", Def: "(fork of #b0204agUY) ▯masturbates", By: "seaqtaq", Score: 0}, "seaqtaqkai": Word{Word: "seaqtaqkai", Def: "▯ makes a spelling error/typo more than once successively concerning the same piece of text", By: "seaqtaq", Score: 0}, "seaqteabia": Word{Word: "seaqteabia", Def: "▯ is afraid of having sex; ▯ has sexual anxiety disorder (SAD).", By: "uakci", Score: 0}, "seaqteq": Word{Word: "seaqteq", Def: "▯ pays money ▯ to person ▯ for having sex with them.", By: "uakci", Score: 0}, "seaqtie": Word{Word: "seaqtie", Def: "▯ is a condom.", By: "uakci", Score: 0}, "seaqtuai": Word{Word: "seaqtuai", Def: "▯ is a sex doll", By: "seaqtaq", Score: 0}, "secaq": Word{Word: "secaq", Def: "▯ is responsible for what results from ▯.", By: "uakci", Score: 0}, "sediu": Word{Word: "sediu", Def: "logic", By: "spreadsheet", Score: 0}, "sedu": Word{Word: "sedu", Def: "▯ is a hiccup.", By: "Ilmen", Score: 0}, "sei": Word{Word: "sei", Def: "▯ is truly/indeed/actually the case; ▯ truly/indeed/actually satisfies property ▯.", By: "uakci", Score: -1}, "sekuq": Word{Word: "sekuq", Def: "predicate: ‘second’; ▯ is a second.", By: "official", Score: 0}, "selaq": Word{Word: "selaq", Def: "▯ is a member of the superorder Selachimorpha/Selachii (the sharks).", By: "Hoemai", Score: 0}, "semiu": Word{Word: "semiu", Def: "▯ concludes that ▯ is the case", By: "seaqtaq", Score: 0}, "senegala": Word{Word: "senegala", Def: "▯ pertains to the culture of Senegal – Republic of Senegal.", By: "countries", Score: 0}, "senegalagua": Word{Word: "senegalagua", Def: "▯ is the country Senegal – Republic of Senegal.", By: "countries", Score: 0}, "senegalatoaq": Word{Word: "senegalatoaq", Def: "▯ is (one of) the language(s) spoken in Senegal – Republic of Senegal.", By: "countries", Score: 0}, "seo": Word{Word: "seo", Def: "kùı pó sa júao pa, gảq dóshī dógū lî bỏ ja dó na, lũ lẻ kủı hóa chêo mảı dóshī roı dógū da", By: "uakci", Score: 0}, "seo(sho)sue": Word{Word: "seo(sho)sue", Def: "▯ asks to marry/proposes to ▯", By: "seaqtaq", Score: 0}, "seoq": Word{Word: "seoq", Def: "gảo dóshī tu lú tỉ hóa gáıhā da", By: "uakci", Score: 0}, "seoq(gai)chuo": Word{Word: "seoq(gai)chuo", Def: "▯ is a telescope", By: "seaqtaq", Score: 0}, "seoqcuao": Word{Word: "seoqcuao", Def: "kensa, outer space", By: "spreadsheet", Score: 0}, "seoqcuaodiu": Word{Word: "seoqcuaodiu", Def: "astronomy", By: "spreadsheet", Score: 0}, "seoqcuaomie": Word{Word: "seoqcuaomie", Def: "▯ is an extraterrestrial.", By: "Ilmen", Score: 0}, "seoqdiu": Word{Word: "seoqdiu", Def: "▯ is astronomy", By: "seaqtaq", Score: 0}, "seoqhie": Word{Word: "seoqhie", Def: "▯ is a member the suborder Caelifera (the grasshoppers).", By: "Hoemai", Score: 0}, "seoqkasi": Word{Word: "seoqkasi", Def: "▯ is a walnut tree.", By: "Ilmen", Score: 0}, "seoqkioq": Word{Word: "seoqkioq", Def: "planet", By: "spreadsheet", Score: 0}, "seoqlaq": Word{Word: "seoqlaq", Def: "▯ is thunder", By: "seaqtaq", Score: 0}, "seoqlaqbeaq": Word{Word: "seoqlaqbeaq", Def: "▯ is a gun/rifle.", By: "Ilmen", Score: 0}, "seoqlaqbiu": Word{Word: "seoqlaqbiu", Def: "▯ is a gun/rifle.", By: "Ilmen", Score: 0}, "seoqliai": Word{Word: "seoqliai", Def: "▯ flies.", By: "Ilmen", Score: 0}, "seoqloha": Word{Word: "seoqloha", Def: "▯ is iron.", By: "Ilmen", Score: 0}, "seoqpio": Word{Word: "seoqpio", Def: "▯ is a meteorite.", By: "Ilmen", Score: 0}, "seoqraq": Word{Word: "seoqraq", Def: "▯ is celestial", By: "seaqtaq", Score: 0}, "seoqrea": Word{Word: "seoqrea", Def: "predicate: ‘horizon’; ▯ is a horizon.", By: "official", Score: 0}, "seoqtue": Word{Word: "seoqtue", Def: "predicate: ‘weather’; ▯ is weather.", By: "official", Score: 0}, "seoqtue pa ca loq rao nichaq da.": Word{Word: "seoqtue pa ca loq rao nichaq da.", Def: "(A0512) The weather is making it hot today.", By: "examples", Score: 0}, "seoqtuedīu": Word{Word: "seoqtuedīu", Def: "▯ is meteorology.", By: "lynn", Score: 0}, "seosho": Word{Word: "seosho", Def: "marry", By: "spreadsheet", Score: 0}, "seoshotueq": Word{Word: "seoshotueq", Def: "wedding", By: "spreadsheet", Score: 0}, "sepa": Word{Word: "sepa", Def: "▯ is astringent.", By: "Ilmen", Score: 0}, "sepania": Word{Word: "sepania", Def: "▯ pertains to the culture of Spain – Kingdom of Spain.", By: "countries", Score: 0}, "sepaniagua": Word{Word: "sepaniagua", Def: "▯ is the country Spain – Kingdom of Spain.", By: "countries", Score: 0}, "sepaniatoaq": Word{Word: "sepaniatoaq", Def: "▯ is (one of) the language(s) spoken in Spain – Kingdom of Spain.", By: "countries", Score: 0}, "sepe": Word{Word: "sepe", Def: "▯ is a snake.", By: "Ilmen", Score: 0}, "seperaqto": Word{Word: "seperaqto", Def: "▯ is Esperantic / is of Esperanto, its culture or speakers.", By: "lynn", Score: 0}, "seperaqtoaq": Word{Word: "seperaqtoaq", Def: "▯ is Esperanto (the language).", By: "lynn", Score: 0}, "seperaqtotoaq": Word{Word: "seperaqtotoaq", Def: "▯ is Esperanto (the language).", By: "lynn", Score: 0}, "sepoe": Word{Word: "sepoe", Def: "▯ has an independent outcome to ▯; (▯ is free in ▯).", By: "uakci", Score: 0}, "seq": Word{Word: "seq", Def: "▯ takes place at time/date ▯.", By: "uakci", Score: 0}, "seqcu": Word{Word: "seqcu", Def: "▯ adds their two cents to discussion ▯; ▯ contributes (expresses) a novel argument/counterpoint to the discussion about matter ▯ even though many original points have already been presented.", By: "uakci", Score: 0}, "serebia": Word{Word: "serebia", Def: "▯ pertains to the culture of Serbia – Republic of Serbia.", By: "countries", Score: 0}, "serebiagua": Word{Word: "serebiagua", Def: "▯ is the country Serbia – Republic of Serbia.", By: "countries", Score: 0}, "serebiatoaq": Word{Word: "serebiatoaq", Def: "▯ is (one of) the language(s) spoken in Serbia – Republic of Serbia.", By: "countries", Score: 0}, "sesiu": Word{Word: "sesiu", Def: "▯ is a degree Celsius; ▯ is ▯ (number of property) degrees Celcius.", By: "Hoemai", Score: 0}, "seta": Word{Word: "seta", Def: "predicate: ‘zetta’; ▯ are 10^21 (1,000,000,000,000,000,000,000) in number; ▯ are a sextillion.", By: "official", Score: 0}, "seu": Word{Word: "seu", Def: "sỉo ra lảı dóshī, na ru mủı go dóshī sa lú rảq hóa sío nẻ pủı da", By: "uakci", Score: 0}, "seuhuaq": Word{Word: "seuhuaq", Def: "▯ is a number greater than ▯.", By: "Ilmen", Score: 0}, "seujui": Word{Word: "seujui", Def: "▯ have a cardinality of approximately ▯ (number).", By: "Ilmen", Score: 0}, "seushoelai": Word{Word: "seushoelai", Def: "(fork of #TnyYlOa6n) ▯ is a PIN\u00a0", By: "seaqtaq", Score: 0}, "sha": Word{Word: "sha", Def: "cả shâı tảo dóshī sa ráı na cêo dóshī dógū da", By: "uakci", Score: 0}, "sha ruq po ni nia": Word{Word: "sha ruq po ni nia", Def: "(B0025) Down came the rain", By: "examples", Score: 0}, "shacu": Word{Word: "shacu", Def: "shirt ()", By: "spreadsheet", Score: 0}, "shagiq": Word{Word: "shagiq", Def: "▯ leaves/departs from satisfying property ▯.", By: "lynn", Score: 0}, "shaha": Word{Word: "shaha", Def: "predicate: ‘chess’; chess", By: "official", Score: 0}, "shahiena": Word{Word: "shahiena", Def: "▯ is a Cheyenne.", By: "Ilmen", Score: 0}, "shai": Word{Word: "shai", Def: "predicate: ‘cease’; ▯ ceases to be the case; ▯ stops satisfying property ▯; ▯ loses property ▯.", By: "official", Score: 0}, "shai ba hu buoq!": Word{Word: "shai ba hu buoq!", Def: "(A0636) Oh, stop it, you clown!", By: "examples", Score: 0}, "shai gaikiu": Word{Word: "shai gaikiu", Def: "▯ stops being perceptible; ▯ disappears.", By: "niucuq", Score: 0}, "shai meo suq ba.": Word{Word: "shai meo suq ba.", Def: "(A0564) Stop being sad.", By: "examples", Score: 0}, "shai nu kaqsi suq ji ba.": Word{Word: "shai nu kaqsi suq ji ba.", Def: "(A0219) Stop looking at me like that.", By: "examples", Score: 0}, "shai1": Word{Word: "shai1", Def: "shảı dóshī dõ, na ru fảq dó, na ru shỉu go dó jêo dóshī, na ru bỉe go dó bû dóshī da", By: "uakci", Score: 0}, "shaibu": Word{Word: "shaibu", Def: "▯ continues to be the case; ▯ continues satisfying property ▯", By: "fagri", Score: 0}, "shaichaq": Word{Word: "shaichaq", Def: "Friday", By: "uakci", Score: 0}, "shaicia": Word{Word: "shaicia", Def: "continuous (without interruption)", By: "spreadsheet", Score: 0}, "shaiduo": Word{Word: "shaiduo", Def: "▯ stops moving.", By: "lynn", Score: 0}, "shaihio": Word{Word: "shaihio", Def: "▯ greets ▯ on parting; ▯ says goodbye to ▯.", By: "Ilmen", Score: 0}, "shaisho": Word{Word: "shaisho", Def: "▯ stops satisfying property ▯ and starts satisfying property ▯", By: "fagri", Score: 0}, "shaisi": Word{Word: "shaisi", Def: "▯ leaves (in the sense that they stop paying attention to a chat)", By: "fagri", Score: -1}, "shamu": Word{Word: "shamu", Def: "predicate: ‘apple’; ▯ is an apple.", By: "official", Score: 0}, "shao": Word{Word: "shao", Def: "predicate: ‘want’; ▯ wants ▯ to be the case.", By: "official", Score: 0}, "shao fa ho rao nichaq ro rao jiachaq.": Word{Word: "shao fa ho rao nichaq ro rao jiachaq.", Def: "(A0468) He wants to go today or tomorrow, but not during both.", By: "examples", Score: 0}, "shao geq jí sa lu de ru pairuo ru kỉai da.": Word{Word: "shao geq jí sa lu de ru pairuo ru kỉai da.", Def: "(A0346) I want to meet someone pretty, kind and caring.", By: "examples", Score: 0}, "shao ji chuq suq ni da.": Word{Word: "shao ji chuq suq ni da.", Def: "(A0037) I want you to eat this.", By: "examples", Score: 0}, "shao ji gaq suq ho rao nichaq da.": Word{Word: "shao ji gaq suq ho rao nichaq da.", Def: "(A0076) I want you to accompany him today.", By: "examples", Score: 0}, "shao ji kuq suq sa lua da.": Word{Word: "shao ji kuq suq sa lua da.", Def: "(A0258) I want you to tell a story.", By: "examples", Score: 0}, "shao ji lu rao nichaq bi pua gaqsia ji da.": Word{Word: "shao ji lu rao nichaq bi pua gaqsia ji da.", Def: "(A0727) Today I want to enjoy some time to myself.", By: "examples", Score: 0}, "shao ji lu sia rai pa kaqgai ji.": Word{Word: "shao ji lu sia rai pa kaqgai ji.", Def: "(A0430) I want nothing to see me.", By: "examples", Score: 0}, "shao ji muaqsho da. ma si suq moq": Word{Word: "shao ji muaqsho da. ma si suq moq", Def: "(A0475) I want to die. Do you? ★★★ \"sủ\"? It wouldn't target \"shao\" though.", By: "examples", Score: 0}, "shaoboaile": Word{Word: "shaoboaile", Def: "▯ is whimsical.", By: "uakci", Score: 0}, "shaoboq": Word{Word: "shaoboq", Def: "▯ demotivates/deters ▯ from doing ▯.", By: "Ilmen", Score: 0}, "shaobuaq": Word{Word: "shaobuaq", Def: "▯ wanted to do ▯/1, but did ▯/1 instead.", By: "uakci", Score: 0}, "shaobufaq": Word{Word: "shaobufaq", Def: "▯ happens against ▯’s will.", By: "uakci", Score: 0}, "shaobutao": Word{Word: "shaobutao", Def: "▯ does ▯ against ▯’s will.", By: "uakci", Score: 0}, "shaoca": Word{Word: "shaoca", Def: "▯ motivates▯to do▯.", By: "seaqtaq", Score: 0}, "shaodui": Word{Word: "shaodui", Def: "(fork of #ICzDegBgz) ▯ is greedy", By: "seaqtaq", Score: 0}, "shaogi": Word{Word: "shaogi", Def: "predicate: ‘good’; ▯ is good/virtuous.", By: "official", Score: 0}, "shaoha": Word{Word: "shaoha", Def: "▯ is as one would want it; One would want ▯ to be the case; Desirably, ▯.", By: "uakci", Score: 1}, "shaohiaq": Word{Word: "shaohiaq", Def: "▯ is lazy.", By: "uakci", Score: 0}, "shaohui": Word{Word: "shaohui", Def: "predicate: ‘bad’; ▯ is bad/evil/wicked.", By: "official", Score: 0}, "shaokui": Word{Word: "shaokui", Def: "motivates (non-agentive)", By: "spreadsheet", Score: 0}, "shaolui": Word{Word: "shaolui", Def: "▯ is satisfied, as their/his/her/its desire ▯ has been fulfilled.", By: "Ilmen", Score: 0}, "shaomia": Word{Word: "shaomia", Def: "▯ is eager.", By: "uakci", Score: 0}, "shaomoe": Word{Word: "shaomoe", Def: "▯ is willing to do ▯.", By: "uakci", Score: 0}, "shaotaq": Word{Word: "shaotaq", Def: "▯ wants to satisfy property ▯.", By: "seaqtaq", Score: 0}, "shapo": Word{Word: "shapo", Def: "▯ takes his hat off to ▯. [figurative]", By: "uakci", Score: 1}, "shaq": Word{Word: "shaq", Def: "predicate: ‘in.front’; ▯ is in front of ▯.", By: "official", Score: 0}, "shaq sa saq nui shuao poji buajio da.": Word{Word: "shaq sa saq nui shuao poji buajio da.", Def: "(A0363) There are three little birds in front of my house.", By: "examples", Score: 0}, "shaqfeo": Word{Word: "shaqfeo", Def: "▯ is the north direction", By: "seaqtaq", Score: 0}, "shaqsheaq": Word{Word: "shaqsheaq", Def: "▯ is a prostate", By: "seaqtaq", Score: 0}, "shaqsoq": Word{Word: "shaqsoq", Def: "▯ is a primate.", By: "Ilmen", Score: 0}, "she": Word{Word: "she", Def: "= [00] To ra jẻo dóshī to bủ dógū.", By: "Ilmen", Score: 1}, "she jeq tao ji da.": Word{Word: "she jeq tao ji da.", Def: "(A0334) I would have done the same thing.", By: "examples", Score: 0}, "she ruqshua bi, bu fa ji da.": Word{Word: "she ruqshua bi, bu fa ji da.", Def: "(A0450) If it rains, I won't go.", By: "examples", Score: 0}, "she tai suq bi hioq ji da.": Word{Word: "she tai suq bi hioq ji da.", Def: "(A0449) If you win, I'll be proud.", By: "examples", Score: 0}, "shea": Word{Word: "shea", Def: "predicate: ‘empty’; ▯ is empty in aspect ▯.", By: "official", Score: 0}, "sheabaga": Word{Word: "sheabaga", Def: "suck", By: "spreadsheet", Score: 0}, "shealai": Word{Word: "shealai", Def: "▯ is a space (in writing or typing)", By: "seaqtaq", Score: 0}, "sheameame": Word{Word: "sheameame", Def: "▯ is the empty set.", By: "Ilmen", Score: 0}, "sheamiq": Word{Word: "sheamiq", Def: "kensa, outer space", By: "spreadsheet", Score: -1}, "sheamuoq": Word{Word: "sheamuoq", Def: "▯ is ether; ▯ is the supposed element that constitutes the emptiness of outer space.", By: "uakci", Score: 0}, "sheaq": Word{Word: "sheaq", Def: "predicate: ‘stand’; ▯ stands on ▯.", By: "official", Score: 0}, "sheaq piciu pu feofaq lu bui ri nie hoa guqfuq moq.": Word{Word: "sheaq piciu pu feofaq lu bui ri nie hoa guqfuq moq.", Def: "(A0984) ", By: "examples", Score: 0}, "sheaqfeo": Word{Word: "sheaqfeo", Def: "▯ is the vertical direction.", By: "Ilmen", Score: 0}, "sheaqkai": Word{Word: "sheaqkai", Def: "▯ writes vertically", By: "seaqtaq", Score: 0}, "sheaqnui": Word{Word: "sheaqnui", Def: "▯ is short (not tall).", By: "Ilmen", Score: 0}, "sheaqsao": Word{Word: "sheaqsao", Def: "▯ is tall.", By: "Ilmen", Score: 1}, "sheaqsao mei roi hiaodai hiu pa rea hoi doaq da.": Word{Word: "sheaqsao mei roi hiaodai hiu pa rea hoi doaq da.", Def: "(A0957) Tall mountain and dangerous river are border of the settlement.", By: "examples", Score: 0}, "sheaqshai": Word{Word: "sheaqshai", Def: "(fork of #LUB-BlGmP) ▯ slips.", By: "uakci", Score: 0}, "sheaqshua": Word{Word: "sheaqshua", Def: "▯ collapses.", By: "uakci", Score: 0}, "sheaqsiu": Word{Word: "sheaqsiu", Def: "vertical, upright", By: "spreadsheet", Score: 0}, "sheaqsiubuaqmeo": Word{Word: "sheaqsiubuaqmeo", Def: "▯ feels the sort of frustration that comes from repeatedly trying to stand something up or balance something on its end, and repeatedly failing", By: "fagri", Score: 0}, "sheasai": Word{Word: "sheasai", Def: "▯ is ether; ▯ is the supposed element that constitutes the emptiness of outer space.", By: "seaqtaq", Score: 0}, "shebaqsiheku": Word{Word: "shebaqsiheku", Def: "▯ is a Przewalski's horse (Equus ferus przewalskii).", By: "Hoemai", Score: 0}, "shechiaq": Word{Word: "shechiaq", Def: "▯ intuits ▯ in stimulus ▯.", By: "uakci", Score: 0}, "shedoe": Word{Word: "shedoe", Def: "▯ does ▯/1 whenever ▯/0; ▯ automatically ▯’s on condition ▯; ▯ does ▯ reflexively if only ▯ happens.", By: "uakci", Score: 0}, "shei": Word{Word: "shei", Def: "predicate: ‘free’; ▯ is free to do ▯.", By: "official", Score: 0}, "sheichaq": Word{Word: "sheichaq", Def: "Sunday", By: "uakci", Score: 0}, "sheidaq": Word{Word: "sheidaq", Def: "▯ is free time; ▯ is free time for ▯.", By: "Hoemai", Score: 0}, "sheiduq": Word{Word: "sheiduq", Def: "▯ has hobby ▯; ▯ often does ▯ in their free time", By: "fagri", Score: 0}, "sheimoi": Word{Word: "sheimoi", Def: "▯ freethinks; ▯ forms their own ideas and opinions rather than accepting those of other people or traditional social or religious belief systems; ▯ practices/performs freethought.", By: "Hoemai", Score: 0}, "sheimoihe": Word{Word: "sheimoihe", Def: "▯ is a freethinker.", By: "Hoemai", Score: 0}, "sheishuaqshuao": Word{Word: "sheishuaqshuao", Def: "▯ is an American bald eagle (freedom bird)", By: "fagri", Score: 0}, "sheitao": Word{Word: "sheitao", Def: "▯ does ▯ in their free time.", By: "uakci", Score: 0}, "sheitaomia": Word{Word: "sheitaomia", Def: "▯ is a hobby of ▯’s.", By: "uakci", Score: 0}, "sheitua": Word{Word: "sheitua", Def: "▯ liberates ▯; ▯ liberates ▯ such that they are now free to satisfy property ▯.", By: "Hoemai", Score: 0}, "shela": Word{Word: "shela", Def: "shoot ⓥ (shooting device as the subject)", By: "spreadsheet", Score: -1}, "shelabiu": Word{Word: "shelabiu", Def: "gun, thing-that-shoots", By: "spreadsheet", Score: -1}, "shema": Word{Word: "shema", Def: "= [000] To ru shẻ dógū dóshī to shẻ dósāq bû dóshī.", By: "Ilmen", Score: 0}, "shemoi": Word{Word: "shemoi", Def: "▯ intuits ▯ upon stimulus ▯.", By: "uakci", Score: 0}, "shemu": Word{Word: "shemu", Def: "community, cecmu", By: "spreadsheet", Score: 0}, "shenaigi": Word{Word: "shenaigi", Def: "It would be good for ▯ to happen now; It’s about time ▯ happened.", By: "uakci", Score: 0}, "shenue": Word{Word: "shenue", Def: "▯ promises to do ▯ if ▯ turns out to be the case; ▯ wagers to do ▯ on ▯ being the case.", By: "Ilmen", Score: 0}, "sheo": Word{Word: "sheo", Def: "cả lûı tảo dóshī dógū na lû to ra mẻo dóshī to gỉq pủa fỏa dóshī sa húı da", By: "uakci", Score: 0}, "sheo ji li pu ruo ja rai hi rai da.": Word{Word: "sheo ji li pu ruo ja rai hi rai da.", Def: "(A0563) I'm sorry for my behavior.", By: "examples", Score: 0}, "sheo tua riosho ji go roaihei kune da.": Word{Word: "sheo tua riosho ji go roaihei kune da.", Def: "(A0377) I regret boiling the 80 dogs.", By: "examples", Score: 0}, "sheokuq": Word{Word: "sheokuq", Def: "▯ apologizes to ▯ for satisfying property ▯", By: "fagri", Score: 0}, "sheoq": Word{Word: "sheoq", Def: "insect/bug (CHIQ)", By: "spreadsheet", Score: 0}, "shepu": Word{Word: "shepu", Def: "▯ crepu ▯", By: "seaqtaq", Score: -1}, "sheqca": Word{Word: "sheqca", Def: "holy", By: "spreadsheet", Score: -1}, "sheqtu": Word{Word: "sheqtu", Def: "expert", By: "spreadsheet", Score: -1}, "shetuq": Word{Word: "shetuq", Def: "▯ iff ▯; ▯ is the case if and only if ▯ is the case.", By: "uakci", Score: 0}, "shi": Word{Word: "shi", Def: "tu rảı měa hóa dóshī bı mẻa dóshī ráı", By: "Hoemai", Score: 0}, "shi ji da. gu suqji da.": Word{Word: "shi ji da. gu suqji da.", Def: "(NUM.1) I am one. We are two.", By: "official", Score: 0}, "shi lu mai jeo ji hoa da.": Word{Word: "shi lu mai jeo ji hoa da.", Def: "(A0359) There is one thing I truly love.", By: "examples", Score: 0}, "shia": Word{Word: "shia", Def: "predicate: ‘glass’; ▯ is glass.", By: "official", Score: 0}, "shiabio": Word{Word: "shiabio", Def: "predicate: ‘glass’; ▯ is a glass (container).", By: "official", Score: 0}, "shiapoaqse": Word{Word: "shiapoaqse", Def: "predicate: ‘glass.shard’; ▯ is a glass shard; ▯ is a piece of broken glass.", By: "official", Score: 0}, "shiaq": Word{Word: "shiaq", Def: "predicate: ‘leg’; ▯ is a leg.", By: "official", Score: 0}, "shiaqbiq": Word{Word: "shiaqbiq", Def: "myriapod", By: "spreadsheet", Score: 0}, "shiaqfue": Word{Word: "shiaqfue", Def: "myriapod", By: "spreadsheet", Score: 0}, "shiaqfuq": Word{Word: "shiaqfuq", Def: "▯ are pants; ▯ is a pair of trousers.", By: "Ilmen", Score: 0}, "shiaqgie": Word{Word: "shiaqgie", Def: "▯ is a member (leg or arm).", By: "Ilmen", Score: 0}, "shiaqmia": Word{Word: "shiaqmia", Def: "myriapod", By: "spreadsheet", Score: 0}, "shicha": Word{Word: "shicha", Def: "▯ satisfy property ▯ individually/one by one.", By: "Hoemai", Score: 0}, "shichaq": Word{Word: "shichaq", Def: "▯ is the first day of the month.", By: "lynn", Score: 0}, "shichaqshoai": Word{Word: "shichaqshoai", Def: "▯ is a mayfly (order Ephemeroptera).", By: "Hoemai", Score: 0}, "shichio": Word{Word: "shichio", Def: "predicate: ‘once’; ▯ happens once / one time.", By: "official", Score: 0}, "shichio rao tu chaq tao ji hoq da.": Word{Word: "shichio rao tu chaq tao ji hoq da.", Def: "(A0387) Once every day I do it.", By: "examples", Score: 0}, "shichioseaq": Word{Word: "shichioseaq", Def: "▯ is on a one night stand with ▯; ▯ has sex with ▯ once, with the expectation that they part with them the next morning, never to see them again.", By: "uakci", Score: 0}, "shichipe": Word{Word: "shichipe", Def: "▯ pertains to the culture of Albania – Republic of Albania.", By: "countries", Score: 0}, "shichipegua": Word{Word: "shichipegua", Def: "▯ is the country Albania – Republic of Albania.", By: "countries", Score: 0}, "shichipetoaq": Word{Word: "shichipetoaq", Def: "▯ is (one of) the language(s) spoken in Albania – Republic of Albania.", By: "countries", Score: 0}, "shichuaobo": Word{Word: "shichuaobo", Def: "▯ is a monotreme (platypus or echidna).", By: "Ilmen", Score: 0}, "shie": Word{Word: "shie", Def: "= bu #nủo", By: "uakci", Score: 0}, "shie ji rao baq chaq da.": Word{Word: "shie ji rao baq chaq da.", Def: "(A0098) I'm awake during the day. ", By: "examples", Score: 0}, "shiene": Word{Word: "shiene", Def: "▯ is a ‘day’; ▯ is ▯’s period of wakefulness; ▯ is a period of time, possibly similar in length to a day-time, where, instead of sunrise and sunset, the delimiting events are ▯’s waking up and going to sleep again.", By: "uakci", Score: 0}, "shiesho": Word{Word: "shiesho", Def: "▯ wakes up", By: "fagri", Score: 0}, "shieshoca": Word{Word: "shieshoca", Def: "▯ wakes ▯ up (non-agentive)", By: "fagri", Score: 0}, "shiho": Word{Word: "shiho", Def: "predicate: ‘he/she’; ▯ is him/her (singular).", By: "official", Score: 0}, "shija": Word{Word: "shija", Def: "zilkai", By: "spreadsheet", Score: 0}, "shijue": Word{Word: "shijue", Def: "▯ is January", By: "lynn", Score: 1}, "shiko": Word{Word: "shiko", Def: "predicate: ‘first’; ▯ is first among ▯.", By: "official", Score: 0}, "shilaqtei": Word{Word: "shilaqtei", Def: "▯ is the high-flat (1st tone) pitch contour of ▯.", By: "lynn", Score: -1}, "shili": Word{Word: "shili", Def: "There exists exactly one ▯-er;\u00a0∃!x.P(x)", By: "uakci", Score: 0}, "shimiedaosai": Word{Word: "shimiedaosai", Def: "▯ is RNA.", By: "Ilmen", Score: 0}, "shineu": Word{Word: "shineu", Def: "nẻu dóshī dógū sa shí da. ju mủıjēq na, tu dó bǔ mẻa hóa dógū bı pủıjēq dóshī dógū roı dó da", By: "uakci", Score: 0}, "shio": Word{Word: "shio", Def: "predicate: ‘ball.joint’; ▯ is a hip/shoulder.", By: "official", Score: 0}, "shioshaq": Word{Word: "shioshaq", Def: "▯ is one’s chest [body part].", By: "uakci", Score: 0}, "shiotia": Word{Word: "shiotia", Def: "▯ is one’s back [body part].", By: "uakci", Score: 0}, "shipaq": Word{Word: "shipaq", Def: "▯ is a whole/entirety", By: "seaqtaq", Score: 0}, "shipie": Word{Word: "shipie", Def: "▯ has a drink.", By: "uakci", Score: 0}, "shiq": Word{Word: "shiq", Def: "predicate: ‘smell’; ▯ is olfactory; ▯ pertains to the sense of smell/olfaction.", By: "official", Score: 0}, "shiqchuao": Word{Word: "shiqchuao", Def: "▯ is a nostril.", By: "Ilmen", Score: 0}, "shiqde": Word{Word: "shiqde", Def: "▯ smells beautiful.", By: "Ilmen", Score: 0}, "shiqgai": Word{Word: "shiqgai", Def: "predicate: ‘smell’; ▯ smells ▯.", By: "official", Score: 0}, "shiqgai suq ni shiqgi rua ba.": Word{Word: "shiqgai suq ni shiqgi rua ba.", Def: "(A0351) Smell this fragrant flower!", By: "examples", Score: 0}, "shiqgi": Word{Word: "shiqgi", Def: "▯ smells good.", By: "Ilmen", Score: 0}, "shiqhua": Word{Word: "shiqhua", Def: "antenna (organ)", By: "spreadsheet", Score: 0}, "shiqhuahuai": Word{Word: "shiqhuahuai", Def: "▯ picks their nose; ▯ picks ▯'s nose.", By: "Ilmen", Score: 0}, "shiqhualapisiu": Word{Word: "shiqhualapisiu", Def: "▯ is a rhinoceros.", By: "Ilmen", Score: 0}, "shiqhuatuaqsiu": Word{Word: "shiqhuatuaqsiu", Def: "▯ is a rhinoceros (Rhinocerotidae).", By: "Ilmen", Score: 0}, "shiqhui": Word{Word: "shiqhui", Def: "▯ smells bad.", By: "Ilmen", Score: 0}, "shiqje": Word{Word: "shiqje", Def: "▯ is a wrinkle/crease/fold.", By: "Ilmen", Score: 0}, "shiqraq": Word{Word: "shiqraq", Def: "▯ is nosy.", By: "uakci", Score: 0}, "shiqsiu": Word{Word: "shiqsiu", Def: "▯ smells like ▯", By: "seaqtaq", Score: 0}, "shirai": Word{Word: "shirai", Def: "predicate: ‘individual’; ▯ is an individual.", By: "official", Score: 0}, "shisheaq": Word{Word: "shisheaq", Def: "▯ stands on one leg.", By: "Ilmen", Score: 0}, "shisho": Word{Word: "shisho", Def: "blend (vi)", By: "spreadsheet", Score: 0}, "shitoaq": Word{Word: "shitoaq", Def: "(fork of #3_IcT49q3) ▯ is an idiolect\u00a0", By: "seaqtaq", Score: 0}, "shituaq": Word{Word: "shituaq", Def: "▯ is a unicorn.", By: "Hoemai", Score: 0}, "shituqko": Word{Word: "shituqko", Def: "(fork of #QaxnULBHL) ▯ is last-but-one, penultimate, second-to-last element of sequence ▯.", By: "uakci", Score: 0}, "shituqsie": Word{Word: "shituqsie", Def: "▯ is last-but-one, penultimate, second-to-last element of sequence ▯.", By: "uakci", Score: 0}, "shiu": Word{Word: "shiu", Def: "≈ [00] Fỉa dóshī dógū pó dáq.", By: "Ilmen", Score: 0}, "shiubuaq": Word{Word: "shiubuaq", Def: "▯ attempts to do ▯ in order to achieve the further goal ▯, but that attempt ends in a failure.", By: "Ilmen", Score: 0}, "shiucuo": Word{Word: "shiucuo", Def: "▯ presupposes ▯.", By: "Ilmen", Score: 0}, "shiudua": Word{Word: "shiudua", Def: "▯ predicts that ▯ will happen.", By: "uakci", Score: 0}, "shiuduq": Word{Word: "shiuduq", Def: "▯ has been happening recently; ▯ has been satisfying property ▯ recently", By: "fagri", Score: 0}, "shiujai": Word{Word: "shiujai", Def: "predicate: ‘look.forward’; ▯ looks forward to ▯; ▯ is in joyful anticipation of ▯.", By: "official", Score: 0}, "shiukie": Word{Word: "shiukie", Def: "▯ thanks ▯ in advance for satisfying property ▯\u00a0", By: "seaqtaq", Score: 0}, "shiukune": Word{Word: "shiukune", Def: "▯ is a raccoon.", By: "Ilmen", Score: 0}, "shiuleo": Word{Word: "shiuleo", Def: "sa dó fǎq ru jẻı lêo tảo dóshī dógū bı, shảo dóshī câ dó dósāq da", By: "uakci", Score: 0}, "shiumapu": Word{Word: "shiumapu", Def: "‘exmaple’; ▯ is an exmaple/smaple/speciemn/instnace/csae/illustratino of common property(s) ▯ of set ▯.", By: "uakci", Score: 0}, "shiume": Word{Word: "shiume", Def: "predicate: ‘past’; ▯ is a/the past.", By: "official", Score: 0}, "shiumejio": Word{Word: "shiumejio", Def: "predicate: ‘museum’; ▯ is a museum.", By: "official", Score: 0}, "shiumeo": Word{Word: "shiumeo", Def: "▯ dreads ▯", By: "seaqtaq", Score: 0}, "shiune": Word{Word: "shiune", Def: "temci", By: "spreadsheet", Score: -1}, "shiutao": Word{Word: "shiutao", Def: "▯ does ▯ in order to achieve the further goal ▯.", By: "Ilmen", Score: 1}, "shiutoa": Word{Word: "shiutoa", Def: "Word ▯ is a priori.", By: "uakci", Score: 0}, "shiutoe": Word{Word: "shiutoe", Def: "▯ is a member of genus Brassica (including cabbage, mustard and rapes).", By: "Hoemai", Score: 0}, "sho": Word{Word: "sho", Def: "= [X1] Lẻaqshīu dôshī bủ sa ráı dógū na jêo dóshī dógū.", By: "Ilmen", Score: 0}, "sho bu chuqkiu": Word{Word: "sho bu chuqkiu", Def: "▯ expires(solid foods)", By: "seaqtaq", Score: 0}, "sho bu due\u00a0": Word{Word: "sho bu due\u00a0", Def: "▯ expires(code or link)", By: "seaqtaq", Score: 0}, "sho daocoe": Word{Word: "sho daocoe", Def: "(fork of #f6CWsm4FK) ▯(device) connects to service/network ▯", By: "seaqtaq", Score: 0}, "sho deo suaikoi shoi jeaq tijao da.": Word{Word: "sho deo suaikoi shoi jeaq tijao da.", Def: "(A0595) The child ran away screaming.", By: "examples", Score: 0}, "sho fura": Word{Word: "sho fura", Def: "rot, decay ⓥ", By: "spreadsheet", Score: -1}, "sho roaq": Word{Word: "sho roaq", Def: "▯ procreates/reproduces; ▯ begets offspring ▯.", By: "Ilmen", Score: 0}, "shoa": Word{Word: "shoa", Def: "predicate: ‘deep’; ▯ is deep.", By: "official", Score: 0}, "shoai": Word{Word: "shoai", Def: "predicate: ‘wing’; ▯ is a wing.", By: "official", Score: 0}, "shoaibo": Word{Word: "shoaibo", Def: "▯ is a winged insect (subclass Pterygota).", By: "Hoemai", Score: 0}, "shoaifa": Word{Word: "shoaifa", Def: "fly, vofli", By: "spreadsheet", Score: 0}, "shoaiheku": Word{Word: "shoaiheku", Def: "▯ is a winged horse; ▯ is a pegasus.", By: "Hoemai", Score: 0}, "shoaikiaq": Word{Word: "shoaikiaq", Def: "feather", By: "spreadsheet", Score: 0}, "shoasieq": Word{Word: "shoasieq", Def: "▯ feels reverence at the unfathomable depth of ▯.", By: "Hoemai", Score: 0}, "shoe": Word{Word: "shoe", Def: "tủa dóshī sıa lú bỏq hóa tâo dógū dósāq da", By: "uakci", Score: 0}, "shoe bui hi rai kune moq.": Word{Word: "shoe bui hi rai kune moq.", Def: "‘Who let the dogs out?’", By: "uakci", Score: 0}, "shoe soa suq ji suq ba.": Word{Word: "shoe soa suq ji suq ba.", Def: "(A0593) Let me help you.", By: "examples", Score: 0}, "shoe suq kaqgai ji ni puq fuaq ba.": Word{Word: "shoe suq kaqgai ji ni puq fuaq ba.", Def: "(A0724) Let me see those pictures.", By: "examples", Score: 0}, "shoe suq soa ji suq ba.": Word{Word: "shoe suq soa ji suq ba.", Def: "(A0594) Let me help you.", By: "examples", Score: 0}, "shoekai": Word{Word: "shoekai", Def: "▯ signs ▯ on ▯", By: "seaqtaq", Score: 0}, "shoelai(me)": Word{Word: "shoelai(me)", Def: "▯ is a password/passcode", By: "seaqtaq", Score: 0}, "shoetaq": Word{Word: "shoetaq", Def: "▯ lets themselves do/be ▯/1.", By: "uakci", Score: 0}, "shogiq": Word{Word: "shogiq", Def: "▯ loses property ▯ and continues to exist afterwards.", By: "Ilmen", Score: 0}, "shoi": Word{Word: "shoi", Def: "chỏa dóshī dógū lãqcāı da", By: "uakci", Score: 0}, "shu": Word{Word: "shu", Def: "predicatizer: ‘the.phrase’; turn next phrase into quote predicate", By: "official", Score: 0}, "shu keq bi ma kuqshao suq shu teq moq": Word{Word: "shu keq bi ma kuqshao suq shu teq moq", Def: "(A0492) About \"keq\": did you mean to say \"teq\"?", By: "examples", Score: 0}, "shu ‹ meri › poji chua da.": Word{Word: "shu ‹ meri › poji chua da.", Def: "(A0524) My name is Mary.", By: "examples", Score: 0}, "shua": Word{Word: "shua", Def: "cả dủo pó gáıhā dóshī dógū hǔaq jủı hóa gáıhā dósāq na dósāq da", By: "uakci", Score: 1}, "shua chuairuq.": Word{Word: "shua chuairuq.", Def: "phrase: \"Hail is falling.\"", By: "official", Score: 0}, "shuacao": Word{Word: "shuacao", Def: "predicate: ‘autumn’; ▯ is autumn/fall.", By: "official", Score: 0}, "shuacaoboe": Word{Word: "shuacaoboe", Def: "▯ are autumn leaves.", By: "lynn", Score: 0}, "shuacoe": Word{Word: "shuacoe", Def: "hang (dandu)", By: "spreadsheet", Score: 0}, "shuai": Word{Word: "shuai", Def: "predicate: ‘simple’; ▯ is simple.", By: "official", Score: 0}, "shuaibio": Word{Word: "shuaibio", Def: "▯ is a glass (drinking vessel without handle, but not necessarily made of translucent material).", By: "Ilmen", Score: 0}, "shuaikiaq": Word{Word: "shuaikiaq", Def: "▯ is a wing feather (a feather found on the wing)", By: "fagri", Score: -1}, "shuainu": Word{Word: "shuainu", Def: "▯ is simply/merely the case; ▯ simply/merely/just satisfies property ▯, that's all.", By: "lynn", Score: 0}, "shuainu jeo": Word{Word: "shuainu jeo", Def: "It really do be like that\u00a0", By: "seaqtaq", Score: 0}, "shuainu maaaaai": Word{Word: "shuainu maaaaai", Def: "▯ just loooooves ▯.", By: "uakci", Score: 0}, "shuaishiqhua": Word{Word: "shuaishiqhua", Def: "▯ is a primate belonging to the Haplorhini taxonomic suborder.", By: "Ilmen", Score: 0}, "shuao": Word{Word: "shuao", Def: "predicate: ‘bird’; ▯ is a bird.", By: "official", Score: 0}, "shuaokiaq": Word{Word: "shuaokiaq", Def: "feather", By: "spreadsheet", Score: -1}, "shuaq": Word{Word: "shuaq", Def: "tủa jỉq dóshī dógū da", By: "uakci", Score: 0}, "shuaqdoa": Word{Word: "shuaqdoa", Def: "(fork of #RgI1pD3WY) ▯ posts message ▯ to board/channel/group/comment section ▯", By: "seaqtaq", Score: 0}, "shuaqhua": Word{Word: "shuaqhua", Def: "▯ is a gland.", By: "Ilmen", Score: 0}, "shuaqjio": Word{Word: "shuaqjio", Def: "predicate: ‘factory’; ▯ is a factory.", By: "official", Score: 0}, "shuaqse": Word{Word: "shuaqse", Def: "predicate: ‘product’; ▯ is a product.", By: "official", Score: 0}, "shuashoe": Word{Word: "shuashoe", Def: "▯ lets ▯ fall on ▯; ▯ drops ▯ onto/into ▯ from ▯.", By: "uakci", Score: 0}, "shue": Word{Word: "shue", Def: "predicate: ‘remain’; ▯ remains/stays/keeps satisfying property ▯.", By: "official", Score: 0}, "shueboe": Word{Word: "shueboe", Def: "▯ are tea leaves that can no longer be brewed; ▯ is used tea leaf.", By: "uakci", Score: 0}, "shuehui": Word{Word: "shuehui", Def: "waste (festi)", By: "spreadsheet", Score: 0}, "shuepaq": Word{Word: "shuepaq", Def: "▯ is what's left of ▯; ▯ is the rest of ▯", By: "fagri", Score: 1}, "shueq": Word{Word: "shueq", Def: "predicate: ‘bitter’; ▯ is bitter.", By: "official", Score: 0}, "shueqchiai": Word{Word: "shueqchiai", Def: "▯ is sarcastic (not of a person).", By: "uakci", Score: 0}, "shuereoq": Word{Word: "shuereoq", Def: "still / za'o", By: "spreadsheet", Score: 0}, "shuetua": Word{Word: "shuetua", Def: "maintain", By: "spreadsheet", Score: 0}, "shuhoi": Word{Word: "shuhoi", Def: "last word quoted with #shu", By: "uakci", Score: 0}, "shui": Word{Word: "shui", Def: "predicate: ‘secret’; ▯ is secret.", By: "official", Score: 0}, "shui ti hi rai guq ruqnuao moq.": Word{Word: "shui ti hi rai guq ruqnuao moq.", Def: "(A0958) What is hidden underneath rainbow?", By: "examples", Score: 0}, "shuici": Word{Word: "shuici", Def: "▯ pertains to the culture of Switzerland – Swiss Confederation.", By: "countries", Score: 0}, "shuicigua": Word{Word: "shuicigua", Def: "▯ is the country Switzerland – Swiss Confederation.", By: "countries", Score: 0}, "shuicitoaq": Word{Word: "shuicitoaq", Def: "▯ is (one of) the language(s) spoken in Switzerland – Swiss Confederation.", By: "countries", Score: 0}, "shuigiq": Word{Word: "shuigiq", Def: "public, information", By: "spreadsheet", Score: 0}, "shuigiqtua": Word{Word: "shuigiqtua", Def: "publish", By: "spreadsheet", Score: 0}, "shuihuoi": Word{Word: "shuihuoi", Def: "▯ is a member of genus Cryptocercus (the wood roaches or brown-hooded cockroaches).", By: "Hoemai", Score: 0}, "shuisio": Word{Word: "shuisio", Def: "▯ is the idea of privacy", By: "seaqtaq", Score: 0}, "shuitaq\u00a0": Word{Word: "shuitaq\u00a0", Def: "▯ is personal", By: "seaqtaq", Score: 0}, "shuitua": Word{Word: "shuitua", Def: "▯ encrypts ▯", By: "seaqtaq", Score: 0}, "shunu": Word{Word: "shunu", Def: "worm", By: "spreadsheet", Score: -1}, "shuo": Word{Word: "shuo", Def: "predicate: ‘reserve’; ▯ is a source/deposit/supply/reserve of ▯.", By: "official", Score: 0}, "shuofua": Word{Word: "shuofua", Def: "▯ is a closet/cupboard.", By: "Ilmen", Score: 0}, "shuogiq": Word{Word: "shuogiq", Def: "▯ is a void", By: "seaqtaq", Score: 0}, "shuqso": Word{Word: "shuqso", Def: "random", By: "spreadsheet", Score: 0}, "si": Word{Word: "si", Def: "bỉaq rảqmōı dóshī dógū da", By: "uakci", Score: 0}, "si ba.": Word{Word: "si ba.", Def: "Hey!", By: "Ilmen", Score: 0}, "sia": Word{Word: "sia", Def: "quantifier: ‘no’; zero quantifier.", By: "official", Score: 0}, "sia poq": Word{Word: "sia poq", Def: "argument phrase: \"noone\"", By: "official", Score: 0}, "sia rai": Word{Word: "sia rai", Def: "argument phrase: \"nothing\"", By: "official", Score: 0}, "siachoa": Word{Word: "siachoa", Def: "predicate: ‘say.nothing.’; ▯ says nothing / is silent.", By: "official", Score: -1}, "siachoa ba.": Word{Word: "siachoa ba.", Def: "(A0383) Silence!", By: "examples", Score: 0}, "siachuaq": Word{Word: "siachuaq", Def: "▯ is nihilism", By: "seaqtaq", Score: 0}, "siaheq": Word{Word: "siaheq", Def: "empty (contain without)", By: "spreadsheet", Score: 0}, "siai": Word{Word: "siai", Def: "predicate: ‘blood’; ▯ is blood.", By: "official", Score: 0}, "siaibiu": Word{Word: "siaibiu", Def: "▯ is a blood vessel.", By: "Ilmen", Score: 0}, "siaiciu": Word{Word: "siaiciu", Def: "▯ bleeds.", By: "lynn", Score: 1}, "siailoha": Word{Word: "siailoha", Def: "▯ is iron.", By: "Ilmen", Score: 0}, "siaja": Word{Word: "siaja", Def: "▯ is a proposition.", By: "Ilmen", Score: 1}, "siakuoi": Word{Word: "siakuoi", Def: "▯ < 0; ▯ is a negative number.", By: "Ilmen", Score: 0}, "siali": Word{Word: "siali", Def: "= [1] sa jẻı dóshī sıa dógū.", By: "Ilmen", Score: 0}, "siamoe": Word{Word: "siamoe", Def: "▯ feels no emotion at all.", By: "uakci", Score: -1}, "siao": Word{Word: "siao", Def: "predicate: ‘beginning’; ▯ is a beginning/start; ▯ is a beginning/start of ▯.", By: "official", Score: 0}, "siao ni kai ji kuqtoai feofaq gao ka.": Word{Word: "siao ni kai ji kuqtoai feofaq gao ka.", Def: "(A0979) ", By: "examples", Score: 0}, "siaomerika": Word{Word: "siaomerika", Def: "▯ is a Native American / Indian / Indigenous American.", By: "uakci", Score: 0}, "siaopoq": Word{Word: "siaopoq", Def: "beginner", By: "spreadsheet", Score: 0}, "siaoriaq": Word{Word: "siaoriaq", Def: "origin / source", By: "spreadsheet", Score: 0}, "siapoi": Word{Word: "siapoi", Def: "▯ is an event in which nothing is the x1", By: "seaqtaq", Score: 0}, "siapui": Word{Word: "siapui", Def: "mẻa sıa ráı dóshī da", By: "uakci", Score: 0}, "siaq": Word{Word: "siaq", Def: "predicate: ‘right’; ▯ is to the right of ▯.", By: "official", Score: 0}, "siaqcu": Word{Word: "siaqcu", Def: "predicate: ‘rightwards’; ▯ moves rightwards.", By: "official", Score: 0}, "siaqfeo": Word{Word: "siaqfeo", Def: "▯ is the east direction", By: "seaqtaq", Score: 0}, "siaqhoi": Word{Word: "siaqhoi", Def: "▯ is the latter; ▯ is/are the referents of the right part of the conjunction ▯.", By: "uakci", Score: 0}, "siaqmuqpoq": Word{Word: "siaqmuqpoq", Def: "▯ is right-handed.", By: "Ilmen", Score: 0}, "siaqpaq": Word{Word: "siaqpaq", Def: "predicate: ‘right’; ▯ is the right part of ▯.", By: "official", Score: 0}, "siarai": Word{Word: "siarai", Def: "Nothing satisfies property ▯; ∄x.▯‘x\u00a0", By: "uakci", Score: 0}, "siaseu": Word{Word: "siaseu", Def: "▯ is the number zero.", By: "Ilmen", Score: 0}, "siasia": Word{Word: "siasia", Def: "No one thing has nothing to be in relation ▯ with; Everything is such that there exists something that the former is in relation ▯ with.", By: "uakci", Score: 0}, "siasie": Word{Word: "siasie", Def: "▯ is an empty sequence.", By: "uakci", Score: 0}, "siba": Word{Word: "siba", Def: "▯ calls ▯’s attention.", By: "uakci", Score: 0}, "sibeoca": Word{Word: "sibeoca", Def: "distraction", By: "spreadsheet", Score: 0}, "sibu": Word{Word: "sibu", Def: "▯ ignores ▯", By: "fagri", Score: 0}, "sica": Word{Word: "sica", Def: "interesting", By: "spreadsheet", Score: 0}, "sidi": Word{Word: "sidi", Def: "predicate: ‘CD’; ▯ is a CD.", By: "official", Score: 0}, "sie": Word{Word: "sie", Def: "predicate: ‘follow’; ▯ is following to ▯ in sequence ▯.", By: "official", Score: 0}, "siebaq": Word{Word: "siebaq", Def: "▯ is a list; ▯ is a sequential collection of things that satisfy the property ▯.", By: "uakci", Score: 2}, "sieceo": Word{Word: "sieceo", Def: "▯ resumes taking place.", By: "Ilmen", Score: 0}, "siechaq": Word{Word: "siechaq", Def: "Thursday", By: "uakci", Score: 0}, "siecu": Word{Word: "siecu", Def: "sequence (abstract)", By: "spreadsheet", Score: -1}, "siefa": Word{Word: "siefa", Def: "predicate: ‘follow’; ▯ follows/goes after ▯.", By: "official", Score: 0}, "siegiq": Word{Word: "siegiq", Def: "▯ comes before ▯ in sequence ▯", By: "fagri", Score: -3}, "siehoi": Word{Word: "siehoi", Def: "▯ is/are the following / subsequently mentioned things that satisfy property ▯.", By: "Ilmen", Score: 1}, "siehoq": Word{Word: "siehoq", Def: "▯ is the following / subsequently mentioned abstract thing.", By: "Ilmen", Score: 0}, "siekao": Word{Word: "siekao", Def: "▯ is a will ", By: "seaqtaq", Score: 0}, "sieko": Word{Word: "sieko", Def: "▯, in the sequence ▯, is at position ▯ (from the beginning/left direction, the first slot having 1 as its index).", By: "Ilmen", Score: 0}, "sielu": Word{Word: "sielu", Def: "▯ is the following / subsequently mentioned proposition.", By: "Ilmen", Score: 0}, "sieme": Word{Word: "sieme", Def: "▯ is a sequence of the things in ▯ (roi)", By: "fagri", Score: -1}, "siemea": Word{Word: "siemea", Def: "▯ is a member of the sequence ▯.", By: "Ilmen", Score: 0}, "siememe": Word{Word: "siememe", Def: "▯ is the concatenation of the sequences ▯ and ▯ (and ▯ …).", By: "Ilmen", Score: 0}, "siemenuoq": Word{Word: "siemenuoq", Def: "▯ is the mirrored/reversed version of the sequence ▯.", By: "Ilmen", Score: 0}, "siemepaq": Word{Word: "siemepaq", Def: "The sequence ▯ is part of the sequence ▯ (occurring at the offset number ▯, counting from the beginning/left direction, the first element of the sequence having 1 as its index).", By: "Ilmen", Score: 0}, "sieq": Word{Word: "sieq", Def: "predicate: ‘awe’; ▯ feels awe; ▯ is amazed.", By: "official", Score: 0}, "sieqca": Word{Word: "sieqca", Def: "impressive", By: "spreadsheet", Score: 0}, "sieqgiq": Word{Word: "sieqgiq", Def: "disappointed", By: "uakci", Score: 0}, "sieroi": Word{Word: "sieroi", Def: "▯ is the sequence ⟨▯, ▯ (, ▯ (…))⟩.", By: "Ilmen", Score: 0}, "sieshi": Word{Word: "sieshi", Def: "▯ is the head of sequence ▯.", By: "uakci", Score: 0}, "sieshue": Word{Word: "sieshue", Def: "▯ is the tail of sequence ▯.", By: "uakci", Score: 0}, "siesia": Word{Word: "siesia", Def: "▯ is the first element in the sequence ▯.", By: "Ilmen", Score: 0}, "siesuaikoi": Word{Word: "siesuaikoi", Def: "chase", By: "spreadsheet", Score: 0}, "sietu": Word{Word: "sietu", Def: "▯ is last in sequence ▯.", By: "Ilmen", Score: 0}, "siga": Word{Word: "siga", Def: "predicate: ‘cigarette’; ▯ is a cigarette.", By: "official", Score: 0}, "sigi": Word{Word: "sigi", Def: "zdile", By: "spreadsheet", Score: 0}, "sihe": Word{Word: "sihe", Def: "▯ is a ▯-th of ▯.", By: "Ilmen", Score: 0}, "siki": Word{Word: "siki", Def: "▯ is a ski.", By: "uakci", Score: 0}, "sila": Word{Word: "sila", Def: "▯ is a thread.", By: "Ilmen", Score: 0}, "silaba": Word{Word: "silaba", Def: "syllable", By: "spreadsheet", Score: 0}, "simi": Word{Word: "simi", Def: "predicate: ‘monkey’; ▯ is a monkey.", By: "official", Score: 0}, "simo": Word{Word: "simo", Def: "▯ is a member of the genus Simiiformes (the monkeys and apes); ▯ is a simian.", By: "Hoemai", Score: 0}, "simuo": Word{Word: "simuo", Def: "▯ meditates (on ▯).", By: "Ilmen", Score: 0}, "sinu": Word{Word: "sinu", Def: "▯ = sin(▯).", By: "Ilmen", Score: 0}, "sio": Word{Word: "sio", Def: "= #se #mỏı", By: "uakci", Score: 0}, "siodoa": Word{Word: "siodoa", Def: "▯ gives inspiration ▯ to ▯.", By: "Ilmen", Score: 0}, "siofieq": Word{Word: "siofieq", Def: "▯ devises, comes up with ▯.", By: "uakci", Score: 0}, "siojuq": Word{Word: "siojuq", Def: "▯ gets idea ▯.", By: "Ilmen", Score: 0}, "sioq": Word{Word: "sioq", Def: "predicate: ‘wheel’; ▯ is a wheel.", By: "official", Score: 0}, "sioqchao": Word{Word: "sioqchao", Def: "▯ is a wheeled vehicle.", By: "Ilmen", Score: 0}, "sioqduo": Word{Word: "sioqduo", Def: "▯ runs / moves on wheels to ▯ from ▯.", By: "Ilmen", Score: 0}, "sioqpuao": Word{Word: "sioqpuao", Def: "▯ is a cyclone.", By: "Ilmen", Score: 0}, "sioqseu": Word{Word: "sioqseu", Def: "▯ is the τ mathematical constant, the ratio of the radius of a circle to its circumference.", By: "Ilmen", Score: 1}, "sipua": Word{Word: "sipua", Def: "zdile", By: "spreadsheet", Score: 0}, "siq": Word{Word: "siq", Def: "predicate: ‘clean’; ▯ is clean/pure.", By: "official", Score: 0}, "siqba": Word{Word: "siqba", Def: "lion", By: "spreadsheet", Score: 0}, "siqchuaq": Word{Word: "siqchuaq", Def: "▯ is (personal) hygiene; ▯ is the ism oriented around keeping oneself clean.", By: "uakci", Score: 0}, "siqchuaqgi": Word{Word: "siqchuaqgi", Def: "▯ is good from a standpoint of hygiene; ▯ is hygienic [clean].", By: "uakci", Score: 0}, "siqfuqle": Word{Word: "siqfuqle", Def: "▯ asks courteously for ▯.", By: "uakci", Score: 0}, "siqgabera": Word{Word: "siqgabera", Def: "▯ is a member of genus Zingiber (the true gingers).", By: "Hoemai", Score: 0}, "siqgapura": Word{Word: "siqgapura", Def: "▯ pertains to the culture of Singapore – Republic of Singapore.", By: "countries", Score: 0}, "siqgapuragua": Word{Word: "siqgapuragua", Def: "▯ is the country Singapore – Republic of Singapore.", By: "countries", Score: 0}, "siqgapuratoaq": Word{Word: "siqgapuratoaq", Def: "▯ is (one of) the language(s) spoken in Singapore – Republic of Singapore.", By: "countries", Score: 0}, "siqkea": Word{Word: "siqkea", Def: "predicate: ‘washing.machine’; ▯ is a washing machine.", By: "official", Score: 0}, "siqma": Word{Word: "siqma", Def: "respect", By: "spreadsheet", Score: -1}, "siqshuatua": Word{Word: "siqshuatua", Def: "shower", By: "spreadsheet", Score: 0}, "siqtuachuaq": Word{Word: "siqtuachuaq", Def: "▯ is hygiene; ▯ is the ism oriented around keeping stuff clean.", By: "uakci", Score: 0}, "siri": Word{Word: "siri", Def: "zilbri", By: "spreadsheet", Score: -1}, "siria": Word{Word: "siria", Def: "▯ pertains to the culture of Syria – Syrian Arab Republic.", By: "countries", Score: 0}, "siriagua": Word{Word: "siriagua", Def: "▯ is the country Syria – Syrian Arab Republic.", By: "countries", Score: 0}, "siriatoaq": Word{Word: "siriatoaq", Def: "▯ is (one of) the language(s) spoken in Syria – Syrian Arab Republic.", By: "countries", Score: 0}, "sisa": Word{Word: "sisa", Def: "▯ is conscious.", By: "uakci", Score: 0}, "sishai": Word{Word: "sishai", Def: "▯ faints; ▯ drops unconscious.", By: "uakci", Score: 0}, "sisia": Word{Word: "sisia", Def: "▯ is unconscious.", By: "uakci", Score: 0}, "sitako": Word{Word: "sitako", Def: "▯ is a member of genus Psitaccus (containing the grey parrot and the Timneh parrot).", By: "Hoemai", Score: 0}, "situa": Word{Word: "situa", Def: "▯ notifies ▯ about ▯", By: "seaqtaq", Score: 0}, "situe hoa": Word{Word: "situe hoa", Def: "▯ is an attention-seeking person.", By: "uakci", Score: 0}, "siu": Word{Word: "siu", Def: "gỉq pủı sa túq lủ bủ jẻojēq jêo dóshī hóa na jêo dógū hóa da", By: "uakci", Score: 0}, "siu noqse po baq sepe ★ noqse po baq goso da.": Word{Word: "siu noqse po baq sepe ★ noqse po baq goso da.", Def: "(A0591) The taste of snake is similar to that of chicken.", By: "examples", Score: 0}, "siugiq": Word{Word: "siugiq", Def: "▯ is dissimilar from ▯.", By: "Ilmen", Score: 0}, "siugiqcheo": Word{Word: "siugiqcheo", Def: "various, vrici", By: "spreadsheet", Score: 0}, "siujeo": Word{Word: "siujeo", Def: "something like ▯ is the case; ▯ has a property that is similar to ▯.", By: "Ilmen", Score: -1}, "siuleo": Word{Word: "siuleo", Def: "▯ by satisfying property ▯ mimics/immitates/emulates\u00a0▯", By: "seaqtaq", Score: 0}, "siume": Word{Word: "siume", Def: "▯ has a homogenous composition.", By: "Ilmen", Score: 0}, "siumuo": Word{Word: "siumuo", Def: "▯ is indistinguishable from ▯.", By: "Ilmen", Score: 0}, "sỉao shijue niq nỉaq da.": Word{Word: "sỉao shijue niq nỉaq da.", Def: "(A0140) January is the beginning of the new year.", By: "examples", Score: 0}, "so": Word{Word: "so", Def: "▯ is thê (semantical content of) next sentence.", By: "uakci", Score: 1}, "soa": Word{Word: "soa", Def: "predicate: ‘help’; ▯ helps ▯ to satisfy property ▯.", By: "official", Score: 0}, "soa pa nei ri jo moq ": Word{Word: "soa pa nei ri jo moq ", Def: "(A0374) Are there nine or four helpers?", By: "examples", Score: 0}, "soa siu hoq hoi pa suao jijie.": Word{Word: "soa siu hoq hoi pa suao jijie.", Def: "(A0974) ", By: "examples", Score: 0}, "soacha": Word{Word: "soacha", Def: "▯ is done with help from ▯.", By: "uakci", Score: 0}, "soagiq": Word{Word: "soagiq", Def: "▯ unhelps/interfers with/hinders ▯'s attempt to satisfy the property ▯.", By: "Ilmen", Score: 0}, "soai": Word{Word: "soai", Def: "predicate: ‘beam’; ▯ is a beam/ray/line extending outwards from a point.", By: "official", Score: 0}, "soaica": Word{Word: "soaica", Def: "▯ emits rays ▯.", By: "uakci", Score: 0}, "soaishoai": Word{Word: "soaishoai", Def: "▯ is an Actinopterygii.", By: "Ilmen", Score: 0}, "soaitao": Word{Word: "soaitao", Def: "▯ extends ▯ ", By: "seaqtaq", Score: 0}, "soamuoq": Word{Word: "soamuoq", Def: "▯ is an enzyme or catalyst for reaction ▯.", By: "uakci", Score: 0}, "soao": Word{Word: "soao", Def: "▯ sweats.", By: "uakci", Score: 0}, "soaonao": Word{Word: "soaonao", Def: "(fork of #T3Za0ZFAT) ▯ is sweat.", By: "uakci", Score: 1}, "soaose": Word{Word: "soaose", Def: "▯ is sweat.", By: "uakci", Score: 1}, "soaq": Word{Word: "soaq", Def: "predicate: ‘garden’; ▯ is a garden.", By: "official", Score: 0}, "soatoa": Word{Word: "soatoa", Def: "particle, cmavo", By: "spreadsheet", Score: 0}, "soe": Word{Word: "soe", Def: "predicate: ‘sour’; ▯ is sour.", By: "official", Score: 0}, "soe ru shueq ni heu kui bu koaq maq da.": Word{Word: "soe ru shueq ni heu kui bu koaq maq da.", Def: "(A0948) That fruit is sour and bitter because it is not ripe.", By: "examples", Score: 0}, "soeq": Word{Word: "soeq", Def: "▯ is familiar.", By: "uakci", Score: 0}, "sofa": Word{Word: "sofa", Def: "sofa", By: "spreadsheet", Score: 0}, "sofu": Word{Word: "sofu", Def: "software, proga", By: "spreadsheet", Score: 0}, "soi": Word{Word: "soi", Def: "compete", By: "spreadsheet", Score: 0}, "soibuaq": Word{Word: "soibuaq", Def: "lose (in a competition)", By: "spreadsheet", Score: 0}, "soiche": Word{Word: "soiche", Def: "▯is a soldier", By: "seaqtaq", Score: 0}, "soicia": Word{Word: "soicia", Def: "▯ is at peace with ▯.", By: "uakci", Score: 0}, "soideoq": Word{Word: "soideoq", Def: "▯ (coll.) discuss matter ▯.", By: "uakci", Score: 0}, "soifuai": Word{Word: "soifuai", Def: "▯ is a military", By: "seaqtaq", Score: 0}, "soiheo": Word{Word: "soiheo", Def: "▯ is against ▯.", By: "uakci", Score: 0}, "soijeq": Word{Word: "soijeq", Def: "▯ supports ▯; ▯ is on ▯’s side; ▯ is for ▯.", By: "uakci", Score: 0}, "soiluaq": Word{Word: "soiluaq", Def: "▯ competes with ▯ to see in satisfying property/to see who satisfies property ▯\u00a0", By: "seaqtaq", Score: 0}, "soime": Word{Word: "soime", Def: "▯ is an army", By: "seaqtaq", Score: 0}, "soiraq": Word{Word: "soiraq", Def: "▯ is violent", By: "seaqtaq", Score: -1}, "soiruo": Word{Word: "soiruo", Def: "▯ is an act of violence; ▯ commits act of violence ▯.", By: "uakci", Score: 0}, "soisiatue": Word{Word: "soisiatue", Def: "peace", By: "spreadsheet", Score: 0}, "soitai": Word{Word: "soitai", Def: "▯ beats / wins against ▯ in a battle or competition.", By: "lynn", Score: 0}, "soitue": Word{Word: "soitue", Def: "▯ is a battle", By: "seaqtaq", Score: 0}, "soka": Word{Word: "soka", Def: "predicate: ‘soccer’; ▯ is soccer/football.", By: "official", Score: 0}, "somalia": Word{Word: "somalia", Def: "▯ pertains to the culture of Somalia – Federal Republic of Somalia.", By: "countries", Score: 0}, "somaliagua": Word{Word: "somaliagua", Def: "▯ is the country Somalia – Federal Republic of Somalia.", By: "countries", Score: 0}, "somaliatoaq": Word{Word: "somaliatoaq", Def: "▯ is (one of) the language(s) spoken in Somalia – Federal Republic of Somalia.", By: "countries", Score: 0}, "soq": Word{Word: "soq", Def: "sıa dó měa hóa dósāq pa, hủaq dóshī dógū da", By: "uakci", Score: 0}, "soq gi": Word{Word: "soq gi", Def: "predicate: ‘best’; ▯ is the best among ▯.", By: "official", Score: 0}, "soq hui": Word{Word: "soq hui", Def: "predicate: ‘worst’; ▯ is the worst among ▯.", By: "official", Score: 0}, "soq hui hi rai lu tao ho hoa moq": Word{Word: "soq hui hi rai lu tao ho hoa moq", Def: "(A0610) What's the worst thing he has done?", By: "examples", Score: 0}, "soq hui jeo hoq, she!  keo bu tao ho da.  chiai!": Word{Word: "soq hui jeo hoq, she!  keo bu tao ho da.  chiai!", Def: "(A0614) That would truly be the worst!  But, he never did it.  Wrong!", By: "examples", Score: 0}, "soq nio ji lu mepaq hoa poji luo da.": Word{Word: "soq nio ji lu mepaq hoa poji luo da.", Def: "(A0259) I'm the youngest in my family.", By: "examples", Score: 0}, "soq nui": Word{Word: "soq nui", Def: "predicate: ‘smallest’; ▯ is the smallest among ▯.", By: "official", Score: 0}, "soq pui": Word{Word: "soq pui", Def: "predicate: ‘most’; ▯ are the most numerous among ▯.", By: "official", Score: 0}, "soq sao": Word{Word: "soq sao", Def: "predicate: ‘biggest’; ▯ is the biggest among ▯.", By: "official", Score: 0}, "soq sao ni jio po ni doaq da.": Word{Word: "soq sao ni jio po ni doaq da.", Def: "(A0714) This is the biggest building in the city.", By: "examples", Score: 0}, "soqcho ji mio reokaq da.": Word{Word: "soqcho ji mio reokaq da.", Def: "(A0519) My favorite color is blue.", By: "examples", Score: 0}, "soqcho suq hi rai baq shamu roi baq piso moq.": Word{Word: "soqcho suq hi rai baq shamu roi baq piso moq.", Def: "(A0320) What's your favorite out of apples and pears?", By: "examples", Score: 0}, "soqcho suq hi rai reokaq moq.": Word{Word: "soqcho suq hi rai reokaq moq.", Def: "(A0518) What's your favorite color?", By: "examples", Score: 0}, "soqjane": Word{Word: "soqjane", Def: "▯ is the biggest finite arity of predicate/relation ▯.", By: "uakci", Score: 0}, "soqjeo": Word{Word: "soqjeo", Def: "▯ jeo’s ▯ at its limit; ▯ satisfies property ▯ as much as feasible.", By: "uakci", Score: 2}, "soqjui": Word{Word: "soqjui", Def: "▯ is extremely ▯; ▯ has property ▯ to an extreme extent.", By: "Ilmen", Score: 0}, "soqline": Word{Word: "soqline", Def: "(fork of #oIje3bN2v) ▯ is maximum amount of things that satisfy property ▯", By: "seaqtaq", Score: 0}, "soqmea": Word{Word: "soqmea", Def: "(fork of #-cyCH-uCO) ▯ is the majority of ▯", By: "seaqtaq", Score: 0}, "soqriaq": Word{Word: "soqriaq", Def: "▯ is a utopia", By: "seaqtaq", Score: 0}, "soqsha": Word{Word: "soqsha", Def: "▯/0 reaches a climax", By: "seaqtaq", Score: 1}, "sore": Word{Word: "sore", Def: "▯ is a red-toothed shrew (Sorex genus).", By: "Ilmen", Score: 0}, "soreilia": Word{Word: "soreilia", Def: "▯ pertains to the culture of Australia – Commonwealth of Australia.", By: "countries", Score: 0}, "soreiliagua": Word{Word: "soreiliagua", Def: "▯ is the country Australia – Commonwealth of Australia.", By: "countries", Score: 0}, "soreiliatoaq": Word{Word: "soreiliatoaq", Def: "▯ is (one of) the language(s) spoken in Australia – Commonwealth of Australia.", By: "countries", Score: 0}, "soresiu": Word{Word: "soresiu", Def: "▯ is a shrew.", By: "Ilmen", Score: 0}, "sori": Word{Word: "sori", Def: "▯ sews/stitches/sutures ▯ with filament ▯.", By: "Ilmen", Score: 1}, "spreaq shee": Word{Word: "spreaq shee", Def: "▯ is a spreadsheet.", By: "uakci", Score: 0}, "su": Word{Word: "su", Def: "predicate: ‘previous.predicate’; ▯ are [previous predicate].", By: "official", Score: 0}, "sua": Word{Word: "sua", Def: "shẻ bû dảı dógū na bû jẻo dóshī da", By: "uakci", Score: 0}, "suahuaq": Word{Word: "suahuaq", Def: "predicate: ‘superfluous’; ▯ is superfluous / more than is necessary for ▯ to happen.", By: "official", Score: 0}, "suai": Word{Word: "suai", Def: "pẻ go sa báq dóshī dôqdāq sa lú gủo hóa tâo dóshī dógū da", By: "uakci", Score: 0}, "suai cua liqdeo": Word{Word: "suai cua liqdeo", Def: "(B0030) The girls answered quickly", By: "examples", Score: 0}, "suai fa suq ba!": Word{Word: "suai fa suq ba!", Def: "(SRP.2) Go quickly!", By: "official", Score: 0}, "suai(mieq)chuo": Word{Word: "suai(mieq)chuo", Def: "▯ is a speedometer", By: "seaqtaq", Score: 0}, "suaiduokea": Word{Word: "suaiduokea", Def: "gun, thing-that-shoots", By: "spreadsheet", Score: 0}, "suaifuri": Word{Word: "suaifuri", Def: "shake", By: "spreadsheet", Score: 0}, "suaigama": Word{Word: "suaigama", Def: "dromedary", By: "spreadsheet", Score: 0}, "suaikaidiu": Word{Word: "suaikaidiu", Def: "▯is stenography", By: "seaqtaq", Score: 0}, "suaikoi": Word{Word: "suaikoi", Def: "predicate: ‘run’; ▯ runs.", By: "official", Score: 0}, "suaikoi ji diaq da.": Word{Word: "suaikoi ji diaq da.", Def: "(A0061) I run regularly.", By: "examples", Score: 0}, "suaikoi shagiq tuq peao naqdeo": Word{Word: "suaikoi shagiq tuq peao naqdeo", Def: "(B0023) All the boys ran away", By: "examples", Score: 0}, "suaikuai": Word{Word: "suaikuai", Def: "predicate: ‘in.a.hurry’; ▯ is in a hurry; ▯ feels the urge to quickly satisfy property ▯.", By: "official", Score: 0}, "suaipue": Word{Word: "suaipue", Def: "▯ is a member of genus Dromaius (the emus).", By: "Hoemai", Score: 0}, "suaisiumoi": Word{Word: "suaisiumoi", Def: "▯ intuits ▯", By: "Xylochoron", Score: 0}, "suaisua": Word{Word: "suaisua", Def: "It is urgent that ▯ be the case for ▯ to be the case.", By: "Ilmen", Score: 0}, "suaitao": Word{Word: "suaitao", Def: "▯ hurries.", By: "Ilmen", Score: 0}, "suao": Word{Word: "suao", Def: "dóshī pa lủ gỉ to ra râqmōı sa pủı hóa to râqmōı sa ráı dãqfāı hóa da", By: "uakci", Score: 0}, "suaobukuaq": Word{Word: "suaobukuaq", Def: "▯ shrugs", By: "fagri", Score: 0}, "suaochiduitaq": Word{Word: "suaochiduitaq", Def: "▯ is megalomaniac.", By: "Ilmen", Score: 0}, "suaochikuaq": Word{Word: "suaochikuaq", Def: "celebrate", By: "spreadsheet", Score: 0}, "suaochua": Word{Word: "suaochua", Def: "▯ is a title/rank of ▯", By: "seaqtaq", Score: 0}, "suaojaqchitaq": Word{Word: "suaojaqchitaq", Def: "▯ is megalomaniac.", By: "Ilmen", Score: 0}, "suaojie": Word{Word: "suaojie", Def: "predicate: ‘care’; ▯ cares about ▯; ▯ considers ▯ important.", By: "official", Score: 0}, "suaojiekuaq": Word{Word: "suaojiekuaq", Def: "celebrate", By: "spreadsheet", Score: 0}, "suaojiekuaq puq ji ko biq suq lui choaq ka.": Word{Word: "suaojiekuaq puq ji ko biq suq lui choaq ka.", Def: "(A1000)  We celebrate you being the 1000th visitor!", By: "examples", Score: 0}, "suaojietiao": Word{Word: "suaojietiao", Def: "▯ is worth esteem / has dignity; ▯ is worth esteem from ▯.", By: "Ilmen", Score: 1}, "suaoluapoq": Word{Word: "suaoluapoq", Def: "▯ is a main character of story/movie/book/TV show ▯", By: "fagri", Score: 0}, "suaomiu": Word{Word: "suaomiu", Def: "▯ deems ▯ to be important.", By: "Ilmen", Score: 0}, "suaone": Word{Word: "suaone", Def: "▯ is the level of importance", By: "seaqtaq", Score: 0}, "suaopai": Word{Word: "suaopai", Def: "▯ is a significant other of ▯.", By: "uakci", Score: -1}, "suaosoq": Word{Word: "suaosoq", Def: "▯ is a priority\u00a0", By: "seaqtaq", Score: 0}, "suaotuao": Word{Word: "suaotuao", Def: "▯ is unimportant/insignificant/worthless.", By: "Ilmen", Score: 0}, "suaotuaomiu": Word{Word: "suaotuaomiu", Def: "▯ despises ▯; ▯ regards ▯ with contempt or scorn.", By: "Ilmen", Score: 0}, "suaq": Word{Word: "suaq", Def: "chỏa dóshī dógū gỉaq da", By: "uakci", Score: 0}, "suaq da.": Word{Word: "suaq da.", Def: "(PRD.3) There is singing going on.", By: "official", Score: 0}, "suaq sa shuao": Word{Word: "suaq sa shuao", Def: "(B0001) Birds sing", By: "examples", Score: 0}, "suaqgiaq": Word{Word: "suaqgiaq", Def: "▯ is a song; ▯ is an example of oral/vocal/‘a cappella’ music.", By: "uakci", Score: 0}, "suaqkuqse": Word{Word: "suaqkuqse", Def: "▯ are the lyrics to song ▯.", By: "uakci", Score: 0}, "suaqse": Word{Word: "suaqse", Def: "song", By: "spreadsheet", Score: 1}, "suaqsue": Word{Word: "suaqsue", Def: "▯ prays; ▯ recites prayer ▯.", By: "uakci", Score: 0}, "suaqsuese": Word{Word: "suaqsuese", Def: "▯ is a prayer.", By: "uakci", Score: 0}, "sudo": Word{Word: "sudo", Def: "(fork of #1lWhikWDB) ▯ takes place with superuser privileges; ▯ does ▯ as superuser.", By: "uakci", Score: 0}, "sue": Word{Word: "sue", Def: "predicate: ‘request’; ▯ asks ▯ to satisfy property ▯.", By: "official", Score: 0}, "sue goi ji lî bu pỉe ja do bira da.": Word{Word: "sue goi ji lî bu pỉe ja do bira da.", Def: "(A0408) The doctor asked me not to drink beer.", By: "examples", Score: 0}, "sue ji suq li tua neo ja do maq toqfua ka.": Word{Word: "sue ji suq li tua neo ja do maq toqfua ka.", Def: "phrase: \"Please put it on the table\", \"I hereby ask you to put it on the table\"", By: "official", Score: 0}, "sue li hie gi joi hiaodaisi ka.": Word{Word: "sue li hie gi joi hiaodaisi ka.", Def: "(A0987) ", By: "examples", Score: 0}, "suecai": Word{Word: "suecai", Def: "command, issue an order", By: "spreadsheet", Score: -1}, "suecaq": Word{Word: "suecaq", Def: "▯ commands ▯ to do ▯; ▯ issues to ▯ the order ▯.", By: "Ilmen", Score: 1}, "suecua": Word{Word: "suecua", Def: "▯ obeys ▯; ▯ obeys ▯ in his/her/their request/command of satisfying property ▯.", By: "Ilmen", Score: 0}, "suecuahe": Word{Word: "suecuahe", Def: "▯ is obedient.", By: "Ilmen", Score: 0}, "suejaq": Word{Word: "suejaq", Def: "▯ exhorts ▯ to satisfy property ▯.", By: "Ilmen", Score: 0}, "suejeo": Word{Word: "suejeo", Def: "▯ satisfies property ▯ as ▯ asked; ▯ complies to do/be ▯ per ▯’s request.", By: "uakci", Score: 0}, "sueji choq suq ni koqpiuta ka.": Word{Word: "sueji choq suq ni koqpiuta ka.", Def: "(A0708) Please use this computer.", By: "examples", Score: 0}, "sueji fa suq poji bue ka.": Word{Word: "sueji fa suq poji bue ka.", Def: "(A0703) Please come to my home.", By: "examples", Score: 0}, "sueji tua kaqgai ji sa heo kue ka.": Word{Word: "sueji tua kaqgai ji sa heo kue ka.", Def: "(A0715) Please show me a different book.", By: "examples", Score: 0}, "suerie": Word{Word: "suerie", Def: "▯ pertains to the culture of Sweden – Kingdom of Sweden.", By: "countries", Score: 0}, "sueriegua": Word{Word: "sueriegua", Def: "▯ is the country Sweden – Kingdom of Sweden.", By: "countries", Score: 0}, "suerietoaq": Word{Word: "suerietoaq", Def: "▯ is (one of) the language(s) spoken in Sweden – Kingdom of Sweden.", By: "countries", Score: 0}, "sueta": Word{Word: "sueta", Def: "predicate: ‘sweater’; ▯ is a sweater.", By: "official", Score: 0}, "sugo": Word{Word: "sugo", Def: "predicate: repeat the immediately preceding predicate but with its two first argument slots swapped.", By: "Ilmen", Score: 1}, "sugocu": Word{Word: "sugocu", Def: "predicate: repeat the immediately preceding predicate but with the first and third slots swapped.", By: "Ilmen", Score: 1}, "suhe": Word{Word: "suhe", Def: "▯ is ▯’s psyche.", By: "uakci", Score: 0}, "suhu": Word{Word: "suhu", Def: "predicate: ‘pig’; ▯ is a pig.", By: "official", Score: 0}, "suhuliq": Word{Word: "suhuliq", Def: "▯ is a striped hyena (Hyaena hyaena).", By: "Ilmen", Score: 0}, "suhuliqsiu": Word{Word: "suhuliqsiu", Def: "▯ is a hyena (Hyaenidae taxonomic family).", By: "Ilmen", Score: 0}, "suhunueq": Word{Word: "suhunueq", Def: "▯ is pork / pig meat.", By: "lynn", Score: 1}, "sui": Word{Word: "sui", Def: "predicate: ‘least’; ▯ is least in property ▯ among ▯.", By: "official", Score: 0}, "suijeo": Word{Word: "suijeo", Def: "(fork of #K1xPDYTKp) ▯ jeo’s ▯ at its (lower )limit; ▯ satisfies property ▯ as little as feasible.", By: "seaqtaq", Score: 0}, "suijui": Word{Word: "suijui", Def: "▯ has property ▯ to an extremely small extent.", By: "Ilmen", Score: 0}, "suiline": Word{Word: "suiline", Def: "(fork of #2WswcyVLz) (fork of #oIje3bN2v) ▯ is minimum amount of things that satisfy property ▯", By: "seaqtaq", Score: 0}, "sukifimeaq": Word{Word: "sukifimeaq", Def: "▯ is a skiff type of a boat", By: "Xeizzen", Score: 0}, "sumo": Word{Word: "sumo", Def: "▯ is sumo wrestling.", By: "Hoemai", Score: 0}, "sune": Word{Word: "sune", Def: "▯ weaves ▯.", By: "Ilmen", Score: 0}, "suo": Word{Word: "suo", Def: "sa dó bı cả tûoı dó dóshī na lû bủ ra chỉaı dỏe dóshī dógū da", By: "uakci", Score: 0}, "suodoe": Word{Word: "suodoe", Def: "▯ alternates between being broken and working; is spotty, unreliable about performing function ▯.", By: "lynn", Score: 0}, "suomi": Word{Word: "suomi", Def: "▯ pertains to the culture of Finland – Republic of Finland.", By: "countries", Score: 0}, "suomigua": Word{Word: "suomigua", Def: "▯ is the country Finland – Republic of Finland.", By: "countries", Score: 0}, "suomitoaq": Word{Word: "suomitoaq", Def: "▯ is (one of) the language(s) spoken in Finland – Republic of Finland.", By: "countries", Score: 0}, "suoshaitua": Word{Word: "suoshaitua", Def: "repair", By: "spreadsheet", Score: 0}, "supaq": Word{Word: "supaq", Def: "\u00a0▯ is spam", By: "seaqtaq", Score: 0}, "supaqkai(doa)": Word{Word: "supaqkai(doa)", Def: "▯ spams message ▯ to chat/board/group/channel ▯", By: "seaqtaq", Score: 0}, "suq": Word{Word: "suq", Def: "shảo jí sî dóshī kûq jí ní tỏamē da", By: "uakci", Score: 1}, "suq bi siu teaq seaqkioq jaqbiaq tiao sa gu teaqriai da.": Word{Word: "suq bi siu teaq seaqkioq jaqbiaq tiao sa gu teaqriai da.", Def: "(A0983) As for you: your breasts are similar enough to your testicles to warrant two bras.", By: "examples", Score: 0}, "suq pa to ru pu bonue, ju chiai na, to bei hioqkuq, ju shuainu duahui da!": Word{Word: "suq pa to ru pu bonue, ju chiai na, to bei hioqkuq, ju shuainu duahui da!", Def: "(A0456) You not only took it, which is wrong, you also *bragged* about it, which is plain foolish!", By: "examples", Score: 0}, "suq roi ji pa gu da. suq ru ji pa shi da.": Word{Word: "suq roi ji pa gu da. suq ru ji pa shi da.", Def: "(CON.5) You and I are two. You and I are one (each).", By: "official", Score: 0}, "suq ru ji": Word{Word: "suq ru ji", Def: "argument phrase: \"you and I\"", By: "official", Score: 0}, "suqcho": Word{Word: "suqcho", Def: "▯ is something you like.", By: "lynn", Score: 0}, "suqchosoq": Word{Word: "suqchosoq", Def: "▯ is your favorite among ▯.", By: "lynn", Score: 0}, "suqgi": Word{Word: "suqgi", Def: "▯ is done with you as the beneficient; ▯ is done for you.", By: "uakci", Score: 0}, "suqhao": Word{Word: "suqhao", Def: "▯ are you and the others.", By: "Ilmen", Score: 0}, "suqji": Word{Word: "suqji", Def: "predicate: ‘we’; ▯ is us (we, the speaker and the listener(s)).", By: "official", Score: 0}, "suqjihao": Word{Word: "suqjihao", Def: "▯ is you, I and the others.", By: "Ilmen", Score: 0}, "suqjiho": Word{Word: "suqjiho", Def: "▯ is you, I and the others.", By: "Ilmen", Score: 0}, "suqkeo": Word{Word: "suqkeo", Def: "▯ contrasts with or contradicts what you said.", By: "Ilmen", Score: 2}, "suqneoq": Word{Word: "suqneoq", Def: "▯ is you (polite pronoun).", By: "Ilmen", Score: 0}, "suqpa": Word{Word: "suqpa", Def: "▯ is satisfied by you.", By: "lynn", Score: 1}, "suqpoi": Word{Word: "suqpoi", Def: "▯ is an event in which you are x1.", By: "uakci", Score: 1}, "suqre": Word{Word: "suqre", Def: "▯ is in relation ▯/2 with you.", By: "uakci", Score: 0}, "suqsa": Word{Word: "suqsa", Def: "sudden", By: "spreadsheet", Score: 0}, "suqti": Word{Word: "suqti", Def: "interfer with", By: "spreadsheet", Score: -1}, "suqtoa": Word{Word: "suqtoa", Def: "your point; what you’re trying to say; what you mean.", By: "uakci", Score: 0}, "susu": Word{Word: "susu", Def: "predicate: repeats the last serial predicate.", By: "Ilmen", Score: 0}, "ta": Word{Word: "ta", Def: "quantifier: ‘the’; quantifier: the", By: "oldofficial", Score: 0}, "ta nuaq bi poho niq *pasukashi pa sho jaq geaq da.": Word{Word: "ta nuaq bi poho niq *pasukashi pa sho jaq geaq da.", Def: "(A0994) As for that night, her new dress got very dirty.", By: "examples", Score: 0}, "tabako": Word{Word: "tabako", Def: "▯ is tobacco.", By: "lynn", Score: 0}, "tabu": Word{Word: "tabu", Def: "= [X1] Bủ dóshī lú jẻo hóa dógū.", By: "Ilmen", Score: 0}, "tage": Word{Word: "tage", Def: "▯ = tan(▯).", By: "Ilmen", Score: 0}, "tagi": Word{Word: "tagi", Def: "▯ is ▯ the ▯ edible ▯ portion ▯ of ▯ plant ▯; ▯ is a vegetable [or Lojbanic fruit].", By: "uakci", Score: 0}, "taho": Word{Word: "taho", Def: "▯ is a tangent; ▯ is tangential to ▯.", By: "uakci", Score: 0}, "tai": Word{Word: "tai", Def: "= #leo ru jẻo", By: "uakci", Score: 0}, "taibaq": Word{Word: "taibaq", Def: "▯ pertains to the culture of Taiwan (Republic of China) → Taiwan.", By: "countries", Score: 0}, "taibaqgua": Word{Word: "taibaqgua", Def: "▯ is the country Taiwan (Republic of China) → Taiwan.", By: "countries", Score: 0}, "taibaqtoaq": Word{Word: "taibaqtoaq", Def: "▯ is (one of) the language(s) spoken in Taiwan (Republic of China) → Taiwan.", By: "countries", Score: 0}, "taijai": Word{Word: "taijai", Def: "satisfied", By: "spreadsheet", Score: -1}, "taipo": Word{Word: "taipo", Def: "▯ is a speling mistake; ▯ is mispelled.", By: "uakci", Score: 0}, "taipua": Word{Word: "taipua", Def: "satisfied", By: "spreadsheet", Score: 0}, "taiseq": Word{Word: "taiseq", Def: "▯ is a type-setting of textual material ▯ that follows typesetting principles, guidelines, stylistic choices, or restraints ▯.", By: "uakci", Score: 0}, "tajeo": Word{Word: "tajeo", Def: "▯ satisfies the property that satisfies the property ▯.", By: "Ilmen", Score: -1}, "taji": Word{Word: "taji", Def: "Doing ▯ is a way of doing ▯", By: "fagri", Score: -1}, "tajiki": Word{Word: "tajiki", Def: "▯ pertains to the culture of Tajikistan – Republic of Tajikistan.", By: "countries", Score: 0}, "tajikigua": Word{Word: "tajikigua", Def: "▯ is the country Tajikistan – Republic of Tajikistan.", By: "countries", Score: 0}, "tajikitoaq": Word{Word: "tajikitoaq", Def: "▯ is (one of) the language(s) spoken in Tajikistan – Republic of Tajikistan.", By: "countries", Score: 0}, "taku": Word{Word: "taku", Def: "plan ⓥ", By: "spreadsheet", Score: 0}, "taku ji chuq ra nuo.": Word{Word: "taku ji chuq ra nuo.", Def: "(A0467) I plan on eating or sleeping, or both.", By: "examples", Score: 0}, "tama": Word{Word: "tama", Def: "predicate: ‘tomato’; ▯ is a tomato.", By: "official", Score: 0}, "tamea": Word{Word: "tamea", Def: "▯ is among the things having property ▯.", By: "Ilmen", Score: -1}, "tana": Word{Word: "tana", Def: "▯ is a mesh/net.", By: "Ilmen", Score: 0}, "tano": Word{Word: "tano", Def: "soil", By: "spreadsheet", Score: 0}, "tanoloha": Word{Word: "tanoloha", Def: "▯ is aluminium.", By: "Ilmen", Score: 0}, "tanote": Word{Word: "tanote", Def: "▯ plows ▯.", By: "Ilmen", Score: -1}, "tao": Word{Word: "tao", Def: "predicate: ‘do’; ▯ does ▯.", By: "official", Score: 0}, "tao (meoq)koi": Word{Word: "tao (meoq)koi", Def: "▯ takes a walk", By: "seaqtaq", Score: 0}, "tao jeaq joe": Word{Word: "tao jeaq joe", Def: "(fork of official) predicate: ‘practice’; ▯ practices skill ▯.", By: "seaqtaq", Score: 0}, "tao juq cue\u00a0": Word{Word: "tao juq cue\u00a0", Def: "▯ seizes power; ▯ takes control\u00a0of ▯", By: "seaqtaq", Score: 0}, "tao naoti": Word{Word: "tao naoti", Def: "▯ bathes.", By: "Ilmen", Score: 0}, "tao suq hi rai moq hu naqfu.": Word{Word: "tao suq hi rai moq hu naqfu.", Def: "(VOC.1) What are you doing, son?", By: "official", Score: 1}, "tao suq hi rai rao jiachaq moq.": Word{Word: "tao suq hi rai rao jiachaq moq.", Def: "(A0164) What are you doing tommorow?", By: "examples", Score: 0}, "tao suq hi rai rao tu fejue moq.": Word{Word: "tao suq hi rai rao tu fejue moq.", Def: "(A0148) What do you do every May?", By: "examples", Score: 0}, "taoboqtaq": Word{Word: "taoboqtaq", Def: "▯ refrains from satisfying property ▯", By: "seaqtaq", Score: 0}, "taobuca": Word{Word: "taobuca", Def: "▯ does ▯ by accident, unintentionally.", By: "uakci", Score: 1}, "taoca": Word{Word: "taoca", Def: "▯ (0) motivates ▯ to satisfy property ▯", By: "seaqtaq", Score: 0}, "taochie": Word{Word: "taochie", Def: "learn how to", By: "spreadsheet", Score: -1}, "taocho": Word{Word: "taocho", Def: "▯ likes/enjoys to ▯.", By: "Ilmen", Score: 0}, "taocia": Word{Word: "taocia", Def: "accidental/unintentional", By: "spreadsheet", Score: 0}, "taodai": Word{Word: "taodai", Def: "▯ has an opportunity to satisfy property ▯.", By: "Ilmen", Score: 0}, "taodaigi": Word{Word: "taodaigi", Def: "▯ has an opportunity to do ▯", By: "seaqtaq", Score: 0}, "taodie": Word{Word: "taodie", Def: "predicate: ‘advise’; ▯ advises ▯ to do ▯.", By: "official", Score: 0}, "taodishe": Word{Word: "taodishe", Def: "decide to", By: "spreadsheet", Score: 0}, "taodua": Word{Word: "taodua", Def: "know how to", By: "spreadsheet", Score: 0}, "taodua gusioqfa suq, ma jeo moq.": Word{Word: "taodua gusioqfa suq, ma jeo moq.", Def: "(A0574) You know how to bike, isn't it?", By: "examples", Score: 0}, "taofa": Word{Word: "taofa", Def: "▯ goes to do ▯.", By: "Ilmen", Score: 0}, "taogiq": Word{Word: "taogiq", Def: "▯ satisfies property ▯ automatically / as a reflex / without wanting or trying to / “affectively” (Ithkuil sense).", By: "lynn", Score: 0}, "taohiao": Word{Word: "taohiao", Def: "▯ attacks ▯ by doing ▯.", By: "uakci", Score: 0}, "taojai": Word{Word: "taojai", Def: "▯ is glad that they did ▯", By: "fagri", Score: 0}, "taokakoe": Word{Word: "taokakoe", Def: "▯ decides to do ▯.", By: "Ilmen", Score: 1}, "taokoe": Word{Word: "taokoe", Def: "= #koe #tảo", By: "uakci", Score: 0}, "taokuai": Word{Word: "taokuai", Def: "▯ feels driven to or feel a need to do ▯.", By: "Ilmen", Score: 0}, "taole": Word{Word: "taole", Def: "▯ tends to or is prone to do ▯.", By: "Ilmen", Score: 0}, "taolu": Word{Word: "taolu", Def: "Event ▯ has ▯ as actor.", By: "uakci", Score: 0}, "taomia": Word{Word: "taomia", Def: "busy", By: "spreadsheet", Score: 0}, "taomoe": Word{Word: "taomoe", Def: "feel like doing", By: "spreadsheet", Score: 1}, "taomoi": Word{Word: "taomoi", Def: "predicate: ‘consider.doing’; ▯ considers doing ▯.", By: "official", Score: 0}, "taomuo": Word{Word: "taomuo", Def: "▯ completes task ▯; ▯ finishes satisfying property ▯", By: "seaqtaq", Score: 0}, "taoroa": Word{Word: "taoroa", Def: "▯ does ▯ without further thought, that action being an end in itself and not a step in a progressive effort to achieve another goal.", By: "Ilmen", Score: 0}, "taoroakoi": Word{Word: "taoroakoi", Def: "▯ wanders aimlessly/about", By: "seaqtaq", Score: 0}, "taosapa": Word{Word: "taosapa", Def: "agree to do (tao+[accept])", By: "spreadsheet", Score: -1}, "taose": Word{Word: "taose", Def: "▯ is something done / a done deed.", By: "lynn", Score: 0}, "taoseu": Word{Word: "taoseu", Def: "▯ is the number tau τ = 6.283….", By: "uakci", Score: 0}, "taoshao": Word{Word: "taoshao", Def: "intend", By: "spreadsheet", Score: -1}, "taoshao bu daqfai fa ji da.": Word{Word: "taoshao bu daqfai fa ji da.", Def: "(A0399) I intend not to go often.", By: "examples", Score: 0}, "taoshao daqfai bu fa ji da.": Word{Word: "taoshao daqfai bu fa ji da.", Def: "(A0400) I intend to often not go.", By: "examples", Score: 0}, "taoshao fa ji to ro rao nichaq to rao jiachaq.": Word{Word: "taoshao fa ji to ro rao nichaq to rao jiachaq.", Def: "(CON.2) I'll go either today or tomorrow.", By: "official", Score: 0}, "taoshao ho li ja do bi kaqgai pao tai do": Word{Word: "taoshao ho li ja do bi kaqgai pao tai do", Def: "(STP.4) They intend to make [their] parents see them succeed.", By: "official", Score: 0}, "taoshao jea suq hi kue moq": Word{Word: "taoshao jea suq hi kue moq", Def: "(INT.3) Which book do you want to buy?", By: "official", Score: 0}, "taosio": Word{Word: "taosio", Def: "predicate: ‘plan’; ▯ is an idea / a plan.", By: "official", Score: 0}, "taotari": Word{Word: "taotari", Def: "▯ refuses to satisfy property ▯.", By: "Ilmen", Score: 0}, "taotoai": Word{Word: "taotoai", Def: "▯ is a step in doing ▯", By: "seaqtaq", Score: 1}, "taotu": Word{Word: "taotu", Def: "▯, to each member of ▯ one after the other, does ▯ (2)\u00a0", By: "fagri", Score: 1}, "taotua": Word{Word: "taotua", Def: "▯ has ▯ do ▯; ▯ lässt (dem) ▯ (den) ▯ tun.", By: "uakci", Score: 0}, "taotue": Word{Word: "taotue", Def: "activity", By: "spreadsheet", Score: 0}, "tapa": Word{Word: "tapa", Def: "step (motion)", By: "spreadsheet", Score: -1}, "tapaq": Word{Word: "tapaq", Def: "▯ is part of the thing(s) satisfying the property ▯.", By: "Ilmen", Score: -1}, "tapira": Word{Word: "tapira", Def: "▯ is a member of genus Tapirus (the tapirs).", By: "Hoemai", Score: 0}, "taq": Word{Word: "taq", Def: "gủjēo dóshī dóshī dógū da", By: "uakci", Score: 1}, "taq dua jeo": Word{Word: "taq dua jeo", Def: "▯ knows they satisfy property ▯.", By: "uakci", Score: 0}, "taq mai ba.": Word{Word: "taq mai ba.", Def: "(A0276) Love yourself.", By: "examples", Score: 0}, "taq ruaq jeo": Word{Word: "taq ruaq jeo", Def: "▯ asserts that they satisfy property ▯.", By: "uakci", Score: 0}, "taq shao": Word{Word: "taq shao", Def: "▯ wants to satisfy the property ▯.", By: "Ilmen", Score: -1}, "taq shao jeo": Word{Word: "taq shao jeo", Def: "▯ wants to satisfy property ▯.", By: "uakci", Score: 0}, "taq tao shao": Word{Word: "taq tao shao", Def: "▯ wants to do ▯. [-1 for being an idiom.]", By: "uakci", Score: -2}, "taq teq": Word{Word: "taq teq", Def: "▯ pays oneself to\u00a0▯ for satisfying property\u00a0▯", By: "niucuq", Score: 0}, "taq tua muaq": Word{Word: "taq tua muaq", Def: "predicate: ‘commit.suicide’; ▯ commits suicide / kills themselves.", By: "official", Score: 0}, "taqbu": Word{Word: "taqbu", Def: "▯ is taboo.", By: "Ilmen", Score: 0}, "taqchao": Word{Word: "taqchao", Def: "predicate: ‘car’; ▯ is a car; ▯ is an automobile.", By: "official", Score: 0}, "taqda": Word{Word: "taqda", Def: "standard", By: "spreadsheet", Score: 0}, "taqdeoq": Word{Word: "taqdeoq", Def: "▯ talks to themself.", By: "lynn", Score: -1}, "taqjania": Word{Word: "taqjania", Def: "▯ pertains to the culture of Tanzania – United Republic of Tanzania.", By: "countries", Score: 0}, "taqjaniagua": Word{Word: "taqjaniagua", Def: "▯ is the country Tanzania – United Republic of Tanzania.", By: "countries", Score: 0}, "taqjaniatoaq": Word{Word: "taqjaniatoaq", Def: "▯ is (one of) the language(s) spoken in Tanzania – United Republic of Tanzania.", By: "countries", Score: 0}, "taqkuq": Word{Word: "taqkuq", Def: "▯ says ▯ to themself.", By: "lynn", Score: 0}, "taqpo": Word{Word: "taqpo", Def: "▯ is ▯'s own ▯", By: "seaqtaq", Score: 0}, "taqru": Word{Word: "taqru", Def: "tanru", By: "spreadsheet", Score: -1}, "taqsi": Word{Word: "taqsi", Def: "basin, tube, sink, tansi", By: "spreadsheet", Score: 0}, "taqtoaq": Word{Word: "taqtoaq", Def: "▯ is an idiolect\u00a0", By: "seaqtaq", Score: 0}, "tari": Word{Word: "tari", Def: "▯ refuses that ▯ be the case.", By: "Ilmen", Score: 0}, "tashe": Word{Word: "tashe", Def: "sincere", By: "spreadsheet", Score: -1}, "tasu": Word{Word: "tasu", Def: "soup", By: "spreadsheet", Score: -1}, "te": Word{Word: "te", Def: "lủı gủjēo sa ráı dóshī dógū da\n", By: "uakci", Score: 0}, "te dua muaq ho ba.": Word{Word: "te dua muaq ho ba.", Def: "(A0893) Let it be known that he is dead.", By: "examples", Score: 0}, "te gai ni req da.": Word{Word: "te gai ni req da.", Def: "(A0888) This person was sensed.", By: "examples", Score: 0}, "te hiao ni kune da.": Word{Word: "te hiao ni kune da.", Def: "(A0886) This dog is injured.", By: "examples", Score: 0}, "te kaqgai ni nueq da.": Word{Word: "te kaqgai ni nueq da.", Def: "(A0887) This meat is seen.", By: "examples", Score: 0}, "te koe de da.": Word{Word: "te koe de da.", Def: "(A0889) The beautiful thing was chosen.", By: "examples", Score: 0}, "te koe de sa pui da.": Word{Word: "te koe de sa pui da.", Def: "(A0890) The beautiful thing was chosen out of many things.", By: "examples", Score: 0}, "te kuq mo \"pai ji suq ba.\" teo da.": Word{Word: "te kuq mo \"pai ji suq ba.\" teo da.", Def: "(A0891) \"You should be my friend,\" is said.", By: "examples", Score: 0}, "te te cua hoq da.": Word{Word: "te te cua hoq da.", Def: "‘It has been in the state of having been responded with to somebody by somebody.’", By: "uakci", Score: 0}, "tea": Word{Word: "tea", Def: "mỏı dóshī sa lú cả go sa pó hóa kûaı bủ shỏ mủaq dóshī da", By: "uakci", Score: 0}, "tea deo kui nuaqchu da.": Word{Word: "tea deo kui nuaqchu da.", Def: "(A0304) The child is scared because it's midnight.", By: "examples", Score: 0}, "teaca": Word{Word: "teaca", Def: "▯ is scary; ▯ is spoooooky.", By: "uakci", Score: 0}, "teacai": Word{Word: "teacai", Def: "▯ is brave (emotional state)", By: "fagri", Score: 1}, "teao": Word{Word: "teao", Def: "▯ is not the same thing as ▯;\u00a0mẻahēo ▯ go ▯", By: "fagri", Score: 0}, "teaq": Word{Word: "teaq", Def: "predicate: ‘breast’; ▯ is a breast.", By: "official", Score: 0}, "teaqjieq": Word{Word: "teaqjieq", Def: "predicate: ‘nipple’; ▯ is a nipple.", By: "official", Score: 0}, "teaqniai": Word{Word: "teaqniai", Def: "predicate: ‘mammal’; ▯ is a mammal.", By: "official", Score: 0}, "teaqpie": Word{Word: "teaqpie", Def: "▯ sucks ▯ from ▯’s breasts.", By: "uakci", Score: 0}, "teaqriai": Word{Word: "teaqriai", Def: "predicate: ‘bra’; ▯ is a bra.", By: "official", Score: 0}, "teasaora": Word{Word: "teasaora", Def: "▯ is a member of the superorder Dinosauria (the true dinosaurs).", By: "Hoemai", Score: 0}, "teasoicai": Word{Word: "teasoicai", Def: "courageous", By: "spreadsheet", Score: 0}, "teba": Word{Word: "teba", Def: "frustrated", By: "spreadsheet", Score: -1}, "techuonioq": Word{Word: "techuonioq", Def: "▯ is a smilodon, or saber-toothed tiger.", By: "Ilmen", Score: 0}, "tefa": Word{Word: "tefa", Def: "▯ are tangled/intertwined.", By: "Ilmen", Score: 0}, "tei": Word{Word: "tei", Def: "structure", By: "spreadsheet", Score: 0}, "teica": Word{Word: "teica", Def: "▯ (plural) are arranged in shape ▯", By: "fagri", Score: 0}, "teicia": Word{Word: "teicia", Def: "▯ is amorphous", By: "seaqtaq", Score: 0}, "teidīu": Word{Word: "teidīu", Def: "▯ is geometry.", By: "lynn", Score: 0}, "teidoafui": Word{Word: "teidoafui", Def: "▯ is malleable.", By: "Ilmen", Score: 0}, "teifui": Word{Word: "teifui", Def: "▯ is soft; it is easy to change the shape of ▯.", By: "uakci", Score: 0}, "teige": Word{Word: "teige", Def: "▯ is a member of the genus Strix (the earless owls).", By: "Hoemai", Score: 0}, "teilai": Word{Word: "teilai", Def: "▯ is a punctuation mark signifying ▯.", By: "uakci", Score: 0}, "teinoa": Word{Word: "teinoa", Def: "▯ is hard; it is hard to change the shape of ▯.", By: "uakci", Score: 0}, "teirea": Word{Word: "teirea", Def: "▯ is a surface.", By: "Ilmen", Score: 0}, "teiriuhe": Word{Word: "teiriuhe", Def: "▯ is elastic/springy.", By: "Ilmen", Score: 0}, "teitoai": Word{Word: "teitoai", Def: "▯ is a morpheme", By: "seaqtaq", Score: 0}, "tenisi": Word{Word: "tenisi", Def: "▯ is tennis (game).", By: "Hoemai", Score: 0}, "teo": Word{Word: "teo", Def: "end-quote: ‘»’; terminate full-text quote.", By: "official", Score: 0}, "teoq": Word{Word: "teoq", Def: "kủqsē dóshī, na ru tu dó bảq pỏq bı kủı kûq dó dóshī na bû ra kủaı rảqdủa dó dóshī da", By: "uakci", Score: 0}, "teoq fai mu kuq(tfmk)": Word{Word: "teoq fai mu kuq(tfmk)", Def: "▯ is a frequently asked question(FAQ)", By: "seaqtaq", Score: 0}, "teoqcua": Word{Word: "teoqcua", Def: "▯ answers question ▯ with answer ▯", By: "fagri", Score: 0}, "teoqcuase": Word{Word: "teoqcuase", Def: "answer", By: "spreadsheet", Score: 0}, "teoqkuq": Word{Word: "teoqkuq", Def: "predicate: ‘ask’; ▯ asks question ▯ to ▯.", By: "official", Score: 0}, "teoqlai": Word{Word: "teoqlai", Def: "question mark, interrogation point (?)", By: "uakci", Score: 0}, "teoqmoi": Word{Word: "teoqmoi", Def: "predicate: ‘doubt’; ▯ doubts that ▯ is the case.", By: "official", Score: 0}, "teoqruaq": Word{Word: "teoqruaq", Def: "▯ asks question ▯ (indirect question, not text) to ▯", By: "fagri", Score: -2}, "teoqtiao": Word{Word: "teoqtiao", Def: "answer", By: "spreadsheet", Score: -1}, "teori": Word{Word: "teori", Def: "theory", By: "spreadsheet", Score: 0}, "teq": Word{Word: "teq", Def: "to roı dỏa dóshī sa pó dógū nủaı dósāq to jẻo dósāq dójō da", By: "uakci", Score: 0}, "teqdoa": Word{Word: "teqdoa", Def: "▯ donates money ▯ to ▯ for ▯.", By: "uakci", Score: -1}, "teqguai": Word{Word: "teqguai", Def: "predicate: ‘pay work’; ▯ does payed work ▯; ▯ does ▯ as a job.", By: "official", Score: -1}, "teqguai ji kiai go geo da.": Word{Word: "teqguai ji kiai go geo da.", Def: "(A0495) I care for the old (for a living).", By: "examples", Score: 0}, "teqguai suq hi rai moq.": Word{Word: "teqguai suq hi rai moq.", Def: "(A0494) What is your job?", By: "examples", Score: 0}, "teqguaitue": Word{Word: "teqguaitue", Def: "job", By: "spreadsheet", Score: 0}, "teqjuq": Word{Word: "teqjuq", Def: "▯ is payed ▯ by ▯ for satisfying property ▯", By: "seaqtaq", Score: 0}, "teqne": Word{Word: "teqne", Def: "▯ is an amount paid / a price.", By: "lynn", Score: 0}, "teqnologi": Word{Word: "teqnologi", Def: "technology", By: "spreadsheet", Score: 0}, "teqriai": Word{Word: "teqriai", Def: "▯sponsors ▯", By: "seaqtaq", Score: 0}, "teqse": Word{Word: "teqse", Def: "▯ is a payment", By: "seaqtaq", Score: 0}, "tera": Word{Word: "tera", Def: "predicate: ‘tera’; ▯ are 10^12 (1,000,000,000,000) in number; ▯ are a trillion.", By: "official", Score: 0}, "tese": Word{Word: "tese", Def: "▯ is a slice / portion / part cut from ▯.", By: "lynn", Score: -2}, "teseboe": Word{Word: "teseboe", Def: "slice", By: "spreadsheet", Score: -1}, "teshi": Word{Word: "teshi", Def: "steci", By: "spreadsheet", Score: 0}, "tesie": Word{Word: "tesie", Def: "▯ is the sequence resulting from applying the cons function of the arguments ▯ and ▯.", By: "Ilmen", Score: -1}, "tesieme": Word{Word: "tesieme", Def: "▯ is the sequence resulting from applying the cons function of the arguments ▯ and ▯.", By: "Ilmen", Score: -1}, "test": Word{Word: "test", Def: "▯ is pointless spam.", By: "test", Score: 0}, "test word": Word{Word: "test word", Def: "predicate: ▯ tests the functionality of online collaborative dictionary ▯.", By: "test", Score: 0}, "tetabo": Word{Word: "tetabo", Def: "▯ is a turtle/tortoise/terrapin (Testudinata taxonomic subclass).", By: "Ilmen", Score: 0}, "teu": Word{Word: "teu", Def: "▯ = ▯ ^ ▯.", By: "Ilmen", Score: 0}, "teu cu": Word{Word: "teu cu", Def: "▯ = log(▯, ▯).", By: "Ilmen", Score: 0}, "teu go": Word{Word: "teu go", Def: "▯ = nrt(▯, ▯).", By: "Ilmen", Score: 0}, "throw": Word{Word: "throw", Def: "shoot ⓥ (shooting device as the subject)", By: "spreadsheet", Score: -2}, "ti": Word{Word: "ti", Def: "= [XX] Pảq sa góamōa dóshī ru dógū.", By: "Ilmen", Score: 0}, "ti deo hi rai moq.": Word{Word: "ti deo hi rai moq.", Def: "(A0010) Where are the children?", By: "examples", Score: 0}, "ti ho naokua da.": Word{Word: "ti ho naokua da.", Def: "(A0530) He is in the bathroom.", By: "examples", Score: 0}, "ti ho ni da.": Word{Word: "ti ho ni da.", Def: "(A0006) They are here.", By: "examples", Score: 0}, "ti ho nuofua kui bia ho da.": Word{Word: "ti ho nuofua kui bia ho da.", Def: "(A0507) He's in bed because he's sick.", By: "examples", Score: 0}, "ti nuo ji na soaq.": Word{Word: "ti nuo ji na soaq.", Def: "(PPH.2) My sleeping is in the garden.", By: "official", Score: 0}, "ti poho fu chiejio da.": Word{Word: "ti poho fu chiejio da.", Def: "(A0506) His son is at school.", By: "examples", Score: 0}, "ti poji gua ru rao tu diaijue bi luaq puqji sa giopoaq da.": Word{Word: "ti poji gua ru rao tu diaijue bi luaq puqji sa giopoaq da.", Def: "(A0151) In my country, every July we play with fireworks.", By: "examples", Score: 0}, "ti poji liqfu husonaguaq da.": Word{Word: "ti poji liqfu husonaguaq da.", Def: "(A0725) My daughter is in the United States.", By: "examples", Score: 0}, "ti posuq pai hi rai moq.": Word{Word: "ti posuq pai hi rai moq.", Def: "(A0529) Where are your parents?", By: "examples", Score: 0}, "ti sa baoreo kato soaq da.": Word{Word: "ti sa baoreo kato soaq da.", Def: "(A0739) There is a white cat in the garden.", By: "examples", Score: 0}, "ti sa shi de coa gao nao da.": Word{Word: "ti sa shi de coa gao nao da.", Def: "(A0023) There is a beautiful bridge above the water. ", By: "examples", Score: 0}, "tia": Word{Word: "tia", Def: "predicate: ‘behind’; ▯ is behind ▯.", By: "official", Score: 0}, "tia go jio sa shi de meirie da.": Word{Word: "tia go jio sa shi de meirie da.", Def: "(A0296) Behind the building there is a beautiful valley.", By: "examples", Score: 0}, "tiafeo": Word{Word: "tiafeo", Def: "▯ is the south direction", By: "seaqtaq", Score: 0}, "tiai": Word{Word: "tiai", Def: "predicate: ‘box’; ▯ is a box.", By: "official", Score: 0}, "tiakoi": Word{Word: "tiakoi", Def: "▯ ambulates backwards.", By: "Ilmen", Score: 0}, "tiali": Word{Word: "tiali", Def: "belly", By: "spreadsheet", Score: 0}, "tiao": Word{Word: "tiao", Def: "gỉjīe dógū jêo dóshī dósāq da", By: "uakci", Score: 0}, "tiaocoe": Word{Word: "tiaocoe", Def: "▯ and ▯ are fitted together.", By: "Ilmen", Score: 0}, "tiaodai": Word{Word: "tiaodai", Def: "candidate", By: "spreadsheet", Score: -1}, "tiaofoa": Word{Word: "tiaofoa", Def: "▯ is (feels) satisfied (satisfaction).", By: "uakci", Score: 0}, "tiaofoatua": Word{Word: "tiaofoatua", Def: "▯ appeases ▯.", By: "uakci", Score: 0}, "tiaogi": Word{Word: "tiaogi", Def: "▯ is suitable; ▯ fits.", By: "uakci", Score: 0}, "tiaojeo": Word{Word: "tiaojeo", Def: "▯ is true; ▯ satisfies property ▯; ▯ and ▯ satisfy relation ▯; ▯, ▯, and ▯ satisfy 3-relation ▯; ... etc ad infinitum", By: "fagri", Score: 0}, "tiaojoai": Word{Word: "tiaojoai", Def: "▯ searches/looks for something suitable for him/her/them to be in relation ▯ with it among ▯.", By: "Ilmen", Score: 0}, "tiaokuq": Word{Word: "tiaokuq", Def: "▯ says exactly what needs to be said in the current situation; ▯ says the mot juste.", By: "uakci", Score: 0}, "tiaokuqse": Word{Word: "tiaokuqse", Def: "▯ is the mot juste (‘exactly the right words in the right time and situation’).", By: "uakci", Score: 0}, "tiaotao": Word{Word: "tiaotao", Def: "▯ obeys to do ▯ as ▯ asks/wants to; ▯ does ▯ as ▯ pleases.", By: "uakci", Score: 0}, "tiaq": Word{Word: "tiaq", Def: "predicate: ‘brown’; ▯ is the colour brown.", By: "official", Score: 0}, "tiaqbaogui": Word{Word: "tiaqbaogui", Def: "▯ is brown rice.", By: "uakci", Score: 0}, "tiaqbuaopuo": Word{Word: "tiaqbuaopuo", Def: "▯ is brown sugar", By: "fagri", Score: -2}, "tiaqduao": Word{Word: "tiaqduao", Def: "sugar", By: "spreadsheet", Score: 0}, "tiaqreo": Word{Word: "tiaqreo", Def: "predicate: ‘brown’; ▯ is of brown colour.", By: "official", Score: 0}, "tibi": Word{Word: "tibi", Def: "predicate: ‘TV’; ▯ pertains to television.", By: "official", Score: 0}, "tibia": Word{Word: "tibia", Def: "▯ is a tibia/shinbone (the inner and usually the larger of the two bones of the leg or hind limb below the knee).", By: "Hoemai", Score: 0}, "tibumeo": Word{Word: "tibumeo", Def: "▯ misses ▯; ▯ is sad that ▯ is not there.", By: "Ilmen", Score: 1}, "tichiu": Word{Word: "tichiu", Def: "▯ are the Cartesian coordinates of ▯ in the coordinate system ▯.", By: "Ilmen", Score: 0}, "ticuao": Word{Word: "ticuao", Def: "ragve", By: "spreadsheet", Score: -1}, "tiduasho": Word{Word: "tiduasho", Def: "predicate: ‘find’; ▯ finds ▯; ▯ discovers that ▯ is at ▯.", By: "official", Score: 0}, "tiduasho puqho kuo kato jeoq nie poetoq da.": Word{Word: "tiduasho puqho kuo kato jeoq nie poetoq da.", Def: "(A0959) They find out that black cat is at hollow inside of wall.", By: "examples", Score: 0}, "tiduoshai": Word{Word: "tiduoshai", Def: "get lost", By: "spreadsheet", Score: 0}, "tie": Word{Word: "tie", Def: "predicate: ‘cover’; ▯ covers ▯.", By: "official", Score: 0}, "tiechuo": Word{Word: "tiechuo", Def: "predicate: ‘lid’; ▯ is a lid/cover.", By: "official", Score: 0}, "tiecia": Word{Word: "tiecia", Def: "▯ is naked/bare", By: "seaqtaq", Score: 0}, "tiefuq": Word{Word: "tiefuq", Def: "▯ is a coat/overcoat/cloak.", By: "lynn", Score: 0}, "tiehua": Word{Word: "tiehua", Def: "skin", By: "spreadsheet", Score: 0}, "tiehuashoai": Word{Word: "tiehuashoai", Def: "▯ is a colugo (Dermoptera taxonomic order).", By: "Ilmen", Score: 0}, "tieq": Word{Word: "tieq", Def: "predicate: ‘path’; ▯ is a way/path.", By: "official", Score: 0}, "tieqgaitua": Word{Word: "tieqgaitua", Def: "lead (gidva)", By: "spreadsheet", Score: 0}, "tieqguao": Word{Word: "tieqguao", Def: "▯ is a fork in the road.", By: "lynn", Score: 0}, "tieqkoai": Word{Word: "tieqkoai", Def: "▯ is a network of roads/paths.", By: "Hoemai", Score: 0}, "tiga": Word{Word: "tiga", Def: "tiger", By: "spreadsheet", Score: 0}, "tigaq": Word{Word: "tigaq", Def: "▯ stays with ▯ at ▯.", By: "uakci", Score: 0}, "tihi": Word{Word: "tihi", Def: "frolicsome laughter", By: "uakci", Score: 1}, "tihihihi": Word{Word: "tihihihi", Def: "extremely frolicksom lafter", By: "uakci", Score: 0}, "tijai": Word{Word: "tijai", Def: "▯ is happy that ▯ is present.", By: "Ilmen", Score: 0}, "tijai ji suq da.": Word{Word: "tijai ji suq da.", Def: "(A0606) I'm happy you are here.", By: "examples", Score: 0}, "tijao": Word{Word: "tijao", Def: "predicate: ‘far’; ▯ is far away from ▯.", By: "official", Score: 0}, "tijeaq": Word{Word: "tijeaq", Def: "spread", By: "spreadsheet", Score: 0}, "tijeq": Word{Word: "tijeq", Def: "(fork of #XfrtqNuqD) ▯ (roı) are all at the same place", By: "seaqtaq", Score: 0}, "tijui": Word{Word: "tijui", Def: "predicate: ‘near’; ▯ is near / in the vicinity of ▯.", By: "official", Score: 0}, "tijui hoi riaq chiejio da.": Word{Word: "tijui hoi riaq chiejio da.", Def: "(A0084) It's close to the school.", By: "examples", Score: 0}, "tike": Word{Word: "tike", Def: "ticket", By: "spreadsheet", Score: 0}, "tilai": Word{Word: "tilai", Def: "▯ is an at sign (@).", By: "uakci", Score: 0}, "tilao": Word{Word: "tilao", Def: "▯ waits for ▯ to be there; ▯ waits for ▯ to be at place ▯.", By: "Hoemai", Score: 0}, "tilia": Word{Word: "tilia", Def: "▯ is a member of genus Tilia (including the lindens, the basswoods and the lime tree).", By: "Hoemai", Score: 0}, "timia": Word{Word: "timia", Def: "▯ holds many ▯; ▯ is full of ▯; ▯ is where it many ▯ gives.", By: "uakci", Score: 0}, "timiq": Word{Word: "timiq", Def: "▯ is omnipresent; ▯ is everywhere\u00a0", By: "seaqtaq", Score: 0}, "tinaq": Word{Word: "tinaq", Def: "▯ pertains to klingon culture, language, or its speakers", By: "seaqtaq", Score: 0}, "tiniqdua": Word{Word: "tiniqdua", Def: "predicate: ‘find’; ▯ finds ▯; ▯ discovers that ▯ is at ▯.", By: "official", Score: 0}, "tino": Word{Word: "tino", Def: "light shadow", By: "spreadsheet", Score: 0}, "tio": Word{Word: "tio", Def: "statement prefix: ‘how.much’; statement prefix: how much; to what extent", By: "official", Score: 0}, "tio geo ni jio moq.": Word{Word: "tio geo ni jio moq.", Def: "(A0170) How old is this building?", By: "examples", Score: 0}, "tio geo suq moq.": Word{Word: "tio geo suq moq.", Def: "(A0515) How old are you?", By: "examples", Score: 0}, "tio loq nao moq": Word{Word: "tio loq nao moq", Def: "(INT.5) How hot is the water?", By: "official", Score: 0}, "tio sao maq moq.": Word{Word: "tio sao maq moq.", Def: "(A0577) How big is it?", By: "examples", Score: 0}, "tiomieq": Word{Word: "tiomieq", Def: "count ⓥ", By: "spreadsheet", Score: 0}, "tiopui": Word{Word: "tiopui", Def: "predicate: ‘how.many’; ▯ are how many.", By: "official", Score: 0}, "tioq": Word{Word: "tioq", Def: "predicate: ‘lock’; ▯ is a lock.", By: "official", Score: 0}, "tioqheq": Word{Word: "tioqheq", Def: "▯ is a vault/safe containing ▯", By: "seaqtaq", Score: 0}, "tioqpoa": Word{Word: "tioqpoa", Def: "predicate: ‘locked’; ▯ is locked.", By: "official", Score: 0}, "tioqtiai": Word{Word: "tioqtiai", Def: "(fork of #QN2kSXg72) ▯ is a vault/safe\u00a0", By: "seaqtaq", Score: 0}, "tioqtiao": Word{Word: "tioqtiao", Def: "key", By: "spreadsheet", Score: 0}, "tiotoa": Word{Word: "tiotoa", Def: "quantifier", By: "spreadsheet", Score: 0}, "tipoeme": Word{Word: "tipoeme", Def: "▯ is spatially discontinuous.", By: "Ilmen", Score: 0}, "tiq": Word{Word: "tiq", Def: "predicate: ‘tile’; ▯ is a tile.", By: "official", Score: 0}, "tiqbo": Word{Word: "tiqbo", Def: "▯ is a Squamata (scaled reptile).", By: "Ilmen", Score: 0}, "tiqsa": Word{Word: "tiqsa", Def: "▯ is scaly.", By: "Ilmen", Score: 0}, "tiqsaoro": Word{Word: "tiqsaoro", Def: "▯ is a scaled reptile (Lepidosauria).", By: "Ilmen", Score: 0}, "tiqshoai": Word{Word: "tiqshoai", Def: "predicate: ‘butterfly’; ▯ is a butterfly.", By: "official", Score: 0}, "tiqti": Word{Word: "tiqti", Def: "▯ stings/pokes ▯", By: "fagri", Score: 0}, "tirea": Word{Word: "tirea", Def: "surface", By: "spreadsheet", Score: 0}, "tirige": Word{Word: "tirige", Def: "▯ is an owl of the Strix genus.", By: "Ilmen", Score: 0}, "tirigetei": Word{Word: "tirigetei", Def: "▯ is an owl.", By: "Ilmen", Score: 0}, "tiriu": Word{Word: "tiriu", Def: "predicate: ‘return’; ▯ returns to location ▯.", By: "official", Score: 0}, "tise": Word{Word: "tise", Def: "▯ is a location", By: "seaqtaq", Score: -1}, "tisha": Word{Word: "tisha", Def: "reach", By: "spreadsheet", Score: 0}, "tishagiq": Word{Word: "tishagiq", Def: "▯ leaves place/position ▯.", By: "lynn", Score: 0}, "tishai": Word{Word: "tishai", Def: "disappear", By: "spreadsheet", Score: 0}, "tisho": Word{Word: "tisho", Def: "appear", By: "spreadsheet", Score: 0}, "tishue": Word{Word: "tishue", Def: "predicate: ‘stay’; ▯ stays at ▯.", By: "official", Score: 0}, "tishue ho fai po ji ga buajio.": Word{Word: "tishue ho fai po ji ga buajio.", Def: "(ADV.1) They often stay at my house.", By: "official", Score: 0}, "tishui": Word{Word: "tishui", Def: "▯ is hidden.", By: "Ilmen", Score: 0}, "tisupu": Word{Word: "tisupu", Def: "The volume of ▯ measured in teaspoons is ▯", By: "fagri", Score: 0}, "titiaogiq": Word{Word: "titiaogiq", Def: "▯ is where it doesn’t belong.", By: "uakci", Score: 0}, "titoai": Word{Word: "titoai", Def: "Planck length (unit)", By: "Xylochoron", Score: 0}, "tiu": Word{Word: "tiu", Def: "sentence prefix: then, in that case, so", By: "Hoemai", Score: 0}, "tỉaqreo pojī kỉaq da.": Word{Word: "tỉaqreo pojī kỉaq da.", Def: "(A0406) I have brown hair.", By: "oldexamples", Score: 0}, "tỉshue ri fa moq.": Word{Word: "tỉshue ri fa moq.", Def: "(A0347) Staying or leaving?", By: "examples", Score: 0}, "tlu": Word{Word: "tlu", Def: "▯ is the set of all things that satisfy [complement] at hóa.", By: "uakci", Score: 0}, "to": Word{Word: "to", Def: "separator: ‘CONJ’; helper particle in forethought conjunctions: to + conj ▯ to ▯", By: "official", Score: 0}, "to ru bei siaq to bu lio da.": Word{Word: "to ru bei siaq to bu lio da.", Def: "(A0480) ", By: "oldexamples", Score: 0}, "toa": Word{Word: "toa", Def: "mỉu sa ráı dóshī, na ru dẻq kủq ra kảı báq pỏq nỉtōaqchōq dóshī da", By: "uakci", Score: 0}, "toa meaheo bi": Word{Word: "toa meaheo bi", Def: "in other words", By: "spreadsheet", Score: 0}, "toabuaq": Word{Word: "toabuaq", Def: "▯ is at loss for words.", By: "Ilmen", Score: 0}, "toagiu": Word{Word: "toagiu", Def: "predicate: ‘line’; ▯ is a line (of text).", By: "official", Score: 0}, "toagui": Word{Word: "toagui", Def: "serial (e.g., dủq gủai)", By: "uakci", Score: 1}, "toaheo": Word{Word: "toaheo", Def: "▯ is a rewording of sentence/text ▯.", By: "Ilmen", Score: 0}, "toahuo": Word{Word: "toahuo", Def: "tone (ling.)", By: "spreadsheet", Score: 0}, "toai": Word{Word: "toai", Def: "tu lú pảq hóa dógū pa, bủ hủaq sảo dóshī da", By: "uakci", Score: 0}, "toaidaq": Word{Word: "toaidaq", Def: "▯ is a second.", By: "uakci", Score: 0}, "toaijeq": Word{Word: "toaijeq", Def: "▯ is the average value of ▯ in ▯; ▯ is ▯ per capita; ▯ is the approximately how much ▯ (property) there is for each of ▯ (proprietors).", By: "uakci", Score: 0}, "toaijuq": Word{Word: "toaijuq", Def: "▯ helps themselves with helping ▯.", By: "uakci", Score: 0}, "toaikoi": Word{Word: "toaikoi", Def: "(fork of #5wOwoAshY) predicate: steps; ▯ makes a step from ▯ to ▯.", By: "Xylochoron", Score: 0}, "toaishea": Word{Word: "toaishea", Def: "▯ is a vacuum; ▯ is a void.", By: "uakci", Score: 0}, "toaitue": Word{Word: "toaitue", Def: "▯ is an activity; ▯ is an event that can be brought about by accomplishing atomic sub-activities ▯ (not necessarily ordered or heterogenous).", By: "uakci", Score: 0}, "toakao": Word{Word: "toakao", Def: "dictionary (record, not necessarily a book)", By: "spreadsheet", Score: 0}, "toakuai": Word{Word: "toakuai", Def: "▯ longs for a word that satisfies property ▯.", By: "lynn", Score: 1}, "toakue": Word{Word: "toakue", Def: "▯ is a dictionary", By: "fagri", Score: 0}, "toaluaq": Word{Word: "toaluaq", Def: "▯ makes a play on words; ▯ makes a pun.", By: "Hoemai", Score: 0}, "toaluaqse": Word{Word: "toaluaqse", Def: "▯ is a pun / a play on words.", By: "Hoemai", Score: 1}, "toamuikao": Word{Word: "toamuikao", Def: "dictionary (record, not necessarily a book)", By: "spreadsheet", Score: 0}, "toamuikue": Word{Word: "toamuikue", Def: "dictionary (book)", By: "spreadsheet", Score: 0}, "toapaq": Word{Word: "toapaq", Def: "affix / rafsi", By: "spreadsheet", Score: 0}, "toaq": Word{Word: "toaq", Def: "predicate: ‘language’; ▯ is a language.", By: "official", Score: 0}, "toaqbeotua": Word{Word: "toaqbeotua", Def: "translate, fanva", By: "spreadsheet", Score: 0}, "toaqcha": Word{Word: "toaqcha", Def: "▯ is the Toaq (Dzu) Way; ▯ is how it’s done in Toaq.", By: "uakci", Score: 0}, "toaqche": Word{Word: "toaqche", Def: "▯ is a linguist", By: "seaqtaq", Score: 1}, "toaqdeq": Word{Word: "toaqdeq", Def: "▯ can speak language ▯.", By: "Ilmen", Score: 0}, "toaqdīu": Word{Word: "toaqdīu", Def: "▯ is linguistics.", By: "lynn", Score: 0}, "toaqdue": Word{Word: "toaqdue", Def: "gendra", By: "spreadsheet", Score: -1}, "toaqgua": Word{Word: "toaqgua", Def: "▯ is Toaqistan.", By: "uakci", Score: 0}, "toaqheomuijeq": Word{Word: "toaqheomuijeq", Def: "▯ means the same as ▯ in the different language ▯ (when the former is read in language ▯).", By: "Ilmen", Score: 0}, "toaqheomuijeqmieq": Word{Word: "toaqheomuijeqmieq", Def: "▯ translates ▯ to language ▯ (from language ▯)", By: "Ilmen", Score: 0}, "toaqjuao": Word{Word: "toaqjuao", Def: "grammar", By: "spreadsheet", Score: 0}, "toaqjuaochiai": Word{Word: "toaqjuaochiai", Def: "grammatically incorrect", By: "spreadsheet", Score: 0}, "toaqjuaodue": Word{Word: "toaqjuaodue", Def: "▯ is grammatically correct.", By: "lynn", Score: 0}, "toaqluo": Word{Word: "toaqluo", Def: "▯ is a language family.", By: "Ilmen", Score: 0}, "toaqno": Word{Word: "toaqno", Def: "▯ is in language ▯.", By: "lynn", Score: 0}, "toaqnoshuaq": Word{Word: "toaqnoshuaq", Def: "▯ produces a copy of ▯ translated into language ▯.", By: "lynn", Score: 0}, "toaqpoq": Word{Word: "toaqpoq", Def: "▯ is something interested in the Toaq language in particular", By: "seaqtaq", Score: 0}, "toaqrioqmu": Word{Word: "toaqrioqmu", Def: "▯ is a dialect", By: "seaqtaq", Score: 0}, "toaqtiao": Word{Word: "toaqtiao", Def: "▯ (linguistic expression) means the same as ▯ in the different language ▯ (when the former is read in language ▯).", By: "Ilmen", Score: 1}, "toaqtiaojioq": Word{Word: "toaqtiaojioq", Def: "▯ translates ▯ to language ▯ (from language ▯).", By: "Ilmen", Score: 1}, "toaqtoaq": Word{Word: "toaqtoaq", Def: "▯ is Toaq.", By: "uakci", Score: 0}, "toashuaq": Word{Word: "toashuaq", Def: "▯ coins lexical item ▯\u00a0", By: "seaqtaq", Score: 0}, "toasiao": Word{Word: "toasiao", Def: "etymology", By: "spreadsheet", Score: 1}, "toasoi": Word{Word: "toasoi", Def: "tumultuous predicate: ▯ is the first argument, ▯ is the second argument, ▯ is the third argument, and so on.", By: "uakci", Score: 0}, "toe": Word{Word: "toe", Def: "shủaq dóshī sa jéoq nǐe ra rẻatī hóa dógū na dósāq da", By: "uakci", Score: 0}, "toechuo": Word{Word: "toechuo", Def: "predicate: ‘knife’; ▯ is a knife.", By: "official", Score: 0}, "toechuo maq da. ru loi ji baq hao.": Word{Word: "toechuo maq da. ru loi ji baq hao.", Def: "(A0445) It's a knife. And I hate those.", By: "examples", Score: 0}, "toegoi": Word{Word: "toegoi", Def: "▯ performs surgery on ▯.", By: "Ilmen", Score: 0}, "toegoiche": Word{Word: "toegoiche", Def: "▯ is a surgeon.", By: "Ilmen", Score: 0}, "toeji": Word{Word: "toeji", Def: "▯ is a mole of genus Talpa (containing different species of mole found primarily in Europe and western Asia).", By: "Hoemai", Score: 0}, "toejinu": Word{Word: "toejinu", Def: "▯ is a member of subfamily Talpinae (Old World moles and relatives).", By: "Hoemai", Score: 0}, "toekai": Word{Word: "toekai", Def: "▯ carves ▯ on ▯.", By: "Ilmen", Score: 0}, "toenioq": Word{Word: "toenioq", Def: "▯ is an incisor (tooth).", By: "Ilmen", Score: 0}, "toenua": Word{Word: "toenua", Def: "▯ cuts ▯ from ▯", By: "seaqtaq", Score: 0}, "toese": Word{Word: "toese", Def: "▯ is a slice / portion / part cut from ▯.", By: "Ilmen", Score: 0}, "toetuao": Word{Word: "toetuao", Def: "▯ notches/cuts ▯ (incomplet cut, not resulting in a complete separation).", By: "Ilmen", Score: 0}, "tofu": Word{Word: "tofu", Def: "▯ is tofu.", By: "lynn", Score: 1}, "togo": Word{Word: "togo", Def: "▯ pertains to the culture of Togo – Togolese Republic.", By: "countries", Score: 0}, "togogua": Word{Word: "togogua", Def: "▯ is the country Togo – Togolese Republic.", By: "countries", Score: 0}, "togotoaq": Word{Word: "togotoaq", Def: "▯ is (one of) the language(s) spoken in Togo – Togolese Republic.", By: "countries", Score: 0}, "tohoi": Word{Word: "tohoi", Def: "▯ is the connectand at the left-hand side of the current logical connection.", By: "Ilmen", Score: 1}, "tohoq": Word{Word: "tohoq", Def: "▯ is the proposition at the left-hand side of the current logical connection.", By: "Ilmen", Score: 0}, "toi": Word{Word: "toi", Def: "terminator for multipart TO", By: "uakci", Score: 0}, "toli": Word{Word: "toli", Def: "▯ is a truth-value relation.", By: "Ilmen", Score: 0}, "tonameqtue": Word{Word: "tonameqtue", Def: "▯ is a tournament.", By: "Hoemai", Score: 0}, "toq": Word{Word: "toq", Def: "predicate: ‘board’; ▯ is a board.", By: "official", Score: 0}, "toqceaq": Word{Word: "toqceaq", Def: "▯ is a plate nail (such as human fingernails).", By: "Ilmen", Score: 0}, "toqfua": Word{Word: "toqfua", Def: "predicate: ‘table’; ▯ is a table.", By: "official", Score: 0}, "toqga": Word{Word: "toqga", Def: "tone", By: "spreadsheet", Score: -1}, "toqgagua": Word{Word: "toqgagua", Def: "▯ is the country Tonga – Kingdom of Tonga.", By: "countries", Score: 0}, "toqgatoaq": Word{Word: "toqgatoaq", Def: "▯ is (one of) the language(s) spoken in Tonga – Kingdom of Tonga.", By: "countries", Score: 0}, "toqhua": Word{Word: "toqhua", Def: "▯ is a forehead.", By: "Ilmen", Score: 0}, "tora": Word{Word: "tora", Def: "zilvlina", By: "spreadsheet", Score: 0}, "toraq": Word{Word: "toraq", Def: "▯ is a truth-value relation.", By: "Ilmen", Score: -1}, "torodo": Word{Word: "torodo", Def: "▯ is an ostrich.", By: "Ilmen", Score: 0}, "toroso": Word{Word: "toroso", Def: "▯ is a thrush/blackbird.", By: "Hoemai", Score: 0}, "toru": Word{Word: "toru", Def: "zilkanxe", By: "spreadsheet", Score: 0}, "touieaeaiuoaeq": Word{Word: "touieaeaiuoaeq", Def: "▯ is a language with unreasonably lenient nucleus phonotactics.", By: "uakci", Score: 0}, "tu": Word{Word: "tu", Def: "quantifier: ‘any’; quantifier: universal quantifier", By: "official", Score: 0}, "tu do bi deq suq do da.": Word{Word: "tu do bi deq suq do da.", Def: "(QUA.5) Anything is such that you can do it.", By: "official", Score: 0}, "tu do ti go nijao bi bu kaqsi suq do ba.  ": Word{Word: "tu do ti go nijao bi bu kaqsi suq do ba.  ", Def: "(A0428) About everything that's over there: dont look at it. ", By: "examples", Score: 0}, "tu gu poq pa he guchio cheo geq da.": Word{Word: "tu gu poq pa he guchio cheo geq da.", Def: "(A0389) You always meet twice.", By: "examples", Score: 0}, "tu lu si hoa hoi kiq pa cho maq da.": Word{Word: "tu lu si hoa hoi kiq pa cho maq da.", Def: "(A0473) All those who watched the aforementioned movie liked it.", By: "examples", Score: 0}, "tu ni chao pa te li bonua juaochiai da.": Word{Word: "tu ni chao pa te li bonua juaochiai da.", Def: "(A0963) All of that cars are stolen ones.", By: "examples", Score: 0}, "tu poq": Word{Word: "tu poq", Def: "argument phrase: \"everyone\"", By: "official", Score: 0}, "tu poq pa cho baq joafao da.": Word{Word: "tu poq pa cho baq joafao da.", Def: "(A0184) Everyone likes the weekend.", By: "examples", Score: 0}, "tu rai": Word{Word: "tu rai", Def: "argument phrase: \"everything\", \"anything\"", By: "official", Score: 0}, "tu si su hoa hoi kiq pa cho maq da.": Word{Word: "tu si su hoa hoi kiq pa cho maq da.", Def: "(A0474) All those who watched the aforementioned movie liked it.", By: "examples", Score: 0}, "tua": Word{Word: "tua", Def: "cả tâo dóshī sa ráı na dógū da", By: "uakci", Score: 0}, "tua buo": Word{Word: "tua buo", Def: "predicate: ‘prepare’; ▯ prepares ▯ for satisfying property ▯.", By: "official", Score: 0}, "tua caidua": Word{Word: "tua caidua", Def: "▯ (re-)assures ▯ that ▯ is the case", By: "seaqtaq", Score: 0}, "tua chuabeo": Word{Word: "tua chuabeo", Def: "▯ changes the name of ▯ to be ▯", By: "seaqtaq", Score: 0}, "tua cuai pui diao chuao da.": Word{Word: "tua cuai pui diao chuao da.", Def: "(A0941) Many drops make the window wet.", By: "examples", Score: 0}, "tua deq buifa hi rai kune moq": Word{Word: "tua deq buifa hi rai kune moq", Def: "(INT.1) Who let the dogs out?", By: "official", Score: 0}, "tua dia": Word{Word: "tua dia", Def: "predicate: ‘lower’; ▯ lowers ▯ in how much it satisfies property ▯.", By: "official", Score: 0}, "tua dia laqcai ba.": Word{Word: "tua dia laqcai ba.", Def: "‘Turn the volume down.’", By: "uakci", Score: 0}, "tua dua": Word{Word: "tua dua", Def: "predicate: ‘tell’; ▯ tells ▯ that ▯ is the case; ▯ makes ▯ know ▯.", By: "official", Score: 0}, "tua fa ji suq huitaojio ka.": Word{Word: "tua fa ji suq huitaojio ka.", Def: "(A0992) I am taking you to jail.", By: "examples", Score: 0}, "tua gai": Word{Word: "tua gai", Def: "predicate: ‘show’; ▯ shows ▯ object/event ▯; ▯ makes ▯ observe ▯.", By: "official", Score: 0}, "tua hoaq": Word{Word: "tua hoaq", Def: "▯ burns ▯", By: "seaqtaq", Score: 0}, "tua jeaq": Word{Word: "tua jeaq", Def: "predicate: ‘raise’; ▯ raises ▯ in how much it satisfies property ▯.", By: "official", Score: 0}, "tua jeaq gea": Word{Word: "tua jeaq gea", Def: "predicate: ‘raise’; ▯ raises ▯ higher.", By: "official", Score: 0}, "tua jeaq nia": Word{Word: "tua jeaq nia", Def: "predicate: ‘lower’; ▯ lowers ▯ down.", By: "official", Score: 0}, "tua jeqti": Word{Word: "tua jeqti", Def: "▯ gathers ▯(roı) to be at ▯()", By: "seaqtaq", Score: 0}, "tua kao": Word{Word: "tua kao", Def: "record (rejgau)", By: "spreadsheet", Score: 0}, "tua kaqgai": Word{Word: "tua kaqgai", Def: "predicate: ‘show’; ▯ shows ▯ object/event; ▯ makes ▯ see ▯.", By: "official", Score: 0}, "tua neo": Word{Word: "tua neo", Def: "predicate: ‘put.onto’; ▯ puts ▯ onto ▯.", By: "official", Score: 0}, "tua nie": Word{Word: "tua nie", Def: "predicate: ‘put.inside’; ▯ puts ▯ inside ▯.", By: "official", Score: 0}, "tua no": Word{Word: "tua no", Def: "translate, fanva", By: "spreadsheet", Score: -1}, "tua paq suq sa noqgī duao ra muai ba.": Word{Word: "tua paq suq sa noqgī duao ra muai ba.", Def: "(A0349) Add tasty things that are sweet and/or umami.", By: "examples", Score: 0}, "tua poaq": Word{Word: "tua poaq", Def: "predicate: ‘split’; ▯ breaks/splits/separates ▯.", By: "official", Score: 0}, "tua poaq hi rai shia moq.": Word{Word: "tua poaq hi rai shia moq.", Def: "(A0342) What broke the glass?", By: "examples", Score: 0}, "tua seo": Word{Word: "tua seo", Def: "▯ marries ▯ to ▯.", By: "lynn", Score: 0}, "tua shie": Word{Word: "tua shie", Def: "predicate: ‘wake’; ▯ wakes ▯ up; ▯ awakens ▯.", By: "official", Score: 0}, "tua siq": Word{Word: "tua siq", Def: "▯ cleans ▯.", By: "lynn", Score: 0}, "tua siq ji toqfua.": Word{Word: "tua siq ji toqfua.", Def: "(SRP.5) I clean the table.", By: "official", Score: 0}, "tua siq suq muq ba.": Word{Word: "tua siq suq muq ba.", Def: "(A0596) Clean (your) hands.", By: "examples", Score: 0}, "tua suo": Word{Word: "tua suo", Def: "predicate: ‘break’; ▯ breaks/destroys ▯; ▯ makes ▯ be broken/inoperable.", By: "official", Score: 0}, "tua suq sho shie ji rao horachiu ci ba.": Word{Word: "tua suq sho shie ji rao horachiu ci ba.", Def: "(A0723) Wake me up at six o'clock.", By: "examples", Score: 0}, "tua ti": Word{Word: "tua ti", Def: "predicate: ‘put’; ▯ puts ▯ at ▯.", By: "official", Score: 0}, "tua ti ji puq tuifua haqbaikua.": Word{Word: "tua ti ji puq tuifua haqbaikua.", Def: "(ARG.2) I put the chairs in the kitchen.", By: "official", Score: 0}, "tua tijeq": Word{Word: "tua tijeq", Def: "(fork of #pddD3sqdj) ▯ gathers ▯(roı) to be at ▯()", By: "seaqtaq", Score: 0}, "tua tipoe": Word{Word: "tua tipoe", Def: "▯ isolates ▯ from ▯", By: "seaqtaq", Score: 0}, "tua tiriu": Word{Word: "tua tiriu", Def: "predicate: ‘put.back’; ▯ puts ▯ back at ▯.", By: "official", Score: 0}, "tua tiriu suq maq lu tiniqdua suq hoa, la sue ba. ": Word{Word: "tua tiriu suq maq lu tiniqdua suq hoa, la sue ba. ", Def: "(A0457) Return it to where you found it, please.", By: "examples", Score: 0}, "tuabai": Word{Word: "tuabai", Def: "▯ builds on ▯ with the intention of eventually making it satisfy property ▯", By: "fagri", Score: 0}, "tuahui": Word{Word: "tuahui", Def: "▯ is to blame for ▯ having happened; ▯ made ▯ happen, and they are to blame for it.", By: "uakci", Score: 0}, "tuahuijie": Word{Word: "tuahuijie", Def: "▯ blames ▯ for having made ▯ happened; ▯ thinks it’s ▯ to blame for ▯. [Non-verbal sense of ‘blame’.]", By: "uakci", Score: 0}, "tuahuiruaq": Word{Word: "tuahuiruaq", Def: "▯ blames [verbally] ▯ for having made ▯ happen.", By: "uakci", Score: 0}, "tuai": Word{Word: "tuai", Def: "predicate: ‘body’; ▯ is a body/corpse.", By: "official", Score: 0}, "tuaibo": Word{Word: "tuaibo", Def: "predicate: ‘physical’; ▯ is physical/corporal.", By: "official", Score: 0}, "tuaicia": Word{Word: "tuaicia", Def: "predicate: ‘non-physical’; ▯ is non-physical.", By: "official", Score: 0}, "tuaiduo": Word{Word: "tuaiduo", Def: "gesture / move (without overall location change)", By: "spreadsheet", Score: 0}, "tuaifuq": Word{Word: "tuaifuq", Def: "▯ is a cloak", By: "fagri", Score: 0}, "tuaijoq": Word{Word: "tuaijoq", Def: "▯ is a torso.", By: "Ilmen", Score: 0}, "tuaijoqfuq": Word{Word: "tuaijoqfuq", Def: "▯ is a shawl", By: "fagri", Score: 0}, "tuaisia": Word{Word: "tuaisia", Def: "▯ is immaterial.", By: "Ilmen", Score: 0}, "tuamu": Word{Word: "tuamu", Def: "▯ is (being) made to have property ▯; They make (are making) ▯ do/be ▯.", By: "uakci", Score: 0}, "tuao": Word{Word: "tuao", Def: "= gıq #jảq", By: "uakci", Score: 0}, "tuao bufoaqca": Word{Word: "tuao bufoaqca", Def: "Predicate: bother. ▯ bothers ▯; ▯ is bothersome.", By: "Xylochoron", Score: 0}, "tuao mia suq li kuq ja poq ja rai ji da.": Word{Word: "tuao mia suq li kuq ja poq ja rai ji da.", Def: "(A0834) You've said a lot of things to me.", By: "examples", Score: 0}, "tuao pui": Word{Word: "tuao pui", Def: "▯ are few.", By: "Ilmen", Score: 0}, "tuao pui koemea.": Word{Word: "tuao pui koemea.", Def: "(INX.1) The options are few.", By: "official", Score: 0}, "tuao suai ho.": Word{Word: "tuao suai ho.", Def: "(A0485) He isn't very fast.", By: "examples", Score: 0}, "tuao, m… jua da.": Word{Word: "tuao, m… jua da.", Def: "(A0353) It's a little, um… weird.", By: "examples", Score: 0}, "tuaobu": Word{Word: "tuaobu", Def: "predicate: ‘quite’; ▯ is quite ▯.", By: "official", Score: 0}, "tuaojaq": Word{Word: "tuaojaq", Def: "▯ is the case to a very little extent; ▯ has property ▯ to a very little extent.", By: "Ilmen", Score: 0}, "tuaotuao": Word{Word: "tuaotuao", Def: "▯ is the case to a rather/somewhat small extent (small but not very small either); ▯ has property ▯ to a rather/somewhat small extent.", By: "Ilmen", Score: 0}, "tuaq": Word{Word: "tuaq", Def: "▯ is a horn (body part).", By: "Ilmen", Score: 1}, "tuaqboluko": Word{Word: "tuaqboluko", Def: "▯ is a serval (Leptailurus serval).", By: "Ilmen", Score: 0}, "tuaqbosiu": Word{Word: "tuaqbosiu", Def: "▯ is a deer (Cervidae).", By: "Ilmen", Score: 0}, "tuasia": Word{Word: "tuasia", Def: "▯ deletes file/data ▯", By: "seaqtaq", Score: 0}, "tuatua": Word{Word: "tuatua", Def: "▯ makes ▯ do ▯ (event).", By: "uakci", Score: 0}, "tubalu": Word{Word: "tubalu", Def: "▯ pertains to the culture of Tuvalu.", By: "countries", Score: 0}, "tubalugua": Word{Word: "tubalugua", Def: "▯ is the country Tuvalu.", By: "countries", Score: 0}, "tubalutoaq": Word{Word: "tubalutoaq", Def: "▯ is (one of) the language(s) spoken in Tuvalu.", By: "countries", Score: 0}, "tubi": Word{Word: "tubi", Def: "▯ is true with maximal quantification domain (the quantification domain for that proposition is regarded as being as wide as possible, including anything one can think of; there is no implicit domain restriction).", By: "Ilmen", Score: 0}, "tubokuai": Word{Word: "tubokuai", Def: "(fork of #ICzDegBgz) ▯ is greedy", By: "seaqtaq", Score: 0}, "tuchao": Word{Word: "tuchao", Def: "predicate: ‘bus’; ▯ is a bus/omnibus.", By: "official", Score: 0}, "tuchaoce": Word{Word: "tuchaoce", Def: "predicate: ‘bus.stop’; ▯ is a bus stop.", By: "official", Score: 0}, "tudaq": Word{Word: "tudaq", Def: "▯ (proposition) is always true", By: "fagri", Score: 0}, "tue": Word{Word: "tue", Def: "#lufē ru #mẻajēq", By: "uakci", Score: 0}, "tue guasoi": Word{Word: "tue guasoi", Def: "▯ is a war", By: "seaqtaq", Score: 0}, "tue jai tu lu tue hoa chuq ji da.": Word{Word: "tue jai tu lu tue hoa chuq ji da.", Def: "(A0471) My eating is always an event of being happy.", By: "examples", Score: 0}, "tue jaofa": Word{Word: "tue jaofa", Def: "trip, journey", By: "spreadsheet", Score: 0}, "tue joemieq": Word{Word: "tue joemieq", Def: "examination (knowledge test)", By: "spreadsheet", Score: 0}, "tue neqjoi": Word{Word: "tue neqjoi", Def: "▯ is a coincidence", By: "seaqtaq", Score: 0}, "tue sho seo": Word{Word: "tue sho seo", Def: "wedding", By: "spreadsheet", Score: 0}, "tuedea": Word{Word: "tuedea", Def: "▯ overthrows government ▯.", By: "uakci", Score: 0}, "tuegiq": Word{Word: "tuegiq", Def: "▯ is a left inverse of ▯ in domain ▯; [submeaning:] doing ▯ after ▯ keeps the state of ▯ unchanged.", By: "uakci", Score: 0}, "tueme": Word{Word: "tueme", Def: "▯ is a process involving ▯(/1)", By: "seaqtaq", Score: 0}, "tueq": Word{Word: "tueq", Def: "▯ is limited in that it cannot reach satisfying p’ty ▯ (never in a given timeframe); ▯ has limit ▯.", By: "uakci", Score: 0}, "tuerioq": Word{Word: "tuerioq", Def: "▯ is one mode/state of ▯.", By: "uakci", Score: 0}, "tui": Word{Word: "tui", Def: "predicate: ‘sit’; ▯ sits on ▯.", By: "official", Score: 0}, "tui bu suq toqfua ba.": Word{Word: "tui bu suq toqfua ba.", Def: "(A0546) Don't sit on the table.", By: "examples", Score: 0}, "tui sa baoreo teige muao da.": Word{Word: "tui sa baoreo teige muao da.", Def: "(A0740) There is a white owl sitting on the tree.", By: "examples", Score: 0}, "tuifua": Word{Word: "tuifua", Def: "predicate: ‘chair’; ▯ is a chair/stool/seat/bench.", By: "official", Score: 0}, "tuiga": Word{Word: "tuiga", Def: "giraffe", By: "spreadsheet", Score: 0}, "tuitoq": Word{Word: "tuitoq", Def: "predicate: ‘bench’; ▯ is a bench.", By: "official", Score: 0}, "tujeo": Word{Word: "tujeo", Def: "common to, kampu / everything has property ▯ (among ▯)", By: "spreadsheet", Score: 0}, "tujeq": Word{Word: "tujeq", Def: "indistinguishable", By: "spreadsheet", Score: 0}, "tujui": Word{Word: "tujui", Def: "Almost all of ▯ satisfy the property ▯.", By: "Ilmen", Score: 0}, "tuli": Word{Word: "tuli", Def: "everything has the property ▯ (among the things that have the property ▯).", By: "Ilmen", Score: 0}, "tunaqmubaipuijeq": Word{Word: "tunaqmubaipuijeq", Def: "All men ▯ are created equal, according to ▯, by standard ▯, by observer ▯, under conditions ▯, per volition of ▯ not being able to comprehend the fact ▯ that the word for ‘man’ ▯ in their language ▯ is the same as the word for ‘human’ ▯ [this place added for redundancy’s sake], possibly (in alternate universe ▯ by alternate universe model ▯ against all odds ▯) creating women ▯ unequally by standard ▯, which implies (for thinker ▯) the prejudicial correctness of the starting statement (expressed in words ▯ to audience ▯ by means ▯), this fact being ignored by ▯ because of reasons ▯, which, according to ▯, is the best approach to take (out of all approaches ▯ [set, not «roi»], best by standard ▯), allegedly (with ▯ being in first person and ▯ being the one whose words are cited) because (by causality ▯) of the times ▯ in which these words were spoken (by advocate or witness ▯), in which (the uniqueness of this time being guaranteed by ▯) women didn’t exist by chauvinistic metaphysics ▯ (chauvinistic by standard ▯ and according to judge ▯), coming close to the absurdity (as per ▯, the perceiver thereof) of joke words ▯ created for language ▯ in order to put to shame (with agent ▯) the idea of having property ▯, or ▯ being the case, despite the possible nuisance (for hypothetical (by standard ▯) nuisance-ee ▯) of this language’s creator ▯, familiar with similar incidents ▯ happening in analogous language communities ▯ (analogous on the basis of relation ▯ [binary «li»]), assuming a basic understanding of predicate logic ▯ with audience ▯. [frame: JEO]", By: "uakci", Score: 0}, "tunaqmubaipuijeqsioboeteimuhuaqtuamuduagikuqsesiuseaqrioqduomuoqchebuaikiaqlupaqhoa": Word{Word: "tunaqmubaipuijeqsioboeteimuhuaqtuamuduagikuqsesiuseaqrioqduomuoqchebuaikiaqlupaqhoa", Def: "▯ .u'ivla", By: "seaqtaq", Score: 0}, "tune": Word{Word: "tune", Def: "▯ is the total amount of ▯", By: "seaqtaq", Score: 0}, "tunesia": Word{Word: "tunesia", Def: "▯ pertains to the culture of Tunisia – Tunisian Republic.", By: "countries", Score: 0}, "tunesiagua": Word{Word: "tunesiagua", Def: "▯ is the country Tunisia – Tunisian Republic.", By: "countries", Score: 0}, "tunesiatoaq": Word{Word: "tunesiatoaq", Def: "▯ is (one of) the language(s) spoken in Tunisia – Tunisian Republic.", By: "countries", Score: 0}, "tuo": Word{Word: "tuo", Def: "predicate: ‘swallow’; ▯ swallows; ▯ swallows ▯.", By: "official", Score: 0}, "tuoi": Word{Word: "tuoi", Def: "hủı ru jẻo to ru sa pó dóshī to pâq dóshī dógū da", By: "uakci", Score: 0}, "tuoicia": Word{Word: "tuoicia", Def: "predicate: ‘flawless’; ▯ is flawless/perfect.", By: "official", Score: 0}, "tuoifieq": Word{Word: "tuoifieq", Def: "▯ finds fault in ▯ (negative connotation); ▯ exaggerates the flaws in ▯.", By: "uakci", Score: 0}, "tuoiruaq": Word{Word: "tuoiruaq", Def: "▯ criticises (criticizes) flaw ▯ in ▯ [no negative connotations].", By: "uakci", Score: 0}, "tuoituaocua": Word{Word: "tuoituaocua", Def: "▯ nitpicks about minutia or unimportant detail ▯.", By: "Ilmen", Score: 0}, "tuoq": Word{Word: "tuoq", Def: "predicate: ‘heavy’; ▯ is heavy.", By: "official", Score: 0}, "tuoq ni kaifua da.": Word{Word: "tuoq ni kaifua da.", Def: "(A0223) This desk is heavy.", By: "examples", Score: 0}, "tuoq ni puq cea da.": Word{Word: "tuoq ni puq cea da.", Def: "(A0501) These bags are heavy.", By: "examples", Score: 0}, "tuoq ni shi cea da.": Word{Word: "tuoq ni shi cea da.", Def: "(A0500) This bag is heavy.", By: "examples", Score: 0}, "tuoqkea": Word{Word: "tuoqkea", Def: "▯ is a scale (for measuring weight and or mass)", By: "seaqtaq", Score: 0}, "tupa": Word{Word: "tupa", Def: "pot", By: "spreadsheet", Score: 0}, "tupoi": Word{Word: "tupoi", Def: "▯ is an event in which everything/everyone is the x1", By: "seaqtaq", Score: 0}, "tuq": Word{Word: "tuq", Def: "tu dó bı, jẻojēq mêa dó dóshī na jêo dó dógū da", By: "uakci", Score: 0}, "tuq chamu": Word{Word: "tuq chamu", Def: "▯ is the only way to do ▯", By: "seaqtaq", Score: 0}, "tuqbu": Word{Word: "tuqbu", Def: "There are other things to ▯ that satisfy property ▯.", By: "uakci", Score: 0}, "tuqfia": Word{Word: "tuqfia", Def: "predicate: ‘first’; ▯ is first in sequence ▯.", By: "official", Score: 0}, "tuqgu": Word{Word: "tuqgu", Def: "▯ are both things satisfying the property ▯.", By: "Ilmen", Score: 0}, "tuqjiaq": Word{Word: "tuqjiaq", Def: "▯ is a universe/cosmos.", By: "Hoemai", Score: 0}, "tuqjiaqdiu": Word{Word: "tuqjiaqdiu", Def: "▯ is cosmology.", By: "Hoemai", Score: 0}, "tuqme": Word{Word: "tuqme", Def: "▯ is the aggregate of everything satisfying property ▯.", By: "Ilmen", Score: 0}, "tuqmu": Word{Word: "tuqmu", Def: "Property ▯ uniquely identifies ▯; ▯ is ▯’s identity (one sense).", By: "uakci", Score: 0}, "tuqpaq": Word{Word: "tuqpaq", Def: "▯ comprise/make up/constitute all the parts of whole ▯.", By: "Hoemai", Score: 0}, "tuqshi": Word{Word: "tuqshi", Def: "▯ is the one and only thing satisfying property ▯.", By: "Ilmen", Score: 0}, "tuqsie": Word{Word: "tuqsie", Def: "predicate: ‘last’; ▯ is last in sequence ▯.", By: "official", Score: 0}, "tuqsie heigujue jue.": Word{Word: "tuqsie heigujue jue.", Def: "(A0161) December is the last of the months.", By: "examples", Score: 0}, "tuqsielaime": Word{Word: "tuqsielaime", Def: "(fork of #pifwTswbn) ▯ is an ending", By: "seaqtaq", Score: 0}, "tuqtoa": Word{Word: "tuqtoa", Def: "▯ is the lexicon of language ▯. (the entirety of the words of a language)", By: "Hoemai", Score: 0}, "tura": Word{Word: "tura", Def: "structure", By: "spreadsheet", Score: -1}, "turai": Word{Word: "turai", Def: "Everything satisfies property ▯; ∀x.▯‘x\u00a0", By: "uakci", Score: 0}, "turuke": Word{Word: "turuke", Def: "▯ pertains to the culture of Turkey – Republic of Turkey.", By: "countries", Score: 0}, "turukegua": Word{Word: "turukegua", Def: "▯ is the country Turkey – Republic of Turkey.", By: "countries", Score: 0}, "turuketoaq": Word{Word: "turuketoaq", Def: "▯ is (one of) the language(s) spoken in Turkey – Republic of Turkey.", By: "countries", Score: 0}, "tushi": Word{Word: "tushi", Def: "▯ is the set of all individuals that satisfy property ▯.", By: "uakci", Score: 0}, "tusiokaq": Word{Word: "tusiokaq", Def: "▯ is a bottlenose dolphin (Tursiops taxonomic genus).", By: "Ilmen", Score: 0}, "tuti": Word{Word: "tuti", Def: "▯ is omnipresent; ▯ is present everywhere.", By: "uakci", Score: 0}, "tuto": Word{Word: "tuto", Def: "▯ is a member of the genus Tyto (the true barn owls, grass owls and masked owls).", By: "Hoemai", Score: 0}, "tutu": Word{Word: "tutu", Def: "All two things satisfy relation ▯.", By: "uakci", Score: 0}, "u": Word{Word: "u", Def: "[Interjection] Expression of pity (lojban's {.uu})", By: "fagri", Score: 0}, "wish": Word{Word: "wish", Def: "(fork of official) predicate: ‘apple’; ▯ is an apple.", By: "AlexBerz", Score: -1}, "zeu": Word{Word: "zeu", Def: "▯ shows zeal for the few left free roots, for example, ▯, ▯, ▯, and ▯.", By: "uakci", Score: 0}, "\u00a0riekoai": Word{Word: "\u00a0riekoai", Def: "▯ is the Internet", By: "seaqtaq", Score: 0}, "ķai": Word{Word: "ķai", Def: "▯\u00a0 reels ▯ onto ▯.", By: "uakci", Score: 0}, "χεγλε": Word{Word: "χεγλε", Def: "▯ σπελλς Τοαν θρειζα ▯ υιθ δε Γρικ αλφαβητ.", By: "uakci", Score: 0}, "▯": Word{Word: "▯", Def: "▯ ▯ ▯ (▯); ▯ ▯▯▯_.", By: "uakci", Score: 0}}
+var Words = map[string]Word{" boqsiashe": Word{Word: " boqsiashe", Def: "tende", By: "spreadsheet", Score: 0}, " chaqmuo": Word{Word: " chaqmuo", Def: "▯ occurs for an entire day", By: "seaqtaq", Score: 0}, " daqfia saqjue nei jue meaheo da.": Word{Word: " daqfia saqjue nei jue meaheo da.", Def: "(A0144) March comes before the 9 other months.", By: "examples", Score: 0}, " diaijue pa jaq suao jie poji naqpao da. ": Word{Word: " diaijue pa jaq suao jie poji naqpao da. ", Def: "(A0152) July is very important to my dad.", By: "examples", Score: 0}, " diomuo": Word{Word: " diomuo", Def: "▯ occurs for an entire daytime", By: "seaqtaq", Score: 0}, "( bu ( pu ( biaq mai ) ) ) liqdeo ji.": Word{Word: "( bu ( pu ( biaq mai ) ) ) liqdeo ji.", Def: "(SRP.4) The girl did not love me enough.", By: "official", Score: 0}, "(gea)buaijio": Word{Word: "(gea)buaijio", Def: "▯ is a tower", By: "seaqtaq", Score: 0}, "(jio)luko": Word{Word: "(jio)luko", Def: "dog", By: "spreadsheet", Score: -1}, "(mi) gaiha": Word{Word: "(mi) gaiha", Def: "Earth (planet)", By: "spreadsheet", Score: 0}, "(mi) guaqkioq": Word{Word: "(mi) guaqkioq", Def: "Earth (planet)", By: "spreadsheet", Score: 0}, "(nui)pionuq": Word{Word: "(nui)pionuq", Def: "(fork of #xz315kPZa) ▯ is a crocodile.", By: "seaqtaq", Score: 0}, "(pai)muqduo": Word{Word: "(pai)muqduo", Def: "▯waves at▯", By: "seaqtaq", Score: 0}, "(req)ruodiu": Word{Word: "(req)ruodiu", Def: "▯is psychology", By: "seaqtaq", Score: 0}, "(tue) guasoi": Word{Word: "(tue) guasoi", Def: "war", By: "spreadsheet", Score: 0}, "@toacia": Word{Word: "@toacia", Def: "▯ is a pie", By: "seaqtaq", Score: 0}, "a": Word{Word: "a", Def: "interjection: realization, \"aha!\"", By: "lynn", Score: 0}, "ba": Word{Word: "ba", Def: "illocution: ‘imperative’; imperative", By: "official", Score: 0}, "babado": Word{Word: "babado", Def: "▯ pertains to the culture of Barbados.", By: "countries", Score: 0}, "babadogua": Word{Word: "babadogua", Def: "▯ is the country Barbados.", By: "countries", Score: 0}, "babadotoaq": Word{Word: "babadotoaq", Def: "▯ is (one of) the language(s) spoken in Barbados.", By: "countries", Score: 0}, "babue": Word{Word: "babue", Def: "▯ is a member of genus Papio (the baboons).", By: "Hoemai", Score: 0}, "baga": Word{Word: "baga", Def: "pull", By: "spreadsheet", Score: 0}, "bahama": Word{Word: "bahama", Def: "▯ pertains to the culture of The Bahamas → Bahamas, The.", By: "countries", Score: 0}, "bahamagua": Word{Word: "bahamagua", Def: "▯ is the country The Bahamas → Bahamas, The.", By: "countries", Score: 0}, "bahamatoaq": Word{Word: "bahamatoaq", Def: "▯ is (one of) the language(s) spoken in The Bahamas → Bahamas, The.", By: "countries", Score: 0}, "bai": Word{Word: "bai", Def: "chỏq dóshī sa múoq tûa dóshī jîq dógū da", By: "uakci", Score: 0}, "baigiq": Word{Word: "baigiq", Def: "▯ disassembles/deconstructs ▯.", By: "Ilmen", Score: 0}, "bailoha": Word{Word: "bailoha", Def: "▯ is the metal iron", By: "seaqtaq", Score: 0}, "baipaq": Word{Word: "baipaq", Def: "part (component for assembling)", By: "spreadsheet", Score: 0}, "baise": Word{Word: "baise", Def: "artificial", By: "spreadsheet", Score: 0}, "baitoaq": Word{Word: "baitoaq", Def: "▯ is a constructed language / conlang.", By: "lynn", Score: 0}, "baja": Word{Word: "baja", Def: "bar, counter, barja", By: "spreadsheet", Score: -1}, "baka": Word{Word: "baka", Def: "cattle", By: "spreadsheet", Score: -1}, "bakajia": Word{Word: "bakajia", Def: "▯ pertains to the culture of Abkhazia → Abkhazia.", By: "countries", Score: 0}, "bakajiagua": Word{Word: "bakajiagua", Def: "▯ is the country Abkhazia → Abkhazia.", By: "countries", Score: 0}, "bakajiatoaq": Word{Word: "bakajiatoaq", Def: "▯ is (one of) the language(s) spoken in Abkhazia → Abkhazia.", By: "countries", Score: 0}, "bakamoqda": Word{Word: "bakamoqda", Def: "▯ is a Toaq illocution; ▯ is one of <ba>, <ka>, <moq>, and <da>.", By: "uakci", Score: 0}, "bakanueq": Word{Word: "bakanueq", Def: "▯ is beef", By: "seaqtaq", Score: 0}, "bake": Word{Word: "bake", Def: "▯ is a button", By: "seaqtaq", Score: -1}, "bana": Word{Word: "bana", Def: "mark (barna)", By: "spreadsheet", Score: -1}, "banaku": Word{Word: "banaku", Def: "▯ is a guanaco (Lama guanicoe).", By: "Hoemai", Score: 0}, "banuatu": Word{Word: "banuatu", Def: "▯ pertains to the culture of Vanuatu – Republic of Vanuatu.", By: "countries", Score: 0}, "banuatugua": Word{Word: "banuatugua", Def: "▯ is the country Vanuatu – Republic of Vanuatu.", By: "countries", Score: 0}, "banuatutoaq": Word{Word: "banuatutoaq", Def: "▯ is (one of) the language(s) spoken in Vanuatu – Republic of Vanuatu.", By: "countries", Score: 0}, "bao": Word{Word: "bao", Def: "rẻo sa báq mỉa gỉo dóshī da", By: "uakci", Score: 0}, "baobao": Word{Word: "baobao", Def: "dog", By: "spreadsheet", Score: 0}, "baogui": Word{Word: "baogui", Def: "predicate: ‘rice’; ▯ is rice.", By: "official", Score: 0}, "baoreo": Word{Word: "baoreo", Def: "predicate: ‘white’; ▯ is of white colour.", By: "official", Score: 0}, "baq": Word{Word: "baq", Def: "dóshī pa, tủq lî dủafūı ra rảqmōıfūı jẻo ja dó dógū da", By: "uakci", Score: 0}, "baq helu bi buai baq huohua da.": Word{Word: "baq helu bi buai baq huohua da.", Def: "(A0126) About elephants: they have long ears.", By: "examples", Score: 0}, "baq nao dui siq pa bue sia cie he da.": Word{Word: "baq nao dui siq pa bue sia cie he da.", Def: "(A0325) Water that is too pure is the home of no fish.", By: "examples", Score: 0}, "baq poq choasia pa soq li gi huosi baq ja poq da.": Word{Word: "baq poq choasia pa soq li gi huosi baq ja poq da.", Def: "(A0327) A silent man is the best one to listen to.", By: "examples", Score: 0}, "baqbu": Word{Word: "baqbu", Def: "bamboo", By: "spreadsheet", Score: 0}, "baqcho": Word{Word: "baqcho", Def: "▯ likes things that satisfy property ▯; ▯ likes all that ▯'s.", By: "Ilmen", Score: 0}, "baqdaki": Word{Word: "baqdaki", Def: "▯ is a member of the species Solanum melongena (eggplant/aubergine).", By: "Hoemai", Score: 0}, "baqfaq": Word{Word: "baqfaq", Def: "Gnomic Aspect", By: "spreadsheet", Score: 0}, "baqjo": Word{Word: "baqjo", Def: "▯ is a banjo.", By: "Ilmen", Score: 0}, "baqladeshi": Word{Word: "baqladeshi", Def: "▯ pertains to the culture of Bangladesh – People's Republic of Bangladesh.", By: "countries", Score: 0}, "baqladeshigua": Word{Word: "baqladeshigua", Def: "▯ is the country Bangladesh – People's Republic of Bangladesh.", By: "countries", Score: 0}, "baqladeshitoaq": Word{Word: "baqladeshitoaq", Def: "▯ is (one of) the language(s) spoken in Bangladesh – People's Republic of Bangladesh.", By: "countries", Score: 0}, "baqsiu": Word{Word: "baqsiu", Def: "▯ is similar to the generic exemplifier of the property ▯.", By: "Ilmen", Score: 0}, "baqtue": Word{Word: "baqtue", Def: "bảq\u00a0tủe ▯ ▯", By: "fagri", Score: -1}, "barabara": Word{Word: "barabara", Def: "▯ is barbarous.", By: "Ilmen", Score: 0}, "baraini": Word{Word: "baraini", Def: "▯ pertains to the culture of Bahrain – Kingdom of Bahrain.", By: "countries", Score: 0}, "barainigua": Word{Word: "barainigua", Def: "▯ is the country Bahrain – Kingdom of Bahrain.", By: "countries", Score: 0}, "barainitoaq": Word{Word: "barainitoaq", Def: "▯ is (one of) the language(s) spoken in Bahrain – Kingdom of Bahrain.", By: "countries", Score: 0}, "barajiu": Word{Word: "barajiu", Def: "▯ pertains to the culture of Brazil – Federative Republic of Brazil.", By: "countries", Score: 0}, "barajiugua": Word{Word: "barajiugua", Def: "▯ is the country Brazil – Federative Republic of Brazil.", By: "countries", Score: 0}, "barajiutoaq": Word{Word: "barajiutoaq", Def: "▯ is (one of) the language(s) spoken in Brazil – Federative Republic of Brazil.", By: "countries", Score: 0}, "barala": Word{Word: "barala", Def: "▯ is a member of genus Varanus (the monitor lizards).", By: "Hoemai", Score: 0}, "bariqci": Word{Word: "bariqci", Def: "▯ is a plant belonging to the Oryza genus.", By: "Ilmen", Score: 0}, "basue": Word{Word: "basue", Def: "I ask you to make it so that ▯/0 happens.", By: "uakci", Score: 0}, "bata": Word{Word: "bata", Def: "butter", By: "spreadsheet", Score: 0}, "batata": Word{Word: "batata", Def: "predicate: ‘potato’; ▯ is a potato.", By: "official", Score: 0}, "batikaq": Word{Word: "batikaq", Def: "▯ pertains to the culture of Vatican City – Vatican City State.", By: "countries", Score: 0}, "batikaqgua": Word{Word: "batikaqgua", Def: "▯ is the country Vatican City – Vatican City State.", By: "countries", Score: 0}, "batikaqtoaq": Word{Word: "batikaqtoaq", Def: "▯ is (one of) the language(s) spoken in Vatican City – Vatican City State.", By: "countries", Score: 0}, "be": Word{Word: "be", Def: "prefix binary operator: bind second place of following predicate to the noun phrase that follows; be V N ∈ RAI.", By: "uakci", Score: 0}, "bea": Word{Word: "bea", Def: "predicate: ‘hinge.joint’; ▯ is a knee/elbow/knuckle.", By: "official", Score: 0}, "beagoa": Word{Word: "beagoa", Def: "▯ is a corner.", By: "Ilmen", Score: 0}, "beapue": Word{Word: "beapue", Def: "▯ is an arthropod.", By: "Hoemai", Score: 0}, "beapueq": Word{Word: "beapueq", Def: "▯ knuckle-walks.", By: "Ilmen", Score: 0}, "beapueqhe": Word{Word: "beapueqhe", Def: "▯ is a knuckle-walker.", By: "Ilmen", Score: 0}, "beaq": Word{Word: "beaq", Def: "rod", By: "spreadsheet", Score: 0}, "beaqchea": Word{Word: "beaqchea", Def: "▯ is an umbrella.", By: "Ilmen", Score: 0}, "beaqme": Word{Word: "beaqme", Def: "▯ is a ladder.", By: "uakci", Score: 0}, "beaqsiu": Word{Word: "beaqsiu", Def: "▯ pertains to the culture of Poland – Republic of Poland.", By: "seaqtaq", Score: 0}, "beatiai": Word{Word: "beatiai", Def: "▯ is a box with a hinged lid.", By: "Ilmen", Score: 0}, "bebe": Word{Word: "bebe", Def: "predicate: ‘baby’; ▯ is a baby.", By: "official", Score: 0}, "bebere": Word{Word: "bebere", Def: "▯ belongs to the Viverra taxonomic genus.", By: "Ilmen", Score: 0}, "befilanoi": Word{Word: "befilanoi", Def: "…", By: "uakci", Score: 0}, "bego": Word{Word: "bego", Def: "▯ is a member of genus Fagus (the beech trees).", By: "Hoemai", Score: 0}, "beheaq": Word{Word: "beheaq", Def: "egg", By: "spreadsheet", Score: -1}, "beheq": Word{Word: "beheq", Def: "▯ is pregnant.", By: "Ilmen", Score: 0}, "behiti": Word{Word: "behiti", Def: "▯ is a grapevine.", By: "Ilmen", Score: 0}, "bei": Word{Word: "bei", Def: "prefix: ‘emphasis’; puts emphasis on the following word", By: "official", Score: 0}, "bei bu jia niqguo kuq ji cu suq da!": Word{Word: "bei bu jia niqguo kuq ji cu suq da!", Def: "(A0479) I will *not* tell you again!", By: "examples", Score: 0}, "bei ji pa juaq mao meo kuai shoi roq da.": Word{Word: "bei ji pa juaq mao meo kuai shoi roq da.", Def: "(A0977) ", By: "examples", Score: 0}, "beiho": Word{Word: "beiho", Def: "▯ is wine (an alcoholic beverage made by fermenting the juice of grapes).", By: "Hoemai", Score: 0}, "beitua": Word{Word: "beitua", Def: "▯ emphasizes ▯.", By: "Ilmen", Score: 0}, "bekioq": Word{Word: "bekioq", Def: "egg", By: "spreadsheet", Score: -1}, "bekiqtaq": Word{Word: "bekiqtaq", Def: "▯ pertains to the culture of Uzbekistan – Republic of Uzbekistan.", By: "countries", Score: 0}, "bekiqtaqgua": Word{Word: "bekiqtaqgua", Def: "▯ is the country Uzbekistan – Republic of Uzbekistan.", By: "countries", Score: 0}, "bekiqtaqtoaq": Word{Word: "bekiqtaqtoaq", Def: "▯ is (one of) the language(s) spoken in Uzbekistan – Republic of Uzbekistan.", By: "countries", Score: 0}, "belarusi": Word{Word: "belarusi", Def: "▯ pertains to the culture of Belarus – Republic of Belarus.", By: "countries", Score: 0}, "belarusigua": Word{Word: "belarusigua", Def: "▯ is the country Belarus – Republic of Belarus.", By: "countries", Score: 0}, "belarusitoaq": Word{Word: "belarusitoaq", Def: "▯ is (one of) the language(s) spoken in Belarus – Republic of Belarus.", By: "countries", Score: 0}, "beleji": Word{Word: "beleji", Def: "▯ pertains to the culture of Belgium – Kingdom of Belgium.", By: "countries", Score: 0}, "belejigua": Word{Word: "belejigua", Def: "▯ is the country Belgium – Kingdom of Belgium.", By: "countries", Score: 0}, "belejitoaq": Word{Word: "belejitoaq", Def: "▯ is (one of) the language(s) spoken in Belgium – Kingdom of Belgium.", By: "countries", Score: 0}, "belije": Word{Word: "belije", Def: "▯ pertains to the culture of Belize.", By: "countries", Score: 0}, "belijegua": Word{Word: "belijegua", Def: "▯ is the country Belize.", By: "countries", Score: 0}, "belijetoaq": Word{Word: "belijetoaq", Def: "▯ is (one of) the language(s) spoken in Belize.", By: "countries", Score: 0}, "benejuela": Word{Word: "benejuela", Def: "▯ pertains to the culture of Venezuela – Bolivarian Republic of Venezuela.", By: "countries", Score: 0}, "benejuelagua": Word{Word: "benejuelagua", Def: "▯ is the country Venezuela – Bolivarian Republic of Venezuela.", By: "countries", Score: 0}, "benejuelatoaq": Word{Word: "benejuelatoaq", Def: "▯ is (one of) the language(s) spoken in Venezuela – Bolivarian Republic of Venezuela.", By: "countries", Score: 0}, "beniq": Word{Word: "beniq", Def: "▯ pertains to the culture of Benin – Republic of Benin[i].", By: "countries", Score: 0}, "beniqgua": Word{Word: "beniqgua", Def: "▯ is the country Benin – Republic of Benin[i].", By: "countries", Score: 0}, "beniqtoaq": Word{Word: "beniqtoaq", Def: "▯ is (one of) the language(s) spoken in Benin – Republic of Benin[i].", By: "countries", Score: 0}, "beniu": Word{Word: "beniu", Def: "sapling", By: "spreadsheet", Score: 0}, "beo": Word{Word: "beo", Def: "= [X2] Sa dósāq sa dójō bủ dỏsāq bı lẻaqshīu lû sa dỏgū dóshī dósāq ru sıa dójō na lû sa dỏgū dóshī sıa dósāq ru dójō.", By: "Ilmen", Score: 1}, "beodai": Word{Word: "beodai", Def: "▯ is a variable (mathematics).", By: "Hoemai", Score: 1}, "beodo": Word{Word: "beodo", Def: "▯ is a variable; ▯ is a property which at, any given point in context space, is satisfied by exactly one maximal reference.", By: "uakci", Score: 0}, "beodoa": Word{Word: "beodoa", Def: "modify, galfi", By: "spreadsheet", Score: 0}, "beokopi": Word{Word: "beokopi", Def: "▯ is a fork (modified copy) of ▯.", By: "Ilmen", Score: 0}, "beoli": Word{Word: "beoli", Def: "What has the property ▯ changes.", By: "Ilmen", Score: 0}, "beoq": Word{Word: "beoq", Def: "▯ is a base, foundation of ▯.", By: "uakci", Score: 0}, "beoqsai": Word{Word: "beoqsai", Def: "▯ is a chemical", By: "seaqtaq", Score: 0}, "beoqshai": Word{Word: "beoqshai", Def: "▯ slips.", By: "uakci", Score: -1}, "beotua": Word{Word: "beotua", Def: "modify, galfi", By: "spreadsheet", Score: 0}, "beq": Word{Word: "beq", Def: "predicate: ‘extrusion’; ▯ is an extrusion/swelling/convex.", By: "official", Score: 0}, "beqde": Word{Word: "beqde", Def: "team/group/band/gang ()", By: "spreadsheet", Score: -2}, "beqgiq": Word{Word: "beqgiq", Def: "concavity, depression", By: "spreadsheet", Score: -1}, "beqheq": Word{Word: "beqheq", Def: "▯ is the convex hull of ▯.", By: "lynn", Score: 0}, "beqra": Word{Word: "beqra", Def: "▯ is a date palm (genus Phoenix).", By: "Hoemai", Score: 0}, "bera": Word{Word: "bera", Def: "borrow", By: "spreadsheet", Score: -1}, "beratoa": Word{Word: "beratoa", Def: "loanword", By: "spreadsheet", Score: -1}, "besioq": Word{Word: "besioq", Def: "version", By: "spreadsheet", Score: 0}, "beta": Word{Word: "beta", Def: "▯ is a plant belonging to the Beta genus.", By: "Ilmen", Score: 0}, "beu": Word{Word: "beu", Def: "▯ is much the case relatively to how much it is the case for ▯; ▯ has property ▯ to a great extent relatively to how much ▯ have that property; the amount of ▯ having property ▯ is greater than the average among ▯.", By: "Ilmen", Score: 0}, "bi": Word{Word: "bi", Def: "particle: ‘:’; terminates prenex", By: "official", Score: 0}, "bia": Word{Word: "bia", Def: "predicate: ‘sick’; ▯ is sick/ill; ▯ is sick/ill with ▯.", By: "official", Score: 0}, "bia ho da.": Word{Word: "bia ho da.", Def: "(A0018) He is sick.", By: "examples", Score: 0}, "biadiu": Word{Word: "biadiu", Def: "medicine (science)", By: "spreadsheet", Score: 0}, "biajio": Word{Word: "biajio", Def: "predicate: ‘hospital’; ▯ is a hospital.", By: "official", Score: 0}, "biao": Word{Word: "biao", Def: "predicate: ‘confused’; ▯ is confused.", By: "official", Score: 0}, "biaobia": Word{Word: "biaobia", Def: "▯ is drunk.", By: "uakci", Score: 0}, "biaokoi": Word{Word: "biaokoi", Def: "▯ stumbles / staggers / lurches / flounders.", By: "lynn", Score: 1}, "biaonao": Word{Word: "biaonao", Def: "▯ is alcohol.", By: "Ilmen", Score: 1}, "biaq": Word{Word: "biaq", Def: "▯ satisfies property ▯ enough to satisfy property ▯", By: "fagri", Score: 0}, "biaqdui": Word{Word: "biaqdui", Def: "▯(0) is redundant\u00a0", By: "seaqtaq", Score: 0}, "biasai": Word{Word: "biasai", Def: "▯ is toxic/poison/venom.", By: "Ilmen", Score: 0}, "biashua": Word{Word: "biashua", Def: "▯ a tombé malade. [définition d’Ilmen]", By: "uakci", Score: -1}, "biatacha": Word{Word: "biatacha", Def: "▯ is a member of the family Blattaria (cockroaches).", By: "Hoemai", Score: 0}, "biatue": Word{Word: "biatue", Def: "disease", By: "spreadsheet", Score: 0}, "bideo": Word{Word: "bideo", Def: "predicate: ‘video’; ▯ is a video.", By: "official", Score: 0}, "bideoluaqmu": Word{Word: "bideoluaqmu", Def: "▯ is a video game.", By: "lynn", Score: 0}, "bie": Word{Word: "bie", Def: "≈ [00] Sỉe dóshī dógū pó dáq.", By: "Ilmen", Score: 0}, "biejao": Word{Word: "biejao", Def: "predicate: ‘long.after’; ▯ takes place long after ▯.", By: "official", Score: 0}, "biejaqguo": Word{Word: "biejaqguo", Def: "▯ occurs for the first time in a long time.", By: "Ilmen", Score: 0}, "biejui": Word{Word: "biejui", Def: "predicate: ‘shortly.after’; ▯ takes place shortly after ▯.", By: "official", Score: 0}, "biejui bi shai ruqshua": Word{Word: "biejui bi shai ruqshua", Def: "(B0029) Soon the rain stopped", By: "oldexamples", Score: 0}, "biekao": Word{Word: "biekao", Def: "▯ is a will ", By: "seaqtaq", Score: 0}, "biemiu": Word{Word: "biemiu", Def: "foresee", By: "spreadsheet", Score: 0}, "bienaq": Word{Word: "bienaq", Def: "▯ pertains to the culture of Vietnam – Socialist Republic of Vietnam.", By: "countries", Score: 0}, "bienaqgua": Word{Word: "bienaqgua", Def: "▯ is the country Vietnam – Socialist Republic of Vietnam.", By: "countries", Score: 0}, "bienaqtoaq": Word{Word: "bienaqtoaq", Def: "▯ is (one of) the language(s) spoken in Vietnam – Socialist Republic of Vietnam.", By: "countries", Score: 0}, "biene": Word{Word: "biene", Def: "temci", By: "spreadsheet", Score: -1}, "bifi": Word{Word: "bifi", Def: "▯ is wifi", By: "seaqtaq", Score: 0}, "bihi": Word{Word: "bihi", Def: "bee, bifce", By: "spreadsheet", Score: -1}, "bihoi": Word{Word: "bihoi", Def: "Anaphoric pronoun: refers back to the last argument that appeared in a prenex.", By: "Ilmen", Score: 0}, "bikini": Word{Word: "bikini", Def: "predicate: ‘bikini’; ▯ is a bikini.", By: "official", Score: 0}, "biliada": Word{Word: "biliada", Def: "▯ is billiards/pool (game).", By: "Hoemai", Score: 0}, "bio": Word{Word: "bio", Def: "predicate: ‘cup’; ▯ is a cup/glass.", By: "official", Score: 0}, "biq": Word{Word: "biq", Def: "predicate: ‘thousand’; ▯ are a thousand in number.", By: "official", Score: 0}, "biqbiq": Word{Word: "biqbiq", Def: "▯ is a million.", By: "uakci", Score: 0}, "bira": Word{Word: "bira", Def: "predicate: ‘beer’; ▯ is beer.", By: "official", Score: 0}, "birai": Word{Word: "birai", Def: "▯ is the topic (prenex) of this sentence.", By: "uakci", Score: 0}, "biriqji": Word{Word: "biriqji", Def: "▯ is a member of genus Oryza (rice).", By: "Hoemai", Score: 0}, "biru": Word{Word: "biru", Def: "▯ is a virus (infectious agent).", By: "Ilmen", Score: 0}, "bisaq": Word{Word: "bisaq", Def: "▯ is a member of genus Bison (the bisons).", By: "Hoemai", Score: 0}, "biti": Word{Word: "biti", Def: "▯ is a grapevine.", By: "Ilmen", Score: 0}, "bitiheu": Word{Word: "bitiheu", Def: "▯ is grape.", By: "Ilmen", Score: 0}, "bitiheume": Word{Word: "bitiheume", Def: "▯ is a bunch of grapes.", By: "Ilmen", Score: 0}, "biu": Word{Word: "biu", Def: "predicate: ‘tube’; ▯ is a tube.", By: "official", Score: 0}, "biucheoq": Word{Word: "biucheoq", Def: "▯ is a tube (container).", By: "seaqtaq", Score: 0}, "biuniai": Word{Word: "biuniai", Def: "▯ is a worm.", By: "Ilmen", Score: 0}, "biushoaicia": Word{Word: "biushoaicia", Def: "predicate: ‘flea’; ▯ is a flea.", By: "official", Score: 0}, "biutoai": Word{Word: "biutoai", Def: "▯ is a ring (shape).", By: "Ilmen", Score: 0}, "biutoaihaq": Word{Word: "biutoaihaq", Def: "▯ is a bagel/donut", By: "seaqtaq", Score: 0}, "bo": Word{Word: "bo", Def: "predicate: ‘have’; ▯ has/possesses ▯.", By: "official", Score: 0}, "bo ho sa pui geo kue da.": Word{Word: "bo ho sa pui geo kue da.", Def: "(A0240) He has some old books.", By: "examples", Score: 0}, "bo hoi poq sia nuai da.": Word{Word: "bo hoi poq sia nuai da.", Def: "(A0308) The afermentioned people have no money.", By: "examples", Score: 0}, "bo ji sa shi baoreo kaifua ru sa shi kuoreo kaifua da.": Word{Word: "bo ji sa shi baoreo kaifua ru sa shi kuoreo kaifua da.", Def: "(A0225) I have a white desk and a black desk.", By: "examples", Score: 0}, "boa": Word{Word: "boa", Def: "neck (BOA)", By: "spreadsheet", Score: -1}, "boai": Word{Word: "boai", Def: "▯ yields to, surrenders to, gives up to ▯. [opposite of #fea]", By: "uakci", Score: 2}, "boaihe": Word{Word: "boaihe", Def: "▯ is submissive (personality-wise)", By: "seaqtaq", Score: 0}, "boaikuai": Word{Word: "boaikuai", Def: "▯ is compliant/submissive", By: "seaqtaq", Score: 0}, "boao": Word{Word: "boao", Def: "▯ knows the answer to ▯ (indirect question)", By: "fagri", Score: 0}, "boaq": Word{Word: "boaq", Def: "predicate: ‘shadow’; ▯ is a shadow; ▯ is a shadow of ▯.", By: "official", Score: 0}, "boaqhuoi": Word{Word: "boaqhuoi", Def: "▯ is a tree squirrel; ▯ belongs to the Sciurus taxonomic genus.", By: "Ilmen", Score: 0}, "boaqhuoisiu": Word{Word: "boaqhuoisiu", Def: "▯ is a squirrel.", By: "Ilmen", Score: 0}, "boaqreo": Word{Word: "boaqreo", Def: "▯ is colored some dark color (not necessarily black)", By: "fagri", Score: 0}, "boceo": Word{Word: "boceo", Def: "▯acquires▯", By: "seaqtaq", Score: 0}, "bodoa": Word{Word: "bodoa", Def: "predicate: ‘give’; ▯ gives possession of ▯ to ▯.", By: "official", Score: 0}, "bodoa ji cu ho ni tiai.": Word{Word: "bodoa ji cu ho ni tiai.", Def: "(LIN.1) I give to them this box.", By: "official", Score: 0}, "boe": Word{Word: "boe", Def: "predicate: ‘leaf’; ▯ is a leaf/sheet.", By: "official", Score: 0}, "boe(siu)guaq": Word{Word: "boe(siu)guaq", Def: "▯ is a plain", By: "seaqtaq", Score: 0}, "boehaq": Word{Word: "boehaq", Def: "▯ is a pancake", By: "seaqtaq", Score: 0}, "boejio": Word{Word: "boejio", Def: "▯ is a tent", By: "fagri", Score: 0}, "boeme": Word{Word: "boeme", Def: "▯ is a salad of ▯ (= me2).", By: "uakci", Score: 0}, "boepata": Word{Word: "boepata", Def: "▯ is a chip", By: "seaqtaq", Score: 0}, "boesiu": Word{Word: "boesiu", Def: "flat", By: "spreadsheet", Score: 0}, "boeteimuhuaqtuamu": Word{Word: "boeteimuhuaqtuamu", Def: "▯ is flattered.", By: "uakci", Score: 0}, "boetuo": Word{Word: "boetuo", Def: "▯ is a sloth.", By: "Ilmen", Score: 0}, "bohiaq": Word{Word: "bohiaq", Def: "predicate: ‘poor’; ▯ is poor/unwealthy.", By: "official", Score: 0}, "boi": Word{Word: "boi", Def: "rảo dóshī tu lú bủ shỉu hóa dógū da", By: "uakci", Score: 0}, "boi neijue bi, duq fa jí chíejīo da.": Word{Word: "boi neijue bi, duq fa jí chíejīo da.", Def: "(A0155) Starting September, I'll be going to school.", By: "examples", Score: 0}, "boi ru nai noaqchoa ji": Word{Word: "boi ru nai noaqchoa ji", Def: "(B0054) I have been reading aloud", By: "examples", Score: 0}, "bojea": Word{Word: "bojea", Def: "(fork of #CVROI7VgF) ▯ buys possesion of ▯", By: "seaqtaq", Score: 0}, "bojeo": Word{Word: "bojeo", Def: "▯ is such that all referents of ▯ they they possess satisfy the property ▯.", By: "uakci", Score: 0}, "boke": Word{Word: "boke", Def: "cattle", By: "spreadsheet", Score: 0}, "bokenio": Word{Word: "bokenio", Def: "calf", By: "spreadsheet", Score: 0}, "bolibia": Word{Word: "bolibia", Def: "▯ pertains to the culture of Bolivia – Plurinational State of Bolivia.", By: "countries", Score: 0}, "bolibiagua": Word{Word: "bolibiagua", Def: "▯ is the country Bolivia – Plurinational State of Bolivia.", By: "countries", Score: 0}, "bolibiatoaq": Word{Word: "bolibiatoaq", Def: "▯ is (one of) the language(s) spoken in Bolivia – Plurinational State of Bolivia.", By: "countries", Score: 0}, "bomia": Word{Word: "bomia", Def: "predicate: ‘rich’; ▯ is rich/wealthy.", By: "official", Score: 0}, "bona": Word{Word: "bona", Def: "wave", By: "spreadsheet", Score: -1}, "bona sforza": Word{Word: "bona sforza", Def: "\u200b", By: "uakci", Score: 0}, "bone": Word{Word: "bone", Def: "predicate: ‘wealth’; ▯ is the amount of ▯'s wealth.", By: "official", Score: 0}, "bonua": Word{Word: "bonua", Def: "predicate: ‘take’; ▯ takes possession of ▯ from ▯.", By: "official", Score: 0}, "boq": Word{Word: "boq", Def: "predicate: ‘prevent’; ▯ prevents ▯.", By: "oldofficial", Score: -1}, "boqbu": Word{Word: "boqbu", Def: "despite", By: "spreadsheet", Score: 0}, "boqcia": Word{Word: "boqcia", Def: "free", By: "spreadsheet", Score: 0}, "boqgiq": Word{Word: "boqgiq", Def: "▯ encourages/facilitates ▯ to occur", By: "seaqtaq", Score: -1}, "boqleo": Word{Word: "boqleo", Def: "resist", By: "spreadsheet", Score: 0}, "boqte": Word{Word: "boqte", Def: "▯ is prevented from happening.", By: "uakci", Score: 0}, "bose": Word{Word: "bose", Def: "predicate: ‘wasp’; ▯ is a wasp.", By: "official", Score: 0}, "boseaq": Word{Word: "boseaq", Def: "▯ practises (practices) BDSM with ▯.", By: "uakci", Score: 0}, "boshai": Word{Word: "boshai", Def: "(fork of official) predicate: ‘lose’; ▯ loses ▯.", By: "uakci", Score: 0}, "boshaitao": Word{Word: "boshaitao", Def: "▯ discards/abandons/relinquishes/throws away ▯.", By: "Ilmen", Score: 0}, "bosho": Word{Word: "bosho", Def: "▯ gains/acquires/gets ▯", By: "seaqtaq", Score: 0}, "bosuana": Word{Word: "bosuana", Def: "▯ pertains to the culture of Botswana – Republic of Botswana.", By: "countries", Score: 0}, "bosuanagua": Word{Word: "bosuanagua", Def: "▯ is the country Botswana – Republic of Botswana.", By: "countries", Score: 0}, "bosuanatoaq": Word{Word: "bosuanatoaq", Def: "▯ is (one of) the language(s) spoken in Botswana – Republic of Botswana.", By: "countries", Score: 0}, "bosue": Word{Word: "bosue", Def: "▯ requests from ▯ (to have) ▯; ▯ asks ▯ for ▯", By: "seaqtaq", Score: 0}, "bu": Word{Word: "bu", Def: "= gıq #jẻo", By: "uakci", Score: 0}, "bu bi ruqshua da.": Word{Word: "bu bi ruqshua da.", Def: "(PRX.3) It isn't raining.", By: "official", Score: 0}, "bu caidua ji. je, dai bia ho da.": Word{Word: "bu caidua ji. je, dai bia ho da.", Def: "(A0422) I'm not certain. Maybe he's ill.", By: "examples", Score: 0}, "bu cho ji baq bira da.": Word{Word: "bu cho ji baq bira da.", Def: "(A0017) I don't like beer.", By: "examples", Score: 0}, "bu cho ji chu ji baq poqme da.": Word{Word: "bu cho ji chu ji baq poqme da.", Def: "(A0348) I don't like being in the middle of a crowd.", By: "examples", Score: 0}, "bu cho ji ni kiq da.": Word{Word: "bu cho ji ni kiq da.", Def: "(A0247) I don't like this movie.", By: "examples", Score: 0}, "bu cho ji posuq se tua no kio bu due ki.": Word{Word: "bu cho ji posuq se tua no kio bu due ki.", Def: "(A0452) I don't like your translation ((it) isn't correct)", By: "examples", Score: 0}, "bu choaijaq maq da.": Word{Word: "bu choaijaq maq da.", Def: "(A0119) It isn't expensive.", By: "examples", Score: 0}, "bu chufaq kaqsi ji tibi da.": Word{Word: "bu chufaq kaqsi ji tibi da.", Def: "(A0537) I am not looking at tv right now.", By: "examples", Score: 0}, "bu chuq suq shamu ba.": Word{Word: "bu chuq suq shamu ba.", Def: "(A0178) Don't eat the apple.", By: "examples", Score: 0}, "bu chuqkuai ji, keo piekuai ji da.": Word{Word: "bu chuqkuai ji, keo piekuai ji da.", Def: "(A0508) I'm not hungry, but I am thirsty.", By: "examples", Score: 0}, "bu dai": Word{Word: "bu dai", Def: "predicate: ‘impossible’; ▯ is impossible.", By: "official", Score: 0}, "bu dai gaq fa ji da.": Word{Word: "bu dai gaq fa ji da.", Def: "(A0828) It won't be possible for me to go with.", By: "examples", Score: 0}, "bu dai hoq da.": Word{Word: "bu dai hoq da.", Def: "(A0052) It is not possible.", By: "examples", Score: 0}, "bu daqfai taoshao fa ji da.": Word{Word: "bu daqfai taoshao fa ji da.", Def: "(A0401) I don't often intend to go.", By: "examples", Score: 0}, "bu de ni puq tuifua keo tua foaq maq da.": Word{Word: "bu de ni puq tuifua keo tua foaq maq da.", Def: "(A0511) These chairs aren't pretty but they are comfortable.", By: "examples", Score: 0}, "bu deq hie ji ni kaifua da.": Word{Word: "bu deq hie ji ni kaifua da.", Def: "(A0224) I can't carry this desk.", By: "examples", Score: 0}, "bu deq kai ji baq lai da.": Word{Word: "bu deq kai ji baq lai da.", Def: "(A0226) I can't write letters (of the alphabet).", By: "examples", Score: 0}, "bu deq noaq ji da.": Word{Word: "bu deq noaq ji da.", Def: "(A0069) I can't read.", By: "examples", Score: 0}, "bu dua ji chua hi rai ni da.": Word{Word: "bu dua ji chua hi rai ni da.", Def: "(A0040) I don't know what this thing is named.", By: "examples", Score: 0}, "bu dua ji hi rai ni.": Word{Word: "bu dua ji hi rai ni.", Def: "(INT.7) I don't know what this is.", By: "official", Score: 0}, "bu dua ji huaqcho ho baq kafe ri baq chai da.": Word{Word: "bu dua ji huaqcho ho baq kafe ri baq chai da.", Def: "(A0335) I don't know whether he prefers coffee or tea.", By: "examples", Score: 0}, "bu dua ji ma hai biaq loq nao da.": Word{Word: "bu dua ji ma hai biaq loq nao da.", Def: "(A0292) I don't know whether the water is already sufficiently hot.", By: "examples", Score: 0}, "bu dua ji ti poji jaokuq hi rai da.": Word{Word: "bu dua ji ti poji jaokuq hi rai da.", Def: "(A0136) I don't know where my phone is.", By: "examples", Score: 0}, "bu dua ji tio sao maq da.": Word{Word: "bu dua ji tio sao maq da.", Def: "(A0578) I don't know how big it is.", By: "examples", Score: 0}, "bu dua ji. keo ruaq ho ku hoq ji ★ da.": Word{Word: "bu dua ji. keo ruaq ho ku hoq ji ★ da.", Def: "(A0421) I don't know. But this is what he told me.  [ruaq3?]", By: "examples", Score: 0}, "bu fai niaoshua rao gujue ti ji da.": Word{Word: "bu fai niaoshua rao gujue ti ji da.", Def: "(A0141) It doesn't often snow in February where I am.", By: "examples", Score: 0}, "bu gei ji baq jake rao baq loqcao da.": Word{Word: "bu gei ji baq jake rao baq loqcao da.", Def: "(A0265) I don't wear jackets in the summer.", By: "examples", Score: 0}, "bu ho ji da.": Word{Word: "bu ho ji da.", Def: "(A0482) I am not him.", By: "examples", Score: 0}, "bu hoq da.": Word{Word: "bu hoq da.", Def: "(A0083) It isn't.", By: "examples", Score: 0}, "bu hoq duafui da.": Word{Word: "bu hoq duafui da.", Def: "(A0192) It isn't, obviously.", By: "examples", Score: 0}, "bu hui hoi choaqjio da.": Word{Word: "bu hui hoi choaqjio da.", Def: "(A0124) The afermentioned hotel isn't bad.", By: "examples", Score: 0}, "bu jaq fai ni toa da.": Word{Word: "bu jaq fai ni toa da.", Def: "(A0447) This word isn't very frequent.", By: "examples", Score: 0}, "bu jaq gi ni choaqjio da.": Word{Word: "bu jaq gi ni choaqjio da.", Def: "(A0527) This hotel isn't very good.", By: "examples", Score: 0}, "bu jei ho ji da.": Word{Word: "bu jei ho ji da.", Def: "(A0482) I am not him.", By: "oldexamples", Score: 0}, "bu jei ji ho da": Word{Word: "bu jei ji ho da", Def: "(A0482) I am not him.", By: "oldexamples", Score: 0}, "bu jei ji ho da.": Word{Word: "bu jei ji ho da.", Def: "(A0482) I am not him.", By: "oldexamples", Score: 0}, "bu joe moaq ji da.": Word{Word: "bu joe moaq ji da.", Def: "(A0108) I don't have a good memory.", By: "examples", Score: 0}, "bu juoq meo ji keoru jeo meo.": Word{Word: "bu juoq meo ji keoru jeo meo.", Def: "(A0573) I shouldn't be sad but I indeed am.", By: "examples", Score: 0}, "bu kaqgai ji maq da.": Word{Word: "bu kaqgai ji maq da.", Def: "(A0197) I don't see it.", By: "examples", Score: 0}, "bu kiu riudoa fuq te gei da.": Word{Word: "bu kiu riudoa fuq te gei da.", Def: "(A0967) An article of clothing which has been worn is not able to be given back.", By: "examples", Score: 0}, "bu ko shi ji meo.": Word{Word: "bu ko shi ji meo.", Def: "(A0472) I am not among the first of those who are sad.", By: "examples", Score: 0}, "bu koa maq da.": Word{Word: "bu koa maq da.", Def: "(A0021) It is not cold.", By: "examples", Score: 0}, "bu luai hoq da.": Word{Word: "bu luai hoq da.", Def: "(A0263) It's not funny.", By: "examples", Score: 0}, "bu muidua ji da.": Word{Word: "bu muidua ji da.", Def: "(A0313) I don't understand.", By: "examples", Score: 0}, "bu naqfu ni deo ji da.": Word{Word: "bu naqfu ni deo ji da.", Def: "(A0301) This boy is not my son.", By: "examples", Score: 0}, "bu nie deo buajio da.": Word{Word: "bu nie deo buajio da.", Def: "(A0011) The children are not inside the house.", By: "examples", Score: 0}, "bu niq ni diaqkue da.": Word{Word: "bu niq ni diaqkue da.", Def: "(A0057) This monthly periodical is not new.", By: "examples", Score: 0}, "bu nuo ho duoi sa chaq fe ca jaq jaq nuokuai.": Word{Word: "bu nuo ho duoi sa chaq fe ca jaq jaq nuokuai.", Def: "(A0448) He hasn't slept for five days, causing (him) to be very very tired.", By: "examples", Score: 0}, "bu pie deo baq kafe ba.": Word{Word: "bu pie deo baq kafe ba.", Def: "(A0195) The child shouldn't drink coffee.", By: "examples", Score: 0}, "bu poji jaokuq ni da.": Word{Word: "bu poji jaokuq ni da.", Def: "(A0138) **This is not my phone.", By: "examples", Score: 0}, "bu ruqshua da.": Word{Word: "bu ruqshua da.", Def: "(A0539) It didn't rain.", By: "examples", Score: 0}, "bu suao ma moijoe suq da.": Word{Word: "bu suao ma moijoe suq da.", Def: "(A0288) It's not important whether you are smart or not.", By: "examples", Score: 0}, "bu taoshao daqfai fa ji da.": Word{Word: "bu taoshao daqfai fa ji da.", Def: "(A0398) I don't intend to go often.", By: "examples", Score: 0}, "bu taq shao fagaq ho, la cuakuqse da.": Word{Word: "bu taq shao fagaq ho, la cuakuqse da.", Def: "(A0623) She doesn't want to tag along (this sentence is (her) reply.)", By: "examples", Score: 0}, "bu teoqkuq kui hi rai moq": Word{Word: "bu teoqkuq kui hi rai moq", Def: "(A0566) Why don't you ask?", By: "examples", Score: 0}, "bu ti": Word{Word: "bu ti", Def: "predicate: ‘away’; ▯ is away; ▯ is not present at ▯.", By: "official", Score: 0}, "bu ti ho guairiaq da.": Word{Word: "bu ti ho guairiaq da.", Def: "(A0081) He isn't at work.", By: "examples", Score: 0}, "bu ti ho ni da.": Word{Word: "bu ti ho ni da.", Def: "(A0007) They are not here.", By: "examples", Score: 0}, "bu ti maq husona gua da.": Word{Word: "bu ti maq husona gua da.", Def: "(A0521) It is not in the United States.", By: "examples", Score: 0}, "bua": Word{Word: "bua", Def: "predicate: ‘inhabit’; ▯ inhabits ▯.", By: "official", Score: 0}, "bua ho merika da.": Word{Word: "bua ho merika da.", Def: "(A0135) He lives in America.", By: "examples", Score: 0}, "bua ji heoropa da.": Word{Word: "bua ji heoropa da.", Def: "(A0134) I live in Europe.", By: "examples", Score: 0}, "bua sa jo mi maria ni jio.": Word{Word: "bua sa jo mi maria ni jio.", Def: "(NAM.4) Four Marias live in this building.", By: "official", Score: 0}, "bua suq ti hi rai moq.": Word{Word: "bua suq ti hi rai moq.", Def: "(A0005) Where do you live?", By: "examples", Score: 0}, "buachao": Word{Word: "buachao", Def: "▯ is a van / mobile home / motor home.", By: "Ilmen", Score: 0}, "buai": Word{Word: "buai", Def: "▯ is [relatively] long; ▯ is as long as things which satisfy property ▯.", By: "uakci", Score: 0}, "buai poho shiaq da.": Word{Word: "buai poho shiaq da.", Def: "(A0721) She has long legs.", By: "examples", Score: 0}, "buaikioq": Word{Word: "buaikioq", Def: "▯ is a 3D oval shape (oblong sphere-like shape, similar to the shape of a bird's egg).", By: "Ilmen", Score: 1}, "buaikioqtei": Word{Word: "buaikioqtei", Def: "▯ is the oval shape", By: "fagri", Score: 0}, "buaikua": Word{Word: "buaikua", Def: "(fork of #SLZi6wb8_) ▯ is a hall.", By: "seaqtaq", Score: 0}, "buaitechuo": Word{Word: "buaitechuo", Def: "sword", By: "spreadsheet", Score: 0}, "buaitoq": Word{Word: "buaitoq", Def: "predicate: ‘plank’; ▯ is a plank.", By: "official", Score: 0}, "buajeq": Word{Word: "buajeq", Def: "▯ is a housemate/roommate/flatmate of ▯.", By: "Ilmen", Score: 0}, "buajio": Word{Word: "buajio", Def: "predicate: ‘house’; ▯ is a house (building for living in).", By: "official", Score: 0}, "buajio maq da.": Word{Word: "buajio maq da.", Def: "(A0008) It's a house.", By: "examples", Score: 0}, "buame": Word{Word: "buame", Def: "population", By: "spreadsheet", Score: 0}, "buaq": Word{Word: "buaq", Def: "= #leo ru bủ", By: "uakci", Score: 0}, "buaq gai": Word{Word: "buaq gai", Def: "predicate: ‘miss’; ▯ misses ▯; ▯ fails to observe ▯.", By: "official", Score: 0}, "buaqfei": Word{Word: "buaqfei", Def: "frustrated", By: "spreadsheet", Score: 0}, "buaqmeo": Word{Word: "buaqmeo", Def: "frustrated", By: "spreadsheet", Score: 0}, "buaqroa": Word{Word: "buaqroa", Def: "▯ attempts to do ▯ without further thought, that action being an end in itself and not a step in a progressive effort to achieve another goal, but that attempt ends in a failure.", By: "Ilmen", Score: 1}, "buba": Word{Word: "buba", Def: "▯ is a naysayer.", By: "uakci", Score: 0}, "bubiaqcuetue": Word{Word: "bubiaqcuetue", Def: "▯ is hypocrisy", By: "seaqtaq", Score: -1}, "buboqkiu": Word{Word: "buboqkiu", Def: "predicate: ‘inevitable’; ▯ is inevitable.", By: "official", Score: 0}, "bubu": Word{Word: "bubu", Def: "▯ is not not the case; It's not the case that ▯ isn't the case; ▯ indeed is the case.", By: "uakci", Score: 0}, "buca": Word{Word: "buca", Def: "predicate: ‘prevent’; That ▯ is the case prevents ▯ from being the case.", By: "Ilmen", Score: 1}, "buda": Word{Word: "buda", Def: "▯ is a buddha.", By: "Ilmen", Score: 1}, "budachuaq": Word{Word: "budachuaq", Def: "▯ is Buddhism.", By: "Ilmen", Score: 0}, "budaibu": Word{Word: "budaibu", Def: "It is not possible for ▯ not to be the case; ▯ must happen.", By: "uakci", Score: 0}, "budie": Word{Word: "budie", Def: "▯ warns ▯ against doing ▯.", By: "Ilmen", Score: 2}, "buduo": Word{Word: "buduo", Def: "unexpected", By: "spreadsheet", Score: 0}, "buduoceaq": Word{Word: "buduoceaq", Def: "▯ is a cheetah.", By: "Ilmen", Score: 0}, "bue": Word{Word: "bue", Def: "predicate: ‘home’; ▯ is a home of ▯.", By: "official", Score: 0}, "bue ho tijui guairiaq da.": Word{Word: "bue ho tijui guairiaq da.", Def: "(A0717) She lives near the office.", By: "examples", Score: 0}, "bue pui riq liao poji nuotoq da.": Word{Word: "bue pui riq liao poji nuotoq da.", Def: "(A0945) Many green fungi live in my mattress.", By: "examples", Score: 0}, "buejai": Word{Word: "buejai", Def: "▯ has a subjective feeling of safety, relaxation, and peace-of-mind due to being at home; ▯ has a \"home-sweet-home\" feeling.", By: "Ilmen", Score: 0}, "bufoaqca": Word{Word: "bufoaqca", Def: "predicate: annoy; ▯ annoys ▯; ▯ is annoying.", By: "Xylochoron", Score: 0}, "buhuoi": Word{Word: "buhuoi", Def: "▯ is a member of the order Anura (the frogs and toads).", By: "Hoemai", Score: 0}, "buhuokiu": Word{Word: "buhuokiu", Def: "predicate: ‘inaudible’; ▯ is inaudible.", By: "official", Score: 0}, "bui": Word{Word: "bui", Def: "predicate: ‘outside’; ▯ is outside of ▯.", By: "official", Score: 0}, "bui deo buajio da.": Word{Word: "bui deo buajio da.", Def: "(A0012) The children are outside the house.", By: "examples", Score: 0}, "buiduo": Word{Word: "buiduo", Def: "predicate: ‘move.outside’; ▯ moves out of ▯.", By: "official", Score: 0}, "buifa": Word{Word: "buifa", Def: "predicate: ‘exit’; ▯ goes out of / exits ▯.", By: "official", Score: 0}, "buifa ho to ru daqfai rao dio to daqlei rao nuaq.": Word{Word: "buifa ho to ru daqfai rao dio to daqlei rao nuaq.", Def: "(TER.3) They go outside usually during the day and rarely at night.", By: "official", Score: 0}, "buifa ji bue rao ni diosiao chui da.": Word{Word: "buifa ji bue rao ni diosiao chui da.", Def: "(A0707) I left home early this morning.", By: "examples", Score: 0}, "buifa suq hu shaohui ba!": Word{Word: "buifa suq hu shaohui ba!", Def: "(A0463) Leave, wicked ones!", By: "examples", Score: 0}, "buigaja": Word{Word: "buigaja", Def: "▯ is an extraterrestrial.", By: "seaqtaq", Score: 0}, "buihoq": Word{Word: "buihoq", Def: "▯ is the next outer proposition.", By: "Ilmen", Score: 0}, "buikoe": Word{Word: "buikoe", Def: "▯ excludes ▯ among ▯ for satisfying property ▯", By: "seaqtaq", Score: 0}, "buiku": Word{Word: "buiku", Def: "▯ is a uterus", By: "seaqtaq", Score: 0}, "buikubiu": Word{Word: "buikubiu", Def: "▯ is a fallopian tube", By: "seaqtaq", Score: 0}, "buikuboaq": Word{Word: "buikuboaq", Def: "▯ is a placenta", By: "seaqtaq", Score: 0}, "buisha": Word{Word: "buisha", Def: "▯ gets out of ▯.", By: "Ilmen", Score: 0}, "buitua": Word{Word: "buitua", Def: "▯ expels ▯ from ▯", By: "seaqtaq", Score: 0}, "bujeo": Word{Word: "bujeo", Def: "▯ is neither true nor false", By: "fagri", Score: 0}, "bujui": Word{Word: "bujui", Def: "barely (almost not)", By: "spreadsheet", Score: -1}, "buka": Word{Word: "buka", Def: "▯ dares to do ▯.", By: "Ilmen", Score: 0}, "bukaqkiu": Word{Word: "bukaqkiu", Def: "predicate: ‘invisible’; ▯ is invisible.", By: "official", Score: -2}, "bukuibu": Word{Word: "bukuibu", Def: "despite", By: "spreadsheet", Score: 0}, "bula": Word{Word: "bula", Def: "▯ is a bubble.", By: "Ilmen", Score: 0}, "bulame": Word{Word: "bulame", Def: "▯ is foam/froth.", By: "Ilmen", Score: 0}, "bumeraq": Word{Word: "bumeraq", Def: "predicate: ‘boomerang’; ▯ is a boomerang.", By: "official", Score: 0}, "bumiu": Word{Word: "bumiu", Def: "doubt", By: "spreadsheet", Score: 0}, "buo": Word{Word: "buo", Def: "predicate: ‘ready’; ▯ is ready to satisfy property ▯.", By: "official", Score: 0}, "buo chuihaq da.": Word{Word: "buo chuihaq da.", Def: "(A0041) Breakfast is ready.", By: "examples", Score: 0}, "buoheu": Word{Word: "buoheu", Def: "ripe", By: "spreadsheet", Score: 0}, "buoi": Word{Word: "buoi", Def: "[LU] ▯ is the proposition [proposition], which is false.", By: "uakci", Score: 0}, "buoq": Word{Word: "buoq", Def: "predicate: ‘non-serious’; ▯ is non-serious.", By: "official", Score: 0}, "buoqgaq": Word{Word: "buoqgaq", Def: "▯ hangs out with ▯", By: "seaqtaq", Score: 0}, "buoqkuq": Word{Word: "buoqkuq", Def: "▯ says non-serious thing ▯ to ▯.", By: "lynn", Score: 0}, "buoqlai": Word{Word: "buoqlai", Def: "▯ is a glyph/symbol of levity or non-seriosity, e.g. “%)”.", By: "lynn", Score: 1}, "buoqlua": Word{Word: "buoqlua", Def: "▯ is a comedy (dramatic sense).", By: "lynn", Score: 0}, "buoqruaq": Word{Word: "buoqruaq", Def: "▯ jokingly / sarcastically / non-seriously asserts that ▯ is the case.", By: "lynn", Score: 0}, "buq": Word{Word: "buq", Def: "hủa dóshī, na ru chủo dóshī lî chủq da", By: "uakci", Score: 0}, "buqbeq": Word{Word: "buqbeq", Def: "▯ is a muzzle/snout.", By: "Ilmen", Score: 0}, "buqbiu": Word{Word: "buqbiu", Def: "▯ is a proboscis.", By: "Ilmen", Score: 0}, "buqcaijiai": Word{Word: "buqcaijiai", Def: "bite", By: "spreadsheet", Score: 0}, "buqhie": Word{Word: "buqhie", Def: "▯ carries ▯ with their mouth.", By: "Ilmen", Score: 0}, "buqjeoq": Word{Word: "buqjeoq", Def: "▯ is an oral cavity.", By: "Ilmen", Score: 0}, "buqjiai": Word{Word: "buqjiai", Def: "▯ bites ▯", By: "fagri", Score: 0}, "buqjiaicai": Word{Word: "buqjiaicai", Def: "bite", By: "spreadsheet", Score: 0}, "buqkuoq": Word{Word: "buqkuoq", Def: "▯ is a tooth.", By: "Ilmen", Score: 0}, "buqlia": Word{Word: "buqlia", Def: "cheek", By: "spreadsheet", Score: 0}, "buqlia(ti)sho": Word{Word: "buqlia(ti)sho", Def: "▯ debuccalizes", By: "seaqtaq", Score: 0}, "buqluao": Word{Word: "buqluao", Def: "predicate: ‘lip’; ▯ is a lip.", By: "official", Score: 0}, "buqnao": Word{Word: "buqnao", Def: "▯ is saliva.", By: "Ilmen", Score: 1}, "buqpio": Word{Word: "buqpio", Def: "▯ is a tooth.", By: "Ilmen", Score: 0}, "buqriai": Word{Word: "buqriai", Def: "jaw", By: "spreadsheet", Score: 0}, "buqseaq": Word{Word: "buqseaq", Def: "▯ performs oral sex on ▯", By: "seaqtaq", Score: 0}, "buqtiabiu": Word{Word: "buqtiabiu", Def: "▯ is a pharynx.", By: "Ilmen", Score: 0}, "burasi": Word{Word: "burasi", Def: "is Brazilian / is of Brazil, its languages or people.", By: "Ilmen", Score: 0}, "burasihebe": Word{Word: "burasihebe", Def: "▯ is a rubber tree (Hevea brasiliensis).", By: "Ilmen", Score: 0}, "buri": Word{Word: "buri", Def: "▯ is brie.", By: "Ilmen", Score: 0}, "buriaq": Word{Word: "buriaq", Def: "▯ is a utopia", By: "seaqtaq", Score: 0}, "buro": Word{Word: "buro", Def: "donkey", By: "spreadsheet", Score: -1}, "buruaq": Word{Word: "buruaq", Def: "▯ denies ▯.", By: "Ilmen", Score: 1}, "buruo": Word{Word: "buruo", Def: "▯ is a typical moss, belonging to the Bryum taxonomic genus.", By: "Ilmen", Score: 0}, "buruoniu": Word{Word: "buruoniu", Def: "▯ is a bryophyte (Bryophyta taxonomic phylum).", By: "Ilmen", Score: 0}, "buruoqduo": Word{Word: "buruoqduo", Def: "bow (v)", By: "spreadsheet", Score: 0}, "busa": Word{Word: "busa", Def: "▯/0 is true or false or something else; ▯ is whatever, I don’t care; Ignore ▯.", By: "uakci", Score: 1}, "bushebu": Word{Word: "bushebu", Def: "▯ has ▯ as a necessary, but not necessarily sufficient condition; For ▯, ▯ must happen.", By: "uakci", Score: 0}, "butaq": Word{Word: "butaq", Def: "▯ pertains to the culture of Bhutan – Kingdom of Bhutan.", By: "countries", Score: 0}, "butaqgua": Word{Word: "butaqgua", Def: "▯ is the country Bhutan – Kingdom of Bhutan.", By: "countries", Score: 0}, "butaqtoaq": Word{Word: "butaqtoaq", Def: "▯ is (one of) the language(s) spoken in Bhutan – Kingdom of Bhutan.", By: "countries", Score: 0}, "butiduo": Word{Word: "butiduo", Def: "▯ moves away from ▯.", By: "lynn", Score: 0}, "butifa shiu heishijue na suq ba.": Word{Word: "butifa shiu heishijue na suq ba.", Def: "(A0160) Leave before November!", By: "examples", Score: 0}, "butimeo": Word{Word: "butimeo", Def: "predicate: ‘miss’; ▯ misses ▯; ▯ is sad that ▯ is not there.", By: "official", Score: -2}, "ca": Word{Word: "ca", Def: "predicate: ‘cause’; ▯ physically causes ▯ to be the case.", By: "official", Score: 0}, "ca ma jia ruqshua na jia tao ji hi rai da.": Word{Word: "ca ma jia ruqshua na jia tao ji hi rai da.", Def: "(A0332) Whether it will rain conditions what I'll do.", By: "examples", Score: 0}, "ca poaq": Word{Word: "ca poaq", Def: "predicate: ‘cause.to.break’; ▯ breaks/splits/separates ▯.", By: "official", Score: 0}, "cabiaq": Word{Word: "cabiaq", Def: "predicate: ‘enough.to’; ▯ is sufficiently the case for ▯ to be the case; ▯ is so much so that ▯ is the case.", By: "Ilmen", Score: 0}, "caca": Word{Word: "caca", Def: "▯ indirectly causes ▯.", By: "Ilmen", Score: 0}, "cagi": Word{Word: "cagi", Def: "efficient", By: "spreadsheet", Score: -1}, "cagideoq": Word{Word: "cagideoq", Def: "eloquent", By: "spreadsheet", Score: 0}, "cai": Word{Word: "cai", Def: "predicate: ‘strong’; ▯ is strong.", By: "official", Score: 0}, "caichi": Word{Word: "caichi", Def: "▯ feels certain that ▯ is the case", By: "fagri", Score: 0}, "caichoa": Word{Word: "caichoa", Def: "shout, yell", By: "spreadsheet", Score: 0}, "caichoamu": Word{Word: "caichoamu", Def: "▯ is strong/forte articulated (phonetics)", By: "seaqtaq", Score: 0}, "caicoe": Word{Word: "caicoe", Def: "stick(y)", By: "spreadsheet", Score: 0}, "caidua": Word{Word: "caidua", Def: "confident", By: "spreadsheet", Score: 0}, "caiduadoa": Word{Word: "caiduadoa", Def: "▯ assures that ▯ for listener ▯.", By: "uakci", Score: 0}, "caihua": Word{Word: "caihua", Def: "muscle", By: "spreadsheet", Score: 0}, "caijio": Word{Word: "caijio", Def: "castle", By: "spreadsheet", Score: 0}, "caikoi": Word{Word: "caikoi", Def: "▯ strides / walks fiercely or strongly.", By: "lynn", Score: 0}, "cailai": Word{Word: "cailai", Def: "exclamation mark, exclamation point (!)", By: "uakci", Score: 0}, "caimoaq": Word{Word: "caimoaq", Def: "▯ remembers ▯ vividly/clearly/in detail.", By: "lynn", Score: 0}, "caimoe": Word{Word: "caimoe", Def: "excited", By: "spreadsheet", Score: 1}, "caireqro": Word{Word: "caireqro", Def: "shoot ⓥ (shooting device as the subject)", By: "spreadsheet", Score: -1}, "caitua": Word{Word: "caitua", Def: "▯ forces ▯ to happen", By: "fagri", Score: 0}, "cajoi": Word{Word: "cajoi", Def: "▯ happens for purpose ▯", By: "seaqtaq", Score: 0}, "cajoq": Word{Word: "cajoq", Def: "▯ directly causes ▯.", By: "uakci", Score: 0}, "calu": Word{Word: "calu", Def: "logically entail, nibli", By: "spreadsheet", Score: 0}, "caniqdua": Word{Word: "caniqdua", Def: "explain", By: "spreadsheet", Score: 0}, "cao": Word{Word: "cao", Def: "predicate: ‘season’; ▯ is a season.", By: "official", Score: 0}, "capaq": Word{Word: "capaq", Def: "▯ is part of the cause of ▯.", By: "Ilmen", Score: 0}, "capo": Word{Word: "capo", Def: "▯ is a mamey sapote (Pouteria sapota).", By: "Ilmen", Score: 0}, "caq": Word{Word: "caq", Def: "predicate: ‘conduct’; ▯ conducts/directs/manages ▯.", By: "official", Score: 0}, "caqbo": Word{Word: "caqbo", Def: "▯ owns/possesses ▯.", By: "Ilmen", Score: 0}, "caqche": Word{Word: "caqche", Def: "director", By: "spreadsheet", Score: 0}, "caqchuo": Word{Word: "caqchuo", Def: "predicate: ‘controller’; ▯ is a controller (instrument for controlling) for ▯.", By: "official", Score: 0}, "caqduai": Word{Word: "caqduai", Def: "▯ is responsible for satisfying property ▯", By: "seaqtaq", Score: 0}, "caqgio": Word{Word: "caqgio", Def: "predicate: ‘traffic.light’; ▯ is a traffic light.", By: "official", Score: 0}, "caqhe": Word{Word: "caqhe", Def: "▯ is dominant (personality-wise)", By: "seaqtaq", Score: 0}, "caqhui": Word{Word: "caqhui", Def: "For ▯ having happened, ▯ is to be blamed; ▯ is ▯’s fault.", By: "uakci", Score: 0}, "caqhupapaq": Word{Word: "caqhupapaq", Def: "▯ is a button control.", By: "Ilmen", Score: 0}, "caqmuse": Word{Word: "caqmuse", Def: "▯ is the result of being conducted by ▯.", By: "uakci", Score: 0}, "caruoq": Word{Word: "caruoq", Def: "▯ directly causes ▯.", By: "Ilmen", Score: 0}, "casiao": Word{Word: "casiao", Def: "▯ is the source of ▯", By: "seaqtaq", Score: 0}, "cataq": Word{Word: "cataq", Def: "▯ happens automatically", By: "seaqtaq", Score: 0}, "ce": Word{Word: "ce", Def: "predicate: ‘node’; ▯ is a node/station/port.", By: "official", Score: 0}, "cea": Word{Word: "cea", Def: "predicate: ‘sack’; ▯ is a sack/bag/pocket.", By: "official", Score: 0}, "ceabo": Word{Word: "ceabo", Def: "▯ is a marsupial.", By: "Ilmen", Score: 0}, "ceahako": Word{Word: "ceahako", Def: "▯ is a member of genus Phascolarctos (the koala and extinct relatives).", By: "Hoemai", Score: 0}, "ceahua": Word{Word: "ceahua", Def: "pouch, body part", By: "spreadsheet", Score: -1}, "ceaniai": Word{Word: "ceaniai", Def: "▯ is a marsupial.", By: "Ilmen", Score: 0}, "ceaq": Word{Word: "ceaq", Def: "▯ is a claw/nail.", By: "Ilmen", Score: 0}, "ceaqpueqhe": Word{Word: "ceaqpueqhe", Def: "▯ is unguligrade; ▯ walks/treads on his/her/its nails/hoofs.", By: "Ilmen", Score: 0}, "ceaqtechuo": Word{Word: "ceaqtechuo", Def: "▯ are nail clippers.", By: "Ilmen", Score: 0}, "cei": Word{Word: "cei", Def: "terminates statement prefix clauses.", By: "Ilmen", Score: 0}, "cemeq": Word{Word: "cemeq", Def: "▯ is cement.", By: "Ilmen", Score: 0}, "ceo": Word{Word: "ceo", Def: "= [0] Lẻaqshīu bû dóshī na jêo dóshī.\n= [X1] Lẻaqshīu bû dóshī dógū na jêo dóshī dógū.", By: "Ilmen", Score: 0}, "ceochaq": Word{Word: "ceochaq", Def: "Monday", By: "uakci", Score: 0}, "ceohio": Word{Word: "ceohio", Def: "▯ greets ▯ on meeting him/her/them.", By: "Ilmen", Score: 0}, "ceolui": Word{Word: "ceolui", Def: "▯ has begun to be the case and still is the case; ▯ has been and is the case. [JEO]", By: "uakci", Score: 0}, "ceoq": Word{Word: "ceoq", Def: "▯ is electronic/electrical/electric.", By: "uakci", Score: 0}, "ceoqgiu": Word{Word: "ceoqgiu", Def: "▯ is wire.", By: "uakci", Score: 0}, "ceoqkaideoq": Word{Word: "ceoqkaideoq", Def: "▯ e-mails ▯; ▯ e’s ▯ a mail.", By: "uakci", Score: 0}, "ceoqkue": Word{Word: "ceoqkue", Def: "▯ is an e-book.", By: "uakci", Score: 0}, "ceoqmoi": Word{Word: "ceoqmoi", Def: "▯ is artificial intelligence; Program ▯ ‘thinks’ ▯.", By: "uakci", Score: 0}, "ceoqpeq": Word{Word: "ceoqpeq", Def: "▯ is an e-mail.", By: "uakci", Score: 0}, "ceoqshua": Word{Word: "ceoqshua", Def: "There is lightning; ▯ is lightning; Lightning ▯ hits spot ▯ from ▯.", By: "uakci", Score: 0}, "ceoriaq": Word{Word: "ceoriaq", Def: "origin / source", By: "spreadsheet", Score: 0}, "ceqbudachuaq": Word{Word: "ceqbudachuaq", Def: "▯ is Zen Buddhism.", By: "Ilmen", Score: 0}, "ceqbudisuq": Word{Word: "ceqbudisuq", Def: "▯ is Zen Buddhism", By: "fagri", Score: 0}, "ceu": Word{Word: "ceu", Def: "▯ is material/matter/substance.", By: "Ilmen", Score: -2}, "ceutoai": Word{Word: "ceutoai", Def: "▯ is a molecule.", By: "Ilmen", Score: -2}, "cha": Word{Word: "cha", Def: "predicate: ‘manner’; ▯ takes place in way/form ▯.", By: "official", Score: 0}, "chafaq": Word{Word: "chafaq", Def: "▯ takes place in a way that suggests that ▯ is true", By: "fagri", Score: 0}, "chahiraikuq": Word{Word: "chahiraikuq", Def: "(fork of #yGNkIcUQb) ▯ is something I don't know how to say; ▯ is a difficult-to-express concept.", By: "Hoemai", Score: 0}, "chai": Word{Word: "chai", Def: "pỉehāq dóshī, na ru sa dó nǐuboe (kıo sỏq fảı shî mỉ Kảmēlīa Jủqgūo níu rǎq hóa dó kı) bı, mủoq dóshī sa lú shỏ bủı hóa dó rào nîe dó sa náo lỏq da", By: "uakci", Score: 0}, "chaibio": Word{Word: "chaibio", Def: "▯ is a teapot.", By: "uakci", Score: 0}, "chaiboe": Word{Word: "chaiboe", Def: "▯ is tea leaf that yields tea ▯.", By: "uakci", Score: 0}, "chaica": Word{Word: "chaica", Def: "▯ infuses in liquid ▯, resulting in this latter becoming a (herbal) tea.", By: "Ilmen", Score: 1}, "chaikioi": Word{Word: "chaikioi", Def: "▯ brews (prepares) tea ▯ in water ▯.", By: "uakci", Score: 0}, "chailoq": Word{Word: "chailoq", Def: "▯ is water so hot that tea can brew; ▯ is boiling hot.", By: "uakci", Score: 0}, "chainaguaq(toaq)": Word{Word: "chainaguaq(toaq)", Def: "▯ is Tcaingwaq.", By: "uakci", Score: 0}, "chainiu": Word{Word: "chainiu", Def: "▯ is the tea plant / Camellia sinensis.", By: "lynn", Score: 0}, "chajeq": Word{Word: "chajeq", Def: "▯ takes place in the same way/manner as ▯.", By: "Ilmen", Score: 0}, "chamu": Word{Word: "chamu", Def: "▯ is a way/form of doing ▯", By: "seaqtaq", Score: 0}, "chao": Word{Word: "chao", Def: "predicate: ‘vehicle’; ▯ is a vehicle.", By: "official", Score: 0}, "chaobia": Word{Word: "chaobia", Def: "▯ has motion/car/travel sickness.", By: "Ilmen", Score: 0}, "chaocaq": Word{Word: "chaocaq", Def: "pilot (v), drive", By: "spreadsheet", Score: 0}, "chaodoa": Word{Word: "chaodoa", Def: "▯ ships ▯ to ▯", By: "seaqtaq", Score: 0}, "chaotieq": Word{Word: "chaotieq", Def: "predicate: ‘road’; ▯ is a road/street.", By: "official", Score: 0}, "chaq": Word{Word: "chaq", Def: "predicate: ‘day’; ▯ is a day.", By: "official", Score: 0}, "chaqchui": Word{Word: "chaqchui", Def: "▯ takes place early in the day.", By: "Ilmen", Score: 0}, "chaqdaq": Word{Word: "chaqdaq", Def: "▯ is a date", By: "seaqtaq", Score: -1}, "chaqdiaq": Word{Word: "chaqdiaq", Def: "▯ occurs daily / every day.", By: "lynn", Score: 1}, "chaqgu": Word{Word: "chaqgu", Def: "▯ is a two-day period.", By: "lynn", Score: 0}, "chaqheijo": Word{Word: "chaqheijo", Def: "(fork of #3BRrXlJdH) ▯ is a fortnight", By: "seaqtaq", Score: 0}, "chaqne": Word{Word: "chaqne", Def: "day (duration, 24h)", By: "spreadsheet", Score: -1}, "chaqraochiu": Word{Word: "chaqraochiu", Def: "time, tcika", By: "spreadsheet", Score: 0}, "chaqreoq": Word{Word: "chaqreoq", Def: "▯ takes place late in the day.", By: "Ilmen", Score: 0}, "chaqtu": Word{Word: "chaqtu", Def: "predicate: ‘daily’; ▯ happens every day; ▯ is daily.", By: "official", Score: 0}, "chasiu": Word{Word: "chasiu", Def: "sỉu lú chả dóshī hóa na lú chả jêo dógū sa pó dóshī na hóa da", By: "uakci", Score: 0}, "che": Word{Word: "che", Def: "dủq ru jỏe tảo dóshī dógū da", By: "uakci", Score: 0}, "che chaocaq": Word{Word: "che chaocaq", Def: "▯ is a chauffeur", By: "seaqtaq", Score: 0}, "che chaocaq ji baq tasi da": Word{Word: "che chaocaq ji baq tasi da", Def: "(A0505) I'm a taxi driver.", By: "examples", Score: 0}, "che chie": Word{Word: "che chie", Def: "▯ is a learner / student of ▯ (subject).", By: "lynn", Score: 0}, "che chie bi kai ho lu kuq che chietua hoa da.": Word{Word: "che chie bi kai ho lu kuq che chietua hoa da.", Def: "(A0222) The learner writes what the teacher says.", By: "examples", Score: 0}, "che chietua": Word{Word: "che chietua", Def: "predicate: ‘teacher’; ▯ is a teacher.", By: "official", Score: 0}, "che chietua ji da.": Word{Word: "che chietua ji da.", Def: "(A0517) I'm a teacher.", By: "examples", Score: 0}, "che giaqtao": Word{Word: "che giaqtao", Def: "predicate: ‘musician’; ▯ is a musician.", By: "official", Score: 0}, "che ji guai juq hie ja do heqchuo tiai ti meaqce da.": Word{Word: "che ji guai juq hie ja do heqchuo tiai ti meaqce da.", Def: "(A0954) I am a worker of accepting and transporting container boxes at harbour.", By: "examples", Score: 0}, "che suq hi rai moq.": Word{Word: "che suq hi rai moq.", Def: "(A0516) What is your job?", By: "examples", Score: 0}, "chea": Word{Word: "chea", Def: "predicate: ‘chair’; ▯ is a chair.", By: "uakci", Score: 0}, "chealiao": Word{Word: "chealiao", Def: "predicate: ‘mushroom’; ▯ is a mushroom.", By: "official", Score: 1}, "cheaq": Word{Word: "cheaq", Def: "predicate: ‘trusty’; ▯ is trusty/trusted to ▯.", By: "official", Score: 0}, "cheaq(gi)chi": Word{Word: "cheaq(gi)chi", Def: "▯ believes ▯to be trustworthy; ▯ trusts▯", By: "seaqtaq", Score: 0}, "cheaqgi": Word{Word: "cheaqgi", Def: "▯ is trustworty/reliable.", By: "Ilmen", Score: 0}, "cheaqlu": Word{Word: "cheaqlu", Def: "▯ has been asserted by a trustworthy source.", By: "Ilmen", Score: 0}, "chefuq": Word{Word: "chefuq", Def: "▯ is clothing/garment/uniform typically worn by ▯-ers while they satisfy that predicate.", By: "lynn", Score: 1}, "chei": Word{Word: "chei", Def: "predicate: ‘digit’; ▯ is a digit/finger/toe.", By: "official", Score: 0}, "cheibea": Word{Word: "cheibea", Def: "▯ is a knuckle; ▯ is a finger or toe joint.", By: "Ilmen", Score: 0}, "cheibio": Word{Word: "cheibio", Def: "▯ is a cup.", By: "Ilmen", Score: 0}, "cheipueq": Word{Word: "cheipueq", Def: "▯ walks/treads on his/her/its toes.", By: "Ilmen", Score: 0}, "cheipueqhe": Word{Word: "cheipueqhe", Def: "▯ is digitigrade.", By: "Ilmen", Score: 0}, "cheiruedea": Word{Word: "cheiruedea", Def: "▯ drums their fingers; ▯ drums their fingers on ▯", By: "fagri", Score: 0}, "cheise": Word{Word: "cheise", Def: "▯ is a finger print/toe print", By: "seaqtaq", Score: 1}, "cheisheaq": Word{Word: "cheisheaq", Def: "▯ stands on his/her/its toes.", By: "Ilmen", Score: 0}, "cheisheaqhe": Word{Word: "cheisheaqhe", Def: "▯ is digitigrade.", By: "Ilmen", Score: 0}, "cheitoq": Word{Word: "cheitoq", Def: "▯ is a nail (of the body)", By: "seaqtaq", Score: 0}, "cheme": Word{Word: "cheme", Def: "▯ is a community of ▯-ers.", By: "uakci", Score: 1}, "cheo": Word{Word: "cheo", Def: "= [XX2] Tu shí tảmēa dỏshī tu bú hỏı shǐ tảmēa dỏshī pa sa dỏgū.", By: "Ilmen", Score: 0}, "cheo butimeo": Word{Word: "cheo butimeo", Def: "▯ miss each other's company.", By: "lynn", Score: 0}, "cheo cheaq": Word{Word: "cheo cheaq", Def: "▯ trust each other.", By: "lynn", Score: 0}, "cheo choadeoq": Word{Word: "cheo choadeoq", Def: "chat", By: "spreadsheet", Score: 0}, "cheo deaqsoi mi jini roi mi chali.": Word{Word: "cheo deaqsoi mi jini roi mi chali.", Def: "(CON.3) Ginny and Charlie are arguing.", By: "official", Score: 0}, "cheo deaqsoi mi jini ru mi chali.": Word{Word: "cheo deaqsoi mi jini ru mi chali.", Def: "(CON.4) Ginny argued with each other, and Charlie argued with each other.", By: "official", Score: 0}, "cheo deoq": Word{Word: "cheo deoq", Def: "▯ communicate with each other.", By: "lynn", Score: 0}, "cheo fuo": Word{Word: "cheo fuo", Def: "▯ touch one another / are in contact.", By: "lynn", Score: 0}, "cheo geojeq": Word{Word: "cheo geojeq", Def: "▯ are the same age as each other", By: "seaqtaq", Score: 0}, "cheo geqkuai": Word{Word: "cheo geqkuai", Def: "▯ long to meet one another.", By: "lynn", Score: 0}, "cheo goajao": Word{Word: "cheo goajao", Def: "▯ are scattered / far away from one another in space.", By: "lynn", Score: 0}, "cheo heo puqho li duq chuq ja poq ja haq da.": Word{Word: "cheo heo puqho li duq chuq ja poq ja haq da.", Def: "(A0333) They differ in what food they habitually eat.", By: "examples", Score: 0}, "cheo jao mu ne jai poq da.": Word{Word: "cheo jao mu ne jai poq da.", Def: "(A0866) The friends feel all different amounts of happiness.", By: "examples", Score: 0}, "cheo jao ti pai da.": Word{Word: "cheo jao ti pai da.", Def: "(A0860) The friends are far from one another.", By: "examples", Score: 0}, "cheo jui mu ne jai poq da.": Word{Word: "cheo jui mu ne jai poq da.", Def: "(A0856) The people are about has happy as each other.", By: "examples", Score: 0}, "cheo jui ti pai da.": Word{Word: "cheo jui ti pai da.", Def: "(A0850) The friends are near each other.", By: "examples", Score: 0}, "cheo kaqgai": Word{Word: "cheo kaqgai", Def: "▯ see each other.", By: "lynn", Score: 0}, "cheo kaqgai suq roi ji niqguo ba.": Word{Word: "cheo kaqgai suq roi ji niqguo ba.", Def: "(A0315) Let's look at each other again.", By: "examples", Score: 0}, "cheo leaq": Word{Word: "cheo leaq", Def: "▯ are mutually adjacent in relationship ▯.", By: "lynn", Score: 0}, "cheo leaq ti pai da.": Word{Word: "cheo leaq ti pai da.", Def: "(A0870) The friends are all next to each other.", By: "examples", Score: 0}, "cheo leaqbua": Word{Word: "cheo leaqbua", Def: "▯ are neighbours; ▯ live next to each other.", By: "lynn", Score: 0}, "cheo lia": Word{Word: "cheo lia", Def: "▯ are aligned (all next to each other).", By: "lynn", Score: 0}, "cheo loi": Word{Word: "cheo loi", Def: "▯ (mutually) hate each other.", By: "lynn", Score: 0}, "cheo mai": Word{Word: "cheo mai", Def: "▯ love each other.", By: "lynn", Score: 0}, "cheo maigaq": Word{Word: "cheo maigaq", Def: "▯ are each others' partners / significant others.", By: "lynn", Score: 0}, "cheo meajeq": Word{Word: "cheo meajeq", Def: "▯ are all the same thing.", By: "lynn", Score: 0}, "cheo miai": Word{Word: "cheo miai", Def: "▯ rhyme with each other.", By: "lynn", Score: 0}, "cheo nejeq geo ji roi poji pai da.": Word{Word: "cheo nejeq geo ji roi poji pai da.", Def: "(A0742) Me and my friend are the same age as each other.", By: "examples", Score: 0}, "cheo nue cheo": Word{Word: "cheo nue cheo", Def: "▯ mutually promise/threaten to be in reciprocal relationship ▯ with each other.", By: "niucuq", Score: -1}, "cheo poe mu ne jai poq da.": Word{Word: "cheo poe mu ne jai poq da.", Def: "(A0884) The friends are all separate amounts of happy.", By: "examples", Score: 0}, "cheo poe ti pai da.": Word{Word: "cheo poe ti pai da.", Def: "(A0878) The friends are apart from one another (in space).", By: "examples", Score: 0}, "cheo puqho li ja do bi dua ja rai chufaq ruaqhui do da.": Word{Word: "cheo puqho li ja do bi dua ja rai chufaq ruaqhui do da.", Def: "(A0561) They know that each other is lying.", By: "examples", Score: 0}, "cheo seaq": Word{Word: "cheo seaq", Def: "▯ have sex with each other.", By: "lynn", Score: 0}, "cheo seo": Word{Word: "cheo seo", Def: "▯ are married to each other.", By: "lynn", Score: 0}, "cheo siu": Word{Word: "cheo siu", Def: "▯ are similar / resemble each other.", By: "lynn", Score: 0}, "cheo soi baobao roi maomao le ca suo kua da.": Word{Word: "cheo soi baobao roi maomao le ca suo kua da.", Def: "(A0973) Bow-wow and meow-meow are fighting each other, probably causing that the room is broken.", By: "oldexamples", Score: 0}, "cheo taq teq cheo": Word{Word: "cheo taq teq cheo", Def: "▯ mutually pay themselves for being in reciprocal relationship ▯.", By: "niucuq", Score: -1}, "cheodoa": Word{Word: "cheodoa", Def: "▯ exchanges service ▯ (property) for service ▯ (property) with person ▯.", By: "Ilmen", Score: 0}, "cheojao": Word{Word: "cheojao", Def: "▯ is diverse in what it satisfies relation ▯ with.", By: "uakci", Score: 0}, "cheoq": Word{Word: "cheoq", Def: "predicate: ‘bottle’; ▯ is a bottle.", By: "official", Score: 0}, "cheoshe": Word{Word: "cheoshe", Def: "iff", By: "spreadsheet", Score: 0}, "cheoteq": Word{Word: "cheoteq", Def: "▯ barters ▯ with person ▯ for ▯.", By: "uakci", Score: 0}, "cheu": Word{Word: "cheu", Def: "deceive", By: "spreadsheet", Score: 0}, "chi": Word{Word: "chi", Def: "predicate: ‘believe’; ▯ believe ▯ to be the case / to be true.", By: "official", Score: 0}, "chi ho geaq baq suhu da.": Word{Word: "chi ho geaq baq suhu da.", Def: "(A0380) They believe that pigs are dirty.", By: "examples", Score: 0}, "chi ji heq nao sa cie da.": Word{Word: "chi ji heq nao sa cie da.", Def: "(A0022) I believe the water contains some fish.", By: "examples", Score: 0}, "chi ji lu bu huogai ho lu kuq suq sa rai da.": Word{Word: "chi ji lu bu huogai ho lu kuq suq sa rai da.", Def: "(A0228) I think he didn't hear you say anything.", By: "examples", Score: 0}, "chi sia poq cheaq tai hoi goiche da.": Word{Word: "chi sia poq cheaq tai hoi goiche da.", Def: "(A0953) Nobody believes that the doctor is trusted to succeed.", By: "examples", Score: 0}, "chi(jio)joaq": Word{Word: "chi(jio)joaq", Def: "▯ is a priest/rabbi/imam", By: "seaqtaq", Score: 0}, "chia": Word{Word: "chia", Def: "shẻ bû dẻq dóshī dósāq na bû jẻo dóshī dógū da", By: "uakci", Score: 0}, "chiabia": Word{Word: "chiabia", Def: "▯ is desperate to satisfy ▯ so that they can satisfy ▯; ▯ needs to be ▯ to such a high extent that they’ll sacrifice their morality, integrity, dignity, and/or rational thinking to get it.", By: "uakci", Score: 0}, "chiadoa": Word{Word: "chiadoa", Def: "provide", By: "spreadsheet", Score: 0}, "chiai": Word{Word: "chiai", Def: "sa dó jěı dûa dóshī dógū bı, fảq dó, na ru keo bủ mỏı dóshı dó da", By: "uakci", Score: 0}, "chiai da; pu tao ho hoq, keo bu soq hui da.": Word{Word: "chiai da; pu tao ho hoq, keo bu soq hui da.", Def: "(A0612) Wrong; he did that, but it wasn't the worst thing.", By: "examples", Score: 0}, "chiai po suq da.  jeo jo shiaq, keo due fe shiaq na she hao da.": Word{Word: "chiai po suq da.  jeo jo shiaq, keo due fe shiaq na she hao da.", Def: "(A0619) You(r answer) is wrong.  It's true that there are four legs, but in this case it's correct to say there are five.", By: "examples", Score: 0}, "chiaica": Word{Word: "chiaica", Def: "mislead", By: "spreadsheet", Score: 0}, "chiairetao": Word{Word: "chiairetao", Def: "▯ recovers ▯", By: "seaqtaq", Score: 0}, "chiaitao": Word{Word: "chiaitao", Def: "predicate: ‘err’; ▯ errs; ▯ makes mistake ▯.", By: "official", Score: 0}, "chiaitaose": Word{Word: "chiaitaose", Def: "mistake", By: "spreadsheet", Score: -1}, "chiaitaosi": Word{Word: "chiaitaosi", Def: "▯ is careful (pays attention to avoid making mistakes).", By: "lynn", Score: 1}, "chiaitaotue": Word{Word: "chiaitaotue", Def: "mistake", By: "spreadsheet", Score: -1}, "chiaitua": Word{Word: "chiaitua", Def: "mislead", By: "spreadsheet", Score: 0}, "chiaituere": Word{Word: "chiaituere", Def: "▯ is a back up/recovery of ▯", By: "seaqtaq", Score: 0}, "chiao": Word{Word: "chiao", Def: "▯ is about ▯; ▯ is on topic ▯.", By: "uakci", Score: 0}, "chiapoai": Word{Word: "chiapoai", Def: "▯ are chia seeds.", By: "uakci", Score: 0}, "chiaq": Word{Word: "chiaq", Def: "= #dua ru lủ bủ #sỉ", By: "uakci", Score: 0}, "chiaqbia": Word{Word: "chiaqbia", Def: "▯ is sentient", By: "seaqtaq", Score: 0}, "chiaqdui": Word{Word: "chiaqdui", Def: "(fork of #aEMoaKPIy) ▯ is sentient", By: "seaqtaq", Score: 0}, "chiaqhua": Word{Word: "chiaqhua", Def: "▯ is a mind.", By: "Ilmen", Score: 1}, "chiaqnuo": Word{Word: "chiaqnuo", Def: "▯ is lucid-dreaming", By: "brunofrancosalamin", Score: -1}, "chiaqrue": Word{Word: "chiaqrue", Def: "▯ is not very aware; ▯ is in a daze", By: "fagri", Score: 1}, "chiaqsha": Word{Word: "chiaqsha", Def: "realize that", By: "spreadsheet", Score: 0}, "chiaqsho": Word{Word: "chiaqsho", Def: "▯ notices ▯; ▯ becomes aware of ▯", By: "fagri", Score: 0}, "chicai": Word{Word: "chicai", Def: "▯ is confident that ▯ is the case", By: "seaqtaq", Score: 0}, "chichuaq": Word{Word: "chichuaq", Def: "▯ is a religion – a system of dogmas (beliefs) ▯.", By: "uakci", Score: 1}, "chicia": Word{Word: "chicia", Def: "▯ is skeptical of ▯; ▯ can’t believe ▯.", By: "uakci", Score: 0}, "chidui": Word{Word: "chidui", Def: "▯ is naive.", By: "Ilmen", Score: 0}, "chie": Word{Word: "chie", Def: "tảo shỏ dủa dóshī sa lú rảq hóa dógū da", By: "uakci", Score: 0}, "chie ji rao tu chaq sa niq da.": Word{Word: "chie ji rao tu chaq sa niq da.", Def: "(A0043) I learn something new every day.", By: "examples", Score: 0}, "chieche": Word{Word: "chieche", Def: "▯ is a learner / student of ▯ (subject).", By: "lynn", Score: 0}, "chiechefuai": Word{Word: "chiechefuai", Def: "▯ is a student council.", By: "lynn", Score: 0}, "chiefuai": Word{Word: "chiefuai", Def: "▯ is a learning/school board", By: "seaqtaq", Score: 0}, "chiejio": Word{Word: "chiejio", Def: "predicate: ‘school’; ▯ is a school.", By: "official", Score: 0}, "chiekua": Word{Word: "chiekua", Def: "▯ is a classroom", By: "seaqtaq", Score: 0}, "chiekue": Word{Word: "chiekue", Def: "▯ is a textbook", By: "fagri", Score: 0}, "chieme": Word{Word: "chieme", Def: "▯ is a class / a group of students that have lessons together.", By: "lynn", Score: 1}, "chiemegaq": Word{Word: "chiemegaq", Def: "▯ is a classmate of ▯.", By: "lynn", Score: 0}, "chieniq": Word{Word: "chieniq", Def: "beginner", By: "spreadsheet", Score: 0}, "chieq": Word{Word: "chieq", Def: "predicate: ‘cross’; ▯ intersects/crosses/traverses ▯.", By: "official", Score: 0}, "chieqdoa": Word{Word: "chieqdoa", Def: "▯ shares ▯ with ▯", By: "seaqtaq", Score: 0}, "chieqfa": Word{Word: "chieqfa", Def: "predicate: ‘cross’; ▯ crosses ▯; ▯ goes across ▯.", By: "official", Score: 0}, "chieqkai": Word{Word: "chieqkai", Def: "(fork of #C3MrLHjRw) ▯ transcribes text ▯", By: "seaqtaq", Score: 0}, "chieqrie": Word{Word: "chieqrie", Def: "▯ is a corner between ▯.", By: "Ilmen", Score: 0}, "chieqseaqrioq": Word{Word: "chieqseaqrioq", Def: "▯ is transgender", By: "seaqtaq", Score: 0}, "chieqtei": Word{Word: "chieqtei", Def: "▯ is a cross (shape).", By: "Ilmen", Score: 0}, "chieqteq": Word{Word: "chieqteq", Def: "trade.v", By: "seaqtaq", Score: -1}, "chieqtieq": Word{Word: "chieqtieq", Def: "▯ is a crossroad", By: "seaqtaq", Score: 0}, "chietao": Word{Word: "chietao", Def: "study ⓥ", By: "spreadsheet", Score: 0}, "chietao ji nihoqtoaq da.": Word{Word: "chietao ji nihoqtoaq da.", Def: "(A0732) I study Japanese.", By: "examples", Score: 0}, "chietoai": Word{Word: "chietoai", Def: "▯ is a lesson", By: "seaqtaq", Score: 0}, "chietua": Word{Word: "chietua", Def: "predicate: ‘teach’; ▯ teaches ▯ property ▯.", By: "official", Score: 0}, "chietua suq ji ba.": Word{Word: "chietua suq ji ba.", Def: "(A0045) Teach me.", By: "examples", Score: 0}, "chiheokiao(toq)": Word{Word: "chiheokiao(toq)", Def: "▯ is a door that you keep wanting to push but it's actually a pull door, or vice-versa", By: "seaqtaq", Score: 0}, "chijio": Word{Word: "chijio", Def: "predicate: ‘temple’; ▯ is a temple/church/sanctuary/synagogue/shrine.", By: "official", Score: 0}, "chika": Word{Word: "chika", Def: "time, tcika", By: "spreadsheet", Score: -1}, "chila": Word{Word: "chila", Def: "detail", By: "spreadsheet", Score: -1}, "chilakuq": Word{Word: "chilakuq", Def: "describe", By: "spreadsheet", Score: -1}, "chile": Word{Word: "chile", Def: "▯ pertains to the culture of Chile – Republic of Chile.", By: "countries", Score: 0}, "chilegua": Word{Word: "chilegua", Def: "▯ is the country Chile – Republic of Chile.", By: "countries", Score: 0}, "chiletoaq": Word{Word: "chiletoaq", Def: "▯ is (one of) the language(s) spoken in Chile – Republic of Chile.", By: "countries", Score: 0}, "chinoa": Word{Word: "chinoa", Def: "▯ is unbelievable; ▯ is hard to believe.", By: "Ilmen", Score: 0}, "chio": Word{Word: "chio", Def: "tủq gủo go dóshī sa lú pủınē dógū hóa", By: "Ilmen", Score: 0}, "chio gu bi denoaqchoa": Word{Word: "chio gu bi denoaqchoa", Def: "(B0014) I recited twice", By: "examples", Score: 0}, "chio gu bi denoaqkuq": Word{Word: "chio gu bi denoaqkuq", Def: "(B0014) I recited twice", By: "oldexamples", Score: 0}, "chiopui": Word{Word: "chiopui", Def: "▯ happens many times, from time to time, often.", By: "uakci", Score: 0}, "chiopui ruaq naqdeo ti cai noi peso poho da.": Word{Word: "chiopui ruaq naqdeo ti cai noi peso poho da.", Def: "(A0952) Boy repeatedly asserts that strong pain is at his penis.", By: "examples", Score: 0}, "chiq": Word{Word: "chiq", Def: "insect/bug (CHIQ)", By: "spreadsheet", Score: -1}, "chiqbe": Word{Word: "chiqbe", Def: "larva", By: "spreadsheet", Score: 0}, "chiqchuq": Word{Word: "chiqchuq", Def: "▯ is insectivorous.", By: "Ilmen", Score: 0}, "chiqdiu": Word{Word: "chiqdiu", Def: "▯is entomology", By: "seaqtaq", Score: 0}, "chiqshiqhua": Word{Word: "chiqshiqhua", Def: "▯ is an antennae", By: "seaqtaq", Score: 0}, "chireq": Word{Word: "chireq", Def: "▯ is Homo religiosus; ▯ is a human being considered as inherently in need to believe something.", By: "uakci", Score: 0}, "chisha": Word{Word: "chisha", Def: "deceive", By: "spreadsheet", Score: 0}, "chisia": Word{Word: "chisia", Def: "▯ is skeptical (in general).", By: "uakci", Score: 0}, "chita": Word{Word: "chita", Def: "label, tag, tcita", By: "spreadsheet", Score: -1}, "chitu": Word{Word: "chitu", Def: "▯ is naive.", By: "Ilmen", Score: 0}, "chituafui": Word{Word: "chituafui", Def: "▯ is naive.", By: "Ilmen", Score: 0}, "chiu": Word{Word: "chiu", Def: "predicate: ‘address’; ▯ is the address/coordinates of ▯.", By: "official", Score: 0}, "cho": Word{Word: "cho", Def: "gỉ ra dẻq ra pủa dógū jìe dóshī da", By: "uakci", Score: 0}, "cho ho baq chai da.": Word{Word: "cho ho baq chai da.", Def: "(A0390) He likes tea.", By: "oldexamples", Score: 0}, "cho ho baq tiaqreo kaqhua da.": Word{Word: "cho ho baq tiaqreo kaqhua da.", Def: "(A0201) He likes brown eyes.", By: "examples", Score: 0}, "cho ho chai da.": Word{Word: "cho ho chai da.", Def: "(A0032) He likes the tea.", By: "examples", Score: 0}, "cho ho to ru baq nuai to shu ‹ nuai › da.": Word{Word: "cho ho to ru baq nuai to shu ‹ nuai › da.", Def: "(A0309) He likes money and the word \"money\".", By: "examples", Score: 0}, "cho ji baq kue kui pua noaq ji da.": Word{Word: "cho ji baq kue kui pua noaq ji da.", Def: "(A0241) I like books because I enjoy reading.", By: "examples", Score: 0}, "cho ji baq nao da.": Word{Word: "cho ji baq nao da.", Def: "(A0016) I like water.", By: "examples", Score: 0}, "cho ji guai ji rao baq nuaq da.": Word{Word: "cho ji guai ji rao baq nuaq da.", Def: "(A0087) I like working at night.", By: "examples", Score: 0}, "cho ji lu rao nuo ji bi gei ji sia rai da.": Word{Word: "cho ji lu rao nuo ji bi gei ji sia rai da.", Def: "(A0097) I like the fact that when I sleep, I wear nothing.", By: "examples", Score: 0}, "cho ji ni reo.": Word{Word: "cho ji ni reo.", Def: "phrase: \"I like this colour.\"", By: "official", Score: 0}, "cho ji reo po posuq sueta da.": Word{Word: "cho ji reo po posuq sueta da.", Def: "(A0729) I like the color of your sweater.", By: "examples", Score: 0}, "cho ji suq da.": Word{Word: "cho ji suq da.", Def: "(A0044) I like you.", By: "examples", Score: 0}, "cho ji to ru noaq to luaikuq da.": Word{Word: "cho ji to ru noaq to luaikuq da.", Def: "(A0423) I like to both read and tell jokes.", By: "examples", Score: 0}, "cho jia liqho rua.": Word{Word: "cho jia liqho rua.", Def: "(ADV.5) She will like the flower.", By: "official", Score: 0}, "cho naqho nao pu.": Word{Word: "cho naqho nao pu.", Def: "(ADV.6) He liked the water.", By: "official", Score: 0}, "cho suq hi giaq moq.": Word{Word: "cho suq hi giaq moq.", Def: "(A0095) What music do you like?", By: "examples", Score: 0}, "cho suq hi reo moq.": Word{Word: "cho suq hi reo moq.", Def: "(A0730) Which color do you like?", By: "examples", Score: 0}, "choa": Word{Word: "choa", Def: "chỏq dóshī sa pó dóshī ga bủq lâq dógū da", By: "uakci", Score: 0}, "choa suq dia laqcai ba.": Word{Word: "choa suq dia laqcai ba.", Def: "(A0583) Talk less loudly.", By: "examples", Score: 0}, "choa suq jeaq meoq ba.": Word{Word: "choa suq jeaq meoq ba.", Def: "(A0584) Talk more slowly.", By: "examples", Score: 0}, "choaboq": Word{Word: "choaboq", Def: "▯ is a consonant", By: "seaqtaq", Score: 0}, "choacha": Word{Word: "choacha", Def: "(fork of #5Nw1t8LlS) ▯ is phonotation (phonetics)", By: "seaqtaq", Score: 0}, "choacia": Word{Word: "choacia", Def: "▯ is dumbfounded, unable to speak.", By: "uakci", Score: 0}, "choadeoq": Word{Word: "choadeoq", Def: "predicate: ‘talk’; ▯ talks to ▯.", By: "official", Score: 0}, "choadeq": Word{Word: "choadeq", Def: "(fork of #bCR9LN-E5) utterable, ▯ is able to utter ▯", By: "brunofrancosalamin", Score: 0}, "choai": Word{Word: "choai", Def: "predicate: ‘cost’; ▯ costs ▯.", By: "official", Score: 0}, "choaijaq": Word{Word: "choaijaq", Def: "▯ is expensive", By: "seaqtaq", Score: 0}, "choaijaq ni haq da.": Word{Word: "choaijaq ni haq da.", Def: "(A0117) This food is expensive.", By: "examples", Score: 0}, "choaikeo": Word{Word: "choaikeo", Def: "▯ is worth being the case despite its corollary cost ▯; ▯ has ▯ as worth of doing despite the cost of having to ▯ also.", By: "uakci", Score: 2}, "choaisia": Word{Word: "choaisia", Def: "▯ is free", By: "seaqtaq", Score: 0}, "choaituao": Word{Word: "choaituao", Def: "▯ is cheap.", By: "Xeizzen", Score: 0}, "choaituao maq da.": Word{Word: "choaituao maq da.", Def: "(A0120) It's cheap.", By: "examples", Score: 0}, "choakao": Word{Word: "choakao", Def: "▯ is a voice recording.", By: "Ilmen", Score: 0}, "choakiu": Word{Word: "choakiu", Def: "(fork of #Cv0I8W1nM) (fork of #bCR9LN-E5) utterable, ▯ is able to utter ▯", By: "brunofrancosalamin", Score: 0}, "choakuq": Word{Word: "choakuq", Def: "▯ says vocally ▯ to ▯.", By: "Ilmen", Score: 0}, "choakuq suq sa rai no hiqlitoaq ba.": Word{Word: "choakuq suq sa rai no hiqlitoaq ba.", Def: "(A0484) Say something in english.", By: "examples", Score: 0}, "choakuqse": Word{Word: "choakuqse", Def: "▯ is a voice message", By: "seaqtaq", Score: 0}, "choakuqtoai": Word{Word: "choakuqtoai", Def: "phoneme", By: "spreadsheet", Score: 0}, "choalaq": Word{Word: "choalaq", Def: "predicate: ‘voice’; ▯ is a voice.", By: "official", Score: 0}, "choao": Word{Word: "choao", Def: "▯ is a cube/cuboid/box/voxel; ▯ is of the shape of a cuboid.", By: "uakci", Score: 0}, "choapoa": Word{Word: "choapoa", Def: "▯ is a consonant", By: "seaqtaq", Score: 0}, "choaq": Word{Word: "choaq", Def: "predicate: ‘guest’; ▯ is a guest; ▯ is a guest of ▯.", By: "official", Score: 0}, "choaqcho": Word{Word: "choaqcho", Def: "▯ shows hospitality towards ▯.", By: "uakci", Score: 0}, "choaqfa": Word{Word: "choaqfa", Def: "visit", By: "spreadsheet", Score: 0}, "choaqfa ho rao pujoa ji da.": Word{Word: "choaqfa ho rao pujoa ji da.", Def: "(A0182) He visited me last week.", By: "examples", Score: 0}, "choaqfa saqchio pu ji faraqse da.": Word{Word: "choaqfa saqchio pu ji faraqse da.", Def: "(A0330) ", By: "examples", Score: 0}, "choaqhio": Word{Word: "choaqhio", Def: "▯ welcomes ▯.", By: "Ilmen", Score: 0}, "choaqjio": Word{Word: "choaqjio", Def: "predicate: ‘hotel’; ▯ is a hotel/guesthouse.", By: "official", Score: 0}, "choaqjuq": Word{Word: "choaqjuq", Def: "▯ has guest(s) ▯; ▯ entertains ▯; ▯ is a host (for ▯).", By: "uakci", Score: 0}, "choaqsue": Word{Word: "choaqsue", Def: "invite", By: "spreadsheet", Score: 0}, "choaria": Word{Word: "choaria", Def: "▯ is a vowel", By: "seaqtaq", Score: 0}, "choase": Word{Word: "choase", Def: "▯ is an utterance", By: "seaqtaq", Score: 0}, "choashuo": Word{Word: "choashuo", Def: "(fork of #dQxpjhrbo) ▯ is a phonetic inventory", By: "seaqtaq", Score: 0}, "choasia": Word{Word: "choasia", Def: "predicate: ‘say.nothing.’; ▯ says nothing / is silent.", By: "Ilmen", Score: 0}, "choatoai": Word{Word: "choatoai", Def: "vocal sound", By: "spreadsheet", Score: 0}, "choatoaq": Word{Word: "choatoaq", Def: "▯ is a spoken language.", By: "lynn", Score: 0}, "chodie": Word{Word: "chodie", Def: "▯ recommends to ▯ ▯; ▯ gives to ▯ recommendation for thing ▯; ▯ suggests that ▯ like ▯.", By: "uakci", Score: 0}, "choe": Word{Word: "choe", Def: "predicate: ‘until’; ▯ takes place until ▯.", By: "official", Score: 0}, "choe tîshue ji na roaijue da.": Word{Word: "choe tîshue ji na roaijue da.", Def: "(A0153) My stay lasts until August.", By: "examples", Score: 0}, "choechio": Word{Word: "choechio", Def: "▯ repeats until ▯ is the case.", By: "Ilmen", Score: 1}, "choi": Word{Word: "choi", Def: "predicate: ‘sharp’; ▯ is sharp.", By: "official", Score: 0}, "choibeq": Word{Word: "choibeq", Def: "predicate: ‘thorn’; ▯ is a thorn.", By: "official", Score: 0}, "choiceaq": Word{Word: "choiceaq", Def: "▯ is a claw/talon.", By: "Ilmen", Score: 0}, "choicia": Word{Word: "choicia", Def: "(fork of #bkT5bqnBQ) ▯ is dull", By: "seaqtaq", Score: 0}, "choidea": Word{Word: "choidea", Def: "▯ (not necessarily agentive) stabs ▯.", By: "Ilmen", Score: 0}, "choigiu": Word{Word: "choigiu", Def: "▯ is a sharp edge.", By: "Ilmen", Score: 0}, "choigoai": Word{Word: "choigoai", Def: "▯ scratches ▯ (not necessarily leaving a visible cut or notch).", By: "Ilmen", Score: 0}, "choigue": Word{Word: "choigue", Def: "▯ is a hook.", By: "Ilmen", Score: -1}, "choihiao": Word{Word: "choihiao", Def: "▯ stings ▯.", By: "Ilmen", Score: 0}, "choihua": Word{Word: "choihua", Def: "horn / jirna", By: "spreadsheet", Score: 0}, "choinioq": Word{Word: "choinioq", Def: "▯ is a canine teeth/cuspid/fang.", By: "Ilmen", Score: 0}, "choipeo": Word{Word: "choipeo", Def: "▯ pierces ▯.", By: "Ilmen", Score: 0}, "choisai": Word{Word: "choisai", Def: "▯ is an acid.", By: "Ilmen", Score: 0}, "choishoai": Word{Word: "choishoai", Def: "▯ is a hawk belonging to the Accipiter genus.", By: "Ilmen", Score: 0}, "choishoaisiu": Word{Word: "choishoaisiu", Def: "▯ is a bird of prey; ▯ belongs to the Accipitridae taxonomic family.", By: "Ilmen", Score: 0}, "choisoe": Word{Word: "choisoe", Def: "▯ is acid.", By: "Ilmen", Score: 0}, "choko": Word{Word: "choko", Def: "chocolate", By: "spreadsheet", Score: 0}, "chokola": Word{Word: "chokola", Def: "chocolate", By: "spreadsheet", Score: 0}, "chokolate": Word{Word: "chokolate", Def: "chocolate", By: "spreadsheet", Score: 0}, "choq": Word{Word: "choq", Def: "cả tâo dóshī sa lú rảq hóa dógū na na jêaq fủı dósāq dóshī da", By: "uakci", Score: 0}, "choq go ni cha hi rai moq.": Word{Word: "choq go ni cha hi rai moq.", Def: "(A0433) How to use this?", By: "examples", Score: 0}, "choq ji sa piano ru sa gita da.": Word{Word: "choq ji sa piano ru sa gita da.", Def: "(A0340) I use a piano and a guitar.", By: "examples", Score: 0}, "choqchua": Word{Word: "choqchua", Def: "▯ is a username", By: "seaqtaq", Score: 0}, "choqgi": Word{Word: "choqgi", Def: "predicate: ‘useful’; ▯ is useful for doing ▯.", By: "official", Score: 0}, "choqgi hoi joemu da.": Word{Word: "choqgi hoi joemu da.", Def: "phrase: \"That skill is useful.\"", By: "official", Score: 0}, "choqhui": Word{Word: "choqhui", Def: "predicate: ‘useless’; ▯ is useless/inconvenient for doing ▯.", By: "official", Score: 0}, "choqkiu": Word{Word: "choqkiu", Def: "▯ is available; ▯ is available for being or doing ▯.", By: "Ilmen", Score: 0}, "choqmia": Word{Word: "choqmia", Def: "▯ is versatile", By: "seaqtaq", Score: 0}, "choqtiao": Word{Word: "choqtiao", Def: "predicate: ‘usable’; ▯ is useful for doing ▯", By: "seaqtaq", Score: 1}, "chorakeniai": Word{Word: "chorakeniai", Def: "crocodilia", By: "spreadsheet", Score: 0}, "chosoq": Word{Word: "chosoq", Def: "predicate: ‘favourite’; ▯ is the favourite of ▯ among ▯.", By: "official", Score: 0}, "chosoq ji jue saqjue": Word{Word: "chosoq ji jue saqjue", Def: "(A0143) I like the month that is March the most.", By: "examples", Score: 0}, "chosoqgaokorea": Word{Word: "chosoqgaokorea", Def: "▯ pertains to the culture of North Korea → Korea, North.", By: "countries", Score: 0}, "chosoqgaokoreagua": Word{Word: "chosoqgaokoreagua", Def: "▯ is the country North Korea → Korea, North.", By: "countries", Score: 0}, "chosoqgaokoreatoaq": Word{Word: "chosoqgaokoreatoaq", Def: "▯ is (one of) the language(s) spoken in North Korea → Korea, North.", By: "countries", Score: 0}, "chou": Word{Word: "chou", Def: "▯ is cabbage.", By: "uakci", Score: 0}, "chu": Word{Word: "chu", Def: "predicate: ‘middle’; ▯ is a middle; ▯ is the middle of ▯.", By: "official", Score: 0}, "chua": Word{Word: "chua", Def: "tủq dógū lî lảı dóshī ja dó da", By: "uakci", Score: 0}, "chua hi rai ni moq.": Word{Word: "chua hi rai ni moq.", Def: "(A0039) What is the name of this?", By: "examples", Score: 0}, "chua hi rai suq moq.": Word{Word: "chua hi rai suq moq.", Def: "(A0038) What is your name?", By: "examples", Score: 0}, "chuabeo": Word{Word: "chuabeo", Def: "▯ changes their name to be ▯", By: "seaqtaq", Score: 0}, "chuabo": Word{Word: "chuabo", Def: "▯ is called ▯.", By: "Ilmen", Score: 0}, "chuadoa": Word{Word: "chuadoa", Def: "predicate: ‘name’; ▯ names/calls ▯ name ▯.", By: "official", Score: 0}, "chuai": Word{Word: "chuai", Def: "solid", By: "spreadsheet", Score: 0}, "chuaihiao": Word{Word: "chuaihiao", Def: "▯ ice-burns ▯", By: "seaqtaq", Score: 0}, "chuaikea": Word{Word: "chuaikea", Def: "predicate: ‘freezer’; ▯ is a freezer.", By: "official", Score: 0}, "chuainao": Word{Word: "chuainao", Def: "predicate: ‘ice’; ▯ is ice (frozen water).", By: "official", Score: 0}, "chuairuq": Word{Word: "chuairuq", Def: "predicate: ‘hail’; ▯ is hail.", By: "official", Score: 0}, "chuairuqshua": Word{Word: "chuairuqshua", Def: "predicate: ‘hail’; It hails; ▯ hails; ▯ hails onto ▯.", By: "official", Score: 0}, "chuairuqshua.": Word{Word: "chuairuqshua.", Def: "phrase: \"It's hailing.\"", By: "official", Score: 0}, "chuaishai": Word{Word: "chuaishai", Def: "melt", By: "spreadsheet", Score: 0}, "chuajoe": Word{Word: "chuajoe", Def: "▯ has title ▯ in field ▯; ▯ is certified with honorary affix ▯ to have gained expertise on subject ▯/1.", By: "uakci", Score: 0}, "chuakai": Word{Word: "chuakai", Def: "▯ signs/writes their signature ▯ on ▯", By: "seaqtaq", Score: 0}, "chuao": Word{Word: "chuao", Def: "hole", By: "spreadsheet", Score: 0}, "chuaotie": Word{Word: "chuaotie", Def: "predicate: ‘window cover’; ▯ is a window cover.", By: "official", Score: 0}, "chuaq": Word{Word: "chuaq", Def: "predicate: ‘ism’; ▯ is a tendency of behaviour, action, state, condition or opinion belonging to a class or group of persons, or the result of a doctrine, ideology or principle or lack thereof; ▯ is an ideology based on concept ▯; ▯ is an ism; ▯ is an ▯-ism.", By: "official", Score: 0}, "chuaq jiureai": Word{Word: "chuaq jiureai", Def: "(fork of #xwo4kqGnR) ▯ is antinatalism", By: "seaqtaq", Score: 0}, "chuaq jiusoiheo": Word{Word: "chuaq jiusoiheo", Def: "▯ is antinatalism", By: "seaqtaq", Score: 0}, "chuaqraq": Word{Word: "chuaqraq", Def: "▯ is ▯-istic; ▯ displays properties of the ideology ▯ (= chuaq.2).", By: "uakci", Score: 0}, "chuaqshi": Word{Word: "chuaqshi", Def: "▯ are united in ideology ▯", By: "seaqtaq", Score: 0}, "chuchaq": Word{Word: "chuchaq", Def: "Wednesday", By: "uakci", Score: 0}, "chuche": Word{Word: "chuche", Def: "▯ armchairly satisfies property ▯; ▯ is not really a professional and potentially merely an enthusiast and/or doesn't have formal education to satisfy property ▯", By: "seaqtaq", Score: 0}, "chuchua": Word{Word: "chuchua", Def: "▯ is a middle name", By: "seaqtaq", Score: 0}, "chudari": Word{Word: "chudari", Def: "kernel", By: "spreadsheet", Score: -1}, "chue": Word{Word: "chue", Def: "predicate: ‘train’; ▯ is a train/caravan/succession.", By: "official", Score: 0}, "chuece": Word{Word: "chuece", Def: "predicate: ‘train.station’; ▯ is a train station.", By: "official", Score: 0}, "chufaq": Word{Word: "chufaq", Def: "predicate: ‘-ing’; ▯ is ongoing; ▯ is in the middle of taking place; ▯ is ▯ing.", By: "official", Score: 0}, "chufaq bi nuo bebe da.": Word{Word: "chufaq bi nuo bebe da.", Def: "(A0029) The baby is sleeping.", By: "examples", Score: 0}, "chufaq chietao ho da.": Word{Word: "chufaq chietao ho da.", Def: "(A0731) He is studying now.", By: "examples", Score: 0}, "chufaq fa ji jeariaq da.": Word{Word: "chufaq fa ji jeariaq da.", Def: "(A0073) I am going to the store.", By: "examples", Score: 0}, "chufaq jiai ho sa shamu da.": Word{Word: "chufaq jiai ho sa shamu da.", Def: "(A0175) He is reaching for an apple.", By: "examples", Score: 0}, "chufaq joepoi lao ji": Word{Word: "chufaq joepoi lao ji", Def: "(B0043) I am patiently waiting", By: "examples", Score: 0}, "chufaq lao ho tisho puichao da.": Word{Word: "chufaq lao ho tisho puichao da.", Def: "(A0541) He is waiting for the bus to arrive.", By: "examples", Score: 0}, "chufaq lao suq hi rai moq.": Word{Word: "chufaq lao suq hi rai moq.", Def: "(A0256) What are you waiting for?", By: "examples", Score: 0}, "chufaq mieq ji ne buai ja rai toqfua da.": Word{Word: "chufaq mieq ji ne buai ja rai toqfua da.", Def: "(A0585) I'm measuring the length of the table.", By: "examples", Score: 0}, "chufaq mieq ne buai ji toqfua da.": Word{Word: "chufaq mieq ne buai ji toqfua da.", Def: "(A0586) I'm measuring the length of the table.", By: "examples", Score: 0}, "chufaq peo ho sahara ga neaqguaq da.": Word{Word: "chufaq peo ho sahara ga neaqguaq da.", Def: "(A0218) He is passing through the Sahara desert.", By: "examples", Score: 0}, "chufaq ti ho sa biajio da.": Word{Word: "chufaq ti ho sa biajio da.", Def: "(A0019) He is staying at some hospital.", By: "examples", Score: 0}, "chufaqkuq": Word{Word: "chufaqkuq", Def: "▯ interrupts ▯ (person) to say ▯", By: "fagri", Score: 0}, "chuhuaq": Word{Word: "chuhuaq", Def: "▯ is greater than the median among ▯ when sorted on the scale ▯ (property).", By: "Ilmen", Score: 0}, "chui": Word{Word: "chui", Def: "pủı sa tủq lủ shủı dóshī hoa da", By: "uakci", Score: 0}, "chuichuq": Word{Word: "chuichuq", Def: "▯ eats breakfast", By: "seaqtaq", Score: 0}, "chuifeo": Word{Word: "chuifeo", Def: "east  (CHUIFEO)", By: "spreadsheet", Score: 0}, "chuihaq": Word{Word: "chuihaq", Def: "predicate: ‘breakfast’; ▯ is breakfast.", By: "official", Score: 0}, "chuilio": Word{Word: "chuilio", Def: "▯ is the north (direction).", By: "Ilmen", Score: 0}, "chuiriao": Word{Word: "chuiriao", Def: "predicate: ‘dawn’; ▯ is dawn.", By: "official", Score: 0}, "chuisiaq": Word{Word: "chuisiaq", Def: "south (direction)", By: "spreadsheet", Score: 0}, "chujiurioq": Word{Word: "chujiurioq", Def: "▯ is intersex", By: "seaqtaq", Score: 0}, "chukuq": Word{Word: "chukuq", Def: "▯ mediates between/among ▯.", By: "Hoemai", Score: 0}, "chuo": Word{Word: "chuo", Def: "dảı chôq sa ráı dóshī lî sa dó bı tủa ja ráı jẻo dó dógū da", By: "uakci", Score: 0}, "chuo joai maigeq": Word{Word: "chuo joai maigeq", Def: "▯ is a dating app.", By: "uakci", Score: 0}, "chuo ni hi rai moq.": Word{Word: "chuo ni hi rai moq.", Def: "(A0432) What is this used for?", By: "examples", Score: 0}, "chuo taq joai maigeq": Word{Word: "chuo taq joai maigeq", Def: "▯ is a dating app.", By: "uakci", Score: 0}, "chuocha": Word{Word: "chuocha", Def: "chỏq sa ráı dógū lî tủa ja dó dóshī da", By: "uakci", Score: 0}, "chuochoq": Word{Word: "chuochoq", Def: "▯ uses tool ▯ for its intended purpose.", By: "Ilmen", Score: 0}, "chuodoe": Word{Word: "chuodoe", Def: "function (perfom its purpose), is (turned) on", By: "spreadsheet", Score: 0}, "chuoi": Word{Word: "chuoi", Def: "▯ is a thread/rope/cord/string.", By: "Ilmen", Score: 0}, "chuoiniu": Word{Word: "chuoiniu", Def: "▯ is a vine/climber (climbing or trailing plant).", By: "Ilmen", Score: 0}, "chuomia": Word{Word: "chuomia", Def: "▯ is versatile", By: "seaqtaq", Score: 0}, "chuomu": Word{Word: "chuomu", Def: "purpose (indended function)", By: "spreadsheet", Score: 0}, "chuq": Word{Word: "chuq", Def: "tảo dóshī sa lú to ru shỏ nỉe jòı hóa dógū dóshī to cả hóa dâı chỏq dóshī dógū dâı dủoı mỉe dóshī da", By: "uakci", Score: 0}, "chuq ho baq chuihaq rao baq diosiao da.": Word{Word: "chuq ho baq chuihaq rao baq diosiao da.", Def: "(A0063) He eats breakfast in the morning.", By: "examples", Score: 0}, "chuq ho ku shamu da": Word{Word: "chuq ho ku shamu da", Def: "(A0477) It's an apple that he ate.", By: "examples", Score: 0}, "chuq ho sa shi shamu da.": Word{Word: "chuq ho sa shi shamu da.", Def: "(A0542) He eats an apple.", By: "examples", Score: 0}, "chuq ji choko.": Word{Word: "chuq ji choko.", Def: "(PRD.1) I am eating chocolate.", By: "official", Score: 0}, "chuq ji nijui na ru chuq suq nijao.": Word{Word: "chuq ji nijui na ru chuq suq nijao.", Def: "(TER.2) I eat this and you eat that.", By: "official", Score: 0}, "chuq ji rao nichaq sa cie da.": Word{Word: "chuq ji rao nichaq sa cie da.", Def: "(A0025) I ate some fish today.", By: "examples", Score: 0}, "chuq ji.": Word{Word: "chuq ji.", Def: "(PRD.2) I am eating.", By: "official", Score: 0}, "chuq to ru ji nijui to suq nijao.": Word{Word: "chuq to ru ji nijui to suq nijao.", Def: "(TER.1) I eat this and you that.", By: "official", Score: 0}, "chuqbeaq": Word{Word: "chuqbeaq", Def: "▯ are chopsticks.", By: "lynn", Score: 0}, "chuqchuo": Word{Word: "chuqchuo", Def: "cutlery", By: "spreadsheet", Score: 0}, "chuqdere": Word{Word: "chuqdere", Def: "▯ is obsessed with eating.", By: "uakci", Score: 0}, "chuqgi": Word{Word: "chuqgi", Def: "▯ is edible.", By: "uakci", Score: 0}, "chuqgiq": Word{Word: "chuqgiq", Def: "vomit", By: "spreadsheet", Score: 0}, "chuqgiqkuai": Word{Word: "chuqgiqkuai", Def: "nausea", By: "spreadsheet", Score: 0}, "chuqguao": Word{Word: "chuqguao", Def: "predicate: ‘fork’; ▯ is a fork.", By: "official", Score: 0}, "chuqguq": Word{Word: "chuqguq", Def: "▯ is a chungus (a very fat animal)", By: "fagri", Score: 0}, "chuqjeariaq": Word{Word: "chuqjeariaq", Def: "restaurant", By: "spreadsheet", Score: 0}, "chuqjuao": Word{Word: "chuqjuao", Def: "▯ is a diet", By: "seaqtaq", Score: 1}, "chuqkua": Word{Word: "chuqkua", Def: "▯ is a dining room", By: "seaqtaq", Score: 0}, "chuqkuai": Word{Word: "chuqkuai", Def: "predicate: ‘hungry’; ▯ is hungry.", By: "official", Score: 0}, "chuqmuaq(sho)": Word{Word: "chuqmuaq(sho)", Def: "▯ dies from starvation ▯", By: "seaqtaq", Score: 0}, "chuqroe": Word{Word: "chuqroe", Def: "▯ is healthy to eat.", By: "uakci", Score: 0}, "chuqtiao": Word{Word: "chuqtiao", Def: "predicate: ‘edible’; ▯ is edible.", By: "official", Score: 0}, "churie": Word{Word: "churie", Def: "▯ is halfway between point ▯ and point ▯.", By: "uakci", Score: 0}, "churiohua": Word{Word: "churiohua", Def: "▯ is a diaphragm", By: "seaqtaq", Score: 0}, "churioq": Word{Word: "churioq", Def: "▯ is a hybrid ▯", By: "seaqtaq", Score: 0}, "chuseaqrioq": Word{Word: "chuseaqrioq", Def: "▯ is gender-neutral", By: "fagri", Score: 0}, "chuti": Word{Word: "chuti", Def: "▯ is in the middle of ▯", By: "seaqtaq", Score: 0}, "ci": Word{Word: "ci", Def: "predicate: ‘six’; ▯ are six in number.", By: "official", Score: 0}, "ci poq ti chiejio da. ": Word{Word: "ci poq ti chiejio da. ", Def: "(A0368) There are five people at school.", By: "examples", Score: 0}, "cia": Word{Word: "cia", Def: "bủ dóshī dógū fãq ru hũı da", By: "uakci", Score: 0}, "ciacheo": Word{Word: "ciacheo", Def: "▯ complements ▯ in propertie(s) ▯; ▯ has, but ▯ hasn’t – or has to an insufficient extent – propertie(s) ▯.", By: "uakci", Score: 0}, "ciao": Word{Word: "ciao", Def: "▯ is a culture entailing activities ▯.", By: "uakci", Score: 1}, "ciaojie": Word{Word: "ciaojie", Def: "▯ is a mythological or stereotypical fact of culture ▯.", By: "uakci", Score: 0}, "ciaopaq": Word{Word: "ciaopaq", Def: "▯ is a meme; ▯ is lore of culture ▯.", By: "uakci", Score: 0}, "cie": Word{Word: "cie", Def: "predicate: ‘fish’; ▯ is a fish.", By: "official", Score: 0}, "ciechuq": Word{Word: "ciechuq", Def: "▯ is a pescatarian", By: "seaqtaq", Score: 0}, "ciejuku": Word{Word: "ciejuku", Def: "fish (v)", By: "spreadsheet", Score: 0}, "ciepoq": Word{Word: "ciepoq", Def: "▯ is half-fish, half-human (a non-gender-specific mermaid)", By: "fagri", Score: 0}, "ciereq": Word{Word: "ciereq", Def: "▯ is a merfolk / merperson.", By: "lynn", Score: 1}, "cifujuao": Word{Word: "cifujuao", Def: "▯ is Zipf's law.", By: "Ilmen", Score: 1}, "cihea": Word{Word: "cihea", Def: "▯ is a die, a dice, dice.", By: "uakci", Score: 0}, "cijieq": Word{Word: "cijieq", Def: "▯ is a hexagone.", By: "Ilmen", Score: 0}, "cijue": Word{Word: "cijue", Def: "▯ is June", By: "lynn", Score: 1}, "ciko": Word{Word: "ciko", Def: "predicate: ‘sixth’; ▯ is sixth among ▯.", By: "official", Score: 0}, "cilaqtei": Word{Word: "cilaqtei", Def: "▯ is the sixth tone (low).", By: "lynn", Score: 0}, "cineicheo": Word{Word: "cineicheo", Def: "▯ (plural) do 69 (sex position).", By: "Hoemai", Score: 1}, "cio": Word{Word: "cio", Def: "pủjūı to ru shảı dẻo to cẻo kỏaq dóshī da", By: "uakci", Score: 0}, "cioi": Word{Word: "cioi", Def: "▯ cooks ▯; ▯ prepares ▯ by means of a series of short-term processes (mostly heating, but also: combining ingredients, mixing, applying physical transformations such as chopping, dicing and others, whipping, …).", By: "uakci", Score: 0}, "cioibeaq": Word{Word: "cioibeaq", Def: "(fork of #k-WhFouNm) ▯ is a mortar\u00a0", By: "seaqtaq", Score: 0}, "cioikea": Word{Word: "cioikea", Def: "▯ is an oven/microwave; ▯ is any apparatus aiding in cooking", By: "seaqtaq", Score: 0}, "ciokoaq": Word{Word: "ciokoaq", Def: "▯ is a young adult.", By: "uakci", Score: 0}, "cipue": Word{Word: "cipue", Def: "▯ is a member of subphylum Hexapoda (the six legged arthropods).", By: "Hoemai", Score: 0}, "ciq": Word{Word: "ciq", Def: "▯ is done/acted out in a way similar to/reminiscent of all ▯s.", By: "uakci", Score: -1}, "ciqpeqji": Word{Word: "ciqpeqji", Def: "▯ is a chimpanzee.", By: "Ilmen", Score: 0}, "cishiaq": Word{Word: "cishiaq", Def: "insect/bug (CHIQ)", By: "spreadsheet", Score: 0}, "citoq": Word{Word: "citoq", Def: "▯ is a cube.", By: "Ilmen", Score: 1}, "ciu": Word{Word: "ciu", Def: "tủa dóshī lû to ru pẻo dógū sa gúoq pỏ dóshī to bủı dógū dóshī ceı, na ru lủı nủa sa túaı pỏ dóshī lî hẻq ja dó sa háq na dógū da", By: "uakci", Score: 0}, "ciuchia": Word{Word: "ciuchia", Def: "need to excrete", By: "spreadsheet", Score: 0}, "ciukuai": Word{Word: "ciukuai", Def: "need to excrete", By: "spreadsheet", Score: 0}, "ciuriaq": Word{Word: "ciuriaq", Def: "predicate: ‘toilet’; ▯ is a toilet.", By: "official", Score: 0}, "ciuriaq ti hi rai moq": Word{Word: "ciuriaq ti hi rai moq", Def: "(A0031) Where is there a toilet?", By: "examples", Score: 0}, "ciuse": Word{Word: "ciuse", Def: "predicate: ‘excretion’; ▯ is an excretion.", By: "official", Score: 0}, "co": Word{Word: "co", Def: "quantifier: ‘how.many’; quantifier: how many", By: "official", Score: 0}, "co rai pa mu raqdua suq moq": Word{Word: "co rai pa mu raqdua suq moq", Def: "(A0579) How much do you know?", By: "examples", Score: 0}, "coa": Word{Word: "coa", Def: "predicate: ‘bridge’; ▯ is a bridge.", By: "official", Score: 0}, "coai": Word{Word: "coai", Def: "▯ pulls ▯.", By: "uakci", Score: 0}, "coaq": Word{Word: "coaq", Def: "predicate: ‘tamed’; ▯ is tame/domesticated.", By: "official", Score: 0}, "coaqbariqci": Word{Word: "coaqbariqci", Def: "▯ is rice (Oryza sativa).", By: "Ilmen", Score: 0}, "coaqluko": Word{Word: "coaqluko", Def: "▯ is a dog (canis lupus familiaris).", By: "Ilmen", Score: 0}, "coe": Word{Word: "coe", Def: "sa dó bı, fủo dóshī dó, na ru fủo dó dógū da (kıo dảı mêajēq dóshī ra dógū dó kı)", By: "uakci", Score: 0}, "coebui": Word{Word: "coebui", Def: "▯ is offline from ▯.", By: "uakci", Score: 0}, "coechu": Word{Word: "coechu", Def: "▯ is enduring a connection with ▯; ▯ is online.", By: "uakci", Score: 0}, "coechuopue": Word{Word: "coechuopue", Def: "arthropod", By: "spreadsheet", Score: 0}, "coeguaq": Word{Word: "coeguaq", Def: "▯ pertains to the culture of United Kingdom – United Kingdom of Great Britain and Northern Ireland.", By: "countries", Score: 0}, "coeguaqgua": Word{Word: "coeguaqgua", Def: "▯ is the country United Kingdom – United Kingdom of Great Britain and Northern Ireland.", By: "countries", Score: 0}, "coeguaqtoaq": Word{Word: "coeguaqtoaq", Def: "▯ is (one of) the language(s) spoken in United Kingdom – United Kingdom of Great Britain and Northern Ireland.", By: "countries", Score: 0}, "coejaq": Word{Word: "coejaq", Def: "stick(y)", By: "spreadsheet", Score: 0}, "coesai": Word{Word: "coesai", Def: "▯ is glue.", By: "Ilmen", Score: 0}, "coetano": Word{Word: "coetano", Def: "▯ is clay.", By: "Ilmen", Score: 0}, "coetoa": Word{Word: "coetoa", Def: "conjunction", By: "spreadsheet", Score: 0}, "coetua": Word{Word: "coetua", Def: "predicate: ‘join’; ▯ joins ▯ with ▯.", By: "official", Score: 0}, "coi": Word{Word: "coi", Def: "▯ is a thing; ▯ is something (restricted to concrete, three-dimensional (ourworldly) objects).", By: "uakci", Score: 0}, "colijeo": Word{Word: "colijeo", Def: "▯ is a piecewise predicate which, depending on the arity, expands to one of the following predicates with the matching arity.", By: "uakci", Score: 0}, "comoq": Word{Word: "comoq", Def: "▯ is a ‘co… moq’ question.", By: "uakci", Score: 0}, "copoi": Word{Word: "copoi", Def: "▯ is an event in which how many are the x1?", By: "seaqtaq", Score: 0}, "coq": Word{Word: "coq", Def: "▯ is empty; ▯ is zero in cardinality.", By: "uakci", Score: 0}, "cotoa": Word{Word: "cotoa", Def: "▯ is a quantifier.", By: "Ilmen", Score: 0}, "cu": Word{Word: "cu", Def: "linking word: ‘3rd.place’; linking word: 3rd argument place", By: "official", Score: 0}, "cua": Word{Word: "cua", Def: "tảo dóshī dósāq kùı tâq gảı dóshī dógū da", By: "uakci", Score: 0}, "cuaboq": Word{Word: "cuaboq", Def: "▯ mutes ▯", By: "seaqtaq", Score: 0}, "cuai": Word{Word: "cuai", Def: "predicate: ‘wet’; ▯ is wet.", By: "official", Score: 0}, "cuaichoatoai": Word{Word: "cuaichoatoai", Def: "▯ is a liquid (phonetics)", By: "seaqtaq", Score: 0}, "cuaishiqhua": Word{Word: "cuaishiqhua", Def: "▯ is a rhinarium / nose leather.", By: "Ilmen", Score: 0}, "cuakuq": Word{Word: "cuakuq", Def: "predicate: ‘respond’; ▯ responds ▯ to ▯.", By: "official", Score: 0}, "cuakuqkuai": Word{Word: "cuakuqkuai", Def: "▯ is hungry for comments about ▯.", By: "Ilmen", Score: 0}, "cuakuqse": Word{Word: "cuakuqse", Def: "▯ is a response.", By: "lynn", Score: 0}, "cuao": Word{Word: "cuao", Def: "predicate: ‘beyond’; ▯ is beyond ▯ in property ▯.", By: "official", Score: 0}, "cuaq": Word{Word: "cuaq", Def: "predicate, selbri", By: "spreadsheet", Score: 0}, "cuaq de": Word{Word: "cuaq de", Def: "argument phrase: \"the concept of beauty\"", By: "official", Score: 0}, "cuaq mie": Word{Word: "cuaq mie", Def: "▯ is the concept of life.", By: "lynn", Score: 0}, "cuaq muaq": Word{Word: "cuaq muaq", Def: "▯ is the concept of death.", By: "lynn", Score: 0}, "cuaq req hi rai moq": Word{Word: "cuaq req hi rai moq", Def: "(A0499) What is it to be human?", By: "examples", Score: 0}, "cuaq roe": Word{Word: "cuaq roe", Def: "health (healthiness)", By: "spreadsheet", Score: 0}, "cuaq tao luai": Word{Word: "cuaq tao luai", Def: "humor", By: "spreadsheet", Score: 0}, "cuaqjie": Word{Word: "cuaqjie", Def: "Ithkuil's Interpretative Case: X (abstract) is the interpretation of Y as seen by Z", By: "spreadsheet", Score: 0}, "cuaqko": Word{Word: "cuaqko", Def: "argument, sumti (X satisfies the Y-th slot of predicate Z)", By: "spreadsheet", Score: 0}, "cuaqkotoa": Word{Word: "cuaqkotoa", Def: "▯ is a noun.", By: "Ilmen", Score: 0}, "cuaqtoa": Word{Word: "cuaqtoa", Def: "verb", By: "spreadsheet", Score: 0}, "cuataq": Word{Word: "cuataq", Def: "▯ answers their own question ▯.", By: "uakci", Score: 0}, "cuataqteoqkuq": Word{Word: "cuataqteoqkuq", Def: "▯ asks question ▯ to ▯, despite the fact that they already know the answer.", By: "uakci", Score: 0}, "cue": Word{Word: "cue", Def: "predicate: ‘reign’; ▯ reigns over ▯.", By: "official", Score: 0}, "cuediu": Word{Word: "cuediu", Def: "▯ is politics.", By: "Ilmen", Score: 0}, "cuefuai": Word{Word: "cuefuai", Def: "predicate: ‘government’; ▯ is a government; ▯ is a government of ▯.", By: "official", Score: 0}, "cueq": Word{Word: "cueq", Def: "▯ is public.", By: "uakci", Score: 0}, "cuetaq": Word{Word: "cuetaq", Def: "▯ is sovereign (said of a political entity, possibly as small as one person)", By: "fagri", Score: 1}, "cuga": Word{Word: "cuga", Def: "▯ is a hemlock tree.", By: "Hoemai", Score: 0}, "cui": Word{Word: "cui", Def: "predicate: ‘magenta’; ▯ is the colour magenta.", By: "official", Score: 0}, "cuireo": Word{Word: "cuireo", Def: "predicate: ‘magenta’; ▯ is magenta-coloured.", By: "official", Score: 0}, "cuka": Word{Word: "cuka", Def: "throw", By: "spreadsheet", Score: 0}, "cukague": Word{Word: "cukague", Def: "bow, weapon", By: "spreadsheet", Score: 0}, "cukapoaq": Word{Word: "cukapoaq", Def: "▯ explodes.", By: "Ilmen", Score: 0}, "cukataq": Word{Word: "cukataq", Def: "jump", By: "spreadsheet", Score: 0}, "cuki": Word{Word: "cuki", Def: "▯ nods", By: "fagri", Score: 0}, "cunami": Word{Word: "cunami", Def: "▯ is a tsunami.", By: "Ilmen", Score: 0}, "cuo": Word{Word: "cuo", Def: "bủ dủa dóshī câ hı ráı dûaı jẻo dógū na na, na ru mỉu dóshī dógū da", By: "uakci", Score: 0}, "cuoshe": Word{Word: "cuoshe", Def: "▯ is true under assumption ▯.", By: "uakci", Score: 0}, "cuq": Word{Word: "cuq", Def: "The embedded predication is satisfied with first place ▯ and all original places moved one to the right. [LU]", By: "uakci", Score: 0}, "cutao": Word{Word: "cutao", Def: "predicate: ‘spit’; ▯ spits.", By: "official", Score: 0}, "cutaq": Word{Word: "cutaq", Def: "<▯1, ▯2> are such that <x1, x2, x1> satisfy ternary relation ▯/3; ▯ does/is ▯/3 to themselves.", By: "uakci", Score: 1}, "cutie": Word{Word: "cutie", Def: "▯ stands on, blocks, obtrudes the path between ▯ and ▯;", By: "uakci", Score: 0}, "da": Word{Word: "da", Def: "[DA] Dảkūq kúq kúqsē da.", By: "Ilmen", Score: 0}, "dada": Word{Word: "dada", Def: "▯ is a chest (anatomy).", By: "Ilmen", Score: 0}, "dafuq": Word{Word: "dafuq", Def: "▯ is confused about ▯.", By: "uakci", Score: 1}, "dai": Word{Word: "dai", Def: "bủ dủaı bû dóshī da", By: "uakci", Score: 0}, "dai jia niqdua puqho.": Word{Word: "dai jia niqdua puqho.", Def: "(SRP.3) It is possible that they will make a discovery.", By: "official", Score: 0}, "dai lu loi ho nai ji da.": Word{Word: "dai lu loi ho nai ji da.", Def: "(A0270) It's possible that he hates me now.", By: "examples", Score: 0}, "daichi": Word{Word: "daichi", Def: "predicate: ‘hope’; ▯ has hope that ▯ is the case; ▯ believes ▯ can happen.", By: "official", Score: 0}, "daichiheu": Word{Word: "daichiheu", Def: "(fork of #T59m4qVvi) apple", By: "seaqtaq", Score: -2}, "daigai": Word{Word: "daigai", Def: "perceivable", By: "spreadsheet", Score: 0}, "daigi": Word{Word: "daigi", Def: "there is a chance/opportunity for ▯ to happen.", By: "Ilmen", Score: 0}, "daimoi": Word{Word: "daimoi", Def: "imagine", By: "spreadsheet", Score: -1}, "daipeopaq": Word{Word: "daipeopaq", Def: "▯ is a hole though ▯", By: "Xylochoron", Score: 0}, "dairia": Word{Word: "dairia", Def: "▯ is such that the doorway is spatially obscured by door (▯), yet not disabling entrance", By: "spreadsheet", Score: 0}, "daisi": Word{Word: "daisi", Def: "imagine", By: "spreadsheet", Score: -1}, "daisio": Word{Word: "daisio", Def: "predicate: ‘idea’; ▯ is an idea.", By: "official", Score: 0}, "daki": Word{Word: "daki", Def: "▯ is a forehead.", By: "Ilmen", Score: 0}, "dao": Word{Word: "dao", Def: "predicate: ‘information’; ▯ is information/data.", By: "official", Score: 0}, "daobaq": Word{Word: "daobaq", Def: "▯ is a file.", By: "uakci", Score: 0}, "daochiu": Word{Word: "daochiu", Def: "▯ is an address / URL / file path to data\u00a0 ▯.", By: "lynn", Score: 0}, "daocoe": Word{Word: "daocoe", Def: "▯ is data connection", By: "seaqtaq", Score: 0}, "daofaq": Word{Word: "daofaq", Def: "▯(video, audio file, GIF, etc.) plays", By: "seaqtaq", Score: 0}, "daogai": Word{Word: "daogai", Def: "▯ has perception ▯ (raw perception, neither the stimuli/cause thereof nor any proposition induced from it).", By: "Ilmen", Score: 0}, "daojioqdiu": Word{Word: "daojioqdiu", Def: "▯ is computer science.", By: "lynn", Score: 0}, "daojuq": Word{Word: "daojuq", Def: "▯ accesses ▯", By: "seaqtaq", Score: 0}, "daojuqkiu": Word{Word: "daojuqkiu", Def: "▯ is accessible", By: "seaqtaq", Score: 0}, "daokai": Word{Word: "daokai", Def: "▯ inputs data ▯ in form/record ▯.", By: "lynn", Score: 0}, "daokaichuo": Word{Word: "daokaichuo", Def: "▯ is an input device (e.g. a keyboard).", By: "lynn", Score: 0}, "daome": Word{Word: "daome", Def: "▯ is a digital cloud", By: "seaqtaq", Score: 0}, "daone": Word{Word: "daone", Def: "▯ is the size of file/cache/folder ▯", By: "seaqtaq", Score: 0}, "daoraq": Word{Word: "daoraq", Def: "▯ links to ▯ by means of ▯; ▯ references/points to ▯ with ▯.", By: "uakci", Score: 0}, "daorioi": Word{Word: "daorioi", Def: "▯ is a proxy server", By: "seaqtaq", Score: 0}, "daosho": Word{Word: "daosho", Def: "▯(device) connects to service/network ▯", By: "seaqtaq", Score: 0}, "daoshuo": Word{Word: "daoshuo", Def: "▯ is a cache(computing)", By: "seaqtaq", Score: 0}, "daosi": Word{Word: "daosi", Def: "predicate: ‘interested’; ▯ is interested in ▯; ▯ is curious about ▯.", By: "official", Score: 0}, "daosi suq diu su hi rai moq.": Word{Word: "daosi suq diu su hi rai moq.", Def: "(A0949) You are interested in the science of what thing?", By: "examples", Score: 0}, "daosica": Word{Word: "daosica", Def: "▯ interests ▯; ▯ is interesting to ▯.", By: "uakci", Score: 0}, "daosue": Word{Word: "daosue", Def: "▯ wants to know from ▯ fact ▯; ▯ asks ▯ fact ▯.", By: "Ilmen", Score: 0}, "daoteidiu": Word{Word: "daoteidiu", Def: "▯ is statistics.", By: "lynn", Score: 0}, "dapa": Word{Word: "dapa", Def: "▯ is a hand palm / foot sole.", By: "Ilmen", Score: 0}, "dapapueq": Word{Word: "dapapueq", Def: "▯ walks plantigradally / on the sole of his/her/its feet.", By: "Ilmen", Score: 0}, "dapapueqhe": Word{Word: "dapapueqhe", Def: "▯ is a plantigrade.", By: "Ilmen", Score: 0}, "dapasheaq": Word{Word: "dapasheaq", Def: "▯ walks plantigradally / on the sole of his/her/its feet.", By: "Ilmen", Score: 0}, "dapasheaqhe": Word{Word: "dapasheaqhe", Def: "▯ is a plantigrade.", By: "Ilmen", Score: 0}, "daq": Word{Word: "daq", Def: "mẻa dóshī ta lú rảq hóa sa túq củaq shỉu ra bỉe da\u00a0", By: "uakci", Score: 0}, "daqchiu": Word{Word: "daqchiu", Def: "date (time)", By: "spreadsheet", Score: 0}, "daqchoq": Word{Word: "daqchoq", Def: "▯ spends time to do ▯.", By: "Ilmen", Score: 1}, "daqchune": Word{Word: "daqchune", Def: "▯ is the time distance between ▯ and ▯.", By: "seaqtaq", Score: 0}, "daqchuq": Word{Word: "daqchuq", Def: "▯ is chronophage.", By: "Ilmen", Score: 0}, "daqcu": Word{Word: "daqcu", Def: "dance", By: "spreadsheet", Score: -1}, "daqdu": Word{Word: "daqdu", Def: "hang (dandu)", By: "spreadsheet", Score: -1}, "daqduai": Word{Word: "daqduai", Def: "▯ is due (before deadline▯)", By: "seaqtaq", Score: 0}, "daqfai": Word{Word: "daqfai", Def: "adverb: \"often\"", By: "official", Score: 0}, "daqfai bu taoshao fa ji da.": Word{Word: "daqfai bu taoshao fa ji da.", Def: "(A0402) Often I don't intend to go.", By: "examples", Score: 0}, "daqfai koa baq heigujue.": Word{Word: "daqfai koa baq heigujue.", Def: "(A0162) It is usually cold in December.", By: "examples", Score: 0}, "daqfai lu chuqkuai ji da.": Word{Word: "daqfai lu chuqkuai ji da.", Def: "(A0035) It's often the case that I'm hungry.", By: "examples", Score: 0}, "daqfai lu poji koqpiuta pa suo da.": Word{Word: "daqfai lu poji koqpiuta pa suo da.", Def: "(A0251) My computer is often broken.", By: "examples", Score: 0}, "daqfai taoshao bu fa ji da.": Word{Word: "daqfai taoshao bu fa ji da.", Def: "(A0403) Often I intend not to go.", By: "examples", Score: 0}, "daqfao": Word{Word: "daqfao", Def: "predicate: ‘temporal.end’; ▯ is the end of ▯; ▯ is the point at which ▯ ceases to be.", By: "official", Score: 0}, "daqfia": Word{Word: "daqfia", Def: "predicate: ‘previous’; ▯ is previous to ▯ in time.", By: "official", Score: 0}, "daqfu": Word{Word: "daqfu", Def: "solution", By: "spreadsheet", Score: -1}, "daqgia": Word{Word: "daqgia", Def: "▯ is a time zone; ▯ is a zone where there is the exact same time (▯) everywhere in it.", By: "uakci", Score: 0}, "daqgoa": Word{Word: "daqgoa", Def: "▯ is spacetime.", By: "Ilmen", Score: 0}, "daqgoamoa": Word{Word: "daqgoamoa", Def: "▯ is a point in spacetime.", By: "Ilmen", Score: 0}, "daqhiaq": Word{Word: "daqhiaq", Def: "▯ has little time that they can spend satisfying property ▯.", By: "lynn", Score: 0}, "daqjaone": Word{Word: "daqjaone", Def: "temci", By: "spreadsheet", Score: -1}, "daqjaq": Word{Word: "daqjaq", Def: "long (duration)", By: "spreadsheet", Score: 0}, "daqjaq bu geq da.": Word{Word: "daqjaq bu geq da.", Def: "(A0395) Long time no see!", By: "examples", Score: 0}, "daqkea": Word{Word: "daqkea", Def: "predicate: ‘clock’; ▯ is a clock.", By: "official", Score: 0}, "daqko": Word{Word: "daqko", Def: "▯ is the ▯th among those satisfying property ▯, sorted by time", By: "fagri", Score: 0}, "daqlei": Word{Word: "daqlei", Def: "adverb: \"seldom\"", By: "official", Score: 0}, "daqme": Word{Word: "daqme", Def: "▯ is a time period.", By: "Ilmen", Score: 0}, "daqmia": Word{Word: "daqmia", Def: "▯ has lots of time that they can spend satisfying property ▯.", By: "lynn", Score: 0}, "daqmiq": Word{Word: "daqmiq", Def: "predicate: ‘eternal’; ▯ is eternal/forever.", By: "official", Score: 0}, "daqmoa": Word{Word: "daqmoa", Def: "≈ [X] Tỏaı dóshī báq dảq da. Hủaq dảqtūao sıa ráı dóshī da.", By: "Ilmen", Score: 0}, "daqnie": Word{Word: "daqnie", Def: "▯ is within the time-span of ▯.", By: "Ilmen", Score: 1}, "daqpaq": Word{Word: "daqpaq", Def: "▯ is a temporal slice of ▯.", By: "Ilmen", Score: 0}, "daqrea": Word{Word: "daqrea", Def: "▯ is a deadline/time limit", By: "seaqtaq", Score: 0}, "daqriaq": Word{Word: "daqriaq", Def: "period", By: "spreadsheet", Score: 0}, "daqsao": Word{Word: "daqsao", Def: "long (duration)", By: "spreadsheet", Score: 0}, "daqshei": Word{Word: "daqshei", Def: "▯ has free time; ▯ has time to satisfy property ▯.", By: "Hoemai", Score: 0}, "daqshue": Word{Word: "daqshue", Def: "▯ continues to be the case", By: "seaqtaq", Score: 0}, "daqsiao": Word{Word: "daqsiao", Def: "predicate: ‘temporal.beginning’; ▯ is the beginning of ▯; is the point at which ▯ begins to be.", By: "official", Score: 0}, "daqsie": Word{Word: "daqsie", Def: "predicate: ‘following’; ▯ is following to ▯ in time.", By: "official", Score: 0}, "daqtuao": Word{Word: "daqtuao", Def: "(fork of #uh7F6PT8j) ▯ occurs for a short while", By: "seaqtaq", Score: 0}, "daqtuaodoa": Word{Word: "daqtuaodoa", Def: "lend", By: "spreadsheet", Score: 0}, "dari": Word{Word: "dari", Def: "jdari (firm, hard)", By: "spreadsheet", Score: -1}, "dasi": Word{Word: "dasi", Def: "dare", By: "spreadsheet", Score: -1}, "de": Word{Word: "de", Def: "gỉ ra pủacā sa pó dóshī ga kảq ra tẻı da\u00a0", By: "seaqtaq", Score: 1}, "de ni fuaq da.": Word{Word: "de ni fuaq da.", Def: "(A0718) This picture is beautiful.", By: "examples", Score: 0}, "de ni giaq da.": Word{Word: "de ni giaq da.", Def: "(A0096) This music is beautiful.", By: "examples", Score: 0}, "de ni rua da.": Word{Word: "de ni rua da.", Def: "(ILL.1) This flower is beautiful.", By: "official", Score: 0}, "de ni rua.": Word{Word: "de ni rua.", Def: "(ILL.2) This flower is beautiful.", By: "official", Score: 0}, "de nichaq da.": Word{Word: "de nichaq da.", Def: "(A0024) Today is beautiful.", By: "examples", Score: 0}, "de suq da.": Word{Word: "de suq da.", Def: "(A0066) You are beautiful.", By: "examples", Score: 0}, "de tu poq da.": Word{Word: "de tu poq da.", Def: "(A0635) All people are beautiful.", By: "examples", Score: 0}, "dea": Word{Word: "dea", Def: "= #caı #cẻo #fủo", By: "uakci", Score: 0}, "deadicha": Word{Word: "deadicha", Def: "lightning", By: "spreadsheet", Score: -1}, "deaduo": Word{Word: "deaduo", Def: "collide", By: "spreadsheet", Score: 0}, "deaq": Word{Word: "deaq", Def: "predicate: ‘floor’; ▯ is a floor.", By: "official", Score: 0}, "deaqgiq": Word{Word: "deaqgiq", Def: "ceiling", By: "spreadsheet", Score: 0}, "deaqkiaq": Word{Word: "deaqkiaq", Def: "grass", By: "spreadsheet", Score: 0}, "deaqkoi": Word{Word: "deaqkoi", Def: "predicate: ‘crawl’; ▯ crawls.", By: "official", Score: 0}, "deaqme": Word{Word: "deaqme", Def: "▯ are stairs.", By: "uakci", Score: 0}, "deaqnietua": Word{Word: "deaqnietua", Def: "bury", By: "spreadsheet", Score: 0}, "dease": Word{Word: "dease", Def: "shock", By: "spreadsheet", Score: 0}, "decha": Word{Word: "decha", Def: "▯ happens/takes place beautifully/in a beautiful way.", By: "Hoemai", Score: 0}, "dechuo": Word{Word: "dechuo", Def: "▯ is an ornament.", By: "Ilmen", Score: 0}, "dedoa": Word{Word: "dedoa", Def: "adorn", By: "spreadsheet", Score: 0}, "deduo": Word{Word: "deduo", Def: "▯ dances.", By: "Ilmen", Score: 0}, "degiq": Word{Word: "degiq", Def: "ugly", By: "spreadsheet", Score: 0}, "deha": Word{Word: "deha", Def: "▯ temporarily ceases to be the case; ▯ pauses.", By: "Ilmen", Score: -1}, "dehaqguqkorea": Word{Word: "dehaqguqkorea", Def: "▯ pertains to the culture of South Korea → Korea, South.", By: "countries", Score: 0}, "dehaqguqkoreagua": Word{Word: "dehaqguqkoreagua", Def: "▯ is the country South Korea → Korea, South.", By: "countries", Score: 0}, "dehaqguqkoreatoaq": Word{Word: "dehaqguqkoreatoaq", Def: "▯ is (one of) the language(s) spoken in South Korea → Korea, South.", By: "countries", Score: 0}, "dei": Word{Word: "dei", Def: "answer", By: "spreadsheet", Score: -1}, "deini": Word{Word: "deini", Def: "owe", By: "spreadsheet", Score: -1}, "dekaidiu": Word{Word: "dekaidiu", Def: "▯is calligraphy", By: "seaqtaq", Score: 0}, "demeoca": Word{Word: "demeoca", Def: "▯ is beautifully sad; ▯ is both beautiful to and makes sad experiencer ▯.", By: "Hoemai", Score: 0}, "denai": Word{Word: "denai", Def: "Sentence ▯/0 is true with the term referred to by ▯ attached to its tail.", By: "uakci", Score: 0}, "deo": Word{Word: "deo", Def: "predicate: ‘child’; ▯ is a child.", By: "official", Score: 0}, "deo pia hoa ji bi gu ho da.": Word{Word: "deo pia hoa ji bi gu ho da.", Def: "(A0360) There are two children which are my siblings.", By: "examples", Score: 0}, "deogoiche": Word{Word: "deogoiche", Def: "▯is a pediatrician", By: "seaqtaq", Score: 0}, "deoq": Word{Word: "deoq", Def: "= #cheo #dỏa #dủa", By: "uakci", Score: 0}, "deoq suq no hi toaq moq": Word{Word: "deoq suq no hi toaq moq", Def: "phrase: \"In what language are you communicating?\"", By: "official", Score: 0}, "deoq(cheo)tue": Word{Word: "deoq(cheo)tue", Def: "▯ is a session (computing)", By: "seaqtaq", Score: 0}, "deoqcai": Word{Word: "deoqcai", Def: "eloquent", By: "spreadsheet", Score: 0}, "deoqcheo": Word{Word: "deoqcheo", Def: "casnu", By: "spreadsheet", Score: 0}, "deoqcheo suq roi ji ba.": Word{Word: "deoqcheo suq roi ji ba.", Def: "(A0460) Let's talk.", By: "examples", Score: 0}, "deoqchuaq": Word{Word: "deoqchuaq", Def: "▯ is a society of ▯.", By: "uakci", Score: 0}, "deoqduoi": Word{Word: "deoqduoi", Def: "▯ just can’t stahp talking.", By: "uakci", Score: 1}, "deoqgaq": Word{Word: "deoqgaq", Def: "▯ keeps ▯ company.", By: "uakci", Score: 0}, "deoqpeq": Word{Word: "deoqpeq", Def: "▯ is a letter.", By: "uakci", Score: 1}, "deoqriaq": Word{Word: "deoqriaq", Def: "▯ is a chatroom", By: "seaqtaq", Score: 0}, "deoqsoi": Word{Word: "deoqsoi", Def: "▯ argues with ▯.", By: "lynn", Score: 0}, "depaq": Word{Word: "depaq", Def: "▯ is an ornament to ▯; ▯ decorates/ornates (intransitive sense) ▯.", By: "uakci", Score: 0}, "depi": Word{Word: "depi", Def: "▯ is a common dolphin (Delphinus genus).", By: "Ilmen", Score: 0}, "depio": Word{Word: "depio", Def: "gem", By: "spreadsheet", Score: 0}, "depisiu": Word{Word: "depisiu", Def: "▯ is an oceanic dolphin (Delphinidae taxonomic family).", By: "Ilmen", Score: 0}, "deq": Word{Word: "deq", Def: "= #daı #tảo", By: "uakci", Score: 0}, "deq choa bebe shu ‹ mama › ru shu ‹ papa › da.": Word{Word: "deq choa bebe shu ‹ mama › ru shu ‹ papa › da.", Def: "(A0323) The baby can say \"mama\" and \"papa\".", By: "examples", Score: 0}, "deq kaqgai tu poq lu jo ni tuifua da.": Word{Word: "deq kaqgai tu poq lu jo ni tuifua da.", Def: "(A0365) Everyone can see that these are four chairs.", By: "examples", Score: 0}, "deq ni deo sa lu bu deq ji hoa da.": Word{Word: "deq ni deo sa lu bu deq ji hoa da.", Def: "(A0072) This kid can do things that I can't do.", By: "examples", Score: 0}, "deq teq ji sa pui nuai ke muaqtua go ho da.": Word{Word: "deq teq ji sa pui nuai ke muaqtua go ho da.", Def: "(A0466) I can pay a lot of money for killing him.", By: "examples", Score: 0}, "deqcai": Word{Word: "deqcai", Def: "▯ is powerful", By: "seaqtaq", Score: 0}, "deqgi": Word{Word: "deqgi", Def: "▯ has the ability to do ▯.", By: "uakci", Score: 0}, "deqkuaqsue": Word{Word: "deqkuaqsue", Def: "▯ challenges ▯ to do ▯.", By: "Ilmen", Score: 0}, "deqmi": Word{Word: "deqmi", Def: "▯ is dense.", By: "Ilmen", Score: 0}, "deqmiq": Word{Word: "deqmiq", Def: "▯ is omnipotent/all-powerful", By: "seaqtaq", Score: 0}, "deqroa": Word{Word: "deqroa", Def: "▯ innately satisfies property ▯.", By: "Ilmen", Score: 0}, "detiao": Word{Word: "detiao", Def: "harmonious", By: "spreadsheet", Score: 0}, "detoa": Word{Word: "detoa", Def: "▯ is poetry.", By: "uakci", Score: 0}, "detoache": Word{Word: "detoache", Def: "▯ is a poet.", By: "uakci", Score: 0}, "deu": Word{Word: "deu", Def: "terminate sentence non-assertively.", By: "uakci", Score: 0}, "di": Word{Word: "di", Def: "shỏe sa ráı dóshī dógū da", By: "uakci", Score: 0}, "dia": Word{Word: "dia", Def: "predicate: ‘decrease’; ▯ decreases in how much it satisfies property ▯.", By: "official", Score: 0}, "diai": Word{Word: "diai", Def: "predicate: ‘seven’; ▯ are seven in number.", By: "official", Score: 0}, "diai poq suai ru niti": Word{Word: "diai poq suai ru niti", Def: "(A0371) There are seven people who are fast and are here.", By: "oldexamples", Score: 0}, "diai poq suai ru niti da.": Word{Word: "diai poq suai ru niti da.", Def: "(A0371) There are seven people who are fast and are here.", By: "examples", Score: 0}, "diaijue": Word{Word: "diaijue", Def: "▯ is July", By: "lynn", Score: 1}, "diaiko": Word{Word: "diaiko", Def: "predicate: ‘seventh’; ▯ is seventh among ▯.", By: "official", Score: 0}, "diailaqtei": Word{Word: "diailaqtei", Def: "▯ is the seventh tone (creaky falling-rising).", By: "lynn", Score: 0}, "dialimi": Word{Word: "dialimi", Def: "▯ is the one-sided mathematical limit of the function ▯ as its input approaches the number ▯ from above.", By: "Ilmen", Score: 0}, "diao": Word{Word: "diao", Def: "predicate: ‘drop’; ▯ is a drop.", By: "official", Score: 0}, "diaq": Word{Word: "diaq", Def: "predicate: ‘regular’; ▯ occurs at regular intervals; ▯ satisfies property ▯ at regular intervals.", By: "official", Score: 0}, "diaq suaikoi ji da.": Word{Word: "diaq suaikoi ji da.", Def: "(A0060) I regularly run.", By: "examples", Score: 0}, "diaqkue": Word{Word: "diaqkue", Def: "predicate: ‘journal’; ▯ is a journal/periodical/newspaper.", By: "official", Score: 0}, "diashai": Word{Word: "diashai", Def: "Ithkuil's Depletive Extension", By: "spreadsheet", Score: 0}, "diba": Word{Word: "diba", Def: "replace/instead", By: "spreadsheet", Score: -1}, "dibu": Word{Word: "dibu", Def: "▯ is disallowed.", By: "Ilmen", Score: 0}, "dicha": Word{Word: "dicha", Def: "electricity", By: "spreadsheet", Score: -1}, "dichario": Word{Word: "dichario", Def: "▯ is plasma (state of matter).", By: "Ilmen", Score: -1}, "die": Word{Word: "die", Def: "kủaq dóshī lî gỉjīe ja dó tê tảo dógū da", By: "uakci", Score: 0}, "die ji luaq suqji luaqgo ka.": Word{Word: "die ji luaq suqji luaqgo ka.", Def: "(A0391) I hereby suggest we play Go.", By: "examples", Score: 0}, "diedoa": Word{Word: "diedoa", Def: "▯ advises ▯ to ▯", By: "seaqtaq", Score: 0}, "dieq": Word{Word: "dieq", Def: "tảotūa tủa tỉ dóshī sa ráı dógū dósāq da", By: "uakci", Score: 0}, "diese": Word{Word: "diese", Def: "advice", By: "spreadsheet", Score: 0}, "dietaq": Word{Word: "dietaq", Def: "candidate", By: "spreadsheet", Score: 0}, "digiq": Word{Word: "digiq", Def: "▯ is disallowed.", By: "Ilmen", Score: 0}, "dihi": Word{Word: "dihi", Def: "dikni", By: "spreadsheet", Score: 0}, "dimeqsioq": Word{Word: "dimeqsioq", Def: "dimension", By: "spreadsheet", Score: 0}, "dine": Word{Word: "dine", Def: "▯ pertains to the Navajo/Diné culture.", By: "Ilmen", Score: 0}, "dio": Word{Word: "dio", Def: "pảq dóshī sa dó chǎq na, na ru jẻq rảo dóshī sa lú gủo hóa gâıkīu sa hóe da", By: "uakci", Score: 0}, "diochu": Word{Word: "diochu", Def: "predicate: ‘noon’; ▯ is a noon.", By: "official", Score: 1}, "diochuchuq": Word{Word: "diochuchuq", Def: "▯ eats lunch", By: "seaqtaq", Score: 0}, "diochuhaq": Word{Word: "diochuhaq", Def: "predicate: ‘lunch’; ▯ is a lunch.", By: "official", Score: 0}, "diofao": Word{Word: "diofao", Def: "predicate: ‘evening’; ▯ is an evening.", By: "official", Score: 0}, "diohoe": Word{Word: "diohoe", Def: "▯ is our sun (any star regularly bringing light and warmth to the place where the speaker is at the time of utterance; the star(s) the speaker is currently orbiting).", By: "Ilmen", Score: 1}, "diomesiu": Word{Word: "diomesiu", Def: "▯ is an albatross of the family Diomedeidae.", By: "Hoemai", Score: 0}, "dionai": Word{Word: "dionai", Def: "It's day time.", By: "fagri", Score: 0}, "dionuisoq": Word{Word: "dionuisoq", Def: "▯ is a winter solstice.", By: "Ilmen", Score: 0}, "dioq": Word{Word: "dioq", Def: "variable Y", By: "uakci", Score: 0}, "diosiao": Word{Word: "diosiao", Def: "predicate: ‘morning’; ▯ is a morning.", By: "official", Score: 0}, "diosiaohaq": Word{Word: "diosiaohaq", Def: "▯ is a breakfast.", By: "sheireq", Score: -1}, "dipaq": Word{Word: "dipaq", Def: "▯ = ▯ / ▯.", By: "uakci", Score: 0}, "dishe": Word{Word: "dishe", Def: "decide that", By: "spreadsheet", Score: 0}, "diu": Word{Word: "diu", Def: "predicate: ‘science’; ▯ is the branch of knowledge that studies ▯; ▯ is a science.", By: "official", Score: 0}, "diuche": Word{Word: "diuche", Def: "▯ is a scientist.", By: "Ilmen", Score: 0}, "dỉa laqcai suq ba!": Word{Word: "dỉa laqcai suq ba!", Def: "(A0344) Be less loud!", By: "examples", Score: 0}, "do": Word{Word: "do", Def: "predicate: ‘variable.X’; variable X", By: "official", Score: 0}, "doa": Word{Word: "doa", Def: "tảo dóshī lî ja dó bı to ru shảı bỏ dó dógū to cẻo bỏ dósāq dógū da", By: "uakci", Score: 0}, "doa bo suq luereo ji ba.": Word{Word: "doa bo suq luereo ji ba.", Def: "(A0180) You ought to give me the yellow thing.", By: "examples", Score: 0}, "doa bo suq ni poji naqpia ba.": Word{Word: "doa bo suq ni poji naqpia ba.", Def: "(A0210) Give this to my brother.", By: "examples", Score: 0}, "doacheo": Word{Word: "doacheo", Def: "exchange/trade", By: "spreadsheet", Score: -1}, "doai": Word{Word: "doai", Def: "predicate: ‘bread’; ▯ is bread.", By: "official", Score: 0}, "doaibiu": Word{Word: "doaibiu", Def: "▯ is a loaf of bread", By: "seaqtaq", Score: 0}, "doaitoq": Word{Word: "doaitoq", Def: "▯ is a breadboard", By: "seaqtaq", Score: 0}, "doajuq": Word{Word: "doajuq", Def: "(fork of #WA-zoAJATw) receive", By: "seaqtaq", Score: 0}, "doao": Word{Word: "doao", Def: "▯ is a group whose members engage together in activity ▯; ▯ is a band of ▯-ers.", By: "uakci", Score: -1}, "doaodoai": Word{Word: "doaodoai", Def: "▯ is a donut (doughnut).", By: "uakci", Score: 0}, "doaq": Word{Word: "doaq", Def: "predicate: ‘settlement’; ▯ is a settlement/town/village/city.", By: "official", Score: 0}, "doaqpaq": Word{Word: "doaqpaq", Def: "predicate: ‘district’; ▯ is a district.", By: "official", Score: 0}, "doaraoti": Word{Word: "doaraoti", Def: "▯ was at ▯ when they were handing out ▯", By: "fagri", Score: 0}, "dobeo": Word{Word: "dobeo", Def: "Variable ▯ is changing.", By: "uakci", Score: 0}, "doe": Word{Word: "doe", Def: "dảı chôq sa ráı dóshī sa ráı kùı jêo dóshī dógū da", By: "uakci", Score: 0}, "doe shuo miao gio cha nuoq maq hoegio da.": Word{Word: "doe shuo miao gio cha nuoq maq hoegio da.", Def: "(A0944) Moon functions as a light source in manner that it reflects sunlight.", By: "examples", Score: 0}, "doecaq": Word{Word: "doecaq", Def: "▯ is an administers, maintains, supports ▯.", By: "uakci", Score: 0}, "doecaqche": Word{Word: "doecaqche", Def: "administrator, maintainer, technician, supporter", By: "uakci", Score: 0}, "doecia": Word{Word: "doecia", Def: "▯ is useless (\"without function\").", By: "lynn", Score: 0}, "doedao": Word{Word: "doedao", Def: "▯ encodes information about performing task ▯; ▯ is computer code for doing ▯.", By: "uakci", Score: 0}, "doekai": Word{Word: "doekai", Def: "▯ programs in order to make ▯ perform task ▯; ▯ writes code for computer ▯ in order to do ▯.", By: "uakci", Score: 0}, "doekaiche": Word{Word: "doekaiche", Def: "▯ is a programmer.", By: "uakci", Score: 0}, "doekao": Word{Word: "doekao", Def: "▯ is a program.", By: "Ilmen", Score: 0}, "doekaotoaq": Word{Word: "doekaotoaq", Def: "▯ is a programming language.", By: "lynn", Score: 0}, "doele": Word{Word: "doele", Def: "▯ tends to satisfy the property ▯.", By: "Ilmen", Score: 0}, "doeme": Word{Word: "doeme", Def: "▯ is a system of parts ▯ working together to perform function ▯.", By: "uakci", Score: 0}, "doemiq": Word{Word: "doemiq", Def: "#miqdoe", By: "uakci", Score: 0}, "doetao": Word{Word: "doetao", Def: "▯ does ▯ on purpose; ▯ does ▯ to accomplish ▯.", By: "uakci", Score: 0}, "doetiao": Word{Word: "doetiao", Def: "suitable, kaipti / X is suitable for satisfying property Y", By: "spreadsheet", Score: 0}, "doetoa": Word{Word: "doetoa", Def: "particle, cmavo", By: "spreadsheet", Score: 0}, "doetua": Word{Word: "doetua", Def: "▯ turns ▯ on.", By: "uakci", Score: 0}, "doi": Word{Word: "doi", Def: "pre-predicate particle: forces the meaning of the predicate associated with the highest arity, regardless of the actual number of parameters given.", By: "uakci", Score: 1}, "doiche": Word{Word: "doiche", Def: "▯ pertains to the culture of Germany – Federal Republic of Germany.", By: "countries", Score: 0}, "doichegua": Word{Word: "doichegua", Def: "▯ is the country Germany – Federal Republic of Germany.", By: "countries", Score: 0}, "doichetoaq": Word{Word: "doichetoaq", Def: "▯ is (one of) the language(s) spoken in Germany – Federal Republic of Germany.", By: "countries", Score: 0}, "dojeo": Word{Word: "dojeo", Def: "▯ is the value of the variable ▯ at point ▯ in context space.", By: "uakci", Score: 0}, "doko": Word{Word: "doko", Def: "▯ is the variable labeled with property ▯; the label identifier is treated verbatim like a quote, and not as an abstract property.", By: "Ilmen", Score: 0}, "dola": Word{Word: "dola", Def: "dollar", By: "spreadsheet", Score: 0}, "domei": Word{Word: "domei", Def: "▯ is tamed, domesticated.", By: "uakci", Score: 0}, "dopa": Word{Word: "dopa", Def: "The referent(s) of the variable X satisfy property ▯.", By: "Ilmen", Score: 0}, "doq": Word{Word: "doq", Def: "= gıq #bủaı", By: "uakci", Score: 0}, "doq ni kiaq da.": Word{Word: "doq ni kiaq da.", Def: "(A0064) This hair is short.", By: "examples", Score: 0}, "doq poho shiaq da.": Word{Word: "doq poho shiaq da.", Def: "(A0734) His legs are short.", By: "examples", Score: 0}, "doqbideo(dbd)": Word{Word: "doqbideo(dbd)", Def: "▯ is a GIF", By: "seaqtaq", Score: 0}, "doqdaq": Word{Word: "doqdaq", Def: "▯ is a minute.", By: "uakci", Score: 0}, "doqhuaq": Word{Word: "doqhuaq", Def: "▯ is a womaniser (womanizer).", By: "uakci", Score: 0}, "doqhuoi": Word{Word: "doqhuoi", Def: "▯ is a member of the infraorder Brachyura (the true crabs).", By: "Hoemai", Score: 0}, "doqkopi": Word{Word: "doqkopi", Def: "▯ is a summary of ▯", By: "fagri", Score: 0}, "doqshiu": Word{Word: "doqshiu", Def: "▯ happened recently", By: "seaqtaq", Score: 0}, "doragoq": Word{Word: "doragoq", Def: "dragon", By: "spreadsheet", Score: 0}, "du": Word{Word: "du", Def: "sa dó bı sỉu jêo dóshī dó na sa jéı jêo dóshī dógū na lě da", By: "uakci", Score: 0}, "du bu le hoq da.": Word{Word: "du bu le hoq da.", Def: "(A0439) That seems improbable.", By: "examples", Score: 0}, "du chuqkuai suq da.": Word{Word: "du chuqkuai suq da.", Def: "(A0036) You seem hungry.", By: "examples", Score: 0}, "du piao lu die suq hoa da.": Word{Word: "du piao lu die suq hoa da.", Def: "(A0336) Your suggestion seems complex.", By: "examples", Score: 0}, "du ru bu": Word{Word: "du ru bu", Def: "▯ is seemingly the case (but actually isn't); ▯ seemingly satisfies the property ▯ (but actually doesn't).", By: "Ilmen", Score: 1}, "dua": Word{Word: "dua", Def: "predicate: ‘know’; ▯ knows ▯ to be the case / to be true.", By: "official", Score: 0}, "dua jeo ji dua suq co rai da.": Word{Word: "dua jeo ji dua suq co rai da.", Def: "(A0580) I do know how much you know.", By: "examples", Score: 0}, "dua ji cho suq ji.": Word{Word: "dua ji cho suq ji.", Def: "(CCL.1) I know that you like me.", By: "official", Score: 0}, "dua ji dua ji sia rai da.": Word{Word: "dua ji dua ji sia rai da.", Def: "(A0054) I know that I know nothing.", By: "examples", Score: 0}, "dua ji pu kaqgai suq hi rai da.": Word{Word: "dua ji pu kaqgai suq hi rai da.", Def: "(A0295) I know what you saw.", By: "examples", Score: 0}, "dua ji pu tao suq hi rai rao daqfia loqcao da.": Word{Word: "dua ji pu tao suq hi rai rao daqfia loqcao da.", Def: "(INT.6) I know what you did last summer.", By: "official", Score: 0}, "dua ji tao ji hi rai rao luechaq da.": Word{Word: "dua ji tao ji hi rai rao luechaq da.", Def: "(A0261) I know what I did on Wednesday.", By: "examples", Score: 0}, "dua ji tao suq hi rai rao daqfia loqcao da.": Word{Word: "dua ji tao suq hi rai rao daqfia loqcao da.", Def: "(A0268) I know what you did last summer.", By: "examples", Score: 0}, "dua puqho hoq bu dai.": Word{Word: "dua puqho hoq bu dai.", Def: "(ADV.8) They don't possibly know.", By: "official", Score: 0}, "dua puqho hoq dai bu.": Word{Word: "dua puqho hoq dai bu.", Def: "(ADV.7) They possibly don't know.", By: "official", Score: 0}, "dua suq dai hoq da.": Word{Word: "dua suq dai hoq da.", Def: "(A0051) You know that it is possible.", By: "examples", Score: 0}, "duacai": Word{Word: "duacai", Def: "▯ is certain that ▯ is the case.", By: "Ilmen", Score: 0}, "duacaibu": Word{Word: "duacaibu", Def: "doubt", By: "spreadsheet", Score: 0}, "duachie": Word{Word: "duachie", Def: "predicate: ‘learn’; ▯ learns that ▯ is the case.", By: "official", Score: 0}, "duadīu": Word{Word: "duadīu", Def: "▯ is epistemology.", By: "lynn", Score: 0}, "duafai": Word{Word: "duafai", Def: "▯ is widely / commonly known to be the case.", By: "lynn", Score: 0}, "duafui": Word{Word: "duafui", Def: "= #fuı #dủa", By: "uakci", Score: 0}, "duagi": Word{Word: "duagi", Def: "predicate: ‘wise’; ▯ is wise.", By: "official", Score: 0}, "duagikuqse": Word{Word: "duagikuqse", Def: "proverb", By: "spreadsheet", Score: 1}, "duagikuqsesiuloaqdea": Word{Word: "duagikuqsesiuloaqdea", Def: "▯ delivers a proverbial kick in the arse to ▯.", By: "uakci", Score: 0}, "duagitoa": Word{Word: "duagitoa", Def: "proverb", By: "spreadsheet", Score: 0}, "duahui": Word{Word: "duahui", Def: "predicate: ‘foolish’; ▯ is foolish.", By: "official", Score: 0}, "duai": Word{Word: "duai", Def: "predicate: ‘must’; ▯ must satisfy property ▯.", By: "official", Score: 0}, "duailia": Word{Word: "duailia", Def: "right (krali)", By: "spreadsheet", Score: 0}, "duaimia": Word{Word: "duaimia", Def: "busy", By: "spreadsheet", Score: 0}, "duaise": Word{Word: "duaise", Def: "▯ is a chore/homework/assignment/anything mandatory", By: "seaqtaq", Score: 0}, "duaitoai": Word{Word: "duaitoai", Def: "task", By: "spreadsheet", Score: 0}, "duajaq": Word{Word: "duajaq", Def: "predicate: ‘certain’; ▯ is certain that ▯ is the case.", By: "Ilmen", Score: 0}, "duamaidiu": Word{Word: "duamaidiu", Def: "(fork of #CJ6FwndUsP) philosophy", By: "seaqtaq", Score: 0}, "duamuo": Word{Word: "duamuo", Def: "predicate: ‘certain’; ▯ is certain that ▯ is the case.", By: "Ilmen", Score: 1}, "duao": Word{Word: "duao", Def: "predicate: ‘sweet’; ▯ is sweet/sugary.", By: "official", Score: 0}, "duaoboe": Word{Word: "duaoboe", Def: "▯ is a cookie", By: "fagri", Score: 0}, "duaohea": Word{Word: "duaohea", Def: "predicate: ‘candy’; ▯ is a piece of candy.", By: "official", Score: 0}, "duaomuoihaq": Word{Word: "duaomuoihaq", Def: "▯ is a donut", By: "seaqtaq", Score: 0}, "duaopuao": Word{Word: "duaopuao", Def: "▯ is cotton candy", By: "seaqtaq", Score: 1}, "duaopuo": Word{Word: "duaopuo", Def: "▯ is sugar", By: "fagri", Score: 0}, "duaosai": Word{Word: "duaosai", Def: "▯ is sugar", By: "seaqtaq", Score: 0}, "duaoshuaqniai": Word{Word: "duaoshuaqniai", Def: "bee, bifce", By: "spreadsheet", Score: 0}, "duapui": Word{Word: "duapui", Def: "famous", By: "spreadsheet", Score: 0}, "duaq": Word{Word: "duaq", Def: "predicate: ‘larva’; ▯ is a larva (distinct juvenile form undergone before metamorphosis into adult form).", By: "official", Score: 0}, "duaroa": Word{Word: "duaroa", Def: "▯ intuits ▯.", By: "Ilmen", Score: 0}, "duasha": Word{Word: "duasha", Def: "realize that", By: "spreadsheet", Score: 0}, "duashao": Word{Word: "duashao", Def: "predicate: ‘wonder’; ▯ wonders about ▯.", By: "official", Score: 0}, "duashao ji ma juoq butifa ji.": Word{Word: "duashao ji ma juoq butifa ji.", Def: "(INT.8) I'm wondering whether I should leave.", By: "official", Score: 0}, "duasho": Word{Word: "duasho", Def: "predicate: ‘find.out’; ▯ discovers / finds out ▯.", By: "official", Score: 0}, "duasue": Word{Word: "duasue", Def: "predicate: ‘ask’; ▯ wants to know from ▯ fact ▯; ▯ asks ▯ fact ▯.", By: "official", Score: 0}, "duatu": Word{Word: "duatu", Def: "famous", By: "spreadsheet", Score: 0}, "duatua": Word{Word: "duatua", Def: "Tủa\u00a0dủa ▯, ▯, ▯.", By: "fagri", Score: 0}, "duatua cu reoq po leaqsie chaochue ka.": Word{Word: "duatua cu reoq po leaqsie chaochue ka.", Def: "(A0986) ", By: "examples", Score: 0}, "duceo": Word{Word: "duceo", Def: "actually, it turns out that", By: "spreadsheet", Score: -1}, "duceo bi pu du se dea po chiq pa keq po shuao da.": Word{Word: "duceo bi pu du se dea po chiq pa keq po shuao da.", Def: "(A0965) It turns out that what seemed to be a result of hitting of a bug is poo of a bird.", By: "examples", Score: 0}, "due": Word{Word: "due", Def: "▯ is the answer to problem ▯.", By: "uakci", Score: 0}, "due hi shi toa moq.": Word{Word: "due hi shi toa moq.", Def: "(A0358) What word is correct?", By: "examples", Score: 0}, "due hoq da!": Word{Word: "due hoq da!", Def: "(A0616) That's right!", By: "examples", Score: 0}, "duekuaq": Word{Word: "duekuaq", Def: "▯ hereby corrects their previous utterance to ▯.", By: "uakci", Score: 0}, "duemiu": Word{Word: "duemiu", Def: "▯ is right in his/her/their opinion ▯.", By: "Ilmen", Score: 0}, "dueq": Word{Word: "dueq", Def: "predicate: ‘field’; ▯ is a field.", By: "official", Score: 0}, "dufaq": Word{Word: "dufaq", Def: "▯ is a phenomenon.", By: "Ilmen", Score: 0}, "dui": Word{Word: "dui", Def: "predicate: ‘too.much’; ▯ is too much ▯; ▯ satisfies property ▯ too much to satisfy property ▯.", By: "official", Score: 0}, "dui hiaq miu suq da.": Word{Word: "dui hiaq miu suq da.", Def: "(A0842) You have too few opinions.", By: "examples", Score: 0}, "dui loq haq da.": Word{Word: "dui loq haq da.", Def: "(A0115) The food is too hot.", By: "examples", Score: 0}, "dui nui shi tuifua.": Word{Word: "dui nui shi tuifua.", Def: "(ARG.1) The [one] chair is too small.", By: "official", Score: 0}, "dui reoq doi ceo suq": Word{Word: "dui reoq doi ceo suq", Def: "(B0070) We started too late", By: "examples", Score: 0}, "dui reoq tisho suq da.": Word{Word: "dui reoq tisho suq da.", Def: "(A0513) You showed up too late.", By: "examples", Score: 0}, "dui seakuai ji li fa go biajio da.": Word{Word: "dui seakuai ji li fa go biajio da.", Def: "(A0971) I am too exhausted to go to hospital.", By: "examples", Score: 0}, "duibokuai": Word{Word: "duibokuai", Def: "▯ is greedy", By: "seaqtaq", Score: 0}, "duidaq": Word{Word: "duidaq", Def: "▯(proposition) is true too many times", By: "seaqtaq", Score: 0}, "duihioq": Word{Word: "duihioq", Def: "▯ is cocky", By: "seaqtaq", Score: 0}, "duilu": Word{Word: "duilu", Def: "The proposition ▯ is an exaggeration of how much ▯ is the case.", By: "Ilmen", Score: 0}, "duime": Word{Word: "duime", Def: "▯ is too much ▯ (partitive); ▯ is an aggregate of too much ▯ for the resulting aggregate to satisfy ▯.", By: "lynn", Score: 0}, "duine": Word{Word: "duine", Def: "du'emei", By: "seaqtaq", Score: 0}, "dukui": Word{Word: "dukui", Def: "It seems that ▯ because it seems that ▯; ▯ seems to have property ▯ because it seems to have property ▯.", By: "uakci", Score: 0}, "dumai": Word{Word: "dumai", Def: "▯ shows affection towards not ▯ themselves, but their image ▯ (set of p-ties).", By: "uakci", Score: 0}, "duo": Word{Word: "duo", Def: "= [XXX] Fảq sa lú sỉao tî dóshī dósāq na hóa na ru fảo tî dóshī dógū bủ dỏsāq na hóa.", By: "Ilmen", Score: 0}, "duobo": Word{Word: "duobo", Def: "▯ gestures, changes posture, shape or orientation.", By: "Ilmen", Score: 0}, "duocakea": Word{Word: "duocakea", Def: "engine", By: "spreadsheet", Score: 0}, "duode": Word{Word: "duode", Def: "graceful", By: "uakci", Score: 1}, "duodeaq": Word{Word: "duodeaq", Def: "▯ is a vehicle.", By: "uakci", Score: 0}, "duoduo": Word{Word: "duoduo", Def: "▯ chases after ▯", By: "fagri", Score: 0}, "duofuaq": Word{Word: "duofuaq", Def: "predicate: ‘movie’; ▯ is a movie.", By: "official", Score: 0}, "duohua": Word{Word: "duohua", Def: "▯ is a muscle.", By: "uakci", Score: 0}, "duoi": Word{Word: "duoi", Def: "predicate: ‘continue’; ▯ lasts/continues; ▯ lasts for time ▯.", By: "official", Score: 0}, "duoi koacao hi rai pa bu boq leaqbie go maq jeaqcao da.": Word{Word: "duoi koacao hi rai pa bu boq leaqbie go maq jeaqcao da.", Def: "(A0328) No matter how long the winter, spring is sure to follow.", By: "examples", Score: 0}, "duoido": Word{Word: "duoido", Def: "▯ is a constant.", By: "uakci", Score: 0}, "duoijao": Word{Word: "duoijao", Def: "▯ elapses for nowhere near ▯ (period of time)", By: "seaqtaq", Score: 0}, "duoijui": Word{Word: "duoijui", Def: "▯ lasts/continues for approximately time ▯", By: "seaqtaq", Score: 0}, "duojiai": Word{Word: "duojiai", Def: "▯ runs their hand over ▯; ▯ pets or strokes ▯.", By: "uakci", Score: 0}, "duojoe": Word{Word: "duojoe", Def: "▯ is graceful.", By: "uakci", Score: 0}, "duokea": Word{Word: "duokea", Def: "▯ is a motor.", By: "Ilmen", Score: 0}, "duolai": Word{Word: "duolai", Def: "▯ is an arrow (symbol).", By: "Ilmen", Score: 0}, "duomuoq": Word{Word: "duomuoq", Def: "▯ is a fluid.", By: "uakci", Score: 0}, "duonao": Word{Word: "duonao", Def: "flow", By: "spreadsheet", Score: 0}, "duonieq": Word{Word: "duonieq", Def: "▯ is clumsy.", By: "uakci", Score: 0}, "duorio": Word{Word: "duorio", Def: "wind", By: "spreadsheet", Score: 0}, "duoshai": Word{Word: "duoshai", Def: "▯ stops moving.", By: "lynn", Score: 0}, "duosia": Word{Word: "duosia", Def: "motionless, immobile", By: "spreadsheet", Score: 0}, "duotaq": Word{Word: "duotaq", Def: "▯ vibrates", By: "seaqtaq", Score: 0}, "duotaqkea": Word{Word: "duotaqkea", Def: "▯ is a vibrator", By: "seaqtaq", Score: 0}, "duotua": Word{Word: "duotua", Def: "send", By: "spreadsheet", Score: 0}, "duq": Word{Word: "duq", Def: "predicate: ‘habitually’; ▯ habitually satisfies property ▯.", By: "official", Score: 0}, "duq ji chuichuq ja do sa doai da.": Word{Word: "duq ji chuichuq ja do sa doai da.", Def: "(A0720) I always eat bread for breakfast.", By: "examples", Score: 0}, "duq pie suq to ri chai to kafe moq": Word{Word: "duq pie suq to ri chai to kafe moq", Def: "(A0426) Do you (habitually) drink tea or coffee?", By: "examples", Score: 0}, "duqfaq": Word{Word: "duqfaq", Def: "Habitual Aspect", By: "spreadsheet", Score: 0}, "duqku": Word{Word: "duqku", Def: "anguish", By: "spreadsheet", Score: -1}, "dutao": Word{Word: "dutao", Def: "pretend", By: "spreadsheet", Score: 0}, "e": Word{Word: "e", Def: "[Interjection] Erase one or more words. (Number of words erased depends on context but should be less than a full sentence.)", By: "fagri", Score: -1}, "eq": Word{Word: "eq", Def: "hesitation, »holding the floor«", By: "uakci", Score: 0}, "fa": Word{Word: "fa", Def: "= tảo dủo", By: "Ilmen", Score: 0}, "fa deo chiejio ba.": Word{Word: "fa deo chiejio ba.", Def: "(A0042) The child should go to school.", By: "examples", Score: 0}, "fa ji boi nai": Word{Word: "fa ji boi nai", Def: "(B0037) I will go now", By: "examples", Score: 0}, "fa ji rao tu loachaq kuejio da.": Word{Word: "fa ji rao tu loachaq kuejio da.", Def: "(A0700) I go to the library every Sunday.", By: "examples", Score: 0}, "fa ji to ro rao nichaq to rao jiachaq da.": Word{Word: "fa ji to ro rao nichaq to rao jiachaq da.", Def: "(A0425) I will go either today or tommorow.", By: "examples", Score: 0}, "fa mi helena nuidoaq.": Word{Word: "fa mi helena nuidoaq.", Def: "(NAM.3) Helena goes to town.", By: "official", Score: 0}, "fa suq hi rai moq.": Word{Word: "fa suq hi rai moq.", Def: "(A0075) Where are you going?", By: "examples", Score: 0}, "fa suq naokua ba.": Word{Word: "fa suq naokua ba.", Def: "(A0074) You ought to go to the bathroom.", By: "examples", Score: 0}, "fa suq nijui geabuai jio ba.": Word{Word: "fa suq nijui geabuai jio ba.", Def: "(A0169) Go to that tall building!", By: "examples", Score: 0}, "fa suqji sa kiqjio ba.": Word{Word: "fa suqji sa kiqjio ba.", Def: "(A0246) You go to a movie theater", By: "examples", Score: 0}, "fabi": Word{Word: "fabi", Def: "develop", By: "spreadsheet", Score: 0}, "facaq": Word{Word: "facaq", Def: "lead (gidva)", By: "spreadsheet", Score: -1}, "fafi": Word{Word: "fafi", Def: "▯ is ▯’s pet name; ▯ is a diminutive/familiar name for/of ▯.", By: "uakci", Score: 0}, "fafia": Word{Word: "fafia", Def: "▯ leads ▯; ▯ shows ▯ the way (to ▯).", By: "uakci", Score: 0}, "fagaq": Word{Word: "fagaq", Def: "▯ goes with ▯ to ▯ from ▯.", By: "lynn", Score: 0}, "fai": Word{Word: "fai", Def: "pủı sa túq lủ gủo hóa jêo dóshī dógū da", By: "uakci", Score: 0}, "fai choaijaq ni da.": Word{Word: "fai choaijaq ni da.", Def: "(A0806) This is typically expensive.", By: "examples", Score: 0}, "fai hiaq bo poq da.": Word{Word: "fai hiaq bo poq da.", Def: "(A0803) The person is typical in being poor.", By: "examples", Score: 0}, "fai jai ji da.": Word{Word: "fai jai ji da.", Def: "(A0800) I'm typical in being happy.", By: "examples", Score: 0}, "fai liu liqdeo da.": Word{Word: "fai liu liqdeo da.", Def: "(A0804) The girl is typically light.", By: "examples", Score: 0}, "fai liu naqdeo da.": Word{Word: "fai liu naqdeo da.", Def: "(A0805) The boy is typically light.", By: "examples", Score: 0}, "fai meoca nijao da.": Word{Word: "fai meoca nijao da.", Def: "(A0807) That's typical in being sad.", By: "examples", Score: 0}, "fai mia pai ho da.": Word{Word: "fai mia pai ho da.", Def: "(A0802) She is typical in being popular.", By: "examples", Score: 0}, "fai moi go cuaq de ba.": Word{Word: "fai moi go cuaq de ba.", Def: "(A0498) Think often about beauty.", By: "examples", Score: 0}, "fai moinieq suq da.": Word{Word: "fai moinieq suq da.", Def: "(A0809) You're typically stupid.", By: "examples", Score: 0}, "fai ruaq ji lu cijue pa jei naraq jue da.": Word{Word: "fai ruaq ji lu cijue pa jei naraq jue da.", Def: "(A0149) I often say that June is the orange month.", By: "examples", Score: 0}, "fai tijao jao da.": Word{Word: "fai tijao jao da.", Def: "(A0808) That far thing is typical in being far away.", By: "examples", Score: 0}, "fai tishue ho po ji ga buajio.": Word{Word: "fai tishue ho po ji ga buajio.", Def: "(ADV.2) It is frequent that they stay at my house.", By: "official", Score: 0}, "fai tuoq ni piohea da.": Word{Word: "fai tuoq ni piohea da.", Def: "(A0801) This stone is typically heavy.", By: "examples", Score: 0}, "faidu": Word{Word: "faidu", Def: "▯ (number or representation thereof) is the least n such that the n-th element of ▯ satisfies the property ▯.", By: "uakci", Score: 0}, "faigodeoq": Word{Word: "faigodeoq", Def: "▯ is barley (Hordeum vulgare).", By: "Ilmen", Score: 0}, "faiji": Word{Word: "faiji", Def: "▯ is the earliest element of ▯ that satisfies the property ▯.", By: "uakci", Score: 0}, "faikua": Word{Word: "faikua", Def: "▯ is a living room", By: "fagri", Score: -1}, "fajeq": Word{Word: "fajeq", Def: "= [X] Jẻq fả.", By: "Ilmen", Score: 0}, "fakea": Word{Word: "fakea", Def: "▯ is a robot (not necessarily humanoid).", By: "Ilmen", Score: 0}, "fanilapaq": Word{Word: "fanilapaq", Def: "▯ is vanilla extract", By: "fagri", Score: 0}, "fao": Word{Word: "fao", Def: "predicate: ‘end’; ▯ is an end/ending; ▯ is an end/ending of ▯.", By: "official", Score: 0}, "faoboq": Word{Word: "faoboq", Def: "save", By: "spreadsheet", Score: 0}, "faofaitoai": Word{Word: "faofaitoai", Def: "▯ is a common transformative complex-forming suffix.", By: "uakci", Score: 0}, "faolai": Word{Word: "faolai", Def: "full stop, period (.)", By: "uakci", Score: 0}, "faolaime": Word{Word: "faolaime", Def: "▯ is an ending", By: "seaqtaq", Score: 0}, "faoreoq": Word{Word: "faoreoq", Def: "finally", By: "spreadsheet", Score: 0}, "faosia": Word{Word: "faosia", Def: "endless", By: "spreadsheet", Score: 0}, "faotua": Word{Word: "faotua", Def: "finish", By: "spreadsheet", Score: 0}, "faq": Word{Word: "faq", Def: "rảo sa ráı dóshī sa", By: "uakci", Score: 0}, "faq pu hoq sa rai.": Word{Word: "faq pu hoq sa rai.", Def: "(QUA.7) It happened somehow.", By: "official", Score: 0}, "faqba": Word{Word: "faqba", Def: "translate, fanva", By: "spreadsheet", Score: -1}, "faqduq": Word{Word: "faqduq", Def: "Habitual Aspect", By: "spreadsheet", Score: 0}, "faqjui": Word{Word: "faqjui", Def: "(fork of #ykUUiLX02) ▯(event, period of time) elapses for close to ▯ unit of time", By: "seaqtaq", Score: 0}, "faqrioi": Word{Word: "faqrioi", Def: "(fork of #uj3xeJG6G) ▯ is the case instead of ▯ being the case", By: "seaqtaq", Score: 0}, "faqriu": Word{Word: "faqriu", Def: "Resumptive Aspect", By: "spreadsheet", Score: 0}, "faqru": Word{Word: "faqru", Def: "▯ is a function defined to have value ▯ with variable ▯ replaced with the argument.", By: "uakci", Score: 0}, "faqshoq": Word{Word: "faqshoq", Def: "function (mathematics)", By: "spreadsheet", Score: 0}, "faqshu": Word{Word: "faqshu", Def: "▯ is the result of applying function ▯ to ▯; ▯ = ▯‘▯.", By: "uakci", Score: 0}, "faqtei": Word{Word: "faqtei", Def: "manner", By: "spreadsheet", Score: 0}, "faraqse": Word{Word: "faraqse", Def: "▯ pertains to the culture of France – French Republic.", By: "countries", Score: 0}, "faraqsegua": Word{Word: "faraqsegua", Def: "▯ is the country France – French Republic.", By: "countries", Score: 0}, "faraqsepoq": Word{Word: "faraqsepoq", Def: "Person ▯ is a result related to ▯’s venture to ▯ from ▯.", By: "uakci", Score: 0}, "faraqsetoaq": Word{Word: "faraqsetoaq", Def: "▯ is (one of) the language(s) spoken in France – French Republic.", By: "countries", Score: 0}, "farika": Word{Word: "farika", Def: "predicate: ‘Africa’; ▯ is Africa.", By: "official", Score: 0}, "fasa": Word{Word: "fasa", Def: "punish", By: "spreadsheet", Score: -1}, "fasiao": Word{Word: "fasiao", Def: "▯ is the origin of ▯'s journey to place ▯.", By: "Hoemai", Score: 0}, "fatao": Word{Word: "fatao", Def: "▯ goes elsewhere to do ▯.", By: "lynn", Score: 0}, "fe": Word{Word: "fe", Def: "predicate: ‘five’; ▯ are five in number.", By: "official", Score: 0}, "fea": Word{Word: "fea", Def: "predicate: ‘endure’; ▯ endures ▯.", By: "official", Score: 0}, "feabuo": Word{Word: "feabuo", Def: "▯ is resigned to satisfy the property ▯.", By: "Ilmen", Score: 0}, "fei": Word{Word: "fei", Def: "cả bû tỉaojāı dóshī sa ráı na môı dóshī sa púı cảı da", By: "uakci", Score: 0}, "feigaq": Word{Word: "feigaq", Def: "▯ and ▯ are angry with/at one another; ▯ is at odds with ▯.", By: "uakci", Score: 0}, "feijaq": Word{Word: "feijaq", Def: "▯ is furious/mad.", By: "Ilmen", Score: 0}, "feikuai": Word{Word: "feikuai", Def: "▯is aggressive", By: "seaqtaq", Score: 0}, "feikui": Word{Word: "feikui", Def: "nuisance", By: "spreadsheet", Score: 0}, "feiluaq": Word{Word: "feiluaq", Def: "▯ teases, nags, pranks, picks on, bullies ▯; ▯ harasses ▯ for their own enjoyment.", By: "uakci", Score: 2}, "fejieq": Word{Word: "fejieq", Def: "▯ is a pentagone.", By: "Ilmen", Score: 0}, "fejue": Word{Word: "fejue", Def: "▯ is May", By: "Xeizzen", Score: 0}, "feko": Word{Word: "feko", Def: "predicate: ‘fifth’; ▯ is fifth among ▯.", By: "official", Score: 0}, "fekoq": Word{Word: "fekoq", Def: "Predication ▯ has ▯ as its fifth argument place.", By: "uakci", Score: 0}, "felaqtei": Word{Word: "felaqtei", Def: "▯ is the fifth tone (peaking).", By: "lynn", Score: 0}, "fele": Word{Word: "fele", Def: "▯ belongs to the Felis taxonomic genus.", By: "Ilmen", Score: 0}, "feletei": Word{Word: "feletei", Def: "▯ belongs to the Feliformia taxonomic suborder.", By: "Ilmen", Score: 0}, "fenoq": Word{Word: "fenoq", Def: "▯ is a fellow ▯-er to ▯; ▯ is someone who satisfies p-ty ▯ who isn’t ▯.", By: "uakci", Score: 0}, "feo": Word{Word: "feo", Def: "predicate: ‘direction’; ▯ is a direction.", By: "official", Score: 0}, "feochiu": Word{Word: "feochiu", Def: "▯ are the spherical coordinates (distance, inclination and azimuth) of the direction ▯ relatively to the spatial frame of reference ▯.", By: "Ilmen", Score: 0}, "feoduo": Word{Word: "feoduo", Def: "▯ moves towards ▯.", By: "Ilmen", Score: 0}, "feokuaq": Word{Word: "feokuaq", Def: "point to (e.g. with a finger)", By: "spreadsheet", Score: 0}, "feone": Word{Word: "feone", Def: "▯ is the angle formed by the two straight lines or planes ▯ and ▯.", By: "Ilmen", Score: 0}, "feoni": Word{Word: "feoni", Def: "Pointing demonstrative", By: "spreadsheet", Score: 0}, "feoti": Word{Word: "feoti", Def: "▯ is at the direction ▯ from ▯.", By: "Ilmen", Score: 1}, "feoti tuchaoce hi feo ni moq.": Word{Word: "feoti tuchaoce hi feo ni moq.", Def: "(A0956) At which direction busstop is from here?", By: "examples", Score: 0}, "feq": Word{Word: "feq", Def: "start new sentence — retract the assertion of veridicality for the preceding sentence — bind hoa to the precêding for\u00a0the entirety of following sentence — used for comments.", By: "uakci", Score: -1}, "feqbihaq": Word{Word: "feqbihaq", Def: "▯ talks about others using excessive verbiage while using the phrase ‘excessive verbiage’ themselves, which is excessive and verbiage.", By: "uakci", Score: 0}, "feu": Word{Word: "feu", Def: "fanza", By: "spreadsheet", Score: -1}, "feuca": Word{Word: "feuca", Def: "▯ is annoying", By: "seaqtaq", Score: 0}, "feujuaoreai": Word{Word: "feujuaoreai", Def: "▯ is annoyingly rebellious", By: "seaqtaq", Score: 1}, "fi": Word{Word: "fi", Def: "linking word: first argument place", By: "lynn", Score: 0}, "fia": Word{Word: "fia", Def: "predicate: ‘previous’; ▯ is previous to ▯ in sequence ▯; ▯ precedes ▯ in sequence ▯.", By: "official", Score: 0}, "fiachaq": Word{Word: "fiachaq", Def: "Tuesday", By: "uakci", Score: 0}, "fiacu": Word{Word: "fiacu", Def: "sequence (abstract)", By: "spreadsheet", Score: 0}, "fiacuko": Word{Word: "fiacuko", Def: "pormoi", By: "spreadsheet", Score: 0}, "fiacume": Word{Word: "fiacume", Def: "konkatena", By: "spreadsheet", Score: 0}, "fiaho": Word{Word: "fiaho", Def: "▯ is him (obviative); ▯ is the second-to-lastly mentioned animate referent.", By: "Ilmen", Score: 0}, "fiahoa": Word{Word: "fiahoa", Def: "predicate: relative pronoun whose antecedent is the head of the next outer containing relative clause.", By: "Ilmen", Score: 0}, "fiajeo": Word{Word: "fiajeo", Def: "zilbri", By: "spreadsheet", Score: 0}, "fiako": Word{Word: "fiako", Def: "▯, in the sequence ▯, is at position ▯, counting from the end/right direction, the last slot having 1 as its index.", By: "Ilmen", Score: 0}, "fiamaq": Word{Word: "fiamaq", Def: "▯ is it (obviative); ▯ is the second-to-lastly mentioned inanimate referent.", By: "Ilmen", Score: 0}, "fiame": Word{Word: "fiame", Def: "konkatena", By: "spreadsheet", Score: 0}, "fiasia": Word{Word: "fiasia", Def: "▯ is last in sequence ▯.", By: "Ilmen", Score: 0}, "fiasoq": Word{Word: "fiasoq", Def: "▯ is a primate.", By: "Ilmen", Score: 0}, "fiasu": Word{Word: "fiasu", Def: "predicate: repeats the next to last predicate.", By: "Ilmen", Score: 0}, "fiatu": Word{Word: "fiatu", Def: "▯ is previous in sequence ▯.", By: "Ilmen", Score: 0}, "fichoa": Word{Word: "fichoa", Def: "whistle", By: "spreadsheet", Score: 0}, "fie": Word{Word: "fie", Def: "predicate: ‘ugly’; ▯ is ugly.", By: "official", Score: 0}, "fieq": Word{Word: "fieq", Def: "author", By: "spreadsheet", Score: -1}, "fieq sa pui toaqpoq sa toa.": Word{Word: "fieq sa pui toaqpoq sa toa.", Def: "(A0562) Many Toaqians create words.", By: "examples", Score: 0}, "fieqjoe": Word{Word: "fieqjoe", Def: "▯ is creative\u00a0", By: "seaqtaq", Score: 1}, "fieqkuaige": Word{Word: "fieqkuaige", Def: "▯ inspires ▯ to create ▯.", By: "uakci", Score: 0}, "fieqse": Word{Word: "fieqse", Def: "▯ is a creation", By: "seaqtaq", Score: 0}, "fiji": Word{Word: "fiji", Def: "(fork of #Ysze9KPwZ) ▯ is satisfied by me.", By: "sheireq", Score: 0}, "fikuheu": Word{Word: "fikuheu", Def: "fig", By: "spreadsheet", Score: 0}, "fili": Word{Word: "fili", Def: "▯ is a minute.", By: "uakci", Score: 0}, "fioq": Word{Word: "fioq", Def: "▯ makes a copy of ▯ which satisfies property ▯; ▯ translates/transforms ▯ into something which ▯-s (original thing not necessarily consumed in the process).", By: "uakci", Score: 0}, "fioqse": Word{Word: "fioqse", Def: "▯ is a copy/parallel of ▯ which satisfies property ▯; ▯ is a translation/version/rework of ▯ that does ▯.", By: "uakci", Score: 0}, "fiq": Word{Word: "fiq", Def: "▯ throws, flings, darts, shoots, hurls, swings ▯ at/towards ▯; ▯ propels object ▯ by means of a dynamic, instantaneous body movement.", By: "uakci", Score: 0}, "fiu": Word{Word: "fiu", Def: "predicate: ‘shallow’; ▯ is shallow.", By: "official", Score: 0}, "fiutoe": Word{Word: "fiutoe", Def: "▯ notches/cuts ▯ (incomplete cut, not resulting in a complete separation).", By: "Ilmen", Score: 0}, "flaq bi flutter gailȳ": Word{Word: "flaq bi flutter gailȳ", Def: "(B0052) The flags are gaily fluttering", By: "examples", Score: 0}, "fo": Word{Word: "fo", Def: "Proposition ▯, in addition to being true/actual, satisfies property ▯.", By: "uakci", Score: 0}, "foa": Word{Word: "foa", Def: "predicate: ‘feel’; ▯ feels ▯ (good or bad); ▯ is ▯ (ill or well).", By: "official", Score: 0}, "foacia": Word{Word: "foacia", Def: "▯ doesn’t feel good or bad; ▯ doesn’t feel in any way in particular.", By: "uakci", Score: 0}, "foai": Word{Word: "foai", Def: "▯ is a detail of/on ▯.", By: "uakci", Score: 0}, "foaidoa": Word{Word: "foaidoa", Def: "▯ gives description ▯ of ▯", By: "seaqtaq", Score: 0}, "foaimia": Word{Word: "foaimia", Def: "▯ is detailed, precise.", By: "uakci", Score: 0}, "foaimiu": Word{Word: "foaimiu", Def: "▯ is the exegesis of ▯; ▯ is a hermeneutical analysis of ▯; ▯ is a semantic decomposition of ▯.", By: "uakci", Score: 0}, "foaisidui": Word{Word: "foaisidui", Def: "▯ is petty about ▯.", By: "uakci", Score: 0}, "foaq": Word{Word: "foaq", Def: "predicate: ‘comfortable’; ▯ is comfortable; ▯ feels comfort; ▯ feels comfort in satisfying property ▯.", By: "official", Score: 0}, "foaq nie ni kua da.": Word{Word: "foaq nie ni kua da.", Def: "(A0231) (I'm) comfortable in this room.", By: "examples", Score: 0}, "foaqca": Word{Word: "foaqca", Def: "comfortable (e.g. chair…)", By: "spreadsheet", Score: 0}, "foaqfui": Word{Word: "foaqfui", Def: "predicate: ‘convenient’; ▯ is convenient; ▯ is comfortably easy.", By: "official", Score: 0}, "foi": Word{Word: "foi", Def: "▯ is bored.", By: "seaqtaq", Score: 0}, "foica": Word{Word: "foica", Def: "▯ is boring/dull", By: "seaqtaq", Score: 0}, "foilie": Word{Word: "foilie", Def: "▯ is bored", By: "seaqtaq", Score: 0}, "foimoe": Word{Word: "foimoe", Def: "▯ is bored.", By: "lynn", Score: 0}, "foq": Word{Word: "foq", Def: "predicate: ‘phone’; ▯ is a telephone.", By: "official", Score: 0}, "foqchiu": Word{Word: "foqchiu", Def: "▯ is a phone number.", By: "uakci", Score: 1}, "foqcua": Word{Word: "foqcua", Def: "▯ picks up the phone /\u00a0answers the phone.", By: "lynn", Score: 0}, "foqdeoq": Word{Word: "foqdeoq", Def: "predicate: ‘talk.on.the.phone’; ▯ talks on the phone with ▯.", By: "official", Score: 0}, "foqjuq": Word{Word: "foqjuq", Def: "▯ answers the phone", By: "fagri", Score: 0}, "foqlaq": Word{Word: "foqlaq", Def: "▯ is a ringtone", By: "seaqtaq", Score: 0}, "foqpai": Word{Word: "foqpai", Def: "▯ is a contact", By: "seaqtaq", Score: 0}, "foqtao": Word{Word: "foqtao", Def: "▯ calls ▯\u00a0", By: "seaqtaq", Score: 0}, "foto": Word{Word: "foto", Def: "predicate: ‘photo’; ▯ is a photograph.", By: "official", Score: 0}, "fu": Word{Word: "fu", Def: "= mu roaq", By: "Ilmen", Score: 0}, "fua": Word{Word: "fua", Def: "predicate: ‘furniture’; ▯ is an item of furniture.", By: "official", Score: 0}, "fuai": Word{Word: "fuai", Def: "predicate: ‘committee’; ▯ is a committee.", By: "official", Score: 0}, "fuaijoaq": Word{Word: "fuaijoaq", Def: "▯ is the chairperson of ▯.", By: "lynn", Score: 0}, "fuaimea": Word{Word: "fuaimea", Def: "▯ is a member of ▯ (a committee).", By: "lynn", Score: 0}, "fuaq": Word{Word: "fuaq", Def: "predicate: ‘picture’; ▯ is an image / a picture.", By: "official", Score: 0}, "fuaqfieq": Word{Word: "fuaqfieq", Def: "▯ creates/invents picture ▯.", By: "lynn", Score: 0}, "fuaqkai": Word{Word: "fuaqkai", Def: "predicate: ‘draw’; ▯ draws image ▯ on ▯.", By: "official", Score: 0}, "fuaqkea": Word{Word: "fuaqkea", Def: "predicate: ‘camera’; ▯ is a photo-camera.", By: "official", Score: 0}, "fuaqmuoq": Word{Word: "fuaqmuoq", Def: "▯ is paint (a dye specifically for painting).", By: "uakci", Score: 0}, "fuaqnueqchuo": Word{Word: "fuaqnueqchuo", Def: "mirror (object)", By: "spreadsheet", Score: -1}, "fuaqnuoqchuo": Word{Word: "fuaqnuoqchuo", Def: "▯ is a mirror.", By: "Ilmen", Score: 0}, "fuaqtao": Word{Word: "fuaqtao", Def: "▯ takes a photo", By: "seaqtaq", Score: 0}, "fuaqtaotaq": Word{Word: "fuaqtaotaq", Def: "▯ takes a selfie", By: "seaqtaq", Score: 0}, "fuaqtaq": Word{Word: "fuaqtaq", Def: "▯ is a selfie", By: "seaqtaq", Score: 0}, "fubu": Word{Word: "fubu", Def: "▯ dives/swoops.", By: "Ilmen", Score: 0}, "fue": Word{Word: "fue", Def: "predicate: ‘hundred’; ▯ are a hundred in number.", By: "official", Score: 0}, "fuepaq": Word{Word: "fuepaq", Def: "percent (hundred part)", By: "spreadsheet", Score: 0}, "fueq": Word{Word: "fueq", Def: "responsible [polysemous?]", By: "spreadsheet", Score: 0}, "fueshu": Word{Word: "fueshu", Def: "flow", By: "spreadsheet", Score: 0}, "fufu\u00a0": Word{Word: "fufu\u00a0", Def: "▯ is the offspring of the offspring of ▯", By: "seaqtaq", Score: 0}, "fuheq": Word{Word: "fuheq", Def: "pregnant", By: "spreadsheet", Score: 0}, "fuhie": Word{Word: "fuhie", Def: "pregnant", By: "spreadsheet", Score: 0}, "fui": Word{Word: "fui", Def: "predicate: ‘easy’; Satisfying property ▯ is easy for ▯.", By: "official", Score: 0}, "fukioq": Word{Word: "fukioq", Def: "egg", By: "spreadsheet", Score: -1}, "fuluigiq": Word{Word: "fuluigiq", Def: "pregnant", By: "spreadsheet", Score: 0}, "fuo": Word{Word: "fuo", Def: "= #soq #jủı", By: "uakci", Score: 0}, "fuq": Word{Word: "fuq", Def: "predicate: ‘clothing’; ▯ is an article of clothing / garment / dress.", By: "official", Score: 0}, "fuqcea": Word{Word: "fuqcea", Def: "pocket", By: "spreadsheet", Score: 0}, "fuqcia": Word{Word: "fuqcia", Def: "▯ is naked/bare", By: "seaqtaq", Score: 0}, "fuqguepaqnuachuo": Word{Word: "fuqguepaqnuachuo", Def: "▯ is an iron", By: "seaqtaq", Score: 0}, "fuqheq": Word{Word: "fuqheq", Def: "▯ is a dresser/wardrobe", By: "seaqtaq", Score: 0}, "fuqluaiche": Word{Word: "fuqluaiche", Def: "▯ is a clown.", By: "Ilmen", Score: 0}, "fuqpaqcea": Word{Word: "fuqpaqcea", Def: "pocket", By: "spreadsheet", Score: 0}, "fuqshuaq": Word{Word: "fuqshuaq", Def: "sheep", By: "spreadsheet", Score: 0}, "fuqsia": Word{Word: "fuqsia", Def: "naked", By: "spreadsheet", Score: 0}, "fuqtiai": Word{Word: "fuqtiai", Def: "▯ is a drawer (for clothes)", By: "fagri", Score: 0}, "fura": Word{Word: "fura", Def: "rotten, decayed", By: "spreadsheet", Score: -1}, "furi": Word{Word: "furi", Def: "oscillate", By: "spreadsheet", Score: 0}, "fusha": Word{Word: "fusha", Def: "rub", By: "spreadsheet", Score: -1}, "fushuaq": Word{Word: "fushuaq", Def: "(fork of #MPIwE70e7) ▯ procreates/reproduces; ▯ begets offspring ▯.", By: "seaqtaq", Score: 0}, "fushuaqdeqbu": Word{Word: "fushuaqdeqbu", Def: "▯ is infertile.", By: "uakci", Score: 0}, "fushuaqtaoshao": Word{Word: "fushuaqtaoshao", Def: "▯ plans to have kids.", By: "uakci", Score: 0}, "futoq": Word{Word: "futoq", Def: "mattress", By: "spreadsheet", Score: -1}, "ga": Word{Word: "ga", Def: "end-conversion: ‘END’; terminates conversion via predicalizer.", By: "official", Score: 0}, "gace": Word{Word: "gace", Def: "▯ feels itchy.", By: "Ilmen", Score: 0}, "gai": Word{Word: "gai", Def: "predicate: ‘perceive’; ▯ senses/observes/perceives state of affairs ▯.", By: "official", Score: 0}, "gai ji sa hiaq reobo da.": Word{Word: "gai ji sa hiaq reobo da.", Def: "(A0845) I see something with not many colors.", By: "examples", Score: 0}, "gai ji sa mia ca da.": Word{Word: "gai ji sa mia ca da.", Def: "(A0836) I see something that cause a lot of other things.", By: "examples", Score: 0}, "gaichiai": Word{Word: "gaichiai", Def: "▯ halluciates; ▯ has hallucination ▯.", By: "Ilmen", Score: 1}, "gaicia": Word{Word: "gaicia", Def: "▯ is numb.", By: "Ilmen", Score: 0}, "gaifuili": Word{Word: "gaifuili", Def: "It is easy to sense what satisfies property ▯.", By: "fagri", Score: 0}, "gaihua": Word{Word: "gaihua", Def: "▯ is a sensory organ; ▯ is ▯’s body part which is used for perception.", By: "uakci", Score: 0}, "gaiji": Word{Word: "gaiji", Def: "I perceive here and now that ▯ is the case.", By: "Ilmen", Score: 0}, "gaikiu": Word{Word: "gaikiu", Def: "▯ is perceptible / observable / able to be sensed.", By: "niucuq", Score: 0}, "gaikiuboq": Word{Word: "gaikiuboq", Def: "hide", By: "spreadsheet", Score: 0}, "gaikiubu": Word{Word: "gaikiubu", Def: "▯ is imperceptible.", By: "Ilmen", Score: 0}, "gaikiubutua": Word{Word: "gaikiubutua", Def: "hide", By: "spreadsheet", Score: 0}, "gaikuai": Word{Word: "gaikuai", Def: "hope", By: "spreadsheet", Score: 0}, "gaimoaq": Word{Word: "gaimoaq", Def: "▯ remembers from perception/experience that ▯ was the case.", By: "Ilmen", Score: 0}, "gaimoaqji": Word{Word: "gaimoaqji", Def: "I know from memory of direct experience that ▯ was the case.", By: "Ilmen", Score: 0}, "gaimuo": Word{Word: "gaimuo", Def: "▯ sees ▯ for what it is; ▯ understands ▯", By: "fagri", Score: 1}, "gaimuomuo": Word{Word: "gaimuomuo", Def: "▯ is enlightened", By: "fagri", Score: 0}, "gaimuotua": Word{Word: "gaimuotua", Def: "Tủa\u00a0gảımūo ▯ ▯ ▯.", By: "fagri", Score: 0}, "gaino": Word{Word: "gaino", Def: "▯ is a sense; ▯ is a mode of perception concerning stimuli ▯.", By: "uakci", Score: 1}, "gaipua": Word{Word: "gaipua", Def: "predicate: ‘enjoy’; ▯ enjoys sensing/observing ▯.", By: "official", Score: 0}, "gairaq": Word{Word: "gairaq", Def: "▯ is perceptual.", By: "Ilmen", Score: 0}, "gaise": Word{Word: "gaise", Def: "▯ is a perception; ▯ is a perception of ▯.", By: "Ilmen", Score: 0}, "gaishao": Word{Word: "gaishao", Def: "hope", By: "spreadsheet", Score: 0}, "gaisho": Word{Word: "gaisho", Def: "appear", By: "spreadsheet", Score: 0}, "gaja": Word{Word: "gaja", Def: "▯ is the planet earth", By: "seaqtaq", Score: 0}, "gaji": Word{Word: "gaji", Def: "article (grammar)", By: "spreadsheet", Score: -1}, "galei": Word{Word: "galei", Def: "▯ is an edible dormouse (Glis glis).", By: "Ilmen", Score: 0}, "galeipuq": Word{Word: "galeipuq", Def: "▯ belongs to the Glires taxonomic clade (rodents and lagomorphs).", By: "Ilmen", Score: 0}, "galo": Word{Word: "galo", Def: "chicken", By: "spreadsheet", Score: -1}, "galu": Word{Word: "galu", Def: "jgalu (nail/claw)", By: "spreadsheet", Score: -1}, "gama": Word{Word: "gama", Def: "camel", By: "spreadsheet", Score: 0}, "game": Word{Word: "game", Def: "gamete / sovda", By: "spreadsheet", Score: 0}, "gana": Word{Word: "gana", Def: "▯ pertains to the culture of Ghana – Republic of Ghana.", By: "countries", Score: 0}, "ganagua": Word{Word: "ganagua", Def: "▯ is the country Ghana – Republic of Ghana.", By: "countries", Score: 0}, "ganatoaq": Word{Word: "ganatoaq", Def: "▯ is (one of) the language(s) spoken in Ghana – Republic of Ghana.", By: "countries", Score: 0}, "gao": Word{Word: "gao", Def: "dảı shûa sa ráı dóshī dógū, na ru bủ dảı shûa sa ráı dógū dóshī da", By: "uakci", Score: 0}, "gaoduo": Word{Word: "gaoduo", Def: "predicate: ‘move.upwards’; ▯ moves upwards.", By: "official", Score: 0}, "gaofeo": Word{Word: "gaofeo", Def: "(fork of #_wOmouB1-) ▯ is the north direction", By: "seaqtaq", Score: 0}, "gaojeaq": Word{Word: "gaojeaq", Def: "▯ rises", By: "seaqtaq", Score: 0}, "gaojiai": Word{Word: "gaojiai", Def: "▯ reaches up to grab ▯", By: "seaqtaq", Score: 0}, "gaokoi": Word{Word: "gaokoi", Def: "predicate: ‘climb’; ▯ climbs.", By: "official", Score: 0}, "gaokoichuo": Word{Word: "gaokoichuo", Def: "▯ is a ladder.", By: "Ilmen", Score: 0}, "gaokoifua": Word{Word: "gaokoifua", Def: "▯ is a stairway/staircase.", By: "Ilmen", Score: 0}, "gaokoiniai": Word{Word: "gaokoiniai", Def: "▯ is a tree shrew (Scandentia taxonomic order).", By: "Ilmen", Score: 0}, "gaopaq": Word{Word: "gaopaq", Def: "predicate: ‘top’; ▯ is the top of ▯.", By: "official", Score: 0}, "gaoshiaq": Word{Word: "gaoshiaq", Def: "▯ is the upper leg; ▯ are thighs.", By: "uakci", Score: 0}, "gaq": Word{Word: "gaq", Def: "tảo dóshī roı dógū dósāq da", By: "uakci", Score: 0}, "gaq cheo choadeoq ji puqho da.": Word{Word: "gaq cheo choadeoq ji puqho da.", Def: "(A0822) I'm chatting with them.", By: "examples", Score: 0}, "gaq cheo choadeoq suq ji roi puqho ba.": Word{Word: "gaq cheo choadeoq suq ji roi puqho ba.", Def: "(A0823) You should come chat with us.", By: "examples", Score: 0}, "gaq ho ji che chie ti masachuseci rao koniaq… gubiqsaq, ju ruemoaq ji da.": Word{Word: "gaq ho ji che chie ti masachuseci rao koniaq… gubiqsaq, ju ruemoaq ji da.", Def: "(A0455) She and I studied together in Massachusetts in… 2003, I think it was.", By: "examples", Score: 0}, "gaq ji suq fa ja poq bue da.": Word{Word: "gaq ji suq fa ja poq bue da.", Def: "(A0820) I go with you to the home.", By: "examples", Score: 0}, "gaq suq ji fa ja poq bue da.": Word{Word: "gaq suq ji fa ja poq bue da.", Def: "(A0821) You come with me to the home.", By: "examples", Score: 0}, "gaqcheo": Word{Word: "gaqcheo", Def: "▯ do ▯ together.", By: "uakci", Score: 0}, "gaqcia": Word{Word: "gaqcia", Def: "(fork of official) predicate: ‘alone’; ▯ is alone.", By: "seaqtaq", Score: 0}, "gaqcu": Word{Word: "gaqcu", Def: "organize", By: "spreadsheet", Score: -1}, "gaqguru": Word{Word: "gaqguru", Def: "▯ is a kangaroo (family Macropodidae).", By: "Hoemai", Score: 0}, "gaqgurugua": Word{Word: "gaqgurugua", Def: "▯ is Australia.", By: "Ilmen", Score: 2}, "gaqhao": Word{Word: "gaqhao", Def: "▯ keeps ▯ company; ▯ stays with ▯ so they will not be lonely", By: "fagri", Score: -3}, "gaqjui": Word{Word: "gaqjui", Def: "▯ accompanies ▯; ▯ stays with ▯.", By: "uakci", Score: 0}, "gaqkoe": Word{Word: "gaqkoe", Def: "▯ includes ▯ among ▯ for satisfying property ▯", By: "seaqtaq", Score: 0}, "gaqme": Word{Word: "gaqme", Def: "team/group/band/gang ()", By: "spreadsheet", Score: 0}, "gaqnuao": Word{Word: "gaqnuao", Def: "▯ is a synapsid.", By: "Ilmen", Score: 0}, "gaqsiamoe": Word{Word: "gaqsiamoe", Def: "lonely ()", By: "spreadsheet", Score: 0}, "gaqtao": Word{Word: "gaqtao", Def: "▯ takes part in ▯; ▯ participates in ▯.", By: "uakci", Score: 0}, "gara": Word{Word: "gara", Def: "▯ is a stomach.", By: "Hoemai", Score: 0}, "garapue": Word{Word: "garapue", Def: "▯ is a gastropod.", By: "Hoemai", Score: 0}, "garu": Word{Word: "garu", Def: "▯ combs ▯.", By: "Ilmen", Score: 0}, "garuchuo": Word{Word: "garuchuo", Def: "▯ is a comb.", By: "Ilmen", Score: 0}, "gau": Word{Word: "gau", Def: "▯ jai gau gasnu fai lo nei fe ▯.", By: "uakci", Score: 0}, "ge": Word{Word: "ge", Def: "predicate: ‘stimulus’; ▯ is a stimulus.", By: "official", Score: 0}, "gea": Word{Word: "gea", Def: "predicate: ‘high’; ▯ is high.", By: "official", Score: 0}, "geachua": Word{Word: "geachua", Def: "▯ is a caption/heading/title", By: "seaqtaq", Score: 0}, "geajeaqkea": Word{Word: "geajeaqkea", Def: "predicate: ‘lift’; ▯ is a lift.", By: "official", Score: 0}, "geanua": Word{Word: "geanua", Def: "predicate: ‘lift’; ▯ lifts up ▯.", By: "official", Score: 0}, "geaq": Word{Word: "geaq", Def: "predicate: ‘dirty’; ▯ is dirty/unclean/contaminated.", By: "official", Score: 0}, "geaq po suq ga toqfua kui hi rai moq": Word{Word: "geaq po suq ga toqfua kui hi rai moq", Def: "(PCT.3) Why is your table dirty?", By: "official", Score: 0}, "geaqpuo": Word{Word: "geaqpuo", Def: "dust", By: "spreadsheet", Score: 0}, "geaqsai": Word{Word: "geaqsai", Def: "▯ is dirt", By: "fagri", Score: 0}, "geatuaq": Word{Word: "geatuaq", Def: "▯ is a member of genus Aepyceros (the impala).", By: "Hoemai", Score: 0}, "gegai": Word{Word: "gegai", Def: "▯ has perception ▯ of ▯ (stimulus).", By: "Ilmen", Score: 0}, "gegu": Word{Word: "gegu", Def: "▯ is cartilage/gristle.", By: "Hoemai", Score: 0}, "gegucie": Word{Word: "gegucie", Def: "▯ is a member of the class Chondrichthyes (the cartilaginous fishes).", By: "Hoemai", Score: 0}, "gehopabi": Word{Word: "gehopabi", Def: "▯ is the alphabet. [Elderly Lojbanist should get the joke.]", By: "uakci", Score: 0}, "gei": Word{Word: "gei", Def: "predicate: ‘wear’; ▯ wears ▯.", By: "official", Score: 0}, "gei ho sa sao chea da.": Word{Word: "gei ho sa sao chea da.", Def: "(A0046) He wears a big hat.", By: "examples", Score: 0}, "gei poji liqfu sa cuireo da.": Word{Word: "gei poji liqfu sa cuireo da.", Def: "(A0726) My daughter is wearing something magenta.", By: "examples", Score: 0}, "geibeo": Word{Word: "geibeo", Def: "▯ changes clothes", By: "seaqtaq", Score: 0}, "geiciajui": Word{Word: "geiciajui", Def: "▯ is half-naked; ▯ wears nothing but underwear.", By: "uakci", Score: 0}, "geifao": Word{Word: "geifao", Def: "▯ is outerwear.", By: "uakci", Score: 0}, "geinua": Word{Word: "geinua", Def: "▯ takes clothing ▯ off ▯.", By: "uakci", Score: 0}, "geisho": Word{Word: "geisho", Def: "▯ gets dressed", By: "seaqtaq", Score: 0}, "geisia": Word{Word: "geisia", Def: "▯ is naked.", By: "Ilmen", Score: 0}, "geisiao": Word{Word: "geisiao", Def: "▯ is underwear.", By: "uakci", Score: 0}, "geli": Word{Word: "geli", Def: "▯ is bile.", By: "Ilmen", Score: 0}, "gemo": Word{Word: "gemo", Def: "▯ is a member of genus Homo.", By: "Hoemai", Score: 0}, "gemoi": Word{Word: "gemoi", Def: "▯ has ▯ come to their mind.", By: "uakci", Score: 0}, "gena": Word{Word: "gena", Def: "▯ is a knot.", By: "Ilmen", Score: 0}, "geo": Word{Word: "geo", Def: "predicate: ‘old’; ▯ is old.", By: "official", Score: 0}, "geo diaqkue da.": Word{Word: "geo diaqkue da.", Def: "(A0058) The monthly periodical is old.", By: "examples", Score: 0}, "geobia": Word{Word: "geobia", Def: "▯ is senecent.", By: "Ilmen", Score: 0}, "geodiu": Word{Word: "geodiu", Def: "▯ is archaeology.", By: "Ilmen", Score: 0}, "geokoaqnaq": Word{Word: "geokoaqnaq", Def: "An old man.", By: "Xeizzen", Score: 0}, "geone": Word{Word: "geone", Def: "predicate: ‘age’; ▯ is the age of ▯.", By: "official", Score: 0}, "geosoariaq": Word{Word: "geosoariaq", Def: "▯is a nursing home", By: "seaqtaq", Score: 0}, "geq": Word{Word: "geq", Def: "shỏ jẻq tỉ dóshī dógū kùı chêo kủaı ra chỉa dẻoq dóshī roı dógū da.", By: "uakci", Score: 0}, "geqhu": Word{Word: "geqhu", Def: "hook", By: "spreadsheet", Score: -1}, "geqkuai": Word{Word: "geqkuai", Def: "predicate: ‘miss’; ▯ misses ▯; ▯ hungers to meet ▯ (again).", By: "official", Score: 0}, "geqme": Word{Word: "geqme", Def: "▯ is a congress/assembly/conference/convention/meeting of ▯ (plural).", By: "Hoemai", Score: 0}, "geqsia": Word{Word: "geqsia", Def: "predicate: ‘alone’; ▯ is alone.", By: "official", Score: 0}, "gere": Word{Word: "gere", Def: "▯ is a hedgehog.", By: "Ilmen", Score: 0}, "gero": Word{Word: "gero", Def: "▯ is a crane (Grus genus)", By: "Ilmen", Score: 1}, "getea": Word{Word: "getea", Def: "▯ fears ▯ (stimulus).", By: "Ilmen", Score: 0}, "geu": Word{Word: "geu", Def: "▯ is ▯/1 lots of ▯ in property ▯; ▯ is ▯/1 as much as ▯ in p’ty ▯.", By: "uakci", Score: 0}, "gi": Word{Word: "gi", Def: "dóshī pa, lủ to ra shảo báq pỏq hóa, to rảq hóa sa lú cả hóa sa túe mỉedūoı ra jaı da", By: "uakci", Score: 0}, "gi ba.": Word{Word: "gi ba.", Def: "generic expression of good wishes for the listener (‘May it be good’); or generic request (‘Please be good.’)", By: "uakci", Score: 0}, "gi chaq ba.": Word{Word: "gi chaq ba.", Def: "phrase: \"Good day!\"", By: "official", Score: 0}, "gi chaq da.": Word{Word: "gi chaq da.", Def: "(A0090) The day is good.", By: "examples", Score: 0}, "gi diosiao ba.": Word{Word: "gi diosiao ba.", Def: "(A0062) The morning ought to be good.", By: "examples", Score: 0}, "gi haq tu haq heq hoa papika.": Word{Word: "gi haq tu haq heq hoa papika.", Def: "(QUA.3) Any food that contains paprika is good food.", By: "official", Score: 0}, "gi hoq jie ji da.": Word{Word: "gi hoq jie ji da.", Def: "(A0173) It is good to me.", By: "examples", Score: 0}, "gi jiuchaq ba!": Word{Word: "gi jiuchaq ba!", Def: "(A0601) Happy birthday!", By: "examples", Score: 0}, "gi ni niaq ba!": Word{Word: "gi ni niaq ba!", Def: "(A0600) Happy new year!", By: "examples", Score: 0}, "gi nuaq ba.": Word{Word: "gi nuaq ba.", Def: "phrase: \"Good night!\"", By: "official", Score: 0}, "gi nuaq da.": Word{Word: "gi nuaq da.", Def: "(A0091) The night is good.", By: "examples", Score: 0}, "gi sa daqmoa da.": Word{Word: "gi sa daqmoa da.", Def: "(A0130) Some moment is good.", By: "examples", Score: 0}, "gi seoqtue nai da. ": Word{Word: "gi seoqtue nai da. ", Def: "(A0538) The weather is nice now.", By: "examples", Score: 0}, "gi seoqtue rao nichaq da.": Word{Word: "gi seoqtue rao nichaq da.", Def: "(A0331) ", By: "examples", Score: 0}, "gia": Word{Word: "gia", Def: "predicate: ‘ribbon’; ▯ is a ribbon/tape/strip/stripe.", By: "official", Score: 0}, "giai": Word{Word: "giai", Def: "predicate: ‘incise’; ▯ incises/carves/scratches/engraves/cuts into ▯.", By: "official", Score: 0}, "giaikai": Word{Word: "giaikai", Def: "▯ carves ▯ on ▯.", By: "Ilmen", Score: 0}, "giaite": Word{Word: "giaite", Def: "▯ is an insect.", By: "Hoemai", Score: 0}, "giaitediu": Word{Word: "giaitediu", Def: "▯ is entomology.", By: "Ilmen", Score: 0}, "giakaq": Word{Word: "giakaq", Def: "▯ is a strip (a visual pattern, not a tridimentional shape).", By: "Ilmen", Score: 0}, "giao": Word{Word: "giao", Def: "predicate: ‘dry’; ▯ is dry.", By: "official", Score: 0}, "giaobia": Word{Word: "giaobia", Def: "land ▯ experiences a drought", By: "seaqtaq", Score: 0}, "giaoheu": Word{Word: "giaoheu", Def: "▯ is dried fruit; ▯ is a prune.", By: "uakci", Score: 0}, "giaq": Word{Word: "giaq", Def: "= to ru to ra #laq to #mẻ #lảq to to ra #pủa to #tẻ to ra #fỉeq to #dỏa #sảlī #tẻı", By: "uakci", Score: 0}, "giaqbiu": Word{Word: "giaqbiu", Def: "▯ is a flute.", By: "Ilmen", Score: 0}, "giaqcaimoe": Word{Word: "giaqcaimoe", Def: "▯ feels frission", By: "fagri", Score: -1}, "giaqche": Word{Word: "giaqche", Def: "▯ is a musician.", By: "Hoemai", Score: 0}, "giaqchoq": Word{Word: "giaqchoq", Def: "play (musical instrument)", By: "spreadsheet", Score: 0}, "giaqchuo": Word{Word: "giaqchuo", Def: "predicate: ‘musical.instrument’; ▯ is a musical instrument.", By: "official", Score: 0}, "giaqduo": Word{Word: "giaqduo", Def: "▯ dances to music/rhythm ▯.", By: "uakci", Score: 0}, "giaqkai": Word{Word: "giaqkai", Def: "▯ composes music ▯; ▯ writes notes ▯.", By: "uakci", Score: 0}, "giaqkaise": Word{Word: "giaqkaise", Def: "▯ is a music score; ▯ is a composition (written).", By: "uakci", Score: 0}, "giaqkoi": Word{Word: "giaqkoi", Def: "▯ walks to music / marches.", By: "lynn", Score: 0}, "giaqlai": Word{Word: "giaqlai", Def: "▯ is a note (musical) signifying ▯.", By: "uakci", Score: 0}, "giaqtei": Word{Word: "giaqtei", Def: "▯ is a melody; ▯ is a/the melody to music fragment ▯.", By: "uakci", Score: 0}, "giaqtoa": Word{Word: "giaqtoa", Def: "▯ are the lyrics to music/song ▯.", By: "Hoemai", Score: 0}, "giaqtoai": Word{Word: "giaqtoai", Def: "tone", By: "spreadsheet", Score: 0}, "gibaje": Word{Word: "gibaje", Def: "‘please’", By: "uakci", Score: 0}, "gicia": Word{Word: "gicia", Def: "predicate: ‘free.of’; ▯ is free of property ▯; ▯ not having property ▯ is good.", By: "official", Score: 0}, "gidaitue": Word{Word: "gidaitue", Def: "have the opportunity to", By: "spreadsheet", Score: 0}, "gideq": Word{Word: "gideq", Def: "▯ can do ▯ well; ▯ has the ability to do ▯.", By: "uakci", Score: 0}, "gie": Word{Word: "gie", Def: "predicate: ‘arm’; ▯ is an arm.", By: "official", Score: 0}, "giebea": Word{Word: "giebea", Def: "predicate: ‘elbow’; ▯ is an elbow.", By: "official", Score: 0}, "giegu": Word{Word: "giegu", Def: "▯ is (one's) both arms.", By: "lynn", Score: 0}, "giehie": Word{Word: "giehie", Def: "▯ carries ▯ with their arms (possibly only one arm, but not using only the hands).", By: "Ilmen", Score: 0}, "giejeoq": Word{Word: "giejeoq", Def: "predicate: ‘armpit’; ▯ is an armpit.", By: "official", Score: 0}, "giekea": Word{Word: "giekea", Def: "▯ is a robotic arm.", By: "Ilmen", Score: 0}, "gieq": Word{Word: "gieq", Def: "predicate: ‘shock’; ▯ shocks ▯.", By: "official", Score: 0}, "gieshio": Word{Word: "gieshio", Def: "predicate: ‘shoulder’; ▯ is a shoulder.", By: "official", Score: 0}, "gifaq": Word{Word: "gifaq", Def: "▯ is a good occurrence; ▯ takes place and is good.", By: "Hoemai", Score: 0}, "gifoa": Word{Word: "gifoa", Def: "be pleasured by", By: "spreadsheet", Score: 0}, "giga": Word{Word: "giga", Def: "predicate: ‘giga’; ▯ are 10^9 (1,000,000,000) in number; ▯ are a billion.", By: "official", Score: 0}, "gigaq": Word{Word: "gigaq", Def: "accustomed to", By: "spreadsheet", Score: 0}, "gigiodoa": Word{Word: "gigiodoa", Def: "▯ is krill of the Euphausia taxonomic genus.", By: "Ilmen", Score: 0}, "gigiodoasiu": Word{Word: "gigiodoasiu", Def: "▯ is krill of the Euphausiidae taxonomic family.", By: "Ilmen", Score: 0}, "gihuaq": Word{Word: "gihuaq", Def: "▯ is better than / preferable to ▯; ▯ zabnymau ▯", By: "fagri", Score: 0}, "gijaq": Word{Word: "gijaq", Def: "▯ is awesome.", By: "uakci", Score: 0}, "gijie": Word{Word: "gijie", Def: "jỉe gỉ dógū dóshī", By: "uakci", Score: 0}, "gijiejuq": Word{Word: "gijiejuq", Def: "▯ accepts p-ty ▯.", By: "uakci", Score: 1}, "gikuicia": Word{Word: "gikuicia", Def: "▯ happens for no good reason; ▯ does ▯ for no good reason.", By: "fagri", Score: 1}, "gikuq": Word{Word: "gikuq", Def: "praise", By: "spreadsheet", Score: 0}, "gila": Word{Word: "gila", Def: "▯ is in charge of satisfying the property ▯.", By: "Ilmen", Score: 1}, "gile": Word{Word: "gile", Def: "(fork of #1bop7NTap) There’s an opportunity for ▯ to happen; ▯ has the opportunity to do ▯ [JEO].", By: "uakci", Score: 1}, "gilie ti suq ni ba.": Word{Word: "gilie ti suq ni ba.", Def: "welcome! (interjection)", By: "spreadsheet", Score: 0}, "gimiu": Word{Word: "gimiu", Def: "approve", By: "spreadsheet", Score: -1}, "gina": Word{Word: "gina", Def: "▯ is a gene.", By: "Ilmen", Score: 0}, "gine": Word{Word: "gine", Def: "▯ is ▯’s score [in a game].", By: "uakci", Score: 0}, "gineq": Word{Word: "gineq", Def: "predicate: ‘fortunate’; ▯ is fortunate for ▯.", By: "official", Score: 0}, "ginetoai": Word{Word: "ginetoai", Def: "▯ is a point [in a game].", By: "uakci", Score: 0}, "ginue": Word{Word: "ginue", Def: "predicate: ‘promise’; ▯ promises to ▯ to satisfy property ▯, which is good for the latter.", By: "official", Score: 0}, "gio": Word{Word: "gio", Def: "cả sa pó dóshī gâıkīu sa báq da", By: "uakci", Score: 0}, "gioca": Word{Word: "gioca", Def: "▯ emits light ▯; ▯ shines with light ▯.", By: "uakci", Score: 0}, "giocia": Word{Word: "giocia", Def: "predicate: ‘dark’; ▯ is dark (without light).", By: "official", Score: 0}, "giodieq": Word{Word: "giodieq", Def: "▯ lights/illuminates ▯.", By: "Ilmen", Score: 0}, "giodoa": Word{Word: "giodoa", Def: "▯ lights/illuminates ▯.", By: "Ilmen", Score: 0}, "giofuaq": Word{Word: "giofuaq", Def: "predicate: ‘photograph’; ▯ is a photograph.", By: "official", Score: 0}, "giogoaq": Word{Word: "giogoaq", Def: "▯ is sufficiently smooth as to shine.", By: "Ilmen", Score: 0}, "giohiaq": Word{Word: "giohiaq", Def: "predicate: ‘dark’; ▯ is dark (poorly illuminated).", By: "official", Score: 0}, "giohoaqbeaq": Word{Word: "giohoaqbeaq", Def: "candle", By: "spreadsheet", Score: 0}, "giokea": Word{Word: "giokea", Def: "predicate: ‘lamp’; ▯ is a lamp.", By: "official", Score: 0}, "giomia": Word{Word: "giomia", Def: "predicate: ‘light’; ▯ is bright.", By: "official", Score: 0}, "gioniaq": Word{Word: "gioniaq", Def: "▯ is a light year.", By: "Hoemai", Score: 0}, "gionueqchuo": Word{Word: "gionueqchuo", Def: "mirror (object)", By: "spreadsheet", Score: -1}, "gionuoqchuo": Word{Word: "gionuoqchuo", Def: "▯ is a mirror.", By: "Ilmen", Score: 0}, "giopeokiu": Word{Word: "giopeokiu", Def: "clear (klina)", By: "spreadsheet", Score: 0}, "giopeoshoe": Word{Word: "giopeoshoe", Def: "transparent", By: "spreadsheet", Score: 0}, "gioria": Word{Word: "gioria", Def: "transparent", By: "spreadsheet", Score: 0}, "gioshuaq": Word{Word: "gioshuaq", Def: "shine ⓥ", By: "spreadsheet", Score: 0}, "gioshuaq nihoe ": Word{Word: "gioshuaq nihoe ", Def: "(B0006) The sun shines", By: "examples", Score: 0}, "gioti": Word{Word: "gioti", Def: "▯ (object/space) is illuminated.", By: "uakci", Score: 0}, "giotica": Word{Word: "giotica", Def: "▯ illuminates object/space ▯.", By: "uakci", Score: 0}, "gioticia": Word{Word: "gioticia", Def: "▯ is unilluminated; ▯ is not lit by anything.", By: "uakci", Score: 0}, "giotie": Word{Word: "giotie", Def: "▯ is opaque.", By: "uakci", Score: 0}, "giotituao": Word{Word: "giotituao", Def: "▯ is ill-lit.", By: "uakci", Score: 0}, "gipa": Word{Word: "gipa", Def: "▯ is made to satisfy property ▯, which is good for them; ▯ satisfies property ▯, which is done by somebody for them.", By: "uakci", Score: 0}, "giq": Word{Word: "giq", Def: "predicate: ‘opposite’; ▯ satisfies with reversed polarity property ▯.", By: "official", Score: 0}, "giq choi": Word{Word: "giq choi", Def: "▯ is dull", By: "seaqtaq", Score: 0}, "giq gi": Word{Word: "giq gi", Def: "predicate: ‘ungood’; ▯ is ungood.", By: "official", Score: 0}, "giq le hoai moaq roaqroaq sa po suq da.": Word{Word: "giq le hoai moaq roaqroaq sa po suq da.", Def: "(A0961) It's unlikely that grandparent still remembers something of yours.", By: "examples", Score: 0}, "giqbuoq": Word{Word: "giqbuoq", Def: "▯ is ironic/sarcastic (the surface-level content is non-serious, and the actual intent or meaning is the opposite.)", By: "lynn", Score: 0}, "giqkuq": Word{Word: "giqkuq", Def: "▯ is sarcastic; ▯ says ▯ sarcastically to ▯", By: "fagri", Score: 0}, "giqluapoq": Word{Word: "giqluapoq", Def: "▯ is an antagonist in story/movie/book/TV show ▯", By: "fagri", Score: 0}, "giqmiai": Word{Word: "giqmiai", Def: "▯ alliterates with ▯.", By: "uakci", Score: 0}, "giqseu": Word{Word: "giqseu", Def: "▯ = −▯. ▯ is the inverse of the number ▯.", By: "Ilmen", Score: 0}, "giqtua": Word{Word: "giqtua", Def: "▯/c does ▯/0 after having done ▯/0 in order to revert ▯/0 to its previous state; ▯, by doing (making happen) ▯, undoes ▯, bringing back ▯.", By: "uakci", Score: 1}, "gira": Word{Word: "gira", Def: "proud", By: "spreadsheet", Score: 0}, "giruaq": Word{Word: "giruaq", Def: "praise", By: "spreadsheet", Score: 0}, "gisieq": Word{Word: "gisieq", Def: "admire", By: "spreadsheet", Score: 0}, "gita": Word{Word: "gita", Def: "predicate: ‘guitar’; ▯ is a guitar.", By: "official", Score: 0}, "gitua": Word{Word: "gitua", Def: "▯ makes good thing ▯ happen.", By: "lynn", Score: 0}, "giu": Word{Word: "giu", Def: "mẻ dóshī sa móa na, na ru tu lủ jẻı hóa sa dópā shỉ roı sa dórē shỉ roı dó shỉ na lǔ to ru sảq hóa to mẻa hóa lú mẻ dóshī hóa ceı bı, sỏq dó lî tỉjūı ja dó to ru dópā to dórē na tu gíu bǔ jẻı dóshī da", By: "uakci", Score: 0}, "giuchoi": Word{Word: "giuchoi", Def: "▯ is a blade.", By: "Ilmen", Score: 0}, "giufa": Word{Word: "giufa", Def: "▯ goes along path ▯ from ▯", By: "seaqtaq", Score: 0}, "giunui": Word{Word: "giunui", Def: "▯ is narrow; ▯ is skinny; ▯ is improportionately short in a direction perpendicular to the main line along which the object is considered.", By: "uakci", Score: 0}, "giusao": Word{Word: "giusao", Def: "▯ is wide; ▯ is fat; ▯ is improportionately long in a direction perpendicular to the main line along which the object is considered.", By: "uakci", Score: 0}, "go": Word{Word: "go", Def: "linking word: ‘2nd.place’; linking word, indicates that the following argument fills the second argument place of the predicate.", By: "official", Score: 0}, "goa": Word{Word: "goa", Def: "area", By: "spreadsheet", Score: 0}, "goabui": Word{Word: "goabui", Def: "▯ is outside of ▯ in space.", By: "lynn", Score: 0}, "goadiu": Word{Word: "goadiu", Def: "▯ is geometry.", By: "Ilmen", Score: 0}, "goafai": Word{Word: "goafai", Def: "predicate: ‘widespread’; ▯ is widespread/common.", By: "official", Score: 0}, "goafuaq": Word{Word: "goafuaq", Def: "▯ is a sculpture / statue / figurine / three-dimensional model or picture.", By: "lynn", Score: 0}, "goai": Word{Word: "goai", Def: "predicate: ‘rub’; ▯ rubs against ▯ (intransitive non-agentive).", By: "official", Score: 0}, "goaica": Word{Word: "goaica", Def: "predicate: ‘rub’; ▯ causes ▯ to rub against ▯.", By: "official", Score: 0}, "goaicheo": Word{Word: "goaicheo", Def: "predicate: ‘rub.against.each.other’; ▯ rub against each other.", By: "official", Score: 0}, "goaigoaq": Word{Word: "goaigoaq", Def: "▯ is slippery", By: "seaqtaq", Score: 0}, "goaiheu": Word{Word: "goaiheu", Def: "▯ is a berry", By: "seaqtaq", Score: 0}, "goainua": Word{Word: "goainua", Def: "\u00a0▯ abrades material ▯ off ▯.", By: "Ilmen", Score: 0}, "goaise": Word{Word: "goaise", Def: "▯ is friction", By: "seaqtaq", Score: 0}, "goaisiaduo": Word{Word: "goaisiaduo", Def: "▯ slips/slides/glides (on ▯).", By: "Ilmen", Score: 0}, "goaitua": Word{Word: "goaitua", Def: "predicate: ‘rub’; ▯ makes ▯ rub against ▯.", By: "official", Score: 0}, "goajao": Word{Word: "goajao", Def: "predicate: ‘far’; ▯ is spatially far away from ▯.", By: "official", Score: 0}, "goajaq": Word{Word: "goajaq", Def: "▯ is voluminous.", By: "Ilmen", Score: 0}, "goamiq": Word{Word: "goamiq", Def: "▯ is ubiquitous/everywhere.", By: "Ilmen", Score: 0}, "goamoa": Word{Word: "goamoa", Def: "≈ [X] Tỏaı dóshī báq gỏa da. Hủaq nủı sıa ráı dóshī da.", By: "Ilmen", Score: 0}, "goane": Word{Word: "goane", Def: "▯ is the volume of ▯.", By: "Ilmen", Score: 0}, "goanie": Word{Word: "goanie", Def: "▯ is inside of ▯ in space.", By: "lynn", Score: 0}, "goanuai": Word{Word: "goanuai", Def: "▯_ is physical money/cash/coins", By: "seaqtaq", Score: 0}, "goanui": Word{Word: "goanui", Def: "▯ is spatially small / takes up little space.", By: "lynn", Score: 0}, "goaq": Word{Word: "goaq", Def: "predicate: ‘smooth’; ▯ is smooth/even.", By: "official", Score: 0}, "goaqchoacha": Word{Word: "goaqchoacha", Def: "▯ is breathy/murmured voice (phonetics)", By: "seaqtaq", Score: 0}, "goaqneoduo": Word{Word: "goaqneoduo", Def: "slip, slide, glide", By: "spreadsheet", Score: 0}, "goasao": Word{Word: "goasao", Def: "▯ is spatially big / takes up lots of space.", By: "lynn", Score: 0}, "goatei": Word{Word: "goatei", Def: "▯ is a spatial / three-dimensional shape; ▯ is the spatial / three-dimensional shape of ▯.", By: "lynn", Score: 0}, "goatuao": Word{Word: "goatuao", Def: "▯ has a small volume.", By: "Ilmen", Score: 0}, "gocha": Word{Word: "gocha", Def: "▯ is an hour.", By: "uakci", Score: 0}, "godeoq": Word{Word: "godeoq", Def: "▯ is a grass of the Hordeum genus.", By: "Ilmen", Score: 0}, "godoi": Word{Word: "godoi", Def: "▯ is a pika.", By: "Hoemai", Score: 0}, "goe": Word{Word: "goe", Def: "predicate: ‘in’; ▯ will happen in ▯ (amount of time) from now.", By: "official", Score: 0}, "goe sa buai daqne": Word{Word: "goe sa buai daqne", Def: "phrase: \"a long time from now\"", By: "official", Score: 0}, "gogo": Word{Word: "gogo", Def: "▯ uses the word \"go\" to skip over the first slot of a sentence when they could just as easily have filled it with a short pronoun", By: "fagri", Score: 0}, "goha": Word{Word: "goha", Def: "the game of Go", By: "uakci", Score: 0}, "goho": Word{Word: "goho", Def: "▯ is in relation ▯ with them/her/him.", By: "Ilmen", Score: 2}, "goi": Word{Word: "goi", Def: "predicate: ‘treat’; ▯ treats/doctors ▯.", By: "official", Score: 0}, "goicha": Word{Word: "goicha", Def: "▯is a (medical) treatment", By: "seaqtaq", Score: 0}, "goichache": Word{Word: "goichache", Def: "▯is a therapist", By: "seaqtaq", Score: 0}, "goichadiu": Word{Word: "goichadiu", Def: "▯is therapy", By: "seaqtaq", Score: 0}, "goiche": Word{Word: "goiche", Def: "▯is a doctor", By: "seaqtaq", Score: 0}, "goidiu": Word{Word: "goidiu", Def: "▯ is medicine (science).", By: "Ilmen", Score: 1}, "goijuq": Word{Word: "goijuq", Def: "▯is a patient", By: "seaqtaq", Score: 0}, "goinao": Word{Word: "goinao", Def: "▯is medicine", By: "seaqtaq", Score: 0}, "goinuo": Word{Word: "goinuo", Def: "▯ is under narcosis; ▯ is in a drug-induced state of unconsciousness.", By: "uakci", Score: 0}, "goisai": Word{Word: "goisai", Def: "▯ is a medicine.", By: "lynn", Score: 0}, "goisoa": Word{Word: "goisoa", Def: "▯is a nurse", By: "seaqtaq", Score: 0}, "goji": Word{Word: "goji", Def: "▯ is in relation ▯ with me.", By: "Ilmen", Score: 2}, "golofe": Word{Word: "golofe", Def: "▯ is golf (game).", By: "Hoemai", Score: 0}, "gong": Word{Word: "gong", Def: "gong", By: "uakci", Score: 0}, "goqfe": Word{Word: "goqfe", Def: "▯ is golf (game).", By: "Hoemai", Score: 0}, "gorila": Word{Word: "gorila", Def: "gorilla", By: "spreadsheet", Score: 0}, "gorilai": Word{Word: "gorilai", Def: "▯ is a gorilla.", By: "Ilmen", Score: 0}, "goso": Word{Word: "goso", Def: "▯ is a member of genus Gallus (the junglefowls and the chicken).", By: "Hoemai", Score: 0}, "gosuq": Word{Word: "gosuq", Def: "▯ is in relation ▯ with you.", By: "Ilmen", Score: 2}, "gu": Word{Word: "gu", Def: "= [X] Sa dógū ru sa dósāq bủ dỏgū pa mẻa dóshī.", By: "Ilmen", Score: -2}, "gu pa lui cheo ruao da.": Word{Word: "gu pa lui cheo ruao da.", Def: "(A0361) The two have forgiven each other.", By: "examples", Score: 0}, "gua": Word{Word: "gua", Def: "predicate: ‘country’; ▯ is a country.", By: "official", Score: 0}, "guabua": Word{Word: "guabua", Def: "▯ inhabits country ▯; ▯ is from country ▯; ▯ is a ▯-er; ‘▯ comes from ▯.’", By: "uakci", Score: 0}, "guache": Word{Word: "guache", Def: "▯ is a monarch/president/head of the state.", By: "uakci", Score: 0}, "guai": Word{Word: "guai", Def: "tảo dóshī dógū, na ru dógū pa lủ sa dó báq bı cả tâo dó dógū na kûaı sẻa dó da", By: "uakci", Score: 0}, "guai jaq baq mori da. jaq daqfai mao hao da.": Word{Word: "guai jaq baq mori da. jaq daqfai mao hao da.", Def: "(A0444) Ants work very hard. Very frequently as well.", By: "examples", Score: 0}, "guai ji chufaq da.": Word{Word: "guai ji chufaq da.", Def: "(A0085) I'm working.", By: "examples", Score: 0}, "guaiciu": Word{Word: "guaiciu", Def: "▯ sweats.", By: "Ilmen", Score: -1}, "guaigaq": Word{Word: "guaigaq", Def: "▯ is a co-worker of ▯", By: "seaqtaq", Score: 0}, "guaihua": Word{Word: "guaihua", Def: "muscle", By: "spreadsheet", Score: 0}, "guaimuaq": Word{Word: "guaimuaq", Def: "▯ has died due to Karōshi/Arbeitstod; ▯ has died from excessive work.", By: "uakci", Score: 0}, "guainao": Word{Word: "guainao", Def: "sweat ()", By: "spreadsheet", Score: 0}, "guainaociu": Word{Word: "guainaociu", Def: "▯ sweats.", By: "Ilmen", Score: -1}, "guairiaq": Word{Word: "guairiaq", Def: "predicate: ‘workplace’; ▯ is a work place / office.", By: "official", Score: 0}, "guairieq": Word{Word: "guairieq", Def: "procrastinate", By: "spreadsheet", Score: 0}, "guairieqshao": Word{Word: "guairieqshao", Def: "lazy", By: "spreadsheet", Score: 0}, "guaisheibu": Word{Word: "guaisheibu", Def: "(fork of #0g6fatxeB) ▯ is a slave", By: "seaqtaq", Score: 0}, "guaitoai": Word{Word: "guaitoai", Def: "▯ is Gua\\spi.", By: "uakci", Score: 0}, "guao": Word{Word: "guao", Def: "predicate: ‘furcation’; ▯ is a furcation/fork/intersection/junction.", By: "official", Score: 0}, "guaokopi": Word{Word: "guaokopi", Def: "▯ is a fork (modified copy) of ▯.", By: "Ilmen", Score: 0}, "guapaq": Word{Word: "guapaq", Def: "region", By: "spreadsheet", Score: 0}, "guaq": Word{Word: "guaq", Def: "ground", By: "spreadsheet", Score: 0}, "guaqbeodiu": Word{Word: "guaqbeodiu", Def: "▯ is geology.", By: "Ilmen", Score: 0}, "guaqbeotua": Word{Word: "guaqbeotua", Def: "▯ terraforms ▯\u00a0", By: "seaqtaq", Score: 0}, "guaqbo": Word{Word: "guaqbo", Def: "▯ has territory ▯.", By: "Ilmen", Score: 0}, "guaqdiu": Word{Word: "guaqdiu", Def: "▯ is geography.", By: "Ilmen", Score: 0}, "guaqdiuche": Word{Word: "guaqdiuche", Def: "▯ is a geographer.", By: "Ilmen", Score: 0}, "guaqdīu": Word{Word: "guaqdīu", Def: "▯ is topography.", By: "lynn", Score: 1}, "guaqfuaq": Word{Word: "guaqfuaq", Def: "map", By: "uakci", Score: 0}, "guaqguq": Word{Word: "guaqguq", Def: "cave", By: "spreadsheet", Score: 0}, "guaqguqniefa": Word{Word: "guaqguqniefa", Def: "▯ is a chimpanzee.", By: "Ilmen", Score: 0}, "guaqhuai": Word{Word: "guaqhuai", Def: "▯ digs ▯ in ▯.", By: "Ilmen", Score: 0}, "guaqkioq": Word{Word: "guaqkioq", Def: "planet", By: "spreadsheet", Score: 0}, "guaqkioqpiu": Word{Word: "guaqkioqpiu", Def: "▯ is the crust of a planet.", By: "Ilmen", Score: 0}, "guaqkuoq": Word{Word: "guaqkuoq", Def: "stone", By: "spreadsheet", Score: -1}, "guaqlai": Word{Word: "guaqlai", Def: "map", By: "uakci", Score: 0}, "guaqleoq(tao)kuai": Word{Word: "guaqleoq(tao)kuai", Def: "▯ is territorial", By: "seaqtaq", Score: 0}, "guaqmiq": Word{Word: "guaqmiq", Def: "continent", By: "spreadsheet", Score: -1}, "guaqmuoq": Word{Word: "guaqmuoq", Def: "soil", By: "spreadsheet", Score: 0}, "guaqnao": Word{Word: "guaqnao", Def: "predicate: ‘lake’; ▯ is a lake.", By: "official", Score: 0}, "guaqpuao": Word{Word: "guaqpuao", Def: "▯ is a sea of clouds.", By: "Ilmen", Score: 0}, "guaqrioq": Word{Word: "guaqrioq", Def: "▯ is a (terrestrial) biome", By: "seaqtaq", Score: 0}, "guaqsai": Word{Word: "guaqsai", Def: "▯ is soil.", By: "Ilmen", Score: 1}, "guaqseoqgiu": Word{Word: "guaqseoqgiu", Def: "horizon", By: "spreadsheet", Score: 0}, "guaqteidiu": Word{Word: "guaqteidiu", Def: "▯ is geomorphology.", By: "Ilmen", Score: 0}, "guaqtoq": Word{Word: "guaqtoq", Def: "tectonic plate", By: "spreadsheet", Score: 0}, "guarie": Word{Word: "guarie", Def: "international", By: "spreadsheet", Score: 0}, "guatemala": Word{Word: "guatemala", Def: "▯ pertains to the culture of Guatemala – Republic of Guatemala.", By: "countries", Score: 0}, "guatemalagua": Word{Word: "guatemalagua", Def: "▯ is the country Guatemala – Republic of Guatemala.", By: "countries", Score: 0}, "guatemalatoaq": Word{Word: "guatemalatoaq", Def: "▯ is (one of) the language(s) spoken in Guatemala – Republic of Guatemala.", By: "countries", Score: 0}, "gubutu": Word{Word: "gubutu", Def: "▯ is zero or one of ▯ and ▯.", By: "uakci", Score: 0}, "gucha": Word{Word: "gucha", Def: "▯ satisfy property ▯ two at a time.", By: "Hoemai", Score: 0}, "guchio": Word{Word: "guchio", Def: "predicate: ‘twice’; ▯ happens twice / two times.", By: "official", Score: 0}, "guco": Word{Word: "guco", Def: "▯ is neither, either, or both of ▯ and ▯.", By: "uakci", Score: 0}, "guda": Word{Word: "guda", Def: "▯ is devoted to satisfying the property ▯.", By: "Ilmen", Score: 1}, "gue": Word{Word: "gue", Def: "predicate: ‘curved’; ▯ is curved/bent.", By: "official", Score: 0}, "guedai": Word{Word: "guedai", Def: "flexible", By: "spreadsheet", Score: 0}, "guegie": Word{Word: "guegie", Def: "tentacle", By: "spreadsheet", Score: 0}, "guekai": Word{Word: "guekai", Def: "▯ writes ▯ on ▯ in cursive", By: "seaqtaq", Score: 0}, "guekuai": Word{Word: "guekuai", Def: "▯ is malleable", By: "seaqtaq", Score: 0}, "guele": Word{Word: "guele", Def: "▯ is a gland.", By: "Hoemai", Score: 0}, "guelo": Word{Word: "guelo", Def: "▯ is a wolverine.", By: "Ilmen", Score: 0}, "guene": Word{Word: "guene", Def: "(fork of #cP2VNUvV8) ▯ is the curvature of ▯", By: "seaqtaq", Score: 0}, "guero": Word{Word: "guero", Def: "▯ belongs to the Ferae taxonomic clade; ▯ is a pangolin or a carnivoran.", By: "Ilmen", Score: 0}, "guetei": Word{Word: "guetei", Def: "▯ is a bend/curve", By: "seaqtaq", Score: 0}, "guetu": Word{Word: "guetu", Def: "▯ is a member of genus Betula (the birch trees).", By: "Hoemai", Score: 0}, "gufu": Word{Word: "gufu", Def: "▯ is a grandchild of ▯’s.", By: "uakci", Score: 0}, "guhuaq": Word{Word: "guhuaq", Def: "▯ is more related to ▯ than to ▯ by binary property ▯.", By: "lynn", Score: 0}, "gui": Word{Word: "gui", Def: "predicate: ‘grain’; ▯ is grain/cereal.", By: "official", Score: 0}, "guiche": Word{Word: "guiche", Def: "▯ is a serialist", By: "seaqtaq", Score: 0}, "guidiu": Word{Word: "guidiu", Def: "▯ is serial science", By: "seaqtaq", Score: 0}, "guine": Word{Word: "guine", Def: "▯ is the length of ▯ in units ▯", By: "Xylochoron", Score: 0}, "guipuo": Word{Word: "guipuo", Def: "predicate: ‘flour’; ▯ is flour.", By: "official", Score: 0}, "guitoa": Word{Word: "guitoa", Def: "serial (e.g., dủq gủai)", By: "uakci", Score: 1}, "gujeo": Word{Word: "gujeo", Def: "▯ and ▯ satisfy relation ▯.", By: "uakci", Score: 0}, "gujieq": Word{Word: "gujieq", Def: "▯ is a finite straight line.", By: "Ilmen", Score: 0}, "gujue": Word{Word: "gujue", Def: "▯ is january", By: "Xeizzen", Score: -1}, "gujue pa soq doq jue da.": Word{Word: "gujue pa soq doq jue da.", Def: "(A0142) February is the shortest month.", By: "examples", Score: 0}, "guka": Word{Word: "guka", Def: "erode, abrade", By: "spreadsheet", Score: -1}, "guko": Word{Word: "guko", Def: "predicate: ‘second’; ▯ is second among ▯.", By: "official", Score: 0}, "gulaqtei": Word{Word: "gulaqtei", Def: "▯ is the second tone (rising).", By: "lynn", Score: 0}, "guliaq": Word{Word: "guliaq", Def: "predicate: ‘pair’; ▯ is a pair/couple.", By: "official", Score: 0}, "gulo": Word{Word: "gulo", Def: "▯ is a wolverine.", By: "Ilmen", Score: -1}, "guluaqmu": Word{Word: "guluaqmu", Def: "▯ is a two-player game.", By: "lynn", Score: 0}, "gulueq": Word{Word: "gulueq", Def: "▯ serves ▯ by being in relation ▯ with them.", By: "uakci", Score: 0}, "gumie": Word{Word: "gumie", Def: "▯ is an amphibian.", By: "Ilmen", Score: 0}, "gumiedaosai": Word{Word: "gumiedaosai", Def: "▯ is DNA.", By: "Ilmen", Score: 0}, "gunu": Word{Word: "gunu", Def: "▯ is a gnu.", By: "Hoemai", Score: 0}, "guo": Word{Word: "guo", Def: "sa dó bı mẻ dóshī dó, na ru tu lú mẻa hóa dó pa lỉ sa ráı tu lú jủı hóa měa hóa dó na ja ráı pa rảotī da", By: "uakci", Score: 0}, "guobo": Word{Word: "guobo", Def: "▯ is a pattern.", By: "Ilmen", Score: 0}, "guodui": Word{Word: "guodui", Def: "▯ repeats too many times.", By: "uakci", Score: 0}, "guofia": Word{Word: "guofia", Def: "▯ is the previous occurrence of ▯.", By: "Ilmen", Score: 0}, "guojuaq": Word{Word: "guojuaq", Def: "▯ happens *again*.", By: "uakci", Score: 0}, "guokao": Word{Word: "guokao", Def: "▯ is a statistic of satisfying property ▯", By: "seaqtaq", Score: 0}, "guoko": Word{Word: "guoko", Def: "▯ is the ▯-th repetition/instance of ▯", By: "Ilmen", Score: 0}, "guoq": Word{Word: "guoq", Def: "predicate: ‘anus’; ▯ is an anus.", By: "official", Score: 0}, "guoqpoq": Word{Word: "guoqpoq", Def: "▯ is an asshole\u00a0", By: "seaqtaq", Score: 0}, "guoqseaq": Word{Word: "guoqseaq", Def: "▯ has anal sex with ▯", By: "seaqtaq", Score: 0}, "guosa": Word{Word: "guosa", Def: "predicate: ‘sometimes’; ▯ happens sometimes.", By: "official", Score: 0}, "guosia": Word{Word: "guosia", Def: "predicate: ‘never’; ▯ happens never.", By: "official", Score: 0}, "guoso": Word{Word: "guoso", Def: "▯ is cattle (Bos taxonomic genus).", By: "Ilmen", Score: 1}, "guotei": Word{Word: "guotei", Def: "▯ is a pattern.", By: "Ilmen", Score: 0}, "gupaq": Word{Word: "gupaq", Def: "(fork of official) predicate: ‘half’; ▯ is a half of ▯.", By: "seaqtaq", Score: 1}, "gupaqcoaqluko": Word{Word: "gupaqcoaqluko", Def: "▯ is a wolf-dog.", By: "Ilmen", Score: 0}, "gupaqhuaq": Word{Word: "gupaqhuaq", Def: "most (more than half)", By: "spreadsheet", Score: 0}, "gupaqjeo": Word{Word: "gupaqjeo", Def: "half-true", By: "spreadsheet", Score: 0}, "gupu": Word{Word: "gupu", Def: "▯ rots/decays.", By: "Ilmen", Score: 0}, "guq": Word{Word: "guq", Def: "= mu #gảo", By: "uakci", Score: 0}, "guqcoe": Word{Word: "guqcoe", Def: "hang (dandu)", By: "spreadsheet", Score: 1}, "guqdi": Word{Word: "guqdi", Def: "industry", By: "spreadsheet", Score: 0}, "guqduo": Word{Word: "guqduo", Def: "predicate: ‘move.downwards’; ▯ moves downwards.", By: "official", Score: 0}, "guqfeo": Word{Word: "guqfeo", Def: "(fork of #crFstUdes) ▯ is the south direction", By: "seaqtaq", Score: 0}, "guqguaq": Word{Word: "guqguaq", Def: "cave", By: "spreadsheet", Score: 0}, "guqjeoq": Word{Word: "guqjeoq", Def: "predicate: ‘bowl’; ▯ is a bowl (shape)", By: "Xylochoron", Score: 0}, "guqpaq": Word{Word: "guqpaq", Def: "predicate: ‘bottom’; ▯ is the bottom of ▯.", By: "official", Score: 0}, "guqsheaq": Word{Word: "guqsheaq", Def: "▯ understands ▯", By: "seaqtaq", Score: 0}, "guqta": Word{Word: "guqta", Def: "attack", By: "spreadsheet", Score: -1}, "guqtieq": Word{Word: "guqtieq", Def: "tunnel", By: "spreadsheet", Score: 0}, "gure": Word{Word: "gure", Def: "▯ is both or none of ▯ and ▯.", By: "uakci", Score: 0}, "gureq": Word{Word: "gureq", Def: "▯ is a kidney.", By: "Hoemai", Score: 0}, "guriopie": Word{Word: "guriopie", Def: "▯ is a lungfish (Dipnoi taxonomic subclass).", By: "Ilmen", Score: 0}, "guroaq": Word{Word: "guroaq", Def: "▯ is a grandparent of ▯’s.", By: "uakci", Score: 0}, "gusa": Word{Word: "gusa", Def: "▯ is at least one of ▯ and ▯.", By: "uakci", Score: 0}, "gushe": Word{Word: "gushe", Def: "▯ allows ▯ to happen given ▯; ▯ is what is needed to infer ▯ from ▯.", By: "uakci", Score: 0}, "gusheaq": Word{Word: "gusheaq", Def: "▯ stands bipedally / on two feet.", By: "Ilmen", Score: 0}, "gusheaqhe": Word{Word: "gusheaqhe", Def: "▯ is a bipede.", By: "Ilmen", Score: 0}, "gushi": Word{Word: "gushi", Def: "▯ is either ▯ or ▯, but not both.", By: "uakci", Score: 0}, "gusho": Word{Word: "gusho", Def: "split in half (vi)", By: "spreadsheet", Score: 0}, "gushoai": Word{Word: "gushoai", Def: "predicate: ‘fly’; ▯ is a fly.", By: "official", Score: 0}, "gusia": Word{Word: "gusia", Def: "▯ is neither of ▯ or ▯.", By: "uakci", Score: 0}, "gusieme": Word{Word: "gusieme", Def: "▯ is an ordered pair; ▯ is the ordered pair ⟨▯, ▯⟩.", By: "Ilmen", Score: 0}, "gusioq": Word{Word: "gusioq", Def: "predicate: ‘bicycle’; ▯ is a bicycle/bike.", By: "official", Score: 0}, "gusioqfa": Word{Word: "gusioqfa", Def: "▯ goes [FA] by bike.", By: "uakci", Score: 0}, "guteu": Word{Word: "guteu", Def: "▯ = ▯²; ▯ = ▯^2.", By: "uakci", Score: 0}, "gutu": Word{Word: "gutu", Def: "▯ is both of ▯ and ▯.", By: "uakci", Score: 0}, "gutua": Word{Word: "gutua", Def: "split in half (vt)", By: "spreadsheet", Score: 0}, "ha": Word{Word: "ha", Def: "predicate: ‘one’; ▯ is one/you/they (generic impersonal pronoun).", By: "official", Score: 0}, "ha ha, ma jeo hoq moq": Word{Word: "ha ha, ma jeo hoq moq", Def: "(A0420) Ha ha, is that true?", By: "examples", Score: 0}, "ha, bu pu miu jí jîa ni da.": Word{Word: "ha, bu pu miu jí jîa ni da.", Def: "(A0354) Heh, I didn't think this would happen.", By: "examples", Score: 0}, "habaca": Word{Word: "habaca", Def: "▯ pertains to the culture of Croatia – Republic of Croatia.", By: "countries", Score: 0}, "habacagua": Word{Word: "habacagua", Def: "▯ is the country Croatia – Republic of Croatia.", By: "countries", Score: 0}, "habacatoaq": Word{Word: "habacatoaq", Def: "▯ is (one of) the language(s) spoken in Croatia – Republic of Croatia.", By: "countries", Score: 0}, "habeti": Word{Word: "habeti", Def: "▯ is an advertisement/ad/commercial", By: "seaqtaq", Score: 0}, "hacaki": Word{Word: "hacaki", Def: "▯ pertains to the culture of Artsakh → Artsakh.", By: "countries", Score: 0}, "hacakigua": Word{Word: "hacakigua", Def: "▯ is the country Artsakh → Artsakh.", By: "countries", Score: 0}, "hacakitoaq": Word{Word: "hacakitoaq", Def: "▯ is (one of) the language(s) spoken in Artsakh → Artsakh.", By: "countries", Score: 0}, "hachao": Word{Word: "hachao", Def: "laugh (HATAO) (HAfrati)", By: "spreadsheet", Score: 0}, "hachu": Word{Word: "hachu", Def: "▯ is being depleted.", By: "Ilmen", Score: -1}, "hacua": Word{Word: "hacua", Def: "laugh (HATAO) (HAfrati)", By: "spreadsheet", Score: 0}, "hafagaq": Word{Word: "hafagaq", Def: "▯ pertains to the culture of Afghanistan – Islamic Republic of Afghanistan.", By: "countries", Score: 0}, "hafagaqgua": Word{Word: "hafagaqgua", Def: "▯ is the country Afghanistan – Islamic Republic of Afghanistan.", By: "countries", Score: 0}, "hafagaqtoaq": Word{Word: "hafagaqtoaq", Def: "▯ is (one of) the language(s) spoken in Afghanistan – Islamic Republic of Afghanistan.", By: "countries", Score: 0}, "hageqtina": Word{Word: "hageqtina", Def: "▯ pertains to the culture of Argentina – Argentine Republic[g].", By: "countries", Score: 0}, "hageqtinagua": Word{Word: "hageqtinagua", Def: "▯ is the country Argentina – Argentine Republic[g].", By: "countries", Score: 0}, "hageqtinatoaq": Word{Word: "hageqtinatoaq", Def: "▯ is (one of) the language(s) spoken in Argentina – Argentine Republic[g].", By: "countries", Score: 0}, "haha": Word{Word: "haha", Def: "I am laughing.", By: "Ilmen", Score: 0}, "hai": Word{Word: "hai", Def: "predicate: ‘already’; ▯ is already the case; ▯ already satisfies property ▯.", By: "official", Score: 0}, "hai biaq loq nao da.": Word{Word: "hai biaq loq nao da.", Def: "(A0294) The water is already hot enough.", By: "examples", Score: 0}, "hai lui kaqgai ji sa lu siu hoa ni da.": Word{Word: "hai lui kaqgai ji sa lu siu hoa ni da.", Def: "(A0211) I've already seen something like that.", By: "examples", Score: 0}, "haigiq": Word{Word: "haigiq", Def: "only then (later than expected)", By: "spreadsheet", Score: 0}, "haigiqkie": Word{Word: "haigiqkie", Def: "▯ thanks ▯ in advance for ▯; ▯ thanks ▯ for will doing ▯.", By: "uakci", Score: 0}, "haiti": Word{Word: "haiti", Def: "▯ pertains to the culture of Haiti – Republic of Haiti.", By: "countries", Score: 0}, "haitigua": Word{Word: "haitigua", Def: "▯ is the country Haiti – Republic of Haiti.", By: "countries", Score: 0}, "haititoaq": Word{Word: "haititoaq", Def: "▯ is (one of) the language(s) spoken in Haiti – Republic of Haiti.", By: "countries", Score: 0}, "haka": Word{Word: "haka", Def: "root", By: "spreadsheet", Score: 0}, "hake": Word{Word: "hake", Def: "(fork of #NS3RX4TZH) ▯ is the result of applying the Ackermann function on arguments (▯, ▯, ▯); ▯ = Ackermann(▯, ▯, ▯).", By: "Xylochoron", Score: 0}, "hakecuaq": Word{Word: "hakecuaq", Def: "▯ is the result of applying the Ackermann function on arguments (▯, ▯, ▯); ▯ = Ackermann(▯, ▯, ▯).", By: "uakci", Score: 0}, "hakepetecuaq": Word{Word: "hakepetecuaq", Def: "▯ is the result of applying the Ackermann–Péter function to arguments ▯ and ▯; ▯ = ack(▯, ▯).", By: "uakci", Score: 0}, "hakileopuebeq": Word{Word: "hakileopuebeq", Def: "▯ is ▯'s Achilles' heel.", By: "Ilmen", Score: 0}, "hakileopuebeqjeo": Word{Word: "hakileopuebeqjeo", Def: "▯ has ▯ as their ‘Achilles’ heel’; ▯ has tragic weak spot ▯.", By: "uakci", Score: 0}, "hakileupuebeq": Word{Word: "hakileupuebeq", Def: "▯ is ▯'s Achilles' heel.", By: "Ilmen", Score: 0}, "hako": Word{Word: "hako", Def: "bear / cribe", By: "spreadsheet", Score: 0}, "hamenia": Word{Word: "hamenia", Def: "▯ pertains to the culture of Armenia – Republic of Armenia.", By: "countries", Score: 0}, "hameniagua": Word{Word: "hameniagua", Def: "▯ is the country Armenia – Republic of Armenia.", By: "countries", Score: 0}, "hameniatoaq": Word{Word: "hameniatoaq", Def: "▯ is (one of) the language(s) spoken in Armenia – Republic of Armenia.", By: "countries", Score: 0}, "hanoi": Word{Word: "hanoi", Def: "I feel pain.", By: "Ilmen", Score: 0}, "hao": Word{Word: "hao", Def: "hỏq hâo da", By: "uakci", Score: 0}, "hao ba.": Word{Word: "hao ba.", Def: "elliptical request/command/suggestion", By: "uakci", Score: 0}, "haogaq": Word{Word: "haogaq", Def: "▯ keeps ▯ company; ▯ stays with ▯ so they will not be lonely", By: "fagri", Score: 0}, "haohao": Word{Word: "haohao", Def: "thingamajig", By: "spreadsheet", Score: -1}, "haorai": Word{Word: "haorai", Def: "thingamajig", By: "spreadsheet", Score: 0}, "haosia": Word{Word: "haosia", Def: "▯ sits around and does nothing ", By: "seaqtaq", Score: 1}, "hapa": Word{Word: "hapa", Def: "One/you/they (generic impersonal pronoun) satisfies property ▯.", By: "Ilmen", Score: 0}, "hapa kuq": Word{Word: "hapa kuq", Def: "‘what they say’; ‘what is said’", By: "uakci", Score: 0}, "hapaka": Word{Word: "hapaka", Def: "▯ is an alpaca (Vicugna pacos).", By: "Hoemai", Score: 0}, "hapi": Word{Word: "hapi", Def: "bee, bifce", By: "spreadsheet", Score: 0}, "hapibue": Word{Word: "hapibue", Def: "▯ is a hive.", By: "Ilmen", Score: 0}, "hapiduao": Word{Word: "hapiduao", Def: "honey", By: "spreadsheet", Score: -1}, "hapipuebea": Word{Word: "hapipuebea", Def: "▯ is bee’s knees; ▯ is among the 12 knees that bee ▯ has.", By: "uakci", Score: 0}, "hapisai": Word{Word: "hapisai", Def: "▯ is beeswax.", By: "lynn", Score: 0}, "hapu": Word{Word: "hapu", Def: "▯ is an application", By: "seaqtaq", Score: 0}, "haq": Word{Word: "haq", Def: "= #tıao #chủq", By: "uakci", Score: 0}, "haqbai": Word{Word: "haqbai", Def: "predicate: ‘prepare.food’; ▯ prepares food / cooks.", By: "official", Score: 0}, "haqbaiche": Word{Word: "haqbaiche", Def: "cook, person (cook CHE)", By: "spreadsheet", Score: 0}, "haqbaiji": Word{Word: "haqbaiji", Def: "Satisfying property ▯ is a way of preparing food ▯", By: "fagri", Score: 0}, "haqbaikua": Word{Word: "haqbaikua", Def: "▯ is a kitchen.", By: "lynn", Score: 0}, "haqbaise": Word{Word: "haqbaise", Def: "predicate: ‘meal’; ▯ is a meal; ▯ is prepared food.", By: "official", Score: 0}, "haqbi": Word{Word: "haqbi", Def: "meta-predicate: ▯ is that which obviously fits into the surrounding description; jẻı ▯´ lú [containing sentence with haqbī replaced with hoa].", By: "uakci", Score: 0}, "haqboe": Word{Word: "haqboe", Def: "▯ is a menu in a restaurant\u00a0", By: "seaqtaq", Score: 0}, "haqbuo": Word{Word: "haqbuo", Def: "ripe", By: "spreadsheet", Score: 0}, "haqchai": Word{Word: "haqchai", Def: "▯ is soup.", By: "Ilmen", Score: 0}, "haqche": Word{Word: "haqche", Def: "cook, person (cook CHE)", By: "spreadsheet", Score: 0}, "haqciaruoi": Word{Word: "haqciaruoi", Def: "▯ is scrawny.", By: "Ilmen", Score: 0}, "haqciu": Word{Word: "haqciu", Def: "▯ vomits up ▯.", By: "lynn", Score: 0}, "haqdoa": Word{Word: "haqdoa", Def: "predicate: ‘feed’; ▯ feeds ▯ to ▯.", By: "official", Score: 0}, "haqdora": Word{Word: "haqdora", Def: "▯ pertains to the culture of Andorra – Principality of Andorra.", By: "countries", Score: 0}, "haqdoragua": Word{Word: "haqdoragua", Def: "▯ is the country Andorra – Principality of Andorra.", By: "countries", Score: 0}, "haqdoratoaq": Word{Word: "haqdoratoaq", Def: "▯ is (one of) the language(s) spoken in Andorra – Principality of Andorra.", By: "countries", Score: 0}, "haqfuq": Word{Word: "haqfuq", Def: "▯ is an apron", By: "seaqtaq", Score: 0}, "haqgiq": Word{Word: "haqgiq", Def: "toxic, poison", By: "spreadsheet", Score: 0}, "haqgola": Word{Word: "haqgola", Def: "▯ pertains to the culture of Angola – Republic of Angola.", By: "countries", Score: 0}, "haqgolagua": Word{Word: "haqgolagua", Def: "▯ is the country Angola – Republic of Angola.", By: "countries", Score: 0}, "haqgolatoaq": Word{Word: "haqgolatoaq", Def: "▯ is (one of) the language(s) spoken in Angola – Republic of Angola.", By: "countries", Score: 0}, "haqhua": Word{Word: "haqhua", Def: "predicate: ‘stomach’; ▯ is a stomach.", By: "official", Score: 0}, "haqhuachoa": Word{Word: "haqhuachoa", Def: "ventriloquist", By: "spreadsheet", Score: 0}, "haqhuapue": Word{Word: "haqhuapue", Def: "▯ is a gastropod.", By: "Ilmen", Score: 0}, "haqjuq": Word{Word: "haqjuq", Def: "▯ feeds itself/himself/herself/themselves; ▯eats/drink; ▯ eats/drinks/feeds on ▯.", By: "Ilmen", Score: 0}, "haqjuqbiu": Word{Word: "haqjuqbiu", Def: "▯ is a digestive tract / alimentary canal (including the intestine).", By: "Ilmen", Score: 0}, "haqka": Word{Word: "haqka", Def: "nervous", By: "spreadsheet", Score: -1}, "haqloqbeo": Word{Word: "haqloqbeo", Def: "Raw food ▯ cooks, yielding cooked food ▯. (Refers to food prepared by heating).", By: "uakci", Score: 0}, "haqpao": Word{Word: "haqpao", Def: "▯ agriculturally cultivates/raises plants/animals ▯.", By: "Ilmen", Score: 0}, "haqpaodiu": Word{Word: "haqpaodiu", Def: "▯ is agriculture.", By: "Ilmen", Score: 0}, "haqpaoriaq": Word{Word: "haqpaoriaq", Def: "▯ is a farm.", By: "Ilmen", Score: 0}, "haqpaq": Word{Word: "haqpaq", Def: "▯ is an ingredient", By: "seaqtaq", Score: 0}, "haqra": Word{Word: "haqra", Def: "▯, but not ▯, satisfies property ▯.", By: "uakci", Score: 0}, "haqriai": Word{Word: "haqriai", Def: "predicate: ‘plate’; ▯ is a plate/dish.", By: "official", Score: 0}, "haqshe": Word{Word: "haqshe", Def: "▯ is a donkey/ass (Equus africanus asinus).", By: "Ilmen", Score: 0}, "haqshu": Word{Word: "haqshu", Def: "▯ is a donkey/ass (Equus africanus asinus).", By: "Hoemai", Score: 0}, "haqsue": Word{Word: "haqsue", Def: "▯ orders/requests dish ▯\u00a0", By: "seaqtaq", Score: 0}, "haqtiao": Word{Word: "haqtiao", Def: "▯ is food for animal ▯; ▯ is nutritious to ▯.", By: "Ilmen", Score: 0}, "haqtiguaroibabuda": Word{Word: "haqtiguaroibabuda", Def: "▯ pertains to the culture of Antigua and Barbuda.", By: "countries", Score: 0}, "haqtiguaroibabudagua": Word{Word: "haqtiguaroibabudagua", Def: "▯ is the country Antigua and Barbuda.", By: "countries", Score: 0}, "haqtiguaroibabudatoaq": Word{Word: "haqtiguaroibabudatoaq", Def: "▯ is (one of) the language(s) spoken in Antigua and Barbuda.", By: "countries", Score: 0}, "haqtoai": Word{Word: "haqtoai", Def: "▯ is a nutrient; ▯ is a nutrient for ▯.", By: "Ilmen", Score: 0}, "haqtu": Word{Word: "haqtu", Def: "▯ is a spirit, soul or ghost.", By: "Ilmen", Score: 0}, "hara": Word{Word: "hara", Def: "scorpion", By: "spreadsheet", Score: 0}, "harane": Word{Word: "harane", Def: "predicate: ‘spider’; ▯ is a spider.", By: "official", Score: 0}, "haranekoai": Word{Word: "haranekoai", Def: "▯ is a spiderweb.", By: "Hoemai", Score: 0}, "haranesuhu": Word{Word: "haranesuhu", Def: "▯ does whatever a spider pig does.", By: "Ilmen", Score: 0}, "haranika": Word{Word: "haranika", Def: "▯ is a member of genus Arnica.", By: "Hoemai", Score: 0}, "harugumeq": Word{Word: "harugumeq", Def: "argument, sumti (X satisfies the Y-th slot of predicate Z)", By: "spreadsheet", Score: 0}, "hasebai": Word{Word: "hasebai", Def: "▯ pertains to the culture of Azerbaijan – Republic of Azerbaijan.", By: "countries", Score: 0}, "hasebaigua": Word{Word: "hasebaigua", Def: "▯ is the country Azerbaijan – Republic of Azerbaijan.", By: "countries", Score: 0}, "hasebaitoaq": Word{Word: "hasebaitoaq", Def: "▯ is (one of) the language(s) spoken in Azerbaijan – Republic of Azerbaijan.", By: "countries", Score: 0}, "hashidao": Word{Word: "hashidao", Def: "▯ is a hash-tag.", By: "uakci", Score: 1}, "hashu": Word{Word: "hashu", Def: "▯ sneezes.", By: "Ilmen", Score: 0}, "hasia": Word{Word: "hasia", Def: "predicate: ‘Asia’; ▯ is Asia.", By: "official", Score: 0}, "hasiq": Word{Word: "hasiq", Def: "donkey", By: "spreadsheet", Score: 1}, "hate": Word{Word: "hate", Def: "liver", By: "spreadsheet", Score: 0}, "hatomo": Word{Word: "hatomo", Def: "atome", By: "spreadsheet", Score: 0}, "hatomochu": Word{Word: "hatomochu", Def: "nucleus (of an atom)", By: "spreadsheet", Score: 0}, "hatomochuraq": Word{Word: "hatomochuraq", Def: "nuclear", By: "spreadsheet", Score: 0}, "he": Word{Word: "he", Def: "▯ is the case as a general truth/aphorism, regardless of time and place.", By: "lynn", Score: 0}, "he ca hoegio shaisia na neaqguaq da.": Word{Word: "he ca hoegio shaisia na neaqguaq da.", Def: "(A0326) Sunshine all the time makes a desert.", By: "examples", Score: 0}, "he ca roq toe ha sa kepa na ha da.": Word{Word: "he ca roq toe ha sa kepa na ha da.", Def: "(A0588) Cutting onions causes weeping.", By: "examples", Score: 0}, "he ca sho chuqkuai chuq da.": Word{Word: "he ca sho chuqkuai chuq da.", Def: "(A0324) Appetite comes with eating.", By: "examples", Score: 0}, "he cho ho baq chai da.": Word{Word: "he cho ho baq chai da.", Def: "(A0390) He likes tea.", By: "examples", Score: 0}, "he huilie ▯bia": Word{Word: "he huilie ▯bia", Def: "▯ has/suffers from ▯ (illness/sickness)", By: "seaqtaq", Score: 0}, "he joafao rao tu miochaq ru tu loachaq da.": Word{Word: "he joafao rao tu miochaq ru tu loachaq da.", Def: "(A0185) It is the weekend on every Saturday and Sunday.", By: "examples", Score: 0}, "he juoi ho ji li moijoe da. ": Word{Word: "he juoi ho ji li moijoe da. ", Def: "phrase: They describe me as smart.", By: "official", Score: 1}, "he luereo baq maoja da.": Word{Word: "he luereo baq maoja da.", Def: "(A0179) Bananas are yellow.", By: "examples", Score: 0}, "he paq go baq muq sa fe chei da.": Word{Word: "he paq go baq muq sa fe chei da.", Def: "(A0366) A hand has five fingers.", By: "examples", Score: 0}, "he riu duq fa ji chiejio rao baq roaijue da.": Word{Word: "he riu duq fa ji chiejio rao baq roaijue da.", Def: "(A0154) I generally go back to school in August.", By: "examples", Score: 0}, "he teqguai ho rao baq miochaq da.": Word{Word: "he teqguai ho rao baq miochaq da.", Def: "(A0630) He works on Sundays.", By: "examples", Score: 0}, "hea": Word{Word: "hea", Def: "predicate: ‘piece’; ▯ is a piece/chunk; ▯ is a piece/chunk of substance ▯.", By: "official", Score: 0}, "heaq": Word{Word: "heaq", Def: "predicate: ‘carry’; ▯ carries/holds ▯.", By: "official", Score: 0}, "heaqfa": Word{Word: "heaqfa", Def: "▯ carries ▯ to ▯ from ▯", By: "seaqtaq", Score: 0}, "heaqjuq": Word{Word: "heaqjuq", Def: "receive", By: "spreadsheet", Score: 0}, "hebe": Word{Word: "hebe", Def: "▯ is a plant of the Hevea genus.", By: "Ilmen", Score: 0}, "hebesai": Word{Word: "hebesai", Def: "▯ is rubber.", By: "Ilmen", Score: 0}, "hebi": Word{Word: "hebi", Def: "▯ is a bird (Aves taxonomic class).", By: "Ilmen", Score: 0}, "hei": Word{Word: "hei", Def: "predicate: ‘ten’; ▯ are ten in number.", By: "official", Score: 0}, "heiga": Word{Word: "heiga", Def: "predicate: ‘oak’; ▯ is an oak.", By: "official", Score: 0}, "heigaheu": Word{Word: "heigaheu", Def: "acorn", By: "spreadsheet", Score: 0}, "heigujue": Word{Word: "heigujue", Def: "▯ is December", By: "lynn", Score: 1}, "heijue": Word{Word: "heijue", Def: "▯ is October", By: "lynn", Score: 1}, "heiko": Word{Word: "heiko", Def: "predicate: ‘tenth’; ▯ is tenth in number.", By: "oldofficial", Score: 0}, "heishijue": Word{Word: "heishijue", Def: "▯ is November", By: "lynn", Score: 1}, "heja": Word{Word: "heja", Def: "jaw", By: "spreadsheet", Score: -1}, "hejakiaq": Word{Word: "hejakiaq", Def: "beard  (xedja KIAQ)", By: "spreadsheet", Score: -1}, "hekero": Word{Word: "hekero", Def: "▯ is a maple tree.", By: "Ilmen", Score: 0}, "heko": Word{Word: "heko", Def: "horse", By: "spreadsheet", Score: -1}, "heku": Word{Word: "heku", Def: "predicate: ‘equine’; ▯ is an equine/member of genus Equus (the horses, donkeys, and zebras).", By: "Ilmen", Score: 0}, "hekuadoro": Word{Word: "hekuadoro", Def: "▯ pertains to the culture of Ecuador – Republic of Ecuador.", By: "countries", Score: 0}, "hekuadorogua": Word{Word: "hekuadorogua", Def: "▯ is the country Ecuador – Republic of Ecuador.", By: "countries", Score: 0}, "hekuadorotoaq": Word{Word: "hekuadorotoaq", Def: "▯ is (one of) the language(s) spoken in Ecuador – Republic of Ecuador.", By: "countries", Score: 0}, "hekucie": Word{Word: "hekucie", Def: "▯ is a member of genus Hippocampus (the seahorses).", By: "Hoemai", Score: 0}, "hekuhu": Word{Word: "hekuhu", Def: "smoke (danmo)", By: "spreadsheet", Score: 0}, "helasa": Word{Word: "helasa", Def: "▯ pertains to the culture of Greece – Hellenic Republic.", By: "countries", Score: 0}, "helasagua": Word{Word: "helasagua", Def: "▯ is the country Greece – Hellenic Republic.", By: "countries", Score: 0}, "helasatoaq": Word{Word: "helasatoaq", Def: "▯ is (one of) the language(s) spoken in Greece – Hellenic Republic.", By: "countries", Score: 0}, "hele": Word{Word: "hele", Def: "▯ is a red deer.", By: "Ilmen", Score: 0}, "heleki": Word{Word: "heleki", Def: "▯ is a member of genus Alces (the moose).", By: "Hoemai", Score: 0}, "helemo": Word{Word: "helemo", Def: "▯ is an elm.", By: "Ilmen", Score: 0}, "heleq": Word{Word: "heleq", Def: "▯ is an elbow bone/ulna (The bone of the forearm that extends from the elbow to the wrist on the side opposite to the thumb).", By: "Hoemai", Score: 0}, "helu": Word{Word: "helu", Def: "predicate: ‘elephant’; ▯ is an elephant.", By: "official", Score: 0}, "heo": Word{Word: "heo", Def: "= bu #jẻq", By: "uakci", Score: 0}, "heocheo": Word{Word: "heocheo", Def: "▯ are varied, dissimilar from each other; ▯ are varied in what they are in relation ▯ with.", By: "Ilmen", Score: 0}, "heocia": Word{Word: "heocia", Def: "indistinguishable", By: "spreadsheet", Score: 0}, "heocua": Word{Word: "heocua", Def: "▯ has an allergic reaction to ▯.", By: "Hoemai", Score: 0}, "heocuage": Word{Word: "heocuage", Def: "▯ is an allergen.", By: "Hoemai", Score: 0}, "heocuahe": Word{Word: "heocuahe", Def: "▯ is allergic to ▯.", By: "Hoemai", Score: 0}, "heoha": Word{Word: "heoha", Def: "obviative generic impersonal pronoun (\"one, you, they\" but different from the one(s) referred to by an earlier **ha**).", By: "Hoemai", Score: 0}, "heomaq": Word{Word: "heomaq", Def: "Obviative \"it\"", By: "spreadsheet", Score: 0}, "heome": Word{Word: "heome", Def: "▯ has a heterogenous composition.", By: "Ilmen", Score: 0}, "heomieq": Word{Word: "heomieq", Def: "compare", By: "spreadsheet", Score: 0}, "heomiu": Word{Word: "heomiu", Def: "▯ is an act of hypocrisy; ▯ is hypocritical in doing ▯.", By: "uakci", Score: 1}, "heoq": Word{Word: "heoq", Def: "predicate: ‘waist’; ▯ is a waist.", By: "official", Score: 0}, "heoqgia": Word{Word: "heoqgia", Def: "predicate: ‘belt’; ▯ is a belt.", By: "official", Score: 0}, "heoqgiabo": Word{Word: "heoqgiabo", Def: "▯ is an armadillo (Cingulata taxonomic order).", By: "Ilmen", Score: 0}, "heoqshaq": Word{Word: "heoqshaq", Def: "▯ is a belly.", By: "Ilmen", Score: 0}, "heoropa": Word{Word: "heoropa", Def: "predicate: ‘Europe’; ▯ is Europe.", By: "official", Score: 0}, "heoruo": Word{Word: "heoruo", Def: "▯ pretends to be ▯/1; ▯ acts as ▯/1.", By: "uakci", Score: 0}, "heosi": Word{Word: "heosi", Def: "compare", By: "spreadsheet", Score: 0}, "heosia": Word{Word: "heosia", Def: "indistinguishable", By: "spreadsheet", Score: 0}, "heotoaqtua": Word{Word: "heotoaqtua", Def: "▯ exports ▯ from Toaq as ▯; ▯ translates ▯ from Toaq as ▯.", By: "uakci", Score: 0}, "hepete": Word{Word: "hepete", Def: "▯ is a mongoose of the Herpestes genus.", By: "Ilmen", Score: 0}, "hepetesiu": Word{Word: "hepetesiu", Def: "▯ is a mongoose.", By: "Ilmen", Score: 0}, "heq": Word{Word: "heq", Def: "nỉe ru lỉ bủ pảq ra cỏe ja dó ja dó na dóshī dógū da", By: "uakci", Score: 0}, "heq tiai hi rai moq": Word{Word: "heq tiai hi rai moq", Def: "(ILL.3) What's in the box?", By: "official", Score: 0}, "heqchuo": Word{Word: "heqchuo", Def: "(fork of official) predicate: ‘container’; ▯ is a container; ▯ is a contained designed to contain anything satisfying property ▯.", By: "Ilmen", Score: 0}, "heqfa": Word{Word: "heqfa", Def: "▯ is an elf.", By: "fagri", Score: 1}, "heqgu": Word{Word: "heqgu", Def: "▯ is an eel.", By: "Hoemai", Score: 0}, "heqjeoq": Word{Word: "heqjeoq", Def: "▯ is a bowl.", By: "Ilmen", Score: 0}, "heqle": Word{Word: "heqle", Def: "▯ is Greek or related to the ‘Ode on a Grecian Urn’.", By: "uakci", Score: 0}, "heqmuo": Word{Word: "heqmuo", Def: "full  (contain complete)", By: "spreadsheet", Score: 0}, "heqshea": Word{Word: "heqshea", Def: "predicate: ‘empty’; ▯ is empty.", By: "official", Score: 0}, "heqtai": Word{Word: "heqtai", Def: "▯ succeeds at containing ▯", By: "seaqtaq", Score: 0}, "heqti": Word{Word: "heqti", Def: "▯ is a member of genus Anas (containing various species of dabbling duck).", By: "Hoemai", Score: 0}, "herie": Word{Word: "herie", Def: "▯ pertains to the culture of Ireland[25].", By: "countries", Score: 0}, "heriegua": Word{Word: "heriegua", Def: "▯ is the country Ireland[25].", By: "countries", Score: 0}, "herietoaq": Word{Word: "herietoaq", Def: "▯ is (one of) the language(s) spoken in Ireland[25].", By: "countries", Score: 0}, "hesa": Word{Word: "hesa", Def: "predicate: ‘exa’; ▯ are 10^18 (1,000,000,000,000,000,000) in number; ▯ are a quintillion.", By: "official", Score: 0}, "hesuti": Word{Word: "hesuti", Def: "▯ pertains to the culture of Estonia – Republic of Estonia.", By: "countries", Score: 0}, "hesutigua": Word{Word: "hesutigua", Def: "▯ is the country Estonia – Republic of Estonia.", By: "countries", Score: 0}, "hesutitoaq": Word{Word: "hesutitoaq", Def: "▯ is (one of) the language(s) spoken in Estonia – Republic of Estonia.", By: "countries", Score: 0}, "heu": Word{Word: "heu", Def: "fruit", By: "spreadsheet", Score: 0}, "heubuo": Word{Word: "heubuo", Def: "▯ is ripe", By: "fagri", Score: 0}, "heujua": Word{Word: "heujua", Def: "▯ is a fruit, and uakci and fagri are currently having a discussion about the plurality of a slot of a new word they are inventing", By: "fagri", Score: 0}, "heukoaq": Word{Word: "heukoaq", Def: "▯ is ripe.", By: "Ilmen", Score: 0}, "heume": Word{Word: "heume", Def: "▯ is a bunch of fruits, many fruits on a shared stem/branch (e.g. bananas, grapes…).", By: "Ilmen", Score: 0}, "heumuaome": Word{Word: "heumuaome", Def: "▯ is an orchard.", By: "Ilmen", Score: 0}, "heunao": Word{Word: "heunao", Def: "▯ is fruit juice.", By: "lynn", Score: 0}, "hi": Word{Word: "hi", Def: "quantifier: ‘which’; which?", By: "official", Score: 0}, "hi chuece pa soq fui tisha koi fa maq ni moq.": Word{Word: "hi chuece pa soq fui tisha koi fa maq ni moq.", Def: "(A0955) Which train station is the easiest to arrive at for walker going there from here?", By: "examples", Score: 0}, "hi haq pa lu shao suq bojea ji hoa moq.": Word{Word: "hi haq pa lu shao suq bojea ji hoa moq.", Def: "(A0113) What food do you want me to buy?", By: "examples", Score: 0}, "hi kiq pa lu cho suq hoa moq.": Word{Word: "hi kiq pa lu cho suq hoa moq.", Def: "(A0245) What movies do you like?", By: "examples", Score: 0}, "hi rai ni moq": Word{Word: "hi rai ni moq", Def: "(INT.2) What is this?", By: "official", Score: 0}, "hi rai ni moq.": Word{Word: "hi rai ni moq.", Def: "(A0311) What is this?", By: "examples", Score: 0}, "hia, pu tai ji!": Word{Word: "hia, pu tai ji!", Def: "(IJC.2) Yay, I did it!", By: "official", Score: 0}, "hiabuqko": Word{Word: "hiabuqko", Def: "apple", By: "uakci", Score: 0}, "hiai": Word{Word: "hiai", Def: "alcohol", By: "spreadsheet", Score: -1}, "hiai suq kui hi rai moq.": Word{Word: "hiai suq kui hi rai moq.", Def: "(A0581) Why are you laughing?", By: "examples", Score: 0}, "hiaibia": Word{Word: "hiaibia", Def: "drunk", By: "spreadsheet", Score: 0}, "hiaise": Word{Word: "hiaise", Def: "predicate: ‘laughter’; ▯ is laughter.", By: "official", Score: 0}, "hiao": Word{Word: "hiao", Def: "cả dóshī jûq dógū sa húı", By: "uakci", Score: 0}, "hiaoboq": Word{Word: "hiaoboq", Def: "protect", By: "spreadsheet", Score: 0}, "hiaochuo": Word{Word: "hiaochuo", Def: "weapon", By: "spreadsheet", Score: 0}, "hiaociasio": Word{Word: "hiaociasio", Def: "▯ is the idea of safety/security", By: "seaqtaq", Score: 0}, "hiaodai": Word{Word: "hiaodai", Def: "predicate: ‘dangerous’; ▯ is dangerous.", By: "official", Score: 0}, "hiaodaicia": Word{Word: "hiaodaicia", Def: "secure/safe", By: "spreadsheet", Score: 0}, "hiaodairuaq": Word{Word: "hiaodairuaq", Def: "warn", By: "spreadsheet", Score: 0}, "hiaodairuaqse": Word{Word: "hiaodairuaqse", Def: "▯ is a warning.", By: "lynn", Score: 0}, "hiaodaisi": Word{Word: "hiaodaisi", Def: "careful", By: "spreadsheet", Score: 0}, "hiaogaipua": Word{Word: "hiaogaipua", Def: "▯ is pleasured by seeing ▯ suffer. [schadenfreude]", By: "uakci", Score: 0}, "hiaoheaq": Word{Word: "hiaoheaq", Def: "▯ is armed.", By: "Ilmen", Score: 0}, "hiaojuqcho": Word{Word: "hiaojuqcho", Def: "▯ is a masochist; ▯ is enjoys the hurt from ▯.", By: "uakci", Score: 0}, "hiaokuai": Word{Word: "hiaokuai", Def: "▯ is aggressive.", By: "Ilmen", Score: 1}, "hiaoleo": Word{Word: "hiaoleo", Def: "▯ attacks ▯.", By: "Ilmen", Score: 0}, "hiaomoe": Word{Word: "hiaomoe", Def: "▯ feels hurt by ▯.", By: "uakci", Score: 0}, "hiaomuoq": Word{Word: "hiaomuoq", Def: "toxic, poison", By: "spreadsheet", Score: -1}, "hiaopuo": Word{Word: "hiaopuo", Def: "▯ is gunpowder", By: "seaqtaq", Score: 0}, "hiaorieq": Word{Word: "hiaorieq", Def: "predicate: ‘escape’; ▯ escapes from ▯.", By: "official", Score: 0}, "hiaorieqsoa": Word{Word: "hiaorieqsoa", Def: "▯ rescues ▯ from satisfying property ▯.", By: "Ilmen", Score: 0}, "hiaorieqsoache": Word{Word: "hiaorieqsoache", Def: "▯ is a rescuer/lifeguard.", By: "Ilmen", Score: 0}, "hiaosai": Word{Word: "hiaosai", Def: "(fork of #zPsTH0LqJ) ▯ is poison", By: "seaqtaq", Score: 1}, "hiaose": Word{Word: "hiaose", Def: "wound", By: "spreadsheet", Score: -1}, "hiaoshao": Word{Word: "hiaoshao", Def: "▯ is cruel towards ▯.", By: "uakci", Score: 0}, "hiaosi": Word{Word: "hiaosi", Def: "careful", By: "spreadsheet", Score: 0}, "hiaosuao": Word{Word: "hiaosuao", Def: "▯ is severe; ▯ is severely bad for ▯.", By: "uakci", Score: 0}, "hiaotaocho": Word{Word: "hiaotaocho", Def: "▯ is a sadist; ▯ is sadistic towards ▯.", By: "uakci", Score: 0}, "hiaote": Word{Word: "hiaote", Def: "▯ is hurt/injuried.", By: "Ilmen", Score: 0}, "hiaotoai": Word{Word: "hiaotoai", Def: "▯is a pathogen", By: "seaqtaq", Score: 0}, "hiaotuafai": Word{Word: "hiaotuafai", Def: "▯ is cruel towards ▯.\u00a0", By: "uakci", Score: 0}, "hiaq": Word{Word: "hiaq", Def: "predicate: ‘poor’; ▯ is poor in relation ▯; ▯ is in relation ▯ to/with few things.", By: "official", Score: 0}, "hiaq bo ho da.": Word{Word: "hiaq bo ho da.", Def: "(A0839) He doesn't own much.", By: "examples", Score: 0}, "hiaq bo ji da.": Word{Word: "hiaq bo ji da.", Def: "(A0840) I don't own much.", By: "examples", Score: 0}, "hiaq dua ji da.": Word{Word: "hiaq dua ji da.", Def: "(A0847) I don't know much.", By: "examples", Score: 0}, "hiaq ji li bu hai kuq ja poq ja rai.": Word{Word: "hiaq ji li bu hai kuq ja poq ja rai.", Def: "(A0844) There isn't much I haven't already said.", By: "examples", Score: 0}, "hiaq miu suq da.": Word{Word: "hiaq miu suq da.", Def: "(A0841) You don't have many opinions.", By: "examples", Score: 0}, "hiba": Word{Word: "hiba", Def: "I didn't understand what you just said, and I would like you to repeat it.", By: "lynn", Score: 0}, "hibu": Word{Word: "hibu", Def: "▯ is whatever; ▯ is something and I don’t care what it is exactly; ▯ satisfies property ▯, whatever be it in the end.", By: "uakci", Score: 0}, "hica": Word{Word: "hica", Def: "condition ⓥ (depend on), fancuka, kaunka", By: "spreadsheet", Score: 0}, "hiderudo": Word{Word: "hiderudo", Def: "▯ is a red raspberry (Rubus ideaus).", By: "Hoemai", Score: 0}, "hie": Word{Word: "hie", Def: "predicate: ‘carry’; ▯ carries/bears/hauls ▯.", By: "official", Score: 0}, "hiefa": Word{Word: "hiefa", Def: "▯ carries/bears/hauls ▯ to ▯ from ▯.", By: "Ilmen", Score: 0}, "hieheku": Word{Word: "hieheku", Def: "▯ is a hippopotamus.", By: "Ilmen", Score: 0}, "hiejeoq": Word{Word: "hiejeoq", Def: "▯ is a bucket.", By: "Ilmen", Score: 0}, "hieku": Word{Word: "hieku", Def: "▯ is a liver.", By: "Hoemai", Score: 0}, "hieq": Word{Word: "hieq", Def: "▯ throws ▯.", By: "Ilmen", Score: 0}, "hieqbiu": Word{Word: "hieqbiu", Def: "▯ is a cannon/barrel.", By: "Ilmen", Score: 0}, "hieqbiukea": Word{Word: "hieqbiukea", Def: "▯ is a gun/rifle.", By: "Ilmen", Score: 0}, "hieqpoaq": Word{Word: "hieqpoaq", Def: "▯ explodes.", By: "Ilmen", Score: 0}, "hieqtaq": Word{Word: "hieqtaq", Def: "▯ jumps", By: "fagri", Score: 1}, "hietisha": Word{Word: "hietisha", Def: "bring", By: "spreadsheet", Score: 0}, "higuana": Word{Word: "higuana", Def: "▯ is an iguana.", By: "Hoemai", Score: 0}, "hijeo": Word{Word: "hijeo", Def: "▯ is the indirect question of: what satisfies p’ty ▯.", By: "uakci", Score: 0}, "hikui": Word{Word: "hikui", Def: "depend on", By: "spreadsheet", Score: 0}, "hila": Word{Word: "hila", Def: "Beverage ▯ contains alcohol.", By: "uakci", Score: 0}, "hilu": Word{Word: "hilu", Def: "▯ is the proposition P such that the things X having property ▯ are such that P is that X have that property.", By: "Ilmen", Score: 0}, "himei": Word{Word: "himei", Def: "email", By: "spreadsheet", Score: -1}, "himeichiu": Word{Word: "himeichiu", Def: "(fork of #G5ff-ZDoe) (fork of #jQe0Ez9Kwy) ▯ is an email address", By: "seaqtaq", Score: 0}, "himeidoa": Word{Word: "himeidoa", Def: "(fork of #G5ff-ZDoe) (fork of #jQe0Ez9Kwy) ▯ emails ▯ to ▯", By: "seaqtaq", Score: 0}, "himieq": Word{Word: "himieq", Def: "[XX1] Dóshī pa lủ tu dójō měa hóa dógū bı, mỉeq hóa lî ja dófē měa hóa dósāq bı jẻo dójō dófē.", By: "Ilmen", Score: 0}, "himoq": Word{Word: "himoq", Def: "▯ is a ‘hi… moq’ question.", By: "uakci", Score: 0}, "hio": Word{Word: "hio", Def: "kủaq shảo dóshī cêo ra shảı chẻo dẻoq dóshī roı dógū da", By: "uakci", Score: 0}, "hio ji suq ka.": Word{Word: "hio ji suq ka.", Def: "(A0132) I greet you.", By: "examples", Score: 0}, "hio ka.": Word{Word: "hio ka.", Def: "(A0207) Hello!", By: "examples", Score: 0}, "hiodadeoq": Word{Word: "hiodadeoq", Def: "▯ speaks the dialect of Toaq where an utterance is grammatical iff the exact reverse of it is grammatical in regular Toaq.", By: "uakci", Score: 0}, "hioq": Word{Word: "hioq", Def: "predicate: ‘proud’; ▯ is proud / feels pride.", By: "official", Score: 0}, "hioqgiq": Word{Word: "hioqgiq", Def: "▯ is ashamed.", By: "Ilmen", Score: 0}, "hioqkuq": Word{Word: "hioqkuq", Def: "▯ brags about ▯.", By: "uakci", Score: 0}, "hioqruo": Word{Word: "hioqruo", Def: "▯ is audacious in their ▯-ness.", By: "uakci", Score: 0}, "hioqshuikuq": Word{Word: "hioqshuikuq", Def: "▯ humble brags ▯ to ▯", By: "seaqtaq", Score: 0}, "hiota": Word{Word: "hiota", Def: "predicate: ‘yotta’; ▯ are 10^24 (1,000,000,000,000,000,000,000,000) in number; ▯ are a septillion.", By: "official", Score: 0}, "hipoi": Word{Word: "hipoi", Def: "▯ is an event in which what was the x1?", By: "seaqtaq", Score: 0}, "hipote": Word{Word: "hipote", Def: "hypothesis", By: "spreadsheet", Score: 0}, "hiqdia": Word{Word: "hiqdia", Def: "▯ pertains to the culture of India.", By: "Ilmen", Score: 0}, "hiqdiagua": Word{Word: "hiqdiagua", Def: "▯ is India.", By: "Ilmen", Score: 0}, "hiqdiamaqkaiheaq": Word{Word: "hiqdiamaqkaiheaq", Def: "▯ is the common mango tree (Mangifera indica).", By: "Ilmen", Score: 0}, "hiqdonesia": Word{Word: "hiqdonesia", Def: "▯ pertains to the culture of Indonesia – Republic of Indonesia.", By: "countries", Score: 0}, "hiqdonesiagua": Word{Word: "hiqdonesiagua", Def: "▯ is the country Indonesia – Republic of Indonesia.", By: "countries", Score: 0}, "hiqdonesiatoaq": Word{Word: "hiqdonesiatoaq", Def: "▯ is (one of) the language(s) spoken in Indonesia – Republic of Indonesia.", By: "countries", Score: 0}, "hiqgiq": Word{Word: "hiqgiq", Def: "▯ is such that the function ▯ at that point yields ▯ (default: 0); ▯ is such that function ▯ vanishes at that point.", By: "uakci", Score: 0}, "hiqhui": Word{Word: "hiqhui", Def: "▯ is a word-for-word/literal translation; ▯ is an idiom or peculiarity of speech directly translated without any consideration for the semantics, grammar, and idiomatic patterns of the target language; ▯ is [not necessarily] a figure of speech commonly used in natlangs, but meaningless in the context of this loglang; ▯ is malglico.", By: "uakci", Score: 0}, "hiqli": Word{Word: "hiqli", Def: "English language", By: "spreadsheet", Score: 0}, "hiqlisha": Word{Word: "hiqlisha", Def: "English language", By: "spreadsheet", Score: 0}, "hiqlishi": Word{Word: "hiqlishi", Def: "English language", By: "spreadsheet", Score: 0}, "hiqlitoaq": Word{Word: "hiqlitoaq", Def: "English language", By: "spreadsheet", Score: 1}, "hiraichua": Word{Word: "hiraichua", Def: "▯ is a thingy, a widget, a what-was-it-called.", By: "uakci", Score: 0}, "hiraki": Word{Word: "hiraki", Def: "▯ pertains to the culture of Iraq – Republic of Iraq.", By: "countries", Score: 0}, "hirakigua": Word{Word: "hirakigua", Def: "▯ is the country Iraq – Republic of Iraq.", By: "countries", Score: 0}, "hirakitoaq": Word{Word: "hirakitoaq", Def: "▯ is (one of) the language(s) spoken in Iraq – Republic of Iraq.", By: "countries", Score: 0}, "hirani": Word{Word: "hirani", Def: "▯ pertains to the culture of Iran – Islamic Republic of Iran.", By: "countries", Score: 0}, "hiranigua": Word{Word: "hiranigua", Def: "▯ is the country Iran – Islamic Republic of Iran.", By: "countries", Score: 0}, "hiranitoaq": Word{Word: "hiranitoaq", Def: "▯ is (one of) the language(s) spoken in Iran – Islamic Republic of Iran.", By: "countries", Score: 0}, "hirisi": Word{Word: "hirisi", Def: "IRC", By: "uakci", Score: 0}, "hisaq": Word{Word: "hisaq", Def: "horse", By: "spreadsheet", Score: -1}, "hishao": Word{Word: "hishao", Def: "what does ▯ want?", By: "seaqtaq", Score: 0}, "hishiq": Word{Word: "hishiq", Def: "maize, corn", By: "spreadsheet", Score: 0}, "hitali": Word{Word: "hitali", Def: "▯ (sequence of written glyphs) is italicized", By: "fagri", Score: 0}, "hitalia": Word{Word: "hitalia", Def: "▯ pertains to the culture of Italy – Italian Republic.", By: "countries", Score: 0}, "hitaliagua": Word{Word: "hitaliagua", Def: "▯ is the country Italy – Italian Republic.", By: "countries", Score: 0}, "hitaliatoaq": Word{Word: "hitaliatoaq", Def: "▯ is (one of) the language(s) spoken in Italy – Italian Republic.", By: "countries", Score: 0}, "hiu": Word{Word: "hiu", Def: "predicate: ‘river’; ▯ is a river.", By: "official", Score: 0}, "hiufa": Word{Word: "hiufa", Def: "grammar", By: "spreadsheet", Score: 0}, "hiuguao": Word{Word: "hiuguao", Def: "▯ is a fork in a river.", By: "lynn", Score: 0}, "hiuguoq": Word{Word: "hiuguoq", Def: "▯ is the mouth of a river", By: "seaqtaq", Score: 0}, "hiuhekuo": Word{Word: "hiuhekuo", Def: "▯ is a member of genus Hippopotamus.", By: "Hoemai", Score: 0}, "hiurea": Word{Word: "hiurea", Def: "river bank", By: "spreadsheet", Score: 0}, "hiureareaq": Word{Word: "hiureareaq", Def: "▯ is a crocodile.", By: "Ilmen", Score: 0}, "ho": Word{Word: "ho", Def: "predicate: ‘they’; ▯ is him/her/it / are them.", By: "official", Score: 0}, "ho lao nai rao ruqshua pa roq.": Word{Word: "ho lao nai rao ruqshua pa roq.", Def: "(PAN.3) They who now wait while it is raining weep.", By: "official", Score: 0}, "hoa": Word{Word: "hoa", Def: "predicate: ‘it’; relative pronoun whose antecedent is the head of the containing relative clause", By: "official", Score: 0}, "hoai": Word{Word: "hoai", Def: "predicate: ‘still’; ▯ is still the case.", By: "official", Score: 0}, "hoapa": Word{Word: "hoapa", Def: "The antecedent(s) of the relative clause satisfies property ▯.", By: "Ilmen", Score: 0}, "hoapoi": Word{Word: "hoapoi", Def: "▯ is an event in which hoa is the x1", By: "seaqtaq", Score: 0}, "hoaq": Word{Word: "hoaq", Def: "▯ burns in oxidizer ▯.", By: "Ilmen", Score: 0}, "hoaq choe juoq bu shue ti kuoq da.": Word{Word: "hoaq choe juoq bu shue ti kuoq da.", Def: "(A0951) It burns until even bone doesn't remain.", By: "examples", Score: 0}, "hoaqbeaq": Word{Word: "hoaqbeaq", Def: "candle", By: "spreadsheet", Score: 0}, "hoaqfaq": Word{Word: "hoaqfaq", Def: "fire", By: "spreadsheet", Score: 0}, "hoaqfui": Word{Word: "hoaqfui", Def: "▯ is flammable/inflammable; ▯ is easily set on fire.", By: "Ilmen", Score: 0}, "hoaqgio": Word{Word: "hoaqgio", Def: "▯ is firelight / candlelight ; ▯ is the light produced by a fire", By: "fagri", Score: 0}, "hoaqgio sa loe nie heaqkiu giokea ba.": Word{Word: "hoaqgio sa loe nie heaqkiu giokea ba.", Def: "(A0950) Let/May some fire be a flame-light in portable lamp.", By: "examples", Score: 0}, "hoaqhaq": Word{Word: "hoaqhaq", Def: "fuel", By: "spreadsheet", Score: 0}, "hoaqhiao": Word{Word: "hoaqhiao", Def: "▯ burns (injury) ▯\u00a0", By: "seaqtaq", Score: 0}, "hoaqkea": Word{Word: "hoaqkea", Def: "predicate: ‘lighter’; ▯ is a lighter.", By: "official", Score: 0}, "hoaqkiu": Word{Word: "hoaqkiu", Def: "▯ is flammable", By: "seaqtaq", Score: 0}, "hoaqleq": Word{Word: "hoaqleq", Def: "▯ is a flame.", By: "Ilmen", Score: 0}, "hoaqloha": Word{Word: "hoaqloha", Def: "▯ is magnesium.", By: "Ilmen", Score: 0}, "hoaqlui": Word{Word: "hoaqlui", Def: "▯ is charcoal.", By: "Ilmen", Score: 0}, "hoaqluq": Word{Word: "hoaqluq", Def: "▯ smolders.", By: "Ilmen", Score: 0}, "hoaqmei": Word{Word: "hoaqmei", Def: "volcano", By: "spreadsheet", Score: 0}, "hoaqnao": Word{Word: "hoaqnao", Def: "▯ is alcohol.", By: "Ilmen", Score: 1}, "hoaqpio": Word{Word: "hoaqpio", Def: "▯ is coal.", By: "Ilmen", Score: 0}, "hoaqpiotui": Word{Word: "hoaqpiotui", Def: "▯ is a dragon", By: "seaqtaq", Score: 0}, "hoaqpuao": Word{Word: "hoaqpuao", Def: "smoke (danmo)", By: "spreadsheet", Score: 0}, "hoaqpuo": Word{Word: "hoaqpuo", Def: "ash", By: "spreadsheet", Score: -1}, "hoaqpuoloha": Word{Word: "hoaqpuoloha", Def: "▯ is potassium.", By: "Ilmen", Score: 0}, "hoaqrio": Word{Word: "hoaqrio", Def: "fire", By: "spreadsheet", Score: 0}, "hoaqshuao": Word{Word: "hoaqshuao", Def: "▯ is a phoenix", By: "seaqtaq", Score: 0}, "hoaqtue": Word{Word: "hoaqtue", Def: "fire", By: "spreadsheet", Score: 0}, "hobi": Word{Word: "hobi", Def: "sheep", By: "spreadsheet", Score: -1}, "hoe": Word{Word: "hoe", Def: "sảo ru lỏq dóshī, na ru gảıkīu rào sa ráı tî dóshī sa séoq da", By: "uakci", Score: 0}, "hoebuaq": Word{Word: "hoebuaq", Def: "▯ is a brown dwarf (failed star).", By: "Ilmen", Score: 0}, "hoediu": Word{Word: "hoediu", Def: "▯ is astronomy", By: "seaqtaq", Score: 0}, "hoedue": Word{Word: "hoedue", Def: "predicate: ‘legal’; ▯ is legal", By: "seaqtaq", Score: 0}, "hoefu": Word{Word: "hoefu", Def: "▯ is a Toaqist.", By: "uakci", Score: 0}, "hoegio": Word{Word: "hoegio", Def: "▯ is sunlight", By: "fagri", Score: 0}, "hoejie": Word{Word: "hoejie", Def: "adverb: \"according to Hoemāı;\" \"Hoemāı says...\"", By: "seaqtaq", Score: 0}, "hoeloha": Word{Word: "hoeloha", Def: "▯ is gold.", By: "Ilmen", Score: 1}, "hoelui": Word{Word: "hoelui", Def: "▯ is a stellar remnant (white dwarf, neutron star, black hole…).", By: "Ilmen", Score: 0}, "hoemai": Word{Word: "hoemai", Def: "mảı dóshī báq hỏe da", By: "uakci", Score: 0}, "hoene": Word{Word: "hoene", Def: "▯ is an hour.", By: "uakci", Score: 1}, "hoesai": Word{Word: "hoesai", Def: "▯ is helium.", By: "Ilmen", Score: 0}, "hoesioq": Word{Word: "hoesioq", Def: "▯ is a galaxy.", By: "Ilmen", Score: 0}, "hoesioqme": Word{Word: "hoesioqme", Def: "▯ is a cluster of galaxies.", By: "Ilmen", Score: 0}, "hoetoaq": Word{Word: "hoetoaq", Def: "▯ is Toaq.", By: "uakci", Score: 0}, "hohao": Word{Word: "hohao", Def: "▯ is he/she/them and the others.", By: "Ilmen", Score: 0}, "hohoi": Word{Word: "hohoi", Def: "▯ is the person referred to by the pronoun #ho before the new referent of #ho was established.", By: "uakci", Score: -2}, "hoi": Word{Word: "hoi", Def: "predicate: ‘aforementioned’; ▯ are the aforementioned things; ▯ is/are the aforementioned things that satisfy property ▯.", By: "official", Score: 0}, "hoi kua pa sao ri nui moq.": Word{Word: "hoi kua pa sao ri nui moq.", Def: "(A0230) Is the afermentioned room big or small? ", By: "examples", Score: 0}, "hoilaseu": Word{Word: "hoilaseu", Def: "▯ is Euler's number.", By: "Ilmen", Score: 0}, "hoitoa": Word{Word: "hoitoa", Def: "▯ is an anaphora", By: "seaqtaq", Score: 0}, "hojeo": Word{Word: "hojeo", Def: "What the last person said is true [nullary predicate]; ‘What they said.’", By: "uakci", Score: 0}, "hoji": Word{Word: "hoji", Def: "▯ are us (exclusive we, listener not included).", By: "Hoemai", Score: 0}, "hokapi": Word{Word: "hokapi", Def: "▯ is an okapi.", By: "Ilmen", Score: 0}, "hokei": Word{Word: "hokei", Def: "▯ is OK (okay, fine, acceptable, all right).", By: "lynn", Score: 0}, "hoki": Word{Word: "hoki", Def: "▯ is hockey (game).", By: "Hoemai", Score: 0}, "homo": Word{Word: "homo", Def: "predicate: ‘human’; ▯ is a human.", By: "seaqtaq", Score: 0}, "hono": Word{Word: "hono", Def: "honor, honour", By: "spreadsheet", Score: 0}, "hopa": Word{Word: "hopa", Def: "▯ is satisfied by him/her/them.", By: "lynn", Score: 1}, "hopoi": Word{Word: "hopoi", Def: "▯ is an event in which he/she/they is the x1", By: "seaqtaq", Score: 0}, "hoq": Word{Word: "hoq", Def: "The most recently uttered proposition is true; ▯ is the most recently uttered proposition.", By: "uakci", Score: 0}, "hoq kui hi rai moq.": Word{Word: "hoq kui hi rai moq.", Def: "(A0239) Why is it?", By: "examples", Score: 0}, "hoqba": Word{Word: "hoqba", Def: "▯ is such that ▯ has expressed it with #ba.", By: "uakci", Score: 0}, "hoqbie": Word{Word: "hoqbie", Def: "adverb: ‘afterwards’; afterwards, after that", By: "official", Score: 0}, "hoqdura": Word{Word: "hoqdura", Def: "▯ pertains to the culture of Honduras – Republic of Honduras.", By: "countries", Score: 0}, "hoqduragua": Word{Word: "hoqduragua", Def: "▯ is the country Honduras – Republic of Honduras.", By: "countries", Score: 0}, "hoqduratoaq": Word{Word: "hoqduratoaq", Def: "▯ is (one of) the language(s) spoken in Honduras – Republic of Honduras.", By: "countries", Score: 0}, "hoqhelo": Word{Word: "hoqhelo", Def: "▯ is the Xorlo reform; ▯ is the modification to Lojban centered around Xorxes’ {lo}.", By: "uakci", Score: 0}, "hoqka": Word{Word: "hoqka", Def: "▯ is true by virtue of ▯ ka-saying so.", By: "uakci", Score: 0}, "hoqkeo": Word{Word: "hoqkeo", Def: "▯ is however the case.", By: "Ilmen", Score: 0}, "hoqkui": Word{Word: "hoqkui", Def: "adverb: ‘therefore’; therefore, because of that", By: "official", Score: 0}, "hoqni": Word{Word: "hoqni", Def: "▯ is the matter at hand.", By: "uakci", Score: 0}, "hoqrai": Word{Word: "hoqrai", Def: "▯ is abstract.", By: "Ilmen", Score: 0}, "hoqsa": Word{Word: "hoqsa", Def: "▯ is a jaguar (Panthera onca).", By: "Ilmen", Score: 0}, "hoqshiu": Word{Word: "hoqshiu", Def: "▯ takes place beforehand.", By: "lynn", Score: 0}, "hoqsie": Word{Word: "hoqsie", Def: "▯ is the case afterwards.", By: "Hoemai", Score: 0}, "hoqsiu": Word{Word: "hoqsiu", Def: "▯ (event) is similar to ▯ (event)", By: "fagri", Score: 0}, "hoqtoaq": Word{Word: "hoqtoaq", Def: "(fork of #Uc-jEpfvk) ▯ is the language this utterance is in; ▯ is Toaq.", By: "uakci", Score: 0}, "hora": Word{Word: "hora", Def: "predicate: ‘hour’; ▯ is an hour.", By: "official", Score: 0}, "horabaq": Word{Word: "horabaq", Def: "▯ is the hour numbered ▯", By: "fagri", Score: 0}, "horachiu": Word{Word: "horachiu", Def: "▯ is the time ▯ (three- or four-digit number)", By: "fagri", Score: 0}, "horai": Word{Word: "horai", Def: "▯ is animate.", By: "Ilmen", Score: 0}, "horane": Word{Word: "horane", Def: "▯ is the duration of an hour multiplied by ▯", By: "seaqtaq", Score: 0}, "horolo": Word{Word: "horolo", Def: "▯ is Xorlo.", By: "Ilmen", Score: 0}, "hoserai": Word{Word: "hoserai", Def: "▯ pertains to the culture of Austria – Republic of Austria.", By: "countries", Score: 0}, "hoseraigua": Word{Word: "hoseraigua", Def: "▯ is the country Austria – Republic of Austria.", By: "countries", Score: 0}, "hoseraitoaq": Word{Word: "hoseraitoaq", Def: "▯ is (one of) the language(s) spoken in Austria – Republic of Austria.", By: "countries", Score: 0}, "hosuqji": Word{Word: "hosuqji", Def: "▯ is you, I and the others.", By: "Ilmen", Score: 1}, "hu": Word{Word: "hu", Def: "vocative: ‘O’; vocative", By: "official", Score: 0}, "hu mi josefo!": Word{Word: "hu mi josefo!", Def: "(FRG.3) Hey, Joseph!", By: "official", Score: 0}, "hu tu suq, niqdao hi po suq moq.": Word{Word: "hu tu suq, niqdao hi po suq moq.", Def: "(A0637) To each of you, what's new about you?", By: "examples", Score: 0}, "hua": Word{Word: "hua", Def: "predicate: ‘body.part’; ▯ is a body part.", By: "official", Score: 0}, "huaduo": Word{Word: "huaduo", Def: "gesture / move (without overall location change)", By: "spreadsheet", Score: 0}, "huagai": Word{Word: "huagai", Def: "▯ feels ▯ via proprioception.", By: "Ilmen", Score: 1}, "huai": Word{Word: "huai", Def: "predicate: ‘scoop’; ▯ scoops ▯ out of ▯.", By: "official", Score: 0}, "huaichuo": Word{Word: "huaichuo", Def: "predicate: ‘spoon’; ▯ is a spoon.", By: "official", Score: 0}, "huaichuofuaq": Word{Word: "huaichuofuaq", Def: "▯ is a picture of a spoon.", By: "uakci", Score: 0}, "huaifai": Word{Word: "huaifai", Def: "Wi-Fi", By: "uakci", Score: 0}, "huakea": Word{Word: "huakea", Def: "▯ is a prosthetic limb", By: "seaqtaq", Score: 0}, "huakuq": Word{Word: "huakuq", Def: "▯ signs/gestures ▯ to ▯.", By: "lynn", Score: 1}, "huao": Word{Word: "huao", Def: "predicate: ‘loose’; ▯ is loose.", By: "official", Score: 0}, "huapaq": Word{Word: "huapaq", Def: "▯ is a body part of ▯", By: "fagri", Score: 0}, "huaq": Word{Word: "huaq", Def: "= [XX2] Lú jảqlīnēlī hóa dósāq bı sẻuhūaq lú sa bỉhōı hóa dóshī na lú sa bỉhōı hóa dỏgū.", By: "Ilmen", Score: 0}, "huaq gi": Word{Word: "huaq gi", Def: "predicate: ‘better’; ▯ is better than ▯.", By: "official", Score: 0}, "huaq hui": Word{Word: "huaq hui", Def: "predicate: ‘worse’; ▯ is worse than ▯.", By: "official", Score: 0}, "huaq pui": Word{Word: "huaq pui", Def: "predicate: ‘more.numerous’; ▯ are more numerous than ▯.", By: "official", Score: 0}, "huaq suai suq ji da.": Word{Word: "huaq suai suq ji da.", Def: "(A0392) You're faster than I am.", By: "examples", Score: 0}, "huaqcho": Word{Word: "huaqcho", Def: "predicate: ‘prefer’; ▯ prefers ▯ over ▯.", By: "official", Score: 0}, "huaqcho suq baq kafe ri baq chai moq.": Word{Word: "huaqcho suq baq kafe ri baq chai moq.", Def: "(A0193) Do you prefer coffee or tea?", By: "examples", Score: 0}, "huaqcuao": Word{Word: "huaqcuao", Def: "even more", By: "spreadsheet", Score: 0}, "huaqfaq": Word{Word: "huaqfaq", Def: "(fork of #I30t4CdGm) ▯ elapses for more than ▯(period of time)", By: "seaqtaq", Score: 0}, "huaqgiq": Word{Word: "huaqgiq", Def: "less than", By: "spreadsheet", Score: 0}, "huaqjuaq": Word{Word: "huaqjuaq", Def: "even more", By: "spreadsheet", Score: 0}, "huaqlemiu": Word{Word: "huaqlemiu", Def: "▯ overestimates how much ▯ is the case.", By: "Ilmen", Score: 0}, "huaqloi": Word{Word: "huaqloi", Def: "▯ envies ▯ for being more ▯/1 than themselves; ▯ is jealous for ▯’s ▯/1-ness.", By: "uakci", Score: 1}, "huaqma": Word{Word: "huaqma", Def: "▯ is greater than an average ▯ (p’ty) in satisfying p’ty ▯.", By: "uakci", Score: 0}, "huaqmea": Word{Word: "huaqmea", Def: "▯ is the majority of ▯", By: "seaqtaq", Score: 0}, "huaqmu": Word{Word: "huaqmu", Def: "less than", By: "spreadsheet", Score: 0}, "huaqshe": Word{Word: "huaqshe", Def: "▯ is more the case the more ▯ is the case.", By: "sheireq", Score: 0}, "hue": Word{Word: "hue", Def: "predicate: ‘feather’; ▯ is a feather.", By: "official", Score: 0}, "huela": Word{Word: "huela", Def: "▯ is a vulva.", By: "Hoemai", Score: 0}, "huelaleq(fuo)": Word{Word: "huelaleq(fuo)", Def: "▯ performs cunnilingus on ▯.", By: "Hoemai", Score: 1}, "hugaqda": Word{Word: "hugaqda", Def: "▯ pertains to the culture of Uganda – Republic of Uganda.", By: "countries", Score: 0}, "hugaqdagua": Word{Word: "hugaqdagua", Def: "▯ is the country Uganda – Republic of Uganda.", By: "countries", Score: 0}, "hugaqdatoaq": Word{Word: "hugaqdatoaq", Def: "▯ is (one of) the language(s) spoken in Uganda – Republic of Uganda.", By: "countries", Score: 0}, "hui": Word{Word: "hui", Def: "= gıq #gỉ", By: "uakci", Score: 0}, "hui sa daqmoa da.": Word{Word: "hui sa daqmoa da.", Def: "(A0131) Some moment is bad.", By: "examples", Score: 0}, "huibonua": Word{Word: "huibonua", Def: "▯ steals ▯ from ▯", By: "fagri", Score: -1}, "huicaqruaq": Word{Word: "huicaqruaq", Def: "▯ blames ▯ (for satisfying property ▯)", By: "seaqtaq", Score: 0}, "huichiai": Word{Word: "huichiai", Def: "▯ is morally wrong", By: "seaqtaq", Score: 0}, "huicia": Word{Word: "huicia", Def: "predicate: ‘lack’; ▯ is lacking in that does not satisfy property ▯; ▯ lacking property ▯ is bad.", By: "official", Score: 0}, "huidai": Word{Word: "huidai", Def: "risk", By: "spreadsheet", Score: 0}, "huidaimeoq": Word{Word: "huidaimeoq", Def: "▯ proceeds with care.", By: "Ilmen", Score: 0}, "huidaimoe": Word{Word: "huidaimoe", Def: "▯ feels anxiety; ▯ is anxious.", By: "Ilmen", Score: 0}, "huidaimoi": Word{Word: "huidaimoi", Def: "▯ feels anxiety; ▯ is anxious.", By: "Ilmen", Score: 0}, "huidaisi": Word{Word: "huidaisi", Def: "careful", By: "spreadsheet", Score: -1}, "huifaq": Word{Word: "huifaq", Def: "▯ goes wrong/awry", By: "seaqtaq", Score: 0}, "huigaipua": Word{Word: "huigaipua", Def: "▯ enjoys observing someone else's misfortune; ▯ feels schadenfreude.", By: "Ilmen", Score: 0}, "huijie": Word{Word: "huijie", Def: "jỉe hủı dógū dóshī da", By: "uakci", Score: 0}, "huilie": Word{Word: "huilie", Def: "predicate: ‘suffer’; ▯ suffers from experiencing property ▯.", By: "official", Score: 0}, "huilieruaq": Word{Word: "huilieruaq", Def: "▯ complains that ▯ is the case.", By: "Ilmen", Score: 0}, "huiloaq": Word{Word: "huiloaq", Def: "▯ is a badass.", By: "uakci", Score: 0}, "huimoaq": Word{Word: "huimoaq", Def: "▯ has ▯ on their conscience.", By: "uakci", Score: 0}, "huimoi": Word{Word: "huimoi", Def: "▯ feels anxiety; ▯ is anxious.", By: "Ilmen", Score: 0}, "huineq": Word{Word: "huineq", Def: "predicate: ‘unfortunate’; ▯ is unfortunate for ▯.", By: "official", Score: 0}, "huinua": Word{Word: "huinua", Def: "▯ steals ▯ from ▯.", By: "uakci", Score: 0}, "huinue": Word{Word: "huinue", Def: "predicate: ‘threaten’; ▯ threatens ▯ with satisfying property ▯.", By: "official", Score: 0}, "huipiotui": Word{Word: "huipiotui", Def: "▯ is a dinosaur (reptile)", By: "seaqtaq", Score: 0}, "huiseaq": Word{Word: "huiseaq", Def: "▯ is fucking true; ▯ fucking satisfies property ▯", By: "fagri", Score: 1}, "huiseoq": Word{Word: "huiseoq", Def: "▯ is a storm", By: "seaqtaq", Score: 0}, "huishao": Word{Word: "huishao", Def: "▯ is malicious/has ill-will towards ▯.", By: "Hoemai", Score: 0}, "huishaokuaq": Word{Word: "huishaokuaq", Def: "curse (v)", By: "spreadsheet", Score: 0}, "huishaokuq": Word{Word: "huishaokuq", Def: "curse (v)", By: "spreadsheet", Score: 0}, "huishue": Word{Word: "huishue", Def: "waste (bad deplete)", By: "spreadsheet", Score: 0}, "huisi": Word{Word: "huisi", Def: "careful", By: "spreadsheet", Score: 0}, "huitaoheq": Word{Word: "huitaoheq", Def: "▯ is a jail.", By: "Ilmen", Score: 0}, "huitaojio": Word{Word: "huitaojio", Def: "▯ is a jail/prison.", By: "Ilmen", Score: 0}, "huitua": Word{Word: "huitua", Def: "▯ makes bad thing ▯ happen.", By: "lynn", Score: 0}, "huku": Word{Word: "huku", Def: "▯ is a squash/pumpkin/gourd of the Cucurbita genus.", By: "Ilmen", Score: 0}, "hukushu": Word{Word: "hukushu", Def: "▯ is a squash/pumpkin/gourd of the Cucurbita genus.", By: "Ilmen", Score: 0}, "huna": Word{Word: "huna", Def: "soft, ranti", By: "spreadsheet", Score: 0}, "hunagie": Word{Word: "hunagie", Def: "▯ is a tentacle.", By: "Ilmen", Score: 0}, "huo": Word{Word: "huo", Def: "predicate: ‘auditory’; ▯ is auditory; ▯ pertains to the sense of hearing/audition.", By: "official", Score: 0}, "huobuai": Word{Word: "huobuai", Def: "rabbit", By: "spreadsheet", Score: -1}, "huode": Word{Word: "huode", Def: "▯ sounds beautiful; ▯ has a beautiful sound.", By: "Hoemai", Score: 0}, "huofie": Word{Word: "huofie", Def: "▯ sounds ugly.", By: "Ilmen", Score: 0}, "huogai": Word{Word: "huogai", Def: "predicate: ‘hear’; ▯ hears ▯.", By: "official", Score: 0}, "huogai ji giaq ru choalaq.": Word{Word: "huogai ji giaq ru choalaq.", Def: "(CON.1) I'm hearing music and voices.", By: "official", Score: 0}, "huogai ji sa laq da.": Word{Word: "huogai ji sa laq da.", Def: "(A0128) I hear a voice.", By: "examples", Score: 0}, "huogai ji sa rai.": Word{Word: "huogai ji sa rai.", Def: "(QUA.1) I hear something.", By: "official", Score: 0}, "huogai ji sia rai da.": Word{Word: "huogai ji sia rai da.", Def: "(A0125) I hear nothing.", By: "examples", Score: 0}, "huogaikea": Word{Word: "huogaikea", Def: "▯ is a microphone.", By: "lynn", Score: 0}, "huogaikiu sa po jiao ga chua po budachuaq ba.": Word{Word: "huogaikiu sa po jiao ga chua po budachuaq ba.", Def: "(A0964) Make some god's name of Buddhism audible.", By: "examples", Score: 0}, "huogi": Word{Word: "huogi", Def: "predicate: ‘sound.good’; ▯ sounds good; ▯ sounds good to ▯.", By: "official", Score: 0}, "huohua": Word{Word: "huohua", Def: "predicate: ‘ear’; ▯ is an ear.", By: "official", Score: 0}, "huohuabuai": Word{Word: "huohuabuai", Def: "rabbit", By: "spreadsheet", Score: -1}, "huohualaqkea": Word{Word: "huohualaqkea", Def: "earphones", By: "spreadsheet", Score: 0}, "huohuanui": Word{Word: "huohuanui", Def: "▯ is a South American sea lion (genus Otaria).", By: "Ilmen", Score: 0}, "huohuanuisiu": Word{Word: "huohuanuisiu", Def: "▯ belongs to the Otarridae taxonomic family (the sea lions and fur seals).", By: "Ilmen", Score: 0}, "huohui": Word{Word: "huohui", Def: "▯ sounds bad.", By: "Ilmen", Score: 0}, "huoi": Word{Word: "huoi", Def: "predicate: ‘tail’; ▯ is a tail.", By: "official", Score: 0}, "huoichuqcheo": Word{Word: "huoichuqcheo", Def: "▯ (pl.) eat one another’s tails.", By: "uakci", Score: 0}, "huoicia": Word{Word: "huoicia", Def: "frog", By: "spreadsheet", Score: 0}, "huoisia": Word{Word: "huoisia", Def: "frog", By: "spreadsheet", Score: -1}, "huokiu": Word{Word: "huokiu", Def: "predicate: ‘audible’; ▯ is audible.", By: "official", Score: 0}, "huosi": Word{Word: "huosi", Def: "predicate: ‘listen’; ▯ listens to ▯.", By: "official", Score: 0}, "huosi ba.": Word{Word: "huosi ba.", Def: "(A0127) Listen!", By: "examples", Score: 0}, "huosi ji baq giaq rao tu chaq da.": Word{Word: "huosi ji baq giaq rao tu chaq da.", Def: "(A0094) I listen to music every day.", By: "examples", Score: 0}, "huosikea": Word{Word: "huosikea", Def: "microphone", By: "spreadsheet", Score: 0}, "huosiu": Word{Word: "huosiu", Def: "▯ sounds like ▯", By: "seaqtaq", Score: 0}, "huosuao": Word{Word: "huosuao", Def: "▯is a phoneme", By: "seaqtaq", Score: 0}, "huotoai": Word{Word: "huotoai", Def: "▯ is a phone(linguistics)", By: "seaqtaq", Score: 0}, "hupa": Word{Word: "hupa", Def: "push", By: "spreadsheet", Score: 0}, "hupa(mieq)chuo": Word{Word: "hupa(mieq)chuo", Def: "▯ is a barometer", By: "seaqtaq", Score: 0}, "hupacheoq": Word{Word: "hupacheoq", Def: "▯ is a tube (container).", By: "Ilmen", Score: 0}, "huparei": Word{Word: "huparei", Def: "▯ squeezes ▯.", By: "Ilmen", Score: 0}, "hupi": Word{Word: "hupi", Def: "fox", By: "spreadsheet", Score: 0}, "huq": Word{Word: "huq", Def: "self-vocative: analogous to «hu», but describes the speaker and not the intended listener.", By: "uakci", Score: 0}, "huqkia": Word{Word: "huqkia", Def: "▯ is a jaguar (Panthera onca).", By: "Ilmen", Score: -1}, "huqsi ka.": Word{Word: "huqsi ka.", Def: "Oops", By: "uakci", Score: 0}, "hura": Word{Word: "hura", Def: "xlura", By: "spreadsheet", Score: -1}, "hurahe": Word{Word: "hurahe", Def: "▯ is a witch", By: "seaqtaq", Score: -1}, "huri": Word{Word: "huri", Def: "▯ is wild, untamed, not domesticated.", By: "Ilmen", Score: 0}, "hurigupaqluko": Word{Word: "hurigupaqluko", Def: "▯ is a wolf-dog.", By: "Ilmen", Score: 0}, "huriluko": Word{Word: "huriluko", Def: "▯ is a wolf.", By: "Ilmen", Score: 0}, "huruguai": Word{Word: "huruguai", Def: "▯ pertains to the culture of Uruguay – Oriental Republic of Uruguay.", By: "countries", Score: 0}, "huruguaigua": Word{Word: "huruguaigua", Def: "▯ is the country Uruguay – Oriental Republic of Uruguay.", By: "countries", Score: 0}, "huruguaitoaq": Word{Word: "huruguaitoaq", Def: "▯ is (one of) the language(s) spoken in Uruguay – Oriental Republic of Uruguay.", By: "countries", Score: 0}, "hushi": Word{Word: "hushi", Def: "▯ has joke ▯ fly over their head.", By: "uakci", Score: 0}, "husho": Word{Word: "husho", Def: "predicate: ‘hush’; ▯ becomes quiet/silent; ▯ hushes.", By: "official", Score: 0}, "husona": Word{Word: "husona", Def: "▯ pertains to the culture of United States – United States of America.", By: "countries", Score: 0}, "husonagua": Word{Word: "husonagua", Def: "▯ is the country United States – United States of America.", By: "countries", Score: 0}, "husonatoaq": Word{Word: "husonatoaq", Def: "▯ is (one of) the language(s) spoken in United States – United States of America.", By: "countries", Score: 0}, "ja": Word{Word: "ja", Def: "quantifier: ‘lambda’; quantifier: lambda", By: "official", Score: 0}, "jai": Word{Word: "jai", Def: "predicate: ‘happy’; ▯ is happy/glad/joyful.", By: "official", Score: 0}, "jai ho kui jiajui jeaqcao da.": Word{Word: "jai ho kui jiajui jeaqcao da.", Def: "(A0212) He's happy because it will soon be spring.", By: "examples", Score: 0}, "jai ji da.": Word{Word: "jai ji da.", Def: "(SMP.1) I am happy.", By: "official", Score: 0}, "jai ji kui lu kuaochaq da.": Word{Word: "jai ji kui lu kuaochaq da.", Def: "(A0244) I'm happy because it's Friday.", By: "examples", Score: 0}, "jaibuq": Word{Word: "jaibuq", Def: "▯ smiles", By: "fagri", Score: 0}, "jaica chaq pa suai shai": Word{Word: "jaica chaq pa suai shai", Def: "(B0019) The happy days passed quickly", By: "examples", Score: 0}, "jaile": Word{Word: "jaile", Def: "▯ is a jail", By: "fagri", Score: -2}, "jailuq": Word{Word: "jailuq", Def: "▯ feels the emotion between joy and calm; ▯ geksurla", By: "fagri", Score: 0}, "jake": Word{Word: "jake", Def: "predicate: ‘jacket’; ▯ is a jacket.", By: "official", Score: 0}, "jamaika": Word{Word: "jamaika", Def: "▯ pertains to the culture of Jamaica.", By: "countries", Score: 0}, "jamaikagua": Word{Word: "jamaikagua", Def: "▯ is the country Jamaica.", By: "countries", Score: 0}, "jamaikatoaq": Word{Word: "jamaikatoaq", Def: "▯ is (one of) the language(s) spoken in Jamaica.", By: "countries", Score: 0}, "jane": Word{Word: "jane", Def: "predicate arity, terbrimei", By: "spreadsheet", Score: 0}, "jao": Word{Word: "jao", Def: "predicate: ‘far’; ▯ is far away from ▯ in property ▯.", By: "official", Score: 0}, "jao miu ji baq poq da.": Word{Word: "jao miu ji baq poq da.", Def: "(A0867) My opinions are far from those of a typical person.", By: "examples", Score: 0}, "jao mu ne dua ji suq gi jiao.": Word{Word: "jao mu ne dua ji suq gi jiao.", Def: "(A0863) We are far apart in how much we know that God is good.", By: "examples", Score: 0}, "jao mu ne joe ho liqho da.": Word{Word: "jao mu ne joe ho liqho da.", Def: "(A0864) They are far from her in how skilled they are.", By: "examples", Score: 0}, "jao mu ne joe koi ho liqho da.": Word{Word: "jao mu ne joe koi ho liqho da.", Def: "(A0865) They are far from her in how skilled they are at walking.", By: "examples", Score: 0}, "jao rao hoq sho bia ji da.": Word{Word: "jao rao hoq sho bia ji da.", Def: "(A0862) It was far (in time) from my becoming sick.", By: "examples", Score: 0}, "jao rao koi ji na jai ji da.": Word{Word: "jao rao koi ji na jai ji da.", Def: "(A0861) My walking is far (in time) from my being happy.", By: "examples", Score: 0}, "jao ti ji suq da.": Word{Word: "jao ti ji suq da.", Def: "(A0859) I am far from you.", By: "examples", Score: 0}, "jao ti ni piohea ji da.": Word{Word: "jao ti ni piohea ji da.", Def: "(A0858) That rock is far from me.", By: "examples", Score: 0}, "jao[kaq]biu": Word{Word: "jao[kaq]biu", Def: "▯ is a telescope.", By: "Hoemai", Score: 0}, "jaodoa": Word{Word: "jaodoa", Def: "▯ sends ▯ to ▯", By: "seaqtaq", Score: 0}, "jaokaise": Word{Word: "jaokaise", Def: "▯ is a telegram.", By: "Ilmen", Score: 0}, "jaokuq": Word{Word: "jaokuq", Def: "predicate: ‘telephone’; ▯ is a telephone / walkie talkie.", By: "official", Score: 0}, "jaq": Word{Word: "jaq", Def: "predicate: ‘very’; ▯ is very much the case; ▯ is very/extremely ▯.", By: "official", Score: 0}, "jaq bu": Word{Word: "jaq bu", Def: "predicate: ‘not.at.all’; ▯ is not at all the case; ▯ does not satisfy property ▯ at all; ▯ very much does not satisfy property ▯.", By: "official", Score: 0}, "jaq bu chỉ ji da.": Word{Word: "jaq bu chỉ ji da.", Def: "(A0409) I don't believe it at all.", By: "examples", Score: 0}, "jaq chuqkuai ji nai da.": Word{Word: "jaq chuqkuai ji nai da.", Def: "(A0242) I'm very hungry now.", By: "examples", Score: 0}, "jaq de baq rua jie ho da.": Word{Word: "jaq de baq rua jie ho da.", Def: "(A0172) The flowers are very beautiful to him.", By: "examples", Score: 0}, "jaq de shu nuai": Word{Word: "jaq de shu nuai", Def: "(QUO.1) The word 'nuai' is very beautiful.", By: "official", Score: 0}, "jaq de suq da.": Word{Word: "jaq de suq da.", Def: "(A0067) You are very beautiful.", By: "examples", Score: 0}, "jaq foi posuq teoq.": Word{Word: "jaq foi posuq teoq.", Def: "(A0496) Your questions are very boring.", By: "examples", Score: 0}, "jaq geo liqreq ho da.": Word{Word: "jaq geo liqreq ho da.", Def: "(A0510) She is a very old woman.", By: "examples", Score: 0}, "jaq geo naqreq ho da.": Word{Word: "jaq geo naqreq ho da.", Def: "(A0509) He is a very old man.", By: "examples", Score: 0}, "jaq geo ni jio da.": Word{Word: "jaq geo ni jio da.", Def: "(A0171) This building is very old", By: "examples", Score: 0}, "jaq gi maq da.": Word{Word: "jaq gi maq da.", Def: "(A0089) It's very good.", By: "examples", Score: 0}, "jaq giomia tu rai!": Word{Word: "jaq giomia tu rai!", Def: "(QUA.2) Everything is so bright!", By: "official", Score: 0}, "jaq lei": Word{Word: "jaq lei", Def: "▯ is rare in property ▯.", By: "Ilmen", Score: 0}, "jaq liu ni puefuq da.": Word{Word: "jaq liu ni puefuq da.", Def: "(A0743) These shoes are very light.", By: "examples", Score: 0}, "jaq luai hoi lua da.": Word{Word: "jaq luai hoi lua da.", Def: "(A0705) That's a very funny story.", By: "examples", Score: 0}, "jaq mia ji li ti ja poq ja gua rao sa rai da.": Word{Word: "jaq mia ji li ti ja poq ja gua rao sa rai da.", Def: "(A0833) I've been to a lot of countries at one point or another.", By: "examples", Score: 0}, "jaq paigi poho luo da.": Word{Word: "jaq paigi poho luo da.", Def: "(A0260) His family is very friendly.", By: "examples", Score: 0}, "jaq piekuai ji da.": Word{Word: "jaq piekuai ji da.", Def: "(A0013) I'm very thirsty.", By: "examples", Score: 0}, "jaq pui lu deq ho hoa da.": Word{Word: "jaq pui lu deq ho hoa da.", Def: "(A0338) He can do a lot of things.", By: "examples", Score: 0}, "jaqbe": Word{Word: "jaqbe", Def: "bell", By: "spreadsheet", Score: -1}, "jaqbia": Word{Word: "jaqbia", Def: "▯ pertains to the culture of Zambia – Republic of Zambia.", By: "oldcountries", Score: 0}, "jaqbiagua": Word{Word: "jaqbiagua", Def: "▯ is the country Zambia – Republic of Zambia.", By: "oldcountries", Score: 0}, "jaqbiaq": Word{Word: "jaqbiaq", Def: "▯ pertains to the culture of Zambia – Republic of Zambia.", By: "countries", Score: 0}, "jaqbiaqgua": Word{Word: "jaqbiaqgua", Def: "▯ is the country Zambia – Republic of Zambia.", By: "countries", Score: 0}, "jaqbiaqtoaq": Word{Word: "jaqbiaqtoaq", Def: "▯ is (one of) the language(s) spoken in Zambia – Republic of Zambia.", By: "countries", Score: 0}, "jaqbiatoaq": Word{Word: "jaqbiatoaq", Def: "▯ is (one of) the language(s) spoken in Zambia – Republic of Zambia.", By: "oldcountries", Score: 0}, "jaqbu": Word{Word: "jaqbu", Def: "▯ is not very much the case; ▯ is somewhat the case. ▯ has property ▯ to some non-extreme extent.", By: "Ilmen", Score: 0}, "jaqchu": Word{Word: "jaqchu", Def: "▯ is mildly the case; ▯ is the case to an average extent.", By: "Ilmen", Score: 0}, "jaqda": Word{Word: "jaqda", Def: "so much", By: "spreadsheet", Score: 0}, "jaqgala": Word{Word: "jaqgala", Def: "predicate: ‘jungle’; ▯ is a jungle.", By: "official", Score: 0}, "jaqge": Word{Word: "jaqge", Def: "▯ seems very good at first, but turns out to be worse and worse the deeper you go into it.", By: "uakci", Score: 0}, "jaqgiq": Word{Word: "jaqgiq", Def: "-> tuao", By: "uakci", Score: 0}, "jaqheo": Word{Word: "jaqheo", Def: "predicate: ‘to.different.degree’; ▯ is not the same amount as ▯ in property ▯.", By: "official", Score: 0}, "jaqhi": Word{Word: "jaqhi", Def: "▯ is moderately ▯; ▯ is not much, but not little in property ▯.", By: "uakci", Score: 0}, "jaqjaq": Word{Word: "jaqjaq", Def: "▯ is extremely the case.", By: "uakci", Score: 0}, "jaqjeq": Word{Word: "jaqjeq", Def: "predicate: ‘to.same.degree’; ▯ is as much as ▯ in property ▯.", By: "official", Score: 0}, "jaqjui": Word{Word: "jaqjui", Def: "▯ is about the same as ▯ in property ▯(1)", By: "fagri", Score: 0}, "jaqlineli": Word{Word: "jaqlineli", Def: "▯ is the amount relation equivalent to the greatness property ▯.", By: "Ilmen", Score: 0}, "jaqluneli": Word{Word: "jaqluneli", Def: "= [10] Sa dósāq sa dójō bı to ru lủcā ru mu lủcā dógū jêo dósāq dóshī to jảqlīnēlī dóshī dójō.", By: "Ilmen", Score: 0}, "jaqnui": Word{Word: "jaqnui", Def: "predicate: ‘tiny’; ▯ is tiny.", By: "official", Score: 0}, "jaqsao": Word{Word: "jaqsao", Def: "predicate: ‘huge’; ▯ is huge.", By: "official", Score: 0}, "jaqso": Word{Word: "jaqso", Def: "so much", By: "spreadsheet", Score: 0}, "jaqtuao": Word{Word: "jaqtuao", Def: "▯ is the case to a rather/somewhat large extent (large but not very much so either); ▯ has property ▯ to a rather/somewhat large extent.", By: "Ilmen", Score: 0}, "jaqtuao doq ni sueta da.": Word{Word: "jaqtuao doq ni sueta da.", Def: "(A0733) This sweater is a little short.", By: "examples", Score: 0}, "jarafa": Word{Word: "jarafa", Def: "predicate: ‘giraffe’; ▯ is a giraffe.", By: "official", Score: 0}, "jashi": Word{Word: "jashi", Def: "zilkai", By: "spreadsheet", Score: 0}, "jbo": Word{Word: "jbo", Def: "stick(y)", By: "spreadsheet", Score: 0}, "je": Word{Word: "je", Def: "sentence prefix: ‘new.sentence’; begin new sentence", By: "official", Score: 0}, "je chuqkuai ji.": Word{Word: "je chuqkuai ji.", Def: "(SPR.1) I am hungry.", By: "official", Score: 0}, "je ma miujeq hoq suq moq": Word{Word: "je ma miujeq hoq suq moq", Def: "isn't it?, consensus-seeking particle", By: "spreadsheet", Score: 0}, "je, bu foqcua ho, ju hoqkui le rara muaq ho, la buoq da.": Word{Word: "je, bu foqcua ho, ju hoqkui le rara muaq ho, la buoq da.", Def: "(A0624) Well, he won't answer the phone, so he's probably dead or something (this sentence is non-serious.)", By: "examples", Score: 0}, "je, due jie ji ku jo da.": Word{Word: "je, due jie ji ku jo da.", Def: "(A0620) Well, I think four is correct.", By: "examples", Score: 0}, "jea": Word{Word: "jea", Def: "tẻq dóshī sa ráı dógū dósāq lî dỏa ja dó dógū dóshī da", By: "uakci", Score: 0}, "jea bo": Word{Word: "jea bo", Def: "▯ buys possesion of ▯", By: "seaqtaq", Score: 0}, "jea bo ho ti jeariaq sa haq da.": Word{Word: "jea bo ho ti jeariaq sa haq da.", Def: "(A0116) He buys some food at the store.", By: "examples", Score: 0}, "jeai": Word{Word: "jeai", Def: "▯ is the same as ▯; ▯ = ▯.", By: "uakci", Score: 0}, "jeajio": Word{Word: "jeajio", Def: "predicate: ‘mall’; ▯ is a mall.", By: "official", Score: 0}, "jeao": Word{Word: "jeao", Def: "▯ and ▯ are in relation ▯.", By: "uakci", Score: 0}, "jeaq": Word{Word: "jeaq", Def: "= [0] Sa dósāq bı lẻaqshīu nê dósāq dógū na nê sa sẻuhūaq dỏsāq dógū;\n= [X1] Sa dójō bı lẻaqshīu nê dósāq jêo dógū dósāq na na nê sa sẻuhūaq dỏjō jêo dógū dósāq.", By: "Ilmen", Score: 0}, "jeaq gi": Word{Word: "jeaq gi", Def: "predicate: ‘improve’; ▯ improves / gets better.", By: "official", Score: 0}, "jeaq gi lua da.": Word{Word: "jeaq gi lua da.", Def: "(A0202) The story gets better.", By: "examples", Score: 0}, "jeaq suai suq ba.": Word{Word: "jeaq suai suq ba.", Def: "(A0213) Go faster!", By: "examples", Score: 0}, "jeaq tijui": Word{Word: "jeaq tijui", Def: "predicate: ‘approach’; ▯ increases in its proximity to ▯.", By: "official", Score: 0}, "jeaqcai": Word{Word: "jeaqcai", Def: "▯ is normal, regular, without additions.", By: "uakci", Score: -1}, "jeaqcao": Word{Word: "jeaqcao", Def: "predicate: ‘spring’; ▯ is spring (season).", By: "official", Score: 0}, "jeaqceo": Word{Word: "jeaqceo", Def: "Ithkuil's Graduative Extension", By: "spreadsheet", Score: 0}, "jeaqcia": Word{Word: "jeaqcia", Def: "▯ satisfies property ▯ at its (their) maximum; ▯ can ▯ no more than they (it) currently are (is).", By: "uakci", Score: 0}, "jeaqcoe": Word{Word: "jeaqcoe", Def: "The more ▯, the more ▯.", By: "lynn", Score: -1}, "jeaqdaibu": Word{Word: "jeaqdaibu", Def: "▯ cannot increase; ▯ is the case to the largest possible extent.", By: "Ilmen", Score: 1}, "jeaqdia": Word{Word: "jeaqdia", Def: "▯ fluctuates in how much it is the case; ▯ fluctuates in how much it satisfies the property ▯.", By: "Ilmen", Score: 1}, "jeaqdiakai": Word{Word: "jeaqdiakai", Def: "▯ WriTEs ▯ oN ▯ LIkE tHiS", By: "seaqtaq", Score: 0}, "jeaqdoa": Word{Word: "jeaqdoa", Def: "predicate: ‘add’; ▯ adds ▯ to ▯.", By: "official", Score: 0}, "jeaqlimi": Word{Word: "jeaqlimi", Def: "▯ is the one-sided mathematical limit of the function ▯ as its input approaches the number ▯ from below.", By: "Ilmen", Score: 0}, "jeaqshe": Word{Word: "jeaqshe", Def: "▯ increases if/as ▯ increases.", By: "Ilmen", Score: 0}, "jeariaq": Word{Word: "jeariaq", Def: "(fork of official) ▯ is a market/shop where things satisfying ▯ can be bought.", By: "lynn", Score: 1}, "jeatoai": Word{Word: "jeatoai", Def: "▯ is a transaction/purchase", By: "seaqtaq", Score: 0}, "jeda": Word{Word: "jeda", Def: "▯ is an assertive sentence.", By: "Ilmen", Score: 0}, "jedai": Word{Word: "jedai", Def: "▯ is a jedi.", By: "Ilmen", Score: 0}, "jehoq": Word{Word: "jehoq", Def: "▯ is the proposition expressed by the previous sentence.", By: "Ilmen", Score: 0}, "jehua": Word{Word: "jehua", Def: "▯ is a/the body part satisfying property ▯ of body ▯.", By: "uakci", Score: 0}, "jei": Word{Word: "jei", Def: "jẻı dó dóshī shè dô dóshī da", By: "uakci", Score: 0}, "jei hi rai posuq chua moq.": Word{Word: "jei hi rai posuq chua moq.", Def: "(A0523) What's your name?", By: "examples", Score: 0}, "jei ji lu jia tai hoa ba.": Word{Word: "jei ji lu jia tai hoa ba.", Def: "(A0217) May I be the one who will succeed!", By: "examples", Score: 0}, "jei mi chaq muaqtua da.": Word{Word: "jei mi chaq muaqtua da.", Def: "(PCT.1) The killer is Chang.", By: "official", Score: 0}, "jei ni lu bai lui ji hoa da.": Word{Word: "jei ni lu bai lui ji hoa da.", Def: "(A0216) This is something made by me.", By: "examples", Score: 0}, "jeibei": Word{Word: "jeibei", Def: "{mei}", By: "spreadsheet", Score: 0}, "jeichiaq": Word{Word: "jeichiaq", Def: "▯ recognises (recognizes) ▯.", By: "uakci", Score: 0}, "jeidua": Word{Word: "jeidua", Def: "▯ knows who/what ▯ is; ▯ knows the identity of ▯.", By: "Hoemai", Score: 0}, "jeigai": Word{Word: "jeigai", Def: "recognize", By: "spreadsheet", Score: 0}, "jeisio": Word{Word: "jeisio", Def: "▯ is identity", By: "seaqtaq", Score: 0}, "jemeq": Word{Word: "jemeq", Def: "▯ pertains to the culture of Yemen – Republic of Yemen.", By: "countries", Score: 0}, "jemeqgua": Word{Word: "jemeqgua", Def: "▯ is the country Yemen – Republic of Yemen.", By: "countries", Score: 0}, "jemeqtoaq": Word{Word: "jemeqtoaq", Def: "▯ is (one of) the language(s) spoken in Yemen – Republic of Yemen.", By: "countries", Score: 0}, "jena": Word{Word: "jena", Def: "earn", By: "spreadsheet", Score: 0}, "jeo": Word{Word: "jeo", Def: "▯ is true / is the case; ▯ satisfies property ▯; ▯ and ▯ are in relation ▯; […]", By: "uakci", Score: 0}, "jeo bi daqmiq mai raq poq ji.": Word{Word: "jeo bi daqmiq mai raq poq ji.", Def: "(PAN.1) Truly, eternal is the love of the person that is me.", By: "official", Score: 0}, "jeo hoe mi hoemai da": Word{Word: "jeo hoe mi hoemai da", Def: "‘Indeed, solpahi is a star.’", By: "uakci", Score: 0}, "jeo hoq da.": Word{Word: "jeo hoq da.", Def: "(A0190) It's true.", By: "examples", Score: 0}, "jeo juqguo ho da.": Word{Word: "jeo juqguo ho da.", Def: "(A0532) He is indeed chinese.", By: "examples", Score: 0}, "jeo kuqshao ji shu teq da.": Word{Word: "jeo kuqshao ji shu teq da.", Def: "(A0493) Indeed, I meant \"teq.\"", By: "examples", Score: 0}, "jeo sia lu ruaq suq hoa da.": Word{Word: "jeo sia lu ruaq suq hoa da.", Def: "(A0191) Nothing you say is true.", By: "examples", Score: 0}, "jeobu": Word{Word: "jeobu", Def: "▯ is the truth value of the lufe ▯", By: "fagri", Score: 0}, "jeocho": Word{Word: "jeocho", Def: "▯ likes things that satisfy property ▯; ▯ likes all that ▯'s.", By: "uakci", Score: 0}, "jeocu": Word{Word: "jeocu", Def: "predicate modifier: move x3 first", By: "spreadsheet", Score: 0}, "jeocueche": Word{Word: "jeocueche", Def: "▯ belongs to the Euarchonta taxonomic grandorder (treeshrews, colugos and primates).", By: "Ilmen", Score: 0}, "jeocuechegalei": Word{Word: "jeocuechegalei", Def: "▯ belongs to the Euarchontoglires taxonomic superorder.", By: "Ilmen", Score: 0}, "jeoduaidoa": Word{Word: "jeoduaidoa", Def: "▯ proves that ▯ must be the case.", By: "uakci", Score: 0}, "jeofe": Word{Word: "jeofe", Def: "Proposition ▯ is true if ▯ is assigned to its fifth place.", By: "uakci", Score: 1}, "jeofuaq": Word{Word: "jeofuaq", Def: "▯ is a picture representing the proposition ▯.", By: "Ilmen", Score: 0}, "jeogi": Word{Word: "jeogi", Def: "▯ is suitable/appropriate for satisfying property ▯.", By: "Ilmen", Score: 0}, "jeogo": Word{Word: "jeogo", Def: "predicate modifier: move x2 first", By: "spreadsheet", Score: 0}, "jeogupaq": Word{Word: "jeogupaq", Def: "half-true", By: "spreadsheet", Score: 0}, "jeohi": Word{Word: "jeohi", Def: "what are the properties satisfied by ▯? what is the relation between ▯ and ▯ (and ▯ (…))?", By: "Ilmen", Score: 1}, "jeohuaq": Word{Word: "jeohuaq", Def: "predicate: ‘rather’; ▯ is rather the case than ▯; ▯ is more true than ▯.", By: "official", Score: 0}, "jeoi": Word{Word: "jeoi", Def: "[LU] ▯ is the proposition [proposition], which is true.", By: "uakci", Score: 0}, "jeojeo": Word{Word: "jeojeo", Def: "▯ is for sure / certainly true; ▯ surely / certainly satisfies property ▯", By: "fagri", Score: 0}, "jeojeq": Word{Word: "jeojeq", Def: "shẻ dóshī dógū, na ru shẻ dógū dóshī da", By: "uakci", Score: 0}, "jeojuaq": Word{Word: "jeojuaq", Def: "even ▯ is the case; it is even the case that ▯ satisfies the property ▯.", By: "Ilmen", Score: 0}, "jeojui": Word{Word: "jeojui", Def: "predicate: ‘almost’; ▯ is almost the case; ▯ almost satisfies property ▯.", By: "official", Score: 1}, "jeoke": Word{Word: "jeoke", Def: "predicate modifier: move x4 first", By: "spreadsheet", Score: 0}, "jeoko": Word{Word: "jeoko", Def: "Exactly one of ▯, ▯, ▯… is the case; ▯ ⩡ ▯ ⩡ ▯\u00a0⩡\u00a0…", By: "uakci", Score: 0}, "jeolu": Word{Word: "jeolu", Def: "proposition (logic)", By: "spreadsheet", Score: 0}, "jeomao": Word{Word: "jeomao", Def: "▯ is also the case; it is also the case that ▯ satisfies the property ▯.", By: "Ilmen", Score: 0}, "jeomieq": Word{Word: "jeomieq", Def: "verify", By: "spreadsheet", Score: 0}, "jeomieqtue": Word{Word: "jeomieqtue", Def: "test", By: "spreadsheet", Score: 0}, "jeomoe": Word{Word: "jeomoe", Def: "have an impression/huch that", By: "spreadsheet", Score: -1}, "jeomuo": Word{Word: "jeomuo", Def: "▯ is exactly true, not imprecise at all", By: "fagri", Score: 0}, "jeone": Word{Word: "jeone", Def: "= #manē", By: "uakci", Score: 0}, "jeonue": Word{Word: "jeonue", Def: "predicate: ‘promise’; ▯ promises to ▯ that ▯ is the case.", By: "official", Score: 0}, "jeopuine": Word{Word: "jeopuine", Def: "ilka'u, kaidza / ▯ is the number of things having property ▯ (among ▯)", By: "spreadsheet", Score: 0}, "jeoq": Word{Word: "jeoq", Def: "predicate: ‘concave’; ▯ is a concave shape; ▯ is a cavity/hollow/cavern.", By: "official", Score: 0}, "jeoqchuo": Word{Word: "jeoqchuo", Def: "▯ is a bowl/pan/basin/tub.", By: "Ilmen", Score: 0}, "jeoqhua": Word{Word: "jeoqhua", Def: "▯ is a pelvis.", By: "uakci", Score: 0}, "jeorioi": Word{Word: "jeorioi", Def: "(fork of #98INR8O34) (fork of #uj3xeJG6G) ▯ is the case instead of ▯ being the case; ▯ instead of ▯ satisfies property ▯", By: "seaqtaq", Score: 0}, "jeoriu": Word{Word: "jeoriu", Def: "Resumptive Aspect", By: "spreadsheet", Score: 0}, "jeoru": Word{Word: "jeoru", Def: "▯ is the case and ▯ is the case; ▯ satisfies property ▯ and satisfies property ▯.", By: "uakci", Score: 0}, "jeoruaq": Word{Word: "jeoruaq", Def: "▯ confirms that ▯ is true", By: "fagri", Score: 0}, "jeotaq": Word{Word: "jeotaq", Def: "Property ▯ satisfies itself.", By: "uakci", Score: 0}, "jeotiao": Word{Word: "jeotiao", Def: "▯ is suitable for satisfying property ▯.", By: "Ilmen", Score: 0}, "jeotichio": Word{Word: "jeotichio", Def: "In/at ▯, there are ▯ (number) of ▯/1-ers.", By: "uakci", Score: 0}, "jeotoa": Word{Word: "jeotoa", Def: "verb", By: "spreadsheet", Score: 0}, "jeq": Word{Word: "jeq", Def: "= [XX2] Tu dójō bı sa jẻo dỏsāq to re dóshī dójō to dógū dójō.", By: "Ilmen", Score: 0}, "jeqdaruo": Word{Word: "jeqdaruo", Def: "▯ exhibits / performs gender ▯ (property).", By: "lynn", Score: 0}, "jeqheo": Word{Word: "jeqheo", Def: "▯ is the same as ▯ except for ▯ (2)", By: "fagri", Score: 0}, "jeqhuaq": Word{Word: "jeqhuaq", Def: "≥", By: "spreadsheet", Score: 0}, "jeqjeq": Word{Word: "jeqjeq", Def: "uniform", By: "spreadsheet", Score: 0}, "jeqkuoi": Word{Word: "jeqkuoi", Def: "≤", By: "spreadsheet", Score: 0}, "jeqmaq": Word{Word: "jeqmaq", Def: "Proximal \"it\"", By: "spreadsheet", Score: 0}, "jeqshoai": Word{Word: "jeqshoai", Def: "▯ is a member of infraorder Isoptera (the termites).", By: "Hoemai", Score: 0}, "jeqshuaq": Word{Word: "jeqshuaq", Def: "predicate: ‘copy’; ▯ copies ▯; ▯ produces an object identical to ▯.", By: "official", Score: 0}, "jeqti": Word{Word: "jeqti", Def: "▯ (roı) are all at the same place", By: "seaqtaq", Score: 0}, "jeqtu": Word{Word: "jeqtu", Def: "predicate: ‘identical’; ▯ is identical to ▯.", By: "official", Score: 0}, "jeu": Word{Word: "jeu", Def: "Shorthand for \"ja rái\"", By: "fagri", Score: 0}, "ji": Word{Word: "ji", Def: "[X ⚙] Lảı shú jỉ lú kủq hóa kúqsē pǎq hóı tỏa hóa da.", By: "Ilmen", Score: 0}, "ji da.": Word{Word: "ji da.", Def: "(A0285) It's me.", By: "examples", Score: 0}, "ji ru poji naqpia pa joe luaq shaha da.": Word{Word: "ji ru poji naqpia pa joe luaq shaha da.", Def: "(A0503) My brother and I are skilled at playing chess.", By: "examples", Score: 0}, "jia": Word{Word: "jia", Def: "= [00] Bỉe dóshī náı.", By: "Ilmen", Score: 0}, "jia chaocaq suq gusioq ro riochao": Word{Word: "jia chaocaq suq gusioq ro riochao", Def: "(A0469) You will ride a bike or (pilot) an airplane.", By: "examples", Score: 0}, "jia haqsue ji to ra galonueq to bakanueq.": Word{Word: "jia haqsue ji to ra galonueq to bakanueq.", Def: "(A0424) I will order either chicken or beef, or both.", By: "examples", Score: 0}, "jia hi rai moq.": Word{Word: "jia hi rai moq.", Def: "(A0166) What will happen?", By: "examples", Score: 0}, "jia nuo suq ti hi rai moq.": Word{Word: "jia nuo suq ti hi rai moq.", Def: "(A0451) Where will you sleep?", By: "examples", Score: 0}, "jia ti dai ji hoi riaq da.": Word{Word: "jia ti dai ji hoi riaq da.", Def: "(A0053) I may be there in the future.", By: "examples", Score: 0}, "jiachaq": Word{Word: "jiachaq", Def: "predicate: ‘tomorrow’; ▯ is tomorrow; ▯ is the day after today.", By: "official", Score: 0}, "jiadiu": Word{Word: "jiadiu", Def: "▯ is futurology.", By: "Ilmen", Score: 0}, "jiai": Word{Word: "jiai", Def: "predicate: ‘grasp’; ▯ grasps/holds ▯.", By: "official", Score: 0}, "jiai suq po ji ga muq ba.": Word{Word: "jiai suq po ji ga muq ba.", Def: "(ILL.5) Take my hand.", By: "official", Score: 0}, "jiai suq poji muq ba.": Word{Word: "jiai suq poji muq ba.", Def: "(A0174) You ought to hold my hand.", By: "examples", Score: 0}, "jiaideq": Word{Word: "jiaideq", Def: "▯ is prehensile.", By: "Ilmen", Score: 0}, "jiaigue": Word{Word: "jiaigue", Def: "▯ is a hook.", By: "uakci", Score: 0}, "jiaikoi": Word{Word: "jiaikoi", Def: "predicate: ‘climb’; ▯ climbs.", By: "official", Score: 0}, "jiainioq": Word{Word: "jiainioq", Def: "▯ is a canine teeth/cuspid/fang.", By: "Ilmen", Score: 0}, "jiainua": Word{Word: "jiainua", Def: "predicate: ‘remove’; ▯ takes/removes ▯ from ▯.", By: "official", Score: 0}, "jiaipaq": Word{Word: "jiaipaq", Def: "handle", By: "spreadsheet", Score: -1}, "jiaise": Word{Word: "jiaise", Def: "▯ is a handful / an amount or volume grasped.", By: "lynn", Score: 0}, "jiaishiqhua": Word{Word: "jiaishiqhua", Def: "▯ is a prehensile nose trunk (proboscis).", By: "Ilmen", Score: 0}, "jiaisoi": Word{Word: "jiaisoi", Def: "wrestle", By: "spreadsheet", Score: 0}, "jiaitai": Word{Word: "jiaitai", Def: "catch", By: "spreadsheet", Score: 0}, "jiajao": Word{Word: "jiajao", Def: "predicate: ‘a.long.time.from.now’; ▯ will happen a long time from now.", By: "official", Score: 0}, "jiajiachaq": Word{Word: "jiajiachaq", Def: "▯ is the day after tomorrow.", By: "lynn", Score: 0}, "jiajoa": Word{Word: "jiajoa", Def: "▯ is next week.", By: "lynn", Score: 0}, "jiajue": Word{Word: "jiajue", Def: "▯ is next month.", By: "lynn", Score: 0}, "jiajui": Word{Word: "jiajui", Def: "= #jıa ru #nảıjūı", By: "uakci", Score: 0}, "jiakoe": Word{Word: "jiakoe", Def: "▯ plans to do ▯.", By: "Ilmen", Score: 0}, "jiane": Word{Word: "jiane", Def: "▯ is the time separating the future event ▯ from now.", By: "Ilmen", Score: 0}, "jianiaq": Word{Word: "jianiaq", Def: "▯ is next year.", By: "lynn", Score: 0}, "jiao": Word{Word: "jiao", Def: "predicate: ‘god’; ▯ is a god.", By: "official", Score: 0}, "jiaodeoq": Word{Word: "jiaodeoq", Def: "▯ prays / communicates with supernatural or divine being ▯.", By: "Ilmen", Score: 0}, "jiaodīu": Word{Word: "jiaodīu", Def: "▯ is theology.", By: "lynn", Score: 0}, "jiaohui": Word{Word: "jiaohui", Def: "(fork of #VRpFtCyZB) ▯ is blasphemy; ▯ commits blasphemy ▯.", By: "uakci", Score: 1}, "jiaojie": Word{Word: "jiaojie", Def: "▯ has ▯ as their god; ▯ believes in god ▯.", By: "uakci", Score: 0}, "jiaojio": Word{Word: "jiaojio", Def: "predicate: ‘temple’; ▯ is a temple/church/sanctuary/synagogue/shrine.", By: "official", Score: 0}, "jiaokuq": Word{Word: "jiaokuq", Def: "▯ preaches", By: "fagri", Score: 0}, "jiaolua": Word{Word: "jiaolua", Def: "▯ is a myth.", By: "Ilmen", Score: 0}, "jiaoraq": Word{Word: "jiaoraq", Def: "▯ is divine", By: "seaqtaq", Score: 0}, "jiaosue": Word{Word: "jiaosue", Def: "▯ prays supernatural or higher being ▯ for making ▯ be the case.", By: "Ilmen", Score: 0}, "jiaotuaichaq": Word{Word: "jiaotuaichaq", Def: "▯ is Corpus Christi (the holiday).", By: "uakci", Score: 0}, "jiaq": Word{Word: "jiaq", Def: "▯ is Guillaume.", By: "uakci", Score: -1}, "jiaq lu ti hoa bi dai tu rai": Word{Word: "jiaq lu ti hoa bi dai tu rai", Def: "(STP.2) a world where anything is possible", By: "official", Score: 0}, "jiaq pa de ru sao da.": Word{Word: "jiaq pa de ru sao da.", Def: "(A0168) The world is beautiful and big.", By: "examples", Score: 0}, "jiaqbu": Word{Word: "jiaqbu", Def: "▯ is false in world ▯.", By: "Ilmen", Score: 0}, "jiaqjeo": Word{Word: "jiaqjeo", Def: "▯ is true in world ▯.", By: "Ilmen", Score: 0}, "jiaqkoai": Word{Word: "jiaqkoai", Def: "▯ is the World Wide Web; ▯ is the Internet.", By: "Hoemai", Score: 0}, "jiaqtu": Word{Word: "jiaqtu", Def: "predicate: ‘universe’; ▯ is the universe.", By: "official", Score: 0}, "jiashao": Word{Word: "jiashao", Def: "predicate: ‘hope’; ▯ hopes that ▯ will be the case.", By: "official", Score: 0}, "jiashao ji lu rao nichaq bi daqshei sea ji da.": Word{Word: "jiashao ji lu rao nichaq bi daqshei sea ji da.", Def: "(STP.1) I hope that today, I'll have time to relax.", By: "official", Score: 0}, "jicha": Word{Word: "jicha", Def: "jikca", By: "spreadsheet", Score: -1}, "jicho": Word{Word: "jicho", Def: "▯ is something I like. (“I like ▯.”)", By: "lynn", Score: 0}, "jicho laq po shuashoe go chai loq cu bio da.": Word{Word: "jicho laq po shuashoe go chai loq cu bio da.", Def: "(A0627) I like the sound of hot tea being poured into a cup.", By: "examples", Score: 0}, "jichosoq": Word{Word: "jichosoq", Def: "▯ is my favorite among ▯.", By: "lynn", Score: 0}, "jidao": Word{Word: "jidao", Def: "▯ is a fennec.", By: "Ilmen", Score: 0}, "jie": Word{Word: "jie", Def: "= mu #mỉu", By: "uakci", Score: -1}, "jie ji": Word{Word: "jie ji", Def: "pe'i, in my opinion", By: "spreadsheet", Score: 0}, "jiegiqlu": Word{Word: "jiegiqlu", Def: "▯ is objective", By: "seaqtaq", Score: 0}, "jiehe": Word{Word: "jiehe", Def: "▯ is regarded as true by most.", By: "uakci", Score: 0}, "jiekiu": Word{Word: "jiekiu", Def: "▯ is subjective", By: "seaqtaq", Score: 0}, "jiekiugiq": Word{Word: "jiekiugiq", Def: "▯ is objective", By: "seaqtaq", Score: 0}, "jielu": Word{Word: "jielu", Def: "▯ is subjective", By: "seaqtaq", Score: 0}, "jieq": Word{Word: "jieq", Def: "predicate: ‘tip’; ▯ is a tip / pointed end.", By: "official", Score: 0}, "jieqgiu": Word{Word: "jieqgiu", Def: "(fork of #uB9fSiocb) ▯ is an angle", By: "seaqtaq", Score: 0}, "jieqgiune": Word{Word: "jieqgiune", Def: "(fork of #Uy-_Gua5X) ▯ is the angle of ▯", By: "seaqtaq", Score: 0}, "jieqguese": Word{Word: "jieqguese", Def: "▯ is an angle", By: "seaqtaq", Score: 0}, "jieqlai": Word{Word: "jieqlai", Def: "(fork of #dynyHRDb0) ▯ is an arrow (symbol).", By: "seaqtaq", Score: 0}, "jigi": Word{Word: "jigi", Def: "▯ is done with me as the beneficient; ▯ is done for me.", By: "uakci", Score: 0}, "jihao": Word{Word: "jihao", Def: "▯ is us (me and the others).", By: "Ilmen", Score: 0}, "jijie": Word{Word: "jijie", Def: "▯ is how I deem/judge things to be / is my opinion.", By: "lynn", Score: 0}, "jiloq": Word{Word: "jiloq", Def: "▯ is a free Toaq root; ▯ is a Guillaume.", By: "uakci", Score: 0}, "jine": Word{Word: "jine", Def: "ring, shape", By: "spreadsheet", Score: -1}, "jinu": Word{Word: "jinu", Def: "intuit", By: "spreadsheet", Score: -1}, "jio": Word{Word: "jio", Def: "predicate: ‘building’; ▯ is a building.", By: "official", Score: 0}, "jiobaipio": Word{Word: "jiobaipio", Def: "▯ is construction material, mortar, plaster, .etc", By: "seaqtaq", Score: 0}, "jiobaisai": Word{Word: "jiobaisai", Def: "(fork of #7PdZ-UKNr) ▯ is construction material, mortar, plaster, .etc", By: "seaqtaq", Score: 0}, "jiobiu": Word{Word: "jiobiu", Def: "▯ is a chimney", By: "seaqtaq", Score: 0}, "jiochea": Word{Word: "jiochea", Def: "roof", By: "spreadsheet", Score: 0}, "jiodīu": Word{Word: "jiodīu", Def: "▯ is architecture.", By: "lynn", Score: 1}, "jioi": Word{Word: "jioi", Def: "predicate to conjunction: turns the following binary predicate into a logical conjunction; terminator: \"ga\".", By: "Ilmen", Score: 1}, "jioluko": Word{Word: "jioluko", Def: "▯ is a dog (canis lupus familiaris).", By: "Ilmen", Score: 0}, "jiopuefuq": Word{Word: "jiopuefuq", Def: "▯ is a slipper.", By: "Ilmen", Score: 0}, "jioq": Word{Word: "jioq", Def: "gủaı dóshī lî dủachīe ja dó hı râı sa lú to ru sẻu hóa to pủıjēq hóa dógū da", By: "uakci", Score: 0}, "jioqdiu": Word{Word: "jioqdiu", Def: "mathematics", By: "spreadsheet", Score: 1}, "jioqkea": Word{Word: "jioqkea", Def: "predicate: ‘computer’; ▯ is a computer.", By: "official", Score: 0}, "jioqtai": Word{Word: "jioqtai", Def: "▯ calculates that ▯ is what satisfies property ▯.", By: "Ilmen", Score: 0}, "jipa": Word{Word: "jipa", Def: "serial predicate operator: fill in first place of following verb with «jí»", By: "uakci", Score: -2}, "jipoi": Word{Word: "jipoi", Def: "▯ is an event in which I am x1.", By: "uakci", Score: 1}, "jiq": Word{Word: "jiq", Def: "tỉ dóshī ní jỉaq da", By: "uakci", Score: 0}, "jiqbabue": Word{Word: "jiqbabue", Def: "▯ pertains to the culture of Zimbabwe – Republic of Zimbabwe.", By: "countries", Score: 0}, "jiqbabuegua": Word{Word: "jiqbabuegua", Def: "▯ is the country Zimbabwe – Republic of Zimbabwe.", By: "countries", Score: 0}, "jiqbabuetoaq": Word{Word: "jiqbabuetoaq", Def: "▯ is (one of) the language(s) spoken in Zimbabwe – Republic of Zimbabwe.", By: "countries", Score: 0}, "jiqchuaq": Word{Word: "jiqchuaq", Def: "▯ is existentialism", By: "seaqtaq", Score: 0}, "jiqci": Word{Word: "jiqci", Def: "▯ (property) is inherent/inalienable to ▯", By: "fagri", Score: 0}, "jiqdiu": Word{Word: "jiqdiu", Def: "physics", By: "spreadsheet", Score: 0}, "jiqdua": Word{Word: "jiqdua", Def: "predicate: ‘know’; ▯ knows that ▯ exists.", By: "official", Score: 0}, "jiqga": Word{Word: "jiqga", Def: "win", By: "spreadsheet", Score: -1}, "jiqjeo": Word{Word: "jiqjeo", Def: "▯ is literally true (not a metaphor)", By: "fagri", Score: 0}, "jiqjiaq": Word{Word: "jiqjiaq", Def: "▯ is reality.", By: "Hoemai", Score: 0}, "jiqkame": Word{Word: "jiqkame", Def: "▯ is Camellia sinensis (plant used to make tea).", By: "Ilmen", Score: 1}, "jiqkaq": Word{Word: "jiqkaq", Def: "▯ is real; ▯ is out there.", By: "uakci", Score: 0}, "jiqnoi": Word{Word: "jiqnoi", Def: "weltschmerz", By: "spreadsheet", Score: 0}, "jiqpaq": Word{Word: "jiqpaq", Def: "▯ is what's left of ▯; ▯ is the rest of ▯", By: "fagri", Score: -1}, "jiqshi": Word{Word: "jiqshi", Def: "▯ is an entity.", By: "uakci", Score: 0}, "jiqte": Word{Word: "jiqte", Def: "limit", By: "spreadsheet", Score: -1}, "jiqtiao": Word{Word: "jiqtiao", Def: "accurate", By: "spreadsheet", Score: 0}, "jirafa": Word{Word: "jirafa", Def: "giraffe", By: "spreadsheet", Score: 0}, "jire": Word{Word: "jire", Def: "▯ is in relation ▯/2 with me.", By: "uakci", Score: 0}, "jiu": Word{Word: "jiu", Def: "predicate: ‘born’; ▯ is born.", By: "official", Score: 0}, "jiu poji naqpao rao fejue da.": Word{Word: "jiu poji naqpao rao fejue da.", Def: "(A0147) My dad was born in May.", By: "examples", Score: 0}, "jiuchaq": Word{Word: "jiuchaq", Def: "predicate: ‘birthday’; ▯ is a birthday of ▯.", By: "official", Score: 0}, "jiuhua": Word{Word: "jiuhua", Def: "▯ is a womb/uterus.", By: "Ilmen", Score: 0}, "jiujiaq": Word{Word: "jiujiaq", Def: "▯ is ▯'s homeworld", By: "seaqtaq", Score: 0}, "jiuna": Word{Word: "jiuna", Def: "compete", By: "spreadsheet", Score: -1}, "jiupune": Word{Word: "jiupune", Def: "age", By: "spreadsheet", Score: 0}, "jiuriaq": Word{Word: "jiuriaq", Def: "▯ is where ▯ was born; ▯ is ▯'s birthplace.", By: "uakci", Score: 0}, "jiuseaqrioq": Word{Word: "jiuseaqrioq", Def: "▯ is sex", By: "seaqtaq", Score: 0}, "jỉa leo kuq jí maq no mí toaq da.": Word{Word: "jỉa leo kuq jí maq no mí toaq da.", Def: "(A0352) I'll try to say it in Toaq.", By: "examples", Score: 0}, "jo": Word{Word: "jo", Def: "predicate: ‘four’; ▯ are four in number.", By: "official", Score: 0}, "joa": Word{Word: "joa", Def: "predicate: ‘week’; ▯ is a week.", By: "official", Score: 0}, "joachaq": Word{Word: "joachaq", Def: "predicate: ‘weekday’; ▯ is a weekday (day of the week).", By: "official", Score: 0}, "joachu": Word{Word: "joachu", Def: "predicate: ‘during.the.weak’; ▯ is during the week (not during a weekend).", By: "oldofficial", Score: 0}, "joaci": Word{Word: "joaci", Def: "Saturday", By: "uakci", Score: 0}, "joadiai": Word{Word: "joadiai", Def: "Sunday", By: "uakci", Score: 0}, "joadiaq": Word{Word: "joadiaq", Def: "predicate: ‘weekly’; ▯ occurs weekly.", By: "official", Score: 0}, "joafao": Word{Word: "joafao", Def: "predicate: ‘weekend’; ▯ is a weekend.", By: "official", Score: 0}, "joafe": Word{Word: "joafe", Def: "Friday", By: "uakci", Score: 0}, "joagu": Word{Word: "joagu", Def: "▯ is a fortnight", By: "seaqtaq", Score: 0}, "joai": Word{Word: "joai", Def: "sỉ dóshī sa pó dóshī ga rẻı kùı shâo dóshī shô dủa dóshī tî go hı ráı sa lú to ru jẻo hóa dógū to bủ hảı tỉdūa dóshī hóa da", By: "uakci", Score: 0}, "joai suq chufaq hi rai moq.": Word{Word: "joai suq chufaq hi rai moq.", Def: "(A0186) What are you looking for?", By: "examples", Score: 0}, "joai suq ji da.": Word{Word: "joai suq ji da.", Def: "(A0187) I'm looking for you.", By: "examples", Score: 0}, "joaitai": Word{Word: "joaitai", Def: "▯ finds (succeeds in searching for) something satisfying property ▯", By: "fagri", Score: 0}, "joajo": Word{Word: "joajo", Def: "Thursday", By: "uakci", Score: 0}, "joajoq": Word{Word: "joajoq", Def: "Sunday", By: "uakci", Score: 0}, "joaq": Word{Word: "joaq", Def: "director", By: "spreadsheet", Score: 0}, "joasaq": Word{Word: "joasaq", Def: "Wednesday", By: "uakci", Score: 0}, "joashi": Word{Word: "joashi", Def: "Monday", By: "uakci", Score: 0}, "joe": Word{Word: "joe", Def: "dẻq dóshī dógū, na ru gỉ lú cả go hóa tâo dóshī dógū da", By: "uakci", Score: 0}, "joe joai ni kune li po marihuana ga shiq se puichio chietua da.": Word{Word: "joe joai ni kune li po marihuana ga shiq se puichio chietua da.", Def: "(A0996) This dog is skilled at searching for the smell of marijuana as a result of teaching (it) many times.", By: "examples", Score: 0}, "joe liai ho da.": Word{Word: "joe liai ho da.", Def: "(A0522) He swims well.", By: "examples", Score: 0}, "joe moaq ji da.": Word{Word: "joe moaq ji da.", Def: "(A0107) I have a good memory.", By: "examples", Score: 0}, "joecaq": Word{Word: "joecaq", Def: "▯ is a master, mentor, teacher, guru.", By: "uakci", Score: 0}, "joegi": Word{Word: "joegi", Def: "▯ is a master at ▯.", By: "uakci", Score: 0}, "joejaq": Word{Word: "joejaq", Def: "▯ is expert at satisfying property ▯.", By: "Ilmen", Score: 0}, "joemieq": Word{Word: "joemieq", Def: "▯ assesses the level of skill of ▯ in skill ▯ (property)", By: "Ilmen", Score: 0}, "joepoi": Word{Word: "joepoi", Def: "▯ does ▯/1 while being good at it; to ru jỏe to tảo ▯ ▯.", By: "uakci", Score: 0}, "joetao": Word{Word: "joetao", Def: "predicate: ‘practice’; ▯ practices skill ▯.", By: "official", Score: 0}, "joetao ho rao tu nuaq da.": Word{Word: "joetao ho rao tu nuaq da.", Def: "(A0112) He practices every night.", By: "examples", Score: 0}, "joetao ji ba.": Word{Word: "joetao ji ba.", Def: "(A0111) I ought to practice.", By: "examples", Score: 0}, "joetao suq ba.": Word{Word: "joetao suq ba.", Def: "(A0110) You ought to practice.", By: "examples", Score: 0}, "joi": Word{Word: "joi", Def: "predicate: ‘along.with’; ▯ is case the case along with ▯; ▯ happens together with ▯.", By: "official", Score: 0}, "joigiq": Word{Word: "joigiq", Def: "▯ is the case instead of ▯", By: "seaqtaq", Score: 0}, "joikeo": Word{Word: "joikeo", Def: "▯ is true, but ▯ is true as well.", By: "seaqtaq", Score: 0}, "joirioi": Word{Word: "joirioi", Def: "▯ is the case instead of ▯ being the case", By: "seaqtaq", Score: 0}, "jojieq": Word{Word: "jojieq", Def: "▯ is a square.", By: "Ilmen", Score: 0}, "jojue": Word{Word: "jojue", Def: "▯ is April", By: "Xeizzen", Score: 0}, "jojue pa tua moi ji duao ru baq rua. ": Word{Word: "jojue pa tua moi ji duao ru baq rua. ", Def: "(A0145) April reminds me of sugar and flowers.", By: "examples", Score: 0}, "joko": Word{Word: "joko", Def: "predicate: ‘fourth’; ▯ is fourth among ▯.", By: "official", Score: 0}, "jolaqtei": Word{Word: "jolaqtei", Def: "▯ is the fourth tone (peaking).", By: "lynn", Score: -3}, "joliaq": Word{Word: "joliaq", Def: "predicate: ‘quartet’; ▯ is a quartet.", By: "official", Score: 0}, "jolu": Word{Word: "jolu", Def: "For X = ▯, relation ▯/2 holds for that X has property ▯ and that X has property ▯; For <X, C, P1, P2> = <▯, ▯, ▯, ▯>, C(<P1(X)>, <P2(X)>).", By: "uakci", Score: 0}, "jopue": Word{Word: "jopue", Def: "▯ is a tetrapod (Tetrapoda taxonomic superclass).", By: "Ilmen", Score: 0}, "joq": Word{Word: "joq", Def: "= #soq #sủao", By: "uakci", Score: 0}, "joqdoaq": Word{Word: "joqdoaq", Def: "predicate: ‘capital’; ▯ is a capital city of ▯.", By: "official", Score: 0}, "joqhiu": Word{Word: "joqhiu", Def: "▯ is the Main.", By: "uakci", Score: 0}, "joqhua": Word{Word: "joqhua", Def: "predicate: ‘head’; ▯ is a head (body part).", By: "official", Score: 0}, "joqkiaq": Word{Word: "joqkiaq", Def: "▯ is head hair.", By: "Ilmen", Score: 0}, "joqkua": Word{Word: "joqkua", Def: "▯ is a living room", By: "fagri", Score: 0}, "joqluapoq": Word{Word: "joqluapoq", Def: "▯ is a protagonist in story/movie/book/TV show ▯", By: "fagri", Score: 0}, "joqmuq": Word{Word: "joqmuq", Def: "▯ is the dominant hand of ▯.", By: "Ilmen", Score: 0}, "joqreo": Word{Word: "joqreo", Def: " ▯ is a hue.", By: "Ilmen", Score: 0}, "joqriaq": Word{Word: "joqriaq", Def: "▯ is the main place of ▯ being done among ▯.", By: "uakci", Score: 0}, "joqshaq": Word{Word: "joqshaq", Def: "predicate: ‘face’; ▯ is a face.", By: "official", Score: 0}, "joqshaqmuqtoq": Word{Word: "joqshaqmuqtoq", Def: "▯ face-palms.", By: "uakci", Score: 0}, "joqshaqtie": Word{Word: "joqshaqtie", Def: "▯ is a mask.", By: "Ilmen", Score: 0}, "joqtoai": Word{Word: "joqtoai", Def: "▯ is a protein", By: "seaqtaq", Score: 0}, "joqtoaihui": Word{Word: "joqtoaihui", Def: "▯ is a prion", By: "seaqtaq", Score: 0}, "josheaq": Word{Word: "josheaq", Def: "▯ stands quadrupedally / on four legs, or with both feet and hands.", By: "Ilmen", Score: 0}, "josheaqhe": Word{Word: "josheaqhe", Def: "▯ is a quadrupede.", By: "Ilmen", Score: 0}, "ju": Word{Word: "ju", Def: "free modifier: ‘begin.incidental’; begin incidental clause", By: "official", Score: 0}, "jua": Word{Word: "jua", Def: "bủ lẻjīe dóshī sa pó dógū da", By: "uakci", Score: 0}, "jua kea ni da.": Word{Word: "jua kea ni da.", Def: "(A0254) This is a strange machine.", By: "examples", Score: 0}, "juabea": Word{Word: "juabea", Def: "▯ is a xenarthran (Xenarthra taxonomic superorder: the anteaters, sloths, armadillos, glyptodonts, and pampatheriids).", By: "Ilmen", Score: 0}, "juacia": Word{Word: "juacia", Def: "normal (not strange)", By: "spreadsheet", Score: 0}, "juagiq": Word{Word: "juagiq", Def: "▯ is ordinary/normal/regular", By: "seaqtaq", Score: 0}, "juai": Word{Word: "juai", Def: "predicate: ‘serious’; ▯ is serious/earnest.", By: "official", Score: 0}, "juai kui tisha sa ruai neoq goe tuao minu da.": Word{Word: "juai kui tisha sa ruai neoq goe tuao minu da.", Def: "(A0940) There is seriousness because some noble Mr./Mrs./Ms./Miss. will arrive in few minutes.", By: "examples", Score: 0}, "jualuai": Word{Word: "jualuai", Def: "▯ is absurd, grotesque, ridiculous, ludicrous.", By: "uakci", Score: 0}, "juamiu": Word{Word: "juamiu", Def: "▯ finds ▯ weird.", By: "Ilmen", Score: 0}, "juao": Word{Word: "juao", Def: "predicate: ‘rule’; ▯ is a rule/law.", By: "official", Score: 0}, "juaobui": Word{Word: "juaobui", Def: "▯ is an exception(to rule▯)", By: "seaqtaq", Score: 0}, "juaoche": Word{Word: "juaoche", Def: "▯ is a police officer", By: "fagri", Score: 0}, "juaochiai": Word{Word: "juaochiai", Def: "predicate: ‘illegal’; ▯ is illegal; ▯ breaks rule ▯; ▯ is against law ▯.", By: "official", Score: 0}, "juaochiainua": Word{Word: "juaochiainua", Def: "steal", By: "spreadsheet", Score: -1}, "juaochuq": Word{Word: "juaochuq", Def: "▯ eats according to a diet", By: "seaqtaq", Score: 1}, "juaocue": Word{Word: "juaocue", Def: "authority", By: "spreadsheet", Score: 0}, "juaocuegi": Word{Word: "juaocuegi", Def: "▯ is official; ▯ is approved by authority ▯.", By: "Ilmen", Score: 0}, "juaodeq": Word{Word: "juaodeq", Def: "▯ has the right to satisfy property ▯ according to law/rule ▯.", By: "Ilmen", Score: 0}, "juaodi": Word{Word: "juaodi", Def: "▯ is legal; ▯ is allowed by rule/law ▯.", By: "Ilmen", Score: 0}, "juaodue": Word{Word: "juaodue", Def: "predicate: ‘legal’; ▯ is legal; ▯ is according to rule/law ▯.", By: "official", Score: 0}, "juaome": Word{Word: "juaome", Def: "▯ is a policy/law code", By: "seaqtaq", Score: 0}, "juaomea": Word{Word: "juaomea", Def: "▯ conforms to rule ▯; ▯ is right under rule ▯; ▯ is mandated by rule ▯.", By: "uakci", Score: 0}, "juaosoache": Word{Word: "juaosoache", Def: "lawyer", By: "spreadsheet", Score: 0}, "juaotua": Word{Word: "juaotua", Def: "▯ limits ▯ in property ▯", By: "seaqtaq", Score: 0}, "juaq": Word{Word: "juaq", Def: "predicate: ‘even’; Even ▯ is the case; even ▯ satisfies property ▯.", By: "official", Score: 0}, "juaq he shua baq simo cu baq muao da.": Word{Word: "juaq he shua baq simo cu baq muao da.", Def: "(A0736) Even monkeys fall from trees.", By: "examples", Score: 0}, "juatei": Word{Word: "juatei", Def: "▯ is a xenomorph", By: "seaqtaq", Score: 0}, "juci": Word{Word: "juci", Def: "species", By: "spreadsheet", Score: -1}, "jue": Word{Word: "jue", Def: "predicate: ‘month’; ▯ is a month.", By: "official", Score: 0}, "juediaq": Word{Word: "juediaq", Def: "predicate: ‘monthly’; ▯ occurs monthly.", By: "official", Score: 0}, "juegu": Word{Word: "juegu", Def: "▯ is a two-month period.", By: "lynn", Score: 0}, "juemieq": Word{Word: "juemieq", Def: "▯ lasts for ▯ months", By: "fagri", Score: -1}, "juene": Word{Word: "juene", Def: "▯ is the duration of a month (multiplied by ▯).", By: "Ilmen", Score: 0}, "jui": Word{Word: "jui", Def: "predicate: ‘near’; ▯ is near ▯ in property ▯.", By: "official", Score: 0}, "jui miu ji baq poq da.": Word{Word: "jui miu ji baq poq da.", Def: "(A0857) I have opinions that are close to those of a typical person.", By: "examples", Score: 0}, "jui mu ne dua ji suq gi jiao.": Word{Word: "jui mu ne dua ji suq gi jiao.", Def: "(A0853) I'm near to you in how much I know that God is good.", By: "examples", Score: 0}, "jui mu ne joe ho liqho da.": Word{Word: "jui mu ne joe ho liqho da.", Def: "(A0854) They're near to her in how skilled they are.", By: "examples", Score: 0}, "jui mu ne joe koi ho liqho da.": Word{Word: "jui mu ne joe koi ho liqho da.", Def: "(A0855) They're near to her in how skilled at walking they are.", By: "examples", Score: 0}, "jui rao hoq sho bia ji da.": Word{Word: "jui rao hoq sho bia ji da.", Def: "(A0852) It was near (in time) to me becomming sick.", By: "examples", Score: 0}, "jui rao koi ji na jai ji da.": Word{Word: "jui rao koi ji na jai ji da.", Def: "(A0851) My walking was near (in time) to my being happy.", By: "examples", Score: 0}, "jui ti ji suq da.": Word{Word: "jui ti ji suq da.", Def: "(A0849) I am near you.", By: "examples", Score: 0}, "jui ti ni piohea ji da.": Word{Word: "jui ti ni piohea ji da.", Def: "(A0848) This rock is near to me.", By: "examples", Score: 0}, "juibu": Word{Word: "juibu", Def: "▯ is barely the case; ▯ barely satisfies property ▯.", By: "lynn", Score: 0}, "juikoi": Word{Word: "juikoi", Def: "▯ passes by ▯", By: "seaqtaq", Score: 0}, "juipeo": Word{Word: "juipeo", Def: "pass by", By: "spreadsheet", Score: -1}, "juishiu": Word{Word: "juishiu", Def: "▯ is in the recent past of ▯", By: "Xylochoron", Score: 0}, "juku": Word{Word: "juku", Def: "▯ hunts for ▯/1.", By: "uakci", Score: 0}, "juku cie": Word{Word: "juku cie", Def: "fish (v)", By: "spreadsheet", Score: 0}, "julu": Word{Word: "julu", Def: "▯ is incidental", By: "seaqtaq", Score: 0}, "june": Word{Word: "june", Def: "net", By: "spreadsheet", Score: -1}, "juo": Word{Word: "juo", Def: "kảı sa ráı sa dó dóshī, na ru kủaı kủq dóshī dó sa ráı da", By: "uakci", Score: 0}, "juoboq": Word{Word: "juoboq", Def: "▯ \"blocks\" / prevents them receiving any further written messages from ▯.", By: "lynn", Score: 0}, "juochiu": Word{Word: "juochiu", Def: "▯ is a mail address of ▯.", By: "lynn", Score: 1}, "juodeoq": Word{Word: "juodeoq", Def: "▯ communicates to ▯ property ▯ via a written medium.", By: "uakci", Score: 0}, "juoheq": Word{Word: "juoheq", Def: "▯ is an envelope", By: "seaqtaq", Score: 0}, "juoi": Word{Word: "juoi", Def: "predicate: ‘describe’; ▯ describes ▯ as satisfying property ▯.", By: "official", Score: 1}, "juoikuq": Word{Word: "juoikuq", Def: "▯ describes ▯ to ▯ as having property ▯.", By: "uakci", Score: 1}, "juoimu": Word{Word: "juoimu", Def: "▯ is described by ▯ as satisfying property ▯.", By: "Hoemai", Score: 1}, "juoisoa": Word{Word: "juoisoa", Def: "▯ explains to ▯ thing ▯ as having property ▯.", By: "uakci", Score: 1}, "juoq": Word{Word: "juoq", Def: "mỉu há hûı bû dóshī dógū da", By: "uakci", Score: 0}, "juoq ji goi go ja do shiu dui reoq da.": Word{Word: "juoq ji goi go ja do shiu dui reoq da.", Def: "(A0970) I should be treated before it's too late.", By: "examples", Score: 0}, "juq": Word{Word: "juq", Def: "receive", By: "spreadsheet", Score: 0}, "juq jeaqdoa ji ku co noai moq": Word{Word: "juq jeaqdoa ji ku co noai moq", Def: "(A0626) How much milk is it that I should add?", By: "examples", Score: 0}, "juq.": Word{Word: "juq.", Def: "Roger; je'e.", By: "uakci", Score: 0}, "juqgi": Word{Word: "juqgi", Def: "jủq dóshī lî gảı ja dó dógū na, fãq ru lũ gỉjīe dóshī hóa da", By: "uakci", Score: 0}, "juqguo": Word{Word: "juqguo", Def: "▯ pertains to the culture of China – People's Republic of China[l].", By: "countries", Score: 0}, "juqguogua": Word{Word: "juqguogua", Def: "▯ is the country China – People's Republic of China[l].", By: "countries", Score: 0}, "juqguokame": Word{Word: "juqguokame", Def: "▯ is Camellia sinensis (plant used to make tea).", By: "Ilmen", Score: 0}, "juqguokameraq": Word{Word: "juqguokameraq", Def: "▯ is Camellia sinensis (plant used to make tea).", By: "Ilmen", Score: 0}, "juqguokedoro": Word{Word: "juqguokedoro", Def: "▯ is a sweet orange tree (Citrus sinensis).", By: "Ilmen", Score: 0}, "juqguokero": Word{Word: "juqguokero", Def: "▯ is a sweet orange tree (Citrus sinensis).", By: "Ilmen", Score: 0}, "juqguose": Word{Word: "juqguose", Def: "▯ is made in China.", By: "Ilmen", Score: 1}, "juqguotoaq": Word{Word: "juqguotoaq", Def: "▯ is (one of) the language(s) spoken in China – People's Republic of China[l].", By: "countries", Score: 0}, "juqhui": Word{Word: "juqhui", Def: "jủq dóshī lî gảı ja dó dógū na, fãq ru lũ hủıjīe dóshī hóa da\n", By: "uakci", Score: 0}, "juqjai": Word{Word: "juqjai", Def: "satisfied", By: "spreadsheet", Score: 0}, "juqkea": Word{Word: "juqkea", Def: "▯ is a client machine.", By: "uakci", Score: 0}, "juqlu": Word{Word: "juqlu", Def: "Event ▯ has ▯ as patient.", By: "uakci", Score: 0}, "juqpua": Word{Word: "juqpua", Def: "satisfied", By: "spreadsheet", Score: 0}, "ka": Word{Word: "ka", Def: "illocution: ‘hereby’; performative illocution", By: "official", Score: 0}, "kabajo": Word{Word: "kabajo", Def: "horse", By: "spreadsheet", Score: -1}, "kabalo": Word{Word: "kabalo", Def: "horse", By: "spreadsheet", Score: -1}, "kada": Word{Word: "kada", Def: "card", By: "spreadsheet", Score: -1}, "kafe": Word{Word: "kafe", Def: "predicate: ‘coffee’; ▯ is coffee.", By: "official", Score: 0}, "kafepuo": Word{Word: "kafepuo", Def: "▯ is coffee grounds.", By: "lynn", Score: 1}, "kaha": Word{Word: "kaha", Def: "predicate: ‘cough’; ▯ coughs.", By: "official", Score: 0}, "kai": Word{Word: "kai", Def: "tủa tỉ dóshī sa lú lảı hóa dógū jìe dóshī na dósāq da", By: "uakci", Score: 0}, "kai nai poq nieshue kui koa ba.": Word{Word: "kai nai poq nieshue kui koa ba.", Def: "(PAN.2) May the people who are staying inside due to it being cold write now.", By: "official", Score: 0}, "kai suq posuq chua ba.": Word{Word: "kai suq posuq chua ba.", Def: "(A0221) Write your name.", By: "examples", Score: 0}, "kai suq sa diai gi kuqtoai ba.": Word{Word: "kai suq sa diai gi kuqtoai ba.", Def: "(A0370) Write at least seven good sentences.", By: "examples", Score: 0}, "kai suq sa mua la sue ba.": Word{Word: "kai suq sa mua la sue ba.", Def: "(A0571) Write an example please.", By: "examples", Score: 0}, "kaibeaq": Word{Word: "kaibeaq", Def: "pen", By: "spreadsheet", Score: 0}, "kaicha": Word{Word: "kaicha", Def: "▯ is a writing system", By: "seaqtaq", Score: 0}, "kaiche": Word{Word: "kaiche", Def: "▯ is an author", By: "seaqtaq", Score: 0}, "kaichuo": Word{Word: "kaichuo", Def: "▯ is a writing implement (e.g. a pen).", By: "lynn", Score: 0}, "kaidoa": Word{Word: "kaidoa", Def: "▯ posts message ▯ to board/channel/group/comment section ▯", By: "seaqtaq", Score: 1}, "kaifieq": Word{Word: "kaifieq", Def: "▯ writes ▯; ▯ is a writer.", By: "uakci", Score: 0}, "kaifua": Word{Word: "kaifua", Def: "predicate: ‘desk’; ▯ is a desk.", By: "official", Score: 0}, "kaikea": Word{Word: "kaikea", Def: "predicate: ‘type.writer’; ▯ is a type writer.", By: "official", Score: 0}, "kaikue": Word{Word: "kaikue", Def: "▯ is a notebook", By: "fagri", Score: 0}, "kailai": Word{Word: "kailai", Def: "letter, character, lerfu", By: "spreadsheet", Score: 0}, "kaimoa": Word{Word: "kaimoa", Def: "▯ is a dot/full stop/ period", By: "seaqtaq", Score: 0}, "kaimuoq": Word{Word: "kaimuoq", Def: "▯ is ink.", By: "uakci", Score: 0}, "kainao": Word{Word: "kainao", Def: "▯ is ink.", By: "lynn", Score: 0}, "kaipio": Word{Word: "kaipio", Def: "▯ is graphite.", By: "lynn", Score: 1}, "kaipume": Word{Word: "kaipume", Def: "▯ is an archive of ▯", By: "seaqtaq", Score: 0}, "kairioq": Word{Word: "kairioq", Def: "▯ is a font", By: "seaqtaq", Score: 0}, "kaise": Word{Word: "kaise", Def: "predicate: ‘text’; ▯ is text/writing.", By: "official", Score: 0}, "kaishea": Word{Word: "kaishea", Def: "▯ is blank (lacking writing).", By: "Ilmen", Score: 0}, "kaishoe": Word{Word: "kaishoe", Def: "▯ authorizes/allows ▯ by writing something\u00a0", By: "seaqtaq", Score: 0}, "kaitoai": Word{Word: "kaitoai", Def: "▯ is a written stroke.", By: "Ilmen", Score: 0}, "kaitoq": Word{Word: "kaitoq", Def: "▯ is a whiteboard/blackboard", By: "seaqtaq", Score: 0}, "kakoe": Word{Word: "kakoe", Def: "▯ decides ▯.", By: "Ilmen", Score: 0}, "kakuaq": Word{Word: "kakuaq", Def: "▯ declares/pronounces ▯ to be true, by virtue of them saying it.", By: "lynn", Score: 1}, "kakuq": Word{Word: "kakuq", Def: "▯ declares/pronounces ▯ to be true, by virtue of them saying it.", By: "lynn", Score: 0}, "kamechai": Word{Word: "kamechai", Def: "▯ is a Camellia tea.", By: "Ilmen", Score: 0}, "kameraq": Word{Word: "kameraq", Def: "▯ is a plant of the Camellia genus.", By: "Ilmen", Score: 0}, "kanada": Word{Word: "kanada", Def: "▯ pertains to the culture of Canada[k].", By: "countries", Score: 0}, "kanadagua": Word{Word: "kanadagua", Def: "▯ is the country Canada[k].", By: "countries", Score: 0}, "kanadatoaq": Word{Word: "kanadatoaq", Def: "▯ is (one of) the language(s) spoken in Canada[k].", By: "countries", Score: 0}, "kani": Word{Word: "kani", Def: "▯ is a rabbit.", By: "uakci", Score: 0}, "kanitu": Word{Word: "kanitu", Def: "▯ is a spirit, soul or ghost.", By: "Ilmen", Score: 0}, "kanoa": Word{Word: "kanoa", Def: "canoe", By: "spreadsheet", Score: 0}, "kao": Word{Word: "kao", Def: "hẻq dóshī sa dáo rǎq hóa dógū da", By: "uakci", Score: 0}, "kaochio": Word{Word: "kaochio", Def: "▯ logs into ▯", By: "seaqtaq", Score: 0}, "kaodieq": Word{Word: "kaodieq", Def: "▯ uploads / sends file ▯ to ▯.", By: "Ilmen", Score: 2}, "kaojuq": Word{Word: "kaojuq", Def: "▯ downloads / receives file ▯ from ▯.", By: "Ilmen", Score: 2}, "kaolai": Word{Word: "kaolai", Def: "▯ is a file.", By: "seaqtaq", Score: 0}, "kaoshai": Word{Word: "kaoshai", Def: "▯ logs out of ▯", By: "seaqtaq", Score: 0}, "kaosho": Word{Word: "kaosho", Def: "▯ signs up/registers for ▯", By: "seaqtaq", Score: 0}, "kaoshuaq": Word{Word: "kaoshuaq", Def: "record (rejgau)", By: "spreadsheet", Score: 0}, "kaosu": Word{Word: "kaosu", Def: "chaos", By: "uakci", Score: 0}, "kaotua": Word{Word: "kaotua", Def: "create record ", By: "spreadsheet", Score: 0}, "kapasa": Word{Word: "kapasa", Def: "▯ is a plant belonging to the Gossypium genus, from which cotton is harvested.", By: "Ilmen", Score: 0}, "kapu": Word{Word: "kapu", Def: "The volume of ▯ measured in cups is ▯", By: "fagri", Score: -1}, "kaq": Word{Word: "kaq", Def: "predicate: ‘visual’; ▯ is visual/optical; ▯ pertains to the sense of sight/vision.", By: "official", Score: 0}, "kaqchuo": Word{Word: "kaqchuo", Def: "predicate: ‘optical.tool’; ▯ is an optical tool.", By: "official", Score: 0}, "kaqde": Word{Word: "kaqde", Def: "▯ is visually beautiful; ▯ is pleasant to look at; ▯ is pleasing to the eye.", By: "Hoemai", Score: 0}, "kaqdeqbu": Word{Word: "kaqdeqbu", Def: "▯ is blind", By: "fagri", Score: 0}, "kaqdeqbu roi hoaqbeaq, la chua da.": Word{Word: "kaqdeqbu roi hoaqbeaq, la chua da.", Def: "(A0622) The Blind Person and the Candle (this sentence is its name.)", By: "examples", Score: 0}, "kaqdeqcia": Word{Word: "kaqdeqcia", Def: "▯ is blind", By: "fagri", Score: 0}, "kaqdoq": Word{Word: "kaqdoq", Def: "▯ winks; ▯ blinks one of their eyes.", By: "uakci", Score: 0}, "kaqfie": Word{Word: "kaqfie", Def: "▯ is visually ugly.", By: "Ilmen", Score: 0}, "kaqgai": Word{Word: "kaqgai", Def: "predicate: ‘see’; ▯ sees ▯.", By: "official", Score: 0}, "kaqgai ba, nijaoti poji pai da.": Word{Word: "kaqgai ba, nijaoti poji pai da.", Def: "(A0502) Look, here is my friend.", By: "examples", Score: 0}, "kaqgai baq gama rao sia daqmoa poho beq da.": Word{Word: "kaqgai baq gama rao sia daqmoa poho beq da.", Def: "(A0329) A camel never sees its own hump.", By: "examples", Score: 0}, "kaqgai ji ku sa shuao ": Word{Word: "kaqgai ji ku sa shuao ", Def: "(A0478) A bird, is what I saw.", By: "examples", Score: 0}, "kaqgai ji sa fe baobao da.": Word{Word: "kaqgai ji sa fe baobao da.", Def: "(A0367) I see five dogs.", By: "examples", Score: 0}, "kaqgai ji suq da.": Word{Word: "kaqgai ji suq da.", Def: "(A0196) I see you.", By: "examples", Score: 0}, "kaqgai suq hi rai moq.": Word{Word: "kaqgai suq hi rai moq.", Def: "(A0198) What do you see?", By: "examples", Score: 0}, "kaqgai suq puq deo luaq ti soaq moq": Word{Word: "kaqgai suq puq deo luaq ti soaq moq", Def: "(REL.1) Do you see the children who are playing in the garden?", By: "official", Score: 0}, "kaqgaitaqchuo": Word{Word: "kaqgaitaqchuo", Def: "▯ is a mirror.", By: "Ilmen", Score: 0}, "kaqgegai": Word{Word: "kaqgegai", Def: "▯ has visual perception ▯ (view) of ▯ (stimulus).", By: "Ilmen", Score: 0}, "kaqgi": Word{Word: "kaqgi", Def: "handsome", By: "spreadsheet", Score: 0}, "kaqhua": Word{Word: "kaqhua", Def: "predicate: ‘eye’; ▯ is an eye.", By: "official", Score: 0}, "kaqhuaciu": Word{Word: "kaqhuaciu", Def: "▯ accumulates rheum/gound ▯ in their eyes.", By: "Ilmen", Score: 0}, "kaqhuaciuse": Word{Word: "kaqhuaciuse", Def: "▯ is rheum / gound (mucus that accumulates in the eyes during sleep).", By: "Ilmen", Score: 0}, "kaqhuakiaq": Word{Word: "kaqhuakiaq", Def: "eyelash", By: "spreadsheet", Score: 0}, "kaqhuamuoitua": Word{Word: "kaqhuamuoitua", Def: "▯ rolls their eyes", By: "seaqtaq", Score: 0}, "kaqhuatie": Word{Word: "kaqhuatie", Def: "predicate: ‘eyelid’; ▯ is an eyelid.", By: "official", Score: 0}, "kaqhui": Word{Word: "kaqhui", Def: "▯ looks bad.", By: "Ilmen", Score: 0}, "kaqjeo": Word{Word: "kaqjeo", Def: "▯ satisfies property ▯, which describes something about how it/they look", By: "fagri", Score: 0}, "kaqkiu": Word{Word: "kaqkiu", Def: "predicate: ‘visible’; ▯ is visible.", By: "official", Score: 0}, "kaqkiubu": Word{Word: "kaqkiubu", Def: "predicate: ‘invisible’; ▯ is invisible.", By: "Ilmen", Score: 1}, "kaqlugai": Word{Word: "kaqlugai", Def: "▯ sees that ▯ is the case; ▯ gets information ▯ (proposition) from their/his/her/its current visual perception.", By: "Ilmen", Score: 0}, "kaqmuoi": Word{Word: "kaqmuoi", Def: "▯ rolls their eyes", By: "fagri", Score: 1}, "kaqnuao": Word{Word: "kaqnuao", Def: "▯ is a brow.", By: "Ilmen", Score: 0}, "kaqnuaokiaq": Word{Word: "kaqnuaokiaq", Def: "▯ is an eyebrow.", By: "Ilmen", Score: 0}, "kaqnuo": Word{Word: "kaqnuo", Def: "predicate: ‘dream’; ▯ dreams ▯.", By: "official", Score: 0}, "kaqpa": Word{Word: "kaqpa", Def: "dig", By: "spreadsheet", Score: -1}, "kaqpashuaq": Word{Word: "kaqpashuaq", Def: "dig", By: "spreadsheet", Score: -1}, "kaqpua": Word{Word: "kaqpua", Def: "pleasant to look at; handsome; (another sense of) beautiful", By: "uakci", Score: 0}, "kaqse": Word{Word: "kaqse", Def: "view, jvinu", By: "spreadsheet", Score: 0}, "kaqshia": Word{Word: "kaqshia", Def: "predicate: ‘glasses’; ▯ are glasses.", By: "official", Score: 0}, "kaqsi": Word{Word: "kaqsi", Def: "predicate: ‘look.at’; ▯ looks at ▯.", By: "official", Score: 0}, "kaqsi ho duoi sa shi hora puq puao da.": Word{Word: "kaqsi ho duoi sa shi hora puq puao da.", Def: "(A0220) He looks at clouds for an hour.", By: "examples", Score: 0}, "kaqsi ji sa kiq rao nidaq.": Word{Word: "kaqsi ji sa kiq rao nidaq.", Def: "(A0565) I'm watching a movie now.", By: "examples", Score: 0}, "kaqsi sa poq chuq hoa na ji da.": Word{Word: "kaqsi sa poq chuq hoa na ji da.", Def: "(REL.2) Someone who is eating is looking at me.", By: "official", Score: 0}, "kaqsi suq nijao naraqreo fuq ba.": Word{Word: "kaqsi suq nijao naraqreo fuq ba.", Def: "(A0299) Look at that orange clothing.", By: "examples", Score: 0}, "kaqsiu": Word{Word: "kaqsiu", Def: "▯ is visually similar to ▯ ; ▯ looks like ▯", By: "seaqtaq", Score: 0}, "kaqtienua": Word{Word: "kaqtienua", Def: "▯ opens his/her/its/their eyes.", By: "Ilmen", Score: 0}, "kara": Word{Word: "kara", Def: "goat", By: "spreadsheet", Score: 0}, "karama": Word{Word: "karama", Def: "▯ is the karma of ▯.", By: "Ilmen", Score: 0}, "karate": Word{Word: "karate", Def: "▯ is karate.", By: "Hoemai", Score: 0}, "karo": Word{Word: "karo", Def: "▯ is a goat (Capra taxonomic genus).", By: "Ilmen", Score: 0}, "karonui": Word{Word: "karonui", Def: "▯ is a mouse-deer of the Tragulus genus.", By: "Ilmen", Score: 0}, "karonuisiu": Word{Word: "karonuisiu", Def: "▯ is a mouse-deer/chevrotain.", By: "Ilmen", Score: 0}, "karotoq": Word{Word: "karotoq", Def: "▯ is a carrot.", By: "Ilmen", Score: 2}, "karuaq": Word{Word: "karuaq", Def: "▯ makes ▯ true by virtue of saying it", By: "fagri", Score: 1}, "kasha": Word{Word: "kasha", Def: "▯ offers to ▯ that he/she/they (the former) satisfies the property ▯.", By: "Ilmen", Score: 0}, "kasi": Word{Word: "kasi", Def: "nut", By: "spreadsheet", Score: 0}, "kasu": Word{Word: "kasu", Def: "mock", By: "spreadsheet", Score: -1}, "kasuari": Word{Word: "kasuari", Def: "▯ is a cassowary.", By: "Ilmen", Score: 0}, "kata": Word{Word: "kata", Def: "▯ is a card.", By: "Ilmen", Score: 0}, "katana": Word{Word: "katana", Def: "▯ is a katana.", By: "Ilmen", Score: 0}, "katena": Word{Word: "katena", Def: "chain ()", By: "spreadsheet", Score: 0}, "kato": Word{Word: "kato", Def: "▯ is a cat.", By: "Ilmen", Score: 3}, "katopue": Word{Word: "katopue", Def: "▯ is a member of the genus Ailuropoda (the pandas).", By: "Hoemai", Score: 0}, "katoro": Word{Word: "katoro", Def: "▯ is a member of genus Castor (the beavers).", By: "Hoemai", Score: 0}, "katosoi": Word{Word: "katosoi", Def: "▯ catfights with/against ▯.", By: "Ilmen", Score: 0}, "katu": Word{Word: "katu", Def: "cat", By: "spreadsheet", Score: 0}, "ke": Word{Word: "ke", Def: "linking word: ‘4th.place’; linking word: 4th argument place", By: "oldofficial", Score: 0}, "kea": Word{Word: "kea", Def: "sa ráı pa lủ bảı hóa dóshī kùı shâo hóa chûo dóshī dógū da", By: "uakci", Score: 0}, "kea daqrea": Word{Word: "kea daqrea", Def: "▯ is a timer", By: "seaqtaq", Score: 0}, "keafuaq": Word{Word: "keafuaq", Def: "▯ is a screenshot", By: "seaqtaq", Score: 0}, "keafuaqtao": Word{Word: "keafuaqtao", Def: "▯ takes a screenshot", By: "seaqtaq", Score: 0}, "keajuao": Word{Word: "keajuao", Def: "▯ are the settings for a device", By: "seaqtaq", Score: -1}, "keakai": Word{Word: "keakai", Def: "▯ types text ▯ on machine ▯.", By: "Ilmen", Score: 0}, "keakuq": Word{Word: "keakuq", Def: "▯ texts ▯ (quote) to ▯", By: "fagri", Score: 0}, "keapoq": Word{Word: "keapoq", Def: "▯ is a robot / android / artificial intelligence (sci-fi sense)\u00a0/ machine person.", By: "lynn", Score: 0}, "keaq": Word{Word: "keaq", Def: "predicate: ‘salty’; ▯ is salty.", By: "official", Score: 0}, "keaqdoate": Word{Word: "keaqdoate", Def: "▯ is a salad.", By: "uakci", Score: 0}, "keaqloha": Word{Word: "keaqloha", Def: "▯ is sodium.", By: "Ilmen", Score: 0}, "keaqmuoq": Word{Word: "keaqmuoq", Def: "salt", By: "spreadsheet", Score: 0}, "keaqpio": Word{Word: "keaqpio", Def: "salt", By: "spreadsheet", Score: 0}, "keaqsai": Word{Word: "keaqsai", Def: "▯ is salt", By: "seaqtaq", Score: 0}, "keaqsaiheq": Word{Word: "keaqsaiheq", Def: "▯ is a salt shaker", By: "seaqtaq", Score: 0}, "keaqtuanueq": Word{Word: "keaqtuanueq", Def: "_ is a salami", By: "brunofrancosalamin", Score: 0}, "kebiq": Word{Word: "kebiq", Def: "▯ is a kelvin; ▯ is ▯ (number of property) kelvin.", By: "Hoemai", Score: 0}, "kebo": Word{Word: "kebo", Def: "predicate: ‘horse’; ▯ is a horse (member of species Equus ferus caballus).", By: "official", Score: 0}, "kedoro": Word{Word: "kedoro", Def: "▯ is a tree or shrub of the Citrus genus.", By: "Ilmen", Score: 0}, "kefu": Word{Word: "kefu", Def: "kefir", By: "uakci", Score: 0}, "kehoq": Word{Word: "kehoq", Def: "(nullary predicate:) The previous sentence is true.", By: "uakci", Score: 0}, "kejeo": Word{Word: "kejeo", Def: "▯ satisfies the property that satisfies the property ▯.", By: "Ilmen", Score: 0}, "keji": Word{Word: "keji", Def: "ashamed", By: "spreadsheet", Score: -1}, "keleo": Word{Word: "keleo", Def: "▯ is a clitoris.", By: "Hoemai", Score: 0}, "kemea": Word{Word: "kemea", Def: "▯ is among the things having property ▯.", By: "Ilmen", Score: 0}, "kena": Word{Word: "kena", Def: "▯ is a stork.", By: "Hoemai", Score: 0}, "keneide": Word{Word: "keneide", Def: "▯ is a cnidarian (jellyfish, coral, hydra, etc.).", By: "Ilmen", Score: 0}, "kenia": Word{Word: "kenia", Def: "▯ pertains to the culture of Kenya – Republic of Kenya.", By: "countries", Score: 0}, "keniagua": Word{Word: "keniagua", Def: "▯ is the country Kenya – Republic of Kenya.", By: "countries", Score: 0}, "keniatoaq": Word{Word: "keniatoaq", Def: "▯ is (one of) the language(s) spoken in Kenya – Republic of Kenya.", By: "countries", Score: 0}, "keniq": Word{Word: "keniq", Def: "▯ is a kenning; ▯ is to ▯ as ▯ is to ▯ as ▯ is to ▯ etc.; ▯ : ▯ :: ▯ : ▯.\u00a0", By: "uakci", Score: 0}, "keo": Word{Word: "keo", Def: "sentence prefix: ‘but’; but/however", By: "official", Score: 0}, "keo bu suaojie ji.": Word{Word: "keo bu suaojie ji.", Def: "(SPR.2) But I don't care.", By: "official", Score: 0}, "keo fa ho mu boqbu da.": Word{Word: "keo fa ho mu boqbu da.", Def: "(A0829) But they'll go anyway.", By: "examples", Score: 0}, "keo gaq ji ho!": Word{Word: "keo gaq ji ho!", Def: "(A0827) But I'm with him!", By: "examples", Score: 0}, "keo haq bi jaq gi maq.": Word{Word: "keo haq bi jaq gi maq.", Def: "(PRX.6) The food though, it's very good.", By: "official", Score: 0}, "keo haq bi, mia mu cho maq da!": Word{Word: "keo haq bi, mia mu cho maq da!", Def: "(A0835) But as for the food, everyone liked it!", By: "examples", Score: 0}, "keo haq pa jaq gi.": Word{Word: "keo haq pa jaq gi.", Def: "(PRX.5) The food though, it's very good.", By: "official", Score: 0}, "keo hiaq bo ha pa, bu ca hiaq ha dai jai ja poq rao ja rai da.": Word{Word: "keo hiaq bo ha pa, bu ca hiaq ha dai jai ja poq rao ja rai da.", Def: "(A0846) But owning little doesn't mean that you can only rarely be happy.", By: "examples", Score: 0}, "keo sishai pu gaq choadeoq hai da.": Word{Word: "keo sishai pu gaq choadeoq hai da.", Def: "(A0826) But the one who was chatting along already left.", By: "examples", Score: 0}, "keo, hai koe tao ji da!": Word{Word: "keo, hai koe tao ji da!", Def: "(A0898) But, I have already decided what to do!", By: "examples", Score: 0}, "keo, hai sishai pu gaq choadeoq da.": Word{Word: "keo, hai sishai pu gaq choadeoq da.", Def: "(A0825) But, the one who was chatting along already left.", By: "examples", Score: 0}, "keoko": Word{Word: "keoko", Def: "▯ is a member of genus Cygnus (the swans).", By: "Hoemai", Score: 0}, "keopi": Word{Word: "keopi", Def: "▯ is a quasi-copy of ▯, but it satisfies ▯ (unlike the original).", By: "lynn", Score: 0}, "keopishuaq": Word{Word: "keopishuaq", Def: "▯ creates a quasi-copy of ▯ that satisfies ▯, unlike the original;\u00a0 ▯ adapts ▯ into a version that distinguishes itself by satisfying ▯.", By: "lynn", Score: 0}, "keoru": Word{Word: "keoru", Def: "jẻo dógū, keo mảo dóshī lî jẻo ja dó da", By: "uakci", Score: 0}, "kepa": Word{Word: "kepa", Def: "▯ is an onion.", By: "Ilmen", Score: 0}, "kepaq": Word{Word: "kepaq", Def: "▯ is part of the thing(s) satisfying the property ▯.", By: "Ilmen", Score: 0}, "keq": Word{Word: "keq", Def: "= #te #cỉu", By: "uakci", Score: 0}, "keqciu": Word{Word: "keqciu", Def: "predicate: ‘defecate’; ▯ defecates/shits.", By: "official", Score: 0}, "keqdoa": Word{Word: "keqdoa", Def: "▯ gives (a) shit ▯ about ▯.", By: "uakci", Score: 0}, "keqjeq": Word{Word: "keqjeq", Def: "▯ is shitty in property ▯.", By: "Ilmen", Score: 1}, "keqsa": Word{Word: "keqsa", Def: "[Metapredicate to be used as a head of a serial:] the following word/s is/are to be interpreted as a sequence of foreign sounds rather than a native compound.", By: "uakci", Score: 0}, "keqsia": Word{Word: "keqsia", Def: "[Metapredicate to be used as a head of a serial:] the following word/s is/are to be interpreted as a native compound rather than a sequence of foreign sounds.", By: "uakci", Score: 0}, "kere": Word{Word: "kere", Def: "▯ is a scrotum/ballsack", By: "seaqtaq", Score: 0}, "kerioq": Word{Word: "kerioq", Def: "▯ is a type of/kind of things that satisfy property ▯", By: "seaqtaq", Score: 0}, "kero": Word{Word: "kero", Def: "▯ is a tree or shrub of the Citrus genus.", By: "Ilmen", Score: 0}, "kesha": Word{Word: "kesha", Def: "▯ is a clown.", By: "Ilmen", Score: 0}, "keso": Word{Word: "keso", Def: "cheese", By: "spreadsheet", Score: 0}, "ketea": Word{Word: "ketea", Def: "▯ is a member of the order Cetacea (the whales, porpoises and dolphins).", By: "Hoemai", Score: 0}, "keti": Word{Word: "keti", Def: "pity", By: "spreadsheet", Score: -1}, "keto": Word{Word: "keto", Def: "▯ is a cetacean.", By: "Ilmen", Score: 0}, "keu": Word{Word: "keu", Def: "Lojban «kau» – explicitly mark a question word as signifying of an implicit question.", By: "uakci", Score: 0}, "ki": Word{Word: "ki", Def: "end-parenthetical: ‘)’; terminates parenthetical", By: "official", Score: 0}, "kia": Word{Word: "kia", Def: "rẻo sa báq sỉaı dóshī da", By: "uakci", Score: 0}, "kiachaq": Word{Word: "kiachaq", Def: "predicate: ‘Monday’; ▯ is a Monday.", By: "official", Score: 0}, "kiachaq nichaq da.": Word{Word: "kiachaq nichaq da.", Def: "(A0026) Today is Monday.", By: "examples", Score: 0}, "kiacuao": Word{Word: "kiacuao", Def: "▯ is an infrared color.", By: "Ilmen", Score: 0}, "kiai": Word{Word: "kiai", Def: "nurse", By: "spreadsheet", Score: 0}, "kialoha": Word{Word: "kialoha", Def: "▯ is copper.", By: "Ilmen", Score: 0}, "kiao": Word{Word: "kiao", Def: "predicate: ‘door’; ▯ is a doorway.", By: "official", Score: 0}, "kiaoche": Word{Word: "kiaoche", Def: "gatekeeper", By: "spreadsheet", Score: -1}, "kiaotoq": Word{Word: "kiaotoq", Def: "predicate: ‘door’; ▯ is a door.", By: "official", Score: 0}, "kiapio": Word{Word: "kiapio", Def: "▯ is brick", By: "seaqtaq", Score: 0}, "kiaq": Word{Word: "kiaq", Def: "predicate: ‘hair’; ▯ is a hair.", By: "official", Score: 0}, "kiaqchuo": Word{Word: "kiaqchuo", Def: "▯ is a comb or brush", By: "fagri", Score: 0}, "kiaqketea": Word{Word: "kiaqketea", Def: "▯ is a baleen whale.", By: "Hoemai", Score: 0}, "kiaqme": Word{Word: "kiaqme", Def: "▯ is a patch of hairs; ▯ is fur (not necessarily of a dead animal).", By: "Ilmen", Score: 0}, "kiaqniu": Word{Word: "kiaqniu", Def: "▯ is grass.", By: "Ilmen", Score: 0}, "kiaqnua": Word{Word: "kiaqnua", Def: "▯ cuts/trims/shaves hair ▯ off body ▯.", By: "uakci", Score: 0}, "kiareo": Word{Word: "kiareo", Def: "predicate: ‘red’; ▯ is of red colour.", By: "official", Score: 0}, "kiareo poji kiaq da.": Word{Word: "kiareo poji kiaq da.", Def: "(A0027) My hair is red.", By: "examples", Score: 0}, "kiariba": Word{Word: "kiariba", Def: "▯ is a redcurrant (Ribes rubrum).", By: "Hoemai", Score: 0}, "kibo": Word{Word: "kibo", Def: "▯ is the internet.", By: "Ilmen", Score: -1}, "kiboriaq": Word{Word: "kiboriaq", Def: "▯ is a website.", By: "Ilmen", Score: 0}, "kie": Word{Word: "kie", Def: "tỉaojāı dóshī jêo dógū dósāq lũı ru jùqgī dóshī da", By: "uakci", Score: 0}, "kie ji rao tu chaq kui mie ji da.": Word{Word: "kie ji rao tu chaq kui mie ji da.", Def: "(A0249) I am thankful every day because I'm alive.", By: "examples", Score: 0}, "kiedoa": Word{Word: "kiedoa", Def: "(fork of #w55XRPL8z) ▯ gives reward ▯ to ▯.", By: "Ilmen", Score: 0}, "kiegiq": Word{Word: "kiegiq", Def: "▯ feels resentment/bitterness towards ▯ for action ▯.", By: "Ilmen", Score: 0}, "kiejuq": Word{Word: "kiejuq", Def: "▯ gets reward ▯.", By: "Ilmen", Score: 0}, "kiejuqtiao": Word{Word: "kiejuqtiao", Def: "▯ merits ▯.", By: "Ilmen", Score: 0}, "kiekuq": Word{Word: "kiekuq", Def: "predicate: ‘thank’; ▯ says thanks to ▯.", By: "official", Score: 0}, "kieq": Word{Word: "kieq", Def: "predicate: ‘disgusted’; ▯ experiences disgust.", By: "official", Score: 0}, "kieqca": Word{Word: "kieqca", Def: "▯ is disgusting", By: "seaqtaq", Score: 0}, "kieqgue": Word{Word: "kieqgue", Def: "▯ has recoiled in disgust; ▯ cringes.", By: "uakci", Score: 2}, "kieqgueca": Word{Word: "kieqgueca", Def: "▯ is cringy", By: "seaqtaq", Score: 0}, "kihiheu": Word{Word: "kihiheu", Def: "kiwifruit", By: "spreadsheet", Score: 0}, "kihoq": Word{Word: "kihoq", Def: "Basically, ▯.", By: "uakci", Score: 0}, "kihote": Word{Word: "kihote", Def: "▯ is quixotic – pertaining to Don Quixote.", By: "uakci", Score: 0}, "kiku": Word{Word: "kiku", Def: "key", By: "spreadsheet", Score: -1}, "kilo": Word{Word: "kilo", Def: "▯ is a kilogram; ▯ is ▯ (number of property) kilograms.", By: "Hoemai", Score: 0}, "kilone": Word{Word: "kilone", Def: "▯ is the mass of ▯ in kilogram.", By: "Ilmen", Score: 0}, "kilu": Word{Word: "kilu", Def: "▯ is such that ▯ is the property of being equal to it; kilu.2 = lî jei kílu.1 já.", By: "uakci", Score: 0}, "kime": Word{Word: "kime", Def: "In the sequence ▯, each nonfinal member is related to the next member by the relation ▯.", By: "Ilmen", Score: 1}, "kio": Word{Word: "kio", Def: "start-parenthetical: ‘(’; start parenthetical", By: "official", Score: 0}, "kioi": Word{Word: "kioi", Def: "▯ applies a brewing, smoking, fermenting, (intentional) spoiling process or any other similar long-term transformative process that is not cooking onto ▯.", By: "uakci", Score: 0}, "kioishi": Word{Word: "kioishi", Def: "▯ is the first brew of tea (leaves) ▯.", By: "uakci", Score: 0}, "kioq": Word{Word: "kioq", Def: "sa dó mỏa sa dónē tu dóhēo tǐ hóa lú rẻa hóa dóshī bı nẻ dónē jûı tỉ dó dóhēo da", By: "uakci", Score: 0}, "kioqbiu": Word{Word: "kioqbiu", Def: "▯ is a cylinder", By: "seaqtaq", Score: 0}, "kioqboe": Word{Word: "kioqboe", Def: "disc, shape", By: "spreadsheet", Score: 0}, "kioqchiu": Word{Word: "kioqchiu", Def: "▯ are the spherical coordinates (distance, inclination and azimuth) of ▯ relatively to the spatial frame of reference ▯.", By: "Ilmen", Score: 0}, "kioqgiu": Word{Word: "kioqgiu", Def: "circle", By: "spreadsheet", Score: 0}, "kioqlieq": Word{Word: "kioqlieq", Def: "predicate: ‘cone’; ▯ is a cone (shape).", By: "Xylochoron", Score: 0}, "kioqmuoi": Word{Word: "kioqmuoi", Def: "▯ is a torus", By: "seaqtaq", Score: 0}, "kioqmuoihaq": Word{Word: "kioqmuoihaq", Def: "▯ is a bagel/donut", By: "seaqtaq", Score: 0}, "kioqseu": Word{Word: "kioqseu", Def: "▯ is the number π.", By: "Ilmen", Score: 0}, "kiq": Word{Word: "kiq", Def: "kảo dóshī sa lú mẻ hóa sa fủaq ceı dǔ dủo hóa da", By: "uakci", Score: 0}, "kiqgai": Word{Word: "kiqgai", Def: "▯ watches a movie", By: "seaqtaq", Score: 0}, "kiqjio": Word{Word: "kiqjio", Def: "predicate: ‘cinema’; ▯ is a cinema / movie theater.", By: "official", Score: 0}, "kiqkea": Word{Word: "kiqkea", Def: "predicate: ‘camera’; ▯ is a film camera.", By: "official", Score: 0}, "kiqtoq": Word{Word: "kiqtoq", Def: "▯ is a screen.", By: "Ilmen", Score: 0}, "kiribati": Word{Word: "kiribati", Def: "▯ pertains to the culture of Kiribati – Republic of Kiribati.", By: "countries", Score: 0}, "kiribatigua": Word{Word: "kiribatigua", Def: "▯ is the country Kiribati – Republic of Kiribati.", By: "countries", Score: 0}, "kiribatitoaq": Word{Word: "kiribatitoaq", Def: "▯ is (one of) the language(s) spoken in Kiribati – Republic of Kiribati.", By: "countries", Score: 0}, "kishu": Word{Word: "kishu", Def: "describe", By: "spreadsheet", Score: 0}, "kisieme": Word{Word: "kisieme", Def: "▯ is a sequence (ordering) of the members of ▯ (roi) in which each non-final member is related to the next by the relation ▯", By: "fagri", Score: 0}, "kiu": Word{Word: "kiu", Def: "dẻq sa ráı lî gủjēo ja dó dóshī dógū da", By: "uakci", Score: 0}, "kiu mamieq": Word{Word: "kiu mamieq", Def: "▯ (fact) is verifiable.", By: "Ilmen", Score: 0}, "ko": Word{Word: "ko", Def: "bủ hủaq pủı dósāq dógū, na ru jèojēq shî dósāq pa, sỏq dóshī dójō dógū, na ru jèojēq bû pủq dósāq na sa dó lỉ shỉ sa túq lủ bủ jẻojēq mêa hóa ja ráı na mêa hóa dósāq bı, kỏ dóshī sa lú dóhēo hỏa bı sỏq go dójō cu dógū fı sa lú tủq hóa lú jẻojēq mêa hóa dóhēo na mêa hóa dógū ceı ceı ceı dó dójō da", By: "uakci", Score: -1}, "ko gu": Word{Word: "ko gu", Def: "predicate: ‘second’; ▯ is the second among ▯ sorted by property ▯.", By: "official", Score: 0}, "ko saq": Word{Word: "ko saq", Def: "predicate: ‘third’; ▯ is the third among ▯ sorted by property ▯.", By: "official", Score: 0}, "ko shi": Word{Word: "ko shi", Def: "predicate: ‘first’; ▯ is the first among ▯ sorted by property ▯.", By: "official", Score: 0}, "ko shi ho poq li chui tisha da.": Word{Word: "ko shi ho poq li chui tisha da.", Def: "(A0393) He was the first person to arrive.", By: "examples", Score: 0}, "ko shi ji lao.": Word{Word: "ko shi ji lao.", Def: "(ORD.1) I am first among those who are waiting.", By: "official", Score: 0}, "koa": Word{Word: "koa", Def: "= gıq #lỏq", By: "uakci", Score: 0}, "koa poji muq da.": Word{Word: "koa poji muq da.", Def: "(A0520) My hands are cold.", By: "examples", Score: 0}, "koacao": Word{Word: "koacao", Def: "predicate: ‘winter’; ▯ is winter.", By: "official", Score: 0}, "koai": Word{Word: "koai", Def: "predicate: ‘net’; ▯ is a net/web/sieve/filter.", By: "official", Score: 0}, "koaikero": Word{Word: "koaikero", Def: "▯ is a mandarin orange tree (Citrus reticulata).", By: "Ilmen", Score: 0}, "koainuibokedoro": Word{Word: "koainuibokedoro", Def: "▯ is a mandarin orange tree (Citrus reticulata).", By: "Ilmen", Score: 0}, "koakea": Word{Word: "koakea", Def: "predicate: ‘refridgerator’; ▯ is a refridgerator.", By: "official", Score: 0}, "koaq": Word{Word: "koaq", Def: "predicate: ‘mature’; ▯ is mature/ripe/full-grown/adult.", By: "official", Score: 0}, "koaqheu": Word{Word: "koaqheu", Def: "▯ is ripe.", By: "Ilmen", Score: 0}, "koaqliq": Word{Word: "koaqliq", Def: "predicate: ‘woman’; ▯ is a woman (adult female).", By: "official", Score: 0}, "koaqnaq": Word{Word: "koaqnaq", Def: "predicate: ‘man’; ▯ is a man (adult male).", By: "official", Score: 0}, "koaqnuase": Word{Word: "koaqnuase", Def: "▯ is the harvest from plant(ation) ▯.", By: "uakci", Score: 0}, "koaqreq": Word{Word: "koaqreq", Def: "predicate: ‘adult’; ▯ is an adult human.", By: "official", Score: 0}, "kobodo": Word{Word: "kobodo", Def: "▯ is a Kobold (fantasy species)", By: "fagri", Score: 0}, "koe": Word{Word: "koe", Def: "dủa dóshī lû tu dó měa hóa dósāq bı dẻq dóshī lî gủjēo ja ráı dó dójō na na, na ru gủjēo dóshī ku dógū dójō da", By: "uakci", Score: 0}, "koe ji suq tuq poq li mai ja poq ja de da.": Word{Word: "koe ji suq tuq poq li mai ja poq ja de da.", Def: "(A0894) I choose you, beautiful, out of all people, to love.", By: "examples", Score: 0}, "koe mai ji suq tuq poq da.": Word{Word: "koe mai ji suq tuq poq da.", Def: "(A0895) I choose you, out of all people, to love.", By: "examples", Score: 0}, "koe ruaq ji jia jeo da.": Word{Word: "koe ruaq ji jia jeo da.", Def: "(A0897) I chode to declare that it is true.", By: "examples", Score: 0}, "koe ruaq ji pu bu da.": Word{Word: "koe ruaq ji pu bu da.", Def: "(A0896) I chose to declare that it is false.", By: "examples", Score: 0}, "koe suq sa rai maq tiao ja do ba.": Word{Word: "koe suq sa rai maq tiao ja do ba.", Def: "(A0487) Pick something out of them for being appropriate.", By: "examples", Score: 0}, "koe suq sa tiao ba.": Word{Word: "koe suq sa tiao ba.", Def: "(A0486) Pick something appropriate.", By: "examples", Score: 0}, "koecachuaq": Word{Word: "koecachuaq", Def: "▯ is determinism", By: "seaqtaq", Score: 0}, "koechuaq": Word{Word: "koechuaq", Def: "▯ is existentialism", By: "seaqtaq", Score: 0}, "koekuaq": Word{Word: "koekuaq", Def: "vote", By: "spreadsheet", Score: 1}, "koelao": Word{Word: "koelao", Def: "\u00a0▯ hesitates between ▯ for satisfying property ▯.", By: "Ilmen", Score: 0}, "koemea": Word{Word: "koemea", Def: "predicate: ‘option’; ▯ is an option.", By: "official", Score: 0}, "koemoi": Word{Word: "koemoi", Def: "▯ hesitates between ▯ for satisfying property ▯.", By: "Ilmen", Score: 0}, "koemu": Word{Word: "koemu", Def: "It is ▯'s turn to do ▯", By: "fagri", Score: 0}, "koepaq": Word{Word: "koepaq", Def: "▯ is a chapter; ▯ is a chapter of book ▯.", By: "solpahi", Score: -1}, "koese": Word{Word: "koese", Def: "▯ was chosen from a set of ▯-ers for purpose ▯; ▯ is a particular ▯-er.", By: "uakci", Score: 0}, "koeshei": Word{Word: "koeshei", Def: "▯ is available", By: "seaqtaq", Score: 0}, "koeshuq": Word{Word: "koeshuq", Def: "▯ was not chosen from the set of ▯-ers for ▯; ▯ is a non-particular, random ▯-er.", By: "uakci", Score: 0}, "koesuaidui": Word{Word: "koesuaidui", Def: "hasty", By: "uakci", Score: 0}, "kogiq": Word{Word: "kogiq", Def: "▯ is the x-th to last among ▯ where x is the number ▯, when sorted by property ▯.", By: "Ilmen", Score: 0}, "koi": Word{Word: "koi", Def: "fả dóshī chùochā sa pó dóshī ga pủe da", By: "uakci", Score: 0}, "koibeaq": Word{Word: "koibeaq", Def: "▯ is a walking stick.", By: "Ilmen", Score: 0}, "koiceaq": Word{Word: "koiceaq", Def: "▯ is a hoof.", By: "Ilmen", Score: 0}, "koiceaqbo": Word{Word: "koiceaqbo", Def: "▯ is an ungulate.", By: "Ilmen", Score: 0}, "koifa": Word{Word: "koifa", Def: "▯ goes to ▯ from ▯ on foot.", By: "lynn", Score: 0}, "koihua": Word{Word: "koihua", Def: "▯ is a leg.", By: "Ilmen", Score: 0}, "koikoi": Word{Word: "koikoi", Def: "▯ goes for a walk.", By: "uakci", Score: 0}, "koipeo": Word{Word: "koipeo", Def: "▯ ambulates through ▯.", By: "Ilmen", Score: 0}, "koitieq": Word{Word: "koitieq", Def: "predicate: ‘path’; ▯ is a walking path.", By: "official", Score: 0}, "koitoai": Word{Word: "koitoai", Def: "step (motion)", By: "spreadsheet", Score: 1}, "koluqbao": Word{Word: "koluqbao", Def: "▯ is a member of genus Columba (containing some doves and pigeons, the typical pigeons).", By: "Hoemai", Score: 0}, "komodobarala": Word{Word: "komodobarala", Def: "▯ is a Komodo dragon/Komodo monitor (Varanus komodoensis).", By: "Hoemai", Score: 0}, "kone": Word{Word: "kone", Def: "dog", By: "spreadsheet", Score: 0}, "koni": Word{Word: "koni", Def: "▯ is a European rabbit (Oryctolagus cuniculus).", By: "Ilmen", Score: 1}, "koniaq": Word{Word: "koniaq", Def: "▯ is year ▯/n.", By: "lynn", Score: 0}, "koniq": Word{Word: "koniq", Def: "▯ is a European rabbit (Oryctolagus cuniculus).", By: "Ilmen", Score: 0}, "konosho": Word{Word: "konosho", Def: "▯ pertains to Qo'noS (the homeworld of the Klingons)", By: "seaqtaq", Score: 0}, "kopi": Word{Word: "kopi", Def: "predicate: ‘copy’; ▯ is a copy of ▯.", By: "official", Score: 0}, "kopio": Word{Word: "kopio", Def: "scorpion", By: "spreadsheet", Score: 0}, "kopiruo": Word{Word: "kopiruo", Def: "▯ mimics/immitates ▯.", By: "Ilmen", Score: 0}, "kopishuaq": Word{Word: "kopishuaq", Def: "predicate: ‘copy’; ▯ copies ▯.", By: "official", Score: 0}, "koq": Word{Word: "koq", Def: "predicate: ‘rough’; ▯ is rough/uneven.", By: "official", Score: 0}, "koqchoacha": Word{Word: "koqchoacha", Def: "▯ is creaky voice (phonetics)", By: "seaqtaq", Score: 0}, "koqfia": Word{Word: "koqfia", Def: "▯ happens at a time significantly closer to the next ▯-er than to the last.", By: "uakci", Score: 0}, "koqgo": Word{Word: "koqgo", Def: "▯ pertains to the culture of Congo, Republic of the[q].", By: "countries", Score: 0}, "koqgogua": Word{Word: "koqgogua", Def: "▯ is the country Congo, Republic of the[q].", By: "countries", Score: 0}, "koqgotoaq": Word{Word: "koqgotoaq", Def: "▯ is (one of) the language(s) spoken in Congo, Republic of the[q].", By: "countries", Score: 0}, "koqpani": Word{Word: "koqpani", Def: "company", By: "spreadsheet", Score: 0}, "koqpiuta": Word{Word: "koqpiuta", Def: "predicate: ‘computer’; ▯ is a computer.", By: "official", Score: 0}, "koqpue": Word{Word: "koqpue", Def: "▯ is an armadillo (Dasypus genus).", By: "Ilmen", Score: 0}, "koqsie": Word{Word: "koqsie", Def: "▯ happens at a time significantly closer to the last ▯-er than to the next.", By: "uakci", Score: 0}, "koqto": Word{Word: "koqto", Def: "▯ is an internet account\u00a0", By: "seaqtaq", Score: 0}, "kori": Word{Word: "kori", Def: "rope", By: "spreadsheet", Score: -1}, "korotu": Word{Word: "korotu", Def: "▯ is a spotted hyena (Crocuta crocuta).", By: "Ilmen", Score: 0}, "koruo": Word{Word: "koruo", Def: "▯ is a raven/crow/jackdaw/rook; ▯ belongs to the Corvus genus.", By: "Ilmen", Score: 0}, "koselo": Word{Word: "koselo", Def: "▯ is a hazel.", By: "Ilmen", Score: 0}, "kosi": Word{Word: "kosi", Def: "▯ = cos(▯).", By: "Ilmen", Score: 0}, "kosofo": Word{Word: "kosofo", Def: "▯ pertains to the culture of Kosovo → Kosovo.", By: "countries", Score: 0}, "kosofogua": Word{Word: "kosofogua", Def: "▯ is the country Kosovo → Kosovo.", By: "countries", Score: 0}, "kosofotoaq": Word{Word: "kosofotoaq", Def: "▯ is (one of) the language(s) spoken in Kosovo → Kosovo.", By: "countries", Score: 0}, "kotibuare": Word{Word: "kotibuare", Def: "▯ pertains to the culture of Côte d'Ivoire → Ivory Coast.", By: "countries", Score: 0}, "kotibuaregua": Word{Word: "kotibuaregua", Def: "▯ is the country Côte d'Ivoire → Ivory Coast.", By: "countries", Score: 0}, "kotibuaretoaq": Word{Word: "kotibuaretoaq", Def: "▯ is (one of) the language(s) spoken in Côte d'Ivoire → Ivory Coast.", By: "countries", Score: 0}, "ku": Word{Word: "ku", Def: "[KU] Shú kủ pa shẻıdōetōa na ru lảı nîqdāo pó tóa fǐa hóa bíhōı da. Mũa bı mủıjēq mó «kỏı ku jí» teo mó «jỉ kóı» teo kıo nỉqdāo pó shú jỉ kı da.", By: "Ilmen", Score: 0}, "ku bira pa, m, lu... ca pie poq hoa duime na, ruo duahui ho da.": Word{Word: "ku bira pa, m, lu... ca pie poq hoa duime na, ruo duahui ho da.", Def: "(A0621) Now, beer is, um… stuff that, when people drink too much of it, they act foolish.", By: "examples", Score: 0}, "ku neijue pa ": Word{Word: "ku neijue pa ", Def: "(A0156) ", By: "examples", Score: 0}, "kua": Word{Word: "kua", Def: "predicate: ‘room’; ▯ is a room.", By: "official", Score: 0}, "kuabue": Word{Word: "kuabue", Def: "predicate: ‘appartment’; ▯ is an appartment/flat.", By: "official", Score: 0}, "kuai": Word{Word: "kuai", Def: "= #taq #shảo #jẻo", By: "uakci", Score: 0}, "kuai shai gaikiu": Word{Word: "kuai shai gaikiu", Def: "▯ has a hunger/urge/longing to disappear.", By: "niucuq", Score: 0}, "kuaiboai": Word{Word: "kuaiboai", Def: "▯ surrenders to the drive/impulsion of doing ▯.", By: "Ilmen", Score: 0}, "kuaiboaile": Word{Word: "kuaiboaile", Def: "▯ is impulsive.", By: "Ilmen", Score: 0}, "kuaiboq": Word{Word: "kuaiboq", Def: ".", By: "uakci", Score: 0}, "kuaibutao": Word{Word: "kuaibutao", Def: "▯ does ▯ against their will.", By: "uakci", Score: 0}, "kuaica": Word{Word: "kuaica", Def: "▯ is tempting to ▯.", By: "Ilmen", Score: 0}, "kuaige": Word{Word: "kuaige", Def: "▯ is an inspiration; ▯ inspires ▯ to satisfy property ▯", By: "seaqtaq", Score: 0}, "kuailui": Word{Word: "kuailui", Def: "▯ is satisfied, as their/his/her/its urge/drive/hunger/longing ▯ has been fulfilled.", By: "Ilmen", Score: 0}, "kuairuo(he)": Word{Word: "kuairuo(he)", Def: "▯ is impulsive", By: "seaqtaq", Score: 0}, "kuaishai": Word{Word: "kuaishai", Def: "▯ gets bored of/loses the urge to satisfy property ▯", By: "seaqtaq", Score: 0}, "kuao": Word{Word: "kuao", Def: "predicate: ‘cyan’; ▯ is the colour cyan.", By: "official", Score: 0}, "kuaochaq": Word{Word: "kuaochaq", Def: "predicate: ‘Friday’; ▯ is a Friday.", By: "official", Score: 0}, "kuaoreo": Word{Word: "kuaoreo", Def: "predicate: ‘cyan’; ▯ is of cyan colour.", By: "official", Score: 0}, "kuaq": Word{Word: "kuaq", Def: "tủa dủa chà kûq dóshī sa ráı na dóshī jêo dóshī dógū da", By: "uakci", Score: 0}, "kuaq ka.": Word{Word: "kuaq ka.", Def: "elliptical performative", By: "uakci", Score: 0}, "kuaq kie": Word{Word: "kuaq kie", Def: "predicate: ‘thank’; ▯ thanks ▯.", By: "official", Score: 0}, "kuaq kie ji ka.": Word{Word: "kuaq kie ji ka.", Def: "(A0236) I hereby display my gratefulness.", By: "examples", Score: 0}, "kuaq kie suq ho ba.": Word{Word: "kuaq kie suq ho ba.", Def: "(A0235) You ought to be grateful to him.", By: "examples", Score: 0}, "kuaq kuai muaq ho chaqtu ca noilie da.": Word{Word: "kuaq kuai muaq ho chaqtu ca noilie da.", Def: "(A0972) Painfully, he/she shows urge to be dead every day.", By: "examples", Score: 0}, "kuaq sheo": Word{Word: "kuaq sheo", Def: "predicate: ▯ apologizes to ▯.", By: "official", Score: 0}, "kuaq sheo ji ka.": Word{Word: "kuaq sheo ji ka.", Def: "(A0238) I hereby display my regret.", By: "examples", Score: 0}, "kuaq taijai": Word{Word: "kuaq taijai", Def: "congratulate", By: "spreadsheet", Score: -1}, "kuaqba": Word{Word: "kuaqba", Def: "▯ challenges ▯ to do ▯.", By: "Ilmen", Score: 0}, "kuaqgi": Word{Word: "kuaqgi", Def: "▯ is sincere in expressing property ▯.", By: "Ilmen", Score: 0}, "kuaqni": Word{Word: "kuaqni", Def: "Pointing demonstrative", By: "spreadsheet", Score: 0}, "kuasu": Word{Word: "kuasu", Def: "▯ is kvass (a type of traditional fermented Russian no- or low-alcohol beverage, made from bread, often flavored with fruit).", By: "Hoemai", Score: 0}, "kuba": Word{Word: "kuba", Def: "▯ pertains to the culture of Cuba – Republic of Cuba.", By: "countries", Score: 0}, "kubagua": Word{Word: "kubagua", Def: "▯ is the country Cuba – Republic of Cuba.", By: "countries", Score: 0}, "kubatoaq": Word{Word: "kubatoaq", Def: "▯ is (one of) the language(s) spoken in Cuba – Republic of Cuba.", By: "countries", Score: 0}, "kudefi": Word{Word: "kudefi", Def: "▯ says ▯ telephonically to ▯.", By: "uakci", Score: 0}, "kudo": Word{Word: "kudo", Def: "▯ gives kudos to ▯; ▯ sums up ▯’s helpful effort in a thank-you.", By: "uakci", Score: 0}, "kue": Word{Word: "kue", Def: "mẻ dóshī sa bóe, na ru lẻ kâı sa ráı sa ráı dóshī da", By: "uakci", Score: 0}, "kue ...m... pa neo toqfua.": Word{Word: "kue ...m... pa neo toqfua.", Def: "(IJC.1) The book is, er, on the table.", By: "official", Score: 0}, "kueboe": Word{Word: "kueboe", Def: "page", By: "spreadsheet", Score: 0}, "kuecea": Word{Word: "kuecea", Def: "▯ is a book-bag", By: "fagri", Score: 0}, "kuechua": Word{Word: "kuechua", Def: "▯ is the title of a book", By: "seaqtaq", Score: 0}, "kuejio": Word{Word: "kuejio", Def: "predicate: ‘library’; ▯ is a library.", By: "official", Score: 0}, "kuemui": Word{Word: "kuemui", Def: "▯ is the definition of ▯", By: "seaqtaq", Score: 0}, "kuepaq": Word{Word: "kuepaq", Def: "(fork of #n6bXVbhwV) ▯ is a chapter; ▯ is a chapter of book ▯.", By: "solpahi", Score: 0}, "kuepo": Word{Word: "kuepo", Def: "▯ is a vagina.", By: "Hoemai", Score: 0}, "kueq": Word{Word: "kueq", Def: "predicate: ‘gather’; ▯ (plural) gather/collect at locus ▯ (intransitive and non-agentive).", By: "official", Score: 0}, "kueq mori gue rea su deaq da.": Word{Word: "kueq mori gue rea su deaq da.", Def: "(A0960) Ants gathers at corner of floor.", By: "examples", Score: 0}, "kueqtua": Word{Word: "kueqtua", Def: "predicate: ‘collect’; ▯ collects/gathers ▯ (plural) at locus ▯.", By: "official", Score: 0}, "kueshuo": Word{Word: "kueshuo", Def: "predicate: ‘library’; ▯ is a library.", By: "official", Score: 0}, "kuetie": Word{Word: "kuetie", Def: "▯ is a book cover; ▯ is a book cover of book ▯.", By: "Hoemai", Score: 0}, "kufai": Word{Word: "kufai", Def: "▯ pertains to the culture of Kuwait – State of Kuwait.", By: "countries", Score: 0}, "kufaigua": Word{Word: "kufaigua", Def: "▯ is the country Kuwait – State of Kuwait.", By: "countries", Score: 0}, "kufaitoaq": Word{Word: "kufaitoaq", Def: "▯ is (one of) the language(s) spoken in Kuwait – State of Kuwait.", By: "countries", Score: 0}, "kui": Word{Word: "kui", Def: "preposition: \"because\"", By: "official", Score: 0}, "kui hi rai bi bu guai suq moq.": Word{Word: "kui hi rai bi bu guai suq moq.", Def: "(A0086) Why aren't you working?", By: "examples", Score: 0}, "kui hi rai bi bu kuaq sheo suq moq.": Word{Word: "kui hi rai bi bu kuaq sheo suq moq.", Def: "(A0237) Why aren't you sorry?", By: "examples", Score: 0}, "kui hi rai bi meo suq moq.": Word{Word: "kui hi rai bi meo suq moq.", Def: "(A0297) Why are you sad?", By: "examples", Score: 0}, "kui hi rai bi nu choaijaq maq moq": Word{Word: "kui hi rai bi nu choaijaq maq moq", Def: "(A0528) Why is it that expensive?", By: "examples", Score: 0}, "kui hi rai bi nu choaijaq ni haq moq.": Word{Word: "kui hi rai bi nu choaijaq ni haq moq.", Def: "(A0118) Why is this food so expensive?", By: "examples", Score: 0}, "kui jeaqcao bi ceo rua ti sa pui da.": Word{Word: "kui jeaqcao bi ceo rua ti sa pui da.", Def: "(A0214) Because it's spring, flowers are popping up all over the place.", By: "examples", Score: 0}, "kui shaikuai bi sue shoe ji suq bu huogai ka.": Word{Word: "kui shaikuai bi sue shoe ji suq bu huogai ka.", Def: "(A0989) ", By: "examples", Score: 0}, "kuifieq": Word{Word: "kuifieq", Def: "▯ rationalises (rationalizes) ▯; ▯ explains to themselves that ▯ was caused by ▯.", By: "uakci", Score: 0}, "kuigiq": Word{Word: "kuigiq", Def: "▯ is the case despite ▯ being the case", By: "seaqtaq", Score: 0}, "kuigiqbu": Word{Word: "kuigiqbu", Def: "despite", By: "spreadsheet", Score: 0}, "kuihi": Word{Word: "kuihi", Def: "Why is ▯ the case?", By: "Ilmen", Score: 0}, "kuimiu": Word{Word: "kuimiu", Def: "(fork of #lGsq5NaFt) ▯ concludes that ▯ is the case", By: "seaqtaq", Score: 0}, "kuitao cu": Word{Word: "kuitao cu", Def: "goal", By: "spreadsheet", Score: 0}, "kuitue": Word{Word: "kuitue", Def: "predicate: ‘reason’; ▯ is a reason why ▯ is the case.", By: "official", Score: 0}, "kuku": Word{Word: "kuku", Def: "▯ is a typical cuckoo (Cuculus genus).", By: "Ilmen", Score: 0}, "kulo": Word{Word: "kulo", Def: "mosquito", By: "spreadsheet", Score: 0}, "kune": Word{Word: "kune", Def: "dog", By: "spreadsheet", Score: 0}, "kunechoa": Word{Word: "kunechoa", Def: "▯ barks (▯)", By: "seaqtaq", Score: 0}, "kunechoa sa kune": Word{Word: "kunechoa sa kune", Def: "(B0003) Dogs bark", By: "examples", Score: 0}, "kunecie": Word{Word: "kunecie", Def: "shark", By: "spreadsheet", Score: 0}, "kunemuse": Word{Word: "kunemuse", Def: "▯ is a prairie dog.", By: "Ilmen", Score: 0}, "kunetei": Word{Word: "kunetei", Def: "▯ belongs to the Caniformia taxonomic suborder.", By: "Ilmen", Score: 0}, "kuniq": Word{Word: "kuniq", Def: "rabbit", By: "spreadsheet", Score: -1}, "kunu": Word{Word: "kunu", Def: "culture", By: "spreadsheet", Score: -1}, "kuo": Word{Word: "kuo", Def: "rẻo sa cía lủ hẻq hóa sa gío bỉaq pủı na dóshī da", By: "uakci", Score: 0}, "kuochai": Word{Word: "kuochai", Def: "▯ is black tea.", By: "uakci", Score: 0}, "kuohuohua": Word{Word: "kuohuohua", Def: "▯ is a caracal.", By: "Ilmen", Score: 0}, "kuoi": Word{Word: "kuoi", Def: "= gıq #hủaq", By: "uakci", Score: 0}, "kuoi shueq ni rioq riqchai da.": Word{Word: "kuoi shueq ni rioq riqchai da.", Def: "(A0946) This type of green tea is less bitter.", By: "examples", Score: 0}, "kuoi soe ni rioq kafe da.": Word{Word: "kuoi soe ni rioq kafe da.", Def: "(A0947) This type of coffee is less sour.", By: "examples", Score: 0}, "kuoifaq": Word{Word: "kuoifaq", Def: "(fork of #P3HJeyfzI) ▯ elapses for less than ▯ (period of time)", By: "seaqtaq", Score: 0}, "kuoilemiu": Word{Word: "kuoilemiu", Def: "▯ underestimates how much ▯ is the case.", By: "Ilmen", Score: 0}, "kuoimea": Word{Word: "kuoimea", Def: "▯ is the minority of ▯", By: "seaqtaq", Score: 0}, "kuojeoq": Word{Word: "kuojeoq", Def: "▯ is a black hole.", By: "Ilmen", Score: 0}, "kuonoqneaq": Word{Word: "kuonoqneaq", Def: "▯_ is pepper", By: "seaqtaq", Score: 0}, "kuonoqpio": Word{Word: "kuonoqpio", Def: "(fork of #TUowVe6em) ▯_ is pepper", By: "seaqtaq", Score: 0}, "kuonoqsai": Word{Word: "kuonoqsai", Def: "(fork of #TUowVe6em) ▯_ is pepper", By: "seaqtaq", Score: 0}, "kuoq": Word{Word: "kuoq", Def: "predicate: ‘bone’; ▯ is a bone.", By: "official", Score: 0}, "kuoqbo": Word{Word: "kuoqbo", Def: "▯ is a vertebrate.", By: "Ilmen", Score: 0}, "kuoqbuq": Word{Word: "kuoqbuq", Def: "beak", By: "spreadsheet", Score: -1}, "kuoqcia": Word{Word: "kuoqcia", Def: "(fork of #qsUddqLYg) ▯ is an invertebrate.", By: "seaqtaq", Score: 0}, "kuoqhuna": Word{Word: "kuoqhuna", Def: "▯ is cartilage.", By: "Ilmen", Score: 0}, "kuoqhunacie": Word{Word: "kuoqhunacie", Def: "▯ is a cartilaginous fish (Chondrichthyes).", By: "Ilmen", Score: 0}, "kuoqme": Word{Word: "kuoqme", Def: "▯ is a skeleton.", By: "Ilmen", Score: 0}, "kuoqniai": Word{Word: "kuoqniai", Def: "vertebrate", By: "spreadsheet", Score: -1}, "kuoqsai": Word{Word: "kuoqsai", Def: "▯ is bone (material).", By: "lynn", Score: 1}, "kuoreo": Word{Word: "kuoreo", Def: "predicate: ‘black’; ▯ is of black colour.", By: "official", Score: 0}, "kuoreo ni kafe da.": Word{Word: "kuoreo ni kafe da.", Def: "(A0194) This coffee is black.", By: "examples", Score: 0}, "kuoreo poji bikini da.": Word{Word: "kuoreo poji bikini da.", Def: "(A0102) My bikini is black.", By: "examples", Score: 0}, "kuoriba": Word{Word: "kuoriba", Def: "▯ is a blackcurrant (Ribes nigrum).", By: "Hoemai", Score: 0}, "kuoshuao": Word{Word: "kuoshuao", Def: "▯ is a crow", By: "fagri", Score: 0}, "kuq": Word{Word: "kuq", Def: "predicate: ‘say’; ▯ says ▯ to ▯.", By: "official", Score: 0}, "kuq ho mia ca da.": Word{Word: "kuq ho mia ca da.", Def: "(A0838) He spoke, causing many things to happen.", By: "examples", Score: 0}, "kuq suq sa rai ba.": Word{Word: "kuq suq sa rai ba.", Def: "(A0229) Say something.", By: "examples", Score: 0}, "kuqcheu": Word{Word: "kuqcheu", Def: "▯ tells lie ▯ (quote).", By: "Ilmen", Score: -1}, "kuqchi": Word{Word: "kuqchi", Def: "hear that (hearsay, indirect information), ti'erna", By: "spreadsheet", Score: 0}, "kuqcu": Word{Word: "kuqcu", Def: "That ▯ was said to ▯; It was said to (x2) that (x1).", By: "uakci", Score: 0}, "kuqcuji": Word{Word: "kuqcuji", Def: "As it was said to me, ▯. [evidentiality]", By: "uakci", Score: 0}, "kuqgai": Word{Word: "kuqgai", Def: "▯ knows ▯ from hearsay.", By: "uakci", Score: 1}, "kuqgo": Word{Word: "kuqgo", Def: "That ▯ was said by ▯; ▯ is as ▯ said it.", By: "uakci", Score: 0}, "kuqhiao": Word{Word: "kuqhiao", Def: "▯ insults ▯.", By: "lynn", Score: 0}, "kuqhui": Word{Word: "kuqhui", Def: "▯ tells the lie ▯.", By: "Ilmen", Score: 0}, "kuqkai": Word{Word: "kuqkai", Def: "▯ transcribes text ▯", By: "seaqtaq", Score: 0}, "kuqmia": Word{Word: "kuqmia", Def: "It is alleged that ▯; ▯ is alleged to ▯/1. [JEO]", By: "uakci", Score: -1}, "kuqmoi": Word{Word: "kuqmoi", Def: "▯ says ▯ in his/her/their mind; ▯ thinks ▯ (quote).", By: "Ilmen", Score: 1}, "kuqmuo": Word{Word: "kuqmuo", Def: "▯ is done talking; ▯ has said everything they had to say so far.", By: "uakci", Score: 0}, "kuqnu": Word{Word: "kuqnu", Def: "(fork of #4sR7f97iF) ▯ is said/alleged to be so; ▯ allegedly (\"so they say\") satisfies property ▯.", By: "uakci", Score: 1}, "kuqse": Word{Word: "kuqse", Def: "predicate: ‘text’; ▯ is text (spoken or written).", By: "official", Score: 0}, "kuqshao": Word{Word: "kuqshao", Def: "meant to say, skudji", By: "spreadsheet", Score: 0}, "kuqtoai": Word{Word: "kuqtoai", Def: "predicate: ‘sentence’; ▯ is a sentence.", By: "official", Score: 0}, "kuraisu": Word{Word: "kuraisu", Def: "Christ", By: "uakci", Score: 0}, "kusu": Word{Word: "kusu", Def: "▯ is a member of genus Cucurbita (squashes, gourds, pumpkins).", By: "Hoemai", Score: 0}, "la": Word{Word: "la", Def: "incidental: ‘meta’; begin meta clause; makes a comment about the containing sentence (text not content).", By: "official", Score: 0}, "la chi na": Word{Word: "la chi na", Def: "as far as I know; if I’m not mistaken; as I believe", By: "uakci", Score: 0}, "la chio bi che chaocaq ji.": Word{Word: "la chio bi che chaocaq ji.", Def: "(A0458) I repeat: I am a chauffeur.", By: "examples", Score: 0}, "la hiaodairuaqse na: dai heq go toai hea kasi da.": Word{Word: "la hiaodairuaqse na: dai heq go toai hea kasi da.", Def: "(A0625) Warning: may contain trace amounts of nuts.", By: "examples", Score: 0}, "la juai": Word{Word: "la juai", Def: "to be honest; in all honesty; to be serious", By: "uakci", Score: 0}, "la muijeq": Word{Word: "la muijeq", Def: "“To say something that means the same thing…” (→ implied: “In other words…”)", By: "lynn", Score: 0}, "la toaheo": Word{Word: "la toaheo", Def: "In other words, …", By: "Ilmen", Score: 0}, "la toese": Word{Word: "la toese", Def: "\"and so on\", \"et cetera\"", By: "lynn", Score: 0}, "labi": Word{Word: "labi", Def: "lion", By: "spreadsheet", Score: 0}, "labipada": Word{Word: "labipada", Def: "▯ is a spotted small cat of the Leopardus genus.", By: "Ilmen", Score: 0}, "lageria": Word{Word: "lageria", Def: "▯ pertains to the culture of Algeria – People's Democratic Republic of Algeria.", By: "countries", Score: 0}, "lageriagua": Word{Word: "lageriagua", Def: "▯ is the country Algeria – People's Democratic Republic of Algeria.", By: "countries", Score: 0}, "lageriatoaq": Word{Word: "lageriatoaq", Def: "▯ is (one of) the language(s) spoken in Algeria – People's Democratic Republic of Algeria.", By: "countries", Score: 0}, "lago": Word{Word: "lago", Def: "rabbit", By: "spreadsheet", Score: -1}, "lai": Word{Word: "lai", Def: "dảı gâı sa póq dóshī na ru mûı sa dógū dóshī da", By: "uakci", Score: 0}, "laiboe": Word{Word: "laiboe", Def: "▯ is a flag.", By: "Ilmen", Score: 0}, "laiciuse": Word{Word: "laiciuse", Def: "▯ is a hormone.", By: "lynn", Score: 0}, "laihaqji": Word{Word: "laihaqji", Def: "▯ is a Chinese character / Han character.", By: "lynn", Score: 0}, "laijeq": Word{Word: "laijeq", Def: "▯ is homographs with ▯", By: "seaqtaq", Score: 0}, "laikoekea": Word{Word: "laikoekea", Def: "▯ is a keyboard ", By: "seaqtaq", Score: 0}, "laime": Word{Word: "laime", Def: "(fork of #iyyJWvFwY) ▯ is a code\u00a0", By: "seaqtaq", Score: 0}, "lairioi": Word{Word: "lairioi", Def: "▯ is a label/tag", By: "seaqtaq", Score: 0}, "laitei": Word{Word: "laitei", Def: "▯ is a letterform.", By: "lynn", Score: 0}, "laiteime": Word{Word: "laiteime", Def: "▯ is a font or typeface.", By: "lynn", Score: 0}, "laketa": Word{Word: "laketa", Def: "▯ is a member of genus Alligator.SUBMIT", By: "Hoemai", Score: 0}, "laki": Word{Word: "laki", Def: "jgalu (nail/claw)", By: "spreadsheet", Score: -1}, "lama": Word{Word: "lama", Def: "▯ is a llama.", By: "Ilmen", Score: 0}, "lana": Word{Word: "lana", Def: "side", By: "spreadsheet", Score: -1}, "lao": Word{Word: "lao", Def: "rào hâıgīq dógū pa, bủ tảo dóshī sa ráı da", By: "uakci", Score: 0}, "lao ba.": Word{Word: "lao ba.", Def: "(A0257) Wait.", By: "examples", Score: 0}, "lao ji lu joafao da.": Word{Word: "lao ji lu joafao da.", Def: "(A0183) I am waiting for the weekend.", By: "examples", Score: 0}, "lao ji ti sa poq da.": Word{Word: "lao ji ti sa poq da.", Def: "(A0543) I'm waiting for some people to be here.", By: "examples", Score: 0}, "lao tu poq ba.": Word{Word: "lao tu poq ba.", Def: "(ILL.6) Everybody should wait.", By: "official", Score: 0}, "laocai": Word{Word: "laocai", Def: "patient (adj)", By: "spreadsheet", Score: -1}, "laocaicia": Word{Word: "laocaicia", Def: "▯ is impatient", By: "fagri", Score: 0}, "laocaiciajaqjaq": Word{Word: "laocaiciajaqjaq", Def: "▯ has had it up to *here* with ▯ (0)", By: "fagri", Score: -1}, "laocaiciajaqni": Word{Word: "laocaiciajaqni", Def: "▯ has had it up to *here* with ▯ (0)", By: "fagri", Score: 0}, "laochoa": Word{Word: "laochoa", Def: "▯ stutters/hesitates.", By: "uakci", Score: 0}, "laogiu": Word{Word: "laogiu", Def: "▯ is a queue/line of persons waiting for ▯ to be the case.", By: "Hoemai", Score: 0}, "laojai": Word{Word: "laojai", Def: "▯ looks forward to ▯; ▯ is in joyful anticipation of ▯.", By: "Ilmen", Score: 0}, "laojoe": Word{Word: "laojoe", Def: "▯ is patient.", By: "Ilmen", Score: 0}, "laolai": Word{Word: "laolai", Def: "ellipsis (…)", By: "uakci", Score: 0}, "laona": Word{Word: "laona", Def: "clown", By: "spreadsheet", Score: 0}, "laoni": Word{Word: "laoni", Def: "clown", By: "spreadsheet", Score: 0}, "laonieq": Word{Word: "laonieq", Def: "▯ is impatient.", By: "Ilmen", Score: 0}, "laorue": Word{Word: "laorue", Def: "▯ is impatient.", By: "Ilmen", Score: 0}, "laotaq": Word{Word: "laotaq", Def: "▯(file, game) loads", By: "seaqtaq", Score: 0}, "lapi": Word{Word: "lapi", Def: "horn / jirna", By: "spreadsheet", Score: 0}, "lapipo": Word{Word: "lapipo", Def: "deer", By: "spreadsheet", Score: 0}, "laq": Word{Word: "laq", Def: "= kıu #hủogāı", By: "uakci", Score: 0}, "laqcai": Word{Word: "laqcai", Def: "cảı dóshī lảq da", By: "uakci", Score: 0}, "laqda": Word{Word: "laqda", Def: "▯ is a lambda function (anonymous function; abstraction with open places like #lî).", By: "uakci", Score: 0}, "laqdiu": Word{Word: "laqdiu", Def: "▯ is the field of acoustics (physics)", By: "seaqtaq", Score: 0}, "laqfia": Word{Word: "laqfia", Def: "▯ pertains to the culture of Latvia – Republic of Latvia.", By: "countries", Score: 0}, "laqfiagua": Word{Word: "laqfiagua", Def: "▯ is the country Latvia – Republic of Latvia.", By: "countries", Score: 0}, "laqfiatoaq": Word{Word: "laqfiatoaq", Def: "▯ is (one of) the language(s) spoken in Latvia – Republic of Latvia.", By: "countries", Score: 0}, "laqgea": Word{Word: "laqgea", Def: "▯ is a high-pitched sound.", By: "Ilmen", Score: 0}, "laqgeatei": Word{Word: "laqgeatei", Def: "▯ is a pitch-contour, tune or melody.", By: "Ilmen", Score: 1}, "laqgeateilai": Word{Word: "laqgeateilai", Def: "▯ is a tone mark.", By: "Ilmen", Score: 0}, "laqgia": Word{Word: "laqgia", Def: "predicate: ‘tape’; ▯ is an audio tape.", By: "official", Score: 0}, "laqjeq": Word{Word: "laqjeq", Def: "▯ is homophonous with ▯", By: "seaqtaq", Score: 0}, "laqkea": Word{Word: "laqkea", Def: "▯ is a speaker", By: "seaqtaq", Score: 0}, "laqkeafuq": Word{Word: "laqkeafuq", Def: "▯ is headphones or earbuds", By: "fagri", Score: 0}, "laqko": Word{Word: "laqko", Def: "▯ carries the X-th tone ▯, where X is the cardinality of any ▯-er.\u00a0", By: "uakci", Score: 0}, "laqkue": Word{Word: "laqkue", Def: "predicate: ‘audiobook’; ▯ is an audiobook.", By: "official", Score: 0}, "laqlaq": Word{Word: "laqlaq", Def: "▯ is a famous male pianist.", By: "uakci", Score: 0}, "laqleoq": Word{Word: "laqleoq", Def: "▯ are earplugs/earmuffs/anything used to protect he ears from excessive and or unwanted noise ", By: "seaqtaq", Score: 0}, "laqli": Word{Word: "laqli", Def: "analyse", By: "spreadsheet", Score: -1}, "laqnia": Word{Word: "laqnia", Def: "▯ is a low-pitched sound.", By: "Ilmen", Score: 0}, "laqnueq": Word{Word: "laqnueq", Def: "echo (v)", By: "spreadsheet", Score: 0}, "laqnuoq": Word{Word: "laqnuoq", Def: "▯ is an echo.", By: "Ilmen", Score: 0}, "laqrue": Word{Word: "laqrue", Def: "quiet", By: "uakci", Score: -1}, "laqshuo": Word{Word: "laqshuo", Def: "▯ is a phonetic inventory", By: "seaqtaq", Score: 0}, "laqtei": Word{Word: "laqtei", Def: "▯ is the pitch contour of sound ▯.", By: "lynn", Score: 0}, "laqteitoaq": Word{Word: "laqteitoaq", Def: "▯ is a tonal language.", By: "lynn", Score: 0}, "lasi": Word{Word: "lasi", Def: "plastic", By: "spreadsheet", Score: -1}, "le": Word{Word: "le", Def: "pủı sa túq tủe shě dóshī hóa da", By: "uakci", Score: 0}, "le jia bu fa ho da.": Word{Word: "le jia bu fa ho da.", Def: "(A0440) She probably won't go.", By: "examples", Score: 0}, "le jia bu jai ho da.": Word{Word: "le jia bu jai ho da.", Def: "(A0438) He probably won't be happy.", By: "examples", Score: 0}, "lea": Word{Word: "lea", Def: "predicate: ‘art’; ▯ is art.", By: "official", Score: 0}, "leache": Word{Word: "leache", Def: "predicate: ‘artist’; ▯ is an artist.", By: "official", Score: 0}, "leagi": Word{Word: "leagi", Def: "▯ is of good quality.", By: "uakci", Score: 0}, "leagikuai": Word{Word: "leagikuai", Def: "▯ is a perfectionist; ▯ strives for the quality of ▯.", By: "uakci", Score: 0}, "leajuq": Word{Word: "leajuq", Def: "▯ is dedicated to ▯", By: "fagri", Score: -1}, "leaq": Word{Word: "leaq", Def: "predicate: ‘adjacent’; ▯ is adjacent to ▯ in property ▯.", By: "official", Score: 0}, "leaq mu ne dua ji suq gi jiao.": Word{Word: "leaq mu ne dua ji suq gi jiao.", Def: "(A0873) My knowledge that God is good borders yours (either just above or just below in intensity).", By: "examples", Score: 0}, "leaq mu ne joe ho liqho da.": Word{Word: "leaq mu ne joe ho liqho da.", Def: "(A0874) Their skills border hers (either just above or just below).", By: "examples", Score: 0}, "leaq mu ne joe koi ho liqho da.": Word{Word: "leaq mu ne joe koi ho liqho da.", Def: "(A0875) Their skills at walking border hers (either just above or just below).", By: "examples", Score: 0}, "leaq rao hoq sho bia ji da.": Word{Word: "leaq rao hoq sho bia ji da.", Def: "(A0872) It happened right before/after I got sick.", By: "examples", Score: 0}, "leaq rao koi ji na jai ji da.": Word{Word: "leaq rao koi ji na jai ji da.", Def: "(A0871) My walking was right before/after my being happy.", By: "examples", Score: 0}, "leaq ti ji suq da.": Word{Word: "leaq ti ji suq da.", Def: "(A0869) I am right next to you.", By: "examples", Score: 0}, "leaq ti ni piohea ji da.": Word{Word: "leaq ti ni piohea ji da.", Def: "(A0868) This rock is right next to me.", By: "examples", Score: 0}, "leaqbie": Word{Word: "leaqbie", Def: "▯ takes place next after ▯", By: "Ilmen", Score: 0}, "leaqbua": Word{Word: "leaqbua", Def: "▯ is a neighbor of ▯.", By: "Ilmen", Score: 0}, "leaqfia": Word{Word: "leaqfia", Def: "predicate: ‘precede’; ▯ immediately precedes ▯ in sequence ▯.", By: "official", Score: 0}, "leaqshiu": Word{Word: "leaqshiu", Def: "= [00] Shỉu dóshī dógū na ru sıa dósāq bı shỉu dósāq dógū na ru bỉe dósāq dóshī.", By: "Ilmen", Score: 0}, "leaqsie": Word{Word: "leaqsie", Def: "predicate: ‘next’; ▯ immediately follows ▯ in sequence ▯; ▯ is next after ▯ in sequence ▯.", By: "official", Score: 0}, "leaqsiegiq": Word{Word: "leaqsiegiq", Def: "▯ is right before ▯ in sequence ▯", By: "fagri", Score: -3}, "leatiq(me)": Word{Word: "leatiq(me)", Def: "▯ is a mosaic", By: "seaqtaq", Score: 0}, "lebaq": Word{Word: "lebaq", Def: "▯ pertains to the culture of Lebanon – Lebanese Republic.", By: "countries", Score: 0}, "lebaqgua": Word{Word: "lebaqgua", Def: "▯ is the country Lebanon – Lebanese Republic.", By: "countries", Score: 0}, "lebaqtoaq": Word{Word: "lebaqtoaq", Def: "▯ is (one of) the language(s) spoken in Lebanon – Lebanese Republic.", By: "countries", Score: 0}, "leca": Word{Word: "leca", Def: "fauxlu", By: "spreadsheet", Score: 0}, "lecadoa": Word{Word: "lecadoa", Def: "prove", By: "spreadsheet", Score: 0}, "lechi": Word{Word: "lechi", Def: "expect, kanpe", By: "spreadsheet", Score: 0}, "ledua": Word{Word: "ledua", Def: "▯ guesses/loosely assumes/kind of knows that ▯.\u00a0", By: "uakci", Score: 0}, "leho": Word{Word: "leho", Def: "aggressive", By: "spreadsheet", Score: -1}, "lehuaqshe": Word{Word: "lehuaqshe", Def: "fauxlu", By: "spreadsheet", Score: 0}, "lei": Word{Word: "lei", Def: "(fork of official) predicate: ‘uncommon’; ▯ is uncommon/unfrequent in property ▯.", By: "Ilmen", Score: 0}, "lei choaijaq ni da.": Word{Word: "lei choaijaq ni da.", Def: "(A0816) This is uncommonly expensive.", By: "examples", Score: 0}, "lei hiaq bo poq da.": Word{Word: "lei hiaq bo poq da.", Def: "(A0813) The person is rare in being poor.", By: "examples", Score: 0}, "lei jai ji da.": Word{Word: "lei jai ji da.", Def: "(A0810) I'm rare in being happy.", By: "examples", Score: 0}, "lei liu liqdeo da.": Word{Word: "lei liu liqdeo da.", Def: "(A0814) The girl is uncommonly light.", By: "examples", Score: 0}, "lei liu naqdeo da.": Word{Word: "lei liu naqdeo da.", Def: "(A0815) The boy is uncommonly light.", By: "examples", Score: 0}, "lei meoca nijao da.": Word{Word: "lei meoca nijao da.", Def: "(A0817) That's rare in being sad.", By: "examples", Score: 0}, "lei mia pai ho da.": Word{Word: "lei mia pai ho da.", Def: "(A0812) She is rare in being popular.", By: "examples", Score: 0}, "lei moinieq suq da.": Word{Word: "lei moinieq suq da.", Def: "(A0819) You're uncommonly stupid.", By: "examples", Score: 0}, "lei tijao jao da.": Word{Word: "lei tijao jao da.", Def: "(A0818) That far thing is rare in being far away.", By: "examples", Score: 0}, "lei tuoq ni piohea da.": Word{Word: "lei tuoq ni piohea da.", Def: "(A0811) This stone is rare in being heavy.", By: "examples", Score: 0}, "leigiq": Word{Word: "leigiq", Def: "▯ is a confusing joke entry in dictionary/corpus ▯.", By: "uakci", Score: 0}, "lejie": Word{Word: "lejie", Def: "▯ is expected to happen (according to ▯).", By: "uakci", Score: 0}, "lemiu": Word{Word: "lemiu", Def: "expect, kanpe", By: "spreadsheet", Score: 0}, "lemui": Word{Word: "lemui", Def: "interpretation (PAI)", By: "uakci", Score: 0}, "lemuo": Word{Word: "lemuo", Def: "▯ is sure to occur; ▯ is bound to take place/be the case.", By: "uakci", Score: 0}, "lemure": Word{Word: "lemure", Def: "▯ is a ring-tailed lemur.", By: "Ilmen", Score: 0}, "lemuresiu": Word{Word: "lemuresiu", Def: "▯ is a lemur.", By: "Ilmen", Score: 0}, "lene": Word{Word: "lene", Def: "▯ is the probability/likelihood of ▯/0.", By: "lynn", Score: 0}, "lenediu": Word{Word: "lenediu", Def: "▯ is probability theory.", By: "lynn", Score: 0}, "leo": Word{Word: "leo", Def: "▯ is a property; property ▯ is satisfied by ▯.", By: "uakci", Score: -1}, "leo cheo deoq tu poq ba.": Word{Word: "leo cheo deoq tu poq ba.", Def: "(A0576) All people should try to communicate.", By: "examples", Score: 0}, "leo ji soa ja do.": Word{Word: "leo ji soa ja do.", Def: "(PRO.1) I try to help.", By: "official", Score: 0}, "leo soa ji.": Word{Word: "leo soa ji.", Def: "(PRO.2) I try to help.", By: "official", Score: 0}, "leoq": Word{Word: "leoq", Def: "▯ is unlikely/improbable.", By: "uakci", Score: 0}, "leoq(tao)kuai": Word{Word: "leoq(tao)kuai", Def: "▯ is defensive", By: "seaqtaq", Score: 0}, "leoqchea": Word{Word: "leoqchea", Def: "▯ is a helmet.", By: "Ilmen", Score: 0}, "leoqchuo": Word{Word: "leoqchuo", Def: "predicate: ‘shield’; ▯ is a shield.", By: "official", Score: 0}, "leoqhiesiu": Word{Word: "leoqhiesiu", Def: "▯ is a house centipede; ▯ is a member of family Scutigeridae", By: "seaqtaq", Score: 0}, "leoqriaq": Word{Word: "leoqriaq", Def: "▯ is a shelter/refuge/retreat/harbor (protecting against satisfying property ▯).", By: "Ilmen", Score: 0}, "leoqtao": Word{Word: "leoqtao", Def: "▯ protects/defends/guards ▯ against ▯.", By: "Ilmen", Score: 0}, "leoroa": Word{Word: "leoroa", Def: "▯ tries to do ▯ without further thought, that action being an end in itself and not a step in a progressive effort to achieve another goal.", By: "Ilmen", Score: 1}, "lepo": Word{Word: "lepo", Def: "rabbit", By: "spreadsheet", Score: -1}, "leposiu": Word{Word: "leposiu", Def: "▯ is a rabbit/hare.", By: "Ilmen", Score: 0}, "leq": Word{Word: "leq", Def: "predicate: ‘tongue’; ▯ is a tongue.", By: "official", Score: 0}, "leqfuo": Word{Word: "leqfuo", Def: "▯ licks ▯.", By: "Hoemai", Score: 1}, "leqhuai": Word{Word: "leqhuai", Def: "▯ licks ▯ off ▯.", By: "uakci", Score: 0}, "leu": Word{Word: "leu", Def: "particle — import the following foreign word on the first tone (can treat as compound) — the parsing of foreign sounds stops the moment the high tone is abandoned — the place structured is guesstimated or calqued, if only the source language is structured enough to provide for this (Lojban sequential, or English S–DO–IndO–Obl, although this is only a contract between the speaker and the listener and not a formal conversion).", By: "uakci", Score: 0}, "li": Word{Word: "li", Def: "statement prefix: ‘the.property’; statement prefix: turn statement into property", By: "official", Score: 0}, "li chaocaq ja rai sa gusioq pa jaq fui da.": Word{Word: "li chaocaq ja rai sa gusioq pa jaq fui da.", Def: "(A0415) Driving a bicycle is very easy.", By: "examples", Score: 0}, "lia": Word{Word: "lia", Def: "predicate: ‘beside’; ▯ is beside ▯; ▯ is to the side of ▯; ▯ is next to ▯.", By: "official", Score: 0}, "liadao": Word{Word: "liadao", Def: "▯ is a tag; ▯ tags ▯; ▯ is complementary information to object ▯.", By: "uakci", Score: -1}, "liadaodoa": Word{Word: "liadaodoa", Def: "▯ adds supplementary information ▯ on/to ▯; ▯ adds note ▯ for ▯.", By: "uakci", Score: 0}, "liafieq": Word{Word: "liafieq", Def: "▯ invents ▯ in parallel to ▯ (or without knowledge of its existence).", By: "uakci", Score: -1}, "liai": Word{Word: "liai", Def: "predicate: ‘swim’; ▯ swims.", By: "official", Score: 0}, "liaihua": Word{Word: "liaihua", Def: "▯ is a fin (body part).", By: "Ilmen", Score: 0}, "liaihuapue": Word{Word: "liaihuapue", Def: "▯ is a pinniped.", By: "Ilmen", Score: 0}, "liairiaq": Word{Word: "liairiaq", Def: "▯ is a swimming pool", By: "seaqtaq", Score: 0}, "liaishoai": Word{Word: "liaishoai", Def: "▯ is a fin (body part).", By: "Ilmen", Score: 0}, "liajeo": Word{Word: "liajeo", Def: "▯ is parallel to ▯; ▯ and ▯ score differently on scale (property) ▯, but the same on all other scales in set ▯.", By: "uakci", Score: 0}, "liakoi": Word{Word: "liakoi", Def: "▯ crab-walks; ▯ moves to the side", By: "seaqtaq", Score: 0}, "liao": Word{Word: "liao", Def: "predicate: ‘fungus’; ▯ is a fungus/mushroom/mold.", By: "official", Score: 0}, "liaodiu": Word{Word: "liaodiu", Def: "▯ is mycology.", By: "Ilmen", Score: 0}, "liaq": Word{Word: "liaq", Def: "predicate: ‘tuple’; ▯ is a ▯-tuple.", By: "official", Score: 0}, "liaq gu posuq loaq she roe suq da.": Word{Word: "liaq gu posuq loaq she roe suq da.", Def: "(A0942) Your buttocks are a pair if you are healthy.", By: "examples", Score: 0}, "liaqdi": Word{Word: "liaqdi", Def: "Predicate ▯ might take ▯ places; ▯ has as one of its arities ▯.", By: "uakci", Score: 0}, "liaqsa": Word{Word: "liaqsa", Def: "At least one n-tuple satisfies n-ary relation ▯.", By: "uakci", Score: 0}, "liaqsia": Word{Word: "liaqsia", Def: "No n-tuple satisfies n-ary relation ▯.", By: "uakci", Score: 0}, "liaqtu": Word{Word: "liaqtu", Def: "All n-tuples satisfy n-ary relation ▯.", By: "uakci", Score: 0}, "libai": Word{Word: "libai", Def: "▯ makes something satisfying property ▯", By: "fagri", Score: 1}, "libi": Word{Word: "libi", Def: "▯ is true with a quantification domain restricted to what satisfies the property ▯.", By: "Ilmen", Score: 0}, "libo": Word{Word: "libo", Def: "▯ has property ▯.", By: "Ilmen", Score: 0}, "lica": Word{Word: "lica", Def: "having property ▯ causes having property ▯.", By: "Ilmen", Score: 0}, "licagi": Word{Word: "licagi", Def: "satisfying property ▯ is a way/method for satisfying property ▯.", By: "Ilmen", Score: 0}, "lico": Word{Word: "lico", Def: "[N1] lỉcō dóshī dógū tu ráı da\n[N1X]\n  sa dótūq lủ tủq hóa lî ja dó bı to ru jẻo dó dógū to mẻa dó dósāq bı\n    pẻı dóshī dótūq da", By: "uakci", Score: 0}, "lie": Word{Word: "lie", Def: "predicate: ‘experience’; ▯ experiences satisfying property ▯.", By: "official", Score: 0}, "lie ji rao ni loqcao sa pui gi da.": Word{Word: "lie ji rao ni loqcao sa pui gi da.", Def: "(A0266) I'll do a lot of fun things thí summer.", By: "examples", Score: 0}, "liecho": Word{Word: "liecho", Def: "▯ likes to experience satisfying property ▯", By: "seaqtaq", Score: 0}, "liecho ji li kaqsi ja rai baq fuaq da.": Word{Word: "liecho ji li kaqsi ja rai baq fuaq da.", Def: "(A0701) I like looking at pictures", By: "examples", Score: 0}, "liecia": Word{Word: "liecia", Def: "▯ has never experienced satisfying property ▯.", By: "Ilmen", Score: 0}, "liedua": Word{Word: "liedua", Def: "slabu", By: "spreadsheet", Score: 0}, "liejoe": Word{Word: "liejoe", Def: "experienced", By: "spreadsheet", Score: 0}, "lielui": Word{Word: "lielui", Def: "pu'i", By: "spreadsheet", Score: 0}, "liemia": Word{Word: "liemia", Def: "experienced", By: "spreadsheet", Score: 0}, "liemoaq": Word{Word: "liemoaq", Def: "▯ remembers experience ▯.", By: "Ilmen", Score: -2}, "lieq": Word{Word: "lieq", Def: "wedge", By: "spreadsheet", Score: -1}, "lieqgoa": Word{Word: "lieqgoa", Def: "▯ is a corner.", By: "Ilmen", Score: 0}, "lietaqse": Word{Word: "lietaqse", Def: "self", By: "spreadsheet", Score: 0}, "lietufa": Word{Word: "lietufa", Def: "▯ pertains to the culture of Lithuania – Republic of Lithuania.", By: "countries", Score: 0}, "lietufagua": Word{Word: "lietufagua", Def: "▯ is the country Lithuania – Republic of Lithuania.", By: "countries", Score: 0}, "lietufatoaq": Word{Word: "lietufatoaq", Def: "▯ is (one of) the language(s) spoken in Lithuania – Republic of Lithuania.", By: "countries", Score: 0}, "lifieq": Word{Word: "lifieq", Def: "▯ invents something satisfying property ▯.", By: "lynn", Score: 0}, "ligu": Word{Word: "ligu", Def: "solid", By: "spreadsheet", Score: -1}, "ligusiqgiqhuamemuoqsehuamegiubuiseca": Word{Word: "ligusiqgiqhuamemuoqsehuamegiubuiseca", Def: "(fork of official) predicate: ‘defecate’; ▯ defecates/shits.", By: "seaqtaq", Score: -1}, "liheq": Word{Word: "liheq", Def: "Having property ▯ entails having property ▯.", By: "Ilmen", Score: 0}, "lihoi": Word{Word: "lihoi", Def: "▯ is the referent of the most recently mentioned lî-clause.", By: "Ilmen", Score: 0}, "lihoq": Word{Word: "lihoq", Def: "▯ is the property or relation referred to by the previous lı-clause.", By: "Ilmen", Score: 0}, "lijie": Word{Word: "lijie", Def: "Ithkuil's Interpretative Case: X (abstract) is the interpretation of Y as seen by Z", By: "spreadsheet", Score: 0}, "lile": Word{Word: "lile", Def: "violent", By: "spreadsheet", Score: -1}, "lilu": Word{Word: "lilu", Def: "oscillate", By: "spreadsheet", Score: -1}, "limeq": Word{Word: "limeq", Def: "▯ is the limit, for a variable T approaching value ▯ (from either side), of function ▯/2 (f(x) = y iff P(y, x)).", By: "uakci", Score: 0}, "limi": Word{Word: "limi", Def: "▯ is the mathematical limit of the function ▯ as its input approaches the number ▯.", By: "Ilmen", Score: 0}, "line": Word{Word: "line", Def: "▯ is the amount of things that satisfy property ▯", By: "seaqtaq", Score: 0}, "linu": Word{Word: "linu", Def: "▯ is a Linux; ▯ is a Unix system.", By: "uakci", Score: 0}, "lio": Word{Word: "lio", Def: "predicate: ‘left’; ▯ is to the left of ▯.", By: "official", Score: 0}, "lioduo": Word{Word: "lioduo", Def: "predicate: ‘move.left’; ▯ moves leftwards.", By: "official", Score: 0}, "liofeo": Word{Word: "liofeo", Def: "▯ is the west direction", By: "seaqtaq", Score: 0}, "liohoi": Word{Word: "liohoi", Def: "▯ is the former; ▯ is/are the referents of the left part of the conjunction ▯.", By: "uakci", Score: 0}, "liomuqpoq": Word{Word: "liomuqpoq", Def: "▯ is left-handed.", By: "Ilmen", Score: 0}, "liopaq": Word{Word: "liopaq", Def: "predicate: ‘left.part’; ▯ is the left part of ▯.", By: "official", Score: 0}, "lipo": Word{Word: "lipo", Def: "[PO] The arguments to this predicate satisfy the given relation.", By: "uakci", Score: 0}, "lipuine": Word{Word: "lipuine", Def: "ilka'u, kaidza / ▯ is the number of things having property ▯ (among ▯)", By: "spreadsheet", Score: 0}, "liq": Word{Word: "liq", Def: "jủı rủo dóshī sa báq lủ pảq go hóa sa kélēo da", By: "uakci", Score: 0}, "liq baka": Word{Word: "liq baka", Def: "cow", By: "spreadsheet", Score: 0}, "liq boke": Word{Word: "liq boke", Def: "cow", By: "spreadsheet", Score: 0}, "liqdeo": Word{Word: "liqdeo", Def: "predicate: ‘girl’; ▯ is a girl.", By: "official", Score: 0}, "liqfu": Word{Word: "liqfu", Def: "predicate: ‘daughter’; ▯ is a daughter (female biological offspring) of ▯.", By: "official", Score: 0}, "liqgame": Word{Word: "liqgame", Def: "ovum", By: "spreadsheet", Score: 0}, "liqgoso": Word{Word: "liqgoso", Def: "▯ is a hen of genus Gallus; ▯ is a female chicken.", By: "Hoemai", Score: 0}, "liqliq": Word{Word: "liqliq", Def: "▯ is a famous male pianist.", By: "uakci", Score: 0}, "liqpao": Word{Word: "liqpao", Def: "predicate: ‘mother’; ▯ is a mother of ▯; ▯ acts as a mother towards ▯.", By: "official", Score: 0}, "liqpia": Word{Word: "liqpia", Def: "predicate: ‘sister’; ▯ is a sister of ▯.", By: "official", Score: 0}, "liqreq": Word{Word: "liqreq", Def: "predicate: ‘woman’; ▯ is a female human; ▯ is a woman.", By: "official", Score: 0}, "liqroaq": Word{Word: "liqroaq", Def: "predicate: ‘mother’; ▯ is a biological mother of ▯.", By: "official", Score: 0}, "liqseo": Word{Word: "liqseo", Def: "predicate: ‘wife’; ▯ is a wife of ▯.", By: "official", Score: 0}, "liqsi": Word{Word: "liqsi", Def: "chain ()", By: "spreadsheet", Score: -1}, "liqsiunaq": Word{Word: "liqsiunaq", Def: "▯ is an effeminate man.", By: "uakci", Score: 0}, "liqteqtai": Word{Word: "liqteqtai", Def: "▯ pertains to the culture of Liechtenstein – Principality of Liechtenstein.", By: "countries", Score: 0}, "liqteqtaigua": Word{Word: "liqteqtaigua", Def: "▯ is the country Liechtenstein – Principality of Liechtenstein.", By: "countries", Score: 0}, "liqteqtaitoaq": Word{Word: "liqteqtaitoaq", Def: "▯ is (one of) the language(s) spoken in Liechtenstein – Principality of Liechtenstein.", By: "countries", Score: 0}, "lisiu": Word{Word: "lisiu", Def: "▯ is similar to what has the property ▯.", By: "Ilmen", Score: -1}, "liu": Word{Word: "liu", Def: "predicate: ‘light’; ▯ is light in weight.", By: "official", Score: 0}, "liu posuq cea da.": Word{Word: "liu posuq cea da.", Def: "(A0744) Your bag is light.", By: "examples", Score: 0}, "liuloha": Word{Word: "liuloha", Def: "▯ is aluminium.", By: "Ilmen", Score: 0}, "liumiaoloha": Word{Word: "liumiaoloha", Def: "▯ is aluminium.", By: "Ilmen", Score: 0}, "liusoqloha": Word{Word: "liusoqloha", Def: "▯ is lithium.", By: "Ilmen", Score: 0}, "lo": Word{Word: "lo", Def: "[LU] Generates a predicate meaning \"▯ is an instantiation of [the contained predication]\"", By: "fagri", Score: 0}, "loa": Word{Word: "loa", Def: "rẻo sa báq jẻı sa gío kỉarēo roı sa gío mỉorêo dóshī da", By: "uakci", Score: 0}, "loachaq": Word{Word: "loachaq", Def: "predicate: ‘sunday’; ▯ is a Sunday.", By: "official", Score: 0}, "loacuao": Word{Word: "loacuao", Def: "▯ is an ultraviolet color.", By: "Ilmen", Score: 0}, "loai": Word{Word: "loai", Def: "dủo dóshī nảo da", By: "uakci", Score: 0}, "loaidai": Word{Word: "loaidai", Def: "▯ is a fluid.", By: "Ilmen", Score: 0}, "loaidaituao": Word{Word: "loaidaituao", Def: "▯ is semiliquid.", By: "Ilmen", Score: 0}, "loaifua": Word{Word: "loaifua", Def: "▯ is a fountain (artificial structure).", By: "Ilmen", Score: 0}, "loaihua": Word{Word: "loaihua", Def: "▯ is a heart.", By: "Ilmen", Score: 0}, "loaikea": Word{Word: "loaikea", Def: "▯ is a pump.", By: "Ilmen", Score: 0}, "loaimeoq": Word{Word: "loaimeoq", Def: "= #meoq #lỏaı", By: "uakci", Score: 0}, "loairiai": Word{Word: "loairiai", Def: "▯ is a fountain (artificial structure).", By: "Ilmen", Score: 0}, "loaisai": Word{Word: "loaisai", Def: "(fork of #cITn2BsKx) ▯ is a fluid.", By: "seaqtaq", Score: 0}, "loaishua": Word{Word: "loaishua", Def: "▯ pours onto ▯ from ▯.", By: "Ilmen", Score: 0}, "loaishueq": Word{Word: "loaishueq", Def: "▯ is a base", By: "seaqtaq", Score: 0}, "loaitua": Word{Word: "loaitua", Def: "▯ is a lung", By: "seaqtaq", Score: 0}, "loaniu": Word{Word: "loaniu", Def: "▯ is a violet; ▯ is a plant of genus Viola.", By: "uakci", Score: 0}, "loao": Word{Word: "loao", Def: "[PO] property ▯ is satisfied by [complement]", By: "fagri", Score: 0}, "loaq": Word{Word: "loaq", Def: "predicate: ‘buttocks’; ▯ is a buttocks/ass/behind.", By: "official", Score: 0}, "loaqjeoq": Word{Word: "loaqjeoq", Def: "▯ is an asscrack/ buttcrack", By: "seaqtaq", Score: 0}, "loaqtia": Word{Word: "loaqtia", Def: "▯ is a city with poor transport options; ▯ is an inconvenient place to be/live in.", By: "uakci", Score: 0}, "loareo": Word{Word: "loareo", Def: "predicate: ‘purple’; ▯ is of purple colour.", By: "official", Score: 0}, "loashoai": Word{Word: "loashoai", Def: "▯ is a member of genus Phoenicopterus (the flamingos).", By: "Hoemai", Score: 0}, "loe": Word{Word: "loe", Def: "(fork of #dxqdTmqwa) ▯ is a property; property ▯ is satisfied by ▯.", By: "uakci", Score: -2}, "loefua": Word{Word: "loefua", Def: "▯ is a wood-burner / wood stove.", By: "Ilmen", Score: 0}, "loehaq": Word{Word: "loehaq", Def: "▯ is fuel; ▯ is a combustible.", By: "Ilmen", Score: 0}, "loehieqchuo": Word{Word: "loehieqchuo", Def: "▯ is a flame thrower", By: "seaqtaq", Score: 0}, "loemei": Word{Word: "loemei", Def: "▯ is a volcano.", By: "Hoemai", Score: 1}, "loenao": Word{Word: "loenao", Def: "▯ is lava", By: "seaqtaq", Score: 0}, "loepio": Word{Word: "loepio", Def: "▯ is coal.", By: "Ilmen", Score: 0}, "loepoai": Word{Word: "loepoai", Def: "▯ is ember.", By: "Ilmen", Score: 0}, "loereobo": Word{Word: "loereobo", Def: "▯ is a bullfinch (genus Pyrrhula).", By: "Hoemai", Score: 0}, "loeriaq": Word{Word: "loeriaq", Def: "▯ is a fireplace.", By: "Ilmen", Score: 0}, "loeshuao": Word{Word: "loeshuao", Def: "▯ is a phoenix.", By: "Hoemai", Score: 0}, "logaq": Word{Word: "logaq", Def: "▯ is the main branch of the logarithm function; ▯ = ln ▯.", By: "uakci", Score: 0}, "logiq": Word{Word: "logiq", Def: "▯ is the exponential function; ▯ = e^ ▯.", By: "uakci", Score: 0}, "loha": Word{Word: "loha", Def: "▯ is metal.", By: "Ilmen", Score: 0}, "lohaluai": Word{Word: "lohaluai", Def: "▯ is ironic; ▯ is funny in how it turns out or was said with the intention of being contrary to one’s expectation.", By: "uakci", Score: 0}, "loi": Word{Word: "loi", Def: "jảq bủ chỏ dóshī dógū, na ru cả môı dóshī dógū na mêo ra fẻı dóshī da", By: "uakci", Score: 0}, "loi ji baq kiachaq da.": Word{Word: "loi ji baq kiachaq da.", Def: "(A0271) I hate mondays.", By: "examples", Score: 0}, "loi ji baq ni, la cuakuq da.": Word{Word: "loi ji baq ni, la cuakuq da.", Def: "(A0459) I hate these things, *in response*.", By: "examples", Score: 0}, "loi ji daqmiq suq.": Word{Word: "loi ji daqmiq suq.", Def: "(ADV.4) I hate you eternally.", By: "official", Score: 0}, "loifea": Word{Word: "loifea", Def: "▯ puts up with ▯; ▯ tolerates ▯’s presence despite not endorsing it.", By: "uakci", Score: 0}, "loikuaq": Word{Word: "loikuaq", Def: "curse (v)", By: "spreadsheet", Score: 0}, "loimujuo": Word{Word: "loimujuo", Def: "▯ is spam.", By: "uakci", Score: 0}, "loji": Word{Word: "loji", Def: "logic", By: "spreadsheet", Score: 0}, "lojibaq": Word{Word: "lojibaq", Def: "predicate: ‘Lojban’; ▯ is the Lojban language.", By: "official", Score: 0}, "lojibaqhui": Word{Word: "lojibaqhui", Def: "▯ is bad because it's too Lojban-esque.", By: "lynn", Score: 0}, "lojijeo": Word{Word: "lojijeo", Def: "▯ is true under the logical system ▯ (axioms).", By: "Ilmen", Score: 0}, "loq": Word{Word: "loq", Def: "jẻo dóshī sa lú rảq hóa sa báq lỏe da", By: "uakci", Score: 0}, "loq jeaq kua da.": Word{Word: "loq jeaq kua da.", Def: "(A0203) The room is increasingly warm.", By: "examples", Score: 0}, "loq(nemieq)chuo": Word{Word: "loq(nemieq)chuo", Def: "▯ is a thermometer", By: "seaqtaq", Score: 0}, "loqcao": Word{Word: "loqcao", Def: "predicate: ‘summer’; ▯ is summer.", By: "official", Score: 0}, "loqcioi": Word{Word: "loqcioi", Def: "▯ bakes ▯", By: "seaqtaq", Score: 0}, "loqhaq": Word{Word: "loqhaq", Def: "▯ is brewed food.", By: "uakci", Score: 0}, "loqhaqbai": Word{Word: "loqhaqbai", Def: "▯ brews food ▯.", By: "uakci", Score: 0}, "loqkea": Word{Word: "loqkea", Def: "predicate: ‘heater’; ▯ is a heater.", By: "official", Score: 0}, "loqloaidai": Word{Word: "loqloaidai", Def: "▯ is molten.", By: "Ilmen", Score: 0}, "loqmei": Word{Word: "loqmei", Def: "volcano", By: "spreadsheet", Score: -1}, "loqne": Word{Word: "loqne", Def: "▯ is the temperature of ▯.", By: "Ilmen", Score: 0}, "loqsa": Word{Word: "loqsa", Def: "▯ is a jaguar (Panthera onca).", By: "Hoemai", Score: 0}, "lu": Word{Word: "lu", Def: "statement prefix: ‘that’; statement prefix: turn statement into predicate", By: "official", Score: 0}, "lu bua hoa juqguo pa, huaqpui giga da.": Word{Word: "lu bua hoa juqguo pa, huaqpui giga da.", Def: "(A0410) The inhabitants of China are more than a billion.", By: "examples", Score: 0}, "lu leaqbua hoa ji pa pao sa saq fu da.": Word{Word: "lu leaqbua hoa ji pa pao sa saq fu da.", Def: "(A0272) My neighbors are parents of 3.", By: "examples", Score: 0}, "lu mai ji hoa cei suq da.": Word{Word: "lu mai ji hoa cei suq da.", Def: "(A0545) You are such that I like you.", By: "examples", Score: 0}, "lua": Word{Word: "lua", Def: "predicate: ‘story’; ▯ is a story.", By: "official", Score: 0}, "luafaq": Word{Word: "luafaq", Def: "▯ is the plot of story ▯", By: "fagri", Score: 0}, "luai": Word{Word: "luai", Def: "predicate: ‘funny’; ▯ is funny/comical.", By: "official", Score: 0}, "luai ni chea da.": Word{Word: "luai ni chea da.", Def: "(A0047) This hat is funny.", By: "examples", Score: 0}, "luaiche": Word{Word: "luaiche", Def: "▯ is a humorist/comedian/clown/jester.", By: "Ilmen", Score: 0}, "luaikuq": Word{Word: "luaikuq", Def: "joke ⓥ", By: "spreadsheet", Score: 0}, "luailua": Word{Word: "luailua", Def: "predicate: ‘joke’; ▯ is a joke.", By: "official", Score: 0}, "luaitao": Word{Word: "luaitao", Def: "▯ pranks ▯ by doing ▯", By: "seaqtaq", Score: 0}, "luaitoa": Word{Word: "luaitoa", Def: "(fork of #IZRJjEKrf) ▯ is a joke word.", By: "uakci", Score: 1}, "luaitoaq": Word{Word: "luaitoaq", Def: "▯ is a joke word.", By: "uakci", Score: -1}, "luakoaq": Word{Word: "luakoaq", Def: "▯ is a koan", By: "fagri", Score: 0}, "luao": Word{Word: "luao", Def: "predicate: ‘lip’; ▯ is a lip (general sense).", By: "official", Score: 0}, "luaofuo": Word{Word: "luaofuo", Def: "kiss", By: "spreadsheet", Score: 0}, "luaokiaq": Word{Word: "luaokiaq", Def: "▯ is a mustache.", By: "Ilmen", Score: 0}, "luaokiaqketea": Word{Word: "luaokiaqketea", Def: "▯ is a baleen whale.", By: "Ilmen", Score: 0}, "luaoroinioq": Word{Word: "luaoroinioq", Def: "▯ is labiodental (phonetics)", By: "seaqtaq", Score: 0}, "luapoq": Word{Word: "luapoq", Def: "▯ is a character in movie/book/TV show/story ▯", By: "fagri", Score: -1}, "luaq": Word{Word: "luaq", Def: "chỏq dóshī dógū lî sẻa ra pủaq ja dó sa lú rảq hóa dógū da", By: "uakci", Score: 0}, "luaq chufaq deo ti tieq da.": Word{Word: "luaq chufaq deo ti tieq da.", Def: "(A0540) The children are playing on the path right now.", By: "examples", Score: 0}, "luaq sa deo": Word{Word: "luaq sa deo", Def: "(B0002) Children play", By: "examples", Score: 0}, "luaqbuaqne": Word{Word: "luaqbuaqne", Def: "▯ is the game negative score of player ▯ (the higher the number, the worse for the player).", By: "Ilmen", Score: 1}, "luaqcaqchuo": Word{Word: "luaqcaqchuo", Def: "▯ is a game controller / gamepad / joystick.", By: "lynn", Score: 0}, "luaqche": Word{Word: "luaqche", Def: "▯ is a professional player.", By: "lynn", Score: 0}, "luaqchuo": Word{Word: "luaqchuo", Def: "▯ is a toy.", By: "lynn", Score: 0}, "luaqduogiaqme": Word{Word: "luaqduogiaqme", Def: "▯ is a suite.", By: "uakci", Score: 0}, "luaqgaq": Word{Word: "luaqgaq", Def: "▯ plays with ▯ ; ▯ and ▯ play together", By: "fagri", Score: 0}, "luaqgo": Word{Word: "luaqgo", Def: "the game of Go", By: "uakci", Score: 0}, "luaqguo": Word{Word: "luaqguo", Def: "▯ is a turn in game ▯.", By: "Ilmen", Score: 0}, "luaqjaqkeq": Word{Word: "luaqjaqkeq", Def: "▯ is the game of rock-paper-sciccors.", By: "lynn", Score: 0}, "luaqjuao": Word{Word: "luaqjuao", Def: "▯ is a rule of a game.", By: "lynn", Score: 0}, "luaqkea": Word{Word: "luaqkea", Def: "▯ is a video game console.", By: "lynn", Score: 0}, "luaqmu": Word{Word: "luaqmu", Def: "▯ is a game (e.g. Chess)", By: "fagri", Score: 0}, "luaqne": Word{Word: "luaqne", Def: "▯ is a game variable; ▯ is game points.", By: "uakci", Score: 0}, "luaqse": Word{Word: "luaqse", Def: "▯ is a game played / a “match” / a completed event of playing.", By: "lynn", Score: 0}, "luaqtai": Word{Word: "luaqtai", Def: "▯ wins in game ▯", By: "fagri", Score: 0}, "luaqtaine": Word{Word: "luaqtaine", Def: "▯ is the game score of player ▯.", By: "Ilmen", Score: 0}, "luaqtao": Word{Word: "luaqtao", Def: "▯ play(s) game ▯.", By: "uakci", Score: 0}, "luaqtoai": Word{Word: "luaqtoai", Def: "▯ is a game turn.", By: "Ilmen", Score: 0}, "luaruaq": Word{Word: "luaruaq", Def: "▯ tells story ▯ to ▯", By: "fagri", Score: 0}, "luaruo": Word{Word: "luaruo", Def: "▯ acts out / roleplays having property ▯.", By: "lynn", Score: 0}, "luasi": Word{Word: "luasi", Def: "▯ listens to / watches / enjoys / reads story ▯.", By: "uakci", Score: 1}, "luca": Word{Word: "luca", Def: "logically entail, nibli", By: "spreadsheet", Score: 0}, "lucadiu": Word{Word: "lucadiu", Def: "logic", By: "spreadsheet", Score: 0}, "lue": Word{Word: "lue", Def: "predicate: ‘yellow’; ▯ is the colour yellow.", By: "official", Score: 0}, "luechaq": Word{Word: "luechaq", Def: "predicate: ‘wednesday’; ▯ is a Wednesday.", By: "official", Score: 0}, "lueloha": Word{Word: "lueloha", Def: "(fork of #n5yoso9Q4) ▯ is gold", By: "seaqtaq", Score: 0}, "lueq": Word{Word: "lueq", Def: "predicate: ‘serve’; ▯ serves ▯ with property ▯.", By: "official", Score: 0}, "lueqche": Word{Word: "lueqche", Def: "predicate: ‘servant’; ▯ is a servant of ▯ with property ▯.", By: "official", Score: 0}, "lueqduai": Word{Word: "lueqduai", Def: "▯ is a slave", By: "seaqtaq", Score: 0}, "lueqjuq": Word{Word: "lueqjuq", Def: "▯ is a client; ▯ receives ▯’s service ▯.", By: "uakci", Score: 0}, "lueqkea": Word{Word: "lueqkea", Def: "▯ is a server.", By: "uakci", Score: 0}, "lueqtue": Word{Word: "lueqtue", Def: "service", By: "spreadsheet", Score: 0}, "luereo": Word{Word: "luereo", Def: "predicate: ‘yellow’; ▯ is of yellow colour.", By: "official", Score: 0}, "lufe": Word{Word: "lufe", Def: "▯ is a subordinate proposition created using the fifth tone.", By: "fagri", Score: 0}, "lugai": Word{Word: "lugai", Def: "▯ perceives that ▯ is the case.", By: "Ilmen", Score: 0}, "luheq": Word{Word: "luheq", Def: "The proposition ▯ entails the proposition ▯.", By: "Ilmen", Score: 0}, "luhoi": Word{Word: "luhoi", Def: "▯ is among one group of ▯-ers.", By: "uakci", Score: 0}, "luhoq": Word{Word: "luhoq", Def: "▯ is the proposition referred to by the previous lu-clause.", By: "Ilmen", Score: 0}, "lui": Word{Word: "lui", Def: "predicate: ‘has.happened’; ▯ has taken place.", By: "official", Score: 0}, "lui beo miu ji da.": Word{Word: "lui beo miu ji da.", Def: "(A0568) I've changed my mind.", By: "examples", Score: 0}, "lui ceo chietao ji puq": Word{Word: "lui ceo chietao ji puq", Def: "(B0049) We have been studying", By: "examples", Score: 0}, "lui noaq ji cu sa ci kuepaq da.": Word{Word: "lui noaq ji cu sa ci kuepaq da.", Def: "(A0369) I have read six chapters.", By: "examples", Score: 0}, "lui poaq cheoq da.": Word{Word: "lui poaq cheoq da.", Def: "(A0049) The bottle has broken.", By: "examples", Score: 0}, "lui shua sa rai chaotieq da.": Word{Word: "lui shua sa rai chaotieq da.", Def: "(A0735) Something has fallen on the road.", By: "examples", Score: 0}, "luigiq": Word{Word: "luigiq", Def: "pu'o", By: "spreadsheet", Score: 0}, "luigiqjui": Word{Word: "luigiqjui", Def: "pu'ozi", By: "spreadsheet", Score: 0}, "luijao": Word{Word: "luijao", Def: "It’s (been) a long time since ▯ last happened.", By: "uakci", Score: 0}, "luine": Word{Word: "luine", Def: "predicate: ‘age’; ▯ is the age of ▯; ▯ is the time since ▯ has taken place.", By: "official", Score: 0}, "luisho": Word{Word: "luisho", Def: "▯ passes / goes by (timewise).", By: "Ilmen", Score: 0}, "luko": Word{Word: "luko", Def: "▯ is a dog/wolf; ▯ is a canis lupus.", By: "Ilmen", Score: 0}, "luni": Word{Word: "luni", Def: "orbit ⓥ", By: "spreadsheet", Score: -1}, "luo": Word{Word: "luo", Def: "predicate: ‘family’; ▯ is a family.", By: "official", Score: 0}, "luochua": Word{Word: "luochua", Def: "▯ is a family name / surname of ▯.", By: "lynn", Score: 0}, "luoq": Word{Word: "luoq", Def: "predicate: ‘balanced’; ▯ is in balance with ▯.", By: "official", Score: 0}, "luoqgai": Word{Word: "luoqgai", Def: "▯ feels ▯ via equilibrioception (sense of balance, vestibular sense).", By: "Ilmen", Score: 0}, "luoqkea": Word{Word: "luoqkea", Def: "▯ is a balance scale", By: "seaqtaq", Score: 0}, "luoraq": Word{Word: "luoraq", Def: "▯ is related to ▯", By: "seaqtaq", Score: 0}, "lupaq": Word{Word: "lupaq", Def: "the proposition ▯ is entailed by the proposition ▯.", By: "Ilmen", Score: 0}, "lupaqjioqjuq": Word{Word: "lupaqjioqjuq", Def: "▯ deduces proposition ▯ from proposition ▯.", By: "Ilmen", Score: 0}, "luq": Word{Word: "luq", Def: "jẻo dóshī sıa cáı da", By: "uakci", Score: 0}, "luqdiu": Word{Word: "luqdiu", Def: "▯ is mindfulness.", By: "uakci", Score: 1}, "luqke": Word{Word: "luqke", Def: "Ancient Greek λύγξ (lúnx), PL λύγκες (lúnkes).", By: "Ilmen", Score: -1}, "luqmoe": Word{Word: "luqmoe", Def: "predicate: ‘calm’; ▯ is calm (emotionally).", By: "official", Score: 0}, "luqtua": Word{Word: "luqtua", Def: "(fork of #TxYEc1h1e) ▯ mutes ▯", By: "seaqtaq", Score: 0}, "lura": Word{Word: "lura", Def: "xlura", By: "spreadsheet", Score: -1}, "lurai": Word{Word: "lurai", Def: "▯ is a proposition.", By: "Ilmen", Score: 0}, "luriai": Word{Word: "luriai", Def: "▯ justifies/warrants ▯; ▯ is a good, acceptable reason for ▯.", By: "Ilmen", Score: 0}, "lusha": Word{Word: "lusha", Def: "▯ slips/slides/glides on ▯.", By: "Ilmen", Score: 0}, "lusu": Word{Word: "lusu", Def: "predicate anaphora: repeats the last clausal verb.", By: "Ilmen", Score: 0}, "lutea": Word{Word: "lutea", Def: "▯ is afraid of ▯ being the case.", By: "Ilmen", Score: 0}, "ma": Word{Word: "ma", Def: "statement prefix: ‘whether’; statement prefix: whether", By: "official", Score: 0}, "ma biaq daqjaq nuo suq moq.": Word{Word: "ma biaq daqjaq nuo suq moq.", Def: "(A0590) Have you slept long enough?", By: "examples", Score: 0}, "ma biaq loq nao moq.": Word{Word: "ma biaq loq nao moq.", Def: "(A0293) Is the water hot enough?", By: "examples", Score: 0}, "ma bo suq sa koqpiuta moq.": Word{Word: "ma bo suq sa koqpiuta moq.", Def: "(A0250) Do you have a computer?", By: "examples", Score: 0}, "ma bu naqfu sa rai suq moq.": Word{Word: "ma bu naqfu sa rai suq moq.", Def: "(A0738) Do you not have any sons?", By: "examples", Score: 0}, "ma buai poho kiaq moq.": Word{Word: "ma buai poho kiaq moq.", Def: "(A0028) Is his hair long?", By: "examples", Score: 0}, "ma buajio ni moq.": Word{Word: "ma buajio ni moq.", Def: "(A0009) Is this a house?", By: "examples", Score: 0}, "ma chi suq lu jiao moq.": Word{Word: "ma chi suq lu jiao moq.", Def: "(A0176) Do you believe in god?", By: "examples", Score: 0}, "ma chi suq lu jiq sa jiao moq.": Word{Word: "ma chi suq lu jiq sa jiao moq.", Def: "(A0177) Do you believe any gods exist?", By: "examples", Score: 0}, "ma cho moi suq deoqsoi moq.": Word{Word: "ma cho moi suq deoqsoi moq.", Def: "(A0355) Do you like to think about debating?", By: "examples", Score: 0}, "ma cho suq jojue moq.": Word{Word: "ma cho suq jojue moq.", Def: "(A0146) Do you like April?", By: "examples", Score: 0}, "ma chuq diaq suq moq.": Word{Word: "ma chuq diaq suq moq.", Def: "(A0065) Do you eat regularly?", By: "examples", Score: 0}, "ma chuqkuai suq moq": Word{Word: "ma chuqkuai suq moq", Def: "(INT.4) Are you hungry?", By: "official", Score: 0}, "ma cua liqho cu sho fei moq": Word{Word: "ma cua liqho cu sho fei moq", Def: "(A0464) Did she respond by getting angry?", By: "examples", Score: 0}, "ma dai hoq moq.": Word{Word: "ma dai hoq moq.", Def: "(A0055) Is it possible?", By: "examples", Score: 0}, "ma daqfai ruqshua moq.": Word{Word: "ma daqfai ruqshua moq.", Def: "(A0205) Does it frequently rain?", By: "examples", Score: 0}, "ma daqshei suq bie ni moq.": Word{Word: "ma daqshei suq bie ni moq.", Def: "(A0713) Do you have time after this?", By: "examples", Score: 0}, "ma da…": Word{Word: "ma da…", Def: "‘Oh really?,’ ‘Well I never,’ ‘Huh…’.", By: "uakci", Score: 0}, "ma de ni moq.": Word{Word: "ma de ni moq.", Def: "(A0068) Is this beautiful?", By: "examples", Score: 0}, "ma deq hao suq kio liai ki moq": Word{Word: "ma deq hao suq kio liai ki moq", Def: "(A0453) Can you do it(swim)?", By: "examples", Score: 0}, "ma deq kaqgai suq po ji ga buajio moq": Word{Word: "ma deq kaqgai suq po ji ga buajio moq", Def: "(A0442) Can you see my house?", By: "examples", Score: 0}, "ma deq liai suq moq.": Word{Word: "ma deq liai suq moq.", Def: "(A0070) Can you swim?", By: "examples", Score: 0}, "ma deq noaq suq ni puq lai moq.": Word{Word: "ma deq noaq suq ni puq lai moq.", Def: "(A0255) Can you read all of these letters?", By: "examples", Score: 0}, "ma deq suq li liai moq": Word{Word: "ma deq suq li liai moq", Def: "(STP.3) Can you swim?", By: "official", Score: 0}, "ma di chuq ji ni haq moq": Word{Word: "ma di chuq ji ni haq moq", Def: "(PER.1) May I eat this food?", By: "official", Score: 0}, "ma dua suq naokua ti hi rai moq": Word{Word: "ma dua suq naokua ti hi rai moq", Def: "(CCL.2) Do you know where there is a bathroom?", By: "official", Score: 0}, "ma dua suq ti naokua hi rai moq": Word{Word: "ma dua suq ti naokua hi rai moq", Def: "(INT.9) Do you know where the bathroom is?", By: "official", Score: 0}, "ma due poji kuqtoai moq": Word{Word: "ma due poji kuqtoai moq", Def: "(A0560) Are my sentences correct?", By: "examples", Score: 0}, "ma dui loq haq moq.": Word{Word: "ma dui loq haq moq.", Def: "(A0114) Is the food too hot?", By: "examples", Score: 0}, "ma fieq go ni ku suq moq.": Word{Word: "ma fieq go ni ku suq moq.", Def: "(A0476) Is it you who created this?", By: "examples", Score: 0}, "ma fui go suq li noaq cu baq juqguo lai moq.": Word{Word: "ma fui go suq li noaq cu baq juqguo lai moq.", Def: "(A0419) Is it easy to you to read Chinese characters?", By: "examples", Score: 0}, "ma gai suq mia pai ho moq.": Word{Word: "ma gai suq mia pai ho moq.", Def: "(A0837) Do you see that they are popular?", By: "examples", Score: 0}, "ma gi maq moq.": Word{Word: "ma gi maq moq.", Def: "(A0088) Is it good?", By: "examples", Score: 0}, "ma gilie posuq puq pao moq.": Word{Word: "ma gilie posuq puq pao moq.", Def: "(A0526) Are your parents doing fine?", By: "examples", Score: 0}, "ma gua kanada moq.": Word{Word: "ma gua kanada moq.", Def: "(A0079) Is Canada a country?", By: "examples", Score: 0}, "ma hai te dua muaq caq moq.": Word{Word: "ma hai te dua muaq caq moq.", Def: "(A0892) Is it already known that the conductor is dead?", By: "examples", Score: 0}, "ma heqshea cheoq moq.": Word{Word: "ma heqshea cheoq moq.", Def: "(A0048) Is the bottle empty?", By: "examples", Score: 0}, "ma ho ni moq.": Word{Word: "ma ho ni moq.", Def: "(A0206) Is that him?", By: "examples", Score: 0}, "ma hui choaqjio maq moq.": Word{Word: "ma hui choaqjio maq moq.", Def: "(A0123) Is it a bad hotel?", By: "examples", Score: 0}, "ma hui haq moq.": Word{Word: "ma hui haq moq.", Def: "(A0121) Is the food bad?", By: "examples", Score: 0}, "ma huosi suq moq.": Word{Word: "ma huosi suq moq.", Def: "(A0129) Are you listening?", By: "examples", Score: 0}, "ma jei ho ni moq.": Word{Word: "ma jei ho ni moq.", Def: "(A0215) Is he this guy?", By: "examples", Score: 0}, "ma jeidua sia rai lui kai su ni pui hui kuqtoai moq.": Word{Word: "ma jeidua sia rai lui kai su ni pui hui kuqtoai moq.", Def: "(A0985) ", By: "examples", Score: 0}, "ma jeidua suq ni liqdeo moq.": Word{Word: "ma jeidua suq ni liqdeo moq.", Def: "(A0710) Do you know who this girl is?", By: "examples", Score: 0}, "ma jia gaq suq moq.": Word{Word: "ma jia gaq suq moq.", Def: "(A0824) Will you join?", By: "examples", Score: 0}, "ma juqguo posuq pai moq.": Word{Word: "ma juqguo posuq pai moq.", Def: "(A0531) Is your friend Chinese?", By: "examples", Score: 0}, "ma kao ni pui faq gai suq hoa rao ku tu chaq moq.": Word{Word: "ma kao ni pui faq gai suq hoa rao ku tu chaq moq.", Def: "(A0976) ", By: "examples", Score: 0}, "ma kaqgai suq ji moq.": Word{Word: "ma kaqgai suq ji moq.", Def: "(A0357) Do you see me?", By: "examples", Score: 0}, "ma kaqgai suq roai shuao moq": Word{Word: "ma kaqgai suq roai shuao moq", Def: "(A0372) Did you see the eight birds?", By: "examples", Score: 0}, "ma kaqgi ni jie suq moq.": Word{Word: "ma kaqgi ni jie suq moq.", Def: "(A0199) Does this look good to you?", By: "examples", Score: 0}, "ma koa ni nao moq.": Word{Word: "ma koa ni nao moq.", Def: "(A0020) Is this water cold?", By: "examples", Score: 0}, "ma kuoreo posuq gusioq moq.": Word{Word: "ma kuoreo posuq gusioq moq.", Def: "(A0534) Is your bike black?", By: "examples", Score: 0}, "ma lui tiduasho suq poji jaokuq moq.": Word{Word: "ma lui tiduasho suq poji jaokuq moq.", Def: "(A0137) Have you found my phone?", By: "examples", Score: 0}, "ma mai suq ji moq.": Word{Word: "ma mai suq ji moq.", Def: "(A0275) Do you love me?", By: "examples", Score: 0}, "ma mao chuqkuai suq moq.": Word{Word: "ma mao chuqkuai suq moq.", Def: "(A0243) Are you also hungry?", By: "examples", Score: 0}, "ma mi li suq moq.": Word{Word: "ma mi li suq moq.", Def: "(A0286) Are you Lee?", By: "examples", Score: 0}, "ma miu suq jei ho mi chaq moq": Word{Word: "ma miu suq jei ho mi chaq moq", Def: "(A0481) Do you think he is Chang?", By: "oldexamples", Score: 0}, "ma miujeq suq ji moq.": Word{Word: "ma miujeq suq ji moq.", Def: "(A0437) Do you agree with me?", By: "examples", Score: 0}, "ma moai poji shiaq moq.": Word{Word: "ma moai poji shiaq moq.", Def: "(A0722) Are my legs thick?", By: "examples", Score: 0}, "ma moaq suq sia rai moq.": Word{Word: "ma moaq suq sia rai moq.", Def: "(A0106) Do you remember nothing?", By: "examples", Score: 0}, "ma moq": Word{Word: "ma moq", Def: "elliptical question", By: "uakci", Score: 0}, "ma muidua suq po shu ‹ tua › moq.": Word{Word: "ma muidua suq po shu ‹ tua › moq.", Def: "(A0279) Do you understand \"tua\"?", By: "examples", Score: 0}, "ma noqgi ni suq moq.": Word{Word: "ma noqgi ni suq moq.", Def: "(A0104) Does this taste good to you?", By: "examples", Score: 0}, "ma nuokuai suq moq.": Word{Word: "ma nuokuai suq moq.", Def: "(A0004) Are you tired?", By: "examples", Score: 0}, "ma pai ho mi li moq.": Word{Word: "ma pai ho mi li moq.", Def: "(A0282) Is he friends with Lee?", By: "examples", Score: 0}, "ma pai suq ji moq": Word{Word: "ma pai suq ji moq", Def: "(SMP.3) Are you my friend?", By: "official", Score: 0}, "ma piekuai suq moq.": Word{Word: "ma piekuai suq moq.", Def: "(A0014) Are you thirsty?", By: "examples", Score: 0}, "ma posuq ni cea moq.": Word{Word: "ma posuq ni cea moq.", Def: "(A0704) Is this bag yours?", By: "examples", Score: 0}, "ma pu cho suq poho kua moq.": Word{Word: "ma pu cho suq poho kua moq.", Def: "(A0234) Did you like his room?", By: "examples", Score: 0}, "ma pu kuq ji sa luai moq.": Word{Word: "ma pu kuq ji sa luai moq.", Def: "(A0262) Did I say something funny?", By: "examples", Score: 0}, "ma pu soa suq hoi hiaote kune moq.": Word{Word: "ma pu soa suq hoi hiaote kune moq.", Def: "phrase: \"Did you help that injured dog?\"", By: "official", Score: 0}, "ma pua huosi suq baq giaq moq.": Word{Word: "ma pua huosi suq baq giaq moq.", Def: "(A0092) Do you enjoy listening to music?", By: "examples", Score: 0}, "ma rao ni loqcao bi fa ho faraqse moq.": Word{Word: "ma rao ni loqcao bi fa ho faraqse moq.", Def: "(A0267) Does he go to France this summer?", By: "examples", Score: 0}, "ma raq maq ji moq.": Word{Word: "ma raq maq ji moq.", Def: "(A0441) Is it related to me?", By: "examples", Score: 0}, "ma shao suq pai suq ji moq.": Word{Word: "ma shao suq pai suq ji moq.", Def: "(A0339) Do you want to be my friend?", By: "examples", Score: 0}, "ma shu ‹ li › posuq chua moq.": Word{Word: "ma shu ‹ li › posuq chua moq.", Def: "(A0312) Is \"Lee\" your name?", By: "examples", Score: 0}, "ma soq hui ku li huibonua ja poq moq": Word{Word: "ma soq hui ku li huibonua ja poq moq", Def: "(A0615) Was stealing the worst thing?", By: "examples", Score: 0}, "ma soq hui ku li muaqtua ja poq sa heo moq": Word{Word: "ma soq hui ku li muaqtua ja poq sa heo moq", Def: "(A0613) Was killing somebody (else) the worst thing?", By: "examples", Score: 0}, "ma soq hui ku li shoi kuq ja do cu sa deo moq": Word{Word: "ma soq hui ku li shoi kuq ja do cu sa deo moq", Def: "(A0611) Was yelling at a child the worst thing?", By: "examples", Score: 0}, "ma suao puq nijao moq": Word{Word: "ma suao puq nijao moq", Def: "(ILL.4) Are those things important?", By: "official", Score: 0}, "ma suq bi hiaq pai moq.": Word{Word: "ma suq bi hiaq pai moq.", Def: "(A0843) As for you, do you have few friends?", By: "examples", Score: 0}, "ma suq ni moq.": Word{Word: "ma suq ni moq.", Def: "(A0381) Is this you?", By: "examples", Score: 0}, "ma taoshao fa sa bu ji moq.": Word{Word: "ma taoshao fa sa bu ji moq.", Def: "(A0287) Does somebody other than me intend to go?", By: "examples", Score: 0}, "ma teaqriai ni lu nai joai hoa suq moq.": Word{Word: "ma teaqriai ni lu nai joai hoa suq moq.", Def: "(A0982) Is it this bra that you're searching for now?", By: "examples", Score: 0}, "ma teoq ni moq": Word{Word: "ma teoq ni moq", Def: "(A0497) Was that a question?", By: "examples", Score: 0}, "ma ti sa rai dai jea ji hoa moq": Word{Word: "ma ti sa rai dai jea ji hoa moq", Def: "(REL.3) Is there anything there that I could buy?", By: "official", Score: 0}, "ma tijao guairiaq posuq buajio moq.": Word{Word: "ma tijao guairiaq posuq buajio moq.", Def: "(A0082) Is the workplace far from your house?", By: "examples", Score: 0}, "ma tỉao ní jake pojī sueta moq.": Word{Word: "ma tỉao ní jake pojī sueta moq.", Def: "(A0345) Does this jacket suit my sweater?", By: "examples", Score: 0}, "ma toaqdeq suq mi toaq moq.": Word{Word: "ma toaqdeq suq mi toaq moq.", Def: "(A0414) Do you speak Toaq?", By: "examples", Score: 0}, "ma tue deoqsoi po laqcai suq roi posuq pia moq": Word{Word: "ma tue deoqsoi po laqcai suq roi posuq pia moq", Def: "(A0470) Was you and and your sibling being loud an argument?", By: "examples", Score: 0}, "mabula": Word{Word: "mabula", Def: "▯ is execrable/deplorable/wretched/shitty/awful/rotten/miserable/contemptible/crappy/inferior/low-quality.", By: "Ilmen", Score: 0}, "madamada": Word{Word: "madamada", Def: "There's still some way to go before the goal; we're not there yet.", By: "Ilmen", Score: 1}, "madi": Word{Word: "madi", Def: "guess", By: "spreadsheet", Score: -1}, "madigi": Word{Word: "madigi", Def: "▯ is a clue/hint.", By: "Ilmen", Score: -1}, "madurudura": Word{Word: "madurudura", Def: "▯ is a specific kind of bad weather characterized by large dark rain clouds that block out most of the daylight, large, cold rain drops and an overall dark, uncomfortable and unsettling atmosphere, optionally accompanied by icy wind, such that a change in the weather conditions would be a relief to anyone present, both physically and emotionally.", By: "Hoemai", Score: 0}, "maheo": Word{Word: "maheo", Def: "▯ have different truth values.", By: "Ilmen", Score: -1}, "mahi": Word{Word: "mahi", Def: "maize, corn", By: "spreadsheet", Score: 0}, "mahogani": Word{Word: "mahogani", Def: "▯ is a mahogany tree (Swietenia).", By: "lynn", Score: 0}, "mai": Word{Word: "mai", Def: "= #jaq #chỏ", By: "uakci", Score: 0}, "mai ji suq da.": Word{Word: "mai ji suq da.", Def: "(A0274) I love you.", By: "examples", Score: 0}, "mai ji suq da. je ma mai suq ji moq": Word{Word: "mai ji suq da. je ma mai suq ji moq", Def: "(SPR.3) I love you. Do you love me?", By: "official", Score: 0}, "mai ji suq.": Word{Word: "mai ji suq.", Def: "(SMP.2) I love you.", By: "official", Score: 0}, "mai puqji suq hu mi hoemai da!": Word{Word: "mai puqji suq hu mi hoemai da!", Def: "(A0462) We love you Solpahi!", By: "examples", Score: 0}, "maibia": Word{Word: "maibia", Def: "▯ is in love with ▯.", By: "uakci", Score: 0}, "maigaq": Word{Word: "maigaq", Def: "predicate: ‘SO’; ▯ is a boyfriend/girlfriend/SO of ▯.", By: "official", Score: 0}, "maigeq": Word{Word: "maigeq", Def: "▯ goes out on a date with ▯; ▯ dates ▯; ▯ is on a date with ▯; ▯ and ▯ date.", By: "uakci", Score: 0}, "maijīai": Word{Word: "maijīai", Def: "▯hugs▯", By: "seaqtaq", Score: 1}, "maijuo": Word{Word: "maijuo", Def: "predicate: ‘love.letter’; ▯ is a love letter.", By: "official", Score: 0}, "maiki": Word{Word: "maiki", Def: "maize, corn", By: "spreadsheet", Score: 0}, "maili": Word{Word: "maili", Def: "mile (unit)", By: "spreadsheet", Score: 0}, "maimu": Word{Word: "maimu", Def: "▯ is beloved (affective adjective); ▯ is loved by ▯.", By: "uakci", Score: 0}, "maipai": Word{Word: "maipai", Def: "▯ is ▯’s loved one.", By: "uakci", Score: 0}, "maishua": Word{Word: "maishua", Def: "▯ falls in love with ▯.", By: "uakci", Score: 0}, "maitue": Word{Word: "maitue", Def: "have a romance", By: "spreadsheet", Score: 0}, "majara": Word{Word: "majara", Def: "▯ pertains to the culture of Hungary.", By: "countries", Score: 0}, "majaragua": Word{Word: "majaragua", Def: "▯ is the country Hungary.", By: "countries", Score: 0}, "majaratoaq": Word{Word: "majaratoaq", Def: "▯ is (one of) the language(s) spoken in Hungary.", By: "countries", Score: 0}, "majeo": Word{Word: "majeo", Def: "▯ is the indirect question of: whether ▯ is true [dyadic]; ▯ is the indirect question of: whether ▯ has p’ty ▯ [triadic].", By: "uakci", Score: 0}, "majeq": Word{Word: "majeq", Def: "▯ and ▯ have the same truth value.", By: "Ilmen", Score: 0}, "maji": Word{Word: "maji", Def: "magic", By: "spreadsheet", Score: 0}, "majiche": Word{Word: "majiche", Def: "▯ is a magician (a performer who practices and presents tricks)", By: "fagri", Score: 0}, "majijeo": Word{Word: "majijeo", Def: "▯ happens by magic; ▯ does ▯ by magic", By: "fagri", Score: 1}, "majipoq": Word{Word: "majipoq", Def: "▯ is a magician (someone who is literally capable of using magic)", By: "fagri", Score: 0}, "makaka": Word{Word: "makaka", Def: "▯ is a member of genus Macaca (the macaques).", By: "Hoemai", Score: 0}, "makasiq": Word{Word: "makasiq", Def: "▯ is a moccasin (kind of shoe).", By: "Ilmen", Score: 0}, "makui": Word{Word: "makui", Def: "whether ▯ is the case conditions whether ▯ is the case.", By: "Ilmen", Score: 0}, "mama": Word{Word: "mama", Def: "predicate: ‘mama’; ▯ is mama (Mom, mommy, mum, mother).", By: "official", Score: 0}, "mamieq": Word{Word: "mamieq", Def: "verify", By: "spreadsheet", Score: 0}, "mamieqkiu": Word{Word: "mamieqkiu", Def: "The truth value of ▯ (proposition) is verifiable.", By: "Ilmen", Score: 0}, "mamoq": Word{Word: "mamoq", Def: "▯ is a ‘ma… moq’ (yes–no) question.", By: "uakci", Score: 0}, "mamutu": Word{Word: "mamutu", Def: "▯ is a member of genus Mammuthus (the mammoths).", By: "Hoemai", Score: 0}, "mane": Word{Word: "mane", Def: "nẻ dóshī lû jẻo dógū da", By: "uakci", Score: 0}, "mao": Word{Word: "mao", Def: "[X1] Bủ tủq háo dógū na ru dỏshī sa tájēo dỏgū.", By: "Ilmen", Score: 1}, "mao du suo maq da.": Word{Word: "mao du suo maq da.", Def: "(A0278) It too, seems broken.", By: "examples", Score: 0}, "mao lu pu kaqgai ji sa tiqshoai da.": Word{Word: "mao lu pu kaqgai ji sa tiqshoai da.", Def: "(A0277) I also saw a butterfly.", By: "examples", Score: 0}, "maoja": Word{Word: "maoja", Def: "predicate: ‘banana’; ▯ is a banana.", By: "official", Score: 0}, "maomao": Word{Word: "maomao", Def: "cat", By: "spreadsheet", Score: 0}, "maoru": Word{Word: "maoru", Def: "Not only ▯, but also ▯ is the case; Not only ▯, but also ▯ satisfies property ▯.", By: "uakci", Score: 0}, "maq": Word{Word: "maq", Def: "predicate: ‘it’; ▯ is it (non-personal concrete).", By: "official", Score: 0}, "maqbaniai": Word{Word: "maqbaniai", Def: "crocodilia", By: "spreadsheet", Score: 0}, "maqfa": Word{Word: "maqfa", Def: "magic", By: "spreadsheet", Score: -1}, "maqha": Word{Word: "maqha", Def: "▯ crushes/smashes/flattens/squeezes ▯.", By: "fagri", Score: -1}, "maqhabeaq": Word{Word: "maqhabeaq", Def: "(fork of #JG5lQzlY0) (fork of #k-WhFouNm) ▯ is a mortar\u00a0", By: "seaqtaq", Score: -1}, "maqhanioq": Word{Word: "maqhanioq", Def: "▯ is a molar(tooth)", By: "seaqtaq", Score: -1}, "maqkaiheaq": Word{Word: "maqkaiheaq", Def: "▯ is a mango tree (Mangifera genus).", By: "Ilmen", Score: 0}, "maqneloha": Word{Word: "maqneloha", Def: "▯ is magnesium.", By: "Ilmen", Score: 0}, "maqpa": Word{Word: "maqpa", Def: "▯ is satisfied by it.", By: "lynn", Score: 0}, "maqrai": Word{Word: "maqrai", Def: "▯ is inanimate.", By: "Ilmen", Score: 0}, "maqto": Word{Word: "maqto", Def: "mammoth", By: "uakci", Score: 0}, "mara": Word{Word: "mara", Def: "▯ is fluffy/airy/soft/fuzzy in texture.", By: "Ilmen", Score: 0}, "mari": Word{Word: "mari", Def: "horse", By: "spreadsheet", Score: -1}, "marihuana": Word{Word: "marihuana", Def: "▯ is marihuana (genus Cannabis).", By: "Hoemai", Score: 0}, "mariki": Word{Word: "mariki", Def: "maize, corn", By: "spreadsheet", Score: 0}, "masua": Word{Word: "masua", Def: "▯ yawns.", By: "Ilmen", Score: 0}, "mateoq": Word{Word: "mateoq", Def: "▯ is a yes-no question (polar question).", By: "Hoemai", Score: 0}, "matio": Word{Word: "matio", Def: "truth value", By: "spreadsheet", Score: 0}, "me": Word{Word: "me", Def: "[XX] Tủq pảq dógū dóshī.", By: "Ilmen", Score: 0}, "me soiche": Word{Word: "me soiche", Def: "▯ is an army", By: "seaqtaq", Score: 0}, "me soitue": Word{Word: "me soitue", Def: "▯ is a war", By: "seaqtaq", Score: 0}, "mea": Word{Word: "mea", Def: "predicate: ‘among’; ▯ is among ▯.", By: "official", Score: 0}, "meaheo": Word{Word: "meaheo", Def: "predicate: ‘other’; ▯ is different from ▯; ▯ is not the same thing as ▯; ▯ is something else than ▯.", By: "official", Score: 0}, "meai": Word{Word: "meai", Def: "▯ stitches/knits/sews; ▯ forms string into ▯.", By: "uakci", Score: 0}, "meajeq": Word{Word: "meajeq", Def: "jẻq dóshī dógū lî mẻa ja dó háqbī da; jẻı dóshī dógū da", By: "uakci", Score: 0}, "meakuq": Word{Word: "meakuq", Def: "predicate: ‘mention’; ▯ mentions ▯ to ▯.", By: "official", Score: 0}, "meali": Word{Word: "meali", Def: "the property ▯ is satisfied by something among ▯.", By: "Ilmen", Score: 0}, "meame": Word{Word: "meame", Def: "▯ is a set; ▯ is the set with members ▯.", By: "Ilmen", Score: 0}, "meamiq": Word{Word: "meamiq", Def: "▯ are infinitely many.", By: "Ilmen", Score: 1}, "meane": Word{Word: "meane", Def: "{mei}", By: "spreadsheet", Score: 0}, "meao": Word{Word: "meao", Def: "Mẻa sa\u00a0dó\u00a0dóshī ru\u00a0dógū da.", By: "fagri", Score: 0}, "meaq": Word{Word: "meaq", Def: "predicate: ‘ship’; ▯ is a ship/boat/vessel.", By: "official", Score: 0}, "meaqbia": Word{Word: "meaqbia", Def: "▯ is seasick.", By: "Ilmen", Score: 0}, "meaqcaqche": Word{Word: "meaqcaqche", Def: "sailor", By: "spreadsheet", Score: 0}, "meaqce": Word{Word: "meaqce", Def: "predicate: ‘harbour’; ▯ is a harbour/haven.", By: "official", Score: 0}, "meaqche": Word{Word: "meaqche", Def: "sailor", By: "spreadsheet", Score: 0}, "measia": Word{Word: "measia", Def: "▯ is the empty set; ▯ is zero in number.", By: "uakci", Score: 0}, "measuao": Word{Word: "measuao", Def: "▯ is special (among ▯)", By: "seaqtaq", Score: 0}, "meatio": Word{Word: "meatio", Def: "{mei}", By: "spreadsheet", Score: 0}, "meatu": Word{Word: "meatu", Def: "common to, kampu / everything has property ▯ (among ▯)", By: "spreadsheet", Score: 0}, "meatuq": Word{Word: "meatuq", Def: "predicate: ‘same’; ▯ is the same thing as ▯.", By: "Ilmen", Score: 0}, "mechakucha": Word{Word: "mechakucha", Def: "▯ is absurd.", By: "uakci", Score: 0}, "media": Word{Word: "media", Def: "media", By: "spreadsheet", Score: 0}, "mefaq": Word{Word: "mefaq", Def: "The aggregate event made of sub-events X (plural) [together with Y (plural)] happens.", By: "spreadsheet", Score: 0}, "mefiti": Word{Word: "mefiti", Def: "▯ is a skunk of the Mephitis genus.", By: "Ilmen", Score: 0}, "mefitisiu": Word{Word: "mefitisiu", Def: "▯ belongs to the Mephitidae taxonomic family (comprising the skunks and stink badgers).", By: "Ilmen", Score: 0}, "mega": Word{Word: "mega", Def: "predicate: ‘mega’; ▯ are 10^6 (1,000,000) in number; ▯ are a million.", By: "official", Score: 0}, "mehikonuai": Word{Word: "mehikonuai", Def: "▯ is a Mexican peso.", By: "Ilmen", Score: 0}, "mei": Word{Word: "mei", Def: "predicate: ‘mountain’; ▯ is a mountain/hill.", By: "official", Score: 0}, "meibi": Word{Word: "meibi", Def: "▯ is the case with regards to hills/mountains.", By: "Ilmen", Score: 0}, "meidei": Word{Word: "meidei", Def: "▯ SOS’s; ▯ sends an SOS (emergency, call for help) signal.", By: "uakci", Score: 0}, "meigiq": Word{Word: "meigiq", Def: "valley", By: "spreadsheet", Score: 0}, "meiharanika": Word{Word: "meiharanika", Def: "▯ is mountain arnica (Arnica montana).", By: "Hoemai", Score: 0}, "meilu": Word{Word: "meilu", Def: "▯ is an email", By: "fagri", Score: 0}, "meirie": Word{Word: "meirie", Def: "▯ is a valley", By: "Ilmen", Score: 0}, "mejeo": Word{Word: "mejeo", Def: "▯ (predicate) is true of the argument structure ▯ (sequence of arguments).", By: "Ilmen", Score: 0}, "memea": Word{Word: "memea", Def: "mıeq", By: "uakci", Score: 0}, "meneu": Word{Word: "meneu", Def: "▯ is the sum of the number sequence/multiset ▯.", By: "Ilmen", Score: 0}, "meneuchu": Word{Word: "meneuchu", Def: "▯ is the arithmetic mean of ▯ (sequence/multiset of numbers).", By: "Ilmen", Score: 0}, "meni": Word{Word: "meni", Def: "▯ is a pangolin of the Manis genus.", By: "Ilmen", Score: 0}, "menisiu": Word{Word: "menisiu", Def: "▯ is a pangolin.", By: "Ilmen", Score: 0}, "meo": Word{Word: "meo", Def: "predicate: ‘sad’; ▯ is sad.", By: "official", Score: 0}, "meo ho kui lu kiachaq nichaq da.": Word{Word: "meo ho kui lu kiachaq nichaq da.", Def: "(A0248) He's sad because today it's a Monday.", By: "examples", Score: 0}, "meo ji kui bu tishue suq da.": Word{Word: "meo ji kui bu tishue suq da.", Def: "(A0298) I'm sad because you aren't here.", By: "examples", Score: 0}, "meobia": Word{Word: "meobia", Def: "depressed", By: "spreadsheet", Score: 0}, "meocai": Word{Word: "meocai", Def: "▯ is emotionally strong (e.g. in the face of hard times)", By: "fagri", Score: 1}, "meoi": Word{Word: "meoi", Def: "▯ is imaginary; ▯ is made up; ▯ is non-existent.", By: "uakci", Score: 0}, "meoijua": Word{Word: "meoijua", Def: "▯ is absurd.", By: "uakci", Score: 0}, "meoiluai": Word{Word: "meoiluai", Def: "▯ is dadaistic; ▯ is absurdly funny.", By: "uakci", Score: 0}, "meojaq": Word{Word: "meojaq", Def: "▯ feels sorrow.", By: "Ilmen", Score: 0}, "meoq": Word{Word: "meoq", Def: "= gıq #sủaı", By: "uakci", Score: 0}, "meoq bi riasho saojaq kiao": Word{Word: "meoq bi riasho saojaq kiao", Def: "(B0022) Slowly the great door opened", By: "examples", Score: 0}, "meoqkoi": Word{Word: "meoqkoi", Def: "predicate: ‘walk’; ▯ walks.", By: "official", Score: 0}, "meoqkuai": Word{Word: "meoqkuai", Def: "▯ is in no hurry whatsoever / is taking their time; ▯ wants to satisfying property ▯ slowly.", By: "lynn", Score: 0}, "mepuine": Word{Word: "mepuine", Def: "▯ is the cardinality of the set/multiset/sequence ▯.", By: "Ilmen", Score: 0}, "meq": Word{Word: "meq", Def: "pre-prepositional nominaliser: transform the following prepositional phrase into a side statement of the inside noun’s satisfying of property of the containing clause, where the lambda variable is to be placed in the expected position, as if the meq-clause were itself one noun (which still participated in the containing clause).", By: "uakci", Score: 0}, "meqea": Word{Word: "meqea", Def: "≈ [XX] Pảq dóshī méamē dỏgū", By: "Ilmen", Score: 0}, "meqli": Word{Word: "meqli", Def: "mind", By: "spreadsheet", Score: -3}, "meqso": Word{Word: "meqso", Def: "▯ is a mathematical expression meaning ▯; ▯ mekso.", By: "uakci", Score: 0}, "mereu": Word{Word: "mereu", Def: "▯ is the product of the number sequence/multiset ▯.", By: "Ilmen", Score: 0}, "mereuchu": Word{Word: "mereuchu", Def: "▯ is the geometric mean of ▯ (sequence/multiset of numbers).", By: "Ilmen", Score: 0}, "merieqda": Word{Word: "merieqda", Def: "▯ is an afternoon/evening snack", By: "seaqtaq", Score: 0}, "merika": Word{Word: "merika", Def: "predicate: ‘America’; ▯ is America (continent).", By: "official", Score: 0}, "mesho": Word{Word: "mesho", Def: "blend (vi)", By: "spreadsheet", Score: 1}, "meta": Word{Word: "meta", Def: "meter (unit)", By: "spreadsheet", Score: 0}, "meta:alphabet": Word{Word: "meta:alphabet", Def: "ha bi ci di he fi gi pa hi ji ki li mi ni ho pi ga ri si ti hu fa ba ka ja sa [for letter compounds in language codes and others]", By: "uakci", Score: 0}, "meta:simple_counting": Word{Word: "meta:simple_counting", Def: "Start with pa = 0, then count pu, pi, pe, po; add -q for the fifths' place (paq = 5, puq…). Then, iterate on the consonants: t = 10, k = 20, f = 30, s = 40, ch = 50, h = 60, r = 70, l = 80, j = 90. This closes off a simple base-100 positional counting system.", By: "uakci", Score: 0}, "metafo": Word{Word: "metafo", Def: "metaphor", By: "spreadsheet", Score: 0}, "metafora": Word{Word: "metafora", Def: "metaphor", By: "spreadsheet", Score: 0}, "metebuaine": Word{Word: "metebuaine", Def: "meter (unit)", By: "spreadsheet", Score: 0}, "metene": Word{Word: "metene", Def: "meter (unit)", By: "spreadsheet", Score: 0}, "metoa": Word{Word: "metoa", Def: "compound (e.g., toamē)", By: "uakci", Score: 1}, "meu": Word{Word: "meu", Def: "start full-text name quote: ▯ is named like this quote.", By: "uakci", Score: 0}, "mi": Word{Word: "mi", Def: "predicatizer: ‘those.named’; turns following phrase X into predicate: ▯ is/are the one(s) called X.", By: "official", Score: 0}, "mi bianaq": Word{Word: "mi bianaq", Def: "Mảo mỉ lỉmēq hó. Je fỉeq hóı húaqmēa tỏa pỏ míerīoqdīu na ru mỏı jãq fảı tûa hủaq chỏqgī ru chỏqkīu go ní dẻ tỏaq kũı pủı póhō fỉeqsē. Je jũlū bı sỏq fảı kủaı tủa sỉ hó dâı chỏadēoq.", By: "seaqtaq", Score: 0}, "mi bu": Word{Word: "mi bu", Def: "False [boolean value]", By: "fagri", Score: 0}, "mi chaq roi poho pia pa cheo luaqgaq.": Word{Word: "mi chaq roi poho pia pa cheo luaqgaq.", Def: "(A0461) Chang and his sibling play with each other.", By: "examples", Score: 0}, "mi chuabeo": Word{Word: "mi chuabeo", Def: "lủ jảq pủı chúa dǎı tủq pủ mu chỏq na, nỉ pỏq so dũafūı da. Je mủa shú jỉaqmūaotūa ru shú dỏecāqchē tỉaofōatūa ru shú sảqdī ru shú hipokritos ru shú hủaqshī ru shú hỏelōı da. Fỉeq hó sa púı rảı jùqgī ní chẻmē (kıo mủa ní dảocē! kı) da.", By: "seaqtaq", Score: 0}, "mi guhei teoq pa jaq gi!": Word{Word: "mi guhei teoq pa jaq gi!", Def: "(A0376) Twenty Questions is awesome!", By: "examples", Score: 0}, "mi halufīq pa, rao hi chaq paq hoa heijue moq": Word{Word: "mi halufīq pa, rao hi chaq paq hoa heijue moq", Def: "(A0157) Halloween… on which day in October is that?", By: "examples", Score: 0}, "mi hikaru ji da.": Word{Word: "mi hikaru ji da.", Def: "(A0536) I'm Hikaru.", By: "examples", Score: 0}, "mi hiqlaq": Word{Word: "mi hiqlaq", Def: "England", By: "spreadsheet", Score: 0}, "mi hoaqgiomi gui": Word{Word: "mi hoaqgiomi gui", Def: "Ní tỏaqpōq bı shú gủı pa dảı tỉao kùı sa lúaı nǒ hóa híqlītōaq, keo gủhūaq chỏ hó shú hỏaqgīo hóı so mỉu da. Mảo hó fîeq ru tâo ja lúaı sa púı rảı jùqgī ní chẻmē. Je mủa mí serial ru sa méahēo bǔ dẻq mỏaq chũfāq jí da.", By: "seaqtaq", Score: 0}, "mi hoemai": Word{Word: "mi hoemai", Def: "Lủ fỏa gỉ hó. Keo sỏq sủao fîeq hó mỉ tỏaq. Je ku jí pa shủerēoq bủ dủa sa púı rảı rǎq hóa hó càjōq bû dẻq dủatūa cu sa púı.", By: "seaqtaq", Score: 0}, "mi jeo": Word{Word: "mi jeo", Def: "True [boolean value]", By: "fagri", Score: 0}, "mi joq ji da.": Word{Word: "mi joq ji da.", Def: "(NAM.1) I am John.", By: "official", Score: 0}, "mi lisa pa husona da.": Word{Word: "mi lisa pa husona da.", Def: "(A0535) Lisa is American.", By: "examples", Score: 0}, "mi luinoaq": Word{Word: "mi luinoaq", Def: "Reddit", By: "uakci", Score: 0}, "mi meotoaq": Word{Word: "mi meotoaq", Def: "Lojban", By: "uakci", Score: 0}, "mi nuihiu": Word{Word: "mi nuihiu", Def: "Bach", By: "uakci", Score: 0}, "mi pita pu geq suq hoa pa pai ji.": Word{Word: "mi pita pu geq suq hoa pa pai ji.", Def: "(NAM.5) The Peter you met is my friend.", By: "official", Score: 0}, "mi poha liqneoq": Word{Word: "mi poha liqneoq", Def: "▯ is the Notre Dame cathedral.", By: "uakci", Score: 0}, "mi punoaq": Word{Word: "mi punoaq", Def: "(fork of #MzTsw00xO) Reddit", By: "uakci", Score: 0}, "mi samaqta ju bua ho ni buajio pa bo sa shi de soaq.": Word{Word: "mi samaqta ju bua ho ni buajio pa bo sa shi de soaq.", Def: "(INC.1) Samantha, who lives in this house, has a beautiful garden.", By: "official", Score: 0}, "mi sara ni da.": Word{Word: "mi sara ni da.", Def: "(A0281) This is Sarah.", By: "examples", Score: 0}, "mi shipio": Word{Word: "mi shipio", Def: "Einstein", By: "uakci", Score: 0}, "mia": Word{Word: "mia", Def: "▯ has many things be in relation ▯ with it.", By: "uakci", Score: 0}, "mia buo ho da.": Word{Word: "mia buo ho da.", Def: "(A0831) He's ready for anything.", By: "examples", Score: 0}, "mia dua ho da.": Word{Word: "mia dua ho da.", Def: "(A0830) She knows a lot.", By: "examples", Score: 0}, "mia moe nai ji da.": Word{Word: "mia moe nai ji da.", Def: "(A0832) I'm feeling a lot of emotions right now.", By: "examples", Score: 0}, "mia mu": Word{Word: "mia mu", Def: "▯ has many things in relation ▯ with it.", By: "uakci", Score: 0}, "miai": Word{Word: "miai", Def: "predicate: ‘rhyme’; ▯ rhymes with ▯.", By: "official", Score: 0}, "miaise": Word{Word: "miaise", Def: "predicate: ‘rhyme’; ▯ is a rhyme.", By: "official", Score: 0}, "miao": Word{Word: "miao", Def: "mỉao mîao mìao míaomīao mǐao\u00a0mĩao", By: "uakci", Score: 0}, "miaochoa": Word{Word: "miaochoa", Def: "to meow", By: "uakci", Score: 0}, "miaogio": Word{Word: "miaogio", Def: "▯ is moonlight", By: "fagri", Score: 0}, "miaojoq": Word{Word: "miaojoq", Def: "▯ is a second.", By: "uakci", Score: 0}, "miaoloha": Word{Word: "miaoloha", Def: "▯ is silver.", By: "Ilmen", Score: 0}, "miaq": Word{Word: "miaq", Def: "predicate: ‘value’; ▯ is the value of ▯.", By: "official", Score: 0}, "miaqgai": Word{Word: "miaqgai", Def: "predicate: ‘esteem’; ▯ appreciates/esteems ▯.", By: "official", Score: 0}, "miaqjaq": Word{Word: "miaqjaq", Def: "▯ is precious, of high value.", By: "Ilmen", Score: 0}, "miaqjie": Word{Word: "miaqjie", Def: "predicate: ‘appreciate’; ▯ appreciates ▯.", By: "official", Score: 0}, "miaqmia": Word{Word: "miaqmia", Def: "▯ is valuable.", By: "uakci", Score: 0}, "miaqmieq": Word{Word: "miaqmieq", Def: "▯ evaluates/assesses the value of ▯.", By: "Ilmen", Score: 0}, "miaqsao": Word{Word: "miaqsao", Def: "▯ is valuable (financially) / dear (emotionally) to ▯.", By: "uakci", Score: -1}, "mie": Word{Word: "mie", Def: "dẻq ra jẻo sẻaq ra chủq ra dủo dóshī da", By: "uakci", Score: 0}, "miedaosai": Word{Word: "miedaosai", Def: "▯ is a nucleic acid (DNA or RNA).", By: "Ilmen", Score: 0}, "miediu": Word{Word: "miediu", Def: "biology", By: "spreadsheet", Score: -1}, "miedua": Word{Word: "miedua", Def: "▯ is savoir-vivre; ▯ is good manners.", By: "uakci", Score: 0}, "miefea": Word{Word: "miefea", Def: "predicate: ‘survive’; ▯ survives ▯.", By: "official", Score: 0}, "miehaqtu": Word{Word: "miehaqtu", Def: "▯ is a ghost that is alive.", By: "uakci", Score: 0}, "miehua": Word{Word: "miehua", Def: "predicate: ‘heart’; ▯ is a heart.", By: "official", Score: 0}, "miejoai": Word{Word: "miejoai", Def: "(fork of #IK7hm5ItL) ▯ hunts for ▯/1.", By: "seaqtaq", Score: 0}, "mielua": Word{Word: "mielua", Def: "▯ is a bio(graphy)", By: "seaqtaq", Score: 0}, "mieme": Word{Word: "mieme", Def: "▯ is a biome", By: "seaqtaq", Score: 0}, "miemuaq": Word{Word: "miemuaq", Def: "▯ is among the living dead; ▯ is undead/a zombie/vampire /etc.", By: "Hoemai", Score: 0}, "miepio": Word{Word: "miepio", Def: "▯ is a fossil of ▯.", By: "Ilmen", Score: 0}, "mieq": Word{Word: "mieq", Def: "predicate: ‘measure’; ▯ measures/evaluates/determines what satisfies property ▯.", By: "official", Score: 0}, "mieqchuo": Word{Word: "mieqchuo", Def: "measure tool (LOECHUO)", By: "spreadsheet", Score: 0}, "mieqchuo pa lui geibeo da.": Word{Word: "mieqchuo pa lui geibeo da.", Def: "Przebrała się miarka.", By: "uakci", Score: 0}, "mieqtai": Word{Word: "mieqtai", Def: "▯ determines that ▯ is what satisfies property ▯.", By: "Ilmen", Score: 0}, "mieqtoai": Word{Word: "mieqtoai", Def: "measure unit", By: "spreadsheet", Score: 0}, "mierio": Word{Word: "mierio", Def: "▯ is dioxygen.", By: "Ilmen", Score: 0}, "mierioq": Word{Word: "mierioq", Def: "species", By: "spreadsheet", Score: 0}, "mierioqdiu": Word{Word: "mierioqdiu", Def: "▯ is taxonomy", By: "seaqtaq", Score: 0}, "mierioqjeq": Word{Word: "mierioqjeq", Def: "▯ is a fellow creature of ▯; ▯ is of the same species as ▯.", By: "Ilmen", Score: 0}, "mierioqjeqchuq": Word{Word: "mierioqjeqchuq", Def: "▯ is a cannibal.", By: "Ilmen", Score: 0}, "mieshi": Word{Word: "mieshi", Def: "▯ is a living being/organism.", By: "Ilmen", Score: 0}, "mietao": Word{Word: "mietao", Def: "▯ lives (activity); ▯ leads or lives their life.", By: "Ilmen", Score: 0}, "mietiai": Word{Word: "mietiai", Def: "▯ is a chest.", By: "Ilmen", Score: 0}, "mietoai": Word{Word: "mietoai", Def: "biological cell", By: "uakci", Score: 0}, "mietue": Word{Word: "mietue", Def: "▯ is life; ▯ is the life of ▯.", By: "Ilmen", Score: 0}, "migiq": Word{Word: "migiq", Def: "▯ = ▯ - ▯.", By: "uakci", Score: 0}, "mihoi": Word{Word: "mihoi", Def: "last thing referred to by a name constructed with #mi", By: "uakci", Score: 0}, "miku": Word{Word: "miku", Def: "automatic / zmiku", By: "spreadsheet", Score: -1}, "milu": Word{Word: "milu", Def: "particle/meta-predicate: stands for predicate related to the following name.", By: "uakci", Score: -1}, "mima": Word{Word: "mima", Def: "set member, cmima", By: "spreadsheet", Score: -1}, "mimi": Word{Word: "mimi", Def: "▯ is a meme / internet joke", By: "fagri", Score: 0}, "mina": Word{Word: "mina", Def: "jmina", By: "spreadsheet", Score: -1}, "minu": Word{Word: "minu", Def: "predicate: ‘minute’; ▯ is a minute.", By: "official", Score: 0}, "minune": Word{Word: "minune", Def: "▯ is the duration of a minute multiplied by number ▯", By: "fagri", Score: 1}, "mio": Word{Word: "mio", Def: "rẻo sa báq sẻoq rào sa báq dỉo dóshī da", By: "uakci", Score: 0}, "miochaq": Word{Word: "miochaq", Def: "predicate: ‘saturday’; ▯ is a Saturday.", By: "official", Score: 0}, "mionioq": Word{Word: "mionioq", Def: "▯ is bluetooth", By: "seaqtaq", Score: 0}, "mioreo": Word{Word: "mioreo", Def: "predicate: ‘blue’; ▯ is of blue colour.", By: "official", Score: 0}, "miq": Word{Word: "miq", Def: "predicate: ‘infinite’; ▯ is infinite in property ▯.", By: "official", Score: 0}, "miqdoe": Word{Word: "miqdoe", Def: "▯ executes ▯ perpetually; ▯ is stuck in infinite loop ▯; ▯ doesn’t halt.", By: "uakci", Score: 0}, "miqgaikiutua": Word{Word: "miqgaikiutua", Def: "▯ pins a message to group/channel ▯", By: "seaqtaq", Score: 0}, "miqgiq": Word{Word: "miqgiq", Def: "▯ is temporary / impermanent.", By: "lynn", Score: -1}, "miqgiqdoa": Word{Word: "miqgiqdoa", Def: "▯ lends ▯ to ▯.", By: "lynn", Score: 0}, "miqgiqnua": Word{Word: "miqgiqnua", Def: "▯ borrows (temporarily takes) ▯ from ▯.", By: "lynn", Score: 0}, "miqroa": Word{Word: "miqroa", Def: "▯ is innately ▯/1.", By: "uakci", Score: 0}, "mita": Word{Word: "mita", Def: "▯ is ▯ times the unit metre (meter); ▯ = ▯ m.", By: "uakci", Score: 0}, "mitoaq": Word{Word: "mitoaq", Def: "▯ is the Toaq language.", By: "lynn", Score: 0}, "mitoaqdiu": Word{Word: "mitoaqdiu", Def: "▯ is Toaqology (study of the Toaq language).", By: "lynn", Score: 0}, "miu": Word{Word: "miu", Def: "rủo dóshī sa lú shẻ rûo dóshī hóa na hê jẻo dógū da", By: "uakci", Score: 0}, "miu dai ji hoq da.": Word{Word: "miu dai ji hoq da.", Def: "(A0434) I think it is possible.", By: "examples", Score: 0}, "miu huitua": Word{Word: "miu huitua", Def: "▯ opines that ▯ made bad thing ▯ happen;\u00a0 ▯ blames ▯ for ▯.", By: "lynn", Score: 0}, "miu ji dai hoq da.": Word{Word: "miu ji dai hoq da.", Def: "(A0435) I think it is possible.", By: "examples", Score: 0}, "miu mi sara buaq suq li ja do bi tua dua do ho.": Word{Word: "miu mi sara buaq suq li ja do bi tua dua do ho.", Def: "(A0431) Sarah thought you failed at alerting her.", By: "examples", Score: 0}, "miu puqho bu dai da.": Word{Word: "miu puqho bu dai da.", Def: "(A0436) They think it's not possible.", By: "examples", Score: 0}, "miubururuaq": Word{Word: "miubururuaq", Def: "▯ asserts that ▯, which isn’t their opinion; ▯ states ▯ hypocritically.", By: "uakci", Score: 1}, "miucai": Word{Word: "miucai", Def: "confident", By: "spreadsheet", Score: 0}, "miudaometua": Word{Word: "miudaometua", Def: "▯ collects data ▯ about ▯’s opinions on ▯; ▯ holds a questionnaire/poll ▯ for participants ▯ about topic ▯.", By: "uakci", Score: -2}, "miudiu": Word{Word: "miudiu", Def: "philosophy", By: "spreadsheet", Score: 0}, "miudoa": Word{Word: "miudoa", Def: "▯ gives their opinion about/of ▯ to ▯", By: "seaqtaq", Score: 0}, "miujeq": Word{Word: "miujeq", Def: "predicate: ‘agree’; ▯ agrees with ▯ that ▯ is the case.", By: "official", Score: 0}, "miuji": Word{Word: "miuji", Def: "pe'i, in my opinion", By: "spreadsheet", Score: 0}, "miukuaq": Word{Word: "miukuaq", Def: "▯ expresses their opinion ▯; ▯ says they think ▯ to be the case.", By: "uakci", Score: 0}, "miukuaq ba.": Word{Word: "miukuaq ba.", Def: "a phrase asking the listener to share his thoughts; ‘What are your thoughts?’; ‘What do you think?’; ‘Share your opinion!’.", By: "uakci", Score: 0}, "miumieq": Word{Word: "miumieq", Def: "▯ polls ▯ about ▯", By: "seaqtaq", Score: -1}, "miuq": Word{Word: "miuq", Def: "▯ showcases an interesting legal Toaq nucleus ▯.", By: "uakci", Score: 0}, "miuse": Word{Word: "miuse", Def: "▯ is an opinion", By: "seaqtaq", Score: 0}, "miuteoq": Word{Word: "miuteoq", Def: "▯ is a poll towards ▯ (group) about ▯/1.", By: "uakci", Score: 1}, "mo": Word{Word: "mo", Def: "text-quote: ‘«’; begin full-text quote.", By: "official", Score: 0}, "moa": Word{Word: "moa", Def: "predicate: ‘point’; ▯ is a point in ▯.", By: "official", Score: 0}, "moai": Word{Word: "moai", Def: "predicate: ‘thick’; ▯ is thick.", By: "official", Score: 0}, "moaikai": Word{Word: "moaikai", Def: "▯ writes ▯ on ▯ in bold", By: "seaqtaq", Score: 0}, "moajao": Word{Word: "moajao", Def: "▯ (point in a metric space) is far from ▯ (point in the same metric space)", By: "fagri", Score: 0}, "moajeo": Word{Word: "moajeo", Def: "(fork of #z3q-tM8u2) ▯ occurs instantly; ▯ instantly satisfies property ▯", By: "seaqtaq", Score: 0}, "moajui": Word{Word: "moajui", Def: "▯ (point in a metric space) is near to ▯ (point in the same metric space)", By: "fagri", Score: 0}, "moalai": Word{Word: "moalai", Def: "▯ is a dot, period, or full stop (written character).", By: "Ilmen", Score: 0}, "moaleaq": Word{Word: "moaleaq", Def: "▯ (region of a metric space) is adjacent to ▯ (region of the same metric space)", By: "fagri", Score: 0}, "moanuoi": Word{Word: "moanuoi", Def: "▯ bites ▯", By: "seaqtaq", Score: 0}, "moao": Word{Word: "moao", Def: "[MO] ▯ says [text] to ▯", By: "fagri", Score: 0}, "moapoe": Word{Word: "moapoe", Def: "▯ (region of a space) is disjoint from ▯ (region of the same space)", By: "fagri", Score: 0}, "moaq": Word{Word: "moaq", Def: "hỏaı dẻq tảocīa rảqmōı dóshī dógū da", By: "uakci", Score: 0}, "moaq ji lu baoreo taqchao da.": Word{Word: "moaq ji lu baoreo taqchao da.", Def: "(A0105) I remember that the car is white.", By: "examples", Score: 0}, "moaq suq hi rai raq hoa hoi chaq moq.": Word{Word: "moaq suq hi rai raq hoa hoi chaq moq.", Def: "(A0283) What do you remember about the aforementioned day?", By: "examples", Score: 0}, "moaqbaise": Word{Word: "moaqbaise", Def: "▯ is a monument to the memory of ▯.", By: "Hoemai", Score: 0}, "moaqchie": Word{Word: "moaqchie", Def: "▯ memorizes ▯.", By: "Hoemai", Score: 0}, "moaqchuo": Word{Word: "moaqchuo", Def: "predicate: ‘mnemonic’; ▯ is a mnemonic for remembering ▯.", By: "official", Score: 0}, "moaqshai": Word{Word: "moaqshai", Def: "predicate: ‘forget’; ▯ forgets ▯.", By: "official", Score: 0}, "moaqshuetao": Word{Word: "moaqshuetao", Def: "▯ memorizes ▯.", By: "Hoemai", Score: 0}, "moaqsio": Word{Word: "moaqsio", Def: "predicate: ‘memory’; ▯ is a memory.", By: "official", Score: 0}, "moaqtao": Word{Word: "moaqtao", Def: "▯ recalls ▯.", By: "Hoemai", Score: 0}, "moasuai": Word{Word: "moasuai", Def: "▯ occurs suddenly; ▯ suddenly satisfies property ▯", By: "seaqtaq", Score: 0}, "moe": Word{Word: "moe", Def: "predicate: ‘feel’; ▯ feels ▯; ▯ has emotion ▯.", By: "official", Score: 0}, "moechoa": Word{Word: "moechoa", Def: "▯ moans; ▯ expresses emotion ▯ vocally, but not verbally.", By: "uakci", Score: 0}, "moedea": Word{Word: "moedea", Def: "▯ causes emotional shock in ▯.", By: "Ilmen", Score: 0}, "moedou": Word{Word: "moedou", Def: "moved emotionally", By: "spreadsheet", Score: -1}, "moefea": Word{Word: "moefea", Def: "▯ tolerates ▯ (0)", By: "seaqtaq", Score: 0}, "moegaq": Word{Word: "moegaq", Def: "▯ empathizes with ▯.", By: "lynn", Score: 0}, "moege": Word{Word: "moege", Def: "▯ is emotionally moving / elicits an emotional response.", By: "lynn", Score: 0}, "moehao": Word{Word: "moehao", Def: "O, ▯!", By: "fagri", Score: 0}, "moehiao": Word{Word: "moehiao", Def: "▯ hurts emotionally ▯.", By: "Ilmen", Score: 0}, "moehua": Word{Word: "moehua", Def: "predicate: ‘organ.of.feeling’; ▯ is an organ of feeling/emotion (\"heart\").", By: "official", Score: 0}, "moejeq": Word{Word: "moejeq", Def: "▯ sympathises (sympathizes) with ▯ in feeling ▯.", By: "uakci", Score: 0}, "moejoe": Word{Word: "moejoe", Def: "▯ has a heart.", By: "uakci", Score: 0}, "moekiaq": Word{Word: "moekiaq", Def: "▯ is an eyebrow.", By: "Ilmen", Score: 0}, "moekuaq": Word{Word: "moekuaq", Def: "▯ expresses emotion ▯.", By: "uakci", Score: 0}, "moekuaqsia": Word{Word: "moekuaqsia", Def: "▯ doesn't display any emotion.", By: "Ilmen", Score: 0}, "moemia": Word{Word: "moemia", Def: "▯ has mixed feelings", By: "fagri", Score: 0}, "moeriaq": Word{Word: "moeriaq", Def: "predicate: ‘center.of.emotion’; ▯ is a heart/emotional/spiritual center/core.", By: "official", Score: 0}, "moesia": Word{Word: "moesia", Def: "▯ doesn't feel any emotion.", By: "Ilmen", Score: 0}, "moetuai": Word{Word: "moetuai", Def: "▯ is a spirit, soul of ▯.", By: "uakci", Score: 0}, "mohe": Word{Word: "mohe", Def: "convert sumti to mex operand; sample use in story arithmetic: [3 apples] + [3 apples] = what.", By: "uakci", Score: 0}, "mohoi": Word{Word: "mohoi", Def: "last #mo-quote", By: "uakci", Score: 0}, "moi": Word{Word: "moi", Def: "predicate: ‘think’; ▯ thinks / is having a thought; ▯ thinks thought ▯.", By: "official", Score: 0}, "moi daqfai suq. je gi hao.": Word{Word: "moi daqfai suq. je gi hao.", Def: "(A0443) You think alot. That's good.", By: "examples", Score: 0}, "moi ji chufaq da.": Word{Word: "moi ji chufaq da.", Def: "(A0284) I'm remembering.", By: "examples", Score: 0}, "moi ji lu baokiareo helu da.": Word{Word: "moi ji lu baokiareo helu da.", Def: "(A0289) I think about the pink elf.", By: "examples", Score: 0}, "moi shiu tao ba.": Word{Word: "moi shiu tao ba.", Def: "(A0290) Think before you do.", By: "examples", Score: 0}, "moibaq": Word{Word: "moibaq", Def: "▯ is a mind.", By: "uakci", Score: 0}, "moibia": Word{Word: "moibia", Def: "fenki", By: "spreadsheet", Score: 0}, "moicai": Word{Word: "moicai", Def: "▯ is sure of themself / feels certain; ▯ feels certain that ▯ is true (the truth of this proposition is not asserted by moicāi, however)", By: "fagri", Score: -1}, "moiche": Word{Word: "moiche", Def: "▯is a psychologist", By: "seaqtaq", Score: 0}, "moichiaiche": Word{Word: "moichiaiche", Def: "▯is a psychiatrist", By: "seaqtaq", Score: 0}, "moichīaidīu": Word{Word: "moichīaidīu", Def: "▯is psychiatry", By: "seaqtaq", Score: 0}, "moiciachiaq": Word{Word: "moiciachiaq", Def: "▯ intuits, has the intuition that ▯ is the case.", By: "uakci", Score: 0}, "moideoqkuq": Word{Word: "moideoqkuq", Def: "▯ says ▯ to ▯ telepathically.", By: "uakci", Score: 0}, "moidīu": Word{Word: "moidīu", Def: "▯is psychology", By: "seaqtaq", Score: 0}, "moige": Word{Word: "moige", Def: "▯ is an intellectual stimulus / really makes you think / is food for thought.", By: "lynn", Score: 0}, "moihua": Word{Word: "moihua", Def: "predicate: ‘brain’; ▯ is a brain.", By: "official", Score: 0}, "moijideo": Word{Word: "moijideo", Def: "▯ is a member of the order Mantodea (the mantises).", By: "Hoemai", Score: 0}, "moijoe": Word{Word: "moijoe", Def: "predicate: ‘clever’; ▯ is clever/smart/witty/intelligent.", By: "official", Score: 0}, "moikaq": Word{Word: "moikaq", Def: "▯is imaginary", By: "seaqtaq", Score: 0}, "moikuq": Word{Word: "moikuq", Def: "▯ thinks of saying ▯; ▯ says ▯ in their mind.", By: "uakci", Score: 1}, "moilao": Word{Word: "moilao", Def: "predicate: ‘hesitate’; ▯ hesitates.", By: "official", Score: 0}, "moiluq": Word{Word: "moiluq", Def: "▯ is thoughtful/meditative.", By: "Ilmen", Score: 0}, "moinieq": Word{Word: "moinieq", Def: "predicate: ‘stupid’; ▯ is dumb/stupid/unintelligent.", By: "official", Score: 0}, "moiruaq": Word{Word: "moiruaq", Def: "▯ asserts telephatically ▯ to ▯.", By: "Ilmen", Score: 0}, "moirue": Word{Word: "moirue", Def: "▯ is not sure of themself / feels uncertain", By: "fagri", Score: 0}, "moise": Word{Word: "moise", Def: "predicate: ‘thought’; ▯ is a thought.", By: "official", Score: 0}, "moisi": Word{Word: "moisi", Def: "predicate: ‘ponder’; ▯ ponders / concentrates mentally on ▯.", By: "official", Score: 0}, "moisia": Word{Word: "moisia", Def: "▯ meditates", By: "fagri", Score: 0}, "moiteoq": Word{Word: "moiteoq", Def: "problem", By: "spreadsheet", Score: 0}, "mojeo": Word{Word: "mojeo", Def: "▯ (piece of text) represents a sentence that is true", By: "fagri", Score: 0}, "mokuq": Word{Word: "mokuq", Def: "quote Ⓥ", By: "spreadsheet", Score: 0}, "molai": Word{Word: "molai", Def: "quotation mark (\" ' «)", By: "uakci", Score: 0}, "mole": Word{Word: "mole", Def: "▯ is one mole (measure unit).", By: "Ilmen", Score: 0}, "molekula": Word{Word: "molekula", Def: "molecule", By: "spreadsheet", Score: 0}, "momoi": Word{Word: "momoi", Def: "▯ says ▯ in his/her/their mind.", By: "Ilmen", Score: 0}, "monachu": Word{Word: "monachu", Def: "▯ is a monk.", By: "Ilmen", Score: 0}, "moni": Word{Word: "moni", Def: "moan", By: "spreadsheet", Score: -1}, "monu": Word{Word: "monu", Def: "▯ goes by the lines of the most recent #mo-quote.", By: "uakci", Score: 1}, "moq": Word{Word: "moq", Def: "illocution: ‘?’; interrogative illocution", By: "official", Score: 0}, "moqkuaq": Word{Word: "moqkuaq", Def: "▯ asks ▯ what satisfies the predicate ▯.", By: "Ilmen", Score: 0}, "moqlai": Word{Word: "moqlai", Def: "▯ is a question mark.", By: "lynn", Score: 2}, "moqsuta": Word{Word: "moqsuta", Def: "▯ is a monster", By: "seaqtaq", Score: 0}, "mora": Word{Word: "mora", Def: "mora", By: "spreadsheet", Score: 0}, "morai": Word{Word: "morai", Def: "▯ is a text.", By: "Ilmen", Score: 0}, "mori": Word{Word: "mori", Def: "horse", By: "spreadsheet", Score: -1}, "moruichuq": Word{Word: "moruichuq", Def: "▯ is a member of genus Myrmecophaga (the giant anteater).", By: "Hoemai", Score: 0}, "moruimei": Word{Word: "moruimei", Def: "▯ is a formicary/anthill.", By: "Hoemai", Score: 0}, "mosiu": Word{Word: "mosiu", Def: "(fork of #FE4jfH93T) ▯ goes by the lines of the most recent #mo-quote.", By: "seaqtaq", Score: 0}, "moteo": Word{Word: "moteo", Def: "▯ is a text.", By: "Ilmen", Score: 0}, "mu": Word{Word: "mu", Def: "[pó mí Hủaqchī ga mủı bı:] gủjēo dógū dóshī dósāq da", By: "uakci", Score: 0}, "mu boqbu": Word{Word: "mu boqbu", Def: "▯ isn't prevented by ▯. (= ▯ happens despite ▯.)", By: "lynn", Score: 0}, "mu cha": Word{Word: "mu cha", Def: "manner", By: "spreadsheet", Score: 0}, "mu choqdai": Word{Word: "mu choqdai", Def: "available", By: "spreadsheet", Score: 0}, "mu feu": Word{Word: "mu feu", Def: "annoyed", By: "spreadsheet", Score: -1}, "mu kaqgai ho.": Word{Word: "mu kaqgai ho.", Def: "phrase: \"They are being seen.\"", By: "official", Score: 0}, "mu miu": Word{Word: "mu miu", Def: "according to", By: "spreadsheet", Score: 0}, "mu rioq": Word{Word: "mu rioq", Def: "class (klesi)", By: "spreadsheet", Score: 0}, "mu ru jeao": Word{Word: "mu ru jeao", Def: "▯ and ▯ are in relation ▯, and vice versa.", By: "uakci", Score: 0}, "mu ruo": Word{Word: "mu ruo", Def: "behavior", By: "spreadsheet", Score: 0}, "mu she": Word{Word: "mu she", Def: "▯ is the case only if ▯ is the case; if ▯ is the case, then ▯ is the case; ▯ is a sufficient condition for ▯ to be the case.", By: "Ilmen", Score: 0}, "mu teoqcua": Word{Word: "mu teoqcua", Def: "answer", By: "spreadsheet", Score: 0}, "mua": Word{Word: "mua", Def: "predicate: ‘example’; ▯ is an example of ▯.", By: "official", Score: 0}, "mua kuqtoai mo pu beo suq kiaqreo teo da.": Word{Word: "mua kuqtoai mo pu beo suq kiaqreo teo da.", Def: "(A0570) \"You changed my mind\" is an examplr sentence.", By: "examples", Score: 0}, "muagiq": Word{Word: "muagiq", Def: "▯ is an exception to rule/property ▯", By: "seaqtaq", Score: 0}, "muagiqtao": Word{Word: "muagiqtao", Def: "▯ does ▯ as an exception; ▯ shows mercy in doing ▯; ▯ goes out of their way to do ▯.", By: "uakci", Score: 0}, "muai": Word{Word: "muai", Def: "predicate: ‘umami’; ▯ has an umami taste.", By: "official", Score: 0}, "muao": Word{Word: "muao", Def: "predicate: ‘tree’; ▯ is a tree.", By: "official", Score: 0}, "muaobe": Word{Word: "muaobe", Def: "sapling", By: "spreadsheet", Score: 0}, "muaogie": Word{Word: "muaogie", Def: "tree branch", By: "spreadsheet", Score: 0}, "muaogiekuoq": Word{Word: "muaogiekuoq", Def: "antler", By: "spreadsheet", Score: -1}, "muaogietuaq": Word{Word: "muaogietuaq", Def: "▯ is an antler.", By: "Ilmen", Score: 0}, "muaoguaq": Word{Word: "muaoguaq", Def: "predicate: ‘forest’; ▯ is a forest.", By: "official", Score: 0}, "muaokuoq": Word{Word: "muaokuoq", Def: "wood", By: "spreadsheet", Score: 0}, "muaome": Word{Word: "muaome", Def: "predicate: ‘forest’; ▯ is a forest.", By: "official", Score: 0}, "muaome rei buajio da.": Word{Word: "muaome rei buajio da.", Def: "(A0404) The house is surrounded by forest.", By: "examples", Score: 0}, "muaonui": Word{Word: "muaonui", Def: "shrub", By: "spreadsheet", Score: 0}, "muaopiu": Word{Word: "muaopiu", Def: "▯ is bark of a tree.", By: "lynn", Score: 2}, "muaosai": Word{Word: "muaosai", Def: "(fork of #Ip1S8wNr8) wood", By: "seaqtaq", Score: 1}, "muaose": Word{Word: "muaose", Def: "wood", By: "spreadsheet", Score: -1}, "muaotiehua": Word{Word: "muaotiehua", Def: "bark (of a tree)", By: "spreadsheet", Score: 0}, "muaotuaq": Word{Word: "muaotuaq", Def: "▯ is an antler.", By: "Ilmen", Score: 0}, "muaq": Word{Word: "muaq", Def: "= bu #mỉe", By: "uakci", Score: 0}, "muaqbue": Word{Word: "muaqbue", Def: "grave", By: "spreadsheet", Score: 0}, "muaqbueguaq": Word{Word: "muaqbueguaq", Def: "graveyard", By: "spreadsheet", Score: 0}, "muaqbueme": Word{Word: "muaqbueme", Def: "graveyard", By: "spreadsheet", Score: 0}, "muaqhaqtu": Word{Word: "muaqhaqtu", Def: "▯ is a ghost.", By: "Ilmen", Score: 0}, "muaqhoe": Word{Word: "muaqhoe", Def: "▯ is a stellar remnant (white dwarf, neutron star, black hole…).", By: "Ilmen", Score: 0}, "muaqjuo": Word{Word: "muaqjuo", Def: "▯ is a letter left behind by a person about to die (perhaps expressing their last will); ▯ is a testament/(last) will; ▯ is a death note/suicide note.", By: "uakci", Score: 1}, "muaqkao": Word{Word: "muaqkao", Def: "▯ is an obituary", By: "seaqtaq", Score: 0}, "muaqlua": Word{Word: "muaqlua", Def: "▯ is an obituary", By: "seaqtaq", Score: 0}, "muaqmeo": Word{Word: "muaqmeo", Def: "▯ mourns/grieves over the death of ▯.", By: "Hoemai", Score: 0}, "muaqpeojuo": Word{Word: "muaqpeojuo", Def: "▯ is a will; ▯ is a letter wilfully left behind by a dead person.", By: "uakci", Score: -2}, "muaqsho": Word{Word: "muaqsho", Def: "predicate: ‘die’; ▯ dies.", By: "official", Score: 0}, "muaqsho geo naqreq na, ru shue mie nio liqdeo.": Word{Word: "muaqsho geo naqreq na, ru shue mie nio liqdeo.", Def: "(SRP.7) The old man dies, the young girl lives.", By: "official", Score: 0}, "muaqsho tu hai koe tao ba.": Word{Word: "muaqsho tu hai koe tao ba.", Def: "(A0899) ", By: "examples", Score: 0}, "muaqtiai": Word{Word: "muaqtiai", Def: "▯ is a coffin", By: "seaqtaq", Score: 0}, "muaqtua": Word{Word: "muaqtua", Def: "predicate: ‘kill’; ▯ kills ▯.", By: "official", Score: 0}, "muaqtua naq sa nei soiche paigiq": Word{Word: "muaqtua naq sa nei soiche paigiq", Def: "(A0375) The man killed nine enemy soldiers.", By: "examples", Score: 0}, "muchoa": Word{Word: "muchoa", Def: "to moo", By: "uakci", Score: 0}, "mue": Word{Word: "mue", Def: "There is something such that it and ▯ are in relation ▯ (2); ▯ is [being] ▯-ed.", By: "uakci", Score: 0}, "mui": Word{Word: "mui", Def: "sa dó pỏq bı, rảo gâı dó dógū na môı ra mỉu dó dóshī da\u00a0", By: "uakci", Score: 0}, "mui go hoi toa sa gu da.": Word{Word: "mui go hoi toa sa gu da.", Def: "(A0489) That word has two meanings.", By: "examples", Score: 0}, "mui hi rai ni moq (kio niqchie ji ki)": Word{Word: "mui hi rai ni moq (kio niqchie ji ki)", Def: "(PAR.1) What does this mean? (I'm a beginner)", By: "official", Score: 0}, "mui hi rai shu ‹ sueta › moq.": Word{Word: "mui hi rai shu ‹ sueta › moq.", Def: "(A0488) What does \"sueta\" mean?", By: "examples", Score: 0}, "muibo": Word{Word: "muibo", Def: "symbol", By: "spreadsheet", Score: 0}, "muichuo": Word{Word: "muichuo", Def: "predicate: 'argument'; ◌ is an argument of predicate ◌ filling place number ◌ .", By: "lackafi", Score: 0}, "muicia": Word{Word: "muicia", Def: "▯ is asemic/meaningless (w/o negative connotation)", By: "seaqtaq", Score: 0}, "muidao": Word{Word: "muidao", Def: "▯ is a definition of ▯.", By: "Ilmen", Score: 0}, "muideoq": Word{Word: "muideoq", Def: "explain", By: "spreadsheet", Score: -1}, "muidiu": Word{Word: "muidiu", Def: "▯ is the field of Semantics", By: "seaqtaq", Score: 0}, "muidoa": Word{Word: "muidoa", Def: "▯ explains fact ▯ to ▯.", By: "uakci", Score: 0}, "muidua": Word{Word: "muidua", Def: "predicate: ‘understand’; ▯ understands the meaning of ▯.", By: "official", Score: 0}, "muidua ho bu po sa rai kuq ji hoa da.": Word{Word: "muidua ho bu po sa rai kuq ji hoa da.", Def: "(A0280) He doesn't understand anything that I say.", By: "examples", Score: 0}, "muidua ji bu.": Word{Word: "muidua ji bu.", Def: "(ADV.3) I don't understand.", By: "official", Score: 0}, "muidue": Word{Word: "muidue", Def: "▯ is semantically correct.", By: "lynn", Score: 2}, "muifuaq": Word{Word: "muifuaq", Def: "graph, diagram", By: "uakci", Score: 1}, "muigi": Word{Word: "muigi", Def: "▯ is positive in meaning; ▯ has positive connotations ▯.", By: "uakci", Score: 0}, "muihieq": Word{Word: "muihieq", Def: "▯ is a form of speech whose particular form includes, among others, repetition of form and already known facts which do not contribute to the statement the speaker aims to make, use of refined vocabulary which, despite this, contains many and a lot of synonyms and words with meaning similar to each other, and an abundance of appositive phrases – periphrastic expressions, too – reintroductions of the same idea cloaked in different words, and also interjecting sentences – do you see now? – and s-st-stuttering and, uhm, what was I saying?, hesitation, too, not to mention long lists; ▯ is verbose.", By: "uakci", Score: 1}, "muihui": Word{Word: "muihui", Def: "▯ is pejorative; ▯ carries negative connotations ▯.", By: "uakci", Score: 0}, "muijeq": Word{Word: "muijeq", Def: "▯ means the same thing as ▯.", By: "lynn", Score: 0}, "muijeqkuq": Word{Word: "muijeqkuq", Def: "▯ says something with the same meaning as ▯ to ▯.", By: "lynn", Score: 0}, "muijuq": Word{Word: "muijuq", Def: "understand", By: "spreadsheet", Score: 0}, "muikuq": Word{Word: "muikuq", Def: "explain", By: "spreadsheet", Score: 0}, "muilai": Word{Word: "muilai", Def: "▯ is an ideogram, ideograph, logogram.", By: "uakci", Score: 0}, "muilaime": Word{Word: "muilaime", Def: "▯ is a logographic writing system.", By: "uakci", Score: 0}, "muiliaq": Word{Word: "muiliaq", Def: "▯ is a synonym of ▯ ", By: "seaqtaq", Score: 1}, "muimiu": Word{Word: "muimiu", Def: "▯ thinks that ▯ is what ▯ means.", By: "uakci", Score: 0}, "muitiao": Word{Word: "muitiao", Def: "▯ (idea, plan, utterance) is coherent/sensible", By: "seaqtaq", Score: 0}, "muitoa": Word{Word: "muitoa", Def: "verb", By: "spreadsheet", Score: 0}, "muitoai": Word{Word: "muitoai", Def: "▯ is a sememe", By: "seaqtaq", Score: 0}, "muka": Word{Word: "muka", Def: "▯ is a musk deer.", By: "Ilmen", Score: 0}, "mumefaq": Word{Word: "mumefaq", Def: "▯ takes place in a non-continous way, as a bunch of disconnected chunks.", By: "Ilmen", Score: 0}, "muo": Word{Word: "muo", Def: "predicate: ‘whole’; ▯ is whole/complete in aspect ▯.", By: "official", Score: 0}, "muo gi": Word{Word: "muo gi", Def: "predicate: ‘perfect’; ▯ is perfect.", By: "official", Score: 0}, "muobushai": Word{Word: "muobushai", Def: "The event ▯ ceases to take place before reaching completion.", By: "Ilmen", Score: 0}, "muofaq": Word{Word: "muofaq", Def: "co'i", By: "spreadsheet", Score: 0}, "muoi": Word{Word: "muoi", Def: "predicate: ‘rotate’; ▯ rotates/spins/turns.", By: "official", Score: 0}, "muoi ho kui pua jai ru ca jeaq poho *kashi li gea ru nea da.": Word{Word: "muoi ho kui pua jai ru ca jeaq poho *kashi li gea ru nea da.", Def: "(A0993) ", By: "examples", Score: 0}, "muoiduo": Word{Word: "muoiduo", Def: "roll (gunro)", By: "spreadsheet", Score: 0}, "muoimuo": Word{Word: "muoimuo", Def: "▯ undergoes a complete rotation (one turn, 360°).", By: "Ilmen", Score: 0}, "muoine": Word{Word: "muoine", Def: "▯ is the number of turns spun by rotating object ▯.", By: "Ilmen", Score: 0}, "muoipoechuo": Word{Word: "muoipoechuo", Def: "▯ is a screw.", By: "Ilmen", Score: 0}, "muoiriai": Word{Word: "muoiriai", Def: "▯ is an axle.", By: "Ilmen", Score: 0}, "muoishoai": Word{Word: "muoishoai", Def: "▯ is a (bladed) propeller/screw (for boats/aircrafts).", By: "Ilmen", Score: 0}, "muoishoaichao": Word{Word: "muoishoaichao", Def: "▯ is a helicopter.", By: "Ilmen", Score: 0}, "muomie": Word{Word: "muomie", Def: "▯ is a living being/organism.", By: "Ilmen", Score: 0}, "muopaq": Word{Word: "muopaq", Def: "(fork of #mSjWmJDoN) ▯ is a whole/entirety", By: "seaqtaq", Score: 0}, "muoq": Word{Word: "muoq", Def: "pảq dóshī sa tóaı lủ rỉoq hóa dógū da", By: "uakci", Score: 0}, "muoq maq baq shia da.": Word{Word: "muoq maq baq shia da.", Def: "(A0050) It's made of glass.", By: "examples", Score: 0}, "muoq ni chuai noai roi keaq duaoboe da.": Word{Word: "muoq ni chuai noai roi keaq duaoboe da.", Def: "(A0968) This is made of frozen milk and salty cookies.", By: "examples", Score: 0}, "muoqfiu": Word{Word: "muoqfiu", Def: "▯ is sparse.", By: "uakci", Score: 0}, "muoqjaq": Word{Word: "muoqjaq", Def: "▯ is massive.", By: "Ilmen", Score: 0}, "muoqmu": Word{Word: "muoqmu", Def: "matter", By: "spreadsheet", Score: 0}, "muoqne": Word{Word: "muoqne", Def: "mass (physics)", By: "spreadsheet", Score: 0}, "muoqpui": Word{Word: "muoqpui", Def: "▯ is heterogenous.", By: "uakci", Score: 0}, "muoqpuq": Word{Word: "muoqpuq", Def: "#muoqpui", By: "uakci", Score: 0}, "muoqrieqsoa": Word{Word: "muoqrieqsoa", Def: "rescue", By: "spreadsheet", Score: 0}, "muoqshi": Word{Word: "muoqshi", Def: "▯ is homogenous.", By: "uakci", Score: 0}, "muoqshoa": Word{Word: "muoqshoa", Def: "▯ is dense.", By: "uakci", Score: 0}, "muoqtoai": Word{Word: "muoqtoai", Def: "▯ is an atom.", By: "uakci", Score: 0}, "muoqtuao": Word{Word: "muoqtuao", Def: "▯ has a small mass.", By: "Ilmen", Score: 0}, "muoseu": Word{Word: "muoseu", Def: "▯ is an integer/natural number.", By: "Ilmen", Score: 0}, "muotua": Word{Word: "muotua", Def: "predicate: ‘mend’; ▯ mends ▯; ▯ makes ▯ whole; ▯ completes ▯.", By: "official", Score: 0}, "muq": Word{Word: "muq", Def: "hủa dóshī, na ru chủo dóshī lî jỉaı da", By: "uakci", Score: 0}, "muqcea": Word{Word: "muqcea", Def: "predicate: ‘handbag’; ▯ is a handbag.", By: "official", Score: 0}, "muqchei": Word{Word: "muqchei", Def: "predicate: ‘finger’; ▯ is a finger.", By: "official", Score: 0}, "muqcheibea": Word{Word: "muqcheibea", Def: "▯ is a knuckle (finger joint).", By: "Ilmen", Score: 0}, "muqdapa": Word{Word: "muqdapa", Def: "▯ is a hand palm.", By: "Ilmen", Score: 0}, "muqdea": Word{Word: "muqdea", Def: "predicate: ‘punch’; ▯ punches ▯.", By: "official", Score: 0}, "muqdoa": Word{Word: "muqdoa", Def: "▯ hands ▯ to ▯ (gives it by putting it in their hand(s)).", By: "lynn", Score: 0}, "muqdoa suq cu ji ba.": Word{Word: "muqdoa suq cu ji ba.", Def: "(A0465) Hand (it) to me.", By: "examples", Score: 0}, "muqdoa suq cu ji sa shiabio saheq nao ba.": Word{Word: "muqdoa suq cu ji sa shiabio saheq nao ba.", Def: "(A0343)  me a glass of water.", By: "examples", Score: 0}, "muqfuq": Word{Word: "muqfuq", Def: "predicate: ‘glove’; ▯ is a glove.", By: "official", Score: 0}, "muqgiu": Word{Word: "muqgiu", Def: "▯ is a natural line on the skin of a person's hand", By: "fagri", Score: 0}, "muqhie": Word{Word: "muqhie", Def: "▯ carries ▯ with their hand(s).", By: "Ilmen", Score: 0}, "muqhio": Word{Word: "muqhio", Def: "▯ waves hello/goodbye at ▯.", By: "lynn", Score: 0}, "muqjeibea": Word{Word: "muqjeibea", Def: "predicate: ‘knuckle’; ▯ is a knuckle.", By: "official", Score: 0}, "muqjīai": Word{Word: "muqjīai", Def: "▯holds hands with▯", By: "seaqtaq", Score: 0}, "muqjoe": Word{Word: "muqjoe", Def: "dexterous", By: "uakci", Score: 0}, "muqkai": Word{Word: "muqkai", Def: "▯ handwrites ▯.", By: "Ilmen", Score: 1}, "muqnua": Word{Word: "muqnua", Def: "▯ grabs/takes by hand ▯ from ▯.", By: "lynn", Score: 0}, "muqse": Word{Word: "muqse", Def: "▯ is a handprint", By: "seaqtaq", Score: 0}, "muqseaq": Word{Word: "muqseaq", Def: "▯ fists ▯", By: "seaqtaq", Score: 0}, "muqshoai": Word{Word: "muqshoai", Def: "▯ is a member of the order Chiroptera (the bats).", By: "Hoemai", Score: 0}, "muqtoq": Word{Word: "muqtoq", Def: "▯ is the palm of a hand.", By: "uakci", Score: 0}, "musasabi": Word{Word: "musasabi", Def: "▯ is a Japanese giant flying squirrel (species: Petaurista leucogenys).", By: "uakci", Score: 0}, "muse": Word{Word: "muse", Def: "mouse", By: "spreadsheet", Score: 0}, "musekea": Word{Word: "musekea", Def: "▯ is a computer mouse.", By: "Ilmen", Score: 0}, "musela": Word{Word: "musela", Def: "▯ is a weasel (Mustela taxonomic genus).", By: "Ilmen", Score: 0}, "muselasiu": Word{Word: "muselasiu", Def: "▯ belongs to the Mustelidae taxonomic family.", By: "Ilmen", Score: 0}, "musenui": Word{Word: "musenui", Def: "▯ is a house mouse.", By: "Ilmen", Score: 0}, "m̄": Word{Word: "m̄", Def: "hesitation", By: "uakci", Score: 0}, "na": Word{Word: "na", Def: "terminator: ‘END’; terminate statement", By: "official", Score: 0}, "nabe": Word{Word: "nabe", Def: "▯ is a wave (moving disturbance).", By: "Ilmen", Score: 0}, "nabeho": Word{Word: "nabeho", Def: "▯ pertains to the Navajo/Diné culture.", By: "Ilmen", Score: 0}, "nadeq": Word{Word: "nadeq", Def: "▯ is an adder; ▯ is a nadder.", By: "uakci", Score: 0}, "naga": Word{Word: "naga", Def: "▯ is a member of genus Naja (the cobras).", By: "Hoemai", Score: 0}, "nahi": Word{Word: "nahi", Def: "▯ is neither the case nor not the case; ▯ neither satisfies nor not satisfies property ▯.", By: "uakci", Score: 0}, "nai": Word{Word: "nai", Def: "rảo dóshī kûq jí ní da", By: "uakci", Score: 0}, "nai fa ji sa jao": Word{Word: "nai fa ji sa jao", Def: "(B0050) Now I am going away", By: "examples", Score: 0}, "nai hi rai moq.": Word{Word: "nai hi rai moq.", Def: "(A0167) What is happening?", By: "examples", Score: 0}, "nai sho muo tua dua ji suq tu lu dua ji hoa po poq geo da. ": Word{Word: "nai sho muo tua dua ji suq tu lu dua ji hoa po poq geo da. ", Def: "(A0980) Now I have told you all I know about the person.", By: "examples", Score: 0}, "naichaq": Word{Word: "naichaq", Def: "today", By: "uakci", Score: 0}, "naife": Word{Word: "naife", Def: "▯ is naïve.", By: "uakci", Score: 0}, "naijui": Word{Word: "naijui", Def: "jủı rảo dóshī sa náı da", By: "uakci", Score: 0}, "naipu": Word{Word: "naipu", Def: "▯ just happened; ▯ just satisfied property ▯", By: "fagri", Score: 0}, "nali": Word{Word: "nali", Def: "back (body part)", By: "spreadsheet", Score: 0}, "namako": Word{Word: "namako", Def: "▯ is something extra / seasoning / an embellishment / accessory in/on ▯.", By: "lynn", Score: 0}, "nanasa": Word{Word: "nanasa", Def: "▯ is a member of genus Ananas (the pineapple and similar plants).", By: "Hoemai", Score: 0}, "nane": Word{Word: "nane", Def: "most (more than half)", By: "spreadsheet", Score: 0}, "nani": Word{Word: "nani", Def: "▯ exclames in suprise, fright, or frustration", By: "seaqtaq", Score: 0}, "nanidafa": Word{Word: "nanidafa", Def: "(fork of #736TGHimz) ▯ exclames in suprise, fright, or frustration", By: "seaqtaq", Score: 1}, "nano": Word{Word: "nano", Def: "mean, average", By: "spreadsheet", Score: -1}, "nao": Word{Word: "nao", Def: "predicate: ‘water’; ▯ is water.", By: "official", Score: 0}, "naobeq": Word{Word: "naobeq", Def: "▯ is a wave (at the surface of a liquid).", By: "Ilmen", Score: 0}, "naobuaq(moe)": Word{Word: "naobuaq(moe)", Def: "(fork of #zh_7vMEmt) ▯ feels as if they are repeatedly taking water in their hands, only to watch it consistently fall out (a specific type of frustration)\u00a0", By: "seaqtaq", Score: 0}, "naocheoq": Word{Word: "naocheoq", Def: "▯ is a water bottle", By: "fagri", Score: 0}, "naochiohuaimoe": Word{Word: "naochiohuaimoe", Def: "▯ feels as if they are repeatedly taking water in their hands, only to watch it consistently fall out (a specific type of frustration)\u00a0", By: "seaqtaq", Score: 0}, "naoduo": Word{Word: "naoduo", Def: "flow", By: "spreadsheet", Score: 0}, "naofa": Word{Word: "naofa", Def: "swim", By: "spreadsheet", Score: 0}, "naogoaq": Word{Word: "naogoaq", Def: "▯ is slippery", By: "seaqtaq", Score: 0}, "naoguaq": Word{Word: "naoguaq", Def: "predicate: ‘island’; ▯ is an island.", By: "official", Score: 0}, "naohaq": Word{Word: "naohaq", Def: "▯ is soup.", By: "Ilmen", Score: 0}, "naojeoq": Word{Word: "naojeoq", Def: "▯ is a well", By: "seaqtaq", Score: 0}, "naokua": Word{Word: "naokua", Def: "predicate: ‘bathroom’; ▯ is a bathroom.", By: "official", Score: 0}, "naoloha": Word{Word: "naoloha", Def: "▯ is mercury", By: "seaqtaq", Score: 1}, "naoloqchuo": Word{Word: "naoloqchuo", Def: "▯ is a kettle.", By: "uakci", Score: 0}, "naomiq": Word{Word: "naomiq", Def: "sea", By: "spreadsheet", Score: -1}, "naomiqrea": Word{Word: "naomiqrea", Def: "coast", By: "spreadsheet", Score: -1}, "naoneo": Word{Word: "naoneo", Def: "▯ floats.", By: "Ilmen", Score: 0}, "naoniai": Word{Word: "naoniai", Def: "predicate: ‘aquatic.life’; ▯ is an aquatic life form.", By: "official", Score: 0}, "naonie": Word{Word: "naonie", Def: "▯ is immersed.", By: "Ilmen", Score: 0}, "naoniu": Word{Word: "naoniu", Def: "▯ is an alga/seaweed.", By: "Ilmen", Score: 0}, "naonuli": Word{Word: "naonuli", Def: "oil", By: "spreadsheet", Score: 0}, "naosai": Word{Word: "naosai", Def: "▯ is liquid.", By: "lynn", Score: 1}, "naosho": Word{Word: "naosho", Def: "▯ melts/liquefies.", By: "Ilmen", Score: 0}, "naoshoai": Word{Word: "naoshoai", Def: "▯ is a fin (body part).", By: "Ilmen", Score: 0}, "naoshua": Word{Word: "naoshua", Def: "▯ sinks.", By: "Ilmen", Score: 0}, "naoshuo": Word{Word: "naoshuo", Def: "▯ is a water reservoir.", By: "lynn", Score: 0}, "naosiao": Word{Word: "naosiao", Def: "▯ is a water spring.", By: "Ilmen", Score: 0}, "naosiqtua": Word{Word: "naosiqtua", Def: "▯ washes ▯.", By: "Ilmen", Score: 0}, "naosiu": Word{Word: "naosiu", Def: "▯ is liquid", By: "fagri", Score: 0}, "naosiusho": Word{Word: "naosiusho", Def: "melt", By: "spreadsheet", Score: 0}, "naosuhu": Word{Word: "naosuhu", Def: "capybara", By: "spreadsheet", Score: 0}, "naoti": Word{Word: "naoti", Def: "▯ is at least partly immersed (in ▯).", By: "Ilmen", Score: 0}, "naq": Word{Word: "naq", Def: "jủı rủo dóshī sa báq lủ pảq go hóa sa pésō da", By: "uakci", Score: 0}, "naq baka": Word{Word: "naq baka", Def: "▯ is a bull", By: "seaqtaq", Score: 0}, "naq boke": Word{Word: "naq boke", Def: "(fork of #h622eAidK) ▯ is a bull", By: "seaqtaq", Score: 0}, "naq heaq hoa toechuo pa choidea sa puq poq naipu da.": Word{Word: "naq heaq hoa toechuo pa choidea sa puq poq naipu da.", Def: "(A0997) As for the man carrying the knife, he just stabbed the people.", By: "examples", Score: 0}, "naqdeo": Word{Word: "naqdeo", Def: "predicate: ‘boy’; ▯ is a boy.", By: "official", Score: 0}, "naqdeo soq koaq bi choakuq poi hiaodaisi": Word{Word: "naqdeo soq koaq bi choakuq poi hiaodaisi", Def: "(B0031) The oldest boy spoke carefully", By: "examples", Score: 0}, "naqfu": Word{Word: "naqfu", Def: "predicate: ‘son’; ▯ is a son (male biological offspring) of ▯.", By: "official", Score: 0}, "naqfu sa diai ji da.": Word{Word: "naqfu sa diai ji da.", Def: "(A0737) I have seven sons.", By: "examples", Score: 0}, "naqgame": Word{Word: "naqgame", Def: "spermatozoid", By: "spreadsheet", Score: -1}, "naqgoso": Word{Word: "naqgoso", Def: "▯ is a rooster/cock of genus Gallus; ▯ is a male chicken.", By: "Hoemai", Score: 0}, "naqliq": Word{Word: "naqliq", Def: "▯ is both male and female or neither male nor female.", By: "uakci", Score: 0}, "naqpao": Word{Word: "naqpao", Def: "predicate: ‘father’; ▯ is a father of ▯; acts as a father towards ▯.", By: "official", Score: 0}, "naqpaoguqkiaq": Word{Word: "naqpaoguqkiaq", Def: "▯ is candy floss / cotton candy.", By: "uakci", Score: 0}, "naqpia": Word{Word: "naqpia", Def: "predicate: ‘brother’; ▯ is a brother of ▯.", By: "official", Score: 0}, "naqreq": Word{Word: "naqreq", Def: "predicate: ‘man’; ▯ is a male human; ▯ is a man.", By: "official", Score: 0}, "naqroaq": Word{Word: "naqroaq", Def: "predicate: ‘father’; ▯ is a biological father of ▯.", By: "official", Score: 0}, "naqroiliq": Word{Word: "naqroiliq", Def: "▯ is non-binary.", By: "uakci", Score: 0}, "naqseaqnao": Word{Word: "naqseaqnao", Def: "▯ is cum/semen/ejaculate", By: "fagri", Score: 0}, "naqseo": Word{Word: "naqseo", Def: "predicate: ‘husband’; ▯ is a husband of ▯.", By: "official", Score: 0}, "naqsiuliq": Word{Word: "naqsiuliq", Def: "▯ is a butch, a male-seeming female.", By: "uakci", Score: 0}, "naraq": Word{Word: "naraq", Def: "predicate: ‘orange’; ▯ is the colour orange.", By: "official", Score: 0}, "naraqchaq": Word{Word: "naraqchaq", Def: "predicate: ‘tuesday’; ▯ is a Tuesday.", By: "official", Score: 0}, "naraqreo": Word{Word: "naraqreo", Def: "predicate: ‘orange’; ▯ is of orange colour.", By: "official", Score: 0}, "nasa": Word{Word: "nasa", Def: "fenki", By: "spreadsheet", Score: 0}, "ne": Word{Word: "ne", Def: "tẻoqtīao dóshī tıo jâq dógū lî jẻo ja dó da", By: "uakci", Score: 0}, "nea": Word{Word: "nea", Def: "predicate: ‘wide’; ▯ is wide/broad.", By: "official", Score: 0}, "neagiq": Word{Word: "neagiq", Def: "narrow", By: "spreadsheet", Score: 0}, "neaq": Word{Word: "neaq", Def: "predicate: ‘sand’; ▯ is sand.", By: "official", Score: 0}, "neaqguaq": Word{Word: "neaqguaq", Def: "desert", By: "spreadsheet", Score: 0}, "neaqmei": Word{Word: "neaqmei", Def: "▯ is a sandhill.", By: "Ilmen", Score: 0}, "neaqpio": Word{Word: "neaqpio", Def: "▯ is sandstone", By: "seaqtaq", Score: 0}, "neaqrea": Word{Word: "neaqrea", Def: "▯ is a beach.", By: "Xeizzen", Score: 0}, "nebo": Word{Word: "nebo", Def: "the amount that ▯ is the case is ▯.", By: "Ilmen", Score: 0}, "nechu": Word{Word: "nechu", Def: "no'e", By: "spreadsheet", Score: 0}, "nedelaq": Word{Word: "nedelaq", Def: "▯ is Dutch / is of the Netherlands, its languages or people.", By: "lynn", Score: 0}, "nedelaqgua": Word{Word: "nedelaqgua", Def: "▯ is the Netherlands.", By: "lynn", Score: 0}, "nedelaqtoaq": Word{Word: "nedelaqtoaq", Def: "▯ is the Dutch language.", By: "lynn", Score: 0}, "nefuaq": Word{Word: "nefuaq", Def: "chart", By: "uakci", Score: 1}, "nego": Word{Word: "nego", Def: "the amount that ▯ is the case is ▯.", By: "Ilmen", Score: 0}, "nehuaq": Word{Word: "nehuaq", Def: "▯ is more the case than ▯ is the case.", By: "Ilmen", Score: 0}, "nei": Word{Word: "nei", Def: "isn't it?, consensus-seeking particle", By: "spreadsheet", Score: 0}, "neijue": Word{Word: "neijue", Def: "▯ is September", By: "lynn", Score: 1}, "neiko": Word{Word: "neiko", Def: "predicate: ‘ninth’; ▯ is ninth among ▯.", By: "official", Score: 0}, "neini": Word{Word: "neini", Def: "energy", By: "spreadsheet", Score: 0}, "nejeq": Word{Word: "nejeq", Def: "▯ and ▯ have the property ▯ to the same degree/extent; ▯ and ▯ are equal in their degree in satisfying property ▯.", By: "Ilmen", Score: 0}, "nemu": Word{Word: "nemu", Def: "the amount that ▯ is the case is ▯.", By: "Ilmen", Score: 0}, "nene": Word{Word: "nene", Def: "▯ is true in amount ▯", By: "fagri", Score: 0}, "neo": Word{Word: "neo", Def: "predicate: ‘on’; ▯ is on ▯.", By: "official", Score: 0}, "neo kue deaq guq toqfua da.": Word{Word: "neo kue deaq guq toqfua da.", Def: "(A0077) The book is on the floor underneath the table.", By: "examples", Score: 0}, "neo kue toqfua da.": Word{Word: "neo kue toqfua da.", Def: "(A0322) The book is on the table.", By: "examples", Score: 0}, "neo pui shiapoaqse ni koitieq da.": Word{Word: "neo pui shiapoaqse ni koitieq da.", Def: "(A0969) Many pieces of broken glass are on this walking way.", By: "examples", Score: 0}, "neo puqho sa sao nuofua da.": Word{Word: "neo puqho sa sao nuofua da.", Def: "(A0307) They are on a big bed.", By: "examples", Score: 0}, "neo sa pui chao ni chaotieq da.": Word{Word: "neo sa pui chao ni chaotieq da.", Def: "(A0702) There are many cars on this road.", By: "examples", Score: 0}, "neo toqfua": Word{Word: "neo toqfua", Def: "(FRG.1) on the table", By: "official", Score: 0}, "neoq": Word{Word: "neoq", Def: "predicate: ‘mr/mrs’; ▯ is a Mr./Mrs./Ms./Miss.", By: "official", Score: 0}, "neoq suq": Word{Word: "neoq suq", Def: "▯ is you (polite pronoun).", By: "Ilmen", Score: 0}, "neoqsoq": Word{Word: "neoqsoq", Def: "▯ is His/Her/Their Highness/Majesty.", By: "Ilmen", Score: 0}, "neq": Word{Word: "neq", Def: "kủı dóshī sa lú to ru rảq hóa dógū to bủ dảı dûa sa ráı sa ráı lỉ sa dó bı jẻı jêonē dó hóa na ja ráı da", By: "uakci", Score: 0}, "neqcitoq": Word{Word: "neqcitoq", Def: "▯ is a die/dice.", By: "Ilmen", Score: 1}, "neqdoa": Word{Word: "neqdoa", Def: "▯ wishes (to person) ▯ that ▯ happens.", By: "uakci", Score: 0}, "neqfao": Word{Word: "neqfao", Def: "fate", By: "spreadsheet", Score: 0}, "neqfaq": Word{Word: "neqfaq", Def: "▯ happens randomly / unpredictably.", By: "lynn", Score: 0}, "neqjoi": Word{Word: "neqjoi", Def: "▯ is coincidental to ▯(and ▯ and ▯ and ▯...)", By: "seaqtaq", Score: 0}, "neqkui": Word{Word: "neqkui", Def: "▯ is random; ▯ depends on random event ▯; ▯ is a stochastic process of stochastic variable(s) ▯.", By: "uakci", Score: 0}, "neqnieq": Word{Word: "neqnieq", Def: "▯ is bad at ▯, which is fatal for them; ▯ has tragic weak spot (Achilles hill) ▯.", By: "uakci", Score: 0}, "nerea": Word{Word: "nerea", Def: "▯(amount) is the the capacity of ▯(c)", By: "seaqtaq", Score: 0}, "nerie": Word{Word: "nerie", Def: "no'e", By: "spreadsheet", Score: 0}, "nesie": Word{Word: "nesie", Def: "Sequence ▯ is sorted by property ▯; an element in sequence ▯ comes earlier if it scores higher on scale ▯.", By: "uakci", Score: 0}, "netoame": Word{Word: "netoame", Def: "▯ is a linguistic system for describing amounts (e.g. weights, lengths, times, etc)", By: "fagri", Score: 0}, "neu": Word{Word: "neu", Def: "tu dójēq pěı dógū hóa na tu dóhēo pěı dósāq hóa bı, pẻı dóshī tu lú tu dó bı jẻojēq mêa dó hóa na mêa dó dójēq ra dóhēo ceı jèojēq mêa sıa ráı dójēq ru dóhēo da", By: "uakci", Score: 0}, "neu go": Word{Word: "neu go", Def: "▯ = ▯ − ▯.", By: "Ilmen", Score: 0}, "ni": Word{Word: "ni", Def: "gảıkīu dóshī, na ru lủ pủjūı cẻo rảqkūq jí hóa na dóshī da.", By: "uakci", Score: 0}, "ni bỉo pa, pojī ri posuq moq.": Word{Word: "ni bỉo pa, pojī ri posuq moq.", Def: "(A0407) This cup, is it mine or yours?", By: "examples", Score: 0}, "ni kaqhua pa mioreo da.": Word{Word: "ni kaqhua pa mioreo da.", Def: "(A0200) This eye is blue.", By: "examples", Score: 0}, "ni liqdeo bi ruaq ho lu fu ho suq da.": Word{Word: "ni liqdeo bi ruaq ho lu fu ho suq da.", Def: "(A0302) This girl said she was your daughter.", By: "examples", Score: 0}, "ni niai pa bua ti ti baq niao da.": Word{Word: "ni niai pa bua ti ti baq niao da.", Def: "(A0318) This animal lives where there is snow.", By: "examples", Score: 0}, "ni pa mea lu pai hoa ji da.": Word{Word: "ni pa mea lu pai hoa ji da.", Def: "(A0291) This is one of my friends.", By: "examples", Score: 0}, "ni saq jeatoai bi sue teq cu neifueneiheinei ka.": Word{Word: "ni saq jeatoai bi sue teq cu neifueneiheinei ka.", Def: "(A0999) As for these 3 transactions, there was promise of paying the 999 (dollars).", By: "examples", Score: 0}, "nia": Word{Word: "nia", Def: "predicate: ‘low’; ▯ is low.", By: "official", Score: 0}, "niai": Word{Word: "niai", Def: "predicate: ‘animal’; ▯ is an animal.", By: "official", Score: 0}, "niaichita": Word{Word: "niaichita", Def: "▯ is an animal-tag (used by a pet's caregiver to mark the pet in case it gets lost)", By: "fagri", Score: -1}, "niaidiu": Word{Word: "niaidiu", Def: "biology", By: "spreadsheet", Score: -1}, "niaidīu": Word{Word: "niaidīu", Def: "▯ is zoology.", By: "lynn", Score: 1}, "niaihaq": Word{Word: "niaihaq", Def: "meat", By: "spreadsheet", Score: 0}, "niaise": Word{Word: "niaise", Def: "▯ is an animal product.", By: "lynn", Score: 1}, "niaisechuqbu": Word{Word: "niaisechuqbu", Def: "▯ is a vegan", By: "fagri", Score: 0}, "niaiserieq": Word{Word: "niaiserieq", Def: "▯ is a vegan.", By: "lynn", Score: 1}, "niaiserieqchuaq": Word{Word: "niaiserieqchuaq", Def: "▯ is veganism.", By: "lynn", Score: 0}, "niaisoaq": Word{Word: "niaisoaq", Def: "▯ is a zoo/zoological garden.", By: "Hoemai", Score: 0}, "nianua": Word{Word: "nianua", Def: "(fork of official) predicate: ‘lower’; ▯ lowers ▯ down.", By: "seaqtaq", Score: 0}, "niao": Word{Word: "niao", Def: "predicate: ‘snow’; ▯ is snow.", By: "official", Score: 0}, "niao(neo)koi": Word{Word: "niao(neo)koi", Def: "▯ skiis (on snow)", By: "seaqtaq", Score: 0}, "niaoshua": Word{Word: "niaoshua", Def: "predicate: ‘snow’; It snows; ▯ snows; ▯ snows onto ▯.", By: "official", Score: 0}, "niaoshua.": Word{Word: "niaoshua.", Def: "phrase: \"It's snowing.\"", By: "official", Score: 0}, "niaq": Word{Word: "niaq", Def: "predicate: ‘year’; ▯ is a year.", By: "official", Score: 0}, "niaqchaq": Word{Word: "niaqchaq", Def: "(fork of #UbHqsxIBR) ▯ is the anniversary of ▯\u00a0", By: "seaqtaq", Score: 0}, "niaqchui": Word{Word: "niaqchui", Def: "▯ takes place early in the year.", By: "Ilmen", Score: 0}, "niaqdiaq": Word{Word: "niaqdiaq", Def: "predicate: ‘annual’; ▯ is annual.", By: "official", Score: 0}, "niaqfue": Word{Word: "niaqfue", Def: "century", By: "spreadsheet", Score: 0}, "niaqgu": Word{Word: "niaqgu", Def: "▯ is a two-year period.", By: "lynn", Score: 0}, "niaqhei": Word{Word: "niaqhei", Def: "decade", By: "spreadsheet", Score: 0}, "niaqko": Word{Word: "niaqko", Def: "▯ is the year number ▯ in calendar system ▯.", By: "Ilmen", Score: 0}, "niaqne": Word{Word: "niaqne", Def: "▯ is the duration of a year (multiplied by ▯).", By: "Ilmen", Score: -1}, "niaqreoq": Word{Word: "niaqreoq", Def: "▯ takes place late in the year.", By: "Ilmen", Score: 0}, "niashiaq": Word{Word: "niashiaq", Def: "▯ is a lower leg; ▯ is a calf.", By: "uakci", Score: 0}, "nichaq": Word{Word: "nichaq", Def: "predicate: ‘today’; ▯ is today.", By: "official", Score: 0}, "nichaq bi ...": Word{Word: "nichaq bi ...", Def: "(FRG.2) about today ...", By: "official", Score: 0}, "nichaq bi bu daqshei ji.": Word{Word: "nichaq bi bu daqshei ji.", Def: "(PRX.2) As for today, I don't have time.", By: "official", Score: 0}, "nidaq": Word{Word: "nidaq", Def: "predicate: ‘now’; ▯ is the now.", By: "official", Score: 0}, "nidaqriaq": Word{Word: "nidaqriaq", Def: "here and now", By: "spreadsheet", Score: 0}, "nidaqtiao": Word{Word: "nidaqtiao", Def: "modern", By: "spreadsheet", Score: 0}, "nie": Word{Word: "nie", Def: "predicate: ‘inside’; ▯ is inside ▯.", By: "official", Score: 0}, "nie kamera poji cea da.": Word{Word: "nie kamera poji cea da.", Def: "(A0533) The camera is in my bag.", By: "examples", Score: 0}, "nie ni heqchuo naoti bi taq naosiqtua bu ba.": Word{Word: "nie ni heqchuo naoti bi taq naosiqtua bu ba.", Def: "(A0990) In this submerged container, do not bath yourself.", By: "examples", Score: 0}, "nie sa heijo poq kua.": Word{Word: "nie sa heijo poq kua.", Def: "(NUM.2) There are fourteen people inside the room.", By: "official", Score: 0}, "nie sa poq naokua da.": Word{Word: "nie sa poq naokua da.", Def: "(A0303) Someone is in the bathroom.", By: "examples", Score: 0}, "niefa": Word{Word: "niefa", Def: "predicate: ‘enter’; ▯ enters / goes inside ▯.", By: "official", Score: 0}, "niefa suq nijao kua ba.": Word{Word: "niefa suq nijao kua ba.", Def: "(A0232) You ought to go inside that room.", By: "examples", Score: 0}, "niehua": Word{Word: "niehua", Def: "inner organs", By: "spreadsheet", Score: 0}, "nienua": Word{Word: "nienua", Def: "▯ empties ▯.", By: "Ilmen", Score: 0}, "nieq": Word{Word: "nieq", Def: "predicate: ‘unskilled’; ▯ is unskilled at satisfying property ▯.", By: "official", Score: 0}, "nieq moaq ji da.": Word{Word: "nieq moaq ji da.", Def: "(A0109) I have a bad memory.", By: "examples", Score: 0}, "nieshua": Word{Word: "nieshua", Def: "predicate: ‘fall.in’; ▯ falls into ▯.", By: "official", Score: 0}, "nietua": Word{Word: "nietua", Def: "predicate: ‘insert’; ▯ puts ▯ inside ▯.", By: "official", Score: 0}, "nifami": Word{Word: "nifami", Def: "▯ NVM’s; ▯ never minds ▯; ▯ stops caring about topic ▯ per interlocutor’s request.", By: "uakci", Score: 0}, "nigu": Word{Word: "nigu", Def: "▯ knits ▯.", By: "Ilmen", Score: 0}, "niguaq": Word{Word: "niguaq", Def: "▯ is the planet Earth…", By: "uakci", Score: 0}, "nihao": Word{Word: "nihao", Def: "▯ affectatiously greets ▯.", By: "uakci", Score: 0}, "nihoe": Word{Word: "nihoe", Def: "▯ is our sun (any star regularly bringing light and warmth to the place where the speaker is at the time of utterance; the star(s) the speaker is currently orbiting).", By: "Ilmen", Score: 1}, "nihoq": Word{Word: "nihoq", Def: "▯ pertains to the culture of Japan.", By: "countries", Score: 0}, "nihoqgua": Word{Word: "nihoqgua", Def: "▯ is the country Japan.", By: "countries", Score: 0}, "nihoqtoaq": Word{Word: "nihoqtoaq", Def: "▯ is (one of) the language(s) spoken in Japan.", By: "countries", Score: 0}, "nijao": Word{Word: "nijao", Def: "predicate: ‘far.away’; ▯ is that far away thing.", By: "official", Score: 0}, "nijiaq": Word{Word: "nijiaq", Def: "▯ is the real world.", By: "Ilmen", Score: 0}, "nijui": Word{Word: "nijui", Def: "predicate: ‘nearby’; ▯ is this nearby thing.", By: "official", Score: 0}, "nili": Word{Word: "nili", Def: "logically entail, nibli", By: "spreadsheet", Score: 0}, "nimaq": Word{Word: "nimaq", Def: "Demonstrative \"it\"", By: "spreadsheet", Score: 0}, "nimiao": Word{Word: "nimiao", Def: "▯ is/are the moon(s) orbiting the place where the speaker is at the time of utterance.", By: "Ilmen", Score: 1}, "ninuaq": Word{Word: "ninuaq", Def: "predicate: ‘tonight’; ▯ is tonight.", By: "official", Score: 0}, "nio": Word{Word: "nio", Def: "pẻa cêo jỉq dóshī na sa náıjūı da", By: "uakci", Score: 0}, "nioboke": Word{Word: "nioboke", Def: "calf", By: "spreadsheet", Score: 0}, "niode": Word{Word: "niode", Def: "predicate: ‘cute’; ▯ is cute.", By: "official", Score: 0}, "niode nijao niai da.": Word{Word: "niode nijao niai da.", Def: "(A0317) That animal is youthful.", By: "examples", Score: 0}, "niodecua": Word{Word: "niodecua", Def: "▯ has a “aaaaw” reaction to irresistable cuteness.", By: "Ilmen", Score: 0}, "niokato": Word{Word: "niokato", Def: "▯ is a kitten.", By: "lynn", Score: 0}, "niokoaq": Word{Word: "niokoaq", Def: "young adult; adolescent; teenager", By: "uakci", Score: 0}, "niomuao": Word{Word: "niomuao", Def: "sapling", By: "spreadsheet", Score: 0}, "nioniu": Word{Word: "nioniu", Def: "sapling", By: "spreadsheet", Score: 0}, "nioq": Word{Word: "nioq", Def: "predicate: ‘tooth’; ▯ is a tooth.", By: "official", Score: 0}, "nioqbo": Word{Word: "nioqbo", Def: "dragonfly", By: "spreadsheet", Score: 0}, "nioqche": Word{Word: "nioqche", Def: "▯is a dentist", By: "seaqtaq", Score: 0}, "nioqdīu": Word{Word: "nioqdīu", Def: "▯is dentistry", By: "seaqtaq", Score: 0}, "nioqguka": Word{Word: "nioqguka", Def: "▯ gnaws ▯.", By: "Ilmen", Score: 0}, "nioqgukaniai": Word{Word: "nioqgukaniai", Def: "▯ is a rodent.", By: "Ilmen", Score: 0}, "nioqketea": Word{Word: "nioqketea", Def: "▯ is a toothed whale.", By: "Hoemai", Score: 0}, "nioqketo": Word{Word: "nioqketo", Def: "▯ is a toothed whale.", By: "Ilmen", Score: 0}, "nioqkoi": Word{Word: "nioqkoi", Def: "▯ is a walrus.", By: "Ilmen", Score: 0}, "nioqsai": Word{Word: "nioqsai", Def: "▯ is ivory / dentine.", By: "lynn", Score: 0}, "nioqsioq": Word{Word: "nioqsioq", Def: "▯ is a cogwheel / gear wheel.", By: "Ilmen", Score: 0}, "nioqsioqme": Word{Word: "nioqsioqme", Def: "▯ are gears.", By: "Ilmen", Score: 0}, "nioqtoechuo": Word{Word: "nioqtoechuo", Def: "▯ is a saw.", By: "Ilmen", Score: 0}, "nioroesubmit": Word{Word: "nioroesubmit", Def: "▯ manifests youth vigor.", By: "Ilmen", Score: 0}, "niq": Word{Word: "niq", Def: "bủ hảı dủa jí púıbīaq lú rảq hóa dóshī, na ru nảı lú kỏ shỉ cu lî chủı na hóa gǔo hóa gâı jí dóshī da", By: "uakci", Score: 0}, "niq ni diaqkue da.": Word{Word: "niq ni diaqkue da.", Def: "(A0056) This monthly periodical is new.", By: "examples", Score: 0}, "niq poho chao da.": Word{Word: "niq poho chao da.", Def: "(A0711) His car is new.", By: "examples", Score: 0}, "niqchuq": Word{Word: "niqchuq", Def: "▯ chews cud; ▯ ruminates.", By: "Ilmen", Score: 0}, "niqdao": Word{Word: "niqdao", Def: "predicate: ‘news’; ▯ are news.", By: "official", Score: 0}, "niqdao hi po tu suq moq.": Word{Word: "niqdao hi po tu suq moq.", Def: "(A0638) What is new and is about each of you?", By: "examples", Score: 0}, "niqdao hi rai moq.": Word{Word: "niqdao hi rai moq.", Def: "(A0490) What's news?", By: "examples", Score: 0}, "niqdao sia rai pa gi niqdao da.": Word{Word: "niqdao sia rai pa gi niqdao da.", Def: "(A0592) No news is good news.", By: "examples", Score: 0}, "niqdua": Word{Word: "niqdua", Def: "predicate: ‘discover’; ▯ discovers / finds out ▯.", By: "official", Score: 0}, "niqguo": Word{Word: "niqguo", Def: "= #nıq ru #gủo", By: "uakci", Score: 0}, "niqguo ceo po chiejio": Word{Word: "niqguo ceo po chiejio", Def: "(B0009) School began again", By: "examples", Score: 0}, "niqguo kuq ji niqguo kuigiqbu ri kuigiqtuebu cua sia rai moq.": Word{Word: "niqguo kuq ji niqguo kuigiqbu ri kuigiqtuebu cua sia rai moq.", Def: "(A0988) ", By: "examples", Score: 0}, "niqguo laqceo foq": Word{Word: "niqguo laqceo foq", Def: "(B0024) The telephone rang again", By: "examples", Score: 0}, "niqguo tao suq hoq ba.": Word{Word: "niqguo tao suq hoq ba.", Def: "(A0316)  Do it again!", By: "examples", Score: 0}, "niqguokuai": Word{Word: "niqguokuai", Def: "predicate: ‘miss’; ▯ misses ▯; ▯ hungers for ▯ to happen again.", By: "official", Score: 0}, "niqja": Word{Word: "niqja", Def: "▯ is a ninja.", By: "Ilmen", Score: 0}, "niqpaq": Word{Word: "niqpaq", Def: "▯ is an addition to ▯.", By: "uakci", Score: 0}, "niqpiq": Word{Word: "niqpiq", Def: "▯ nitpicks", By: "fagri", Score: 1}, "niqsaihitashakuhikaushuriduji": Word{Word: "niqsaihitashakuhikaushuriduji", Def: "▯ keeps on working despite his reluctance to having to travel more and more.", By: "uakci", Score: 0}, "niqtua": Word{Word: "niqtua", Def: "update", By: "spreadsheet", Score: 0}, "niriaq": Word{Word: "niriaq", Def: "here", By: "spreadsheet", Score: 0}, "niti": Word{Word: "niti", Def: "▯ is here.", By: "uakci", Score: 1}, "nitoaq": Word{Word: "nitoaq", Def: "▯ is the language this utterance is in; ▯ is Toaq.", By: "uakci", Score: 0}, "nitoaqtua": Word{Word: "nitoaqtua", Def: "▯ imports ▯ into Toaq as ▯; ▯ translates ▯ into Toaq ▯.", By: "uakci", Score: 0}, "niu": Word{Word: "niu", Def: "predicate: ‘plant’; ▯ is a plant.", By: "official", Score: 0}, "niube": Word{Word: "niube", Def: "sapling", By: "spreadsheet", Score: 0}, "niuboe": Word{Word: "niuboe", Def: "leaf (of a plant)", By: "spreadsheet", Score: 0}, "niuchuq": Word{Word: "niuchuq", Def: "▯ is vegetarian.", By: "Ilmen", Score: 1}, "niudiu": Word{Word: "niudiu", Def: "▯ is botany.", By: "Ilmen", Score: 0}, "niudiuche": Word{Word: "niudiuche", Def: "▯ is a botanist.", By: "Ilmen", Score: 0}, "niugame": Word{Word: "niugame", Def: "pollen", By: "spreadsheet", Score: -1}, "niuheaq": Word{Word: "niuheaq", Def: "▯ is a seed of plant ▯.", By: "lynn", Score: 0}, "niuriqsai": Word{Word: "niuriqsai", Def: "▯ is chlorophyll.", By: "lynn", Score: 1}, "niushuaqdiu": Word{Word: "niushuaqdiu", Def: "(fork of #teR-oLaTU) ▯ is agriculture.", By: "seaqtaq", Score: 0}, "niusiai": Word{Word: "niusiai", Def: "sap", By: "spreadsheet", Score: 0}, "niusiaipio": Word{Word: "niusiaipio", Def: "▯ is amber.", By: "Ilmen", Score: 0}, "niusiao": Word{Word: "niusiao", Def: "▯ is a root of plant ▯.", By: "lynn", Score: 0}, "no": Word{Word: "no", Def: "predicate: ‘in’; ▯ is in format/medium/genre ▯.", By: "official", Score: 0}, "no faraqse": Word{Word: "no faraqse", Def: "phrase: \"in French\"", By: "official", Score: 0}, "no ni kuqtoai mi toaq da.": Word{Word: "no ni kuqtoai mi toaq da.", Def: "(A0483) This sentence is in Toaq.", By: "examples", Score: 0}, "noa": Word{Word: "noa", Def: "predicate: ‘difficult’; Satisfying property ▯ is difficult for ▯.", By: "official", Score: 0}, "noa li noaq cu ni kue da.": Word{Word: "noa li noaq cu ni kue da.", Def: "(A0416) It's difficult to read this book.", By: "examples", Score: 0}, "noa li si ho ja rai na ji da.": Word{Word: "noa li si ho ja rai na ji da.", Def: "(A0417) It's difficult for me to have his attention.", By: "examples", Score: 0}, "noa muidua lu kuq ho hoa da.": Word{Word: "noa muidua lu kuq ho hoa da.", Def: "(A0418) It's difficult to understand what he says.", By: "examples", Score: 0}, "noa suai fieq pui shuai kuqtoai da.": Word{Word: "noa suai fieq pui shuai kuqtoai da.", Def: "(A0978) It is hard to quickly create many simple sentences.", By: "examples", Score: 0}, "noaca": Word{Word: "noaca", Def: "▯ is a problem/hindrance against doing ▯ for the experiencer ▯.", By: "Ilmen", Score: 0}, "noai": Word{Word: "noai", Def: "predicate: ‘milk’; ▯ is milk.", By: "official", Score: 0}, "noaichai": Word{Word: "noaichai", Def: "▯ is milk tea!!!", By: "uakci", Score: 0}, "noainua": Word{Word: "noainua", Def: "▯ milks ▯.", By: "Ilmen", Score: 0}, "noalie ho po ni joa da.": Word{Word: "noalie ho po ni joa da.", Def: "(A0181) He is frustrated about this week.", By: "examples", Score: 0}, "noaq": Word{Word: "noaq", Def: "sỉ dóshī sa dó lǎı hóa ru tǐ hóa dósāq, na ru mủıjūq dóshī dógū dó da", By: "uakci", Score: 0}, "noaq diaq suq ba.": Word{Word: "noaq diaq suq ba.", Def: "(A0059) Read regularly!", By: "examples", Score: 0}, "noaqtuqshuitua": Word{Word: "noaqtuqshuitua", Def: "(fork of #qDj_XHIx6) ▯ is end to end encryption", By: "seaqtaq", Score: 0}, "nochi": Word{Word: "nochi", Def: "note", By: "spreadsheet", Score: -1}, "noe": Word{Word: "noe", Def: "▯ is normal in its ▯-ness; ▯ is ▯ just like any other ▯-er.", By: "uakci", Score: 0}, "nohe": Word{Word: "nohe", Def: "milxe / a little (mild, towards neither extreme)", By: "spreadsheet", Score: 0}, "noheo": Word{Word: "noheo", Def: "▯ is a translation of ▯ into language ▯ from language ▯", By: "fagri", Score: 0}, "noi": Word{Word: "noi", Def: "gảıkīu dóshī, na ru tu dó bı cả hîao sa ráı dó na lîe sa ráı dóshī da", By: "uakci", Score: 0}, "noilie": Word{Word: "noilie", Def: "predicate: ‘suffer’; ▯ suffers / has pain.", By: "official", Score: 0}, "noq": Word{Word: "noq", Def: "predicate: ‘gustatory’; ▯ is gustatory; ▯ pertains to the sense of taste/gustation.", By: "official", Score: 0}, "noqcai": Word{Word: "noqcai", Def: "▯ is flavorful/strong in flavor", By: "seaqtaq", Score: 0}, "noqcia": Word{Word: "noqcia", Def: "▯ is bland/flavorless", By: "seaqtaq", Score: 0}, "noqde": Word{Word: "noqde", Def: "▯ tastes beautiful.", By: "Ilmen", Score: 0}, "noqgai": Word{Word: "noqgai", Def: "predicate: ‘taste’; ▯ tastes ▯.", By: "official", Score: 0}, "noqgai suq ni piso ba.": Word{Word: "noqgai suq ni piso ba.", Def: "(A0319) Taste this pear.", By: "examples", Score: 0}, "noqgi": Word{Word: "noqgi", Def: "predicate: ‘delicious’; ▯ tastes good / is delicious; ▯ tastes good / is delicious to ▯.", By: "official", Score: 0}, "noqgi baq chai da.": Word{Word: "noqgi baq chai da.", Def: "(A0034) Tea tastes good.", By: "examples", Score: 0}, "noqgi haq lu lui bai suq hoa da.": Word{Word: "noqgi haq lu lui bai suq hoa da.", Def: "(A0321) The food that you have made tastes good.", By: "examples", Score: 0}, "noqgi ni haq da.": Word{Word: "noqgi ni haq da.", Def: "(A0103) This food tastes good.", By: "examples", Score: 0}, "noqhui": Word{Word: "noqhui", Def: "predicate: ‘taste.bad’; ▯ tastes bad; ▯ tastes bad to ▯.", By: "official", Score: 0}, "noqloq": Word{Word: "noqloq", Def: "▯ is spicy", By: "seaqtaq", Score: 0}, "noqpua": Word{Word: "noqpua", Def: "▯ is tasty; ▯ is pleasant to the palate.", By: "uakci", Score: 0}, "noqrue": Word{Word: "noqrue", Def: "▯ is weak (in flavor)", By: "seaqtaq", Score: 0}, "noqrue kuochai po ni haqriaq na jie ji da.": Word{Word: "noqrue kuochai po ni haqriaq na jie ji da.", Def: "(A0981) This restaurant's black tea is weak in flavour to me.", By: "examples", Score: 0}, "noqsai": Word{Word: "noqsai", Def: "▯ is a spice", By: "seaqtaq", Score: 1}, "noqse": Word{Word: "noqse", Def: "▯ is the taste of ▯.", By: "Ilmen", Score: 0}, "noqsi": Word{Word: "noqsi", Def: "predicate: ‘taste-listen’; ▯ listens to the taste of ▯.", By: "official", Score: 0}, "noqsiu": Word{Word: "noqsiu", Def: "▯ tastes like ▯", By: "seaqtaq", Score: 0}, "noshuaq": Word{Word: "noshuaq", Def: "▯ produces something which is ▯ (existing product) but adapted to language/format ▯;\u00a0 ▯ translates/adapts ▯ into ▯.", By: "lynn", Score: 0}, "nu": Word{Word: "nu", Def: "chảsīu dóshī ní da", By: "uakci", Score: 0}, "nua": Word{Word: "nua", Def: "= #doa #bủ", By: "uakci", Score: 0}, "nuadoa": Word{Word: "nuadoa", Def: "replace/instead", By: "spreadsheet", Score: 0}, "nuai": Word{Word: "nuai", Def: "= #chuo #tẻq", By: "uakci", Score: 0}, "nuaidoa": Word{Word: "nuaidoa", Def: "fund ⓥ", By: "spreadsheet", Score: 0}, "nuaiheq": Word{Word: "nuaiheq", Def: "▯ is a wallet", By: "seaqtaq", Score: 1}, "nuaijio": Word{Word: "nuaijio", Def: "predicate: ‘bank’; ▯ is a bank.", By: "official", Score: 0}, "nuaikea": Word{Word: "nuaikea", Def: "▯ is an automated teller machine / ATM machine.", By: "lynn", Score: 0}, "nuailoha": Word{Word: "nuailoha", Def: "▯ is gold", By: "seaqtaq", Score: 0}, "nuairīoq": Word{Word: "nuairīoq", Def: "▯ is currency", By: "seaqtaq", Score: 0}, "nuaituai": Word{Word: "nuaituai", Def: "▯ is physical money (cash/coins…)", By: "Ilmen", Score: 0}, "nuakoe": Word{Word: "nuakoe", Def: "predicate: ‘pick’; ▯ picks ▯: ▯ chooses and takes ▯.", By: "official", Score: 0}, "nuao": Word{Word: "nuao", Def: "predicate: ‘arch’; ▯ is an arch; ▯ arches.", By: "official", Score: 0}, "nuaokuoq": Word{Word: "nuaokuoq", Def: "▯ is a rib (bone).", By: "Ilmen", Score: 0}, "nuaq": Word{Word: "nuaq", Def: "pảq dóshī sa dó chǎq na, na ru jẻq rảo dóshī sa lú gủo hóa bû gảıkīu sa hóe da", By: "uakci", Score: 0}, "nuaqchu": Word{Word: "nuaqchu", Def: "predicate: ‘midnight’; ▯ is midnight.", By: "official", Score: 0}, "nuaqgio": Word{Word: "nuaqgio", Def: "star", By: "spreadsheet", Score: 0}, "nuaqhoe": Word{Word: "nuaqhoe", Def: "▯ is a star (visible at night in the sky).", By: "Ilmen", Score: 0}, "nuaqmuo": Word{Word: "nuaqmuo", Def: "▯ occurs all night", By: "seaqtaq", Score: 0}, "nuaqnai": Word{Word: "nuaqnai", Def: "It's night time.", By: "fagri", Score: 0}, "nuaqtiqshoai": Word{Word: "nuaqtiqshoai", Def: "▯ is a moth.", By: "lynn", Score: 0}, "nubo": Word{Word: "nubo", Def: "▯ is such as ▯; ▯ satisfies the propertie(s) which ▯ is characterised (characterized) to satisfy.", By: "uakci", Score: 0}, "nue": Word{Word: "nue", Def: "predicate: ‘promise’; ▯ promises/threatens to ▯ to satisfy property ▯.", By: "official", Score: 0}, "nue cheo mai": Word{Word: "nue cheo mai", Def: "▯ promise their mutual love to\u00a0▯.", By: "niucuq", Score: 0}, "nueji gaq fa ji suq mehiko ka.": Word{Word: "nueji gaq fa ji suq mehiko ka.", Def: "(A0310) I hereby promise to go with you to Mexico.", By: "examples", Score: 0}, "nuekao": Word{Word: "nuekao", Def: "▯ is a contract.", By: "Ilmen", Score: 0}, "nueq": Word{Word: "nueq", Def: "mirror, reflect", By: "spreadsheet", Score: -1}, "nueqbiu": Word{Word: "nueqbiu", Def: "▯ is a sausage (made out of meat).", By: "Hoemai", Score: 0}, "nueqchuq": Word{Word: "nueqchuq", Def: "▯ is carnivorous.", By: "Ilmen", Score: 0}, "nueqchuqbu": Word{Word: "nueqchuqbu", Def: "▯ is a vegetarian", By: "fagri", Score: 0}, "nueqmuo": Word{Word: "nueqmuo", Def: "▯ is a pancreas", By: "seaqtaq", Score: 0}, "nueqrieq": Word{Word: "nueqrieq", Def: "▯ is a vegetarian.", By: "lynn", Score: 0}, "nueqshoai": Word{Word: "nueqshoai", Def: "▯ is a Sarcopterygii.", By: "Ilmen", Score: 0}, "nueqtuo": Word{Word: "nueqtuo", Def: "▯ is a carnivoran (Carnivora order).", By: "Ilmen", Score: 0}, "nuho": Word{Word: "nuho", Def: "nu'o", By: "spreadsheet", Score: -1}, "nui": Word{Word: "nui", Def: "predicate: ‘small’; ▯ is small/little.", By: "official", Score: 0}, "nui maq da keo choqgi maq da.": Word{Word: "nui maq da keo choqgi maq da.", Def: "(A0306) It's small but it's useful.", By: "examples", Score: 0}, "nui ni pe baq helu da.": Word{Word: "nui ni pe baq helu da.", Def: "phrase: \"This one is small for an elephant.\"", By: "official", Score: 0}, "nuicha": Word{Word: "nuicha", Def: "town", By: "uakci", Score: 0}, "nuichuq": Word{Word: "nuichuq", Def: "▯ eats a snack", By: "seaqtaq", Score: 0}, "nuicioikea": Word{Word: "nuicioikea", Def: "▯ is a microwavw or similar device", By: "seaqtaq", Score: 0}, "nuidao": Word{Word: "nuidao", Def: "▯ is a detail", By: "seaqtaq", Score: 0}, "nuidoaq": Word{Word: "nuidoaq", Def: "predicate: ‘town’; ▯ is a town.", By: "official", Score: 0}, "nuihaq": Word{Word: "nuihaq", Def: "▯ is a snack", By: "seaqtaq", Score: 0}, "nuihaq po diochu": Word{Word: "nuihaq po diochu", Def: "(fork of #-h3KNqJ6s) ▯ is an afternoon/evening snack", By: "seaqtaq", Score: 0}, "nuiheapoaq": Word{Word: "nuiheapoaq", Def: "break into pieces", By: "spreadsheet", Score: 0}, "nuiheasho": Word{Word: "nuiheasho", Def: "break into pieces", By: "spreadsheet", Score: 0}, "nuihoe": Word{Word: "nuihoe", Def: "▯ is a photon.", By: "uakci", Score: 0}, "nuihuaichuo": Word{Word: "nuihuaichuo", Def: "predicate: ‘teaspoon’; ▯ is a teaspoon.", By: "Ilmen", Score: 0}, "nuihuaichuone": Word{Word: "nuihuaichuone", Def: "▯ is the volume in teaspoons of ▯.", By: "Ilmen", Score: 0}, "nuihui": Word{Word: "nuihui", Def: "▯is a pathogen", By: "seaqtaq", Score: 0}, "nuijaq": Word{Word: "nuijaq", Def: "predicate: ‘tiny’; ▯ is tiny.", By: "Ilmen", Score: 0}, "nuikai": Word{Word: "nuikai", Def: "▯ writes ▯ on ▯ in lowercase", By: "seaqtaq", Score: 0}, "nuilieq": Word{Word: "nuilieq", Def: "penguin", By: "spreadsheet", Score: 0}, "nuimei": Word{Word: "nuimei", Def: "▯ is a hill.", By: "Ilmen", Score: 0}, "nuimuao": Word{Word: "nuimuao", Def: "shrub", By: "spreadsheet", Score: 0}, "nuimui": Word{Word: "nuimui", Def: "▯ is the definition of ▯.", By: "uakci", Score: 0}, "nuipaq": Word{Word: "nuipaq", Def: "▯ is a detail.", By: "Ilmen", Score: 0}, "nuipoq": Word{Word: "nuipoq", Def: "▯ is a short person.", By: "uakci", Score: 0}, "nuirea": Word{Word: "nuirea", Def: "▯ is a dwarf (unusually small human).", By: "Ilmen", Score: 0}, "nuisoai": Word{Word: "nuisoai", Def: "kiwifruit", By: "spreadsheet", Score: 0}, "nukui": Word{Word: "nukui", Def: "▯ is therefore; Therefore, ▯.", By: "uakci", Score: 0}, "nukuq": Word{Word: "nukuq", Def: "▯ is said/alleged to be so; ▯ allegedly (\"so they say\") satisfies property ▯.", By: "lynn", Score: -1}, "nuli": Word{Word: "nuli", Def: "grease (oily or fatty matter)", By: "spreadsheet", Score: 0}, "nulicioi": Word{Word: "nulicioi", Def: "▯ fries ▯", By: "seaqtaq", Score: 0}, "nulipio": Word{Word: "nulipio", Def: "▯ is asphalt", By: "seaqtaq", Score: 0}, "nunu": Word{Word: "nunu", Def: "▯ expresses sympathy for ▯ ; ▯ uunmo ▯ (lojban)", By: "fagri", Score: 0}, "nuo": Word{Word: "nuo", Def: "sẻa dóshī, na ru bủ chỉaq dóshī sa báq da", By: "uakci", Score: 0}, "nuo ji rao baq nuaq da.": Word{Word: "nuo ji rao baq nuaq da.", Def: "(A0099) I'm asleep at night.", By: "examples", Score: 0}, "nuo ji ti soaq.": Word{Word: "nuo ji ti soaq.", Def: "(PPH.1) I sleep in the garden.", By: "official", Score: 0}, "nuo suq hu bebe ba.": Word{Word: "nuo suq hu bebe ba.", Def: "(A0305) Sleep, baby!", By: "examples", Score: 0}, "nuoboe": Word{Word: "nuoboe", Def: "▯ is a blanket.", By: "lynn", Score: 0}, "nuochaq": Word{Word: "nuochaq", Def: "Saturday", By: "uakci", Score: 0}, "nuochia": Word{Word: "nuochia", Def: "sleepy", By: "spreadsheet", Score: 0}, "nuochoa": Word{Word: "nuochoa", Def: "▯ utters ▯ in their sleep (talks or snores).", By: "uakci", Score: 0}, "nuociu": Word{Word: "nuociu", Def: "▯ accumulates rheum/gound ▯ in their eyes during sleep.", By: "uakci", Score: 0}, "nuociuse": Word{Word: "nuociuse", Def: "▯ is rheum / gound (mucus that accumulates in the eyes during sleep).", By: "lynn", Score: 1}, "nuofa": Word{Word: "nuofa", Def: "▯ goes to bed; ▯ goes to sleep.", By: "uakci", Score: 0}, "nuofua": Word{Word: "nuofua", Def: "predicate: ‘bed’; ▯ is a bed.", By: "official", Score: 0}, "nuofuq": Word{Word: "nuofuq", Def: "predicate: ‘pyjama’; ▯ is a pyjama.", By: "official", Score: 0}, "nuogai": Word{Word: "nuogai", Def: "▯ dreams ▯.", By: "Ilmen", Score: 2}, "nuogaq": Word{Word: "nuogaq", Def: "▯ sleeps with ▯, literally.", By: "uakci", Score: 0}, "nuoi": Word{Word: "nuoi", Def: "predicate: ‘masticate’; ▯ chews; ▯ chews ▯; ▯ chews on ▯.", By: "official", Score: 0}, "nuoi sa nuq poji loaq da.": Word{Word: "nuoi sa nuq poji loaq da.", Def: "(A0943) Some worm-like animal chews on my buttock.", By: "examples", Score: 0}, "nuoiguo": Word{Word: "nuoiguo", Def: "▯ chews cud; ▯ ruminates.", By: "Ilmen", Score: 0}, "nuoiguoniai": Word{Word: "nuoiguoniai", Def: "▯ is a ruminant.", By: "Ilmen", Score: 0}, "nuoiheu": Word{Word: "nuoiheu", Def: "▯ is a berry", By: "seaqtaq", Score: 0}, "nuoihua": Word{Word: "nuoihua", Def: "▯ is a jaw.", By: "Ilmen", Score: 0}, "nuoihuabeq": Word{Word: "nuoihuabeq", Def: "▯ is a chin.", By: "Ilmen", Score: 0}, "nuoihuakiaq": Word{Word: "nuoihuakiaq", Def: "▯ is a beard.", By: "Ilmen", Score: 0}, "nuokoi": Word{Word: "nuokoi", Def: "▯ is sleep-talk", By: "brunofrancosalamin", Score: -1}, "nuokua": Word{Word: "nuokua", Def: "predicate: ‘bedroom’; ▯ is a bedroom.", By: "official", Score: 0}, "nuokuai": Word{Word: "nuokuai", Def: "predicate: ‘tired’; ▯ is tired.", By: "official", Score: 0}, "nuokuai ho da.": Word{Word: "nuokuai ho da.", Def: "(A0003) They are tired.", By: "examples", Score: 0}, "nuokuai ji da.": Word{Word: "nuokuai ji da.", Def: "(A0001) I'm tired.", By: "examples", Score: 0}, "nuokuai suq da.": Word{Word: "nuokuai suq da.", Def: "(A0002) You are tired.", By: "examples", Score: 0}, "nuomeo": Word{Word: "nuomeo", Def: "sleepy", By: "spreadsheet", Score: 0}, "nuoq": Word{Word: "nuoq", Def: "predicate: ‘reflect’; ▯ reflects/mirrors/echoes ▯.", By: "official", Score: 0}, "nuoqgai": Word{Word: "nuoqgai", Def: "▯ perceives ▯ through echolocation.", By: "Ilmen", Score: 0}, "nuoqsi": Word{Word: "nuoqsi", Def: "▯ uses echolocation (to inspect ▯).", By: "Ilmen", Score: 0}, "nuoqtao": Word{Word: "nuoqtao", Def: "▯ (agent) mirrors action/event ▯ with a corresponding action.", By: "Hoemai", Score: 0}, "nuoriai": Word{Word: "nuoriai", Def: "mattress", By: "spreadsheet", Score: 0}, "nuotoq": Word{Word: "nuotoq", Def: "mattress", By: "spreadsheet", Score: 0}, "nuq": Word{Word: "nuq", Def: "predicate: ‘worm-like’; ▯ is a worm-like animal (animal with long cylindrical tube-like body and no limbs or with short limbs but crawling) (form classification).", By: "official", Score: 0}, "nuqleq": Word{Word: "nuqleq", Def: "▯ is a member of the suborder Vermilingua (the anteaters).", By: "Hoemai", Score: 0}, "o, hai heishijue da!": Word{Word: "o, hai heishijue da!", Def: "(A0159) Whoa, it's already November!", By: "examples", Score: 0}, "pa": Word{Word: "pa", Def: "terminator: terminate prenex and apply prenex arguments to predicate in order", By: "official", Score: 0}, "pachu": Word{Word: "pachu", Def: "pot", By: "spreadsheet", Score: 0}, "pada": Word{Word: "pada", Def: "leopard", By: "spreadsheet", Score: 0}, "pagechi": Word{Word: "pagechi", Def: "▯ is spaghetti, a type of tangly pasta.", By: "uakci", Score: 0}, "pai": Word{Word: "pai", Def: "mỉu gỉ dóshī dógū, na ru chỏ dóshī gâq dógū dóshī, na na ru (lẻ) shảo dóshī fôagī dógū da.", By: "uakci", Score: 0}, "pai poji leaqbua ji da.": Word{Word: "pai poji leaqbua ji da.", Def: "(A0273) My neighbors are my friends.", By: "examples", Score: 0}, "paibuq": Word{Word: "paibuq", Def: "smile", By: "spreadsheet", Score: 0}, "paifusha": Word{Word: "paifusha", Def: "▯ strokes/pets ▯.", By: "Ilmen", Score: -1}, "paigi": Word{Word: "paigi", Def: "predicate: ‘friendly’; ▯ is friendly towards ▯.", By: "official", Score: 0}, "paigiq": Word{Word: "paigiq", Def: "enemy", By: "spreadsheet", Score: 0}, "paigoai": Word{Word: "paigoai", Def: "▯ strokes/pets ▯.", By: "Ilmen", Score: 0}, "painiai": Word{Word: "painiai", Def: "▯ is a pet", By: "fagri", Score: 0}, "pairuo": Word{Word: "pairuo", Def: "predicate: ‘friendly’; ▯ acts friendly/kindly towards ▯.", By: "official", Score: 0}, "palaq": Word{Word: "palaq", Def: "▯ is a hand palm / foot sole.", By: "Ilmen", Score: 0}, "panama": Word{Word: "panama", Def: "▯ is Panamanian (of, from, or pertaining to Panama or Panamanian people).", By: "Hoemai", Score: 0}, "panamagua": Word{Word: "panamagua", Def: "▯ is Panama (country).", By: "Hoemai", Score: 0}, "pao": Word{Word: "pao", Def: "dủq kỉaı dóshī dógū chàsīu rôaq dóshī dógū da", By: "uakci", Score: 0}, "papa": Word{Word: "papa", Def: "predicate: ‘papa’; ▯ is papa (Dad, daddy, father).", By: "official", Score: 0}, "paq": Word{Word: "paq", Def: "predicate: ‘part’; ▯ is a part of ▯.", By: "official", Score: 0}, "paq co shiaq baq kune, she ruaq shiaq ji huoi moq": Word{Word: "paq co shiaq baq kune, she ruaq shiaq ji huoi moq", Def: "(A0617) How many legs does a dog have, if I say that the tail is a leg?", By: "examples", Score: 0}, "paq go ho sa jo shiaq da.": Word{Word: "paq go ho sa jo shiaq da.", Def: "(A0618) It has four legs.", By: "examples", Score: 0}, "paq go tu niaq sa jo cao da. ": Word{Word: "paq go tu niaq sa jo cao da. ", Def: "(A0364) Every year has four seasons.", By: "examples", Score: 0}, "paq sa saq kua ni jio da.": Word{Word: "paq sa saq kua ni jio da.", Def: "(A0233) This building has three rooms.", By: "examples", Score: 0}, "paqbo": Word{Word: "paqbo", Def: "▯ has part ▯.", By: "Ilmen", Score: 0}, "paqcea": Word{Word: "paqcea", Def: "pocket", By: "spreadsheet", Score: 0}, "paqceo": Word{Word: "paqceo", Def: "▯ resumes doing ▯ for a moment (▯ resumes) [Lojban «di’a»].", By: "uakci", Score: 0}, "paqcia": Word{Word: "paqcia", Def: "predicate: ‘lack’; ▯ lacks part ▯; ▯ is missing part ▯.", By: "official", Score: 0}, "paqdoa": Word{Word: "paqdoa", Def: "▯ contributes/adds part ▯ to ▯.", By: "lynn", Score: 0}, "paqduo": Word{Word: "paqduo", Def: "gesture / move (without overall location change)", By: "spreadsheet", Score: 0}, "paqgo": Word{Word: "paqgo", Def: "▯ has part ▯.", By: "Ilmen", Score: 0}, "paqka": Word{Word: "paqka", Def: "park", By: "spreadsheet", Score: 0}, "paqkui": Word{Word: "paqkui", Def: "▯ is the case, partially\u00a0because ▯ (but also for other reasons).", By: "lynn", Score: 0}, "paqme": Word{Word: "paqme", Def: "system", By: "spreadsheet", Score: 0}, "paqmefaqcu": Word{Word: "paqmefaqcu", Def: "Function (expression) ▯ (of free variable ▯ = x) has value ▯ iff x satisfies p’ty ▯, value ▯ iff x satisfies p’ty ▯, etc.", By: "uakci", Score: 0}, "paqmu": Word{Word: "paqmu", Def: "▯ has part ▯.", By: "Ilmen", Score: 0}, "paqmuo": Word{Word: "paqmuo", Def: "predicate: ‘whole’; ▯ is whole/complete.", By: "official", Score: 0}, "paqnua": Word{Word: "paqnua", Def: "predicate: ‘remove’; ▯ removes part ▯ from ▯.", By: "official", Score: 0}, "paqria": Word{Word: "paqria", Def: "▯ is such that the doorway is spatially obscured by door (▯), yet not disabling entrance", By: "spreadsheet", Score: 0}, "paqshai": Word{Word: "paqshai", Def: "▯ stops doing ▯ for a moment (▯ stops happening for a moment); ▯ pauses activity ▯ (activity ▯ pauses/is paused for a moment) [Lojban «de’a»].", By: "uakci", Score: -1}, "paqsimo": Word{Word: "paqsimo", Def: "▯ is a member of genus Pan (the chimpanzees, including the common chimpanzee and the bonobo).", By: "Hoemai", Score: 0}, "paqtao": Word{Word: "paqtao", Def: "predicate: ‘participate’; ▯ takes part in ▯; ▯ participates in ▯.", By: "official", Score: 0}, "paqtera": Word{Word: "paqtera", Def: "▯ belongs to the Panthera taxonomic genus.", By: "Ilmen", Score: 0}, "paqtoai": Word{Word: "paqtoai", Def: "element (selci)", By: "spreadsheet", Score: 0}, "paqtoe": Word{Word: "paqtoe", Def: "▯ notches/cuts ▯ (incomplete cut, not resulting in a complete separation).", By: "Ilmen", Score: 0}, "paqtuq": Word{Word: "paqtuq", Def: "(fork of #W0D8ApTle) ▯ comprise/make up/constitute all the parts of whole ▯.", By: "seaqtaq", Score: 0}, "pasatai": Word{Word: "pasatai", Def: "▯ pertains to the culture of Thailand – Kingdom of Thailand.", By: "countries", Score: 0}, "pasataigua": Word{Word: "pasataigua", Def: "▯ is the country Thailand – Kingdom of Thailand.", By: "countries", Score: 0}, "pasataitoaq": Word{Word: "pasataitoaq", Def: "▯ is (one of) the language(s) spoken in Thailand – Kingdom of Thailand.", By: "countries", Score: 0}, "pati": Word{Word: "pati", Def: "predicate: ‘party’; ▯ is a party (gathering for entertainment, fun and socializing).", By: "official", Score: 0}, "patichea": Word{Word: "patichea", Def: "▯ is a party hat.", By: "lynn", Score: 0}, "pe": Word{Word: "pe", Def: "pủı sa túq lủ hủaq hóa dógū lî jẻo sa lú mẻa hóa dógū na sa pó dóshī da", By: "uakci", Score: 0}, "pea": Word{Word: "pea", Def: "predicate: ‘ago’; ▯ happened ▯ (amount of time) ago.", By: "official", Score: 0}, "pea sa daqne": Word{Word: "pea sa daqne", Def: "phrase: ‘ago’; \"some time ago\"", By: "official", Score: 0}, "peao": Word{Word: "peao", Def: "(fork of #1N1OBHamT) (member of PO) ▯ is among [complement]", By: "fagri", Score: 0}, "peha": Word{Word: "peha", Def: "▯ is true in a figurative sense; Metaphorically speaking, ▯ [used as a sentence prefix or adverb; Lojban borrowing].", By: "uakci", Score: -1}, "pehu": Word{Word: "pehu", Def: "paste, pesxu", By: "spreadsheet", Score: -1}, "pei": Word{Word: "pei", Def: "sẻu dóshī, na ru lảı dóshī pó lú nẻ pủı hóa dógū da", By: "uakci", Score: 0}, "pei meamiq": Word{Word: "pei meamiq", Def: "▯ is infinity (mathematical constant ∞).", By: "Ilmen", Score: 1}, "peijui": Word{Word: "peijui", Def: "▯ is a cardinality near that of anything satisfying property ▯", By: "fagri", Score: 0}, "peike": Word{Word: "peike", Def: "▯ is an European magpie (Pica pica).", By: "Ilmen", Score: 0}, "pekiaqnua": Word{Word: "pekiaqnua", Def: "▯ shaves; ▯ shaves facial hair ▯ off (person) ▯.", By: "uakci", Score: 0}, "pekiaqshai": Word{Word: "pekiaqshai", Def: "▯ shaves; ▯ (person) is shaved.", By: "uakci", Score: 0}, "pelua": Word{Word: "pelua", Def: "▯ is a pelvis (large compound bone structure at the base of the spine that supports the legs).", By: "Hoemai", Score: 0}, "peluka": Word{Word: "peluka", Def: "▯ is a member of genus Falco (the falcons).", By: "Hoemai", Score: 0}, "peo": Word{Word: "peo", Def: "predicate: ‘through’; ▯ passes through ▯.", By: "official", Score: 0}, "peokaqraq": Word{Word: "peokaqraq", Def: "▯ is a moth or caterpillar of the species Cydalima perspectalis.", By: "Ilmen", Score: 0}, "peokaqsiraq": Word{Word: "peokaqsiraq", Def: "▯ is a box tree moth or caterpillar (Cydalima perspectalis).", By: "Ilmen", Score: 0}, "peolai": Word{Word: "peolai", Def: "hyphen, dash (–)", By: "uakci", Score: 0}, "peotoqhua": Word{Word: "peotoqhua", Def: "▯ is a diaphragm", By: "seaqtaq", Score: 0}, "peq": Word{Word: "peq", Def: "predicate: ‘paper’; ▯ is paper.", By: "official", Score: 0}, "peqbi": Word{Word: "peqbi", Def: "pen", By: "spreadsheet", Score: -1}, "peqboe": Word{Word: "peqboe", Def: "predicate: ‘sheet’; ▯ is a sheet of paper.", By: "official", Score: 0}, "peqnuai": Word{Word: "peqnuai", Def: "▯ is paper money", By: "seaqtaq", Score: 0}, "peqshi": Word{Word: "peqshi", Def: "poem ()", By: "spreadsheet", Score: 0}, "peqsi": Word{Word: "peqsi", Def: "pencil", By: "spreadsheet", Score: 0}, "peso": Word{Word: "peso", Def: "= #hua ru #chủo #pỉcīu ru #sẻaqdēa", By: "uakci", Score: 0}, "pesogoaitao": Word{Word: "pesogoaitao", Def: "▯ rubs ▯’s penis with their ▯.", By: "uakci", Score: 0}, "pesojieq": Word{Word: "pesojieq", Def: "▯ is the shaft (head) of penis ▯.", By: "uakci", Score: 0}, "pesojoq": Word{Word: "pesojoq", Def: "▯ is a penis head", By: "fagri", Score: 0}, "pesopiu": Word{Word: "pesopiu", Def: "▯ is foreskin.", By: "uakci", Score: 0}, "pesopiutoete": Word{Word: "pesopiutoete", Def: "Penis ▯ is circumcised.", By: "uakci", Score: 0}, "pesoreq": Word{Word: "pesoreq", Def: "▯ is Homo Phallicus", By: "seaqtaq", Score: 0}, "peta": Word{Word: "peta", Def: "predicate: ‘peta’; ▯ are 10^15 (1,000,000,000,000,000) in number; ▯ are a quadrillion.", By: "official", Score: 0}, "petero": Word{Word: "petero", Def: "▯ is a true sparrow (Passer genus).", By: "Ilmen", Score: 0}, "peterogama": Word{Word: "peterogama", Def: "▯ is a member of genus Struthio (the ostriches).", By: "Hoemai", Score: 0}, "peterotei": Word{Word: "peterotei", Def: "▯ is a passerine (Passeriformes taxonomic order).", By: "Ilmen", Score: 0}, "peu": Word{Word: "peu", Def: "decimal point [@Ilmen]", By: "uakci", Score: 0}, "pi": Word{Word: "pi", Def: "to ru #nao to to ru bủ #sẻaqnāo to to ru bủ #kẻq to #tẻ #cỉu", By: "uakci", Score: 0}, "pia": Word{Word: "pia", Def: "predicate: ‘sibling’; ▯ is a sibling of ▯.", By: "official", Score: 0}, "piafu": Word{Word: "piafu", Def: "▯ is a neice/nephew of ▯", By: "seaqtaq", Score: 0}, "piai": Word{Word: "piai", Def: "project", By: "spreadsheet", Score: 0}, "piano": Word{Word: "piano", Def: "predicate: ‘piano’; ▯ is a piano.", By: "official", Score: 0}, "piao": Word{Word: "piao", Def: "predicate: ‘complicated’; ▯ is complicated/complex.", By: "official", Score: 0}, "piaotoa": Word{Word: "piaotoa", Def: "lujvo", By: "spreadsheet", Score: 0}, "piaq": Word{Word: "piaq", Def: "surprised", By: "spreadsheet", Score: 0}, "piaqji": Word{Word: "piaqji", Def: "I am surprised here and now by ▯.", By: "Ilmen", Score: 0}, "pica": Word{Word: "pica", Def: "pizza", By: "spreadsheet", Score: 0}, "piciu": Word{Word: "piciu", Def: "cỉu dóshī dógū pỉ da", By: "uakci", Score: 0}, "pie": Word{Word: "pie", Def: "chủq dóshī dógū nǎotēı, na na ru bủ jảq chỏq dóshī sa lú nỉe hóa lú bủq hóa dóshī ceı ceı shô fủı chủq dógū dóshī da", By: "uakci", Score: 0}, "pie ji rao tu diosiao sa kafe da.": Word{Word: "pie ji rao tu diosiao sa kafe da.", Def: "(A0706) I drink some coffee every morning.", By: "examples", Score: 0}, "pie suq ba.": Word{Word: "pie suq ba.", Def: "(A0015) Drink!", By: "examples", Score: 0}, "piedoa": Word{Word: "piedoa", Def: "▯ adds to beverage ▯ supplement ▯; ▯ sugars/milks/cinnamons/butters beverage ▯.", By: "uakci", Score: 0}, "piehaq": Word{Word: "piehaq", Def: "▯ is a beverage / a drink.", By: "lynn", Score: 0}, "piejaq": Word{Word: "piejaq", Def: "▯ gulps down ▯", By: "seaqtaq", Score: 0}, "piekuai": Word{Word: "piekuai", Def: "predicate: ‘drink’; ▯ is thirsty.", By: "official", Score: 0}, "pienao": Word{Word: "pienao", Def: "▯ is potable water.", By: "lynn", Score: 0}, "pietuao": Word{Word: "pietuao", Def: "▯ sips ▯", By: "seaqtaq", Score: 0}, "pihi": Word{Word: "pihi", Def: "pilji (×)", By: "spreadsheet", Score: -1}, "pijama": Word{Word: "pijama", Def: "predicate: ‘pyjama’; ▯ is a pyjama.", By: "official", Score: 0}, "pikachu": Word{Word: "pikachu", Def: "▯ is/are Pikachu.", By: "lynn", Score: 0}, "pimieqta": Word{Word: "pimieqta", Def: "(fork of #TUowVe6em) ▯_ is pepper", By: "seaqtaq", Score: 0}, "pinao": Word{Word: "pinao", Def: "▯ is pee/urine/piss.", By: "uakci", Score: 0}, "pinu": Word{Word: "pinu", Def: "▯ is a pine tree.", By: "Ilmen", Score: 0}, "pio": Word{Word: "pio", Def: "predicate: ‘rock’; ▯ is rock (material).", By: "official", Score: 0}, "piocoesai": Word{Word: "piocoesai", Def: "▯ is cement.", By: "Ilmen", Score: 0}, "piodiu": Word{Word: "piodiu", Def: "▯ is calculus.", By: "uakci", Score: -1}, "piodīu": Word{Word: "piodīu", Def: "▯ is geology.", By: "lynn", Score: 0}, "pioguaq": Word{Word: "pioguaq", Def: "desert", By: "spreadsheet", Score: 0}, "piohea": Word{Word: "piohea", Def: "stone", By: "spreadsheet", Score: 0}, "piohoe": Word{Word: "piohoe", Def: "▯ is a planet", By: "seaqtaq", Score: 0}, "piokioq": Word{Word: "piokioq", Def: "pebble", By: "spreadsheet", Score: 0}, "pioloha": Word{Word: "pioloha", Def: "▯ is lithium.", By: "Ilmen", Score: 0}, "piomiq": Word{Word: "piomiq", Def: "▯ is a lithosphere.", By: "Ilmen", Score: 0}, "pionui": Word{Word: "pionui", Def: "pebble", By: "spreadsheet", Score: 0}, "pionuli": Word{Word: "pionuli", Def: "petroleum", By: "spreadsheet", Score: -1}, "piopiu": Word{Word: "piopiu", Def: "▯ is a shell", By: "seaqtaq", Score: 0}, "piosaidiu": Word{Word: "piosaidiu", Def: "▯ is mineralogy.", By: "Ilmen", Score: 0}, "piosiu": Word{Word: "piosiu", Def: "▯ is solid (not liquid or gas)", By: "fagri", Score: 0}, "piotui": Word{Word: "piotui", Def: "lizard, lepidosauria", By: "spreadsheet", Score: 1}, "pipi": Word{Word: "pipi", Def: "▯ pees, pisses. [moderately infantile]", By: "uakci", Score: 0}, "piq": Word{Word: "piq", Def: "▯ pushes, presses, puts force on ▯.", By: "uakci", Score: 0}, "piqduo": Word{Word: "piqduo", Def: "▯ rubs (intransitive), is rubbed against ▯.", By: "uakci", Score: 0}, "piqfea": Word{Word: "piqfea", Def: "▯ is rigid.", By: "uakci", Score: 0}, "piqkai": Word{Word: "piqkai", Def: "▯ sets text ▯ onto ▯ using metal type.", By: "uakci", Score: 0}, "piso": Word{Word: "piso", Def: "predicate: ‘pear’; ▯ is a pear.", By: "official", Score: 0}, "piu": Word{Word: "piu", Def: "predicate: ‘skin’; ▯ is skin/peel/crust/hide/rind/outer cover.", By: "official", Score: 0}, "piuchiq": Word{Word: "piuchiq", Def: "▯ is a louse.", By: "lynn", Score: 0}, "piuciu": Word{Word: "piuciu", Def: "▯ sweats.", By: "lynn", Score: 1}, "piunao": Word{Word: "piunao", Def: "▯ is sweat.", By: "lynn", Score: 1}, "piunua": Word{Word: "piunua", Def: "▯ peels/skins ▯.", By: "Ilmen", Score: 0}, "piushoai": Word{Word: "piushoai", Def: "▯ is a colugo (Dermoptera taxonomic order).", By: "Ilmen", Score: 0}, "po": Word{Word: "po", Def: "pỏ dó dóshī shè râq dó dóshī da", By: "uakci", Score: 0}, "po ji ni da.": Word{Word: "po ji ni da.", Def: "(PCT.2) This is mine.", By: "official", Score: 0}, "po suq ni toese ka.": Word{Word: "po suq ni toese ka.", Def: "(A0991) This slice is hereby yours.", By: "examples", Score: 0}, "poa": Word{Word: "poa", Def: "= bu #kỉu #pẻo", By: "uakci", Score: 0}, "poachoatoai": Word{Word: "poachoatoai", Def: "▯ is a consonant.", By: "Ilmen", Score: 0}, "poai": Word{Word: "poai", Def: "predicate: ‘seed’; ▯ is a seed/spore/egg/gamete/ovum/sperm/pollen.", By: "official", Score: 0}, "poaipao": Word{Word: "poaipao", Def: "▯ is a baobab (a tree of genus Adansonia).", By: "Hoemai", Score: 0}, "poairiaq": Word{Word: "poairiaq", Def: "▯ is an ovary", By: "seaqtaq", Score: 0}, "poaq": Word{Word: "poaq", Def: "pủ mẻ dóshī sa dó, na ru nảı chẻo tỉpōe dó da", By: "uakci", Score: 0}, "poaq lui shia da.": Word{Word: "poaq lui shia da.", Def: "(A0341) The glass has broken.", By: "examples", Score: 0}, "poaqchuq": Word{Word: "poaqchuq", Def: "▯ chews ▯.", By: "Ilmen", Score: 0}, "poaqcuka": Word{Word: "poaqcuka", Def: "▯ explodes.", By: "Ilmen", Score: 0}, "poaqgiu": Word{Word: "poaqgiu", Def: "▯ is a fissure/crack.", By: "Ilmen", Score: 0}, "poaqkuai": Word{Word: "poaqkuai", Def: "▯ is brittle\u00a0", By: "seaqtaq", Score: 0}, "poaqle": Word{Word: "poaqle", Def: "▯ has a tendency to disintegrate/crumble/fall apart; ▯ aţq’asıb.", By: "Ilmen", Score: 0}, "poaqnoa": Word{Word: "poaqnoa", Def: "▯ is resilient/durable/hard to break", By: "seaqtaq", Score: 0}, "poaqnua": Word{Word: "poaqnua", Def: "▯ breaks a piece off of ▯", By: "seaqtaq", Score: 0}, "poaqrei": Word{Word: "poaqrei", Def: "▯ crushes ▯.", By: "Ilmen", Score: 0}, "poaqse": Word{Word: "poaqse", Def: "predicate: ‘shard’; ▯ is a shard/cullet.", By: "official", Score: 0}, "poaqshua": Word{Word: "poaqshua", Def: "▯ collapses.", By: "Ilmen", Score: 0}, "poatie": Word{Word: "poatie", Def: "▯ is a lid.", By: "Ilmen", Score: 0}, "podo": Word{Word: "podo", Def: "▯ is of the referent(s) of the variable X.", By: "Ilmen", Score: 0}, "poe": Word{Word: "poe", Def: "predicate: ‘apart’; ▯ is apart/separate from ▯ in property ▯.", By: "official", Score: 0}, "poe miu ji baq poq da.": Word{Word: "poe miu ji baq poq da.", Def: "(A0885) My opinions are different (separate) from those of a typical person.", By: "examples", Score: 0}, "poe mu ne dua ji suq gi jiao.": Word{Word: "poe mu ne dua ji suq gi jiao.", Def: "(A0881) You and I know to different (separate) degrees that God is good.", By: "examples", Score: 0}, "poe mu ne joe ho liqho da.": Word{Word: "poe mu ne joe ho liqho da.", Def: "(A0882) They and her have separate skill levels.", By: "examples", Score: 0}, "poe mu ne joe koi ho liqho da.": Word{Word: "poe mu ne joe koi ho liqho da.", Def: "(A0883) They are her have separate skill levels at walking.", By: "examples", Score: 0}, "poe rao hoq sho bia ji da.": Word{Word: "poe rao hoq sho bia ji da.", Def: "(A0880) It was apart (in time) from me getting sick.", By: "examples", Score: 0}, "poe rao koi ji na jai ji da.": Word{Word: "poe rao koi ji na jai ji da.", Def: "(A0879) My walking was apart (in time) from my being happy.", By: "examples", Score: 0}, "poe ti ji suq da.": Word{Word: "poe ti ji suq da.", Def: "(A0877) I am apart from you (in space).", By: "examples", Score: 0}, "poe ti ni piohea ji da.": Word{Word: "poe ti ni piohea ji da.", Def: "(A0876) This rock is apart from me (in space).", By: "examples", Score: 0}, "poechuo": Word{Word: "poechuo", Def: "fence", By: "spreadsheet", Score: 0}, "poeduaitue": Word{Word: "poeduaitue", Def: "▯ is segregation", By: "seaqtaq", Score: 0}, "poepaq": Word{Word: "poepaq", Def: "section", By: "spreadsheet", Score: 0}, "poeq": Word{Word: "poeq", Def: "▯ is a piece of literature characterised by its specific use of language, focus on internal experiences, emotions, and abstract ideas, and verse form; ▯ is poetry/verse; ▯ is a poem.", By: "uakci", Score: 0}, "poetoq": Word{Word: "poetoq", Def: "wall", By: "spreadsheet", Score: 0}, "poetoqtoai": Word{Word: "poetoqtoai", Def: "▯ is a brick.", By: "Ilmen", Score: 0}, "poha": Word{Word: "poha", Def: "▯ is one's/yours/theirs (the one(s) of the referent(s) of the generic impersonal pronoun).", By: "Ilmen", Score: 0}, "poho": Word{Word: "poho", Def: "predicate: ‘his/her’; ▯ is his/hers/theirs.", By: "official", Score: 0}, "pohoa": Word{Word: "pohoa", Def: "▯ is of the antecedent(s) of the relative clause.", By: "Ilmen", Score: 0}, "poi": Word{Word: "poi", Def: "▯ is a true proposition whose x1 participant, in participating in the proposition, also does ▯", By: "fagri", Score: 4}, "poja": Word{Word: "poja", Def: "explode", By: "spreadsheet", Score: -1}, "pojakea": Word{Word: "pojakea", Def: "bomb", By: "spreadsheet", Score: -1}, "pojeo": Word{Word: "pojeo", Def: "▯'s something satisfies property ▯; Something of ▯'s satisfies ▯; Jeo pó ▯ ▯.", By: "uakci", Score: 0}, "poji": Word{Word: "poji", Def: "= [X] Pỏ jí dóshī.", By: "Ilmen", Score: 0}, "poji chua pa shu ‹ hana › da.": Word{Word: "poji chua pa shu ‹ hana › da.", Def: "(A0514) About my name: it's \"Hana\".", By: "examples", Score: 0}, "poji liqpia pa goiche da.": Word{Word: "poji liqpia pa goiche da.", Def: "(A0504) My sister is a doctor.", By: "examples", Score: 0}, "pojiao": Word{Word: "pojiao", Def: "▯ is holy/sacred/divine.", By: "Ilmen", Score: 0}, "pokame": Word{Word: "pokame", Def: "▯ is a plant of the Camellia genus.", By: "Ilmen", Score: 1}, "poke": Word{Word: "poke", Def: "▯ is a seal belonging to the Phoca genus.", By: "Ilmen", Score: 0}, "pokemoq": Word{Word: "pokemoq", Def: "▯ is a pokemon.", By: "Ilmen", Score: 0}, "pokesao": Word{Word: "pokesao", Def: "▯ is a harbour porpoise (Phocoena phocoena).", By: "Ilmen", Score: 0}, "pokesaosiu": Word{Word: "pokesaosiu", Def: "▯ is a porpoise.", By: "Ilmen", Score: 0}, "pokesiu": Word{Word: "pokesiu", Def: "▯ is a true seal (Phocidae taxonomic family).", By: "Ilmen", Score: 0}, "polaq": Word{Word: "polaq", Def: "▯ pertains to the culture of Poland – Republic of Poland.", By: "oldcountries", Score: 0}, "polaqgua": Word{Word: "polaqgua", Def: "▯ is the country Poland – Republic of Poland.", By: "oldcountries", Score: 0}, "polaqtoaq": Word{Word: "polaqtoaq", Def: "▯ is (one of) the language(s) spoken in Poland – Republic of Poland.", By: "oldcountries", Score: 0}, "pomaq": Word{Word: "pomaq", Def: "predicate: ‘its’; ▯ is its.", By: "official", Score: 0}, "pomea": Word{Word: "pomea", Def: "(member of PO) ▯ is among [complement]", By: "fagri", Score: -1}, "poni": Word{Word: "poni", Def: "▯ is of this/that; ▯ is related to this/that.", By: "Ilmen", Score: 0}, "popuqho": Word{Word: "popuqho", Def: "predicate: ‘their’; ▯ is theirs.", By: "official", Score: 0}, "popuqji": Word{Word: "popuqji", Def: "predicate: ‘our’; ▯ is ours.", By: "official", Score: 0}, "popuqsuq": Word{Word: "popuqsuq", Def: "predicate: ‘your’; ▯ is yours.", By: "official", Score: 0}, "poq": Word{Word: "poq", Def: "kảqsīu ru rủosīu dóshī jí da", By: "uakci", Score: 0}, "poqchua": Word{Word: "poqchua", Def: "▯ is a given name / first name of ▯.", By: "lynn", Score: 0}, "poqdua": Word{Word: "poqdua", Def: "be acquainted with", By: "spreadsheet", Score: 0}, "poqgo": Word{Word: "poqgo", Def: "▯ is a member of genus Pongo (the orangutans).", By: "Hoemai", Score: 0}, "poqhoitoa": Word{Word: "poqhoitoa", Def: "▯ is a personal pronoun", By: "seaqtaq", Score: 0}, "poqjuao": Word{Word: "poqjuao", Def: "▯ is a societal law.", By: "Ilmen", Score: 0}, "poqkea": Word{Word: "poqkea", Def: "▯ is a robot.", By: "Ilmen", Score: 0}, "poqme": Word{Word: "poqme", Def: "predicate: ‘group.of.people’; ▯ is a group of people.", By: "official", Score: 0}, "poqmea": Word{Word: "poqmea", Def: "▯ is social in group ▯; ▯ socialises in ▯.", By: "uakci", Score: 0}, "poqmecuetaq": Word{Word: "poqmecuetaq", Def: "▯ is a democracy.", By: "Ilmen", Score: 0}, "poqpuqruobia": Word{Word: "poqpuqruobia", Def: "▯ has dissociative identity disorder.", By: "uakci", Score: 0}, "poraq": Word{Word: "poraq", Def: "▯ is Polish.", By: "uakci", Score: 0}, "poroi": Word{Word: "poroi", Def: "▯ is what satisfies the property ▯, together with the other things/persons related to it; ▯ is ▯ and co.", By: "Ilmen", Score: 1}, "poshieq": Word{Word: "poshieq", Def: "▯ is what people are/do in general; One is/does ▯.", By: "uakci", Score: 0}, "posuq": Word{Word: "posuq", Def: "= [X] Pỏ súq dóshī.", By: "Ilmen", Score: 0}, "posuq liqpao pa leo tua si suq ho da.": Word{Word: "posuq liqpao pa leo tua si suq ho da.", Def: "(A0356) Your mom is trying to get you to pay attention to her.", By: "examples", Score: 0}, "posuq toakue bi nai choq ho maq ju bu dua nai ti ji ho hi rai da.": Word{Word: "posuq toakue bi nai choq ho maq ju bu dua nai ti ji ho hi rai da.", Def: "(A0995) As for your dictionary, he is currently using it (I don't know where he is now).", By: "oldexamples", Score: 0}, "posuq toakue bi nai choq ho maq, ju bu dua ji nai ti ho hi rai da.": Word{Word: "posuq toakue bi nai choq ho maq, ju bu dua ji nai ti ho hi rai da.", Def: "(A0995) As for your dictionary, he is currently using it (I don't know where he is now).", By: "examples", Score: 0}, "posuqji": Word{Word: "posuqji", Def: "predicate: ‘our’; ▯ is ours.", By: "official", Score: 0}, "potaq": Word{Word: "potaq", Def: "▯ is related to its/his/her ▯ by the relation ▯.", By: "Ilmen", Score: 0}, "prune": Word{Word: "prune", Def: "▯ is a prune.", By: "uakci", Score: 0}, "pu": Word{Word: "pu", Def: "= [00] Shỉu dóshī náı.", By: "Ilmen", Score: 0}, "pu beo suq kiaqreo.": Word{Word: "pu beo suq kiaqreo.", Def: "(A0569) You turned red.", By: "examples", Score: 0}, "pu bu hio ho ji da.": Word{Word: "pu bu hio ho ji da.", Def: "(A0133) He didn't greet me.", By: "examples", Score: 0}, "pu buaq ho li muidua sa poq po ja rai da.": Word{Word: "pu buaq ho li muidua sa poq po ja rai da.", Def: "(A0314) He failed to be understood.", By: "examples", Score: 0}, "pu doa bo hi rai ni suq moq.": Word{Word: "pu doa bo hi rai ni suq moq.", Def: "(A0209) Who gave this to you?", By: "examples", Score: 0}, "pu du naq jie ji keo nai miu dai le bu hao da.": Word{Word: "pu du naq jie ji keo nai miu dai le bu hao da.", Def: "(A0998) They seemed to be male to me, but now (I) think that it is possible they probably aren't.", By: "examples", Score: 0}, "pu duasue ji ho ma mao taoshao fa ho da.": Word{Word: "pu duasue ji ho ma mao taoshao fa ho da.", Def: "(A0559) I asked him whether he intended to go as well.", By: "examples", Score: 0}, "pu duasue mane mao taoshao fa ji ho da.": Word{Word: "pu duasue mane mao taoshao fa ji ho da.", Def: "(A0558) I asked him whether he intended to go as well.", By: "examples", Score: 0}, "pu gai niai ti ji da.": Word{Word: "pu gai niai ti ji da.", Def: "(A0446) The animal perceived my presence.", By: "examples", Score: 0}, "pu gei ji bikini ti neaqrea da.": Word{Word: "pu gei ji bikini ti neaqrea da.", Def: "(A0101) I wore the bikini at the beach.", By: "examples", Score: 0}, "pu guchio siqtua ji maq da.": Word{Word: "pu guchio siqtua ji maq da.", Def: "(A0388) I cleaned it twice.", By: "examples", Score: 0}, "pu hi rai moq.": Word{Word: "pu hi rai moq.", Def: "(A0165) What happened?", By: "examples", Score: 0}, "pu hiai sa be": Word{Word: "pu hiai sa be", Def: "(B0005) Baby laughed", By: "examples", Score: 0}, "pu hiefa ho cea ": Word{Word: "pu hiefa ho cea ", Def: "(A0639) He brought the bags two at a time.", By: "oldexamples", Score: 0}, "pu hiefa ho cea joi lusu ho chio sa gu tamea maq da.": Word{Word: "pu hiefa ho cea joi lusu ho chio sa gu tamea maq da.", Def: "(A0639) He brought the bags two at a time.", By: "examples", Score: 0}, "pu jea bo ji sa puidui da.": Word{Word: "pu jea bo ji sa puidui da.", Def: "(A0189) I bought too many things.", By: "examples", Score: 0}, "pu jea ji sa roai kue da.": Word{Word: "pu jea ji sa roai kue da.", Def: "(A0709) I bought eight books.", By: "examples", Score: 0}, "pu jiu ji ti kanadagua da.": Word{Word: "pu jiu ji ti kanadagua da.", Def: "(A0525) I was born in Canada.", By: "examples", Score: 0}, "pu jiu ji ti ni gua da.": Word{Word: "pu jiu ji ti ni gua da.", Def: "(A0080) I was born in this country.", By: "examples", Score: 0}, "pu juoi sao ho ni jio da. ": Word{Word: "pu juoi sao ho ni jio da. ", Def: "phrase: They described this building as big.", By: "official", Score: 1}, "pu juoq ruaq ★ suq jeo ho da.": Word{Word: "pu juoq ruaq ★ suq jeo ho da.", Def: "(A0572) You should have told him the truth. [ruaq3?]", By: "examples", Score: 0}, "pu koe mi chaq ke li ta do bi lue do.": Word{Word: "pu koe mi chaq ke li ta do bi lue do.", Def: "(A0429) Chang picked that one for being yellow. ", By: "examples", Score: 0}, "pu kuq ho mo « geqkuai ji poji liqpao da » teo da.": Word{Word: "pu kuq ho mo « geqkuai ji poji liqpao da » teo da.", Def: "(A0582) He said «I miss my mom»", By: "examples", Score: 0}, "pu kuq ji mo « chua hi rai suq moq » teo da.": Word{Word: "pu kuq ji mo « chua hi rai suq moq » teo da.", Def: "(A0227) I said \"What's your name?\".", By: "examples", Score: 0}, "pu kuq ji mo «\u00a0ti nuai hi rai moq\u00a0» teo.": Word{Word: "pu kuq ji mo «\u00a0ti nuai hi rai moq\u00a0» teo.", Def: "(QUO.3) I said 'where is the money?'.", By: "official", Score: 0}, "pu kuqshao ji shu nuofua.": Word{Word: "pu kuqshao ji shu nuofua.", Def: "(QUO.2) I meant to say 'bed'.", By: "official", Score: 0}, "pu pua pie ji chai da.": Word{Word: "pu pua pie ji chai da.", Def: "(A0033) I enjoyed drinking the tea.", By: "examples", Score: 0}, "pu ruaqgai ji lu piao faraqse toaq da.": Word{Word: "pu ruaqgai ji lu piao faraqse toaq da.", Def: "(A0337) I noticed that the French language is complex.", By: "examples", Score: 0}, "pu sho ho li goiche da.": Word{Word: "pu sho ho li goiche da.", Def: "(A0712) He became a doctor.", By: "examples", Score: 0}, "pu sho shie bebe da.": Word{Word: "pu sho shie bebe da.", Def: "(A0030) The baby woke up.", By: "examples", Score: 0}, "pu soa ho sa bia kune da.": Word{Word: "pu soa ho sa bia kune da.", Def: "(A0741) She helped a sick dog.", By: "examples", Score: 0}, "pu suai suaikoi deo": Word{Word: "pu suai suaikoi deo", Def: "(B0010) The child ran quickly", By: "examples", Score: 0}, "pu teoqkuq ji cu ho mo ma tiaq baq muao moq teo da.": Word{Word: "pu teoqkuq ji cu ho mo ma tiaq baq muao moq teo da.", Def: "(A0567) I asked him \"Are trees brown?\"", By: "examples", Score: 0}, "pu tua jeaq doq ho poho joqkiaq da.": Word{Word: "pu tua jeaq doq ho poho joqkiaq da.", Def: "(A0557) He cut his hair.", By: "examples", Score: 0}, "pu tua ti suq hoi kue moq.": Word{Word: "pu tua ti suq hoi kue moq.", Def: "(A0716) Where did you put that book?", By: "examples", Score: 0}, "pua": Word{Word: "pua", Def: "be pleasured by", By: "spreadsheet", Score: -1}, "pua chuq suq ba.": Word{Word: "pua chuq suq ba.", Def: "(A0208) Enjoy your meal!", By: "examples", Score: 0}, "pua geq ji suq da.": Word{Word: "pua geq ji suq da.", Def: "(A0394) Pleased to meet you.", By: "examples", Score: 0}, "pua huosi ji baq giaq jaq da.": Word{Word: "pua huosi ji baq giaq jaq da.", Def: "(A0093) I really enjoy listening to music.", By: "examples", Score: 0}, "pua mietao suq ti nihoqguaq ba.": Word{Word: "pua mietao suq ti nihoqguaq ba.", Def: "(A0728) Enjoy your life in Japan.", By: "examples", Score: 0}, "puagaqkuq": Word{Word: "puagaqkuq", Def: "complain", By: "spreadsheet", Score: -1}, "puahuaqmiu": Word{Word: "puahuaqmiu", Def: "▯ is a snob in doing ▯.", By: "uakci", Score: 0}, "puai": Word{Word: "puai", Def: "predicate: ‘wild’; ▯ is wild/untamed.", By: "official", Score: 0}, "puailuko": Word{Word: "puailuko", Def: "▯ is a wolf.", By: "Ilmen", Score: 0}, "puao": Word{Word: "puao", Def: "predicate: ‘cloud’; ▯ is a cloud.", By: "official", Score: 0}, "puaobiu": Word{Word: "puaobiu", Def: "▯ is specifically the character 🌪 (U+1F32A CLOUD WITH TORNADO; `:cloud_tornado:`).", By: "uakci", Score: 0}, "puaocia": Word{Word: "puaocia", Def: "▯ is free of clouds / clear (as in “clear sky” or “clear weather”) / sunny.", By: "lynn", Score: 1}, "puaokiaq": Word{Word: "puaokiaq", Def: "wool", By: "spreadsheet", Score: 0}, "puaoniai": Word{Word: "puaoniai", Def: "sheep", By: "spreadsheet", Score: 1}, "puaoroq": Word{Word: "puaoroq", Def: "Cloud ▯ rains with ▯.", By: "uakci", Score: 0}, "puaq": Word{Word: "puaq", Def: "predicate: ‘somatic’; ▯ is somatic/tactile; ▯ pertains to the sense of touch/somatosensation.", By: "official", Score: 0}, "puaqcia": Word{Word: "puaqcia", Def: "▯ is numb.", By: "Ilmen", Score: 1}, "puaqgai": Word{Word: "puaqgai", Def: "predicate: ‘touch.feel’; ▯ touch feels ▯.", By: "official", Score: 0}, "puaqgi": Word{Word: "puaqgi", Def: "predicate: ‘feel.good’; ▯ is nice to the touch; ▯ is nice to the touch of ▯.", By: "official", Score: 0}, "puaqse": Word{Word: "puaqse", Def: "▯ is the (typical) tactile sensation perceived when touching ▯.", By: "Ilmen", Score: 0}, "puaqsi": Word{Word: "puaqsi", Def: "predicate: ‘touch.feel’; ▯ focuses on touch feeling ▯.", By: "official", Score: 0}, "puaqsiu": Word{Word: "puaqsiu", Def: "▯ is is textually similar to ▯; ▯ feels like ▯", By: "seaqtaq", Score: 0}, "puchaq": Word{Word: "puchaq", Def: "predicate: ‘yesterday’; ▯ is yesterday.", By: "official", Score: 0}, "puchaq pa pu hui chaq da.": Word{Word: "puchaq pa pu hui chaq da.", Def: "(A0122) Yesterday was a bad day.", By: "examples", Score: 0}, "pudiu": Word{Word: "pudiu", Def: "▯ is history (branch of knowledge).", By: "Ilmen", Score: 0}, "pue": Word{Word: "pue", Def: "= #hua ru #hẻ #chủo #fả", By: "uakci", Score: 0}, "puebea": Word{Word: "puebea", Def: "predicate: ‘knee’; ▯ is a knee.", By: "official", Score: 0}, "puebeq": Word{Word: "puebeq", Def: "▯ is a foot heel.", By: "Ilmen", Score: 0}, "puechei": Word{Word: "puechei", Def: "▯ is a toe.", By: "Ilmen", Score: 0}, "puedapa": Word{Word: "puedapa", Def: "▯ is a foot sole.", By: "Ilmen", Score: 0}, "puedea": Word{Word: "puedea", Def: "predicate: ‘kick’; ▯ kicks ▯.", By: "official", Score: 0}, "puefuq": Word{Word: "puefuq", Def: "predicate: ‘shoe’; ▯ is a shoe.", By: "official", Score: 0}, "puefuqcia": Word{Word: "puefuqcia", Def: "▯ is barefoot.", By: "Ilmen", Score: 0}, "puefuqdapa": Word{Word: "puefuqdapa", Def: "▯ is a shoe sole.", By: "Ilmen", Score: 0}, "puegao": Word{Word: "puegao", Def: "predicate: ‘sock’; ▯ is a sock.", By: "official", Score: 0}, "puejei": Word{Word: "puejei", Def: "predicate: ‘toe’; ▯ is a toe.", By: "official", Score: 0}, "puekioq": Word{Word: "puekioq", Def: "▯ is soccer/football (game).", By: "Hoemai", Score: 0}, "pueq": Word{Word: "pueq", Def: "predicate: ‘tread’; ▯ steps/treads on ▯.", By: "official", Score: 0}, "pueruedea": Word{Word: "pueruedea", Def: "▯ taps their foot", By: "fagri", Score: 0}, "puese": Word{Word: "puese", Def: "▯ is a footprint", By: "seaqtaq", Score: 0}, "pueshio": Word{Word: "pueshio", Def: "predicate: ‘hip’; ▯ is a hip.", By: "official", Score: 0}, "puetuq": Word{Word: "puetuq", Def: "▯ is the sole (of a) foot.", By: "uakci", Score: 0}, "pui": Word{Word: "pui", Def: "sảo péı dỏshī da", By: "uakci", Score: 0}, "puidaome": Word{Word: "puidaome", Def: "▯ is a database", By: "seaqtaq", Score: 0}, "puigiq": Word{Word: "puigiq", Def: "few", By: "spreadsheet", Score: 0}, "puijeq": Word{Word: "puijeq", Def: "predicate: ‘same.number’; ▯ are equal in number to ▯; ▯ and ▯ are equinumerous.", By: "official", Score: 0}, "puimieq": Word{Word: "puimieq", Def: "The count of ▯ is the number ▯.", By: "fagri", Score: -3}, "puimoe": Word{Word: "puimoe", Def: "▯ has mixed feelings.", By: "lynn", Score: 0}, "puine": Word{Word: "puine", Def: "{mei}", By: "spreadsheet", Score: -1}, "puipoqchao": Word{Word: "puipoqchao", Def: "predicate: ‘bus’; ▯ is a bus/omnibus.", By: "official", Score: 0}, "puirie": Word{Word: "puirie", Def: "Number ▯ is between ▯ and ▯", By: "fagri", Score: 0}, "puiseu": Word{Word: "puiseu", Def: "▯ is a large number.", By: "Ilmen", Score: 0}, "puisho": Word{Word: "puisho", Def: "predicate: ‘multiply’; ▯ multiplies.", By: "official", Score: 0}, "puisia": Word{Word: "puisia", Def: "predicate: ‘zero’; ▯ are zero in number; ▯ are none.", By: "official", Score: 0}, "puitao": Word{Word: "puitao", Def: "▯ multitasks (by doing ▯)", By: "seaqtaq", Score: 0}, "puitua": Word{Word: "puitua", Def: "predicate: ‘multiply’; ▯ multiplies ▯.", By: "official", Score: 0}, "puituao": Word{Word: "puituao", Def: "predicate: ‘few’; ▯ are few in number.", By: "official", Score: 0}, "puituao riaq lu bu lie lui ti ji hoa da. ": Word{Word: "puituao riaq lu bu lie lui ti ji hoa da. ", Def: "(A0629) There are few places I haven't gone.", By: "examples", Score: 0}, "puituq": Word{Word: "puituq", Def: "▯ is a significant portion of the things satisfying property ▯", By: "fagri", Score: 0}, "pujao": Word{Word: "pujao", Def: "predicate: ‘long.ago’; ▯ happened a long time ago.", By: "official", Score: 0}, "pujao cheo choadeoq ho da.": Word{Word: "pujao cheo choadeoq ho da.", Def: "(A0300) Along time ago they talked to each other.", By: "examples", Score: 0}, "pujao fuo ho ji soq pujui da.": Word{Word: "pujao fuo ho ji soq pujui da.", Def: "(A0962) It's a long time ago that he/she was in contact with me most recently.", By: "examples", Score: 0}, "pujoa": Word{Word: "pujoa", Def: "▯ is last week.", By: "lynn", Score: 0}, "pujue": Word{Word: "pujue", Def: "▯ is last month.", By: "lynn", Score: 0}, "pujui": Word{Word: "pujui", Def: "= #pu ru #nảıjūı", By: "uakci", Score: 0}, "pukao": Word{Word: "pukao", Def: "history", By: "spreadsheet", Score: 0}, "puma": Word{Word: "puma", Def: "▯ is a puma/cougar.", By: "Ilmen", Score: 0}, "pume": Word{Word: "pume", Def: "history", By: "spreadsheet", Score: 0}, "pune": Word{Word: "pune", Def: "▯ is the time elapsed since ▯", By: "Ilmen", Score: 0}, "puniaq": Word{Word: "puniaq", Def: "▯ is last year.", By: "lynn", Score: 0}, "puo": Word{Word: "puo", Def: "predicate: ‘powder’; ▯ is powder.", By: "official", Score: 0}, "puoi": Word{Word: "puoi", Def: "▯ is a different thing (different identity) than ▯", By: "fagri", Score: 0}, "puoshuao": Word{Word: "puoshuao", Def: "▯ is a phoenix (member of the Pulveridae).", By: "uakci", Score: 0}, "puotua": Word{Word: "puotua", Def: "▯ pulverizes ▯;", By: "Hoemai", Score: 0}, "pupuchaq": Word{Word: "pupuchaq", Def: "▯ is the day before yesterday.", By: "lynn", Score: 1}, "puq": Word{Word: "puq", Def: "hủaq pủı dóshī shí da", By: "uakci", Score: 0}, "puqho": Word{Word: "puqho", Def: "predicate: ‘they’; ▯ are them.", By: "official", Score: 0}, "puqho pa cheo bu biaq deoq da.": Word{Word: "puqho pa cheo bu biaq deoq da.", Def: "(A0575) They don't communicate enough.", By: "examples", Score: 0}, "puqmeame": Word{Word: "puqmeame", Def: "▯ is a multiset/bag.", By: "Ilmen", Score: 0}, "puqto": Word{Word: "puqto", Def: "▯ is one-and-a-half (three halves of) ▯ in quantity.", By: "uakci", Score: 0}, "puqtoa": Word{Word: "puqtoa", Def: "expression", By: "spreadsheet", Score: 0}, "puqtuao": Word{Word: "puqtuao", Def: "▯ is several; ▯ is a couple; ▯ is a few.", By: "uakci", Score: 0}, "pura": Word{Word: "pura", Def: "▯ = ▯ + ▯.", By: "uakci", Score: 0}, "q̄": Word{Word: "q̄", Def: "hesitation", By: "uakci", Score: 0}, "ra": Word{Word: "ra", Def: "conjunction: ‘or’; inclusive or", By: "official", Score: 0}, "ra(siu)choatoai": Word{Word: "ra(siu)choatoai", Def: "▯ is a rhotic sound", By: "seaqtaq", Score: 0}, "radio": Word{Word: "radio", Def: "predicate: ‘radio’; ▯ pertains to radio transmission.", By: "official", Score: 0}, "rahina": Word{Word: "rahina", Def: "▯ pertains to the culture of Ukraine.", By: "countries", Score: 0}, "rahinagua": Word{Word: "rahinagua", Def: "▯ is the country Ukraine.", By: "countries", Score: 0}, "rahinatoaq": Word{Word: "rahinatoaq", Def: "▯ is (one of) the language(s) spoken in Ukraine.", By: "countries", Score: 0}, "rai": Word{Word: "rai", Def: "= [X] Sảlī jêo dóshī ja dógū.", By: "Ilmen", Score: 0}, "rai fi rai": Word{Word: "rai fi rai", Def: "nullary predicate: Something is a thing.", By: "uakci", Score: 0}, "raido": Word{Word: "raido", Def: "▯ is among the things that are of the correct type to fit in the slot this predicate is embedded in.", By: "uakci", Score: 0}, "raihao": Word{Word: "raihao", Def: "▯ satisfies some property [Lojban {bu'a xi rau}].", By: "uakci", Score: 0}, "raijeq": Word{Word: "raijeq", Def: "predicate: ‘same’; ▯ is the same thing as ▯.", By: "official", Score: 0}, "rajeo": Word{Word: "rajeo", Def: "Either ▯ or ▯ is the case, or both", By: "seaqtaq", Score: 0}, "raku": Word{Word: "raku", Def: "scratch ⓥ", By: "spreadsheet", Score: -1}, "rakukuai": Word{Word: "rakukuai", Def: "itch (sensation)", By: "spreadsheet", Score: -1}, "rao": Word{Word: "rao", Def: "= [XX] Pảq sa dáqmōa dóshī ru dógū.", By: "Ilmen", Score: 0}, "rao baq koacao bi he koa baq shiqhua da.": Word{Word: "rao baq koacao bi he koa baq shiqhua da.", Def: "(A0253) In winter, (your) nose can get cold.", By: "examples", Score: 0}, "rao go tuqsīe chaq paq heijue da.": Word{Word: "rao go tuqsīe chaq paq heijue da.", Def: "(A0158) It's on the last day in October.", By: "examples", Score: 0}, "rao jiachaq bi duai chui tishai ji da.": Word{Word: "rao jiachaq bi duai chui tishai ji da.", Def: "(A0397) Tomorrow I have to leave early.", By: "examples", Score: 0}, "rao jiachaq bi duai ji li tishai chui da.": Word{Word: "rao jiachaq bi duai ji li tishai chui da.", Def: "(A0396) Tomorrow I have to leave early.", By: "examples", Score: 0}, "rao jiachaq bi fa ji farika da.": Word{Word: "rao jiachaq bi fa ji farika da.", Def: "(A0163) I'm going to Africa tommorow.", By: "examples", Score: 0}, "rao koacao bi he bai baq deo sa niaopoq da.": Word{Word: "rao koacao bi he bai baq deo sa niaopoq da.", Def: "(A0252) In winter, children build snowmen.", By: "examples", Score: 0}, "rao kuaochaq bi ceo joetao ji ba.": Word{Word: "rao kuaochaq bi ceo joetao ji ba.", Def: "(A0188) On Friday I should start practicing.", By: "examples", Score: 0}, "rao muaqsho ho bi, hai lui tao juq cue puq luaiche da.": Word{Word: "rao muaqsho ho bi, hai lui tao juq cue puq luaiche da.", Def: "(A0589) By the time of his death, the clowns had already taken power.", By: "examples", Score: 0}, "rao nichaq bi deq ji tu rai da.": Word{Word: "rao nichaq bi deq ji tu rai da.", Def: "(A0071) Today, I can do anything.", By: "examples", Score: 0}, "rao ninuaq bi jaq de nuaqgio da.": Word{Word: "rao ninuaq bi jaq de nuaqgio da.", Def: "(A0719) The stars are very beautiful tonight.", By: "examples", Score: 0}, "rao puchaq bi noaq ji sa jaq luai da.": Word{Word: "rao puchaq bi noaq ji sa jaq luai da.", Def: "(A0264) Yesterday I read some very funny things.", By: "examples", Score: 0}, "rao puchaq ju bu gi bi chuq ji sa pui da.": Word{Word: "rao puchaq ju bu gi bi chuq ji sa pui da.", Def: "(A0454) Yesterday, which incidentially wasn't good, I ate alot.", By: "examples", Score: 0}, "rao sa rai": Word{Word: "rao sa rai", Def: "prepositional phrase: \"some time\", \"at some point\"", By: "official", Score: 0}, "rao sa rai bi soicheo siaohusona": Word{Word: "rao sa rai bi soicheo siaohusona", Def: "(B0026) Once the Indians fought here", By: "oldexamples", Score: 0}, "rao sa rai bi soicheo siaomerik": Word{Word: "rao sa rai bi soicheo siaomerik", Def: "(B0026) Once the Indians fought here", By: "examples", Score: 0}, "rao shijue bi niaoshua da.": Word{Word: "rao shijue bi niaoshua da.", Def: "(A0139) In January it snowed.", By: "examples", Score: 0}, "rao sia daqmoa": Word{Word: "rao sia daqmoa", Def: "prepositional phrase: \"never\", \"at no moment\"", By: "official", Score: 0}, "rao tu chaq": Word{Word: "rao tu chaq", Def: "prepositional phrase: \"every day\"", By: "official", Score: 0}, "rao tu daqmoa": Word{Word: "rao tu daqmoa", Def: "prepositional phrase: \"always\", \"at every moment\"", By: "official", Score: 0}, "rao tu joa bi shichio fa ji kuejio da.": Word{Word: "rao tu joa bi shichio fa ji kuejio da.", Def: "(A0386) Every week I go to the library once.", By: "examples", Score: 0}, "raogi": Word{Word: "raogi", Def: "▯ is timely.", By: "Ilmen", Score: 0}, "raojao": Word{Word: "raojao", Def: "▯ is temporally far away from ▯.", By: "Ilmen", Score: 0}, "raojeq": Word{Word: "raojeq", Def: "ze'a", By: "spreadsheet", Score: 0}, "raojui": Word{Word: "raojui", Def: "▯ is temporally close to ▯.", By: "Ilmen", Score: 0}, "raopoeme": Word{Word: "raopoeme", Def: "▯ is temporally discontinuous.", By: "Ilmen", Score: 0}, "raoti": Word{Word: "raoti", Def: "= [XX] Pảq sa dáqgōamōa dóshī ru dógū.", By: "Ilmen", Score: 0}, "raq": Word{Word: "raq", Def: "gủjēo dóshī dógū sa ráı da", By: "uakci", Score: -1}, "raqbui": Word{Word: "raqbui", Def: "▯ is off-topic; ▯ is off topic ▯.", By: "uakci", Score: 0}, "raqche": Word{Word: "raqche", Def: "▯’s occupation is related to ▯; ▯ is a ▯-ician.", By: "uakci", Score: 0}, "raqchie": Word{Word: "raqchie", Def: "▯ learns subject ▯; ▯ learns about ▯_.", By: "uakci", Score: 0}, "raqdeoq": Word{Word: "raqdeoq", Def: "▯ talks with ▯ about ▯", By: "fagri", Score: 0}, "raqdua": Word{Word: "raqdua", Def: "slabu", By: "spreadsheet", Score: 0}, "raqfi": Word{Word: "raqfi", Def: "broda", By: "uakci", Score: 0}, "raqheo": Word{Word: "raqheo", Def: "▯ is about something else; ▯ and ▯ pertain to different things.", By: "lynn", Score: 1}, "raqjoe": Word{Word: "raqjoe", Def: "▯ is skilful (skillful) in subject ▯; ▯ is good at (things related to) ▯.", By: "uakci", Score: 0}, "raqkuq": Word{Word: "raqkuq", Def: "▯ comments on ▯.", By: "uakci", Score: 0}, "raqkuqsue": Word{Word: "raqkuqsue", Def: "▯ asks ▯ to comment on ▯; ▯ makes a Request For Comments; abbrev. rks.", By: "uakci", Score: 0}, "raqme": Word{Word: "raqme", Def: "system", By: "spreadsheet", Score: 0}, "raqmoi": Word{Word: "raqmoi", Def: "predicate: ‘think.about’; ▯ thinks about ▯.", By: "official", Score: 0}, "raqmoi suq lu lui tao suq hi rai ba.": Word{Word: "raqmoi suq lu lui tao suq hi rai ba.", Def: "(A0350) Think about what you've done.", By: "examples", Score: 0}, "raqruo": Word{Word: "raqruo", Def: "treat", By: "spreadsheet", Score: 0}, "raqtaq": Word{Word: "raqtaq", Def: "▯ is meta.", By: "uakci", Score: 1}, "raqtaqraqtaqshoceo": Word{Word: "raqtaqraqtaqshoceo", Def: "▯(event) starts to become meta meta", By: "seaqtaq", Score: 0}, "rara": Word{Word: "rara", Def: "jẻo dóshī sa lú sỉu hóa dógū da", By: "uakci", Score: 0}, "raroi": Word{Word: "raroi", Def: "= [XXX] Tu ráı pa mẻa dóshī na re mẻa go dógū ra dósāq.\n= [XXX…] Tu dóshī bı mẻjēo rảrōı dóshī na re tu dógū bı to re mẻa dógū lú sỉekō shỉ hóa dóshī to sa dósāq sěuhūaq shỉ bı mẻa dógū lú sỉekō hóa dóshī dósāq.", By: "Ilmen", Score: 0}, "rasi": Word{Word: "rasi", Def: "▯ = ▯ × ▯.", By: "uakci", Score: 0}, "ratio": Word{Word: "ratio", Def: "proportion, ratio", By: "spreadsheet", Score: 0}, "rato": Word{Word: "rato", Def: "▯ is a rat.", By: "Ilmen", Score: 0}, "re": Word{Word: "re", Def: "statement prefix: append #súq as the first place to the subordinated statement, shifting places one to the right, then pack into predicate meaning ‘I hereby request/ask/command that [statement] be the case.’", By: "uakci", Score: 0}, "rea": Word{Word: "rea", Def: "= [XX] Mẻ dóshī góamōa lủ hóa bı sa jéo ru sa bú pa lủ pảq go dógū sa góamōa tǐlēaq hóa bíhōı na fĩahōa.", By: "Ilmen", Score: 0}, "reahua": Word{Word: "reahua", Def: "skin", By: "spreadsheet", Score: 0}, "reahuashoai": Word{Word: "reahuashoai", Def: "▯ is a colugo (Dermoptera taxonomic order).", By: "Ilmen", Score: 0}, "reai": Word{Word: "reai", Def: "(fork of #ejVb1Y2FU) ▯ is against ▯.", By: "seaqtaq", Score: 0}, "reame": Word{Word: "reame", Def: "▯ is the surface of ▯.", By: "Ilmen", Score: 0}, "reaq": Word{Word: "reaq", Def: "predicate: ‘lie’; ▯ lies on ▯; ▯ reclines on ▯.", By: "official", Score: 0}, "reaq ru jiai go poji gieshio ba.": Word{Word: "reaq ru jiai go poji gieshio ba.", Def: "(A0966) Recline on and hold my shoulder.", By: "examples", Score: 0}, "reashuitua": Word{Word: "reashuitua", Def: "▯ is end to end encryption", By: "seaqtaq", Score: 0}, "rego": Word{Word: "rego", Def: "▯ is a strawberry plant.", By: "Ilmen", Score: 0}, "regoheu": Word{Word: "regoheu", Def: "▯ is a strawberry", By: "seaqtaq", Score: 0}, "rehe": Word{Word: "rehe", Def: "▯ is religious, spiritual.", By: "uakci", Score: -3}, "rei": Word{Word: "rei", Def: "fẻotī go tu féo cu dógū sa lú mẻa hóa dóshī na\u00a0", By: "uakci", Score: 0}, "rei sa muaome buajio da.": Word{Word: "rei sa muaome buajio da.", Def: "(A0405) The house is surrounded by forest.", By: "examples", Score: 0}, "reiduo": Word{Word: "reiduo", Def: "▯ orbits / moves around\u00a0 ▯.", By: "lynn", Score: 0}, "reijioqchuo": Word{Word: "reijioqchuo", Def: "▯ is an abacus.", By: "uakci", Score: 0}, "reilia": Word{Word: "reilia", Def: "▯ juxtapose ▯", By: "seaqtaq", Score: -1}, "reo": Word{Word: "reo", Def: "predicate: ‘coloured’; ▯ is coloured; ▯ is of colour ▯.", By: "official", Score: 0}, "reo ni hirai moq": Word{Word: "reo ni hirai moq", Def: "phrase: \"What colour is this?\", \"What colour does this have?\"", By: "official", Score: 0}, "reobo": Word{Word: "reobo", Def: "predicate: ‘coloured’; ▯ is coloured; ▯ is of colour ▯.", By: "Ilmen", Score: 0}, "reokaq": Word{Word: "reokaq", Def: "▯ is a color.", By: "Ilmen", Score: 0}, "reomia": Word{Word: "reomia", Def: "▯ is many-coloured/multicoloured/multicolored.", By: "Hoemai", Score: 0}, "reomuoq": Word{Word: "reomuoq", Def: "paint (n)", By: "spreadsheet", Score: -1}, "reoq": Word{Word: "reoq", Def: "= gıq #chủı", By: "uakci", Score: 0}, "reoqchuq": Word{Word: "reoqchuq", Def: "▯ eats dinner", By: "seaqtaq", Score: 0}, "reoqfeo": Word{Word: "reoqfeo", Def: "▯ is the west (direction).", By: "Ilmen", Score: 0}, "reoqhaq": Word{Word: "reoqhaq", Def: "predicate: ‘dinner’; ▯ is dinner (late/evening meal).", By: "official", Score: 0}, "reoqlio": Word{Word: "reoqlio", Def: "▯ is the south (direction)", By: "Ilmen", Score: 0}, "reoqriao": Word{Word: "reoqriao", Def: "predicate: ‘dusk’; ▯ is dusk.", By: "official", Score: 0}, "reoqsiaq": Word{Word: "reoqsiaq", Def: "north (direction)", By: "spreadsheet", Score: -1}, "reosai": Word{Word: "reosai", Def: "▯ is paint/dye.", By: "lynn", Score: 2}, "reosia": Word{Word: "reosia", Def: "predicate: ‘colourless’; ▯ is colourless.", By: "official", Score: 0}, "reotuai": Word{Word: "reotuai", Def: "▯ is a chromosome.", By: "Hoemai", Score: 0}, "repi": Word{Word: "repi", Def: "reptile", By: "spreadsheet", Score: 0}, "req": Word{Word: "req", Def: "predicate: ‘human’; ▯ is a human.", By: "official", Score: 0}, "reqbu": Word{Word: "reqbu", Def: "▯ non-human is.", By: "uakci", Score: 0}, "reqdīu": Word{Word: "reqdīu", Def: "▯ is anthropology.", By: "lynn", Score: 0}, "reqkea": Word{Word: "reqkea", Def: "▯ is an android.", By: "Ilmen", Score: 0}, "reqro": Word{Word: "reqro", Def: "throw", By: "spreadsheet", Score: -1}, "reqse": Word{Word: "reqse", Def: "▯ is artificial/man-made.", By: "Ilmen", Score: 0}, "reqsesai": Word{Word: "reqsesai", Def: "▯ is plastic.", By: "Ilmen", Score: 0}, "reqshuaq": Word{Word: "reqshuaq", Def: "A man made ▯; ▯ is man-made.", By: "uakci", Score: 0}, "reqsiu": Word{Word: "reqsiu", Def: "predicate: ‘humanoid’; ▯ is humanoid/human-like.", By: "official", Score: 0}, "reqsua": Word{Word: "reqsua", Def: "In order for ▯ to be achieved, at least ▯ (number) people’s work is required.", By: "uakci", Score: 0}, "reu": Word{Word: "reu", Def: "tu dópā pǔıjēq hóa dóshī na tu dógū lǔ to ru pủıjēq hóa dógū to lỉ mẻa ja dó to ru dópā to hóa ceı sıa ráı bı pủıjēq dóshī tu lú tu dó bı jẻojēq mêa dó hóa na mê dó sa lú mẻa hóa shỉ dópā na roı sa lú mẻa hóa shỉ dórē da", By: "uakci", Score: 0}, "reu go": Word{Word: "reu go", Def: "▯ = ▯ ÷ ▯.", By: "Ilmen", Score: 0}, "ri": Word{Word: "ri", Def: "Conjunction: which?", By: "fagri", Score: 0}, "ria": Word{Word: "ria", Def: "= #kıu #pẻo", By: "uakci", Score: 0}, "ria ta chuao da.": Word{Word: "ria ta chuao da.", Def: "(QUA.4) The windows is open.", By: "official", Score: 0}, "riachoacha": Word{Word: "riachoacha", Def: "(fork of #qnPvxOOld) ▯ is breathy/murmured voice (phonetics)", By: "seaqtaq", Score: 0}, "riachoatoai": Word{Word: "riachoatoai", Def: "▯ is a vowel.", By: "Ilmen", Score: 0}, "riai": Word{Word: "riai", Def: "predicate: ‘support’; ▯ supports ▯; ▯ holds up ▯.", By: "official", Score: 0}, "riaiceaq": Word{Word: "riaiceaq", Def: "▯ is a hoof.", By: "Ilmen", Score: 0}, "riaigiq": Word{Word: "riaigiq", Def: "▯ is against ▯", By: "seaqtaq", Score: 0}, "riaigiqtaokiu": Word{Word: "riaigiqtaokiu", Def: "▯ is reversable", By: "seaqtaq", Score: 0}, "riaigiqtaokiubu": Word{Word: "riaigiqtaokiubu", Def: "▯ is irreversable", By: "seaqtaq", Score: 0}, "riaihe(kea)": Word{Word: "riaihe(kea)", Def: "▯ is a frame/structure/skeleton/supporting outline.", By: "seaqtaq", Score: 0}, "riaikuq": Word{Word: "riaikuq", Def: "argue that", By: "spreadsheet", Score: 0}, "riaimu": Word{Word: "riaimu", Def: "▯ hangs off of ▯.", By: "uakci", Score: 0}, "riao": Word{Word: "riao", Def: "predicate: ‘twilight’; ▯ is a twilight/dawn/dusk/half-light/glimmering.", By: "official", Score: 0}, "riaq": Word{Word: "riaq", Def: "= mu #tỉ", By: "uakci", Score: 0}, "riaqkea": Word{Word: "riaqkea", Def: "▯ is a map", By: "seaqtaq", Score: 0}, "riaqnua": Word{Word: "riaqnua", Def: "▯ is the result of substituting ▯ for ▯ into ▯; ▯ = [▯ → ▯](▯).", By: "uakci", Score: 0}, "riba": Word{Word: "riba", Def: "▯ is a member of genus Ribes (including the blackcurrant, redcurrant, white currant, the gooseberry and other plants).", By: "Hoemai", Score: 0}, "ridi": Word{Word: "ridi", Def: "bridi", By: "spreadsheet", Score: -1}, "rie": Word{Word: "rie", Def: "predicate: ‘between’; ▯ is between/amidst/among ▯ (plural).", By: "official", Score: 0}, "riegoa": Word{Word: "riegoa", Def: "▯ is the space/room/gap between ▯ (plural).", By: "lynn", Score: 0}, "rieq": Word{Word: "rieq", Def: "predicate: ‘avoid’; ▯ avoids/evades satisfying property ▯.", By: "official", Score: 0}, "rietei": Word{Word: "rietei", Def: "interface", By: "spreadsheet", Score: 0}, "rilu": Word{Word: "rilu", Def: "mail, ship, mrilu", By: "spreadsheet", Score: 0}, "rio": Word{Word: "rio", Def: "predicate: ‘air’; ▯ is air.", By: "official", Score: 0}, "riobiu": Word{Word: "riobiu", Def: "▯ is a hurricane; 🌪.", By: "uakci", Score: -1}, "riochao": Word{Word: "riochao", Def: "predicate: ‘aircraft’; ▯ is an aircraft/plane.", By: "official", Score: 0}, "riociu": Word{Word: "riociu", Def: "burp/fart ()", By: "spreadsheet", Score: 0}, "rioduo": Word{Word: "rioduo", Def: "wind", By: "spreadsheet", Score: 0}, "riofa": Word{Word: "riofa", Def: "fly, vofli", By: "spreadsheet", Score: 0}, "rioi": Word{Word: "rioi", Def: "▯ is a replacement, surrogate, substitute, representation, stand-in for ▯ in satisfying p-ty ▯; ▯ is instead of ▯ in being ▯; ▯ replaces ▯ for task ▯. [Lojban ‘basti’ + ‘krati’]", By: "uakci", Score: 0}, "riolai": Word{Word: "riolai", Def: "comma (,)", By: "uakci", Score: 0}, "rioliai": Word{Word: "rioliai", Def: "▯ flies.", By: "Ilmen", Score: 0}, "riomiq": Word{Word: "riomiq", Def: "▯ is an atmosphere.", By: "Ilmen", Score: 0}, "riomuoibīu": Word{Word: "riomuoibīu", Def: "▯ is a tornado", By: "seaqtaq", Score: 0}, "rionao": Word{Word: "rionao", Def: "▯ is dew.", By: "Ilmen", Score: 0}, "rionaomai": Word{Word: "rionaomai", Def: "▯ is a fruit fly (Drosophila taxonomic genus).", By: "Ilmen", Score: 0}, "riopie": Word{Word: "riopie", Def: "breathe ()", By: "spreadsheet", Score: 0}, "riopiecea": Word{Word: "riopiecea", Def: "lung", By: "spreadsheet", Score: 0}, "riopiehua": Word{Word: "riopiehua", Def: "lung", By: "spreadsheet", Score: 0}, "rioq": Word{Word: "rioq", Def: "mẻa dóshī dógū, na ru jẻo dóshī sa lú bủ jêo tu lú mẻa hóa dógū na hóa da", By: "uakci", Score: 0}, "rioqbaq": Word{Word: "rioqbaq", Def: "▯ is the default", By: "seaqtaq", Score: 0}, "rioqdīu": Word{Word: "rioqdīu", Def: "▯ is typology", By: "seaqtaq", Score: 0}, "rioqheo": Word{Word: "rioqheo", Def: "▯ pa: hẻo ▯ rîoq ja dó", By: "seaqtaq", Score: 0}, "rioqjeqchuq": Word{Word: "rioqjeqchuq", Def: "▯ is a cannibal.", By: "Ilmen", Score: 0}, "riosai": Word{Word: "riosai", Def: "▯ is gas.", By: "lynn", Score: 0}, "riosho": Word{Word: "riosho", Def: "▯ evaporates.", By: "Ilmen", Score: 0}, "riosiu": Word{Word: "riosiu", Def: "gas", By: "spreadsheet", Score: 0}, "riq": Word{Word: "riq", Def: "rẻo sa báq nỉu dóshī da", By: "uakci", Score: 0}, "riqchai": Word{Word: "riqchai", Def: "▯ is green tea.", By: "uakci", Score: 0}, "riqchaq": Word{Word: "riqchaq", Def: "predicate: ‘thursday’; ▯ is a Thursday.", By: "official", Score: 0}, "riqnao": Word{Word: "riqnao", Def: "▯ is bile.", By: "Ilmen", Score: 0}, "riqreo": Word{Word: "riqreo", Def: "predicate: ‘green’; ▯ is of green colour.", By: "official", Score: 0}, "riqshueq": Word{Word: "riqshueq", Def: "▯ is ill-brewed green tea (characterised by a bitter aftertaste).", By: "uakci", Score: 0}, "riteoq": Word{Word: "riteoq", Def: "▯ is a which-of-the-two question (a question using **rı**).", By: "Hoemai", Score: 0}, "riu": Word{Word: "riu", Def: "= #nıqgūo #jẻo", By: "uakci", Score: 0}, "riu roe": Word{Word: "riu roe", Def: "predicate: ‘recover’; ▯ recovers ", By: "seaqtaq", Score: 0}, "riubeaq": Word{Word: "riubeaq", Def: "predicate: ‘boomerang’; ▯ is a boomerang.", By: "official", Score: 0}, "riudoa": Word{Word: "riudoa", Def: "predicate: ‘give.back’; ▯ returns ▯ to ▯; ▯ gives ▯ back to ▯.", By: "official", Score: 0}, "riuduo": Word{Word: "riuduo", Def: "predicate: ‘return’; ▯ returns to ▯; ▯ moves back to ▯.", By: "official", Score: 0}, "riufa": Word{Word: "riufa", Def: "predicate: ‘return’; ▯ returns to ▯; ▯ goes back to ▯.", By: "official", Score: 0}, "riusoi": Word{Word: "riusoi", Def: "▯ revenges on ▯ by doing ▯.", By: "uakci", Score: 0}, "riutao": Word{Word: "riutao", Def: "▯ does ▯/1 in return for ▯/0; (▯ does ▯/1 in gratefulness for ▯; ▯ does ▯/1 to make up for ▯.)", By: "uakci", Score: 0}, "riutua": Word{Word: "riutua", Def: "▯ resets ▯\u00a0", By: "seaqtaq", Score: 0}, "riutue": Word{Word: "riutue", Def: "▯ is the anniversary of ▯\u00a0", By: "seaqtaq", Score: 0}, "ro": Word{Word: "ro", Def: "conjunction: ‘xor’; exclusive or", By: "official", Score: 0}, "roa": Word{Word: "roa", Def: "adverb: ‘naturally’; \"naturally\"", By: "official", Score: 0}, "roacoaq": Word{Word: "roacoaq", Def: "▯ is domesticated.", By: "Ilmen", Score: 0}, "roadeq": Word{Word: "roadeq", Def: "▯ innately satisfies property ▯.", By: "Ilmen", Score: 0}, "roagiq": Word{Word: "roagiq", Def: "artificial", By: "spreadsheet", Score: 0}, "roai": Word{Word: "roai", Def: "predicate: ‘eight’; ▯ are eight in number.", By: "official", Score: 0}, "roai chieniq pa leo choadeoq da.": Word{Word: "roai chieniq pa leo choadeoq da.", Def: "(A0373) The 8 students try to voice chat.", By: "examples", Score: 0}, "roaifeode(poq)": Word{Word: "roaifeode(poq)", Def: "▯ is a 八方美人 [hap·pō·bi·jin]; ▯ is a «person beautiful in eight directions» – somebody who tries to appeal to and be a friend of everybody.", By: "uakci", Score: 0}, "roaijue": Word{Word: "roaijue", Def: "▯ is August", By: "lynn", Score: 1}, "roaiko": Word{Word: "roaiko", Def: "predicate: ‘eighth’; ▯ is eighth among ▯.", By: "official", Score: 0}, "roailaqtei": Word{Word: "roailaqtei", Def: "▯ is the eighth tone (neutral).", By: "lynn", Score: 0}, "roaipue": Word{Word: "roaipue", Def: "octopus", By: "spreadsheet", Score: 0}, "roajiaq": Word{Word: "roajiaq", Def: "predicate: ‘nature’; ▯ is nature.", By: "official", Score: 0}, "roamiu": Word{Word: "roamiu", Def: "instinct", By: "spreadsheet", Score: -1}, "roao": Word{Word: "roao", Def: "▯ decorates/adorns ▯; ▯ is a decoration/embellishment to ▯.", By: "uakci", Score: 0}, "roaq": Word{Word: "roaq", Def: "nỉaı dóshī ru dógū, na ru lủı bảı dóshī dógū da", By: "uakci", Score: 0}, "roaqfu": Word{Word: "roaqfu", Def: "▯ is a half-sibling of ▯.", By: "sheireq", Score: 0}, "roaqpia": Word{Word: "roaqpia", Def: "▯ is an aunt/uncle of ▯ (sibling of parent)", By: "seaqtaq", Score: 0}, "roaqpiafu": Word{Word: "roaqpiafu", Def: "▯ is a cousin of ▯", By: "seaqtaq", Score: 0}, "roaqroaq": Word{Word: "roaqroaq", Def: "▯ is the parent of the parent of ▯", By: "seaqtaq", Score: 0}, "roaqseo": Word{Word: "roaqseo", Def: "▯ is a step-parent of ▯.", By: "sheireq", Score: 0}, "roaqseofu": Word{Word: "roaqseofu", Def: "▯ is a step-sibling of ▯.", By: "sheireq", Score: 0}, "roaqsu": Word{Word: "roaqsu", Def: "(fork of #3UaRLtcuB) ▯ is the parent of the parent of ▯", By: "seaqtaq", Score: 0}, "roaruo": Word{Word: "roaruo", Def: "instinct", By: "spreadsheet", Score: -1}, "roaruodiu": Word{Word: "roaruodiu", Def: "▯ is ethology.", By: "Ilmen", Score: 0}, "roateu": Word{Word: "roateu", Def: "▯ = exp(▯).", By: "Ilmen", Score: 0}, "roateu go": Word{Word: "roateu go", Def: "▯ = ln(▯).", By: "Ilmen", Score: 0}, "roatoaq": Word{Word: "roatoaq", Def: "▯ is a natural language.", By: "lynn", Score: 0}, "rodoq": Word{Word: "rodoq", Def: "rose, plant", By: "spreadsheet", Score: 0}, "rodoqmuao": Word{Word: "rodoqmuao", Def: "▯ is a member of genus Rhododendron.", By: "Hoemai", Score: 0}, "roe": Word{Word: "roe", Def: "predicate: ‘healthy’; ▯ is healthy.", By: "official", Score: 0}, "roediu": Word{Word: "roediu", Def: "medicine (science)", By: "spreadsheet", Score: 0}, "roeduo": Word{Word: "roeduo", Def: "physical exercise", By: "spreadsheet", Score: -1}, "roene": Word{Word: "roene", Def: "health (amount)", By: "spreadsheet", Score: 0}, "roesho": Word{Word: "roesho", Def: "predicate: ‘recover’; ▯ recovers; ▯ becomes healthy.", By: "official", Score: 0}, "roesoamuoq": Word{Word: "roesoamuoq", Def: "medicine (substance)", By: "spreadsheet", Score: 0}, "roha": Word{Word: "roha", Def: "▯ is social.", By: "uakci", Score: -1}, "rohe": Word{Word: "rohe", Def: "▯ is mental.", By: "uakci", Score: -1}, "rohi": Word{Word: "rohi", Def: "▯ is emotional.", By: "uakci", Score: -1}, "roho": Word{Word: "roho", Def: "▯ is bodily, somatic.", By: "uakci", Score: -1}, "rohu": Word{Word: "rohu", Def: "▯ is sexual.", By: "uakci", Score: -1}, "roi": Word{Word: "roi", Def: "[RU] Mủıjēq mó dóshī roı dógū teo mó lú rảrōı hóa dóshī dógū na teo da.", By: "Ilmen", Score: 0}, "roichiaitao": Word{Word: "roichiaitao", Def: "▯ commits Freudian slip ▯.", By: "uakci", Score: 0}, "roijeo": Word{Word: "roijeo", Def: "▯ (predicate) is true of the argument structure ⟨▯, (▯, (▯, …)))⟩; the first argument is a predicate that is true of the argument structure made from to the remaining arguments.", By: "Ilmen", Score: 1}, "roineu": Word{Word: "roineu", Def: "▯ is the sum of all the numbers among ▯.", By: "Ilmen", Score: 0}, "roireu": Word{Word: "roireu", Def: "▯ is the product of all the numbers among ▯.", By: "Ilmen", Score: 0}, "rokodelo": Word{Word: "rokodelo", Def: "▯ is a crocodile.", By: "Ilmen", Score: 0}, "roq": Word{Word: "roq", Def: "bỉaq mẻo dóshī cà shûaq ru lỉ shỏe pẻo ja dó ja ráı sa pó dó ga kảqhūa na dóshī dógū da", By: "uakci", Score: 0}, "roq suq kui hi rai moq.": Word{Word: "roq suq kui hi rai moq.", Def: "(A0587) Why are you crying?", By: "examples", Score: 0}, "roqdiao": Word{Word: "roqdiao", Def: "predicate: ‘tear’; ▯ is a tear/teardrop.", By: "official", Score: 0}, "rotaq": Word{Word: "rotaq", Def: "paradox", By: "uakci", Score: 0}, "roti": Word{Word: "roti", Def: "bread", By: "spreadsheet", Score: 0}, "ru": Word{Word: "ru", Def: "[RU] Shủ rủ lúcōetōa lǎı hóa cúaq tỏrū da.", By: "Ilmen", Score: 0}, "ru mu su": Word{Word: "ru mu su", Def: "… and vice-versa (reciprocity of the two first arguments).", By: "Ilmen", Score: 0}, "ru sugo": Word{Word: "ru sugo", Def: "… and vice-versa (reciprocity of the two first arguments).", By: "Ilmen", Score: 1}, "rua": Word{Word: "rua", Def: "predicate: ‘flower’; ▯ is a flower.", By: "official", Score: 0}, "ruadueq": Word{Word: "ruadueq", Def: "▯ is a flower field.", By: "Ilmen", Score: 0}, "ruai": Word{Word: "ruai", Def: "predicate: ‘royal’; ▯ is royal/noble/aristocratic.", By: "official", Score: 0}, "ruaibue": Word{Word: "ruaibue", Def: "▯ is a palace", By: "seaqtaq", Score: 0}, "ruaicha": Word{Word: "ruaicha", Def: "▯ is done in a noble/dignified manner/fashion.", By: "uakci", Score: 0}, "ruaichea": Word{Word: "ruaichea", Def: "predicate: ‘crown’; ▯ is a crown.", By: "official", Score: 0}, "ruaifu": Word{Word: "ruaifu", Def: "▯ is a prince or princess.", By: "Ilmen", Score: 0}, "ruaijoaq": Word{Word: "ruaijoaq", Def: "predicate: ‘king/queen’; ▯ is a king/queen.", By: "official", Score: 0}, "ruailiqfu": Word{Word: "ruailiqfu", Def: "predicate: ‘princess’; ▯ is a princess.", By: "official", Score: 0}, "ruainaqfu": Word{Word: "ruainaqfu", Def: "predicate: ‘prince’; ▯ is a prince.", By: "official", Score: 0}, "ruairui": Word{Word: "ruairui", Def: "▯ is Earl Grey (Earl Gray) tea.", By: "uakci", Score: 0}, "ruaniai": Word{Word: "ruaniai", Def: "▯ is an anthozoan (Anthozoa taxonomic class: corals, sea anemones, gorgonians).", By: "Ilmen", Score: 0}, "ruao": Word{Word: "ruao", Def: "predicate: ‘forgive’; ▯ forgives ▯ for satisfying property ▯.", By: "official", Score: 0}, "ruaq": Word{Word: "ruaq", Def: "predicate: ‘assert’; ▯ asserts/claims ▯ to be the case.", By: "official", Score: 0}, "ruaq huitua": Word{Word: "ruaq huitua", Def: "▯ asserts that ▯ made bad thing ▯ happen;\u00a0 ▯ criticizes ▯ for ▯.", By: "lynn", Score: 0}, "ruaq suq ti suq niriaq na rao puchaq.": Word{Word: "ruaq suq ti suq niriaq na rao puchaq.", Def: "(CCL.3) You asserted that you were here yesterday.", By: "official", Score: 0}, "ruaqcheu": Word{Word: "ruaqcheu", Def: "▯ tells lie ▯ (proposition); ▯ deceitfully asserts ▯ while not thinking it to be the case.", By: "Ilmen", Score: 0}, "ruaqchi": Word{Word: "ruaqchi", Def: "hear that (hearsay, indirect information), ti'erna", By: "spreadsheet", Score: 0}, "ruaqdiu": Word{Word: "ruaqdiu", Def: "▯ is the field of Pragmatics", By: "seaqtaq", Score: 0}, "ruaqdua": Word{Word: "ruaqdua", Def: "▯ knows ▯ from hearsay (no matter through which medium —spoken, written…— that second-hand information was obtained).", By: "Ilmen", Score: 0}, "ruaqduaji": Word{Word: "ruaqduaji", Def: "I heard that / according to hearsays ▯ is the case.", By: "Ilmen", Score: 0}, "ruaqgai": Word{Word: "ruaqgai", Def: "hear that (hearsay, indirect information), ti'erna", By: "spreadsheet", Score: 1}, "ruaqgi": Word{Word: "ruaqgi", Def: "▯ is sincere/honest.", By: "Ilmen", Score: 0}, "ruaqhui": Word{Word: "ruaqhui", Def: "▯ is lying by asserting ▯.", By: "Ilmen", Score: 0}, "ruaqmoaq": Word{Word: "ruaqmoaq", Def: "hear that (hearsay, indirect information), ti'erna", By: "spreadsheet", Score: 0}, "ruaqnu": Word{Word: "ruaqnu", Def: "▯ is alledged to be the case; ▯ alledgedly satisfies property ▯", By: "seaqtaq", Score: 0}, "ruaqruaq": Word{Word: "ruaqruaq", Def: "▯ reports ▯ (0) to ▯", By: "fagri", Score: 0}, "ruaqse": Word{Word: "ruaqse", Def: "▯is an assertion/claim", By: "seaqtaq", Score: 1}, "ruaqshao": Word{Word: "ruaqshao", Def: "▯ meant to declare ▯", By: "fagri", Score: 0}, "ruashuao": Word{Word: "ruashuao", Def: "hummingbird", By: "spreadsheet", Score: -1}, "ruboq": Word{Word: "ruboq", Def: "▯ omits doing ▯; ▯ could’ve done/been ▯ while doing/being ▯, but they chose to avoid the former and did/were just the latter.", By: "uakci", Score: 0}, "rudo": Word{Word: "rudo", Def: "▯ is a member of genus Rubus (including the raspberries, blackberries, dewberries and other plants).", By: "Hoemai", Score: 0}, "rudobuishabu": Word{Word: "rudobuishabu", Def: "We are not out of the brambles.", By: "Ilmen", Score: 0}, "rue": Word{Word: "rue", Def: "predicate: ‘weak’; ▯ is weak/feeble.", By: "official", Score: 0}, "ruechoakuq": Word{Word: "ruechoakuq", Def: "▯ whispers ▯ to ▯", By: "seaqtaq", Score: 0}, "ruedea": Word{Word: "ruedea", Def: "▯ taps/knocks on ▯", By: "fagri", Score: 0}, "ruedua": Word{Word: "ruedua", Def: "▯ guesses/supposes/conjectures that ▯ is the case.", By: "Ilmen", Score: 0}, "ruekoi": Word{Word: "ruekoi", Def: "▯ walks timidly / treads lightly / tip-toes.", By: "lynn", Score: 0}, "ruemoaq": Word{Word: "ruemoaq", Def: "▯ faintly remembers ▯.", By: "lynn", Score: 0}, "ruenuoi": Word{Word: "ruenuoi", Def: "▯ nibbles at ▯", By: "seaqtaq", Score: 0}, "rueq": Word{Word: "rueq", Def: "predicate: ‘tight’; ▯ is tight.", By: "official", Score: 0}, "rugo": Word{Word: "rugo", Def: "▯ and ▯ are in relation ▯ with each other.", By: "Ilmen", Score: 0}, "rui": Word{Word: "rui", Def: "grey / gray", By: "uakci", Score: 0}, "ruireo": Word{Word: "ruireo", Def: "predicate: ‘gray’; ▯ is of gray colour.", By: "official", Score: 0}, "ruireo seoq da.": Word{Word: "ruireo seoq da.", Def: "(A0378) The sky is gray.", By: "examples", Score: 0}, "rujeo": Word{Word: "rujeo", Def: "Both ▯ and ▯ are the case; both ▯ and ▯ satisfy property ▯", By: "seaqtaq", Score: 0}, "ruji": Word{Word: "ruji", Def: "▯ is cream.", By: "Ilmen", Score: 0}, "ruka": Word{Word: "ruka", Def: "back (body part)", By: "spreadsheet", Score: -1}, "rukahie": Word{Word: "rukahie", Def: "▯ carries ▯ on their back.", By: "Ilmen", Score: 0}, "runa": Word{Word: "runa", Def: "pattern", By: "spreadsheet", Score: 0}, "ruo": Word{Word: "ruo", Def: "predicate: ‘behave’; ▯ behaves in way ▯ (property); ▯ conducts themselves in manner ▯ (property).", By: "official", Score: 0}, "ruobia": Word{Word: "ruobia", Def: "fenki", By: "spreadsheet", Score: 0}, "ruodiu": Word{Word: "ruodiu", Def: "▯ is a behavioral science.", By: "Ilmen", Score: 0}, "ruogi": Word{Word: "ruogi", Def: "polite", By: "spreadsheet", Score: 0}, "ruohui": Word{Word: "ruohui", Def: "▯ (agent) is rude/badly-behaved/mean", By: "fagri", Score: 0}, "ruoi": Word{Word: "ruoi", Def: "predicate: ‘thin’; ▯ is thin.", By: "official", Score: 0}, "ruoluaq": Word{Word: "ruoluaq", Def: "▯ pretends to be ▯; ▯ plays out ▯; ▯ does impression ▯.", By: "uakci", Score: 0}, "ruome": Word{Word: "ruome", Def: "▯ is etiquette", By: "seaqtaq", Score: 0}, "ruonieq": Word{Word: "ruonieq", Def: "clumsy, awkward", By: "uakci", Score: 0}, "ruopoe": Word{Word: "ruopoe", Def: "▯ is independent from ▯.", By: "uakci", Score: -1}, "ruoq": Word{Word: "ruoq", Def: "predicate: ‘straight’; ▯ is straight/linear.", By: "official", Score: 0}, "ruoqgaoduochao": Word{Word: "ruoqgaoduochao", Def: "▯ is a helicopter.", By: "Ilmen", Score: 0}, "ruoshai": Word{Word: "ruoshai", Def: "▯ falls from grace.", By: "uakci", Score: 0}, "ruotue": Word{Word: "ruotue", Def: "behavior", By: "spreadsheet", Score: 0}, "ruq": Word{Word: "ruq", Def: "nảo dóshī, na ru rảo go sa ráı nîe dóshī sa púao da", By: "uakci", Score: 0}, "ruqdiao": Word{Word: "ruqdiao", Def: "predicate: ‘raindrop’; ▯ is a raindrop.", By: "official", Score: 0}, "ruqnuao": Word{Word: "ruqnuao", Def: "predicate: ‘rainbow’; ▯ is a rainbow.", By: "official", Score: 0}, "ruqshua": Word{Word: "ruqshua", Def: "shủa dóshī rủq dógū dósāq da", By: "uakci", Score: 0}, "ruqshua bu da.": Word{Word: "ruqshua bu da.", Def: "(PRX.4) It isn't raining.", By: "official", Score: 0}, "ruqshua da.": Word{Word: "ruqshua da.", Def: "(A0204) It's raining.", By: "examples", Score: 0}, "ruqshua.": Word{Word: "ruqshua.", Def: "phrase: \"It's raining.\"", By: "official", Score: 0}, "ruqshuanai": Word{Word: "ruqshuanai", Def: "It's raining.", By: "fagri", Score: 0}, "ruqtie": Word{Word: "ruqtie", Def: "▯ is an umbrella, an overhang, or any other kind of physical blocker of rain.", By: "uakci", Score: 0}, "ruroi": Word{Word: "ruroi", Def: "▯ are the things that are both among ▯ and among ▯.", By: "Ilmen", Score: 0}, "rushe": Word{Word: "rushe", Def: "process", By: "spreadsheet", Score: -1}, "sa": Word{Word: "sa", Def: "[SA] Shủ sả cótōa lǎı hóa cúaq sảlī da.", By: "Ilmen", Score: 0}, "sa cijue lu rao hoa bi bu ceo chie ji sa meaheo toaq bi hui maq da.": Word{Word: "sa cijue lu rao hoa bi bu ceo chie ji sa meaheo toaq bi hui maq da.", Def: "(A0150) A June in which I don't start learning a new language is bad.", By: "examples", Score: 0}, "sa do bi chufaq chuq ji do da.": Word{Word: "sa do bi chufaq chuq ji do da.", Def: "(A0427) I'm eating something right now.", By: "examples", Score: 0}, "sa do bi kaqgai do ji.": Word{Word: "sa do bi kaqgai do ji.", Def: "(PRX.1) There exist(s) some X such that X sees me.", By: "official", Score: 0}, "sa geo poq pa pua chuq baq gui da.": Word{Word: "sa geo poq pa pua chuq baq gui da.", Def: "(A0100) Some old people like to eat grains.", By: "examples", Score: 0}, "sa joe su kuq no hiqlitoaq pa ruogi soa ji ba.": Word{Word: "sa joe su kuq no hiqlitoaq pa ruogi soa ji ba.", Def: "(A0975) ", By: "examples", Score: 0}, "sa poq": Word{Word: "sa poq", Def: "argument phrase: \"someone\", \"somebody\"", By: "official", Score: 0}, "sa poq pa fa rao tu loachaq baq jiaojio da.": Word{Word: "sa poq pa fa rao tu loachaq baq jiaojio da.", Def: "(A0269) Some people go to church every Sunday.", By: "examples", Score: 0}, "sa poq pa lu lao ji ti hoa da.": Word{Word: "sa poq pa lu lao ji ti hoa da.", Def: "(A0544) About some people: I await  their presence.", By: "examples", Score: 0}, "sa rai": Word{Word: "sa rai", Def: "argument phrase: \"something\"", By: "official", Score: 0}, "sa rai ji toqfua": Word{Word: "sa rai ji toqfua", Def: "(QUA.6) I am in some way related to the table.", By: "official", Score: 0}, "sa suao pa lu bu dua suq hoa da.": Word{Word: "sa suao pa lu bu dua suq hoa da.", Def: "(A0382) There is something important that you don't know.", By: "examples", Score: 0}, "sa tuq rai": Word{Word: "sa tuq rai", Def: "argument phrase: \"all things (together)\"", By: "official", Score: 0}, "sabaq": Word{Word: "sabaq", Def: "predicate: ‘soap’; ▯ is soap.", By: "official", Score: 0}, "sabaq bi naipu hai bojea ji pui maq kui choaidia da.": Word{Word: "sabaq bi naipu hai bojea ji pui maq kui choaidia da.", Def: "(A0772) ", By: "examples", Score: 0}, "sabeka": Word{Word: "sabeka", Def: "▯ is an elder/elderberry (genus Sambucus).", By: "Hoemai", Score: 0}, "sacheo": Word{Word: "sacheo", Def: "At least one pair among ▯ satisfies binary relationship ▯.", By: "lynn", Score: 0}, "sagi": Word{Word: "sagi", Def: "▯ is suitable for being ▯ed.", By: "Ilmen", Score: 0}, "sagiq": Word{Word: "sagiq", Def: "▯ = - ▯.", By: "uakci", Score: 0}, "saheaq": Word{Word: "saheaq", Def: "▯ carries with him/her/it something satisfying property ▯.", By: "Ilmen", Score: 0}, "sai": Word{Word: "sai", Def: "predicate: ‘matter’; ▯ is matter/material/substance.", By: "official", Score: 0}, "saidiu": Word{Word: "saidiu", Def: "▯ is chemistry", By: "seaqtaq", Score: 0}, "saine": Word{Word: "saine", Def: "▯ is the amount of substance of ▯.", By: "Ilmen", Score: 0}, "sairoq": Word{Word: "sairoq", Def: "▯ is iron", By: "fagri", Score: 0}, "saisia": Word{Word: "saisia", Def: "▯ is immaterial.", By: "Ilmen", Score: 0}, "saitoai": Word{Word: "saitoai", Def: "▯ is a molecule.", By: "Ilmen", Score: 0}, "sakaq": Word{Word: "sakaq", Def: "▯ pertains to the culture of Georgia.", By: "countries", Score: 0}, "sakaqgua": Word{Word: "sakaqgua", Def: "▯ is the country Georgia.", By: "countries", Score: 0}, "sakaqtoaq": Word{Word: "sakaqtoaq", Def: "▯ is (one of) the language(s) spoken in Georgia.", By: "countries", Score: 0}, "sake": Word{Word: "sake", Def: "▯ is saké (Japanese rice wine).", By: "Ilmen", Score: 0}, "salami": Word{Word: "salami", Def: "(fork of #qMpgdfm1l) ▯ is a salami", By: "brunofrancosalamin", Score: 0}, "sali": Word{Word: "sali", Def: "some thing(s) has/have property ▯ (among the things having the property ▯)", By: "Ilmen", Score: 0}, "samao": Word{Word: "samao", Def: "Property ▯ is also satisfied by something.", By: "uakci", Score: 0}, "same": Word{Word: "same", Def: "▯ is an aggregate of things having property ▯.", By: "Ilmen", Score: 0}, "samia": Word{Word: "samia", Def: "▯ is a moth of genus Samia (in the family Saturniidae).", By: "Hoemai", Score: 0}, "samuoq": Word{Word: "samuoq", Def: "▯ is made of a material satisfying property ▯.", By: "Ilmen", Score: 0}, "samurai": Word{Word: "samurai", Def: "▯ is a samurai.", By: "Ilmen", Score: 0}, "sani": Word{Word: "sani", Def: "temporary", By: "spreadsheet", Score: -1}, "sao": Word{Word: "sao", Def: "predicate: ‘big’; ▯ is big/large.", By: "official", Score: 0}, "sao gua faraqse da.": Word{Word: "sao gua faraqse da.", Def: "(A0078) France is a big country.", By: "examples", Score: 0}, "sao rua ni.": Word{Word: "sao rua ni.", Def: "(SRP.6) That is a large flower!", By: "official", Score: 0}, "saodi": Word{Word: "saodi", Def: "▯ pertains to the culture of Saudi Arabia – Kingdom of Saudi Arabia.", By: "countries", Score: 0}, "saodigua": Word{Word: "saodigua", Def: "▯ is the country Saudi Arabia – Kingdom of Saudi Arabia.", By: "countries", Score: 0}, "saoditoaq": Word{Word: "saoditoaq", Def: "▯ is (one of) the language(s) spoken in Saudi Arabia – Kingdom of Saudi Arabia.", By: "countries", Score: 0}, "saodoao": Word{Word: "saodoao", Def: "▯ is a telegram channel", By: "seaqtaq", Score: 0}, "saodoaq": Word{Word: "saodoaq", Def: "predicate: ‘city’; ▯ is a city.", By: "official", Score: 0}, "saofa": Word{Word: "saofa", Def: "travel", By: "spreadsheet", Score: 0}, "saogei": Word{Word: "saogei", Def: "▯ is the big gay", By: "seaqtaq", Score: 0}, "saoja": Word{Word: "saoja", Def: "▯ is a member of genus Cavia (guinea pigs, cavies).", By: "Hoemai", Score: 0}, "saojaq": Word{Word: "saojaq", Def: "predicate: ‘huge’; ▯ is huge.", By: "Ilmen", Score: 0}, "saojeaq": Word{Word: "saojeaq", Def: "predicate: ‘grow’; ▯ grows / gets bigger.", By: "official", Score: 0}, "saokai": Word{Word: "saokai", Def: "▯ writes ▯ on ▯ in uppercase", By: "seaqtaq", Score: 0}, "saokiao": Word{Word: "saokiao", Def: "gate", By: "spreadsheet", Score: -1}, "saokiao\u00a0": Word{Word: "saokiao\u00a0", Def: "▯ is a gate", By: "seaqtaq", Score: 0}, "saokua": Word{Word: "saokua", Def: "▯ is a hall.", By: "Hoemai", Score: 0}, "saone": Word{Word: "saone", Def: "▯ is the physical size of ▯", By: "seaqtaq", Score: 0}, "saonuikai": Word{Word: "saonuikai", Def: "(fork of #O3j3bmAUE) ▯ WriTEs ▯ oN ▯ LIkE tHiS", By: "seaqtaq", Score: 0}, "saopoq": Word{Word: "saopoq", Def: "▯ is a tall person.", By: "uakci", Score: 0}, "saopue": Word{Word: "saopue", Def: "kangaroo", By: "spreadsheet", Score: 0}, "saoriolai": Word{Word: "saoriolai", Def: "semicolon (;)", By: "uakci", Score: 0}, "saoro": Word{Word: "saoro", Def: "reptile", By: "spreadsheet", Score: 0}, "saoronuao": Word{Word: "saoronuao", Def: "▯ is a sauropsid.", By: "Ilmen", Score: 0}, "saoteq": Word{Word: "saoteq", Def: "▯ is commerce", By: "seaqtaq", Score: -1}, "sapa": Word{Word: "sapa", Def: "▯ accepts that ▯ be the case.", By: "Ilmen", Score: 0}, "sapabuo": Word{Word: "sapabuo", Def: "▯ is willing to do ▯.", By: "Ilmen", Score: 0}, "sapaqbo": Word{Word: "sapaqbo", Def: "▯ partially satisfies the property ▯, some part of it does and some other part doesn't.", By: "Ilmen", Score: 0}, "sapo": Word{Word: "sapo", Def: "▯ partially satisfies the property ▯, some part of it does and some other part doesn't.", By: "Ilmen", Score: 0}, "sapocheo": Word{Word: "sapocheo", Def: "▯ are partly related to each other by relation ▯; some of ▯ are ▯ to others", By: "fagri", Score: 0}, "sapoi": Word{Word: "sapoi", Def: "▯ is an event in which something is the x1", By: "seaqtaq", Score: 0}, "saq": Word{Word: "saq", Def: "predicate: ‘three’; ▯ are three in number.", By: "official", Score: 0}, "saq mi duagi simi da.": Word{Word: "saq mi duagi simi da.", Def: "(A0362) The Wise Monkeys are three.", By: "examples", Score: 0}, "saqchio": Word{Word: "saqchio", Def: "predicate: ‘thrice’; ▯ happens thrice / three times.", By: "official", Score: 0}, "saqhei,  shifue, jobiq, gubiqsaqfuejoheishi": Word{Word: "saqhei,  shifue, jobiq, gubiqsaqfuejoheishi", Def: "(NUM.3) thirty, one hundred, four thousand, two thousand three hundred fourty-one", By: "official", Score: 0}, "saqjieq": Word{Word: "saqjieq", Def: "▯ is a triangle.", By: "Ilmen", Score: 0}, "saqjue": Word{Word: "saqjue", Def: "▯ is a March", By: "Xeizzen", Score: 0}, "saqjå«e": Word{Word: "saqjå«e", Def: "▯ is March", By: "lynn", Score: 0}, "saqko": Word{Word: "saqko", Def: "predicate: ‘third’; ▯ is third among ▯.", By: "official", Score: 0}, "saqlaqtei": Word{Word: "saqlaqtei", Def: "▯ is the third tone (dipping).", By: "lynn", Score: 0}, "saqli": Word{Word: "saqli", Def: "slip, slide, glide", By: "spreadsheet", Score: -1}, "saqliaq": Word{Word: "saqliaq", Def: "predicate: ‘triplet’; ▯ is a triplet.", By: "official", Score: 0}, "saqpaq": Word{Word: "saqpaq", Def: "▯ is one third (of something).", By: "lynn", Score: 0}, "saqsheaq": Word{Word: "saqsheaq", Def: "▯ is a testicle", By: "seaqtaq", Score: 0}, "saqsheaqcea": Word{Word: "saqsheaqcea", Def: "▯ is a scrotum/ballsack", By: "seaqtaq", Score: 0}, "saqsioq": Word{Word: "saqsioq", Def: "predicate: ‘tricycle’; ▯ is a tricycle.", By: "official", Score: 0}, "saqta": Word{Word: "saqta", Def: "▯ is an umbrella/parasol shielding ▯ from ▯, made of material ▯, supported by ▯.", By: "Ilmen", Score: 0}, "sarai": Word{Word: "sarai", Def: "There exists something that satisfies property ▯; ∃x.▯‘x\u00a0", By: "uakci", Score: 0}, "saraimiu": Word{Word: "saraimiu", Def: "▯ is a quantifier; ▯ asserts that the possible values of free variable ▯ in expression ▯ are exactly the set ▯.", By: "uakci", Score: 0}, "saralia": Word{Word: "saralia", Def: "predicate: ‘Australia’; ▯ is Australia.", By: "official", Score: 0}, "saralia pa sao naoguaq da.": Word{Word: "saralia pa sao naoguaq da.", Def: "(A0379) Australia is a big island.", By: "examples", Score: 0}, "sasa": Word{Word: "sasa", Def: "There exists a pair of things in relation ▯.", By: "uakci", Score: 0}, "se": Word{Word: "se", Def: "predicate: ‘result’; ▯ is a result/product of performing action ▯.", By: "official", Score: 0}, "se chuakai": Word{Word: "se chuakai", Def: "▯ is a signature", By: "seaqtaq", Score: 0}, "se diedoa": Word{Word: "se diedoa", Def: "▯ is advice", By: "seaqtaq", Score: 0}, "se foqtao": Word{Word: "se foqtao", Def: "▯ is a call", By: "seaqtaq", Score: 0}, "sea": Word{Word: "sea", Def: "predicate: ‘rest’; ▯ rests/relaxes.", By: "official", Score: 0}, "sea jia ho bie guai ho da.": Word{Word: "sea jia ho bie guai ho da.", Def: "(A0384) He will relax after he eats.", By: "examples", Score: 0}, "sea suq nai ba.": Word{Word: "sea suq nai ba.", Def: "(A0385) You sleep now.", By: "examples", Score: 0}, "seachaqme": Word{Word: "seachaqme", Def: "holidays", By: "spreadsheet", Score: 0}, "seaha": Word{Word: "seaha", Def: "▯ yawns.", By: "Ilmen", Score: 0}, "seai": Word{Word: "seai", Def: "▯ ejaculates; ▯ comes; ▯ cums; ▯ climaxes.", By: "uakci", Score: 0}, "seaishuifoaqtuataq": Word{Word: "seaishuifoaqtuataq", Def: "▯ masturbates; ▯ pleases themselves.", By: "uakci", Score: 0}, "seaituataq": Word{Word: "seaituataq", Def: "▯ masturbates.", By: "uakci", Score: 0}, "seajai": Word{Word: "seajai", Def: "▯ feels relieved", By: "seaqtaq", Score: 1}, "seakuai": Word{Word: "seakuai", Def: "predicate: ‘exhausted’; ▯ is exhausted.", By: "official", Score: 0}, "seaq": Word{Word: "seaq", Def: "▯ rubs ▯’s stomach.", By: "uakci", Score: 0}, "seaqbe": Word{Word: "seaqbe", Def: "▯ is a sexy baby.", By: "uakci", Score: 0}, "seaqbeaq": Word{Word: "seaqbeaq", Def: "▯ is a phallus.", By: "uakci", Score: 0}, "seaqbeaqfuo": Word{Word: "seaqbeaqfuo", Def: "▯ and ▯ frot; ▯ and ▯ pleasure themselves by touching one another with their penises.", By: "uakci", Score: 0}, "seaqbeaqjieq": Word{Word: "seaqbeaqjieq", Def: "▯ is the glans (head) of penis ▯.", By: "uakci", Score: 0}, "seaqcai": Word{Word: "seaqcai", Def: "(fork of #P9yrkjsgZ) ▯ is sexually aroused.", By: "uakci", Score: 0}, "seaqcaq": Word{Word: "seaqcaq", Def: "▯ dominates ▯; ▯ and ▯ are in a dominance–submission relation.", By: "uakci", Score: 0}, "seaqcaqfi": Word{Word: "seaqcaqfi", Def: "▯ is a top (typically dominating during sex).", By: "uakci", Score: 0}, "seaqcaqgo": Word{Word: "seaqcaqgo", Def: "▯ is a bottom (typically submissive during sex).", By: "uakci", Score: 0}, "seaqcaqru": Word{Word: "seaqcaqru", Def: "▯ is versatile (both dominant and submissive).", By: "uakci", Score: 0}, "seaqcheo": Word{Word: "seaqcheo", Def: "▯ have an orgy.", By: "uakci", Score: 0}, "seaqchoaqjio": Word{Word: "seaqchoaqjio", Def: "▯ is a love hotel (a hotel accommodated for the purpose of having sex).", By: "uakci", Score: 0}, "seaqchuao": Word{Word: "seaqchuao", Def: "▯ is a vagina.", By: "uakci", Score: -1}, "seaqchuq": Word{Word: "seaqchuq", Def: "▯ has fellatio with ▯; ▯ sucks ▯’s reproductive organs.", By: "uakci", Score: 0}, "seaqcia": Word{Word: "seaqcia", Def: "▯ is a virgin", By: "seaqtaq", Score: 1}, "seaqciafei": Word{Word: "seaqciafei", Def: "▯ acts angrily because of not having sex; ▯ is sexually unappeased.", By: "uakci", Score: 0}, "seaqde": Word{Word: "seaqde", Def: "▯ is attractive.", By: "uakci", Score: 0}, "seaqdea": Word{Word: "seaqdea", Def: "fảq ru cảı cîu dóshī dógū sẻaqnāo da", By: "uakci", Score: 0}, "seaqdeajuiduoi": Word{Word: "seaqdeajuiduoi", Def: "▯ edges; ▯ stays keeps close to the point of ejaculations without reaching it for own pleasure.", By: "uakci", Score: 0}, "seaqdiu": Word{Word: "seaqdiu", Def: "▯ is sexology", By: "seaqtaq", Score: 0}, "seaqfeo": Word{Word: "seaqfeo", Def: "▯ is ▯’s sexuality.", By: "uakci", Score: 0}, "seaqfeojeo": Word{Word: "seaqfeojeo", Def: "▯ is attracted sexually, romantically, or otherwise to those who satisfy property ▯; ▯ is a ▯-sexual.", By: "uakci", Score: 0}, "seaqfeojietaq": Word{Word: "seaqfeojietaq", Def: "▯ identifies as being of sexuality ▯; ▯ identities as a ▯-sexual.", By: "uakci", Score: 0}, "seaqfeojua": Word{Word: "seaqfeojua", Def: "▯ is (a) queer; ▯ is a member of the LGBT… community.", By: "uakci", Score: 0}, "seaqfeoruaq": Word{Word: "seaqfeoruaq", Def: "▯ claims ▯ to be their sexuality; ▯ ‘comes out’ as a ▯-sexual.", By: "uakci", Score: 0}, "seaqfeoshui": Word{Word: "seaqfeoshui", Def: "▯ is closeted; ▯ hides their sexuality ▯ from (the) society.", By: "uakci", Score: 0}, "seaqfuaq": Word{Word: "seaqfuaq", Def: "▯ is pornographic; ▯ depicts a pornographic scene.", By: "uakci", Score: 0}, "seaqge": Word{Word: "seaqge", Def: "▯ is attractive; ▯ is something someone gets aroused from.", By: "uakci", Score: 0}, "seaqgeq": Word{Word: "seaqgeq", Def: "▯ hooks up with ▯; ▯ meets ▯ in order to have sex (in general).", By: "uakci", Score: 0}, "seaqgoai": Word{Word: "seaqgoai", Def: "▯ grinds on ▯", By: "seaqtaq", Score: 0}, "seaqguai": Word{Word: "seaqguai", Def: "▯ is a sex worker/prostitute; ▯ has sex with ▯ as work.", By: "uakci", Score: 0}, "seaqgue": Word{Word: "seaqgue", Def: "▯ is ‘bent’ (British slang); ▯ is homosexual.", By: "uakci", Score: 0}, "seaqguq": Word{Word: "seaqguq", Def: "▯ has ▯ on top of them; ▯ is sexually submissive to ▯.", By: "uakci", Score: 0}, "seaqhua": Word{Word: "seaqhua", Def: "▯ are genitals, reproductive organs.", By: "uakci", Score: 0}, "seaqjai": Word{Word: "seaqjai", Def: "▯ is sexually aroused.", By: "uakci", Score: 0}, "seaqkea": Word{Word: "seaqkea", Def: "▯ is a sex toy\u00a0", By: "seaqtaq", Score: 1}, "seaqkiq": Word{Word: "seaqkiq", Def: "▯ is porn; ▯ is a pornographic film (pornographic movie).", By: "uakci", Score: 0}, "seaqkuai": Word{Word: "seaqkuai", Def: "(fork of #SXfED6urN) ▯is sexually aroused/horny", By: "seaqtaq", Score: 0}, "seaqkuaicia": Word{Word: "seaqkuaicia", Def: "▯ is asexual.", By: "uakci", Score: 0}, "seaqluaq": Word{Word: "seaqluaq", Def: "▯ engage in foreplay.", By: "uakci", Score: 0}, "seaqluaqchuo": Word{Word: "seaqluaqchuo", Def: "▯ is a sex toy.", By: "uakci", Score: 0}, "seaqmoe": Word{Word: "seaqmoe", Def: "▯is sexually aroused/horny", By: "seaqtaq", Score: 0}, "seaqmoi": Word{Word: "seaqmoi", Def: "▯ has perverse thought ▯.", By: "uakci", Score: 0}, "seaqmoifai": Word{Word: "seaqmoifai", Def: "▯ is perverted; ▯ is a pervert.", By: "uakci", Score: 0}, "seaqmoige": Word{Word: "seaqmoige", Def: "▯ stimulates ▯ to fantasise ▯; ▯ bears sexual associations for ▯.", By: "uakci", Score: 0}, "seaqnao": Word{Word: "seaqnao", Def: "nảo ru bảo ru lỏaımēoq dóshī, na ru hẻq dóshī sa chúo fủshūaq da", By: "uakci", Score: 0}, "seaqne": Word{Word: "seaqne", Def: "▯ is ▯’s sex; ▯ is ▯’s gender.", By: "uakci", Score: -1}, "seaqnebeo": Word{Word: "seaqnebeo", Def: "▯ is gender-fluid.", By: "uakci", Score: 0}, "seaqneduoi": Word{Word: "seaqneduoi", Def: "▯ is cisgender.", By: "uakci", Score: 0}, "seaqneheoseaq": Word{Word: "seaqneheoseaq", Def: "▯ is heterosexual.", By: "uakci", Score: 0}, "seaqnehuqseaq": Word{Word: "seaqnehuqseaq", Def: "▯ is bisexual/pansexual.", By: "uakci", Score: 0}, "seaqnejeqseaq": Word{Word: "seaqnejeqseaq", Def: "▯ is homosexual.", By: "uakci", Score: 0}, "seaqnejie": Word{Word: "seaqnejie", Def: "According to ▯, it is ▯ that is ▯’s gender; ▯ assigns gender ▯ to person ▯.", By: "uakci", Score: 0}, "seaqnejietaq": Word{Word: "seaqnejietaq", Def: "▯ identifies as being of gender ▯; ▯ identifies as a ▯ (gender) person.", By: "uakci", Score: 0}, "seaqnejua": Word{Word: "seaqnejua", Def: "▯ is genderqueer.", By: "uakci", Score: 0}, "seaqneo": Word{Word: "seaqneo", Def: "▯ is on top of ▯; ▯ sexually dominates ▯.", By: "uakci", Score: 0}, "seaqnesha": Word{Word: "seaqnesha", Def: "▯ is transgender.", By: "uakci", Score: 0}, "seaqnie": Word{Word: "seaqnie", Def: "▯ is ‘inside’ ▯; ▯ has penetrated ▯.", By: "uakci", Score: 0}, "seaqnuli": Word{Word: "seaqnuli", Def: "▯ is personal lubricant; ▯ is lube.", By: "uakci", Score: 0}, "seaqpai": Word{Word: "seaqpai", Def: "▯ is ▯’s ‘friend with benefits’; ▯ has sex with ▯ despite not having romantic interest towards them.", By: "uakci", Score: 0}, "seaqpi": Word{Word: "seaqpi", Def: "sperm", By: "spreadsheet", Score: -1}, "seaqpoja": Word{Word: "seaqpoja", Def: "(fork of #qKuo5iV84) ▯orgasms", By: "seaqtaq", Score: 0}, "seaqreq": Word{Word: "seaqreq", Def: "▯ is Homo sexualis; ▯ is a human considered in terms of its inherent sexuality.", By: "uakci", Score: 0}, "seaqrioq": Word{Word: "seaqrioq", Def: "▯ is gender", By: "seaqtaq", Score: 0}, "seaqrioqbui": Word{Word: "seaqrioqbui", Def: "▯ is non-binary.", By: "uakci", Score: 0}, "seaqrioqduomuoq": Word{Word: "seaqrioqduomuoq", Def: "▯ is gender-fluid.", By: "uakci", Score: 0}, "seaqrioqnie": Word{Word: "seaqrioqnie", Def: "▯ conforms to the binaricity of gender.", By: "uakci", Score: 0}, "seaqruoq": Word{Word: "seaqruoq", Def: "▯ is ‘straight’; ▯ is heterosexual.", By: "uakci", Score: 0}, "seaqsha": Word{Word: "seaqsha", Def: "▯ climaxes.", By: "uakci", Score: 0}, "seaqshaobu": Word{Word: "seaqshaobu", Def: "▯ is a celibate.", By: "uakci", Score: 0}, "seaqtaq": Word{Word: "seaqtaq", Def: "(fork of #b0204agUY) ▯masturbates", By: "seaqtaq", Score: 0}, "seaqtaqkai": Word{Word: "seaqtaqkai", Def: "▯ makes a spelling error/typo more than once successively concerning the same piece of text", By: "seaqtaq", Score: 0}, "seaqteabia": Word{Word: "seaqteabia", Def: "▯ is afraid of having sex; ▯ has sexual anxiety disorder (SAD).", By: "uakci", Score: 0}, "seaqteq": Word{Word: "seaqteq", Def: "▯ pays money ▯ to person ▯ for having sex with them.", By: "uakci", Score: 0}, "seaqtie": Word{Word: "seaqtie", Def: "▯ is a condom.", By: "uakci", Score: 0}, "seaqtuai": Word{Word: "seaqtuai", Def: "▯ is a sex doll", By: "seaqtaq", Score: 0}, "secaq": Word{Word: "secaq", Def: "▯ is responsible for what results from ▯.", By: "uakci", Score: 0}, "sediu": Word{Word: "sediu", Def: "logic", By: "spreadsheet", Score: 0}, "sedu": Word{Word: "sedu", Def: "▯ is a hiccup.", By: "Ilmen", Score: 0}, "sei": Word{Word: "sei", Def: "▯ is truly/indeed/actually the case; ▯ truly/indeed/actually satisfies property ▯.", By: "uakci", Score: -1}, "sekuq": Word{Word: "sekuq", Def: "predicate: ‘second’; ▯ is a second.", By: "official", Score: 0}, "selaq": Word{Word: "selaq", Def: "▯ is a member of the superorder Selachimorpha/Selachii (the sharks).", By: "Hoemai", Score: 0}, "semiu": Word{Word: "semiu", Def: "▯ concludes that ▯ is the case", By: "seaqtaq", Score: 0}, "senegala": Word{Word: "senegala", Def: "▯ pertains to the culture of Senegal – Republic of Senegal.", By: "countries", Score: 0}, "senegalagua": Word{Word: "senegalagua", Def: "▯ is the country Senegal – Republic of Senegal.", By: "countries", Score: 0}, "senegalatoaq": Word{Word: "senegalatoaq", Def: "▯ is (one of) the language(s) spoken in Senegal – Republic of Senegal.", By: "countries", Score: 0}, "seo": Word{Word: "seo", Def: "kùı pó sa júao pa, gảq dóshī dógū lî bỏ ja dó na, lũ lẻ kủı hóa chêo mảı dóshī roı dógū da", By: "uakci", Score: 0}, "seo(sho)sue": Word{Word: "seo(sho)sue", Def: "▯ asks to marry/proposes to ▯", By: "seaqtaq", Score: 0}, "seoq": Word{Word: "seoq", Def: "gảo dóshī tu lú tỉ hóa gáıhā da", By: "uakci", Score: 0}, "seoq(gai)chuo": Word{Word: "seoq(gai)chuo", Def: "▯ is a telescope", By: "seaqtaq", Score: 0}, "seoqcuao": Word{Word: "seoqcuao", Def: "kensa, outer space", By: "spreadsheet", Score: 0}, "seoqcuaodiu": Word{Word: "seoqcuaodiu", Def: "astronomy", By: "spreadsheet", Score: 0}, "seoqcuaomie": Word{Word: "seoqcuaomie", Def: "▯ is an extraterrestrial.", By: "Ilmen", Score: 0}, "seoqdiu": Word{Word: "seoqdiu", Def: "▯ is astronomy", By: "seaqtaq", Score: 0}, "seoqhie": Word{Word: "seoqhie", Def: "▯ is a member the suborder Caelifera (the grasshoppers).", By: "Hoemai", Score: 0}, "seoqkasi": Word{Word: "seoqkasi", Def: "▯ is a walnut tree.", By: "Ilmen", Score: 0}, "seoqkioq": Word{Word: "seoqkioq", Def: "planet", By: "spreadsheet", Score: 0}, "seoqlaq": Word{Word: "seoqlaq", Def: "▯ is thunder", By: "seaqtaq", Score: 0}, "seoqlaqbeaq": Word{Word: "seoqlaqbeaq", Def: "▯ is a gun/rifle.", By: "Ilmen", Score: 0}, "seoqlaqbiu": Word{Word: "seoqlaqbiu", Def: "▯ is a gun/rifle.", By: "Ilmen", Score: 0}, "seoqliai": Word{Word: "seoqliai", Def: "▯ flies.", By: "Ilmen", Score: 0}, "seoqloha": Word{Word: "seoqloha", Def: "▯ is iron.", By: "Ilmen", Score: 0}, "seoqpio": Word{Word: "seoqpio", Def: "▯ is a meteorite.", By: "Ilmen", Score: 0}, "seoqraq": Word{Word: "seoqraq", Def: "▯ is celestial", By: "seaqtaq", Score: 0}, "seoqrea": Word{Word: "seoqrea", Def: "predicate: ‘horizon’; ▯ is a horizon.", By: "official", Score: 0}, "seoqtue": Word{Word: "seoqtue", Def: "predicate: ‘weather’; ▯ is weather.", By: "official", Score: 0}, "seoqtue pa ca loq rao nichaq da.": Word{Word: "seoqtue pa ca loq rao nichaq da.", Def: "(A0512) The weather is making it hot today.", By: "examples", Score: 0}, "seoqtuedīu": Word{Word: "seoqtuedīu", Def: "▯ is meteorology.", By: "lynn", Score: 0}, "seosho": Word{Word: "seosho", Def: "marry", By: "spreadsheet", Score: 0}, "seoshotueq": Word{Word: "seoshotueq", Def: "wedding", By: "spreadsheet", Score: 0}, "sepa": Word{Word: "sepa", Def: "▯ is astringent.", By: "Ilmen", Score: 0}, "sepania": Word{Word: "sepania", Def: "▯ pertains to the culture of Spain – Kingdom of Spain.", By: "countries", Score: 0}, "sepaniagua": Word{Word: "sepaniagua", Def: "▯ is the country Spain – Kingdom of Spain.", By: "countries", Score: 0}, "sepaniatoaq": Word{Word: "sepaniatoaq", Def: "▯ is (one of) the language(s) spoken in Spain – Kingdom of Spain.", By: "countries", Score: 0}, "sepe": Word{Word: "sepe", Def: "▯ is a snake.", By: "Ilmen", Score: 0}, "seperaqto": Word{Word: "seperaqto", Def: "▯ is Esperantic / is of Esperanto, its culture or speakers.", By: "lynn", Score: 0}, "seperaqtoaq": Word{Word: "seperaqtoaq", Def: "▯ is Esperanto (the language).", By: "lynn", Score: 0}, "seperaqtotoaq": Word{Word: "seperaqtotoaq", Def: "▯ is Esperanto (the language).", By: "lynn", Score: 0}, "sepoe": Word{Word: "sepoe", Def: "▯ has an independent outcome to ▯; (▯ is free in ▯).", By: "uakci", Score: 0}, "seq": Word{Word: "seq", Def: "▯ takes place at time/date ▯.", By: "uakci", Score: 0}, "seqcu": Word{Word: "seqcu", Def: "▯ adds their two cents to discussion ▯; ▯ contributes (expresses) a novel argument/counterpoint to the discussion about matter ▯ even though many original points have already been presented.", By: "uakci", Score: 0}, "serebia": Word{Word: "serebia", Def: "▯ pertains to the culture of Serbia – Republic of Serbia.", By: "countries", Score: 0}, "serebiagua": Word{Word: "serebiagua", Def: "▯ is the country Serbia – Republic of Serbia.", By: "countries", Score: 0}, "serebiatoaq": Word{Word: "serebiatoaq", Def: "▯ is (one of) the language(s) spoken in Serbia – Republic of Serbia.", By: "countries", Score: 0}, "sesiu": Word{Word: "sesiu", Def: "▯ is a degree Celsius; ▯ is ▯ (number of property) degrees Celcius.", By: "Hoemai", Score: 0}, "seta": Word{Word: "seta", Def: "predicate: ‘zetta’; ▯ are 10^21 (1,000,000,000,000,000,000,000) in number; ▯ are a sextillion.", By: "official", Score: 0}, "seu": Word{Word: "seu", Def: "sỉo ra lảı dóshī, na ru mủı go dóshī sa lú rảq hóa sío nẻ pủı da", By: "uakci", Score: 0}, "seuhuaq": Word{Word: "seuhuaq", Def: "▯ is a number greater than ▯.", By: "Ilmen", Score: 0}, "seujui": Word{Word: "seujui", Def: "▯ have a cardinality of approximately ▯ (number).", By: "Ilmen", Score: 0}, "seushoelai": Word{Word: "seushoelai", Def: "(fork of #TnyYlOa6n) ▯ is a PIN\u00a0", By: "seaqtaq", Score: 0}, "sha": Word{Word: "sha", Def: "cả shâı tảo dóshī sa ráı na cêo dóshī dógū da", By: "uakci", Score: 0}, "sha ruq po ni nia": Word{Word: "sha ruq po ni nia", Def: "(B0025) Down came the rain", By: "examples", Score: 0}, "shacu": Word{Word: "shacu", Def: "shirt ()", By: "spreadsheet", Score: 0}, "shagiq": Word{Word: "shagiq", Def: "▯ leaves/departs from satisfying property ▯.", By: "lynn", Score: 0}, "shaha": Word{Word: "shaha", Def: "predicate: ‘chess’; chess", By: "official", Score: 0}, "shahiena": Word{Word: "shahiena", Def: "▯ is a Cheyenne.", By: "Ilmen", Score: 0}, "shai": Word{Word: "shai", Def: "predicate: ‘cease’; ▯ ceases to be the case; ▯ stops satisfying property ▯; ▯ loses property ▯.", By: "official", Score: 0}, "shai ba hu buoq!": Word{Word: "shai ba hu buoq!", Def: "(A0636) Oh, stop it, you clown!", By: "examples", Score: 0}, "shai gaikiu": Word{Word: "shai gaikiu", Def: "▯ stops being perceptible; ▯ disappears.", By: "niucuq", Score: 0}, "shai meo suq ba.": Word{Word: "shai meo suq ba.", Def: "(A0564) Stop being sad.", By: "examples", Score: 0}, "shai nu kaqsi suq ji ba.": Word{Word: "shai nu kaqsi suq ji ba.", Def: "(A0219) Stop looking at me like that.", By: "examples", Score: 0}, "shai1": Word{Word: "shai1", Def: "shảı dóshī dõ, na ru fảq dó, na ru shỉu go dó jêo dóshī, na ru bỉe go dó bû dóshī da", By: "uakci", Score: 0}, "shaibu": Word{Word: "shaibu", Def: "▯ continues to be the case; ▯ continues satisfying property ▯", By: "fagri", Score: 0}, "shaichaq": Word{Word: "shaichaq", Def: "Friday", By: "uakci", Score: 0}, "shaicia": Word{Word: "shaicia", Def: "continuous (without interruption)", By: "spreadsheet", Score: 0}, "shaiduo": Word{Word: "shaiduo", Def: "▯ stops moving.", By: "lynn", Score: 0}, "shaihio": Word{Word: "shaihio", Def: "▯ greets ▯ on parting; ▯ says goodbye to ▯.", By: "Ilmen", Score: 0}, "shaisho": Word{Word: "shaisho", Def: "▯ stops satisfying property ▯ and starts satisfying property ▯", By: "fagri", Score: 0}, "shaisi": Word{Word: "shaisi", Def: "▯ leaves (in the sense that they stop paying attention to a chat)", By: "fagri", Score: -1}, "shamu": Word{Word: "shamu", Def: "predicate: ‘apple’; ▯ is an apple.", By: "official", Score: 0}, "shao": Word{Word: "shao", Def: "predicate: ‘want’; ▯ wants ▯ to be the case.", By: "official", Score: 0}, "shao fa ho rao nichaq ro rao jiachaq.": Word{Word: "shao fa ho rao nichaq ro rao jiachaq.", Def: "(A0468) He wants to go today or tomorrow, but not during both.", By: "examples", Score: 0}, "shao geq jí sa lu de ru pairuo ru kỉai da.": Word{Word: "shao geq jí sa lu de ru pairuo ru kỉai da.", Def: "(A0346) I want to meet someone pretty, kind and caring.", By: "examples", Score: 0}, "shao ji chuq suq ni da.": Word{Word: "shao ji chuq suq ni da.", Def: "(A0037) I want you to eat this.", By: "examples", Score: 0}, "shao ji gaq suq ho rao nichaq da.": Word{Word: "shao ji gaq suq ho rao nichaq da.", Def: "(A0076) I want you to accompany him today.", By: "examples", Score: 0}, "shao ji kuq suq sa lua da.": Word{Word: "shao ji kuq suq sa lua da.", Def: "(A0258) I want you to tell a story.", By: "examples", Score: 0}, "shao ji lu rao nichaq bi pua gaqsia ji da.": Word{Word: "shao ji lu rao nichaq bi pua gaqsia ji da.", Def: "(A0727) Today I want to enjoy some time to myself.", By: "examples", Score: 0}, "shao ji lu sia rai pa kaqgai ji.": Word{Word: "shao ji lu sia rai pa kaqgai ji.", Def: "(A0430) I want nothing to see me.", By: "examples", Score: 0}, "shao ji muaqsho da. ma si suq moq": Word{Word: "shao ji muaqsho da. ma si suq moq", Def: "(A0475) I want to die. Do you? ★★★ \"sủ\"? It wouldn't target \"shao\" though.", By: "examples", Score: 0}, "shaoboaile": Word{Word: "shaoboaile", Def: "▯ is whimsical.", By: "uakci", Score: 0}, "shaoboq": Word{Word: "shaoboq", Def: "▯ demotivates/deters ▯ from doing ▯.", By: "Ilmen", Score: 0}, "shaobuaq": Word{Word: "shaobuaq", Def: "▯ wanted to do ▯/1, but did ▯/1 instead.", By: "uakci", Score: 0}, "shaobufaq": Word{Word: "shaobufaq", Def: "▯ happens against ▯’s will.", By: "uakci", Score: 0}, "shaobutao": Word{Word: "shaobutao", Def: "▯ does ▯ against ▯’s will.", By: "uakci", Score: 0}, "shaoca": Word{Word: "shaoca", Def: "▯ motivates▯to do▯.", By: "seaqtaq", Score: 0}, "shaodui": Word{Word: "shaodui", Def: "(fork of #ICzDegBgz) ▯ is greedy", By: "seaqtaq", Score: 0}, "shaogi": Word{Word: "shaogi", Def: "predicate: ‘good’; ▯ is good/virtuous.", By: "official", Score: 0}, "shaoha": Word{Word: "shaoha", Def: "▯ is as one would want it; One would want ▯ to be the case; Desirably, ▯.", By: "uakci", Score: 1}, "shaohiaq": Word{Word: "shaohiaq", Def: "▯ is lazy.", By: "uakci", Score: 0}, "shaohui": Word{Word: "shaohui", Def: "predicate: ‘bad’; ▯ is bad/evil/wicked.", By: "official", Score: 0}, "shaokui": Word{Word: "shaokui", Def: "motivates (non-agentive)", By: "spreadsheet", Score: 0}, "shaolui": Word{Word: "shaolui", Def: "▯ is satisfied, as their/his/her/its desire ▯ has been fulfilled.", By: "Ilmen", Score: 0}, "shaomia": Word{Word: "shaomia", Def: "▯ is eager.", By: "uakci", Score: 0}, "shaomoe": Word{Word: "shaomoe", Def: "▯ is willing to do ▯.", By: "uakci", Score: 0}, "shaotaq": Word{Word: "shaotaq", Def: "▯ wants to satisfy property ▯.", By: "seaqtaq", Score: 0}, "shapo": Word{Word: "shapo", Def: "▯ takes his hat off to ▯. [figurative]", By: "uakci", Score: 1}, "shaq": Word{Word: "shaq", Def: "predicate: ‘in.front’; ▯ is in front of ▯.", By: "official", Score: 0}, "shaq sa saq nui shuao poji buajio da.": Word{Word: "shaq sa saq nui shuao poji buajio da.", Def: "(A0363) There are three little birds in front of my house.", By: "examples", Score: 0}, "shaqfeo": Word{Word: "shaqfeo", Def: "▯ is the north direction", By: "seaqtaq", Score: 0}, "shaqsheaq": Word{Word: "shaqsheaq", Def: "▯ is a prostate", By: "seaqtaq", Score: 0}, "shaqsoq": Word{Word: "shaqsoq", Def: "▯ is a primate.", By: "Ilmen", Score: 0}, "she": Word{Word: "she", Def: "= [00] To ra jẻo dóshī to bủ dógū.", By: "Ilmen", Score: 1}, "she jeq tao ji da.": Word{Word: "she jeq tao ji da.", Def: "(A0334) I would have done the same thing.", By: "examples", Score: 0}, "she ruqshua bi, bu fa ji da.": Word{Word: "she ruqshua bi, bu fa ji da.", Def: "(A0450) If it rains, I won't go.", By: "examples", Score: 0}, "she tai suq bi hioq ji da.": Word{Word: "she tai suq bi hioq ji da.", Def: "(A0449) If you win, I'll be proud.", By: "examples", Score: 0}, "shea": Word{Word: "shea", Def: "predicate: ‘empty’; ▯ is empty in aspect ▯.", By: "official", Score: 0}, "sheabaga": Word{Word: "sheabaga", Def: "suck", By: "spreadsheet", Score: 0}, "shealai": Word{Word: "shealai", Def: "▯ is a space (in writing or typing)", By: "seaqtaq", Score: 0}, "sheameame": Word{Word: "sheameame", Def: "▯ is the empty set.", By: "Ilmen", Score: 0}, "sheamiq": Word{Word: "sheamiq", Def: "kensa, outer space", By: "spreadsheet", Score: -1}, "sheamuoq": Word{Word: "sheamuoq", Def: "▯ is ether; ▯ is the supposed element that constitutes the emptiness of outer space.", By: "uakci", Score: 0}, "sheaq": Word{Word: "sheaq", Def: "predicate: ‘stand’; ▯ stands on ▯.", By: "official", Score: 0}, "sheaq piciu pu feofaq lu bui ri nie hoa guqfuq moq.": Word{Word: "sheaq piciu pu feofaq lu bui ri nie hoa guqfuq moq.", Def: "(A0984) ", By: "examples", Score: 0}, "sheaqfeo": Word{Word: "sheaqfeo", Def: "▯ is the vertical direction.", By: "Ilmen", Score: 0}, "sheaqkai": Word{Word: "sheaqkai", Def: "▯ writes vertically", By: "seaqtaq", Score: 0}, "sheaqnui": Word{Word: "sheaqnui", Def: "▯ is short (not tall).", By: "Ilmen", Score: 0}, "sheaqsao": Word{Word: "sheaqsao", Def: "▯ is tall.", By: "Ilmen", Score: 1}, "sheaqsao mei roi hiaodai hiu pa rea hoi doaq da.": Word{Word: "sheaqsao mei roi hiaodai hiu pa rea hoi doaq da.", Def: "(A0957) Tall mountain and dangerous river are border of the settlement.", By: "examples", Score: 0}, "sheaqshai": Word{Word: "sheaqshai", Def: "(fork of #LUB-BlGmP) ▯ slips.", By: "uakci", Score: 0}, "sheaqshua": Word{Word: "sheaqshua", Def: "▯ collapses.", By: "uakci", Score: 0}, "sheaqsiu": Word{Word: "sheaqsiu", Def: "vertical, upright", By: "spreadsheet", Score: 0}, "sheaqsiubuaqmeo": Word{Word: "sheaqsiubuaqmeo", Def: "▯ feels the sort of frustration that comes from repeatedly trying to stand something up or balance something on its end, and repeatedly failing", By: "fagri", Score: 0}, "sheasai": Word{Word: "sheasai", Def: "▯ is ether; ▯ is the supposed element that constitutes the emptiness of outer space.", By: "seaqtaq", Score: 0}, "shebaqsiheku": Word{Word: "shebaqsiheku", Def: "▯ is a Przewalski's horse (Equus ferus przewalskii).", By: "Hoemai", Score: 0}, "shechiaq": Word{Word: "shechiaq", Def: "▯ intuits ▯ in stimulus ▯.", By: "uakci", Score: 0}, "shedoe": Word{Word: "shedoe", Def: "▯ does ▯/1 whenever ▯/0; ▯ automatically ▯’s on condition ▯; ▯ does ▯ reflexively if only ▯ happens.", By: "uakci", Score: 0}, "shei": Word{Word: "shei", Def: "predicate: ‘free’; ▯ is free to do ▯.", By: "official", Score: 0}, "sheichaq": Word{Word: "sheichaq", Def: "Sunday", By: "uakci", Score: 0}, "sheidaq": Word{Word: "sheidaq", Def: "▯ is free time; ▯ is free time for ▯.", By: "Hoemai", Score: 0}, "sheiduq": Word{Word: "sheiduq", Def: "▯ has hobby ▯; ▯ often does ▯ in their free time", By: "fagri", Score: 0}, "sheimoi": Word{Word: "sheimoi", Def: "▯ freethinks; ▯ forms their own ideas and opinions rather than accepting those of other people or traditional social or religious belief systems; ▯ practices/performs freethought.", By: "Hoemai", Score: 0}, "sheimoihe": Word{Word: "sheimoihe", Def: "▯ is a freethinker.", By: "Hoemai", Score: 0}, "sheishuaqshuao": Word{Word: "sheishuaqshuao", Def: "▯ is an American bald eagle (freedom bird)", By: "fagri", Score: 0}, "sheitao": Word{Word: "sheitao", Def: "▯ does ▯ in their free time.", By: "uakci", Score: 0}, "sheitaomia": Word{Word: "sheitaomia", Def: "▯ is a hobby of ▯’s.", By: "uakci", Score: 0}, "sheitua": Word{Word: "sheitua", Def: "▯ liberates ▯; ▯ liberates ▯ such that they are now free to satisfy property ▯.", By: "Hoemai", Score: 0}, "shela": Word{Word: "shela", Def: "shoot ⓥ (shooting device as the subject)", By: "spreadsheet", Score: -1}, "shelabiu": Word{Word: "shelabiu", Def: "gun, thing-that-shoots", By: "spreadsheet", Score: -1}, "shema": Word{Word: "shema", Def: "= [000] To ru shẻ dógū dóshī to shẻ dósāq bû dóshī.", By: "Ilmen", Score: 0}, "shemoi": Word{Word: "shemoi", Def: "▯ intuits ▯ upon stimulus ▯.", By: "uakci", Score: 0}, "shemu": Word{Word: "shemu", Def: "community, cecmu", By: "spreadsheet", Score: 0}, "shenaigi": Word{Word: "shenaigi", Def: "It would be good for ▯ to happen now; It’s about time ▯ happened.", By: "uakci", Score: 0}, "shenue": Word{Word: "shenue", Def: "▯ promises to do ▯ if ▯ turns out to be the case; ▯ wagers to do ▯ on ▯ being the case.", By: "Ilmen", Score: 0}, "sheo": Word{Word: "sheo", Def: "cả lûı tảo dóshī dógū na lû to ra mẻo dóshī to gỉq pủa fỏa dóshī sa húı da", By: "uakci", Score: 0}, "sheo ji li pu ruo ja rai hi rai da.": Word{Word: "sheo ji li pu ruo ja rai hi rai da.", Def: "(A0563) I'm sorry for my behavior.", By: "examples", Score: 0}, "sheo tua riosho ji go roaihei kune da.": Word{Word: "sheo tua riosho ji go roaihei kune da.", Def: "(A0377) I regret boiling the 80 dogs.", By: "examples", Score: 0}, "sheokuq": Word{Word: "sheokuq", Def: "▯ apologizes to ▯ for satisfying property ▯", By: "fagri", Score: 0}, "sheoq": Word{Word: "sheoq", Def: "insect/bug (CHIQ)", By: "spreadsheet", Score: 0}, "shepu": Word{Word: "shepu", Def: "▯ crepu ▯", By: "seaqtaq", Score: -1}, "sheqca": Word{Word: "sheqca", Def: "holy", By: "spreadsheet", Score: -1}, "sheqtu": Word{Word: "sheqtu", Def: "expert", By: "spreadsheet", Score: -1}, "shetuq": Word{Word: "shetuq", Def: "▯ iff ▯; ▯ is the case if and only if ▯ is the case.", By: "uakci", Score: 0}, "shi": Word{Word: "shi", Def: "tu rảı měa hóa dóshī bı mẻa dóshī ráı", By: "Hoemai", Score: 0}, "shi ji da. gu suqji da.": Word{Word: "shi ji da. gu suqji da.", Def: "(NUM.1) I am one. We are two.", By: "official", Score: 0}, "shi lu mai jeo ji hoa da.": Word{Word: "shi lu mai jeo ji hoa da.", Def: "(A0359) There is one thing I truly love.", By: "examples", Score: 0}, "shia": Word{Word: "shia", Def: "predicate: ‘glass’; ▯ is glass.", By: "official", Score: 0}, "shiabio": Word{Word: "shiabio", Def: "predicate: ‘glass’; ▯ is a glass (container).", By: "official", Score: 0}, "shiapoaqse": Word{Word: "shiapoaqse", Def: "predicate: ‘glass.shard’; ▯ is a glass shard; ▯ is a piece of broken glass.", By: "official", Score: 0}, "shiaq": Word{Word: "shiaq", Def: "predicate: ‘leg’; ▯ is a leg.", By: "official", Score: 0}, "shiaqbiq": Word{Word: "shiaqbiq", Def: "myriapod", By: "spreadsheet", Score: 0}, "shiaqfue": Word{Word: "shiaqfue", Def: "myriapod", By: "spreadsheet", Score: 0}, "shiaqfuq": Word{Word: "shiaqfuq", Def: "▯ are pants; ▯ is a pair of trousers.", By: "Ilmen", Score: 0}, "shiaqgie": Word{Word: "shiaqgie", Def: "▯ is a member (leg or arm).", By: "Ilmen", Score: 0}, "shiaqmia": Word{Word: "shiaqmia", Def: "myriapod", By: "spreadsheet", Score: 0}, "shicha": Word{Word: "shicha", Def: "▯ satisfy property ▯ individually/one by one.", By: "Hoemai", Score: 0}, "shichaq": Word{Word: "shichaq", Def: "▯ is the first day of the month.", By: "lynn", Score: 0}, "shichaqshoai": Word{Word: "shichaqshoai", Def: "▯ is a mayfly (order Ephemeroptera).", By: "Hoemai", Score: 0}, "shichio": Word{Word: "shichio", Def: "predicate: ‘once’; ▯ happens once / one time.", By: "official", Score: 0}, "shichio rao tu chaq tao ji hoq da.": Word{Word: "shichio rao tu chaq tao ji hoq da.", Def: "(A0387) Once every day I do it.", By: "examples", Score: 0}, "shichioseaq": Word{Word: "shichioseaq", Def: "▯ is on a one night stand with ▯; ▯ has sex with ▯ once, with the expectation that they part with them the next morning, never to see them again.", By: "uakci", Score: 0}, "shichipe": Word{Word: "shichipe", Def: "▯ pertains to the culture of Albania – Republic of Albania.", By: "countries", Score: 0}, "shichipegua": Word{Word: "shichipegua", Def: "▯ is the country Albania – Republic of Albania.", By: "countries", Score: 0}, "shichipetoaq": Word{Word: "shichipetoaq", Def: "▯ is (one of) the language(s) spoken in Albania – Republic of Albania.", By: "countries", Score: 0}, "shichuaobo": Word{Word: "shichuaobo", Def: "▯ is a monotreme (platypus or echidna).", By: "Ilmen", Score: 0}, "shie": Word{Word: "shie", Def: "= bu #nủo", By: "uakci", Score: 0}, "shie ji rao baq chaq da.": Word{Word: "shie ji rao baq chaq da.", Def: "(A0098) I'm awake during the day. ", By: "examples", Score: 0}, "shiene": Word{Word: "shiene", Def: "▯ is a ‘day’; ▯ is ▯’s period of wakefulness; ▯ is a period of time, possibly similar in length to a day-time, where, instead of sunrise and sunset, the delimiting events are ▯’s waking up and going to sleep again.", By: "uakci", Score: 0}, "shiesho": Word{Word: "shiesho", Def: "▯ wakes up", By: "fagri", Score: 0}, "shieshoca": Word{Word: "shieshoca", Def: "▯ wakes ▯ up (non-agentive)", By: "fagri", Score: 0}, "shiho": Word{Word: "shiho", Def: "predicate: ‘he/she’; ▯ is him/her (singular).", By: "official", Score: 0}, "shija": Word{Word: "shija", Def: "zilkai", By: "spreadsheet", Score: 0}, "shijue": Word{Word: "shijue", Def: "▯ is January", By: "lynn", Score: 1}, "shiko": Word{Word: "shiko", Def: "predicate: ‘first’; ▯ is first among ▯.", By: "official", Score: 0}, "shilaqtei": Word{Word: "shilaqtei", Def: "▯ is the high-flat (1st tone) pitch contour of ▯.", By: "lynn", Score: -1}, "shili": Word{Word: "shili", Def: "There exists exactly one ▯-er;\u00a0∃!x.P(x)", By: "uakci", Score: 0}, "shimiedaosai": Word{Word: "shimiedaosai", Def: "▯ is RNA.", By: "Ilmen", Score: 0}, "shineu": Word{Word: "shineu", Def: "nẻu dóshī dógū sa shí da. ju mủıjēq na, tu dó bǔ mẻa hóa dógū bı pủıjēq dóshī dógū roı dó da", By: "uakci", Score: 0}, "shio": Word{Word: "shio", Def: "predicate: ‘ball.joint’; ▯ is a hip/shoulder.", By: "official", Score: 0}, "shioshaq": Word{Word: "shioshaq", Def: "▯ is one’s chest [body part].", By: "uakci", Score: 0}, "shiotia": Word{Word: "shiotia", Def: "▯ is one’s back [body part].", By: "uakci", Score: 0}, "shipaq": Word{Word: "shipaq", Def: "▯ is a whole/entirety", By: "seaqtaq", Score: 0}, "shipie": Word{Word: "shipie", Def: "▯ has a drink.", By: "uakci", Score: 0}, "shiq": Word{Word: "shiq", Def: "predicate: ‘smell’; ▯ is olfactory; ▯ pertains to the sense of smell/olfaction.", By: "official", Score: 0}, "shiqchuao": Word{Word: "shiqchuao", Def: "▯ is a nostril.", By: "Ilmen", Score: 0}, "shiqde": Word{Word: "shiqde", Def: "▯ smells beautiful.", By: "Ilmen", Score: 0}, "shiqgai": Word{Word: "shiqgai", Def: "predicate: ‘smell’; ▯ smells ▯.", By: "official", Score: 0}, "shiqgai suq ni shiqgi rua ba.": Word{Word: "shiqgai suq ni shiqgi rua ba.", Def: "(A0351) Smell this fragrant flower!", By: "examples", Score: 0}, "shiqgi": Word{Word: "shiqgi", Def: "▯ smells good.", By: "Ilmen", Score: 0}, "shiqhua": Word{Word: "shiqhua", Def: "antenna (organ)", By: "spreadsheet", Score: 0}, "shiqhuahuai": Word{Word: "shiqhuahuai", Def: "▯ picks their nose; ▯ picks ▯'s nose.", By: "Ilmen", Score: 0}, "shiqhualapisiu": Word{Word: "shiqhualapisiu", Def: "▯ is a rhinoceros.", By: "Ilmen", Score: 0}, "shiqhuatuaqsiu": Word{Word: "shiqhuatuaqsiu", Def: "▯ is a rhinoceros (Rhinocerotidae).", By: "Ilmen", Score: 0}, "shiqhui": Word{Word: "shiqhui", Def: "▯ smells bad.", By: "Ilmen", Score: 0}, "shiqje": Word{Word: "shiqje", Def: "▯ is a wrinkle/crease/fold.", By: "Ilmen", Score: 0}, "shiqraq": Word{Word: "shiqraq", Def: "▯ is nosy.", By: "uakci", Score: 0}, "shiqsiu": Word{Word: "shiqsiu", Def: "▯ smells like ▯", By: "seaqtaq", Score: 0}, "shirai": Word{Word: "shirai", Def: "predicate: ‘individual’; ▯ is an individual.", By: "official", Score: 0}, "shisheaq": Word{Word: "shisheaq", Def: "▯ stands on one leg.", By: "Ilmen", Score: 0}, "shisho": Word{Word: "shisho", Def: "blend (vi)", By: "spreadsheet", Score: 0}, "shitoaq": Word{Word: "shitoaq", Def: "(fork of #3_IcT49q3) ▯ is an idiolect\u00a0", By: "seaqtaq", Score: 0}, "shituaq": Word{Word: "shituaq", Def: "▯ is a unicorn.", By: "Hoemai", Score: 0}, "shituqko": Word{Word: "shituqko", Def: "(fork of #QaxnULBHL) ▯ is last-but-one, penultimate, second-to-last element of sequence ▯.", By: "uakci", Score: 0}, "shituqsie": Word{Word: "shituqsie", Def: "▯ is last-but-one, penultimate, second-to-last element of sequence ▯.", By: "uakci", Score: 0}, "shiu": Word{Word: "shiu", Def: "≈ [00] Fỉa dóshī dógū pó dáq.", By: "Ilmen", Score: 0}, "shiubuaq": Word{Word: "shiubuaq", Def: "▯ attempts to do ▯ in order to achieve the further goal ▯, but that attempt ends in a failure.", By: "Ilmen", Score: 0}, "shiucuo": Word{Word: "shiucuo", Def: "▯ presupposes ▯.", By: "Ilmen", Score: 0}, "shiudua": Word{Word: "shiudua", Def: "▯ predicts that ▯ will happen.", By: "uakci", Score: 0}, "shiuduq": Word{Word: "shiuduq", Def: "▯ has been happening recently; ▯ has been satisfying property ▯ recently", By: "fagri", Score: 0}, "shiujai": Word{Word: "shiujai", Def: "predicate: ‘look.forward’; ▯ looks forward to ▯; ▯ is in joyful anticipation of ▯.", By: "official", Score: 0}, "shiukie": Word{Word: "shiukie", Def: "▯ thanks ▯ in advance for satisfying property ▯\u00a0", By: "seaqtaq", Score: 0}, "shiukune": Word{Word: "shiukune", Def: "▯ is a raccoon.", By: "Ilmen", Score: 0}, "shiuleo": Word{Word: "shiuleo", Def: "sa dó fǎq ru jẻı lêo tảo dóshī dógū bı, shảo dóshī câ dó dósāq da", By: "uakci", Score: 0}, "shiumapu": Word{Word: "shiumapu", Def: "‘exmaple’; ▯ is an exmaple/smaple/speciemn/instnace/csae/illustratino of common property(s) ▯ of set ▯.", By: "uakci", Score: 0}, "shiume": Word{Word: "shiume", Def: "predicate: ‘past’; ▯ is a/the past.", By: "official", Score: 0}, "shiumejio": Word{Word: "shiumejio", Def: "predicate: ‘museum’; ▯ is a museum.", By: "official", Score: 0}, "shiumeo": Word{Word: "shiumeo", Def: "▯ dreads ▯", By: "seaqtaq", Score: 0}, "shiune": Word{Word: "shiune", Def: "temci", By: "spreadsheet", Score: -1}, "shiutao": Word{Word: "shiutao", Def: "▯ does ▯ in order to achieve the further goal ▯.", By: "Ilmen", Score: 1}, "shiutoa": Word{Word: "shiutoa", Def: "Word ▯ is a priori.", By: "uakci", Score: 0}, "shiutoe": Word{Word: "shiutoe", Def: "▯ is a member of genus Brassica (including cabbage, mustard and rapes).", By: "Hoemai", Score: 0}, "sho": Word{Word: "sho", Def: "= [X1] Lẻaqshīu dôshī bủ sa ráı dógū na jêo dóshī dógū.", By: "Ilmen", Score: 0}, "sho bu chuqkiu": Word{Word: "sho bu chuqkiu", Def: "▯ expires(solid foods)", By: "seaqtaq", Score: 0}, "sho bu due\u00a0": Word{Word: "sho bu due\u00a0", Def: "▯ expires(code or link)", By: "seaqtaq", Score: 0}, "sho daocoe": Word{Word: "sho daocoe", Def: "(fork of #f6CWsm4FK) ▯(device) connects to service/network ▯", By: "seaqtaq", Score: 0}, "sho deo suaikoi shoi jeaq tijao da.": Word{Word: "sho deo suaikoi shoi jeaq tijao da.", Def: "(A0595) The child ran away screaming.", By: "examples", Score: 0}, "sho fura": Word{Word: "sho fura", Def: "rot, decay ⓥ", By: "spreadsheet", Score: -1}, "sho roaq": Word{Word: "sho roaq", Def: "▯ procreates/reproduces; ▯ begets offspring ▯.", By: "Ilmen", Score: 0}, "shoa": Word{Word: "shoa", Def: "predicate: ‘deep’; ▯ is deep.", By: "official", Score: 0}, "shoai": Word{Word: "shoai", Def: "predicate: ‘wing’; ▯ is a wing.", By: "official", Score: 0}, "shoaibo": Word{Word: "shoaibo", Def: "▯ is a winged insect (subclass Pterygota).", By: "Hoemai", Score: 0}, "shoaifa": Word{Word: "shoaifa", Def: "fly, vofli", By: "spreadsheet", Score: 0}, "shoaiheku": Word{Word: "shoaiheku", Def: "▯ is a winged horse; ▯ is a pegasus.", By: "Hoemai", Score: 0}, "shoaikiaq": Word{Word: "shoaikiaq", Def: "feather", By: "spreadsheet", Score: 0}, "shoasieq": Word{Word: "shoasieq", Def: "▯ feels reverence at the unfathomable depth of ▯.", By: "Hoemai", Score: 0}, "shoe": Word{Word: "shoe", Def: "tủa dóshī sıa lú bỏq hóa tâo dógū dósāq da", By: "uakci", Score: 0}, "shoe bui hi rai kune moq.": Word{Word: "shoe bui hi rai kune moq.", Def: "‘Who let the dogs out?’", By: "uakci", Score: 0}, "shoe soa suq ji suq ba.": Word{Word: "shoe soa suq ji suq ba.", Def: "(A0593) Let me help you.", By: "examples", Score: 0}, "shoe suq kaqgai ji ni puq fuaq ba.": Word{Word: "shoe suq kaqgai ji ni puq fuaq ba.", Def: "(A0724) Let me see those pictures.", By: "examples", Score: 0}, "shoe suq soa ji suq ba.": Word{Word: "shoe suq soa ji suq ba.", Def: "(A0594) Let me help you.", By: "examples", Score: 0}, "shoekai": Word{Word: "shoekai", Def: "▯ signs ▯ on ▯", By: "seaqtaq", Score: 0}, "shoelai(me)": Word{Word: "shoelai(me)", Def: "▯ is a password/passcode", By: "seaqtaq", Score: 0}, "shoetaq": Word{Word: "shoetaq", Def: "▯ lets themselves do/be ▯/1.", By: "uakci", Score: 0}, "shogiq": Word{Word: "shogiq", Def: "▯ loses property ▯ and continues to exist afterwards.", By: "Ilmen", Score: 0}, "shoi": Word{Word: "shoi", Def: "chỏa dóshī dógū lãqcāı da", By: "uakci", Score: 0}, "shu": Word{Word: "shu", Def: "predicatizer: ‘the.phrase’; turn next phrase into quote predicate", By: "official", Score: 0}, "shu keq bi ma kuqshao suq shu teq moq": Word{Word: "shu keq bi ma kuqshao suq shu teq moq", Def: "(A0492) About \"keq\": did you mean to say \"teq\"?", By: "examples", Score: 0}, "shu ‹ meri › poji chua da.": Word{Word: "shu ‹ meri › poji chua da.", Def: "(A0524) My name is Mary.", By: "examples", Score: 0}, "shua": Word{Word: "shua", Def: "cả dủo pó gáıhā dóshī dógū hǔaq jủı hóa gáıhā dósāq na dósāq da", By: "uakci", Score: 1}, "shua chuairuq.": Word{Word: "shua chuairuq.", Def: "phrase: \"Hail is falling.\"", By: "official", Score: 0}, "shuacao": Word{Word: "shuacao", Def: "predicate: ‘autumn’; ▯ is autumn/fall.", By: "official", Score: 0}, "shuacaoboe": Word{Word: "shuacaoboe", Def: "▯ are autumn leaves.", By: "lynn", Score: 0}, "shuacoe": Word{Word: "shuacoe", Def: "hang (dandu)", By: "spreadsheet", Score: 0}, "shuai": Word{Word: "shuai", Def: "predicate: ‘simple’; ▯ is simple.", By: "official", Score: 0}, "shuaibio": Word{Word: "shuaibio", Def: "▯ is a glass (drinking vessel without handle, but not necessarily made of translucent material).", By: "Ilmen", Score: 0}, "shuaikiaq": Word{Word: "shuaikiaq", Def: "▯ is a wing feather (a feather found on the wing)", By: "fagri", Score: -1}, "shuainu": Word{Word: "shuainu", Def: "▯ is simply/merely the case; ▯ simply/merely/just satisfies property ▯, that's all.", By: "lynn", Score: 0}, "shuainu jeo": Word{Word: "shuainu jeo", Def: "It really do be like that\u00a0", By: "seaqtaq", Score: 0}, "shuainu maaaaai": Word{Word: "shuainu maaaaai", Def: "▯ just loooooves ▯.", By: "uakci", Score: 0}, "shuaishiqhua": Word{Word: "shuaishiqhua", Def: "▯ is a primate belonging to the Haplorhini taxonomic suborder.", By: "Ilmen", Score: 0}, "shuao": Word{Word: "shuao", Def: "predicate: ‘bird’; ▯ is a bird.", By: "official", Score: 0}, "shuaokiaq": Word{Word: "shuaokiaq", Def: "feather", By: "spreadsheet", Score: -1}, "shuaq": Word{Word: "shuaq", Def: "tủa jỉq dóshī dógū da", By: "uakci", Score: 0}, "shuaqdoa": Word{Word: "shuaqdoa", Def: "(fork of #RgI1pD3WY) ▯ posts message ▯ to board/channel/group/comment section ▯", By: "seaqtaq", Score: 0}, "shuaqhua": Word{Word: "shuaqhua", Def: "▯ is a gland.", By: "Ilmen", Score: 0}, "shuaqjio": Word{Word: "shuaqjio", Def: "predicate: ‘factory’; ▯ is a factory.", By: "official", Score: 0}, "shuaqse": Word{Word: "shuaqse", Def: "predicate: ‘product’; ▯ is a product.", By: "official", Score: 0}, "shuashoe": Word{Word: "shuashoe", Def: "▯ lets ▯ fall on ▯; ▯ drops ▯ onto/into ▯ from ▯.", By: "uakci", Score: 0}, "shue": Word{Word: "shue", Def: "predicate: ‘remain’; ▯ remains/stays/keeps satisfying property ▯.", By: "official", Score: 0}, "shueboe": Word{Word: "shueboe", Def: "▯ are tea leaves that can no longer be brewed; ▯ is used tea leaf.", By: "uakci", Score: 0}, "shuehui": Word{Word: "shuehui", Def: "waste (festi)", By: "spreadsheet", Score: 0}, "shuepaq": Word{Word: "shuepaq", Def: "▯ is what's left of ▯; ▯ is the rest of ▯", By: "fagri", Score: 1}, "shueq": Word{Word: "shueq", Def: "predicate: ‘bitter’; ▯ is bitter.", By: "official", Score: 0}, "shueqchiai": Word{Word: "shueqchiai", Def: "▯ is sarcastic (not of a person).", By: "uakci", Score: 0}, "shuereoq": Word{Word: "shuereoq", Def: "still / za'o", By: "spreadsheet", Score: 0}, "shuetua": Word{Word: "shuetua", Def: "maintain", By: "spreadsheet", Score: 0}, "shuhoi": Word{Word: "shuhoi", Def: "last word quoted with #shu", By: "uakci", Score: 0}, "shui": Word{Word: "shui", Def: "predicate: ‘secret’; ▯ is secret.", By: "official", Score: 0}, "shui ti hi rai guq ruqnuao moq.": Word{Word: "shui ti hi rai guq ruqnuao moq.", Def: "(A0958) What is hidden underneath rainbow?", By: "examples", Score: 0}, "shuici": Word{Word: "shuici", Def: "▯ pertains to the culture of Switzerland – Swiss Confederation.", By: "countries", Score: 0}, "shuicigua": Word{Word: "shuicigua", Def: "▯ is the country Switzerland – Swiss Confederation.", By: "countries", Score: 0}, "shuicitoaq": Word{Word: "shuicitoaq", Def: "▯ is (one of) the language(s) spoken in Switzerland – Swiss Confederation.", By: "countries", Score: 0}, "shuigiq": Word{Word: "shuigiq", Def: "public, information", By: "spreadsheet", Score: 0}, "shuigiqtua": Word{Word: "shuigiqtua", Def: "publish", By: "spreadsheet", Score: 0}, "shuihuoi": Word{Word: "shuihuoi", Def: "▯ is a member of genus Cryptocercus (the wood roaches or brown-hooded cockroaches).", By: "Hoemai", Score: 0}, "shuisio": Word{Word: "shuisio", Def: "▯ is the idea of privacy", By: "seaqtaq", Score: 0}, "shuitaq\u00a0": Word{Word: "shuitaq\u00a0", Def: "▯ is personal", By: "seaqtaq", Score: 0}, "shuitua": Word{Word: "shuitua", Def: "▯ encrypts ▯", By: "seaqtaq", Score: 0}, "shunu": Word{Word: "shunu", Def: "worm", By: "spreadsheet", Score: -1}, "shuo": Word{Word: "shuo", Def: "predicate: ‘reserve’; ▯ is a source/deposit/supply/reserve of ▯.", By: "official", Score: 0}, "shuofua": Word{Word: "shuofua", Def: "▯ is a closet/cupboard.", By: "Ilmen", Score: 0}, "shuogiq": Word{Word: "shuogiq", Def: "▯ is a void", By: "seaqtaq", Score: 0}, "shuqso": Word{Word: "shuqso", Def: "random", By: "spreadsheet", Score: 0}, "si": Word{Word: "si", Def: "bỉaq rảqmōı dóshī dógū da", By: "uakci", Score: 0}, "si ba.": Word{Word: "si ba.", Def: "Hey!", By: "Ilmen", Score: 0}, "sia": Word{Word: "sia", Def: "quantifier: ‘no’; zero quantifier.", By: "official", Score: 0}, "sia poq": Word{Word: "sia poq", Def: "argument phrase: \"noone\"", By: "official", Score: 0}, "sia rai": Word{Word: "sia rai", Def: "argument phrase: \"nothing\"", By: "official", Score: 0}, "siachoa": Word{Word: "siachoa", Def: "predicate: ‘say.nothing.’; ▯ says nothing / is silent.", By: "official", Score: -1}, "siachoa ba.": Word{Word: "siachoa ba.", Def: "(A0383) Silence!", By: "examples", Score: 0}, "siachuaq": Word{Word: "siachuaq", Def: "▯ is nihilism", By: "seaqtaq", Score: 0}, "siaheq": Word{Word: "siaheq", Def: "empty (contain without)", By: "spreadsheet", Score: 0}, "siai": Word{Word: "siai", Def: "predicate: ‘blood’; ▯ is blood.", By: "official", Score: 0}, "siaibiu": Word{Word: "siaibiu", Def: "▯ is a blood vessel.", By: "Ilmen", Score: 0}, "siaiciu": Word{Word: "siaiciu", Def: "▯ bleeds.", By: "lynn", Score: 1}, "siailoha": Word{Word: "siailoha", Def: "▯ is iron.", By: "Ilmen", Score: 0}, "siaja": Word{Word: "siaja", Def: "▯ is a proposition.", By: "Ilmen", Score: 1}, "siakuoi": Word{Word: "siakuoi", Def: "▯ < 0; ▯ is a negative number.", By: "Ilmen", Score: 0}, "siali": Word{Word: "siali", Def: "= [1] sa jẻı dóshī sıa dógū.", By: "Ilmen", Score: 0}, "siamoe": Word{Word: "siamoe", Def: "▯ feels no emotion at all.", By: "uakci", Score: -1}, "siao": Word{Word: "siao", Def: "predicate: ‘beginning’; ▯ is a beginning/start; ▯ is a beginning/start of ▯.", By: "official", Score: 0}, "siao ni kai ji kuqtoai feofaq gao ka.": Word{Word: "siao ni kai ji kuqtoai feofaq gao ka.", Def: "(A0979) ", By: "examples", Score: 0}, "siaomerika": Word{Word: "siaomerika", Def: "▯ is a Native American / Indian / Indigenous American.", By: "uakci", Score: 0}, "siaopoq": Word{Word: "siaopoq", Def: "beginner", By: "spreadsheet", Score: 0}, "siaoriaq": Word{Word: "siaoriaq", Def: "origin / source", By: "spreadsheet", Score: 0}, "siapoi": Word{Word: "siapoi", Def: "▯ is an event in which nothing is the x1", By: "seaqtaq", Score: 0}, "siapui": Word{Word: "siapui", Def: "mẻa sıa ráı dóshī da", By: "uakci", Score: 0}, "siaq": Word{Word: "siaq", Def: "predicate: ‘right’; ▯ is to the right of ▯.", By: "official", Score: 0}, "siaqcu": Word{Word: "siaqcu", Def: "predicate: ‘rightwards’; ▯ moves rightwards.", By: "official", Score: 0}, "siaqfeo": Word{Word: "siaqfeo", Def: "▯ is the east direction", By: "seaqtaq", Score: 0}, "siaqhoi": Word{Word: "siaqhoi", Def: "▯ is the latter; ▯ is/are the referents of the right part of the conjunction ▯.", By: "uakci", Score: 0}, "siaqmuqpoq": Word{Word: "siaqmuqpoq", Def: "▯ is right-handed.", By: "Ilmen", Score: 0}, "siaqpaq": Word{Word: "siaqpaq", Def: "predicate: ‘right’; ▯ is the right part of ▯.", By: "official", Score: 0}, "siarai": Word{Word: "siarai", Def: "Nothing satisfies property ▯; ∄x.▯‘x\u00a0", By: "uakci", Score: 0}, "siaseu": Word{Word: "siaseu", Def: "▯ is the number zero.", By: "Ilmen", Score: 0}, "siasia": Word{Word: "siasia", Def: "No one thing has nothing to be in relation ▯ with; Everything is such that there exists something that the former is in relation ▯ with.", By: "uakci", Score: 0}, "siasie": Word{Word: "siasie", Def: "▯ is an empty sequence.", By: "uakci", Score: 0}, "siba": Word{Word: "siba", Def: "▯ calls ▯’s attention.", By: "uakci", Score: 0}, "sibeoca": Word{Word: "sibeoca", Def: "distraction", By: "spreadsheet", Score: 0}, "sibu": Word{Word: "sibu", Def: "▯ ignores ▯", By: "fagri", Score: 0}, "sica": Word{Word: "sica", Def: "interesting", By: "spreadsheet", Score: 0}, "sidi": Word{Word: "sidi", Def: "predicate: ‘CD’; ▯ is a CD.", By: "official", Score: 0}, "sie": Word{Word: "sie", Def: "predicate: ‘follow’; ▯ is following to ▯ in sequence ▯.", By: "official", Score: 0}, "siebaq": Word{Word: "siebaq", Def: "▯ is a list; ▯ is a sequential collection of things that satisfy the property ▯.", By: "uakci", Score: 2}, "sieceo": Word{Word: "sieceo", Def: "▯ resumes taking place.", By: "Ilmen", Score: 0}, "siechaq": Word{Word: "siechaq", Def: "Thursday", By: "uakci", Score: 0}, "siecu": Word{Word: "siecu", Def: "sequence (abstract)", By: "spreadsheet", Score: -1}, "siefa": Word{Word: "siefa", Def: "predicate: ‘follow’; ▯ follows/goes after ▯.", By: "official", Score: 0}, "siegiq": Word{Word: "siegiq", Def: "▯ comes before ▯ in sequence ▯", By: "fagri", Score: -3}, "siehoi": Word{Word: "siehoi", Def: "▯ is/are the following / subsequently mentioned things that satisfy property ▯.", By: "Ilmen", Score: 1}, "siehoq": Word{Word: "siehoq", Def: "▯ is the following / subsequently mentioned abstract thing.", By: "Ilmen", Score: 0}, "siekao": Word{Word: "siekao", Def: "▯ is a will ", By: "seaqtaq", Score: 0}, "sieko": Word{Word: "sieko", Def: "▯, in the sequence ▯, is at position ▯ (from the beginning/left direction, the first slot having 1 as its index).", By: "Ilmen", Score: 0}, "sielu": Word{Word: "sielu", Def: "▯ is the following / subsequently mentioned proposition.", By: "Ilmen", Score: 0}, "sieme": Word{Word: "sieme", Def: "▯ is a sequence of the things in ▯ (roi)", By: "fagri", Score: -1}, "siemea": Word{Word: "siemea", Def: "▯ is a member of the sequence ▯.", By: "Ilmen", Score: 0}, "siememe": Word{Word: "siememe", Def: "▯ is the concatenation of the sequences ▯ and ▯ (and ▯ …).", By: "Ilmen", Score: 0}, "siemenuoq": Word{Word: "siemenuoq", Def: "▯ is the mirrored/reversed version of the sequence ▯.", By: "Ilmen", Score: 0}, "siemepaq": Word{Word: "siemepaq", Def: "The sequence ▯ is part of the sequence ▯ (occurring at the offset number ▯, counting from the beginning/left direction, the first element of the sequence having 1 as its index).", By: "Ilmen", Score: 0}, "sieq": Word{Word: "sieq", Def: "predicate: ‘awe’; ▯ feels awe; ▯ is amazed.", By: "official", Score: 0}, "sieqca": Word{Word: "sieqca", Def: "impressive", By: "spreadsheet", Score: 0}, "sieqgiq": Word{Word: "sieqgiq", Def: "disappointed", By: "uakci", Score: 0}, "sieroi": Word{Word: "sieroi", Def: "▯ is the sequence ⟨▯, ▯ (, ▯ (…))⟩.", By: "Ilmen", Score: 0}, "sieshi": Word{Word: "sieshi", Def: "▯ is the head of sequence ▯.", By: "uakci", Score: 0}, "sieshue": Word{Word: "sieshue", Def: "▯ is the tail of sequence ▯.", By: "uakci", Score: 0}, "siesia": Word{Word: "siesia", Def: "▯ is the first element in the sequence ▯.", By: "Ilmen", Score: 0}, "siesuaikoi": Word{Word: "siesuaikoi", Def: "chase", By: "spreadsheet", Score: 0}, "sietu": Word{Word: "sietu", Def: "▯ is last in sequence ▯.", By: "Ilmen", Score: 0}, "siga": Word{Word: "siga", Def: "predicate: ‘cigarette’; ▯ is a cigarette.", By: "official", Score: 0}, "sigi": Word{Word: "sigi", Def: "zdile", By: "spreadsheet", Score: 0}, "sihe": Word{Word: "sihe", Def: "▯ is a ▯-th of ▯.", By: "Ilmen", Score: 0}, "siki": Word{Word: "siki", Def: "▯ is a ski.", By: "uakci", Score: 0}, "sila": Word{Word: "sila", Def: "▯ is a thread.", By: "Ilmen", Score: 0}, "silaba": Word{Word: "silaba", Def: "syllable", By: "spreadsheet", Score: 0}, "simi": Word{Word: "simi", Def: "predicate: ‘monkey’; ▯ is a monkey.", By: "official", Score: 0}, "simo": Word{Word: "simo", Def: "▯ is a member of the genus Simiiformes (the monkeys and apes); ▯ is a simian.", By: "Hoemai", Score: 0}, "simuo": Word{Word: "simuo", Def: "▯ meditates (on ▯).", By: "Ilmen", Score: 0}, "sinu": Word{Word: "sinu", Def: "▯ = sin(▯).", By: "Ilmen", Score: 0}, "sio": Word{Word: "sio", Def: "= #se #mỏı", By: "uakci", Score: 0}, "siodoa": Word{Word: "siodoa", Def: "▯ gives inspiration ▯ to ▯.", By: "Ilmen", Score: 0}, "siofieq": Word{Word: "siofieq", Def: "▯ devises, comes up with ▯.", By: "uakci", Score: 0}, "siojuq": Word{Word: "siojuq", Def: "▯ gets idea ▯.", By: "Ilmen", Score: 0}, "sioq": Word{Word: "sioq", Def: "predicate: ‘wheel’; ▯ is a wheel.", By: "official", Score: 0}, "sioqchao": Word{Word: "sioqchao", Def: "▯ is a wheeled vehicle.", By: "Ilmen", Score: 0}, "sioqduo": Word{Word: "sioqduo", Def: "▯ runs / moves on wheels to ▯ from ▯.", By: "Ilmen", Score: 0}, "sioqpuao": Word{Word: "sioqpuao", Def: "▯ is a cyclone.", By: "Ilmen", Score: 0}, "sioqseu": Word{Word: "sioqseu", Def: "▯ is the τ mathematical constant, the ratio of the radius of a circle to its circumference.", By: "Ilmen", Score: 1}, "sipua": Word{Word: "sipua", Def: "zdile", By: "spreadsheet", Score: 0}, "siq": Word{Word: "siq", Def: "predicate: ‘clean’; ▯ is clean/pure.", By: "official", Score: 0}, "siqba": Word{Word: "siqba", Def: "lion", By: "spreadsheet", Score: 0}, "siqchuaq": Word{Word: "siqchuaq", Def: "▯ is (personal) hygiene; ▯ is the ism oriented around keeping oneself clean.", By: "uakci", Score: 0}, "siqchuaqgi": Word{Word: "siqchuaqgi", Def: "▯ is good from a standpoint of hygiene; ▯ is hygienic [clean].", By: "uakci", Score: 0}, "siqfuqle": Word{Word: "siqfuqle", Def: "▯ asks courteously for ▯.", By: "uakci", Score: 0}, "siqgabera": Word{Word: "siqgabera", Def: "▯ is a member of genus Zingiber (the true gingers).", By: "Hoemai", Score: 0}, "siqgapura": Word{Word: "siqgapura", Def: "▯ pertains to the culture of Singapore – Republic of Singapore.", By: "countries", Score: 0}, "siqgapuragua": Word{Word: "siqgapuragua", Def: "▯ is the country Singapore – Republic of Singapore.", By: "countries", Score: 0}, "siqgapuratoaq": Word{Word: "siqgapuratoaq", Def: "▯ is (one of) the language(s) spoken in Singapore – Republic of Singapore.", By: "countries", Score: 0}, "siqkea": Word{Word: "siqkea", Def: "predicate: ‘washing.machine’; ▯ is a washing machine.", By: "official", Score: 0}, "siqma": Word{Word: "siqma", Def: "respect", By: "spreadsheet", Score: -1}, "siqshuatua": Word{Word: "siqshuatua", Def: "shower", By: "spreadsheet", Score: 0}, "siqtuachuaq": Word{Word: "siqtuachuaq", Def: "▯ is hygiene; ▯ is the ism oriented around keeping stuff clean.", By: "uakci", Score: 0}, "siri": Word{Word: "siri", Def: "zilbri", By: "spreadsheet", Score: -1}, "siria": Word{Word: "siria", Def: "▯ pertains to the culture of Syria – Syrian Arab Republic.", By: "countries", Score: 0}, "siriagua": Word{Word: "siriagua", Def: "▯ is the country Syria – Syrian Arab Republic.", By: "countries", Score: 0}, "siriatoaq": Word{Word: "siriatoaq", Def: "▯ is (one of) the language(s) spoken in Syria – Syrian Arab Republic.", By: "countries", Score: 0}, "sisa": Word{Word: "sisa", Def: "▯ is conscious.", By: "uakci", Score: 0}, "sishai": Word{Word: "sishai", Def: "▯ faints; ▯ drops unconscious.", By: "uakci", Score: 0}, "sisia": Word{Word: "sisia", Def: "▯ is unconscious.", By: "uakci", Score: 0}, "sitako": Word{Word: "sitako", Def: "▯ is a member of genus Psitaccus (containing the grey parrot and the Timneh parrot).", By: "Hoemai", Score: 0}, "situa": Word{Word: "situa", Def: "▯ notifies ▯ about ▯", By: "seaqtaq", Score: 0}, "situe hoa": Word{Word: "situe hoa", Def: "▯ is an attention-seeking person.", By: "uakci", Score: 0}, "siu": Word{Word: "siu", Def: "gỉq pủı sa túq lủ bủ jẻojēq jêo dóshī hóa na jêo dógū hóa da", By: "uakci", Score: 0}, "siu noqse po baq sepe ★ noqse po baq goso da.": Word{Word: "siu noqse po baq sepe ★ noqse po baq goso da.", Def: "(A0591) The taste of snake is similar to that of chicken.", By: "examples", Score: 0}, "siugiq": Word{Word: "siugiq", Def: "▯ is dissimilar from ▯.", By: "Ilmen", Score: 0}, "siugiqcheo": Word{Word: "siugiqcheo", Def: "various, vrici", By: "spreadsheet", Score: 0}, "siujeo": Word{Word: "siujeo", Def: "something like ▯ is the case; ▯ has a property that is similar to ▯.", By: "Ilmen", Score: -1}, "siuleo": Word{Word: "siuleo", Def: "▯ by satisfying property ▯ mimics/immitates/emulates\u00a0▯", By: "seaqtaq", Score: 0}, "siume": Word{Word: "siume", Def: "▯ has a homogenous composition.", By: "Ilmen", Score: 0}, "siumuo": Word{Word: "siumuo", Def: "▯ is indistinguishable from ▯.", By: "Ilmen", Score: 0}, "sỉao shijue niq nỉaq da.": Word{Word: "sỉao shijue niq nỉaq da.", Def: "(A0140) January is the beginning of the new year.", By: "examples", Score: 0}, "so": Word{Word: "so", Def: "▯ is thê (semantical content of) next sentence.", By: "uakci", Score: 1}, "soa": Word{Word: "soa", Def: "predicate: ‘help’; ▯ helps ▯ to satisfy property ▯.", By: "official", Score: 0}, "soa pa nei ri jo moq ": Word{Word: "soa pa nei ri jo moq ", Def: "(A0374) Are there nine or four helpers?", By: "examples", Score: 0}, "soa siu hoq hoi pa suao jijie.": Word{Word: "soa siu hoq hoi pa suao jijie.", Def: "(A0974) ", By: "examples", Score: 0}, "soacha": Word{Word: "soacha", Def: "▯ is done with help from ▯.", By: "uakci", Score: 0}, "soagiq": Word{Word: "soagiq", Def: "▯ unhelps/interfers with/hinders ▯'s attempt to satisfy the property ▯.", By: "Ilmen", Score: 0}, "soai": Word{Word: "soai", Def: "predicate: ‘beam’; ▯ is a beam/ray/line extending outwards from a point.", By: "official", Score: 0}, "soaica": Word{Word: "soaica", Def: "▯ emits rays ▯.", By: "uakci", Score: 0}, "soaishoai": Word{Word: "soaishoai", Def: "▯ is an Actinopterygii.", By: "Ilmen", Score: 0}, "soaitao": Word{Word: "soaitao", Def: "▯ extends ▯ ", By: "seaqtaq", Score: 0}, "soamuoq": Word{Word: "soamuoq", Def: "▯ is an enzyme or catalyst for reaction ▯.", By: "uakci", Score: 0}, "soao": Word{Word: "soao", Def: "▯ sweats.", By: "uakci", Score: 0}, "soaonao": Word{Word: "soaonao", Def: "(fork of #T3Za0ZFAT) ▯ is sweat.", By: "uakci", Score: 1}, "soaose": Word{Word: "soaose", Def: "▯ is sweat.", By: "uakci", Score: 1}, "soaq": Word{Word: "soaq", Def: "predicate: ‘garden’; ▯ is a garden.", By: "official", Score: 0}, "soatoa": Word{Word: "soatoa", Def: "particle, cmavo", By: "spreadsheet", Score: 0}, "soe": Word{Word: "soe", Def: "predicate: ‘sour’; ▯ is sour.", By: "official", Score: 0}, "soe ru shueq ni heu kui bu koaq maq da.": Word{Word: "soe ru shueq ni heu kui bu koaq maq da.", Def: "(A0948) That fruit is sour and bitter because it is not ripe.", By: "examples", Score: 0}, "soeq": Word{Word: "soeq", Def: "▯ is familiar.", By: "uakci", Score: 0}, "sofa": Word{Word: "sofa", Def: "sofa", By: "spreadsheet", Score: 0}, "sofu": Word{Word: "sofu", Def: "software, proga", By: "spreadsheet", Score: 0}, "soi": Word{Word: "soi", Def: "compete", By: "spreadsheet", Score: 0}, "soibuaq": Word{Word: "soibuaq", Def: "lose (in a competition)", By: "spreadsheet", Score: 0}, "soiche": Word{Word: "soiche", Def: "▯is a soldier", By: "seaqtaq", Score: 0}, "soicia": Word{Word: "soicia", Def: "▯ is at peace with ▯.", By: "uakci", Score: 0}, "soideoq": Word{Word: "soideoq", Def: "▯ (coll.) discuss matter ▯.", By: "uakci", Score: 0}, "soifuai": Word{Word: "soifuai", Def: "▯ is a military", By: "seaqtaq", Score: 0}, "soiheo": Word{Word: "soiheo", Def: "▯ is against ▯.", By: "uakci", Score: 0}, "soijeq": Word{Word: "soijeq", Def: "▯ supports ▯; ▯ is on ▯’s side; ▯ is for ▯.", By: "uakci", Score: 0}, "soiluaq": Word{Word: "soiluaq", Def: "▯ competes with ▯ to see in satisfying property/to see who satisfies property ▯\u00a0", By: "seaqtaq", Score: 0}, "soime": Word{Word: "soime", Def: "▯ is an army", By: "seaqtaq", Score: 0}, "soiraq": Word{Word: "soiraq", Def: "▯ is violent", By: "seaqtaq", Score: -1}, "soiruo": Word{Word: "soiruo", Def: "▯ is an act of violence; ▯ commits act of violence ▯.", By: "uakci", Score: 0}, "soisiatue": Word{Word: "soisiatue", Def: "peace", By: "spreadsheet", Score: 0}, "soitai": Word{Word: "soitai", Def: "▯ beats / wins against ▯ in a battle or competition.", By: "lynn", Score: 0}, "soitue": Word{Word: "soitue", Def: "▯ is a battle", By: "seaqtaq", Score: 0}, "soka": Word{Word: "soka", Def: "predicate: ‘soccer’; ▯ is soccer/football.", By: "official", Score: 0}, "somalia": Word{Word: "somalia", Def: "▯ pertains to the culture of Somalia – Federal Republic of Somalia.", By: "countries", Score: 0}, "somaliagua": Word{Word: "somaliagua", Def: "▯ is the country Somalia – Federal Republic of Somalia.", By: "countries", Score: 0}, "somaliatoaq": Word{Word: "somaliatoaq", Def: "▯ is (one of) the language(s) spoken in Somalia – Federal Republic of Somalia.", By: "countries", Score: 0}, "soq": Word{Word: "soq", Def: "sıa dó měa hóa dósāq pa, hủaq dóshī dógū da", By: "uakci", Score: 0}, "soq gi": Word{Word: "soq gi", Def: "predicate: ‘best’; ▯ is the best among ▯.", By: "official", Score: 0}, "soq hui": Word{Word: "soq hui", Def: "predicate: ‘worst’; ▯ is the worst among ▯.", By: "official", Score: 0}, "soq hui hi rai lu tao ho hoa moq": Word{Word: "soq hui hi rai lu tao ho hoa moq", Def: "(A0610) What's the worst thing he has done?", By: "examples", Score: 0}, "soq hui jeo hoq, she!  keo bu tao ho da.  chiai!": Word{Word: "soq hui jeo hoq, she!  keo bu tao ho da.  chiai!", Def: "(A0614) That would truly be the worst!  But, he never did it.  Wrong!", By: "examples", Score: 0}, "soq nio ji lu mepaq hoa poji luo da.": Word{Word: "soq nio ji lu mepaq hoa poji luo da.", Def: "(A0259) I'm the youngest in my family.", By: "examples", Score: 0}, "soq nui": Word{Word: "soq nui", Def: "predicate: ‘smallest’; ▯ is the smallest among ▯.", By: "official", Score: 0}, "soq pui": Word{Word: "soq pui", Def: "predicate: ‘most’; ▯ are the most numerous among ▯.", By: "official", Score: 0}, "soq sao": Word{Word: "soq sao", Def: "predicate: ‘biggest’; ▯ is the biggest among ▯.", By: "official", Score: 0}, "soq sao ni jio po ni doaq da.": Word{Word: "soq sao ni jio po ni doaq da.", Def: "(A0714) This is the biggest building in the city.", By: "examples", Score: 0}, "soqcho ji mio reokaq da.": Word{Word: "soqcho ji mio reokaq da.", Def: "(A0519) My favorite color is blue.", By: "examples", Score: 0}, "soqcho suq hi rai baq shamu roi baq piso moq.": Word{Word: "soqcho suq hi rai baq shamu roi baq piso moq.", Def: "(A0320) What's your favorite out of apples and pears?", By: "examples", Score: 0}, "soqcho suq hi rai reokaq moq.": Word{Word: "soqcho suq hi rai reokaq moq.", Def: "(A0518) What's your favorite color?", By: "examples", Score: 0}, "soqjane": Word{Word: "soqjane", Def: "▯ is the biggest finite arity of predicate/relation ▯.", By: "uakci", Score: 0}, "soqjeo": Word{Word: "soqjeo", Def: "▯ jeo’s ▯ at its limit; ▯ satisfies property ▯ as much as feasible.", By: "uakci", Score: 2}, "soqjui": Word{Word: "soqjui", Def: "▯ is extremely ▯; ▯ has property ▯ to an extreme extent.", By: "Ilmen", Score: 0}, "soqline": Word{Word: "soqline", Def: "(fork of #oIje3bN2v) ▯ is maximum amount of things that satisfy property ▯", By: "seaqtaq", Score: 0}, "soqmea": Word{Word: "soqmea", Def: "(fork of #-cyCH-uCO) ▯ is the majority of ▯", By: "seaqtaq", Score: 0}, "soqriaq": Word{Word: "soqriaq", Def: "▯ is a utopia", By: "seaqtaq", Score: 0}, "soqsha": Word{Word: "soqsha", Def: "▯/0 reaches a climax", By: "seaqtaq", Score: 1}, "sore": Word{Word: "sore", Def: "▯ is a red-toothed shrew (Sorex genus).", By: "Ilmen", Score: 0}, "soreilia": Word{Word: "soreilia", Def: "▯ pertains to the culture of Australia – Commonwealth of Australia.", By: "countries", Score: 0}, "soreiliagua": Word{Word: "soreiliagua", Def: "▯ is the country Australia – Commonwealth of Australia.", By: "countries", Score: 0}, "soreiliatoaq": Word{Word: "soreiliatoaq", Def: "▯ is (one of) the language(s) spoken in Australia – Commonwealth of Australia.", By: "countries", Score: 0}, "soresiu": Word{Word: "soresiu", Def: "▯ is a shrew.", By: "Ilmen", Score: 0}, "sori": Word{Word: "sori", Def: "▯ sews/stitches/sutures ▯ with filament ▯.", By: "Ilmen", Score: 1}, "spreaq shee": Word{Word: "spreaq shee", Def: "▯ is a spreadsheet.", By: "uakci", Score: 0}, "su": Word{Word: "su", Def: "predicate: ‘previous.predicate’; ▯ are [previous predicate].", By: "official", Score: 0}, "sua": Word{Word: "sua", Def: "shẻ bû dảı dógū na bû jẻo dóshī da", By: "uakci", Score: 0}, "suahuaq": Word{Word: "suahuaq", Def: "predicate: ‘superfluous’; ▯ is superfluous / more than is necessary for ▯ to happen.", By: "official", Score: 0}, "suai": Word{Word: "suai", Def: "pẻ go sa báq dóshī dôqdāq sa lú gủo hóa tâo dóshī dógū da", By: "uakci", Score: 0}, "suai cua liqdeo": Word{Word: "suai cua liqdeo", Def: "(B0030) The girls answered quickly", By: "examples", Score: 0}, "suai fa suq ba!": Word{Word: "suai fa suq ba!", Def: "(SRP.2) Go quickly!", By: "official", Score: 0}, "suai(mieq)chuo": Word{Word: "suai(mieq)chuo", Def: "▯ is a speedometer", By: "seaqtaq", Score: 0}, "suaiduokea": Word{Word: "suaiduokea", Def: "gun, thing-that-shoots", By: "spreadsheet", Score: 0}, "suaifuri": Word{Word: "suaifuri", Def: "shake", By: "spreadsheet", Score: 0}, "suaigama": Word{Word: "suaigama", Def: "dromedary", By: "spreadsheet", Score: 0}, "suaikaidiu": Word{Word: "suaikaidiu", Def: "▯is stenography", By: "seaqtaq", Score: 0}, "suaikoi": Word{Word: "suaikoi", Def: "predicate: ‘run’; ▯ runs.", By: "official", Score: 0}, "suaikoi ji diaq da.": Word{Word: "suaikoi ji diaq da.", Def: "(A0061) I run regularly.", By: "examples", Score: 0}, "suaikoi shagiq tuq peao naqdeo": Word{Word: "suaikoi shagiq tuq peao naqdeo", Def: "(B0023) All the boys ran away", By: "examples", Score: 0}, "suaikuai": Word{Word: "suaikuai", Def: "predicate: ‘in.a.hurry’; ▯ is in a hurry; ▯ feels the urge to quickly satisfy property ▯.", By: "official", Score: 0}, "suaipue": Word{Word: "suaipue", Def: "▯ is a member of genus Dromaius (the emus).", By: "Hoemai", Score: 0}, "suaisiumoi": Word{Word: "suaisiumoi", Def: "▯ intuits ▯", By: "Xylochoron", Score: 0}, "suaisua": Word{Word: "suaisua", Def: "It is urgent that ▯ be the case for ▯ to be the case.", By: "Ilmen", Score: 0}, "suaitao": Word{Word: "suaitao", Def: "▯ hurries.", By: "Ilmen", Score: 0}, "suao": Word{Word: "suao", Def: "dóshī pa lủ gỉ to ra râqmōı sa pủı hóa to râqmōı sa ráı dãqfāı hóa da", By: "uakci", Score: 0}, "suaobukuaq": Word{Word: "suaobukuaq", Def: "▯ shrugs", By: "fagri", Score: 0}, "suaochiduitaq": Word{Word: "suaochiduitaq", Def: "▯ is megalomaniac.", By: "Ilmen", Score: 0}, "suaochikuaq": Word{Word: "suaochikuaq", Def: "celebrate", By: "spreadsheet", Score: 0}, "suaochua": Word{Word: "suaochua", Def: "▯ is a title/rank of ▯", By: "seaqtaq", Score: 0}, "suaojaqchitaq": Word{Word: "suaojaqchitaq", Def: "▯ is megalomaniac.", By: "Ilmen", Score: 0}, "suaojie": Word{Word: "suaojie", Def: "predicate: ‘care’; ▯ cares about ▯; ▯ considers ▯ important.", By: "official", Score: 0}, "suaojiekuaq": Word{Word: "suaojiekuaq", Def: "celebrate", By: "spreadsheet", Score: 0}, "suaojiekuaq puq ji ko biq suq lui choaq ka.": Word{Word: "suaojiekuaq puq ji ko biq suq lui choaq ka.", Def: "(A1000)  We celebrate you being the 1000th visitor!", By: "examples", Score: 0}, "suaojietiao": Word{Word: "suaojietiao", Def: "▯ is worth esteem / has dignity; ▯ is worth esteem from ▯.", By: "Ilmen", Score: 1}, "suaoluapoq": Word{Word: "suaoluapoq", Def: "▯ is a main character of story/movie/book/TV show ▯", By: "fagri", Score: 0}, "suaomiu": Word{Word: "suaomiu", Def: "▯ deems ▯ to be important.", By: "Ilmen", Score: 0}, "suaone": Word{Word: "suaone", Def: "▯ is the level of importance", By: "seaqtaq", Score: 0}, "suaopai": Word{Word: "suaopai", Def: "▯ is a significant other of ▯.", By: "uakci", Score: -1}, "suaosoq": Word{Word: "suaosoq", Def: "▯ is a priority\u00a0", By: "seaqtaq", Score: 0}, "suaotuao": Word{Word: "suaotuao", Def: "▯ is unimportant/insignificant/worthless.", By: "Ilmen", Score: 0}, "suaotuaomiu": Word{Word: "suaotuaomiu", Def: "▯ despises ▯; ▯ regards ▯ with contempt or scorn.", By: "Ilmen", Score: 0}, "suaq": Word{Word: "suaq", Def: "chỏa dóshī dógū gỉaq da", By: "uakci", Score: 0}, "suaq da.": Word{Word: "suaq da.", Def: "(PRD.3) There is singing going on.", By: "official", Score: 0}, "suaq sa shuao": Word{Word: "suaq sa shuao", Def: "(B0001) Birds sing", By: "examples", Score: 0}, "suaqgiaq": Word{Word: "suaqgiaq", Def: "▯ is a song; ▯ is an example of oral/vocal/‘a cappella’ music.", By: "uakci", Score: 0}, "suaqkuqse": Word{Word: "suaqkuqse", Def: "▯ are the lyrics to song ▯.", By: "uakci", Score: 0}, "suaqse": Word{Word: "suaqse", Def: "song", By: "spreadsheet", Score: 1}, "suaqsue": Word{Word: "suaqsue", Def: "▯ prays; ▯ recites prayer ▯.", By: "uakci", Score: 0}, "suaqsuese": Word{Word: "suaqsuese", Def: "▯ is a prayer.", By: "uakci", Score: 0}, "sudo": Word{Word: "sudo", Def: "(fork of #1lWhikWDB) ▯ takes place with superuser privileges; ▯ does ▯ as superuser.", By: "uakci", Score: 0}, "sue": Word{Word: "sue", Def: "predicate: ‘request’; ▯ asks ▯ to satisfy property ▯.", By: "official", Score: 0}, "sue goi ji lî bu pỉe ja do bira da.": Word{Word: "sue goi ji lî bu pỉe ja do bira da.", Def: "(A0408) The doctor asked me not to drink beer.", By: "examples", Score: 0}, "sue ji suq li tua neo ja do maq toqfua ka.": Word{Word: "sue ji suq li tua neo ja do maq toqfua ka.", Def: "phrase: \"Please put it on the table\", \"I hereby ask you to put it on the table\"", By: "official", Score: 0}, "sue li hie gi joi hiaodaisi ka.": Word{Word: "sue li hie gi joi hiaodaisi ka.", Def: "(A0987) ", By: "examples", Score: 0}, "suecai": Word{Word: "suecai", Def: "command, issue an order", By: "spreadsheet", Score: -1}, "suecaq": Word{Word: "suecaq", Def: "▯ commands ▯ to do ▯; ▯ issues to ▯ the order ▯.", By: "Ilmen", Score: 1}, "suecua": Word{Word: "suecua", Def: "▯ obeys ▯; ▯ obeys ▯ in his/her/their request/command of satisfying property ▯.", By: "Ilmen", Score: 0}, "suecuahe": Word{Word: "suecuahe", Def: "▯ is obedient.", By: "Ilmen", Score: 0}, "suejaq": Word{Word: "suejaq", Def: "▯ exhorts ▯ to satisfy property ▯.", By: "Ilmen", Score: 0}, "suejeo": Word{Word: "suejeo", Def: "▯ satisfies property ▯ as ▯ asked; ▯ complies to do/be ▯ per ▯’s request.", By: "uakci", Score: 0}, "sueji choq suq ni koqpiuta ka.": Word{Word: "sueji choq suq ni koqpiuta ka.", Def: "(A0708) Please use this computer.", By: "examples", Score: 0}, "sueji fa suq poji bue ka.": Word{Word: "sueji fa suq poji bue ka.", Def: "(A0703) Please come to my home.", By: "examples", Score: 0}, "sueji tua kaqgai ji sa heo kue ka.": Word{Word: "sueji tua kaqgai ji sa heo kue ka.", Def: "(A0715) Please show me a different book.", By: "examples", Score: 0}, "suerie": Word{Word: "suerie", Def: "▯ pertains to the culture of Sweden – Kingdom of Sweden.", By: "countries", Score: 0}, "sueriegua": Word{Word: "sueriegua", Def: "▯ is the country Sweden – Kingdom of Sweden.", By: "countries", Score: 0}, "suerietoaq": Word{Word: "suerietoaq", Def: "▯ is (one of) the language(s) spoken in Sweden – Kingdom of Sweden.", By: "countries", Score: 0}, "sueta": Word{Word: "sueta", Def: "predicate: ‘sweater’; ▯ is a sweater.", By: "official", Score: 0}, "sugo": Word{Word: "sugo", Def: "predicate: repeat the immediately preceding predicate but with its two first argument slots swapped.", By: "Ilmen", Score: 1}, "sugocu": Word{Word: "sugocu", Def: "predicate: repeat the immediately preceding predicate but with the first and third slots swapped.", By: "Ilmen", Score: 1}, "suhe": Word{Word: "suhe", Def: "▯ is ▯’s psyche.", By: "uakci", Score: 0}, "suhu": Word{Word: "suhu", Def: "predicate: ‘pig’; ▯ is a pig.", By: "official", Score: 0}, "suhuliq": Word{Word: "suhuliq", Def: "▯ is a striped hyena (Hyaena hyaena).", By: "Ilmen", Score: 0}, "suhuliqsiu": Word{Word: "suhuliqsiu", Def: "▯ is a hyena (Hyaenidae taxonomic family).", By: "Ilmen", Score: 0}, "suhunueq": Word{Word: "suhunueq", Def: "▯ is pork / pig meat.", By: "lynn", Score: 1}, "sui": Word{Word: "sui", Def: "predicate: ‘least’; ▯ is least in property ▯ among ▯.", By: "official", Score: 0}, "suijeo": Word{Word: "suijeo", Def: "(fork of #K1xPDYTKp) ▯ jeo’s ▯ at its (lower )limit; ▯ satisfies property ▯ as little as feasible.", By: "seaqtaq", Score: 0}, "suijui": Word{Word: "suijui", Def: "▯ has property ▯ to an extremely small extent.", By: "Ilmen", Score: 0}, "suiline": Word{Word: "suiline", Def: "(fork of #2WswcyVLz) (fork of #oIje3bN2v) ▯ is minimum amount of things that satisfy property ▯", By: "seaqtaq", Score: 0}, "sukifimeaq": Word{Word: "sukifimeaq", Def: "▯ is a skiff type of a boat", By: "Xeizzen", Score: 0}, "sumo": Word{Word: "sumo", Def: "▯ is sumo wrestling.", By: "Hoemai", Score: 0}, "sune": Word{Word: "sune", Def: "▯ weaves ▯.", By: "Ilmen", Score: 0}, "suo": Word{Word: "suo", Def: "sa dó bı cả tûoı dó dóshī na lû bủ ra chỉaı dỏe dóshī dógū da", By: "uakci", Score: 0}, "suodoe": Word{Word: "suodoe", Def: "▯ alternates between being broken and working; is spotty, unreliable about performing function ▯.", By: "lynn", Score: 0}, "suomi": Word{Word: "suomi", Def: "▯ pertains to the culture of Finland – Republic of Finland.", By: "countries", Score: 0}, "suomigua": Word{Word: "suomigua", Def: "▯ is the country Finland – Republic of Finland.", By: "countries", Score: 0}, "suomitoaq": Word{Word: "suomitoaq", Def: "▯ is (one of) the language(s) spoken in Finland – Republic of Finland.", By: "countries", Score: 0}, "suoshaitua": Word{Word: "suoshaitua", Def: "repair", By: "spreadsheet", Score: 0}, "supaq": Word{Word: "supaq", Def: "\u00a0▯ is spam", By: "seaqtaq", Score: 0}, "supaqkai(doa)": Word{Word: "supaqkai(doa)", Def: "▯ spams message ▯ to chat/board/group/channel ▯", By: "seaqtaq", Score: 0}, "suq": Word{Word: "suq", Def: "shảo jí sî dóshī kûq jí ní tỏamē da", By: "uakci", Score: 1}, "suq bi siu teaq seaqkioq jaqbiaq tiao sa gu teaqriai da.": Word{Word: "suq bi siu teaq seaqkioq jaqbiaq tiao sa gu teaqriai da.", Def: "(A0983) As for you: your breasts are similar enough to your testicles to warrant two bras.", By: "examples", Score: 0}, "suq pa to ru pu bonue, ju chiai na, to bei hioqkuq, ju shuainu duahui da!": Word{Word: "suq pa to ru pu bonue, ju chiai na, to bei hioqkuq, ju shuainu duahui da!", Def: "(A0456) You not only took it, which is wrong, you also *bragged* about it, which is plain foolish!", By: "examples", Score: 0}, "suq roi ji pa gu da. suq ru ji pa shi da.": Word{Word: "suq roi ji pa gu da. suq ru ji pa shi da.", Def: "(CON.5) You and I are two. You and I are one (each).", By: "official", Score: 0}, "suq ru ji": Word{Word: "suq ru ji", Def: "argument phrase: \"you and I\"", By: "official", Score: 0}, "suqcho": Word{Word: "suqcho", Def: "▯ is something you like.", By: "lynn", Score: 0}, "suqchosoq": Word{Word: "suqchosoq", Def: "▯ is your favorite among ▯.", By: "lynn", Score: 0}, "suqgi": Word{Word: "suqgi", Def: "▯ is done with you as the beneficient; ▯ is done for you.", By: "uakci", Score: 0}, "suqhao": Word{Word: "suqhao", Def: "▯ are you and the others.", By: "Ilmen", Score: 0}, "suqji": Word{Word: "suqji", Def: "predicate: ‘we’; ▯ is us (we, the speaker and the listener(s)).", By: "official", Score: 0}, "suqjihao": Word{Word: "suqjihao", Def: "▯ is you, I and the others.", By: "Ilmen", Score: 0}, "suqjiho": Word{Word: "suqjiho", Def: "▯ is you, I and the others.", By: "Ilmen", Score: 0}, "suqkeo": Word{Word: "suqkeo", Def: "▯ contrasts with or contradicts what you said.", By: "Ilmen", Score: 2}, "suqneoq": Word{Word: "suqneoq", Def: "▯ is you (polite pronoun).", By: "Ilmen", Score: 0}, "suqpa": Word{Word: "suqpa", Def: "▯ is satisfied by you.", By: "lynn", Score: 1}, "suqpoi": Word{Word: "suqpoi", Def: "▯ is an event in which you are x1.", By: "uakci", Score: 1}, "suqre": Word{Word: "suqre", Def: "▯ is in relation ▯/2 with you.", By: "uakci", Score: 0}, "suqsa": Word{Word: "suqsa", Def: "sudden", By: "spreadsheet", Score: 0}, "suqti": Word{Word: "suqti", Def: "interfer with", By: "spreadsheet", Score: -1}, "suqtoa": Word{Word: "suqtoa", Def: "your point; what you’re trying to say; what you mean.", By: "uakci", Score: 0}, "susu": Word{Word: "susu", Def: "predicate: repeats the last serial predicate.", By: "Ilmen", Score: 0}, "ta": Word{Word: "ta", Def: "quantifier: ‘the’; quantifier: the", By: "oldofficial", Score: 0}, "ta nuaq bi poho niq *pasukashi pa sho jaq geaq da.": Word{Word: "ta nuaq bi poho niq *pasukashi pa sho jaq geaq da.", Def: "(A0994) As for that night, her new dress got very dirty.", By: "examples", Score: 0}, "tabako": Word{Word: "tabako", Def: "▯ is tobacco.", By: "lynn", Score: 0}, "tabu": Word{Word: "tabu", Def: "= [X1] Bủ dóshī lú jẻo hóa dógū.", By: "Ilmen", Score: 0}, "tage": Word{Word: "tage", Def: "▯ = tan(▯).", By: "Ilmen", Score: 0}, "tagi": Word{Word: "tagi", Def: "▯ is ▯ the ▯ edible ▯ portion ▯ of ▯ plant ▯; ▯ is a vegetable [or Lojbanic fruit].", By: "uakci", Score: 0}, "taho": Word{Word: "taho", Def: "▯ is a tangent; ▯ is tangential to ▯.", By: "uakci", Score: 0}, "tai": Word{Word: "tai", Def: "= #leo ru jẻo", By: "uakci", Score: 0}, "taibaq": Word{Word: "taibaq", Def: "▯ pertains to the culture of Taiwan (Republic of China) → Taiwan.", By: "countries", Score: 0}, "taibaqgua": Word{Word: "taibaqgua", Def: "▯ is the country Taiwan (Republic of China) → Taiwan.", By: "countries", Score: 0}, "taibaqtoaq": Word{Word: "taibaqtoaq", Def: "▯ is (one of) the language(s) spoken in Taiwan (Republic of China) → Taiwan.", By: "countries", Score: 0}, "taijai": Word{Word: "taijai", Def: "satisfied", By: "spreadsheet", Score: -1}, "taipo": Word{Word: "taipo", Def: "▯ is a speling mistake; ▯ is mispelled.", By: "uakci", Score: 0}, "taipua": Word{Word: "taipua", Def: "satisfied", By: "spreadsheet", Score: 0}, "taiseq": Word{Word: "taiseq", Def: "▯ is a type-setting of textual material ▯ that follows typesetting principles, guidelines, stylistic choices, or restraints ▯.", By: "uakci", Score: 0}, "tajeo": Word{Word: "tajeo", Def: "▯ satisfies the property that satisfies the property ▯.", By: "Ilmen", Score: -1}, "taji": Word{Word: "taji", Def: "Doing ▯ is a way of doing ▯", By: "fagri", Score: -1}, "tajiki": Word{Word: "tajiki", Def: "▯ pertains to the culture of Tajikistan – Republic of Tajikistan.", By: "countries", Score: 0}, "tajikigua": Word{Word: "tajikigua", Def: "▯ is the country Tajikistan – Republic of Tajikistan.", By: "countries", Score: 0}, "tajikitoaq": Word{Word: "tajikitoaq", Def: "▯ is (one of) the language(s) spoken in Tajikistan – Republic of Tajikistan.", By: "countries", Score: 0}, "taku": Word{Word: "taku", Def: "plan ⓥ", By: "spreadsheet", Score: 0}, "taku ji chuq ra nuo.": Word{Word: "taku ji chuq ra nuo.", Def: "(A0467) I plan on eating or sleeping, or both.", By: "examples", Score: 0}, "tama": Word{Word: "tama", Def: "predicate: ‘tomato’; ▯ is a tomato.", By: "official", Score: 0}, "tamea": Word{Word: "tamea", Def: "▯ is among the things having property ▯.", By: "Ilmen", Score: -1}, "tana": Word{Word: "tana", Def: "▯ is a mesh/net.", By: "Ilmen", Score: 0}, "tano": Word{Word: "tano", Def: "soil", By: "spreadsheet", Score: 0}, "tanoloha": Word{Word: "tanoloha", Def: "▯ is aluminium.", By: "Ilmen", Score: 0}, "tanote": Word{Word: "tanote", Def: "▯ plows ▯.", By: "Ilmen", Score: -1}, "tao": Word{Word: "tao", Def: "predicate: ‘do’; ▯ does ▯.", By: "official", Score: 0}, "tao (meoq)koi": Word{Word: "tao (meoq)koi", Def: "▯ takes a walk", By: "seaqtaq", Score: 0}, "tao jeaq joe": Word{Word: "tao jeaq joe", Def: "(fork of official) predicate: ‘practice’; ▯ practices skill ▯.", By: "seaqtaq", Score: 0}, "tao juq cue\u00a0": Word{Word: "tao juq cue\u00a0", Def: "▯ seizes power; ▯ takes control\u00a0of ▯", By: "seaqtaq", Score: 0}, "tao naoti": Word{Word: "tao naoti", Def: "▯ bathes.", By: "Ilmen", Score: 0}, "tao suq hi rai moq hu naqfu.": Word{Word: "tao suq hi rai moq hu naqfu.", Def: "(VOC.1) What are you doing, son?", By: "official", Score: 1}, "tao suq hi rai rao jiachaq moq.": Word{Word: "tao suq hi rai rao jiachaq moq.", Def: "(A0164) What are you doing tommorow?", By: "examples", Score: 0}, "tao suq hi rai rao tu fejue moq.": Word{Word: "tao suq hi rai rao tu fejue moq.", Def: "(A0148) What do you do every May?", By: "examples", Score: 0}, "taoboqtaq": Word{Word: "taoboqtaq", Def: "▯ refrains from satisfying property ▯", By: "seaqtaq", Score: 0}, "taobuca": Word{Word: "taobuca", Def: "▯ does ▯ by accident, unintentionally.", By: "uakci", Score: 1}, "taoca": Word{Word: "taoca", Def: "▯ (0) motivates ▯ to satisfy property ▯", By: "seaqtaq", Score: 0}, "taochie": Word{Word: "taochie", Def: "learn how to", By: "spreadsheet", Score: -1}, "taocho": Word{Word: "taocho", Def: "▯ likes/enjoys to ▯.", By: "Ilmen", Score: 0}, "taocia": Word{Word: "taocia", Def: "accidental/unintentional", By: "spreadsheet", Score: 0}, "taodai": Word{Word: "taodai", Def: "▯ has an opportunity to satisfy property ▯.", By: "Ilmen", Score: 0}, "taodaigi": Word{Word: "taodaigi", Def: "▯ has an opportunity to do ▯", By: "seaqtaq", Score: 0}, "taodie": Word{Word: "taodie", Def: "predicate: ‘advise’; ▯ advises ▯ to do ▯.", By: "official", Score: 0}, "taodishe": Word{Word: "taodishe", Def: "decide to", By: "spreadsheet", Score: 0}, "taodua": Word{Word: "taodua", Def: "know how to", By: "spreadsheet", Score: 0}, "taodua gusioqfa suq, ma jeo moq.": Word{Word: "taodua gusioqfa suq, ma jeo moq.", Def: "(A0574) You know how to bike, isn't it?", By: "examples", Score: 0}, "taofa": Word{Word: "taofa", Def: "▯ goes to do ▯.", By: "Ilmen", Score: 0}, "taogiq": Word{Word: "taogiq", Def: "▯ satisfies property ▯ automatically / as a reflex / without wanting or trying to / “affectively” (Ithkuil sense).", By: "lynn", Score: 0}, "taohiao": Word{Word: "taohiao", Def: "▯ attacks ▯ by doing ▯.", By: "uakci", Score: 0}, "taojai": Word{Word: "taojai", Def: "▯ is glad that they did ▯", By: "fagri", Score: 0}, "taokakoe": Word{Word: "taokakoe", Def: "▯ decides to do ▯.", By: "Ilmen", Score: 1}, "taokoe": Word{Word: "taokoe", Def: "= #koe #tảo", By: "uakci", Score: 0}, "taokuai": Word{Word: "taokuai", Def: "▯ feels driven to or feel a need to do ▯.", By: "Ilmen", Score: 0}, "taole": Word{Word: "taole", Def: "▯ tends to or is prone to do ▯.", By: "Ilmen", Score: 0}, "taolu": Word{Word: "taolu", Def: "Event ▯ has ▯ as actor.", By: "uakci", Score: 0}, "taomia": Word{Word: "taomia", Def: "busy", By: "spreadsheet", Score: 0}, "taomoe": Word{Word: "taomoe", Def: "feel like doing", By: "spreadsheet", Score: 1}, "taomoi": Word{Word: "taomoi", Def: "predicate: ‘consider.doing’; ▯ considers doing ▯.", By: "official", Score: 0}, "taomuo": Word{Word: "taomuo", Def: "▯ completes task ▯; ▯ finishes satisfying property ▯", By: "seaqtaq", Score: 0}, "taoroa": Word{Word: "taoroa", Def: "▯ does ▯ without further thought, that action being an end in itself and not a step in a progressive effort to achieve another goal.", By: "Ilmen", Score: 0}, "taoroakoi": Word{Word: "taoroakoi", Def: "▯ wanders aimlessly/about", By: "seaqtaq", Score: 0}, "taosapa": Word{Word: "taosapa", Def: "agree to do (tao+[accept])", By: "spreadsheet", Score: -1}, "taose": Word{Word: "taose", Def: "▯ is something done / a done deed.", By: "lynn", Score: 0}, "taoseu": Word{Word: "taoseu", Def: "▯ is the number tau τ = 6.283….", By: "uakci", Score: 0}, "taoshao": Word{Word: "taoshao", Def: "intend", By: "spreadsheet", Score: -1}, "taoshao bu daqfai fa ji da.": Word{Word: "taoshao bu daqfai fa ji da.", Def: "(A0399) I intend not to go often.", By: "examples", Score: 0}, "taoshao daqfai bu fa ji da.": Word{Word: "taoshao daqfai bu fa ji da.", Def: "(A0400) I intend to often not go.", By: "examples", Score: 0}, "taoshao fa ji to ro rao nichaq to rao jiachaq.": Word{Word: "taoshao fa ji to ro rao nichaq to rao jiachaq.", Def: "(CON.2) I'll go either today or tomorrow.", By: "official", Score: 0}, "taoshao ho li ja do bi kaqgai pao tai do": Word{Word: "taoshao ho li ja do bi kaqgai pao tai do", Def: "(STP.4) They intend to make [their] parents see them succeed.", By: "official", Score: 0}, "taoshao jea suq hi kue moq": Word{Word: "taoshao jea suq hi kue moq", Def: "(INT.3) Which book do you want to buy?", By: "official", Score: 0}, "taosio": Word{Word: "taosio", Def: "predicate: ‘plan’; ▯ is an idea / a plan.", By: "official", Score: 0}, "taotari": Word{Word: "taotari", Def: "▯ refuses to satisfy property ▯.", By: "Ilmen", Score: 0}, "taotoai": Word{Word: "taotoai", Def: "▯ is a step in doing ▯", By: "seaqtaq", Score: 1}, "taotu": Word{Word: "taotu", Def: "▯, to each member of ▯ one after the other, does ▯ (2)\u00a0", By: "fagri", Score: 1}, "taotua": Word{Word: "taotua", Def: "▯ has ▯ do ▯; ▯ lässt (dem) ▯ (den) ▯ tun.", By: "uakci", Score: 0}, "taotue": Word{Word: "taotue", Def: "activity", By: "spreadsheet", Score: 0}, "tapa": Word{Word: "tapa", Def: "step (motion)", By: "spreadsheet", Score: -1}, "tapaq": Word{Word: "tapaq", Def: "▯ is part of the thing(s) satisfying the property ▯.", By: "Ilmen", Score: -1}, "tapira": Word{Word: "tapira", Def: "▯ is a member of genus Tapirus (the tapirs).", By: "Hoemai", Score: 0}, "taq": Word{Word: "taq", Def: "gủjēo dóshī dóshī dógū da", By: "uakci", Score: 1}, "taq dua jeo": Word{Word: "taq dua jeo", Def: "▯ knows they satisfy property ▯.", By: "uakci", Score: 0}, "taq mai ba.": Word{Word: "taq mai ba.", Def: "(A0276) Love yourself.", By: "examples", Score: 0}, "taq ruaq jeo": Word{Word: "taq ruaq jeo", Def: "▯ asserts that they satisfy property ▯.", By: "uakci", Score: 0}, "taq shao": Word{Word: "taq shao", Def: "▯ wants to satisfy the property ▯.", By: "Ilmen", Score: -1}, "taq shao jeo": Word{Word: "taq shao jeo", Def: "▯ wants to satisfy property ▯.", By: "uakci", Score: 0}, "taq tao shao": Word{Word: "taq tao shao", Def: "▯ wants to do ▯. [-1 for being an idiom.]", By: "uakci", Score: -2}, "taq teq": Word{Word: "taq teq", Def: "▯ pays oneself to\u00a0▯ for satisfying property\u00a0▯", By: "niucuq", Score: 0}, "taq tua muaq": Word{Word: "taq tua muaq", Def: "predicate: ‘commit.suicide’; ▯ commits suicide / kills themselves.", By: "official", Score: 0}, "taqbu": Word{Word: "taqbu", Def: "▯ is taboo.", By: "Ilmen", Score: 0}, "taqchao": Word{Word: "taqchao", Def: "predicate: ‘car’; ▯ is a car; ▯ is an automobile.", By: "official", Score: 0}, "taqda": Word{Word: "taqda", Def: "standard", By: "spreadsheet", Score: 0}, "taqdeoq": Word{Word: "taqdeoq", Def: "▯ talks to themself.", By: "lynn", Score: -1}, "taqjania": Word{Word: "taqjania", Def: "▯ pertains to the culture of Tanzania – United Republic of Tanzania.", By: "countries", Score: 0}, "taqjaniagua": Word{Word: "taqjaniagua", Def: "▯ is the country Tanzania – United Republic of Tanzania.", By: "countries", Score: 0}, "taqjaniatoaq": Word{Word: "taqjaniatoaq", Def: "▯ is (one of) the language(s) spoken in Tanzania – United Republic of Tanzania.", By: "countries", Score: 0}, "taqkuq": Word{Word: "taqkuq", Def: "▯ says ▯ to themself.", By: "lynn", Score: 0}, "taqpo": Word{Word: "taqpo", Def: "▯ is ▯'s own ▯", By: "seaqtaq", Score: 0}, "taqru": Word{Word: "taqru", Def: "tanru", By: "spreadsheet", Score: -1}, "taqsi": Word{Word: "taqsi", Def: "basin, tube, sink, tansi", By: "spreadsheet", Score: 0}, "taqtoaq": Word{Word: "taqtoaq", Def: "▯ is an idiolect\u00a0", By: "seaqtaq", Score: 0}, "tari": Word{Word: "tari", Def: "▯ refuses that ▯ be the case.", By: "Ilmen", Score: 0}, "tashe": Word{Word: "tashe", Def: "sincere", By: "spreadsheet", Score: -1}, "tasu": Word{Word: "tasu", Def: "soup", By: "spreadsheet", Score: -1}, "te": Word{Word: "te", Def: "lủı gủjēo sa ráı dóshī dógū da\n", By: "uakci", Score: 0}, "te dua muaq ho ba.": Word{Word: "te dua muaq ho ba.", Def: "(A0893) Let it be known that he is dead.", By: "examples", Score: 0}, "te gai ni req da.": Word{Word: "te gai ni req da.", Def: "(A0888) This person was sensed.", By: "examples", Score: 0}, "te hiao ni kune da.": Word{Word: "te hiao ni kune da.", Def: "(A0886) This dog is injured.", By: "examples", Score: 0}, "te kaqgai ni nueq da.": Word{Word: "te kaqgai ni nueq da.", Def: "(A0887) This meat is seen.", By: "examples", Score: 0}, "te koe de da.": Word{Word: "te koe de da.", Def: "(A0889) The beautiful thing was chosen.", By: "examples", Score: 0}, "te koe de sa pui da.": Word{Word: "te koe de sa pui da.", Def: "(A0890) The beautiful thing was chosen out of many things.", By: "examples", Score: 0}, "te kuq mo \"pai ji suq ba.\" teo da.": Word{Word: "te kuq mo \"pai ji suq ba.\" teo da.", Def: "(A0891) \"You should be my friend,\" is said.", By: "examples", Score: 0}, "te te cua hoq da.": Word{Word: "te te cua hoq da.", Def: "‘It has been in the state of having been responded with to somebody by somebody.’", By: "uakci", Score: 0}, "tea": Word{Word: "tea", Def: "mỏı dóshī sa lú cả go sa pó hóa kûaı bủ shỏ mủaq dóshī da", By: "uakci", Score: 0}, "tea deo kui nuaqchu da.": Word{Word: "tea deo kui nuaqchu da.", Def: "(A0304) The child is scared because it's midnight.", By: "examples", Score: 0}, "teaca": Word{Word: "teaca", Def: "▯ is scary; ▯ is spoooooky.", By: "uakci", Score: 0}, "teacai": Word{Word: "teacai", Def: "▯ is brave (emotional state)", By: "fagri", Score: 1}, "teao": Word{Word: "teao", Def: "▯ is not the same thing as ▯;\u00a0mẻahēo ▯ go ▯", By: "fagri", Score: 0}, "teaq": Word{Word: "teaq", Def: "predicate: ‘breast’; ▯ is a breast.", By: "official", Score: 0}, "teaqjieq": Word{Word: "teaqjieq", Def: "predicate: ‘nipple’; ▯ is a nipple.", By: "official", Score: 0}, "teaqniai": Word{Word: "teaqniai", Def: "predicate: ‘mammal’; ▯ is a mammal.", By: "official", Score: 0}, "teaqpie": Word{Word: "teaqpie", Def: "▯ sucks ▯ from ▯’s breasts.", By: "uakci", Score: 0}, "teaqriai": Word{Word: "teaqriai", Def: "predicate: ‘bra’; ▯ is a bra.", By: "official", Score: 0}, "teasaora": Word{Word: "teasaora", Def: "▯ is a member of the superorder Dinosauria (the true dinosaurs).", By: "Hoemai", Score: 0}, "teasoicai": Word{Word: "teasoicai", Def: "courageous", By: "spreadsheet", Score: 0}, "teba": Word{Word: "teba", Def: "frustrated", By: "spreadsheet", Score: -1}, "techuonioq": Word{Word: "techuonioq", Def: "▯ is a smilodon, or saber-toothed tiger.", By: "Ilmen", Score: 0}, "tefa": Word{Word: "tefa", Def: "▯ are tangled/intertwined.", By: "Ilmen", Score: 0}, "tei": Word{Word: "tei", Def: "structure", By: "spreadsheet", Score: 0}, "teica": Word{Word: "teica", Def: "▯ (plural) are arranged in shape ▯", By: "fagri", Score: 0}, "teicia": Word{Word: "teicia", Def: "▯ is amorphous", By: "seaqtaq", Score: 0}, "teidīu": Word{Word: "teidīu", Def: "▯ is geometry.", By: "lynn", Score: 0}, "teidoafui": Word{Word: "teidoafui", Def: "▯ is malleable.", By: "Ilmen", Score: 0}, "teifui": Word{Word: "teifui", Def: "▯ is soft; it is easy to change the shape of ▯.", By: "uakci", Score: 0}, "teige": Word{Word: "teige", Def: "▯ is a member of the genus Strix (the earless owls).", By: "Hoemai", Score: 0}, "teilai": Word{Word: "teilai", Def: "▯ is a punctuation mark signifying ▯.", By: "uakci", Score: 0}, "teinoa": Word{Word: "teinoa", Def: "▯ is hard; it is hard to change the shape of ▯.", By: "uakci", Score: 0}, "teirea": Word{Word: "teirea", Def: "▯ is a surface.", By: "Ilmen", Score: 0}, "teiriuhe": Word{Word: "teiriuhe", Def: "▯ is elastic/springy.", By: "Ilmen", Score: 0}, "teitoai": Word{Word: "teitoai", Def: "▯ is a morpheme", By: "seaqtaq", Score: 0}, "tenisi": Word{Word: "tenisi", Def: "▯ is tennis (game).", By: "Hoemai", Score: 0}, "teo": Word{Word: "teo", Def: "end-quote: ‘»’; terminate full-text quote.", By: "official", Score: 0}, "teoq": Word{Word: "teoq", Def: "kủqsē dóshī, na ru tu dó bảq pỏq bı kủı kûq dó dóshī na bû ra kủaı rảqdủa dó dóshī da", By: "uakci", Score: 0}, "teoq fai mu kuq(tfmk)": Word{Word: "teoq fai mu kuq(tfmk)", Def: "▯ is a frequently asked question(FAQ)", By: "seaqtaq", Score: 0}, "teoqcua": Word{Word: "teoqcua", Def: "▯ answers question ▯ with answer ▯", By: "fagri", Score: 0}, "teoqcuase": Word{Word: "teoqcuase", Def: "answer", By: "spreadsheet", Score: 0}, "teoqkuq": Word{Word: "teoqkuq", Def: "predicate: ‘ask’; ▯ asks question ▯ to ▯.", By: "official", Score: 0}, "teoqlai": Word{Word: "teoqlai", Def: "question mark, interrogation point (?)", By: "uakci", Score: 0}, "teoqmoi": Word{Word: "teoqmoi", Def: "predicate: ‘doubt’; ▯ doubts that ▯ is the case.", By: "official", Score: 0}, "teoqruaq": Word{Word: "teoqruaq", Def: "▯ asks question ▯ (indirect question, not text) to ▯", By: "fagri", Score: -2}, "teoqtiao": Word{Word: "teoqtiao", Def: "answer", By: "spreadsheet", Score: -1}, "teori": Word{Word: "teori", Def: "theory", By: "spreadsheet", Score: 0}, "teq": Word{Word: "teq", Def: "to roı dỏa dóshī sa pó dógū nủaı dósāq to jẻo dósāq dójō da", By: "uakci", Score: 0}, "teqdoa": Word{Word: "teqdoa", Def: "▯ donates money ▯ to ▯ for ▯.", By: "uakci", Score: -1}, "teqguai": Word{Word: "teqguai", Def: "predicate: ‘pay work’; ▯ does payed work ▯; ▯ does ▯ as a job.", By: "official", Score: -1}, "teqguai ji kiai go geo da.": Word{Word: "teqguai ji kiai go geo da.", Def: "(A0495) I care for the old (for a living).", By: "examples", Score: 0}, "teqguai suq hi rai moq.": Word{Word: "teqguai suq hi rai moq.", Def: "(A0494) What is your job?", By: "examples", Score: 0}, "teqguaitue": Word{Word: "teqguaitue", Def: "job", By: "spreadsheet", Score: 0}, "teqjuq": Word{Word: "teqjuq", Def: "▯ is payed ▯ by ▯ for satisfying property ▯", By: "seaqtaq", Score: 0}, "teqne": Word{Word: "teqne", Def: "▯ is an amount paid / a price.", By: "lynn", Score: 0}, "teqnologi": Word{Word: "teqnologi", Def: "technology", By: "spreadsheet", Score: 0}, "teqriai": Word{Word: "teqriai", Def: "▯sponsors ▯", By: "seaqtaq", Score: 0}, "teqse": Word{Word: "teqse", Def: "▯ is a payment", By: "seaqtaq", Score: 0}, "tera": Word{Word: "tera", Def: "predicate: ‘tera’; ▯ are 10^12 (1,000,000,000,000) in number; ▯ are a trillion.", By: "official", Score: 0}, "tese": Word{Word: "tese", Def: "▯ is a slice / portion / part cut from ▯.", By: "lynn", Score: -2}, "teseboe": Word{Word: "teseboe", Def: "slice", By: "spreadsheet", Score: -1}, "teshi": Word{Word: "teshi", Def: "steci", By: "spreadsheet", Score: 0}, "tesie": Word{Word: "tesie", Def: "▯ is the sequence resulting from applying the cons function of the arguments ▯ and ▯.", By: "Ilmen", Score: -1}, "tesieme": Word{Word: "tesieme", Def: "▯ is the sequence resulting from applying the cons function of the arguments ▯ and ▯.", By: "Ilmen", Score: -1}, "test": Word{Word: "test", Def: "▯ is pointless spam.", By: "test", Score: 0}, "test word": Word{Word: "test word", Def: "predicate: ▯ tests the functionality of online collaborative dictionary ▯.", By: "test", Score: 0}, "tetabo": Word{Word: "tetabo", Def: "▯ is a turtle/tortoise/terrapin (Testudinata taxonomic subclass).", By: "Ilmen", Score: 0}, "teu": Word{Word: "teu", Def: "▯ = ▯ ^ ▯.", By: "Ilmen", Score: 0}, "teu cu": Word{Word: "teu cu", Def: "▯ = log(▯, ▯).", By: "Ilmen", Score: 0}, "teu go": Word{Word: "teu go", Def: "▯ = nrt(▯, ▯).", By: "Ilmen", Score: 0}, "throw": Word{Word: "throw", Def: "shoot ⓥ (shooting device as the subject)", By: "spreadsheet", Score: -2}, "ti": Word{Word: "ti", Def: "= [XX] Pảq sa góamōa dóshī ru dógū.", By: "Ilmen", Score: 0}, "ti deo hi rai moq.": Word{Word: "ti deo hi rai moq.", Def: "(A0010) Where are the children?", By: "examples", Score: 0}, "ti ho naokua da.": Word{Word: "ti ho naokua da.", Def: "(A0530) He is in the bathroom.", By: "examples", Score: 0}, "ti ho ni da.": Word{Word: "ti ho ni da.", Def: "(A0006) They are here.", By: "examples", Score: 0}, "ti ho nuofua kui bia ho da.": Word{Word: "ti ho nuofua kui bia ho da.", Def: "(A0507) He's in bed because he's sick.", By: "examples", Score: 0}, "ti nuo ji na soaq.": Word{Word: "ti nuo ji na soaq.", Def: "(PPH.2) My sleeping is in the garden.", By: "official", Score: 0}, "ti poho fu chiejio da.": Word{Word: "ti poho fu chiejio da.", Def: "(A0506) His son is at school.", By: "examples", Score: 0}, "ti poji gua ru rao tu diaijue bi luaq puqji sa giopoaq da.": Word{Word: "ti poji gua ru rao tu diaijue bi luaq puqji sa giopoaq da.", Def: "(A0151) In my country, every July we play with fireworks.", By: "examples", Score: 0}, "ti poji liqfu husonaguaq da.": Word{Word: "ti poji liqfu husonaguaq da.", Def: "(A0725) My daughter is in the United States.", By: "examples", Score: 0}, "ti posuq pai hi rai moq.": Word{Word: "ti posuq pai hi rai moq.", Def: "(A0529) Where are your parents?", By: "examples", Score: 0}, "ti sa baoreo kato soaq da.": Word{Word: "ti sa baoreo kato soaq da.", Def: "(A0739) There is a white cat in the garden.", By: "examples", Score: 0}, "ti sa shi de coa gao nao da.": Word{Word: "ti sa shi de coa gao nao da.", Def: "(A0023) There is a beautiful bridge above the water. ", By: "examples", Score: 0}, "tia": Word{Word: "tia", Def: "predicate: ‘behind’; ▯ is behind ▯.", By: "official", Score: 0}, "tia go jio sa shi de meirie da.": Word{Word: "tia go jio sa shi de meirie da.", Def: "(A0296) Behind the building there is a beautiful valley.", By: "examples", Score: 0}, "tiafeo": Word{Word: "tiafeo", Def: "▯ is the south direction", By: "seaqtaq", Score: 0}, "tiai": Word{Word: "tiai", Def: "predicate: ‘box’; ▯ is a box.", By: "official", Score: 0}, "tiakoi": Word{Word: "tiakoi", Def: "▯ ambulates backwards.", By: "Ilmen", Score: 0}, "tiali": Word{Word: "tiali", Def: "belly", By: "spreadsheet", Score: 0}, "tiao": Word{Word: "tiao", Def: "gỉjīe dógū jêo dóshī dósāq da", By: "uakci", Score: 0}, "tiaocoe": Word{Word: "tiaocoe", Def: "▯ and ▯ are fitted together.", By: "Ilmen", Score: 0}, "tiaodai": Word{Word: "tiaodai", Def: "candidate", By: "spreadsheet", Score: -1}, "tiaofoa": Word{Word: "tiaofoa", Def: "▯ is (feels) satisfied (satisfaction).", By: "uakci", Score: 0}, "tiaofoatua": Word{Word: "tiaofoatua", Def: "▯ appeases ▯.", By: "uakci", Score: 0}, "tiaogi": Word{Word: "tiaogi", Def: "▯ is suitable; ▯ fits.", By: "uakci", Score: 0}, "tiaojeo": Word{Word: "tiaojeo", Def: "▯ is true; ▯ satisfies property ▯; ▯ and ▯ satisfy relation ▯; ▯, ▯, and ▯ satisfy 3-relation ▯; ... etc ad infinitum", By: "fagri", Score: 0}, "tiaojoai": Word{Word: "tiaojoai", Def: "▯ searches/looks for something suitable for him/her/them to be in relation ▯ with it among ▯.", By: "Ilmen", Score: 0}, "tiaokuq": Word{Word: "tiaokuq", Def: "▯ says exactly what needs to be said in the current situation; ▯ says the mot juste.", By: "uakci", Score: 0}, "tiaokuqse": Word{Word: "tiaokuqse", Def: "▯ is the mot juste (‘exactly the right words in the right time and situation’).", By: "uakci", Score: 0}, "tiaotao": Word{Word: "tiaotao", Def: "▯ obeys to do ▯ as ▯ asks/wants to; ▯ does ▯ as ▯ pleases.", By: "uakci", Score: 0}, "tiaq": Word{Word: "tiaq", Def: "predicate: ‘brown’; ▯ is the colour brown.", By: "official", Score: 0}, "tiaqbaogui": Word{Word: "tiaqbaogui", Def: "▯ is brown rice.", By: "uakci", Score: 0}, "tiaqbuaopuo": Word{Word: "tiaqbuaopuo", Def: "▯ is brown sugar", By: "fagri", Score: -2}, "tiaqduao": Word{Word: "tiaqduao", Def: "sugar", By: "spreadsheet", Score: 0}, "tiaqreo": Word{Word: "tiaqreo", Def: "predicate: ‘brown’; ▯ is of brown colour.", By: "official", Score: 0}, "tibi": Word{Word: "tibi", Def: "predicate: ‘TV’; ▯ pertains to television.", By: "official", Score: 0}, "tibia": Word{Word: "tibia", Def: "▯ is a tibia/shinbone (the inner and usually the larger of the two bones of the leg or hind limb below the knee).", By: "Hoemai", Score: 0}, "tibumeo": Word{Word: "tibumeo", Def: "▯ misses ▯; ▯ is sad that ▯ is not there.", By: "Ilmen", Score: 1}, "tichiu": Word{Word: "tichiu", Def: "▯ are the Cartesian coordinates of ▯ in the coordinate system ▯.", By: "Ilmen", Score: 0}, "ticuao": Word{Word: "ticuao", Def: "ragve", By: "spreadsheet", Score: -1}, "tiduasho": Word{Word: "tiduasho", Def: "predicate: ‘find’; ▯ finds ▯; ▯ discovers that ▯ is at ▯.", By: "official", Score: 0}, "tiduasho puqho kuo kato jeoq nie poetoq da.": Word{Word: "tiduasho puqho kuo kato jeoq nie poetoq da.", Def: "(A0959) They find out that black cat is at hollow inside of wall.", By: "examples", Score: 0}, "tiduoshai": Word{Word: "tiduoshai", Def: "get lost", By: "spreadsheet", Score: 0}, "tie": Word{Word: "tie", Def: "predicate: ‘cover’; ▯ covers ▯.", By: "official", Score: 0}, "tiechuo": Word{Word: "tiechuo", Def: "predicate: ‘lid’; ▯ is a lid/cover.", By: "official", Score: 0}, "tiecia": Word{Word: "tiecia", Def: "▯ is naked/bare", By: "seaqtaq", Score: 0}, "tiefuq": Word{Word: "tiefuq", Def: "▯ is a coat/overcoat/cloak.", By: "lynn", Score: 0}, "tiehua": Word{Word: "tiehua", Def: "skin", By: "spreadsheet", Score: 0}, "tiehuashoai": Word{Word: "tiehuashoai", Def: "▯ is a colugo (Dermoptera taxonomic order).", By: "Ilmen", Score: 0}, "tieq": Word{Word: "tieq", Def: "predicate: ‘path’; ▯ is a way/path.", By: "official", Score: 0}, "tieqgaitua": Word{Word: "tieqgaitua", Def: "lead (gidva)", By: "spreadsheet", Score: 0}, "tieqguao": Word{Word: "tieqguao", Def: "▯ is a fork in the road.", By: "lynn", Score: 0}, "tieqkoai": Word{Word: "tieqkoai", Def: "▯ is a network of roads/paths.", By: "Hoemai", Score: 0}, "tiga": Word{Word: "tiga", Def: "tiger", By: "spreadsheet", Score: 0}, "tigaq": Word{Word: "tigaq", Def: "▯ stays with ▯ at ▯.", By: "uakci", Score: 0}, "tihi": Word{Word: "tihi", Def: "frolicsome laughter", By: "uakci", Score: 1}, "tihihihi": Word{Word: "tihihihi", Def: "extremely frolicksom lafter", By: "uakci", Score: 0}, "tijai": Word{Word: "tijai", Def: "▯ is happy that ▯ is present.", By: "Ilmen", Score: 0}, "tijai ji suq da.": Word{Word: "tijai ji suq da.", Def: "(A0606) I'm happy you are here.", By: "examples", Score: 0}, "tijao": Word{Word: "tijao", Def: "predicate: ‘far’; ▯ is far away from ▯.", By: "official", Score: 0}, "tijeaq": Word{Word: "tijeaq", Def: "spread", By: "spreadsheet", Score: 0}, "tijeq": Word{Word: "tijeq", Def: "(fork of #XfrtqNuqD) ▯ (roı) are all at the same place", By: "seaqtaq", Score: 0}, "tijui": Word{Word: "tijui", Def: "predicate: ‘near’; ▯ is near / in the vicinity of ▯.", By: "official", Score: 0}, "tijui hoi riaq chiejio da.": Word{Word: "tijui hoi riaq chiejio da.", Def: "(A0084) It's close to the school.", By: "examples", Score: 0}, "tike": Word{Word: "tike", Def: "ticket", By: "spreadsheet", Score: 0}, "tilai": Word{Word: "tilai", Def: "▯ is an at sign (@).", By: "uakci", Score: 0}, "tilao": Word{Word: "tilao", Def: "▯ waits for ▯ to be there; ▯ waits for ▯ to be at place ▯.", By: "Hoemai", Score: 0}, "tilia": Word{Word: "tilia", Def: "▯ is a member of genus Tilia (including the lindens, the basswoods and the lime tree).", By: "Hoemai", Score: 0}, "timia": Word{Word: "timia", Def: "▯ holds many ▯; ▯ is full of ▯; ▯ is where it many ▯ gives.", By: "uakci", Score: 0}, "timiq": Word{Word: "timiq", Def: "▯ is omnipresent; ▯ is everywhere\u00a0", By: "seaqtaq", Score: 0}, "tinaq": Word{Word: "tinaq", Def: "▯ pertains to klingon culture, language, or its speakers", By: "seaqtaq", Score: 0}, "tiniqdua": Word{Word: "tiniqdua", Def: "predicate: ‘find’; ▯ finds ▯; ▯ discovers that ▯ is at ▯.", By: "official", Score: 0}, "tino": Word{Word: "tino", Def: "light shadow", By: "spreadsheet", Score: 0}, "tio": Word{Word: "tio", Def: "statement prefix: ‘how.much’; statement prefix: how much; to what extent", By: "official", Score: 0}, "tio geo ni jio moq.": Word{Word: "tio geo ni jio moq.", Def: "(A0170) How old is this building?", By: "examples", Score: 0}, "tio geo suq moq.": Word{Word: "tio geo suq moq.", Def: "(A0515) How old are you?", By: "examples", Score: 0}, "tio loq nao moq": Word{Word: "tio loq nao moq", Def: "(INT.5) How hot is the water?", By: "official", Score: 0}, "tio sao maq moq.": Word{Word: "tio sao maq moq.", Def: "(A0577) How big is it?", By: "examples", Score: 0}, "tiomieq": Word{Word: "tiomieq", Def: "count ⓥ", By: "spreadsheet", Score: 0}, "tiopui": Word{Word: "tiopui", Def: "predicate: ‘how.many’; ▯ are how many.", By: "official", Score: 0}, "tioq": Word{Word: "tioq", Def: "predicate: ‘lock’; ▯ is a lock.", By: "official", Score: 0}, "tioqheq": Word{Word: "tioqheq", Def: "▯ is a vault/safe containing ▯", By: "seaqtaq", Score: 0}, "tioqpoa": Word{Word: "tioqpoa", Def: "predicate: ‘locked’; ▯ is locked.", By: "official", Score: 0}, "tioqtiai": Word{Word: "tioqtiai", Def: "(fork of #QN2kSXg72) ▯ is a vault/safe\u00a0", By: "seaqtaq", Score: 0}, "tioqtiao": Word{Word: "tioqtiao", Def: "key", By: "spreadsheet", Score: 0}, "tiotoa": Word{Word: "tiotoa", Def: "quantifier", By: "spreadsheet", Score: 0}, "tipoeme": Word{Word: "tipoeme", Def: "▯ is spatially discontinuous.", By: "Ilmen", Score: 0}, "tiq": Word{Word: "tiq", Def: "predicate: ‘tile’; ▯ is a tile.", By: "official", Score: 0}, "tiqbo": Word{Word: "tiqbo", Def: "▯ is a Squamata (scaled reptile).", By: "Ilmen", Score: 0}, "tiqsa": Word{Word: "tiqsa", Def: "▯ is scaly.", By: "Ilmen", Score: 0}, "tiqsaoro": Word{Word: "tiqsaoro", Def: "▯ is a scaled reptile (Lepidosauria).", By: "Ilmen", Score: 0}, "tiqshoai": Word{Word: "tiqshoai", Def: "predicate: ‘butterfly’; ▯ is a butterfly.", By: "official", Score: 0}, "tiqti": Word{Word: "tiqti", Def: "▯ stings/pokes ▯", By: "fagri", Score: 0}, "tirea": Word{Word: "tirea", Def: "surface", By: "spreadsheet", Score: 0}, "tirige": Word{Word: "tirige", Def: "▯ is an owl of the Strix genus.", By: "Ilmen", Score: 0}, "tirigetei": Word{Word: "tirigetei", Def: "▯ is an owl.", By: "Ilmen", Score: 0}, "tiriu": Word{Word: "tiriu", Def: "predicate: ‘return’; ▯ returns to location ▯.", By: "official", Score: 0}, "tise": Word{Word: "tise", Def: "▯ is a location", By: "seaqtaq", Score: -1}, "tisha": Word{Word: "tisha", Def: "reach", By: "spreadsheet", Score: 0}, "tishagiq": Word{Word: "tishagiq", Def: "▯ leaves place/position ▯.", By: "lynn", Score: 0}, "tishai": Word{Word: "tishai", Def: "disappear", By: "spreadsheet", Score: 0}, "tisho": Word{Word: "tisho", Def: "appear", By: "spreadsheet", Score: 0}, "tishue": Word{Word: "tishue", Def: "predicate: ‘stay’; ▯ stays at ▯.", By: "official", Score: 0}, "tishue ho fai po ji ga buajio.": Word{Word: "tishue ho fai po ji ga buajio.", Def: "(ADV.1) They often stay at my house.", By: "official", Score: 0}, "tishui": Word{Word: "tishui", Def: "▯ is hidden.", By: "Ilmen", Score: 0}, "tisupu": Word{Word: "tisupu", Def: "The volume of ▯ measured in teaspoons is ▯", By: "fagri", Score: 0}, "titiaogiq": Word{Word: "titiaogiq", Def: "▯ is where it doesn’t belong.", By: "uakci", Score: 0}, "titoai": Word{Word: "titoai", Def: "Planck length (unit)", By: "Xylochoron", Score: 0}, "tiu": Word{Word: "tiu", Def: "sentence prefix: then, in that case, so", By: "Hoemai", Score: 0}, "tỉaqreo pojī kỉaq da.": Word{Word: "tỉaqreo pojī kỉaq da.", Def: "(A0406) I have brown hair.", By: "oldexamples", Score: 0}, "tỉshue ri fa moq.": Word{Word: "tỉshue ri fa moq.", Def: "(A0347) Staying or leaving?", By: "examples", Score: 0}, "tlu": Word{Word: "tlu", Def: "▯ is the set of all things that satisfy [complement] at hóa.", By: "uakci", Score: 0}, "to": Word{Word: "to", Def: "separator: ‘CONJ’; helper particle in forethought conjunctions: to + conj ▯ to ▯", By: "official", Score: 0}, "to ru bei siaq to bu lio da.": Word{Word: "to ru bei siaq to bu lio da.", Def: "(A0480) ", By: "oldexamples", Score: 0}, "toa": Word{Word: "toa", Def: "mỉu sa ráı dóshī, na ru dẻq kủq ra kảı báq pỏq nỉtōaqchōq dóshī da", By: "uakci", Score: 0}, "toa meaheo bi": Word{Word: "toa meaheo bi", Def: "in other words", By: "spreadsheet", Score: 0}, "toabuaq": Word{Word: "toabuaq", Def: "▯ is at loss for words.", By: "Ilmen", Score: 0}, "toagiu": Word{Word: "toagiu", Def: "predicate: ‘line’; ▯ is a line (of text).", By: "official", Score: 0}, "toagui": Word{Word: "toagui", Def: "serial (e.g., dủq gủai)", By: "uakci", Score: 1}, "toaheo": Word{Word: "toaheo", Def: "▯ is a rewording of sentence/text ▯.", By: "Ilmen", Score: 0}, "toahuo": Word{Word: "toahuo", Def: "tone (ling.)", By: "spreadsheet", Score: 0}, "toai": Word{Word: "toai", Def: "tu lú pảq hóa dógū pa, bủ hủaq sảo dóshī da", By: "uakci", Score: 0}, "toaidaq": Word{Word: "toaidaq", Def: "▯ is a second.", By: "uakci", Score: 0}, "toaijeq": Word{Word: "toaijeq", Def: "▯ is the average value of ▯ in ▯; ▯ is ▯ per capita; ▯ is the approximately how much ▯ (property) there is for each of ▯ (proprietors).", By: "uakci", Score: 0}, "toaijuq": Word{Word: "toaijuq", Def: "▯ helps themselves with helping ▯.", By: "uakci", Score: 0}, "toaikoi": Word{Word: "toaikoi", Def: "(fork of #5wOwoAshY) predicate: steps; ▯ makes a step from ▯ to ▯.", By: "Xylochoron", Score: 0}, "toaishea": Word{Word: "toaishea", Def: "▯ is a vacuum; ▯ is a void.", By: "uakci", Score: 0}, "toaitue": Word{Word: "toaitue", Def: "▯ is an activity; ▯ is an event that can be brought about by accomplishing atomic sub-activities ▯ (not necessarily ordered or heterogenous).", By: "uakci", Score: 0}, "toakao": Word{Word: "toakao", Def: "dictionary (record, not necessarily a book)", By: "spreadsheet", Score: 0}, "toakuai": Word{Word: "toakuai", Def: "▯ longs for a word that satisfies property ▯.", By: "lynn", Score: 1}, "toakue": Word{Word: "toakue", Def: "▯ is a dictionary", By: "fagri", Score: 0}, "toaluaq": Word{Word: "toaluaq", Def: "▯ makes a play on words; ▯ makes a pun.", By: "Hoemai", Score: 0}, "toaluaqse": Word{Word: "toaluaqse", Def: "▯ is a pun / a play on words.", By: "Hoemai", Score: 1}, "toamuikao": Word{Word: "toamuikao", Def: "dictionary (record, not necessarily a book)", By: "spreadsheet", Score: 0}, "toamuikue": Word{Word: "toamuikue", Def: "dictionary (book)", By: "spreadsheet", Score: 0}, "toapaq": Word{Word: "toapaq", Def: "affix / rafsi", By: "spreadsheet", Score: 0}, "toaq": Word{Word: "toaq", Def: "predicate: ‘language’; ▯ is a language.", By: "official", Score: 0}, "toaqbeotua": Word{Word: "toaqbeotua", Def: "translate, fanva", By: "spreadsheet", Score: 0}, "toaqcha": Word{Word: "toaqcha", Def: "▯ is the Toaq (Dzu) Way; ▯ is how it’s done in Toaq.", By: "uakci", Score: 0}, "toaqche": Word{Word: "toaqche", Def: "▯ is a linguist", By: "seaqtaq", Score: 1}, "toaqdeq": Word{Word: "toaqdeq", Def: "▯ can speak language ▯.", By: "Ilmen", Score: 0}, "toaqdīu": Word{Word: "toaqdīu", Def: "▯ is linguistics.", By: "lynn", Score: 0}, "toaqdue": Word{Word: "toaqdue", Def: "gendra", By: "spreadsheet", Score: -1}, "toaqgua": Word{Word: "toaqgua", Def: "▯ is Toaqistan.", By: "uakci", Score: 0}, "toaqheomuijeq": Word{Word: "toaqheomuijeq", Def: "▯ means the same as ▯ in the different language ▯ (when the former is read in language ▯).", By: "Ilmen", Score: 0}, "toaqheomuijeqmieq": Word{Word: "toaqheomuijeqmieq", Def: "▯ translates ▯ to language ▯ (from language ▯)", By: "Ilmen", Score: 0}, "toaqjuao": Word{Word: "toaqjuao", Def: "grammar", By: "spreadsheet", Score: 0}, "toaqjuaochiai": Word{Word: "toaqjuaochiai", Def: "grammatically incorrect", By: "spreadsheet", Score: 0}, "toaqjuaodue": Word{Word: "toaqjuaodue", Def: "▯ is grammatically correct.", By: "lynn", Score: 0}, "toaqluo": Word{Word: "toaqluo", Def: "▯ is a language family.", By: "Ilmen", Score: 0}, "toaqno": Word{Word: "toaqno", Def: "▯ is in language ▯.", By: "lynn", Score: 0}, "toaqnoshuaq": Word{Word: "toaqnoshuaq", Def: "▯ produces a copy of ▯ translated into language ▯.", By: "lynn", Score: 0}, "toaqpoq": Word{Word: "toaqpoq", Def: "▯ is something interested in the Toaq language in particular", By: "seaqtaq", Score: 0}, "toaqrioqmu": Word{Word: "toaqrioqmu", Def: "▯ is a dialect", By: "seaqtaq", Score: 0}, "toaqtiao": Word{Word: "toaqtiao", Def: "▯ (linguistic expression) means the same as ▯ in the different language ▯ (when the former is read in language ▯).", By: "Ilmen", Score: 1}, "toaqtiaojioq": Word{Word: "toaqtiaojioq", Def: "▯ translates ▯ to language ▯ (from language ▯).", By: "Ilmen", Score: 1}, "toaqtoaq": Word{Word: "toaqtoaq", Def: "▯ is Toaq.", By: "uakci", Score: 0}, "toashuaq": Word{Word: "toashuaq", Def: "▯ coins lexical item ▯\u00a0", By: "seaqtaq", Score: 0}, "toasiao": Word{Word: "toasiao", Def: "etymology", By: "spreadsheet", Score: 1}, "toasoi": Word{Word: "toasoi", Def: "tumultuous predicate: ▯ is the first argument, ▯ is the second argument, ▯ is the third argument, and so on.", By: "uakci", Score: 0}, "toe": Word{Word: "toe", Def: "shủaq dóshī sa jéoq nǐe ra rẻatī hóa dógū na dósāq da", By: "uakci", Score: 0}, "toechuo": Word{Word: "toechuo", Def: "predicate: ‘knife’; ▯ is a knife.", By: "official", Score: 0}, "toechuo maq da. ru loi ji baq hao.": Word{Word: "toechuo maq da. ru loi ji baq hao.", Def: "(A0445) It's a knife. And I hate those.", By: "examples", Score: 0}, "toegoi": Word{Word: "toegoi", Def: "▯ performs surgery on ▯.", By: "Ilmen", Score: 0}, "toegoiche": Word{Word: "toegoiche", Def: "▯ is a surgeon.", By: "Ilmen", Score: 0}, "toeji": Word{Word: "toeji", Def: "▯ is a mole of genus Talpa (containing different species of mole found primarily in Europe and western Asia).", By: "Hoemai", Score: 0}, "toejinu": Word{Word: "toejinu", Def: "▯ is a member of subfamily Talpinae (Old World moles and relatives).", By: "Hoemai", Score: 0}, "toekai": Word{Word: "toekai", Def: "▯ carves ▯ on ▯.", By: "Ilmen", Score: 0}, "toenioq": Word{Word: "toenioq", Def: "▯ is an incisor (tooth).", By: "Ilmen", Score: 0}, "toenua": Word{Word: "toenua", Def: "▯ cuts ▯ from ▯", By: "seaqtaq", Score: 0}, "toese": Word{Word: "toese", Def: "▯ is a slice / portion / part cut from ▯.", By: "Ilmen", Score: 0}, "toetuao": Word{Word: "toetuao", Def: "▯ notches/cuts ▯ (incomplet cut, not resulting in a complete separation).", By: "Ilmen", Score: 0}, "tofu": Word{Word: "tofu", Def: "▯ is tofu.", By: "lynn", Score: 1}, "togo": Word{Word: "togo", Def: "▯ pertains to the culture of Togo – Togolese Republic.", By: "countries", Score: 0}, "togogua": Word{Word: "togogua", Def: "▯ is the country Togo – Togolese Republic.", By: "countries", Score: 0}, "togotoaq": Word{Word: "togotoaq", Def: "▯ is (one of) the language(s) spoken in Togo – Togolese Republic.", By: "countries", Score: 0}, "tohoi": Word{Word: "tohoi", Def: "▯ is the connectand at the left-hand side of the current logical connection.", By: "Ilmen", Score: 1}, "tohoq": Word{Word: "tohoq", Def: "▯ is the proposition at the left-hand side of the current logical connection.", By: "Ilmen", Score: 0}, "toi": Word{Word: "toi", Def: "terminator for multipart TO", By: "uakci", Score: 0}, "toli": Word{Word: "toli", Def: "▯ is a truth-value relation.", By: "Ilmen", Score: 0}, "tonameqtue": Word{Word: "tonameqtue", Def: "▯ is a tournament.", By: "Hoemai", Score: 0}, "toq": Word{Word: "toq", Def: "predicate: ‘board’; ▯ is a board.", By: "official", Score: 0}, "toqceaq": Word{Word: "toqceaq", Def: "▯ is a plate nail (such as human fingernails).", By: "Ilmen", Score: 0}, "toqfua": Word{Word: "toqfua", Def: "predicate: ‘table’; ▯ is a table.", By: "official", Score: 0}, "toqga": Word{Word: "toqga", Def: "tone", By: "spreadsheet", Score: -1}, "toqgagua": Word{Word: "toqgagua", Def: "▯ is the country Tonga – Kingdom of Tonga.", By: "countries", Score: 0}, "toqgatoaq": Word{Word: "toqgatoaq", Def: "▯ is (one of) the language(s) spoken in Tonga – Kingdom of Tonga.", By: "countries", Score: 0}, "toqhua": Word{Word: "toqhua", Def: "▯ is a forehead.", By: "Ilmen", Score: 0}, "tora": Word{Word: "tora", Def: "zilvlina", By: "spreadsheet", Score: 0}, "toraq": Word{Word: "toraq", Def: "▯ is a truth-value relation.", By: "Ilmen", Score: -1}, "torodo": Word{Word: "torodo", Def: "▯ is an ostrich.", By: "Ilmen", Score: 0}, "toroso": Word{Word: "toroso", Def: "▯ is a thrush/blackbird.", By: "Hoemai", Score: 0}, "toru": Word{Word: "toru", Def: "zilkanxe", By: "spreadsheet", Score: 0}, "touieaeaiuoaeq": Word{Word: "touieaeaiuoaeq", Def: "▯ is a language with unreasonably lenient nucleus phonotactics.", By: "uakci", Score: 0}, "tu": Word{Word: "tu", Def: "quantifier: ‘any’; quantifier: universal quantifier", By: "official", Score: 0}, "tu do bi deq suq do da.": Word{Word: "tu do bi deq suq do da.", Def: "(QUA.5) Anything is such that you can do it.", By: "official", Score: 0}, "tu do ti go nijao bi bu kaqsi suq do ba.  ": Word{Word: "tu do ti go nijao bi bu kaqsi suq do ba.  ", Def: "(A0428) About everything that's over there: dont look at it. ", By: "examples", Score: 0}, "tu gu poq pa he guchio cheo geq da.": Word{Word: "tu gu poq pa he guchio cheo geq da.", Def: "(A0389) You always meet twice.", By: "examples", Score: 0}, "tu lu si hoa hoi kiq pa cho maq da.": Word{Word: "tu lu si hoa hoi kiq pa cho maq da.", Def: "(A0473) All those who watched the aforementioned movie liked it.", By: "examples", Score: 0}, "tu ni chao pa te li bonua juaochiai da.": Word{Word: "tu ni chao pa te li bonua juaochiai da.", Def: "(A0963) All of that cars are stolen ones.", By: "examples", Score: 0}, "tu poq": Word{Word: "tu poq", Def: "argument phrase: \"everyone\"", By: "official", Score: 0}, "tu poq pa cho baq joafao da.": Word{Word: "tu poq pa cho baq joafao da.", Def: "(A0184) Everyone likes the weekend.", By: "examples", Score: 0}, "tu rai": Word{Word: "tu rai", Def: "argument phrase: \"everything\", \"anything\"", By: "official", Score: 0}, "tu si su hoa hoi kiq pa cho maq da.": Word{Word: "tu si su hoa hoi kiq pa cho maq da.", Def: "(A0474) All those who watched the aforementioned movie liked it.", By: "examples", Score: 0}, "tua": Word{Word: "tua", Def: "cả tâo dóshī sa ráı na dógū da", By: "uakci", Score: 0}, "tua buo": Word{Word: "tua buo", Def: "predicate: ‘prepare’; ▯ prepares ▯ for satisfying property ▯.", By: "official", Score: 0}, "tua caidua": Word{Word: "tua caidua", Def: "▯ (re-)assures ▯ that ▯ is the case", By: "seaqtaq", Score: 0}, "tua chuabeo": Word{Word: "tua chuabeo", Def: "▯ changes the name of ▯ to be ▯", By: "seaqtaq", Score: 0}, "tua cuai pui diao chuao da.": Word{Word: "tua cuai pui diao chuao da.", Def: "(A0941) Many drops make the window wet.", By: "examples", Score: 0}, "tua deq buifa hi rai kune moq": Word{Word: "tua deq buifa hi rai kune moq", Def: "(INT.1) Who let the dogs out?", By: "official", Score: 0}, "tua dia": Word{Word: "tua dia", Def: "predicate: ‘lower’; ▯ lowers ▯ in how much it satisfies property ▯.", By: "official", Score: 0}, "tua dia laqcai ba.": Word{Word: "tua dia laqcai ba.", Def: "‘Turn the volume down.’", By: "uakci", Score: 0}, "tua dua": Word{Word: "tua dua", Def: "predicate: ‘tell’; ▯ tells ▯ that ▯ is the case; ▯ makes ▯ know ▯.", By: "official", Score: 0}, "tua fa ji suq huitaojio ka.": Word{Word: "tua fa ji suq huitaojio ka.", Def: "(A0992) I am taking you to jail.", By: "examples", Score: 0}, "tua gai": Word{Word: "tua gai", Def: "predicate: ‘show’; ▯ shows ▯ object/event ▯; ▯ makes ▯ observe ▯.", By: "official", Score: 0}, "tua hoaq": Word{Word: "tua hoaq", Def: "▯ burns ▯", By: "seaqtaq", Score: 0}, "tua jeaq": Word{Word: "tua jeaq", Def: "predicate: ‘raise’; ▯ raises ▯ in how much it satisfies property ▯.", By: "official", Score: 0}, "tua jeaq gea": Word{Word: "tua jeaq gea", Def: "predicate: ‘raise’; ▯ raises ▯ higher.", By: "official", Score: 0}, "tua jeaq nia": Word{Word: "tua jeaq nia", Def: "predicate: ‘lower’; ▯ lowers ▯ down.", By: "official", Score: 0}, "tua jeqti": Word{Word: "tua jeqti", Def: "▯ gathers ▯(roı) to be at ▯()", By: "seaqtaq", Score: 0}, "tua kao": Word{Word: "tua kao", Def: "record (rejgau)", By: "spreadsheet", Score: 0}, "tua kaqgai": Word{Word: "tua kaqgai", Def: "predicate: ‘show’; ▯ shows ▯ object/event; ▯ makes ▯ see ▯.", By: "official", Score: 0}, "tua neo": Word{Word: "tua neo", Def: "predicate: ‘put.onto’; ▯ puts ▯ onto ▯.", By: "official", Score: 0}, "tua nie": Word{Word: "tua nie", Def: "predicate: ‘put.inside’; ▯ puts ▯ inside ▯.", By: "official", Score: 0}, "tua no": Word{Word: "tua no", Def: "translate, fanva", By: "spreadsheet", Score: -1}, "tua paq suq sa noqgī duao ra muai ba.": Word{Word: "tua paq suq sa noqgī duao ra muai ba.", Def: "(A0349) Add tasty things that are sweet and/or umami.", By: "examples", Score: 0}, "tua poaq": Word{Word: "tua poaq", Def: "predicate: ‘split’; ▯ breaks/splits/separates ▯.", By: "official", Score: 0}, "tua poaq hi rai shia moq.": Word{Word: "tua poaq hi rai shia moq.", Def: "(A0342) What broke the glass?", By: "examples", Score: 0}, "tua seo": Word{Word: "tua seo", Def: "▯ marries ▯ to ▯.", By: "lynn", Score: 0}, "tua shie": Word{Word: "tua shie", Def: "predicate: ‘wake’; ▯ wakes ▯ up; ▯ awakens ▯.", By: "official", Score: 0}, "tua siq": Word{Word: "tua siq", Def: "▯ cleans ▯.", By: "lynn", Score: 0}, "tua siq ji toqfua.": Word{Word: "tua siq ji toqfua.", Def: "(SRP.5) I clean the table.", By: "official", Score: 0}, "tua siq suq muq ba.": Word{Word: "tua siq suq muq ba.", Def: "(A0596) Clean (your) hands.", By: "examples", Score: 0}, "tua suo": Word{Word: "tua suo", Def: "predicate: ‘break’; ▯ breaks/destroys ▯; ▯ makes ▯ be broken/inoperable.", By: "official", Score: 0}, "tua suq sho shie ji rao horachiu ci ba.": Word{Word: "tua suq sho shie ji rao horachiu ci ba.", Def: "(A0723) Wake me up at six o'clock.", By: "examples", Score: 0}, "tua ti": Word{Word: "tua ti", Def: "predicate: ‘put’; ▯ puts ▯ at ▯.", By: "official", Score: 0}, "tua ti ji puq tuifua haqbaikua.": Word{Word: "tua ti ji puq tuifua haqbaikua.", Def: "(ARG.2) I put the chairs in the kitchen.", By: "official", Score: 0}, "tua tijeq": Word{Word: "tua tijeq", Def: "(fork of #pddD3sqdj) ▯ gathers ▯(roı) to be at ▯()", By: "seaqtaq", Score: 0}, "tua tipoe": Word{Word: "tua tipoe", Def: "▯ isolates ▯ from ▯", By: "seaqtaq", Score: 0}, "tua tiriu": Word{Word: "tua tiriu", Def: "predicate: ‘put.back’; ▯ puts ▯ back at ▯.", By: "official", Score: 0}, "tua tiriu suq maq lu tiniqdua suq hoa, la sue ba. ": Word{Word: "tua tiriu suq maq lu tiniqdua suq hoa, la sue ba. ", Def: "(A0457) Return it to where you found it, please.", By: "examples", Score: 0}, "tuabai": Word{Word: "tuabai", Def: "▯ builds on ▯ with the intention of eventually making it satisfy property ▯", By: "fagri", Score: 0}, "tuahui": Word{Word: "tuahui", Def: "▯ is to blame for ▯ having happened; ▯ made ▯ happen, and they are to blame for it.", By: "uakci", Score: 0}, "tuahuijie": Word{Word: "tuahuijie", Def: "▯ blames ▯ for having made ▯ happened; ▯ thinks it’s ▯ to blame for ▯. [Non-verbal sense of ‘blame’.]", By: "uakci", Score: 0}, "tuahuiruaq": Word{Word: "tuahuiruaq", Def: "▯ blames [verbally] ▯ for having made ▯ happen.", By: "uakci", Score: 0}, "tuai": Word{Word: "tuai", Def: "predicate: ‘body’; ▯ is a body/corpse.", By: "official", Score: 0}, "tuaibo": Word{Word: "tuaibo", Def: "predicate: ‘physical’; ▯ is physical/corporal.", By: "official", Score: 0}, "tuaicia": Word{Word: "tuaicia", Def: "predicate: ‘non-physical’; ▯ is non-physical.", By: "official", Score: 0}, "tuaiduo": Word{Word: "tuaiduo", Def: "gesture / move (without overall location change)", By: "spreadsheet", Score: 0}, "tuaifuq": Word{Word: "tuaifuq", Def: "▯ is a cloak", By: "fagri", Score: 0}, "tuaijoq": Word{Word: "tuaijoq", Def: "▯ is a torso.", By: "Ilmen", Score: 0}, "tuaijoqfuq": Word{Word: "tuaijoqfuq", Def: "▯ is a shawl", By: "fagri", Score: 0}, "tuaisia": Word{Word: "tuaisia", Def: "▯ is immaterial.", By: "Ilmen", Score: 0}, "tuamu": Word{Word: "tuamu", Def: "▯ is (being) made to have property ▯; They make (are making) ▯ do/be ▯.", By: "uakci", Score: 0}, "tuao": Word{Word: "tuao", Def: "= gıq #jảq", By: "uakci", Score: 0}, "tuao bufoaqca": Word{Word: "tuao bufoaqca", Def: "Predicate: bother. ▯ bothers ▯; ▯ is bothersome.", By: "Xylochoron", Score: 0}, "tuao mia suq li kuq ja poq ja rai ji da.": Word{Word: "tuao mia suq li kuq ja poq ja rai ji da.", Def: "(A0834) You've said a lot of things to me.", By: "examples", Score: 0}, "tuao pui": Word{Word: "tuao pui", Def: "▯ are few.", By: "Ilmen", Score: 0}, "tuao pui koemea.": Word{Word: "tuao pui koemea.", Def: "(INX.1) The options are few.", By: "official", Score: 0}, "tuao suai ho.": Word{Word: "tuao suai ho.", Def: "(A0485) He isn't very fast.", By: "examples", Score: 0}, "tuao, m… jua da.": Word{Word: "tuao, m… jua da.", Def: "(A0353) It's a little, um… weird.", By: "examples", Score: 0}, "tuaobu": Word{Word: "tuaobu", Def: "predicate: ‘quite’; ▯ is quite ▯.", By: "official", Score: 0}, "tuaojaq": Word{Word: "tuaojaq", Def: "▯ is the case to a very little extent; ▯ has property ▯ to a very little extent.", By: "Ilmen", Score: 0}, "tuaotuao": Word{Word: "tuaotuao", Def: "▯ is the case to a rather/somewhat small extent (small but not very small either); ▯ has property ▯ to a rather/somewhat small extent.", By: "Ilmen", Score: 0}, "tuaq": Word{Word: "tuaq", Def: "▯ is a horn (body part).", By: "Ilmen", Score: 1}, "tuaqboluko": Word{Word: "tuaqboluko", Def: "▯ is a serval (Leptailurus serval).", By: "Ilmen", Score: 0}, "tuaqbosiu": Word{Word: "tuaqbosiu", Def: "▯ is a deer (Cervidae).", By: "Ilmen", Score: 0}, "tuasia": Word{Word: "tuasia", Def: "▯ deletes file/data ▯", By: "seaqtaq", Score: 0}, "tuatua": Word{Word: "tuatua", Def: "▯ makes ▯ do ▯ (event).", By: "uakci", Score: 0}, "tubalu": Word{Word: "tubalu", Def: "▯ pertains to the culture of Tuvalu.", By: "countries", Score: 0}, "tubalugua": Word{Word: "tubalugua", Def: "▯ is the country Tuvalu.", By: "countries", Score: 0}, "tubalutoaq": Word{Word: "tubalutoaq", Def: "▯ is (one of) the language(s) spoken in Tuvalu.", By: "countries", Score: 0}, "tubi": Word{Word: "tubi", Def: "▯ is true with maximal quantification domain (the quantification domain for that proposition is regarded as being as wide as possible, including anything one can think of; there is no implicit domain restriction).", By: "Ilmen", Score: 0}, "tubokuai": Word{Word: "tubokuai", Def: "(fork of #ICzDegBgz) ▯ is greedy", By: "seaqtaq", Score: 0}, "tuchao": Word{Word: "tuchao", Def: "predicate: ‘bus’; ▯ is a bus/omnibus.", By: "official", Score: 0}, "tuchaoce": Word{Word: "tuchaoce", Def: "predicate: ‘bus.stop’; ▯ is a bus stop.", By: "official", Score: 0}, "tudaq": Word{Word: "tudaq", Def: "▯ (proposition) is always true", By: "fagri", Score: 0}, "tue": Word{Word: "tue", Def: "#lufē ru #mẻajēq", By: "uakci", Score: 0}, "tue guasoi": Word{Word: "tue guasoi", Def: "▯ is a war", By: "seaqtaq", Score: 0}, "tue jai tu lu tue hoa chuq ji da.": Word{Word: "tue jai tu lu tue hoa chuq ji da.", Def: "(A0471) My eating is always an event of being happy.", By: "examples", Score: 0}, "tue jaofa": Word{Word: "tue jaofa", Def: "trip, journey", By: "spreadsheet", Score: 0}, "tue joemieq": Word{Word: "tue joemieq", Def: "examination (knowledge test)", By: "spreadsheet", Score: 0}, "tue neqjoi": Word{Word: "tue neqjoi", Def: "▯ is a coincidence", By: "seaqtaq", Score: 0}, "tue sho seo": Word{Word: "tue sho seo", Def: "wedding", By: "spreadsheet", Score: 0}, "tuedea": Word{Word: "tuedea", Def: "▯ overthrows government ▯.", By: "uakci", Score: 0}, "tuegiq": Word{Word: "tuegiq", Def: "▯ is a left inverse of ▯ in domain ▯; [submeaning:] doing ▯ after ▯ keeps the state of ▯ unchanged.", By: "uakci", Score: 0}, "tueme": Word{Word: "tueme", Def: "▯ is a process involving ▯(/1)", By: "seaqtaq", Score: 0}, "tueq": Word{Word: "tueq", Def: "▯ is limited in that it cannot reach satisfying p’ty ▯ (never in a given timeframe); ▯ has limit ▯.", By: "uakci", Score: 0}, "tuerioq": Word{Word: "tuerioq", Def: "▯ is one mode/state of ▯.", By: "uakci", Score: 0}, "tui": Word{Word: "tui", Def: "predicate: ‘sit’; ▯ sits on ▯.", By: "official", Score: 0}, "tui bu suq toqfua ba.": Word{Word: "tui bu suq toqfua ba.", Def: "(A0546) Don't sit on the table.", By: "examples", Score: 0}, "tui sa baoreo teige muao da.": Word{Word: "tui sa baoreo teige muao da.", Def: "(A0740) There is a white owl sitting on the tree.", By: "examples", Score: 0}, "tuifua": Word{Word: "tuifua", Def: "predicate: ‘chair’; ▯ is a chair/stool/seat/bench.", By: "official", Score: 0}, "tuiga": Word{Word: "tuiga", Def: "giraffe", By: "spreadsheet", Score: 0}, "tuitoq": Word{Word: "tuitoq", Def: "predicate: ‘bench’; ▯ is a bench.", By: "official", Score: 0}, "tujeo": Word{Word: "tujeo", Def: "common to, kampu / everything has property ▯ (among ▯)", By: "spreadsheet", Score: 0}, "tujeq": Word{Word: "tujeq", Def: "indistinguishable", By: "spreadsheet", Score: 0}, "tujui": Word{Word: "tujui", Def: "Almost all of ▯ satisfy the property ▯.", By: "Ilmen", Score: 0}, "tuli": Word{Word: "tuli", Def: "everything has the property ▯ (among the things that have the property ▯).", By: "Ilmen", Score: 0}, "tunaqmubaipuijeq": Word{Word: "tunaqmubaipuijeq", Def: "All men ▯ are created equal, according to ▯, by standard ▯, by observer ▯, under conditions ▯, per volition of ▯ not being able to comprehend the fact ▯ that the word for ‘man’ ▯ in their language ▯ is the same as the word for ‘human’ ▯ [this place added for redundancy’s sake], possibly (in alternate universe ▯ by alternate universe model ▯ against all odds ▯) creating women ▯ unequally by standard ▯, which implies (for thinker ▯) the prejudicial correctness of the starting statement (expressed in words ▯ to audience ▯ by means ▯), this fact being ignored by ▯ because of reasons ▯, which, according to ▯, is the best approach to take (out of all approaches ▯ [set, not «roi»], best by standard ▯), allegedly (with ▯ being in first person and ▯ being the one whose words are cited) because (by causality ▯) of the times ▯ in which these words were spoken (by advocate or witness ▯), in which (the uniqueness of this time being guaranteed by ▯) women didn’t exist by chauvinistic metaphysics ▯ (chauvinistic by standard ▯ and according to judge ▯), coming close to the absurdity (as per ▯, the perceiver thereof) of joke words ▯ created for language ▯ in order to put to shame (with agent ▯) the idea of having property ▯, or ▯ being the case, despite the possible nuisance (for hypothetical (by standard ▯) nuisance-ee ▯) of this language’s creator ▯, familiar with similar incidents ▯ happening in analogous language communities ▯ (analogous on the basis of relation ▯ [binary «li»]), assuming a basic understanding of predicate logic ▯ with audience ▯. [frame: JEO]", By: "uakci", Score: 0}, "tunaqmubaipuijeqsioboeteimuhuaqtuamuduagikuqsesiuseaqrioqduomuoqchebuaikiaqlupaqhoa": Word{Word: "tunaqmubaipuijeqsioboeteimuhuaqtuamuduagikuqsesiuseaqrioqduomuoqchebuaikiaqlupaqhoa", Def: "▯ .u'ivla", By: "seaqtaq", Score: 0}, "tune": Word{Word: "tune", Def: "▯ is the total amount of ▯", By: "seaqtaq", Score: 0}, "tunesia": Word{Word: "tunesia", Def: "▯ pertains to the culture of Tunisia – Tunisian Republic.", By: "countries", Score: 0}, "tunesiagua": Word{Word: "tunesiagua", Def: "▯ is the country Tunisia – Tunisian Republic.", By: "countries", Score: 0}, "tunesiatoaq": Word{Word: "tunesiatoaq", Def: "▯ is (one of) the language(s) spoken in Tunisia – Tunisian Republic.", By: "countries", Score: 0}, "tuo": Word{Word: "tuo", Def: "predicate: ‘swallow’; ▯ swallows; ▯ swallows ▯.", By: "official", Score: 0}, "tuoi": Word{Word: "tuoi", Def: "hủı ru jẻo to ru sa pó dóshī to pâq dóshī dógū da", By: "uakci", Score: 0}, "tuoicia": Word{Word: "tuoicia", Def: "predicate: ‘flawless’; ▯ is flawless/perfect.", By: "official", Score: 0}, "tuoifieq": Word{Word: "tuoifieq", Def: "▯ finds fault in ▯ (negative connotation); ▯ exaggerates the flaws in ▯.", By: "uakci", Score: 0}, "tuoiruaq": Word{Word: "tuoiruaq", Def: "▯ criticises (criticizes) flaw ▯ in ▯ [no negative connotations].", By: "uakci", Score: 0}, "tuoituaocua": Word{Word: "tuoituaocua", Def: "▯ nitpicks about minutia or unimportant detail ▯.", By: "Ilmen", Score: 0}, "tuoq": Word{Word: "tuoq", Def: "predicate: ‘heavy’; ▯ is heavy.", By: "official", Score: 0}, "tuoq ni kaifua da.": Word{Word: "tuoq ni kaifua da.", Def: "(A0223) This desk is heavy.", By: "examples", Score: 0}, "tuoq ni puq cea da.": Word{Word: "tuoq ni puq cea da.", Def: "(A0501) These bags are heavy.", By: "examples", Score: 0}, "tuoq ni shi cea da.": Word{Word: "tuoq ni shi cea da.", Def: "(A0500) This bag is heavy.", By: "examples", Score: 0}, "tuoqkea": Word{Word: "tuoqkea", Def: "▯ is a scale (for measuring weight and or mass)", By: "seaqtaq", Score: 0}, "tupa": Word{Word: "tupa", Def: "pot", By: "spreadsheet", Score: 0}, "tupoi": Word{Word: "tupoi", Def: "▯ is an event in which everything/everyone is the x1", By: "seaqtaq", Score: 0}, "tuq": Word{Word: "tuq", Def: "tu dó bı, jẻojēq mêa dó dóshī na jêo dó dógū da", By: "uakci", Score: 0}, "tuq chamu": Word{Word: "tuq chamu", Def: "▯ is the only way to do ▯", By: "seaqtaq", Score: 0}, "tuqbu": Word{Word: "tuqbu", Def: "There are other things to ▯ that satisfy property ▯.", By: "uakci", Score: 0}, "tuqfia": Word{Word: "tuqfia", Def: "predicate: ‘first’; ▯ is first in sequence ▯.", By: "official", Score: 0}, "tuqgu": Word{Word: "tuqgu", Def: "▯ are both things satisfying the property ▯.", By: "Ilmen", Score: 0}, "tuqjiaq": Word{Word: "tuqjiaq", Def: "▯ is a universe/cosmos.", By: "Hoemai", Score: 0}, "tuqjiaqdiu": Word{Word: "tuqjiaqdiu", Def: "▯ is cosmology.", By: "Hoemai", Score: 0}, "tuqme": Word{Word: "tuqme", Def: "▯ is the aggregate of everything satisfying property ▯.", By: "Ilmen", Score: 0}, "tuqmu": Word{Word: "tuqmu", Def: "Property ▯ uniquely identifies ▯; ▯ is ▯’s identity (one sense).", By: "uakci", Score: 0}, "tuqpaq": Word{Word: "tuqpaq", Def: "▯ comprise/make up/constitute all the parts of whole ▯.", By: "Hoemai", Score: 0}, "tuqshi": Word{Word: "tuqshi", Def: "▯ is the one and only thing satisfying property ▯.", By: "Ilmen", Score: 0}, "tuqsie": Word{Word: "tuqsie", Def: "predicate: ‘last’; ▯ is last in sequence ▯.", By: "official", Score: 0}, "tuqsie heigujue jue.": Word{Word: "tuqsie heigujue jue.", Def: "(A0161) December is the last of the months.", By: "examples", Score: 0}, "tuqsielaime": Word{Word: "tuqsielaime", Def: "(fork of #pifwTswbn) ▯ is an ending", By: "seaqtaq", Score: 0}, "tuqtoa": Word{Word: "tuqtoa", Def: "▯ is the lexicon of language ▯. (the entirety of the words of a language)", By: "Hoemai", Score: 0}, "tura": Word{Word: "tura", Def: "structure", By: "spreadsheet", Score: -1}, "turai": Word{Word: "turai", Def: "Everything satisfies property ▯; ∀x.▯‘x\u00a0", By: "uakci", Score: 0}, "turuke": Word{Word: "turuke", Def: "▯ pertains to the culture of Turkey – Republic of Turkey.", By: "countries", Score: 0}, "turukegua": Word{Word: "turukegua", Def: "▯ is the country Turkey – Republic of Turkey.", By: "countries", Score: 0}, "turuketoaq": Word{Word: "turuketoaq", Def: "▯ is (one of) the language(s) spoken in Turkey – Republic of Turkey.", By: "countries", Score: 0}, "tushi": Word{Word: "tushi", Def: "▯ is the set of all individuals that satisfy property ▯.", By: "uakci", Score: 0}, "tusiokaq": Word{Word: "tusiokaq", Def: "▯ is a bottlenose dolphin (Tursiops taxonomic genus).", By: "Ilmen", Score: 0}, "tuti": Word{Word: "tuti", Def: "▯ is omnipresent; ▯ is present everywhere.", By: "uakci", Score: 0}, "tuto": Word{Word: "tuto", Def: "▯ is a member of the genus Tyto (the true barn owls, grass owls and masked owls).", By: "Hoemai", Score: 0}, "tutu": Word{Word: "tutu", Def: "All two things satisfy relation ▯.", By: "uakci", Score: 0}, "u": Word{Word: "u", Def: "[Interjection] Expression of pity (lojban's {.uu})", By: "fagri", Score: 0}, "wish": Word{Word: "wish", Def: "(fork of official) predicate: ‘apple’; ▯ is an apple.", By: "AlexBerz", Score: -1}, "zeu": Word{Word: "zeu", Def: "▯ shows zeal for the few left free roots, for example, ▯, ▯, ▯, and ▯.", By: "uakci", Score: 0}, "\u00a0riekoai": Word{Word: "\u00a0riekoai", Def: "▯ is the Internet", By: "seaqtaq", Score: 0}, "ķai": Word{Word: "ķai", Def: "▯\u00a0 reels ▯ onto ▯.", By: "uakci", Score: 0}, "χεγλε": Word{Word: "χεγλε", Def: "▯ σπελλς Τοαν θρειζα ▯ υιθ δε Γρικ αλφαβητ.", By: "uakci", Score: 0}, "▯": Word{Word: "▯", Def: "▯ ▯ ▯ (▯); ▯ ▯▯▯_.", By: "uakci", Score: 0}}
-- 
2.43.0


From 1f843eba987ab00be721258009e3f392b713abf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:38 +0000
Subject: [PATCH 38/42] fix: a reply that the chat service refuses stops the
 bot

---
 bot/bot.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bot/bot.go b/bot/bot.go
index ed9e6f3..b271aa9 100644
--- a/bot/bot.go
+++ b/bot/bot.go
@@ -117,8 +117,9 @@ func fixBridgeMessage(msg *chat.Message) {
 }
 
 func say(ctx context.Context, ch chat.Channel, text string) {
+	// The service refuses some messages, for example ones that are too long.
+	// If the connection is lost, Receive fails too.
 	if _, err := chat.Say(ctx, ch, text); err != nil {
 		fmt.Println(err)
-		os.Exit(1)
 	}
 }
-- 
2.43.0


From 85434716c317e38e4d4813c24313caa548897644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:40 +0000
Subject: [PATCH 39/42] fix: the dictionary generator removes "dict." from the
 text of entries

The source of the map was printed with %#v, which qualifies the type as
dict.Word, and then every occurrence of "dict." was removed, also those in
the headwords, definitions and names of the entries, which changed them or
(after a backslash) gave a file that did not compile.
---
 dict/main.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/dict/main.go b/dict/main.go
index 2ad08df..868cf3e 100644
--- a/dict/main.go
+++ b/dict/main.go
@@ -13,6 +13,7 @@ import (
 	"go/token"
 	"io"
 	"os"
+	"sort"
 	"strings"
 	"time"
 
@@ -44,14 +45,32 @@ func main() {
 	src := fmt.Sprintf("package dict\n"+
 		"// Words contains the dictionary of words.\n"+
 		"// Last updated: %v.\n"+
-		"var Words = %#v\n", time.Now(), ws)
-	src = strings.Replace(src, "dict.", "", -1)
+		"var Words = %s\n", time.Now(), wordsSource(ws))
 	if err := gofmt(f, src); err != nil {
 		fmt.Printf(err.Error())
 		os.Exit(1)
 	}
 }
 
+// wordsSource returns the Go source of a map of words
+// with the type Word not qualified by its package.
+func wordsSource(ws map[string]dict.Word) string {
+	var heads []string
+	for h := range ws {
+		heads = append(heads, h)
+	}
+	sort.Strings(heads)
+	var s strings.Builder
+	s.WriteString("map[string]Word{")
+	for _, h := range heads {
+		// Only the type is qualified; the text of an entry can also contain "dict.".
+		w := strings.TrimPrefix(fmt.Sprintf("%#v", ws[h]), "dict.")
+		fmt.Fprintf(&s, "%#v: %s, ", h, w)
+	}
+	s.WriteString("}")
+	return s.String()
+}
+
 func gofmt(w io.Writer, s string) error {
 	fset := token.NewFileSet()
 	root, err := parser.ParseFile(fset, "", s, parser.ParseComments)
-- 
2.43.0


From 35d75aa8b794cd4dcafa3ce1f4a10b20311b2b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 40/42] fix: the program crashes on texts with constructs that
 the interpreter does not support

---
 main.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 2c15c5a..98d138b 100644
--- a/main.go
+++ b/main.go
@@ -51,7 +51,11 @@ func main() {
 	fmt.Println(pretty.String(text))
 	fmt.Println(toString(text))
 	fmt.Println(ast.BracesString(text))
-	stmt := logic.Interpret(text)
+	stmt, err := safeInterp(text)
+	if err != nil {
+		fmt.Println(err.Error())
+		return
+	}
 	if stmt == nil {
 		fmt.Println("fragment")
 		return
@@ -61,6 +65,18 @@ func main() {
 	fmt.Println(logic.String(stmt))
 }
 
+// safeInterp calls the interpreter and recovers any panics.
+// The interpreter should not panic, but currently it does
+// on some things that are unimplemented.
+func safeInterp(text *ast.Text) (st logic.Statement, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("bug: %v", r)
+		}
+	}()
+	return logic.Interpret(text), nil
+}
+
 func toString(node ast.Node) string {
 	var s strings.Builder
 	ast.Visit(node, ast.FuncVisitor(func(n ast.Node) {
-- 
2.43.0


From 879d7c018d136a04e919f7a4b23d5ef7f13d94c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 41/42] fix: the focus of arguments that are variables or that
 are interpreted again is lost

---
 logic/interp.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 7f472dc..d456ba1 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -627,7 +627,10 @@ func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatemen
 			}
 		case *ast.PredicateArgument:
 			b, a = interp.predicateArgument(arg)
-			break
+			if arg.Focus != nil && b != nil && !hasText(n.Prenex.BI, "pa") {
+				// As above: the argument will not be used.
+				b.Focus = true
+			}
 		default:
 			panic(fmt.Sprintf("unknown argument type %T", n))
 		}
@@ -858,7 +861,7 @@ func (interp *interpreter) predicateArgument(n *ast.PredicateArgument) (*Binding
 		// This was a ι- or hi-quantified predicate
 		// that already had its scope lifted
 		// by a previous conditional branch.
-		return nil, &Variable{N: b.N, Def: b, AST: n}
+		return nil, &Variable{N: b.N, Def: b, Focus: n.Focus != nil, AST: n}
 	}
 	if _, _, ok := isVariablePredicate(n.Predicate); ok {
 		return interp.varArgument(n)
@@ -947,7 +950,7 @@ func (interp *interpreter) varArgument(n *ast.PredicateArgument) (*Binding, Argu
 		b := &Binding{Quantifier: quantifier(n.Quantifier), AST: n}
 		x := interp.pushVar(s, b)
 		b.N = x
-		a := &Variable{N: x, Def: b, AST: n}
+		a := &Variable{N: x, Def: b, Focus: n.Focus != nil, AST: n}
 		if n.Relative != nil {
 			b.Restriction = interp.relativeClause(b, n.Relative)
 		}
@@ -957,12 +960,13 @@ func (interp *interpreter) varArgument(n *ast.PredicateArgument) (*Binding, Argu
 	x, def := interp.lookupVar(s)
 	ax := &Variable{N: x, Def: def, AST: n}
 	if n.Relative == nil {
+		ax.Focus = n.Focus != nil
 		return nil, ax
 	}
 
 	y := interp.newVar()
 	b := &Binding{N: y, Quantifier: All, AST: n}
-	ay := &Variable{N: y, Def: b, AST: n}
+	ay := &Variable{N: y, Def: b, Focus: n.Focus != nil, AST: n}
 	b.Restriction = &Connection{
 		Connector: And,
 		Left: &Predication{
@@ -981,19 +985,20 @@ func (interp *interpreter) hoaArgument(n *ast.PredicateArgument) (*Binding, Argu
 	}
 	if len(interp.hoaScope) == 0 {
 		// This is an un-bound, would-be λ-bound variable.
-		return nil, &Variable{N: interp.newVar(), AST: n}
+		return nil, &Variable{N: interp.newVar(), Focus: n.Focus != nil, AST: n}
 	}
 
 	def := interp.hoaScope[len(interp.hoaScope)-1]
 	x := def.N
 	ax := &Variable{N: x, Def: def, AST: n}
 	if n.Quantifier == nil && n.Relative == nil {
+		ax.Focus = n.Focus != nil
 		return nil, ax
 	}
 
 	y := interp.newVar()
 	b := &Binding{N: y, Quantifier: All, AST: n}
-	ay := &Variable{N: y, Def: b, AST: n}
+	ay := &Variable{N: y, Def: b, Focus: n.Focus != nil, AST: n}
 	b.Restriction = &Predication{
 		Predicate: &Pred{Name: Among, AST: n},
 		Arguments: []Argument{ay, ax},
-- 
2.43.0


From 05690d4247def90af3fa83221e99a875fe9970dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:33 +0000
Subject: [PATCH 42/42] fix: the file path given to a parser is missing from
 its errors

---
 ast/parser.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index 1602df0..cc5d066 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -93,10 +93,7 @@ func (p *Parser) parseFullText() Error {
 		return nil
 	}
 	failTree := &peg.Fail{Name: "full_text", Kids: []*peg.Fail{{Pos: n, Want: "EOF"}}}
-	return &parseError{
-		fail: failTree,
-		err:  peg.SimpleError(p._Parser.text, failTree),
-	}
+	return p.error(failTree)
 }
 
 func (p *Parser) parse(accepts func(*_Parser, int) (int, int), fail func(*_Parser, int, int) (int, *peg.Fail), start int) Error {
@@ -111,8 +108,11 @@ func (p *Parser) parse(accepts func(*_Parser, int) (int, int), fail func(*_Parse
 	p._Parser.lastFail = errPos
 	p._Parser.fail = make(map[_key]*peg.Fail)
 	_, failTree := fail(p._Parser, start, errPos)
-	return &parseError{
-		fail: failTree,
-		err:  peg.SimpleError(p._Parser.text, failTree),
-	}
+	return p.error(failTree)
+}
+
+func (p *Parser) error(failTree *peg.Fail) Error {
+	err := peg.SimpleError(p._Parser.text, failTree)
+	err.FilePath = p.FilePath
+	return &parseError{fail: failTree, err: err}
 }
-- 
2.43.0

