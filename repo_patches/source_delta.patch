From b6a0a8305651fce6db01291933d9336c9ededd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 01/66] fix: text parser loses input when the reader delivers
 short reads, or data together with an error

---
 lexer.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lexer.go b/lexer.go
index 76c8f72..1845316 100644
--- a/lexer.go
+++ b/lexer.go
@@ -80,19 +80,20 @@ func (p *Lexer) fill() {
 		p.r = 0
 	}
 
-	for i := maxConsecutiveEmptyReads; i > 0; i-- {
+	// A Read can deliver less than what was asked for, and it can deliver bytes
+	// together with an error.
+	for i := maxConsecutiveEmptyReads; i > 0 && offset < bufSize; i-- {
 		n, err := p.rd.Read(p.buf[offset:])
 		if n < 0 {
 			panic(errNegativeRead)
 		}
+		offset += n
 		if err != nil {
 			p.err = err
 			break
 		}
-
-		offset += n
-		if offset >= halfSize {
-			break
+		if n > 0 {
+			i = maxConsecutiveEmptyReads
 		}
 	}
 
-- 
2.43.0


From f70fcdb2f16d9110ad84cfc320e57934eed12716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 02/66] fix: Lexer.Rune reads stale bytes after the end of the
 stream and splits runes at the end of the buffer

---
 lexer.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/lexer.go b/lexer.go
index 1845316..095ada1 100644
--- a/lexer.go
+++ b/lexer.go
@@ -65,16 +65,21 @@ func NewLexer(rd io.Reader) *Lexer {
 // half filled with new bytes, if available.
 func (p *Lexer) fill() {
 
-	if p.r >= 0 && p.r < bufSize {
+	if p.r >= 0 && (p.r < bufSize || p.lastByte < bufSize) {
 		return
 	}
+	p.refill()
+}
+
+// refill reads new data into the buffer, unconditionally.
+func (p *Lexer) refill() {
 
 	// Read new data: try a limited number of times.
 	// The first time read the full buffer, else only half.
 	offset := 0
 	if p.r >= 0 {
 		copy(p.buf, p.buf[halfSize:])
-		p.r = halfSize
+		p.r -= halfSize
 		offset = halfSize
 	} else {
 		p.r = 0
@@ -159,11 +164,23 @@ func (p *Lexer) Rune() (rune, error) {
 
 	p.fill()
 
+	// A rune can continue beyond the end of the buffer
+	if p.lastByte == bufSize && !utf8.FullRune(p.buf[p.r:]) {
+		p.refill()
+	}
+
+	if p.lastByte < bufSize && p.r >= p.lastByte {
+		p.r = p.lastByte + 1
+		p.lastRuneSize = append(p.lastRuneSize, 1)
+		return 0, ErrEOS
+	}
+
 	r, size := rune(p.buf[p.r]), 1
 	if r >= utf8.RuneSelf {
 		r, size = utf8.DecodeRune(p.buf[p.r:p.lastByte])
 	}
 	p.r += size
+	p.fill()
 	p.lastRuneSize = append(p.lastRuneSize, size)
 	return r, nil
 }
-- 
2.43.0


From 1dd5f641ba1b5d8c238f2cb85ef02c12b1629a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 03/66] fix: the line after a block loses its indentation, and
 with it its place in the tree

---
 lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lexer.go b/lexer.go
index 095ada1..fad66ad 100644
--- a/lexer.go
+++ b/lexer.go
@@ -564,6 +564,10 @@ func (p *Lexer) Block(nsp int) (string, bool) {
 		ns, u := p.Space()
 
 		if u == 0 || ns <= nsp {
+			// This is the indentation of the line that follows the block
+			for ; ns > 0; ns-- {
+				p.UnreadByte()
+			}
 			break
 		}
 
-- 
2.43.0


From 0d0e26228d48ea64908ca1768e0a3e1ae0465a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 04/66] fix: Lexer.Break swallows a lone CR without reporting a
 break

---
 lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lexer.go b/lexer.go
index fad66ad..8828bef 100644
--- a/lexer.go
+++ b/lexer.go
@@ -237,6 +237,10 @@ func (p *Lexer) Break() bool {
 
 	if c == '\r' {
 		c, _ = p.Byte()
+		if c != '\n' {
+			p.UnreadByte()
+		}
+		return true
 	}
 
 	if c == '\n' {
-- 
2.43.0


From 64d25768b546439306462df7882523151687fbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 05/66] fix: quoted strings at indentation 0 lose the first
 space of each continuation line

---
 lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lexer.go b/lexer.go
index 8828bef..937205f 100644
--- a/lexer.go
+++ b/lexer.go
@@ -327,6 +327,10 @@ func (p *Lexer) SpaceMax(max int) (int, byte) {
 	spaces := 0
 	tabs := 0
 
+	if max <= 0 {
+		return 0, ' '
+	}
+
 	for {
 		c, _ := p.Byte()
 		if c != '\t' && c != ' ' {
-- 
2.43.0


From 14e86b52fde64bb33669addc9415d0f492084d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 06/66] fix: an empty line or a comment line changes the parent
 of the lines below it

---
 block.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/block.go b/block.go
index e245127..7896ec0 100644
--- a/block.go
+++ b/block.go
@@ -17,6 +17,9 @@ import (
 //     Graph ::= Line* End
 func (p *Parser) Ogdl() {
 	n, u := p.Space()
+	for p.Break() || p.Comment() {
+		n, u = p.Space()
+	}
 	if u == 0 {
 		return // Error
 	}
@@ -32,6 +35,9 @@ func (p *Parser) Ogdl() {
 // or bools to their corresponding type in Go (string | int64 | float64 | bool).
 func (p *Parser) OgdlTypes() {
 	n, u := p.Space()
+	for p.Break() || p.Comment() {
+		n, u = p.Space()
+	}
 	if u == 0 {
 		return // Error
 	}
@@ -78,6 +84,12 @@ func (p *Parser) line(ns int, types bool) (bool, error) {
 
 	n, u := p.Space()
 
+	// Empty lines and comment lines have no place in the tree, thus their
+	// indentation has no meaning.
+	if p.Break() || p.Comment() {
+		return true, nil
+	}
+
 	if n < ns {
 		for i := n; i > 0; i-- {
 			p.UnreadByte()
-- 
2.43.0


From d9b39c997c9b84071e65611986831e18f85c1ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 07/66] fix: an operator followed by a sign or a negation is
 misread, and a sign before a variable is lost

---
 lexer.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 937205f..7d052b6 100644
--- a/lexer.go
+++ b/lexer.go
@@ -483,6 +483,9 @@ func (p *Lexer) Number() (string, bool) {
 	}
 
 	p.UnreadByte()
+	if sign != 0 && len(buf) == 0 {
+		p.UnreadByte() // A sign alone is not a number
+	}
 	if sign == '-' {
 		return "-" + string(buf), len(buf) > 0
 	}
@@ -490,7 +493,8 @@ func (p *Lexer) Number() (string, bool) {
 }
 
 // Operator returns true if it finds an operator at the current parser position
-// It returns also the operator found.
+// It returns also the operator found. An operator that is followed by a sign or
+// a negation ends before these.
 func (p *Lexer) Operator() (string, bool) {
 
 	var buf []byte
@@ -504,6 +508,10 @@ func (p *Lexer) Operator() (string, bool) {
 	}
 
 	p.UnreadByte()
+	for len(buf) > 1 && precedence(string(buf)) < 0 {
+		p.UnreadByte()
+		buf = buf[:len(buf)-1]
+	}
 	return string(buf), len(buf) > 0
 }
 
-- 
2.43.0


From c2f2f043d559f38501ccb166ab7fb58592d1cd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 08/66] fix: parentheses, unary operators and nested
 expressions (arguments, indexes) evaluate wrongly or panic

---
 eval.go       | 25 +++++++++++++++++++++++--
 expression.go | 26 ++++++--------------------
 flow.go       |  9 ++++++++-
 3 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/eval.go b/eval.go
index d708441..dc18dbb 100644
--- a/eval.go
+++ b/eval.go
@@ -321,7 +321,7 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 
 	// Return nil and empty strings as is
-	if p.This == nil {
+	if p == nil || p.This == nil {
 		return nil, ErrNilReceiver
 	}
 
@@ -340,7 +340,9 @@ func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 	switch s {
 	case "!":
 		// Unary expression !expr
-		return !g.evalBool(p.Out[0]), nil
+		i, _ := g.evalExpression(p.GetAt(0), true)
+		b, _ := _boolf(i)
+		return !b, nil
 	case TypeExpression:
 		return g.evalExpression(p.GetAt(0), simpl)
 	case TypePath:
@@ -394,6 +396,25 @@ func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 
 func (g *Graph) evalBinary(p *Graph) interface{} {
 
+	// Unary + or -
+	if p.Len() == 1 {
+		i, err := g.evalExpression(p.Out[0], true)
+		if err != nil {
+			return err // ?
+		}
+		switch p.ThisString() {
+		case "+":
+			return i
+		case "-":
+			return calc(0, i, '-')
+		}
+	}
+
+	// An operand is missing
+	if p.Len() < 2 {
+		return nil
+	}
+
 	n1 := p.Out[0]
 
 	i2, err := g.evalExpression(p.Out[1], true)
diff --git a/expression.go b/expression.go
index 9fe3ba0..74cb9d6 100644
--- a/expression.go
+++ b/expression.go
@@ -28,9 +28,10 @@ func (g *Graph) ast() {
 	}
 
 	for _, node := range g.Out {
-		if node.ThisString() == TypeExpression {
+		switch node.ThisString() {
+		case TypeExpression, TypeIndex, TypeSelector:
 			node._ast()
-		} else {
+		default:
 			node.ast()
 		}
 	}
@@ -38,23 +39,7 @@ func (g *Graph) ast() {
 
 func (g *Graph) _ast() {
 
-	if g.Len() < 2 {
-		return
-	}
-
-	for _, node := range g.Out {
-		node.ast()
-	}
-
-	if g.Len() == 2 {
-		node := g.Out[0]
-
-		if node.ThisString() == "!" {
-			node.Add(g.Out[1])
-		}
-		g.DeleteAt(1)
-		return
-	}
+	g.ast()
 
 	var e1, e2 *Graph
 
@@ -62,8 +47,9 @@ func (g *Graph) _ast() {
 
 		for i := 0; i < len(g.Out); i++ {
 
+			// A binary operator has no subnodes yet, and an operand at each side
 			node := g.Out[i]
-			if precedence(node.ThisString()) == j {
+			if precedence(node.ThisString()) == j && node.Len() == 0 && i > 0 && i < len(g.Out)-1 {
 				e1 = g.Out[i-1]
 				e2 = g.Out[i+1]
 				g.Out = append(g.Out[:i-1], g.Out[i:]...)
diff --git a/flow.go b/flow.go
index 74089af..3acefc5 100644
--- a/flow.go
+++ b/flow.go
@@ -15,6 +15,7 @@ func NewPath(s string) *Graph {
 	p.Path()
 	g := p.Graph()
 	g.This = TypePath
+	g.ast()
 	return g
 }
 
@@ -202,12 +203,18 @@ func (p *Parser) UnaryExpression() bool {
 	b, ok = p.Operator()
 
 	if ok {
+		// The operand goes below the operator
 		p.ev.Add(b)
+		p.ev.Inc()
+		p.Space()
+		ok = p.UnaryExpression()
+		p.ev.Dec()
+		return ok
 	}
 
 	if p.PeekByte() == '(' {
 		p.Byte() // Consume the '('
-		p.ev.Add(TypeGroup)
+		p.ev.Add(TypeExpression)
 		p.ev.Inc()
 		p.Space()
 		p.Expression()
-- 
2.43.0


From 18b67c91331b3f28ec291c1688dab8869bfb47d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 09/66] fix: integer division and modulo by zero panic

---
 eval.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eval.go b/eval.go
index dc18dbb..6a01dfb 100644
--- a/eval.go
+++ b/eval.go
@@ -621,6 +621,9 @@ func calc(v1, v2 interface{}, op int) interface{} {
 	//log.Printf("i1 %d i2 %d i3 %f i4 %f\n", i1, i2, i3, i4)
 
 	if ok && ok2 {
+		if i2 == 0 && (op == '/' || op == '%') {
+			return nil // undefined
+		}
 		switch op {
 		case '+':
 			return i1 + i2
@@ -670,6 +673,9 @@ func calc(v1, v2 interface{}, op int) interface{} {
 	case '/':
 		return i3 / i4
 	case '%':
+		if int(i4) == 0 {
+			return nil // undefined
+		}
 		return int(i3) % int(i4)
 	}
 
-- 
2.43.0


From 6200e3d94cc1b924289ac0a36768d67cfd0c3bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 10/66] fix: an assignment operator applied to a path without a
 value panics

---
 eval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval.go b/eval.go
index 6a01dfb..482cf4f 100644
--- a/eval.go
+++ b/eval.go
@@ -576,7 +576,7 @@ func (g *Graph) assign(p *Graph, v interface{}, op int) interface{} {
 
 	// if p doesn't exist, just set it to the value given
 	left, _ := g.getPath(p)
-	if left != nil {
+	if left.Len() > 0 {
 		return g.set(p, calc(left.Out[0].This, v, op))
 	}
 
-- 
2.43.0


From 4860e659baab110c4b72532849e15c260291c445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 11/66] fix: $break inside $if does not end the loop

---
 template.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/template.go b/template.go
index 9602ce2..65f5e67 100644
--- a/template.go
+++ b/template.go
@@ -99,22 +99,22 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 			// evaluate the expression
 			yes = c.evalBool(n.GetAt(0).GetAt(0))
 			// if true, evaluate the template part
-			if yes {
-				n.GetAt(1).process(c, buffer)
+			if yes && n.GetAt(1).process(c, buffer) {
+				return true // $break
 			}
 		case TypeElseIf:
 			if !yes {
 				// evaluate the expression
 				yes = c.evalBool(n.GetAt(0).GetAt(0))
 				// if true, evaluate the template part
-				if yes {
-					n.GetAt(1).process(c, buffer)
+				if yes && n.GetAt(1).process(c, buffer) {
+					return true // $break
 				}
 			}
 		case TypeElse:
 			// if there was a previous if or elseif evaluating to false:
-			if !yes {
-				n.GetAt(0).process(c, buffer)
+			if !yes && n.GetAt(0).process(c, buffer) {
+				return true // $break
 			}
 		case TypeFor:
 			// The first subnode (of !g) is a path
-- 
2.43.0


From a2d47aa325c6562bf52684e599e1d8a00f4f2c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 12/66] fix: the binary parser never ends on a truncated text
 node, and swallows what follows an empty one

---
 binary.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index 1471b83..19fee40 100644
--- a/binary.go
+++ b/binary.go
@@ -300,13 +300,18 @@ func (p *binParser) line(write bool) (int, bool, []byte) {
 
 	// Text node. Read bytes until 0
 
+	// An empty text node, or the end of the stream
+	if n <= 0 {
+		return level, false, nil
+	}
+
 	if write {
 		buf.WriteByte(byte(n))
 	}
 
 	for {
 		c := p.read()
-		if c == 0 {
+		if c <= 0 {
 			return level, false, buf.Bytes()
 		}
 		if write {
-- 
2.43.0


From e56a2ea0f182b009642d788800ba7e7b1363233b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 13/66] fix: the binary parser swallows all nodes after a
 binary node

---
 binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index 19fee40..e4d5327 100644
--- a/binary.go
+++ b/binary.go
@@ -282,7 +282,7 @@ func (p *binParser) line(write bool) (int, bool, []byte) {
 		// Read length, then bytes
 		for {
 			n = p.varInt()
-			if n < 0 {
+			if n <= 0 {
 				break
 			}
 			for ; n != 0; n-- {
-- 
2.43.0


From d61caf0f9575fefb34e31f1a32c83cfabbf88a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 14/66] fix: 4 byte variable integers are written wrongly

---
 binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index e4d5327..33217ac 100644
--- a/binary.go
+++ b/binary.go
@@ -186,7 +186,7 @@ func newVarInt(i int) []byte {
 	if i < 0x10000000 {
 		b := make([]byte, 4)
 		b[0] = byte(i>>24 | 0xe0)
-		b[1] = byte(i>>16 | 0xff)
+		b[1] = byte(i >> 16 & 0xff)
 		b[2] = byte(i >> 8 & 0xff)
 		b[3] = byte(i & 0xff)
 		return b
-- 
2.43.0


From e52b7dbab1a6455973812cbb861fecc25b411bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 15/66] fix: content with a NUL byte, or beginning with 0x01,
 corrupts the binary stream

---
 binary.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/binary.go b/binary.go
index 33217ac..8a592d5 100644
--- a/binary.go
+++ b/binary.go
@@ -117,6 +117,15 @@ func (g *Graph) bin(level int, buf []byte) []byte {
 	b := _bytes(g.This)
 	if len(b) != 0 {
 		buf = append(buf, newVarInt(level)...)
+		if b[0] == 1 || bytes.IndexByte(b, 0) != -1 {
+			// This content cannot be sent as text
+			buf = append(buf, 1)
+			for max := 0xfffffff; len(b) > max; b = b[max:] {
+				buf = append(buf, newVarInt(max)...)
+				buf = append(buf, b[:max]...)
+			}
+			buf = append(buf, newVarInt(len(b))...)
+		}
 		buf = append(buf, b...)
 		buf = append(buf, 0)
 		level++
-- 
2.43.0


From 21ed73d8c0ea27817ab432ea2d2bf726d06ec9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 16/66] fix: a truncated binary stream is taken for a complete
 one

---
 binary.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index 8a592d5..e4aea47 100644
--- a/binary.go
+++ b/binary.go
@@ -150,6 +150,10 @@ func (p *binParser) parse() *Graph {
 	for {
 		lev, bin, b := p.line(true)
 
+		// A stream that ends before its final 0x00 is not complete
+		if p.last < 0 {
+			return nil
+		}
 		if lev == 0 {
 			break
 		}
@@ -336,7 +340,7 @@ func (p *binParser) read() int {
 	i, err := p.r.ReadByte()
 
 	c := int(i)
-	if err == io.EOF {
+	if err != nil {
 		c = -1
 	} else {
 		p.n++
-- 
2.43.0


From 1df9c3d3f3ab283d82fed9759ec788e903a4e112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 17/66] fix: Log.GetBinary returns the length of the object
 instead of the position of the next

---
 log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log.go b/log.go
index 9567f32..41c0a77 100644
--- a/log.go
+++ b/log.go
@@ -164,5 +164,5 @@ func (log *Log) GetBinary(i int64) ([]byte, int64, error) {
 	b := make([]byte, n)
 	_, err = log.f.ReadAt(b, i)
 
-	return b, int64(n), err
+	return b, i + int64(n), err
 }
-- 
2.43.0


From 302dc0e005e8594f2ce404bfb37cc850c4104c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 18/66] fix: Log.Get and Log.GetBinary report no error for an
 incomplete object

---
 log.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/log.go b/log.go
index 41c0a77..083ca8d 100644
--- a/log.go
+++ b/log.go
@@ -6,6 +6,7 @@ package ogdl
 
 import (
 	"bytes"
+	"io"
 	"os"
 )
 
@@ -127,6 +128,9 @@ func (log *Log) Get(i int64) (*Graph, int64, error) {
 	if p.n == 0 {
 		return g, -1, nil
 	}
+	if p.last < 0 {
+		return nil, -1, io.ErrUnexpectedEOF
+	}
 
 	return g, i + int64(p.n), err
 }
@@ -153,6 +157,9 @@ func (log *Log) GetBinary(i int64) ([]byte, int64, error) {
 	}
 	for {
 		lev, _, _ /* typ, b*/ := p.line(false)
+		if p.last < 0 {
+			return nil, -1, io.ErrUnexpectedEOF
+		}
 		if lev == 0 {
 			break
 		}
-- 
2.43.0


From 6a9697e22993901256c6fa14fff524c114913ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 19/66] fix: Set panics on a negative index, takes an index
 expression as 0, and leaves nil subnodes below an index beyond the end

---
 graph.go | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/graph.go b/graph.go
index 710796b..095a825 100644
--- a/graph.go
+++ b/graph.go
@@ -298,16 +298,7 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 
 		elem := path.Out[i]
 		if elem.ThisString() == TypeIndex {
-			i := elem.Int64()
-			if len(node.Out) <= int(i) {
-				o := make([]*Graph, i+1)
-				for j, n := range node.Out {
-					o[j] = n
-				}
-				node.Out = o
-			}
-			node.Out[i] = New(val)
-			return node.Out[i]
+			return node.setAt(elem.index(g), val)
 		}
 		node = node.Node(elem.ThisString())
 
@@ -323,16 +314,7 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 			elem := path.Out[i]
 
 			if elem.ThisString() == TypeIndex {
-				i := elem.Int64()
-				if len(node.Out) <= int(i) {
-					o := make([]*Graph, i+1)
-					for j, n := range node.Out {
-						o[j] = n
-					}
-					node.Out = o
-				}
-				node.Out[i] = New(val)
-				return node.Out[i]
+				return node.setAt(elem.index(g), val)
 			}
 
 			node = node.Add(elem.This)
@@ -344,6 +326,19 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 	return node.addNodes(val)
 }
 
+// setAt sets the subnode with the given index. Subnodes that don't exist up to
+// that index are created.
+func (g *Graph) setAt(i int, val interface{}) *Graph {
+	if i < 0 {
+		return nil
+	}
+	for len(g.Out) <= i {
+		g.Out = append(g.Out, New("_"))
+	}
+	g.Out[i] = New(val)
+	return g.Out[i]
+}
+
 // Text is the OGDL text emitter. It converts a Graph into OGDL text.
 //
 // Strings are quoted if they contain spaces, newlines or special
-- 
2.43.0


From c6e8a9916914be9ce88399f47be7800324a2769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 20/66] fix: accessors panic on a nil graph, although a path
 that is not found yields one

---
 gettypes.go | 34 +++++++++++++++++++++++++++++-----
 graph.go    | 15 ++++++++++++++-
 sort.go     |  9 +++++++++
 3 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/gettypes.go b/gettypes.go
index d539673..28d0d2a 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -26,6 +26,10 @@ func (g *Graph) Find(re string) (*Graph, error) {
 
 	r := New("_")
 
+	if g == nil {
+		return r, nil
+	}
+
 	for _, node := range g.Out {
 		if exp.MatchString(node.ThisString()) {
 			r.Add(node)
@@ -76,6 +80,9 @@ func (g *Graph) Bool(def ...bool) bool {
 
 // ThisValue returns this node as a reflect.Value.
 func (g *Graph) ThisValue() reflect.Value {
+	if g == nil {
+		return reflect.Value{}
+	}
 	return reflect.ValueOf(g.This)
 }
 
@@ -115,6 +122,10 @@ func (g *Graph) StringCSV(def ...string) string {
 		return def[0]
 	}
 
+	if g.Len() == 0 {
+		return ""
+	}
+
 	s := ""
 
 	for _, n := range g.Out {
@@ -192,6 +203,9 @@ func (g *Graph) Bytes() []byte {
 
 // ThisBytes returns the node as []byte, or nil if not possble.
 func (g *Graph) ThisBytes() []byte {
+	if g == nil {
+		return nil
+	}
 	return _bytes(g.This)
 }
 
@@ -202,16 +216,25 @@ func (g *Graph) Number() interface{} {
 
 // ThisNumber returns either a float64, int64 or nil
 func (g *Graph) ThisNumber() interface{} {
+	if g == nil {
+		return nil
+	}
 	return number(g.This)
 }
 
 // ThisInt64 returns a int64 or nil
 func (g *Graph) ThisInt64() (int64, bool) {
+	if g == nil {
+		return 0, false
+	}
 	return _int64f(g.This)
 }
 
 // ThisFloat64 returns a float64
 func (g *Graph) ThisFloat64() (float64, bool) {
+	if g == nil {
+		return 0, false
+	}
 	return _float64f(g.This)
 }
 
@@ -231,9 +254,6 @@ func (g *Graph) ThisFloat64() (float64, bool) {
 func (g *Graph) Scalar() interface{} {
 
 	itf := g.Interface()
-	if itf == nil && g.Out != nil {
-		itf = g.Out[0].This
-	}
 
 	// If it can be parsed as a number, return it.
 	n := number(itf)
@@ -254,9 +274,13 @@ func (g *Graph) Scalar() interface{} {
 // ThisScalar returns this node's content as an interface
 func (g *Graph) ThisScalar() interface{} {
 
+	if g == nil {
+		return nil
+	}
+
 	itf := g.This
-	if itf == nil && g.Out != nil {
-		itf = g.Out[0].This
+	if itf == nil {
+		itf = g.Interface()
 	}
 
 	// If it ca be parsed as a number, return it.
diff --git a/graph.go b/graph.go
index 095a825..317daad 100644
--- a/graph.go
+++ b/graph.go
@@ -32,12 +32,18 @@ func (g *Graph) Len() int {
 
 // ThisType returns the name of the native type contained in the current node.
 func (g *Graph) ThisType() string {
+	if g == nil || g.This == nil {
+		return ""
+	}
 	return reflect.TypeOf(g.This).String()
 }
 
 // Equals returns true if the given graph and the receiver graph are equal.
 func (g *Graph) Equals(c *Graph) bool {
 
+	if g == nil || c == nil {
+		return g == c
+	}
 	if c.This != g.This {
 		return false
 	}
@@ -202,7 +208,7 @@ func (g *Graph) Create(s string) *Graph {
 
 // GetAt returns a subnode by index, or nil if the index is out of range.
 func (g *Graph) GetAt(i int) *Graph {
-	if i >= len(g.Out) || i < 0 {
+	if g == nil || i >= len(g.Out) || i < 0 {
 		return nil
 	}
 
@@ -287,6 +293,10 @@ func (g *Graph) Set(s string, val interface{}) *Graph {
 // TODO: Clean this code:
 func (g *Graph) set(path *Graph, val interface{}) *Graph {
 
+	if g == nil {
+		return nil
+	}
+
 	node := g
 
 	i := 0
@@ -512,6 +522,9 @@ func (g *Graph) Substitute(s string, v interface{}) {
 // Merge the given graph into the current (receiver) graph
 func (g *Graph) Merge(src *Graph) {
 
+	if g == nil || src == nil {
+		return
+	}
 	for _, node := range src.Out {
 		n := g.Node(node.String())
 
diff --git a/sort.go b/sort.go
index ad80725..1f56e66 100644
--- a/sort.go
+++ b/sort.go
@@ -11,11 +11,17 @@ type stringSorter struct {
 }
 
 func (g *Graph) Sort(field string) {
+	if g == nil {
+		return
+	}
 	s := stringSorter{field, g.Out}
 	sort.Sort(s)
 }
 
 func (g *Graph) SortAsString(field string) {
+	if g == nil {
+		return
+	}
 	s := stringSorter{field, g.Out}
 	sort.Sort(s)
 }
@@ -38,6 +44,9 @@ type intSorter struct {
 }
 
 func (g *Graph) SortAsInt(field string) {
+	if g == nil {
+		return
+	}
 	s := intSorter{field, g.Out}
 	sort.Sort(s)
 }
-- 
2.43.0


From 531f97f203e3c3a399c6bbcb8552894c416af736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 21/66] fix: a string of only spaces makes Number and Scalar
 panic

---
 gettypes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gettypes.go b/gettypes.go
index 28d0d2a..f2952da 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -716,7 +716,7 @@ func isInteger(s string) bool {
 		}
 	}
 
-	if s[i] == '-' {
+	if i < l && s[i] == '-' {
 		i++
 	}
 
-- 
2.43.0


From 59a6d3827ff1fa9cac6903f76e23edf8a01f8208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 22/66] fix: Check panics if the schema has an empty node

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index ff81607..d684d6a 100644
--- a/schema.go
+++ b/schema.go
@@ -41,7 +41,7 @@ func (g *Graph) checkNode(x *Graph) bool {
 	var ok bool
 
 	// literal | literal* | literal? | literal+ | ** | ***
-	if sc[0] != '!' {
+	if len(sc) == 0 || sc[0] != '!' {
 		return sx == sc
 	}
 
-- 
2.43.0


From ade22895525e22fcd20fad8f3317578c879b53b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 23/66] fix: Equals and Delete panic on content that is not
 comparable ([]byte)

---
 graph.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index 317daad..f598fd2 100644
--- a/graph.go
+++ b/graph.go
@@ -44,7 +44,7 @@ func (g *Graph) Equals(c *Graph) bool {
 	if g == nil || c == nil {
 		return g == c
 	}
-	if c.This != g.This {
+	if !reflect.DeepEqual(c.This, g.This) {
 		return false
 	}
 	if g.Len() != c.Len() {
@@ -243,7 +243,7 @@ func (g *Graph) Delete(n interface{}) {
 		return
 	}
 	for i := 0; i < g.Len(); i++ {
-		if g.Out[i].This == n {
+		if reflect.DeepEqual(g.Out[i].This, n) {
 			if i < (g.Len() - 1) {
 				g.Out = append(g.Out[:i], g.Out[i+1:]...)
 			} else {
-- 
2.43.0


From 7eaab29f3343680c36b514cc4ef8d3dc3bdfaa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 24/66] fix: Merge looks for the value of a node instead of its
 name, and never replaces anything

---
 graph.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index f598fd2..8d0f3cf 100644
--- a/graph.go
+++ b/graph.go
@@ -526,13 +526,13 @@ func (g *Graph) Merge(src *Graph) {
 		return
 	}
 	for _, node := range src.Out {
-		n := g.Node(node.String())
+		n := g.Node(node.ThisString())
 
 		if n == nil {
 			g.Add(node)
 		} else {
 			n.Out = nil
-			n.Merge(node)
+			n.AddNodes(node)
 		}
 	}
 }
-- 
2.43.0


From d4ba0a01e5f8742465409fcce84958205a16c900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:36 +0000
Subject: [PATCH 25/66] fix: FromJSON drops all but the first element of a top
 level array

---
 encoding.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/encoding.go b/encoding.go
index ae60afd..a1123f3 100644
--- a/encoding.go
+++ b/encoding.go
@@ -43,7 +43,14 @@ func FromJSON(buf []byte) (*Graph, error) {
 		return nil, err
 	}
 
-	return toGraph(v).GetAt(0), nil
+	g := toGraph(v)
+
+	// A list has no root node: its elements are the subnodes of g.
+	if _, ok := v.([]interface{}); ok {
+		return g, nil
+	}
+
+	return g.GetAt(0), nil
 }
 
 func toGraph(v interface{}) *Graph {
-- 
2.43.0


From 864b0977f59e0825ef85622a09f9576e25d7e8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:37 +0000
Subject: [PATCH 26/66] fix: JSON modifies the graph while reading it

---
 encoding.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/encoding.go b/encoding.go
index a1123f3..d76899d 100644
--- a/encoding.go
+++ b/encoding.go
@@ -110,14 +110,10 @@ func (g *Graph) JSON() []byte {
 	var buf *bytes.Buffer
 	buf = new(bytes.Buffer)
 
-	// Temporarily set root to something different than _
-	i := g.This
-	g.This = ""
+	// Set root to something different than _, on a copy: g may be in use elsewhere
+	root := &Graph{"", g.Out}
 
-	g.json(buf)
-
-	// Restore root
-	g.This = i
+	root.json(buf)
 
 	return buf.Bytes()
 }
-- 
2.43.0


From f687b4a6dd8326e732770379b006c69fa733c976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 27/66] fix: function calls from paths and templates panic on
 missing, excess nil or inconvertible arguments

---
 function.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/function.go b/function.go
index bb11df0..bfffe40 100644
--- a/function.go
+++ b/function.go
@@ -50,6 +50,10 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 		//log.Println(runtime.FuncForPC(v.Pointer()).Name())
 		//log.Println(reflect.TypeOf(typ).String())
 
+		if len(path.Out) < 2 {
+			return nil, errors.New("No arguments")
+		}
+
 		// Pre-evaluate
 		var args []interface{}
 
@@ -75,6 +79,12 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 			}
 		}
 
+		// Check that the argument types match, otherwise v.Call() will panic
+		if v.Type().NumIn() != len(args) {
+			// TODO Check that we print the name of the function
+			return nil, fmt.Errorf("Invalid number of arguments in function %s (is %d, soll %d)\n%s", runtime.FuncForPC(v.Pointer()).Name(), len(args), v.Type().NumIn(), path.Show())
+		}
+
 		for i, arg := range args {
 			if arg == nil {
 				// No untyped nil support :-(
@@ -84,12 +94,6 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 			}
 		}
 
-		// Check that the argument types match, otherwise v.Call() will panic
-		if v.Type().NumIn() != len(args) {
-			// TODO Check that we print the name of the function
-			return nil, fmt.Errorf("Invalid number of arguments in function %s (is %d, soll %d)\n%s", runtime.FuncForPC(v.Pointer()).Name(), len(args), v.Type().NumIn(), path.Show())
-		}
-
 		for i := 0; i < v.Type().NumIn(); i++ {
 			if v.Type().In(i).String() != vargs[i].Type().String() {
 				return nil, errors.New("arguments do not match")
@@ -151,7 +155,11 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 
 			// Type adapter. A bit slow (cache could help)
 			dtype := mtype.In(i).String()
-			vargs = append(vargs, convert(args[i], dtype))
+			varg := convert(args[i], dtype)
+			if !varg.IsValid() {
+				return nil, errors.New("arguments do not match")
+			}
+			vargs = append(vargs, varg)
 		}
 
 		// log.Printf(" - vargs: %v", vargs)
-- 
2.43.0


From 6789d90974cae5483ce996c795b882980061943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 28/66] fix: a path with an empty group panics

---
 eval.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eval.go b/eval.go
index 482cf4f..bd1dbcf 100644
--- a/eval.go
+++ b/eval.go
@@ -125,6 +125,9 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 
 		case TypeGroup:
 			// The expression is evaluated and used as path element
+			if pathNode.Len() == 0 {
+				return nil, ErrInvalidArgs
+			}
 			itf, err := g.Eval(pathNode.Out[0])
 			if err != nil {
 				return nil, err
@@ -265,6 +268,9 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 
 		case TypeGroup:
 			// The expression is evaluated and used as path element
+			if pathNode.Len() == 0 {
+				return nil, ErrInvalidArgs
+			}
 			itf, err := g.Eval(pathNode.Out[0])
 			if err != nil {
 				return nil, err
-- 
2.43.0


From fd64b161262367e8a21fcb711ae990310f72223d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:29 +0000
Subject: [PATCH 29/66] fix: Copy drops the subnodes of nodes without content

---
 graph.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index 8d0f3cf..fc4e38c 100644
--- a/graph.go
+++ b/graph.go
@@ -133,7 +133,8 @@ func (g *Graph) Copy(c *Graph) {
 		return
 	}
 	for _, n := range c.Out {
-		nn := g.Add(n.This)
+		nn := New(n.This)
+		g.Out = append(g.Out, nn)
 		nn.Copy(n)
 	}
 }
-- 
2.43.0


From 5e766fdeb77232602e8b6ad9ec471d5a202ddc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 30/66] fix: an index out of range, or comparing a number with
 a missing value, panics or yields a bogus node

---
 eval.go     | 9 +++++++--
 gettypes.go | 3 +++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/eval.go b/eval.go
index bd1dbcf..49cfa37 100644
--- a/eval.go
+++ b/eval.go
@@ -71,8 +71,13 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 				return nil, ErrInvalidIndex
 			}
 
+			n := ctx.GetAt(ix)
+			if n == nil {
+				return nil, nil
+			}
+
 			r := New("[")
-			r.Add(ctx.GetAt(ix))
+			r.Add(n)
 			ctxPrev = ctx
 			ctx = r
 
@@ -308,7 +313,7 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 		}
 	}
 
-	if addRoot {
+	if addRoot && ctx != nil {
 		r := New("[")
 		r.Add(ctx)
 		ctx = r
diff --git a/gettypes.go b/gettypes.go
index f2952da..2c257e2 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -494,6 +494,9 @@ func _float64(i interface{}) (float64, bool) {
 func _int64f(i interface{}) (int64, bool) {
 
 	if i2, ok := i.(*Graph); ok {
+		if i2 == nil {
+			return 0, false
+		}
 		i = i2.This
 	}
 
-- 
2.43.0


From dd252a563d8c47f5399b4fdf84f21e7f11d18b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 31/66] fix: ogdlrf fails on messages delivered in several
 segments, and blocks on an empty response

---
 ogdlrf/client.go | 26 ++++++++------------------
 ogdlrf/server.go |  5 +++--
 2 files changed, 11 insertions(+), 20 deletions(-)

diff --git a/ogdlrf/client.go b/ogdlrf/client.go
index 2945e95..e785741 100644
--- a/ogdlrf/client.go
+++ b/ogdlrf/client.go
@@ -7,6 +7,7 @@ package ogdlrf
 import (
 	"encoding/binary"
 	"errors"
+	"io"
 
 	"log"
 	"net"
@@ -102,31 +103,20 @@ func (rf *Client) callV2(g *ogdl.Graph) (*ogdl.Graph, error) {
 	}
 
 	// Read header response
-	j, err := rf.conn.Read(b4)
-	if j != 4 {
+	_, err = io.ReadFull(rf.conn, b4)
+	if err != nil {
 		log.Println("error reading incomming message LEN")
 		return nil, errors.New("error in message header")
 	}
 	l := binary.BigEndian.Uint32(b4)
 
 	// Read body response
-	buf3 := make([]byte, 0, l)
-	tmp := make([]byte, 10000)
-	l2 := uint32(0)
-
-	for {
-		i, err = rf.conn.Read(tmp)
-		l2 += uint32(i)
-		if err != nil || i == 0 {
-			log.Println("Error reading body", l2, l, err)
-			return nil, err
-		}
-
-		buf3 = append(buf3, tmp[:i]...)
+	buf3 := make([]byte, l)
 
-		if l2 >= l {
-			break
-		}
+	_, err = io.ReadFull(rf.conn, buf3)
+	if err != nil {
+		log.Println("Error reading body", l, err)
+		return nil, err
 	}
 
 	g = ogdl.FromBinary(buf3)
diff --git a/ogdlrf/server.go b/ogdlrf/server.go
index 5f399a5..c31b67c 100644
--- a/ogdlrf/server.go
+++ b/ogdlrf/server.go
@@ -6,6 +6,7 @@ package ogdlrf
 
 import (
 	"encoding/binary"
+	"io"
 	"log"
 	"net"
 	"time"
@@ -119,7 +120,7 @@ func process(c net.Conn, handler Function, timeout int) {
 		// Thus, first read 4 bytes (LEN)
 
 		c.SetReadDeadline(time.Now().Add(time.Second * time.Duration(timeout)))
-		i, err := c.Read(b4)
+		i, err := io.ReadFull(c, b4)
 
 		if i == 0 {
 			break
@@ -144,7 +145,7 @@ func process(c net.Conn, handler Function, timeout int) {
 			log.Println("ogdlrf.Serve, cannot allocate memory for message")
 			break
 		}
-		i, err = c.Read(buf)
+		i, err = io.ReadFull(c, buf)
 
 		if err != nil {
 			log.Println("ogdlrf.Serve, error reading message body, ", err)
-- 
2.43.0


From ae7d302c686b514b6077f865e54a75c1ffa6d0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 32/66] fix: ogdlrf.Client takes the late response of a failed
 call for that of the next, and leaks failed connections

---
 ogdlrf/client.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ogdlrf/client.go b/ogdlrf/client.go
index e785741..57a0cfc 100644
--- a/ogdlrf/client.go
+++ b/ogdlrf/client.go
@@ -64,11 +64,15 @@ func (rf *Client) Call(g *ogdl.Graph) (*ogdl.Graph, error) {
 		if err == nil {
 			break
 		}
+
+		// Don't reuse a connection that failed: the response to this request
+		// can still arrive, and would be taken for that of the next one.
+		rf.Close()
+
 		n--
 		if n < 0 {
 			break
 		}
-		rf.conn = nil
 	}
 
 	return r, err
@@ -136,12 +140,10 @@ func (rf *Client) callV1(g *ogdl.Graph) (*ogdl.Graph, error) {
 	n, err := rf.conn.Write(b)
 
 	if err != nil {
-		rf.conn = nil
 		log.Println("callv1", err)
 		return nil, err
 	}
 	if n != len(b) {
-		rf.conn = nil
 		log.Println("callv1", err)
 		return nil, errWriting
 	}
-- 
2.43.0


From 0a00c6d47f8320679b5bf8720e203e56cb2de3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:27 +0000
Subject: [PATCH 33/66] fix: Log.Add and Log.AddBinary return a position, and
 leave a partial object, if the object cannot be written

---
 log.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/log.go b/log.go
index 083ca8d..cf59df8 100644
--- a/log.go
+++ b/log.go
@@ -53,7 +53,7 @@ func (log *Log) SetSync(sync bool) {
 }
 
 // Add adds an OGDL object to the log. The starting position into the log
-// is returned.
+// is returned, or -1 if the object could not be written.
 func (log *Log) Add(g *Graph) int64 {
 
 	b := g.Binary()
@@ -66,7 +66,12 @@ func (log *Log) Add(g *Graph) int64 {
 
 		i, _ := log.f.Seek(0, 2)
 
-		log.f.Write(b)
+		_, err := log.f.Write(b)
+		if err != nil {
+			// Leave nothing of it: what follows would be taken for the rest
+			log.f.Truncate(i)
+			return -1
+		}
 
 		if log.autoSync {
 			log.f.Sync()
@@ -91,12 +96,17 @@ func (log *Log) Bytes() []byte {
 }
 
 // AddBinary adds an OGDL binary object to the log. The starting position into
-// the log is returned.
+// the log is returned, or -1 if the object could not be written.
 func (log *Log) AddBinary(b []byte) int64 {
 
 	if log.f != nil {
 		i, _ := log.f.Seek(0, 2)
-		log.f.Write(b)
+		_, err := log.f.Write(b)
+		if err != nil {
+			// Leave nothing of it: what follows would be taken for the rest
+			log.f.Truncate(i)
+			return -1
+		}
 
 		if log.autoSync {
 			log.f.Sync()
-- 
2.43.0


From c906ae45cd9a914860427658db53c247b1315dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 34/66] fix: parsing never ends if an argument begins with a
 byte that only looks like a letter

---
 flow.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flow.go b/flow.go
index 3acefc5..d88e90a 100644
--- a/flow.go
+++ b/flow.go
@@ -180,9 +180,13 @@ func (p *Parser) UnaryExpression() bool {
 	if IsLetter(rune(c)) {
 		p.ev.Add(TypePath)
 		p.ev.Inc()
-		p.Path()
+		ok := p.Path()
 		p.ev.Dec()
-		return true
+		if !ok {
+			// Not a letter, although its first byte looks like one
+			p.ev.Delete()
+		}
+		return ok
 	}
 
 	b, ok := p.Number()
-- 
2.43.0


From 5e6d6e3c80ee6a110ba5bcb9084f9f9be1877d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 35/66] fix: a binary stream with an invalid variable integer
 is taken for a complete one

---
 binary.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/binary.go b/binary.go
index e4aea47..d060558 100644
--- a/binary.go
+++ b/binary.go
@@ -259,6 +259,8 @@ func (p *binParser) varInt() int {
 		return ((b0 & 0x0f) << 24) | (b1 << 16) | (b2 << 8) | b3
 	}
 
+	// Not a variable integer: what follows cannot be read
+	p.last = -1
 	return -1
 }
 
-- 
2.43.0


From cdda5c340e36074f300e7a6f8a1a833b473b07e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 36/66] fix: a block loses its first byte if its first line
 ends with CR alone

---
 lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 7d052b6..bf82020 100644
--- a/lexer.go
+++ b/lexer.go
@@ -568,7 +568,7 @@ func (p *Lexer) Block(nsp int) (string, bool) {
 		return "", false
 	}
 	// Read NL if CR was found
-	if c == 13 {
+	if c == 13 && p.PeekByte() == 10 {
 		p.Byte()
 	}
 
-- 
2.43.0


From df690b3a91bf63318fcc5dcd9e6a29d59915707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:39 +0000
Subject: [PATCH 37/66] fix: Log.GetBinary reports an object that is cut within
 its header

---
 log.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/log.go b/log.go
index cf59df8..94e10fb 100644
--- a/log.go
+++ b/log.go
@@ -163,6 +163,9 @@ func (log *Log) GetBinary(i int64) ([]byte, int64, error) {
 	p := newBinParser(log.f)
 
 	if !p.header() {
+		if p.n > 0 && p.last < 0 {
+			return nil, -1, io.ErrUnexpectedEOF
+		}
 		return nil, 0, err
 	}
 	for {
-- 
2.43.0


From caaa7b7d1199b20c810a0992d5ffc3944d75b89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:39 +0000
Subject: [PATCH 38/66] fix: Copy of a graph into one of its own nodes never
 ended

---
 graph.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/graph.go b/graph.go
index fc4e38c..069c8d7 100644
--- a/graph.go
+++ b/graph.go
@@ -132,11 +132,7 @@ func (g *Graph) Copy(c *Graph) {
 	if g == nil || c == nil {
 		return
 	}
-	for _, n := range c.Out {
-		nn := New(n.This)
-		g.Out = append(g.Out, nn)
-		nn.Copy(n)
-	}
+	g.Out = append(g.Out, c.Clone().Out...)
 }
 
 // Clone returns a copy of the current graph.
-- 
2.43.0


From 090b8924b7150f34e05263aceb557a22ff0a3870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 39/66] fix: Merge of a graph that was merged before emptied
 its nodes

---
 graph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index 069c8d7..85a603c 100644
--- a/graph.go
+++ b/graph.go
@@ -527,7 +527,7 @@ func (g *Graph) Merge(src *Graph) {
 
 		if n == nil {
 			g.Add(node)
-		} else {
+		} else if n != node {
 			n.Out = nil
 			n.AddNodes(node)
 		}
-- 
2.43.0


From fbc3040eaf20ad58eaf1cd91dbf47998e7ba1fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:53 +0000
Subject: [PATCH 40/66] fix: adding a missing graph added a node with a nil
 graph as content

---
 graph.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index 85a603c..67431f3 100644
--- a/graph.go
+++ b/graph.go
@@ -66,7 +66,10 @@ func (g *Graph) Add(n interface{}) *Graph {
 		return nil
 	}
 
-	if node, ok := n.(*Graph); ok && node != nil {
+	if node, ok := n.(*Graph); ok {
+		if node == nil {
+			return nil
+		}
 		g.Out = append(g.Out, node)
 		return node
 	}
@@ -83,7 +86,10 @@ func (g *Graph) addNodes(n interface{}) *Graph {
 		return nil
 	}
 
-	if node, ok := n.(*Graph); ok && node != nil {
+	if node, ok := n.(*Graph); ok {
+		if node == nil {
+			return nil
+		}
 		g.Out = append(g.Out, node.Out...)
 		return node
 	}
-- 
2.43.0


From 85649d5c8a1534f900bde94e3d202448d69389e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:28 +0000
Subject: [PATCH 41/66] fix: Get found nothing below an index

---
 eval.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/eval.go b/eval.go
index 49cfa37..090aee8 100644
--- a/eval.go
+++ b/eval.go
@@ -50,6 +50,7 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 	ctx := g            // Current context node
 	var ctxPrev *Graph  // Previous context node
 	var elemPrev string // Previous path element searched in the context node
+	var addRoot bool    // The path ends with an index
 
 	for i := 0; i < len(p.Out); i++ {
 
@@ -59,6 +60,7 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 
 		pathNode := p.Out[i]
 		pathElement := pathNode.ThisString()
+		addRoot = false
 
 		switch pathElement {
 
@@ -71,15 +73,9 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 				return nil, ErrInvalidIndex
 			}
 
-			n := ctx.GetAt(ix)
-			if n == nil {
-				return nil, nil
-			}
-
-			r := New("[")
-			r.Add(n)
 			ctxPrev = ctx
-			ctx = r
+			ctx = ctx.GetAt(ix)
+			addRoot = true
 
 		case TypeSelector:
 
@@ -167,6 +163,12 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 		}
 	}
 
+	if addRoot && ctx != nil {
+		r := New("[")
+		r.Add(ctx)
+		ctx = r
+	}
+
 	return ctx, nil
 }
 
-- 
2.43.0


From c9e5fb5d5c4e210b52798c12141e4eac1cbaa797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:30 +0000
Subject: [PATCH 42/66] fix: a selector beyond the last node of that name
 yielded an empty node

---
 eval.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/eval.go b/eval.go
index 090aee8..f32cb3b 100644
--- a/eval.go
+++ b/eval.go
@@ -102,7 +102,9 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 						}
 					}
 				}
-
+				if ix != 0 {
+					r = nil // There are not so many
+				}
 			}
 			ctxPrev = ctx
 			ctx = r
@@ -236,7 +238,9 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 						}
 					}
 				}
-
+				if ix != 0 {
+					r = nil // There are not so many
+				}
 			}
 			ctxPrev = ctx
 			ctx = r
-- 
2.43.0


From dfb9baedbefa8e7202b3613d4d0845bd3808258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:31 +0000
Subject: [PATCH 43/66] fix: an operand that cannot be evaluated made the error
 the value of the expression

---
 eval.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eval.go b/eval.go
index f32cb3b..b749c09 100644
--- a/eval.go
+++ b/eval.go
@@ -417,7 +417,7 @@ func (g *Graph) evalBinary(p *Graph) interface{} {
 	if p.Len() == 1 {
 		i, err := g.evalExpression(p.Out[0], true)
 		if err != nil {
-			return err // ?
+			return nil // undefined
 		}
 		switch p.ThisString() {
 		case "+":
@@ -436,7 +436,7 @@ func (g *Graph) evalBinary(p *Graph) interface{} {
 
 	i2, err := g.evalExpression(p.Out[1], true)
 	if err != nil {
-		return err // ?
+		return nil // undefined
 	}
 
 	switch p.ThisString() {
@@ -456,7 +456,7 @@ func (g *Graph) evalBinary(p *Graph) interface{} {
 
 	i1, err := g.evalExpression(n1, true)
 	if err != nil {
-		return err // ?
+		return nil // undefined
 	}
 
 	switch p.ThisString() {
-- 
2.43.0


From d9d8d06779457020c193016b5d66d5ef05109a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:49 +0000
Subject: [PATCH 44/66] fix: $for skipped a list of one element

---
 template.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/template.go b/template.go
index 65f5e67..1a60507 100644
--- a/template.go
+++ b/template.go
@@ -120,7 +120,9 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 			// The first subnode (of !g) is a path
 			// The second is an expression evaluating to a list of elements
 
-			i, _ := c.Eval(n.GetAt(0).GetAt(1))
+			// (not simplified: a list of one element is still a list)
+
+			i, _ := c.evalExpression(n.GetAt(0).GetAt(1), false)
 
 			// fmt.Printf("-------\nfor (expr)\n-------\n%s\n\n", n.GetAt(0).GetAt(1).Show())
 
-- 
2.43.0


From 2c4af593dfdd0f68ac44e18d9a96b47168e1cfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:50 +0000
Subject: [PATCH 45/66] fix: $for over the context put the loop variable below
 itself

---
 template.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/template.go b/template.go
index 1a60507..a0c048d 100644
--- a/template.go
+++ b/template.go
@@ -146,11 +146,14 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 			// Assing expression value to path
 			// XXX if not Graph
 
+			// The elements as they are now: the context itself can be the list
+			elems := append([]*Graph(nil), gi.Out...)
+
 			varname := n.GetAt(0).GetAt(0).GetAt(0).String()
 			c.Delete(varname)
 			it := c.Add(varname)
 
-			for _, ee := range gi.Out {
+			for _, ee := range elems {
 
 				it.Out = nil
 				it.Add(ee)
-- 
2.43.0


From be47b4964a6a8c924db896a3c5aa6d54abb5566d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 46/66] fix: assigning a graph to a node within it made a
 cycle, or emptied it

---
 graph.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/graph.go b/graph.go
index 67431f3..602ff11 100644
--- a/graph.go
+++ b/graph.go
@@ -334,11 +334,29 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 		}
 	}
 
+	// A graph that contains the node would end up below itself
+	if n, ok := val.(*Graph); ok && n.contains(node) {
+		val = n.Clone()
+	}
+
 	node.Out = nil
 
 	return node.addNodes(val)
 }
 
+// contains returns true if the node given is part of the graph.
+func (g *Graph) contains(node *Graph) bool {
+	if g == nil || g == node {
+		return g != nil
+	}
+	for _, n := range g.Out {
+		if n.contains(node) {
+			return true
+		}
+	}
+	return false
+}
+
 // setAt sets the subnode with the given index. Subnodes that don't exist up to
 // that index are created.
 func (g *Graph) setAt(i int, val interface{}) *Graph {
@@ -348,6 +366,9 @@ func (g *Graph) setAt(i int, val interface{}) *Graph {
 	for len(g.Out) <= i {
 		g.Out = append(g.Out, New("_"))
 	}
+	if n, ok := val.(*Graph); ok && n.contains(g) {
+		val = n.Clone()
+	}
 	g.Out[i] = New(val)
 	return g.Out[i]
 }
-- 
2.43.0


From b6fa5170d0e66f36b62227ef3aab1fac7589504b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:15 +0000
Subject: [PATCH 47/66] fix: a path swallowed a dot that ends the sentence

---
 flow.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/flow.go b/flow.go
index d88e90a..95685db 100644
--- a/flow.go
+++ b/flow.go
@@ -3,6 +3,7 @@ package ogdl
 import (
 	"bytes"
 	"errors"
+	"strings"
 )
 
 // NewPath takes a Unicode string representing an OGDL path, parses it and
@@ -287,6 +288,13 @@ func (p *Parser) Path() bool {
 					break
 				}
 			} else {
+				// A dot that no element follows is not part of the path
+				n, _ := p.Rune()
+				p.UnreadRune()
+				if !isTokenChar(n) && !strings.ContainsRune("\"'`[{(", n) {
+					p.UnreadByte()
+					break
+				}
 				dot = true
 			}
 		}
-- 
2.43.0


From 0df8d671e9d6eff796d5761f969a4cbe5fa990fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:49 +0000
Subject: [PATCH 48/66] fix: an expression that begins with a space was not
 read

---
 flow.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flow.go b/flow.go
index 95685db..f41ab73 100644
--- a/flow.go
+++ b/flow.go
@@ -150,9 +150,10 @@ func (p *Parser) Args(dot bool) (bool, error) {
 	return true, nil
 }
 
-// Expression := expr1 (op2 expr1)*
+// Expression := space? expr1 (op2 expr1)*
 func (p *Parser) Expression() bool {
 
+	p.Space()
 	if !p.UnaryExpression() {
 		return false
 	}
-- 
2.43.0


From 4eb943737d385acd915d80e65fb7ff976c7f9fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:50 +0000
Subject: [PATCH 49/66] fix: a variable whose first letter is not encoded with
 a byte that looks like a letter was not read in expressions

---
 flow.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flow.go b/flow.go
index f41ab73..76f3154 100644
--- a/flow.go
+++ b/flow.go
@@ -177,9 +177,9 @@ func (p *Parser) Expression() bool {
 // UnaryExpression := cpath | constant | op1 cpath | op1 constant | '(' expr ')' | op1 '(' expr ')'
 func (p *Parser) UnaryExpression() bool {
 
-	c := p.PeekByte()
+	c, _ := p.PeekRune()
 
-	if IsLetter(rune(c)) {
+	if IsLetter(c) {
 		p.ev.Add(TypePath)
 		p.ev.Inc()
 		ok := p.Path()
-- 
2.43.0


From a8bc6c1a0f99b39df1fb1339c17141aa2f47f43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:18 +0000
Subject: [PATCH 50/66] fix: subtracting, multiplying or dividing a numeric
 string by a number concatenated them

---
 eval.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/eval.go b/eval.go
index b749c09..793c91a 100644
--- a/eval.go
+++ b/eval.go
@@ -666,11 +666,16 @@ func calc(v1, v2 interface{}, op int) interface{} {
 	// Return operation on float64s
 
 	// v1=int | float
-	// If v1 is string, then concatenate strings
+	// If v1 is string, then concatenate strings, or else it must be numeric
 	if ok {
 		i3 = float64(i1)
 	} else if !ok3 {
-		return _string(v1) + _string(v2)
+		if op == '+' {
+			return _string(v1) + _string(v2)
+		}
+		if i3, ok3 = _float64f(v1); !ok3 {
+			return nil // undefined
+		}
 	}
 
 	// v2=int | float
-- 
2.43.0


From e894c38a9a33a61fe2d3facf6effabb6fa159b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:38 +0000
Subject: [PATCH 51/66] fix: a template text such as !p or !if was taken for
 the type of a node

---
 template.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/template.go b/template.go
index a0c048d..1354cc3 100644
--- a/template.go
+++ b/template.go
@@ -308,6 +308,11 @@ func (p *Parser) Text() bool {
 	s, b := p.TemplateText()
 
 	if b {
+		// A text must not be taken for the type of a node
+		if len(s) > 1 && s[0] == '!' {
+			p.ev.Add(s[:1])
+			s = s[1:]
+		}
 		p.ev.Add(s)
 		return true
 	}
-- 
2.43.0


From 04398f2d375dd9eb578b1f47e4ff54d9588fa300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 52/66] fix: setting a path below an index replaced the indexed
 node

---
 graph.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/graph.go b/graph.go
index 602ff11..de5e071 100644
--- a/graph.go
+++ b/graph.go
@@ -311,7 +311,14 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 
 		elem := path.Out[i]
 		if elem.ThisString() == TypeIndex {
-			return node.setAt(elem.index(g), val)
+			if i == len(path.Out)-1 {
+				return node.setAt(elem.index(g), val)
+			}
+			node = node.fill(elem.index(g))
+			if node == nil {
+				return nil
+			}
+			continue
 		}
 		node = node.Node(elem.ThisString())
 
@@ -327,7 +334,14 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 			elem := path.Out[i]
 
 			if elem.ThisString() == TypeIndex {
-				return node.setAt(elem.index(g), val)
+				if i == len(path.Out)-1 {
+					return node.setAt(elem.index(g), val)
+				}
+				node = node.fill(elem.index(g))
+				if node == nil {
+					return nil
+				}
+				continue
 			}
 
 			node = node.Add(elem.This)
@@ -357,15 +371,24 @@ func (g *Graph) contains(node *Graph) bool {
 	return false
 }
 
-// setAt sets the subnode with the given index. Subnodes that don't exist up to
+// fill returns the subnode with the given index. Subnodes that don't exist up to
 // that index are created.
-func (g *Graph) setAt(i int, val interface{}) *Graph {
+func (g *Graph) fill(i int) *Graph {
 	if i < 0 {
 		return nil
 	}
 	for len(g.Out) <= i {
 		g.Out = append(g.Out, New("_"))
 	}
+	return g.Out[i]
+}
+
+// setAt sets the subnode with the given index. Subnodes that don't exist up to
+// that index are created.
+func (g *Graph) setAt(i int, val interface{}) *Graph {
+	if g.fill(i) == nil {
+		return nil
+	}
 	if n, ok := val.(*Graph); ok && n.contains(g) {
 		val = n.Clone()
 	}
-- 
2.43.0


From d11787686e320af18214eec173940d6629858b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 53/66] fix: setting an index to a missing tree left a nil
 pointer that made later expressions panic

---
 graph.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index de5e071..e36c439 100644
--- a/graph.go
+++ b/graph.go
@@ -389,8 +389,12 @@ func (g *Graph) setAt(i int, val interface{}) *Graph {
 	if g.fill(i) == nil {
 		return nil
 	}
-	if n, ok := val.(*Graph); ok && n.contains(g) {
-		val = n.Clone()
+	if n, ok := val.(*Graph); ok {
+		if n == nil {
+			val = nil
+		} else if n.contains(g) {
+			val = n.Clone()
+		}
 	}
 	g.Out[i] = New(val)
 	return g.Out[i]
-- 
2.43.0


From f8f3ce93e20d0727af45f8e56886999fb1455218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 54/66] fix: a tree set at an index could not be reached by
 paths, and could hold itself

---
 graph.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/graph.go b/graph.go
index e36c439..7ebfe37 100644
--- a/graph.go
+++ b/graph.go
@@ -389,14 +389,22 @@ func (g *Graph) setAt(i int, val interface{}) *Graph {
 	if g.fill(i) == nil {
 		return nil
 	}
-	if n, ok := val.(*Graph); ok {
-		if n == nil {
-			val = nil
-		} else if n.contains(g) {
-			val = n.Clone()
-		}
+	n, ok := val.(*Graph)
+	if !ok {
+		g.Out[i] = New(val)
+		return g.Out[i]
+	}
+
+	// The nodes of a graph go below a node without a name
+	if n.contains(g) {
+		n = n.Clone()
+	}
+	if n == nil {
+		g.Out[i] = New(nil)
+	} else {
+		g.Out[i] = New("_")
+		g.Out[i].addNodes(n)
 	}
-	g.Out[i] = New(val)
 	return g.Out[i]
 }
 
-- 
2.43.0


From 98bc46e0eabdbc44188144bd5711b6b41bd2c40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 55/66] fix: a number that does not fit is not an int64

A float out of the range of int64 (or NaN) and an unsigned integer above
its maximum gave an arbitrary number instead of the default or an error.
---
 gettypes.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/gettypes.go b/gettypes.go
index 2c257e2..95ccfea 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -512,16 +512,32 @@ func _int64f(i interface{}) (int64, bool) {
 			return n, true
 		}
 	case float32:
-		return int64(v), true
+		return floatToInt64(float64(v))
 	case float64:
-		return int64(v), true
+		return floatToInt64(v)
 	}
 
 	return _int64(i)
 }
 
+// floatToInt64 returns the integer part of f, if an int64 can hold it.
+func floatToInt64(f float64) (int64, bool) {
+	if f >= -(1<<63) && f < 1<<63 {
+		return int64(f), true
+	}
+	return 0, false
+}
+
+// uint64ToInt64 returns u, if an int64 can hold it.
+func uint64ToInt64(u uint64) (int64, bool) {
+	if u > math.MaxInt64 {
+		return 0, false
+	}
+	return int64(u), true
+}
+
 // _int64 converts an interface{} to an int64 if its native type is
-// a integer (whether 8, 16, 32 or 64 bits, rune or byte).
+// a integer (whether 8, 16, 32 or 64 bits, rune or byte) and its value fits.
 func _int64(i interface{}) (int64, bool) {
 
 	switch v := i.(type) {
@@ -537,7 +553,7 @@ func _int64(i interface{}) (int64, bool) {
 	case int64:
 		return v, true
 	case uint:
-		return int64(v), true
+		return uint64ToInt64(uint64(v))
 	case uint8:
 		return int64(v), true
 	case uint16:
@@ -545,7 +561,7 @@ func _int64(i interface{}) (int64, bool) {
 	case uint32:
 		return int64(v), true
 	case uint64:
-		return int64(v), true
+		return uint64ToInt64(v)
 	}
 
 	return 0, false
-- 
2.43.0


From 3665563eaa37fd2f4f8c69743fab61ec70e68bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 56/66] fix: !binary in a schema accepts bytes

The type of a []byte is named []uint8 by reflect, so no content was ever
accepted as binary.
---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index d684d6a..4a552be 100644
--- a/schema.go
+++ b/schema.go
@@ -64,7 +64,7 @@ func (g *Graph) checkNode(x *Graph) bool {
 		return ty == "string"
 
 	case "!binary":
-		return ty == "[]byte"
+		return ty == "[]uint8"
 	}
 
 	return false
-- 
2.43.0


From 0feb9e07b1c82fe715f6e5e86fc92d135921a067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 57/66] fix: a function or method that is not at the top of the
 context got no arguments, or was not found

---
 eval.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/eval.go b/eval.go
index 793c91a..6d84675 100644
--- a/eval.go
+++ b/eval.go
@@ -112,7 +112,7 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 		case TypeArguments:
 			// We have hit an argument list of a function
 			if ctx.Len() > 0 {
-				itf, err := g.function(p, ctx.GetAt(0).This)
+				itf, err := g.function(callPath(p, i), ctx.GetAt(0).This)
 				if err != nil {
 					return nil, err
 				}
@@ -151,7 +151,7 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 
 			if ctx == nil {
 				if ctxPrev.Len() > 0 {
-					itf, err := g.function(p, ctxPrev.GetAt(0).This)
+					itf, err := g.function(callPath(p, i), ctxPrev.GetAt(0).This)
 					if err != nil {
 						return nil, err
 					}
@@ -174,6 +174,18 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 	return ctx, nil
 }
 
+// callPath returns the part of the path p that calls a function: the element
+// that leads to it and those that follow (element i is the arguments of a
+// function, or a method).
+func callPath(p *Graph, i int) *Graph {
+	if i < 2 {
+		return p
+	}
+	r := New(p.This)
+	r.Out = p.Out[i-1:]
+	return r
+}
+
 // evalPath traverses g following a path p. The path needs to be previously converted
 // to a Graph with NewPath().
 func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
@@ -263,7 +275,7 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 		case TypeArguments:
 			// We have hit an argument list of a function
 			if ctx.Len() > 0 {
-				itf, err := g.function(p, ctx.GetAt(0).This)
+				itf, err := g.function(callPath(p, i), ctx.GetAt(0).This)
 				if err != nil {
 					return nil, err
 				}
@@ -302,7 +314,7 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 
 			if ctx == nil {
 				if ctxPrev.Len() > 0 {
-					itf, err := g.function(p, ctxPrev.GetAt(0).This)
+					itf, err := g.function(callPath(p, i), ctxPrev.GetAt(0).This)
 					if err != nil {
 						return nil, err
 					}
-- 
2.43.0


From b933e1013b30a7d9262abdf5cd2967962f0cb431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 58/66] fix: what follows a method in a path was not applied to
 its result

---
 eval.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/eval.go b/eval.go
index 6d84675..88560f9 100644
--- a/eval.go
+++ b/eval.go
@@ -160,6 +160,7 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 					if !ok {
 						return nil, ErrFunctionNoGraph
 					}
+					i += callArgs(p, i)
 				}
 			}
 		}
@@ -186,6 +187,15 @@ func callPath(p *Graph, i int) *Graph {
 	return r
 }
 
+// callArgs returns 1 if element i of the path p, a method that has been called,
+// is followed by its arguments, or else 0.
+func callArgs(p *Graph, i int) int {
+	if i+1 < len(p.Out) && p.Out[i+1].ThisString() == TypeArguments {
+		return 1
+	}
+	return 0
+}
+
 // evalPath traverses g following a path p. The path needs to be previously converted
 // to a Graph with NewPath().
 func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
@@ -324,7 +334,10 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 						return itf, nil
 					}
 					// fmt.Printf("evalPath function %s %d %d %d\n", pathElement, i, p.Len(), len(p.Out))
-					return itf, nil
+					i += callArgs(p, i)
+					if i+1 == len(p.Out) {
+						return itf, nil
+					}
 				}
 			}
 
-- 
2.43.0


From cf2dc87fc49cb5d8eec9f98262ac5784066ebc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:01 +0000
Subject: [PATCH 59/66] fix: calling a variadic function or method panicked

---
 function.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/function.go b/function.go
index bfffe40..fb30501 100644
--- a/function.go
+++ b/function.go
@@ -101,7 +101,11 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 		}
 
 		// TODO: return 0..2 values
-		vv := v.Call(vargs)
+		call := v.Call
+		if v.Type().IsVariadic() {
+			call = v.CallSlice
+		}
+		vv := call(vargs)
 		if len(vv) > 0 {
 			return vv[0].Interface(), nil
 		}
@@ -165,7 +169,11 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 		// log.Printf(" - vargs: %v", vargs)
 
 		// TODO: return 0..2 values
-		vv := me.Call(vargs)
+		call := me.Call
+		if me.Type().IsVariadic() {
+			call = me.CallSlice
+		}
+		vv := call(vargs)
 		if len(vv) > 0 {
 			return vv[0].Interface(), nil
 		}
-- 
2.43.0


From 00b2fea5fcab0c51e0a8f1dcb6e47d3ddb5196c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:56 +0000
Subject: [PATCH 60/66] fix: reading an operator took time with the cube of the
 operator characters that follow

---
 lexer.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lexer.go b/lexer.go
index bf82020..6c4939b 100644
--- a/lexer.go
+++ b/lexer.go
@@ -497,20 +497,21 @@ func (p *Lexer) Number() (string, bool) {
 // a negation ends before these.
 func (p *Lexer) Operator() (string, bool) {
 
+	// No operator has more than two characters
 	var buf []byte
 
-	for {
+	for len(buf) < 2 {
 		c, _ := p.Byte()
 		if !isOperatorChar(c) {
+			p.UnreadByte()
 			break
 		}
 		buf = append(buf, c)
 	}
 
-	p.UnreadByte()
-	for len(buf) > 1 && precedence(string(buf)) < 0 {
+	if len(buf) > 1 && precedence(string(buf)) < 0 {
 		p.UnreadByte()
-		buf = buf[:len(buf)-1]
+		buf = buf[:1]
 	}
 	return string(buf), len(buf) > 0
 }
-- 
2.43.0


From dd4e15abc886b291e027c6bde1ae63adcea5a9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 61/66] fix: building the tree of an expression took time with
 the square of its operators

---
 expression.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/expression.go b/expression.go
index 74cb9d6..cb18de1 100644
--- a/expression.go
+++ b/expression.go
@@ -41,24 +41,25 @@ func (g *Graph) _ast() {
 
 	g.ast()
 
-	var e1, e2 *Graph
-
 	for j := 6; j >= 0; j-- {
 
+		var out []*Graph
+
 		for i := 0; i < len(g.Out); i++ {
 
 			// A binary operator has no subnodes yet, and an operand at each side
 			node := g.Out[i]
-			if precedence(node.ThisString()) == j && node.Len() == 0 && i > 0 && i < len(g.Out)-1 {
-				e1 = g.Out[i-1]
-				e2 = g.Out[i+1]
-				g.Out = append(g.Out[:i-1], g.Out[i:]...)
-				g.Out = append(g.Out[:i], g.Out[i+1:]...)
-				node.Add(e1)
-				node.Add(e2)
-				i--
+			if len(out) > 0 && i < len(g.Out)-1 && node.Len() == 0 && precedence(node.ThisString()) == j {
+				node.Add(out[len(out)-1])
+				node.Add(g.Out[i+1])
+				out[len(out)-1] = node
+				i++
+			} else {
+				out = append(out, node)
 			}
 		}
+
+		g.Out = out
 	}
 }
 
-- 
2.43.0


From 777457e456c9c6d4cee889d8801dd7bd6e7a0e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:58 +0000
Subject: [PATCH 62/66] fix: Text panicked on a tree whose only text is a quote
 or a carriage return, and lost the last byte of others

---
 graph.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index 7ebfe37..18bed59 100644
--- a/graph.go
+++ b/graph.go
@@ -438,7 +438,7 @@ func (g *Graph) Text() string {
 
 	// unquote
 
-	if s[0] == '"' {
+	if len(s) > 1 && s[0] == '"' && s[len(s)-1] == '"' {
 		s = s[1 : len(s)-1]
 		// But then also replace \"
 		s = strings.Replace(s, "\\\"", "\"", -1)
@@ -471,7 +471,7 @@ func (g *Graph) Show() string {
 
 	// unquote
 
-	if s[0] == '"' {
+	if len(s) > 1 && s[0] == '"' && s[len(s)-1] == '"' {
 		s = s[1 : len(s)-1]
 		// But then also replace \"
 		s = strings.Replace(s, "\\\"", "\"", -1)
-- 
2.43.0


From e1408ba93d0115f37d13d4640ba0d295507f739d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 63/66] fix: a $for with a list panicked if there is no context

---
 template.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template.go b/template.go
index 1354cc3..2c0f71e 100644
--- a/template.go
+++ b/template.go
@@ -128,7 +128,7 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 
 			// Check that i is iterable
 			gi, ok := i.(*Graph)
-			if !ok || gi == nil || gi.Len() == 0 {
+			if c == nil || !ok || gi == nil || gi.Len() == 0 {
 				continue
 			}
 
-- 
2.43.0


From 3b7c6cd537b965fb9606d558cbc82708a74569ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 64/66] fix: an index or selector after a method was taken for
 its arguments

---
 function.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/function.go b/function.go
index fb30501..dff8942 100644
--- a/function.go
+++ b/function.go
@@ -61,7 +61,7 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 			// Remote function
 			n := New("_")
 			nn := n.Add(path.Out[1].This)
-			if len(path.Out) > 2 {
+			if len(path.Out) > 2 && path.Out[2].ThisString() == TypeArguments {
 				for _, arg := range path.Out[2].Out {
 					// log.Printf("arg:\n%s\n", arg.Show())
 					itf, _ := g.evalExpression(arg, true)
@@ -140,7 +140,7 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 
 		// Pre-evaluate
 		var args []interface{}
-		if len(path.Out) > 2 {
+		if len(path.Out) > 2 && path.Out[2].ThisString() == TypeArguments {
 			for _, arg := range path.Out[2].Out {
 				// log.Println(" - arg", arg.Text())
 				itf, _ := g.evalExpression(arg, false)
-- 
2.43.0


From 132c0ce1418104f514074bf56934aedc7f613b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:35 +0000
Subject: [PATCH 65/66] fix: SimpleEventHandler.Delete on a handler without
 nodes

---
 event.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/event.go b/event.go
index 65ece2c..51ce3d0 100644
--- a/event.go
+++ b/event.go
@@ -50,6 +50,9 @@ func (e *SimpleEventHandler) AddAt(s string, lv int) {
 
 // Delete removes the last node added
 func (e *SimpleEventHandler) Delete() {
+	if len(e.items) == 0 {
+		return
+	}
 	e.items = e.items[0 : len(e.items)-1]
 	e.levels = e.levels[0 : len(e.levels)-1]
 }
-- 
2.43.0


From d3df4fe6e6f4e3e260a42c67ec3ae1f593d7aa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:35 +0000
Subject: [PATCH 66/66] fix: simplifying a missing node, or a text that reads
 @id

---
 cmd/xml2ogdl/main.go | 4 ++--
 io/gxml/xml.go       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/xml2ogdl/main.go b/cmd/xml2ogdl/main.go
index d71f2a3..e2adfce 100644
--- a/cmd/xml2ogdl/main.go
+++ b/cmd/xml2ogdl/main.go
@@ -49,7 +49,7 @@ func main() {
 }
 
 func simplify(g *ogdl.Graph) {
-	if g.Out == nil {
+	if g == nil || g.Out == nil {
 		return
 	}
 
@@ -58,7 +58,7 @@ func simplify(g *ogdl.Graph) {
 		if len(n.Out) == 0 {
 			continue
 		}
-		if n.Out[0].ThisString() == "@id" && len(n.Out) >= 2 {
+		if n.Out[0].ThisString() == "@id" && n.Out[0].Len() > 0 && len(n.Out) >= 2 {
 			if n.This != "p" {
 				n.This = n.Out[0].Out[0].This
 			}
diff --git a/io/gxml/xml.go b/io/gxml/xml.go
index 5fd20b8..adb8722 100644
--- a/io/gxml/xml.go
+++ b/io/gxml/xml.go
@@ -13,7 +13,7 @@ import (
 )
 
 func Simplify(g *ogdl.Graph) {
-	if g.Out == nil {
+	if g == nil || g.Out == nil {
 		return
 	}
 
@@ -22,7 +22,7 @@ func Simplify(g *ogdl.Graph) {
 		if len(n.Out) == 0 {
 			continue
 		}
-		if n.Out[0].ThisString() == "@id" && len(n.Out) >= 2 {
+		if n.Out[0].ThisString() == "@id" && n.Out[0].Len() > 0 && len(n.Out) >= 2 {
 			if n.This != "p" {
 				n.This = n.Out[0].Out[0].This
 			}
-- 
2.43.0

