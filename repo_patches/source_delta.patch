From fe1a4bdb7d98adfe2f5eaca8ea42c1fd09716156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 01/24] fix: read the input through cursors that are linear,
 lossless and detect undecodable bytes

strcursor stops at U+FFFD and at bytes that are not valid in the encoding as if
it were the end of the input (so garbage after the root element was ignored),
limits lookahead in the XML declaration to 40 bytes, loses short inputs that
follow a BOM, and walks a linked list for each PeekN which makes every scanning
loop quadratic.
---
 cursor.go    | 231 +++++++++++++++++++++++++++++++++++++++++++++++++++
 parser.go    |   4 +-
 parserctx.go |  40 ++++++---
 3 files changed, 263 insertions(+), 12 deletions(-)
 create mode 100644 cursor.go

diff --git a/cursor.go b/cursor.go
new file mode 100644
index 0000000..92ff721
--- /dev/null
+++ b/cursor.go
@@ -0,0 +1,231 @@
+package helium
+
+import (
+	"bytes"
+	"errors"
+	"io"
+	"io/ioutil"
+	"unicode/utf8"
+)
+
+// byteCursor is a strcursor.Cursor over bytes in a yet unknown encoding
+// that are held in memory. Unlike strcursor.ByteCursor there is no limit
+// as to how far it can look ahead, looking beyond the end of the input does
+// not lose what is left of it, and it keeps track of all of the lines.
+// Like runeCursor, Peek, PeekN and Cur return 0 at the end of input.
+type byteCursor struct {
+	buf       []byte
+	pos       int // offset of the current byte
+	linestart int // offset of the first byte in current line
+	lineno    int
+}
+
+func newByteCursor(in io.Reader) (*byteCursor, error) {
+	buf, err := ioutil.ReadAll(in)
+	if err != nil {
+		return nil, err
+	}
+	return &byteCursor{buf: buf, lineno: 1}, nil
+}
+
+// Advance moves the cursor forward by n bytes
+func (c *byteCursor) Advance(n int) error {
+	for ; n > 0; n-- {
+		if c.Done() {
+			return errors.New("failed to advance: end of input")
+		}
+		b := c.buf[c.pos]
+		c.pos++
+		if b == '\n' || (b == '\r' && c.Peek() != '\n') {
+			c.lineno++
+			c.linestart = c.pos
+		}
+	}
+	return nil
+}
+
+// Bytes returns what has not been consumed yet
+func (c *byteCursor) Bytes() []byte {
+	return c.buf[c.pos:]
+}
+
+func (c *byteCursor) Column() int {
+	return c.pos - c.linestart + 1
+}
+
+func (c *byteCursor) Consume(b []byte) bool {
+	if !c.HasPrefix(b) {
+		return false
+	}
+	c.Advance(len(b))
+	return true
+}
+
+func (c *byteCursor) ConsumeString(s string) bool {
+	return c.Consume([]byte(s))
+}
+
+func (c *byteCursor) Cur() rune {
+	r := c.Peek()
+	c.Advance(1)
+	return r
+}
+
+func (c *byteCursor) Done() bool {
+	return c.pos >= len(c.buf)
+}
+
+func (c *byteCursor) HasPrefix(b []byte) bool {
+	return bytes.HasPrefix(c.Bytes(), b)
+}
+
+func (c *byteCursor) HasPrefixString(s string) bool {
+	return c.HasPrefix([]byte(s))
+}
+
+func (c *byteCursor) Line() string {
+	return string(c.buf[c.linestart:c.pos])
+}
+
+func (c *byteCursor) LineNumber() int {
+	return c.lineno
+}
+
+func (c *byteCursor) Peek() rune {
+	return c.PeekN(1)
+}
+
+func (c *byteCursor) PeekN(n int) rune {
+	if i := c.pos + n - 1; i < len(c.buf) {
+		return rune(c.buf[i])
+	}
+	return 0
+}
+
+// runeCursor is a strcursor.Cursor over text that is held in memory.
+//
+// Unlike strcursor.RuneCursor it can tell the end of the input from text
+// it cannot decode, and from a U+FFFD which really is in the input: Peek,
+// PeekN and Cur return 0 (which is never a legal XML character) if there
+// is no character to be returned, and Done only reports true once all of
+// the input has been consumed. PeekN does not start over from the current
+// position each time, so scanning ahead takes linear time.
+type runeCursor struct {
+	buf       []byte
+	pos       int // offset of the current rune
+	linestart int // offset of the first rune in current line
+	lineno    int
+	column    int
+
+	// offset of the rune that PeekN last looked at.
+	peekn   int
+	peekpos int
+}
+
+func newRuneCursor(buf []byte, lineno int) *runeCursor {
+	return &runeCursor{
+		buf:    buf,
+		lineno: lineno,
+		column: 1,
+		peekn:  1,
+	}
+}
+
+func (c *runeCursor) runeAt(pos int) rune {
+	if pos >= len(c.buf) {
+		return 0
+	}
+
+	r, w := utf8.DecodeRune(c.buf[pos:])
+	if r == utf8.RuneError && w == 1 {
+		return 0
+	}
+	return r
+}
+
+// Advance moves the cursor forward by n runes
+func (c *runeCursor) Advance(n int) error {
+	defer func() {
+		c.peekn = 1
+		c.peekpos = c.pos
+	}()
+
+	for ; n > 0; n-- {
+		if c.pos >= len(c.buf) {
+			return errors.New("failed to advance: end of input")
+		}
+		r, w := utf8.DecodeRune(c.buf[c.pos:])
+		c.pos += w
+		if r == '\n' {
+			c.lineno++
+			c.column = 1
+			c.linestart = c.pos
+		} else {
+			c.column++
+		}
+	}
+	return nil
+}
+
+func (c *runeCursor) Column() int {
+	return c.column
+}
+
+func (c *runeCursor) Consume(b []byte) bool {
+	return c.ConsumeString(string(b))
+}
+
+func (c *runeCursor) ConsumeString(s string) bool {
+	if !c.HasPrefixString(s) {
+		return false
+	}
+	c.Advance(utf8.RuneCountInString(s))
+	return true
+}
+
+func (c *runeCursor) Cur() rune {
+	r := c.Peek()
+	c.Advance(1)
+	return r
+}
+
+func (c *runeCursor) Done() bool {
+	return c.pos >= len(c.buf)
+}
+
+func (c *runeCursor) HasPrefix(b []byte) bool {
+	return c.HasPrefixString(string(b))
+}
+
+func (c *runeCursor) HasPrefixString(s string) bool {
+	return len(c.buf)-c.pos >= len(s) && string(c.buf[c.pos:c.pos+len(s)]) == s
+}
+
+func (c *runeCursor) Line() string {
+	return string(c.buf[c.linestart:c.pos])
+}
+
+func (c *runeCursor) LineNumber() int {
+	return c.lineno
+}
+
+func (c *runeCursor) Peek() rune {
+	return c.runeAt(c.pos)
+}
+
+func (c *runeCursor) PeekN(n int) rune {
+	for c.peekn > n && c.peekpos > c.pos {
+		_, w := utf8.DecodeLastRune(c.buf[c.pos:c.peekpos])
+		c.peekpos -= w
+		c.peekn--
+	}
+	for c.peekn < n {
+		if c.peekpos >= len(c.buf) {
+			return 0
+		}
+		_, w := utf8.DecodeRune(c.buf[c.peekpos:])
+		c.peekpos += w
+		c.peekn++
+	}
+	return c.runeAt(c.peekpos)
+}
diff --git a/parser.go b/parser.go
index 9c3bbfe..7fe712e 100644
--- a/parser.go
+++ b/parser.go
@@ -25,7 +25,9 @@ func (p *Parser) Parse(b []byte) (*Document, error) {
 	}
 
 	ctx := &parserCtx{}
-	ctx.init(p, bytes.NewReader(b))
+	if err := ctx.init(p, bytes.NewReader(b)); err != nil {
+		return nil, err
+	}
 	defer ctx.release()
 
 	if err := ctx.parseDocument(); err != nil {
diff --git a/parserctx.go b/parserctx.go
index a11dde6..e37ad9c 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -15,6 +15,7 @@ import (
 	"github.com/lestrrat-go/helium/sax"
 	"github.com/lestrrat-go/pdebug"
 	"github.com/lestrrat-go/strcursor"
+	unicodeenc "golang.org/x/text/encoding/unicode"
 )
 
 type attrData struct {
@@ -172,8 +173,8 @@ func (ctx *parserCtx) pushInput(in interface{}) {
 	ctx.inputTab.Push(in)
 }
 
-func (ctx *parserCtx) getByteCursor() *strcursor.ByteCursor {
-	cur, ok := ctx.inputTab.PeekOne().(*strcursor.ByteCursor)
+func (ctx *parserCtx) getByteCursor() *byteCursor {
+	cur, ok := ctx.inputTab.PeekOne().(*byteCursor)
 	if !ok {
 		return nil
 	}
@@ -193,7 +194,11 @@ func (ctx *parserCtx) popInput() interface{} {
 }
 
 func (ctx *parserCtx) init(p *Parser, in io.Reader) error {
-	ctx.pushInput(strcursor.NewByteCursor(in))
+	cur, err := newByteCursor(in)
+	if err != nil {
+		return err
+	}
+	ctx.pushInput(cur)
 	ctx.detectedEncoding = encUTF8
 	ctx.encoding = ""
 	ctx.in = in
@@ -363,9 +368,22 @@ func (ctx *parserCtx) switchEncoding() error {
 		return ErrByteCursorRequired
 	}
 
-	b := enc.NewDecoder().Reader(cur)
+	// The rest of the input is decoded here. UTF-8 is what we use internally,
+	// so there's nothing to do for it (and if there are invalid byte
+	// sequences, they are found while parsing). In any other encoding,
+	// U+FFFD is what we get for bytes that can't be decoded: use something
+	// that is not valid UTF-8 either, so they are treated the same
+	b := cur.Bytes()
+	if enc != unicodeenc.UTF8 {
+		var err error
+		b, err = enc.NewDecoder().Bytes(b)
+		if err != nil {
+			return err
+		}
+		b = bytes.Replace(b, []byte("\uFFFD"), []byte{0xff}, -1)
+	}
 	ctx.popInput()
-	ctx.pushInput(strcursor.NewRuneCursor(b))
+	ctx.pushInput(newRuneCursor(b, cur.LineNumber()))
 
 	return nil
 }
@@ -1130,7 +1148,7 @@ func (ctx *parserCtx) skipBlanks() bool {
 	return false
 }
 
-func (ctx *parserCtx) skipBlankBytes(cur *strcursor.ByteCursor) bool {
+func (ctx *parserCtx) skipBlankBytes(cur *byteCursor) bool {
 	i := 0
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START skipBlankBytes")
@@ -1906,10 +1924,6 @@ func (ctx *parserCtx) areBlanks(s string, blankChars bool) (ret bool) {
 }
 
 func isChar(r rune) bool {
-	if r == utf8.RuneError {
-		return false
-	}
-
 	c := uint32(r)
 	if c < 0x100 {
 		return (0x9 <= c && c <= 0xa) || c == 0xd || 0x20 <= c
@@ -5128,7 +5142,11 @@ func (ctx *parserCtx) handlePEReference() error {
 				       (ctxt->validate == 0))
 				       return;
 		*/
-		ctx.pushInput(strcursor.NewByteCursor(bytes.NewReader(entity.Content())))
+		ecur, err := newByteCursor(bytes.NewReader(entity.Content()))
+		if err != nil {
+			return err
+		}
+		ctx.pushInput(ecur)
 
 		/*
 		           // Get the 4 first bytes and decode the charset
-- 
2.43.0


From bf648b8cfde931dcc7f02f25b79034a290808e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 02/24] fix: normalise all line ends when the input is read,
 and reject unterminated comments

Line ends were only translated in character data and in comments, and only
CR LF. Comment content is copied, as it used to alias a pooled buffer. A
comment which ends in an illegal character, or is not terminated, is an error.
---
 comment.go   |  2 +-
 parserctx.go | 28 ++++++++++++++++++++++------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/comment.go b/comment.go
index eb00975..01e6c86 100644
--- a/comment.go
+++ b/comment.go
@@ -3,7 +3,7 @@ package helium
 func newComment(b []byte) *Comment {
 	t := Comment{}
 	t.etype = CommentNode
-	t.content = b
+	t.content = append([]byte(nil), b...)
 	return &t
 }
 
diff --git a/parserctx.go b/parserctx.go
index e37ad9c..d343569 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -382,6 +382,13 @@ func (ctx *parserCtx) switchEncoding() error {
 		}
 		b = bytes.Replace(b, []byte("\uFFFD"), []byte{0xff}, -1)
 	}
+
+	// [2.11 End-of-Line Handling]
+	// Translate CR LF, and any CR that is not followed by LF, to LF
+	if bytes.IndexByte(b, '\r') > -1 {
+		b = bytes.Replace(b, []byte("\r\n"), []byte{'\n'}, -1)
+		b = bytes.Replace(b, []byte{'\r'}, []byte{'\n'}, -1)
+	}
 	ctx.popInput()
 	ctx.pushInput(newRuneCursor(b, cur.LineNumber()))
 
@@ -646,8 +653,6 @@ func (ctx *parserCtx) parseCharData(cdata bool) error {
 	cur.Advance(i)
 	str := buf.String()
 
-	// XXX This is not right, but it's for now the best place to do this
-	str = strings.Replace(str, "\r\n", "\n", -1)
 	if ctx.instate == psCDATA {
 		if s := ctx.sax; s != nil {
 			switch err := s.CDataBlock(ctx.userData, []byte(str)); err {
@@ -2004,15 +2009,22 @@ func (ctx *parserCtx) parseComment() error {
 		r = c
 		i++
 	}
+	if c := cur.PeekN(i + 1); q != '-' || r != '-' || c != '>' {
+		// unterminated, or an illegal character
+		if !isChar(c) && !cur.Done() {
+			cur.Advance(i)
+		}
+		return ctx.error(ErrInvalidComment)
+	}
 
 	// -2 for "-->" (note: '>' has not been consumed, so we use -2 instead of -3
 	buf.Truncate(buf.Len() - 2)
-	str := buf.Bytes()
+	// the buffer goes back to the pool, so the handler must get a copy
+	str := append([]byte(nil), buf.Bytes()...)
 	// i+1 because '>' was not consumed in the loop
 	cur.Advance(i + 1)
 
 	if sh := ctx.sax; sh != nil {
-		str = bytes.Replace(str, []byte{'\r', '\n'}, []byte{'\n'}, -1)
 		switch err := sh.Comment(ctx, str); err {
 		case nil, sax.ErrHandlerUnspecified:
 			// no op
@@ -3985,8 +3997,13 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 	}
 
 	newctx := &parserCtx{}
-	newctx.init(nil, bytes.NewReader(chunk))
+	if err := newctx.init(nil, bytes.NewReader(nil)); err != nil {
+		return nil, err
+	}
 	defer newctx.release()
+	// the chunk has already been decoded, and so have its line ends
+	newctx.popInput()
+	newctx.pushInput(newRuneCursor(chunk, 1))
 
 	if userData != nil {
 		newctx.userData = userData
@@ -4019,7 +4036,6 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 	}
 	newctx.pushNode(newRoot)
 	newctx.doc.AddChild(newRoot)
-	newctx.switchEncoding()
 	if err := newctx.parseContent(); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From d6515159982db4b43c123d6be635846ab863ee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 03/24] fix: keep CDATA sections in the tree, allow empty ones
 and reject illegal characters in them

---
 parserctx.go | 11 +++++++----
 tree.go      |  8 ++++++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index d343569..cf69c53 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -627,8 +627,11 @@ func (ctx *parserCtx) parseCharData(cdata bool) error {
 
 	i := 0
 	for c := cur.PeekN(i + 1); c != 0x0; c = cur.PeekN(i + 1) {
+		if !isChar(c) {
+			break
+		}
 		if !cdata {
-			if c == '<' || c == '&' || !isChar(c) {
+			if c == '<' || c == '&' {
 				break
 			}
 		}
@@ -638,6 +641,7 @@ func (ctx *parserCtx) parseCharData(cdata bool) error {
 				break
 			}
 
+			cur.Advance(i)
 			return ctx.error(ErrMisplacedCDATAEnd)
 		}
 
@@ -645,9 +649,8 @@ func (ctx *parserCtx) parseCharData(cdata bool) error {
 		i++
 	}
 
-	if i <= 0 {
-		pdebug.Dump(cur)
-		return errors.New("Invalid char data")
+	if i <= 0 && !cdata {
+		return ctx.error(errors.New("Invalid char data"))
 	}
 
 	cur.Advance(i)
diff --git a/tree.go b/tree.go
index d1cfd2a..e597f4a 100644
--- a/tree.go
+++ b/tree.go
@@ -175,12 +175,16 @@ func (t *TreeBuilder) Characters(ctxif sax.Context, data []byte) error {
 	return n.AddContent(data)
 }
 
-func (t *TreeBuilder) CDataBlock(_ sax.Context, data []byte) error {
+func (t *TreeBuilder) CDataBlock(ctxif sax.Context, data []byte) error {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START tree.CDATABlock")
 		defer g.IRelease("END tree.CDATABlock")
 	}
-	return nil
+	// there is no node type for CDATA sections, keep it as text
+	if len(data) == 0 {
+		return nil
+	}
+	return t.Characters(ctxif, data)
 }
 
 func (t *TreeBuilder) Comment(ctxif sax.Context, data []byte) error {
-- 
2.43.0


From 85abf55de9706f210c15da1468197d9188dc1d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 04/24] fix: recognise XML names and name tokens as the
 specification defines them

Combining characters and extenders were rejected in names, some letters which
are not name characters accepted, and scanning a name token never ended.
---
 parserctx.go | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index cf69c53..8ced3dc 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1637,7 +1637,7 @@ func (ctx *parserCtx) parseName() (name string, err error) {
 
 	// first letter
 	c := cur.Peek()
-	if c == ' ' || c == '>' || c == '/' || /* accelerators */ (!unicode.IsLetter(c) && c != '_' && c != ':') {
+	if c == ' ' || c == '>' || c == '/' || /* accelerators */ !isNameStartChar(c) {
 		err = ctx.error(fmt.Errorf("invalid first letter '%c'", c))
 		return
 	}
@@ -1646,17 +1646,16 @@ func (ctx *parserCtx) parseName() (name string, err error) {
 	i := 2
 	for c = cur.PeekN(i); c != 0x0; c = cur.PeekN(i) {
 		if c == ' ' || c == '>' || c == '/' { /* accelerator */
-			i--
 			break
 		}
-		if !unicode.IsLetter(c) && !unicode.IsDigit(c) && c != '.' && c != '-' && c != '_' && c != ':' /* && !isCombining(c) && !isExtender(c) */ {
-			i--
+		if !isNameChar(c) {
 			break
 		}
 		buf.WriteRune(c)
 
 		i++
 	}
+	i--
 	if i > MaxNameLength {
 		err = ctx.error(ErrNameTooLong)
 		return
@@ -1740,14 +1739,27 @@ func (ctx *parserCtx) parseQName() (local string, prefix string, err error) {
 	return
 }
 
+// [4] NameStartChar ::= ":" | [A-Z] | "_" | [a-z] | [#xC0-#xD6] |
+//                       [#xD8-#xF6] | [#xF8-#x2FF] | [#x370-#x37D] |
+//                       [#x37F-#x1FFF] | [#x200C-#x200D] |
+//                       [#x2070-#x218F] | [#x2C00-#x2FEF] |
+//                       [#x3001-#xD7FF] | [#xF900-#xFDCF] |
+//                       [#xFDF0-#xFFFD] | [#x10000-#xEFFFF]
 func isNameStartChar(r rune) bool {
-	return unicode.IsLetter(r) || r == '_' || r == ':'
+	return (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z') || r == '_' || r == ':' ||
+		(r >= 0xc0 && r <= 0xd6) || (r >= 0xd8 && r <= 0xf6) || (r >= 0xf8 && r <= 0x2ff) ||
+		(r >= 0x370 && r <= 0x37d) || (r >= 0x37f && r <= 0x1fff) ||
+		(r >= 0x200c && r <= 0x200d) || (r >= 0x2070 && r <= 0x218f) ||
+		(r >= 0x2c00 && r <= 0x2fef) || (r >= 0x3001 && r <= 0xd7ff) ||
+		(r >= 0xf900 && r <= 0xfdcf) || (r >= 0xfdf0 && r <= 0xfffd) ||
+		(r >= 0x10000 && r <= 0xeffff)
 }
 
+// [4a] NameChar ::= NameStartChar | "-" | "." | [0-9] | #xB7 |
+//                   [#x0300-#x036F] | [#x203F-#x2040]
 func isNameChar(r rune) bool {
-	return r == '.' || r == '-' || r == '_' || r == ':' ||
-		unicode.IsLetter(r) || unicode.IsDigit(r) ||
-		unicode.In(r, unicode.Extender)
+	return isNameStartChar(r) || r == '-' || r == '.' || (r >= '0' && r <= '9') || r == 0xb7 ||
+		(r >= 0x300 && r <= 0x36f) || (r >= 0x203f && r <= 0x2040)
 }
 
 /**
@@ -1773,12 +1785,14 @@ func (ctx *parserCtx) parseNmtoken() (string, error) {
 	buf := bufferPool.Get().(*bytes.Buffer)
 	defer releaseBuffer(buf)
 
-	for c := cur.PeekN(i); c != 0x0; i++ {
-		if !isNameChar(c) {
-			break
-		}
+	for c := cur.PeekN(i); isNameChar(c); c = cur.PeekN(i) {
 		buf.WriteRune(c)
+		i++
 	}
+	if i == 1 {
+		return "", ctx.error(ErrNmtokenRequired)
+	}
+	cur.Advance(i - 1)
 
 	return buf.String(), nil
 }
@@ -1824,13 +1838,13 @@ func (ctx *parserCtx) parseNCName() (ncname string, err error) {
 	// see how much more we got here
 	i := 2
 	for c = cur.PeekN(i); c != 0x0; c = cur.PeekN(i) {
-		if !unicode.IsLetter(c) && !unicode.IsDigit(c) && c != '_' && c != '-' && c != '.' {
-			i--
+		if c == ':' || !isNameChar(c) {
 			break
 		}
 		buf.WriteRune(c)
 		i++
 	}
+	i--
 	if i > MaxNameLength {
 		err = ctx.error(ErrNameTooLong)
 		return
-- 
2.43.0


From 1c6ca061d257eb3cd8bd14f4272af503728dce48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 05/24] fix: parse content models and internal subsets as
 declared, and reject malformed ones

The first nested group, names after the second of mixed content and '*' and '+'
on groups were lost or not consumed; junk in the subset was an endless loop.
---
 dtd.go       |  8 +++++--
 parserctx.go | 61 +++++++++++++++++++++++++++++++---------------------
 tree.go      |  6 ++++++
 3 files changed, 49 insertions(+), 26 deletions(-)

diff --git a/dtd.go b/dtd.go
index 63e72b2..0bf7625 100644
--- a/dtd.go
+++ b/dtd.go
@@ -166,8 +166,12 @@ func (dtd *DTD) LookupParameterEntity(name string) (*Entity, bool) {
 }
 
 func (dtd *DTD) GetElementDesc(name string) (*ElementDecl, bool) {
-	ret, ok := dtd.elements[name]
-	return ret, ok
+	var prefix string
+	if i := strings.IndexByte(name, ':'); i > -1 {
+		prefix = name[:i]
+		name = name[i+1:]
+	}
+	return dtd.LookupElement(name, prefix)
 }
 
 func (dtd *DTD) AddChild(cur Node) error {
diff --git a/parserctx.go b/parserctx.go
index 8ced3dc..1373d4d 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2067,6 +2067,9 @@ func (ctx *parserCtx) parseDocTypeDecl() error {
 		return ctx.error(ErrInvalidDTD)
 	}
 
+	if !isBlankCh(cur.Peek()) {
+		return ctx.error(ErrSpaceRequired)
+	}
 	ctx.skipBlanks()
 
 	name, err := ctx.parseName()
@@ -2134,6 +2137,7 @@ func (ctx *parserCtx) parseInternalSubset() error {
 	cur.Advance(1)
 
 	for !cur.Done() && cur.Peek() != ']' {
+		line, column := cur.LineNumber(), cur.Column()
 		ctx.skipBlanks()
 		if err := ctx.parseMarkupDecl(); err != nil {
 			return ctx.error(err)
@@ -2142,6 +2146,10 @@ func (ctx *parserCtx) parseInternalSubset() error {
 			return ctx.error(err)
 		}
 
+		// this is not anything that can be in an internal subset
+		if cur.LineNumber() == line && cur.Column() == column {
+			return ctx.error(ErrInvalidDTD)
+		}
 	}
 
 	if cur.Peek() == ']' {
@@ -2454,6 +2462,7 @@ func (ctx *parserCtx) parseElementDecl() (ElementTypeVal, error) {
 		      }
 		      return(-1);
 		*/
+		return UndefinedElementType, ctx.error(ErrInvalidElementDecl)
 	}
 
 	ctx.skipBlanks()
@@ -2568,6 +2577,7 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 	if !cur.ConsumeString("#PCDATA") {
 		return nil, ctx.error(ErrPCDATARequired)
 	}
+	ctx.skipBlanks()
 
 	if cur.Peek() == ')' {
 		/*
@@ -2594,7 +2604,7 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 	var err error
 	var retelem *ElementContent
 	var curelem *ElementContent
-	if c := cur.Peek(); c == '(' || c == '|' {
+	if cur.Peek() == '|' {
 		retelem, err = ctx.doc.CreateElementContent("", ElementContentPCDATA)
 		if err != nil {
 			return nil, ctx.error(err)
@@ -2621,7 +2631,7 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 			if err != nil {
 				return nil, ctx.error(err)
 			}
-			n.c1, err = ctx.doc.CreateElementContent("", ElementContentElement)
+			n.c1, err = ctx.doc.CreateElementContent(elem, ElementContentElement)
 			if err != nil {
 				return nil, ctx.error(err)
 			}
@@ -2637,27 +2647,24 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 		}
 		ctx.skipBlanks()
 	}
-	if cur.Peek() == ')' && cur.PeekN(2) == '*' {
-		cur.Advance(2)
-		if elem != "" {
-			curelem.c2, err = ctx.doc.CreateElementContent(elem, ElementContentElement)
-			if err != nil {
-				return nil, ctx.error(err)
-			}
-			curelem.c2.parent = curelem
-		}
+	if elem == "" || cur.Peek() != ')' || cur.PeekN(2) != '*' {
+		return nil, ctx.error(ErrElementContentNotFinished)
+	}
+	cur.Advance(2)
 
-		if retelem != nil {
-			retelem.coccur = ElementContentMult
-		}
-		/*
-		               if ((ctxt->validate) && (ctxt->input->id != inputchk)) {
-		                   xmlValidityError(ctxt, XML_ERR_ENTITY_BOUNDARY,
-		   "Element content declaration doesn't start and stop in the same entity\n",
-		                                    NULL, NULL);
-		   					}
-		*/
+	curelem.c2, err = ctx.doc.CreateElementContent(elem, ElementContentElement)
+	if err != nil {
+		return nil, ctx.error(err)
 	}
+	curelem.c2.parent = curelem
+	retelem.coccur = ElementContentMult
+	/*
+	               if ((ctxt->validate) && (ctxt->input->id != inputchk)) {
+	                   xmlValidityError(ctxt, XML_ERR_ENTITY_BOUNDARY,
+	   "Element content declaration doesn't start and stop in the same entity\n",
+	                                    NULL, NULL);
+	   					}
+	*/
 	return retelem, nil
 }
 
@@ -2708,7 +2715,8 @@ func (ctx *parserCtx) parseElementChildrenContentDeclPriv(depth int) (*ElementCo
 	if cur.Peek() == '(' {
 		cur.Advance(1)
 		ctx.skipBlanks()
-		retelem, err := ctx.parseElementChildrenContentDeclPriv(depth + 1)
+		var err error
+		retelem, err = ctx.parseElementChildrenContentDeclPriv(depth + 1)
 		if err != nil {
 			return nil, ctx.error(err)
 		}
@@ -2838,6 +2846,9 @@ LOOP:
 		curelem.c2 = last
 		last.parent = curelem
 	}
+	if cur.Peek() != ')' {
+		return nil, ctx.error(ErrElementContentNotFinished)
+	}
 	cur.Advance(1)
 	/*
 	   	    if ((ctxt->validate) && (ctxt->input->id != inputchk)) {
@@ -2852,7 +2863,7 @@ LOOP:
 	case '?':
 		// XXX why would ret be null?
 		if retelem != nil {
-			if retelem.coccur == ElementContentPlus {
+			if retelem.coccur == ElementContentPlus || retelem.coccur == ElementContentMult {
 				retelem.coccur = ElementContentMult
 			} else {
 				retelem.coccur = ElementContentOpt
@@ -2878,8 +2889,9 @@ LOOP:
 				curelem = curelem.c2
 			}
 		}
+		cur.Advance(1)
 	case '+':
-		if retelem.coccur == ElementContentOpt {
+		if retelem.coccur == ElementContentOpt || retelem.coccur == ElementContentMult {
 			retelem.coccur = ElementContentMult
 		} else {
 			retelem.coccur = ElementContentPlus
@@ -2906,6 +2918,7 @@ LOOP:
 		if found {
 			retelem.coccur = ElementContentMult
 		}
+		cur.Advance(1)
 	}
 
 	return retelem, nil
diff --git a/tree.go b/tree.go
index e597f4a..9b1ec5f 100644
--- a/tree.go
+++ b/tree.go
@@ -375,6 +375,12 @@ func (t *TreeBuilder) ElementDecl(ctxif sax.Context, name string, typ int, conte
 		return errors.New("sax.ElementDecl called while not in subset")
 	}
 
+	// [ VC: Unique Element Type Declaration ]
+	// This is not a well-formedness error. The first declaration is kept
+	if _, ok := dtd.GetElementDesc(name); ok {
+		return nil
+	}
+
 	_, err := dtd.AddElementDecl(name, ElementTypeVal(typ), content.(*ElementContent))
 	if err != nil {
 		return err
-- 
2.43.0


From e6ec8195793bec2f4c2f2c0a18e016d5005e8901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 06/24] fix: scope namespaces to their elements, check
 attributes and apply defaults deterministically

Namespace declarations stayed in scope after the end of their element, could not
be overridden or removed, and appeared twice. Attributes could be duplicated,
unquoted or undeclared-prefixed. Attribute types were looked up by local names,
defaults came in random order and on top of specified values, and redeclaring an
attribute was an error.
---
 dump.go             |  11 +-
 parser_interface.go |   3 +-
 parserctx.go        | 298 +++++++++++++++++++++++++++-----------------
 stack.go            |  15 ++-
 4 files changed, 202 insertions(+), 125 deletions(-)

diff --git a/dump.go b/dump.go
index 0e1983b..b3ad70d 100644
--- a/dump.go
+++ b/dump.go
@@ -589,8 +589,8 @@ func (d *Dumper) dumpNsList(out io.Writer, nslist []*Namespace) error {
 }
 
 func (d *Dumper) dumpNs(out io.Writer, ns *Namespace) error {
-	if ns.href == "" {
-		// no op
+	if ns.href == "" && ns.prefix != "" {
+		// no op, only the default namespace can be undeclared
 		return nil
 	}
 
@@ -602,8 +602,11 @@ func (d *Dumper) dumpNs(out io.Writer, ns *Namespace) error {
 		io.WriteString(out, "xmlns:")
 		io.WriteString(out, ns.prefix)
 	}
-	io.WriteString(out, "=")
-	dumpQuotedString(out, ns.href)
+	io.WriteString(out, `="`)
+	if err := escapeAttrValue(out, []byte(ns.href)); err != nil {
+		return err
+	}
+	io.WriteString(out, `"`)
 	return nil
 }
 
diff --git a/parser_interface.go b/parser_interface.go
index 9f36949..a3bbe19 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -131,7 +131,7 @@ type parserCtx struct {
 	extSubURI         string
 	version           string
 	attsSpecial       map[string]AttributeType
-	attsDefault       map[string]map[string]*Attribute
+	attsDefault       map[string][]*attrData
 	valid             bool
 	hasPERefs         bool
 	pedantic          bool
@@ -141,6 +141,7 @@ type parserCtx struct {
 	elem              *Element // current context element
 
 	nsTab      nsStack
+	nsNr       []int // number of entries in nsTab for each open element
 	doc        *Document
 	userData   interface{}
 	nodeTab    nodeStack
diff --git a/parserctx.go b/parserctx.go
index 1373d4d..ab11645 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -79,7 +79,7 @@ func (ctx *parserCtx) fireSAXCallback(typ int, args ...interface{}) error {
 			defer g.End()
 		}
 
-		entity, err := s.GetParameterEntity(ctx, args[1].(string))
+		entity, err := s.GetParameterEntity(ctx.userData, args[1].(string))
 		if err == nil {
 			ret := args[0].(*sax.Entity)
 			*ret = entity
@@ -141,6 +141,10 @@ func (ctx *parserCtx) popNode() (elem *Element) {
 }
 
 func (ctx *parserCtx) lookupNamespace(prefix string) string {
+	// the xml prefix is always bound, and cannot be declared otherwise
+	if prefix == XMLPrefix {
+		return XMLNamespace
+	}
 	return ctx.nsTab.Lookup(prefix)
 }
 
@@ -208,7 +212,7 @@ func (ctx *parserCtx) init(p *Parser, in io.Reader) error {
 	ctx.userData = ctx // circular dep?!
 	ctx.standalone = StandaloneImplicitNo
 	ctx.attsSpecial = map[string]AttributeType{}
-	ctx.attsDefault = map[string]map[string]*Attribute{}
+	ctx.attsDefault = map[string][]*attrData{}
 	ctx.wellFormed = true
 	if p != nil {
 		ctx.sax = p.sax
@@ -749,8 +753,17 @@ func (ctx *parserCtx) parseStartTag() error {
 		return ctx.error(err)
 	}
 
+	elemName := local
+	if prefix != "" {
+		elemName = prefix + ":" + local
+	}
+
+	// number of namespaces declared on this element
 	nbNs := 0
 	attrs := []sax.Attribute{}
+	// qualified names of the attributes on this element, including the
+	// namespace declarations
+	seen := map[string]struct{}{}
 	for ctx.instate != psEOF {
 		ctx.skipBlanks()
 		if cur.Peek() == '>' {
@@ -761,74 +774,11 @@ func (ctx *parserCtx) parseStartTag() error {
 		if cur.Peek() == '/' && cur.PeekN(2) == '>' {
 			break
 		}
-		attname, aprefix, attvalue, err := ctx.parseAttribute(local)
+		attname, aprefix, attvalue, err := ctx.parseAttribute(elemName)
 		if err != nil {
 			return ctx.error(err)
 		}
 
-		if attname == XMLNsPrefix && aprefix == "" {
-			// <elem xmlns="...">
-			ctx.pushNS("", attvalue)
-			nbNs++
-			//    SkipDefaultNS:
-			if cur.Peek() == '>' || cur.HasPrefixString("/>") {
-				continue
-			}
-
-			if !isBlankCh(cur.Peek()) {
-				return ctx.error(ErrSpaceRequired)
-			}
-			ctx.skipBlanks()
-		} else if aprefix == XMLNsPrefix {
-			var u *url.URL // predeclare, so we can use goto SkipNS
-
-			// <elem xmlns:foo="...">
-			if attname == XMLPrefix { // xmlns:xml
-				if attvalue != XMLNamespace {
-					return ctx.error(errors.New("xml namespace prefix mapped to wrong URI"))
-				}
-				// skip storing namespace definition
-				goto SkipNS
-			}
-			if attname == XMLNsPrefix { // xmlns:xmlns="..."
-				return ctx.error(errors.New("redefinition of the xmlns prefix forbidden"))
-			}
-
-			if attvalue == "http://www.w3.org/2000/xmlns/" {
-				return ctx.error(errors.New("reuse of the xmlns namespace name if forbidden"))
-			}
-
-			if attvalue == "" {
-				return ctx.error(fmt.Errorf("xmlns:%s: Empty XML namespace is not allowed", attname))
-			}
-
-			u, err = url.Parse(attvalue)
-			if err != nil {
-				return ctx.error(fmt.Errorf("xmlns:%s: '%s' is not a validURI", attname, attvalue))
-			}
-			if ctx.pedantic && u.Scheme == "" {
-				return ctx.error(fmt.Errorf("xmlns:%s: URI %s is not absolute", attname, attvalue))
-			}
-
-			if ctx.nsTab.Lookup(attname) != "" {
-				return ctx.error(errors.New("duplicate attribute is not allowed"))
-			}
-			ctx.pushNS(attname, attvalue)
-			nbNs++
-
-		SkipNS:
-			if cur.Peek() == '>' || cur.HasPrefixString("/>") {
-				continue
-			}
-
-			if !isBlankCh(cur.Peek()) {
-				return ctx.error(ErrSpaceRequired)
-			}
-			ctx.skipBlanks()
-			// ctx.input.base != base || inputNr != ctx.inputNr; goto base_changed
-			continue
-		}
-
 		// Due to various reasons, we cannot create a real Attribute object
 		// here. So we create a simple holder for attribute data
 		attr := &attrData{
@@ -836,31 +786,72 @@ func (ctx *parserCtx) parseStartTag() error {
 			prefix:    aprefix,
 			value:     attvalue,
 		}
+		if _, ok := seen[attr.Name()]; ok {
+			return ctx.error(fmt.Errorf("attribute %s redefined", attr.Name()))
+		}
+		seen[attr.Name()] = struct{}{}
+
+		isNS, err := ctx.parseNamespaceDecl(attr, &nbNs)
+		if err != nil {
+			return ctx.error(err)
+		}
+		if !isNS {
+			attrs = append(attrs, attr)
+		}
 
-		attrs = append(attrs, attr)
+		if cur.Peek() == '>' || cur.HasPrefixString("/>") {
+			continue
+		}
+
+		if !isBlankCh(cur.Peek()) {
+			return ctx.error(ErrSpaceRequired)
+		}
 	}
 
 	// attributes defaulting
 	// XXX Punting a lot of stuff here. See xmlParseStartTag2
 	if len(ctx.attsDefault) > 0 {
-		var elemName string
-		if prefix != "" {
-			elemName = prefix + ":" + local
-		} else {
-			elemName = local
-		}
-
 		if pdebug.Enabled {
 			pdebug.Printf("-------> %s", elemName)
 		}
 		defaults, ok := ctx.lookupAttributeDefault(elemName)
 		if ok {
 			for _, attr := range defaults {
-				attrs = append(attrs, attr)
+				// defaults don't apply to attributes that are specified
+				if _, ok := seen[attr.Name()]; ok {
+					continue
+				}
+				isNS, err := ctx.parseNamespaceDecl(attr, &nbNs)
+				if err != nil {
+					return ctx.error(err)
+				}
+				if !isNS {
+					attrs = append(attrs, attr)
+				}
 			}
 		}
 	}
 
+	// [Namespace constraint: Prefix Declared, Attributes Unique]
+	var expanded map[string]struct{}
+	for _, attr := range attrs {
+		if attr.Prefix() == "" {
+			continue
+		}
+		uri := ctx.lookupNamespace(attr.Prefix())
+		if uri == "" {
+			return ctx.error(errors.New("namespace '" + attr.Prefix() + "' not found"))
+		}
+		if expanded == nil {
+			expanded = map[string]struct{}{}
+		}
+		key := attr.LocalName() + " " + uri
+		if _, ok := expanded[key]; ok {
+			return ctx.error(fmt.Errorf("namespaced attribute %s in '%s' redefined", attr.LocalName(), uri))
+		}
+		expanded[key] = struct{}{}
+	}
+
 	// we push the element first, because this way we get to
 	// query for the namespace declared on this node as well
 	// via lookupNamespace
@@ -889,10 +880,78 @@ func (ctx *parserCtx) parseStartTag() error {
 		}
 	}
 	ctx.pushNode(elem)
+	ctx.nsNr = append(ctx.nsNr, nbNs)
 
 	return nil
 }
 
+// parseNamespaceDecl pushes the namespace declared by the attribute (and
+// counts it in nbNs), if the attribute is a namespace declaration at all
+func (ctx *parserCtx) parseNamespaceDecl(attr *attrData, nbNs *int) (bool, error) {
+	attname := attr.localname
+	isDefault := attr.prefix == "" && attname == XMLNsPrefix
+	if !isDefault && attr.prefix != XMLNsPrefix {
+		return false, nil
+	}
+
+	// a namespace name is just a string, it doesn't contain references
+	uri := attr.value
+	if strings.IndexByte(uri, '&') > -1 {
+		var err error
+		uri, err = ctx.decodeEntities([]byte(uri), SubstituteRef)
+		if err != nil {
+			return false, err
+		}
+	}
+
+	if uri == "http://www.w3.org/2000/xmlns/" {
+		return false, errors.New("reuse of the xmlns namespace name if forbidden")
+	}
+
+	if isDefault { // <elem xmlns="...">
+		if uri == XMLNamespace {
+			return false, errors.New("xml namespace URI cannot be the default namespace")
+		}
+		ctx.pushNS("", uri)
+		*nbNs++
+		return true, nil
+	}
+
+	// <elem xmlns:foo="...">
+	if attname == XMLPrefix { // xmlns:xml
+		if uri != XMLNamespace {
+			return false, errors.New("xml namespace prefix mapped to wrong URI")
+		}
+		// skip storing namespace definition
+		return true, nil
+	}
+	if attname == XMLNsPrefix { // xmlns:xmlns="..."
+		return false, errors.New("redefinition of the xmlns prefix forbidden")
+	}
+
+	if uri == XMLNamespace {
+		return false, errors.New("xml namespace URI mapped to wrong prefix")
+	}
+
+	if uri == "" {
+		return false, fmt.Errorf("xmlns:%s: Empty XML namespace is not allowed", attname)
+	}
+
+	if ctx.pedantic {
+		u, err := url.Parse(uri)
+		if err != nil {
+			return false, fmt.Errorf("xmlns:%s: '%s' is not a validURI", attname, uri)
+		}
+		if u.Scheme == "" {
+			return false, fmt.Errorf("xmlns:%s: URI %s is not absolute", attname, uri)
+		}
+	}
+
+	ctx.pushNS(attname, uri)
+	*nbNs++
+	return true, nil
+}
+
 /**
  * parse an end of tag
  *
@@ -918,9 +977,10 @@ func (ctx *parserCtx) parseEndTag() error {
 		}
 
 		e := ctx.peekNode()
-		if !cur.ConsumeString(e.Name()) {
+		if !cur.ConsumeString(e.Name()) || isNameChar(cur.Peek()) {
 			return ctx.error(errors.New("expected end tag '" + e.Name() + "'"))
 		}
+		ctx.skipBlanks()
 
 		if cur.Peek() != '>' {
 			return ctx.error(ErrGtRequired)
@@ -930,7 +990,7 @@ func (ctx *parserCtx) parseEndTag() error {
 
 	e := ctx.peekNode()
 	if s := ctx.sax; s != nil {
-		switch err := s.EndElementNS(ctx, e.LocalName(), e.Prefix(), e.URI()); err {
+		switch err := s.EndElementNS(ctx.userData, e.LocalName(), e.Prefix(), e.URI()); err {
 		case nil, sax.ErrHandlerUnspecified:
 			// no op
 		default:
@@ -939,6 +999,14 @@ func (ctx *parserCtx) parseEndTag() error {
 	}
 	ctx.popNode()
 
+	// the namespaces declared on this element are not in scope anymore
+	if l := len(ctx.nsNr); l > 0 {
+		if nbNs := ctx.nsNr[l-1]; nbNs > 0 {
+			ctx.nsTab.Pop(nbNs)
+		}
+		ctx.nsNr = ctx.nsNr[:l-1]
+	}
+
 	return nil
 }
 
@@ -948,9 +1016,10 @@ func (ctx *parserCtx) parseAttributeValue(normalize bool) (value string, entitie
 		defer g.IRelease("END parseAttributeValue")
 	}
 
-	ctx.parseQuotedText(func(qch rune) (string, error) {
+	_, err = ctx.parseQuotedText(func(qch rune) (string, error) {
+		var err error
 		value, entities, err = ctx.parseAttributeValueInternal(qch, normalize)
-		return "", nil
+		return "", err
 	})
 	return
 }
@@ -1076,7 +1145,11 @@ func (ctx *parserCtx) parseAttribute(elemName string) (local string, prefix stri
 	}
 
 	normalize := false
-	attType, ok := ctx.lookupSpecialAttribute(elemName, l)
+	attrName := l
+	if p != "" {
+		attrName = p + ":" + l
+	}
+	attType, ok := ctx.lookupSpecialAttribute(elemName, attrName)
 	if pdebug.Enabled {
 		pdebug.Printf("looked up attribute %s:%s -> %d (%t)", elemName, l, attType, ok)
 	}
@@ -1091,6 +1164,7 @@ func (ctx *parserCtx) parseAttribute(elemName string) (local string, prefix stri
 	}
 	if cur.Peek() != '=' {
 		err = ctx.error(ErrEqualSignRequired)
+		return
 	}
 	cur.Advance(1)
 	ctx.skipBlanks()
@@ -2042,7 +2116,7 @@ func (ctx *parserCtx) parseComment() error {
 	cur.Advance(i + 1)
 
 	if sh := ctx.sax; sh != nil {
-		switch err := sh.Comment(ctx, str); err {
+		switch err := sh.Comment(ctx.userData, str); err {
 		case nil, sax.ErrHandlerUnspecified:
 			// no op
 		default:
@@ -3669,7 +3743,7 @@ func (ctx *parserCtx) attrNormalizeSpace(s string) (value string) {
 		out = append(out, 0x20) // append a single space
 	}
 
-	if out[len(out)-1] == 0x20 {
+	if len(out) > 0 && out[len(out)-1] == 0x20 {
 		out = out[:len(out)-1]
 	}
 	value = string(out)
@@ -3696,16 +3770,19 @@ func (ctx *parserCtx) cleanSpecialAttributes() {
 }
 
 func (ctx *parserCtx) addSpecialAttribute(elemName, attrName string, typ AttributeType) {
-	key := elemName + ":" + attrName
+	key := elemName + " " + attrName
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START addSpecialAttribute(%s, %d)", key, typ)
 		defer g.IRelease("END addSpecialAttribute")
 	}
-	ctx.attsSpecial[key] = typ
+	// the first declaration of an attribute is binding
+	if _, ok := ctx.attsSpecial[key]; !ok {
+		ctx.attsSpecial[key] = typ
+	}
 }
 
 func (ctx *parserCtx) lookupSpecialAttribute(elemName, attrName string) (AttributeType, bool) {
-	key := elemName + ":" + attrName
+	key := elemName + " " + attrName
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START lookupSpecialAttribute(%s)", key)
 		defer g.IRelease("END lookupSpecialAttribute")
@@ -3765,8 +3842,12 @@ func (ctx *parserCtx) addAttributeDecl(dtd *DTD, elem string, name string, prefi
 	attr.tree = tree
 	attr.defvalue = defvalue
 
-	// Validity Check: Search the DTD for previous declarations of the ATTLIST
-	// (RegisterAttribute should return error if this attr already exists)
+	// Search the DTD for previous declarations of the ATTLIST. It is not
+	// an error to declare an attribute again, but the first declaration is
+	// binding, and later ones are ignored
+	if old, ok := dtd.LookupAttribute(name, prefix, elem); ok {
+		return old, nil
+	}
 	if err = dtd.RegisterAttribute(attr); err != nil {
 		attr = nil
 		return
@@ -3830,33 +3911,16 @@ func (ctx *parserCtx) addAttributeDefault(elemName, attrName, defaultValue strin
 		return
 	}
 
-	// XXX seems like when your language has a map, you can do just
-	// kinda do away with a bunch of stuff..  See xmlAddDefAttrs for
-	// details of what the original code is doing
-	m, ok := ctx.attsDefault[elemName]
-	if !ok {
-		m = map[string]*Attribute{}
-		ctx.attsDefault[elemName] = m
+	attr := &attrData{
+		localname: attrName,
+		value:     defaultValue,
+		isDefault: true,
 	}
-
-	var prefix string
-	var local string
 	if i := strings.IndexByte(attrName, ':'); i > -1 {
-		prefix = attrName[:i]
-		local = attrName[i+1:]
-	} else {
-		local = attrName
-	}
-
-	uri := ctx.lookupNamespace(prefix)
-	attr, err := ctx.doc.CreateAttribute(local, defaultValue, newNamespace(prefix, uri))
-	if err != nil {
-		// XXX Unhandled?!
-		return
+		attr.prefix = attrName[:i]
+		attr.localname = attrName[i+1:]
 	}
-
-	attr.SetDefault(true)
-	m[attrName] = attr
+	ctx.attsDefault[elemName] = append(ctx.attsDefault[elemName], attr)
 
 	/*
 	   	hmm, let's think about this when the time comes
@@ -3867,7 +3931,7 @@ func (ctx *parserCtx) addAttributeDefault(elemName, attrName, defaultValue strin
 	*/
 }
 
-func (ctx *parserCtx) lookupAttributeDefault(elemName string) (map[string]*Attribute, bool) {
+func (ctx *parserCtx) lookupAttributeDefault(elemName string) ([]*attrData, bool) {
 	v, ok := ctx.attsDefault[elemName]
 	return v, ok
 }
@@ -3904,7 +3968,13 @@ func (ctx *parserCtx) parseAttributeListDecl() error {
 	}
 	ctx.skipBlanks()
 
-	for cur.Peek() != '>' && ctx.instate != psEOF {
+	// <!ATTLIST name> doesn't declare anything, but is allowed
+	if cur.Peek() == '>' {
+		cur.Advance(1)
+		return nil
+	}
+
+	for ctx.instate != psEOF {
 		attrName, err := ctx.parseName()
 		if err != nil {
 			return ctx.error(ErrAttributeNameRequired)
@@ -3959,7 +4029,7 @@ func (ctx *parserCtx) parseAttributeListDecl() error {
 			}
 		}
 
-		if defvalue != "" && def != AttrDefaultImplied && def != AttrDefaultRequired {
+		if def != AttrDefaultImplied && def != AttrDefaultRequired {
 			ctx.addAttributeDefault(elemName, attrName, defvalue)
 		}
 
diff --git a/stack.go b/stack.go
index 6d57cf8..be85030 100644
--- a/stack.go
+++ b/stack.go
@@ -10,8 +10,10 @@ type inputStack struct {
 	stack.SimpleStack
 }
 
+// nsStack is not a stack.UniqueStack: declarations of a prefix hide those
+// on the enclosing elements
 type nsStack struct {
-	stack.UniqueStack
+	stack.SimpleStack
 }
 
 type nsStackItem struct {
@@ -38,15 +40,16 @@ func newNsStack() nsStack {
 }
 
 func (s *nsStack) Push(prefix, uri string) {
-	s.UniqueStack.Push(nsStackItem{prefix: prefix, href: uri})
+	s.SimpleStack.Push(nsStackItem{prefix: prefix, href: uri})
 }
 
 func (s *nsStack) Lookup(prefix string) string {
-	item := s.UniqueStack.Lookup(prefix)
-	if item == stack.NilItem {
-		return ""
+	for i := s.Len() - 1; i >= 0; i-- {
+		if item := s.SimpleStack[i].(nsStackItem); item.prefix == prefix {
+			return item.href
+		}
 	}
-	return item.(nsStackItem).href
+	return ""
 }
 
 func newNodeStack() nodeStack {
-- 
2.43.0


From 7fc1d045feb0cc7a19cb9682ddf495563237e56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:15 +0000
Subject: [PATCH 07/24] fix: check character references for digits, their end
 and overflow

---
 parserctx.go | 81 +++++++++++++++++++++-------------------------------
 1 file changed, 32 insertions(+), 49 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index ab11645..c7796c8 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4519,6 +4519,9 @@ func accumulateDecimalCharRef(val int32, c rune) (int32, error) {
 	} else {
 		return 0, errors.New("invalid decimal CharRef")
 	}
+	if val > unicode.MaxRune {
+		return 0, errors.New("CharRef out of range")
+	}
 	return val, nil
 }
 
@@ -4532,6 +4535,9 @@ func accumulateHexCharRef(val int32, c rune) (int32, error) {
 	} else {
 		return 0, errors.New("invalid hex CharRef")
 	}
+	if val > unicode.MaxRune {
+		return 0, errors.New("CharRef out of range")
+	}
 	return val, nil
 }
 
@@ -4540,7 +4546,7 @@ func parseStringCharRef(s []byte) (r rune, width int, err error) {
 	if pdebug.Enabled {
 		g := pdebug.Marker("parseStringCharRef")
 		defer func() {
-			pdebug.Printf("r = '%c' (%x), consumed %d bytes", &r, &r, &width)
+			pdebug.Printf("r = '%c' (%x), consumed %d bytes", r, r, width)
 			g.End()
 		}()
 	}
@@ -4555,35 +4561,25 @@ func parseStringCharRef(s []byte) (r rune, width int, err error) {
 	width += 2
 	s = s[2:]
 
-	var accumulator func(int32, rune) (int32, error)
-	if s[0] == 'x' {
+	accumulator := accumulateDecimalCharRef
+	if len(s) > 0 && s[0] == 'x' {
 		s = s[1:]
 		width++
 		accumulator = accumulateHexCharRef
-	} else {
-		accumulator = accumulateDecimalCharRef
 	}
 
-	for c := s[0]; c != ';'; c = s[0] {
+	end := bytes.IndexByte(s, ';')
+	if end < 1 {
+		return utf8.RuneError, 0, errors.New("invalid CharRef")
+	}
+	for _, c := range s[:end] {
 		val, err = accumulator(val, rune(c))
 		if err != nil {
 			width = 0
 			return
 		}
-		if rune(val) > unicode.MaxRune {
-			err = errors.New("hex CharRef out of range")
-			width = 0
-			return
-		}
-
-		s = s[1:]
-		width++
-	}
-
-	if s[0] == ';' {
-		s = s[1:]
-		width++
 	}
+	width += end + 1
 
 	r = rune(val)
 	if !isChar(val) {
@@ -4884,41 +4880,28 @@ func (ctx *parserCtx) parseCharRef() (r rune, err error) {
 	if cur == nil {
 		panic("did not get rune cursor")
 	}
+	digits := 0
+	accumulator := accumulateDecimalCharRef
 	if cur.ConsumeString("&#x") {
-		for c := cur.Peek(); !cur.Done() && c != ';'; c = cur.Peek() {
-			if c >= '0' && c <= '9' {
-				val = val*16 + (c - '0')
-			} else if c >= 'a' && c <= 'f' {
-				val = val*16 + (c - 'a') + 10
-			} else if c >= 'A' && c <= 'F' {
-				val = val*16 + (c - 'A') + 10
-			} else {
-				err = errors.New("invalid hex CharRef")
-				return
-			}
-			cur.Advance(1)
-		}
-		if cur.Peek() == ';' {
-			cur.Advance(1)
-		}
-	} else if cur.ConsumeString("&#") {
-		for !cur.Done() && cur.Peek() != ';' {
-			c := cur.Peek()
-			if c >= '0' && c <= '9' {
-				val = val*10 + (c - '0')
-			} else {
-				err = errors.New("invalid decimal CharRef")
-				return
-			}
-			cur.Advance(1)
-		}
-		if cur.Peek() == ';' {
-			cur.Advance(1)
+		accumulator = accumulateHexCharRef
+	} else if !cur.ConsumeString("&#") {
+		err = errors.New("invalid char ref")
+		return
+	}
+
+	for c := cur.Peek(); c != ';'; c = cur.Peek() {
+		val, err = accumulator(val, c)
+		if err != nil {
+			return
 		}
-	} else {
+		cur.Advance(1)
+		digits++
+	}
+	if digits == 0 {
 		err = errors.New("invalid char ref")
 		return
 	}
+	cur.Advance(1)
 
 	if isChar(val) && val <= unicode.MaxRune {
 		r = rune(val)
-- 
2.43.0


From 716d7f31ac069df54c539cf3b5eb7efeac8f638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 08/24] fix: resolve, check and keep references to entities as
 they are declared

---
 document.go         | 206 +++-------
 dtd.go              |   7 +
 entity.go           | 230 ++++++++++-
 parser_interface.go |   3 +
 parserctx.go        | 927 +++++++++++++++-----------------------------
 reference.go        |  12 +
 tree.go             |   2 +-
 7 files changed, 634 insertions(+), 753 deletions(-)

diff --git a/document.go b/document.go
index 1feb434..70a347c 100644
--- a/document.go
+++ b/document.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"errors"
 	"io"
-	"strings"
 
 	"github.com/lestrrat-go/pdebug"
 )
@@ -119,14 +118,10 @@ func (d *Document) CreateReference(name string) (*EntityRef, error) {
 		return nil, err
 	}
 
-	ent, ok := d.GetEntity(n.name)
-	if ok {
+	// libxml2 makes the entity the child of the reference, but it is
+	// also one of the children of the DTD.
+	if ent, ok := d.GetEntity(n.name); ok {
 		n.content = []byte(ent.content)
-		// Original code says:
-		// The parent pointer in entity is a DTD pointer and thus is NOT
-		// updated.  Not sure if this is 100% correct.
-		n.setFirstChild(ent)
-		n.setLastChild(ent)
 	}
 
 	return n, nil
@@ -255,6 +250,10 @@ func (d *Document) GetEntity(name string) (ent *Entity, found bool) {
 			}
 		}()
 	}
+	if d == nil {
+		return
+	}
+
 	if ints := d.intSubset; ints != nil {
 		if pdebug.Enabled {
 			pdebug.Printf("Looking into internal subset...")
@@ -332,162 +331,83 @@ func (d *Document) stringToNodeList(value string) (ret Node, err error) {
 			g.IRelease("END document.stringToNodeList '%s'", content)
 		}()
 	}
-	rdr := strings.NewReader(value)
+	text := []byte(value)
 	buf := bytes.Buffer{}
 	var last Node
-	var charval int32
-	var r rune
-	var r2 rune
-	for rdr.Len() > 0 {
-		r, _, err = rdr.ReadRune()
-		if err != nil {
-			return
+	add := func(node Node) {
+		if last == nil {
+			ret = node
+		} else {
+			last.AddSibling(node)
 		}
+		last = node
+	}
+	// flush the text so far
+	flush := func() error {
+		if buf.Len() > 0 {
+			if pdebug.Enabled {
+				pdebug.Printf("Flushing content so far... '%s'", buf.Bytes())
+			}
+			node, err := d.CreateText(buf.Bytes())
+			if err != nil {
+				return err
+			}
+			buf.Reset()
+			add(node)
+		}
+		return nil
+	}
 
+	for len(text) > 0 {
 		// if this is not any sort of an entity , just go go go
-		if r != '&' {
-			buf.WriteRune(r)
+		if text[0] != '&' {
+			buf.WriteByte(text[0])
+			text = text[1:]
 			continue
 		}
 
 		// well, at least the first rune sure looks like an entity, see what
 		// else we have.
-		r, _, err = rdr.ReadRune()
-		if err != nil {
-			return
-		}
-
-		if r == '#' {
-			r2, _, err = rdr.ReadRune()
+		if len(text) > 1 && text[1] == '#' {
+			r, width, err := parseStringCharRef(text)
 			if err != nil {
-				return
-			}
-
-			var accumulator func(int32, rune) (int32, error)
-			if r2 == 'x' {
-				accumulator = accumulateHexCharRef
-			} else {
-				rdr.UnreadRune()
-				accumulator = accumulateDecimalCharRef
-			}
-			for {
-				r, _, err = rdr.ReadRune()
-				if err != nil {
-					return
-				}
-				if r == ';' {
-					break
-				}
-				charval, err = accumulator(charval, r)
-				if err != nil {
-					return
-				}
-			}
-		} else {
-			rdr.UnreadRune()
-			entbuf := bytes.Buffer{}
-			for rdr.Len() > 0 {
-				r, _, err = rdr.ReadRune()
-				if err != nil {
-					return
-				}
-				if r == ';' {
-					break
-				}
-				entbuf.WriteRune(r)
-			}
-
-			if r != ';' {
-				err = errors.New("entity was unterminated (could not find terminating semicolon)")
-				return
-			}
-
-			val := entbuf.String()
-			ent, ok := d.GetEntity(val)
-
-			// XXX I *believe* libxml2 SKIPS entities that it can't resolve
-			// at this point?
-			if ok && ent.EntityType() == int(InternalPredefinedEntity) {
-				buf.Write(ent.Content())
-			} else {
-				// flush the buffer so far
-				if buf.Len() > 0 {
-					if pdebug.Enabled {
-						pdebug.Printf("Flushing content so far... '%s'", buf.Bytes())
-					}
-					var node Node
-					node, err = d.CreateText(buf.Bytes())
-					if err != nil {
-						return
-					}
-					buf.Reset()
-
-					if last == nil {
-						last = node
-						ret = node
-					} else {
-						last.AddSibling(node)
-						last = node
-					}
-				}
-
-				// create a new REFERENCE_REF node
-				var node Node
-				node, err = d.CreateReference(val)
-				if err != nil {
-					return
-				}
-
-				// no children
-				if ok && ent.FirstChild() == nil {
-					// XXX WTF am I doing here...?
-					var refchildren Node
-					refchildren, err = d.stringToNodeList(string(node.Content()))
-					if err != nil {
-						return
-					}
-					ent.setFirstChild(refchildren)
-					for n := refchildren; n != nil; {
-						n.SetParent(ent)
-						if x := n.NextSibling(); x != nil {
-							n = x
-						} else {
-							n = nil
-						}
-					}
-				}
-
-				if last == nil {
-					last = node
-					ret = node
-				} else {
-					last.AddSibling(node)
-					last = node
-				}
+				return nil, err
 			}
+			buf.WriteRune(r)
+			text = text[width:]
+			continue
 		}
 
-		if charval != 0 {
-			buf.WriteRune(rune(charval))
-			charval = 0
+		end := bytes.IndexByte(text, ';')
+		if end < 0 {
+			return nil, errors.New("entity was unterminated (could not find terminating semicolon)")
+		}
+		name := string(text[1:end])
+		text = text[end+1:]
+		if !isName(name) {
+			return nil, errors.New("invalid entity name")
 		}
-	}
 
-	if buf.Len() > 0 {
-		var n Node
-		n, err = d.CreateText(buf.Bytes())
-		if err != nil {
-			return
+		if ent, err := resolvePredefinedEntity(name); err == nil {
+			buf.Write(ent.Content())
+			continue
 		}
 
-		if last == nil {
-			ret = n
-		} else {
-			last.AddSibling(n)
+		// create a new REFERENCE_REF node
+		if err := flush(); err != nil {
+			return nil, err
 		}
+		node, err := d.CreateReference(name)
+		if err != nil {
+			return nil, err
+		}
+		add(node)
 	}
 
-	return
+	if err := flush(); err != nil {
+		return nil, err
+	}
+	return ret, nil
 }
 
 func (d *Document) CreateCharRef(name string) (*EntityRef, error) {
diff --git a/dtd.go b/dtd.go
index 0bf7625..c3495a7 100644
--- a/dtd.go
+++ b/dtd.go
@@ -34,6 +34,13 @@ func (dtd *DTD) AddEntity(name string, typ EntityType, publicID, systemID, conte
 		return nil, errors.Errorf("invalid entity type: %d", typ)
 	}
 
+	// [4.2 Entity Declarations]
+	// If the same entity is declared more than once, the first
+	// declaration encountered is binding
+	if ent, ok := table[name]; ok {
+		return ent, nil
+	}
+
 	ent := newEntity(name, typ, publicID, systemID, content, "")
 	ent.doc = dtd.doc
 	table[name] = ent
diff --git a/entity.go b/entity.go
index cf6caff..74edeb6 100644
--- a/entity.go
+++ b/entity.go
@@ -1,6 +1,13 @@
 package helium
 
-import "errors"
+import (
+	"bytes"
+	"errors"
+	"sort"
+	"unicode/utf8"
+
+	"github.com/lestrrat-go/helium/sax"
+)
 
 func resolvePredefinedEntity(name string) (*Entity, error) {
 	switch name {
@@ -71,3 +78,224 @@ func (e *Entity) Replace(cur Node) {
 func (n *Entity) SetTreeDoc(doc *Document) {
 	setTreeDoc(n, doc)
 }
+
+const (
+	// how deep references may be nested in the replacement text of entities
+	maxEntityDepth = 40
+	// how much text may be expanded from entities. For large documents,
+	// it's 10 times their size
+	maxEntityExpansion = 10 * 1024 * 1024
+)
+
+// entityTable holds what the parser knows about the entities of a document,
+// whatever the SAX handler does with their declarations
+type entityTable struct {
+	general   map[string]*Entity
+	parameter map[string]*Entity
+
+	// entities which the SAX handler came up with, but aren't *Entity
+	foreign  map[string]*Entity
+	foreignp map[string]*Entity
+
+	// entities that have been checked for use in content, and in
+	// attribute values
+	content   map[*Entity]*entityCheck
+	attribute map[*Entity]*entityCheck
+	// namespace prefixes that are used in the content of an entity
+	prefixes map[*Entity]map[string]struct{}
+
+	limit   int // limit for both of the below
+	size    int // size of the text, if all references were expanded
+	checked int // size of the replacement texts checked
+}
+
+type entityCheck struct {
+	inProgress bool
+	// expanded size, keyed by the meaning of the prefixes in there
+	size map[string]int
+}
+
+func newEntityTable() *entityTable {
+	return &entityTable{
+		general:   map[string]*Entity{},
+		parameter: map[string]*Entity{},
+		foreign:   map[string]*Entity{},
+		foreignp:  map[string]*Entity{},
+		content:   map[*Entity]*entityCheck{},
+		attribute: map[*Entity]*entityCheck{},
+		prefixes:  map[*Entity]map[string]struct{}{},
+		limit:     maxEntityExpansion,
+	}
+}
+
+// declare registers an internal entity, and returns true if it is the first
+// declaration for that name. Otherwise the declaration is to be ignored.
+func (t *entityTable) declare(name string, typ EntityType, content string) bool {
+	table := t.general
+	if typ == InternalParameterEntity {
+		table = t.parameter
+	}
+
+	if _, ok := table[name]; ok {
+		return false
+	}
+	table[name] = newEntity(name, typ, "", "", content, "")
+	return true
+}
+
+func (t *entityTable) adopt(table map[string]*Entity, ent sax.Entity) *Entity {
+	if ent == nil {
+		return nil
+	}
+	if e, ok := ent.(*Entity); ok {
+		return e
+	}
+
+	name := ent.Name()
+	content := string(ent.Content())
+	typ := EntityType(ent.EntityType())
+	if e, ok := table[name]; ok && e.content == content && e.entityType == typ {
+		return e
+	}
+	e := newEntity(name, typ, "", "", content, "")
+	table[name] = e
+	return e
+}
+
+func (t *entityTable) setPrefixes(ent *Entity, prefixes map[string]struct{}) {
+	if len(prefixes) > 0 {
+		t.prefixes[ent] = prefixes
+	}
+}
+
+// scope describes what the prefixes used in an entity mean at the current
+// position, on which it depends if its contents are namespace-well-formed
+func (t *entityTable) scope(ctx *parserCtx, ent *Entity) string {
+	prefixes := t.prefixes[ent]
+	if len(prefixes) == 0 {
+		return ""
+	}
+
+	names := make([]string, 0, len(prefixes))
+	for prefix := range prefixes {
+		names = append(names, prefix)
+	}
+	sort.Strings(names)
+
+	buf := bytes.Buffer{}
+	for _, prefix := range names {
+		buf.WriteString(ctx.lookupNamespace(prefix))
+		buf.WriteByte(0)
+	}
+	return buf.String()
+}
+
+// check runs f to check an entity, unless it is known to be OK
+func (t *entityTable) check(ctx *parserCtx, ent *Entity, table map[*Entity]*entityCheck, f func(*Entity) error) error {
+	c, ok := table[ent]
+	if !ok {
+		c = &entityCheck{size: map[string]int{}}
+		table[ent] = c
+	}
+
+	// [ WFC: No Recursion ]
+	// A parsed entity must not contain a recursive reference
+	// to itself, either directly or indirectly.
+	if c.inProgress {
+		return errors.New("entity loop")
+	}
+
+	size, ok := c.size[t.scope(ctx, ent)]
+	if !ok {
+		if ctx.depth >= maxEntityDepth {
+			return errors.New("entity loop (depth > 40)")
+		}
+		if t.checked += len(ent.content) + 100; t.checked > t.limit {
+			return errors.New("too much text in entities")
+		}
+
+		saved := t.size
+		t.size = len(ent.content)
+		c.inProgress = true
+		err := f(ent)
+		c.inProgress = false
+		size, t.size = t.size, saved
+		if err != nil {
+			return err
+		}
+		c.size[t.scope(ctx, ent)] = size
+	}
+
+	// this is to detect entities that expand exponentially
+	if t.size += size; t.size > t.limit {
+		return errors.New("too much text in entities")
+	}
+	return nil
+}
+
+// entityExpander expands references to entities that are declared in a
+// document
+type entityExpander struct {
+	doc   *Document
+	out   bytes.Buffer
+	stack map[*Entity]struct{}
+}
+
+// expand writes text with the references in there replaced. The ones that
+// can't be are kept.
+func (x *entityExpander) expand(text []byte) {
+	for len(text) > 0 {
+		i := bytes.IndexByte(text, '&')
+		if i < 0 {
+			i = len(text)
+		}
+		x.out.Write(text[:i])
+		text = text[i:]
+		if len(text) == 0 {
+			return
+		}
+
+		if r, width, err := parseStringCharRef(text); err == nil {
+			x.out.WriteRune(r)
+			text = text[width:]
+			continue
+		}
+		if name, width, err := parseStringName(text[1:]); err == nil && width+1 < len(text) && text[width+1] == ';' {
+			x.reference(name)
+			text = text[width+2:]
+			continue
+		}
+		x.out.WriteByte('&')
+		text = text[1:]
+	}
+}
+
+func (x *entityExpander) reference(name string) {
+	if ent, err := resolvePredefinedEntity(name); err == nil {
+		x.out.WriteString(ent.content)
+		return
+	}
+
+	ent, ok := x.doc.GetEntity(name)
+	if ok && ent.entityType == InternalGeneralEntity {
+		if _, loop := x.stack[ent]; !loop && len(x.stack) < maxEntityDepth && x.out.Len() < maxEntityExpansion {
+			if x.stack == nil {
+				x.stack = map[*Entity]struct{}{}
+			}
+			x.stack[ent] = struct{}{}
+			x.expand(ent.Content())
+			delete(x.stack, ent)
+			return
+		}
+	}
+
+	x.out.WriteByte('&')
+	x.out.WriteString(name)
+	x.out.WriteByte(';')
+}
+
+// isName returns true if s matches the production Name
+func isName(s string) bool {
+	_, width, err := parseStringName([]byte(s))
+	return err == nil && width == len(s) && utf8.ValidString(s)
+}
diff --git a/parser_interface.go b/parser_interface.go
index a3bbe19..da101bd 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -148,6 +148,9 @@ type parserCtx struct {
 	elemidx    int
 	nbentities int
 	inputTab   inputStack
+
+	entities     *entityTable        // shared by contexts for entity contents
+	usedPrefixes map[string]struct{} // prefixes looked up, if not nil
 }
 
 type SubstitutionType int
diff --git a/parserctx.go b/parserctx.go
index c7796c8..f2a7ed8 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -145,6 +145,9 @@ func (ctx *parserCtx) lookupNamespace(prefix string) string {
 	if prefix == XMLPrefix {
 		return XMLNamespace
 	}
+	if ctx.usedPrefixes != nil && prefix != "" {
+		ctx.usedPrefixes[prefix] = struct{}{}
+	}
 	return ctx.nsTab.Lookup(prefix)
 }
 
@@ -214,6 +217,7 @@ func (ctx *parserCtx) init(p *Parser, in io.Reader) error {
 	ctx.attsSpecial = map[string]AttributeType{}
 	ctx.attsDefault = map[string][]*attrData{}
 	ctx.wellFormed = true
+	ctx.entities = newEntityTable()
 	if p != nil {
 		ctx.sax = p.sax
 	}
@@ -396,6 +400,12 @@ func (ctx *parserCtx) switchEncoding() error {
 	ctx.popInput()
 	ctx.pushInput(newRuneCursor(b, cur.LineNumber()))
 
+	// what is expanded from entities may be larger than the input, but
+	// within reason
+	if l := 10 * len(b); l > maxEntityExpansion {
+		ctx.entities.limit = l
+	}
+
 	return nil
 }
 
@@ -1038,6 +1048,10 @@ func (ctx *parserCtx) parseAttributeValueInternal(qch rune, normalize bool) (val
 	if cur == nil {
 		panic("did not get rune cursor")
 	}
+	oldstate := ctx.instate
+	ctx.instate = psAttributeValue
+	defer func() { ctx.instate = oldstate }()
+
 	inSpace := false
 	b := bufferPool.Get().(*bytes.Buffer)
 	defer releaseBuffer(b)
@@ -2386,10 +2400,7 @@ func (ctx *parserCtx) parsePEReference() error {
 	/*
 		ctx.nbentities++ // number of entities parsed
 	*/
-	var entity sax.Entity
-	if s := ctx.sax; s != nil {
-		_ = ctx.fireSAXCallback(cbGetParameterEntity, &entity, name)
-	}
+	entity := ctx.lookupParameterEntity(name)
 
 	// XXX Why check here?
 	if ctx.instate == psEOF {
@@ -2406,7 +2417,7 @@ func (ctx *parserCtx) parsePEReference() error {
 		 * any reference to it...
 		 */
 		if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && !ctx.hasPERefs) {
-			return fmt.Errorf("parse error: PEReference: %%%s; not found", name)
+			return ctx.error(fmt.Errorf("PEReference: %%%s; not found", name))
 		}
 		/*
 		 * [ VC: Entity Declared ]
@@ -3020,11 +3031,54 @@ func (ctx *parserCtx) parseEntityValueInternal(qch rune) (string, error) {
 		buf.WriteRune(c)
 		i++
 	}
-	if i > 0 {
-		cur.Advance(i)
-		return buf.String(), nil
+	if i <= 0 {
+		return "", nil
 	}
-	return "", nil
+
+	value := buf.Bytes()
+	if n, err := ctx.checkEntityValue(value); err != nil {
+		cur.Advance(utf8.RuneCount(value[:n]))
+		return "", err
+	}
+	cur.Advance(i)
+	return buf.String(), nil
+}
+
+// checkEntityValue checks that the literal value of an entity only uses
+// '&' and '%' to start references. If it does not, the offset of the
+// offending character is returned along with the error.
+func (ctx *parserCtx) checkEntityValue(value []byte) (int, error) {
+	for i := 0; i < len(value); {
+		switch value[i] {
+		case '&':
+			if bytes.HasPrefix(value[i:], []byte{'&', '#'}) {
+				_, width, err := parseStringCharRef(value[i:])
+				if err != nil {
+					return i, err
+				}
+				i += width
+				continue
+			}
+
+			_, width, err := parseStringName(value[i+1:])
+			if err != nil {
+				return i, ErrNameRequired
+			}
+			i += width + 1
+			if i >= len(value) || value[i] != ';' {
+				return i, ErrSemicolonRequired
+			}
+		case '%':
+			// [WFC: PEs in Internal Subset]
+			// In the internal DTD subset, parameter-entity references
+			// MUST NOT occur within markup declarations
+			if !ctx.external {
+				return i, errors.New("parameter entity references are not allowed within markup declarations of the internal subset")
+			}
+		}
+		i++
+	}
+	return 0, nil
 }
 
 /*
@@ -3069,6 +3123,11 @@ func (ctx *parserCtx) decodeEntitiesInternal(s []byte, what SubstitutionType, de
 			if err != nil {
 				return "", err
 			}
+			if ent == nil { // not declared, but it doesn't need to
+				out.Write(s[:width])
+				s = s[width:]
+				continue
+			}
 			if err := ctx.entityCheck(ent, 0, 0); err != nil {
 				return "", err
 			}
@@ -3085,8 +3144,6 @@ func (ctx *parserCtx) decodeEntitiesInternal(s []byte, what SubstitutionType, de
 				}
 
 				out.WriteString(rep)
-			} else {
-				out.WriteString(ent.Name())
 			}
 			s = s[width:]
 		} else if s[0] == '%' && what&SubstitutePERef == SubstitutePERef {
@@ -3094,6 +3151,10 @@ func (ctx *parserCtx) decodeEntitiesInternal(s []byte, what SubstitutionType, de
 			if err != nil {
 				return "", err
 			}
+			if ent == nil {
+				s = s[width:]
+				continue
+			}
 			if err := ctx.entityCheck(ent, width, 0); err != nil {
 				return "", err
 			}
@@ -3130,6 +3191,9 @@ func (ctx *parserCtx) parseEntityValue() (string, string, error) {
 	literal, err := ctx.parseQuotedText(func(qch rune) (string, error) {
 		return ctx.parseEntityValueInternal(qch)
 	})
+	if err != nil {
+		return "", "", ctx.error(err)
+	}
 
 	val, err := ctx.decodeEntities([]byte(literal), SubstitutePERef)
 	if err != nil {
@@ -3204,6 +3268,7 @@ func (ctx *parserCtx) parseEntityDecl() error {
 	var literal string
 	var value string
 	var uri string
+	var isFirst bool // is this the first (i.e. the binding) declaration?
 
 	if isParameter {
 		if pdebug.Enabled {
@@ -3215,24 +3280,26 @@ func (ctx *parserCtx) parseEntityDecl() error {
 				pdebug.Printf("parseEntityDecl, isParameter = true, calling parseEntityValue")
 			}
 			literal, value, err = ctx.parseEntityValue()
+			if err != nil {
+				return ctx.error(err)
+			}
 			if pdebug.Enabled {
 				pdebug.Printf("entity declaration '%s' -> '%s'", name, value)
 			}
 
-			if err == nil {
-				switch err := ctx.fireSAXCallback(cbEntityDecl, name, value); err {
-				case nil, sax.ErrHandlerUnspecified:
-					// no op
-				default:
-					return ctx.error(err)
-				}
+			isFirst = ctx.entities.declare(name, InternalParameterEntity, value)
+			switch err := ctx.fireSAXCallback(cbEntityDecl, name, value); err {
+			case nil, sax.ErrHandlerUnspecified:
+				// no op
+			default:
+				return ctx.error(err)
 			}
 		} else {
 			if pdebug.Enabled {
 				pdebug.Printf("Attempting to parse external ID")
 			}
 			literal, uri, err = ctx.parseExternalID()
-			if err != nil {
+			if err != nil || (literal == "" && uri == "") {
 				return ctx.error(ErrValueRequired)
 			}
 
@@ -3262,19 +3329,22 @@ func (ctx *parserCtx) parseEntityDecl() error {
 		}
 		if c := cur.Peek(); c == '"' || c == '\'' {
 			literal, value, err = ctx.parseEntityValue()
-			if err == nil {
-				if s := ctx.sax; s != nil {
-					switch err := s.EntityDecl(ctx.userData, name, int(InternalGeneralEntity), "", "", value); err {
-					case nil, sax.ErrHandlerUnspecified:
-						// no op
-					default:
-						return ctx.error(err)
-					}
+			if err != nil {
+				return ctx.error(err)
+			}
+
+			isFirst = ctx.entities.declare(name, InternalGeneralEntity, value)
+			if s := ctx.sax; s != nil {
+				switch err := s.EntityDecl(ctx.userData, name, int(InternalGeneralEntity), "", "", value); err {
+				case nil, sax.ErrHandlerUnspecified:
+					// no op
+				default:
+					return ctx.error(err)
 				}
 			}
 		} else {
 			literal, uri, err = ctx.parseExternalID()
-			if err != nil {
+			if err != nil || (literal == "" && uri == "") {
 				return ctx.error(ErrValueRequired)
 			}
 
@@ -3385,7 +3455,7 @@ func (ctx *parserCtx) parseEntityDecl() error {
 			*/
 		}
 	}
-	if curent != nil {
+	if curent != nil && isFirst {
 		curent.SetOrig(literal)
 	}
 
@@ -4077,82 +4147,113 @@ func (ctx *parserCtx) parseEpilogue() error {
 	return nil
 }
 
-func (ctx *parserCtx) parseExternalEntityPrivate(uri, externalID string) (Node, error) {
-	return nil, errors.New("unimplemented")
-}
-
 var ErrParseSucceeded = errors.New("parse succeeded")
 
-func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interface{}) (Node, error) {
+// checkEntityContent parses the replacement text of an entity, to check that
+// it can be referenced from the current position: it must match the
+// production labeled content, and it must not refer to itself.
+// No events are generated for what is in there.
+func (ctx *parserCtx) checkEntityContent(ent *Entity) error {
 	if pdebug.Enabled {
-		g := pdebug.IPrintf("START parseBalancedChunkInternal")
-		defer g.IRelease("END parseBalancedChunkInternal")
+		g := pdebug.IPrintf("START checkEntityContent '%s'", ent.name)
+		defer g.IRelease("END checkEntityContent")
 	}
 
-	ctx.depth++
-	defer func() { ctx.depth-- }()
+	return ctx.entities.check(ctx, ent, ctx.entities.content, ctx.parseBalancedChunkInternal)
+}
 
-	if ctx.depth > 40 {
-		return nil, errors.New("entity loop")
+func (ctx *parserCtx) parseBalancedChunkInternal(ent *Entity) error {
+	if pdebug.Enabled {
+		g := pdebug.IPrintf("START parseBalancedChunkInternal")
+		defer g.IRelease("END parseBalancedChunkInternal")
 	}
 
 	newctx := &parserCtx{}
 	if err := newctx.init(nil, bytes.NewReader(nil)); err != nil {
-		return nil, err
+		return err
 	}
 	defer newctx.release()
 	// the chunk has already been decoded, and so have its line ends
 	newctx.popInput()
-	newctx.pushInput(newRuneCursor(chunk, 1))
+	newctx.pushInput(newRuneCursor(ent.Content(), 1))
 
-	if userData != nil {
-		newctx.userData = userData
-	} else {
-		newctx.userData = newctx
-	}
-
-	if ctx.doc == nil {
-		ctx.doc = NewDocument("1.0", "", StandaloneExplicitNo)
-	}
-
-	// save the document's children
-	fc := ctx.doc.FirstChild()
-	lc := ctx.doc.LastChild()
-	ctx.doc.setFirstChild(nil)
-	ctx.doc.setLastChild(nil)
-	defer func() {
-		ctx.doc.setFirstChild(fc)
-		ctx.doc.setLastChild(lc)
-	}()
+	newctx.userData = newctx
 	newctx.doc = ctx.doc
-	newctx.sax = ctx.sax
 	newctx.attsDefault = ctx.attsDefault
+	newctx.attsSpecial = ctx.attsSpecial
+	newctx.standalone = ctx.standalone
+	newctx.hasPERefs = ctx.hasPERefs
+	newctx.hasExternalSubset = ctx.hasExternalSubset
 	newctx.depth = ctx.depth + 1
+	newctx.entities = ctx.entities
+	newctx.usedPrefixes = map[string]struct{}{}
+	for _, item := range ctx.nsTab.SimpleStack {
+		newctx.nsTab.SimpleStack.Push(item)
+	}
+
+	// no content callbacks, but references within the entity need to
+	// be resolved just like others
+	if s := ctx.sax; s != nil {
+		h := sax.New()
+		h.GetEntityHandler = func(_ sax.Context, name string) (sax.Entity, error) {
+			return s.GetEntity(ctx.userData, name)
+		}
+		newctx.sax = h
+	}
 
 	// create a dummy node
-	newRoot, err := newctx.doc.CreateElement("pseudoroot")
-	if err != nil {
-		return nil, ctx.error(err)
+	newctx.pushNode(newElement("pseudoroot"))
+	err := newctx.parseContent()
+	if err == nil && !newctx.getCursor().Done() {
+		err = errors.New("entity is not well-balanced")
 	}
-	newctx.pushNode(newRoot)
-	newctx.doc.AddChild(newRoot)
-	if err := newctx.parseContent(); err != nil {
-		return nil, err
+	ctx.entities.setPrefixes(ent, newctx.usedPrefixes)
+	if e, ok := err.(ErrParseError); ok {
+		// the position within the entity is of no use
+		err = e.Err
 	}
+	return err
+}
 
-	if child := newctx.doc.FirstChild(); child != nil {
-		if grandchild := child.FirstChild(); grandchild != nil {
-			for e := grandchild; e != nil; e = e.NextSibling() {
-				e.SetTreeDoc(ctx.doc)
-				e.SetParent(nil)
+// checkEntityAttribute checks that an entity can be referenced from an
+// attribute value
+//
+// [ WFC: No External Entity References ]
+// Attribute values cannot contain direct or indirect
+// entity references to external entities.
+//
+// [ WFC: No < in Attribute Values ]
+// The replacement text of any entity referred to directly or
+// indirectly in an attribute value (other than "&lt;") must
+// not contain a <.
+func (ctx *parserCtx) checkEntityAttribute(ent *Entity) error {
+	return ctx.entities.check(ctx, ent, ctx.entities.attribute, func(ent *Entity) error {
+		ctx.depth++
+		defer func() { ctx.depth-- }()
+
+		content := ent.Content()
+		for len(content) > 0 {
+			switch c := content[0]; {
+			case c == '<':
+				return errors.New("'<' in entity is not allowed in attribute values")
+			case bytes.HasPrefix(content, []byte{'&', '#'}):
+				_, width, err := parseStringCharRef(content)
+				if err != nil {
+					return err
+				}
+				content = content[width:]
+			case c == '&':
+				_, width, err := ctx.parseStringEntityRef(content)
+				if err != nil {
+					return err
+				}
+				content = content[width:]
+			default:
+				content = content[1:]
 			}
-			return grandchild, nil
 		}
-	}
-
-	// this means that the parsing was successful, but there weren't
-	// any nodes generated as a result of parsing
-	return nil, ErrParseSucceeded
+		return nil
+	})
 }
 
 /*
@@ -4204,7 +4305,11 @@ func (ctx *parserCtx) parseReference() error {
 	}
 	// if !ctx.wellFormed { return } ??
 
-	wasChecked := ent.checked
+	if ent == nil {
+		// not declared, but it does not need to. The reference has
+		// already been reported
+		return nil
+	}
 
 	// special case for predefined entities
 	if ent.name == "" || EntityType(ent.EntityType()) == InternalPredefinedEntity {
@@ -4222,295 +4327,25 @@ func (ctx *parserCtx) parseReference() error {
 		return nil
 	}
 
-	// The first reference to the entity trigger a parsing phase
-	// where the ent->children is filled with the result from
-	// the parsing.
 	// Note: external parsed entities will not be loaded, it is not
-	// required for a non-validating parser, unless the parsing option
-	// of validating, or substituting entities were given. Doing so is
-	// far more secure as the parser will only process data coming from
-	// the document entity by default.
-	var parsedEnt Node
-	if (wasChecked == 0 || (ent.firstChild == nil && ctx.options.IsSet(ParseNoEnt))) && (EntityType(ent.EntityType()) != ExternalGeneralParsedEntity || ctx.options.IsSet(ParseNoEnt|ParseDTDValid)) {
-		var userData interface{}
-		if ctx.userData != ctx {
-			userData = ctx.userData
-		}
-
-		if EntityType(ent.EntityType()) == InternalGeneralEntity {
-			parsedEnt, err = ctx.parseBalancedChunkInternal([]byte(ent.Content()), userData)
-			switch err {
-			case nil, ErrParseSucceeded:
-				// may not have generated nodes, but parse was successful
-			default:
-				return err
-			}
-		} else if EntityType(ent.EntityType()) == ExternalGeneralParsedEntity {
-			parsedEnt, err = ctx.parseExternalEntityPrivate(ent.uri, ent.externalID)
-			switch err {
-			case nil, ErrParseSucceeded:
-				// may not have generated nodes, but parse was successful
-			default:
-				return err
-			}
-		} else {
-			return errors.New("invalid entity type")
-		}
-
-		/*
-		           // Store the number of entities needing parsing for this entity
-		           // content and do checkings
-		           ent->checked = (ctxt->nbentities - oldnbent + 1) * 2;
-		           if ((ent->content != NULL) && (xmlStrchr(ent->content, '<')))
-		               ent->checked |= 1;
-		           if (ret == XML_ERR_ENTITY_LOOP) {
-		               xmlFatalErr(ctxt, XML_ERR_ENTITY_LOOP, NULL);
-		               xmlFreeNodeList(list);
-		               return;
-		           }
-		           if (xmlParserEntityCheck(ctxt, 0, ent, 0)) {
-		               xmlFreeNodeList(list);
-		               return;
-		           }
-
-		           if ((ret == XML_ERR_OK) && (list != NULL)) {
-		               if (((ent->etype == XML_INTERNAL_GENERAL_ENTITY) ||
-		                (ent->etype == XML_EXTERNAL_GENERAL_PARSED_ENTITY))&&
-		                   (ent->children == NULL)) {
-		                   ent->children = list;
-		                   if (ctxt->replaceEntities) {
-		                       // Prune it directly in the generated document
-		                       // except for single text nodes.
-		                       if (((list->type == XML_TEXT_NODE) &&
-		                            (list->next == NULL)) ||
-		                           (ctxt->parseMode == XML_PARSE_READER)) {
-		                           list->parent = (xmlNodePtr) ent;
-		                           list = NULL;
-		                           ent->owner = 1;
-		                       } else {
-		                           ent->owner = 0;
-		                           while (list != NULL) {
-		                               list->parent = (xmlNodePtr) ctxt->node;
-		                               list->doc = ctxt->myDoc;
-		                               if (list->next == NULL)
-		                                   ent->last = list;
-		                               list = list->next;
-		                           }
-		                           list = ent->children;
-		   #ifdef LIBXML_LEGACY_ENABLED
-		                           if (ent->etype == XML_EXTERNAL_GENERAL_PARSED_ENTITY)
-		                             xmlAddEntityReference(ent, list, NULL);
-		   #endif
-		                       }
-		                   } else {
-		                       ent->owner = 1;
-		                       while (list != NULL) {
-		                           list->parent = (xmlNodePtr) ent;
-		                           xmlSetTreeDoc(list, ent->doc);
-		                           if (list->next == NULL)
-		                               ent->last = list;
-		                           list = list->next;
-		                       }
-		                   }
-		               } else {
-		                   xmlFreeNodeList(list);
-		                   list = NULL;
-		               }
-		           } else if ((ret != XML_ERR_OK) &&
-		                      (ret != XML_WAR_UNDECLARED_ENTITY)) {
-		               xmlFatalErrMsgStr(ctxt, XML_ERR_UNDECLARED_ENTITY,
-		                        "Entity '%s' failed to parse\n", ent->name);
-		               xmlParserEntityCheck(ctxt, 0, ent, 0);
-		           } else if (list != NULL) {
-		               xmlFreeNodeList(list);
-		               list = NULL;
-		           }
-		           if (ent->checked == 0)
-		               ent->checked = 2;
-		       } else if (ent->checked != 1) {
-		           ctxt->nbentities += ent->checked / 2;
-		       }
-		*/
-
-		// Now that the entity content has been gathered
-		// provide it to the application, this can take different forms based
-		// on the parsing modes.
-		if ent.firstChild == nil {
-			// Probably running in SAX mode and the callbacks don't
-			// build the entity content. So unless we already went
-			// though parsing for first checking go though the entity
-			// content to generate callbacks associated to the entity
-			if wasChecked != 0 {
-				var userData interface{}
-				if ctx.userData != ctx {
-					userData = ctx.userData
-				}
-				if EntityType(ent.EntityType()) == InternalGeneralEntity {
-					parsedEnt, err = ctx.parseBalancedChunkInternal([]byte(ent.Content()), userData)
-					switch err {
-					case nil, ErrParseSucceeded:
-						// may not have generated nodes, but parse was successful
-					default:
-						return err
-					}
-				} else if EntityType(ent.EntityType()) == ExternalGeneralParsedEntity {
-					parsedEnt, err = ctx.parseExternalEntityPrivate(ent.URI(), ent.externalID)
-					switch err {
-					case nil, ErrParseSucceeded:
-						// may not have generated nodes, but parse was successful
-					default:
-						return err
-					}
-				} else {
-					return errors.New("invalid entity type")
-				}
-			}
-			if s := ctx.sax; s != nil && !ctx.replaceEntities {
-				// Entity reference callback comes second, it's somewhat
-				// superfluous but a compatibility to historical behaviour
-				switch err := s.Reference(ctx.userData, ent.name); err {
-				case nil, sax.ErrHandlerUnspecified:
-					// no op
-				default:
-					return err
-				}
-			}
-			return nil
+	// required for a non-validating parser. Doing so is far more secure
+	// as the parser will only process data coming from the document
+	// entity by default.
+	if EntityType(ent.EntityType()) == InternalGeneralEntity {
+		if err := ctx.checkEntityContent(ent); err != nil {
+			return ctx.error(err)
 		}
+	}
 
-		// If we didn't get any children for the entity being built
-		if s := ctx.sax; s != nil && !ctx.replaceEntities {
-			// Create a node.
-			switch err := s.Reference(ctx.userData, ent.name); err {
-			case nil, sax.ErrHandlerUnspecified:
-				// no op
-			default:
-				return err
-			}
-			return nil
+	if s := ctx.sax; s != nil {
+		switch err := s.Reference(ctx.userData, ent.name); err {
+		case nil, sax.ErrHandlerUnspecified:
+			// no op
+		default:
+			return ctx.error(err)
 		}
-		_ = parsedEnt
-
-		/*
-			if ctx.replaceEntities || ent.firstChild == nil {
-			           // There is a problem on the handling of _private for entities
-			           // (bug 155816): Should we copy the content of the field from
-			           // the entity (possibly overwriting some value set by the user
-			           // when a copy is created), should we leave it alone, or should
-			           // we try to take care of different situations?  The problem
-			           // is exacerbated by the usage of this field by the xmlReader.
-			           // To fix this bug, we look at _private on the created node
-			           // and, if it's NULL, we copy in whatever was in the entity.
-			           // If it's not NULL we leave it alone.  This is somewhat of a
-			           // hack - maybe we should have further tests to determine
-			           // what to do.
-				if ctx.peekNode() == nil && ent.firstChild == nil {
-			               // Seems we are generating the DOM content, do
-			               // a simple tree copy for all references except the first
-			               // In the first occurrence list contains the replacement.
-					if (parsedEnt == nil && ent.owner == nil) || ctx.parseMode == ParseReaderMode {
-
-
-
-			               if (((list == NULL) && (ent->owner == 0)) ||
-			                   (ctxt->parseMode == XML_PARSE_READER)) {
-			                   xmlNodePtr nw = NULL, cur, firstChild = NULL;
-			                   // We are copying here, make sure there is no abuse
-			                   ctxt->sizeentcopy += ent->length + 5;
-			                   if (xmlParserEntityCheck(ctxt, 0, ent, ctxt->sizeentcopy))
-			                       return;
-
-			                   // when operating on a reader, the entities definitions
-			                   // are always owning the entities subtree.
-			                   // if (ctxt->parseMode == XML_PARSE_READER)
-			                   //    ent->owner = 1;
-			                   cur = ent->children;
-			                   while (cur != NULL) {
-			                       nw = xmlDocCopyNode(cur, ctxt->myDoc, 1);
-			                       if (nw != NULL) {
-			                           if (nw->_private == NULL)
-			                               nw->_private = cur->_private;
-			                           if (firstChild == NULL){
-			                               firstChild = nw;
-			                           }
-			                           nw = xmlAddChild(ctxt->node, nw);
-			                       }
-			                       if (cur == ent->last) {
-			                           // needed to detect some strange empty
-			                           // node cases in the reader tests
-			                           if ((ctxt->parseMode == XML_PARSE_READER) &&
-			                               (nw != NULL) &&
-			                               (nw->type == XML_ELEMENT_NODE) &&
-			                               (nw->children == NULL))
-			                               nw->extra = 1;
-
-			                           break;
-			                       }
-			                       cur = cur->next;
-			                   }
-			               } else if ((list == NULL) || (ctxt->inputNr > 0)) {
-			                   xmlNodePtr nw = NULL, cur, next, last,
-			                              firstChild = NULL;
-
-			                   // We are copying here, make sure there is no abuse
-			                   ctxt->sizeentcopy += ent->length + 5;
-			                   if (xmlParserEntityCheck(ctxt, 0, ent, ctxt->sizeentcopy))
-			                       return;
-
-			                   // Copy the entity child list and make it the new
-			                   // entity child list. The goal is to make sure any
-			                   // ID or REF referenced will be the one from the
-			                   // document content and not the entity copy.
-			                   cur = ent->children;
-			                   ent->children = NULL;
-			                   last = ent->last;
-			                   ent->last = NULL;
-			                   while (cur != NULL) {
-			                       next = cur->next;
-			                       cur->next = NULL;
-			                       cur->parent = NULL;
-			                       nw = xmlDocCopyNode(cur, ctxt->myDoc, 1);
-			                       if (nw != NULL) {
-			                           if (nw->_private == NULL)
-			                               nw->_private = cur->_private;
-			                           if (firstChild == NULL){
-			                               firstChild = cur;
-			                           }
-			                           xmlAddChild((xmlNodePtr) ent, nw);
-			                           xmlAddChild(ctxt->node, cur);
-			                       }
-			                       if (cur == last)
-			                           break;
-			                       cur = next;
-			                   }
-			                   if (ent->owner == 0)
-			                       ent->owner = 1;
-			               } else {
-			                   const xmlChar *nbktext;
-			                   // the name change is to avoid coalescing of the
-			                   // node with a possible previous text one which
-			                   // would make ent->children a dangling pointer
-			                   nbktext = xmlDictLookup(ctxt->dict, BAD_CAST "nbktext",
-			                                           -1);
-			                   if (ent->children->type == XML_TEXT_NODE)
-			                       ent->children->name = nbktext;
-			                   if ((ent->last != ent->children) &&
-			                       (ent->last->type == XML_TEXT_NODE))
-			                       ent->last->name = nbktext;
-			                   xmlAddChildList(ctxt->node, ent->children);
-			               }
-
-			               // This is to avoid a nasty side effect, see
-			               // characters() in SAX.c
-			               ctxt->nodemem = 0;
-			               ctxt->nodelen = 0;
-			               return;
-			           }
-			       }
-		*/
 	}
-
-	return ErrUnimplemented{target: "parseReference"}
+	return nil
 }
 
 func accumulateDecimalCharRef(val int32, c rune) (int32, error) {
@@ -4591,7 +4426,7 @@ func parseStringCharRef(s []byte) (r rune, width int, err error) {
 func parseStringName(s []byte) (string, int, error) {
 	i := 0
 	r, w := utf8.DecodeRune(s)
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && w <= 1 {
 		return "", 0, errors.New("rune decode failed")
 	}
 
@@ -4599,28 +4434,15 @@ func parseStringName(s []byte) (string, int, error) {
 		return "", 0, errors.New("invalid name start char")
 	}
 
-	out := bufferPool.Get().(*bytes.Buffer)
-	defer releaseBuffer(out)
-
-	out.WriteRune(r)
-	i += w
-	s = s[w:]
-
-	for {
-		r, w = utf8.DecodeRune(s)
-		if r == utf8.RuneError {
-			return "", 0, errors.New("rune decode failed")
-		}
-
-		if !isNameChar(r) {
+	for isNameChar(r) {
+		i += w
+		r, w = utf8.DecodeRune(s[i:])
+		if r == utf8.RuneError && w <= 1 {
 			break
 		}
-		out.WriteRune(r)
-		i += w
-		s = s[w:]
 	}
 
-	return out.String(), i, nil
+	return string(s[:i]), i, nil
 }
 
 // This will be called as a fallback. The SAX handler
@@ -4629,108 +4451,52 @@ func parseStringName(s []byte) (string, int, error) {
 // the rest of the processing to work.
 func (ctx *parserCtx) getEntity(name string) (*Entity, error) {
 	if ctx.inSubset == 0 {
-		if ret, err := resolvePredefinedEntity(name); err != nil {
+		if ret, err := resolvePredefinedEntity(name); err == nil {
 			return ret, nil
 		}
 	}
 
-	var ret *Entity
-	var ok bool
-	if ctx.doc == nil || ctx.doc.standalone != 1 {
-		ret, _ = ctx.doc.GetEntity(name)
-	} else {
-		if ctx.inSubset == 2 {
-			ctx.doc.standalone = 0
-			ret, _ = ctx.doc.GetEntity(name)
-			ctx.doc.standalone = 1
-		} else {
-			ret, ok = ctx.doc.GetEntity(name)
-			if !ok {
-				ctx.doc.standalone = 0
-				ret, ok = ctx.doc.GetEntity(name)
-				if !ok {
-					return nil, errors.New("Entity(" + name + ") document marked standalone but requires eternal subset")
-				}
-				ctx.doc.standalone = 1
-			}
+	if ctx.doc != nil {
+		if ret, ok := ctx.doc.GetEntity(name); ok {
+			return ret, nil
 		}
 	}
-	/*
-	   if ((ret != NULL) &&
-	       ((ctxt->validate) || (ctxt->replaceEntities)) &&
-	       (ret->children == NULL) &&
-	       (ret->etype == XML_EXTERNAL_GENERAL_PARSED_ENTITY)) {
-	       int val;
-
-	       // for validation purposes we really need to fetch and
-	       // parse the external entity
-	       xmlNodePtr children;
-	       unsigned long oldnbent = ctxt->nbentities;
-
-	       val = xmlParseCtxtExternalEntity(ctxt, ret->URI,
-	                                        ret->ExternalID, &children);
-	       if (val == 0) {
-	           xmlAddChildList((xmlNodePtr) ret, children);
-	       } else {
-	           xmlFatalErrMsg(ctxt, XML_ERR_ENTITY_PROCESSING,
-	                          "Failure to process entity %s\n", name, NULL);
-	           ctxt->validate = 0;
-	           return(NULL);
-	       }
-	       ret->owner = 1;
-	       if (ret->checked == 0) {
-	           ret->checked = (ctxt->nbentities - oldnbent + 1) * 2;
-	           if ((ret->content != NULL) && (xmlStrchr(ret->content, '<')))
-	               ret->checked |= 1;
-	       }
-	   }
-	*/
-	return ret, nil
-}
-
-func (ctx *parserCtx) parseStringEntityRef(s []byte) (sax.Entity, int, error) {
-	if pdebug.Enabled {
-		g := pdebug.IPrintf("START parseStringEntityRef ('%s')", s)
-		defer g.IRelease("END parseStringEntityRef")
-	}
-	if len(s) == 0 || s[0] != '&' {
-		return nil, 0, errors.New("invalid entity ref")
+	if ret, ok := ctx.entities.general[name]; ok {
+		return ret, nil
 	}
+	return nil, ErrEntityNotFound
+}
 
-	i := 0
-	name, width, err := parseStringName(s)
-	if err != nil {
-		return nil, 0, errors.New("failed to parse name")
+// lookupEntity asks the SAX handler for an entity first, and falls back to
+// the declarations that have been seen. Returns nil if there's none.
+func (ctx *parserCtx) lookupEntity(name string) *Entity {
+	if s := ctx.sax; s != nil {
+		if ent, err := s.GetEntity(ctx.userData, name); err == nil {
+			if e := ctx.entities.adopt(ctx.entities.foreign, ent); e != nil {
+				return e
+			}
+		}
 	}
-	s = s[width:]
-	i += width
-
-	if s[0] != ';' {
-		return nil, 0, ErrSemicolonRequired
+	if ent, err := ctx.getEntity(name); err == nil {
+		return ent
 	}
-	s = s[1:]
-	i++
-
-	var loadedEnt sax.Entity
+	return nil
+}
 
-	/*
-	 * Ask first SAX for entity resolution, otherwise try the
-	 * entities which may have stored in the parser context.
-	 */
-	if h := ctx.sax; h != nil {
-		loadedEnt, err = h.GetEntity(ctx.userData, name)
-		if err != nil {
-			// Note: libxml2 would try to ask for xmlGetPredefinedEntity
-			// next, but that's only when XML_PARSE_OLDSAX is enabled.
-			// we won't do that.
-			if ctx.wellFormed && ctx.userData == ctx {
-				loadedEnt, err = ctx.getEntity(name)
-				if err != nil {
-					return nil, 0, err
-				}
-			}
+// lookupParameterEntity is the same thing for parameter entities
+func (ctx *parserCtx) lookupParameterEntity(name string) *Entity {
+	var entity sax.Entity
+	if err := ctx.fireSAXCallback(cbGetParameterEntity, &entity, name); err == nil {
+		if e := ctx.entities.adopt(ctx.entities.foreignp, entity); e != nil {
+			return e
 		}
 	}
+	return ctx.entities.parameter[name]
+}
+
+// checkEntityRef checks the constraints on a reference to an entity, where
+// ent is what has been found under the given name (or nil)
+func (ctx *parserCtx) checkEntityRef(name string, ent *Entity) error {
 	/*
 	 * [ WFC: Entity Declared ]
 	 * In a document without any DTD, a document with only an
@@ -4752,81 +4518,88 @@ func (ctx *parserCtx) parseStringEntityRef(s []byte) (sax.Entity, int, error) {
 	 * declared is a well-formedness constraint only if
 	 * standalone='yes'.
 	 */
-	if loadedEnt == nil {
+	if ent == nil {
 		if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && !ctx.hasPERefs) {
-			return nil, 0, fmt.Errorf("entity '%s' not defined", name)
+			return ErrUndeclaredEntity
 		}
-		// xmlParserEntityCheck ?!
+		ctx.valid = false
+		return nil
 	}
 
-	/*
-	 * [ WFC: Parsed Entity ]
-	 * An entity reference must not contain the name of an
-	 * unparsed entity
-	 */
-
-	if EntityType(loadedEnt.EntityType()) == ExternalGeneralUnparsedEntity {
-		return nil, 0, fmt.Errorf("entity reference to unparsed entity '%s'", name)
+	switch ent.entityType {
+	case InternalPredefinedEntity:
+		return nil
+	case InternalGeneralEntity:
+		if ctx.instate == psAttributeValue {
+			return ctx.checkEntityAttribute(ent)
+		}
+	case ExternalGeneralParsedEntity:
+		// [ WFC: No External Entity References ]
+		// Attribute values cannot contain direct or indirect
+		// entity references to external entities.
+		if ctx.instate == psAttributeValue {
+			return fmt.Errorf("attribute references external entity '%s'", name)
+		}
+	case ExternalGeneralUnparsedEntity:
+		// [ WFC: Parsed Entity ]
+		// An entity reference must not contain the name of an
+		// unparsed entity
+		return fmt.Errorf("entity reference to unparsed entity '%s'", name)
+	default:
+		// Internal check, no parameter entities here ...
+		return fmt.Errorf("attempt to reference the parameter entity '%s'", name)
 	}
+	return nil
+}
 
-	/*
-	 * [ WFC: No External Entity References ]
-	 * Attribute values cannot contain direct or indirect
-	 * entity references to external entities.
-	 */
-	if ctx.instate == psAttributeValue && EntityType(loadedEnt.EntityType()) == ExternalGeneralParsedEntity {
-		return nil, 0, fmt.Errorf("attribute references enternal entity '%s'", name)
+// parseStringEntityRef parses the reference at the start of s. The entity
+// is nil if it is not declared, but does not need to
+func (ctx *parserCtx) parseStringEntityRef(s []byte) (*Entity, int, error) {
+	if pdebug.Enabled {
+		g := pdebug.IPrintf("START parseStringEntityRef ('%s')", s)
+		defer g.IRelease("END parseStringEntityRef")
 	}
-
-	/*
-	 * [ WFC: No < in Attribute Values ]
-	 * The replacement text of any entity referred to directly or
-	 * indirectly in an attribute value (other than "&lt;") must
-	 * not contain a <.
-	 */
-	if ctx.instate == psAttributeValue && len(loadedEnt.Content()) > 0 && EntityType(loadedEnt.EntityType()) == InternalPredefinedEntity && bytes.IndexByte(loadedEnt.Content(), '<') > -1 {
-		return nil, 0, fmt.Errorf("'<' in entity '%s' is not allowed in attribute values", name)
+	if len(s) == 0 || s[0] != '&' {
+		return nil, 0, errors.New("invalid entity ref")
 	}
 
-	/*
-	 * Internal check, no parameter entities here ...
-	 */
-
-	switch EntityType(loadedEnt.EntityType()) {
-	case InternalParameterEntity, ExternalParameterEntity:
-		return nil, 0, fmt.Errorf("attempt to reference the parameter entity '%s'", name)
+	name, width, err := parseStringName(s[1:])
+	if err != nil {
+		return nil, 0, errors.New("failed to parse name")
+	}
+	i := width + 1
+	if i >= len(s) || s[i] != ';' {
+		return nil, 0, ErrSemicolonRequired
 	}
+	i++
 
-	return loadedEnt, i, nil
+	ent, err := resolvePredefinedEntity(name)
+	if err != nil {
+		ent = ctx.lookupEntity(name)
+	}
+	if err := ctx.checkEntityRef(name, ent); err != nil {
+		return nil, 0, err
+	}
+	return ent, i, nil
 }
 
-func (ctx *parserCtx) parseStringPEReference(s []byte) (sax.Entity, int, error) {
+// parseStringPEReference parses the reference at the start of s. The entity
+// is nil if it is not declared, but does not need to
+func (ctx *parserCtx) parseStringPEReference(s []byte) (*Entity, int, error) {
 	if len(s) == 0 || s[0] != '%' {
 		return nil, 0, errors.New("invalid PEreference")
 	}
 
-	i := 0
-	name, width, err := parseStringName(s)
+	name, width, err := parseStringName(s[1:])
 	if err != nil {
 		return nil, 0, err
 	}
-	s = s[width:]
-	i += width
-
-	if s[0] != ';' {
+	i := width + 1
+	if i >= len(s) || s[i] != ';' {
 		return nil, 0, ErrSemicolonRequired
 	}
-	s = s[1:]
 	i++
 
-	var loadedEnt sax.Entity
-	if h := ctx.sax; h != nil {
-		loadedEnt, err = h.GetParameterEntity(ctx.userData, name)
-		if err != nil {
-			return nil, 0, err
-		}
-	}
-
 	/*
 	 * [ WFC: Entity Declared ]
 	 * In a document without any DTD, a document with only an
@@ -4835,15 +4608,14 @@ func (ctx *parserCtx) parseStringPEReference(s []byte) (sax.Entity, int, error)
 	 * ... The declaration of a parameter entity must precede
 	 * any reference to it...
 	 */
-	if loadedEnt == nil {
+	ent := ctx.lookupParameterEntity(name)
+	if ent == nil {
 		if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && !ctx.hasPERefs) {
 			return nil, 0, fmt.Errorf("not found: PE rerefence '%%%s'", name)
-		} else {
-			ctx.valid = false
 		}
-		// xmlParseEntityCheck(ctxt, 0, NULL, 0)
+		ctx.valid = false
 	} else {
-		switch EntityType(loadedEnt.EntityType()) {
+		switch ent.entityType {
 		case InternalParameterEntity, ExternalParameterEntity:
 		default:
 			return nil, 0, fmt.Errorf("not a parmeter entity: %%%s", name)
@@ -4851,7 +4623,7 @@ func (ctx *parserCtx) parseStringPEReference(s []byte) (sax.Entity, int, error)
 	}
 	ctx.hasPERefs = true
 
-	return loadedEnt, i, nil
+	return ent, i, nil
 }
 
 /*
@@ -4935,7 +4707,9 @@ func (ctx *parserCtx) parseCharRef() (r rune, err error) {
  * [ WFC: Parsed Entity ]
  * An entity reference must not contain the name of an unparsed entity
  *
- * Returns the xmlEntityPtr if found, or NULL otherwise.
+ * Returns the entity if found. It may be nil with no error if it is not
+ * declared (but does not need to): if so, it has been reported as a
+ * reference.
  */
 func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 	if pdebug.Enabled {
@@ -4971,88 +4745,25 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 		return
 	}
 
-	if s := ctx.sax; s != nil {
-		// ask the SAX2 handler nicely
-		var loadedEnt sax.Entity
-		loadedEnt, err = s.GetEntity(ctx.userData, name)
-		if err == nil {
-			ent = loadedEnt.(*Entity)
-			return
-		}
+	// ask the SAX2 handler nicely
+	ent = ctx.lookupEntity(name)
+	if err = ctx.checkEntityRef(name, ent); err != nil {
+		return nil, ctx.error(err)
+	}
 
-		if loadedEnt == nil && ctx == ctx.userData {
-			ent, _ = ctx.getEntity(name)
-		}
-	}
-
-	// [ WFC: Entity Declared ]
-	// In a document without any DTD, a document with only an
-	// internal DTD subset which contains no parameter entity
-	// references, or a document with "standalone='yes'", the
-	// Name given in the entity reference must match that in an
-	// entity declaration, except that well-formed documents
-	// need not declare any of the following entities: amp, lt,
-	// gt, apos, quot.
-	// The declaration of a parameter entity must precede any
-	// reference to it.
-	// Similarly, the declaration of a general entity must
-	// precede any reference to it which appears in a default
-	// value in an attribute-list declaration. Note that if
-	// entities are declared in the external subset or in
-	// external parameter entities, a non-validating processor
-	// is not obligated to read and process their declarations;
-	// for such documents, the rule that an entity must be
-	// declared is a well-formedness constraint only if
-	// standalone='yes'.
 	if ent == nil {
-		if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && ctx.hasPERefs) {
-			return nil, ctx.error(ErrUndeclaredEntity)
-		} else {
-			if ctx.inSubset == 0 {
-				if s := ctx.sax; s != nil {
-					switch err := s.Reference(ctx.userData, name); err {
-					case nil, sax.ErrHandlerUnspecified:
-						// no op
-					default:
-						return nil, ctx.error(err)
-					}
-				}
-			}
-			// ent is nil, no? why check?
-			if err := ctx.entityCheck(ent, 0, 0); err != nil {
+		if ctx.instate == psAttributeValue {
+			// a stand-in, as the reference is kept in the value
+			return newEntity(name, ExternalGeneralParsedEntity, "", "", "", ""), nil
+		}
+		if s := ctx.sax; s != nil {
+			switch err := s.Reference(ctx.userData, name); err {
+			case nil, sax.ErrHandlerUnspecified:
+				// no op
+			default:
 				return nil, ctx.error(err)
 			}
-			ctx.valid = false
-		}
-	} else if ent.entityType == ExternalGeneralUnparsedEntity {
-		// [ WFC: Parsed Entity ]
-		// An entity reference must not contain the name of an
-		// unparsed entity
-		return nil, ctx.error(errors.New("entity reference to unparsed entity"))
-	} else if ctx.instate == psAttributeValue && ent.entityType == ExternalGeneralParsedEntity {
-		// [ WFC: No External Entity References ]
-		// Attribute values cannot contain direct or indirect
-		// entity references to external entities.
-		return nil, ctx.error(errors.New("attribute references external entity"))
-	} else if ctx.instate == psAttributeValue && ent.entityType != InternalPredefinedEntity {
-		// [ WFC: No < in Attribute Values ]
-		// The replacement text of any entity referred to directly or
-		// indirectly in an attribute value (other than "&lt;") must
-		// not contain a <.
-		if (ent.checked&1 == 1 || ent.checked == 0) && ent.content != "" && strings.IndexByte(ent.content, '<') > -1 {
-			return nil, ctx.error(errors.New("'<' in entity is not allowed in attribute values"))
 		}
-	} else {
-		// Internal check, no parameter entities here ...
-		switch ent.entityType {
-		case InternalParameterEntity:
-		case ExternalParameterEntity:
-			return nil, ctx.error(errors.New("attempt to reference the parameter entity"))
-		}
-	}
-
-	if ent == nil {
-		panic("at the end of parseEntityRef, ent == nil")
 	}
 	// [ WFC: No Recursion ]
 	// A parsed entity must not contain a recursive reference
diff --git a/reference.go b/reference.go
index 1eb07e8..470bdae 100644
--- a/reference.go
+++ b/reference.go
@@ -1,5 +1,17 @@
 package helium
 
+// Content returns the text that the entity stands for, with the references
+// in there replaced
+func (e *EntityRef) Content() []byte {
+	x := entityExpander{doc: e.doc}
+	if len(e.name) > 0 && e.name[0] == '#' {
+		x.expand([]byte("&" + e.name + ";"))
+	} else {
+		x.reference(e.name)
+	}
+	return x.out.Bytes()
+}
+
 func newEntityRef() *EntityRef {
 	n := &EntityRef{}
 	n.etype = EntityRefNode
diff --git a/tree.go b/tree.go
index 9b1ec5f..b107936 100644
--- a/tree.go
+++ b/tree.go
@@ -270,7 +270,7 @@ func (t *TreeBuilder) GetEntity(ctxif sax.Context, name string) (ent sax.Entity,
 	doc := ctx.doc
 	x, ok := doc.GetEntity(name)
 	if !ok {
-		err = errors.New("entity not found")
+		err = ErrEntityNotFound
 	} else {
 		ent = x
 	}
-- 
2.43.0


From 3b974b0625a3e9fd5c9bada283517ed0d1e1c639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 09/24] fix: read XML declarations with any layout, and reject
 malformed ones

---
 parserctx.go | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index f2a7ed8..6b4bc0d 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -398,7 +398,9 @@ func (ctx *parserCtx) switchEncoding() error {
 		b = bytes.Replace(b, []byte{'\r'}, []byte{'\n'}, -1)
 	}
 	ctx.popInput()
-	ctx.pushInput(newRuneCursor(b, cur.LineNumber()))
+	rcur := newRuneCursor(b, cur.LineNumber())
+	rcur.column = cur.Column()
+	ctx.pushInput(rcur)
 
 	// what is expanded from entities may be larger than the input, but
 	// within reason
@@ -446,7 +448,8 @@ func (ctx *parserCtx) parseDocument() error {
 	}
 
 	// XML prolog
-	if bcur.HasPrefix(xmlDeclHint) {
+	// (there are processing instructions whose target starts with 'xml')
+	if bcur.HasPrefix(xmlDeclHint) && isBlankCh(bcur.PeekN(len(xmlDeclHint)+1)) {
 		if err := ctx.parseXMLDecl(); err != nil {
 			return ctx.error(err)
 		}
@@ -1288,15 +1291,13 @@ func (ctx *parserCtx) parseXMLDecl() error {
 	}
 	ctx.version = v
 
-	if !isBlankCh(rune(cur.Peek())) {
-		// if the next character isn't blank, we expect the
-		// end of XML decl, so return success
-		if cur.Peek() == '?' && cur.PeekN(2) == '>' {
-			cur.Advance(2)
-			return nil
-		}
-
-		// otherwise, we just saw something unexpected
+	// each of the items that follow needs to be preceded by blanks,
+	// but blanks may also be right before the end of the XML decl
+	blank := ctx.skipBlankBytes(cur)
+	if cur.ConsumeString("?>") {
+		return nil
+	}
+	if !blank {
 		return ctx.error(ErrSpaceRequired)
 	}
 
@@ -1308,22 +1309,25 @@ func (ctx *parserCtx) parseXMLDecl() error {
 
 		// if the encoding decl is found, then we *could* have
 		// the end of the XML declaration
-		if cur.Peek() == '?' && cur.PeekN(2) == '>' {
-			cur.Advance(2)
+		blank = ctx.skipBlankBytes(cur)
+		if cur.ConsumeString("?>") {
 			return nil
 		}
-	} else if _, ok := err.(ErrAttrNotFound); ok {
+		if !blank {
+			return ctx.error(ErrSpaceRequired)
+		}
+	} else if _, ok := err.(ErrAttrNotFound); !ok {
 		return ctx.error(err)
 	}
 
 	vb, err := ctx.parseStandaloneDecl()
 	if err != nil {
-		return err
+		return ctx.error(err)
 	}
 	ctx.standalone = vb
 
-	if cur.Peek() == '?' && cur.PeekN(2) == '>' {
-		cur.Advance(2)
+	ctx.skipBlankBytes(cur)
+	if cur.ConsumeString("?>") {
 		return nil
 	}
 	return ctx.error(errors.New("XML declaration not closed"))
@@ -1374,7 +1378,7 @@ func (ctx *parserCtx) parseNamedAttributeBytes(name []byte, valueParser qtextHan
 
 	ctx.skipBlankBytes(cur)
 	if !cur.Consume(name) {
-		return "", ctx.error(ErrAttrNotFound{Token: string(name)})
+		return "", ErrAttrNotFound{Token: string(name)}
 	}
 
 	ctx.skipBlankBytes(cur)
@@ -1953,7 +1957,7 @@ func (ctx *parserCtx) parsePITarget() (string, error) {
 		return "", ctx.error(err)
 	}
 
-	if name == "xml" {
+	if strings.EqualFold(name, "xml") {
 		return "", errors.New("XML declaration allowed only at the start of the document")
 	}
 
-- 
2.43.0


From e7aaea4c3da8c12dc6757d29a07119cc7c6e92fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 10/24] fix: keep processing instructions, and comments of the
 internal subset, where they are declared

---
 document.go |  8 ++++++--
 dump.go     | 16 +++++++++++++++-
 tree.go     | 11 +++++++++--
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/document.go b/document.go
index 70a347c..47d3873 100644
--- a/document.go
+++ b/document.go
@@ -163,10 +163,14 @@ func (d *Document) CreateNamespace(prefix, uri string) (*Namespace, error) {
 }
 
 func (d *Document) CreatePI(target, data string) (*ProcessingInstruction, error) {
-	return &ProcessingInstruction{
+	pi := &ProcessingInstruction{
 		target: target,
 		data:   data,
-	}, nil
+	}
+	pi.etype = ProcessingInstructionNode
+	pi.name = target
+	pi.doc = d
+	return pi, nil
 }
 
 func (d *Document) CreateDTD() (*DTD, error) {
diff --git a/dump.go b/dump.go
index b3ad70d..8757980 100644
--- a/dump.go
+++ b/dump.go
@@ -265,7 +265,7 @@ func (d *Dumper) dumpDTD(out io.Writer, n Node) error {
 		io.WriteString(out, " ")
 	}
 
-	if len(dtd.entities) == 0 && len(dtd.elements) == 0 && len(dtd.pentities) == 0 && len(dtd.attributes) == 0 {
+	if len(dtd.entities) == 0 && len(dtd.elements) == 0 && len(dtd.pentities) == 0 && len(dtd.attributes) == 0 && dtd.FirstChild() == nil {
 		/* (dtd.notations == NULL) && */
 		io.WriteString(out, ">")
 		return nil
@@ -277,6 +277,10 @@ func (d *Dumper) dumpDTD(out io.Writer, n Node) error {
 		if err := d.DumpNode(out, e); err != nil {
 			return err
 		}
+		switch e.Type() {
+		case CommentNode, ProcessingInstructionNode:
+			io.WriteString(out, "\n")
+		}
 	}
 
 	io.WriteString(out, "]>")
@@ -633,6 +637,16 @@ func (d *Dumper) DumpNode(out io.Writer, n Node) error {
 		out.Write(n.Content())
 		io.WriteString(out, "-->")
 		return nil
+	case ProcessingInstructionNode:
+		pi := n.(*ProcessingInstruction)
+		io.WriteString(out, "<?")
+		io.WriteString(out, pi.target)
+		if pi.data != "" {
+			io.WriteString(out, " ")
+			io.WriteString(out, pi.data)
+		}
+		io.WriteString(out, "?>")
+		return nil
 	case EntityRefNode:
 		io.WriteString(out, "&")
 		io.WriteString(out, n.Name())
diff --git a/tree.go b/tree.go
index b107936..6a82c29 100644
--- a/tree.go
+++ b/tree.go
@@ -57,9 +57,9 @@ func (t *TreeBuilder) ProcessingInstruction(ctxif sax.Context, target, data stri
 
 	switch ctx.inSubset {
 	case 1:
-		doc.IntSubset().AddChild(pi)
+		return doc.IntSubset().AddChild(pi)
 	case 2:
-		doc.ExtSubset().AddChild(pi)
+		return doc.ExtSubset().AddChild(pi)
 	}
 
 	parent := ctx.elem
@@ -204,6 +204,13 @@ func (t *TreeBuilder) Comment(ctxif sax.Context, data []byte) error {
 		return err
 	}
 
+	switch ctx.inSubset {
+	case 1:
+		return doc.IntSubset().AddChild(e)
+	case 2:
+		return doc.ExtSubset().AddChild(e)
+	}
+
 	n := ctx.elem
 	if n == nil {
 		doc.AddChild(e)
-- 
2.43.0


From ccba8c82382a3eb391813548fc4eaa1ad584c321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 11/24] fix: keep links consistent when nodes are replaced, and
 text merged when siblings are added

---
 attr.go     |  7 +++++++
 document.go | 11 +++++------
 node.go     | 36 +++++++++++++++++++++++++++++-------
 text.go     |  3 ---
 4 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/attr.go b/attr.go
index 080f304..2f4bf69 100644
--- a/attr.go
+++ b/attr.go
@@ -28,6 +28,7 @@ func (n *AttributeDecl) SetTreeDoc(doc *Document) {
 
 func newAttribute(name string, ns *Namespace) *Attribute {
 	attr := &Attribute{}
+	attr.etype = AttributeNode
 	attr.name = name
 	attr.ns = ns
 	return attr
@@ -76,9 +77,15 @@ func (n Attribute) Value() string {
 }
 
 func (n Attribute) Prefix() string {
+	if n.ns == nil {
+		return ""
+	}
 	return n.ns.Prefix()
 }
 
 func (n Attribute) URI() string {
+	if n.ns == nil {
+		return ""
+	}
 	return n.ns.URI()
 }
diff --git a/document.go b/document.go
index 47d3873..015bb8a 100644
--- a/document.go
+++ b/document.go
@@ -92,7 +92,6 @@ func (d *Document) SetDocumentElement(root Node) error {
 		return nil
 	}
 
-	root.SetParent(d)
 	var old Node
 	for old = d.firstChild; old != nil; old = old.NextSibling() {
 		if old.Type() == ElementNode {
@@ -101,10 +100,9 @@ func (d *Document) SetDocumentElement(root Node) error {
 	}
 
 	if old == nil {
-		d.AddChild(root)
-	} else {
-		old.Replace(root)
+		return d.AddChild(root)
 	}
+	old.Replace(root)
 	return nil
 }
 
@@ -131,11 +129,12 @@ func (d *Document) CreateAttribute(name, value string, ns *Namespace) (attr *Att
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START document.CreateAttribute '%s' (%s)", name, value)
 		defer func() {
-			g.IRelease("END document.CreateAttribute (attr.Value = '%s')", attr.Value())
+			g.IRelease("END document.CreateAttribute (err = %v)", err)
 		}()
 	}
 	var n Node
 	attr = newAttribute(name, ns)
+	attr.doc = d
 	if value != "" {
 		n, err = d.stringToNodeList(value)
 		if err != nil {
@@ -148,7 +147,7 @@ func (d *Document) CreateAttribute(name, value string, ns *Namespace) (attr *Att
 			n.SetParent(attr)
 			x := n.NextSibling()
 			if x == nil {
-				n.setLastChild(x)
+				attr.setLastChild(n)
 			}
 			n = x
 		}
diff --git a/node.go b/node.go
index 74c637c..2f01e17 100644
--- a/node.go
+++ b/node.go
@@ -50,7 +50,12 @@ func (n docnode) Parent() Node {
 func (n docnode) Content() []byte {
 	b := bytes.Buffer{}
 	for e := n.firstChild; e != nil; e = e.NextSibling() {
-		b.Write(e.Content())
+		switch e.Type() {
+		case CommentNode, ProcessingInstructionNode, DTDNode:
+			// these are not part of the text
+		default:
+			b.Write(e.Content())
+		}
 	}
 	return b.Bytes()
 }
@@ -137,6 +142,11 @@ func (n docnode) PrevSibling() Node {
 func addSibling(n, cur Node) error {
 	for n != nil {
 		if n.NextSibling() == nil {
+			// text is added to the text that is already there
+			if n.Type() == TextNode && cur.Type() == TextNode {
+				return n.AddContent(cur.Content())
+			}
+
 			n.SetNextSibling(cur)
 			cur.SetPrevSibling(n)
 			parent := n.Parent()
@@ -165,25 +175,37 @@ func (n *docnode) SetParent(cur Node) {
 }
 
 func replaceNode(n Node, cur Node) {
-	if next := n.NextSibling(); next != nil {
-		cur.SetNextSibling(next) // cur.next = n.next
+	if n == cur {
+		return
+	}
+
+	next := n.NextSibling()
+	cur.SetNextSibling(next) // cur.next = n.next
+	if next != nil {
 		next.SetPrevSibling(cur) // n.next.prev = cur
 	}
 
-	if prev := n.PrevSibling(); prev != nil {
-		cur.SetPrevSibling(prev) // cur.prev = n.prev
+	prev := n.PrevSibling()
+	cur.SetPrevSibling(prev) // cur.prev = n.prev
+	if prev != nil {
 		prev.SetNextSibling(cur) // n.prev.next = cur
 	}
 
-	if parent := n.Parent(); parent != nil {
+	parent := n.Parent()
+	cur.SetParent(parent)
+	if parent != nil {
 		if parent.FirstChild() == n {
 			parent.setFirstChild(cur)
 		}
 		if parent.LastChild() == n {
 			parent.setLastChild(cur)
 		}
-		cur.SetParent(parent)
 	}
+
+	// the replaced node is not in the tree anymore
+	n.SetNextSibling(nil)
+	n.SetPrevSibling(nil)
+	n.SetParent(nil)
 }
 
 func (n node) Namespace() *Namespace {
diff --git a/text.go b/text.go
index 6cfdf15..f40c8ec 100644
--- a/text.go
+++ b/text.go
@@ -39,9 +39,6 @@ func (n *Text) AddSibling(cur Node) error {
 		g := pdebug.IPrintf("START Text.AddSibling '%s'", cur.Content())
 		defer g.IRelease("END Text.AddSibling")
 	}
-	if cur.Type() == TextNode {
-		return n.AddContent(cur.Content())
-	}
 	return addSibling(n, cur)
 }
 
-- 
2.43.0


From 045ed80bd815495a3d8ddd76511edc8940f3b5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 12/24] fix: escape and quote everything the serialiser writes
 so that it reads back the same

---
 dump.go | 94 ++++++++++++++++++++++++++++++---------------------------
 1 file changed, 49 insertions(+), 45 deletions(-)

diff --git a/dump.go b/dump.go
index 8757980..20f4bba 100644
--- a/dump.go
+++ b/dump.go
@@ -35,11 +35,12 @@ func dumpQuotedString(out io.Writer, s string) error {
 	}
 
 	// Grr, can't use " or '. Well, let's escape all the double
-	// quotes to &quot;, and quote the string
+	// quotes to &#34;, and quote the string
 
 	out.Write(qch_dquote)
 	for len(s) > 0 && dqi > -1 {
 		io.WriteString(out, s[:dqi])
+		out.Write(esc_quot)
 		s = s[dqi+1:]
 		dqi = strings.IndexByte(s, qch_dquote[0])
 	}
@@ -70,7 +71,7 @@ func isInCharacterRange(r rune) (inrange bool) {
 	return r == 0x09 ||
 		r == 0x0A ||
 		r == 0x0D ||
-		r >= 0x20 && r <= 0xDF77 ||
+		r >= 0x20 && r <= 0xD7FF ||
 		r >= 0xE000 && r <= 0xFFFD ||
 		r >= 0x10000 && r <= 0x10FFFF
 }
@@ -107,7 +108,7 @@ func escapeAttrValue(w io.Writer, s []byte) error {
 			esc = esc_tab
 		default:
 			if !(0x20 <= r && r < 0x80) {
-				if r < 0xE0 {
+				if r < 0xE0 && isInCharacterRange(r) {
 					esc = []byte(fmt.Sprintf("&#x%X;", r))
 					break
 				}
@@ -167,7 +168,7 @@ func escapeText(w io.Writer, s []byte, escapeNewline bool) error {
 			esc = esc_cr
 		default:
 			if !(r == '\t' || (0x20 <= r && r < 0x80)) {
-				if r < 0xE0 {
+				if r < 0xE0 && isInCharacterRange(r) {
 					esc = []byte(fmt.Sprintf("&#x%X;", r))
 					break
 				}
@@ -256,12 +257,14 @@ func (d *Dumper) dumpDTD(out io.Writer, n Node) error {
 	io.WriteString(out, " ")
 
 	if dtd.externalID != "" {
-		io.WriteString(out, " PUBLIC ")
-		io.WriteString(out, dtd.externalID)
+		io.WriteString(out, "PUBLIC ")
+		dumpQuotedString(out, dtd.externalID)
+		io.WriteString(out, " ")
+		dumpQuotedString(out, dtd.systemID)
 		io.WriteString(out, " ")
 	} else if dtd.systemID != "" {
-		io.WriteString(out, " SYSTEM ")
-		io.WriteString(out, dtd.systemID)
+		io.WriteString(out, "SYSTEM ")
+		dumpQuotedString(out, dtd.systemID)
 		io.WriteString(out, " ")
 	}
 
@@ -396,42 +399,36 @@ func dumpElementContent(out io.Writer, n *ElementContent, glob bool) error {
 	return nil
 }
 
+// dumpEntityContent writes a literal that has the given replacement text.
+// References to entities are kept in there, everything else that would be
+// recognised in the literal is replaced by a character reference.
 func dumpEntityContent(out io.Writer, content string) error {
-	if strings.IndexByte(content, '%') == -1 {
-		dumpQuotedString(out, content)
-		return nil
-	}
-
 	io.WriteString(out, `"`)
-	rdr := strings.NewReader(content)
-	buf := bytes.Buffer{}
-	for rdr.Len() > 0 {
-		c, err := rdr.ReadByte()
-		if err != nil {
-			return err
-		}
-		switch c {
+	last := 0
+	for i := 0; i < len(content); i++ {
+		var esc string
+		switch content[i] {
 		case '"':
-			if buf.Len() > 0 {
-				buf.WriteTo(out)
-				buf.Reset()
-			}
-			io.WriteString(out, "&quot;")
+			esc = "&#34;"
 		case '%':
-			if buf.Len() > 0 {
-				buf.WriteTo(out)
-				buf.Reset()
+			esc = "&#37;"
+		case '\r':
+			esc = "&#13;"
+		case '&':
+			_, width, err := parseStringName([]byte(content[i+1:]))
+			if err == nil && strings.HasPrefix(content[i+1+width:], ";") {
+				continue
 			}
-			io.WriteString(out, "&#x25;")
+			esc = "&#38;"
 		default:
-			buf.WriteByte(c)
+			continue
 		}
+		io.WriteString(out, content[last:i])
+		io.WriteString(out, esc)
+		last = i + 1
 	}
-	if buf.Len() > 0 {
-		buf.WriteTo(out)
-	}
+	io.WriteString(out, content[last:])
 	io.WriteString(out, `"`)
-
 	return nil
 }
 
@@ -454,7 +451,7 @@ func (d *Dumper) dumpEntityDecl(out io.Writer, ent *Entity) error {
 	case ExternalGeneralParsedEntity, ExternalGeneralUnparsedEntity:
 		io.WriteString(out, "<!ENTITY ")
 		io.WriteString(out, ent.name)
-		if ent.externalID == "" {
+		if ent.externalID != "" {
 			io.WriteString(out, " PUBLIC ")
 			dumpQuotedString(out, ent.externalID)
 			io.WriteString(out, " ")
@@ -497,6 +494,7 @@ func (d *Dumper) dumpEntityDecl(out io.Writer, ent *Entity) error {
 			io.WriteString(out, " SYSTEM ")
 			dumpQuotedString(out, ent.systemID)
 		}
+		io.WriteString(out, ">\n")
 	default:
 		return errors.New("invalid entity type")
 	}
@@ -524,6 +522,15 @@ func (d *Dumper) dumpElementDecl(out io.Writer, n *ElementDecl) error {
 	return nil
 }
 
+// the default values of attributes have their references to entities (and
+// to the character '&') left as is
+var defaultEscaper = strings.NewReplacer(
+	"<", "&lt;",
+	"\t", "&#9;",
+	"\n", "&#10;",
+	"\r", "&#13;",
+)
+
 func (d *Dumper) dumpAttributeDecl(out io.Writer, n *AttributeDecl) error {
 	io.WriteString(out, "<!ATTLIST ")
 	io.WriteString(out, n.elem)
@@ -544,6 +551,8 @@ func (d *Dumper) dumpAttributeDecl(out io.Writer, n *AttributeDecl) error {
 		io.WriteString(out, " IDREFS")
 	case AttrEntity:
 		io.WriteString(out, " ENTITY")
+	case AttrEntities:
+		io.WriteString(out, " ENTITIES")
 	case AttrNmtoken:
 		io.WriteString(out, " NMTOKEN")
 	case AttrNmtokens:
@@ -575,9 +584,10 @@ func (d *Dumper) dumpAttributeDecl(out io.Writer, n *AttributeDecl) error {
 		return errors.New("invalid AttributeDecl default value type")
 	}
 
-	if n.defvalue != "" {
+	switch n.def {
+	case AttrDefaultNone, AttrDefaultFixed:
 		io.WriteString(out, " ")
-		dumpQuotedString(out, n.defvalue)
+		dumpQuotedString(out, defaultEscaper.Replace(n.defvalue))
 	}
 	io.WriteString(out, ">\n")
 	return nil
@@ -653,13 +663,7 @@ func (d *Dumper) DumpNode(out io.Writer, n Node) error {
 		io.WriteString(out, ";")
 		return nil
 	case TextNode:
-		c := n.Content()
-		if string(c) == XMLTextNoEnc {
-			panic("unimplemented")
-		} else {
-			escapeText(out, c, false)
-		}
-		return nil // no recursing down
+		return escapeText(out, n.Content(), false) // no recursing down
 	case ElementDeclNode:
 		if err = d.dumpElementDecl(out, n.(*ElementDecl)); err != nil {
 			return err
-- 
2.43.0


From 04bab3f69101145949cc3c38df271b84ad272712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 13/24] fix: report unreadable files in helium-lint instead of
 hanging

---
 cmd/helium-lint/helium-lint.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cmd/helium-lint/helium-lint.go b/cmd/helium-lint/helium-lint.go
index f13cf43..28fe2c7 100644
--- a/cmd/helium-lint/helium-lint.go
+++ b/cmd/helium-lint/helium-lint.go
@@ -45,8 +45,9 @@ func _main() int {
 		return 0
 	}
 
-	inputCh := make(chan io.Reader)
-	errCh := make(chan error)
+	inputCh := make(chan io.ReadCloser)
+	// buffered, because nobody receives from it until inputCh is closed
+	errCh := make(chan error, 1)
 	switch {
 	case len(args) > 0: // filename present
 		go func() {
@@ -73,6 +74,7 @@ func _main() int {
 	p := helium.NewParser()
 	for in := range inputCh {
 		buf, err := ioutil.ReadAll(in)
+		in.Close()
 		if err != nil {
 			fmt.Fprintf(os.Stderr, "%s\n", err)
 			return 1
@@ -84,12 +86,15 @@ func _main() int {
 		}
 
 		d := helium.Dumper{}
-		d.DumpDoc(os.Stdout, doc)
+		if err := d.DumpDoc(os.Stdout, doc); err != nil {
+			fmt.Fprintf(os.Stderr, "%s\n", err)
+			return 1
+		}
 	}
 
 	select {
 	case err := <-errCh:
-		fmt.Fprintf(os.Stderr, "%s", err)
+		fmt.Fprintf(os.Stderr, "%s\n", err)
 		return 1
 	default:
 	}
-- 
2.43.0


From 1434be46d37da635b06637eb0218a94fc3496445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 14/24] fix: write documents in the encoding they declare, and
 report errors of the writer

---
 dump.go | 158 +++++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 144 insertions(+), 14 deletions(-)

diff --git a/dump.go b/dump.go
index 20f4bba..f72b609 100644
--- a/dump.go
+++ b/dump.go
@@ -8,9 +8,88 @@ import (
 	"strings"
 	"unicode/utf8"
 
+	"github.com/lestrrat-go/helium/encoding"
 	"github.com/lestrrat-go/pdebug"
+	enc "golang.org/x/text/encoding"
+	unicodeenc "golang.org/x/text/encoding/unicode"
 )
 
+// dumpWriter is what everything is dumped to. It remembers the first error
+// it gets, and the encoding its contents are going to be in (nil for UTF-8).
+type dumpWriter struct {
+	out       io.Writer
+	err       error
+	enc       enc.Encoding
+	encodable map[rune]bool
+}
+
+func newDumpWriter(out io.Writer) *dumpWriter {
+	return &dumpWriter{out: out}
+}
+
+func (w *dumpWriter) Write(b []byte) (int, error) {
+	if w.err != nil {
+		return 0, w.err
+	}
+	var n int
+	n, w.err = w.out.Write(b)
+	return n, w.err
+}
+
+// canEncode returns true if the character can be written to w as is
+func canEncode(w io.Writer, r rune) bool {
+	dw, ok := w.(*dumpWriter)
+	if !ok || dw.enc == nil {
+		return true
+	}
+
+	can, ok := dw.encodable[r]
+	if !ok {
+		_, err := encodeText(dw.enc, []byte(string(r)))
+		can = err == nil
+		if dw.encodable == nil {
+			dw.encodable = make(map[rune]bool)
+		}
+		dw.encodable[r] = can
+	}
+	return can
+}
+
+// encodeText converts b, and makes sure that it can be converted back
+func encodeText(e enc.Encoding, b []byte) ([]byte, error) {
+	encoded, err := e.NewEncoder().Bytes(b)
+	if err != nil {
+		return nil, err
+	}
+	decoded, err := e.NewDecoder().Bytes(encoded)
+	if err != nil {
+		return nil, err
+	}
+	if !bytes.Equal(b, decoded) {
+		return nil, errors.New("encoding: text can not be converted back")
+	}
+	return encoded, nil
+}
+
+// escapeUnencodable replaces the characters that can not be written as is
+func escapeUnencodable(w io.Writer, s string) string {
+	out := bytes.Buffer{}
+	last := 0
+	for i, r := range s {
+		if r < utf8.RuneSelf || canEncode(w, r) {
+			continue
+		}
+		out.WriteString(s[last:i])
+		fmt.Fprintf(&out, "&#x%X;", r)
+		last = i + utf8.RuneLen(r)
+	}
+	if last == 0 {
+		return s
+	}
+	out.WriteString(s[last:])
+	return out.String()
+}
+
 var (
 	qch_dquote = []byte{'"'}
 	qch_quote  = []byte{'\''}
@@ -77,6 +156,7 @@ func isInCharacterRange(r rune) (inrange bool) {
 }
 
 func escapeAttrValue(w io.Writer, s []byte) error {
+	dest := w
 	if pdebug.Enabled {
 		debugbuf := bytes.Buffer{}
 		w = io.MultiWriter(w, &debugbuf)
@@ -115,9 +195,16 @@ func escapeAttrValue(w io.Writer, s []byte) error {
 			}
 			if !isInCharacterRange(r) || (r == 0xFFFD && width == 1) {
 				esc = esc_fffd
-				break
+				r = 0xFFFD
+			} else {
+				esc = nil
+			}
+			if !canEncode(dest, r) {
+				esc = []byte(fmt.Sprintf("&#x%X;", r))
+			}
+			if esc == nil {
+				continue
 			}
-			continue
 		}
 
 		if _, err := w.Write(s[last : i-width]); err != nil {
@@ -139,6 +226,7 @@ func escapeAttrValue(w io.Writer, s []byte) error {
 // of the plain text data s. If escapeNewline is true, newline
 // characters will be escaped.
 func escapeText(w io.Writer, s []byte, escapeNewline bool) error {
+	dest := w
 	if pdebug.Enabled {
 		debugbuf := bytes.Buffer{}
 		w = io.MultiWriter(w, &debugbuf)
@@ -175,9 +263,16 @@ func escapeText(w io.Writer, s []byte, escapeNewline bool) error {
 			}
 			if !isInCharacterRange(r) || (r == 0xFFFD && width == 1) {
 				esc = esc_fffd
-				break
+				r = 0xFFFD
+			} else {
+				esc = nil
+			}
+			if !canEncode(dest, r) {
+				esc = []byte(fmt.Sprintf("&#x%X;", r))
+			}
+			if esc == nil {
+				continue
 			}
-			continue
 		}
 
 		if _, err := w.Write(s[last : i-width]); err != nil {
@@ -209,17 +304,42 @@ func (d *Dumper) DumpDoc(out io.Writer, doc *Document) error {
 		defer g.IRelease("END Dumper.DumpDoc")
 	}
 
-	if err := d.DumpNode(out, doc); err != nil {
+	buf := bytes.Buffer{}
+	w := newDumpWriter(&buf)
+	if name := doc.encoding; name != "" {
+		e := encoding.Load(name)
+		if e == nil {
+			return errors.New("encoding '" + name + "' not supported")
+		}
+		if e != unicodeenc.UTF8 {
+			w.enc = e
+		}
+	}
+
+	if err := d.DumpNode(w, doc); err != nil {
 		return err
 	}
 
 	for e := doc.FirstChild(); e != nil; e = e.NextSibling() {
-		if err := d.DumpNode(out, e); err != nil {
+		if err := d.DumpNode(w, e); err != nil {
 			return err
 		}
-		io.WriteString(out, "\n")
+		io.WriteString(w, "\n")
 	}
-	return nil
+
+	// Some encodings have got states, so all of it is converted at once.
+	// If there is something left that does not exist in that encoding, it
+	// is where we can't use character references (e.g. in names)
+	b := buf.Bytes()
+	if w.enc != nil {
+		var err error
+		b, err = encodeText(w.enc, b)
+		if err != nil {
+			return err
+		}
+	}
+	_, err := out.Write(b)
+	return err
 }
 
 func (d *Dumper) dumpDocContent(out io.Writer, n Node) error {
@@ -423,11 +543,11 @@ func dumpEntityContent(out io.Writer, content string) error {
 		default:
 			continue
 		}
-		io.WriteString(out, content[last:i])
+		io.WriteString(out, escapeUnencodable(out, content[last:i]))
 		io.WriteString(out, esc)
 		last = i + 1
 	}
-	io.WriteString(out, content[last:])
+	io.WriteString(out, escapeUnencodable(out, content[last:]))
 	io.WriteString(out, `"`)
 	return nil
 }
@@ -587,7 +707,7 @@ func (d *Dumper) dumpAttributeDecl(out io.Writer, n *AttributeDecl) error {
 	switch n.def {
 	case AttrDefaultNone, AttrDefaultFixed:
 		io.WriteString(out, " ")
-		dumpQuotedString(out, defaultEscaper.Replace(n.defvalue))
+		dumpQuotedString(out, escapeUnencodable(out, defaultEscaper.Replace(n.defvalue)))
 	}
 	io.WriteString(out, ">\n")
 	return nil
@@ -630,6 +750,14 @@ func (d *Dumper) DumpNode(out io.Writer, n Node) error {
 		defer g.IRelease("END Dumper.DumpNode")
 	}
 
+	if _, ok := out.(*dumpWriter); !ok {
+		w := newDumpWriter(out)
+		if err := d.DumpNode(w, n); err != nil {
+			return err
+		}
+		return w.err
+	}
+
 	var err error
 	switch n.Type() {
 	case DocumentNode:
@@ -721,9 +849,11 @@ func (d *Dumper) DumpNode(out io.Writer, n Node) error {
 			for achld := attr.FirstChild(); achld != nil; achld = achld.NextSibling() {
 				count++
 				if achld.Type() == TextNode {
-					escapeAttrValue(out, achld.Content())
-				} else {
-					d.DumpNode(out, achld)
+					if err := escapeAttrValue(out, achld.Content()); err != nil {
+						return err
+					}
+				} else if err := d.DumpNode(out, achld); err != nil {
+					return err
 				}
 			}
 			io.WriteString(out, `"`)
-- 
2.43.0


From 218dfce11d96652bd5255b86e8a40f69d5ca382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 15/24] fix: read iso-8859-1 as what it is, and recognise koi8u

---
 encoding/encoding.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/encoding/encoding.go b/encoding/encoding.go
index 9bce45e..a3fe32a 100644
--- a/encoding/encoding.go
+++ b/encoding/encoding.go
@@ -62,7 +62,7 @@ func Load(name string) enc.Encoding {
 		return charmap.ISO8859_8
 	case "koi8r":
 		return charmap.KOI8R
-	case "koir8u":
+	case "koi8u", "koir8u":
 		return charmap.KOI8U
 	case "macintosh":
 		return charmap.Macintosh
@@ -72,7 +72,9 @@ func Load(name string) enc.Encoding {
 		return charmap.Windows1250
 	case "windows1251":
 		return charmap.Windows1251
-	case "iso-8859-1", "windows1252":
+	case "iso-8859-1":
+		return charmap.ISO8859_1
+	case "windows1252":
 		return charmap.Windows1252
 	case "windows1253":
 		return charmap.Windows1253
-- 
2.43.0


From c06904637666d27bc0ec4ac15b4d5bed9a7e55a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 16/24] fix: limit the nesting of elements, and add attributes
 in constant time

---
 element.go          | 20 +++++++++++---------
 parser_interface.go |  5 +++++
 parserctx.go        |  7 +++++++
 tree.go             |  8 +++++++-
 4 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/element.go b/element.go
index a0af9ce..088a1f0 100644
--- a/element.go
+++ b/element.go
@@ -101,14 +101,8 @@ func (n *Element) SetAttribute(name, value string) error {
 		return err
 	}
 
-	p := n.properties
-	if p == nil {
-		n.properties = attr
-		return nil
-	}
-
 	var last *Attribute
-	for ; p != nil; p = p.NextAttribute() {
+	for p := n.properties; p != nil; p = p.NextAttribute() {
 		if p.Name() == name {
 			return ErrDuplicateAttribute
 		}
@@ -116,10 +110,18 @@ func (n *Element) SetAttribute(name, value string) error {
 		last = p
 	}
 
+	n.linkAttribute(last, attr)
+	return nil
+}
+
+// linkAttribute makes attr the attribute that follows last
+func (n *Element) linkAttribute(last, attr *Attribute) {
+	if last == nil {
+		n.properties = attr
+		return
+	}
 	last.SetNextSibling(attr)
 	attr.SetPrevSibling(last)
-
-	return nil
 }
 
 func (n Element) Attributes() []*Attribute {
diff --git a/parser_interface.go b/parser_interface.go
index da101bd..ec2ff9b 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -32,6 +32,10 @@ const (
 
 const MaxNameLength = 50000
 
+// MaxElementDepth is how deep elements can be nested. Elements are parsed
+// (and dumped) recursively, and running out of stack would be fatal.
+const MaxElementDepth = 500000
+
 var (
 	ErrAmpersandRequired            = errors.New("'&' was required here")
 	ErrAttrListNotFinished          = errors.New("attrlist must finish with a ')'")
@@ -146,6 +150,7 @@ type parserCtx struct {
 	userData   interface{}
 	nodeTab    nodeStack
 	elemidx    int
+	elemdepth  int // number of the elements being parsed
 	nbentities int
 	inputTab   inputStack
 
diff --git a/parserctx.go b/parserctx.go
index 6b4bc0d..d725c4a 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -713,6 +713,12 @@ func (ctx *parserCtx) parseElement() error {
 		defer g.IRelease("END parseElement (%d)", i)
 	}
 
+	if ctx.elemdepth >= MaxElementDepth {
+		return ctx.error(fmt.Errorf("elements nested too deep (more than %d)", MaxElementDepth))
+	}
+	ctx.elemdepth++
+	defer func() { ctx.elemdepth-- }()
+
 	// parseStartTag only parses up to the attributes.
 	// For example, given <foo>bar</foo>, the next token would
 	// be bar</foo>. Given <foo />, the next token would
@@ -4189,6 +4195,7 @@ func (ctx *parserCtx) parseBalancedChunkInternal(ent *Entity) error {
 	newctx.hasPERefs = ctx.hasPERefs
 	newctx.hasExternalSubset = ctx.hasExternalSubset
 	newctx.depth = ctx.depth + 1
+	newctx.elemdepth = ctx.elemdepth
 	newctx.entities = ctx.entities
 	newctx.usedPrefixes = map[string]struct{}{}
 	for _, item := range ctx.nsTab.SimpleStack {
diff --git a/tree.go b/tree.go
index 6a82c29..c4ac41d 100644
--- a/tree.go
+++ b/tree.go
@@ -103,6 +103,7 @@ func (t *TreeBuilder) StartElementNS(ctxif sax.Context, localname, prefix, uri s
 	}
 
 	pdebug.Printf("We got %d attributes", len(attrs))
+	var last *Attribute
 	for _, attr := range attrs {
 		if attr.IsDefault() && !ctx.loadsubset.IsSet(CompleteAttrs) {
 			if pdebug.Enabled {
@@ -110,9 +111,14 @@ func (t *TreeBuilder) StartElementNS(ctxif sax.Context, localname, prefix, uri s
 			}
 			continue
 		}
-		if err := e.SetAttribute(attr.Name(), attr.Value()); err != nil {
+		// the parser has made sure that there are no duplicates, so it is
+		// not necessary to look at all of the attributes each time
+		a, err := doc.CreateAttribute(attr.Name(), attr.Value(), nil)
+		if err != nil {
 			return err
 		}
+		e.linkAttribute(last, a)
+		last = a
 	}
 
 	var parent Node
-- 
2.43.0


From b541d7f0a68717138e7ead28b61c1a3eef54bab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 17/24] fix: do not take text that starts with '/>' for the end
 of an empty-element tag

---
 parserctx.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index d725c4a..a6f71f7 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -721,7 +721,7 @@ func (ctx *parserCtx) parseElement() error {
 
 	// parseStartTag only parses up to the attributes.
 	// For example, given <foo>bar</foo>, the next token would
-	// be bar</foo>. Given <foo />, the next token would
+	// be >bar</foo>. Given <foo />, the next token would
 	// be />
 	if err := ctx.parseStartTag(); err != nil {
 		return ctx.error(err)
@@ -731,13 +731,16 @@ func (ctx *parserCtx) parseElement() error {
 	if cur == nil {
 		panic("did not get rune cursor")
 	}
-	if !cur.HasPrefixString("/>") {
+	// (the text that follows might start with "/>", too)
+	empty := cur.ConsumeString("/>")
+	if !empty {
+		cur.Advance(1)
 		if err := ctx.parseContent(); err != nil {
 			return ctx.error(err)
 		}
 	}
 
-	if err := ctx.parseEndTag(); err != nil {
+	if err := ctx.parseEndTag(empty); err != nil {
 		return ctx.error(err)
 	}
 
@@ -786,7 +789,6 @@ func (ctx *parserCtx) parseStartTag() error {
 	for ctx.instate != psEOF {
 		ctx.skipBlanks()
 		if cur.Peek() == '>' {
-			cur.Advance(1)
 			break
 		}
 
@@ -980,7 +982,9 @@ func (ctx *parserCtx) parseNamespaceDecl(attr *attrData, nbNs *int) (bool, error
  *
  * [NS 9] ETag ::= '</' QName S? '>'
  */
-func (ctx *parserCtx) parseEndTag() error {
+// parseEndTag ends the current element. There's nothing (more) to be parsed
+// if it was an empty-element tag
+func (ctx *parserCtx) parseEndTag(empty bool) error {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START parseEndTag")
 		defer g.IRelease("END parseEndTag")
@@ -990,7 +994,7 @@ func (ctx *parserCtx) parseEndTag() error {
 	if cur == nil {
 		panic("did not get rune cursor")
 	}
-	if !cur.ConsumeString("/>") {
+	if !empty {
 		if !cur.ConsumeString("</") {
 			return ctx.error(ErrLtSlashRequired)
 		}
-- 
2.43.0


From 513e2ada941aea3017c529669d7053b14fbfd8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:09 +0000
Subject: [PATCH 18/24] fix: take a DOCTYPE for finished at its '>', and an
 encoding name at NUL

---
 parserctx.go | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index a6f71f7..c62b381 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -486,11 +486,8 @@ func (ctx *parserCtx) parseDocument() error {
 			return ctx.error(err)
 		}
 
-		if cur.HasPrefixString("[") {
-			ctx.instate = psDTD
-			if err := ctx.parseInternalSubset(); err != nil {
-				return ctx.error(err)
-			}
+		if err := ctx.parseInternalSubset(); err != nil {
+			return ctx.error(err)
 		}
 
 		ctx.inSubset = inExternalSubset
@@ -1547,14 +1544,13 @@ func (ctx *parserCtx) parseEncodingName(_ rune) (string, error) {
 	i := 2
 	for c = cur.PeekN(i); c != 0x0; c = cur.PeekN(i) {
 		if !(c >= 'a' && c <= 'z') && !(c >= 'A' && c <= 'Z') && !(c >= '0' && c <= '9') && c != '.' && c != '_' && c != '-' {
-			i--
 			break
 		}
 		buf.WriteRune(c)
 		i++
 	}
 
-	cur.Advance(i)
+	cur.Advance(i - 1)
 
 	return buf.String(), nil
 }
@@ -2207,18 +2203,13 @@ func (ctx *parserCtx) parseDocTypeDecl() error {
 	 * Is there any internal subset declarations ?
 	 * they are handled separately in parseInternalSubset()
 	 */
-	c := cur.Peek()
-	if c == '[' {
+	// (and so is the '>' at the end)
+	switch cur.Peek() {
+	case '[', '>':
 		return nil
-	}
-
-	// Otherwise this should be the end of DTD
-	if c != '>' {
+	default:
 		return ctx.error(ErrDocTypeNotFinished)
 	}
-	cur.Advance(1)
-
-	return nil
 }
 
 func (ctx *parserCtx) parseInternalSubset() error {
-- 
2.43.0


From 77f74e2a45f6fb4e088300bf165f83cfa1b979ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:09 +0000
Subject: [PATCH 19/24] fix: simplify repeated choices from their first
 alternative on

---
 parserctx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parserctx.go b/parserctx.go
index c62b381..425c4a6 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2993,6 +2993,7 @@ LOOP:
 		 * (a | b?)+ == (a | b)*
 		 */
 		found := false
+		curelem = retelem
 		for curelem != nil && curelem.ctype == ElementContentOr {
 			if curelem.c1 != nil && (curelem.c1.coccur == ElementContentOpt || curelem.c1.coccur == ElementContentMult) {
 				curelem.c1.coccur = ElementContentOnce
-- 
2.43.0


From 7056eeea133aa66dc88f1e5fdcaf3edba21fb5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 20/24] fix: keep names that start with a colon in declarations

---
 dtd.go       | 4 ++--
 parserctx.go | 2 +-
 tree.go      | 2 +-
 valid.go     | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/dtd.go b/dtd.go
index c3495a7..45699da 100644
--- a/dtd.go
+++ b/dtd.go
@@ -69,7 +69,7 @@ func (dtd *DTD) AddElementDecl(name string, typ ElementTypeVal, content *Element
 	}
 
 	var prefix string
-	if i := strings.IndexByte(name, ':'); i > -1 {
+	if i := strings.IndexByte(name, ':'); i > 0 {
 		prefix = name[:i]
 		name = name[i+1:]
 	}
@@ -174,7 +174,7 @@ func (dtd *DTD) LookupParameterEntity(name string) (*Entity, bool) {
 
 func (dtd *DTD) GetElementDesc(name string) (*ElementDecl, bool) {
 	var prefix string
-	if i := strings.IndexByte(name, ':'); i > -1 {
+	if i := strings.IndexByte(name, ':'); i > 0 {
 		prefix = name[:i]
 		name = name[i+1:]
 	}
diff --git a/parserctx.go b/parserctx.go
index 425c4a6..c3f8d40 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3992,7 +3992,7 @@ func (ctx *parserCtx) addAttributeDefault(elemName, attrName, defaultValue strin
 		value:     defaultValue,
 		isDefault: true,
 	}
-	if i := strings.IndexByte(attrName, ':'); i > -1 {
+	if i := strings.IndexByte(attrName, ':'); i > 0 {
 		attr.prefix = attrName[:i]
 		attr.localname = attrName[i+1:]
 	}
diff --git a/tree.go b/tree.go
index c4ac41d..b3107a7 100644
--- a/tree.go
+++ b/tree.go
@@ -328,7 +328,7 @@ func (t *TreeBuilder) AttributeDecl(ctxif sax.Context, eName string, aName strin
 	}
 	var prefix string
 	var local string
-	if i := strings.IndexByte(aName, ':'); i > -1 {
+	if i := strings.IndexByte(aName, ':'); i > 0 {
 		prefix = aName[:i]
 		local = aName[i+1:]
 	} else {
diff --git a/valid.go b/valid.go
index eae00b9..764c816 100644
--- a/valid.go
+++ b/valid.go
@@ -19,7 +19,7 @@ func newElementContent(name string, ctype ElementContentType) (*ElementContent,
 		if name == "" {
 			return nil, errors.New("ElementContent (element) must have name")
 		}
-		if i := strings.IndexByte(name, ':'); i > -1 {
+		if i := strings.IndexByte(name, ':'); i > 0 {
 			prefix = name[:i]
 			local = name[i+1:]
 		} else {
-- 
2.43.0


From b7250338d075dfd6e70ba0fc2cfb75c783449c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:24 +0000
Subject: [PATCH 21/24] fix: reject input that starts like another encoding
 than the one it declares

---
 parserctx.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index c3f8d40..ff9bfb9 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -355,11 +355,13 @@ func (ctx *parserCtx) switchEncoding() error {
 		defer g.IRelease("END switchEncoding")
 	}
 
-	encName := ctx.encoding
-	if encName == "" {
-		encName = ctx.detectedEncoding
+	// an XML declaration that could be read does not tell anything if the
+	// input starts like another encoding
+	encName := ctx.detectedEncoding
+	if encName == "" || encName == encUTF8 {
+		encName = ctx.encoding
 		if encName == "" {
-			encName = "utf8"
+			encName = encUTF8
 		}
 	}
 
-- 
2.43.0


From 03c3103d81252209be137cf35fa4fc26259e8489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:36 +0000
Subject: [PATCH 22/24] fix: report illegal characters and '--' in comments
 where they are

---
 parserctx.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index ff9bfb9..d292043 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2112,6 +2112,7 @@ func (ctx *parserCtx) parseComment() error {
 
 	r := cur.PeekN(i + 1)
 	if !isChar(r) {
+		cur.Advance(i)
 		return ctx.error(ErrInvalidChar)
 	}
 	i++
@@ -2119,6 +2120,7 @@ func (ctx *parserCtx) parseComment() error {
 
 	for c := cur.PeekN(i + 1); isChar(c) && (q != '-' || r != '-' || c != '>'); c = cur.PeekN(i + 1) {
 		if q == '-' && r == '-' {
+			cur.Advance(i)
 			return ctx.error(ErrHyphenInComment)
 		}
 		buf.WriteRune(c)
-- 
2.43.0


From 57cfa9758399bf2b0d41546054b0ad983774e5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:26 +0000
Subject: [PATCH 23/24] fix: pass the arguments of an error on to its callback
 one by one

---
 sax/gencbsax.pl | 2 +-
 sax/sax2.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sax/gencbsax.pl b/sax/gencbsax.pl
index 70ae3ee..6990813 100644
--- a/sax/gencbsax.pl
+++ b/sax/gencbsax.pl
@@ -79,7 +79,7 @@ foreach my $func (@handler_funcs) {
         join ", ",
             map { $_ eq "error" ? "ErrHandlerUnspecified" : $_ eq "bool" ? "false" : "nil" }
             split /\s*,\s*/, $ret =~ s{\(([^\)]+)\)}{$1}r;
-    my $bare_args = join ", ", map { (split /\s+/, $_)[0] } split /\s*,\s*/, $args;
+    my $bare_args = join ", ", map { my ($n, $t) = split /\s+/, $_; $t =~ /^\.\.\./ ? "$n..." : $n } split /\s*,\s*/, $args;
     print $out <<EOM
 func (s $klass) $func($args) $ret {
 \tif h := s.${func}Handler; h != nil {
diff --git a/sax/sax2.go b/sax/sax2.go
index 54f2d7b..3f3a61e 100644
--- a/sax/sax2.go
+++ b/sax/sax2.go
@@ -132,7 +132,7 @@ func (s SAX2) EntityDecl(ctx Context, name string, typ int, publicID string, sys
 
 func (s SAX2) Error(ctx Context, message string, args ...interface{}) error {
 	if h := s.ErrorHandler; h != nil {
-		return h(ctx, message, args)
+		return h(ctx, message, args...)
 	}
 	return ErrHandlerUnspecified;
 }
-- 
2.43.0


From c8204d411dc401f93ccdd8a10246e4da10b40f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:22 +0000
Subject: [PATCH 24/24] fix: normalize white space of entities in namespace
 names

---
 parserctx.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index d292043..7850fc9 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3175,7 +3175,13 @@ func (ctx *parserCtx) decodeEntitiesInternal(s []byte, what SubstitutionType, de
 			out.WriteString(rep)
 			s = s[width:]
 		} else {
-			out.WriteByte(s[0])
+			c := s[0]
+			if depth > 0 && what == SubstituteRef && isBlankCh(rune(c)) {
+				// white space in the replacement text of an entity is
+				// normalized like that in the attribute value itself
+				c = 0x20
+			}
+			out.WriteByte(c)
 			s = s[1:]
 		}
 	}
-- 
2.43.0

