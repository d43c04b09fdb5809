package main

import (
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/verif/gen"
	"github.com/lestrrat-go/helium/verif/hx"
	"github.com/lestrrat-go/helium/verif/ref"
)

// eol makes the line ends of s the same
func eol(s string) string {
	return strings.Replace(strings.Replace(s, "\r\n", "\n", -1), "\r", "\n", -1)
}

// faultOf parses s, which is to be rejected, and looks at what the error says
func faultOf(c *Ctx, s string) (helium.ErrParseError, bool) {
	doc, err := parse(c, s)
	if err == nil {
		if doc != nil {
			c.Count("accepted", 1)
		}
		return helium.ErrParseError{}, false
	}
	e, ok := err.(helium.ErrParseError)
	if !ok {
		c.Fail("the error is a %T, and has no position: %s", err, oneLine(err))
		return e, false
	}
	if e.Err == nil {
		c.Fail("the error does not say what it is: %#v", e)
		return e, false
	}
	if _, ok := e.Err.(helium.ErrParseError); ok {
		c.Fail("the error is within another one: %s", oneLine(err))
		return e, false
	}
	lines := strings.Split(eol(s), "\n")
	if e.LineNumber < 1 || e.LineNumber > len(lines) {
		c.Fail("the error is in line %d of %d: %s", e.LineNumber, len(lines), oneLine(err))
		return e, false
	}
	line := lines[e.LineNumber-1]
	if e.Column < 1 || e.Column > len(line)+1 {
		c.Fail("the error is in column %d of line %d, which has %d bytes: %s", e.Column, e.LineNumber, len(line), oneLine(err))
		return e, false
	}
	// what is before the column: bytes in an XML declaration, which can only
	// be at the start, characters elsewhere
	before := e.Line
	if !strings.Contains(line, before) {
		c.Fail("%q is not in line %d, %q", e.Line, e.LineNumber, line)
		return e, false
	}
	decl := 1 // the last line of the XML declaration
	if strings.HasPrefix(strings.TrimPrefix(s, "\uFEFF"), "<?xml") {
		if i := strings.Index(s, "?>"); i >= 0 {
			decl += strings.Count(eol(s[:i]), "\n")
		} else {
			decl = len(lines)
		}
	}
	if e.LineNumber > decl {
		if n := utf8.RuneCountInString(before) + 1; n != e.Column || !strings.HasPrefix(line, before) {
			c.Fail("the error is in column %d of line %d, after %q", e.Column, e.LineNumber, before)
			return e, false
		}
	}
	text := err.Error()
	for _, want := range []string{fmt.Sprintf("line %d,", e.LineNumber), fmt.Sprintf("column %d\n", e.Column), e.Err.Error()} {
		if !strings.Contains(text, want) {
			c.Fail("%q is not in the text of the error, %q", want, text)
			return e, false
		}
	}
	c.Count("errors", 1)
	return e, true
}

// wantNotBefore compares the line of the error with the one the reference reports
func wantNotBefore(c *Ctx, s string) (helium.ErrParseError, bool) {
	r := refParse(s)
	e, ok := faultOf(c, s)
	if !ok {
		return e, false
	}
	if r.Verdict == ref.NotWF {
		c.Seen(s)
		c.Count(fault(r.Msg), 1)
		if e.LineNumber < r.Line {
			c.Fail("the error is in line %d, but up to line %d nothing is wrong (%s): %s", e.LineNumber, r.Line, r.Msg, oneLine(e))
			return e, false
		}
		if e.LineNumber == r.Line {
			c.Count("in the very line", 1)
		}
	}
	return e, true
}

var lineNumbers = regexp.MustCompile(`at line \d+, column \d+\s+-> '`)

// message is what an error says. That may have the text of another error in it.
func message(e helium.ErrParseError) string {
	return lineNumbers.ReplaceAllString(e.Err.Error(), "")
}

func short(s string) string { return head(s, 100) }

// firstPart is what an error says, up to where it says something about another one
func firstPart(e helium.ErrParseError) string {
	m := e.Err.Error()
	if i := lineNumbers.FindStringIndex(m); i != nil {
		m = m[:i[0]]
	}
	return m
}

// sameFault compares errors of documents that differ in preceding lines
func sameFault(c *Ctx, what string, a, b helium.ErrParseError, shift int) {
	c.Count("shifted", 1)
	if b.LineNumber-a.LineNumber != shift || a.Column != b.Column || a.Line != b.Line || message(a) != message(b) {
		c.Fail("%s: the error was %q, and should move by %d lines, now it is %q", what, oneLine(a), shift, oneLine(b))
	}
}

func breaks(c *Ctx, n int) string {
	return strings.Repeat(c.Pick("\n", "\n", "\r\n", "\r"), n)
}

// lineCount is how many lines are added; "\r" right before "\n" would not be one
func addLines(c *Ctx, s string, at, n int) string {
	b := breaks(c, n)
	if at < len(s) && s[at] == '\n' || at > 0 && s[at-1] == '\r' {
		b = strings.Repeat("\r\n", n)
		if at > 0 && s[at-1] == '\r' && at < len(s) && s[at] == '\n' {
			return s // in the middle of one
		}
	}
	return s[:at] + b + s[at:]
}

// a document with places for lines, \x02, at which markup can be inserted.
// The rest is on lines of its own.
type skeleton struct {
	s    string
	bad  []string // not allowed in here
	what string
}

var badContent = []string{"&", "&;", "& ", "&x", "&nope;", "&#;", "&#x;", "&#0;", "&#xD800;", "&#x110000;", "&#1;", "<", "<1", "< a>", "</nope>", "</>", "]]>", "\x01", "\x00", "\xff", "\uFFFE", "\xed\xa0\x80", "<!", "<!x", "<!ELEMENT a ANY>", "<!DOCTYPE a>", "<a b>", "<a b=c>", "<a b='1' b='2'>", "<a b='1'c='2'>", "<a b='<'>", "<a b='&'>", "<a b='&nope;'/>", "<a b='\x02'/>", "<a b='&#0;'/>", "<p:x>", "<a p:x='1'>", "<?xml?>", "<?xml version='1.0'?>", "<?1 ?>", "<? x?>", "<!-- -- -->", "<!----->", "<!--\x03-->", "<![CDATA", "<![cdata[]]>", "<![CDATA[\x04]]>", "<a/ >", "<a / >", "<a:>", "<a xmlns:p=''/>", "<a xmlns:xml='u'/>", "<a xmlns:xmlns='u'/>", "<&>", "a < b", "a & b", "%\x0b", "<é×>", "é & é", "日本語 <", "𐀀𐀀&;", "&lt", "&amp"}
var badMisc = []string{"x", "&amp;", "&#65;", "]]>", "<![CDATA[]]>", "</a>", "\x00", "\x01", "\xff", "<!", "<!x", "<!ENTITY e 'x'>", "<?xml version='1.0'?>", "<?XML ?>", "<!-- -- -->", "é", "\u00a0", "\ufeff", "<1>", "<!-", "%", "<?", "<? x?>"}
var badSubset = []string{"x", "<", "<a>", "&amp;", "<!ELEMENT>", "<!ELEMENT a>", "<!ELEMENT a (>", "<!ELEMENT a ()>", "<!ELEMENT a (b|c,d)>", "<!ELEMENT a (#PCDATA|b)>", "<!ELEMENT a b>", "<!ELEMENT 1 ANY>", "<!ELEMENTa ANY>", "<!ATTLIST>", "<!ATTLIST a b>", "<!ATTLIST a b CDATA>", "<!ATTLIST a b CDATA '<'>", "<!ATTLIST a b CDATA '&nope;'>", "<!ATTLIST a b ()  #IMPLIED>", "<!ATTLIST a b (x) #implied>", "<!ATTLIST a b X #IMPLIED>", "<!ENTITY>", "<!ENTITY e>", "<!ENTITY e x>", "<!ENTITY e '&'>", "<!ENTITY e '&#0;'>", "<!ENTITY e 'x' y>", "<!x>", "<!", "<![CDATA[]]>", "]x", "%", "%;", "% x;", "<!-- -- -->", "<?xml?>", "<!---", "\x00", "\x01", "\xff", "<!element a ANY>", "<!ENTITY 1 'x'>"}
var badTag = []string{"<", "&", "1='x'", "b", "b=", "b=c", "b='<'", "b='&'", "b='&nope;'", "/", "/ >", "'", "\"x\"", "=", "é", "\x00", "a='1' a='2'", "b='1'c='2'", "xmlns:p=''", "xmlns:xml='x'", "-", "b='\x01'", "\u00d7"}

func init() {
	const slot = "\x02"
	lead := []string{"", "x", "x y", "&lt;", "<b/>", "<b>t</b>", "<!--c-->", "<?p q?>", "<![CDATA[]]>", "&#10;", "<b c='d'\ne='f\ng'\n/>", "]]", "<!--\n\n-->", "<![CDATA[\n]]>", "<?p\n?>", "é", "日本", "\U00010000", "&#xa;", "\t"}
	// exact places one of bad on a line of its own
	exact := func(c *Ctx, head, tail string, bad string, what string) {
		lines := 1 + strings.Count(head, "\n")
		s := head + bad + "\n" + tail
		if c.P(1, 3) {
			s = strings.Replace(s, "\n", c.Pick("\r\n", "\r"), -1)
		}
		c.Input(s)
		r := refParse(s)
		if r.Verdict != ref.NotWF || r.Line != lines {
			c.Count("reference: elsewhere", 1)
			return
		}
		c.Seen(s)
		c.Sample(s)
		e, ok := wantNotBefore(c, s)
		if !ok {
			if !c.Failed() {
				c.Fail("accepted, although %q is in line %d", bad, lines)
			}
			return
		}
		if e.LineNumber != lines {
			c.Fail("%q is in line %d, and the error in line %d: %s", bad, lines, e.LineNumber, oneLine(e))
			return
		}
		c.Count("exact, "+what, 1)
	}
	randLines := func(c *Ctx, from []string, n int) string {
		var b strings.Builder
		for ; n > 0; n-- {
			b.WriteString(from[c.N(len(from))])
			b.WriteString("\n")
		}
		return b.String()
	}
	miscLines := []string{"", "", "<!--c-->", "<!--\nc\n-->", "<?p?>", "<?p\n\nq ?>", " ", "\t"}
	subsetLines := []string{"", " ", "<!--c-->", "<?p q?>", "<!ELEMENT q ANY>", "<!ATTLIST z y CDATA #IMPLIED>", "<!ENTITY e 'f\ng'>", "<!ATTLIST\nz\nx\nCDATA\n'\n'>", "<!--\n-->"}
	n := 0
	fresh := func(s string) string { // a declaration may not be repeated
		n++
		return strings.Replace(strings.Replace(s, "ELEMENT q", fmt.Sprintf("ELEMENT q%d", n), -1), "z", fmt.Sprintf("z%d", n), -1)
	}
	_ = slot
	ck := &Check{ID: "C13",
		Rule:        "a case is a document with a fault, distinct by its bytes. The monitor looks at every error: its type, whether line and column exist in the document, and whether its text names them. The line is compared with that of the first fault according to the reference parser, and with that of the token which was put on a line of its own. Then lines are inserted before it",
		Assumptions: []string{"lines are counted from 1 and end with LF, CR LF or CR", "the column is one more than the number of characters before it (bytes, in the XML declaration)"},
	}
	ck.Sections = []Section{
		batch("mutants", 60000, 2000000, 200, func(c *Ctx, k int) {
			s := gen.Mutate(c.Rand, gen.Doc(c.Rand, gen.Random(c.Rand)))
			if c.P(1, 12) {
				s = gen.Soup(c.Rand, 10)
			}
			wantNotBefore(c, s)
		}),
		// a single token on a line of its own
		batch("content", 40000, 800000, 200, func(c *Ctx, k int) {
			bad := badContent[k%len(badContent)]
			depth := c.N(5)
			var head, tail strings.Builder
			head.WriteString(randLines(c, miscLines, c.N(4)))
			if c.P(1, 3) {
				head.WriteString("<!DOCTYPE a [\n")
				for i := c.N(4); i > 0; i-- {
					head.WriteString(fresh(randLines(c, subsetLines, 1)))
				}
				head.WriteString("]>\n")
			}
			for i := 0; i <= depth; i++ {
				head.WriteString("<a" + c.Pick("", "\nb='1'", " b='\n'\n") + ">\n")
				head.WriteString(randLines(c, lead, c.N(4)))
				tail.WriteString("</a>\n")
			}
			exact(c, head.String(), randLines(c, lead, c.N(3))+tail.String(), c.Pick("", "", " ", "x ", "é", "<b/>")+bad+c.Pick("", "", " ", " y"), "content")
		}),
		batch("misc", 10000, 200000, 200, func(c *Ctx, k int) {
			bad := badMisc[k%len(badMisc)]
			head := randLines(c, miscLines, c.N(6))
			tail := randLines(c, miscLines, c.N(3))
			switch c.N(3) {
			case 0:
				exact(c, head, tail+"<a/>\n", bad, "prolog")
			case 1:
				exact(c, head+"<!DOCTYPE a>\n"+tail, "<a/>\n", bad, "prolog")
			default:
				exact(c, head+"<a>\n</a>\n"+randLines(c, miscLines, c.N(3)), tail, bad+c.Pick("", " ", "<a/>", "<b>"), "after the root element")
			}
		}),
		batch("subset", 20000, 400000, 200, func(c *Ctx, k int) {
			bad := badSubset[k%len(badSubset)]
			head := randLines(c, miscLines, c.N(3)) + "<!DOCTYPE" + c.Pick(" ", "\n") + "a" + c.Pick("", " ", "\n") + "[\n"
			for i := c.N(5); i > 0; i-- {
				head += fresh(randLines(c, subsetLines, 1))
			}
			exact(c, head, fresh(randLines(c, subsetLines, c.N(2)))+"]>\n<a/>\n", bad, "internal subset")
		}),
		batch("tag", 10000, 200000, 200, func(c *Ctx, k int) {
			bad := badTag[k%len(badTag)]
			head := randLines(c, miscLines, c.N(3)) + "<a>\n" + randLines(c, lead, c.N(4)) + "<c\n"
			for i := c.N(5); i > 0; i-- {
				head += fmt.Sprintf("x%d=%s\n", i, c.Pick("'1'", "\"\n\"", "\n'é'", "'&lt;'"))
			}
			exact(c, head, c.Pick("/>", "></c>", "y='1'\n/>")+"\n</a>\n", bad, "tag")
		}),
		batch("value", 10000, 200000, 200, func(c *Ctx, k int) {
			bad := []string{"<", "&", "&;", "&nope;", "&#0;", "&#xFFFF;", "\x00", "\x01", "\xff", "&x", "<b/>", "&#", "& "}[k%13]
			v := strings.Replace(randLines(c, []string{"", "x", "&lt;", "&#10;", "é", "\t", "'", "日本"}, c.N(5)), "'", "", -1)
			q := c.Pick("'", "\"")
			exact(c, randLines(c, miscLines, c.N(3))+"<a>\n"+randLines(c, lead, c.N(4))+"<c b="+q+v, v+q+"/>\n</a>\n", c.Pick("", "x", "é")+bad, "attribute value")
			for _, w := range []struct{ what, from, to string }{{"comment", "<!--\n", "-->"}, {"CDATA section", "<![CDATA[\n", "]]>"}, {"processing instruction", "<?p\n", "?>"}} {
				bad := c.Pick("\x00", "\x01", "\xff", "\ufffe", "\xed\xa0\x80")
				if w.what == "comment" && c.P(1, 2) {
					bad = c.Pick("--", "---", "-- ", "--x")
				}
				exact(c, "<a>\n"+randLines(c, lead, c.N(4))+w.from+randLines(c, []string{"", "x", "é", "<", "&", "]]", "?"}, c.N(4)), randLines(c, []string{"", "x", "&"}, c.N(3))+w.to+"</a>", bad, w.what)
			}
		}),
		batch("end", 10000, 200000, 200, func(c *Ctx, k int) {
			// the end tag that is wrong, or the end of input
			head := randLines(c, miscLines, c.N(3)) + "<a>\n" + randLines(c, lead, c.N(3)) + "<b" + c.Pick("", "\n") + ">\n" + randLines(c, lead, c.N(3))
			exact(c, head, "</a>\n", c.Pick("</a>", "</c>", "</B>", "</bb>", "</b x>", "</b/>", "</ b>", "</b", "</é>"), "end tag")
			s := head + randLines(c, lead, c.N(5))
			if c.P(1, 3) {
				s = s[:c.N(len(s)+1)]
			}
			e, ok := wantNotBefore(c, s)
			if ok && refParse(s).Verdict == ref.NotWF && strings.HasSuffix(s, "\n") && e.LineNumber != 1+strings.Count(eol(s), "\n") && refParse(s).Line == 1+strings.Count(eol(s), "\n") {
				c.Fail("the input ends in line %d, and the error is in line %d: %s", 1+strings.Count(eol(s), "\n"), e.LineNumber, oneLine(e))
			}
		}),
		// lines inserted before the fault
		batch("shift", 40000, 1000000, 200, func(c *Ctx, k int) {
			p := gen.Random(c.Rand)
			p.BOM = false
			if c.P(1, 2) {
				p.Decl = false
			}
			s := gen.Mutate(c.Rand, gen.Doc(c.Rand, p))
			r := refParse(s)
			if r.Verdict != ref.NotWF {
				return
			}
			at := 0
			if strings.HasPrefix(s, "<?xml") && len(s) > 5 && strings.IndexByte(" \n\r\t", s[5]) >= 0 {
				// in the declaration
				at = 6
				if s[5] == '\r' && len(s) > 6 && s[6] == '\n' {
					at = 7
				}
			}
			if strings.HasPrefix(s, "\xef\xbb\xbf") || s == "" {
				return
			}
			e, ok := wantNotBefore(c, s)
			if !ok {
				return
			}
			if at == 0 && e.LineNumber == 1 && strings.HasPrefix(s, "<?x") {
				return // perhaps it was the declaration
			}
			n := []int{1, 2, 3, 7, 50, 100, 255, 256, 1000, 5000}[c.N(10)]
			s2 := addLines(c, s, at, n)
			if s2 == s {
				return
			}
			if at > 0 {
				// the first line is another one, then
				if e.LineNumber == 1 {
					c.Count("shifted from the declaration", 1)
					e2, ok := wantNotBefore(c, s2)
					if ok && (e2.LineNumber != 1+n || message(e2) != message(e)) {
						c.Fail("%d lines in the XML declaration: the error was %q, now it is %q", n, oneLine(e), oneLine(e2))
					}
					return
				}
			}
			e2, ok := faultOf(c, s2)
			if !ok {
				if !c.Failed() {
					c.Fail("accepted with %d blank lines at %d, before: %s", n, at, oneLine(e))
				}
				return
			}
			sameFault(c, fmt.Sprintf("%d blank lines at %d", n, at), e, e2, n)
		}),
		// the same, within the constructs
		batch("within", 20000, 500000, 200, func(c *Ctx, k int) {
			bad := badContent[k%len(badContent)]
			mk := func(x string, i int) string {
				parts := []string{"", "<?p ", "?>", "<!--", "-->", "<!DOCTYPE a", "[", "<!ELEMENT q", " ANY", ">", "<!ATTLIST a b CDATA '", "'>", "<!ENTITY e '", "'>", "]>", "<a", " c='", "'>", "t", "<![CDATA[", "]]>", "<b ", "/>", "&e;", "<b>u", "</b", ">"}
				var b strings.Builder
				for j, p := range parts {
					b.WriteString(p)
					if j == i {
						b.WriteString(x)
					}
				}
				return b.String()
			}
			i := c.N(27)
			tail := " \n" + bad + " </a>"
			s := mk("\n", i) + tail
			if refParse(s).Verdict != ref.NotWF {
				return
			}
			e, ok := wantNotBefore(c, s)
			if !ok {
				return
			}
			n := []int{1, 2, 3, 10, 100, 1000}[c.N(6)]
			s2 := mk("\n"+breaks(c, n), i) + tail
			e2, ok := wantNotBefore(c, s2)
			if !ok {
				if !c.Failed() {
					c.Fail("accepted with %d more lines", n)
				}
				return
			}
			c.Count(fmt.Sprintf("within %d", i), 1)
			if e.LineNumber < 3 {
				// the lines themselves are at fault (the document starts after the blank line, say)
				c.Count("fault before", 1)
				return
			}
			sameFault(c, fmt.Sprintf("%d more lines in part %d", n, i), e, e2, n)
		}),
		// what is before the fault on its line moves the column
		batch("columns", 20000, 400000, 200, func(c *Ctx, k int) {
			bad := badContent[k%len(badContent)]
			head := "<a>\n" + randLines(c, lead, c.N(3))
			tail := lead[c.N(len(lead))] + c.Pick("", "\n") + "</a>"
			mid := c.Pick("", "", "x", "<b>", "<!--c-->", "<c d='", "<c d='e' f='", "<?p q?>", "<![CDATA[", "<!--", "<?p ", "<b/><b>t</b>&lt;", "<b \n")
			pad := strings.Repeat(c.Pick("x", " ", "é", "日", "\U00010000", "<b/>", "<b c='é'/>", "&#65;", "&lt;", "<!--é-->", "<?é é?>", "<![CDATA[é]]>", "é<b>日</b>"), 1+c.N(1<<uint(c.N(9))))
			e, ok := wantNotBefore(c, head+mid+bad+tail)
			if !ok {
				return
			}
			e2, ok := wantNotBefore(c, head+pad+mid+bad+tail)
			if !ok {
				if !c.Failed() {
					c.Fail("accepted after %q, before: %s", short(pad), oneLine(e))
				}
				return
			}
			move := 0
			if e.LineNumber == 1+strings.Count(head, "\n") {
				move = utf8.RuneCountInString(pad)
				c.Count("moved columns", 1)
			}
			if e2.LineNumber != e.LineNumber || e2.Column != e.Column+move || firstPart(e2) != firstPart(e) {
				c.Fail("after %q the error is %q, it was %q", short(pad), oneLine(e2), oneLine(e))
			}
		}),
		// line ends do not matter
		batch("lineends", 20000, 500000, 200, func(c *Ctx, k int) {
			p := gen.Random(c.Rand)
			p.CR = false
			s := gen.Mutate(c.Rand, gen.Doc(c.Rand, p))
			if strings.Contains(s, "\r") {
				return
			}
			e, ok := wantNotBefore(c, s)
			if !ok {
				return
			}
			for _, nl := range []string{"\r\n", "\r"} {
				e2, ok := faultOf(c, strings.Replace(s, "\n", nl, -1))
				if !ok {
					if !c.Failed() {
						c.Fail("accepted with line ends %q", nl)
					}
					return
				}
				decl := strings.HasPrefix(s, "<?xml") && e.Line != e2.Line // written as it is
				if e.LineNumber != e2.LineNumber || e.Column != e2.Column && !decl || message(e) != message(e2) {
					c.Fail("with line ends %q the error is %q, not %q", nl, oneLine(e2), oneLine(e))
					return
				}
			}
		}),
		// errors of callbacks have a position as well, that of the event
		batch("handler", 10000, 200000, 100, func(c *Ctx, k int) {
			p := gen.Random(c.Rand)
			p.Size = 1 + c.N(12)
			s, _ := genWF(c, p)
			c.Input(s)
			full, _, err := runRecorder(c, s, hx.AllCallbacks, false, -1, nil)
			if err != nil {
				return
			}
			lines := 1 + strings.Count(eol(s), "\n")
			last := 0
			for at := 0; at < len(full.Events); at++ {
				_, _, err := runRecorder(c, s, hx.AllCallbacks, false, at, &customErr{at})
				e, ok := err.(helium.ErrParseError)
				if !ok {
					c.Fail("%s callback failed, and the error is a %T", full.Events[at].Kind, err)
					return
				}
				if e.LineNumber < 1 || e.LineNumber > lines || e.LineNumber < last {
					c.Fail("%s callback (event %d) failed, and the error is in line %d of %d; the one before was in line %d", full.Events[at].Kind, at, e.LineNumber, lines, last)
					return
				}
				last = e.LineNumber
				c.Count("errors of callbacks", 1)
			}
		}),
	}
	register(ck)
}
