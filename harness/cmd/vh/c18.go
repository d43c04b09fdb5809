package main

import (
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/verif/gen"
	"github.com/lestrrat-go/helium/verif/hx"
	"github.com/lestrrat-go/helium/verif/ref"
)

var supportedSet = func() map[string]bool {
	m := map[string]bool{}
	for _, n := range supportedNames() {
		m[n] = true
	}
	return m
}()

func refStandalone(d *ref.Doc) helium.DocumentStandaloneType {
	switch {
	case !d.HasDecl:
		return helium.StandaloneNoXMLDecl
	case d.Standalone == "yes":
		return helium.StandaloneExplicitYes
	case d.Standalone == "no":
		return helium.StandaloneExplicitNo
	}
	return helium.StandaloneImplicitNo
}

// reports compares what a document says about its XML declaration
func reports(rd *ref.Doc, doc *helium.Document) string {
	enc := rd.Encoding
	if enc == "" {
		enc = "utf8"
	}
	if doc.Encoding() != enc {
		return fmt.Sprintf("encoding %q, want %q", doc.Encoding(), enc)
	}
	if rd.HasDecl && doc.Version() != rd.Version {
		return fmt.Sprintf("version %q, want %q", doc.Version(), rd.Version)
	}
	if !rd.HasDecl && doc.Version() != "" && doc.Version() != "1.0" {
		return fmt.Sprintf("version %q, want none", doc.Version())
	}
	want := refStandalone(rd)
	if doc.Standalone() != want && !(want == helium.StandaloneNoXMLDecl && doc.Standalone() == helium.StandaloneImplicitNo) {
		return fmt.Sprintf("standalone %d, want %d", doc.Standalone(), want)
	}
	return ""
}

// wantDecl looks at the XML declaration of s, all of which is ASCII
func wantDecl(c *Ctx, s string) {
	c.Input(s)
	r := ref.Parse([]byte(s), ref.Options{AnyEncoding: true})
	c.Seen(s)
	if r.Verdict == ref.Skip {
		c.Count("skipped", 1)
		return
	}
	saxErr := func() error {
		p := helium.NewParser()
		p.SetSAXHandler(hx.NewRecorder(uint(c.N(hx.AllCallbacks+1)), nil))
		c.Eval()
		_, err := p.Parse([]byte(s))
		return err
	}
	if r.Verdict == ref.NotWF {
		c.Count(fault(r.Msg), 1)
		wantReject(c, s, r)
		if saxErr() == nil {
			c.Fail("accepted with a handler though not well-formed: %s (offset %d)", r.Msg, r.Pos)
		}
		return
	}
	rd := r.Doc
	if rd.Encoding != "" && !supportedSet[strings.ToLower(rd.Encoding)] {
		wantUnreadable(c, "the encoding is not supported", s)
		return
	}
	kind := "no XML declaration"
	if rd.HasDecl {
		kind = "version"
		if rd.Encoding != "" {
			kind += ", encoding"
		}
		if rd.Standalone != "" {
			kind += ", standalone=" + rd.Standalone
		}
	}
	c.Count(kind, 1)
	doc := wantTree(c, s, rd)
	if doc == nil {
		return
	}
	if m := reports(rd, doc); m != "" {
		c.Fail("the document reports %s", m)
		return
	}
	if err := saxErr(); err != nil {
		c.Fail("rejected with a handler: %s", oneLine(err))
		return
	}
	// a tree builder behind a handler is told the same
	tb := helium.NewTreeBuilder()
	p := helium.NewParser()
	p.SetSAXHandler(hx.NewRecorder(hx.AllCallbacks, tb))
	c.Eval()
	if doc2, err := p.Parse([]byte(s)); err != nil || doc2 == nil {
		c.Fail("with a handler that builds the tree: %v", err)
		return
	} else if m := reports(rd, doc2); m != "" {
		c.Fail("with a handler that builds the tree, the document reports %s", m)
		return
	}
	out, err := doc.XMLString()
	if err != nil {
		c.Fail("not serialised: %s", oneLine(err))
		return
	}
	r2 := ref.Parse([]byte(out), ref.Options{AnyEncoding: true})
	if r2.Verdict != ref.WF {
		c.Fail("written as %q, which is not well-formed: %s", head(out, 400), r2.Msg)
		return
	}
	wantV := rd.Version
	if !rd.HasDecl {
		wantV = r2.Doc.Version
		if wantV != "" && wantV != "1.0" {
			c.Fail("written as %q, without an XML declaration at first", head(out, 400))
			return
		}
	}
	if r2.Doc.Version != wantV || r2.Doc.Encoding != rd.Encoding || r2.Doc.Standalone != rd.Standalone {
		c.Fail("the XML declaration is written back as %q", head(out, 100+len(rd.Version)))
		return
	}
	doc3, err := parse(c, out)
	if err != nil {
		c.Fail("written as %q, which is rejected: %s", head(out, 400), oneLine(err))
	} else if m := reports(r2.Doc, doc3); m != "" {
		c.Fail("written as %q, the document reports %s", head(out, 400), m)
	}
}

// xmlDecl makes the tokens of a well-formed XML declaration
func xmlDecl(c *Ctx) []string {
	blank := func() string { return c.Pick(" ", " ", " ", "\n", "\t", "\r\n", "  ", " \n ", "\r", "\t\t") }
	opt := func() string {
		if c.P(1, 3) {
			return blank()
		}
		return ""
	}
	toks := []string{"<?xml"}
	item := func(name, v string) {
		q := c.Pick("'", "\"")
		toks = append(toks, blank(), name, opt(), "=", opt(), q, v, q)
	}
	item("version", c.Pick("1.0", "1.0", "1.0", "1.1", "1.2", "1.9", "1.10", "1.00", "1.234567890"))
	if c.P(1, 2) {
		e := c.Pick("utf-8", "UTF-8", "utf8", "UTF8")
		if c.P(1, 2) {
			names := supportedNames()
			e = caseOf(c, names[c.N(len(names))])
		}
		item("encoding", e)
	}
	if c.P(1, 2) {
		item("standalone", c.Pick("yes", "no"))
	}
	return append(toks, opt(), "?>")
}

var afterDecl = []string{"<a/>", "\n<a>t</a>\n", "<!--c--><a></a>", "<!DOCTYPE a><a/>", "<!DOCTYPE a [<!ENTITY e 'x'>]>\n<a>&e;</a>", "<?p d?>\r\n<a b='c'/>", "  <a/>", "<a><?xml-p?></a><?xmlp v?>"}

func init() {
	join := func(t []string) string { return strings.Join(t, "") }
	after := func(c *Ctx) string { return afterDecl[c.N(len(afterDecl))] }
	bits := []string{"<?xml", " ", "\n", "version", "encoding", "standalone", "=", "'", "\"", "1.0", "1.1", "utf-8", "yes", "no", "?>", "?", ">", "x", "'1.0'", "'yes'", "\"no\"", "'utf-8'", "version='1.0'", "encoding='utf-8'", " standalone='yes'", " encoding=\"utf-8\"", " version=\"1.0\"", "&#32;", "\x00", "=\"", "xml", "<a/>", "\v", "YES", "Version", "-", "<", "&", "\u00a0"}

	ck := &Check{ID: "C18",
		Rule:        "a case is a document with or without an XML declaration, distinct by its bytes. A reference parser decides whether the declaration is well-formed and what it says; the monitor compares what the document reports, what a tree built behind a handler reports, and what is written back. Faults: one or two tokens or bytes of a declaration deleted, inserted, replaced or exchanged, at every position",
		Assumptions: []string{"an absent encoding is reported as utf8 and an absent XML declaration as version 1.0, and told from explicit ones by what is written back"},
	}
	// all layouts of a small declaration
	vers := []string{"", "1.0", "1.1"}
	encs := []string{"", "utf-8", "UTF8", "ISO-8859-1"}
	stas := []string{"", "yes", "no"}
	bl := []string{" ", "\n", "\r\n"}
	eqs := []string{"=", " =", "=\t", "\n= "}
	ends := []string{"", " ", "\r"}
	dims := []int{len(vers), len(encs), len(stas), len(bl), len(eqs), len(ends), 2, 2, len(afterDecl)}
	total := 1
	for _, d := range dims {
		total *= d
	}
	ck.Sections = []Section{
		batch("grid", total, total, 400, func(c *Ctx, k int) {
			var i [9]int
			for j, d := range dims {
				i[j] = k % d
				k /= d
			}
			q := []string{"'", "\""}
			s := "<?xml"
			item := func(name, v, q string) {
				if v != "" {
					s += bl[i[3]] + name + eqs[i[4]] + q + v + q
				}
			}
			item("version", vers[i[0]], q[i[6]])
			item("encoding", encs[i[1]], q[i[7]])
			item("standalone", stas[i[2]], q[i[6]])
			s += ends[i[5]] + "?>" + afterDecl[i[8]]
			wantDecl(c, s)
		}),
		batch("random", 20000, 600000, 200, func(c *Ctx, k int) {
			s := join(xmlDecl(c)) + after(c)
			c.Sample(s)
			wantDecl(c, s)
		}),
		// one or two tokens changed
		batch("tokens", 100000, 3000000, 500, func(c *Ctx, k int) {
			t := xmlDecl(c)
			for n := 1 + c.N(2); n > 0; n-- {
				i := c.N(len(t))
				switch c.N(6) {
				case 0:
					t[i] = ""
				case 1:
					t[i] = bits[c.N(len(bits))]
				case 2:
					j := c.N(len(t))
					t[i], t[j] = t[j], t[i]
				case 3:
					t[i] += t[i]
				case 4:
					t[i] += bits[c.N(len(bits))]
				case 5:
					t[i] = bits[c.N(len(bits))] + t[i]
				}
			}
			wantDecl(c, join(t)+after(c))
		}),
		// pseudo-attributes in any order, any number of times
		batch("order", 8000, 200000, 100, func(c *Ctx, k int) {
			items := []string{"version='1.0'", "encoding='utf-8'", "standalone='yes'", "version=\"1.1\"", "encoding=\"ISO-8859-2\"", "standalone = \"no\"", "x='y'", ""}
			n := k % 5
			s := "<?xml"
			for k /= 5; n > 0; n-- {
				s += c.Pick(" ", " ", " ", "\n", "") + items[k%len(items)]
				k /= len(items)
			}
			wantDecl(c, s+c.Pick("?>", "?>", " ?>")+after(c))
		}),
		// every byte of a declaration deleted, doubled, replaced
		batch("bytes", 1500, 40000, 10, func(c *Ctx, k int) {
			s := join(xmlDecl(c))
			rest := after(c)
			for i := 0; i < len(s); i++ {
				wantDecl(c, s[:i]+s[i+1:]+rest)
				wantDecl(c, s[:i]+s[i:i+1]+s[i:]+rest)
				x := "'\"=?><&;%#-./ \t\n\r\x00\x0b\x0c\x7f\x85aAzZxX019_:"
				j := c.N(len(x))
				wantDecl(c, s[:i]+x[j:j+1]+s[i+1:]+rest)
				wantDecl(c, s[:i]+x[j:j+1]+s[i:]+rest)
				if c.P(1, 4) {
					wantDecl(c, s[:i])
				}
				wantDecl(c, s[:i]+strings.ToUpper(s[i:i+1])+s[i+1:]+rest)
			}
		}),
		// versions and standalone values
		batch("values", 40000, 800000, 200, func(c *Ctx, k int) {
			a := []string{"1", ".", "0", "9", "2", "a", "-", "1.0", " ", ":", "_", "1.", ".0"}
			v := ""
			for n := 1 + c.N(5); n > 0; n-- {
				v += a[c.N(len(a))]
			}
			if c.P(1, 10) {
				v = "1." + strings.Repeat(c.Pick("0", "1", "73"), 1+c.N(3000))
			}
			q := c.Pick("'", "\"")
			wantDecl(c, "<?xml version="+q+v+q+"?>"+after(c))
			b := []string{"y", "e", "s", "n", "o", "yes", "no", "Y", " ", "t", "1", "true", "N", "O"}
			v = ""
			for n := c.N(3); n >= 0; n-- {
				v += b[c.N(len(b))]
			}
			wantDecl(c, "<?xml version='1.0' standalone="+q+v+q+"?>"+after(c))
			e := []string{"u", "t", "f", "-", "8", "utf", "utf-8", "1", ".", "_", "A", " ", "iso-8859-1", "é", "\x00", "9"}
			v = ""
			for n := c.N(4); n >= 0; n-- {
				v += e[c.N(len(e))]
			}
			wantDecl(c, "<?xml version='1.0' encoding="+q+v+q+"?>"+after(c))
		}),
		// declarations anywhere but at the start
		batch("place", 10000, 200000, 100, func(c *Ctx, k int) {
			d := join(xmlDecl(c))
			doc := gen.Doc(c.Rand, gen.Profile{Size: 4, Depth: 2, Misc: true, CData: true, ASCII: true, DTD: c.P(1, 3), Entities: true, ElemDecls: true})
			doc = strings.Replace(doc, "~", "-", -1) // has a meaning in HZ
			i := c.N(len(doc) + 1)
			if c.P(1, 3) {
				i = c.N(4)
			}
			if i > len(doc) {
				i = len(doc)
			}
			wantDecl(c, doc[:i]+d+doc[i:])
			wantDecl(c, c.Pick(" ", "\n", "\t", "<!---->", "\x00", "\xef\xbb\xbf", "\xef\xbb\xbf ", "x", "<?x?>", "\r\n")+d+doc)
			wantDecl(c, d+d+doc)
			wantDecl(c, d+doc)
			wantDecl(c, doc)
			wantDecl(c, c.Pick("<?XML", "<?Xml", "<?xml-", "<?xm", "<? xml", "<?xml:", "<?xmlx", "<!xml", "<xml")+d[5:]+doc)
		}),
		// long ones
		batch("long", 600, 20000, 10, func(c *Ctx, k int) {
			t := xmlDecl(c)
			n := []int{100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16384}[c.N(20)] - c.N(60)
			for i := range t {
				if t[i] != "" && strings.Trim(t[i], " \n\t\r") == "" && c.P(1, 3) {
					t[i] = strings.Repeat(c.Pick(" ", "\n", "\t", "\r\n", "\r"), n)
				} else if t[i] == "=" && c.P(1, 4) {
					t[i] = strings.Repeat(" ", n) + "=" + c.Pick("", strings.Repeat("\n", n))
				}
			}
			wantDecl(c, join(t)+after(c))
			wantDecl(c, strings.TrimSuffix(join(t), "?>")+strings.Repeat(" ", n)+c.Pick("?>", "?>", "?", "")+after(c))
		}),
		// documents that were not parsed
		batch("built", 2000, 50000, 50, func(c *Ctx, k int) {
			v := c.Pick("1.0", "1.1", "1.5", "")
			e := c.Pick("", "", "utf-8", "UTF-8", "utf8", "ISO-8859-1", "shift_jis", "windows1252")
			st := []helium.DocumentStandaloneType{helium.StandaloneExplicitYes, helium.StandaloneExplicitNo, helium.StandaloneImplicitNo}[c.N(3)]
			doc := helium.NewDocument(v, e, st)
			if v == "1.0" && e == "" && st == helium.StandaloneImplicitNo && c.P(1, 2) {
				doc = helium.CreateDocument()
			}
			c.Input(fmt.Sprintf("NewDocument(%q, %q, %d)", v, e, st))
			c.Eval()
			el, err := doc.CreateElement("a")
			if err != nil {
				c.Fail("%s", err)
				return
			}
			if err := doc.SetDocumentElement(el); err != nil {
				c.Fail("%s", err)
				return
			}
			out, err := doc.XMLString()
			if err != nil {
				c.Fail("%s", err)
				return
			}
			r := ref.Parse([]byte(out), ref.Options{AnyEncoding: true})
			if r.Verdict != ref.WF {
				c.Fail("written as %q: %s", out, r.Msg)
				return
			}
			if v == "" {
				v = "1.0"
			}
			if !r.Doc.HasDecl || r.Doc.Version != v || r.Doc.Encoding != e || refStandalone(r.Doc) != st {
				c.Fail("written as %q", out)
				return
			}
			c.Count("built", 1)
			d2, err := parse(c, out)
			if err != nil {
				c.Fail("written as %q, which is rejected: %s", out, oneLine(err))
			} else if m := reports(r.Doc, d2); m != "" {
				c.Fail("written as %q, and then the document reports %s", out, m)
			}
		}),
	}
	register(ck)
}
