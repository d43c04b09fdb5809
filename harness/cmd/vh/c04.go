package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/encoding"
	"github.com/lestrrat-go/helium/verif/gen"
	"github.com/lestrrat-go/helium/verif/hx"
	"github.com/lestrrat-go/helium/verif/ref"
)

func standalone(d *helium.Document) int {
	s := int(d.Standalone())
	if s == helium.StandaloneNoXMLDecl {
		// serialising writes an XML declaration
		s = helium.StandaloneImplicitNo
	}
	return s
}

func version(d *helium.Document) string {
	if v := d.Version(); v != "" {
		return v
	}
	return "1.0"
}

// slowWriter takes what it gets in a buffer that it clears right away
type slowWriter struct{ b bytes.Buffer }

func (w *slowWriter) Write(b []byte) (int, error) {
	w.b.Write(append([]byte(nil), b...))
	return len(b), nil
}

// roundTrip serialises what s is parsed into, and parses it again
func roundTrip(c *Ctx, s string) {
	r := refParse(s)
	if r.Verdict == ref.NotWF || r.Verdict == ref.Skip && strings.Contains(r.Msg, "parameter") {
		return
	}
	doc, err := parse(c, s)
	if err != nil || doc == nil {
		return
	}
	before := hx.Doc(doc)
	x, err := doc.XMLString()
	if err != nil {
		c.Fail("can't be serialised: %s", oneLine(err))
		return
	}
	c.Count("round trips", 1)
	if d := hx.Diff(before, hx.Doc(doc)); d != "" {
		c.Fail("serialising changed the tree: %s", d)
		return
	}
	if m := hx.Links(doc); m != "" {
		c.Fail("links after serialising: %s", m)
		return
	}
	doc2, err := helium.Parse([]byte(x))
	if err != nil || doc2 == nil {
		c.Fail("what was written can't be parsed: %s\nwritten: %q", oneLine(err), head(x, 2000))
		return
	}
	if d := hx.Diff(before, hx.Doc(doc2)); d != "" {
		c.Fail("tree differs after serialising and parsing again: %s\nwritten: %q", d, head(x, 2000))
		return
	}
	if standalone(doc) != standalone(doc2) || version(doc) != version(doc2) || doc.Encoding() != doc2.Encoding() {
		c.Fail("XML declaration differs: %q %q %d, then %q %q %d", version(doc), doc.Encoding(), standalone(doc), version(doc2), doc2.Encoding(), standalone(doc2))
		return
	}
	x2, err := doc2.XMLString()
	if err != nil || x != x2 {
		c.Fail("second serialisation differs (%v):\n%q\n%q", err, head(x, 2000), head(x2, 2000))
		return
	}
	if x3, err := doc.XMLString(); err != nil || x3 != x {
		c.Fail("serialising the document again gives something else (%v)", err)
		return
	}
	var w slowWriter
	if err := doc.XML(&w); err != nil || w.b.String() != x {
		c.Fail("Document.XML and XMLString differ (%v)", err)
		return
	}
	w.b.Reset()
	if err := (&helium.Dumper{}).DumpDoc(&w, doc); err != nil || w.b.String() != x {
		c.Fail("DumpDoc and XMLString differ (%v)", err)
		return
	}
	if r.Verdict == ref.WF {
		c.Seen(shape(r.Doc))
		r2 := refParse(x)
		if r2.Verdict != ref.WF {
			c.Fail("what was written is not well-formed: %s (offset %d)\nwritten: %q", r2.Msg, r2.Pos, head(x, 2000))
			return
		}
		if d := hx.Diff(hx.RefDoc(r.Doc), hx.RefDoc(r2.Doc)); d != "" {
			c.Fail("what was written is another document: %s\nwritten: %q", d, head(x, 2000))
			return
		}
		if d := hx.DiffDecls(r.Doc.Decls, r2.Doc.Decls); d != "" {
			c.Fail("what was written declares something else: %s\nwritten: %q", d, head(x, 2000))
			return
		}
		c.Count("declarations", len(r2.Doc.Decls))
		if a, b := fmt.Sprintf("%q %q %q", refVersion(r.Doc), r.Doc.Encoding, r.Doc.Standalone), fmt.Sprintf("%q %q %q", refVersion(r2.Doc), r2.Doc.Encoding, r2.Doc.Standalone); a != b {
			c.Fail("XML declaration that was written differs: want %s, got %s", a, b)
			return
		}
		fragment(c, doc, r.Doc)
	}
	if !c.Failed() && doc.Encoding() == "utf8" && len(x) < 20000 && c.P(1, 2) {
		parts(c, doc, x)
	}
}

// parts serialises nodes on their own: each is what the document has in that place
func parts(c *Ctx, doc *helium.Document, x string) {
	dump := func(n helium.Node) string {
		var w slowWriter
		if err := (&helium.Dumper{}).DumpNode(&w, n); err != nil {
			c.Fail("%s can't be serialised on its own: %s", n.Type(), oneLine(err))
		}
		return w.b.String()
	}
	s := dump(doc)
	for n := doc.FirstChild(); n != nil; n = n.NextSibling() {
		s += dump(n) + "\n"
	}
	if s != x {
		c.Fail("the nodes of the document on their own are %q, together %q", head(s, 2000), head(x, 2000))
		return
	}
	left := 40
	var visit func(n helium.Node)
	visit = func(n helium.Node) {
		left--
		var kids, sep strings.Builder
		for k := n.FirstChild(); k != nil; k = k.NextSibling() {
			kids.WriteString(dump(k))
			sep.WriteString(dump(k))
			if t := k.Type(); t == helium.CommentNode || t == helium.ProcessingInstructionNode {
				sep.WriteString("\n")
			}
		}
		all := dump(n)
		switch n := n.(type) {
		case *helium.Element:
			c.Count("elements on their own", 1)
			a, err := n.XMLString()
			var w slowWriter
			if e := n.XML(&w); err != nil || e != nil || a != all || w.b.String() != all {
				c.Fail("Element.XMLString, Element.XML and DumpNode differ: %q, %q, %q (%v, %v)", head(a, 1000), head(w.b.String(), 1000), head(all, 1000), err, e)
				return
			}
			end := "/>"
			if n.FirstChild() != nil {
				end = ">" + kids.String() + "</" + n.Name() + ">"
			}
			if !strings.HasPrefix(all, "<"+n.Name()) || !strings.HasSuffix(all, end) {
				c.Fail("element %s is written %q, but its children %q", n.Name(), head(all, 1000), head(kids.String(), 1000))
				return
			}
		case *helium.DTD:
			c.Count("document types on their own", 1)
			if n.FirstChild() != nil && !strings.HasSuffix(all, "[\n"+sep.String()+"]>") || !strings.HasPrefix(all, "<!DOCTYPE "+n.Name()) {
				c.Fail("document type %s is written %q, but its children %q", n.Name(), head(all, 1000), head(sep.String(), 1000))
				return
			}
		}
		for k := n.FirstChild(); k != nil && left > 0 && !c.Failed(); k = k.NextSibling() {
			switch k.(type) {
			case *helium.Element, *helium.DTD:
				visit(k)
			}
		}
	}
	visit(doc)
}

func refVersion(d *ref.Doc) string {
	if d.HasDecl {
		return d.Version
	}
	return "1.0"
}

func rootOf(d *helium.Document) *helium.Element {
	for n := d.FirstChild(); n != nil; n = n.NextSibling() {
		if e, ok := n.(*helium.Element); ok {
			return e
		}
	}
	return nil
}

// fragment serialises the root element on its own
func fragment(c *Ctx, doc *helium.Document, rd *ref.Doc) {
	if rd.HasDTD || doc.Encoding() != "utf8" {
		return
	}
	root := rootOf(doc)
	x, err := root.XMLString()
	if err != nil {
		c.Fail("element can't be serialised: %s", oneLine(err))
		return
	}
	r := refParse(x)
	if r.Verdict != ref.WF {
		c.Fail("serialised element: %s %s\nwritten: %q", r.Verdict, r.Msg, head(x, 2000))
		return
	}
	if d := hx.Diff(hx.RefNode(rd.Root, 0), hx.RefNode(r.Doc.Root, 0)); d != "" {
		c.Fail("serialised element differs: %s\nwritten: %q", d, head(x, 2000))
	}
}

// literalTokens are for the values of entities and defaults
var literalTokens = []string{"v", " ", "\n", "\t", "\r", "&lt;", "&#60;", "&#38;", "&#38;#60;", "&#38;lt;", "&#38;amp;", "&amp;", "&gt;", ">", "'", "&#34;", "&#39;", "&quot;", "&#37;", "&#13;", "&#10;", "&#9;", "&#32;", "&f;", "\u00e9", "&#x10000;", "&#38;f;", ";"}

var errWriter = errors.New("writer is full")

// fullWriter fails after n bytes
type fullWriter struct {
	n    int
	more int // writes after the failure
}

func (w *fullWriter) Write(b []byte) (int, error) {
	if w.n < 0 {
		w.more++
		return 0, errWriter
	}
	if len(b) > w.n {
		n := w.n
		w.n = -1
		return n, errWriter
	}
	w.n -= len(b)
	return len(b), nil
}

// repertoire are texts for encodings
var repertoire = map[string]string{
	"iso-8859-1": "\u00e9\u00ff\u00a0\u00d7", "iso-8859-2": "\u0159\u0141", "iso-8859-5": "\u0416\u0457", "iso-8859-7": "\u03a9\u03ac", "iso-8859-15": "\u20ac\u0153", "windows1252": "\u20ac\u2026\u00e9", "windows1251": "\u0416\u0403", "koi8r": "\u0436\u2580", "cp437": "\u2593\u00e9\u03b1",
	"euc-jp": "\u65e5\u672c\u30a2\u3042", "shift_jis": "\u65e5\u672c\u30a2\u8868", "big5": "\u4e2d\u529f", "euc-kr": "\ud55c\uae00", "macintosh": "\u00e9\u2020",
}

var repertoireNames = []string{"iso-8859-1", "iso-8859-2", "iso-8859-5", "iso-8859-7", "iso-8859-15", "windows1252", "windows1251", "koi8r", "cp437", "euc-jp", "shift_jis", "big5", "euc-kr", "macintosh"}

func init() {
	ck := &Check{ID: "C04",
		Rule: "a case is a document that the parser accepts; distinct by the structure of its events. It is serialised, parsed again (by helium and by the reference), compared, and serialised again",
	}
	small := func(name string, tokens []string, n int, quick, thorough int, before, after string) Section {
		return batch(name, quick, thorough, 300, func(c *Ctx, k int) {
			if pow(len(tokens), n) > quick && c.tier != "thorough" {
				k = c.N(pow(len(tokens), n))
			}
			roundTrip(c, before+words(tokens, k%pow(len(tokens), n), n)+after)
		})
	}
	ck.Sections = []Section{
		batch("gen", 40000, 800000, 50, func(c *Ctx, k int) {
			s := gen.Doc(c.Rand, gen.Random(c.Rand))
			c.Sample(s)
			roundTrip(c, s)
		}),
		batch("dtd", 20000, 400000, 50, func(c *Ctx, k int) {
			p := gen.Random(c.Rand)
			p.DTD, p.Entities, p.AttDecls, p.ElemDecls = true, true, true, true
			roundTrip(c, gen.Doc(c.Rand, p))
		}),
		batch("mutant", 20000, 400000, 50, func(c *Ctx, k int) {
			s, _ := genWF(c, gen.Random(c.Rand))
			for j := 0; j < 6; j++ {
				roundTrip(c, gen.Mutate(c.Rand, s))
			}
		}),
		small("content", contentTokens, 3, pow(len(contentTokens), 3), pow(len(contentTokens), 3), "<a>", "</a>"),
		small("value", valueTokens, 3, pow(len(valueTokens), 3), pow(len(valueTokens), 3), "<a b=\"", "\" c='1'/>"),
		small("tag", tagTokens, 4, 8000, pow(len(tagTokens), 4), "<a", "/>"),
		small("misc", miscTokens, 4, 3000, pow(len(miscTokens), 4), "<?xml version='1.0'?>", "<a/>"),
		small("entity", literalTokens, 3, pow(len(literalTokens), 3), pow(len(literalTokens), 3), "<!DOCTYPE a[<!ENTITY f 'F'><!ENTITY e \"", "\">]><a b='&e;'>&e;</a>"),
		small("entity-single", literalTokens, 2, pow(len(literalTokens), 2), pow(len(literalTokens), 2), "<!DOCTYPE a[<!ENTITY f 'F'><!ENTITY e '\"", "'>]><a>&e;</a>"),
		small("pentity", literalTokens, 2, pow(len(literalTokens), 2), pow(len(literalTokens), 2), "<!DOCTYPE a[<!ENTITY f 'F'><!ENTITY % e \"", "\">]><a/>"),
		small("default", literalTokens, 3, pow(len(literalTokens), 3), pow(len(literalTokens), 3), "<!DOCTYPE a[<!ENTITY f 'F'><!ATTLIST a b CDATA \"", "\">]><a/>"),
		small("default-fixed", literalTokens, 2, pow(len(literalTokens), 2), pow(len(literalTokens), 2), "<!DOCTYPE a[<!ENTITY f 'F'><!ATTLIST a b NMTOKENS #FIXED '\"", "'>]><a/>"),
		batch("chars", 0x110000/256*7, 0x110000/256*7, 50, func(c *Ctx, k int) {
			x := [][2]string{{"<a>", "</a>"}, {"<a b=\"", "\"/>"}, {"<a><!--", "--></a>"}, {"<a><?p ", "?></a>"}, {"<!DOCTYPE a[<!ENTITY e '", "'>]><a>&e;</a>"}, {"<!DOCTYPE a[<!ATTLIST a b CDATA '", "'>]><a/>"}, {"<a xmlns:p='", "'/>"}}[k%7]
			var b strings.Builder
			for r := rune(k / 7 * 256); r < rune(k/7*256+256); r++ {
				if ref.IsChar(r) && !strings.ContainsRune("<&-?>%'\"\r", r) {
					b.WriteRune(r)
				}
			}
			roundTrip(c, x[0]+b.String()+x[1])
			if k%7 != 2 && k%7 != 3 {
				b.Reset()
				for r := rune(k / 7 * 256); r < rune(k/7*256+256); r++ {
					if ref.IsChar(r) && !strings.ContainsRune("<&%", r) {
						fmt.Fprintf(&b, "&#%d;", r)
					}
				}
				roundTrip(c, x[0]+b.String()+x[1])
			}
		}),
		batch("encoding", 12000, 200000, 50, func(c *Ctx, k int) {
			// every encoding has characters that another one has not, and
			// these are there as references
			name := repertoireNames[k%len(repertoireNames)]
			own := []rune(repertoire[name])
			p := gen.Random(c.Rand)
			p.ASCII, p.Decl, p.BOM = true, false, false
			s, _ := genWF(c, p)
			var b strings.Builder
			b.WriteString("<?xml version='1.0' encoding='" + name + "'?>")
			in := false // within a tag, comment or the like
			for i := 0; i < len(s); i++ {
				if s[i] == '<' {
					in = true
				}
				if !in && i > 0 && !strings.ContainsAny(s, "&") && s[i-1] != '>' && c.P(1, 6) {
					if c.P(1, 2) {
						b.WriteRune(own[c.N(len(own))])
					} else {
						o := []rune(repertoire[repertoireNames[c.N(len(repertoireNames))]])
						fmt.Fprintf(&b, "&#x%x;", o[c.N(len(o))])
					}
				}
				b.WriteByte(s[i])
				if s[i] == '>' {
					in = false
				}
			}
			s = b.String()
			s = strings.Replace(s, "<!--", "<!--"+string(own), -1)
			if ref.Parse([]byte(s), ref.Options{AnyEncoding: true}).Verdict != ref.WF {
				return
			}
			e, err := encoding.Load(name).NewEncoder().String(s)
			if err != nil {
				return
			}
			c.Count("encoding "+name, 1)
			roundTrip(c, e)
		}),
		// a writer that fails at any point
		batch("writer", 600, 6000, 10, func(c *Ctx, k int) {
			p := gen.Random(c.Rand)
			p.Size = 5
			s, _ := genWF(c, p)
			doc, err := parse(c, s)
			if err != nil || doc == nil {
				return
			}
			x, err := doc.XMLString()
			if err != nil {
				c.Fail("can't be serialised: %s", oneLine(err))
				return
			}
			rx, err := rootOf(doc).XMLString()
			if err != nil {
				c.Fail("root can't be serialised: %s", oneLine(err))
				return
			}
			for i := 0; i < len(x); i += 1 + c.N(3) {
				w := &fullWriter{n: i}
				if err := doc.XML(w); !errors.Is(err, errWriter) {
					c.Fail("the writer failed after %d of %d bytes, and Document.XML returned %v", i, len(x), err)
					return
				}
				c.Count("writer faults", 1)
			}
			for i := 0; i < len(rx); i += 1 + c.N(3) {
				w := &fullWriter{n: i}
				if err := rootOf(doc).XML(w); !errors.Is(err, errWriter) {
					c.Fail("the writer failed after %d of %d bytes, and Element.XML returned %v", i, len(rx), err)
					return
				}
				c.Count("writer faults", 1)
			}
		}),
	}
	register(ck)
}
