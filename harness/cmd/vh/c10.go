package main

import (
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium/verif/gen"
	"github.com/lestrrat-go/helium/verif/hx"
	"github.com/lestrrat-go/helium/verif/ref"
)

// wantDecls makes sure that the declarations of s are kept, or that it is rejected
func wantDecls(c *Ctx, s string) {
	r := refParse(s)
	switch r.Verdict {
	case ref.NotWF:
		c.Seen(s)
		c.Count(fault(r.Msg), 1)
		wantReject(c, s, r)
		return
	case ref.Skip:
		c.Count("skipped", 1)
		return
	}
	c.Seen(s)
	c.Count("well-formed", 1)
	c.Count("declarations", len(r.Doc.Decls))
	for _, d := range r.Doc.Decls {
		if d.Model != nil {
			c.Count("content models", 1)
		}
	}
	doc := wantTree(c, s, r.Doc)
	if doc == nil {
		return
	}
	out, err := doc.XMLString()
	if err != nil {
		c.Fail("not serialised: %s", oneLine(err))
		return
	}
	r2 := refParse(out)
	if r2.Verdict != ref.WF {
		c.Fail("serialised as %q: %s, %s", head(out, 800), r2.Verdict, r2.Msg)
		return
	}
	if r2.Doc.DTDName != r.Doc.DTDName {
		c.Fail("serialised as %q: the name is %s", head(out, 800), r2.Doc.DTDName)
		return
	}
	if d := hx.DiffDecls(r.Doc.Decls, r2.Doc.Decls); d != "" {
		c.Fail("serialised as %q: %s", head(out, 800), d)
		return
	}
	rec, _, err := record(c, s, hx.AllCallbacks, false)
	if err != nil {
		c.Fail("rejected with a handler: %s", oneLine(err))
		return
	}
	if d := hx.Diff(hx.RefStream(r.Doc), hx.Stream(rec.Events)); d != "" {
		c.Fail("events differ: %s", d)
		return
	}
	// what is written means the same to the parser
	doc2, err := parse(c, out)
	if err != nil {
		c.Fail("serialised as %q, which is rejected: %s", head(out, 800), oneLine(err))
		return
	}
	if again, err := doc2.XMLString(); err != nil || again != out {
		c.Fail("serialised as %q, and again as %q", head(out, 600), head(again, 600))
	}
}

// small is exhaustive over up to n of the tokens
func small(name string, tokens []string, n, deep, per int, f func(c *Ctx, w string)) Section {
	total, all := 0, 0
	for i := 0; i <= deep; i++ {
		if i <= n {
			total += pow(len(tokens), i)
		}
		all += pow(len(tokens), i)
	}
	return batch(name, total, all, per, func(c *Ctx, k int) {
		n := 0
		for k >= pow(len(tokens), n) {
			k -= pow(len(tokens), n)
			n++
		}
		f(c, words(tokens, k, n))
	})
}

func init() {
	types := []string{"CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS", "(x)", "(x|y)", "( x | y | -1 )", "(x|y|z|.z)", "NOTATION (x)", "NOTATION\n( x |y|\t_z-a)"}
	defs := []string{"#REQUIRED", "#IMPLIED", "'x'", "#FIXED 'y'", "\"  x \"", "''", "'x y'", "#FIXED\n\"x'y\"", "'&lt;\"&#38;&#10;'", "'a&gt;'"}
	ck := &Check{ID: "C10",
		Rule: "a case is a document with an internal subset, distinct by its text. The reference parser says whether it is well-formed and what it declares; the declarations of the serialised document are compared with that in order, content models by language equivalence (product of their automata), and so are the SAX events",
	}
	ck.Sections = []Section{
		small("models", []string{"a", "b", "(", ")", ",", "|", "?", "*", "+", " "}, 5, 6, 500, func(c *Ctx, w string) {
			wantDecls(c, "<!DOCTYPE r [<!ELEMENT r ("+w+")>]><r/>")
		}),
		small("mixed", []string{"#PCDATA", "a", "b", "(", ")", "|", "*", " ", ",", ")*", "|c"}, 4, 5, 500, func(c *Ctx, w string) {
			wantDecls(c, "<!DOCTYPE r [<!ELEMENT r ("+w+">]><r/>")
		}),
		small("elements", []string{"a", " ", "EMPTY", "ANY", "(b)", "(#PCDATA)", "\n", ":", "-", ">", "<!ELEMENT", "%p;", "(b,c)*"}, 4, 5, 500, func(c *Ctx, w string) {
			wantDecls(c, "<!DOCTYPE r [<!ELEMENT "+w+">]><r/>")
		}),
		small("attributes", []string{" b", " CDATA", " ID", " NMTOKENS", " (x|y)", " (", "|", ")", " #REQUIRED", " #IMPLIED", " #FIXED", " 'x'", " ' x  y '", "\"&#60;\"", " ", "x", " b:c", " NOTATION", "\n", " '<'"}, 4, 4, 500, func(c *Ctx, w string) {
			wantDecls(c, "<!DOCTYPE r [<!ATTLIST r"+w+">]><r/>")
		}),
		small("enumerations", []string{"NOTATION", " ", "(", "x", "|", ")", " 'x'", "y1", "-", "\n", " #IMPLIED"}, 5, 6, 500, func(c *Ctx, w string) {
			wantDecls(c, "<!DOCTYPE r [<!ATTLIST r a "+w+" b CDATA #IMPLIED>]><r/>")
			wantDecls(c, "<!DOCTYPE r [<!ATTLIST r a NOTATION (x"+w+") 'y'>]><r/>")
			wantDecls(c, "<!DOCTYPE r [<!ATTLIST r a (x"+w+" #IMPLIED>]><r/>")
		}),
		small("entities", []string{"e", "f", " ", "% ", "'x'", "\"x'y\"", "'&#38;'", "'&e;'", "'&lt;'", "'%'", "'a%b;'", "SYSTEM ", "''", "\"", "'<b/>'", "'&#38;lt;'", "'&'", "\n", "%"}, 4, 4, 500, func(c *Ctx, w string) {
			wantDecls(c, "<!DOCTYPE r [<!ENTITY "+w+">]><r/>")
			wantDecls(c, "<!DOCTYPE r [<!ENTITY e "+w+"><!ENTITY e 'second'>]><r/>")
		}),
		small("subset", []string{" ", "\n", "<!--c-->", "<?p d?>", "<!ELEMENT a ANY>", "<!ELEMENT b (c,(d|e)*)>", "<!ATTLIST a b CDATA 'v' c ID #IMPLIED>", "<!ATTLIST a b NMTOKEN ' w '>", "<!ATTLIST b>", "<!ENTITY e 'x&#38;y'>", "<!ENTITY e 'z'>", "<!ENTITY % p 'q'>", "x", "<!--", "]", "<a/>", "<!X>", "<![INCLUDE[]]>"}, 3, 4, 500, func(c *Ctx, w string) {
			wantDecls(c, "<!DOCTYPE r ["+w+"]><r/>")
		}),
		small("doctype", []string{" ", "\n", "r", "[", "]", ">", "<!ELEMENT r ANY>", "SYSTEM", "'x'", "PUBLIC", ":", "<r/>", "<!--c-->", "%p;", "[]"}, 4, 5, 500, func(c *Ctx, w string) {
			wantDecls(c, "<!DOCTYPE"+w+"><r/>")
		}),
		// every type with every default, and two of them in one declaration
		batch("types", pow(len(types)*len(defs), 2), pow(len(types)*len(defs), 2), 200, func(c *Ctx, k int) {
			one := func(k int) string { return types[k%len(types)] + " " + defs[k/len(types)] }
			n := len(types) * len(defs)
			wantDecls(c, "<!DOCTYPE r [<!ATTLIST r a "+one(k%n)+"\n b "+one(k/n)+">]><r/>")
			wantDecls(c, "<!DOCTYPE r [<!ATTLIST r p:a "+one(k%n)+"><!ATTLIST s a "+one(k/n)+">]><r/>")
		}),
		// every character in a literal
		batch("literals", 0x110000/64, 0x110000/64, 50, func(c *Ctx, k int) {
			var raw, refs, val strings.Builder
			for r := rune(k * 64); r < rune(k*64+64); r++ {
				if !ref.IsChar(r) {
					continue
				}
				if !strings.ContainsRune("%&'\"<\r", r) {
					raw.WriteRune(r)
					raw.WriteByte('a')
				}
				fmt.Fprintf(&refs, "&#%d;", r)
				if r != '<' && r != '&' {
					fmt.Fprintf(&val, "&#x%X;b", r)
				}
				c.Count("characters in literals", 1)
			}
			wantDecls(c, "<!DOCTYPE r [<!ENTITY e '"+raw.String()+"\"'><!ENTITY f \""+raw.String()+refs.String()+"'\"><!ATTLIST r a CDATA '"+raw.String()+"\"' b CDATA \""+val.String()+"'&lt;&amp;\" c NMTOKENS '"+val.String()+"'><!--"+raw.String()+"--><?p "+raw.String()+"?>]><r/>")
		}),
		batch("random models", 40000, 1000000, 100, func(c *Ctx, k int) {
			m := gen.ModelText(c.Rand, c.N(6), c.P(1, 2))
			if c.P(1, 3) { // few names, so that it matters how they are grouped
				m = gen.ModelText(c.Rand, 1+c.N(4), true)
				for _, n := range strings.FieldsFunc(m, func(r rune) bool { return strings.ContainsRune("()|,?*+ \t\n", r) }) {
					if len(n) > 1 {
						m = strings.Replace(m, n, c.Pick("a", "b", "c"), 1)
					}
				}
			}
			c.Sample(m)
			wantDecls(c, "<!DOCTYPE r [<!ELEMENT r "+m+">]><r/>")
		}),
		batch("large models", 200, 2000, 4, func(c *Ctx, k int) {
			n := 1 + c.N(400)
			var b strings.Builder
			op := c.Pick(",", "|")
			switch k % 4 {
			case 0:
				for i := 0; i < n; i++ {
					fmt.Fprintf(&b, "%sn%d%s", op, i, c.Pick("", "?", "*", "+"))
				}
				wantDecls(c, "<!DOCTYPE r [<!ELEMENT r ("+b.String()[1:]+")>]><r/>")
			case 1:
				for i := 0; i < n; i++ {
					fmt.Fprintf(&b, "|n%d", i)
				}
				wantDecls(c, "<!DOCTYPE r [<!ELEMENT r (#PCDATA"+b.String()+")*><!ATTLIST r a ("+b.String()[1:]+") #IMPLIED>]><r/>")
			case 2:
				d := 1 + c.N(120)
				s, e := "", ""
				for i := 0; i < d; i++ {
					s += "(" + c.Pick("", "", "a,", "b?,", "(c|d)*,")
					e = c.Pick("", "", ",e", ",f+") + ")" + c.Pick("", "", "?", "*", "+") + e
				}
				wantDecls(c, "<!DOCTYPE r [<!ELEMENT r "+s+"x"+e+">]><r/>")
			case 3:
				for i := 0; i < n; i++ {
					fmt.Fprintf(&b, "<!ELEMENT e%d %s><!ATTLIST e%d a%d %s %s><!ENTITY x%d 'y%d'>", i, c.Pick("ANY", "EMPTY", "(a|b)"), c.N(n), c.N(n), types[c.N(2)], defs[c.N(2)], c.N(n), i)
				}
				wantDecls(c, "<!DOCTYPE r ["+b.String()+"]><r/>")
			}
		}),
		batch("documents", 40000, 1000000, 50, func(c *Ctx, k int) {
			p := gen.Random(c.Rand)
			p.DTD = true
			p.Size = 2
			p.Entities, p.AttDecls, p.ElemDecls = c.P(2, 3), c.P(2, 3), c.P(2, 3)
			s := gen.Doc(c.Rand, p)
			wantDecls(c, s)
			// a change in the subset
			i, j := strings.Index(s, "<!DOCTYPE"), strings.LastIndex(s, "]")
			if i < 0 || j < i {
				return
			}
			for n := 0; n < 3; n++ {
				wantDecls(c, s[:i]+gen.Mutate1(c.Rand, s[i:j])+s[j:])
			}
		}),
	}
	register(ck)
}
