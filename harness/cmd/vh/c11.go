package main

import (
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium/verif/gen"
	"github.com/lestrrat-go/helium/verif/hx"
	"github.com/lestrrat-go/helium/verif/ref"
)

// wantAttrs makes sure that the attributes of s are what they should be, to
// the tree and to a handler
func wantAttrs(c *Ctx, s string, again int) {
	r := refParse(s)
	switch r.Verdict {
	case ref.NotWF:
		c.Count("not well-formed", 1)
		c.Seen(s)
		wantReject(c, s, r)
		return
	case ref.Skip:
		c.Count("skipped: "+head(r.Msg, 30), 1)
		return
	}
	c.Seen(s)
	for _, e := range r.Doc.Events {
		if e.Kind == "start" {
			c.Count("attributes", len(e.Node.Attrs))
			c.Count("defaults", len(e.Node.Defaults))
		}
	}
	if wantTree(c, s, r.Doc) == nil {
		return
	}
	want := hx.RefStream(r.Doc)
	var first *hx.Recorder
	for ; again >= 0; again-- {
		rec, _, err := record(c, s, hx.AllCallbacks, c.P(1, 3))
		if err != nil {
			c.Fail("rejected with a handler: %s", oneLine(err))
			return
		}
		if d := hx.Diff(want, hx.Stream(rec.Events)); d != "" {
			c.Fail("events differ: %s", d)
			return
		}
		if first == nil {
			first = rec
			continue
		}
		c.Count("parsed again", 1)
		starts := func(evs []hx.Ev) []string {
			var out []string
			for _, e := range evs {
				if e.Kind == "start" {
					out = append(out, e.Name+" "+e.Raw)
				}
			}
			return out
		}
		if d := hx.Diff(starts(first.Events), starts(rec.Events)); d != "" {
			c.Fail("attributes are in another order the second time: %s", d)
			return
		}
	}
}

func init() {
	types := []string{"CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS", "(x|y)", "NOTATION (x|y)"}
	var decl, use strings.Builder
	for i, t := range types {
		fmt.Fprintf(&decl, " a%d %s #IMPLIED", i, t)
		fmt.Fprintf(&use, " a%d=@", i)
	}
	quote := func(w string) string {
		if strings.Contains(w, "'") {
			return "\"" + w + "\""
		}
		return "'" + w + "'"
	}
	uses := func(w string) string { return strings.Replace(use.String(), "@", quote(w), -1) }
	blanks := []string{" ", "\t", "\n", "\r\n", "\r", "&#32;", "&#9;", "&#10;", "&#xD;", "x", "yz", "&#x20;"}
	ck := &Check{ID: "C11",
		Rule: "a case is a document whose attributes are declared in one way or another, distinct by its text. The reference parser says what their values are and which defaults apply; the tree and the attribute lists that a handler sees are compared with that, and the order of attributes with that of further parses",
	}
	ck.Sections = []Section{
		// values of all types at once
		small("values", blanks, 4, 5, 200, func(c *Ctx, w string) {
			wantAttrs(c, "<!DOCTYPE r [<!ATTLIST r"+decl.String()+">]><r"+uses(w)+"><s"+uses(w)+"/></r>", 0)
		}),
		// default values
		small("default values", append([]string{"'", "&lt;"}, blanks...), 3, 4, 100, func(c *Ctx, w string) {
			var b strings.Builder
			for i, t := range types {
				if t != "ID" {
					fmt.Fprintf(&b, " d%d %s %s f%d %s #FIXED %s", i, t, quote(w), i, t, quote(w))
				}
			}
			wantAttrs(c, "<!DOCTYPE r [<!ATTLIST r"+b.String()+">]><r><r d3='z' f5=' q '/><s/><r/></r>", 0)
		}),
		// values with entities in them
		small("entities", []string{"&e;", "&f;", " ", "\n", "&#32;", "x", "&lt;", "&amp;", "&quot;", "\t"}, 4, 5, 100, func(c *Ctx, w string) {
			wantAttrs(c, "<!DOCTYPE r [<!ENTITY e ' e\n '><!ENTITY f '&#32;&#10;&e;\t'><!ATTLIST r a CDATA #IMPLIED b CDATA '"+w+"'>]><r a='"+w+"' c=\""+w+"\"/>", 0)
		}),
		// what is declared for which element and attribute
		batch("names", 40000, 800000, 50, func(c *Ctx, k int) {
			elems := []string{"a", "b", "p:a", "q:a", "p:b", "aa", "ab", "A"}
			atts := []string{"x", "y", "p:x", "q:x", "xx", "xml:lang", "lang", "xml:x", "p:y", "a", "X", "p:lang"}
			var b strings.Builder
			b.WriteString("<!DOCTYPE a [")
			for n := c.N(5); n > 0; n-- {
				b.WriteString("<!ATTLIST " + elems[c.N(len(elems))])
				for m := c.N(4); m > 0; m-- {
					at := atts[c.N(len(atts))]
					v := c.Pick("'v'", "' v  w '", "'\nv\t'", "#IMPLIED", "#REQUIRED", "#FIXED 'z'", "'&#32;u'")
					if c.P(1, 2) {
						v = "#IMPLIED"
					}
					b.WriteString("\n" + at + " " + c.Pick("CDATA", "CDATA", "NMTOKENS", "NMTOKEN", "ID", "IDREFS", "(v|w|z)", "NOTATION ( v |w)") + " " + v)
				}
				b.WriteString(">")
			}
			b.WriteString("]>")
			var elem func(depth int)
			elem = func(depth int) {
				name := elems[c.N(len(elems))]
				if depth == 3 {
					name = c.Pick("a", "p:a", "b")
				}
				b.WriteString("<" + name)
				if depth == 3 {
					b.WriteString(" xmlns:p='P' xmlns:q='Q'")
				}
				seen := map[string]bool{}
				for n := c.N(4); n > 0; n-- {
					at := atts[c.N(len(atts))]
					if !seen[at] || c.P(1, 50) {
						b.WriteString(" " + at + "='" + c.Pick(" s ", "s", "  s\t t\n", "&#32;s&#32;&#32;t", "", " ", "\r\n s") + "'")
					}
					seen[at] = true
				}
				b.WriteString(">")
				for n := c.N(3); n > 0 && depth > 0; n-- {
					elem(depth - 1)
				}
				b.WriteString("</" + name + ">")
			}
			elem(3)
			c.Sample(b.String())
			wantAttrs(c, b.String(), 1)
		}),
		// order
		batch("order", 300, 6000, 3, func(c *Ctx, k int) {
			n := 2 + c.N(40)
			var b strings.Builder
			b.WriteString("<!DOCTYPE a [")
			if c.P(1, 2) {
				b.WriteString("<!ATTLIST a")
				for i := 0; i < n; i++ {
					fmt.Fprintf(&b, " d%d CDATA '%d'", i*7%41, i)
				}
				b.WriteString(">")
			} else {
				for i := 0; i < n; i++ {
					fmt.Fprintf(&b, "<!ATTLIST a d%d %s '%d'>", i*7%41, c.Pick("CDATA", "NMTOKEN"), i)
				}
			}
			b.WriteString("]><a>")
			for j := 0; j < 4; j++ {
				b.WriteString("<a")
				for i := 0; i < 41; i++ {
					if c.P(1, 10) {
						fmt.Fprintf(&b, " d%d='s'", i)
					}
				}
				if c.P(1, 2) {
					b.WriteString(" z='1' xmlns:p='u' p:x='y' xmlns='v' p:q='' xmlns:q='w'")
				}
				b.WriteString("/>")
			}
			b.WriteString("</a>")
			wantAttrs(c, b.String(), 6)
		}),
		batch("documents", 40000, 800000, 50, func(c *Ctx, k int) {
			p := gen.Random(c.Rand)
			p.DTD, p.AttDecls = true, true
			s := gen.Doc(c.Rand, p)
			wantAttrs(c, s, 1)
			// other types, and other blanks
			t := c.Pick("CDATA", "NMTOKENS", "NMTOKEN", "IDREFS")
			wantAttrs(c, strings.Replace(s, c.Pick("CDATA", "NMTOKENS", "IDREF", "ENTITY"), t, 1+c.N(2)), 0)
			wantAttrs(c, strings.Replace(s, " ", c.Pick("  ", "\n", "\t", " \r\n"), 1+c.N(10)), 0)
		}),
	}
	register(ck)
}
