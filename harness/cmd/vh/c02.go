package main

import (
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium/verif/gen"
	"github.com/lestrrat-go/helium/verif/ref"
)

// what the content of an element is put together from
var contentTokens = []string{"t", " ", "\n", "]", ">", "/>", "&lt;", "&#x41;", "&amp;", "<b/>", "<b>x</b>", "<b c='1'> </b>", "<!--c-->", "<?p d?>", "<![CDATA[]]>", "<![CDATA[<x>&]]>", "\r\n", "\r", "\u00e9", "\"", "-->", "?>", "\U00010000", "&#13;"}

// and an attribute value
var valueTokens = []string{"v", " ", "\n", "\t", "\r\n", "\r", "&lt;", "&#60;", "&#10;", "&#xD;", "&#9;", "&#32;", "&amp;", "&quot;", "&apos;", ">", "'", "\"", "/>", "=", "\u00e9", "\U0001F600", "]]>", "--"}

// and a start tag
var tagTokens = []string{" ", "\n", " x='1'", "\ty=\"2\"", " z = '3'", " p:x='4'", " xmlns:p='u'", " xmlns='v'", " xmlns=''", " xml:lang='en'", " w='>'", " v='/>'", "/"}

// and a prolog or an epilog
var miscTokens = []string{" ", "\n", "<!--c-->", "<?p d?>", "<!---->", "<?p?>", "\r\n", "<!-- - -->", "<?p  ? ?>"}

// judge says what should become of s, and makes sure that it does
func judge(c *Ctx, s string, wf, bad bool) {
	r := refParse(s)
	switch r.Verdict {
	case ref.WF:
		if wf {
			c.Seen(s)
			c.Count("well-formed", 1)
			wantTree(c, s, r.Doc)
		}
	case ref.NotWF:
		if bad {
			c.Seen(s)
			c.Count(fault(r.Msg), 1)
			wantReject(c, s, r)
		}
	}
}

// smallSections are exhaustive over short sequences of tokens
func smallSections(wf, bad bool) []Section {
	mk := func(name string, tokens []string, n, thorough int, before, after string) Section {
		total := 0
		for i := 0; i <= n; i++ {
			total += pow(len(tokens), i)
		}
		deep := total
		for i := n + 1; i <= thorough; i++ {
			deep += pow(len(tokens), i)
		}
		return batch(name, total, deep, 500, func(c *Ctx, k int) {
			n := 0
			for k >= pow(len(tokens), n) {
				k -= pow(len(tokens), n)
				n++
			}
			judge(c, before+words(tokens, k, n)+after, wf, bad)
		})
	}
	return []Section{
		mk("content", contentTokens, 3, 4, "<a>", "</a>"),
		mk("content-mixed", contentTokens, 2, 3, "<r>x<a>", "</a><?q?></r>"),
		mk("value", valueTokens, 3, 4, "<a b=\"", "\" c='1'/>"),
		mk("value-single", valueTokens, 2, 3, "<a b='", "'></a>"),
		mk("tag", tagTokens, 4, 5, "<a", ">t</a>"),
		mk("prolog", miscTokens, 4, 5, "", "<a/>"),
		mk("prolog-decl", miscTokens, 3, 4, "<?xml version='1.0'?>", "<!DOCTYPE a><a/>"),
		mk("epilog", miscTokens, 4, 5, "<a/>", ""),
	}
}

// alphabet is for exhaustive short strings
var alphabet = strings.Split("<>/&;#xa\"'= !-?[]1", "")

var stringContexts = [][2]string{
	{"<a>", "</a>"}, {"<a", "></a>"}, {"<a b='", "'/>"}, {"<a b=", "/>"}, {"", "<a/>"}, {"<a/>", ""}, {"<a><", "</a>"}, {"<a><!", "></a>"}, {"<a>&", "</a>"}, {"<a>&#", ";</a>"},
	{"<!DOCTYPE a [", "]><a/>"}, {"<!DOCTYPE", "><a/>"}, {"<a></a", ">"}, {"<a><?p", "?></a>"}, {"<a><!--", "--></a>"}, {"<a><![CDATA[", "]]></a>"},
}

// stringSection is exhaustive over the strings of n characters
func stringSection(name string, n int, wf, bad bool) Section {
	per := pow(len(alphabet), n)
	total := per * len(stringContexts)
	return batch(name, total, total, 2000, func(c *Ctx, k int) {
		x := stringContexts[k/per]
		judge(c, x[0]+words(alphabet, k%per, n)+x[1], wf, bad)
	})
}

var sweepContexts = [][2]string{{"<a>", "</a>"}, {"<a b=\"", "\"/>"}, {"<a><!--", "--></a>"}, {"<a><?p ", "?></a>"}, {"<a><![CDATA[", "]]></a>"}}

func init() {
	ck := &Check{ID: "C02",
		Rule: "a case is a document that the reference parser accepts; distinct by text (exhaustive sections) or by the structure of its events (generated). The tree that helium makes, read through the node accessors, is compared with the one of the reference, node by node, and all the links are checked",
	}
	ck.Sections = []Section{
		batch("gen", 120000, 1500000, 50, func(c *Ctx, k int) {
			s, rd := genWF(c, gen.Random(c.Rand))
			kinds(c, rd)
			c.Seen(shape(rd))
			c.Sample(s)
			wantTree(c, s, rd)
		}),
		batch("mutant", 80000, 1500000, 50, func(c *Ctx, k int) {
			s, _ := genWF(c, gen.Random(c.Rand))
			for j := 0; j < 6; j++ {
				m := gen.Mutate(c.Rand, s)
				if r := refParse(m); r.Verdict == ref.WF {
					c.Seen(shape(r.Doc))
					kinds(c, r.Doc)
					wantTree(c, m, r.Doc)
				}
			}
		}),
		// every legal character in every context
		batch("chars", (0x110000/256)*len(sweepContexts), (0x110000/256)*len(sweepContexts), 50, func(c *Ctx, k int) {
			x := sweepContexts[k%len(sweepContexts)]
			var b strings.Builder
			first := rune(k / len(sweepContexts) * 256)
			for r := first; r < first+256; r++ {
				if ref.IsChar(r) && r != '\r' && !strings.ContainsRune("<&\"-", r) {
					b.WriteRune(r)
					b.WriteByte('a')
					c.Count("characters", 1)
				}
			}
			judge(c, x[0]+b.String()+x[1], true, false)
		}),
		// every character of a name
		batch("names", 0x110000/256, 0x110000/256, 50, func(c *Ctx, k int) {
			var b strings.Builder
			b.WriteString("<a>")
			for r := rune(k * 256); r < rune(k*256+256); r++ {
				if r == ':' {
					continue
				}
				if ref.IsNameStart(r) {
					fmt.Fprintf(&b, "<%c %c='1' b%c='2'/><?%c z?>", r, r, r, r)
					c.Count("name start characters", 1)
				}
				if ref.IsNameChar(r) {
					fmt.Fprintf(&b, "<b%c1></b%c1 >", r, r)
					c.Count("name characters", 1)
				}
			}
			b.WriteString("</a>")
			judge(c, b.String(), true, false)
		}),
		stringSection("strings", 3, true, false),
	}
	ck.Sections = append(ck.Sections, smallSections(true, false)...)
	register(ck)
}
