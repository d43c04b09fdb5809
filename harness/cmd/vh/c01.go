package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
	"github.com/lestrrat-go/helium/verif/gen"
	"github.com/lestrrat-go/helium/verif/hx"
)

// foreign is an entity that a handler makes up
type foreign struct{ name, content string }

func (f *foreign) Name() string    { return f.name }
func (f *foreign) SetOrig(string)  {}
func (f *foreign) EntityType() int { return int(helium.InternalGeneralEntity) }
func (f *foreign) Content() []byte { return []byte(f.content) }
func (f *foreign) Checked() bool   { return false }
func (f *foreign) MarkChecked()    {}

// decides makes sure that parsing s comes to an end, in every way. If walk is
// set, what has been made of it is used as well.
func decides(c *Ctx, s string, walk bool) {
	doc, err := parse(c, s)
	if c.Failed() {
		return
	}
	if err != nil {
		c.Count("rejected", 1)
		if m := err.Error(); m == "" {
			c.Fail("error without a message: %q", m)
		}
	} else {
		c.Count("accepted", 1)
		if walk && doc != nil {
			if _, err := doc.XMLString(); err != nil {
				c.Count("not serialised", 1)
			}
		}
	}
	mask := uint(c.N(hx.AllCallbacks + 1))
	if c.P(1, 4) {
		mask = 0
	} else if c.P(1, 3) {
		mask = hx.AllCallbacks
	}
	h := hx.NewRecorder(mask, nil)
	k := c.N(5)
	switch k {
	case 0:
		h.GetEntityHandler = func(_ sax.Context, name string) (sax.Entity, error) { return nil, nil }
		h.GetParameterEntityHandler = func(_ sax.Context, name string) (sax.Entity, error) { return nil, nil }
	case 1:
		h.GetEntityHandler = func(_ sax.Context, name string) (sax.Entity, error) {
			return nil, errors.New("no such thing")
		}
		h.GetParameterEntityHandler = sax.GetParameterEntityFunc(h.GetEntityHandler)
	case 2:
		content := c.Pick("x", "<b/>", "<", "&amp;", "&a;&a;", "&e;&lt;", "<b", "")
		h.GetEntityHandler = func(_ sax.Context, name string) (sax.Entity, error) {
			return &foreign{name, strings.Replace(content, "&a;", "&"+name+";", -1)}, nil
		}
		h.GetParameterEntityHandler = sax.GetParameterEntityFunc(h.GetEntityHandler)
	}
	p := helium.NewParser()
	p.SetSAXHandler(h)
	c.Eval()
	doc2, err2 := p.Parse([]byte(s))
	if doc2 != nil {
		c.Fail("a document came from a handler that makes none (callbacks %04x)", mask)
	}
	c.Count("events", len(h.Events))
	if k > 2 && (err == nil) != (err2 == nil) {
		// the tree builder rejects xml:id attributes of a wrong type, and declarations that are there twice
		if err2 != nil {
			c.Fail("rejected with callbacks %04x only: %s", mask, oneLine(err2))
		} else {
			c.Count("rejected by the tree builder", 1)
		}
	}
}

// stress is a document, or something like it, of some size
type stress struct {
	name string
	make func() string
}

func rep(a, s, b string, n int) stress {
	return stress{"", func() string { return a + strings.Repeat(s, n) + b }}
}

func seq(a, format, b string, n int) stress {
	return stress{"", func() string {
		var w strings.Builder
		w.WriteString(a)
		for i := 0; i < n; i++ {
			w.WriteString(strings.Replace(format, "#", fmt.Sprint(i), -1))
		}
		w.WriteString(b)
		return w.String()
	}}
}

func stresses() []stress {
	nest := func(n int, open, close string) stress {
		return stress{"", func() string { return strings.Repeat(open, n) + strings.Repeat(close, n) }}
	}
	out := []stress{
		rep("<!DOCTYPE a [<!ELEMENT a ", "(b,", "", 3000000), rep("<!DOCTYPE a [<!ELEMENT a ", "(b|", "", 3000000), rep("<!DOCTYPE a [<!ELEMENT a ", "(b,(c|", "", 1500000), rep("<!DOCTYPE a [<!ELEMENT a ", "((b),", "", 1500000),
		rep("<!DOCTYPE a [<!ELEMENT a ", "((", "", 3000000), rep("<!DOCTYPE a [<!ELEMENT a ", "(b,c,d,(e),", "", 1000000), rep("<!DOCTYPE a [<!ATTLIST a b ", "(", "", 3000000), rep("<!DOCTYPE a [<!ATTLIST a b ", "(b|", "", 1500000),
		rep("<!DOCTYPE a [<!ATTLIST a b NMTOKENS #IMPLIED>]><a b='&#65;", " x", "'/>", 400000), rep("<!DOCTYPE a [<!ATTLIST a b NMTOKENS #IMPLIED>]><a b='", "  &amp;", "'/>", 120000), rep("<!DOCTYPE a [<!ATTLIST a b IDREFS #IMPLIED>]><a b=' x", " ", "&#65;'/>", 800000),
		rep("<!DOCTYPE a [<!ATTLIST a b NMTOKENS ' &#65;", "  x", " '>]><a/>", 260000), rep("<!DOCTYPE a [<!ATTLIST a b NMTOKENS #FIXED 'x", " ", "'>]><a/>", 800000), rep("<!DOCTYPE a [<!ENTITY e '", " x", "'><!ATTLIST a b NMTOKENS #IMPLIED>]><a b='&e;&e;'/>", 400000),
		rep("<a>", "x", "</a>", 800000), rep("<a>", " ", "</a>", 800000), rep("<a>", "\n", "</a>", 800000), rep("<a>", "\r", "</a>", 800000), rep("<a>", "\r\n", "</a>", 400000),
		rep("<a", " ", "/>", 800000), rep("<a", "\n", "", 800000), rep("<a>", "\u20ac", "</a>", 250000), rep("<a>", "\U0001F600", "</a>", 200000),
		rep("<a>", "]", "</a>", 800000), rep("<a>", "]]", "", 400000), rep("<a>", ">", "</a>", 800000), rep("<a>", "</", "", 300000), rep("", "<", "", 800000), rep("<a>", "&", "", 400000), rep("<a>", "<!", "", 400000), rep("", "<?", "", 400000), rep("", "<!", "", 400000), rep("", "]]>", "", 200000), rep("", " ", "", 800000), rep("", "\xff", "", 400000), rep("", "\x00", "", 400000), rep("<a>", "\xff", "</a>", 400000),
		rep("<a>", "&#65;", "</a>", 160000), rep("<a>", "&amp;", "</a>", 160000), rep("<a x='", "&#65;", "'/>", 160000), rep("<a x='", "&lt;", "'/>", 160000), rep("<a>&#", "0", "65;</a>", 800000), rep("<a>&#x", "0", "41;</a>", 800000), rep("<a>&#", "9", ";</a>", 800000), rep("<a>&", "a", ";</a>", 800000),
		rep("<a x='", "x", "'/>", 800000), rep("<a x='", "\n", "'/>", 800000), rep("<a x='", "x", "", 800000), rep("<a x='", "\"", "'/>", 800000), rep("<a x='", "\u20ac", "'/>", 250000),
		rep("<!--", "x", "--><a/>", 800000), rep("<!--", "- ", "--><a/>", 400000), rep("<!--", "-", "", 800000), rep("<a>", "<!--", "", 200000), rep("<a>", "<!--x-->", "</a>", 100000), rep("", "<!--x-->", "<a/>", 100000), rep("<a/>", "<!--x-->", "", 100000),
		rep("<?x ", "?", "?><a/>", 800000), rep("<?x", " ", "?><a/>", 800000), rep("<?x ", "?", "", 800000), rep("", "<?x y?>", "<a/>", 100000), rep("<a>", "<?x y?>", "</a>", 100000), rep("<?xml version='1.0'", " ", "?><a/>", 400000), rep("<?xml ", "x", "", 400000), rep("<?xml version='", "1", "'?><a/>", 400000), rep("<?xml version='1.0' encoding='", "u", "'?><a/>", 400000),
		rep("<a><![CDATA[", "]", "]]></a>", 800000), rep("<a><![CDATA[", "x", "]]></a>", 800000), rep("<a><![CDATA[", "<", "", 800000), rep("<a>", "<![CDATA[", "", 90000), rep("<a>", "<![CDATA[x]]>", "</a>", 60000), rep("<a>", "<![CDATA[]]>", "</a>", 60000),
		rep("<a>", "<b/>", "</a>", 160000), rep("<a>", "x<b/>", "</a>", 160000), rep("<a>", "<b></b>\n", "</a>", 80000), rep("<a>", "<b c='d'/>", "</a>", 80000), rep("<a>", "<b xmlns='u'/>", "</a>", 60000), rep("<a xmlns:p='u'>", "<p:b p:c='d'/>", "</a>", 60000),
		nest(100000, "<a>", "</a>"), nest(500000, "<a>", "</a>"), nest(60000, "<a b='c'>", "</a>"), nest(50000, "<a xmlns='u'>", "</a>"), rep("", "<a>", "", 200000), rep("", "<a>", "", 600000), rep("<a>", "</a>", "", 200000), rep("", "<a ", "", 200000), nest(3000, "<!DOCTYPE a [", "]>"),
		rep("<", "a", "/>", 800000), rep("<", "\u00e9", "/>", 300000), rep("<a ", "b", "='c'/>", 800000), rep("<?", "p", "?><a/>", 800000), rep("<a></", "a", ">", 800000), rep("<", "a:", "b/>", 300000), rep("<", "aaaaaaaaa ", "/>", 30000),
		seq("<a", " a#='x'", "/>", 60000), seq("<a", " xmlns:a#='x#'", "/>", 40000), seq("<a", " xmlns:a#='x#' a#:b='x'", "/>", 15000), seq("", "<p#:a xmlns:p#='x#'>", "", 20000), rep("<a", " x='1'", "/>", 80000), rep("<a", " xmlns='1'", "/>", 60000),
		stress{"", func() string {
			var w strings.Builder
			for i := 0; i < 10000; i++ {
				fmt.Fprintf(&w, "<p%d:a xmlns:p%d='x%d'>", i, i, i)
			}
			for i := 9999; i >= 0; i-- {
				fmt.Fprintf(&w, "</p%d:a>", i)
			}
			return w.String()
		}},
		seq("<!DOCTYPE a [", "<!ENTITY e# 'x'>", "]><a/>", 40000), seq("<!DOCTYPE a [", "<!ENTITY % e# 'x'>", "]><a/>", 40000), seq("<!DOCTYPE a [", "<!ELEMENT e# (a,b)>", "]><a/>", 40000), seq("<!DOCTYPE a [", "<!ELEMENT e# ANY>", "]><a/>", 40000), seq("<!DOCTYPE a [", "<!ATTLIST a e# CDATA 'x'>", "]><a/>", 30000), seq("<!DOCTYPE a [<!ATTLIST a", " e# CDATA 'x'", ">]><a/>", 30000), seq("<!DOCTYPE a [<!ATTLIST a", " e# CDATA 'x'", ">]><a>"+strings.Repeat("<a/>", 500)+"</a>", 1000), seq("<!DOCTYPE a [<!ATTLIST a x (", "e#|", "z) 'z'>]><a/>", 60000), seq("<!DOCTYPE a [", "<!ATTLIST e# x NMTOKEN ' x '>", "]><a/>", 20000),
		rep("<!DOCTYPE a [<!ELEMENT a (b", ",b", ")>]><a/>", 200000), rep("<!DOCTYPE a [<!ELEMENT a (b", "|b", ")*>]><a/>", 200000), rep("<!DOCTYPE a [<!ELEMENT a (b", ",(b|c)", ")>]><a/>", 60000), seq("<!DOCTYPE a [<!ELEMENT a (#PCDATA", "|b#", ")*>]><a/>", 60000), rep("<!DOCTYPE a [<!ELEMENT a ", "(", "", 200000), rep("<!DOCTYPE a [<!ELEMENT a ", "(b,", "", 200000), rep("<!DOCTYPE a [<!ELEMENT a (b", "?", ")>]><a/>", 200000),
		rep("<!DOCTYPE a [", " ", "]><a/>", 800000), rep("<!DOCTYPE a [", "%x;", "]><a/>", 200000), rep("<!DOCTYPE a [<!ENTITY % x ''>", "%x;", "]><a/>", 200000), rep("<!DOCTYPE a [", "<!ENTITY ", "", 80000), rep("<!DOCTYPE a [", "<!ELEMENT ", "", 80000), rep("<!DOCTYPE a [", "<!ATTLIST ", "", 80000), rep("<!DOCTYPE a [", "<!", "", 400000), rep("<!DOCTYPE a [", "<?", "", 400000), rep("<!DOCTYPE a [", "<!--", "", 200000), rep("<!DOCTYPE a [", "<!--x-->", "]><a/>", 60000), rep("<!DOCTYPE a [", "<?x y?>", "]><a/>", 60000), rep("<!DOCTYPE", " ", "a><a/>", 400000), rep("<!DOCTYPE ", "a", "><a/>", 400000), rep("<!DOCTYPE a [<!ATTLIST a b (", "x |", "", 200000), rep("<!DOCTYPE a [<!ATTLIST a b CDATA '", "x", "", 400000), rep("<!DOCTYPE a [<!ENTITY e '", "x", "'>]><a/>", 400000), rep("<!DOCTYPE a [<!ENTITY e '", "&#65;", "'>]><a>&e;</a>", 100000), rep("<!DOCTYPE a SYSTEM '", "x", "", 400000), rep("<!DOCTYPE a PUBLIC '", "x", "", 400000), rep("<!DOCTYPE a [<!ATTLIST a b NOTATION (", "x|", "", 200000), rep("<!DOCTYPE a [<!ENTITY e SYSTEM '", "x", "", 400000), rep("<!DOCTYPE a [<!NOTATION e SYSTEM '", "x", "", 400000),
		rep("<!DOCTYPE a [<!ENTITY e 'x'>]><a>", "&e;", "</a>", 160000), rep("<!DOCTYPE a [<!ENTITY e 'x'>]><a x='", "&e;", "'/>", 160000), rep("<!DOCTYPE a [<!ENTITY e '<b/>'>]><a>", "&e;", "</a>", 100000), rep("<!DOCTYPE a [<!ENTITY e '"+strings.Repeat("x", 100000)+"'>]><a>", "&e;", "</a>", 30000), rep("<!DOCTYPE a [<!ENTITY e '"+strings.Repeat("<b/>", 20000)+"'>]><a>", "&e;", "</a>", 30000), rep("<!DOCTYPE a [<!ENTITY e '"+strings.Repeat("x", 100000)+"'>]><a x='", "&e;", "'/>", 30000), rep("<!DOCTYPE a [<!ENTITY e '", "&e;", "'>]><a>&e;</a>", 60000),
	}
	// entities of entities
	for _, use := range []string{"<a>&e19;</a>", "<a x='&e19;'/>", "<a>&e19;&e18;&e17;</a>"} {
		for _, n := range []int{2, 4, 10} {
			use, n := use, n
			out = append(out, stress{"", func() string {
				s := "<!DOCTYPE a [<!ENTITY e0 'lol'>"
				for i := 1; i < 20; i++ {
					s += fmt.Sprintf("<!ENTITY e%d '%s'>", i, strings.Repeat(fmt.Sprintf("&e%d;", i-1), n))
				}
				return s + "]>" + use
			}})
		}
	}
	for _, n := range []int{30, 60, 20000} {
		for _, use := range []string{"<a>&e@;</a>", "<a x='&e@;'/>", "<a>&e0;</a>"} {
			n, use := n, use
			out = append(out, stress{"", func() string {
				var b strings.Builder
				b.WriteString("<!DOCTYPE a [<!ENTITY e0 'lol'>")
				for i := 1; i < n; i++ {
					fmt.Fprintf(&b, "<!ENTITY e%d '&e%d;'>", i, i-1)
				}
				return b.String() + "]>" + strings.Replace(use, "@", fmt.Sprint(n-1), -1)
			}})
		}
	}
	// cycles
	for _, n := range []int{1, 2, 7} {
		for _, use := range []string{"<a>&e0;</a>", "<a x='&e0;'/>", "<!-- -->"} {
			n, use := n, use
			out = append(out, stress{"", func() string {
				s := "<!DOCTYPE a ["
				for i := 0; i < n; i++ {
					s += fmt.Sprintf("<!ENTITY e%d '&e%d;&e%d;'>", i, (i+1)%n, (i+1)%n)
				}
				return s + "]>" + use
			}})
		}
	}
	return out
}

var dtdTokens = []string{"<!ELEMENT ", "<!ATTLIST ", "<!ENTITY ", "<!NOTATION ", "<!--", "-->", "<?", "?>", ">", "a", "b ", " ", "(", ")", "|", ",", "?", "*", "+", "#PCDATA", "EMPTY", "ANY", "CDATA ", "ID ", "NMTOKENS ", "NOTATION ", "ENTITY ", "#REQUIRED", "#IMPLIED", "#FIXED ", "'x'", "\"y\"", "%", "%p;", "&e;", "'&e;'", "'&#60;'", "SYSTEM ", "PUBLIC ", "NDATA ", "]>", "<a>", "</a>", "[", "\n", "&#65;", ":", "x:y ", "<![INCLUDE[", "'", "<!ENTITY % p ''>", "<!ENTITY e 'f'>", "<!ELEMENT a (b)>", "<!ATTLIST a b CDATA #IMPLIED>"}

func init() {
	all := stresses()
	boms := []string{"", "\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\x00\x00\xfe\xff", "\xff\xfe\x00\x00", "<\x00", "\x00<", "\x00\x00\x00<", "\x4c\x6f\xa7\x94", "<?xml version='1.0' encoding='shift_jis'?>", "<?xml version='1.0' encoding='iso-8859-1'?>", "<?xml version='1.0' encoding='utf-16'?>", "<?xml version='1.0' encoding='big5'?><a>", "<?xml version='1.0' encoding='iso-2022-jp'?><a>", "<?xml version='1.0' encoding='euc-jp'?><a>", "<?xml version='1.0' encoding='hz-gb2312'?><a>", "<?xml version='1.0' encoding='euc-kr'?><a>", "<?xml version='1.0' encoding='ebcdic'?><a>", "<a>", "<a b='", "<!--", "<?p ", "<!DOCTYPE a ["}
	ck := &Check{ID: "C01",
		Rule: "a case is a byte string, distinct by its bytes, which is parsed into a document (then serialised) and again with a handler that has a random subset of its callbacks; a watchdog looks at CPU time and memory, and the controller at how the process ends",
	}
	ck.Sections = []Section{
		{Name: "stress", Quick: 2 * len(all), Thorough: 2 * len(all), CPU: 8, Run: func(c *Ctx, i int) {
			s := all[i%len(all)].make()
			c.Seen(s)
			c.Count("bytes under stress", len(s))
			if i < len(all) {
				decides(c, s, true)
				return
			}
			// cut off in the middle
			decides(c, s[:len(s)-1-c.N(len(s)/2)], false)
		}},
		batch("soup", 100000, 3000000, 100, func(c *Ctx, k int) {
			s := gen.Soup(c.Rand, 1+c.N(25))
			c.Seen(s)
			decides(c, s, true)
		}),
		batch("dtd-soup", 100000, 3000000, 100, func(c *Ctx, k int) {
			s := "<!DOCTYPE a ["
			for n := 1 + c.N(16); n > 0; n-- {
				s += dtdTokens[c.N(len(dtdTokens))]
			}
			if c.P(2, 3) {
				s += "]><a>&e;</a>"
			}
			c.Seen(s)
			decides(c, s, true)
		}),
		batch("mutant", 60000, 2000000, 50, func(c *Ctx, k int) {
			s := gen.Doc(c.Rand, gen.Random(c.Rand))
			for n := 1 + c.N(5); n > 0; n-- {
				s = gen.Mutate(c.Rand, s)
			}
			c.Seen(s)
			c.Sample(s)
			decides(c, s, true)
		}),
		batch("prefixes", 400, 10000, 5, func(c *Ctx, k int) {
			s := gen.Doc(c.Rand, gen.Random(c.Rand))
			if len(s) > 600 {
				s = s[:600]
			}
			for i := 0; i <= len(s); i++ {
				c.Seen(s[:i])
				decides(c, s[:i], false)
			}
		}),
		batch("bytes", 100000, 2000000, 200, func(c *Ctx, k int) {
			b := []byte(boms[c.N(len(boms))])
			for n := c.N(40); n > 0; n-- {
				switch c.N(4) {
				case 0:
					b = append(b, "<>&;/!?[]'\"= -a%#x"[c.N(18)])
				case 1:
					b = append(b, byte(c.N(256)), 0)
				default:
					b = append(b, byte(c.N(256)))
				}
			}
			if c.P(1, 2) {
				b = append(b, "</a>"...)
			}
			c.Seen(string(b))
			decides(c, string(b), true)
		}),
		batch("pairs", 0x10000+0x100+1, 0x10000+0x100+1, 1000, func(c *Ctx, k int) {
			var s string
			switch {
			case k == 0:
			case k <= 0x100:
				s = string([]byte{byte(k - 1)})
			default:
				k -= 0x101
				s = string([]byte{byte(k >> 8), byte(k)})
			}
			c.Seen(s)
			decides(c, s, true)
			decides(c, s+"<a/>", true)
			decides(c, "<a>"+s, true)
		}),
	}
	words4 := []string{"<", ">", "/", "a", " ", "=", "'", "&", ";", "#", "!", "?", "-", "[", "]", "x"}
	ck.Sections = append(ck.Sections, batch("short", pow(len(words4), 4), pow(len(words4), 5), 1000, func(c *Ctx, k int) {
		n := 4
		if c.tier == "thorough" {
			n = 5
		}
		s := words(words4, k, n)
		c.Seen(s)
		decides(c, s, true)
		decides(c, "<a>"+s, true)
		decides(c, "<!DOCTYPE a [<"+s, true)
	}))
	register(ck)
}
