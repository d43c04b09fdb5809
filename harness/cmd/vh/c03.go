package main

import (
	"fmt"
	"unicode/utf8"

	"github.com/lestrrat-go/helium/verif/gen"
	"github.com/lestrrat-go/helium/verif/ref"
)

// where something that is illegal can be put
var faultContexts = [][2]string{
	{"<a>x", "y</a>"}, {"<a>", "</a>"}, {"<a b=\"x", "y\"/>"}, {"<a b='", "'></a>"}, {"<a><!--x", "y--></a>"}, {"<a><?p x", "y?></a>"}, {"<a><?p", " y?></a>"},
	{"<a><![CDATA[x", "y]]></a>"}, {"<a><b", "/></a>"}, {"<a><", "b/></a>"}, {"<a b", "='1'/>"}, {"<a", " b='1'/>"}, {"<a b='1'", " c='2'/>"}, {"<a b=", "'1'/>"},
	{"<a></a", ">"}, {"<a></", "a>"}, {"<a/", ">"}, {"<a/>", ""}, {"<a/>\n", "\n"}, {"<a/><!--x", "-->"}, {"<a/><?p x", "?>"}, {"", "<a/>"}, {"<!--x", "--><a/>"}, {"<?p x", "?><a/>"},
	{"<?xml version='1.0'?>", "<a/>"}, {"<?xml version='1.0'", "?><a/>"}, {"<?xml version='1.", "'?><a/>"}, {"<?xml version='1.0' encoding='utf-8", "'?><a/>"}, {"<?xml version='1.0' standalone='", "yes'?><a/>"},
	{"<!DOCTYPE a", "><a/>"}, {"<!DOCTYPE a", "[]><a/>"}, {"<!DOCTYPE a[", "]><a/>"}, {"<!DOCTYPE a[]", "><a/>"}, {"<!DOCTYPE ", "a><a/>"}, {"<!DOCTYPE a[<!--x", "-->]><a/>"}, {"<!DOCTYPE a[<?p x", "?>]><a/>"},
	{"<!DOCTYPE a[<!ELEMENT a", " ANY>]><a/>"}, {"<!DOCTYPE a[<!ELEMENT a ANY", ">]><a/>"}, {"<!DOCTYPE a[<!ELEMENT a (b", ")>]><a/>"}, {"<!DOCTYPE a[<!ELEMENT a (", "b,c)>]><a/>"}, {"<!DOCTYPE a[<!ELEMENT a (b,c)", ">]><a/>"}, {"<!DOCTYPE a[<!ELEMENT a (#PCDATA", "|b)*>]><a/>"}, {"<!DOCTYPE a[<!ELEMENT a (#PCDATA|b)", ">]><a/>"},
	{"<!DOCTYPE a[<!ATTLIST a", " b CDATA 'x'>]><a/>"}, {"<!DOCTYPE a[<!ATTLIST a b", " CDATA 'x'>]><a/>"}, {"<!DOCTYPE a[<!ATTLIST a b CDATA ", "'x'>]><a/>"}, {"<!DOCTYPE a[<!ATTLIST a b CDATA 'x", "'>]><a/>"}, {"<!DOCTYPE a[<!ATTLIST a b CDATA 'x'", ">]><a/>"}, {"<!DOCTYPE a[<!ATTLIST a b (x", "|y) 'x'>]><a/>"}, {"<!DOCTYPE a[<!ATTLIST a b (x|y)", " #IMPLIED>]><a/>"}, {"<!DOCTYPE a[<!ATTLIST a b CDATA #FIXED", " 'x'>]><a/>"}, {"<!DOCTYPE a[<!ATTLIST a b ", " #IMPLIED>]><a/>"},
	{"<!DOCTYPE a[<!ENTITY e 'x", "'>]><a/>"}, {"<!DOCTYPE a[<!ENTITY e 'x", "'>]><a>&e;</a>"}, {"<!DOCTYPE a[<!ENTITY e 'x", "'>]><a b='&e;'/>"}, {"<!DOCTYPE a[<!ENTITY e", " 'x'>]><a/>"}, {"<!DOCTYPE a[<!ENTITY e 'x'", ">]><a/>"}, {"<!DOCTYPE a[<!ENTITY ", "e 'x'>]><a/>"}, {"<!DOCTYPE a[<!ENTITY % e 'x", "'>]><a/>"}, {"<!DOCTYPE a[<!ENTITY % e", " 'x'>]><a/>"},
	{"<a>&", ";</a>"}, {"<a>&am", "p;</a>"}, {"<a>&#", ";</a>"}, {"<a>&#6", "5;</a>"}, {"<a>&#x", ";</a>"}, {"<a b='&", ";'/>"}, {"<a b='&lt", ";'/>"}, {"<a b='&#", ";'/>"},
	{"<a><b>", "</b></a>"}, {"<a><b/>", "<c/></a>"}, {"<a><b></b>", "</a>"}, {"<a xmlns:p='", "'/>"}, {"<a xmlns:", "='u'/>"}, {"<a xmlns='u'", "/>"},
}

// and what can be put there
var faultTokens = []string{"<", ">", "&", "]]>", "--", "-->", "?>", "<?xml version='1.0'?>", "<?xml?>", "<?XML x?>", "<?xMl?>", "<!", "<!-", "<!--", "<!-- -- -->", "<!--->", "<!-->", "<![CDATA[", "<![CDATA[]]>", "<![cdata[x]]>", "<![CDATA [x]]>", "<![", "</", "</a>", "</b>", "</ a>", "<b>", "<b/", "<b / >", "< b/>", "<b/ >", "<1/>", "<-/>", "<a", "<b c/>", "<b c=/>", "<b c=1/>", "<b c='/>", "<b c=\"'/>", "<b c='<'/>", "<b c='&'/>", "<b c='&x'/>", "<b c='1'd='2'/>", "<b c='1' c='2'/>", "<b c='1' d='' c=''/>", "<b 'c'/>", "<b ='c'/>", "<b c = '1' = '2'/>", "<b p:c='1'/>", "<p:b/>", "<b></c>", "<b></B>", "<b></b x>", "<b></b/>", "<b></b", "<b>", "<b xmlns:p='1' xmlns:p='2'/>", "<b xmlns='1' xmlns='2'/>", "<b xmlns:p=''/>", "<b xmlns:p='1' xmlns:q='1' p:c='' q:c=''/>", "<b xmlns:xml='u'/>", "<b xmlns:xmlns='u'/>", "<b xmlns:p='http://www.w3.org/2000/xmlns/'/>", "<b xmlns:p='http://www.w3.org/XML/1998/namespace'/>",
	"&", "&;", "&a", "& ", "&a b;", "&#;", "&#x;", "&#xg;", "&#1a;", "&#-1;", "&#+1;", "&# 65;", "&#65", "&#65 ;", "&#x 41;", "&#X41;", "&#0;", "&#x0;", "&#1;", "&#8;", "&#11;", "&#12;", "&#31;", "&#xD800;", "&#xDFFF;", "&#xFFFE;", "&#xFFFF;", "&#x110000;", "&#x7FFFFFFF;", "&#x80000041;", "&#x100000041;", "&#4294967361;", "&#18446744073709551681;", "&#x10000000000000041;", "&nope;", "&amp", "&lt", "&AMP;", "&e;", "&%e;", "%e;", "%", "%e", "&1;", "&.a;",
	"<!DOCTYPE a>", "<!doctype a>", "<!DOCTYPE a []>", "<!DOCTYPE>", "<!DOCTYPE >", "<!DOCTYPEa>", "<!DOCTYPE a b>", "<!DOCTYPE a [", "<!DOCTYPE a [>", "<!ELEMENT b ANY>", "<!ELEMENT b EMPTY>", "<!ELEMENT b>", "<!ELEMENT b any>", "<!ELEMENT b ()>", "<!ELEMENT b (c", "<!ELEMENT b (c,d|e)>", "<!ELEMENT b (c|)>", "<!ELEMENT b (,c)>", "<!ELEMENT b c>", "<!ELEMENT b (c)) >", "<!ELEMENT b (c d)>", "<!ELEMENT b (c)#>", "<!ELEMENT b (c ?)>", "<!ELEMENT b (c) *>", "<!ELEMENT b (c)**>", "<!ELEMENT b (#PCDATA|c)>", "<!ELEMENT b (#PCDATA,c)*>", "<!ELEMENT b (#PCDATA)+>", "<!ELEMENT b (c|#PCDATA)*>", "<!ELEMENT b (#PCDATA|c+)*>", "<!ELEMENT b (#pcdata)>", "<!ELEMENT b #PCDATA>", "<!ELEMENT b (#PCDATA|(c))*>", "<!ELEMENT (b) ANY>", "<!ELEMENT b(c)>", "<!ELEMENTb ANY>", "<!element b ANY>",
	"<!ATTLIST>", "<!ATTLIST b c>", "<!ATTLIST b c CDATA>", "<!ATTLIST b c cdata 'x'>", "<!ATTLIST b c CDATA x>", "<!ATTLIST b c CDATA #IMPLIED 'x'>", "<!ATTLIST b c CDATA #FIXED>", "<!ATTLIST b c CDATA #fixed 'x'>", "<!ATTLIST b c CDATA #DEFAULT>", "<!ATTLIST b c CDATA'x'>", "<!ATTLIST b c CDATA '<'>", "<!ATTLIST b c CDATA '&'>", "<!ATTLIST b c CDATA '&nope;'>", "<!ATTLIST b c CDATA 'x>", "<!ATTLIST b c () 'x'>", "<!ATTLIST b c (x 'x'>", "<!ATTLIST b c (x,y) 'x'>", "<!ATTLIST b c (x|) 'x'>", "<!ATTLIST b c (|x) 'x'>", "<!ATTLIST b c (x y) 'x'>", "<!ATTLIST b c (&) 'x'>", "<!ATTLIST b c(x) 'x'>", "<!ATTLIST b c (x)'x'>", "<!ATTLIST b c NMTOKENX 'x'>", "<!ATTLIST b c IDREFSS #IMPLIED>", "<!ATTLIST b c CDATA #REQUIREDd CDATA #IMPLIED>", "<!ATTLIST b c CDATA 'x'd CDATA 'y'>",
	"<!ENTITY>", "<!ENTITY f>", "<!ENTITY f x>", "<!ENTITY f 'x>", "<!ENTITY f'x'>", "<!ENTITY f 'x' 'y'>", "<!ENTITY f '&'>", "<!ENTITY f '&#0;'>", "<!ENTITY f '&x'>", "<!ENTITY f '&#xFFFF;'>", "<!ENTITY %f 'x'>", "<!ENTITY % f'x'>", "<!ENTITY % 'x'>", "<!ENTITY% f 'x'>", "<!entity f 'x'>", "<!ENTITY f 'x'", "<!ENTITY 1 'x'>", "<!ENTITYf 'x'>",
	"<![INCLUDE[]]>", "<![IGNORE[]]>", "<!NOPE x>", "<!>", "]", "[", "]>", "[]",
	"\x00", "\x01", "\x08", "\x0b", "\x0c", "\x0e", "\x1f", "\uFFFE", "\uFFFF", "\xff", "\xfe", "\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xc3", "\xe0\x80\x80", "\xe2\x82", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x80\x80\x80", "\xf0\x9f\x98", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\xef\xbb\xbf",
	" ", "\n", "x", "\"", "'", "=", "/", ":", ";", "#", "1", "-", ".", "\u00b7", "\u00d7", "\u037e", "\u2028", "\u00a0", "\u0085", "\u3000",
	"version='1.0'", " version='1.0'", " encoding='utf-8'", " standalone='yes'", "<?", "<??>", "<? p?>", "<?p", "<?p>", "<?1?>", "<?p:?>", "<?xml-model:x?>", "<?xml-model:x y?>", "<?xml-stylesheet:x y?>", "<?xml-stylesheet:?>", "<?xml:x?>", "<?Xml-a:b c?>", "<?xmlns:a?>", "<?xml\u00b7:a?>", "<p:q:r/>", "<:a/>", "SYSTEM", " PUBLIC", "(b)", "|", ",", "|b", ",b", "*", "+", "?", "b", " b",
}

func init() {
	ck := &Check{ID: "C03",
		Rule: "a case is a document with a fault, as the reference parser has it; distinct by text. It must be rejected with an error, and no document",
	}
	ck.Sections = []Section{
		// every fault in every context
		batch("fault", len(faultContexts)*len(faultTokens), len(faultContexts)*len(faultTokens), 300, func(c *Ctx, k int) {
			x, t := faultContexts[k/len(faultTokens)], faultTokens[k%len(faultTokens)]
			judge(c, x[0]+t+x[1], false, true)
		}),
		// pairs of faults, or of things that only together are faults
		batch("pairs", 400000, 5000000, 500, func(c *Ctx, k int) {
			x := faultContexts[c.N(len(faultContexts))]
			judge(c, x[0]+faultTokens[c.N(len(faultTokens))]+faultTokens[c.N(len(faultTokens))]+x[1], false, true)
		}),
		batch("mutant", 80000, 1200000, 50, func(c *Ctx, k int) {
			s, _ := genWF(c, gen.Random(c.Rand))
			for j := 0; j < 12; j++ {
				m := gen.Mutate(c.Rand, s)
				if r := refParse(m); r.Verdict == ref.NotWF {
					c.Seen(m)
					c.Count(fault(r.Msg), 1)
					wantReject(c, m, r)
				}
			}
		}),
		// everything that a single fault can be, at every offset of a document
		batch("everywhere", 800, 10000, 2, func(c *Ctx, k int) {
			p := gen.Random(c.Rand)
			p.Size = 1 + c.N(6)
			p.Depth = 1 + c.N(3)
			s, _ := genWF(c, p)
			if len(s) > 250 {
				return
			}
			toks := make([]string, 12)
			for i := range toks {
				toks[i] = faultTokens[c.N(len(faultTokens))]
			}
			for i := 0; i <= len(s); i++ {
				judge(c, s[:i], false, true)
				if i < len(s) {
					judge(c, s[:i]+s[i+1:], false, true)
					judge(c, s[:i]+s[i:i+1]+s[i:], false, true)
				}
				for _, t := range toks {
					judge(c, s[:i]+t+s[i:], false, true)
				}
			}
		}),
		// every character that is illegal, in every context
		batch("chars", 0x110000/64, 0x110000/64, 40, func(c *Ctx, k int) {
			for r := rune(k * 64); r < rune(k*64+64); r++ {
				if ref.IsChar(r) {
					continue
				}
				if r >= 0xD800 && r < 0xE000 && r&63 != 0 && r&63 != 63 {
					continue
				}
				e := string([]byte{0xE0 | byte(r>>12), 0x80 | byte(r>>6)&0x3F, 0x80 | byte(r)&0x3F})
				if r < 0x80 {
					e = string(r)
				}
				if r >= 0x10000 {
					b := make([]byte, 4)
					utf8.EncodeRune(b, r)
					e = string(b)
				}
				for _, x := range faultContexts {
					judge(c, x[0]+e+x[1], false, true)
				}
				for _, f := range []string{"&#%d;", "&#x%x;", "&#x%X;", "&#000%d;"} {
					t := fmt.Sprintf(f, r)
					judge(c, "<a>"+t+"</a>", false, true)
					judge(c, "<a b='"+t+"'/>", false, true)
					judge(c, "<!DOCTYPE a[<!ENTITY e '"+t+"'>]><a/>", false, true)
					judge(c, "<!DOCTYPE a[<!ATTLIST a b CDATA '"+t+"'>]><a/>", false, true)
				}
			}
		}),
		// every character that a name can't start with, or have
		batch("names", 0x110000/64, 0x110000/64, 80, func(c *Ctx, k int) {
			for r := rune(k * 64); r < rune(k*64+64); r++ {
				if r >= 0x30000 && c.tier != "thorough" && r%16 != rune(k%16) || !ref.IsChar(r) || r == ':' {
					continue
				}
				if !ref.IsNameStart(r) {
					judge(c, fmt.Sprintf("<%c/>", r), false, true)
					judge(c, fmt.Sprintf("<a %c='1'/>", r), false, true)
					judge(c, fmt.Sprintf("<a><?%c?></a>", r), false, true)
					judge(c, fmt.Sprintf("<a>&%c;</a>", r), false, true)
				}
				if !ref.IsNameChar(r) {
					judge(c, fmt.Sprintf("<a%cb/>", r), false, true)
					judge(c, fmt.Sprintf("<a b%cb='1'/>", r), false, true)
					judge(c, fmt.Sprintf("<a></a%c>", r), false, true)
					judge(c, fmt.Sprintf("<!DOCTYPE a[<!ATTLIST a b (x%cy) 'x'>]><a/>", r), false, true)
				}
			}
		}),
		stringSection("strings", 3, false, true),
	}
	s4 := stringSection("strings4", 4, false, true)
	s4.Quick = 0
	ck.Sections = append(ck.Sections, s4)
	ck.Sections = append(ck.Sections, smallSections(false, true)...)
	register(ck)
}
