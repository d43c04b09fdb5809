package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/verif/gen"
	"github.com/lestrrat-go/helium/verif/hx"
	"github.com/lestrrat-go/helium/verif/ref"
)

// constructs are pieces of content, whose meaning is compared in many places
var constructs = []string{
	"", "x", "text", "é", "日本語", "😀", "a\nb", "a\r\nb\rc", "\t \n", "]]", "]", "]]]", "a]]b", "&lt;", "&amp;&gt;", "&#65;", "&#x1F600;", "&e;", "&e;&f;", "x&e;y", "&#13;&#10;",
	"<e/>", "<e></e>", "<e />", "<e\n>x</e\n>", "<e a='1'/>", "<e a=\"1\" b='2'>t</e>", "<e a = '1'  b= \"2\"\n/>", "<e a='&lt;&e;&#10;\n&#x9;'/>", "<e a=''/>", "<p:e p:a='1' a='2'/>", "<e xmlns='u'><f/></e>", "<q:e xmlns:q='u&amp;v'/>", "<e xmlns=''/>", "<日本 é='😀'/>", "<e a='😀é日'>é</e>",
	"<e><f><g/></f></e>", "<e>a<f/>b<g/>c</e>", "<e a='>'/>", "<e a=\"'\" b='\"'/>", "<e a='/>'>/></e>", "<e.-_1/>", "<_/>",
	"<!---->", "<!--c-->", "<!-- - -->", "<!--é日😀-->", "<!--<e/>&x;]]>-->", "<!--a\r\nb-->", "<!--->-->",
	"<?p?>", "<?p d?>", "<?p  d ?>", "<?p ??>", "<?p d?d>?>", "<?日本 😀?>", "<?p\nd\r\ne?>",
	"<![CDATA[]]>", "<![CDATA[x]]>", "<![CDATA[]]]]>", "<![CDATA[<e>&lt;]]>", "<![CDATA[é日😀\r\n]]>", "<![CDATA[]>]]>", "<![CDATA[a]]><![CDATA[b]]>", "a<![CDATA[b]]>c",
}

// rejects are pieces of content which aren't well-formed
var rejects = []string{"<e>", "</e>", "&", "&;", "&nope;", "&#0;", "&#xD800;", "&#x;", "<", "<1/>", "<e a/>", "<e a=/>", "<e a=1/>", "<e a='1' a='2'/>", "<e a='<'/>", "<e a='1'b='2'/>", "]]>", "<!--a--b-->", "<!-->", "<!- -->", "<![CDATA[", "<![cdata[]]>", "<?xml?>", "<?p", "<?1?>", "<?XmL x?>", "<e></f>", "<z:e/>", "<e z:a=''/>", "<e/ >", "< e/>", "<e a='1\"/>", "\x00", "\x01", "\xff", "\xef\xbf\xbf", "\xed\xa0\x80", "<é", "<e xmlns:p=''/>", "&e", "&#65", "<!DOCTYPE a>", "<e a='&nope;'/>", "<e a='&'/>", "\xc3", "<e></e", "<e></e x>"}

const c15Head = "<!DOCTYPE r [<!ENTITY e 'E1'><!ENTITY f 'F<i/>2'>]>"

// pads are things put before, around or after a construct, of size n. start
// is what is inside the start tag of the root.
type pad struct {
	name                     string
	prolog, start, pre, post func(u string, n int) string
}

func padding(before, unit, after string) func(string, int) string {
	return func(u string, n int) string {
		return before + strings.Repeat(strings.Replace(unit, "U", u, -1), n) + after
	}
}

var pads = []pad{
	{name: "text", pre: padding("", "U", "")},
	{name: "text after", post: padding("", "U", "")},
	{name: "text on both sides", pre: padding("", "U", ""), post: padding("", "U", "")},
	{name: "comment in prolog", prolog: padding("<!--", "U", "-->")},
	{name: "comments in prolog", prolog: padding("", "<!--U-->", "")},
	{name: "instruction in prolog", prolog: padding("<?p ", "U", "?>")},
	{name: "blanks in prolog", prolog: padding("", " ", "")},
	{name: "lines in prolog", prolog: padding("", "\n", "")},
	{name: "lines of two characters in prolog", prolog: padding("", "\r\n", "")},
	{name: "comment", pre: padding("<!--", "U", "-->")},
	{name: "instruction", pre: padding("<?p ", "U", "?>")},
	{name: "section", pre: padding("<![CDATA[", "U", "]]>")},
	{name: "lines", pre: padding("", "U\n", "")},
	{name: "carriage returns", pre: padding("", "U\r", "")},
	{name: "lines of two characters", pre: padding("", "U\r\n", "")},
	{name: "siblings", pre: padding("", "<s/>", "")},
	{name: "siblings with content", pre: padding("", "<s a='U'>U</s>", ""), post: padding("", "<s>U</s>", "")},
	{name: "nesting", pre: padding("", "<d>", ""), post: padding("", "</d>", "")},
	{name: "nesting with text", pre: padding("", "<d>U", ""), post: padding("", "U</d>", "")},
	{name: "nesting with namespaces", pre: padding("", "<d xmlns='U' xmlns:q='U'>", "<d xmlns=''>"), post: padding("</d>", "</d>", "")},
	{name: "blanks in tag", start: padding("", " ", "")},
	{name: "lines in tag", start: padding("", "\n", "")},
	{name: "value", start: padding(" v='", "U", "'")},
	{name: "lines in value", start: padding(" v='", "\n", "'")},
	{name: "references", pre: padding("", "&#65;", "")},
	{name: "references to entities", pre: padding("", "&e;", "")},
	{name: "sections", pre: padding("", "<![CDATA[U]]>", "")},
	{name: "comments", pre: padding("", "<!--U-->", "")},
	{name: "blanks after the root", post: func(u string, n int) string { return "" }},
	{name: "attributes", start: func(u string, n int) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, " v%d='%s'", i, u)
		}
		return b.String()
	}},
	{name: "namespaces", start: func(u string, n int) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, " xmlns:v%d='%s'", i, u)
		}
		return b.String()
	}},
}

var units = []string{"x", "é", "日", "😀"}

func (p pad) wrap(body, u string, n int) string {
	get := func(f func(string, int) string) string {
		if f == nil {
			return ""
		}
		return f(u, n)
	}
	s := c15Head + get(p.prolog) + "<r xmlns:p='up'" + get(p.start) + ">" + get(p.pre) + "<y>" + body + "</y>" + get(p.post) + "</r>"
	if p.name == "blanks after the root" {
		s += strings.Repeat(" ", n)
	}
	return s
}

// found is the node called y and the events in there
func found(c *Ctx, s string) (node []string, events []hx.Ev, doc *helium.Document, err error) {
	doc, err = parse(c, s)
	if err != nil {
		return
	}
	e := helium.Walk(doc, func(n helium.Node) error {
		if n.Type() == helium.ElementNode && n.Name() == "y" {
			node = hx.Node(n, 0)
		}
		return nil
	})
	if e != nil {
		c.Fail("walk: %s", e)
	}
	if m := hx.Links(doc); m != "" {
		c.Fail("links: %s", m)
	}
	rec, _, err2 := record(c, s, hx.AllCallbacks, false)
	if err2 != nil {
		c.Fail("rejected with a handler: %s", oneLine(err2))
		return
	}
	in := 0
	for _, e := range rec.Events {
		if e.Name == "y" && e.Kind == "start" {
			in++
		}
		if in > 0 {
			events = append(events, e)
		}
		if e.Name == "y" && e.Kind == "end" {
			in--
		}
	}
	return
}

func evText(evs []hx.Ev) []string {
	return hx.Stream(evs)
}

// baseForm is what a construct is without padding
type baseForm struct {
	node []string
	evs  []string
}

var baseForms = map[string]*baseForm{}

func unpadded(c *Ctx, body string) *baseForm {
	if f := baseForms[body]; f != nil {
		return f
	}
	s := pads[0].wrap(body, "", 0)
	if r := refParse(s); r.Verdict != ref.WF {
		return nil
	}
	node, evs, doc, err := found(c, s)
	if doc == nil || err != nil {
		c.Fail("well-formed document rejected: %v", err)
		return nil
	}
	if len(node) == 0 || len(evs) < 2 {
		c.Fail("element y is not there")
		return nil
	}
	f := &baseForm{node, evText(evs)}
	if len(baseForms) < 5000 {
		baseForms[body] = f
	}
	return f
}

// shifted compares a construct in its place with what it is without padding
func shifted(c *Ctx, p pad, body, u string, n int) {
	f := unpadded(c, body)
	if f == nil {
		return
	}
	s := p.wrap(body, u, n)
	node, evs, doc, err := found(c, s)
	if err != nil || doc == nil {
		c.Fail("rejected with %d times %q as %s: %s", n, u, p.name, oneLine(err))
		return
	}
	if d := hx.Diff(f.node, node); d != "" {
		c.Fail("%d times %q as %s: construct differs: %s", n, u, p.name, d)
		return
	}
	if d := hx.Diff(f.evs, evText(evs)); d != "" {
		c.Fail("%d times %q as %s: events of the construct differ: %s", n, u, p.name, d)
		return
	}
	c.Count("constructs padded: "+p.name, 1)
	c.Seen(fmt.Sprint(p.name, n, u, body))
	// the padding itself
	if len(s) < 1<<17 && c.P(1, 4) {
		r := refParse(s)
		if r.Verdict == ref.WF {
			if d := hx.Diff(hx.RefDoc(r.Doc), hx.Doc(doc)); d != "" {
				c.Fail("%d times %q as %s: %s", n, u, p.name, d)
			}
			c.Count("documents compared as a whole", 1)
		}
	}
}

// rejected makes sure that something is rejected for the same reason wherever it is
func rejected(c *Ctx, p pad, body, u string, n int) {
	s0 := pads[0].wrap(body, "", 0)
	if r := refParse(s0); r.Verdict != ref.NotWF {
		return
	}
	_, err0 := parse(c, s0)
	if err0 == nil {
		c.Fail("accepted, though not well-formed")
		return
	}
	s := p.wrap(body, u, n)
	_, err := parse(c, s)
	if err == nil {
		c.Fail("accepted with %d times %q as %s, though not well-formed", n, u, p.name)
		return
	}
	c.Count("constructs rejected", 1)
	c.Seen(fmt.Sprint(p.name, n, u, body))
}

// sizes of everything that could matter
func sizeAt(c *Ctx, k int, max int) int {
	var s []int
	for i := 0; i <= 72; i++ {
		s = append(s, i)
	}
	for _, b := range []int{100, 128, 200, 256, 400, 512, 1000, 1024, 2000, 2048, 3000, 4096, 5000, 8192, 10000, 16384, 32768, 65536} {
		for d := -3; d <= 3; d++ {
			s = append(s, b+d)
		}
	}
	sort.Ints(s)
	for len(s) > 0 && s[len(s)-1] > max {
		s = s[:len(s)-1]
	}
	return s[k%len(s)]
}

func name(n int, u string) string { return "n" + strings.Repeat(u, n-1) }

// scale is one thing made n times as long; what comes out is known
type scale struct {
	name string
	max  int
	make func(n int, u string) (doc string, want []string)
}

// lines are those of a canonical form, at depth 0 unless they say otherwise
func lines(a ...string) []string {
	for i, s := range a {
		if !strings.HasPrefix(s, "1 ") {
			a[i] = "0 " + s
		}
	}
	return a
}

var scales = []scale{
	{"element name", helium.MaxNameLength, func(n int, u string) (string, []string) {
		return "<" + name(n, u) + "></" + name(n, u) + ">", lines("elem " + name(n, u) + " {}")
	}},
	{"empty element name", helium.MaxNameLength, func(n int, u string) (string, []string) {
		return "<" + name(n, u) + "/>", lines("elem " + name(n, u) + " {}")
	}},
	{"attribute name", helium.MaxNameLength, func(n int, u string) (string, []string) {
		return "<r " + name(n, u) + "='v'/>", lines("elem r {}", "attr "+name(n, u)+"=\"v\"")
	}},
	{"prefix", helium.MaxNameLength - 10, func(n int, u string) (string, []string) {
		p := name(n, u)
		return "<" + p + ":r xmlns:" + p + "='u' " + p + ":a='v'/>", lines("elem "+p+":r {u}", fmt.Sprintf("ns %q=\"u\"", p), "attr "+p+":a=\"v\"")
	}},
	{"target", helium.MaxNameLength, func(n int, u string) (string, []string) {
		return "<r><?" + name(n, u) + " d?></r>", lines("elem r {}", fmt.Sprintf("1 pi %q", "<?"+name(n, u)+" d?>"))
	}},
	{"entity name", helium.MaxNameLength, func(n int, u string) (string, []string) {
		return "<!DOCTYPE r [<!ENTITY " + name(n, u) + " 'v'>]><r a='&" + name(n, u) + ";'>&" + name(n, u) + ";</r>", lines("dtd r", "elem r {}", "attr a=&\""+name(n, u)+"\";", "1 ref "+name(n, u))
	}},
	{"name of document type", helium.MaxNameLength, func(n int, u string) (string, []string) {
		return "<!DOCTYPE " + name(n, u) + "><r/>", lines("dtd "+name(n, u), "elem r {}")
	}},
	{"value", 1 << 20, func(n int, u string) (string, []string) {
		v := strings.Repeat(u, n)
		return "<r a='" + v + "'/>", lines("elem r {}", fmt.Sprintf("attr a=%q", v))
	}},
	{"text", 1 << 20, func(n int, u string) (string, []string) {
		v := strings.Repeat(u, n)
		return "<r>" + v + "</r>", lines("elem r {}", fmt.Sprintf("1 text %q", v))
	}},
	{"lines of text", 1 << 19, func(n int, u string) (string, []string) {
		return "<r>" + strings.Repeat(u+"\r\n", n) + "</r>", lines("elem r {}", fmt.Sprintf("1 text %q", strings.Repeat(u+"\n", n)))
	}},
	{"blanks", 1 << 20, func(n int, u string) (string, []string) {
		v := strings.Repeat(" ", n)
		return "<r>" + v + "<b/></r>", lines("elem r {}", fmt.Sprintf("1 text %q", v), "1 elem b {}")
	}},
	{"comment", 1 << 20, func(n int, u string) (string, []string) {
		v := strings.Repeat(u, n)
		return "<r><!--" + v + "--></r>", lines("elem r {}", fmt.Sprintf("1 comment %q", v))
	}},
	{"instruction", 1 << 20, func(n int, u string) (string, []string) {
		v := strings.Repeat(u, n)
		return "<r><?p " + v + "?></r>", lines("elem r {}", fmt.Sprintf("1 pi %q", "<?p "+v+"?>"))
	}},
	{"section", 1 << 20, func(n int, u string) (string, []string) {
		v := strings.Repeat(u, n)
		return "<r><![CDATA[" + v + "]]></r>", lines("elem r {}", fmt.Sprintf("1 text %q", v))
	}},
	{"brackets in section", 1 << 20, func(n int, u string) (string, []string) {
		v := strings.Repeat("]", n)
		return "<r><![CDATA[" + v + "]]></r>", lines("elem r {}", fmt.Sprintf("1 text %q", v))
	}},
	{"hyphens in comment", 1 << 18, func(n int, u string) (string, []string) {
		v := strings.Repeat("- ", n)
		return "<r><!--" + v + "--></r>", lines("elem r {}", fmt.Sprintf("1 comment %q", v))
	}},
	{"question marks in instruction", 1 << 18, func(n int, u string) (string, []string) {
		v := strings.Repeat("?", n)
		return "<r><?p " + v + "?></r>", lines("elem r {}", fmt.Sprintf("1 pi %q", "<?p "+v+"?>"))
	}},
	{"brackets in text", 1 << 18, func(n int, u string) (string, []string) {
		v := strings.Repeat("]", n)
		return "<r>" + v + "</r>", lines("elem r {}", fmt.Sprintf("1 text %q", v))
	}},
	{"character references", 1 << 17, func(n int, u string) (string, []string) {
		return "<r a='" + strings.Repeat("&#65;", n) + "'>" + strings.Repeat("&#x42;", n) + "</r>", lines("elem r {}", fmt.Sprintf("attr a=%q", strings.Repeat("A", n)), fmt.Sprintf("1 text %q", strings.Repeat("B", n)))
	}},
	{"digits of references", 1 << 12, func(n int, u string) (string, []string) {
		return "<r a='&#" + strings.Repeat("0", n) + "65;'>&#x" + strings.Repeat("0", n) + "42;</r>", lines("elem r {}", "attr a=\"A\"", "1 text \"B\"")
	}},
	{"references to entities", 1 << 14, func(n int, u string) (string, []string) {
		out := []string{"0 dtd r", "0 elem r {}"}
		for i := 0; i < n; i++ {
			out = append(out, "1 ref e")
		}
		return "<!DOCTYPE r [<!ENTITY e '" + u + "'>]><r>" + strings.Repeat("&e;", n) + "</r>", out
	}},
	{"text of entity", 1 << 18, func(n int, u string) (string, []string) {
		return "<!DOCTYPE r [<!ENTITY e '" + strings.Repeat(u, n) + "'>]><r>&e;</r>", lines("dtd r", "elem r {}", "1 ref e")
	}},
	{"siblings", 1 << 16, func(n int, u string) (string, []string) {
		out := []string{"0 elem r {}"}
		for i := 0; i < n; i++ {
			out = append(out, "1 elem s {}", "1 text \""+u+"\"")
		}
		return "<r>" + strings.Repeat("<s/>"+u, n) + "</r>", out
	}},
	{"attributes", 1 << 14, func(n int, u string) (string, []string) {
		out := []string{"0 elem r {}"}
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, " a%d='%s%d'", i, u, i)
			out = append(out, fmt.Sprintf("0 attr a%d=\"%s%d\"", i, u, i))
		}
		return "<r" + b.String() + "/>", out
	}},
	{"namespaces", 1 << 12, func(n int, u string) (string, []string) {
		var ns []string
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, " xmlns:p%d='u%d'", i, i)
			ns = append(ns, fmt.Sprintf("0 ns \"p%d\"=\"u%d\"", i, i))
		}
		sort.Strings(ns)
		last := n - 1
		return fmt.Sprintf("<r%s><p%d:s/><p0:s/></r>", b.String(), last), append(append([]string{"0 elem r {}"}, ns...), fmt.Sprintf("1 elem p%d:s {u%d}", last, last), "1 elem p0:s {u0}")
	}},
	{"nesting", 30000, func(n int, u string) (string, []string) {
		var out []string
		for i := 0; i < n; i++ {
			out = append(out, fmt.Sprintf("%d elem d {}", i))
		}
		for i := n; i > 1; i-- {
			out = append(out, fmt.Sprintf("%d text %q", i-1, u))
		}
		return strings.Repeat("<d>", n) + strings.Repeat("</d>"+u, n-1) + "</d>", out
	}},
	{"nesting with namespaces", 4000, func(n int, u string) (string, []string) {
		var b, e strings.Builder
		var out []string
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "<p:d xmlns:p='%s%d' xmlns='v%d'><e p:a='1'/>", u, i, i)
			out = append(out, fmt.Sprintf("%d elem p:d {%s%d}", i, u, i), fmt.Sprintf("%d ns \"\"=\"v%d\"", i, i), fmt.Sprintf("%d ns \"p\"=\"%s%d\"", i, u, i), fmt.Sprintf("%d elem e {v%d}", i+1, i), fmt.Sprintf("%d attr p:a=\"1\"", i+1))
		}
		for i := n; i > 0; i-- {
			e.WriteString("<p:f/></p:d>")
			out = append(out, fmt.Sprintf("%d elem p:f {%s%d}", i, u, i-1))
		}
		return b.String() + e.String(), out
	}},
	{"declarations of entities", 1 << 13, func(n int, u string) (string, []string) {
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "<!ENTITY e%d '%s'>", i, u)
		}
		return fmt.Sprintf("<!DOCTYPE r [%s]><r>&e0;&e%d;</r>", b.String(), n-1), []string{"0 dtd r", "0 elem r {}", "1 ref e0", fmt.Sprintf("1 ref e%d", n-1)}
	}},
	{"blanks everywhere", 1 << 12, func(n int, u string) (string, []string) {
		s := strings.Repeat(" ", n)
		t := strings.Repeat("\n", n)
		return "<?xml" + s + "version" + t + "=" + s + "'1.0'" + s + "encoding" + s + "=" + s + "'utf-8'" + s + "?>" + t + "<!DOCTYPE" + s + "r" + s + "[" + s + "<!ENTITY" + t + "e" + s + "'x'" + s + ">" + s + "]" + s + ">" + s + "<r" + s + "a" + s + "=" + t + "'v'" + s + "b='w'" + s + ">" + "&e;" + "</r" + s + ">" + s, lines("dtd r", "elem r {}", "attr a=\"v\"", "attr b=\"w\"", "1 ref e")
	}},
	{"enumeration", 1 << 12, func(n int, u string) (string, []string) {
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "|t%s%d", strings.Replace(u, "😀", "𐀀", -1), i)
		}
		return "<!DOCTYPE r [<!ATTLIST r a (" + b.String()[1:] + ") #IMPLIED>]><r a='t" + strings.Replace(u, "😀", "𐀀", -1) + "0'/>", lines("dtd r", "elem r {}", "attr a=\"t"+strings.Replace(u, "😀", "𐀀", -1)+"0\"")
	}},
	{"content model", 1 << 10, func(n int, u string) (string, []string) {
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, ",c%d", i)
		}
		return "<!DOCTYPE r [<!ELEMENT r (" + b.String()[1:] + ")>]><r/>", lines("dtd r", "elem r {}")
	}},
	{"comments", 1 << 13, func(n int, u string) (string, []string) {
		out := []string{}
		for i := 0; i < n; i++ {
			out = append(out, "0 comment \""+u+"\"", "0 pi \"<?p?>\"")
		}
		return strings.Repeat("<!--"+u+"--><?p?>", n) + "<r/>", append(out, "0 elem r {}")
	}},
}

func init() {
	register(&Check{
		ID:   "C15",
		Rule: "a case is a construct in a place: behind, inside or before padding of some kind, of some size, out of characters of one to four bytes, or something that is made long; distinct by all of these. What it is parsed into (and the events) is compared with what it is without the padding; what is made long with what it is known to be",
		Sections: []Section{
			// every construct behind some of all paddings
			batch("constructs at all offsets", 60000, 1200000, 1000, func(c *Ctx, k int) {
				p := pads[c.N(len(pads))]
				shifted(c, p, constructs[k%len(constructs)], units[c.N(4)], sizeAt(c, c.N(1<<30), []int{300, 300, 2100, 5000}[c.N(4)]))
			}),
			batch("one construct next to another", len(constructs)*len(constructs), 10*len(constructs)*len(constructs), 500, func(c *Ctx, k int) {
				p := pads[c.N(len(pads))]
				body := constructs[k%len(constructs)] + constructs[k/len(constructs)%len(constructs)]
				shifted(c, p, body, units[c.N(4)], sizeAt(c, c.N(1<<30), 260))
			}),
			batch("shift by every number of bytes", 1400, 8400, 20, func(c *Ctx, k int) {
				// all of the constructs at once, shifted by k
				body := strings.Join(constructs, "<z/>")
				if k%2 == 1 {
					body = strings.Join(constructs, "")
				}
				shifted(c, pads[[]int{0, 3, 5, 20, 22}[c.N(5)]], body, "x", k)
			}),
			batch("documents", 2500, 80000, 50, func(c *Ctx, k int) {
				p := gen.Random(c.Rand)
				s := gen.Doc(c.Rand, p)
				if i := strings.Index(s, "<?xml "); i == 0 || strings.Contains(s, "<!DOCTYPE") || strings.Contains(s, "<?xml\n") || strings.Contains(s, "<?xml\t") || strings.Contains(s, "<?xml\r") {
					return
				}
				r := refParse(s)
				if r.Verdict != ref.WF || len(s) > 20000 {
					return
				}
				// only the root can be content
				if len(r.Doc.Children) != 1 {
					return
				}
				shifted(c, pads[c.N(len(pads))], strings.TrimSpace(s), units[c.N(4)], sizeAt(c, c.N(1<<30), 600))
			}),
			batch("constructs at large offsets", 300, 6000, 5, func(c *Ctx, k int) {
				i := c.N(len(pads))
				max := 66000
				if strings.HasPrefix(pads[i].name, "nesting") || pads[i].name == "attributes" || pads[i].name == "namespaces" {
					max = 9000
				}
				shifted(c, pads[i], strings.Join(constructs, ""), units[c.N(4)], sizeAt(c, 73+c.N(1<<20), max))
			}),
			batch("rejected at all offsets", 40000, 400000, 1000, func(c *Ctx, k int) {
				body := rejects[k%len(rejects)]
				if c.P(1, 2) {
					body = c.Pick(constructs...) + body
				}
				if c.P(1, 2) {
					body += c.Pick(constructs...)
				}
				rejected(c, pads[c.N(len(pads))], body, units[c.N(4)], sizeAt(c, c.N(1<<30), []int{300, 300, 2100, 5000}[c.N(4)]))
			}),
			{Name: "sizes", Quick: len(scales) * 4, Thorough: len(scales) * 40, CPU: 120, Run: func(c *Ctx, i int) {
				sc := scales[i%len(scales)]
				u := units[i/len(scales)%4]
				many := 60
				var ns []int
				for j := 0; j < many; j++ {
					n := 1 + sizeAt(c, c.N(1<<30), sc.max-1)
					if n > 5000 && j > 6 {
						n = n % 5000
						if n == 0 {
							n = 1
						}
					}
					ns = append(ns, n)
				}
				if i < 4*len(scales) {
					ns = append(ns, sc.max, sc.max-1)
				} else {
					ns = append(ns, 1+c.N(sc.max))
				}
				for _, n := range ns {
					uu := u
					if strings.Contains(sc.name, "name") || sc.name == "prefix" || sc.name == "target" {
						uu = strings.Replace(u, "😀", "𐀀", -1)
					}
					s, want := sc.make(n, uu)
					doc, err := parse(c, s)
					if err != nil {
						c.Fail("%s of %d times %q rejected: %s", sc.name, n, u, head(oneLine(err), 300))
						return
					}
					if d := hx.Diff(want, hx.Doc(doc)); d != "" {
						c.Fail("%s of %d times %q: %s", sc.name, n, u, d)
						return
					}
					if m := hx.Links(doc); m != "" {
						c.Fail("%s of %d times %q: links: %s", sc.name, n, u, m)
						return
					}
					c.Count("sizes of "+sc.name, 1)
					c.Seen(fmt.Sprint(sc.name, n, u))
					if n > 3000 && c.P(1, 2) {
						continue
					}
					out, err := doc.XMLString()
					if err != nil {
						c.Fail("%s of %d times %q: not serialised: %s", sc.name, n, u, oneLine(err))
						return
					}
					doc2, err := parse(c, out)
					if err != nil {
						c.Fail("%s of %d times %q: serialised form rejected: %s", sc.name, n, u, head(oneLine(err), 300))
						return
					}
					if d := hx.Diff(want, hx.Doc(doc2)); d != "" {
						c.Fail("%s of %d times %q: serialised form: %s", sc.name, n, u, d)
						return
					}
				}
			}},
			{Name: "deepest", Quick: 2, Thorough: 4, CPU: 200, Run: func(c *Ctx, i int) {
				n := []int{100000, helium.MaxElementDepth, helium.MaxElementDepth - 1, 300000}[i]
				s := strings.Repeat("<d>", n-1) + "<y>" + "text<e/>" + "</y>" + strings.Repeat("</d>", n-1)
				if i != 0 {
					s = strings.Repeat("<d>", n-2) + "<y>" + "text<e/>" + "</y>" + strings.Repeat("</d>", n-2)
				}
				doc, err := parse(c, s)
				if err != nil {
					c.Fail("nesting of %d rejected: %s", n, oneLine(err))
					return
				}
				depth := 0
				var node helium.Node = doc
				for node.FirstChild() != nil && node.Name() != "y" {
					if x := node.FirstChild(); x.Parent() != node || node.LastChild() != x {
						c.Fail("links at depth %d", depth)
						return
					}
					node = node.FirstChild()
					depth++
				}
				if d := hx.Diff([]string{"0 elem y {}", "1 text \"text\"", "1 elem e {}"}, hx.Node(node, 0)); d != "" {
					c.Fail("nesting of %d: %s", n, d)
				}
				if i == 0 && depth != n || i != 0 && depth != n-1 {
					c.Fail("nesting of %d is %d", n, depth)
				}
				c.Seen(fmt.Sprint("deep", n))
			}},
		},
	})
}
