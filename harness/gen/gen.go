// Package gen makes documents: well-formed ones over all of the supported
// constructs in every lexical spelling, and mutations of them.
package gen

import (
	"fmt"
	"strings"
)

// Rand is a small deterministic random number generator (splitmix64), so
// that cases depend on nothing but their seed
type Rand struct{ s uint64 }

// NewRand returns a generator for a seed and a stream
func NewRand(seed int64, stream string, n int) *Rand {
	r := &Rand{uint64(seed) * 0x9E3779B97F4A7C15}
	for i := 0; i < len(stream); i++ {
		r.s = r.s*31 + uint64(stream[i])
	}
	r.s ^= uint64(n) * 0xD1342543DE82EF95
	for i := 0; i < 4; i++ {
		r.Uint64()
	}
	return r
}

func (r *Rand) Uint64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a number in [0, n)
func (r *Rand) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// P is true with a probability of num/den
func (r *Rand) P(num, den int) bool { return r.N(den) < num }

// Pick returns one of its arguments
func (r *Rand) Pick(s ...string) string { return s[r.N(len(s))] }

// Profile says what to put into a document
type Profile struct {
	Size        int // about how many nodes
	Depth       int
	NS          bool
	DTD         bool
	Entities    bool
	AttDecls    bool
	ElemDecls   bool
	PERefs      bool
	Decl        bool // XML declaration
	Encoding    bool // UTF-8 in the XML declaration
	CR          bool // line ends other than LF
	Misc        bool // PIs and comments
	CData       bool
	BOM         bool
	ASCII       bool
	NoMultiline bool // no line ends within tags and markup
}

// Random returns a random profile
func Random(r *Rand) Profile {
	p := Profile{
		Size: 2 + r.N(30), Depth: 1 + r.N(6),
		NS: r.P(1, 2), DTD: r.P(1, 2), Decl: r.P(1, 2), Encoding: r.P(1, 3), CR: r.P(1, 4),
		Misc: r.P(2, 3), CData: r.P(2, 3), BOM: r.P(1, 20), ASCII: r.P(1, 3),
	}
	if p.DTD {
		p.Entities = r.P(2, 3)
		p.AttDecls = r.P(2, 3)
		p.ElemDecls = r.P(1, 2)
	}
	if r.P(1, 10) {
		p.Size = 100 + r.N(200)
	}
	return p
}

type g struct {
	*Rand
	b     strings.Builder
	p     Profile
	left  int
	scope []map[string]string
	ents  []string        // entities fit for content
	aents []string        // entities fit for attribute values
	tok   map[string]bool // element\x00attribute declared with a tokenized type
	elems []string
	atts  map[string][]string
	defNS bool
	seq   int
}

// Doc makes a well-formed document
func Doc(r *Rand, p Profile) string {
	x := &g{Rand: r, p: p, left: p.Size, scope: []map[string]string{{}}, tok: map[string]bool{}, atts: map[string][]string{}}
	x.document()
	s := x.b.String()
	if p.CR {
		s = lineEnds(r, s)
	}
	if p.BOM {
		s = "\uFEFF" + s
	}
	return s
}

// lineEnds spells each line end in a random way. Two of them must not become
// one (CR LF).
func lineEnds(r *Rand, s string) string {
	var b strings.Builder
	mode := r.N(4)
	cr := false
	for i := 0; i < len(s); i++ {
		if s[i] != '\n' {
			b.WriteByte(s[i])
			cr = false
			continue
		}
		m := mode
		if m == 3 {
			m = r.N(3)
		}
		if m == 0 && cr {
			m = 1
		}
		b.WriteString([]string{"\n", "\r\n", "\r"}[m])
		cr = m == 2
	}
	return b.String()
}

func (x *g) w(s ...string) {
	for _, v := range s {
		x.b.WriteString(v)
	}
}

// sp writes white space, s0 possibly none
func (x *g) sp() {
	x.w(x.Pick(" ", " ", " ", " ", "\n", "\t", "  ", " \n ", "\n\n", "\t\t "))
}

func (x *g) s0() {
	if x.P(1, 4) {
		x.sp()
	}
}

var asciiNames = []string{"a", "b", "c", "doc", "p", "item", "x1", "A", "_u", "n-1", "a.b", "para", "xm", "Xml2", "e"}
var wideNames = []string{"é", "été", "日本", "данные", "a·b", "aé", "Ωmega", "x\u0300", "𐀀b", "ñ", "\u2c00", "a\u203f", "\u0370x", "ﷰ", "a\u0301"}

func (x *g) ncname() string {
	if !x.p.ASCII && x.P(1, 5) {
		return wideNames[x.N(len(wideNames))]
	}
	if x.P(1, 40) {
		return strings.Repeat(asciiNames[x.N(len(asciiNames))], 20+x.N(60))
	}
	return asciiNames[x.N(len(asciiNames))]
}

var prefixes = []string{"p", "q", "ns1", "é"}
var uris = []string{"u:1", "u:2", "http://example.com/ns?a=1&b=2", "urn:x", "日本"}

func (x *g) document() {
	if x.p.Decl {
		x.xmldecl()
	}
	x.misc()
	if x.p.DTD {
		x.doctype()
		x.misc()
	}
	x.element(x.p.Depth)
	x.misc()
}

func (x *g) quote(v string) {
	q := x.Pick(`"`, `'`)
	x.w(q, v, q)
}

func (x *g) eq() {
	x.s0()
	x.w("=")
	x.s0()
}

func (x *g) xmldecl() {
	x.w("<?xml")
	x.sp()
	x.w("version")
	x.eq()
	x.quote(x.Pick("1.0", "1.0", "1.0", "1.1"))
	if x.p.Encoding {
		x.sp()
		x.w("encoding")
		x.eq()
		x.quote(x.Pick("UTF-8", "utf-8", "utf8", "UTF8", "Utf-8"))
	}
	if x.P(1, 3) {
		x.sp()
		x.w("standalone")
		x.eq()
		x.quote(x.Pick("yes", "no"))
	}
	x.s0()
	x.w("?>")
}

func (x *g) misc() {
	for n := x.N(3); n > 0; n-- {
		switch {
		case x.p.Misc && x.P(1, 2):
			x.comment()
		case x.p.Misc && x.P(1, 2):
			x.pi()
		default:
			x.sp()
		}
	}
}

func (x *g) comment() {
	s := x.chars(x.N(12), "<&>]]>\"'?%")
	s = strings.Replace(s, "--", "- ", -1)
	s = strings.Replace(s, "--", "- ", -1)
	if strings.HasSuffix(s, "-") {
		s += " "
	}
	x.w("<!--", s, "-->")
}

func (x *g) pi() {
	t := x.ncname()
	if strings.EqualFold(t, "xml") {
		t = "x"
	}
	x.w("<?", x.Pick(t, t, "xml-stylesheet", "xml-model", "xmlx"))
	if x.P(3, 4) {
		x.sp()
		s := x.chars(x.N(12), "<&>]]>\"'-%")
		s = strings.Replace(s, "?>", "? >", -1)
		s = strings.TrimLeft(s, " \t\n")
		x.w(s)
		if strings.HasSuffix(s, "?") && x.P(1, 2) {
			x.w("?")
		}
	}
	x.w("?>")
}

var special = []rune{0x7F, 0x85, 0xA0, 0xE9, 0xD7, 0xDF, 0xE0, 0x7FF, 0x800, 0x2028, 0x20AC, 0xD7FF, 0xE000, 0xFFFD, 0xFEFF, 0x10000, 0x1F600, 0x10FFFF}

const plain = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 .,;:!()=+*/_-|~^{}[@#$"

// chars returns n characters, some of them out of hot
func (x *g) chars(n int, hot string) string {
	var b strings.Builder
	h := []rune(hot)
	for i := 0; i < n; i++ {
		switch k := x.N(20); {
		case k < 4 && len(h) > 0:
			b.WriteRune(h[x.N(len(h))])
		case k == 4 && !x.p.ASCII:
			b.WriteRune(special[x.N(len(special))])
		case k == 5:
			b.WriteString(x.Pick(" ", "\n", "\t", "  ", "\n\n"))
		default:
			b.WriteByte(plain[x.N(len(plain))])
		}
	}
	return b.String()
}

// spell writes a character as itself or as one of its references
func (x *g) spell(r rune, raw bool) string {
	k := x.N(24)
	if raw && k >= 4 {
		return string(r)
	}
	switch {
	case k%3 == 0:
		if x.P(1, 4) {
			return fmt.Sprintf("&#%0*d;", 1+x.N(12), r)
		}
		return fmt.Sprintf("&#%d;", r)
	case k%3 == 1 || !strings.ContainsRune(`<>&'"`, r):
		if x.P(1, 4) {
			return fmt.Sprintf("&#x%0*x;", 1+x.N(12), r)
		}
		return fmt.Sprintf(x.Pick("&#x%x;", "&#x%X;"), r)
	}
	return map[rune]string{'<': "&lt;", '>': "&gt;", '&': "&amp;", '\'': "&apos;", '"': "&quot;"}[r]
}

// text writes character data
func (x *g) text(n int) {
	s := x.chars(n, "<&>]]>\"'-")
	out := []byte{}
	for _, r := range s {
		raw := r != '<' && r != '&'
		if r == '>' && strings.HasSuffix(string(out), "]]") {
			raw = false
		}
		out = append(out, x.spell(r, raw)...)
	}
	if x.P(1, 12) {
		out = append(out, x.Pick("&#13;", "&#xD;", "&#10;", "&#9;", "&#32;")...)
	}
	// text of several pieces could make up ]]>
	if strings.HasSuffix(x.b.String()[max(0, x.b.Len()-2):], "]]") || strings.HasSuffix(x.b.String()[max(0, x.b.Len()-1):], "]") {
		x.w(" ")
	}
	x.w(string(out))
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// attval writes a quoted attribute value
func (x *g) attval(n int, refs bool) {
	s := x.chars(n, "<&>'\"")
	q := x.Pick(`"`, `'`)
	x.w(q)
	for _, r := range s {
		raw := r != '<' && r != '&' && string(r) != q
		x.w(x.spell(r, raw))
		if refs && len(x.aents) > 0 && x.P(1, 15) {
			x.w("&", x.aents[x.N(len(x.aents))], ";")
		}
	}
	if x.P(1, 10) {
		x.w(x.Pick("&#13;", "&#xD;", "&#10;", "&#9;", "&#32;", " ", "  ", "\n", "\t"))
	}
	if refs && len(x.aents) > 0 && x.P(1, 8) {
		x.w("&", x.aents[x.N(len(x.aents))], ";")
	}
	x.w(q)
}

func (x *g) lookup(p string) (string, bool) {
	for i := len(x.scope) - 1; i >= 0; i-- {
		if u, ok := x.scope[i][p]; ok {
			return u, true
		}
	}
	return "", false
}

func escAttr(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", "'", "&apos;", `"`, "&quot;").Replace(s)
}

func (x *g) element(depth int) {
	x.left--
	scope := map[string]string{}
	x.scope = append(x.scope, scope)
	defer func() { x.scope = x.scope[:len(x.scope)-1] }()

	type att struct{ name, val string }
	var decls []att
	if x.p.NS {
		for n := x.N(3); n > 0 && x.P(1, 2); n-- {
			p := ""
			if x.P(2, 3) {
				p = prefixes[x.N(len(prefixes))]
			}
			if _, dup := scope[p]; dup {
				continue
			}
			u := uris[x.N(len(uris))]
			if p == "" && x.P(1, 4) {
				u = ""
			}
			scope[p] = u
			if p == "" {
				decls = append(decls, att{"xmlns", escAttr(u)})
			} else {
				decls = append(decls, att{"xmlns:" + p, escAttr(u)})
			}
		}
	}
	inScope := []string{}
	if x.p.NS {
		for _, p := range prefixes {
			if _, ok := x.lookup(p); ok {
				inScope = append(inScope, p)
			}
		}
	}
	name := x.ncname()
	if len(x.elems) > 0 && x.P(2, 3) {
		name = x.elems[x.N(len(x.elems))]
	} else if len(inScope) > 0 && x.P(1, 2) {
		name = inScope[x.N(len(inScope))] + ":" + name
	}
	if p, _, ok := cut(name, ":"); ok {
		if _, ok := x.lookup(p); !ok {
			u := uris[x.N(len(uris))]
			scope[p] = u
			decls = append(decls, att{"xmlns:" + p, escAttr(u)})
		}
	}
	x.w("<", name)
	used := map[string]bool{}
	exp := map[string]bool{}
	// the attributes with a prefix that are defaulted count as well
	for _, a := range x.atts[name] {
		if p, l, ok := cut(a, ":"); ok {
			if u, ok := x.lookup(p); ok {
				exp[u+" "+l] = true
			}
		}
	}
	n := x.N(4)
	if x.P(1, 20) {
		n = 20 + x.N(30)
	}
	todo := len(decls)
	for i := 0; i < n || todo > 0; i++ {
		if todo > 0 && (x.P(1, 2) || i >= n) {
			todo--
			d := decls[todo]
			x.sp()
			x.w(d.name)
			x.eq()
			x.quote(d.val)
			continue
		}
		if i >= n {
			continue
		}
		an := x.ncname()
		if ds := x.atts[name]; len(ds) > 0 && x.P(1, 2) {
			an = ds[x.N(len(ds))]
		} else if len(inScope) > 0 && x.P(1, 3) {
			an = inScope[x.N(len(inScope))] + ":" + an
		} else if x.P(1, 12) {
			an = x.Pick("xml:lang", "xml:space", "xml:base")
		}
		if n > 10 && x.P(2, 3) {
			x.seq++
			an += fmt.Sprint(x.seq)
		}
		if used[an] {
			continue
		}
		if p, l, ok := cut(an, ":"); ok && p != "xml" {
			u, ok := x.lookup(p)
			if !ok || exp[u+" "+l] {
				continue
			}
			exp[u+" "+l] = true
		}
		used[an] = true
		x.sp()
		x.w(an)
		x.eq()
		if x.tok[name+"\x00"+an] {
			x.tokval()
		} else {
			x.attval(x.N(10), true)
		}
	}
	x.s0()
	if x.P(1, 4) {
		x.w("/>")
		return
	}
	x.w(">")
	x.content(depth)
	x.w("</", name)
	x.s0()
	x.w(">")
}

// tokval writes the value of a tokenized attribute
func (x *g) tokval() {
	q := x.Pick(`"`, `'`)
	x.w(q)
	blank := func() {
		for n := x.N(3); n > 0; n-- {
			x.w(x.Pick(" ", " ", "\n", "\t", "&#32;", "&#x20;", "&#9;", "&#10;", "&#13;"))
		}
	}
	for n := x.N(4); n > 0; n-- {
		blank()
		x.w(x.ncname())
		x.w(x.Pick("", " ", " "))
	}
	blank()
	x.w(q)
}

func cut(s, sep string) (string, string, bool) {
	if i := strings.Index(s, sep); i >= 0 {
		return s[:i], s[i+len(sep):], true
	}
	return s, "", false
}

func (x *g) content(depth int) {
	n := x.N(5)
	if depth <= 0 {
		n = x.N(2)
	}
	if x.P(1, 15) {
		n = 10 + x.N(20)
	}
	for ; n > 0; n-- {
		switch k := x.N(12); {
		case k < 3 && depth > 0 && x.left > 0:
			x.element(depth - 1)
		case k == 3 && x.p.Misc:
			x.comment()
		case k == 4 && x.p.Misc:
			x.pi()
		case k == 5 && x.p.CData:
			s := x.chars(x.N(12), "<&>]]>\"'")
			x.w("<![CDATA[", strings.Replace(s, "]]>", "]] >", -1), "]]>")
		case k == 6 && len(x.ents) > 0:
			x.w("&", x.ents[x.N(len(x.ents))], ";")
		case k == 7:
			x.sp()
		default:
			x.text(1 + x.N(10))
		}
	}
}
