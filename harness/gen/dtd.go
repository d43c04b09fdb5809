package gen

import (
	"fmt"
	"strings"
)

func (x *g) qname() string {
	if x.p.NS && x.P(1, 4) {
		return prefixes[x.N(len(prefixes))] + ":" + x.ncname()
	}
	return x.ncname()
}

func (x *g) doctype() {
	x.w("<!DOCTYPE")
	x.sp()
	x.w(x.qname())
	x.s0()
	if x.P(1, 10) {
		x.w(">")
		return
	}
	x.w("[")
	declared := map[string]bool{}
	for n := x.N(9); n > 0; n-- {
		x.s0()
		switch k := x.N(10); {
		case k < 3 && x.p.ElemDecls:
			name := x.qname()
			if declared[name] {
				continue
			}
			declared[name] = true
			x.elems = append(x.elems, name)
			x.elementDecl(name)
		case k < 6 && x.p.AttDecls:
			x.attlistDecl()
		case k < 8 && x.p.Entities:
			x.entityDecl()
		case k == 8 && x.p.Misc:
			x.comment()
		case k == 9 && x.p.Misc:
			x.pi()
		}
	}
	x.s0()
	x.w("]")
	x.s0()
	x.w(">")
}

func (x *g) elementDecl(name string) {
	x.w("<!ELEMENT")
	x.sp()
	x.w(name)
	x.sp()
	switch x.N(6) {
	case 0:
		x.w("EMPTY")
	case 1:
		x.w("ANY")
	case 2:
		x.w("(")
		x.s0()
		x.w("#PCDATA")
		x.s0()
		n := x.N(4)
		seen := map[string]bool{}
		k := 0
		for i := 0; i < n; i++ {
			e := x.qname()
			if seen[e] {
				continue
			}
			seen[e] = true
			k++
			x.w("|")
			x.s0()
			x.w(e)
			x.s0()
		}
		x.w(")")
		if k > 0 || x.P(1, 2) {
			x.w("*")
		}
	default:
		x.Model(x.N(4))
	}
	x.s0()
	x.w(">")
}

// Model writes a content model
func (x *g) Model(depth int) {
	x.w("(")
	op := x.Pick(",", "|")
	n := 1 + x.N(4)
	for i := 0; i < n; i++ {
		if i > 0 {
			x.s0()
			x.w(op)
		}
		x.s0()
		if depth > 0 && x.P(1, 2) {
			x.Model(depth - 1)
		} else {
			x.w(x.qname(), x.Pick("", "", "?", "*", "+"))
		}
	}
	x.s0()
	x.w(")", x.Pick("", "", "?", "*", "+"))
}

// ModelText returns just a content model
func ModelText(r *Rand, depth int, ascii bool) string {
	x := &g{Rand: r, p: Profile{ASCII: ascii}}
	x.Model(depth)
	return x.b.String()
}

func (x *g) attlistDecl() {
	elem := x.qname()
	if len(x.elems) > 0 && x.P(1, 2) {
		elem = x.elems[x.N(len(x.elems))]
	} else {
		x.elems = append(x.elems, elem)
	}
	x.w("<!ATTLIST")
	x.sp()
	x.w(elem)
	for n := x.N(4); n > 0; n-- {
		name := x.ncname()
		pre := false
		if x.p.NS && x.P(1, 6) {
			name = prefixes[x.N(len(prefixes))] + ":" + name
			pre = true
		}
		if _, dup := x.tok[elem+"\x00"+name]; dup && x.P(3, 4) {
			continue
		}
		_, dup := x.tok[elem+"\x00"+name]
		x.sp()
		x.w(name)
		x.sp()
		tok := true
		typ := x.Pick("CDATA", "CDATA", "CDATA", "ID", "IDREF", "IDREFS", "NMTOKEN", "NMTOKENS", "ENTITY", "ENTITIES", "enum", "enum", "NOTATION")
		if typ == "CDATA" {
			tok = false
		}
		if !dup {
			x.tok[elem+"\x00"+name] = tok
			x.atts[elem] = append(x.atts[elem], name)
		}
		if typ == "enum" || typ == "NOTATION" {
			if typ == "NOTATION" {
				x.w(typ)
				x.sp()
			}
			x.w("(")
			for i, k := 0, 1+x.N(4); i < k; i++ {
				if i > 0 {
					x.w("|")
				}
				x.s0()
				if typ == "enum" {
					x.w(x.Pick("", "-", ".", "1"))
				}
				x.w(x.ncname(), fmt.Sprint(i))
				x.s0()
			}
			x.w(")")
		} else {
			x.w(typ)
		}
		x.sp()
		k := x.N(5)
		if typ == "ID" || pre {
			k = x.N(2)
		}
		switch k {
		case 0:
			x.w("#IMPLIED")
		case 1:
			x.w("#REQUIRED")
		case 2:
			x.w("#FIXED")
			x.sp()
			fallthrough
		default:
			if tok {
				x.tokval()
			} else {
				x.attval(x.N(8), true)
			}
		}
	}
	x.s0()
	x.w(">")
}

func (x *g) entityDecl() {
	x.w("<!ENTITY")
	x.sp()
	if x.P(1, 8) {
		x.w("%")
		x.sp()
		x.w(x.ncname())
		x.sp()
		x.quote(strings.Replace(x.chars(x.N(6), "<>!"), "'", "", -1))
		x.s0()
		x.w(">")
		return
	}
	x.seq++
	name := x.ncname() + fmt.Sprint(x.seq)
	if len(x.ents) > 0 && x.P(1, 10) {
		name = x.ents[x.N(len(x.ents))]
	}
	x.w(name)
	x.sp()
	q := x.Pick(`"`, `'`)
	x.w(q)
	sub := &g{Rand: x.Rand, p: x.p, left: 3, scope: []map[string]string{{}}, tok: map[string]bool{}, ents: x.ents, aents: x.aents}
	sub.p.NS = false
	attr := x.P(1, 2)
	if attr {
		// text only, fit for attribute values
		for n := x.N(4); n > 0; n-- {
			switch {
			case len(x.aents) > 0 && x.P(1, 3):
				sub.w("&", x.aents[x.N(len(x.aents))], ";")
			default:
				s := sub.chars(x.N(8), "'\">")
				s = strings.Replace(s, "]]>", "", -1)
				sub.w(s)
				sub.w(x.Pick("", "", "&amp;", "&lt;", "&#38;lt;", "&#38;#38;", "&#x41;", "&#38;amp;", "&#60;"[:0]))
			}
		}
	} else {
		sub.content(1)
	}
	// the literal can't have its quotes, a percent sign or (as what they
	// make is markup already) character references that become markup
	lit := sub.b.String()
	lit = strings.Replace(lit, "%", "", -1)
	if attr || x.P(1, 2) {
		lit = strings.Replace(lit, q, map[string]string{`"`: "&#34;", `'`: "&#39;"}[q], -1)
	} else {
		lit = strings.Replace(lit, q, "", -1)
	}
	x.w(lit, q)
	x.s0()
	x.w(">")
	x.ents = append(x.ents, name)
	if attr {
		x.aents = append(x.aents, name)
	}
}
