package ref

import "strings"

func (p *parser) doctype() {
	p.need("<!DOCTYPE")
	p.needSp()
	p.doc.HasDTD = true
	p.doc.DTDName = p.qname()
	s := p.sp()
	if p.has("SYSTEM") || p.has("PUBLIC") {
		if !s {
			p.fail("white space expected")
		}
		p.skip("external identifier")
	}
	dn := &Node{Kind: KDTD, Name: p.doc.DTDName}
	p.doc.Children = append(p.doc.Children, dn)
	p.event("doctype", dn, nil, p.doc.DTDName)
	if p.eat("[") {
		p.doc.HasSubset = true
		p.inSubset = true
		p.subset()
		p.inSubset = false
		p.need("]")
		p.sp()
	}
	p.need(">")
	p.event("end-doctype", dn, nil, "")
}

func (p *parser) subset() {
	for {
		p.sp()
		var ds []*Decl
		switch {
		case p.at(0) == ']':
			return
		case p.at(0) == '%':
			p.pos++
			st := p.pos
			n := p.ncname()
			p.need(";")
			p.peRef(st, n)
		case p.has("<!--"):
			ds = []*Decl{{Kind: DComment, Data: p.comment()}}
			p.event("comment", &Node{Kind: KComment, Data: ds[0].Data}, nil, ds[0].Data)
		case p.has("<?"):
			t, d := p.pi()
			ds = []*Decl{{Kind: DPI, Name: t, Data: d}}
			p.event("pi", &Node{Kind: KPI, Name: t, Data: d}, nil, "")
		case p.has("<!ELEMENT"):
			ds = []*Decl{p.elementDecl()}
		case p.unread && (p.has("<!ATTLIST") || p.has("<!ENTITY")):
			p.skip("declaration after a parameter entity that isn't declared")
		case p.has("<!ATTLIST"):
			ds = p.attlistDecl()
		case p.has("<!ENTITY"):
			ds = []*Decl{p.entityDecl()}
		case p.has("<!NOTATION"):
			p.skip("notation")
		default:
			p.fail("markup declaration expected")
		}
		p.doc.Decls = append(p.doc.Decls, ds...)
	}
}

// peRef is called after a reference to a parameter entity in the subset
func (p *parser) peRef(st int, name string) {
	var d *Decl
	for _, x := range p.doc.Decls {
		if x.Kind == DPEntity && x.Name == name {
			d = x
			break
		}
	}
	end := p.pos
	p.pos = st
	switch {
	case !p.opts.PE:
		p.skip("reference to parameter entity %s", name)
	case d != nil:
		if strings.Trim(d.Text, " \t\r\n") != "" {
			p.skip("parameter entity %s isn't empty", name)
		}
	case p.doc.Standalone == "yes":
		p.fail("parameter entity %s not declared", name)
	case !p.sawPE:
		// the first one: whether this is a fault is disputed
		p.skip("parameter entity %s not declared", name)
	default:
		// declarations that follow needn't be looked at
		p.unread = true
	}
	p.sawPE = true
	p.pos = end
}

func (p *parser) declSp() {
	// a reference to a parameter entity is not recognised within markup
	// declarations in the internal subset
	p.needSp()
}

func (p *parser) elementDecl() *Decl {
	p.need("<!ELEMENT")
	p.declSp()
	st := p.pos
	d := &Decl{Kind: DElement, Name: p.qname()}
	for _, x := range p.doc.Decls {
		if x.Kind == DElement && x.Name == d.Name {
			p.pos = st
			p.skip("element declared twice")
		}
	}
	p.declSp()
	switch {
	case p.eat("EMPTY"):
		d.Type = "EMPTY"
	case p.eat("ANY"):
		d.Type = "ANY"
	case p.at(0) == '(':
		st := p.pos
		p.pos++
		p.sp()
		if p.eat("#PCDATA") {
			d.Type = "MIXED"
			p.sp()
			for p.eat("|") {
				p.sp()
				d.Mixed = append(d.Mixed, p.qname())
				p.sp()
			}
			p.need(")")
			if !p.eat("*") && len(d.Mixed) > 0 {
				p.fail("'*' expected")
			}
			break
		}
		p.pos = st
		d.Type = "CHILDREN"
		d.Model = p.cp(0)
	default:
		p.fail("content specification expected")
	}
	p.sp()
	p.need(">")
	p.event("element-decl", nil, d, "")
	return d
}

// cp parses a choice or sequence
func (p *parser) cp(depth int) *CP {
	if depth > 110 {
		p.skip("deep content model")
	}
	m := &CP{}
	p.need("(")
	for {
		p.sp()
		if p.at(0) == '(' {
			m.Kids = append(m.Kids, p.cp(depth+1))
		} else {
			k := &CP{Name: p.qname()}
			k.Occ = p.occ()
			m.Kids = append(m.Kids, k)
		}
		p.sp()
		if p.eat(")") {
			break
		}
		c := p.at(0)
		if c != ',' && c != '|' || m.Op != 0 && m.Op != byte(c) {
			p.fail("',' or '|' expected")
		}
		m.Op = byte(c)
		p.pos++
	}
	if m.Op == 0 {
		m.Op = ','
	}
	m.Occ = p.occ()
	return m
}

func (p *parser) occ() byte {
	switch c := p.at(0); c {
	case '?', '*', '+':
		p.pos++
		return byte(c)
	}
	return 0
}

func (p *parser) attlistDecl() []*Decl {
	p.need("<!ATTLIST")
	p.declSp()
	elem := p.qname()
	var ds []*Decl
	for {
		s := p.sp()
		if p.eat(">") {
			return ds
		}
		if !s {
			p.fail("white space expected")
		}
		d := &Decl{Kind: DAttlist, Elem: elem, Name: p.qname()}
		p.declSp()
		switch {
		case p.has("CDATA"), p.has("ENTITY"), p.has("ENTITIES"), p.has("NMTOKEN"), p.has("ID"):
			for _, t := range []string{"CDATA", "ENTITIES", "ENTITY", "NMTOKENS", "NMTOKEN", "IDREFS", "IDREF", "ID"} {
				if p.eat(t) {
					d.Type = t
					break
				}
			}
		case p.eat("NOTATION"):
			d.Type = "NOTATION"
			p.declSp()
			p.need("(")
			for {
				p.sp()
				d.Enum = append(d.Enum, p.ncname())
				p.sp()
				if p.eat(")") {
					break
				}
				p.need("|")
			}
		case p.eat("("):
			d.Type = "ENUM"
			for {
				p.sp()
				d.Enum = append(d.Enum, p.nmtoken())
				p.sp()
				if p.eat(")") {
					break
				}
				p.need("|")
			}
		default:
			p.fail("attribute type expected")
		}
		p.declSp()
		switch {
		case p.eat("#REQUIRED"):
			d.Def = "#REQUIRED"
		case p.eat("#IMPLIED"):
			d.Def = "#IMPLIED"
		default:
			if p.eat("#FIXED") {
				d.Def = "#FIXED"
				p.declSp()
			}
			st := p.pos
			d.Value = p.attValue()
			if d.Type != "CDATA" {
				for _, x := range d.Value {
					if x.Ref {
						p.pos = st
						p.skip("reference in the value of a tokenized attribute")
					}
				}
				d.Value = trim(d.Value)
			}
		}
		if d.Name == "xml:id" && d.Type != "ID" || d.Name == "xml:space" || d.Name == "xml:lang" && d.Type == "ENUM" {
			p.skip("declaration of %s", d.Name)
		}
		if d.Type == "ID" && (d.Def == "" || d.Def == "#FIXED") {
			p.skip("ID with a default")
		}
		t := p.types[elem]
		if t == nil {
			t = map[string]*Decl{}
			p.types[elem] = t
		}
		if t[d.Name] == nil {
			t[d.Name] = d
		} else {
			d.Dup = true
		}
		ds = append(ds, d)
		p.event("attribute-decl", nil, d, "")
	}
}

func (p *parser) entityDecl() *Decl {
	p.need("<!ENTITY")
	p.declSp()
	d := &Decl{Kind: DEntity}
	if p.at(0) == '%' {
		p.pos++
		p.declSp()
		d.Kind = DPEntity
	}
	st := p.pos
	d.Name = p.noColon()
	p.declSp()
	if p.has("SYSTEM") || p.has("PUBLIC") {
		p.skip("external entity")
	}
	q := p.at(0)
	if q != '"' && q != '\'' {
		p.fail("quote expected")
	}
	p.pos++
	lit := p.pos
	var b strings.Builder
	for p.at(0) != q {
		c := p.at(0)
		switch {
		case c == -1:
			p.fail("unterminated entity value")
		case c == '%':
			p.fail("'%%' in entity value")
		case c == '&':
			st := p.pos
			p.pos++
			if p.eat("#") {
				b.WriteRune(p.charRef())
				continue
			}
			n := p.name()
			if strings.Contains(n, ":") {
				p.skip("colon in %q", n)
			}
			p.need(";")
			b.WriteString(string(p.s[st:p.pos]))
		case !IsChar(c):
			p.fail("illegal character in entity value")
		default:
			b.WriteRune(c)
			p.pos++
		}
	}
	d.Literal = string(p.s[lit:p.pos])
	d.Text = b.String()
	p.pos++
	p.sp()
	p.need(">")
	if _, ok := predefined[d.Name]; ok && d.Kind == DEntity {
		p.pos = st
		p.skip("declaration of predefined entity")
	}
	if d.Kind == DEntity {
		if p.doc.Entities[d.Name] == nil {
			p.doc.Entities[d.Name] = d
		} else {
			d.Dup = true
		}
		p.event("entity-decl", nil, d, "")
	} else {
		for _, x := range p.doc.Decls {
			if x.Kind == DPEntity && x.Name == d.Name {
				d.Dup = true
			}
		}
		p.event("entity-decl", nil, d, "")
	}
	return d
}
