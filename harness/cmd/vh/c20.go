package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
	"github.com/lestrrat-go/helium/verif/gen"
	"github.com/lestrrat-go/helium/verif/hx"
	"github.com/lestrrat-go/helium/verif/ref"
)

func unitNode(n helium.Node) (string, error) {
	var b strings.Builder
	err := (&helium.Dumper{}).DumpNode(&b, n)
	return b.String(), err
}

func sorted(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// dtdTables is what a document type should find
type dtdTables struct {
	elems map[string]helium.Node // by name
	typ   map[string]string
	atts  map[string]helium.Node // by "elem name"
	ents  map[string]helium.Node
	pes   map[string]helium.Node
}

func newTables() *dtdTables {
	return &dtdTables{map[string]helium.Node{}, map[string]string{}, map[string]helium.Node{}, map[string]helium.Node{}, map[string]helium.Node{}}
}

// lookalikes returns names made of the same letters in the same order, or with
// the prefix and the local name swapped
func lookalikes(name string) (out []string) {
	p, l := ref.SplitQName(name)
	if p != "" {
		out = append(out, p+l, l+p, l+":"+p, p, l)
	}
	for _, x := range []string{p + l, l + p} {
		for i := 1; i < len(x) && i < 4; i++ {
			if utf8.RuneStart(x[i]) {
				out = append(out, x[:i]+":"+x[i:])
			}
		}
	}
	return
}

// wantFound looks up everything that is there, and everything that looks like
// it, in the document type of doc
func (t *dtdTables) wantFound(c *Ctx, doc *helium.Document, dtd *helium.DTD, attached bool) {
	pool := map[string]bool{"": true, "zz": true, "xml": true}
	add := func(name string) {
		p, l := ref.SplitQName(name)
		pool[p], pool[l] = true, true
	}
	for n := range t.elems {
		add(n)
	}
	for n := range t.atts {
		f := strings.Fields(n)
		add(f[0])
		add(f[1])
	}
	for n := range t.ents {
		add(n)
	}
	for n := range t.pes {
		add(n)
	}
	parts := sorted(pool)
	if len(parts) > 14 {
		for i := range parts {
			j := i + c.N(len(parts)-i)
			parts[i], parts[j] = parts[j], parts[i]
		}
		parts = parts[:14]
	}
	names := map[string]bool{}
	for _, l := range parts {
		if l == "" {
			continue
		}
		for _, p := range parts {
			if p == "" {
				names[l] = true
			} else {
				names[p+":"+l] = true
			}
		}
	}
	for n := range t.elems {
		names[n] = true
		for _, m := range lookalikes(n) {
			names[m] = true
		}
	}
	bad := func(what string, want, got helium.Node) {
		switch {
		case want == nil:
			c.Fail("%s is found though it isn't declared", what)
		case got == nil:
			c.Fail("%s is not found", what)
		default:
			c.Fail("%s finds another declaration than the one that is listed (%T %s, %T %s)", what, want, want.Name(), got, got.Name())
		}
	}
	found, absent := 0, 0
	check := func(ok, isNil bool, what string, want, got helium.Node) bool {
		c.Eval()
		if ok == isNil {
			c.Fail("%s: found %v, with a nil declaration: %v", what, ok, isNil)
			return false
		}
		if !ok {
			got = nil
			absent++
		} else {
			found++
		}
		if want != got {
			bad(what, want, got)
			return false
		}
		return true
	}
	for _, n := range sorted(names) {
		p, l := ref.SplitQName(n)
		e, ok := dtd.LookupElement(l, p)
		if !check(ok, e == nil, fmt.Sprintf("LookupElement(%s,%s)", l, p), t.elems[n], e) {
			return
		}
		e, ok = dtd.GetElementDesc(n)
		if !check(ok, e == nil, "GetElementDesc "+n, t.elems[n], e) {
			return
		}
		if attached {
			mixed, err := doc.IsMixedElement(n)
			want, known := t.typ[n], t.elems[n] != nil
			c.Eval()
			if (err == nil) != known || mixed != (known && want != "CHILDREN") {
				c.Fail("IsMixedElement %s is %v, %v: it is declared as %q", n, mixed, err, want)
				return
			}
		}
		ent, ok := dtd.LookupEntity(n)
		if !check(ok, ent == nil, "LookupEntity "+n, t.ents[n], ent) {
			return
		}
		pe, ok := dtd.LookupParameterEntity(n)
		if !check(ok, pe == nil, "LookupParameterEntity "+n, t.pes[n], pe) {
			return
		}
		if attached {
			ent, ok := doc.GetEntity(n)
			if !check(ok, ent == nil, "GetEntity "+n, t.ents[n], ent) {
				return
			}
			pe, ok := doc.GetParameterEntity(n)
			if !check(ok, pe == nil, "GetParameterEntity "+n, t.pes[n], pe) {
				return
			}
		}
	}
	// attributes: those that are declared, of the elements that have others
	els, ats := map[string]bool{"zz": true}, map[string]bool{"zz": true}
	for n := range t.elems {
		els[n] = true
	}
	for n := range t.atts {
		f := strings.Fields(n)
		els[f[0]] = true
		p, l := ref.SplitQName(f[1])
		ats[f[1]], ats[l] = true, true
		if p != "" {
			ats[l+":"+p] = true
			ats[p] = true
		}
		if len(ats) < 40 {
			for _, m := range lookalikes(f[1]) {
				ats[m] = true
			}
			// the end of one name may be the beginning of the other
			els[f[1]+f[0]], els[f[0]+f[1]] = true, true
			if !strings.Contains(f[0], ":") {
				ats[f[1]+f[0]] = true
				ats[f[0]+f[1]] = true
			}
		}
	}
	for _, e := range sorted(els) {
		for _, a := range sorted(ats) {
			p, l := ref.SplitQName(a)
			d, ok := dtd.LookupAttribute(l, p, e)
			if !check(ok, d == nil, fmt.Sprintf("LookupAttribute(%s,%s,%s)", l, p, e), t.atts[e+" "+a], d) {
				return
			}
		}
	}
	c.Count("lookups, found", found)
	c.Count("lookups, not found", absent)
}

func declType(n helium.Node) string {
	switch x := n.(type) {
	case *helium.ElementDecl:
		return "element"
	case *helium.AttributeDecl:
		return "attribute"
	case *helium.Entity:
		if t := x.EntityType(); t == int(helium.InternalParameterEntity) || t == int(helium.ExternalParameterEntity) {
			return "parameter entity"
		}
		return "entity"
	case *helium.Comment:
		return "comment"
	case *helium.ProcessingInstruction:
		return "pi"
	}
	return fmt.Sprintf("%T", n)
}

var kindNames = map[ref.DeclKind]string{ref.DElement: "element", ref.DAttlist: "attribute", ref.DEntity: "entity", ref.DPEntity: "parameter entity", ref.DComment: "comment", ref.DPI: "pi"}

// sameDecl compares two declarations
func sameDecl(a, b *ref.Decl) string { return hx.DiffDecls([]*ref.Decl{a}, []*ref.Decl{b}) }

// wantTables parses a document, and looks up its declarations
func wantTables(c *Ctx, s string) {
	r := refParse(s)
	c.Seen(s)
	if r.Verdict != ref.WF {
		c.Count("skipped", 1)
		return
	}
	doc := wantTree(c, s, r.Doc)
	if doc == nil {
		return
	}
	dtd := doc.IntSubset()
	is, err := doc.InternalSubset()
	if (err == nil) != (dtd != nil) || is != dtd {
		c.Fail("InternalSubset and IntSubset differ")
		return
	}
	if !r.Doc.HasDTD {
		c.Count("without a DTD", 1)
		if dtd != nil {
			c.Fail("a document without a document type has an internal subset")
			return
		}
		if _, ok := doc.GetEntity("x"); ok {
			c.Fail("entity found without a DTD")
		}
		if _, ok := doc.GetParameterEntity("x"); ok {
			c.Fail("parameter entity found without a DTD")
		}
		if _, err := doc.IsMixedElement("r"); err == nil {
			c.Fail("element declaration found without a DTD")
		}
		return
	}
	if dtd == nil {
		c.Fail("no internal subset")
		return
	}
	if dtd.Name() != r.Doc.DTDName || dtd.Type() != helium.DTDNode || dtd.Parent() != helium.Node(doc) || dtd.OwnerDocument() != doc {
		c.Fail("the DTD of %s says that it is %s, %s", r.Doc.DTDName, dtd.Name(), dtd.Type())
		return
	}
	decls := hx.Binding(r.Doc.Decls)
	var kids []helium.Node
	for n := dtd.FirstChild(); n != nil; n = n.NextSibling() {
		kids = append(kids, n)
	}
	if len(kids) != len(decls) {
		c.Fail("%d declarations are listed, of %d", len(kids), len(decls))
		return
	}
	t := newTables()
	var text strings.Builder
	for i, d := range decls {
		n := kids[i]
		c.Count(kindNames[d.Kind], 1)
		if declType(n) != kindNames[d.Kind] {
			c.Fail("declaration %d is a %s, not a %s", i, declType(n), kindNames[d.Kind])
			return
		}
		if n.Parent() != helium.Node(dtd) || n.OwnerDocument() != doc {
			c.Fail("declaration %d (%s): wrong parent or document", i, hx.Decl(d))
			return
		}
		_, local := ref.SplitQName(d.Name)
		switch d.Kind {
		case ref.DElement:
			t.elems[d.Name] = n
			t.typ[d.Name] = d.Type
		case ref.DAttlist:
			t.atts[d.Elem+" "+d.Name] = n
		case ref.DEntity:
			t.ents[d.Name] = n
		case ref.DPEntity:
			t.pes[d.Name] = n
		default:
			local = d.Name
		}
		switch d.Kind {
		case ref.DEntity, ref.DPEntity:
			if n.Name() != d.Name {
				c.Fail("the name of entity %s is %s", d.Name, n.Name())
				return
			}
			if string(n.Content()) != d.Text {
				c.Fail("the replacement text of %s is %q, want %q", d.Name, head(string(n.Content()), 300), head(d.Text, 300))
				return
			}
		case ref.DElement, ref.DAttlist, ref.DPI:
			if n.Name() != local {
				c.Fail("the name of the declaration of %s is %s", d.Name, n.Name())
				return
			}
		}
		// each one is written by itself
		s, err := unitNode(n)
		if err != nil {
			c.Fail("declaration %d (%s) not serialised: %s", i, hx.Decl(d), oneLine(err))
			return
		}
		text.WriteString(s)
		if i > 30 && i%16 > 0 && i < len(decls)-1 {
			continue
		}
		c.Eval()
		r2 := refParse("<!DOCTYPE " + r.Doc.DTDName + " [" + text.String() + "]><r/>")
		if r2.Verdict == ref.Skip {
			c.Count("skipped", 1)
			return
		}
		if r2.Verdict != ref.WF {
			c.Fail("declaration %d (%s) serialised as %q: %s", i, hx.Decl(d), head(s, 400), r2.Msg)
			return
		}
		got := hx.Binding(r2.Doc.Decls)
		if len(got) != i+1 {
			c.Fail("declaration %d (%s) serialised as %q", i, hx.Decl(d), head(s, 400))
			return
		}
		if m := sameDecl(d, got[i]); m != "" {
			c.Fail("declaration %d serialised as %q: %s", i, head(s, 400), m)
			return
		}
	}
	t.wantFound(c, doc, dtd, true)
	if c.Failed() {
		return
	}
	// another document is given the same declarations
	rebuild(c, s, r.Doc)
}

// rebuild makes the internal subset of a new document from events
func rebuild(c *Ctx, s string, rd *ref.Doc) {
	doc := helium.CreateDocument()
	h := sax.New()
	var dtd *helium.DTD
	var err error
	bad := func(e error) error {
		if err == nil {
			err = e
		}
		return nil
	}
	h.InternalSubsetHandler = func(_ sax.Context, name, ext, sys string) error {
		var e error
		dtd, e = doc.CreateInternalSubset(name, ext, sys)
		return bad(e)
	}
	h.ElementDeclHandler = func(_ sax.Context, name string, typ int, content sax.ElementContent) error {
		ec, _ := content.(*helium.ElementContent)
		_, e := dtd.AddElementDecl(name, helium.ElementTypeVal(typ), ec)
		return bad(e)
	}
	h.EntityDeclHandler = func(_ sax.Context, name string, typ int, pub, sys, content string) error {
		_, e := dtd.AddEntity(name, helium.EntityType(typ), pub, sys, content)
		return bad(e)
	}
	p := helium.NewParser()
	p.SetSAXHandler(h)
	c.Eval()
	if _, e := p.Parse([]byte(s)); e != nil {
		c.Fail("rejected with a handler: %s", oneLine(e))
		return
	}
	if err != nil {
		c.Fail("the events can't be made into declarations: %s", oneLine(err))
		return
	}
	var want []*ref.Decl
	for _, d := range rd.Decls {
		switch d.Kind {
		case ref.DElement, ref.DEntity, ref.DPEntity:
			want = append(want, d)
		}
	}
	out, err := doc.XMLString()
	if err != nil {
		c.Fail("the declarations from events: %s", oneLine(err))
		return
	}
	r := refParse(out + "<r/>")
	if r.Verdict == ref.Skip {
		c.Count("skipped", 1)
		return
	}
	if r.Verdict != ref.WF {
		c.Fail("the declarations from events are written as %q: %s", head(out, 600), r.Msg)
		return
	}
	if m := hx.DiffDecls(want, r.Doc.Decls); m != "" {
		c.Fail("the declarations from events are written as %q: %s", head(out, 600), m)
		return
	}
	c.Count("rebuilt from events", 1)
}

var (
	pubsys = regexp.MustCompile(`^<!ENTITY\s+(%\s+)?(\S+)\s+(?:SYSTEM|PUBLIC\s+("[^"]*"|'[^']*'))\s+("[^"]*"|'[^']*')(?:\s+NDATA\s+(\S+?))?\s*>\s*$`)
)

// dtdHistory does random operations on a document type, and compares what is
// there with what should be
func dtdHistory(c *Ctx, steps int) {
	var log []string
	say := func(f string, a ...interface{}) {
		log = append(log, fmt.Sprintf(f, a...))
	}
	doc := helium.CreateDocument()
	var dtd *helium.DTD
	attached := false
	t := newTables()
	marked := map[*helium.Entity]bool{}
	type entry struct {
		n    helium.Node
		want func(s string) string // what is wrong with the serialised form
	}
	var list []entry
	removed := false
	local := []string{"a", "b", "c", "lt", "amp", "e-1", "ü"}
	names := append([]string{"p:a", "a:b", "b:a", "p:b", "q:c", "xml:a"}, local...)
	contents := []string{"", "text", "a \"b\" 'c'", "<e/>", "&a;", "%", "100%;", "x\r\ny", "é", "&", "&&a;", "&#60;", "\t ]]>"}
	fail := func(f string, a ...interface{}) {
		c.Input(strings.Join(log, "; "))
		c.Fail("after %s: %s", lastPart(strings.Join(log, "; "), 600), fmt.Sprintf(f, a...))
	}
	if c.P(3, 4) {
		say("subset")
		d, err := doc.CreateInternalSubset("r", "", "")
		if err != nil || d == nil {
			fail("%v", err)
			return
		}
		dtd, attached = d, true
	}
	sub := func() bool {
		if dtd != nil {
			return true
		}
		say("dtd")
		d, err := doc.CreateDTD()
		if err != nil || d == nil {
			fail("%v", err)
			return false
		}
		dtd = d
		return true
	}
	// a declaration as it is read back
	reads := func(want *ref.Decl) func(string) string {
		return func(s string) string {
			r := refParse("<!DOCTYPE r [" + s + "]><r/>")
			if r.Verdict != ref.WF || len(r.Doc.Decls) != 1 {
				return r.Msg
			}
			return sameDecl(want, r.Doc.Decls[0])
		}
	}
	// content made before it is used
	type ec struct {
		c    *helium.ElementContent
		name string // "": #PCDATA
	}
	var contentsMade []ec
	for i := 0; i < steps && !c.Failed(); i++ {
		switch k := c.N(20); {
		case k < 6: // entities
			name := c.Pick(local...)
			if c.P(1, 8) {
				name = c.Pick("lt", "gt", "amp", "apos", "quot")
			}
			typ := helium.EntityType(c.N(6)) // 0 isn't one
			if c.P(1, 12) {
				typ = helium.EntityType(6 + c.N(3)) // 6 is predefined
			}
			content := c.Pick(contents...)
			var pub, sys string
			switch typ {
			case helium.ExternalGeneralParsedEntity, helium.ExternalParameterEntity, helium.ExternalGeneralUnparsedEntity:
				pub, sys = c.Pick("", "-//pub", "it's"), c.Pick("s.xml", "http://x/?a=b&c", "q'uote", "")
				content = ""
				if typ == helium.ExternalGeneralUnparsedEntity {
					content = c.Pick("", "gif", "n-1")
				}
			}
			viaDoc := attached && c.P(1, 2)
			say("entity %s %d %q %q %q %v", name, typ, pub, sys, content, viaDoc)
			var ent *helium.Entity
			var err error
			c.Eval()
			if viaDoc || dtd == nil {
				ent, err = doc.AddEntity(name, typ, pub, sys, content)
				if dtd == nil || !attached {
					if err == nil {
						fail("an entity is added to a document without a DTD")
						return
					}
					continue
				}
			} else {
				ent, err = dtd.AddEntity(name, typ, pub, sys, content)
			}
			if (ent == nil) == (err == nil) {
				fail("entity %v and error %v", ent, err)
				return
			}
			if typ < 1 || typ > 5 {
				if err == nil {
					fail("an entity of type %d is added", typ)
					return
				}
				c.Count("entities refused", 1)
				break
			}
			if err != nil {
				fail("not added: %s", oneLine(err))
				return
			}
			table := t.ents
			pe := ""
			if typ == helium.InternalParameterEntity || typ == helium.ExternalParameterEntity {
				table, pe = t.pes, "% "
			}
			if old, ok := table[name]; ok {
				if helium.Node(ent) != old {
					fail("the second declaration of %s is kept", name)
					return
				}
				c.Count("entities declared again", 1)
				break
			}
			table[name] = ent
			if ent.Name() != name || ent.EntityType() != int(typ) || string(ent.Content()) != content || ent.Checked() {
				fail("the entity is %s %d %q", ent.Name(), ent.EntityType(), ent.Content())
				return
			}
			if c.P(1, 3) {
				ent.MarkChecked()
				marked[ent] = true
			}
			for _, tb := range []map[string]helium.Node{t.ents, t.pes} {
				for _, o := range tb {
					if o, ok := o.(*helium.Entity); ok && o.Checked() != marked[o] {
						fail("Checked of %s is %v", o.Name(), o.Checked())
						return
					}
				}
			}
			if (typ == helium.InternalGeneralEntity || typ == helium.InternalParameterEntity) && utf8.ValidString(content) && c.P(1, 4) {
				// as it is spelt
				var b strings.Builder
				for _, r := range content {
					if !ref.IsChar(r) {
						b.Reset()
						break
					}
					fmt.Fprintf(&b, c.Pick("&#%d;", "&#x%x;"), r)
				}
				if b.Len() > 0 {
					say("spelt %s", b.String())
					ent.SetOrig(b.String())
				}
			}
			e := entry{n: ent}
			switch typ {
			case helium.InternalGeneralEntity:
				e.want = reads(&ref.Decl{Kind: ref.DEntity, Name: name, Text: content})
				switch name {
				case "lt", "gt", "amp", "apos", "quot":
					// only some declarations of these can be read
					e.want = func(s string) string {
						if !strings.HasPrefix(s, "<!ENTITY "+name+" ") {
							return "another declaration"
						}
						return ""
					}
				}
			case helium.InternalParameterEntity:
				e.want = reads(&ref.Decl{Kind: ref.DPEntity, Name: name, Text: content})
			default:
				e.want = func(s string) string {
					m := pubsys.FindStringSubmatch(s)
					if m == nil {
						return "not a declaration"
					}
					unq := func(s string) string {
						if s == "" {
							return ""
						}
						return s[1 : len(s)-1]
					}
					if (m[1] != "") != (pe != "") || m[2] != name || unq(m[3]) != pub || unq(m[4]) != sys || m[5] != content {
						return fmt.Sprintf("want %s%s PUBLIC %q SYSTEM %q NDATA %q", pe, name, pub, sys, content)
					}
					return ""
				}
			}
			list = append(list, e)
			c.Count("entities", 1)
		case k < 11: // elements
			if !sub() {
				return
			}
			name := c.Pick(names...)
			typ := helium.ElementTypeVal(c.N(5))
			if c.P(1, 20) {
				typ = helium.ElementTypeVal(c.Pick("-1", "5", "99")[0])
			}
			var content *helium.ElementContent
			d := &ref.Decl{Kind: ref.DElement, Name: name}
			with := typ == helium.MixedElementType || typ == helium.ElementElementType
			if c.P(1, 8) {
				with = !with
			}
			if with {
				// made for this one, or used before
				var x ec
				if typ == helium.ElementElementType {
					x.name = c.Pick(names...)
				}
				for _, y := range contentsMade {
					if (y.name == "") == (x.name == "") && c.P(1, 3) {
						x = y
					}
				}
				if x.c == nil {
					ct := helium.ElementContentPCDATA
					if x.name != "" {
						ct = helium.ElementContentElement
					}
					var err error
					x.c, err = doc.CreateElementContent(x.name, ct)
					if err != nil || x.c == nil {
						fail("content %q: %v", x.name, err)
						return
					}
					contentsMade = append(contentsMade, x)
				}
				content = x.c
				if x.name == "" {
					d.Type = "MIXED"
				} else {
					d.Type = "CHILDREN"
					d.Model = &ref.CP{Op: ',', Kids: []*ref.CP{{Name: x.name}}}
				}
			}
			ok := true
			switch typ {
			case helium.EmptyElementType:
				d.Type = "EMPTY"
				ok = content == nil
			case helium.AnyElementType:
				d.Type = "ANY"
				ok = content == nil
			case helium.MixedElementType, helium.ElementElementType:
				ok = content != nil
			default:
				ok = false
			}
			say("element %s %d %v", name, typ, content != nil)
			c.Eval()
			e, err := dtd.AddElementDecl(name, typ, content)
			if (e == nil) == (err == nil) {
				fail("declaration %v and error %v", e, err)
				return
			}
			if !ok {
				if err == nil {
					fail("added")
					return
				}
				c.Count("elements refused", 1)
				break
			}
			if t.elems[name] != nil {
				if err == nil {
					fail("%s is declared again", name)
					return
				}
				c.Count("elements declared again", 1)
				break
			}
			if err != nil {
				fail("not added: %s", oneLine(err))
				return
			}
			if _, l := ref.SplitQName(name); e.Name() != l {
				fail("the name of %s is %s", name, e.Name())
				return
			}
			t.elems[name] = e
			t.typ[name] = d.Type
			list = append(list, entry{n: e, want: reads(d)})
			c.Count("elements", 1)
		case k == 11: // removal
			if dtd == nil || !c.P(1, 3) {
				continue
			}
			name := c.Pick(names...)
			say("remove %s", name)
			p, l := ref.SplitQName(name)
			dtd.RemoveElement(l, p)
			if t.elems[name] != nil {
				removed = true
				c.Count("elements removed", 1)
			}
			delete(t.elems, name)
			delete(t.typ, name)
		case k == 12: // content
			name := c.Pick("", "a", "p:a")
			ct := helium.ElementContentType(c.N(7) - 1)
			ok := ct >= 1 && ct <= 4 && (name == "") == (ct != helium.ElementContentElement)
			say("content %q %d", name, ct)
			c.Eval()
			if x, err := doc.CreateElementContent(name, ct); (err == nil) != ok || (x != nil) != ok {
				fail("content: %v, %v", x != nil, err)
				return
			}
			c.Count("content models", 1)
		case k == 13: // once more
			had := doc.IntSubset() != nil
			say("subset again")
			c.Eval()
			d, err := doc.CreateInternalSubset("again", "pub", "sys")
			if (err != nil) != had {
				fail("there was an internal subset: %v, now: %v", had, err)
				return
			}
			if had {
				c.Count("second subset refused", 1)
				break
			}
			if d == nil || doc.IntSubset() != d {
				fail("the internal subset isn't used")
				return
			}
			// the document type from before isn't that of the document
			dtd, attached, removed = d, true, false
			t, list = newTables(), nil
		case k < 16: // references
			name := c.Pick(local...)
			say("reference %s", name)
			c.Eval()
			n, err := doc.CreateReference(name)
			if err != nil || n == nil || n.Name() != name || n.Type() != helium.EntityRefNode {
				fail("reference to %s: %v", name, err)
				return
			}
			want := "&" + name + ";"
			if e, ok := t.ents[name].(*helium.Entity); ok && attached {
				want = string(e.Content())
				if e.EntityType() != int(helium.InternalGeneralEntity) || strings.Contains(want, "&") {
					break
				}
				c.Count("references to declared entities", 1)
			}
			if name == "lt" || name == "amp" {
				break
			}
			if string(n.Content()) != want {
				fail("a reference to %s has the content %q, want %q", name, n.Content(), want)
				return
			}
		case k == 16: // other things in the subset
			if !sub() {
				return
			}
			if c.P(1, 2) {
				say("comment")
				n, err := doc.CreateComment([]byte("c"))
				if err == nil {
					err = dtd.AddChild(n)
				}
				if err != nil {
					fail("%v", err)
					return
				}
				list = append(list, entry{n: n, want: reads(&ref.Decl{Kind: ref.DComment, Data: "c"})})
			} else {
				say("pi")
				n, err := doc.CreatePI("t", "d")
				if err == nil {
					err = dtd.AddChild(n)
				}
				if err != nil {
					fail("%v", err)
					return
				}
				list = append(list, entry{n: n, want: reads(&ref.Decl{Kind: ref.DPI, Name: "t", Data: "d"})})
			}
		default:
			if dtd == nil {
				continue
			}
			i := 0
			for n := dtd.FirstChild(); n != nil || i < len(list); n = n.NextSibling() {
				if n == nil || i >= len(list) || n != list[i].n {
					fail("declaration %d of %d isn't listed where it should be", i, len(list))
					return
				}
				if n.Parent() != helium.Node(dtd) || n.OwnerDocument() != doc {
					fail("declaration %d (%s): wrong parent or document", i, n.Name())
					return
				}
				i++
			}
			t.wantFound(c, doc, dtd, attached)
			if c.Failed() {
				c.Input(strings.Join(log, "; "))
				return
			}
			for i, e := range list {
				s, err := unitNode(e.n)
				if err != nil {
					fail("declaration %d: %s", i, oneLine(err))
					return
				}
				if m := e.want(s); m != "" {
					fail("declaration %d is written as %q: %s", i, s, m)
					return
				}
			}
			if attached && !removed {
				var b strings.Builder
				if err := doc.XML(&b); err != nil {
					fail("not written: %s", oneLine(err))
					return
				}
				j := 0
				for _, e := range list {
					s, _ := unitNode(e.n)
					k := strings.Index(b.String()[j:], s)
					if k < 0 {
						fail("%q is not part of %q", s, b.String())
						return
					}
					j += k + len(s)
				}
			}
			c.Count("histories checked", 1)
		}
	}
	c.Seen(strings.Join(log, ";"))
	c.Sample(lastPart(strings.Join(log, "; "), 300))
}

func lastPart(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func init() {
	ck := &Check{ID: "C20",
		Rule:        "a case is a document with an internal subset, distinct by its text, or a sequence of operations on a document type. The declarations that are listed are compared with those of a reference parser (or with a map, where the first one counts); every lookup by every name made from the parts of the names that are there has to find exactly the listed declaration, or nothing",
		Assumptions: []string{"colons are used as in names with a prefix", "ElementContent of several names can only be had from the parser"},
	}
	var atoms []string
	{
		for _, e := range []string{"a", "b", "a:b", "b:a"} {
			atoms = append(atoms, "<!ELEMENT "+e+" EMPTY>", "<!ELEMENT "+e+" (a|b:a)*>")
			for _, a := range []string{"a", "b", "a:b", "b:a"} {
				atoms = append(atoms, "<!ATTLIST "+e+" "+a+" CDATA 'x'>")
			}
		}
		for _, e := range []string{"a", "b"} {
			atoms = append(atoms, "<!ENTITY "+e+" '1'>", "<!ENTITY "+e+" '2'>", "<!ENTITY % "+e+" '3'>", "<!ENTITY % "+e+" '4'>")
		}
		atoms = append(atoms, "<!-- a -->", "<?a b?>", "<!ELEMENT a ANY>", "<!ELEMENT a (#PCDATA|b)*>", "<!ATTLIST a b CDATA #IMPLIED a:b ID #IMPLIED>", "<!ATTLIST a xmlns:b CDATA #FIXED 'u' xmlns CDATA 'v'>")
	}
	grid := small("declarations", atoms, 2, 3, 50, func(c *Ctx, w string) {
		wantTables(c, "<!DOCTYPE r ["+w+"]><r/>")
	})
	ck.Sections = []Section{
		grid,
		batch("some declarations", 6000, 200000, 20, func(c *Ctx, k int) {
			var b strings.Builder
			for n := 3 + c.N(10); n > 0; n-- {
				b.WriteString(c.Pick(atoms...))
			}
			c.Sample(b.String())
			wantTables(c, "<!DOCTYPE r ["+b.String()+"]><r/>")
		}),
		batch("documents", 10000, 300000, 20, func(c *Ctx, k int) {
			p := gen.Random(c.Rand)
			p.DTD = c.P(15, 16)
			p.NS = c.P(2, 3)
			p.Size = 2
			p.Entities, p.AttDecls, p.ElemDecls = c.P(2, 3), c.P(2, 3), c.P(2, 3)
			s := gen.Doc(c.Rand, p)
			c.Sample(s)
			wantTables(c, s)
		}),
		batch("redeclared elements", 2000, 20000, 50, func(c *Ctx, k int) {
			// a fault of validity: the first one counts, if the document is accepted
			e := c.Pick("a", "p:a")
			specs := []string{"EMPTY", "ANY", "(#PCDATA)", "(#PCDATA|b)*", "(b)", "(b,c?)+"}
			first := c.N(len(specs))
			other := c.Pick("<!ELEMENT b ANY>", "<!ATTLIST "+e+" x CDATA 'd'>", "")
			s := "<!DOCTYPE r [<!ELEMENT " + e + " " + specs[first] + ">" + other
			for n := 1 + c.N(3); n > 0; n-- {
				s += "<!ELEMENT " + e + " " + c.Pick(specs...) + ">"
			}
			s += "]><r/>"
			c.Seen(s)
			doc, err := parse(c, s)
			if err != nil {
				c.Count("redeclaration rejected", 1)
				return
			}
			d, ok := doc.IntSubset().GetElementDesc(e)
			if !ok {
				c.Fail("%s not found", e)
				return
			}
			n := 0
			for k := doc.IntSubset().FirstChild(); k != nil; k = k.NextSibling() {
				if x, ok := k.(*helium.ElementDecl); ok && x.Name() == "a" {
					if n++; x != d {
						c.Fail("another declaration of %s is found than the one that is listed", e)
						return
					}
				}
			}
			out, err := unitNode(d)
			if err != nil || n != 1 {
				c.Fail("%d declarations of %s: %v", n, e, err)
				return
			}
			r := refParse("<!DOCTYPE r [<!ELEMENT " + e + " " + specs[first] + ">]><r/>")
			r2 := refParse("<!DOCTYPE r [" + out + "]><r/>")
			if r2.Verdict != ref.WF {
				c.Fail("serialised as %q: %s", out, r2.Msg)
				return
			}
			if m := hx.DiffDecls(r.Doc.Decls, r2.Doc.Decls); m != "" {
				c.Fail("the first declaration isn't kept: %s", m)
			}
		}),
		batch("attributes in another DTD", 2000, 40000, 20, func(c *Ctx, k int) {
			// declarations of attributes come from the parser, and may be registered elsewhere
			var b strings.Builder
			for n := 1 + c.N(8); n > 0; n-- {
				fmt.Fprintf(&b, "<!ATTLIST %s %s CDATA '%d'>", c.Pick("a", "b", "a:b", "p:a"), c.Pick("a", "b", "a:b", "b:a", "xmlns:b"), n)
			}
			s := "<!DOCTYPE r [" + b.String() + "]><r/>"
			r := refParse(s)
			if r.Verdict != ref.WF {
				c.Count("skipped", 1)
				return
			}
			c.Seen(s)
			doc, err := parse(c, s)
			if err != nil {
				c.Fail("rejected: %s", oneLine(err))
				return
			}
			to, err := helium.CreateDocument().CreateDTD()
			if err != nil {
				c.Fail("%s", oneLine(err))
				return
			}
			t := newTables()
			for _, d := range r.Doc.Decls {
				p, l := ref.SplitQName(d.Name)
				ad, ok := doc.IntSubset().LookupAttribute(l, p, d.Elem)
				if !ok {
					c.Fail("%s of %s isn't found", d.Name, d.Elem)
					return
				}
				err := to.RegisterAttribute(ad)
				c.Eval()
				if (err != nil) != d.Dup {
					c.Fail("registering %s of %s (again: %v): %v", d.Name, d.Elem, d.Dup, err)
					return
				}
				t.atts[d.Elem+" "+d.Name] = ad
			}
			t.wantFound(c, nil, to, false)
			c.Count("registered elsewhere", 1)
		}),
		batch("histories", 8000, 200000, 20, func(c *Ctx, k int) {
			dtdHistory(c, 5+c.N(60))
		}),
	}
	register(ck)
}
