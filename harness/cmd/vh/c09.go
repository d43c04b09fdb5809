package main

import (
	"errors"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
	"github.com/lestrrat-go/helium/verif/gen"
	"github.com/lestrrat-go/helium/verif/hx"
	"github.com/lestrrat-go/helium/verif/ref"
)

var predefined = map[string]string{"lt": "<", "gt": ">", "amp": "&", "apos": "'", "quot": "\""}

// expand is text with its references replaced, whatever they stand for
func expand(rd *ref.Doc, text string, b *strings.Builder, depth int) bool {
	if depth > 45 || b.Len() > 1<<20 {
		return false
	}
	for text != "" {
		i := strings.IndexByte(text, '&')
		if i < 0 {
			b.WriteString(text)
			return true
		}
		b.WriteString(text[:i])
		j := strings.IndexByte(text[i:], ';')
		if j < 0 {
			return false
		}
		name := text[i+1 : i+j]
		text = text[i+j+1:]
		switch {
		case strings.HasPrefix(name, "#x"):
			n, err := strconv.ParseInt(name[2:], 16, 64)
			if err != nil {
				return false
			}
			b.WriteRune(rune(n))
		case strings.HasPrefix(name, "#"):
			n, err := strconv.ParseInt(name[1:], 10, 64)
			if err != nil {
				return false
			}
			b.WriteRune(rune(n))
		case predefined[name] != "":
			b.WriteString(predefined[name])
		default:
			d := rd.Entities[name]
			if d == nil || strings.Contains(d.Text, "<!") || strings.Contains(d.Text, "<?") {
				return false
			}
			if !expand(rd, d.Text, b, depth+1) {
				return false
			}
		}
	}
	return true
}

// wantContent compares the content that nodes report
func wantContent(c *Ctx, rd *ref.Doc, n helium.Node, r *ref.Node) (string, bool) {
	switch r.Kind {
	case ref.KText:
		return r.Data, true
	case ref.KRef:
		var b strings.Builder
		if d := rd.Entities[r.Name]; d != nil {
			c.Count("references to entities", 1)
		}
		if !expand(rd, "&"+r.Name+";", &b, 0) {
			return "", false
		}
		if got := string(n.Content()); got != b.String() {
			c.Fail("content of reference to %s is %q, want %q", r.Name, got, b.String())
		}
		return b.String(), true
	case ref.KElem:
		e := n.(*helium.Element)
		as := e.Attributes()
		for i, a := range r.Attrs {
			if i >= len(as) {
				break
			}
			var b strings.Builder
			ok := true
			for _, p := range a.Pieces {
				if !p.Ref {
					b.WriteString(p.Text)
				} else if !expand(rd, "&"+p.Text+";", &b, 0) {
					ok = false
				}
			}
			if ok {
				if as[i].Value() != b.String() || string(as[i].Content()) != b.String() {
					c.Fail("value of attribute %s of %s is %q (content %q), want %q", a.Name, r.Name, as[i].Value(), as[i].Content(), b.String())
				}
				c.Count("attribute values", 1)
			}
		}
		var b strings.Builder
		ok := true
		k := n.FirstChild()
		for _, x := range r.Children {
			if k == nil {
				return "", false
			}
			s, o := wantContent(c, rd, k, x)
			ok = ok && o
			b.WriteString(s)
			k = k.NextSibling()
		}
		if ok {
			if got := string(n.Content()); got != b.String() {
				c.Fail("content of element %s is %q, want %q", r.Name, got, b.String())
			}
			c.Count("contents of elements", 1)
		}
		return b.String(), ok
	}
	return "", true
}

// wantRefs makes sure that all the references in s are right, or that it is rejected
var reReference = regexp.MustCompile(`^&([a-z]+);`)
var reCharRef = regexp.MustCompile(`^&#(?:([0-9]+)|x([0-9a-fA-F]+));`)

// builtRefs adds entities to a document, in whatever way they refer to each other.
// The contents of references are what they are declared to be, unless there is a
// loop: then there is an end to it
func builtRefs(c *Ctx) {
	doc := helium.CreateDocument()
	var log strings.Builder
	say := func(format string, a ...interface{}) {
		fmt.Fprintf(&log, format+"\n", a...)
		c.Input(log.String())
	}
	say("entities added:")
	ents := map[string]string{}
	subset := c.P(9, 10)
	names := []string{"a", "b", "c", "d"}
	if subset {
		if _, err := doc.CreateInternalSubset("r", "", ""); err != nil {
			c.Fail("%v", err)
			return
		}
		order := c.P(1, 2) // no loops
		for i, n := range names[:1+c.N(4)] {
			var v string
			for m := c.N(5); m > 0; m-- {
				t := c.Pick("x", "\u00e9", "&", ";", "&a;", "&b;", "&c;", "&d;", "&a", "&nope;", "&#65;", "&#x20AC;", "&#0;", "&#xFFFF;", "&#;", "&#x;", "&#65", "&lt;", "&amp;", "&quot;", "&&", "< >", "\"'", "&#38;a;", " ", "&1;", "& b;", "&a b;")
				if len(t) == 3 && t[0] == '&' && t[2] == ';' && order && int(t[1]-'a') >= i {
					t = "y"
				}
				v += t
			}
			typ := helium.InternalGeneralEntity
			if c.P(1, 10) {
				typ = helium.InternalParameterEntity
			}
			say("%s type %d: %q", n, typ, v)
			if _, err := doc.AddEntity(n, typ, "", "", v); err != nil {
				c.Fail("AddEntity: %s", oneLine(err))
				return
			}
			if typ == helium.InternalGeneralEntity {
				ents[n] = v
			}
		}
	} else if _, err := doc.AddEntity("a", helium.InternalGeneralEntity, "", "", "x"); err == nil {
		c.Fail("an entity is added to a document without a subset")
		return
	}
	loop := false
	var read func(s string, within []string, b *strings.Builder)
	read = func(s string, within []string, b *strings.Builder) {
		for s != "" {
			if m := reCharRef.FindStringSubmatch(s); m != nil {
				n, err := strconv.ParseInt(m[1], 10, 32)
				if m[1] == "" {
					n, err = strconv.ParseInt(m[2], 16, 32)
				}
				if err == nil && ref.IsChar(rune(n)) {
					b.WriteRune(rune(n))
					s = s[len(m[0]):]
					continue
				}
			}
			if m := reReference.FindStringSubmatch(s); m != nil {
				n := m[1]
				s = s[len(m[0]):]
				v, ok := ents[n]
				for _, w := range within {
					if w == n {
						loop = true
						ok = false
					}
				}
				if loop {
					return
				}
				if predefined[n] != "" {
					b.WriteString(predefined[n])
				} else if ok {
					read(v, append(within[:len(within):len(within)], n), b)
				} else {
					b.WriteString(m[0])
				}
				continue
			}
			b.WriteByte(s[0])
			s = s[1:]
		}
	}
	root, err := doc.CreateElement("r")
	if err == nil {
		err = doc.SetDocumentElement(root)
	}
	if err != nil {
		c.Fail("%v", err)
		return
	}
	for _, n := range append(names, "nope", "lt", "#65", "#x1F600", "#38") {
		say("reference to %s", n)
		c.Eval()
		loop = false
		var want strings.Builder
		read("&"+n+";", nil, &want)
		if want.Len() > 100000 {
			continue
		}
		r, err := doc.CreateReference(c.Pick(n, "&"+n+";"))
		if err != nil {
			c.Fail("%v", err)
			return
		}
		got := string(r.Content()) // ends
		if !loop && got != want.String() {
			c.Fail("the reference stands for %q, want %q", got, want.String())
			return
		}
		if r.Name() != n || r.Type() != helium.EntityRefNode {
			c.Fail("the reference is a %s %q", r.Type(), r.Name())
			return
		}
		if r, err = doc.CreateCharRef(n); err != nil || r.Name() != n || !loop && string(r.Content()) != want.String() {
			c.Fail("CreateCharRef: stands for %q, want %q", r.Content(), want.String())
			return
		}
		if loop {
			c.Count("loops", 1)
			continue
		}
		c.Count("references made", 1)
		// in a value, where they need not be there either
		v := "p&" + n + ";&#33;" + c.Pick("", "q")
		say("attribute with the value %s", v)
		want.Reset()
		read(v, nil, &want)
		e, err := doc.CreateElement("e")
		if err == nil {
			err = root.AddChild(e)
		}
		if err == nil {
			err = e.SetAttribute("x", v)
		}
		if err != nil {
			c.Fail("%s", oneLine(err))
			return
		}
		if at := e.Attributes(); len(at) != 1 || at[0].Value() != want.String() {
			c.Fail("%d attributes, the value is %q, want %q", len(at), at[0].Value(), want.String())
			return
		}
	}
	for _, f := range []func(string) (*helium.EntityRef, error){doc.CreateReference, doc.CreateCharRef} {
		if r, err := f(""); err == nil {
			c.Fail("a reference to nothing is made: %q", r.Name())
		}
		f("&")
		f(";")
		f("&;")
	}
	c.Seen(log.String())
}

// resolved compares a document with declared entities with one that has the same
// entities from a handler
func resolved(c *Ctx, decls, use string) {
	d := refParse("<!DOCTYPE a [" + decls + "]><a/>")
	if d.Verdict != ref.WF {
		return
	}
	r := refParse("<!DOCTYPE a [" + decls + "]>" + use)
	if r.Verdict == ref.Skip {
		return
	}
	var want []string
	if r.Verdict == ref.WF {
		for _, e := range hx.RefStream(r.Doc) {
			switch strings.SplitN(e, " ", 2)[0] {
			case "doctype", "end-doctype", "entity-decl":
				continue
			}
			want = append(want, e)
		}
	}
	for _, other := range []string{"", "<!DOCTYPE a [<!ENTITY e1 'other'><!ENTITY e2 '<other/>'>]>"} {
		rec := hx.NewRecorder(hx.AllCallbacks, nil)
		rec.GetEntityHandler = func(_ sax.Context, name string) (sax.Entity, error) {
			if e := d.Doc.Entities[name]; e != nil && predefined[name] == "" {
				return &foreign{name, e.Text}, nil
			}
			return nil, errors.New("no such entity")
		}
		p := helium.NewParser()
		p.SetSAXHandler(rec)
		c.Input(other + use + "\nwith a handler that knows " + decls)
		c.Eval()
		c.Seen(other + decls + use)
		_, err := p.Parse([]byte(other + use))
		if r.Verdict == ref.NotWF {
			c.Count("not well-formed, with entities of a handler", 1)
			if err == nil {
				c.Fail("accepted though not well-formed: %s", r.Msg)
			}
			continue
		}
		c.Count("well-formed, with entities of a handler", 1)
		if err != nil {
			c.Fail("rejected: %s", oneLine(err))
			return
		}
		var got []string
		for _, e := range hx.Stream(rec.Events) {
			switch strings.SplitN(e, " ", 2)[0] {
			case "doctype", "end-doctype", "entity-decl":
				continue
			}
			got = append(got, e)
		}
		if d := hx.Diff(want, got); d != "" {
			c.Fail("events differ from those of a document that declares the entities: %s", d)
			return
		}
	}
}

func wantRefs(c *Ctx, s string) { wantRefsOf(c, s, refParse(s)) }

func wantRefsOf(c *Ctx, s string, r ref.Result) {
	switch r.Verdict {
	case ref.NotWF:
		c.Seen(s)
		c.Count(fault(r.Msg), 1)
		wantReject(c, s, r)
		p := helium.NewParser()
		p.SetSAXHandler(hx.NewRecorder(hx.AllCallbacks, nil))
		c.Eval()
		if _, err := p.Parse([]byte(s)); err == nil {
			c.Fail("accepted with a handler though not well-formed: %s", r.Msg)
		}
	case ref.WF:
		c.Seen(s)
		c.Count("well-formed", 1)
		doc := wantTree(c, s, r.Doc)
		if doc == nil {
			return
		}
		for name, d := range r.Doc.Entities {
			if _, ok := predefined[name]; ok {
				continue
			}
			e, ok := doc.GetEntity(name)
			if !ok {
				c.Fail("entity %s is not known to the document", name)
			} else if string(e.Content()) != d.Text {
				c.Fail("replacement text of %s is %q, want %q", name, e.Content(), d.Text)
			}
		}
		n := doc.FirstChild()
		for n.Type() != helium.ElementNode {
			n = n.NextSibling()
		}
		wantContent(c, r.Doc, n, r.Doc.Root)
		if c.Failed() {
			return
		}
		rec, _, err := record(c, s, hx.AllCallbacks, false)
		if err != nil {
			c.Fail("rejected with a handler: %s", oneLine(err))
			return
		}
		if d := hx.Diff(hx.RefStream(r.Doc), hx.Stream(rec.Events)); d != "" {
			c.Fail("events differ: %s", d)
			return
		}
	default:
		c.Count("skipped", 1)
	}
}

// what entities are made of
var bodies = []string{"", "x", "&e1;", "&e2;", "&e3;", "<b/>", "<b>", "</b>", "&lt;", "&#60;", "&#38;", "&#38;#60;", "&#38;lt;", "&amp;", "&#38;e2;", " ", "&#x20;", "&#10;", "]]>", "<!--", "-->", "&#38;#38;", "&nope;", "&#38;nope;", "&", "'", "&#39;", "<b c='&e2;'/>", "&#0;", "<![CDATA[", "<b xmlns='u'>", "&apos;", "&#x3c;b/>", "\u00e9", "&#233;"}

var refUses = []string{"<a>&e1;</a>", "<a b='&e1;'/>", "<a>x&e1;y&e1;</a>", "<a b='x&e1;y'>&e2;</a>", "<a/>", "<a>&e3;&e2;&e1;</a>", "<a b='&e2;&e3;'/>", "<a><b/>&e2;<![CDATA[&e1;]]></a>", "<a>&lt;&e2;&#60;</a>"}

// documents with parameter entities whose text is not empty. "!" are not well-formed
var peTexts = []struct{ s, want string }{
	{"<!DOCTYPE a [<!ENTITY % p '<!ENTITY e \"x\">'>%p;]><a>&e;</a>", "x"},
	{"<!DOCTYPE a [<!ENTITY % p '<!ENTITY e \"x\">'>%p;]><a b='&e;'/>", "x"},
	{"<!DOCTYPE a [<!ENTITY % p '<!ENTITY e \"x\">'>%p;<!ENTITY e 'y'>]><a>&e;</a>", "x"},
	{"<!DOCTYPE a [<!ENTITY e 'y'><!ENTITY % p '<!ENTITY e \"x\">'>%p;]><a>&e;</a>", "y"},
	{"<!DOCTYPE a [<!ENTITY % p '<!ENTITY e \"x\">'>]><a>&e;</a>", "!"},
	{"<!DOCTYPE a [<!ENTITY e 'y'><!ENTITY % p '<!-- c -->'>%p;]><a>&e;</a>", "y"},
	{"<!DOCTYPE a [<!ENTITY e 'y'><!ENTITY % p 'junk'>%p;]><a>&e;</a>", "!"},
	{"<!DOCTYPE a [%p;<!ENTITY % p ''><!ENTITY e 'y'>]><a>&e;</a>", "!"},
	{"<?xml version='1.0' standalone='yes'?><!DOCTYPE a [<!ENTITY e 'y'><!ENTITY % p '<!ENTITY f \"\">'>%p;%q;]><a>&e;</a>", "!"},
	{"<!DOCTYPE a [<!ENTITY % p '<!ELEMENT a ANY>'><!ENTITY e '&#37;p;'>]><a>&e;</a>", "%p;"},
	{"<!DOCTYPE a [<!ENTITY % p '&#37;p;'>%p;]><a/>", "!"},
}

var peDecl = []string{"", "<?xml version='1.0' standalone='no'?>", "<?xml version='1.0' standalone='yes'?>"}

var peParts = []string{"", "<!ENTITY % p ''>", "%p;", "%u;", "<!ENTITY e 'x'>", "<!ENTITY f '&e;&nope;'>", "<!ENTITY % q ' \n'>%q;", "<!ELEMENT a ANY>", "<!ATTLIST a b CDATA '&e;'>", "<!ENTITY p 'y'>", "<!ENTITY % e 'z'>"}

var peUses = []string{"<a>&e;</a>", "<a b='&e;'/>", "<a>&nope;</a>", "<a b='&nope;'>x</a>", "<a>&f;</a>", "<a b='&p;'/>", "<a/>"}

// chainUses are what entities that refer to each other are made of, and how the last of them is used
var chainUses = []struct{ before, after, decl, use string }{
	{"x", "", "", "<a>&e;</a>"},
	{"x", "", "", "<a b='&e;'/>"},
	{"", "", "", "<a xmlns='&e;'/>"},
	{"u:", "", "", "<a xmlns:p='&e;'><p:b p:c='d'/></a>"},
	{"x ", " y", "<!ATTLIST a b NMTOKENS #IMPLIED>", "<a b=' &e;  z '/>"},
	{"x ", " y", "<!ATTLIST a b CDATA '&e;' c NMTOKENS ' &e; '>", "<a/>"},
	{"x", "y", "<!ATTLIST a xmlns CDATA '&e;' xmlns:p CDATA #FIXED 'x&e;'>", "<a/>"},
	{"<b>", "</b>", "", "<a>&e;</a>"},
	{"<b/>x", "<!---->", "", "<a><c>&e;</c>&e;</a>"},
	{"&lt;", "&#38;#38;", "", "<a b='&e;'>&e;</a>"},
	{"&#38;#60;", "&gt;", "", "<a><b c='1&e;2&e;'/></a>"},
	{"", "", "<!ENTITY f '<b c=\"&e;\" xmlns=\"u&e;\"/>'>", "<a>&f;</a>"},
}

func quoteBody(c *Ctx, s string) string {
	if strings.Contains(s, "'") {
		return "\"" + s + "\""
	}
	return "'" + s + "'"
}

func init() {
	ck := &Check{ID: "C09",
		Rule: "a case is a document with references, distinct by its text. The reference parser says what each of them stands for and whether it is allowed there; tree, content, attribute values, replacement texts and events are compared with that",
	}
	ck.Sections = []Section{
		// every code point
		batch("code points", 0x110000/64+200, 0x110000/64+2000, 50, func(c *Ctx, k int) {
			var good strings.Builder
			first := k * 64
			if k >= 0x110000/64 {
				first = 0x110000 + c.N(1<<30) // beyond
				if c.P(1, 2) {
					first = 0x110000 + (k-0x110000/64)*64
				}
			}
			for r := first; r < first+64; r++ {
				spell := []string{fmt.Sprintf("&#%d;", r), fmt.Sprintf("&#x%x;", r), fmt.Sprintf("&#x%X;", r), fmt.Sprintf("&#%06d;", r), fmt.Sprintf("&#x%09X;", r)}
				if ref.IsChar(rune(r)) && r < 0x110000 {
					for _, s := range spell {
						good.WriteString(s)
					}
					c.Count("legal code points", 1)
					continue
				}
				c.Count("illegal code points", 1)
				for _, s := range spell[:2] {
					wantRefs(c, "<a>"+s+"</a>")
					wantRefs(c, "<a b='"+s+"'/>")
				}
				wantRefs(c, "<!DOCTYPE a [<!ENTITY e '"+spell[0]+"'>]><a/>")
				wantRefs(c, "<!DOCTYPE a [<!ENTITY e \""+spell[1]+"\">]><a/>")
				wantRefs(c, "<!DOCTYPE a [<!ATTLIST a b CDATA '"+spell[1]+"'>]><a/>")
				if c.Failed() {
					return
				}
			}
			if good.Len() > 0 {
				wantRefs(c, "<a b='"+good.String()+"'>"+good.String()+"</a>")
				if k > 0 {
					wantRefs(c, "<!DOCTYPE a [<!ENTITY e '"+good.String()+"'><!ATTLIST a c CDATA '"+good.String()+"'>]><a b='&e;'>&e;</a>")
				}
			}
		}),
		// numbers that are too large for something
		batch("overflow", 8000, 200000, 100, func(c *Ctx, k int) {
			r := uint64(c.Pick("A", "a", "\u00e9", "\u20ac", "<", "&")[0])
			if c.P(1, 2) {
				r = uint64(32 + c.N(0xD000))
			}
			mod := strings.Repeat("0", 8<<uint(c.N(4)))
			var s string
			hex := fmt.Sprintf("%x", r)
			if len(hex) < len(mod)/4 {
				hex = mod[:len(mod)/4-len(hex)] + hex
			}
			switch c.N(6) {
			case 0: // wraps around
				s = fmt.Sprintf("#x%x%s", 1+c.N(255), hex)
			case 1:
				s = fmt.Sprintf("#%d", r+uint64(1+c.N(1000))<<32)
			case 2:
				s = fmt.Sprintf("#%d", r+uint64(1+c.N(1000))<<uint(16+c.N(40)))
			case 3: // does not: zeros only
				s = fmt.Sprintf("#x%s%x", strings.Repeat("0", c.N(80)), r)
			case 4:
				s = fmt.Sprintf("#%s%d", strings.Repeat("0", c.N(80)), r)
			case 5:
				s = "#" + c.Pick("", "x")
				for n := 1 + c.N(24); n > 0; n-- {
					s += string("0123456789abcdefABCDEF"[c.N(10+c.N(13))])
				}
			}
			// 2^64 + r
			if c.P(1, 12) {
				s = "#" + []string{"18446744073709551681", "4294967361", "36893488147419103297", "340282366920938463463374607431768211521", "9223372036854775873"}[c.N(5)]
			}
			s = "&" + s + c.Pick(";", ";", ";", ";", "", " ;", "x;")
			wantRefs(c, "<a>"+s+"</a>")
			wantRefs(c, "<a b='"+s+"'/>")
			if c.P(1, 4) {
				wantRefs(c, "<!DOCTYPE a [<!ENTITY e '"+s+"'>]><a>&e;</a>")
			}
		}),
		// exhaustive over two small entities and their uses
		batch("pairs", pow(len(bodies), 2)*len(refUses), pow(len(bodies), 3)*len(refUses), 200, func(c *Ctx, k int) {
			use := refUses[k%len(refUses)]
			k /= len(refUses)
			b1 := bodies[k%len(bodies)]
			k /= len(bodies)
			b2 := bodies[k%len(bodies)]
			b3 := bodies[k/len(bodies)]
			wantRefs(c, "<!DOCTYPE a [<!ENTITY e1 "+quoteBody(c, b1)+"><!ENTITY e2 "+quoteBody(c, b2)+"><!ENTITY e3 "+quoteBody(c, b3)+">]>"+use)
		}),
		// entities that a handler knows mean what declared ones would
		batch("handlers", 40000, pow(len(bodies), 3)*len(refUses), 200, func(c *Ctx, k int) {
			if c.tier != "thorough" {
				k = c.N(pow(len(bodies), 3) * len(refUses))
			}
			use := refUses[k%len(refUses)]
			k /= len(refUses)
			var decls string
			for _, n := range []string{"e1", "e2", "e3"} {
				decls += "<!ENTITY " + n + " " + quoteBody(c, bodies[k%len(bodies)]) + ">"
				k /= len(bodies)
			}
			resolved(c, decls, use)
		}),
		// references that are made, to entities that are added
		batch("built", 40000, 1000000, 100, func(c *Ctx, k int) { builtRefs(c) }),
		batch("graphs", 60000, 1500000, 100, func(c *Ctx, k int) {
			var b strings.Builder
			if c.P(1, 5) {
				b.WriteString(c.Pick("<?xml version='1.0' standalone='yes'?>", "<?xml version='1.0' standalone='no'?>", "<?xml version='1.0'?>"))
			}
			b.WriteString("<!DOCTYPE a [")
			n := 1 + c.N(6)
			order := c.P(1, 2) // references to earlier ones only
			for i := 1; i <= n; i++ {
				var body string
				for m := c.N(4); m > 0; m-- {
					switch {
					case c.P(1, 2):
						j := 1 + c.N(n)
						if order && i > 1 {
							j = 1 + c.N(i-1)
						} else if order {
							continue
						}
						body += fmt.Sprintf("&e%d;", j)
					case c.P(1, 3):
						body += bodies[c.N(len(bodies))]
					default:
						body += c.Pick("x", "&#38;lt;", "<b/>", "&#60;b>&#60;/b>", "<b c='&e1;'>&e1;</b>", " ", "&#38;#38;")
					}
				}
				if strings.Contains(body, "'") && strings.Contains(body, "\"") {
					body = strings.Replace(body, "\"", "", -1)
				}
				name := fmt.Sprintf("e%d", i)
				if c.P(1, 15) {
					name = c.Pick("e1", "e2", "lt", "amp", "quot")
					if c.P(2, 3) && len(name) > 2 || name == "lt" {
						body = map[string]string{"lt": "&#38;#60;", "amp": "&#38;#38;", "quot": "&#34;"}[name]
					}
				}
				b.WriteString("<!ENTITY " + name + " " + quoteBody(c, body) + ">")
				if c.P(1, 10) {
					fmt.Fprintf(&b, "<!ATTLIST %s d%d CDATA '&e%d;'>", c.Pick("a", "b"), i, 1+c.N(i))
				}
				if c.P(1, 25) {
					fmt.Fprintf(&b, "<!ENTITY %% e%d 'p'>", i)
				}
			}
			b.WriteString("]><a")
			if c.P(1, 3) {
				fmt.Fprintf(&b, " b='%s&e%d;'", c.Pick("", "x", " ", "&lt;"), 1+c.N(n+1))
			}
			b.WriteString(">")
			for m := 1 + c.N(3); m > 0; m-- {
				fmt.Fprintf(&b, "%s&e%d;", c.Pick("", "x", "<b/>", "<b>&e1;</b>", "&amp;", "&#65;", "<!---->"), 1+c.N(n))
			}
			b.WriteString("</a>")
			c.Sample(b.String())
			wantRefs(c, b.String())
		}),
		// what is declared, and whether it must be, when there are references to
		// parameter entities
		batch("undeclared", len(peDecl)*pow(len(peParts), 4)*len(peUses), len(peDecl)*pow(len(peParts), 5)*len(peUses), 200, func(c *Ctx, k int) {
			use := peUses[k%len(peUses)]
			k /= len(peUses)
			decl := peDecl[k%len(peDecl)]
			k /= len(peDecl)
			s := decl + "<!DOCTYPE a [" + words(peParts, k, 5) + "]>" + use
			r := ref.Parse([]byte(s), ref.Options{PE: true})
			if r.Verdict == ref.WF && strings.Contains(s, "%p;") {
				c.Count("references to parameter entities", 1)
			}
			wantRefsOf(c, s, r)
		}),
		// what is declared in a parameter entity counts where it's referenced
		{Name: "parameter entities", Quick: len(peTexts), Thorough: len(peTexts), Run: func(c *Ctx, i int) {
			x := peTexts[i]
			doc, err := parse(c, x.s)
			c.Seen(x.s)
			if x.want == "!" {
				if err == nil {
					c.Fail("accepted")
				}
				return
			}
			if err != nil {
				c.Fail("rejected")
				return
			}
			n := doc.FirstChild()
			for n.Type() != helium.ElementNode {
				n = n.NextSibling()
			}
			got := string(n.Content())
			if as := n.(*helium.Element).Attributes(); len(as) > 0 {
				got += as[0].Value()
			}
			if got != x.want {
				c.Fail("content is %q, want %q", got, x.want)
			}
		}},
		// long chains: allowed up to some depth, and an error beyond that
		batch("chains", 36*len(chainUses), 60*len(chainUses), 12, func(c *Ctx, k int) {
			n := 1 + k/len(chainUses)
			x := chainUses[k%len(chainUses)]
			var b strings.Builder
			b.WriteString("<!DOCTYPE a [<!ENTITY e0 '" + c.Pick("lol", "", "&#65;", "&lt;", "&quot;") + "'>")
			for i := 1; i <= n; i++ {
				fmt.Fprintf(&b, "<!ENTITY e%d '%s&e%d;%s'>", i, x.before, i-1, x.after)
			}
			s := b.String() + strings.Replace(x.decl, "&e;", fmt.Sprintf("&e%d;", n), -1) + "]>" + strings.Replace(x.use, "&e;", fmt.Sprintf("&e%d;", n), -1)
			if n <= 30 {
				wantRefs(c, s)
			} else {
				parse(c, s)
			}
		}),
		// expansion is bounded, and reading the content does not explode
		{Name: "bombs", Quick: 24, Thorough: 24, CPU: 20, Run: func(c *Ctx, i int) {
			per := []int{2, 3, 5, 10}[i%4]
			depth := []int{8, 16, 30}[i/4%3]
			var b strings.Builder
			b.WriteString("<!DOCTYPE a [<!ENTITY e0 'lollollollol'>")
			for i := 1; i <= depth; i++ {
				fmt.Fprintf(&b, "<!ENTITY e%d '%s'>", i, strings.Repeat(fmt.Sprintf("&e%d;", i-1), per))
			}
			use := fmt.Sprintf("<a>&e%d;</a>", depth)
			if i >= 12 {
				use = fmt.Sprintf("<a b='&e%d;'/>", depth)
			}
			size := 12.0
			for i := 0; i < depth; i++ {
				size *= float64(per)
			}
			doc, err := parse(c, b.String()+"]>"+use)
			if size > 2e9 && err == nil {
				c.Fail("accepted, although the references stand for %g bytes", size)
				return
			}
			if err == nil {
				n := doc.LastChild()
				got := float64(len(n.Content()))
				if i >= 12 {
					got = float64(len(n.(*helium.Element).Attributes()[0].Value()))
				}
				c.Count("bytes expanded", int(got))
				if got != size {
					c.Fail("content has %g bytes, want %g", got, size)
				}
			} else if size < 1e6 {
				c.Fail("rejected, although the references stand for %g bytes only: %s", size, oneLine(err))
			}
			c.Seen(use)
		}},
		batch("documents", 20000, 400000, 50, func(c *Ctx, k int) {
			p := gen.Random(c.Rand)
			p.DTD, p.Entities = true, true
			s := gen.Doc(c.Rand, p)
			wantRefs(c, s)
			for j := 0; j < 2; j++ {
				// a change close to a reference
				at := strings.Split(s, "&")
				if len(at) < 2 {
					break
				}
				i := 1 + c.N(len(at)-1)
				t := at[i]
				if len(t) > 0 {
					x := c.N(len(t))
					if j := strings.IndexByte(t, ';'); j >= 0 {
						x = c.N(j + 1)
					}
					t = t[:x] + c.Pick("", "x", ";", "#", "&", " ", "<") + t[x+c.N(2):]
				}
				wantRefs(c, strings.Join(at[:i], "&")+"&"+t+func() string {
					if i+1 < len(at) {
						return "&" + strings.Join(at[i+1:], "&")
					}
					return ""
				}())
			}
		}),
	}
	register(ck)
}
