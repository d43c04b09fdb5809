package main

import (
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/verif/gen"
	"github.com/lestrrat-go/helium/verif/hx"
	"github.com/lestrrat-go/helium/verif/ref"
)

// nsTree compares the namespaces that the nodes report
func nsTree(n helium.Node, r *ref.Node) string {
	e, ok := n.(*helium.Element)
	if !ok || r.Kind != ref.KElem {
		return "not an element: " + n.Name()
	}
	if e.Prefix() != r.Prefix() || e.URI() != r.URI || e.Name() != r.Name {
		return fmt.Sprintf("element %s: prefix %q, namespace %q, want %q and %q", r.Name, e.Prefix(), e.URI(), r.Prefix(), r.URI)
	}
	if ns := e.Namespace(); r.URI != "" && (ns == nil || ns.URI() != r.URI || ns.Prefix() != r.Prefix()) {
		return fmt.Sprintf("element %s: Namespace() is not {%s}", r.Name, r.URI)
	}
	seen := map[string]bool{}
	for _, ns := range e.Namespaces() {
		k := ns.Prefix() + "=" + ns.URI()
		if seen[k] {
			return fmt.Sprintf("element %s: declaration %s is there twice", r.Name, k)
		}
		seen[k] = true
	}
	for _, d := range r.NS {
		if k := d.Prefix + "=" + d.URI; !seen[k] {
			return fmt.Sprintf("element %s: declaration %s is missing", r.Name, k)
		}
	}
	if len(seen) != len(r.NS) {
		return fmt.Sprintf("element %s: %d declarations, want %d", r.Name, len(seen), len(r.NS))
	}
	c := n.FirstChild()
	for _, x := range r.Children {
		if x.Kind != ref.KElem {
			continue
		}
		for c != nil && c.Type() != helium.ElementNode {
			c = c.NextSibling()
		}
		if c == nil {
			return "element " + x.Name + " is missing"
		}
		if m := nsTree(c, x); m != "" {
			return m
		}
		c = c.NextSibling()
	}
	return ""
}

// wantNS makes sure that s has the right namespaces, or is rejected
func wantNS(c *Ctx, s string) {
	r := refParse(s)
	switch r.Verdict {
	case ref.NotWF:
		c.Seen(s)
		c.Count(fault(r.Msg), 1)
		wantReject(c, s, r)
		p := helium.NewParser()
		p.SetSAXHandler(hx.NewRecorder(hx.AllCallbacks, nil))
		c.Eval()
		if _, err := p.Parse([]byte(s)); err == nil {
			c.Fail("accepted with a handler though not well-formed: %s", r.Msg)
		}
	case ref.WF:
		c.Seen(s)
		c.Count("well-formed", 1)
		doc := wantTree(c, s, r.Doc)
		if doc == nil {
			return
		}
		root := doc.FirstChild()
		for root.Type() != helium.ElementNode {
			root = root.NextSibling()
		}
		if m := nsTree(root, r.Doc.Root); m != "" {
			c.Fail("%s", m)
			return
		}
		rec, _, err := record(c, s, hx.AllCallbacks, false)
		if err != nil {
			c.Fail("rejected with a handler: %s", oneLine(err))
			return
		}
		if d := hx.Diff(hx.RefStream(r.Doc), hx.Stream(rec.Events)); d != "" {
			c.Fail("events differ: %s", d)
			return
		}
		// once more, through the serialiser
		out, err := doc.XMLString()
		if err != nil {
			c.Fail("not serialised: %s", oneLine(err))
			return
		}
		r2 := refParse(out)
		if r2.Verdict == ref.NotWF {
			c.Fail("serialised as %q, which is not well-formed: %s", head(out, 600), r2.Msg)
			return
		}
		if r2.Verdict == ref.WF {
			if d := hx.Diff(hx.RefDoc(r.Doc), hx.RefDoc(r2.Doc)); d != "" {
				c.Fail("serialised as %q: %s", head(out, 600), d)
			}
		}
	default:
		c.Count("skipped: "+r.Msg, 1)
	}
}

var nsPrefixes = []string{"", "", "p", "q", "p", "xml", "pp", "a"}
var nsURIs = []string{"u", "v", "u", "http://www.example.com/", "w w", "p", "a&amp;b", "", "http://www.w3.org/XML/1998/namespace", "http://www.w3.org/2000/xmlns/", "u&#32;", "\u00e9"}

// namespace names that are nearly the same
var nsAlike = []string{"u", "U", "u#", "u#1", "u#2", "u?", "u?1", "u?2", "u/", "u/.", "u//", " u", "u ", "u  u", "u u", "u&#9;u", "u\tu", "u&#32;u", "./u", "%75", "u%31", "u1", "urn:u", "URN:u", "urn:U", "http://u", "http://u/", "http://u:80/", "HTTP://u", "http://U", "http://u/%7E", "http://u/%7e", "http://u/~", "\u00e9", "e\u0301", "%C3%A9", "&#xe9;", "\u0131", "\u00b5", "\u03bc", "u&amp;", "u&#38;#38;", "u%26", "u;", "xml", "xmlns", "http://www.w3.org/XML/1998/Namespace", "http://www.w3.org/XML/1998/namespace/", "http://www.w3.org/XML/1998/namespace#", "http://www.w3.org/xml/1998/namespace", "http://www.w3.org/2000/xmlns", "http://www.w3.org/2000/XMLNS/", "https://www.w3.org/2000/xmlns/"}

var nsBlanks = []string{"u", "\t", "\n", " ", "\r\n", "&#9;", "&#10;", "&#13;", "&#32;", "&#38;#9;", "&#38;#10;", "&#38;#32;", "&e;"}

var nsAttrs = []string{"", "x", "p:x", "q:x", "r:x", "y", "p:y", "q:y", "xml:x"}

// nsElement makes an element that uses what has been declared, most of the time
func nsElement(c *Ctx, b *strings.Builder, depth int, scope []string, wild int) {
	name := c.Pick("a", "b", "p", "q")
	pick := func() string {
		if len(scope) > 0 && !c.P(1, wild) {
			return scope[c.N(len(scope))] + ":"
		}
		if c.P(1, wild) {
			return nsPrefixes[c.N(len(nsPrefixes))] + ":"
		}
		return ""
	}
	var decls []string
	in := append([]string{}, scope...)
	for n := c.N(4); n > 0; n-- {
		p := nsPrefixes[c.N(len(nsPrefixes))]
		u := nsURIs[c.N(3)]
		if c.P(1, 3) {
			u = nsURIs[c.N(7)]
		}
		if c.P(1, wild) {
			u = nsURIs[c.N(len(nsURIs))]
		}
		if p == "" {
			if c.P(1, 5) {
				u = ""
			}
			decls = append(decls, "xmlns='"+u+"'")
		} else {
			if p == "xml" && !c.P(1, wild) {
				u = nsURIs[8]
			}
			decls = append(decls, "xmlns:"+p+"='"+u+"'")
			in = append(in, p)
		}
	}
	if !c.P(1, wild) { // no duplicates
		seen := map[string]bool{}
		out := decls[:0]
		for _, d := range decls {
			k := d[:strings.Index(d, "=")]
			if !seen[k] {
				out = append(out, d)
			}
			seen[k] = true
		}
		decls = out
	}
	scope = in
	name = strings.TrimPrefix(pick()+name, ":")
	for n := c.N(3); n > 0; n-- {
		decls = append(decls, fmt.Sprintf("%s%s='%d'", strings.TrimPrefix(pick(), ":"), c.Pick("x", "y", "z", "w", "v"), c.N(9)))
	}
	for i := len(decls) - 1; i > 0; i-- {
		j := c.N(i + 1)
		decls[i], decls[j] = decls[j], decls[i]
	}
	b.WriteString("<" + name)
	for _, d := range decls {
		b.WriteString(" " + d)
	}
	kids := c.N(4)
	if depth <= 0 {
		kids = 0
	}
	if kids == 0 && c.P(1, 2) {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	for ; kids > 0; kids-- {
		nsElement(c, b, depth-1, scope, wild)
	}
	b.WriteString("</" + name + ">")
}

// nsDeep nests elements, with a few declarations on the way
func nsDeep(c *Ctx, depth int) string {
	var b strings.Builder
	type level struct {
		name  string
		scope map[string]bool
	}
	var open []level
	scope := map[string]bool{}
	prefixes := []string{"p", "q", "r", "s", "t"}
	use := func() string {
		var have []string
		for _, p := range prefixes {
			if scope[p] {
				have = append(have, p)
			}
		}
		if len(have) == 0 || c.P(1, 3) {
			return "a"
		}
		return have[c.N(len(have))] + ":a"
	}
	every := 1 + c.N(8)
	leaf := func() { fmt.Fprintf(&b, "<%s/>", use()) }
	for i := 0; i < depth; i++ {
		next := map[string]bool{}
		for p := range scope {
			next[p] = true
		}
		open = append(open, level{"", scope})
		scope = next
		var decls string
		seen := map[string]bool{}
		if c.P(1, every) {
			for n := c.N(4); n > 0; n-- {
				p := prefixes[c.N(len(prefixes))]
				if !seen[p] {
					decls += fmt.Sprintf(" xmlns:%s='u%d'", p, c.N(6))
					seen[p] = true
					scope[p] = true
				}
			}
			if c.P(1, 3) {
				decls += fmt.Sprintf(" xmlns='%s'", c.Pick("", "d", "e", "f"))
			}
		}
		name := use()
		open[len(open)-1].name = name
		fmt.Fprintf(&b, "<%s%s>", name, decls)
		if c.P(1, 6) {
			leaf()
		}
		// up a few levels, and down again
		if c.P(1, 12) {
			for up := c.N(1 + len(open)/2); up > 0; up-- {
				l := open[len(open)-1]
				open = open[:len(open)-1]
				fmt.Fprintf(&b, "</%s>", l.name)
				scope = l.scope
				if len(open) > 0 && c.P(1, 3) {
					leaf()
				}
			}
		}
		if len(open) == 0 {
			break
		}
	}
	for len(open) > 0 {
		l := open[len(open)-1]
		open = open[:len(open)-1]
		fmt.Fprintf(&b, "</%s>", l.name)
		scope = l.scope
		if len(open) > 0 && c.P(1, 3) {
			leaf()
		}
	}
	return b.String()
}

func init() {
	decls := []string{"", " xmlns='u'", " xmlns=''", " xmlns:p='u'", " xmlns:p='v'", " xmlns:p='u' xmlns='v'", " xmlns:q='u'", " xmlns:p='u' xmlns:q='u'"}
	names := []string{"a", "p:a", "q:a"}
	attrs := []string{"", " x='1' p:x='2'", " q:x='1' p:x='2'"}
	level := len(decls) * len(names) * len(attrs)
	tag := func(k int) (string, string) {
		d := decls[k%len(decls)]
		k /= len(decls)
		n := names[k%len(names)]
		k /= len(names)
		return "<" + n + attrs[k] + d, "</" + n + ">"
	}
	// attributes and declarations of a single tag
	tagParts := []string{" xmlns='u'", " xmlns='v'", " xmlns=''", " xmlns:p='u'", " xmlns:p='v'", " xmlns:q='u'", " xmlns:p=''", " xmlns:xml='http://www.w3.org/XML/1998/namespace'", " xmlns:xml='u'", " xmlns:xmlns='u'", " xmlns:r='http://www.w3.org/XML/1998/namespace'", " xmlns='http://www.w3.org/2000/xmlns/'", " x=''", " p:x=''", " q:x=''", " xml:x=''", " xml:lang='en'", " p:y=''"}
	ck := &Check{ID: "C08",
		Rule: "a case is a document with namespaces, distinct by its text. An independent resolver says which namespace each name is in and whether the document is namespace-well-formed; tree, events and the serialised document are compared with that",
	}
	ck.Sections = []Section{
		batch("levels", level*level, level*level*20, 200, func(c *Ctx, k int) {
			o1, c1 := tag(k % level)
			k /= level
			o2, c2 := tag(k % level)
			k /= level
			if k == 0 {
				wantNS(c, o1+">"+o2+"/>"+c1)
				wantNS(c, o1+">"+o2+"><p:b/></"+o2[1:strings.IndexAny(o2+" ", " >")]+"><p:c/><a/>"+c1)
				_ = c2
				return
			}
			o3, c3 := tag(c.N(level))
			o4, _ := tag(c.N(level))
			wantNS(c, o1+">"+o2+">"+o3+">"+c3+o4+"/>"+c2+o3+"/>"+c1)
		}),
		batch("tags", pow(len(tagParts), 3), pow(len(tagParts), 4), 200, func(c *Ctx, k int) {
			n := 3
			if c.tier == "thorough" {
				n = 4
			}
			w := words(tagParts, k, n)
			wantNS(c, "<a"+w+"/>")
			wantNS(c, "<o xmlns='o' xmlns:p='o' xmlns:q='r'><p:a"+w+"><a/></p:a><p:b/></o>")
		}),
		// colons in targets and the names of entities
		small("colons", []string{":", "a", "xml-model", "xml-stylesheet", "xml", "b", "\u00e9", " ", "-", "1"}, 5, 6, 500, func(c *Ctx, w string) {
			switch c.N(6) {
			case 0:
				wantNS(c, "<?"+w+" x?><a/>")
			case 1:
				wantNS(c, "<a><?"+w+"?></a>")
			case 2:
				wantNS(c, "<a/><?"+w+" y?>")
			case 3:
				wantNS(c, "<!DOCTYPE a [<?"+w+" x?>]><a/>")
			case 4:
				wantNS(c, "<!DOCTYPE a [<!ENTITY "+w+" 'x'>]><a>&"+w+";</a>")
			case 5:
				wantNS(c, "<!DOCTYPE a [<!ENTITY % "+w+" 'x'>]><a/>")
			}
		}),
		// attributes whose expanded names may be the same
		batch("attributes", pow(len(nsAttrs), 5), pow(len(nsAttrs), 6), 300, func(c *Ctx, k int) {
			n := 5
			if c.tier == "thorough" {
				n = 6
			}
			var w string
			seen := map[string]bool{}
			for ; n > 0; n-- {
				at := nsAttrs[k%len(nsAttrs)]
				k /= len(nsAttrs)
				if seen[at] {
					return
				}
				seen[at] = at != ""
				if at != "" {
					w += " " + at + "='" + at + "'"
				}
			}
			wantNS(c, "<a"+w+" xmlns:p='u' xmlns:q='u' xmlns:r='v'/>")
			wantNS(c, "<a xmlns='v' xmlns:p='u' xmlns:r='v'><b"+w+" xmlns:q='u' z='' xml:z=''/></a>")
		}),
		// namespace names are the same only if they are the same string
		batch("alike", len(nsAlike)*len(nsAlike)*4, len(nsAlike)*len(nsAlike)*4, 100, func(c *Ctx, k int) {
			u := nsAlike[k%len(nsAlike)]
			k /= len(nsAlike)
			v := nsAlike[k%len(nsAlike)]
			k /= len(nsAlike)
			switch k {
			case 0:
				wantNS(c, "<a xmlns:p='"+u+"' xmlns:q='"+v+"' p:x='' q:x=''/>")
			case 1:
				wantNS(c, "<a xmlns:p='"+u+"'><b xmlns:p='"+v+"' xmlns:q='"+u+"' p:x='' q:x=''><p:c/></b><p:c/></a>")
			case 2:
				wantNS(c, "<a xmlns='"+u+"'><b xmlns='"+v+"' xmlns:q='"+v+"' x='' q:x=''><c/></b><c/></a>")
			default:
				wantNS(c, "<!DOCTYPE a [<!ATTLIST a q:x CDATA '1'>]><a xmlns:p=\""+u+"\" xmlns:q=\""+v+"\" p:x=''/>")
			}
		}),
		// white space in namespace names, and in entities that they refer to
		batch("blanks", pow(len(nsBlanks), 3)*3, pow(len(nsBlanks), 3)*3, 100, func(c *Ctx, k int) {
			how := k % 3
			k /= 3
			w := words(nsBlanks, k, 3)
			e := strings.Replace(w, "&e;", "&f;", -1)
			dtd := "<!DOCTYPE a [<!ENTITY e '" + e + "'><!ENTITY f 'f\t&#10;'>"
			switch how {
			case 0:
				wantNS(c, dtd+"]><a xmlns='u&e;' xmlns:q='&e;u' q:x=''/>")
			case 1:
				wantNS(c, dtd+"]><a xmlns:p='"+w+"' xmlns:q='u' p:x='' q:x=''><p:b/></a>")
			default:
				wantNS(c, dtd+"<!ATTLIST a xmlns:p "+c.Pick("CDATA", "NMTOKENS")+" '"+strings.Replace(w, "&e;", "&f;", -1)+"x'>]><a/>")
			}
		}),
		batch("many attributes", 4000, 100000, 50, func(c *Ctx, k int) {
			var at []string
			for n := 2 + c.N(40); n > 0; n-- {
				at = append(at, fmt.Sprintf("%s:x%d='%d'", c.Pick("p", "r", "s"), n, n))
			}
			if c.P(3, 4) {
				x := at[c.N(len(at))]
				at = append(at, c.Pick("p", "q", "r", "s")+x[strings.Index(x, ":"):])
			}
			for i := len(at) - 1; i > 0; i-- {
				j := c.N(i + 1)
				at[i], at[j] = at[j], at[i]
			}
			wantNS(c, "<a xmlns:p='u' xmlns:q='u' xmlns:r='v' xmlns:s='U'><b "+strings.Join(at, " ")+"/><b "+strings.Join(at[1:], " ")+"/></a>")
		}),
		batch("gen", 60000, 1500000, 100, func(c *Ctx, k int) {
			var b strings.Builder
			nsElement(c, &b, 1+c.N(5), nil, 6+c.N(40))
			c.Sample(b.String())
			wantNS(c, b.String())
		}),
		batch("deep", 600, 10000, 4, func(c *Ctx, k int) {
			d := 5 + c.N(60)
			if c.P(1, 4) {
				d = 60 + c.N(1500)
			}
			wantNS(c, nsDeep(c, d))
		}),
		batch("documents", 20000, 300000, 50, func(c *Ctx, k int) {
			p := gen.Random(c.Rand)
			p.NS = true
			s := gen.Doc(c.Rand, p)
			wantNS(c, s)
			// a change to a name, or a declaration
			at := strings.Split(s, ":")
			if len(at) > 1 {
				i := 1 + c.N(len(at)-1)
				wantNS(c, strings.Join(at[:i], ":")+c.Pick("", "x:", ":x", "x")+strings.Join(at[i:], ":"))
			}
			wantNS(c, strings.Replace(s, "xmlns:", c.Pick("xmlns:x", "xmln", "xmlns"), 1))
		}),
		batch("entities", 3000, 60000, 50, func(c *Ctx, k int) {
			var b strings.Builder
			nsElement(c, &b, 1, []string{"p"}, 12)
			ent := strings.Replace(b.String(), "&", "&#38;", -1)
			d := c.Pick("", " xmlns:p='u'", " xmlns:q='u'", " xmlns:p='u' xmlns:q='v'", " xmlns='d'")
			wantNS(c, "<!DOCTYPE r [<!ENTITY e \""+ent+"\">]><r"+d+"><s>&e;</s></r>")
			wantNS(c, "<!DOCTYPE r [<!ENTITY e \""+ent+"\">]><r><s"+d+">&e;</s><p:t xmlns:p='x'>&e;</p:t></r>")
			wantNS(c, "<!DOCTYPE r [<!ENTITY e \""+ent+"\">]><r><s"+d+">&e;</s><t>&e;</t></r>")
		}),
	}
	register(ck)
}
