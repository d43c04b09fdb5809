package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/encoding"
	"github.com/lestrrat-go/helium/verif/hx"
	"github.com/lestrrat-go/helium/verif/ref"
)

// plan is a tree that is going to be built, and what it should be read back as
type plan struct {
	*ref.Node
	raw   string // the bytes of the text, before characters that aren't legal are replaced
	attrs []planAttr
	kids  []*plan
}

type planAttr struct{ name, value string }

type planner struct {
	c     *Ctx
	t     *table // what names, comments and processing instructions can be made of
	wild  bool   // characters that are not legal
	ents  []string
	left  int
	decls map[string]int
}

var hostile = []string{"<", ">", "&", "\"", "'", "]]>", "]]", "]", "--", "-->", "<!--", "?>", "<?x", "<![CDATA[", "]]>", "&amp;", "&#38;", "&#60;", "&lt;", "&e;", "&", ";", "#", "%", "%e;", "\n", "\r", "\r\n", "\n\n", "\t", " ", "  ", "\u0085", "\u2028", "\u00a0", "\u007f", "\u0080", "\u009f", "\u00df", "\u00e0", "\u00e9", "\u0100", "\u20ac", "\u4e00", "\ufffd", "\ufeff", "\ue000", "\ud7ff", "\U00010000", "\U0001f600", "\U0010ffff", "</a>", "<a/>", "/>", "=", "a", "b", "0", "xmlns", "xml:lang='x'", "a='b'", "a=\"b\"", "\\", "/", "~", "~~", "~{", "`", "$", "{", "}", "|", "^", "_", "."}
var illegal = []string{"\x00", "\x01", "\x08", "\x0b", "\x0c", "\x0e", "\x1b", "\x1f", "\x80", "\xff", "\xc0\x80", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\xf0\x9f\x98", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\xef\xbf\xbe", "\xef\xbf\xbf", "\xf5"}

func (p *planner) hostile(n int) string {
	var b strings.Builder
	for n = p.c.N(n + 1); n > 0; n-- {
		switch k := p.c.N(20); {
		case k == 0 && p.wild:
			b.WriteString(p.c.Pick(illegal...))
		case k < 3:
			b.WriteRune(rune(32 + p.c.N(95)))
		case k == 3:
			r := rune(p.c.N(0x11000))
			if p.c.P(1, 3) {
				r = rune(p.c.N(0x110000))
			}
			if ref.IsChar(r) {
				b.WriteRune(r)
			}
		default:
			b.WriteString(p.c.Pick(hostile...))
		}
	}
	if r, _ := utf8.DecodeLastRuneInString(b.String()); r == utf8.RuneError && b.Len() > 0 {
		b.WriteByte('.') // so that it does not become something else together with what follows
	}
	if p.t == nil {
		return b.String()
	}
	// it's disputed whether encodings have got characters that are missing
	// from the tables, so only those are kept that surely are missing
	var f strings.Builder
	s := b.String()
	for s != "" {
		r, w := utf8.DecodeRuneInString(s)
		if r == utf8.RuneError && w == 1 || p.t.has(r) || r == 0x10000 || r == 0x1F600 || r == 0x10FFFF || r == 0xF00 {
			f.WriteString(s[:w])
		} else {
			f.WriteByte('.') // bytes around it that are no characters must not join
		}
		s = s[w:]
	}
	return f.String()
}

// sane is what s is written as: characters that aren't legal are replaced
func sane(s string) string {
	var b strings.Builder
	for s != "" {
		r, n := utf8.DecodeRuneInString(s)
		if !ref.IsChar(r) {
			r = 0xFFFD
		}
		b.WriteRune(r)
		s = s[n:]
	}
	return b.String()
}

// fits is s without what names, comments and the like can't contain
func (p *planner) fits(s string) string {
	var b strings.Builder
	for _, r := range sane(s) {
		if p.t == nil || r < 0x80 || p.t.has(r) {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (p *planner) ncname() string {
	if p.t == nil && p.c.P(1, 4) {
		return p.c.Pick("é", "日本", "ñandú", "𐀀", "_", "x·", "Ω", "a-b", "a.b", "A", "xmlx", "x1", "x͠")
	}
	return p.c.Pick("a", "b", "c", "name", "_", "a-b", "a.b", "Z9", "x", "xmlns1", "Xml")
}

func (p *planner) uri(prefix string) string {
	for {
		s := p.hostile(3)
		if p.c.P(1, 2) {
			s = p.c.Pick("u:1", "u:2", "http://example.com/?a=1&b=2", "urn:<>\"'", " u ", "u\nv")
		}
		if t := sane(s); t != "http://www.w3.org/XML/1998/namespace" && t != "http://www.w3.org/2000/xmlns/" && (t != "" || prefix == "") {
			return s
		}
	}
}

func (p *planner) elem(depth int, scope map[string]string) *plan {
	e := &plan{Node: &ref.Node{Kind: ref.KElem}}
	p.left--
	// declarations
	if p.c.P(1, 3) {
		s := map[string]string{}
		for k, v := range scope {
			s[k] = v
		}
		scope = s
		for n := 1 + p.c.N(3); n > 0; n-- {
			prefix := p.c.Pick("", "p", "q", "r", "é")
			if prefix == "é" && p.t != nil {
				prefix = "z"
			}
			u := p.uri(prefix)
			dup := false
			for _, d := range e.NS {
				dup = dup || d.Prefix == prefix
			}
			if !dup {
				e.NS = append(e.NS, ref.NSDecl{Prefix: prefix, URI: u})
				scope[prefix] = sane(u)
			}
		}
	}
	var prefixes []string
	for k := range scope {
		prefixes = append(prefixes, k)
	}
	sort.Strings(prefixes)
	// its name
	prefix := ""
	if len(prefixes) > 0 && p.c.P(1, 2) {
		prefix = prefixes[p.c.N(len(prefixes))]
	}
	e.Name = p.ncname()
	if prefix != "" {
		e.Name = prefix + ":" + e.Name
	}
	e.URI = scope[prefix]
	// attributes
	seen := map[string]bool{}
	for n := p.c.N(4); n > 0; n-- {
		name := p.ncname()
		key := "\x00" + name
		if len(prefixes) > 0 && p.c.P(1, 3) {
			if x := prefixes[p.c.N(len(prefixes))]; x != "" {
				key = scope[x] + "\x00" + name
				name = x + ":" + name
			}
		} else if p.c.P(1, 10) {
			name = p.c.Pick("xml:space", "xml:lang", "xml:id", "xml:base")
			key = name
		}
		if name == "xmlns" || seen[key] {
			continue
		}
		seen[key] = true
		value, pieces := p.value()
		if name == "xml:space" || name == "xml:id" {
			value, pieces = "preserve", []ref.Piece{{Text: "preserve"}}
		}
		e.attrs = append(e.attrs, planAttr{name, value})
		e.Attrs = append(e.Attrs, ref.Attr{Name: name, Pieces: pieces})
	}
	// content
	n := p.c.N(5)
	if depth == 0 {
		n++
	}
	for ; n > 0; n-- {
		k := p.c.N(10)
		switch {
		case k < 4 && depth < 6 && p.left > 0:
			e.kids = append(e.kids, p.elem(depth+1, scope))
		case k < 8:
			s := p.hostile(4)
			e.kids = append(e.kids, &plan{Node: &ref.Node{Kind: ref.KText, Data: sane(s)}, raw: s})
		case k < 9 && len(p.ents) > 0:
			e.kids = append(e.kids, &plan{Node: &ref.Node{Kind: ref.KRef, Name: p.ents[p.c.N(len(p.ents))]}})
		default:
			e.kids = append(e.kids, p.misc())
		}
	}
	return e
}

// value is the value of an attribute, as XML-escaped text, and what it is made of
func (p *planner) value() (string, []ref.Piece) {
	var b strings.Builder
	var ps []ref.Piece
	text := func(s string) {
		s = sane(s)
		if s == "" {
			return
		}
		if n := len(ps); n > 0 && !ps[n-1].Ref {
			ps[n-1].Text += s
			return
		}
		ps = append(ps, ref.Piece{Text: s})
	}
	for n := p.c.N(4); n > 0; n-- {
		if len(p.ents) > 0 && p.c.P(1, 5) {
			e := p.ents[p.c.N(len(p.ents))]
			b.WriteString("&" + e + ";")
			ps = append(ps, ref.Piece{Ref: true, Text: e})
			continue
		}
		s := p.hostile(3)
		for s != "" {
			r, w := utf8.DecodeRuneInString(s)
			ch := s[:w]
			s = s[w:]
			bad := r == utf8.RuneError && w == 1 || !ref.IsChar(r)
			switch {
			case ch == "&":
				b.WriteString(p.c.Pick("&amp;", "&#38;", "&#x26;", "&#x0026;"))
			case !bad && p.c.P(1, 6):
				switch {
				case ch == "<" && p.c.P(1, 2):
					b.WriteString("&lt;")
				case ch == ">" && p.c.P(1, 2):
					b.WriteString("&gt;")
				case ch == "'" && p.c.P(1, 2):
					b.WriteString("&apos;")
				case ch == "\"" && p.c.P(1, 2):
					b.WriteString("&quot;")
				case p.c.P(1, 2):
					fmt.Fprintf(&b, "&#%d;", r)
				default:
					fmt.Fprintf(&b, "&#x%X;", r)
				}
			default:
				b.WriteString(ch)
			}
			text(ch)
		}
	}
	return b.String(), ps
}

func (p *planner) misc() *plan {
	if p.c.P(1, 2) {
		s := strings.NewReplacer("-", "~", "\r", "").Replace(p.fits(p.hostile(4)))
		if p.c.P(1, 4) {
			s = "-" + s + "-a"
			if strings.HasPrefix(s, "--") {
				s = "a"
			}
		}
		return &plan{Node: &ref.Node{Kind: ref.KComment, Data: s}}
	}
	s := strings.NewReplacer("?>", "", "\r", "").Replace(p.fits(p.hostile(4)))
	s = strings.Replace(strings.TrimLeft(s, " \t\n"), "?>", "", -1)
	name := p.ncname()
	if strings.EqualFold(name, "xml") {
		name = "x"
	}
	return &plan{Node: &ref.Node{Kind: ref.KPI, Name: name, Data: s}}
}

// build makes what is planned, with the children of elements added in one of
// several ways
func (p *planner) build(w *helium.Document, x *plan) helium.Node {
	must := func(err error) {
		if err != nil {
			p.c.Fail("error building the tree: %s", oneLine(err))
		}
		p.c.Eval()
	}
	var n helium.Node
	switch x.Kind {
	case ref.KText:
		t, err := w.CreateText([]byte(x.raw))
		must(err)
		n = t
	case ref.KComment:
		b := []byte(x.Data)
		t, err := w.CreateComment(b)
		for i := range b {
			b[i] = '-'
		}
		must(err)
		n = t
	case ref.KPI:
		t, err := w.CreatePI(x.Name, x.Data)
		must(err)
		n = t
	case ref.KRef:
		name := x.Name
		if p.c.P(1, 2) {
			name = "&" + name + ";"
		}
		t, err := w.CreateReference(name)
		must(err)
		n = t
	case ref.KElem:
		e, err := w.CreateElement(x.Local())
		must(err)
		n = e
		order := p.c.N(3)
		if order == 0 {
			p.dress(x, e)
		}
		p.fill(w, x, e, must)
		if order != 0 {
			p.dress(x, e)
		}
	}
	return n
}

func (p *planner) dress(x *plan, e *helium.Element) {
	for _, d := range x.NS {
		if err := e.SetNamespace(d.Prefix, d.URI, false); err != nil {
			p.c.Fail("error in SetNamespace: %s", err)
		}
	}
	if x.URI != "" || x.Prefix() != "" {
		if err := e.SetNamespace(x.Prefix(), x.URI, true); err != nil {
			p.c.Fail("error in SetNamespace: %s", err)
		}
	}
	for i, a := range x.attrs {
		if p.c.P(1, 12) {
			// these must not have an effect
			bad := p.c.Pick("&", "a & b", "&#0;", "&#xD800;", "&#xFFFF;", "&#1114112;", "&#;", "&#x;", "&;", "& ;", "&lt", "&#60", "&#xg;", "x&<;", "&1;", "&amp;&", "&#4294967361;")
			if err := e.SetAttribute(a.name, bad); err == nil {
				p.c.Fail("SetAttribute(%q, %q) returns no error", a.name, bad)
			}
			p.c.Count("values refused", 1)
		}
		if err := e.SetAttribute(a.name, a.value); err != nil {
			p.c.Fail("SetAttribute(%q, %q) returns error %s", a.name, a.value, oneLine(err))
		}
		if p.c.P(1, 12) {
			if err := e.SetAttribute(x.attrs[p.c.N(i+1)].name, "again"); err != helium.ErrDuplicateAttribute {
				p.c.Fail("SetAttribute of an attribute that exists returns %v", err)
			}
		}
	}
}

// fill adds the children
func (p *planner) fill(w *helium.Document, x *plan, e helium.Node, must func(error)) {
	var last helium.Node
	var pending []func()
	for _, k := range x.kids {
		if k.Kind == ref.KText && p.c.P(1, 2) {
			// in parts
			s := k.raw
			for s != "" {
				n := 1 + p.c.N(len(s))
				for n < len(s) && !utf8.RuneStart(s[n]) {
					n++
				}
				if sane(s[:n])+sane(s[n:]) != sane(s) {
					n = len(s)
				}
				if r, l := utf8.DecodeRuneInString(s[:n]); p.c.P(1, 3) && ref.IsChar(r) && (r != utf8.RuneError || l > 1) {
					// a reference to the character
					n = l
					t, err := w.CreateCharRef(fmt.Sprintf(p.c.Pick("#%d", "&#%d;", "#x%x", "&#x%X;", "&#000%d"), r))
					must(err)
					must(e.AddChild(t))
				} else if p.c.P(1, 2) {
					must(e.AddContent([]byte(s[:n])))
				} else {
					t, err := w.CreateText([]byte(s[:n]))
					must(err)
					if last == nil || p.c.P(1, 2) {
						must(e.AddChild(t))
					} else {
						must(last.AddSibling(t))
					}
				}
				s = s[n:]
				last = e.LastChild()
			}
			continue
		}
		n := p.build(w, k)
		switch r := p.c.N(6); {
		case r == 0:
			// something else first
			t, err := w.CreateElement("placeholder")
			must(err)
			must(e.AddChild(t))
			if p.c.P(1, 2) {
				t.Replace(n)
			} else {
				n := n
				pending = append(pending, func() { t.Replace(n) })
			}
		case r < 3 && last != nil:
			must(last.AddSibling(n))
		default:
			must(e.AddChild(n))
		}
		last = e.LastChild()
		if p.c.P(1, 4) {
			last = e.FirstChild()
		}
	}
	for len(pending) > 0 {
		i := p.c.N(len(pending))
		pending[i]()
		pending = append(pending[:i], pending[i+1:]...)
	}
}

// want is what is read back
func (x *plan) want() *ref.Node {
	r := *x.Node
	r.NS = nil
	for _, d := range x.NS {
		r.NS = append(r.NS, ref.NSDecl{Prefix: d.Prefix, URI: sane(d.URI)})
	}
	r.Children = nil
	for _, k := range x.kids {
		y := k.want()
		if y.Kind == ref.KText {
			if y.Data == "" {
				continue
			}
			if n := len(r.Children); n > 0 && r.Children[n-1].Kind == ref.KText {
				r.Children[n-1].Data += y.Data
				continue
			}
		}
		r.Children = append(r.Children, y)
	}
	return &r
}

// decode converts text from an encoding without states
func (t *table) decode(s string) (string, bool) {
	var b strings.Builder
	for s != "" {
		n := 1
		for ; n <= 3 && n <= len(s); n++ {
			if r, ok := t.dec[s[:n]]; ok {
				b.WriteRune(r)
				break
			}
		}
		if n > 3 || n > len(s) {
			if s[0] >= 0x80 {
				return b.String(), false
			}
			n = 1
			b.WriteByte(s[0])
		}
		s = s[n:]
	}
	return b.String(), true
}

// tokens is how encoding/xml reads a document
func tokens(s string, entities map[string]string) ([]string, error) {
	d := xml.NewDecoder(strings.NewReader(s))
	d.Entity = entities
	d.CharsetReader = func(label string, r io.Reader) (io.Reader, error) { return r, nil }
	var out []string
	text := ""
	flush := func() {
		if text != "" {
			out = append(out, fmt.Sprintf("text %q", text))
		}
		text = ""
	}
	for {
		t, err := d.Token()
		if err == io.EOF {
			flush()
			return out, nil
		}
		if err != nil {
			return nil, err
		}
		switch t := t.(type) {
		case xml.StartElement:
			flush()
			out = append(out, "start "+t.Name.Local)
			for _, a := range t.Attr {
				out = append(out, fmt.Sprintf("attr %s=%q", a.Name.Local, a.Value))
			}
		case xml.EndElement:
			flush()
			out = append(out, "end "+t.Name.Local)
		case xml.CharData:
			text += string(t)
		case xml.Comment:
			flush()
			out = append(out, fmt.Sprintf("comment %q", []byte(t)))
		case xml.ProcInst:
			flush()
			if t.Target != "xml" {
				out = append(out, fmt.Sprintf("pi %s %q", t.Target, t.Inst))
			}
		}
	}
}

// wantTokens is how it should be read
func wantTokens(n *ref.Node, entities map[string]string) []string {
	var out []string
	text := ""
	flush := func() {
		if text != "" {
			out = append(out, fmt.Sprintf("text %q", text))
		}
		text = ""
	}
	for _, k := range n.Children {
		switch k.Kind {
		case ref.KText:
			text += k.Data
			continue
		case ref.KRef:
			text += entities[k.Name]
			continue
		}
		flush()
		out = append(out, wantToken(k, entities)...)
	}
	flush()
	return out
}

func wantToken(k *ref.Node, entities map[string]string) []string {
	var out []string
	switch k.Kind {
	case ref.KElem:
		out = append(out, "start "+k.Local())
		for _, d := range k.NS {
			l := "xmlns"
			if d.Prefix != "" {
				l = d.Prefix
			}
			out = append(out, fmt.Sprintf("attr %s=%q", l, d.URI))
		}
		for _, a := range k.Attrs {
			_, l := ref.SplitQName(a.Name)
			v := ""
			for _, p := range a.Pieces {
				if p.Ref {
					v += entities[p.Text]
				} else {
					v += p.Text
				}
			}
			out = append(out, fmt.Sprintf("attr %s=%q", l, v))
		}
		out = append(out, wantTokens(k, entities)...)
		out = append(out, "end "+k.Local())
	case ref.KComment:
		out = append(out, fmt.Sprintf("comment %q", k.Data))
	case ref.KPI:
		out = append(out, fmt.Sprintf("pi %s %q", k.Name, k.Data))
	}
	return out
}

// built makes a document and checks what it is written as
func built(c *Ctx, t *table, size int, wild bool) {
	p := &planner{c: c, t: t, wild: wild, left: size}
	version := c.Pick("1.0", "1.0", "1.1", "")
	standalone := []helium.DocumentStandaloneType{helium.StandaloneImplicitNo, helium.StandaloneExplicitNo, helium.StandaloneExplicitYes}[c.N(3)]
	encName := ""
	if t != nil {
		encName = called(c, t.name)
	} else if c.P(1, 3) {
		encName = c.Pick("utf-8", "UTF-8", "utf8")
	}
	if t != nil && t.name == "utf-8" {
		p.t, t = nil, nil
	}
	doc := helium.NewDocument(version, encName, standalone)
	if version == "" {
		version = "1.0"
	}
	must := func(err error) {
		if err != nil {
			c.Fail("error building the document: %s", oneLine(err))
		}
	}

	rd := &ref.Doc{}
	entities := map[string]string{}
	dtd := false
	prolog := func() {
		for c.P(1, 3) {
			x := p.misc()
			must(doc.AddChild(p.build(doc, x)))
			rd.Children = append(rd.Children, x.want())
		}
	}
	prolog()
	if c.P(1, 2) {
		dtd = true
		_, err := doc.CreateInternalSubset("root", "", "")
		must(err)
		rd.Children = append(rd.Children, &ref.Node{Kind: ref.KDTD, Name: "root"})
		for n := c.N(4); n > 0; n-- {
			name := p.c.Pick("e", "f", "g", "ent", "amp2")
			if _, ok := entities[name]; ok {
				continue
			}
			v := strings.Replace(strings.NewReplacer("<", "", "&", "").Replace(sane(p.hostile(4))), "]>", "]", -1)
			if strings.Contains(v, "]>") {
				v = ""
			}
			_, err := doc.AddEntity(name, helium.InternalGeneralEntity, "", "", v)
			must(err)
			entities[name] = v
			p.ents = append(p.ents, name)
		}
		prolog()
	}
	plan := p.elem(0, map[string]string{})
	root := p.build(doc, plan)
	must(doc.SetDocumentElement(root))
	rd.Children = append(rd.Children, plan.want())
	prolog()
	if c.Failed() {
		return
	}

	c.Eval()
	out, err := doc.XMLString()
	c.Input(out)
	if err != nil {
		c.Fail("not serialised: %s", oneLine(err))
		return
	}
	var buf bytes.Buffer
	if err := doc.XML(&buf); err != nil || buf.String() != out {
		c.Fail("XML writes %q (error %v), XMLString returns %q", buf.String(), err, out)
		return
	}
	u := out
	if t != nil {
		var ok bool
		if u, ok = t.decode(out); !ok {
			// there may be other ways to write a character
			b, err := encoding.Load(t.name).NewDecoder().String(out)
			ok = err == nil && !strings.Contains(b, "\ufffd")
			u = b
		}
		if !ok {
			c.Fail("output is not in %s", t.name)
			return
		}
		c.Count("documents in other encodings", 1)
	}
	r := ref.Parse([]byte(u), ref.Options{AnyEncoding: true})
	if r.Verdict == ref.Skip {
		c.Count("skipped", 1)
		return
	}
	if r.Verdict != ref.WF {
		c.Fail("output is not well-formed: %s (offset %d)", r.Msg, r.Pos)
		return
	}
	want := hx.RefDoc(rd)
	if d := hx.Diff(want, hx.RefDoc(r.Doc)); d != "" {
		c.Fail("output differs: %s", d)
		return
	}
	if r.Doc.Version != version || r.Doc.Encoding != encName {
		c.Fail("output is version %q, encoding %q, want %q, %q", r.Doc.Version, r.Doc.Encoding, version, encName)
	}
	if want := []string{"", "no", "yes"}[map[helium.DocumentStandaloneType]int{helium.StandaloneImplicitNo: 0, helium.StandaloneExplicitNo: 1, helium.StandaloneExplicitYes: 2}[standalone]]; r.Doc.Standalone != want {
		c.Fail("output is standalone %q, want %q", r.Doc.Standalone, want)
	}
	for name, v := range entities {
		if d := r.Doc.Entities[name]; d == nil || d.Text != v {
			c.Fail("entity %s is lost, or its text differs: %+v, want %q", name, d, v)
			return
		}
	}
	// another reader
	if t == nil && version == "1.0" && !strings.Contains(u, "𐀀") { // it does not know all names
		toks, err := tokens(u, entities)
		if err != nil {
			c.Fail("output is rejected by encoding/xml: %s", err)
			return
		}
		var wt []string
		for _, k := range rd.Children {
			wt = append(wt, wantToken(k, entities)...)
		}
		var gt []string
		depth := 0
		for _, k := range toks {
			// blanks around the root
			if depth == 0 && strings.HasPrefix(k, "text ") {
				continue
			}
			if strings.HasPrefix(k, "start ") {
				depth++
			} else if strings.HasPrefix(k, "end ") {
				depth--
			}
			gt = append(gt, k)
		}
		if d := hx.Diff(wt, gt); d != "" {
			c.Fail("encoding/xml reads it differently: %s", d)
			return
		}
		c.Count("documents read by encoding/xml, too", 1)
	}
	// the root on its own
	if !dtd {
		s, err := root.(*helium.Element).XMLString()
		c.Eval()
		c.Input(s)
		if err != nil {
			c.Fail("element not serialised: %s", oneLine(err))
			return
		}
		r := refParse(s)
		if r.Verdict == ref.NotWF {
			c.Fail("element is not well-formed: %s (offset %d)", r.Msg, r.Pos)
		} else if r.Verdict == ref.WF {
			if d := hx.Diff(hx.RefNode(plan.want(), 0), hx.RefDoc(r.Doc)); d != "" {
				c.Fail("element differs: %s", d)
			}
		}
		c.Count("elements on their own", 1)
	}
	if !c.Failed() {
		c.Count("documents", 1)
		kinds(c, r.Doc)
		c.Seen(out)
		c.Sample(out)
	}
}

// single puts one string in every place
func single(c *Ctx, s string) {
	doc := helium.CreateDocument()
	e, _ := doc.CreateElement("a")
	e.SetNamespace("p", "u:"+s, false)
	esc := strings.Replace(s, "&", "&amp;", -1)
	if err := e.SetAttribute("v", esc); err != nil {
		c.Fail("SetAttribute(%q): %s", esc, oneLine(err))
		return
	}
	if err := e.SetAttribute("p:w", "x"+esc+"y"); err != nil {
		c.Fail("SetAttribute(%q): %s", esc, oneLine(err))
		return
	}
	b, _ := doc.CreateElement("b")
	e.AddChild(b)
	b.AddContent([]byte(s))
	e.AddContent([]byte("x" + s + "y"))
	doc.SetDocumentElement(e)
	c.Eval()
	out, err := doc.XMLString()
	c.Input(out)
	if err != nil {
		c.Fail("not serialised: %s", oneLine(err))
		return
	}
	v := sane(s)
	text := func(s string) []*ref.Node {
		if s == "" {
			return nil
		}
		return []*ref.Node{{Kind: ref.KText, Data: s}}
	}
	piece := func(s string) []ref.Piece {
		if s == "" {
			return nil
		}
		return []ref.Piece{{Text: s}}
	}
	want := &ref.Node{Kind: ref.KElem, Name: "a", NS: []ref.NSDecl{{Prefix: "p", URI: "u:" + v}},
		Attrs:    []ref.Attr{{Name: "v", Pieces: piece(v)}, {Name: "p:w", Pieces: piece("x" + v + "y")}},
		Children: append([]*ref.Node{{Kind: ref.KElem, Name: "b", Children: text(v)}}, text("x"+v+"y")...)}
	r := refParse(out)
	if r.Verdict != ref.WF {
		c.Fail("text %q: output is not well-formed: %s (offset %d)", s, r.Msg, r.Pos)
		return
	}
	if d := hx.Diff(hx.RefNode(want, 0), hx.RefDoc(r.Doc)); d != "" {
		c.Fail("text %q: output differs: %s", s, d)
		return
	}
	c.Count("strings in every place", 1)
}

func init() {
	all := append(append([]string{}, hostile...), illegal...)
	n2, n3 := len(all)*len(all), len(all)*len(all)*len(all)
	register(&Check{
		ID:   "C05",
		Rule: "a case is a document built by a random program of API calls out of a plan, distinct by what it is serialised to. The plan is compared with what the reference parser reads back, and (unless other encodings or versions are used) with what encoding/xml reads",
		Assumptions: []string{
			"names, and the contents of comments and processing instructions, are legal; namespaces are declared where they are used",
			"characters that are not legal are expected to be written as U+FFFD, one for each byte that is not part of a character",
		},
		Sections: []Section{
			batch("documents", 40000, 800000, 100, func(c *Ctx, k int) { built(c, nil, 1+c.N(25), false) }),
			batch("documents with text that is not legal", 12000, 240000, 100, func(c *Ctx, k int) { built(c, nil, 1+c.N(25), true) }),
			batch("documents in other encodings", 12000, 240000, 100, func(c *Ctx, k int) {
				t := encTable(k)
				if t.name == "iso-2022-jp" || t.name == "hz-gb2312" || t.name == "koi8u" || t.name == "xuserdefined" {
					return
				}
				built(c, t, 1+c.N(15), c.P(1, 4))
			}),
			batch("large documents", 16, 400, 1, func(c *Ctx, k int) { built(c, nil, 2000, c.P(1, 2)) }),
			// all characters
			batch("characters", 0x110000/64, 0x110000/16, 64, func(c *Ctx, k int) {
				n := 64
				if c.tier == "thorough" {
					n = 16
				}
				var b strings.Builder
				for r := rune(k * n); r < rune((k+1)*n); r++ {
					if r < 0xD800 || r > 0xDFFF {
						b.WriteRune(r)
					}
				}
				single(c, b.String())
			}),
			batch("bytes", 65536, 65536, 2048, func(c *Ctx, k int) { single(c, string([]byte{byte(k >> 8), byte(k)})) }),
			batch("pairs of strings", n2, n2, 500, func(c *Ctx, k int) { single(c, words(all, k, 2)) }),
			batch("sequences of three strings", 20000, n3, 1000, func(c *Ctx, k int) {
				if c.tier != "thorough" {
					k = c.N(n3)
				}
				single(c, words(all, k, 3))
			}),
			batch("sequences of strings", 10000, 300000, 500, func(c *Ctx, k int) { single(c, words(all, c.N(1<<31-1), 4+c.N(6))) }),
		},
	})
}
