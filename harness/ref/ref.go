// Package ref is an independent, non-validating, namespace aware parser for
// XML 1.0 (Fifth Edition). It is written straight from the productions and
// constraints of the specifications, shares nothing with the code under test
// and favours being obviously right over being fast.
//
// It is used as an oracle: Parse says whether a text is well-formed, and what
// it means. A text that uses something the parser under test documents as
// unsupported gets the verdict Skip, and is never judged.
package ref

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"
)

// Verdict is what there is to say about a text
type Verdict int

const (
	WF    Verdict = iota // well-formed
	NotWF                // not well-formed
	Skip                 // beyond the supported constructs
)

func (v Verdict) String() string { return [...]string{"wf", "not-wf", "skip"}[v] }

// Kind is the kind of a node
type Kind int

const (
	KElem Kind = iota
	KText
	KCData // only if Options.KeepCData
	KComment
	KPI
	KRef
	KDTD
)

// Piece is part of an attribute value: text, or a reference to an entity
type Piece struct {
	Ref  bool
	Text string // name of the entity, if Ref
}

// Attr is an attribute
type Attr struct {
	Name    string
	Pieces  []Piece
	Default bool
	Pos     int
}

// NSDecl is a namespace declaration
type NSDecl struct{ Prefix, URI string }

// Node is a node in the document
type Node struct {
	Kind     Kind
	Name     string // qualified name, target, name of the entity
	URI      string
	NS       []NSDecl
	Attrs    []Attr // what was specified
	Defaults []Attr // what was defaulted
	Data     string
	Children []*Node
	Parent   *Node
}

// Prefix returns the prefix of the name
func (n *Node) Prefix() string { p, _ := SplitQName(n.Name); return p }

// Local returns the local part of the name
func (n *Node) Local() string { _, l := SplitQName(n.Name); return l }

// SplitQName splits a qualified name
func SplitQName(s string) (string, string) {
	if i := strings.IndexByte(s, ':'); i >= 0 {
		return s[:i], s[i+1:]
	}
	return "", s
}

// DeclKind is the kind of a markup declaration
type DeclKind int

const (
	DElement DeclKind = iota
	DAttlist          // one per attribute
	DEntity
	DPEntity
	DComment
	DPI
)

// CP is a content particle. Op is 0 (a name), ',' or '|'
type CP struct {
	Op   byte
	Name string
	Kids []*CP
	Occ  byte // 0, '?', '*', '+'
}

// Decl is a markup declaration
type Decl struct {
	Kind    DeclKind
	Name    string // element, entity, target or (for DAttlist) attribute
	Elem    string // DAttlist
	Type    string // DElement: EMPTY, ANY, MIXED, CHILDREN. DAttlist: CDATA, ID..., ENUM
	Enum    []string
	Def     string // #REQUIRED, #IMPLIED, #FIXED or ""
	Value   []Piece
	Literal string // DEntity: literal
	Text    string // DEntity: replacement text
	Model   *CP    // DElement CHILDREN
	Mixed   []string
	Data    string // DComment, DPI
	Dup     bool   // not binding, as it has been declared before
}

// Doc is a document
type Doc struct {
	HasDecl    bool
	Version    string
	Encoding   string
	Standalone string // "", "yes", "no"
	Children   []*Node
	Root       *Node
	DTDName    string
	HasDTD     bool
	HasSubset  bool
	Decls      []*Decl

	Entities map[string]*Decl
	Events   []Event
}

// Event is what a SAX handler should see
type Event struct {
	Kind string
	Node *Node
	Decl *Decl
	Text string
}

// Options for Parse
type Options struct {
	AnyEncoding bool // the text has been decoded already
	PE          bool // understand references to parameter entities in the simple cases
}

// Result of Parse
type Result struct {
	Verdict Verdict
	Msg     string
	Pos     int // offset (in characters of the normalised text) of the fault
	Line    int // line of the fault
	Doc     *Doc
}

type stop struct {
	v   Verdict
	msg string
	pos int
}

type parser struct {
	s     []rune
	pos   int
	doc   *Doc
	opts  Options
	types map[string]map[string]*Decl
	// namespaces in scope
	ns []map[string]string
	// entities being expanded
	stack     []string
	expansion int
	depth     int
	quiet     int // nested in an entity

	inSubset bool
	sawPE    bool // a reference to a parameter entity came
	unread   bool // to one that isn't declared
}

func (p *parser) fail(format string, a ...interface{}) {
	panic(stop{NotWF, fmt.Sprintf(format, a...), p.pos})
}

func (p *parser) skip(format string, a ...interface{}) {
	panic(stop{Skip, fmt.Sprintf(format, a...), p.pos})
}

// Parse parses a text
func Parse(b []byte, opts Options) (res Result) {
	if len(b) >= 3 && b[0] == 0xEF && b[1] == 0xBB && b[2] == 0xBF {
		b = b[3:]
	}
	p := &parser{opts: opts}
	p.types = map[string]map[string]*Decl{}
	p.ns = []map[string]string{{"xml": XMLNS}}
	p.doc = &Doc{Entities: map[string]*Decl{}}
	// what can't be decoded becomes a character that is never legal
	for len(b) > 0 {
		r, w := utf8.DecodeRune(b)
		if r == utf8.RuneError && w == 1 {
			r = 0
		}
		if r == '\r' {
			r = '\n'
			if len(b) > 1 && b[1] == '\n' {
				w = 2
			}
		}
		p.s = append(p.s, r)
		b = b[w:]
	}
	defer func() {
		if e := recover(); e != nil {
			st, ok := e.(stop)
			if !ok {
				panic(e)
			}
			res = Result{Verdict: st.v, Msg: st.msg, Pos: st.pos, Line: p.line(st.pos)}
		}
	}()
	p.document()
	return Result{Verdict: WF, Doc: p.doc}
}

const (
	XMLNS   = "http://www.w3.org/XML/1998/namespace"
	XMLNSNS = "http://www.w3.org/2000/xmlns/"
)

func (p *parser) line(pos int) int {
	n := 1
	for i := 0; i < pos && i < len(p.s); i++ {
		if p.s[i] == '\n' {
			n++
		}
	}
	return n
}

// Char production
func IsChar(r rune) bool {
	return r == 9 || r == 10 || r == 13 || r >= 0x20 && r <= 0xD7FF ||
		r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF
}

var nameStart = [][2]rune{{':', ':'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}, {0xC0, 0xD6}, {0xD8, 0xF6}, {0xF8, 0x2FF},
	{0x370, 0x37D}, {0x37F, 0x1FFF}, {0x200C, 0x200D}, {0x2070, 0x218F}, {0x2C00, 0x2FEF},
	{0x3001, 0xD7FF}, {0xF900, 0xFDCF}, {0xFDF0, 0xFFFD}, {0x10000, 0xEFFFF}}
var nameMore = [][2]rune{{'-', '-'}, {'.', '.'}, {'0', '9'}, {0xB7, 0xB7}, {0x300, 0x36F}, {0x203F, 0x2040}}

func in(t [][2]rune, r rune) bool {
	for _, x := range t {
		if r >= x[0] && r <= x[1] {
			return true
		}
	}
	return false
}

// IsNameStart is the NameStartChar production
func IsNameStart(r rune) bool { return in(nameStart, r) }

// IsNameChar is the NameChar production
func IsNameChar(r rune) bool { return in(nameStart, r) || in(nameMore, r) }

func isSpace(r rune) bool { return r == ' ' || r == '\t' || r == '\n' || r == '\r' }

// at returns the character at offset i from here, -1 at the end
func (p *parser) at(i int) rune {
	if p.pos+i >= len(p.s) {
		return -1
	}
	return p.s[p.pos+i]
}

func (p *parser) has(s string) bool {
	i := 0
	for _, r := range s {
		if p.at(i) != r {
			return false
		}
		i++
	}
	return true
}

func (p *parser) eat(s string) bool {
	if !p.has(s) {
		return false
	}
	p.pos += utf8.RuneCountInString(s)
	return true
}

func (p *parser) need(s string) {
	if !p.eat(s) {
		p.fail("%q expected", s)
	}
}

func (p *parser) sp() bool {
	any := false
	for isSpace(p.at(0)) {
		p.pos++
		any = true
	}
	return any
}

func (p *parser) needSp() {
	if !p.sp() {
		p.fail("white space expected")
	}
}

const maxName = 40000

func (p *parser) name() string {
	st := p.pos
	if !IsNameStart(p.at(0)) {
		p.fail("name expected")
	}
	for IsNameChar(p.at(0)) {
		p.pos++
	}
	if p.pos-st > maxName {
		p.skip("long name")
	}
	return string(p.s[st:p.pos])
}

func (p *parser) nmtoken() string {
	st := p.pos
	for IsNameChar(p.at(0)) {
		p.pos++
	}
	if p.pos == st {
		p.fail("name token expected")
	}
	if p.pos-st > maxName {
		p.skip("long name")
	}
	return string(p.s[st:p.pos])
}

// qname is a name that has got at most one colon, and not at the ends
func (p *parser) qname() string {
	st := p.pos
	n := p.name()
	if c := strings.Count(n, ":"); c > 1 || strings.HasPrefix(n, ":") || strings.HasSuffix(n, ":") {
		p.pos = st
		p.skip("%q is not a qualified name", n)
	} else if c == 1 {
		_, l := SplitQName(n)
		if r, _ := utf8.DecodeRuneInString(l); !IsNameStart(r) {
			p.pos = st
			p.skip("%q is not a qualified name", n)
		}
	}
	return n
}

func (p *parser) ncname() string {
	st := p.pos
	n := p.name()
	if strings.Contains(n, ":") {
		p.pos = st
		p.skip("colon in %q", n)
	}
	return n
}

// noColon is the name of an entity, or a target: namespaces don't let them have
// a colon
func (p *parser) noColon() string {
	st := p.pos
	n := p.name()
	if strings.Contains(n, ":") {
		p.pos = st
		p.fail("colon in a name")
	}
	return n
}

func (p *parser) event(kind string, n *Node, d *Decl, text string) {
	if p.quiet > 0 {
		return
	}
	if kind == "text" {
		if l := len(p.doc.Events); l > 0 && p.doc.Events[l-1].Kind == "text" {
			p.doc.Events[l-1].Text += text
			return
		}
	}
	p.doc.Events = append(p.doc.Events, Event{kind, n, d, text})
}

func (p *parser) document() {
	if len(p.s) == 0 {
		p.fail("empty document")
	}
	if p.has("<?xml") && isSpace(p.at(5)) {
		p.xmldecl()
	}
	p.event("start-document", nil, nil, "")
	p.misc(nil)
	if p.has("<!DOCTYPE") {
		p.doctype()
		p.misc(nil)
	}
	if p.at(0) != '<' {
		p.fail("root element expected")
	}
	if !IsNameStart(p.at(1)) {
		p.pos++
		p.fail("root element expected")
	}
	root := p.element(nil)
	p.doc.Root = root
	p.doc.Children = append(p.doc.Children, root)
	p.misc(nil)
	if p.pos < len(p.s) {
		p.fail("content after the root element")
	}
	p.event("end-document", nil, nil, "")
}

func (p *parser) eq() {
	p.sp()
	p.need("=")
	p.sp()
}

func (p *parser) quoted() string {
	q := p.at(0)
	if q != '"' && q != '\'' {
		p.fail("quote expected")
	}
	p.pos++
	st := p.pos
	for p.at(0) != q {
		if p.pos >= len(p.s) {
			p.pos = st // at the latest, where there's something that may not be in it
			p.fail("unterminated literal")
		}
		p.pos++
	}
	v := string(p.s[st:p.pos])
	p.pos++
	return v
}

func (p *parser) xmldecl() {
	p.doc.HasDecl = true
	p.pos += 5
	p.needSp()
	p.need("version")
	p.eq()
	st := p.pos
	v := p.quoted()
	if !strings.HasPrefix(v, "1.") || len(v) < 3 || strings.Trim(v[2:], "0123456789") != "" {
		p.pos = st
		if strings.Trim(v, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.:-") == "" && v != "" {
			// legal by the editions before the fifth
			p.skip("version %q", v)
		}
		p.fail("bad version")
	}
	p.doc.Version = v
	s := p.sp()
	if p.has("encoding") {
		if !s {
			p.fail("white space expected")
		}
		p.pos += 8
		p.eq()
		st := p.pos
		e := p.quoted()
		ok := e != ""
		for i := 0; i < len(e); i++ {
			c := e[i]
			alpha := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
			if !alpha && (i == 0 || !(c >= '0' && c <= '9' || c == '.' || c == '_' || c == '-')) {
				ok = false
			}
		}
		if !ok {
			p.pos = st
			p.fail("bad encoding name")
		}
		p.doc.Encoding = e
		if l := strings.ToLower(e); l != "utf-8" && l != "utf8" && !p.opts.AnyEncoding {
			p.pos = st
			p.skip("encoding %s", e)
		}
		s = p.sp()
	}
	if p.has("standalone") {
		if !s {
			p.fail("white space expected")
		}
		p.pos += 10
		p.eq()
		st := p.pos
		sa := p.quoted()
		if sa != "yes" && sa != "no" {
			p.pos = st
			p.fail("bad standalone")
		}
		p.doc.Standalone = sa
		p.sp()
	}
	p.need("?>")
}

// misc parses comments, processing instructions and blanks
func (p *parser) misc(parent *Node) {
	for {
		p.sp()
		switch {
		case p.has("<!--"):
			n := &Node{Kind: KComment, Data: p.comment()}
			p.event("comment", n, nil, n.Data)
			p.doc.Children = append(p.doc.Children, n)
		case p.has("<?"):
			t, d := p.pi()
			n := &Node{Kind: KPI, Name: t, Data: d}
			p.event("pi", n, nil, "")
			p.doc.Children = append(p.doc.Children, n)
		default:
			return
		}
	}
}

func (p *parser) comment() string {
	p.need("<!--")
	st := p.pos
	for {
		if p.has("--") {
			if !p.has("-->") {
				p.fail("'--' in comment")
			}
			d := string(p.s[st:p.pos])
			p.pos += 3
			return d
		}
		if p.pos >= len(p.s) {
			p.fail("unterminated comment")
		}
		if !IsChar(p.at(0)) {
			p.fail("illegal character in comment")
		}
		p.pos++
	}
}

func (p *parser) pi() (string, string) {
	p.need("<?")
	st := p.pos
	t := p.noColon()
	if strings.EqualFold(t, "xml") {
		p.pos = st
		p.fail("reserved target")
	}
	if p.eat("?>") {
		return t, ""
	}
	p.needSp()
	st = p.pos
	for !p.has("?>") {
		if p.pos >= len(p.s) {
			p.fail("unterminated processing instruction")
		}
		if !IsChar(p.at(0)) {
			p.fail("illegal character in processing instruction")
		}
		p.pos++
	}
	d := string(p.s[st:p.pos])
	p.pos += 2
	return t, d
}

// charRef parses what follows "&#"
func (p *parser) charRef() rune {
	st := p.pos - 2
	base := int64(10)
	if p.eat("x") {
		base = 16
	}
	var v int64
	n := 0
	for ; ; n++ {
		c := p.at(0)
		var d int64
		switch {
		case c >= '0' && c <= '9':
			d = int64(c - '0')
		case base == 16 && c >= 'a' && c <= 'f':
			d = int64(c-'a') + 10
		case base == 16 && c >= 'A' && c <= 'F':
			d = int64(c-'A') + 10
		default:
			d = -1
		}
		if d < 0 {
			break
		}
		if v < 0x200000 {
			v = v*base + d
		}
		p.pos++
	}
	if n == 0 {
		p.fail("digit expected")
	}
	p.need(";")
	if !IsChar(rune(v)) {
		p.pos = st
		p.fail("illegal character reference")
	}
	return rune(v)
}

var predefined = map[string]string{"lt": "<", "gt": ">", "amp": "&", "apos": "'", "quot": `"`}

const (
	maxEntDepth  = 35
	maxExpansion = 4 << 20
)

// enter looks an entity up, and keeps track of what's being expanded
func (p *parser) enter(name string) *Decl {
	ent := p.doc.Entities[name]
	if ent == nil {
		if !p.lax() {
			if p.opts.PE && p.inSubset && p.doc.Standalone != "yes" && strings.ContainsRune(string(p.s), '%') {
				p.skip("entity %s not declared, and perhaps it needn't be", name)
			}
			p.fail("entity %s not declared", name)
		}
		// not a fault of well-formedness, and stands for nothing known
		ent = &Decl{Kind: DEntity, Name: name}
	}
	for _, s := range p.stack {
		if s == name {
			p.fail("entity %s is recursive", name)
		}
	}
	p.stack = append(p.stack, name)
	p.expansion += len(ent.Text) + 1
	return ent
}

// lax tells whether an entity that isn't declared is not a fault of
// well-formedness: there's a reference to a parameter entity, and the document
// isn't standalone
func (p *parser) lax() bool { return p.sawPE && p.doc.Standalone != "yes" }

func (p *parser) limits() {
	if len(p.stack) > maxEntDepth {
		p.skip("deeply nested entities")
	}
	if p.expansion > maxExpansion {
		p.skip("large entities")
	}
}

func (p *parser) leave() { p.stack = p.stack[:len(p.stack)-1] }

// within parses with the text of an entity as the input
func (p *parser) within(text string, f func()) {
	s, pos := p.s, p.pos
	p.s, p.pos = []rune(text), 0
	p.quiet++
	defer func() {
		p.s, p.pos = s, pos
		p.quiet--
		if e := recover(); e != nil {
			if st, ok := e.(stop); ok {
				st.pos = pos
				panic(st)
			}
			panic(e)
		}
	}()
	f()
}

// attValue parses the contents of a quoted attribute value
func (p *parser) attValue() []Piece {
	q := p.at(0)
	if q != '"' && q != '\'' {
		p.fail("quote expected")
	}
	p.pos++
	pieces := p.attText(q)
	p.pos++
	return pieces
}

func addText(ps []Piece, s string) []Piece {
	if l := len(ps); l > 0 && !ps[l-1].Ref {
		ps[l-1].Text += s
		return ps
	}
	return append(ps, Piece{Text: s})
}

func (p *parser) attText(q rune) []Piece {
	var ps []Piece
	var b strings.Builder
	flush := func() {
		if b.Len() > 0 {
			ps = addText(ps, b.String())
			b.Reset()
		}
	}
	for {
		c := p.at(0)
		switch {
		case c == q:
			flush()
			return ps
		case c == -1:
			p.fail("unterminated attribute value")
		case c == '<':
			p.fail("'<' in attribute value")
		case c == '&':
			st := p.pos
			p.pos++
			if p.eat("#") {
				b.WriteRune(p.charRef())
				continue
			}
			n := p.name()
			p.need(";")
			if t, ok := predefined[n]; ok {
				b.WriteString(t)
				continue
			}
			end := p.pos
			p.pos = st
			if strings.Contains(n, ":") {
				p.skip("colon in %q", n)
			}
			ent := p.enter(n)
			p.within(ent.Text, func() { p.attText(-1) })
			p.limits()
			p.leave()
			p.pos = end
			flush()
			ps = append(ps, Piece{true, n})
		case isSpace(c):
			b.WriteByte(' ')
			p.pos++
		case !IsChar(c):
			p.fail("illegal character in attribute value")
		default:
			b.WriteRune(c)
			p.pos++
		}
	}
}

// trim normalises the value of a tokenized attribute. A reference stands for
// whatever is in the entity, so only the spaces that are here are touched.
func trim(ps []Piece) []Piece {
	hasRef := false
	for _, x := range ps {
		hasRef = hasRef || x.Ref
	}
	if hasRef {
		return ps
	}
	if len(ps) == 0 {
		return ps
	}
	f := strings.FieldsFunc(ps[0].Text, func(r rune) bool { return r == ' ' })
	t := strings.Join(f, " ")
	if t == "" {
		return nil
	}
	return []Piece{{Text: t}}
}

// flatten replaces the references in a value
func (p *parser) flatten(ps []Piece) string {
	var b strings.Builder
	for _, x := range ps {
		if !x.Ref {
			b.WriteString(x.Text)
			continue
		}
		if p.doc.Entities[x.Text] == nil {
			p.skip("namespace that depends on an undeclared entity")
		}
		ent := p.enter(x.Text)
		p.within(ent.Text, func() { b.WriteString(p.flatten(p.attText(-1))) })
		p.leave()
	}
	return b.String()
}

func (p *parser) lookup(prefix string) (string, bool) {
	for i := len(p.ns) - 1; i >= 0; i-- {
		if u, ok := p.ns[i][prefix]; ok {
			return u, true
		}
	}
	return "", false
}

// element parses an element, p is at its '<'
func (p *parser) element(parent *Node) *Node {
	start := p.pos
	p.need("<")
	n := &Node{Kind: KElem, Name: p.qname(), Parent: parent}
	seen := map[string]bool{}
	scope := map[string]string{}
	for {
		s := p.sp()
		if p.at(0) == '>' || p.has("/>") {
			break
		}
		if !s {
			p.fail("white space expected")
		}
		st := p.pos
		a := Attr{Name: p.qname(), Pos: st}
		p.eq()
		a.Pieces = p.attValue()
		if seen[a.Name] {
			p.pos = st
			p.fail("duplicate attribute %s", a.Name)
		}
		seen[a.Name] = true
		if d := p.types[n.Name][a.Name]; d != nil && d.Type != "CDATA" {
			for _, x := range a.Pieces {
				if x.Ref {
					p.skip("reference in the value of a tokenized attribute")
				}
			}
			a.Pieces = trim(a.Pieces)
		}
		if pre, l := SplitQName(a.Name); pre == "xmlns" || pre == "" && l == "xmlns" {
			end := p.pos
			p.pos = a.Pos
			uri := p.flatten(a.Pieces)
			if a.Name == "xmlns" {
				if uri == XMLNS || uri == XMLNSNS {
					p.fail("reserved namespace name")
				}
				scope[""] = uri
				n.NS = append(n.NS, NSDecl{"", uri})
				p.pos = end
				continue
			}
			pre := a.Name[6:]
			switch {
			case pre == "xmlns":
				p.fail("xmlns can't be declared")
			case pre == "xml":
				if uri != XMLNS {
					p.fail("xml bound to something else")
				}
				p.pos = end
				continue
			case uri == XMLNS || uri == XMLNSNS:
				p.fail("reserved namespace name")
			case uri == "":
				p.fail("prefix undeclared")
			}
			scope[pre] = uri
			n.NS = append(n.NS, NSDecl{pre, uri})
			p.pos = end
			continue
		}
		n.Attrs = append(n.Attrs, a)
	}
	tagEnd := p.pos
	// defaults
	var names []string
	for name := range p.types[n.Name] {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		d := p.types[n.Name][name]
		if seen[name] || d.Def == "#REQUIRED" || d.Def == "#IMPLIED" {
			continue
		}
		if pre, l := SplitQName(name); pre == "xmlns" || pre == "" && l == "xmlns" {
			p.skip("namespace declared by default")
		}
		n.Defaults = append(n.Defaults, Attr{Name: name, Pieces: d.Value, Default: true})
	}
	// namespaces
	p.ns = append(p.ns, scope)
	p.pos = start
	if pre := n.Prefix(); pre == "xmlns" {
		p.fail("element with prefix xmlns")
	} else if u, ok := p.lookup(pre); ok {
		n.URI = u
	} else if pre != "" {
		p.fail("prefix %s not declared", pre)
	}
	expanded := map[string]bool{}
	for _, as := range [][]Attr{n.Attrs, n.Defaults} {
		for _, a := range as {
			pre, l := SplitQName(a.Name)
			if pre == "" {
				continue
			}
			p.pos = a.Pos
			if a.Default {
				p.pos = start
			}
			u, ok := p.lookup(pre)
			if !ok {
				if a.Default {
					p.skip("prefix of a defaulted attribute not declared")
				}
				p.fail("prefix %s not declared", pre)
			}
			k := u + " " + l
			if expanded[k] {
				if a.Default {
					p.skip("defaulted attribute is a duplicate")
				}
				p.fail("duplicate attribute %s", a.Name)
			}
			expanded[k] = true
		}
	}
	p.pos = tagEnd
	p.event("start", n, nil, "")
	p.depth++
	if p.depth > 100000 {
		p.skip("deep nesting")
	}
	if !p.eat("/>") {
		p.pos++
		p.content(n)
		if p.pos >= len(p.s) {
			p.fail("element %s not closed", n.Name)
		}
		st := p.pos
		p.need("</")
		if e := p.name(); e != n.Name {
			p.pos = st
			p.fail("end tag %s does not match %s", e, n.Name)
		}
		p.sp()
		p.need(">")
	}
	p.depth--
	p.event("end", n, nil, "")
	p.ns = p.ns[:len(p.ns)-1]
	return n
}

func (n *Node) addText(s string) {
	if s == "" {
		return
	}
	if l := len(n.Children); l > 0 && n.Children[l-1].Kind == KText {
		n.Children[l-1].Data += s
		return
	}
	n.Children = append(n.Children, &Node{Kind: KText, Data: s, Parent: n})
}

// content parses up to an end tag or the end of the input
func (p *parser) content(n *Node) {
	var b strings.Builder
	flush := func() {
		if b.Len() > 0 {
			p.event("text", nil, nil, b.String())
			n.addText(b.String())
			b.Reset()
		}
	}
	for p.pos < len(p.s) {
		c := p.at(0)
		switch {
		case p.has("</"):
			flush()
			return
		case p.has("<!--"):
			flush()
			x := &Node{Kind: KComment, Data: p.comment(), Parent: n}
			p.event("comment", x, nil, x.Data)
			n.Children = append(n.Children, x)
		case p.has("<?"):
			flush()
			t, d := p.pi()
			x := &Node{Kind: KPI, Name: t, Data: d, Parent: n}
			p.event("pi", x, nil, "")
			n.Children = append(n.Children, x)
		case p.has("<![CDATA["):
			flush()
			p.pos += 9
			st := p.pos
			for !p.has("]]>") {
				if p.pos >= len(p.s) {
					p.fail("unterminated CDATA section")
				}
				if !IsChar(p.at(0)) {
					p.fail("illegal character in CDATA section")
				}
				p.pos++
			}
			d := string(p.s[st:p.pos])
			p.pos += 3
			p.event("cdata", nil, nil, d)
			n.addText(d)
		case c == '<':
			flush()
			n.Children = append(n.Children, p.element(n))
		case c == '&':
			st := p.pos
			p.pos++
			if p.eat("#") {
				b.WriteRune(p.charRef())
				continue
			}
			name := p.name()
			p.need(";")
			if t, ok := predefined[name]; ok {
				b.WriteString(t)
				continue
			}
			flush()
			end := p.pos
			p.pos = st
			if strings.Contains(name, ":") {
				p.skip("colon in %q", name)
			}
			ent := p.enter(name)
			tmp := &Node{Kind: KElem}
			p.within(ent.Text, func() {
				p.content(tmp)
				if p.pos < len(p.s) {
					p.fail("end tag without start tag")
				}
			})
			p.limits()
			p.leave()
			p.pos = end
			x := &Node{Kind: KRef, Name: name, Parent: n}
			p.event("ref", x, nil, "")
			n.Children = append(n.Children, x)
		case p.has("]]>"):
			p.fail("']]>' in text")
		case !IsChar(c):
			p.fail("illegal character in text")
		default:
			b.WriteRune(c)
			p.pos++
		}
	}
	flush()
}
