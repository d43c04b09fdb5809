package main

import (
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/verif/ref"
)

// mnode is what a node should be: a plain list of children. Every node is in
// the list of another one; nodes without a parent are in a list of their own,
// which isn't a node (n is nil).
type mnode struct {
	kind byte // d(ocument) x(DTD) e(lement) t(ext) c(omment) p(rocessing instruction) r(eference) l(ist)
	n    helium.Node
	name string
	data string
	kids []*mnode
	up   *mnode
	doc  *helium.Document // nil: not known
	// of elements
	uri   string
	ns    []ref.NSDecl
	attrs []ref.Attr
}

// world has documents and nodes that are edited
type world struct {
	c    *Ctx
	doc  *helium.Document
	root *mnode
	all  []*mnode
	log  []string
	lazy bool // the nodes are only checked from time to time
	by   map[helium.Node]*mnode
}

func newWorld(c *Ctx, doc *helium.Document) *world {
	w := &world{c: c, doc: doc, by: map[helium.Node]*mnode{}}
	w.root = &mnode{kind: 'd', n: doc, name: doc.Name(), doc: doc}
	w.all = append(w.all, w.root)
	w.by[doc] = w.root
	return w
}

func (w *world) id(m *mnode) string {
	if m == nil {
		return "nil"
	}
	if m.n == nil {
		return "list"
	}
	for i, x := range w.all {
		if x == m {
			return fmt.Sprintf("%c%d", m.kind, i)
		}
	}
	return string(rune(m.kind)) + "?"
}

// say adds to the log of operations, which is the input of this case
func (w *world) say(format string, a ...interface{}) {
	if w.lazy {
		return
	}
	w.log = append(w.log, fmt.Sprintf(format, a...))
}

func (w *world) fail(format string, a ...interface{}) {
	w.c.Input(strings.Join(w.log, "; "))
	w.c.Fail(format, a...)
}

// add makes m, which is new, known
func (w *world) add(m *mnode) *mnode {
	m.up = &mnode{kind: 'l', kids: []*mnode{m}}
	w.all = append(w.all, m)
	w.by[m.n] = m
	return m
}

func (w *world) must(err error) {
	if err != nil {
		w.fail("error creating a node: %s", err)
	}
}

func (w *world) elem(name string) *mnode {
	n, err := w.doc.CreateElement(name)
	w.must(err)
	m := w.add(&mnode{kind: 'e', n: n, name: name, doc: w.doc})
	w.say("%s = CreateElement(%q)", w.id(m), name)
	return m
}

func (w *world) text(s string) *mnode {
	n, err := w.doc.CreateText([]byte(s))
	w.must(err)
	m := w.add(&mnode{kind: 't', n: n, name: "(text)", data: s, doc: w.doc})
	w.say("%s = CreateText(%q)", w.id(m), s)
	return m
}

func (w *world) comment(s string) *mnode {
	n, err := w.doc.CreateComment([]byte(s))
	w.must(err)
	m := w.add(&mnode{kind: 'c', n: n, data: s, doc: w.doc})
	w.say("%s = CreateComment(%q)", w.id(m), s)
	return m
}

func (w *world) pi(target, data string) *mnode {
	n, err := w.doc.CreatePI(target, data)
	w.must(err)
	m := w.add(&mnode{kind: 'p', n: n, name: target, data: data, doc: w.doc})
	w.say("%s = CreatePI(%q, %q)", w.id(m), target, data)
	return m
}

func (w *world) reference(name string) *mnode {
	n, err := w.doc.CreateReference(name)
	w.must(err)
	m := w.add(&mnode{kind: 'r', n: n, name: name, doc: w.doc})
	w.say("%s = CreateReference(%q)", w.id(m), name)
	return m
}

// adopt makes the nodes of a document that has been parsed known
func (w *world) adopt(rd *ref.Doc) bool {
	return w.adoptList(w.root, rd.Children)
}

func (w *world) adoptList(p *mnode, kids []*ref.Node) bool {
	n := p.n.FirstChild()
	for _, r := range kids {
		if n == nil {
			w.fail("child missing")
			return false
		}
		m := &mnode{n: n, name: r.Name, data: r.Data, up: p, doc: n.OwnerDocument()}
		switch r.Kind {
		case ref.KElem:
			m.kind, m.uri, m.ns, m.attrs = 'e', r.URI, r.NS, r.Attrs
		case ref.KText:
			m.kind, m.name = 't', "(text)"
		case ref.KComment:
			m.kind = 'c'
		case ref.KPI:
			m.kind = 'p'
		case ref.KRef:
			m.kind = 'r'
		case ref.KDTD:
			m.kind = 'x'
		}
		p.kids = append(p.kids, m)
		w.all = append(w.all, m)
		w.by[n] = m
		if m.kind != 'x' && !w.adoptList(m, r.Children) {
			return false
		}
		n = n.NextSibling()
	}
	return true
}

// detached nodes are not part of anything
func detached(m *mnode) bool {
	return m.up != nil && m.up.n == nil && len(m.up.kids) == 1
}

func (m *mnode) within(x *mnode) bool {
	for ; m != nil; m = m.up {
		if m == x {
			return true
		}
	}
	return false
}

func (m *mnode) last() *mnode {
	if len(m.kids) == 0 {
		return nil
	}
	return m.kids[len(m.kids)-1]
}

func (m *mnode) index() int {
	for i, x := range m.up.kids {
		if x == m {
			return i
		}
	}
	panic("node is not in its list")
}

// append adds x to the list m, or its text to the one at the end of it
func (m *mnode) append(x *mnode) {
	if l := m.last(); l != nil && l.kind == 't' && x.kind == 't' {
		l.data += x.data
		return
	}
	m.kids = append(m.kids, x)
	x.up = m
}

// result compares the outcome of an operation with what was to be expected
func (w *world) result(what string, err error, want bool) {
	w.c.Eval()
	if (err != nil) != want {
		if want {
			w.fail("%s returns no error", what)
		} else {
			w.fail("%s returns error %s", what, oneLine(err))
		}
	}
	if want {
		w.c.Count("operations refused", 1)
	} else {
		w.c.Count("operations", 1)
	}
}

// addChild adds x, which has to be detached, to p
func (w *world) addChild(p, x *mnode) {
	w.say("%s.AddChild(%s)", w.id(p), w.id(x))
	err := p.n.AddChild(x.n)
	refuse := false
	switch p.kind {
	case 't', 'c':
		if refuse = x.kind != p.kind; !refuse {
			p.data += x.data
		}
	default:
		p.append(x)
	}
	w.result("AddChild", err, refuse)
	if refuse && err != helium.ErrInvalidOperation {
		w.fail("AddChild returns %v, want ErrInvalidOperation", err)
	}
	w.check()
}

// addSibling adds x, which has to be detached, to the list m is in
func (w *world) addSibling(m, x *mnode) {
	w.say("%s.AddSibling(%s)", w.id(m), w.id(x))
	err := m.n.AddSibling(x.n)
	if m.kind == 'd' {
		w.result("AddSibling", err, true)
	} else {
		m.up.append(x)
		w.result("AddSibling", err, false)
	}
	w.check()
}

// addContent adds text to m
func (w *world) addContent(m *mnode, s string) {
	w.say("%s.AddContent(%q)", w.id(m), s)
	b := []byte(s)
	err := m.n.AddContent(b)
	for i := range b {
		b[i] = '!' // the caller may do what it wants with its buffer
	}
	switch m.kind {
	case 't', 'c':
		m.data += s
	default:
		if l := m.last(); l != nil && l.kind == 't' {
			l.data += s
		} else {
			x := &mnode{kind: 't', name: "(text)", data: s, up: m}
			m.kids = append(m.kids, x)
			w.all = append(w.all, x)
			x.n = m.n.LastChild()
			if x.n == nil || w.by[x.n] != nil {
				w.fail("AddContent does not add a text node")
				return
			}
			w.by[x.n] = x
		}
	}
	w.result("AddContent", err, false)
	w.check()
}

// replace puts x, which has to be detached, in the place of m
func (w *world) replace(m, x *mnode) {
	w.say("%s.Replace(%s)", w.id(m), w.id(x))
	m.n.Replace(x.n)
	w.swap(m, x)
	w.result("Replace", nil, false)
	w.check()
}

func (w *world) swap(m, x *mnode) {
	if m == x {
		return
	}
	m.up.kids[m.index()] = x
	x.up = m.up
	m.up = &mnode{kind: 'l', kids: []*mnode{m}}
}

// setRoot makes x the root of the document
func (w *world) setRoot(x *mnode) {
	w.say("SetDocumentElement(%s)", w.id(x))
	var n helium.Node
	if x != nil {
		n = x.n
	}
	err := w.doc.SetDocumentElement(n)
	if x != nil {
		done := false
		for _, k := range w.root.kids {
			if k.kind == 'e' {
				w.swap(k, x)
				done = true
				break
			}
		}
		if !done {
			w.root.append(x)
		}
	}
	w.result("SetDocumentElement", err, false)
	w.check()
}

// setAttr gives an element an attribute; value is what stands for pieces (nil
// if it is not legal)
func (w *world) setAttr(m *mnode, name, value string, pieces []ref.Piece, legal bool) {
	w.say("%s.SetAttribute(%q, %q)", w.id(m), name, value)
	err := m.n.(*helium.Element).SetAttribute(name, value)
	dup := false
	for _, a := range m.attrs {
		dup = dup || a.Name == name
	}
	if legal && !dup {
		m.attrs = append(m.attrs, ref.Attr{Name: name, Pieces: pieces})
	}
	w.result("SetAttribute", err, !legal || dup)
	if legal && dup && err != helium.ErrDuplicateAttribute {
		w.fail("SetAttribute returns %v, want ErrDuplicateAttribute", err)
	}
	w.check()
}

// setDoc moves a tree to another document
func (w *world) setDoc(m *mnode, d *helium.Document) {
	w.say("%s.SetTreeDoc(another document)", w.id(m))
	// what belongs to d already may be left alone, and so may what is below it
	var free []*mnode
	moved := false
	var set func(m *mnode, below bool)
	set = func(m *mnode, below bool) {
		switch {
		case m.doc == d:
			below = true
		case below:
			free = append(free, m)
		default:
			moved = true
			m.doc = d
		}
		for _, k := range m.kids {
			set(k, below)
		}
	}
	set(m, false)
	if moved {
		w.c.Count("trees moved to another document", 1)
	}
	if len(free) > 0 {
		w.c.Count("trees of several documents moved", 1)
	}
	defer func(t *mnode) {
		for _, m := range free {
			if got := m.n.OwnerDocument(); got == d {
				m.doc = d
			} else if got != m.doc {
				w.fail("%s belongs to a third document after SetTreeDoc", w.id(m))
			}
		}
		w.check()
	}(m)
	m.n.SetTreeDoc(d)
	w.result("SetTreeDoc", nil, false)
}

func (w *world) check() {
	if !w.lazy {
		w.checkAll()
	}
}

// checkAll compares all of the nodes with what they should be
func (w *world) checkAll() bool {
	if w.c.Failed() {
		return false
	}
	for _, m := range w.all {
		if s := w.bad(m); s != "" {
			w.fail("%s: %s", w.id(m), s)
			return false
		}
	}
	w.c.Count("nodes checked", len(w.all))
	return true
}

func (w *world) node(m *mnode) helium.Node {
	if m == nil {
		return nil
	}
	return m.n
}

func (w *world) bad(m *mnode) string {
	same := func(what string, got helium.Node, want *mnode) string {
		if got == w.node(want) {
			return ""
		}
		g := "a node that is not known"
		if got == nil {
			g = "nil"
		} else if x := w.by[got]; x != nil {
			g = w.id(x)
		}
		return fmt.Sprintf("%s is %s, want %s", what, g, w.id(want))
	}
	var first *mnode
	if len(m.kids) > 0 {
		first = m.kids[0]
	}
	if m.kind != 'x' { // the children of DTDs are declarations
		if s := same("FirstChild", m.n.FirstChild(), first); s != "" {
			return s
		}
		if s := same("LastChild", m.n.LastChild(), m.last()); s != "" {
			return s
		}
	}
	// a node of a list is checked when its parent is, if it has one
	kids := m.kids
	if m.up != nil && m.up.n == nil && m.up.kids[0] == m {
		if s := w.badList(m.up, same); s != "" {
			return "siblings: " + s
		}
	}
	if s := w.badList(&mnode{n: m.n, kids: kids}, same); s != "" {
		return s
	}
	if m.kind == 'd' && (m.n.Parent() != nil || m.n.NextSibling() != nil || m.n.PrevSibling() != nil) {
		return "document has got a parent or siblings"
	}
	want := map[byte]helium.ElementType{'d': helium.DocumentNode, 'x': helium.DTDNode, 'e': helium.ElementNode, 't': helium.TextNode, 'c': helium.CommentNode, 'p': helium.ProcessingInstructionNode, 'r': helium.EntityRefNode}[m.kind]
	if m.n.Type() != want {
		return fmt.Sprintf("type is %s, want %s", m.n.Type(), want)
	}
	if m.n.Name() != m.name {
		return fmt.Sprintf("name is %q, want %q", m.n.Name(), m.name)
	}
	if m.kind == 't' || m.kind == 'c' {
		if string(m.n.Content()) != m.data {
			return fmt.Sprintf("content is %q, want %q", m.n.Content(), m.data)
		}
	}
	if m.doc != nil && m.n.OwnerDocument() != m.doc && m.kind != 'd' {
		return "owner is another document"
	}
	if m.kind == 'x' {
		for n := m.n.FirstChild(); n != nil; n = n.NextSibling() {
			if w.by[n] == nil && m.doc != nil && n.OwnerDocument() != m.doc {
				return fmt.Sprintf("owner of declaration %s is another document", n.Name())
			}
		}
	}
	if m.kind == 'e' {
		as := m.n.(*helium.Element).Attributes()
		if len(as) != len(m.attrs) {
			return fmt.Sprintf("%d attributes, want %d", len(as), len(m.attrs))
		}
		for i, a := range as {
			if a.Name() != m.attrs[i].Name {
				return fmt.Sprintf("attribute %d is %q, want %q", i, a.Name(), m.attrs[i].Name)
			}
			var prev helium.Node
			if i > 0 {
				prev = as[i-1]
			}
			var next *helium.Attribute
			if i+1 < len(as) {
				next = as[i+1]
			}
			if a.PrevSibling() != prev || a.NextAttribute() != next {
				return fmt.Sprintf("broken links of attribute %s", a.Name())
			}
			if m.doc != nil && a.OwnerDocument() != m.doc {
				return fmt.Sprintf("owner of attribute %s is another document", a.Name())
			}
			if s := badValue(a, m); s != "" {
				return fmt.Sprintf("attribute %s: %s", a.Name(), s)
			}
		}
	}
	return ""
}

// badValue looks at the nodes an attribute's value is made of
func badValue(a *helium.Attribute, m *mnode) string {
	if p := a.Parent(); p != nil && p != m.n {
		return "parent is another node"
	}
	var last helium.Node
	for n := a.FirstChild(); n != nil; n = n.NextSibling() {
		switch {
		case n.Parent() != helium.Node(a):
			return "parent of its value is another node"
		case n.PrevSibling() != last:
			return "broken links in its value"
		case n.Type() != helium.TextNode && n.Type() != helium.EntityRefNode:
			return fmt.Sprintf("node of type %s in its value", n.Type())
		case m.doc != nil && n.OwnerDocument() != m.doc:
			return "owner of its value is another document"
		}
		last = n
	}
	if a.LastChild() != last {
		return "last child is another node"
	}
	return ""
}

// badList compares the links of the nodes in a list
func (w *world) badList(l *mnode, same func(string, helium.Node, *mnode) string) string {
	var parent *mnode
	if l.n != nil {
		parent = l
	}
	for i, k := range l.kids {
		if got := k.n.Parent(); got != w.node(parent) {
			return fmt.Sprintf("Parent of child %d is another node", i)
		}
		var prev, next *mnode
		if i > 0 {
			prev = l.kids[i-1]
		}
		if i+1 < len(l.kids) {
			next = l.kids[i+1]
		}
		if s := same(fmt.Sprintf("PrevSibling of child %d", i), k.n.PrevSibling(), prev); s != "" {
			return s
		}
		if s := same(fmt.Sprintf("NextSibling of child %d", i), k.n.NextSibling(), next); s != "" {
			return s
		}
	}
	return ""
}

// tree is what m should be read back as. merge joins text that is adjacent,
// and drops the one that is empty.
func (m *mnode) tree(merge bool) *ref.Node {
	r := &ref.Node{Name: m.name, Data: m.data, URI: m.uri, NS: m.ns, Attrs: m.attrs}
	switch m.kind {
	case 'e', 'd':
		r.Kind = ref.KElem
	case 't':
		r.Kind = ref.KText
	case 'c':
		r.Kind = ref.KComment
	case 'p':
		r.Kind = ref.KPI
	case 'r':
		r.Kind = ref.KRef
	case 'x':
		r.Kind = ref.KDTD
		return r
	}
	for _, k := range m.kids {
		x := k.tree(merge)
		if merge && x.Kind == ref.KRef && (x.Name[0] == '#' || predefined[x.Name] != "") {
			// these are not kept as references
			var b strings.Builder
			expand(nil, "&"+x.Name+";", &b, 0)
			x = &ref.Node{Kind: ref.KText, Data: b.String()}
		}
		if merge && x.Kind == ref.KText {
			if x.Data == "" {
				continue
			}
			if n := len(r.Children); n > 0 && r.Children[n-1].Kind == ref.KText {
				r.Children[n-1].Data += x.Data
				continue
			}
		}
		r.Children = append(r.Children, x)
	}
	return r
}

// document is what the document should be read back as
func (w *world) document(merge bool) *ref.Doc {
	return &ref.Doc{Children: w.root.tree(merge).Children}
}

// resolve sets the namespaces of elements to what the declarations in scope
// make of them (as there is nothing that declares them for nodes that are
// added). It is false if there is a prefix that is not declared.
func resolve(r *ref.Node, scope map[string]string) bool {
	if r.Kind != ref.KElem {
		return true
	}
	if len(r.NS) > 0 {
		s := map[string]string{}
		for k, v := range scope {
			s[k] = v
		}
		for _, d := range r.NS {
			s[d.Prefix] = d.URI
		}
		scope = s
	}
	known := func(prefix string) bool { return prefix == "" || prefix == "xml" || scope[prefix] != "" }
	ok := known(r.Prefix())
	r.URI = scope[r.Prefix()]
	for _, a := range r.Attrs {
		p, _ := ref.SplitQName(a.Name)
		ok = ok && known(p)
	}
	for _, k := range r.Children {
		ok = resolve(k, scope) && ok
	}
	return ok
}

// writable returns true if the document can be written as one
func (w *world) writable() bool {
	n, x := 0, 0
	for _, k := range w.root.kids {
		switch k.kind {
		case 'e':
			n++
		case 'x':
			x++
			if n > 0 {
				return false
			}
		case 't', 'r':
			return false
		}
	}
	return n == 1 && x <= 1
}
