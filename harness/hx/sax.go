package hx

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
	"github.com/lestrrat-go/helium/verif/ref"
)

// Callbacks that are called while a document is parsed, without the lookups
var Callbacks = []string{"locator", "start-document", "end-document", "doctype", "end-doctype", "element-decl", "attribute-decl", "entity-decl", "comment", "pi", "start", "end", "text", "blanks", "cdata", "ref"}

// AllCallbacks has all of them set
const AllCallbacks = 1<<16 - 1

func bit(kind string) uint {
	for i, c := range Callbacks {
		if c == kind {
			return 1 << uint(i)
		}
	}
	panic(kind)
}

// Ev is an event, as the handler has seen it
type Ev struct {
	Kind string
	Text string // everything in it, in canonical form
	Name string // start, end: the qualified name
	Raw  string // start: the attributes, in the order they came in
}

// Recorder is a SAX handler that writes down what happens
type Recorder struct {
	*sax.SAX2
	Events  []Ev
	Lookups int
	After   int // events after the callback failed
	FailAt  int // index of the event that is to fail (-1: none)
	Err     error
	failed  bool
	Mutate  bool // write into the arguments, after they have been recorded
	Hook    func(kind string)
	Changed string // an argument that changed while the hook was running
	tee     *helium.TreeBuilder
}

// SAXValue splits the value of an attribute as it is reported into pieces
func SAXValue(v string) []ref.Piece {
	var out []ref.Piece
	var cur strings.Builder
	text := func(s string) { cur.WriteString(s) }
	flush := func() {
		if cur.Len() > 0 {
			out = append(out, ref.Piece{Text: cur.String()})
			cur.Reset()
		}
	}
	for v != "" {
		i := strings.IndexByte(v, '&')
		if i < 0 {
			text(v)
			break
		}
		text(v[:i])
		v = v[i:]
		if strings.HasPrefix(v, "&#38;") {
			text("&")
			v = v[5:]
			continue
		}
		j := strings.IndexByte(v, ';')
		if j < 0 {
			text(v)
			break
		}
		flush()
		out = append(out, ref.Piece{Ref: true, Text: v[1:j]})
		v = v[j+1:]
	}
	flush()
	return out
}

func startText(local, prefix, uri string, ns []string, attrs []string, defaults []string) string {
	return fmt.Sprintf("%s|%s {%s} ns[%s] attrs[%s] defaults[%s]", prefix, local, uri, strings.Join(ns, " "), strings.Join(attrs, " "), strings.Join(defaults, " "))
}

// qname puts a name together
func qname(prefix, local string) string {
	if prefix == "" {
		return local
	}
	return prefix + ":" + local
}

// NewRecorder returns a recorder with some of the callbacks set
func NewRecorder(mask uint, tee *helium.TreeBuilder) *Recorder {
	r := &Recorder{SAX2: sax.New(), FailAt: -1, tee: tee}
	on := func(kind string) bool { return mask&bit(kind) != 0 }
	ev := func(kind, name, text string) error {
		if r.failed {
			r.After++
		}
		r.Events = append(r.Events, Ev{Kind: kind, Text: text, Name: name})
		if r.Hook != nil {
			r.Hook(kind)
		}
		if len(r.Events)-1 == r.FailAt {
			r.failed = true
			return r.Err
		}
		return nil
	}
	spoil := func(b []byte) {
		if r.Mutate {
			for i := range b {
				b[i] = '!'
			}
		}
	}
	same := func(kind string, was, b []byte) {
		if r.Hook != nil && !bytes.Equal(was, b) {
			r.Changed = fmt.Sprintf("%s: %q became %q", kind, was, b)
		}
	}
	s := r.SAX2
	if on("locator") || tee != nil {
		s.SetDocumentLocatorHandler = func(ctx sax.Context, l sax.DocumentLocator) error {
			if on("locator") {
				if err := ev("locator", "", ""); err != nil {
					return err
				}
			}
			if tee != nil {
				return tee.SetDocumentLocator(ctx, l)
			}
			return nil
		}
	}
	if on("start-document") || tee != nil {
		s.StartDocumentHandler = func(ctx sax.Context) error {
			if on("start-document") {
				if err := ev("start-document", "", ""); err != nil {
					return err
				}
			}
			if tee != nil {
				return tee.StartDocument(ctx)
			}
			return nil
		}
	}
	if on("end-document") || tee != nil {
		s.EndDocumentHandler = func(ctx sax.Context) error {
			if on("end-document") {
				if err := ev("end-document", "", ""); err != nil {
					return err
				}
			}
			if tee != nil {
				return tee.EndDocument(ctx)
			}
			return nil
		}
	}
	if on("doctype") || tee != nil {
		s.InternalSubsetHandler = func(ctx sax.Context, name, pub, sys string) error {
			if on("doctype") {
				if err := ev("doctype", "", fmt.Sprintf("%s %q %q", name, pub, sys)); err != nil {
					return err
				}
			}
			if tee != nil {
				return tee.InternalSubset(ctx, name, pub, sys)
			}
			return nil
		}
	}
	if on("end-doctype") || tee != nil {
		s.ExternalSubsetHandler = func(ctx sax.Context, name, pub, sys string) error {
			if on("end-doctype") {
				if err := ev("end-doctype", "", fmt.Sprintf("%s %q %q", name, pub, sys)); err != nil {
					return err
				}
			}
			if tee != nil {
				return tee.ExternalSubset(ctx, name, pub, sys)
			}
			return nil
		}
	}
	if on("element-decl") || tee != nil {
		s.ElementDeclHandler = func(ctx sax.Context, name string, typ int, content sax.ElementContent) error {
			if on("element-decl") {
				if err := ev("element-decl", "", fmt.Sprintf("%s %d", name, typ)); err != nil {
					return err
				}
			}
			if tee != nil {
				return tee.ElementDecl(ctx, name, typ, content)
			}
			return nil
		}
	}
	if on("attribute-decl") || tee != nil {
		s.AttributeDeclHandler = func(ctx sax.Context, elem, name string, typ, def int, value string, tree sax.Enumeration) error {
			if on("attribute-decl") {
				var enum []string
				if e, ok := tree.(helium.Enumeration); ok {
					enum = e
				}
				if err := ev("attribute-decl", "", fmt.Sprintf("%s %s %d (%s) %d %s", elem, name, typ, strings.Join(enum, "|"), def, pieces(SAXValue(value)))); err != nil {
					return err
				}
			}
			if tee != nil {
				return tee.AttributeDecl(ctx, elem, name, typ, def, value, tree)
			}
			return nil
		}
	}
	if on("entity-decl") || tee != nil {
		s.EntityDeclHandler = func(ctx sax.Context, name string, typ int, pub, sys, content string) error {
			if on("entity-decl") {
				if err := ev("entity-decl", "", fmt.Sprintf("%s %d %q %q %q", name, typ, pub, sys, content)); err != nil {
					return err
				}
			}
			if tee != nil {
				return tee.EntityDecl(ctx, name, typ, pub, sys, content)
			}
			return nil
		}
	}
	if on("comment") || tee != nil {
		s.CommentHandler = func(ctx sax.Context, b []byte) error {
			if on("comment") {
				was := append([]byte(nil), b...)
				if err := ev("comment", "", fmt.Sprintf("%q", b)); err != nil {
					return err
				}
				same("comment", was, b)
			}
			if tee != nil {
				return tee.Comment(ctx, b)
			}
			spoil(b)
			return nil
		}
	}
	if on("pi") || tee != nil {
		s.ProcessingInstructionHandler = func(ctx sax.Context, target, data string) error {
			if on("pi") {
				if err := ev("pi", "", fmt.Sprintf("%s %q", target, data)); err != nil {
					return err
				}
			}
			if tee != nil {
				return tee.ProcessingInstruction(ctx, target, data)
			}
			return nil
		}
	}
	if on("start") || tee != nil {
		s.StartElementNSHandler = func(ctx sax.Context, local, prefix, uri string, nss []sax.Namespace, as []sax.Attribute) error {
			if on("start") {
				var ns, attrs, defaults []string
				for _, n := range nss {
					ns = append(ns, fmt.Sprintf("%q=%q", n.Prefix(), n.URI()))
				}
				sort.Strings(ns)
				for _, a := range as {
					t := fmt.Sprintf("%s|%s=%s", a.Prefix(), a.LocalName(), pieces(SAXValue(a.Value())))
					if a.Name() != qname(a.Prefix(), a.LocalName()) {
						t += " called " + a.Name()
					}
					if a.IsDefault() {
						defaults = append(defaults, t)
					} else {
						if len(defaults) > 0 {
							t += " after a default"
						}
						attrs = append(attrs, t)
					}
				}
				sort.Strings(defaults)
				var raw strings.Builder
				for _, a := range as {
					fmt.Fprintf(&raw, "%s=%q %v ", a.Name(), a.Value(), a.IsDefault())
				}
				for _, n := range nss {
					fmt.Fprintf(&raw, "%s=%q ", n.Prefix(), n.URI())
				}
				defer func(i int) { r.Events[i].Raw = raw.String() }(len(r.Events))
				if err := ev("start", qname(prefix, local), startText(local, prefix, uri, ns, attrs, defaults)); err != nil {
					return err
				}
			}
			if tee != nil {
				return tee.StartElementNS(ctx, local, prefix, uri, nss, as)
			}
			return nil
		}
	}
	if on("end") || tee != nil {
		s.EndElementNSHandler = func(ctx sax.Context, local, prefix, uri string) error {
			if on("end") {
				if err := ev("end", qname(prefix, local), fmt.Sprintf("%s|%s {%s}", prefix, local, uri)); err != nil {
					return err
				}
			}
			if tee != nil {
				return tee.EndElementNS(ctx, local, prefix, uri)
			}
			return nil
		}
	}
	chars := func(kind string, next func(*helium.TreeBuilder, sax.Context, []byte) error) func(sax.Context, []byte) error {
		return func(ctx sax.Context, b []byte) error {
			if on(kind) {
				was := append([]byte(nil), b...)
				if err := ev(kind, "", string(b)); err != nil {
					return err
				}
				same(kind, was, b)
			}
			if tee != nil {
				return next(tee, ctx, b)
			}
			spoil(b)
			return nil
		}
	}
	if on("text") || tee != nil {
		s.CharactersHandler = chars("text", (*helium.TreeBuilder).Characters)
	}
	if on("blanks") || tee != nil {
		s.IgnorableWhitespaceHandler = chars("blanks", (*helium.TreeBuilder).IgnorableWhitespace)
	}
	if on("cdata") || tee != nil {
		s.CDataBlockHandler = chars("cdata", (*helium.TreeBuilder).CDataBlock)
	}
	if on("ref") || tee != nil {
		s.ReferenceHandler = func(ctx sax.Context, name string) error {
			if on("ref") {
				if err := ev("ref", "", name); err != nil {
					return err
				}
			}
			if tee != nil {
				return tee.Reference(ctx, name)
			}
			return nil
		}
	}
	if tee != nil {
		s.GetEntityHandler = func(ctx sax.Context, name string) (sax.Entity, error) {
			r.Lookups++
			return tee.GetEntity(ctx, name)
		}
		s.GetParameterEntityHandler = func(ctx sax.Context, name string) (sax.Entity, error) {
			r.Lookups++
			return tee.GetParameterEntity(ctx, name)
		}
	}
	return r
}

// Stream is the canonical form of events: blanks are text, and adjacent text is one
func Stream(evs []Ev) []string {
	var out []string
	var text strings.Builder
	in := false
	flush := func() {
		if in {
			out = append(out, fmt.Sprintf("text %q", text.String()))
		}
		text.Reset()
		in = false
	}
	for _, e := range evs {
		switch e.Kind {
		case "text", "blanks":
			text.WriteString(e.Text)
			in = true
			continue
		}
		flush()
		switch e.Kind {
		case "cdata":
			out = append(out, fmt.Sprintf("cdata %q", e.Text))
		default:
			out = append(out, e.Kind+" "+e.Text)
		}
	}
	flush()
	return out
}

// Nesting is the online monitor of the order of events: it knows nothing of
// the document
func Nesting(evs []Ev) string {
	var stack []string
	const (
		begin = iota
		locator
		prolog
		dtd
		prolog2
		root
		epilog
		end
	)
	state := begin
	for i, e := range evs {
		bad := func(what string) string { return fmt.Sprintf("event %d (%s %s): %s", i, e.Kind, clip(e.Text), what) }
		switch e.Kind {
		case "locator":
			if state != begin {
				return bad("not first")
			}
			state = locator
		case "start-document":
			if state != locator {
				return bad("out of place")
			}
			state = prolog
		case "doctype":
			if state != prolog {
				return bad("out of place")
			}
			state = dtd
		case "end-doctype":
			if state != dtd {
				return bad("out of place")
			}
			state = prolog2
		case "element-decl", "attribute-decl", "entity-decl":
			if state != dtd {
				return bad("out of place")
			}
		case "comment", "pi":
			if state < prolog || state == end {
				return bad("out of place")
			}
		case "start":
			if state != prolog && state != prolog2 && state != root {
				return bad("out of place")
			}
			state = root
			stack = append(stack, e.Text[:strings.Index(e.Text, " ns[")])
		case "end":
			if state != root {
				return bad("out of place")
			}
			if top := stack[len(stack)-1]; top != e.Text {
				return bad("does not match start " + top)
			}
			stack = stack[:len(stack)-1]
			if len(stack) == 0 {
				state = epilog
			}
		case "text", "blanks", "cdata", "ref":
			if state != root {
				return bad("outside the root")
			}
			if e.Text == "" && e.Kind != "cdata" {
				return bad("empty")
			}
		case "end-document":
			if state != epilog {
				return bad("out of place")
			}
			state = end
		}
	}
	if state != end {
		return "no end"
	}
	return ""
}

var attrTypes = map[string]helium.AttributeType{"CDATA": helium.AttrCDATA, "ID": helium.AttrID, "IDREF": helium.AttrIDRef, "IDREFS": helium.AttrIDRefs, "ENTITY": helium.AttrEntity, "ENTITIES": helium.AttrEntities, "NMTOKEN": helium.AttrNmtoken, "NMTOKENS": helium.AttrNmtokens, "ENUM": helium.AttrEnumeration, "NOTATION": helium.AttrNotation}
var attrDefs = map[string]helium.AttributeDefault{"": helium.AttrDefaultNone, "#REQUIRED": helium.AttrDefaultRequired, "#IMPLIED": helium.AttrDefaultImplied, "#FIXED": helium.AttrDefaultFixed}
var elemTypes = map[string]helium.ElementTypeVal{"EMPTY": helium.EmptyElementType, "ANY": helium.AnyElementType, "MIXED": helium.MixedElementType, "CHILDREN": helium.ElementElementType}

// RefStream is the canonical form of the events of a document
func RefStream(d *ref.Doc) []string {
	out := []string{"locator "}
	for _, e := range d.Events {
		switch e.Kind {
		case "start":
			n := e.Node
			var ns, attrs, defaults []string
			for _, x := range n.NS {
				ns = append(ns, fmt.Sprintf("%q=%q", x.Prefix, x.URI))
			}
			sort.Strings(ns)
			at := func(a ref.Attr) string {
				p, l := ref.SplitQName(a.Name)
				return fmt.Sprintf("%s|%s=%s", p, l, pieces(a.Pieces))
			}
			for _, a := range n.Attrs {
				attrs = append(attrs, at(a))
			}
			for _, a := range n.Defaults {
				defaults = append(defaults, at(a))
			}
			sort.Strings(defaults)
			out = append(out, "start "+startText(n.Local(), n.Prefix(), n.URI, ns, attrs, defaults))
		case "end":
			out = append(out, fmt.Sprintf("end %s|%s {%s}", e.Node.Prefix(), e.Node.Local(), e.Node.URI))
		case "text":
			out = append(out, fmt.Sprintf("text %q", e.Text))
		case "cdata":
			out = append(out, fmt.Sprintf("cdata %q", e.Text))
		case "comment":
			out = append(out, fmt.Sprintf("comment %q", e.Text))
		case "pi":
			out = append(out, fmt.Sprintf("pi %s %q", e.Node.Name, e.Node.Data))
		case "ref":
			out = append(out, "ref "+e.Node.Name)
		case "doctype":
			out = append(out, fmt.Sprintf("doctype %s %q %q", d.DTDName, "", ""))
		case "end-doctype":
			out = append(out, fmt.Sprintf("end-doctype %s %q %q", d.DTDName, "", ""))
		case "element-decl":
			out = append(out, fmt.Sprintf("element-decl %s %d", e.Decl.Name, elemTypes[e.Decl.Type]))
		case "attribute-decl":
			x := e.Decl
			out = append(out, fmt.Sprintf("attribute-decl %s %s %d (%s) %d %s", x.Elem, x.Name, attrTypes[x.Type], strings.Join(x.Enum, "|"), attrDefs[x.Def], pieces(x.Value)))
		case "entity-decl":
			x := e.Decl
			typ := helium.InternalGeneralEntity
			if x.Kind == ref.DPEntity {
				typ = helium.InternalParameterEntity
			}
			out = append(out, fmt.Sprintf("entity-decl %s %d %q %q %q", x.Name, typ, "", "", x.Text))
		default:
			out = append(out, e.Kind+" "+e.Text)
		}
	}
	return out
}

// Ignorable looks at how white space is reported. Nothing but white space is
// ever called ignorable. If there is a tree (and so the declarations are
// known), that in elements declared with mixed content, ANY or EMPTY is not;
// if exact is set, that in elements declared with element content is.
func Ignorable(evs []Ev, rd *ref.Doc, tree, exact bool) string {
	decl := map[string]string{}
	for _, d := range rd.Decls {
		if d.Kind == ref.DElement {
			if _, ok := decl[d.Name]; !ok {
				decl[d.Name] = d.Type
			}
		}
	}
	var stack []string
	for i, e := range evs {
		switch e.Kind {
		case "start":
			stack = append(stack, e.Name)
		case "end":
			stack = stack[:len(stack)-1]
		case "blanks", "text":
			white := strings.Trim(e.Text, " \t\r\n") == ""
			if e.Kind == "blanks" && !white {
				return fmt.Sprintf("event %d: %s is ignorable white space", i, clip(e.Text))
			}
			if !tree {
				continue
			}
			switch t := decl[stack[len(stack)-1]]; {
			case t == "", !white:
			case e.Kind == "blanks" && t != "CHILDREN":
				return fmt.Sprintf("event %d: white space in %s, declared %s, is ignorable", i, stack[len(stack)-1], t)
			case e.Kind == "text" && t == "CHILDREN" && exact:
				return fmt.Sprintf("event %d: white space in %s, declared %s, is not ignorable", i, stack[len(stack)-1], t)
			}
		}
	}
	return ""
}
