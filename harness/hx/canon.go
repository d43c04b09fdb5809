// Package hx looks at documents, through the public API of helium only, and
// writes what is found in a canonical form that can be compared.
package hx

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/verif/ref"
)

func pieces(ps []ref.Piece) string {
	var b strings.Builder
	for _, p := range ps {
		if p.Ref {
			fmt.Fprintf(&b, "&%q;", p.Text)
		} else {
			fmt.Fprintf(&b, "%q", p.Text)
		}
	}
	return b.String()
}

// RefDoc is the canonical form of what a document should be
func RefDoc(d *ref.Doc) []string {
	var out []string
	for _, c := range d.Children {
		refNode(c, 0, &out)
	}
	return out
}

// RefNode is the canonical form of a node
func RefNode(n *ref.Node, depth int) []string {
	var out []string
	refNode(n, depth, &out)
	return out
}

func refNode(n *ref.Node, depth int, out *[]string) {
	add := func(format string, a ...interface{}) {
		*out = append(*out, fmt.Sprintf("%d ", depth)+fmt.Sprintf(format, a...))
	}
	switch n.Kind {
	case ref.KElem:
		add("elem %s {%s}", n.Name, n.URI)
		var ns []string
		for _, x := range n.NS {
			ns = append(ns, fmt.Sprintf("ns %q=%q", x.Prefix, x.URI))
		}
		sort.Strings(ns)
		for _, x := range ns {
			add("%s", x)
		}
		for _, a := range n.Attrs {
			add("attr %s=%s", a.Name, pieces(a.Pieces))
		}
		for _, c := range n.Children {
			refNode(c, depth+1, out)
		}
	case ref.KText:
		add("text %q", n.Data)
	case ref.KComment:
		add("comment %q", n.Data)
	case ref.KPI:
		if n.Data == "" {
			add("pi %q", "<?"+n.Name+"?>")
		} else {
			add("pi %q", "<?"+n.Name+" "+n.Data+"?>")
		}
	case ref.KRef:
		add("ref %s", n.Name)
	case ref.KDTD:
		add("dtd %s", n.Name)
	}
}

// Doc is the canonical form of a document
func Doc(d *helium.Document) []string {
	var out []string
	for c := d.FirstChild(); c != nil; c = c.NextSibling() {
		node(c, 0, &out)
	}
	return out
}

// AttrPieces returns the value of an attribute in pieces
func AttrPieces(a *helium.Attribute) []ref.Piece {
	var ps []ref.Piece
	for c := a.FirstChild(); c != nil; c = c.NextSibling() {
		switch c.Type() {
		case helium.TextNode:
			ps = append(ps, ref.Piece{Text: string(c.Content())})
		case helium.EntityRefNode:
			ps = append(ps, ref.Piece{Ref: true, Text: c.Name()})
		default:
			ps = append(ps, ref.Piece{Ref: true, Text: c.Type().String()})
		}
	}
	return ps
}

// Node is the canonical form of a node
func Node(n helium.Node, depth int) []string {
	var out []string
	node(n, depth, &out)
	return out
}

func node(n helium.Node, depth int, out *[]string) {
	add := func(format string, a ...interface{}) {
		*out = append(*out, fmt.Sprintf("%d ", depth)+fmt.Sprintf(format, a...))
	}
	switch n.Type() {
	case helium.ElementNode:
		e := n.(*helium.Element)
		add("elem %s {%s}", e.Name(), e.URI())
		var ns []string
		for _, x := range e.Namespaces() {
			ns = append(ns, fmt.Sprintf("ns %q=%q", x.Prefix(), x.URI()))
		}
		sort.Strings(ns)
		for _, x := range ns {
			add("%s", x)
		}
		for _, a := range e.Attributes() {
			add("attr %s=%s", a.Name(), pieces(AttrPieces(a)))
		}
		for c := e.FirstChild(); c != nil; c = c.NextSibling() {
			node(c, depth+1, out)
		}
	case helium.TextNode:
		add("text %q", n.Content())
	case helium.CommentNode:
		add("comment %q", n.Content())
	case helium.ProcessingInstructionNode:
		var b bytes.Buffer
		if err := (&helium.Dumper{}).DumpNode(&b, n); err != nil {
			add("pi error %s", err)
		} else if !strings.HasPrefix(b.String(), "<?"+n.Name()) {
			add("pi name %q", n.Name())
		} else {
			add("pi %q", b.String())
		}
	case helium.EntityRefNode:
		add("ref %s", n.Name())
	case helium.DTDNode:
		add("dtd %s", n.Name())
	default:
		add("%s %s", n.Type(), n.Name())
	}
}

// Diff returns a description of the first difference, "" if there is none
func Diff(want, got []string) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		w, g := "(nothing)", "(nothing)"
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w != g {
			return fmt.Sprintf("line %d: want %s, got %s", i, clip(w), clip(g))
		}
	}
	return ""
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:200] + "..." + s[len(s)-200:]
	}
	return s
}

// Links checks that the links of everything below n agree, and returns what
// does not
func Links(n helium.Node) string {
	type item struct {
		n helium.Node
	}
	todo := []item{{n}}
	for len(todo) > 0 {
		p := todo[len(todo)-1].n
		todo = todo[:len(todo)-1]
		if p.Type() == helium.DTDNode {
			continue
		}
		var prev helium.Node
		k := 0
		for c := p.FirstChild(); c != nil; c = c.NextSibling() {
			if c.Parent() != p {
				return fmt.Sprintf("parent of child %d (%s %q) of %q is another node", k, c.Type(), c.Name(), p.Name())
			}
			if pr := c.PrevSibling(); pr != prev {
				return fmt.Sprintf("previous sibling of child %d (%s %q) of %q is another node", k, c.Type(), c.Name(), p.Name())
			}
			prev = c
			todo = append(todo, item{c})
			k++
		}
		if e, ok := p.(*helium.Element); ok {
			var last helium.Node
			for _, a := range e.Attributes() {
				if a.PrevSibling() != last {
					return fmt.Sprintf("previous sibling of attribute %q of %q is another node", a.Name(), e.Name())
				}
				last = a
			}
		}
		if p.LastChild() != prev {
			return fmt.Sprintf("last child of %q is another node", p.Name())
		}
	}
	return ""
}
