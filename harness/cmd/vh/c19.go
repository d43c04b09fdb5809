package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/verif/gen"
	"github.com/lestrrat-go/helium/verif/hx"
	"github.com/lestrrat-go/helium/verif/ref"
)

// preorder is n and everything below it, and where the subtree of each node
// ends
func preorder(n helium.Node) (list []helium.Node, end []int) {
	list = append(list, n)
	end = append(end, 0)
	type frame struct {
		i    int
		next helium.Node
	}
	stack := []frame{{0, n.FirstChild()}}
	for len(stack) > 0 {
		f := &stack[len(stack)-1]
		if f.next == nil {
			end[f.i] = len(list)
			stack = stack[:len(stack)-1]
			continue
		}
		k := f.next
		f.next = k.NextSibling()
		list = append(list, k)
		end = append(end, 0)
		stack = append(stack, frame{len(list) - 1, k.FirstChild()})
	}
	return
}

// walkFrom checks what a walk from list[0] visits; fails has the indices of
// visits that fail
func walkFrom(c *Ctx, list []helium.Node, fails []int) {
	name := func(n helium.Node) string { return fmt.Sprintf("%s %q", n.Type(), n.Name()) }
	for _, at := range append([]int{-1}, fails...) {
		var e error
		if at >= 0 {
			switch c.N(4) {
			case 0:
				e = io.EOF
			case 1:
				e = helium.ErrInvalidOperation
			case 2:
				e = errors.New("stop")
			default:
				e = &customErr{at}
			}
		}
		i := 0
		c.Eval()
		err := helium.Walk(list[0], func(n helium.Node) error {
			if i >= len(list) {
				c.Fail("walk from %s visits %s after all nodes have been visited", name(list[0]), name(n))
			} else if n != list[i] {
				c.Fail("walk from %s: visit %d is %s, want %s", name(list[0]), i, name(n), name(list[i]))
			} else if at >= 0 && i > at {
				c.Fail("walk from %s goes on after visit %d failed", name(list[0]), at)
			}
			i++
			if i-1 == at {
				return e
			}
			return nil
		})
		want := len(list)
		if at >= 0 {
			want = at + 1
			c.Count("walks stopped by the visitor", 1)
		}
		if err != e {
			c.Fail("walk from %s, failing at %d, returns %v, want %v", name(list[0]), at, err, e)
		}
		if i != want {
			c.Fail("walk from %s, failing at %d, visits %d nodes, want %d", name(list[0]), at, i, want)
		}
		c.Count("nodes visited", i)
		if c.Failed() {
			return
		}
	}
	c.Count("walks", 1)
}

// wantWalks walks from every node (or many, if there are a lot)
func wantWalks(c *Ctx, root helium.Node) []helium.Node {
	list, end := preorder(root)
	starts := len(list)
	for k := 0; k < starts && k < 60; k++ {
		i := k
		if starts > 60 && k > 0 {
			i = c.N(starts)
		}
		sub := list[i:end[i]]
		var fails []int
		for j := 0; j < len(sub) && j < 12; j++ {
			at := j
			if len(sub) > 12 {
				at = c.N(len(sub))
			}
			fails = append(fails, at)
		}
		fails = append(fails, len(sub)-1)
		walkFrom(c, sub, fails)
		if c.Failed() {
			return list
		}
		if e, ok := list[i].(*helium.Element); ok {
			for _, a := range e.Attributes() {
				l, _ := preorder(a)
				if len(l) > 1 {
					c.Count("attributes walked", 1)
				}
				walkFrom(c, l, []int{0, len(l) - 1})
			}
		}
	}
	called := false
	err := helium.Walk(nil, func(helium.Node) error { called = true; return nil })
	if err == nil || called {
		c.Fail("walk from nil returns %v", err)
	}
	return list
}

// flat is a document in document order
func flat(n *ref.Node, out []string) []string {
	for _, k := range n.Children {
		switch k.Kind {
		case ref.KElem:
			out = append(out, "ElementNode "+k.Name)
			out = flat(k, out)
		case ref.KText:
			out = append(out, "TextNode "+k.Data)
		case ref.KComment:
			out = append(out, "CommentNode "+k.Data)
		case ref.KPI:
			out = append(out, "ProcessingInstructionNode "+k.Name)
		case ref.KRef:
			out = append(out, "EntityRefNode "+k.Name)
		case ref.KDTD:
			out = append(out, "DTDNode "+k.Name)
		}
	}
	return out
}

// snapshot is everything there is to see about a tree
func snapshot(n helium.Node) string {
	list, end := preorder(n)
	var b strings.Builder
	for i, n := range list {
		fmt.Fprintf(&b, "%p %d %p %p %p %p %p", n, end[i], n.Parent(), n.FirstChild(), n.LastChild(), n.NextSibling(), n.PrevSibling())
	}
	for _, s := range hx.Node(n, 0) {
		b.WriteString(s)
	}
	if d, ok := n.(*helium.Document); ok {
		for _, s := range hx.Doc(d) {
			b.WriteString(s)
		}
		s, err := d.XMLString()
		fmt.Fprint(&b, s, err)
	}
	return b.String()
}

// wantTour walks a document that has been parsed, and reads what's in there
func wantTour(c *Ctx, s string, rd *ref.Doc) {
	doc, err := parse(c, s)
	if err != nil {
		c.Fail("well-formed document rejected: %s", oneLine(err))
		return
	}
	before := snapshot(doc)
	// document order
	want := flat(&ref.Node{Children: rd.Children}, []string{"DocumentNode (document)"})
	var got []string
	err = helium.Walk(doc, func(n helium.Node) error {
		c.Eval()
		switch n.Type() {
		case helium.TextNode, helium.CommentNode:
			// comments in DTDs are not part of what is compared
			if p := n.Parent(); p == nil || p.Type() != helium.DTDNode {
				got = append(got, n.Type().String()+" "+string(n.Content()))
			}
		case helium.ElementNode, helium.EntityRefNode, helium.DTDNode, helium.DocumentNode, helium.ProcessingInstructionNode:
			if p := n.Parent(); p == nil || p.Type() != helium.DTDNode {
				got = append(got, n.Type().String()+" "+n.Name())
			}
		}
		return nil
	})
	if err != nil {
		c.Fail("walk returns error %s", oneLine(err))
	}
	if d := hx.Diff(want, got); d != "" {
		c.Fail("walk is not in document order: %s", d)
		return
	}
	wantWalks(c, doc)
	if c.Failed() {
		return
	}
	n := doc.FirstChild()
	for _, r := range rd.Children {
		switch r.Kind {
		case ref.KElem:
			for i := 0; i < 2; i++ {
				if t, ok := wantContent(c, rd, n, r); ok && string(doc.Content()) != t {
					c.Fail("content of the document is %q, want %q", doc.Content(), t)
				}
			}
		case ref.KComment:
			if string(n.Content()) != r.Data {
				c.Fail("content of comment is %q, want %q", n.Content(), r.Data)
			}
		}
		n = n.NextSibling()
	}
	if snapshot(doc) != before {
		c.Fail("the tree is not what it was before it was walked and read")
	}
	c.Seen(shape(rd))
}

// content is what a node that has been built stands for
func (m *mnode) content(b *strings.Builder) {
	switch m.kind {
	case 't':
		b.WriteString(m.data)
	case 'r':
		expand(nil, "&"+m.name+";", b, 0)
	case 'e', 'd':
		for _, k := range m.kids {
			k.content(b)
		}
	}
}

func init() {
	register(&Check{
		ID:   "C19",
		Rule: "a case is a tree, parsed or built by a random program, distinct by its shape. Walks from its nodes, with visitors that fail at various points, are compared with a traversal of its links and with document order according to the reference parser or the model; contents with what those say. Links, values and serialised form are compared before and after",
		Sections: []Section{
			batch("documents", 9000, 100000, 50, func(c *Ctx, k int) {
				s, rd := genWF(c, gen.Random(c.Rand))
				if len(s) < 20000 {
					wantTour(c, s, rd)
				}
			}),
			batch("small trees", 20000, 150000, 200, func(c *Ctx, k int) {
				// all of the shapes, as sequences of tags
				var b strings.Builder
				b.WriteString("<!DOCTYPE r [<!ENTITY e 'ee'><!ENTITY f '&e;|&e;'>]><r>")
				depth := 0
				for v := k; v > 0; v /= 8 {
					switch v % 8 {
					case 0:
						fmt.Fprintf(&b, "<n%d a='1&e;2'>", depth)
						depth++
					case 1:
						if depth > 0 {
							depth--
							fmt.Fprintf(&b, "</n%d>", depth)
						}
					case 2:
						b.WriteString("<x/>")
					case 3:
						b.WriteString("text")
					case 4:
						b.WriteString("<!--c-->")
					case 5:
						b.WriteString("<?p?>")
					case 6:
						b.WriteString("&e;")
					case 7:
						b.WriteString("&f;<![CDATA[<]]>")
					}
				}
				for depth > 0 {
					depth--
					fmt.Fprintf(&b, "</n%d>", depth)
				}
				b.WriteString("</r>")
				r := refParse(b.String())
				if r.Verdict == ref.WF {
					wantTour(c, b.String(), r.Doc)
				}
			}),
			batch("trees that have been built", 2000, 60000, 20, func(c *Ctx, k int) {
				w := newWorld(c, helium.CreateDocument())
				root := w.elem("root")
				w.setRoot(root)
				for i := 5 + c.N(40); i > 0 && !c.Failed(); i-- {
					m := w.all[c.N(len(w.all))]
					var x *mnode
					switch c.N(6) {
					case 0, 1:
						x = w.elem(c.Pick("a", "b", "c"))
					case 2:
						x = w.text(c.Pick("one", "two", "", " & "))
					case 3:
						x = w.comment("comment")
					case 4:
						x = w.pi("pi", "data")
					default:
						x = w.reference(c.Pick("#65", "lt", "#x263A"))
					}
					w.op(c.N(4), m, x)
				}
				c.Input(strings.Join(w.log, "; "))
				for _, m := range w.all {
					if m.up != nil && m.up.n != nil {
						continue
					}
					before := snapshot(m.n)
					wantWalks(c, m.n)
					if c.Failed() {
						return
					}
					if snapshot(m.n) != before {
						c.Fail("the tree is not what it was before it was walked")
					}
				}
				for _, m := range w.all {
					if m.kind == 'p' {
						continue
					}
					var b strings.Builder
					m.content(&b)
					want := b.String()
					if m.kind == 'c' {
						want = m.data
					}
					if got := string(m.n.Content()); got != want {
						c.Fail("content of %s is %q, want %q", w.id(m), got, want)
						return
					}
					c.Eval()
				}
				w.checkAll()
				var key strings.Builder
				for _, m := range w.all {
					fmt.Fprintf(&key, "%c%d", m.kind, len(m.kids))
				}
				c.Seen(key.String())
			}),
			{Name: "deep and wide", Quick: 6, Thorough: 6, CPU: 120, Run: func(c *Ctx, i int) {
				n := 20000 << uint(i%3)
				if c.tier == "thorough" {
					n *= 4
				}
				s := "<r>" + strings.Repeat("<e/>t", n) + "</r>"
				if i >= 3 {
					s = strings.Repeat("<e>", n) + "text" + strings.Repeat("<f/></e>", n)
				}
				doc, err := parse(c, s)
				if err != nil {
					c.Fail("rejected: %s", oneLine(err))
					return
				}
				list, end := preorder(doc)
				if len(list) < 2*n {
					c.Fail("%d nodes", len(list))
					return
				}
				walkFrom(c, list, []int{0, len(list) / 2, len(list) - 1})
				mid := c.N(len(list))
				walkFrom(c, list[mid:end[mid]], []int{0})
				want := "text"
				if i < 3 {
					want = strings.Repeat("t", n)
				}
				if got := string(doc.Content()); got != want {
					c.Fail("content of the document is %s, want %s", head(got, 100), head(want, 100))
				}
				c.Seen(fmt.Sprint("large", i, n))
			}},
		},
	})
}
