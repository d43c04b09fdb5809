package main

import (
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/verif/gen"
	"github.com/lestrrat-go/helium/verif/hx"
	"github.com/lestrrat-go/helium/verif/ref"
)

// finish compares the document as a whole with what it should be
func (w *world) finish() {
	if !w.checkAll() {
		return
	}
	if d := hx.Diff(hx.RefDoc(w.document(false)), hx.Doc(w.doc)); d != "" {
		w.fail("tree differs: %s", d)
		return
	}
	if s := hx.Links(w.doc); s != "" {
		w.fail("links: %s", s)
		return
	}
	if !w.writable() {
		return
	}
	want := w.document(true)
	for _, k := range want.Children {
		if !resolve(k, map[string]string{"xml": "http://www.w3.org/XML/1998/namespace"}) {
			return
		}
	}
	out, err := w.doc.XMLString()
	if err != nil {
		w.fail("error serialising: %s", oneLine(err))
		return
	}
	r := refParse(out)
	if r.Verdict == ref.Skip {
		return
	}
	if r.Verdict != ref.WF {
		w.fail("serialised to %q, which is not well-formed: %s", out, r.Msg)
		return
	}
	if d := hx.Diff(hx.RefDoc(want), hx.RefDoc(r.Doc)); d != "" {
		w.fail("serialised to %q, which differs: %s", out, d)
	}
	w.c.Count("documents written and read back", 1)
}

// op does an operation, if it is one that may be done
func (w *world) op(kind int, m, x *mnode) bool {
	switch kind {
	case 0, 1, 2:
		if m == x && kind == 2 && m.kind != 'd' {
			w.replace(m, m)
			return true
		}
		if x.kind == 'd' || x.kind == 'x' || m.kind == 'x' || !detached(x) || m.within(x) {
			return false
		}
	}
	switch kind {
	case 0:
		if m.kind == 'p' || m.kind == 'r' {
			return false
		}
		w.addChild(m, x)
	case 1:
		w.addSibling(m, x)
	case 2:
		if m.kind == 'd' {
			return false
		}
		w.replace(m, x)
	case 3:
		if m.kind == 'p' || m.kind == 'r' || m.kind == 'x' {
			return false
		}
		w.addContent(m, fmt.Sprint("+", len(w.log)))
	case 4:
		if m.kind != 'e' || !(detached(m) || m.up == w.root) {
			return false
		}
		if m.up == w.root {
			for _, k := range w.root.kids {
				if k.kind == 'e' {
					if k != m {
						return false
					}
					break
				}
			}
		}
		w.setRoot(m)
	}
	return true
}

// tiny makes a document with a few nodes that are not part of it
func tiny(c *Ctx) *world {
	w := newWorld(c, helium.CreateDocument())
	w.lazy = true
	w.elem("a")
	w.elem("b")
	w.elem("c")
	w.text("1")
	w.text("2")
	w.comment("3")
	w.comment("4")
	w.pi("p", "5")
	w.reference("#65")
	w.lazy = false
	return w
}

type edit struct{ kind, m, x int }

var edits = func() (out []edit) {
	for k := 0; k < 3; k++ {
		for m := 0; m < 10; m++ {
			for x := 1; x < 10; x++ {
				out = append(out, edit{k, m, x})
			}
		}
	}
	for m := 0; m < 7; m++ {
		out = append(out, edit{3, m, 0})
	}
	for m := 1; m < 4; m++ {
		out = append(out, edit{4, m, 0})
	}
	return
}()

func init() {
	// sequences of edits of a tiny world, all of them
	all := func(c *Ctx, n, i, per int) {
		for k := i * per; k < (i+1)*per && k < pow(len(edits), n); k++ {
			w := tiny(c)
			v := k
			var key strings.Builder
			for j := 0; j < n; j++ {
				e := edits[v%len(edits)]
				v /= len(edits)
				if !w.op(e.kind, w.all[e.m], w.all[e.x]) {
					w = nil
					break
				}
				fmt.Fprintf(&key, "%c%c%d,", w.all[e.m].kind, w.all[e.x].kind, e.kind)
			}
			if w == nil {
				continue
			}
			w.finish()
			c.Seen(key.String())
			if c.Failed() {
				return
			}
			c.Count("sequences, exhaustive", 1)
			if k == 12345 {
				c.Sample(strings.Join(w.log, "; "))
			}
		}
	}
	n2 := len(edits) * len(edits)
	n3 := n2 * len(edits)

	// some sequence of edits
	sequence := func(c *Ctx, w *world, n int, limit int) {
		other := helium.CreateDocument()
		pick := func() *mnode { return w.all[c.N(len(w.all))] }
		fresh := func() *mnode {
			if c.P(1, 2) {
				for i := 0; i < 10; i++ {
					if m := pick(); m.up != nil && detached(m) {
						return m
					}
				}
			}
			switch c.N(8) {
			case 0, 1, 2:
				return w.elem(c.Pick("a", "b", "c", "long-name"))
			case 3, 4:
				return w.text(c.Pick("", "x", "text & <more>", " ", "\r\n"))
			case 5:
				return w.comment(c.Pick("", "c", " comment "))
			case 6:
				return w.pi("pi", c.Pick("", "data"))
			default:
				return w.reference(c.Pick("#65", "#x42", "lt"))
			}
		}
		for i := 0; i < n && !c.Failed(); i++ {
			m := pick()
			if c.P(1, 3) {
				m = w.root
				for m.last() != nil && c.P(3, 4) {
					m = m.kids[c.N(len(m.kids))]
				}
			}
			k := c.N(12)
			switch {
			case k < 3:
				w.op(0, m, fresh())
			case k < 6:
				w.op(1, m, fresh())
			case k < 8:
				x := fresh()
				if c.P(1, 20) {
					x = m
				}
				w.op(2, m, x)
			case k < 9:
				w.op(3, m, nil)
			case k < 10:
				if c.P(1, 4) {
					m = fresh()
				}
				w.op(4, m, nil)
			case k < 11:
				if m.kind == 'e' {
					name, v := c.Pick("a", "b", "c", "d", "e"), c.Pick("", "1", "a &amp; b", "&lt;&#65;")
					var ps []ref.Piece
					if v != "" {
						ps = []ref.Piece{{Text: strings.NewReplacer("&amp;", "&", "&lt;", "<", "&#65;", "A").Replace(v)}}
					}
					w.setAttr(m, name, v, ps, true)
				}
			default:
				if c.P(1, 3) && m.kind != 'd' {
					d := other
					if m.doc == other {
						d = w.doc
					}
					w.setDoc(m, d)
				}
			}
			if len(w.all) > limit {
				break
			}
		}
		w.finish()
		var key strings.Builder
		for _, k := range w.root.kids {
			fmt.Fprintf(&key, "%c%d", k.kind, len(k.kids))
		}
		c.Seen(fmt.Sprint(key.String(), len(w.all)))
	}

	register(&Check{
		ID:   "C07",
		Rule: "one of: a link, content or attribute of a node differs from that of the model after an operation; an operation succeeds or fails where it should not; the document as a whole, or what it is serialised to, differs from the model",
		Sections: []Section{
			{Name: "all sequences of two operations", Quick: (n2 + 999) / 1000, Thorough: (n2 + 999) / 1000, Run: func(c *Ctx, i int) { all(c, 2, i, 1000) }},
			{Name: "all sequences of three operations", Quick: 0, Thorough: (n3 + 19999) / 20000, Run: func(c *Ctx, i int) { all(c, 3, i, 20000) }},
			batch("some sequences of three to eight operations", 60000, 1500000, 500, func(c *Ctx, k int) {
				w := tiny(c)
				n := 3 + c.N(6)
				for j := 0; j < 400 && n > 0 && !c.Failed(); j++ {
					e := edits[c.N(len(edits))]
					if e.m < len(w.all) && e.x < len(w.all) && w.op(e.kind, w.all[e.m], w.all[e.x]) {
						n--
					}
				}
				w.finish()
				var key strings.Builder
				for _, m := range w.all {
					key.WriteByte(m.kind)
					for _, x := range m.kids {
						key.WriteByte(x.kind)
					}
				}
				c.Seen(key.String())
			}),
			batch("long sequences", 600, 20000, 5, func(c *Ctx, k int) {
				sequence(c, newWorld(c, helium.CreateDocument()), 250, 200)
			}),
			batch("edits of documents that have been parsed", 1500, 40000, 10, func(c *Ctx, k int) {
				s, rd := genWF(c, gen.Random(c.Rand))
				doc, err := parse(c, s)
				if err != nil {
					c.Fail("well-formed document rejected: %s", oneLine(err))
					return
				}
				w := newWorld(c, doc)
				if !w.adopt(rd) || len(w.all) > 400 {
					return
				}
				w.say("document %q", s)
				if w.checkAll() {
					sequence(c, w, 60, 460)
				}
			}),
			batch("edits of documents that stay documents", 1500, 40000, 10, func(c *Ctx, k int) {
				s, rd := genWF(c, gen.Random(c.Rand))
				doc, err := parse(c, s)
				if err != nil {
					c.Fail("well-formed document rejected: %s", oneLine(err))
					return
				}
				w := newWorld(c, doc)
				if !w.adopt(rd) || len(w.all) > 400 {
					return
				}
				w.say("document %q", s)
				for i := 0; i < 30 && !c.Failed(); i++ {
					m := w.all[c.N(len(w.all))]
					if !m.within(w.root) || m.up == nil || m.up == w.root || m.kind == 'd' || m.kind == 'x' {
						continue
					}
					var x *mnode
					switch c.N(5) {
					case 0, 1:
						x = w.elem("new")
					case 2:
						x = w.text("new text")
					case 3:
						x = w.comment("new")
					default:
						x = w.pi("new", "")
					}
					w.op(c.N(4), m, x)
				}
				w.finish()
			}),
			batch("trees of several documents", 3000, 60000, 20, func(c *Ctx, k int) {
				w := newWorld(c, helium.CreateDocument())
				docs := []*helium.Document{w.doc, helium.CreateDocument(), helium.CreateDocument()}
				for i := 3 + c.N(12); i > 0; i-- {
					switch c.N(6) {
					case 0, 1, 2:
						w.elem("e")
					case 3:
						w.text("t")
					case 4:
						w.comment("c")
					default:
						w.pi("p", "")
					}
				}
				for i := 0; i < 60 && !c.Failed(); i++ {
					m := w.all[c.N(len(w.all))]
					x := w.all[1+c.N(len(w.all)-1)]
					switch c.N(5) {
					case 0:
						w.setDoc(x, docs[c.N(3)])
					case 1:
						if x.kind == 'e' {
							w.setAttr(x, c.Pick("a", "b", "c"), "1", []ref.Piece{{Text: "1"}}, true)
						}
					case 2:
						w.op(1, m, x)
					default:
						w.op(0, m, x)
					}
				}
				w.finish()
				c.Seen(fmt.Sprint(w.log))
			}),
			{Name: "many siblings", Quick: 8, Thorough: 8, CPU: 60, Run: func(c *Ctx, i int) {
				w := newWorld(c, helium.CreateDocument())
				root := w.elem("root")
				w.setRoot(root)
				w.lazy = true
				n := 3000
				if c.tier == "thorough" {
					n = 10000
				}
				for k := 0; k < n && !c.Failed(); k++ {
					var x *mnode
					switch (k + i) % 4 {
					case 0:
						x = w.elem("e")
					case 1:
						x = w.text("t")
					case 2:
						if i%2 == 0 {
							x = w.text("u")
						} else {
							x = w.comment("u")
						}
					default:
						x = w.pi("p", "")
					}
					if i < 4 || k == 0 {
						w.addChild(root, x)
					} else {
						w.addSibling(root.kids[c.N(len(root.kids))], x)
					}
					if k%5 == 4 {
						y := root.kids[c.N(len(root.kids))]
						w.replace(y, w.elem("r"))
					}
				}
				w.finish()
			}},
			{Name: "many levels", Quick: 3, Thorough: 3, CPU: 60, Run: func(c *Ctx, i int) {
				// built from the top, or from the bottom
				w := newWorld(c, helium.CreateDocument())
				w.lazy = true
				cur := w.elem("e")
				if i%2 == 0 {
					w.setRoot(cur)
				}
				for k := 0; k < 3000 && !c.Failed(); k++ {
					x := w.elem("f")
					if i%2 == 0 {
						w.addChild(cur, x)
						w.addContent(cur, "z")
						if i == 2 {
							y := w.elem("y")
							w.replace(x, y)
							x = y
						}
					} else {
						w.addChild(x, cur)
						w.addContent(x, "z")
					}
					cur = x
				}
				if i%2 == 1 {
					w.setRoot(cur)
				}
				w.finish()
			}},
		},
	})
}
