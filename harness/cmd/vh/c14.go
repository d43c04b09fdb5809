package main

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/verif/gen"
	"github.com/lestrrat-go/helium/verif/hx"
	"github.com/lestrrat-go/helium/verif/ref"
)

// treeDigest is everything there is to know about a document
func treeDigest(doc *helium.Document) string {
	var b strings.Builder
	for _, s := range hx.Doc(doc) {
		b.WriteString(s)
		b.WriteByte('\n')
	}
	fmt.Fprintf(&b, "%s %q %v\n", doc.Version(), doc.Encoding(), doc.Standalone())
	s, err := doc.XMLString()
	fmt.Fprintf(&b, "%q %v\n", s, err)
	fmt.Fprintf(&b, "%q\n", doc.Content())
	if d := doc.IntSubset(); d != nil {
		n := 0
		for k := d.FirstChild(); k != nil; k = k.NextSibling() {
			n++
			fmt.Fprintf(&b, "%s %s %q\n", k.Type(), k.Name(), k.Content())
		}
		fmt.Fprintf(&b, "%d declarations\n", n)
	}
	if m := hx.Links(doc); m != "" {
		b.WriteString("links: " + m)
	}
	return b.String()
}

func outcome(doc *helium.Document, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	if doc == nil {
		return "no document"
	}
	return treeDigest(doc)
}

// ways to parse a document, all of which have got a result that can be compared
const (
	wayTree = iota
	wayParser
	wayEvents
	wayBoth
	ways
)

func digest(s string, way int, p *helium.Parser, hook func(string)) string {
	b := []byte(s)
	var out string
	switch way {
	case wayTree:
		doc, err := helium.Parse(b)
		out = outcome(doc, err)
	case wayParser:
		if p == nil {
			p = helium.NewParser()
		}
		doc, err := p.Parse(b)
		out = outcome(doc, err)
	default:
		var tb *helium.TreeBuilder
		if way == wayBoth {
			tb = helium.NewTreeBuilder()
		}
		r := hx.NewRecorder(hx.AllCallbacks, tb)
		r.Hook = hook
		p := helium.NewParser()
		p.SetSAXHandler(r)
		doc, err := p.Parse(b)
		var e strings.Builder
		for _, v := range r.Events {
			e.WriteString(v.Kind + " " + v.Text + " " + v.Raw + "\n")
		}
		if err != nil {
			doc = nil
		}
		out = e.String() + r.Changed
		if way == wayBoth || err != nil {
			out += outcome(doc, err)
		}
	}
	if string(b) != s {
		out += "the input has been modified"
	}
	return out
}

// corpus is a number of documents, good and bad, and what they are parsed into
type corpus struct {
	docs []string
	want [][ways]string
}

var special = []string{
	"", " ", "<", "<a", "<a/>", "<a></b>", "<a>&undeclared;</a>", "\xff\xfe<\x00a\x00/\x00>\x00", "<a>\xff</a>", "<a b='1' b='2'/>", "<a><!-- -- --></a>",
	"<?xml version='1.0' encoding='iso-8859-1'?><a>\xe9\xe8</a>", "<?xml version='1.0' encoding='Shift_JIS'?><a>\x83\x65\x83\x58\x83\x67</a>", "<?xml version='1.0' encoding='nonsense'?><a/>",
	"<?xml version='1.0' encoding='euc-jp'?><a b='\xc6\xfc'>\xcb\xdc</a>", "<?xml version='1.0' encoding='iso-2022-jp'?><a>\x1b$B$\"\x1b(B</a>",
	"<!DOCTYPE a [<!ENTITY e 'one'><!ENTITY f '&e;&e;'><!ATTLIST a b CDATA 'd&e;'>]><a>&f;<b c='&f;'/>&amp;&#65;</a>",
	"<!DOCTYPE a [<!ENTITY e 'two'><!ENTITY f '&e;&e;'><!ATTLIST a b CDATA 'd&e;'>]><a>&f;<b c='&f;'/>&amp;&#65;</a>",
	"<!DOCTYPE a [<!ENTITY e '&f;'><!ENTITY f '&e;'>]><a>&f;</a>",
	"<!DOCTYPE a [<!ENTITY lt '&#38;#60;'><!ENTITY amp '&#38;#38;'>]><a>&lt;&amp;</a>",
	"<!DOCTYPE a [<!ELEMENT a (b|(c,d)*)+><!ELEMENT b (#PCDATA|c)*><!ATTLIST a x (one|two) 'one' y ID #IMPLIED z NMTOKENS #REQUIRED>]><a y='q' z='a b'/>",
	"<!DOCTYPE a [<!ATTLIST a x NMTOKENS ' q  r '>]><a x='  s   t '/>", "<!DOCTYPE a [<!ATTLIST a x CDATA ' q  r '>]><a x='  s   t '/>",
	"<a xmlns='u' xmlns:p='v'><p:b p:c='d'/><b xmlns=''/></a>", "<a xmlns:p='w'><p:b p:c='d'/></a>", "<p:a/>", "<a xml:lang='en' xml:space='preserve'> <b/> </a>",
	"<?xml-stylesheet href='a'?><?xml-model href='b'?><a><?xml-model c?><?xml-stylesheet d?></a>", "<!DOCTYPE a [<?xml-model b?><!NOTATION n SYSTEM 'x'><!-- c --><!ENTITY % p 'q'>]><?xml-stylesheet?><a/><?xml-model?>",
	"<a><![CDATA[<&]]>]]&gt;</a>", "<a><?p d?><!--c--></a><?q?>", "<?xml version='1.1' standalone='yes'?><a>\r\n\r</a>",
	strings.Repeat("<d>", 300) + strings.Repeat("</d>", 300), strings.Repeat("<d>", 300), "<a>" + strings.Repeat("<b c='d'>text &lt; &#65;</b>", 200) + "</a>", "<a>" + strings.Repeat("é日😀", 3000) + "</a>", "<a b='" + strings.Repeat("é&amp;", 2000) + "'/>", "<!--" + strings.Repeat("c", 9000) + "--><a/>", "<a>" + strings.Repeat("x", 9000) + "\x01</a>",
}

// big is a document with something large in it, and what is around it: buffers
// that are kept are larger afterwards
func big(c *Ctx) string {
	x := strings.Repeat(c.Pick("x", "word ", "\u00e9", "0123456789abcde "), []int{4000, 9000, 20000, 70000}[c.N(4)])
	if len(x) > 70000 {
		x = x[:70000]
	}
	n := strings.Repeat("n", []int{2000, 5000, 17000, 49000}[c.N(4)])
	switch c.N(9) {
	case 0:
		return "<a>" + x + "</a>"
	case 1:
		return "<a b='" + x + "'/>"
	case 2:
		return "<a><!--" + x + "--></a>"
	case 3:
		return "<a><?p " + x + "?></a>"
	case 4:
		return "<a><![CDATA[" + x + "]]></a>"
	case 5:
		return "<" + n + " " + n + "='1'><" + n + "/></" + n + ">"
	case 6:
		return "<!DOCTYPE a [<!ENTITY e '" + x + "'><!ATTLIST a b CDATA '" + x + "'>]><a>&e;</a>"
	case 7:
		return "<!DOCTYPE a [<!ATTLIST a b NMTOKENS '" + x + "'>]><a b='" + x + "' c='" + x + "&lt;'/>"
	}
	return "<a b='" + x + "'>" + x + "<b c='d'>" // and an error at the end
}

func newCorpus(c *Ctx, n int) *corpus {
	k := &corpus{}
	for i := 0; i < n; i++ {
		var s string
		switch c.N(6) {
		case 0, 1:
			s = special[c.N(len(special))]
		case 2, 3:
			s = gen.Doc(c.Rand, gen.Random(c.Rand))
		case 4:
			s = gen.Mutate(c.Rand, gen.Doc(c.Rand, gen.Random(c.Rand)))
		default:
			p := gen.Random(c.Rand)
			p.DTD, p.Entities, p.AttDecls, p.ElemDecls = true, true, true, true
			s = gen.Doc(c.Rand, p)
		}
		if len(s) > 30000 {
			s = "<short/>"
		}
		if c.P(1, 80) {
			s = big(c)
		}
		k.docs = append(k.docs, s)
	}
	for _, s := range k.docs {
		var w [ways]string
		for way := 0; way < ways; way++ {
			w[way] = digest(s, way, nil, nil)
			c.Eval()
		}
		k.want = append(k.want, w)
	}
	return k
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	at := i - 40
	if at < 0 {
		at = 0
	}
	return fmt.Sprintf("at %d: want ...%q, got ...%q", i, head(a[at:], 160), head(b[at:], 160))
}

// crowd parses and serialises in several goroutines
func crowd(c *Ctx, shared bool, nested bool) {
	k := newCorpus(c, 12)
	g := 2 + c.N(15)
	rounds := 4 + c.N(8)
	runtime.GOMAXPROCS([]int{2, 4, 8, 16, 3}[c.N(5)])
	defer runtime.GOMAXPROCS(8)
	c.Input(fmt.Sprintf("%d goroutines, %d rounds, documents: %q", g, rounds, k.docs))

	var p *helium.Parser
	if shared {
		p = helium.NewParser()
	}
	// documents that all of them read
	var docs []*helium.Document
	var docWant []string
	for i, s := range k.docs {
		if doc, err := helium.Parse([]byte(s)); err == nil && doc != nil {
			docs = append(docs, doc)
			docWant = append(docWant, k.want[i][wayTree])
		}
	}

	var mu sync.Mutex
	var order strings.Builder
	var failed atomic.Bool
	var inFlight, most, evals, yields int64
	fail := func(format string, a ...interface{}) {
		mu.Lock()
		c.Fail(format, a...)
		mu.Unlock()
		failed.Store(true)
	}
	var start, done sync.WaitGroup
	start.Add(1)
	for i := 0; i < g; i++ {
		done.Add(1)
		r := gen.NewRand(c.seed, c.id, i)
		go func(i int) {
			defer done.Done()
			defer func() {
				if e := recover(); e != nil {
					fail("panic in goroutine: %v", e)
				}
			}()
			start.Wait()
			for j := 0; j < rounds && !failed.Load(); j++ {
				n := atomic.AddInt64(&inFlight, 1)
				for {
					m := atomic.LoadInt64(&most)
					if n <= m || atomic.CompareAndSwapInt64(&most, m, n) {
						break
					}
				}
				x := r.N(len(k.docs))
				hook := func(string) {
					if r.P(1, 4) {
						atomic.AddInt64(&yields, 1)
						runtime.Gosched()
					}
				}
				if nested {
					hook = func(string) {
						if r.P(1, 8) {
							y := r.N(len(k.docs))
							way := r.N(ways)
							if got := digest(k.docs[y], way, p, nil); got != k.want[y][way] {
								fail("document %d parsed (%d) within a callback: %s", y, way, firstDiff(k.want[y][way], got))
							}
							atomic.AddInt64(&evals, 1)
						}
					}
				}
				way := r.N(ways)
				if nested {
					way = wayEvents + r.N(2)
				}
				switch {
				case len(docs) > 0 && !nested && r.P(1, 4):
					// the same document, read by others at the same time
					y := r.N(len(docs))
					if got := treeDigest(docs[y]); got != docWant[y] {
						fail("document %d read by several: %s", y, firstDiff(docWant[y], got))
					}
					helium.Walk(docs[y], func(helium.Node) error { return nil })
				default:
					if got := digest(k.docs[x], way, p, hook); got != k.want[x][way] {
						fail("document %d parsed (%d) by one of several: %s", x, way, firstDiff(k.want[x][way], got))
					}
				}
				atomic.AddInt64(&evals, 1)
				atomic.AddInt64(&inFlight, -1)
				mu.Lock()
				fmt.Fprintf(&order, "%d,", i)
				mu.Unlock()
				if r.P(1, 20) {
					runtime.GC()
				}
			}
		}(i)
	}
	start.Done()
	done.Wait()
	c.evals += evals
	c.Count("parses and reads by several goroutines", int(evals))
	c.Count("yields within parses", int(yields))
	if most > 1 {
		c.Count("runs that overlapped", 1)
	}
	c.Seen(order.String())
}

// history parses documents one after another with the same parser
func history(c *Ctx) {
	k := newCorpus(c, 8)
	p := helium.NewParser()
	var order []int
	for j := 10 + c.N(30); j > 0; j-- {
		x := c.N(len(k.docs))
		order = append(order, x)
		way := wayParser
		if c.P(1, 3) {
			way = c.N(ways)
		}
		c.Input(fmt.Sprintf("order %v, documents: %q", order, k.docs))
		c.Eval()
		if got := digest(k.docs[x], way, p, nil); got != k.want[x][way] {
			c.Fail("document %d parsed (%d) after others: %s", x, way, firstDiff(k.want[x][way], got))
			return
		}
		c.Count("parses after others", 1)
	}
	// with a handler, and without
	p = helium.NewParser()
	for j := 0; j < 10; j++ {
		x := c.N(len(k.docs))
		c.Eval()
		r := hx.NewRecorder(hx.AllCallbacks, nil)
		p.SetSAXHandler(r)
		_, err := p.Parse([]byte(k.docs[x]))
		var e strings.Builder
		for _, v := range r.Events {
			e.WriteString(v.Kind + " " + v.Text + " " + v.Raw + "\n")
		}
		if err != nil {
			e.WriteString(outcome(nil, err))
		}
		if e.String() != k.want[x][wayEvents] {
			c.Fail("document %d parsed after others, with another handler: %s", x, firstDiff(k.want[x][wayEvents], e.String()))
		}
		x = c.N(len(k.docs))
		p.SetSAXHandler(helium.NewTreeBuilder())
		if got := digest(k.docs[x], wayParser, p, nil); got != k.want[x][wayParser] {
			c.Fail("document %d parsed after others, with the tree builder set again: %s", x, firstDiff(k.want[x][wayParser], got))
		}
	}
	c.Seen(fmt.Sprint(order, k.docs))
}

// separate makes sure that documents are independent of buffers and each other
func separate(c *Ctx) {
	var s string
	var rd *ref.Doc
	if c.P(1, 3) {
		for {
			s = special[c.N(len(special))]
			if r := refParse(s); r.Verdict == ref.WF {
				rd = r.Doc
				break
			}
		}
	} else {
		s, rd = genWF(c, gen.Random(c.Rand))
	}
	c.Input(s)
	buf := []byte(s)
	p := helium.NewParser()
	a, err := p.Parse(buf)
	if err != nil {
		c.Fail("well-formed document rejected: %s", oneLine(err))
		return
	}
	if string(buf) != s {
		c.Fail("the input has been modified")
		return
	}
	want := treeDigest(a)
	b, err := p.Parse(buf)
	if err != nil {
		c.Fail("rejected when parsed again: %s", oneLine(err))
		return
	}
	if got := treeDigest(b); got != want {
		c.Fail("parsed again: %s", firstDiff(want, got))
		return
	}
	for i := range buf {
		buf[i] = byte('!' + c.N(60))
	}
	c.Eval()
	if got := treeDigest(a); got != want {
		c.Fail("the document changed together with the buffer it was parsed from: %s", firstDiff(want, got))
		return
	}
	// other documents don't write into what this one has
	for j := 0; j < 4; j++ {
		helium.Parse([]byte(special[c.N(len(special))]))
		helium.Parse([]byte(gen.Doc(c.Rand, gen.Random(c.Rand))))
		if c.P(1, 8) {
			helium.Parse([]byte(big(c)))
		}
	}
	if got := treeDigest(a); got != want {
		c.Fail("the document changed when others were parsed: %s", firstDiff(want, got))
		return
	}
	// nodes of both documents are different ones
	seen := map[helium.Node]bool{}
	la, _ := preorder(a)
	lb, _ := preorder(b)
	for _, n := range la {
		seen[n] = true
	}
	for _, n := range lb {
		if seen[n] {
			c.Fail("node %s %q is part of two documents", n.Type(), n.Name())
			return
		}
	}
	c.Count("nodes that are part of one document only", len(la))
	// edits
	w := newWorld(c, a)
	if !w.adopt(rd) {
		return
	}
	w.lazy = true
	for j := 0; j < 40; j++ {
		m := w.all[c.N(len(w.all))]
		var x *mnode
		switch c.N(4) {
		case 0:
			x = w.elem("new")
		case 1:
			x = w.text("new")
		case 2:
			x = w.comment("new")
		default:
			x = w.pi("new", "x")
		}
		w.op(c.N(4), m, x)
		if m.kind == 'e' && c.P(1, 2) {
			e := m.n.(*helium.Element)
			e.SetAttribute(c.Pick("n1", "n2", "n3"), "v")
			e.SetNamespace("new", "new", c.P(1, 2))
			for _, at := range e.Attributes() {
				at.AddContent([]byte("more"))
				if t := at.FirstChild(); t != nil && t.Type() == helium.TextNode {
					t.AddContent([]byte("more text"))
				}
				// what is returned may be written into
				for _, b := range [][]byte{at.Content()} {
					for i := range b {
						b[i] = '!'
					}
				}
			}
		}
		if m.kind == 't' {
			for t := m.n.Content(); len(t) > 0; t = t[1:] {
				t[0] = '!'
			}
		}
	}
	if d := a.IntSubset(); d != nil {
		d.AddEntity("e", helium.InternalGeneralEntity, "", "", "changed")
		d.AddEntity("new", helium.InternalGeneralEntity, "", "", "new")
		for k := d.FirstChild(); k != nil; k = k.NextSibling() {
			for t := k.Content(); len(t) > 0; t = t[1:] {
				t[0] = '!'
			}
		}
	}
	c.Eval()
	if got := treeDigest(b); got != want {
		c.Fail("a document changed when another one was edited: %s", firstDiff(want, got))
		return
	}
	// and what is parsed afterwards
	d, err := helium.Parse([]byte(s))
	if err != nil {
		c.Fail("rejected after another document has been edited: %s", oneLine(err))
		return
	}
	if got := treeDigest(d); got != want {
		c.Fail("parsed after another document has been edited: %s", firstDiff(want, got))
	}
	c.Count("documents edited", 1)
	c.Seen(s)
}

func init() {
	register(&Check{
		ID:      "C14",
		Workers: 1,
		Rule:    "a case is a schedule (the order in which goroutines finished), a history of one parser or a document that is edited. Everything runs under the race detector. Digests of all that is known about the results (tree, content, serialised form, events, errors) are compared with those of a run on its own",
		Assumptions: []string{
			"what is not synchronised is found by the race detector of Go on the schedules that occur; yields within callbacks, numbers of processors and garbage collections vary them",
		},
		Sections: []Section{
			{Name: "separate parsers", Quick: 12, Thorough: 700, CPU: 300, Run: func(c *Ctx, i int) { crowd(c, false, false) }},
			{Name: "a shared parser", Quick: 12, Thorough: 700, CPU: 300, Run: func(c *Ctx, i int) { crowd(c, true, false) }},
			{Name: "parses within callbacks", Quick: 6, Thorough: 350, CPU: 300, Run: func(c *Ctx, i int) { crowd(c, c.P(1, 2), true) }},
			{Name: "histories of a parser", Quick: 20, Thorough: 1200, CPU: 300, Run: func(c *Ctx, i int) { history(c) }},
			{Name: "documents and buffers", Quick: 60, Thorough: 5000, CPU: 300, Run: func(c *Ctx, i int) { separate(c) }},
		},
	})
}
