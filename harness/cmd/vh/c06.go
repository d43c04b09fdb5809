package main

import (
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/verif/gen"
	"github.com/lestrrat-go/helium/verif/hx"
	"github.com/lestrrat-go/helium/verif/ref"
)

// record parses s with a handler that has the callbacks of mask
func record(c *Ctx, s string, mask uint, tee bool) (*hx.Recorder, *helium.Document, error) {
	var tb *helium.TreeBuilder
	if tee {
		tb = helium.NewTreeBuilder()
	}
	r := hx.NewRecorder(mask, tb)
	c.Input(s)
	c.Eval()
	p := helium.NewParser()
	p.SetSAXHandler(r)
	doc, err := p.Parse([]byte(s))
	return r, doc, err
}

// filtered are the events that a handler with the callbacks of mask sees
func filtered(evs []hx.Ev, mask uint) []hx.Ev {
	var out []hx.Ev
	for _, e := range evs {
		for i, k := range hx.Callbacks {
			if k == e.Kind && mask&(1<<uint(i)) != 0 {
				out = append(out, e)
			}
		}
	}
	return out
}

// wantStream compares the events of s with what they should be
func wantStream(c *Ctx, s string, rd *ref.Doc, masks int) {
	r, doc, err := record(c, s, hx.AllCallbacks, false)
	if err != nil {
		c.Fail("well-formed document rejected: %s", oneLine(err))
		return
	}
	if doc != nil {
		c.Fail("a document came from nowhere")
		return
	}
	c.Count("events", len(r.Events))
	if m := hx.Nesting(r.Events); m != "" {
		c.Fail("order of events: %s", m)
		return
	}
	if m := hx.Ignorable(r.Events, rd, false, false); m != "" {
		c.Fail("white space: %s", m)
		return
	}
	want := hx.RefStream(rd)
	if d := hx.Diff(want, hx.Stream(r.Events)); d != "" {
		c.Fail("events differ: %s", d)
		return
	}
	for _, e := range r.Events {
		if e.Kind == "blanks" {
			c.Count("ignorable white space", 1)
		}
	}
	for ; masks > 0; masks-- {
		mask := uint(c.N(hx.AllCallbacks + 1))
		if c.P(1, 3) {
			mask = 1 << uint(c.N(len(hx.Callbacks)))
		} else if c.P(1, 3) {
			mask = hx.AllCallbacks &^ (1 << uint(c.N(len(hx.Callbacks))))
		}
		m, _, err := record(c, s, mask, false)
		if err != nil {
			c.Fail("with callbacks %04x, well-formed document rejected: %s", mask, oneLine(err))
			return
		}
		if d := hx.Diff(hx.Stream(filtered(r.Events, mask)), hx.Stream(m.Events)); d != "" {
			c.Fail("with callbacks %04x, events differ: %s", mask, d)
			return
		}
		c.Count("subsets of the callbacks", 1)
	}
	t, doc, err := record(c, s, hx.AllCallbacks, true)
	if err != nil || doc == nil {
		c.Fail("with a tree builder behind the handler: document %v, error %v", doc != nil, err)
		return
	}
	if m := hx.Nesting(t.Events); m != "" {
		c.Fail("with a tree builder, order of events: %s", m)
		return
	}
	if m := hx.Ignorable(t.Events, rd, true, !strings.ContainsAny(s, "&") && !strings.Contains(s, "xml:space")); m != "" {
		c.Fail("with a tree builder, white space: %s", m)
		return
	}
	if d := hx.Diff(want, hx.Stream(t.Events)); d != "" {
		c.Fail("with a tree builder behind the handler, events differ: %s", d)
		return
	}
	if d := hx.Diff(hx.RefDoc(rd), hx.Doc(doc)); d != "" {
		c.Fail("with a recorder in front of the tree builder, tree differs: %s", d)
		return
	}
	if !c.P(1, 4) {
		return
	}
	// what is given to the handler is its own
	r = hx.NewRecorder(hx.AllCallbacks, nil)
	r.Mutate = true
	p := helium.NewParser()
	p.SetSAXHandler(r)
	c.Eval()
	if _, err := p.Parse([]byte(s)); err != nil {
		c.Fail("with a handler that writes into its arguments, rejected: %s", oneLine(err))
		return
	}
	if d := hx.Diff(want, hx.Stream(r.Events)); d != "" {
		c.Fail("with a handler that writes into its arguments, events differ: %s", d)
	}
}

func init() {
	ck := &Check{ID: "C06",
		Rule: "a case is a document that the reference parser accepts; distinct by the structure of its events. The events seen by a recording handler are put through a monitor of their order, and compared with those of the reference; then again with random subsets of the callbacks, and with a tree builder behind the recorder, whose tree is compared as well",
	}
	ck.Sections = []Section{
		batch("gen", 60000, 800000, 50, func(c *Ctx, k int) {
			s, rd := genWF(c, gen.Random(c.Rand))
			kinds(c, rd)
			c.Seen(shape(rd))
			c.Sample(s)
			wantStream(c, s, rd, 3)
		}),
		batch("mutant", 40000, 600000, 50, func(c *Ctx, k int) {
			s, _ := genWF(c, gen.Random(c.Rand))
			for j := 0; j < 3; j++ {
				m := gen.Mutate(c.Rand, s)
				if r := refParse(m); r.Verdict == ref.WF {
					c.Seen(shape(r.Doc))
					wantStream(c, m, r.Doc, 1)
				}
			}
		}),
	}
	// white space in elements that are declared in all the ways there are
	space := []string{" ", "\n", "\t \r\n", "x", "<b/>", "<b> </b>", "<p:c>\n</p:c>", "<!--c-->", "<?p?>", "<![CDATA[ ]]>", "&#32;", "&e;"}
	models := []string{"", "ANY", "EMPTY", "(#PCDATA)", "(#PCDATA|b)*", "(b)", "(b|p:c)*", "(b?,p:c+)"}
	pairs := len(models) * len(models)
	ck.Sections = append(ck.Sections, batch("white space", pairs*(12+12*12), pairs*(12+12*12+12*12*12), 100, func(c *Ctx, k int) {
		m, m2 := models[k%len(models)], models[k/len(models)%len(models)]
		k /= pairs
		n := 1
		for k >= pow(12, n) {
			k -= pow(12, n)
			n++
		}
		s := "<!DOCTYPE r [<!ENTITY e ' '>"
		if m != "" {
			s += "<!ELEMENT r " + m + ">"
		}
		if m2 != "" {
			s += "<!ELEMENT b " + m2 + "><!ELEMENT p:c " + m2 + ">"
		}
		s += "]><r xmlns:p='u'>" + words(space, k, n) + "</r>"
		if r := refParse(s); r.Verdict == ref.WF {
			c.Seen(s)
			wantStream(c, s, r.Doc, 1)
		}
	}))
	for _, t := range []struct {
		name          string
		tokens        []string
		quick, deep   int
		before, after string
	}{
		{"content", contentTokens, 2, 3, "<a>", "</a>"},
		{"content-dtd", append([]string{"&e;", "&f;"}, contentTokens...), 2, 3, "<!DOCTYPE a [<!ENTITY e 'x'><!ENTITY f '<b/>y'><!ELEMENT a (b)><!ELEMENT b (#PCDATA)>]><a>", "<b> </b></a>"},
		{"tag", tagTokens, 3, 4, "<a", ">t</a>"},
		{"prolog", miscTokens, 3, 4, "", "<!DOCTYPE a [ ]><?x?><a/><?y?>"},
		{"subset", []string{" ", "<!--c-->", "<?p d?>", "<!ELEMENT a ANY>", "<!ELEMENT b (c,d)>", "<!ATTLIST a b CDATA 'v' c ID #IMPLIED>", "<!ATTLIST a b NMTOKEN ' w '>", "<!ENTITY e 'x&#38;y'>", "<!ENTITY % p 'q'>", "\n"}, 3, 5, "<!DOCTYPE a [", "]><a><a c='1'/></a>"},
	} {
		t := t
		total, deep := 0, 0
		for i := 0; i <= t.deep; i++ {
			if i <= t.quick {
				total += pow(len(t.tokens), i)
			}
			deep += pow(len(t.tokens), i)
		}
		ck.Sections = append(ck.Sections, batch(t.name, total, deep, 100, func(c *Ctx, k int) {
			n := 0
			for k >= pow(len(t.tokens), n) {
				k -= pow(len(t.tokens), n)
				n++
			}
			s := t.before + words(t.tokens, k, n) + t.after
			if r := refParse(s); r.Verdict == ref.WF {
				c.Seen(s)
				wantStream(c, s, r.Doc, 2)
			}
		}))
	}
	register(ck)
}
