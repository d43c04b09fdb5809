package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/verif/gen"
	"github.com/lestrrat-go/helium/verif/hx"
	"github.com/lestrrat-go/helium/verif/ref"
)

// parse parses s, and makes sure that there is either a document or an error
func parse(c *Ctx, s string) (*helium.Document, error) {
	c.Input(s)
	c.Eval()
	doc, err := helium.Parse([]byte(s))
	if (doc == nil) == (err == nil) {
		c.Fail("Parse returned document %v and error %v", doc != nil, err)
	}
	if err != nil {
		return nil, err
	}
	return doc, nil
}

func refParse(s string) ref.Result { return ref.Parse([]byte(s), ref.Options{}) }

// wantTree compares what s is parsed into with what it should be
func wantTree(c *Ctx, s string, rd *ref.Doc) *helium.Document {
	doc, err := parse(c, s)
	if err != nil {
		c.Fail("well-formed document rejected: %s", oneLine(err))
		return nil
	}
	if doc == nil {
		return nil
	}
	if d := hx.Diff(hx.RefDoc(rd), hx.Doc(doc)); d != "" {
		c.Fail("tree differs: %s", d)
		return nil
	}
	if m := hx.Links(doc); m != "" {
		c.Fail("links: %s", m)
		return nil
	}
	return doc
}

func wantReject(c *Ctx, s string, r ref.Result) {
	doc, err := parse(c, s)
	if err == nil && doc != nil {
		c.Fail("accepted though not well-formed: %s (offset %d)", r.Msg, r.Pos)
	}
}

func oneLine(err error) string {
	return strings.Replace(err.Error(), "\n", " ", -1)
}

// kinds counts what a document is made of
func kinds(c *Ctx, rd *ref.Doc) {
	for _, e := range rd.Events {
		c.Count("ev:"+e.Kind, 1)
	}
}

// shape is a description of the structure of a document, with the data left out
func shape(rd *ref.Doc) string {
	var b strings.Builder
	for _, e := range rd.Events {
		if len(e.Kind) > 3 {
			b.WriteString(e.Kind[:4])
		} else {
			b.WriteString(e.Kind)
		}
		if e.Node != nil {
			fmt.Fprintf(&b, "%d.%d", len(e.Node.Attrs), len(e.Node.NS))
		}
	}
	return b.String()
}

// genWF returns a well-formed document, as the reference has it
func genWF(c *Ctx, p gen.Profile) (string, *ref.Doc) {
	for {
		s := gen.Doc(c.Rand, p)
		if r := refParse(s); r.Verdict == ref.WF {
			return s, r.Doc
		}
	}
}

// words returns the i-th sequence of n tokens
func words(tokens []string, i, n int) string {
	var b strings.Builder
	for ; n > 0; n-- {
		b.WriteString(tokens[i%len(tokens)])
		i /= len(tokens)
	}
	return b.String()
}

func pow(b, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= b
	}
	return r
}

// batch returns a section that goes over total items, in cases of per items.
func batch(name string, quick, thorough, per int, f func(c *Ctx, k int)) Section {
	return Section{Name: name, Quick: (quick + per - 1) / per, Thorough: (thorough + per - 1) / per, Run: func(c *Ctx, i int) {
		total := thorough
		if quick > total {
			total = quick
		}
		for k := i * per; k < (i+1)*per && k < total; k++ {
			f(c, k)
			if c.Failed() {
				return
			}
		}
	}}
}

var faultNames = regexp.MustCompile(`(duplicate attribute|does not match|entity|prefix|end tag|^element) [^ ]+( |$)`)

// fault is the kind of fault that a message of the reference is about
func fault(msg string) string {
	return "fault: " + faultNames.ReplaceAllString(msg, "$1 *$2")
}
