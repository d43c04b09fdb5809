package main

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"strconv"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
	"github.com/lestrrat-go/helium/verif/gen"
	"github.com/lestrrat-go/helium/verif/hx"
	"github.com/lestrrat-go/helium/verif/ref"
)

type customErr struct{ n int }

func (e *customErr) Error() string { return fmt.Sprintf("custom error %d", e.n) }

// carries is true if err has want in it, one way or another
func carries(err, want error) bool {
	if errors.Is(err, want) {
		return true
	}
	for e, ok := err.(helium.ErrParseError); ok; e, ok = err.(helium.ErrParseError) {
		err = e.Err
		if err == want {
			return true
		}
	}
	return strings.Contains(err.Error(), want.Error())
}

func runRecorder(c *Ctx, s string, mask uint, tee bool, at int, e error) (*hx.Recorder, *helium.Document, error) {
	var tb *helium.TreeBuilder
	if tee {
		tb = helium.NewTreeBuilder()
	}
	r := hx.NewRecorder(mask, tb)
	r.FailAt, r.Err = at, e
	c.Eval()
	p := helium.NewParser()
	p.SetSAXHandler(r)
	doc, err := p.Parse([]byte(s))
	return r, doc, err
}

func evs(r *hx.Recorder, n int) []string {
	var out []string
	for i, e := range r.Events {
		if i == n {
			break
		}
		out = append(out, e.Kind+" "+e.Text)
	}
	return out
}

// wantStop makes the callbacks fail, one after another
func wantStop(c *Ctx, s string, mask uint, tee bool, sample int) {
	c.Input(s)
	full, _, fullErr := runRecorder(c, s, mask, tee, -1, nil)
	n := len(full.Events)
	step := 1
	if n > sample {
		step = n / sample
	}
	for at := 0; at < n; at += step {
		if step > 1 {
			at += c.N(step)
			if at >= n {
				break
			}
		}
		kind := full.Events[at].Kind
		var e error = &customErr{c.N(1000000)}
		switch c.N(8) {
		case 0:
			e = errors.New("marked " + fmt.Sprint(c.N(1000000)))
		case 1:
			e = io.EOF
		case 2:
			e = helium.ErrEntityNotFound
		case 3:
			e = helium.ErrParseError{Err: errors.New("marked")}
		case 4:
			e = fmt.Errorf("wrapped: %w", e)
		}
		r, doc, err := runRecorder(c, s, mask, tee, at, e)
		c.Count("failed "+kind, 1)
		if err == nil {
			c.Fail("%s callback (event %d of %d, callbacks %04x, tee %v) failed with %q, and Parse did not", kind, at, n, mask, tee, e)
			return
		}
		if doc != nil {
			c.Fail("%s callback (event %d) failed, and Parse returned a document", kind, at)
			return
		}
		if !carries(err, e) {
			c.Fail("%s callback (event %d) failed with %q, and Parse with %q", kind, at, e, oneLine(err))
			return
		}
		if r.After > 0 || len(r.Events) != at+1 {
			c.Fail("%d callbacks after the %s callback (event %d, callbacks %04x) failed: %q", r.After, kind, at, mask, r.Events[at+1:])
			return
		}
		if d := hx.Diff(evs(full, at+1), evs(r, -1)); d != "" {
			c.Fail("events before the one that fails (%d) differ: %s", at, d)
			return
		}
		if tee {
			continue
		}
		// this one is as good as none
		r, _, err = runRecorder(c, s, mask, tee, at, sax.ErrHandlerUnspecified)
		if (err == nil) != (fullErr == nil) {
			c.Fail("%s callback (event %d) said it was unspecified: error %v, without that %v", kind, at, err, fullErr)
			return
		}
		if d := hx.Diff(evs(full, -1), evs(r, -1)); d != "" {
			c.Fail("%s callback (event %d) said it was unspecified, events differ: %s", kind, at, d)
			return
		}
	}
}

// sameVerdict makes sure that it does not matter what the handler is
func sameVerdict(c *Ctx, s string) {
	c.Input(s)
	_, _, want := runRecorder(c, s, hx.AllCallbacks, false, -1, nil)
	try := func(what string, h sax.SAX2Handler) {
		p := helium.NewParser()
		p.SetSAXHandler(h)
		c.Eval()
		_, err := p.Parse([]byte(s))
		if (err == nil) != (want == nil) {
			c.Fail("%s: error %v, with all callbacks %v", what, err, want)
		} else if err != nil && err.Error() != want.Error() {
			c.Fail("%s: error %q, with all callbacks %q", what, oneLine(err), oneLine(want))
		}
	}
	try("handler without callbacks", sax.New())
	mask := uint(c.N(hx.AllCallbacks + 1))
	try(fmt.Sprintf("handler with callbacks %04x", mask), hx.NewRecorder(mask, nil))
	if want == nil {
		c.Count("accepted by all handlers", 1)
	} else {
		c.Count("rejected by all handlers", 1)
	}
}

// dispatch calls the methods of a handler the way the parser does: each hands
// its arguments to its own callback, and returns what that returns
func dispatch(c *Ctx, mask uint32) {
	h := sax.New()
	hv := reflect.ValueOf(h).Elem()
	it := reflect.TypeOf((*sax.SAX2Handler)(nil)).Elem()
	var called []string
	var got, ret []reflect.Value
	for i := 0; i < it.NumMethod(); i++ {
		if mask>>uint(i)&1 == 0 {
			continue
		}
		name := it.Method(i).Name
		f := hv.FieldByName(name + "Handler")
		if !f.IsValid() {
			c.Fail("there is no callback for %s", name)
			return
		}
		f.Set(reflect.MakeFunc(f.Type(), func(in []reflect.Value) []reflect.Value {
			called = append(called, name)
			got = in
			return ret
		}))
	}
	value := func(t reflect.Type) reflect.Value {
		switch t {
		case reflect.TypeOf((*error)(nil)).Elem():
			if c.P(1, 2) {
				return reflect.Zero(t)
			}
			return reflect.ValueOf(&customErr{c.N(1000)}).Convert(t)
		case reflect.TypeOf((*sax.Entity)(nil)).Elem():
			return reflect.ValueOf(&foreign{strconv.Itoa(c.N(1000)), "x"}).Convert(t)
		}
		switch t.Kind() {
		case reflect.String:
			return reflect.ValueOf(strconv.Itoa(c.N(1000))).Convert(t)
		case reflect.Int:
			return reflect.ValueOf(c.N(1000)).Convert(t)
		case reflect.Bool:
			return reflect.ValueOf(c.P(1, 2))
		case reflect.Interface:
			if t.NumMethod() == 0 {
				return reflect.ValueOf(strconv.Itoa(c.N(1000))).Convert(t)
			}
		case reflect.Slice:
			v := reflect.MakeSlice(t, c.N(4), 8)
			for i := 0; i < v.Len(); i++ {
				switch e := t.Elem(); e.Kind() {
				case reflect.Uint8:
					v.Index(i).SetUint(uint64(c.N(256)))
				case reflect.Interface:
					if e.NumMethod() == 0 {
						v.Index(i).Set(reflect.ValueOf(strconv.Itoa(c.N(1000))).Convert(e))
					}
				}
			}
			return v
		}
		return reflect.Zero(t)
	}
	for i := 0; i < it.NumMethod(); i++ {
		m := it.Method(i)
		called, got, ret = nil, nil, nil
		var args []reflect.Value
		for k := 0; k < m.Type.NumIn(); k++ {
			args = append(args, value(m.Type.In(k)))
		}
		for k := 0; k < m.Type.NumOut(); k++ {
			ret = append(ret, value(m.Type.Out(k)))
		}
		call := reflect.ValueOf(h).MethodByName(m.Name).Call
		if m.Type.IsVariadic() {
			call = reflect.ValueOf(h).MethodByName(m.Name).CallSlice
		}
		res := call(args)
		c.Count("dispatched calls", 1)
		if mask>>uint(i)&1 == 0 {
			if err, _ := res[len(res)-1].Interface().(error); len(called) > 0 || err != sax.ErrHandlerUnspecified {
				c.Fail("%s without a callback calls %v and returns %v", m.Name, called, err)
				return
			}
			continue
		}
		if len(called) != 1 || called[0] != m.Name {
			c.Fail("%s calls %v", m.Name, called)
			return
		}
		for k := range args {
			if a, b := args[k].Interface(), got[k].Interface(); !reflect.DeepEqual(a, b) {
				c.Fail("%s is called with %#v as its argument %d, and hands on %#v", m.Name, a, k, b)
				return
			}
		}
		for k := range ret {
			if a, b := ret[k].Interface(), res[k].Interface(); !reflect.DeepEqual(a, b) {
				c.Fail("the callback for %s returns %#v, the method %#v", m.Name, a, b)
				return
			}
		}
	}
}

func init() {
	ck := &Check{ID: "C16",
		Rule: "a case is a document and an event of it whose callback fails; distinct by the structure of the document. The monitor looks at the events before and after, and at what Parse returns. Then the same for the value that stands for an absent callback, and for handlers with different callbacks",
	}
	ck.Sections = []Section{
		batch("every", 6000, 120000, 20, func(c *Ctx, k int) {
			s, rd := genWF(c, gen.Random(c.Rand))
			c.Seen(shape(rd))
			c.Sample(s)
			wantStop(c, s, hx.AllCallbacks, false, 60)
		}),
		batch("some", 6000, 120000, 20, func(c *Ctx, k int) {
			s, rd := genWF(c, gen.Random(c.Rand))
			c.Seen(shape(rd))
			wantStop(c, s, uint(c.N(hx.AllCallbacks+1)), false, 30)
		}),
		batch("tee", 4000, 80000, 20, func(c *Ctx, k int) {
			s, rd := genWF(c, gen.Random(c.Rand))
			c.Seen(shape(rd))
			wantStop(c, s, hx.AllCallbacks, true, 30)
		}),
		batch("bad", 4000, 80000, 20, func(c *Ctx, k int) {
			s := gen.Mutate(c.Rand, gen.Doc(c.Rand, gen.Random(c.Rand)))
			if refParse(s).Verdict == ref.NotWF {
				c.Seen(s)
				wantStop(c, s, hx.AllCallbacks, false, 20)
			}
		}),
		batch("dispatch", 2000, 20000, 50, func(c *Ctx, k int) {
			mask := ^uint32(0)
			switch {
			case k < 32:
				mask = 1 << uint(k)
			case k < 64:
				mask ^= 1 << uint(k-32)
			case k > 100:
				mask = uint32(c.N(1<<31-1)) << 1 >> uint(c.N(2))
			}
			c.Eval()
			c.Seen(fmt.Sprintf("dispatch %x", mask))
			dispatch(c, mask)
		}),
		batch("verdict", 60000, 1500000, 50, func(c *Ctx, k int) {
			s := gen.Doc(c.Rand, gen.Random(c.Rand))
			if c.P(2, 3) {
				s = gen.Mutate(c.Rand, s)
			} else if c.P(1, 8) {
				s = gen.Soup(c.Rand, 10)
			}
			c.Seen(s)
			sameVerdict(c, s)
		}),
	}
	register(ck)
}
