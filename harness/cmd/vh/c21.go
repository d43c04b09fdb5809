package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/verif/gen"
	"github.com/lestrrat-go/helium/verif/hx"
)

// allOf is all there is to see of what becomes of s
func allOf(s string) string {
	c := newCtx(checks["C21"], 1, "quick")
	var b strings.Builder
	func() {
		defer func() {
			if e := recover(); e != nil {
				fmt.Fprintf(&b, "panic: %v\n", e)
			}
		}()
		doc, err := helium.Parse([]byte(s))
		fmt.Fprintf(&b, "parse: document %v, error %v\n", doc != nil, err)
		if err == nil && doc != nil {
			for _, l := range hx.Doc(doc) {
				b.WriteString(l + "\n")
			}
			fmt.Fprintf(&b, "links: %s\n", hx.Links(doc))
			out, err := doc.XMLString()
			fmt.Fprintf(&b, "text: %q, error %v\n", out, err)
		}
	}()
	for _, tee := range []bool{false, true} {
		func() {
			defer func() {
				if e := recover(); e != nil {
					fmt.Fprintf(&b, "panic: %v\n", e)
				}
			}()
			r, doc, err := record(c, s, hx.AllCallbacks, tee)
			fmt.Fprintf(&b, "events: document %v, error %v\n", doc != nil, err)
			for _, e := range r.Events {
				fmt.Fprintf(&b, "%s %s\n", e.Kind, e.Text)
			}
		}()
	}
	return b.String()
}

type caseRequest struct {
	Check, Section string
	Index          int
	Seed           int64
}

// outcomeOf is what a case of another check reports
func outcomeOf(r caseRequest) string {
	ck := checks[r.Check]
	for i := range ck.Sections {
		if s := &ck.Sections[i]; s.Name == r.Section {
			c := newCtx(ck, r.Seed, "quick")
			runCase(c, s, r.Index)
			b := ""
			for _, f := range c.fails {
				// stacks have addresses in them
				b += strings.SplitN(f.Msg, "\n", 2)[0] + "\n" + f.Quoted + "\n"
			}
			return b
		}
	}
	return "no such section"
}

// answer reads requests from standard input, and answers them on descriptor 3
func answer() {
	out := os.NewFile(3, "answers")
	hdr := make([]byte, 5)
	for {
		if _, err := io.ReadFull(os.Stdin, hdr); err != nil {
			return
		}
		b := make([]byte, binary.LittleEndian.Uint32(hdr[1:]))
		if _, err := io.ReadFull(os.Stdin, b); err != nil {
			return
		}
		var a string
		if hdr[0] == 'd' {
			a = allOf(string(b))
		} else {
			var r caseRequest
			if err := json.Unmarshal(b, &r); err != nil {
				fatal(err)
			}
			a = outcomeOf(r)
		}
		var n [4]byte
		binary.LittleEndian.PutUint32(n[:], uint32(len(a)))
		if _, err := out.Write(append(n[:], a...)); err != nil {
			return
		}
	}
}

// build is a process that answers
type build struct {
	name string
	env  []string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *os.File
	errs *bytes.Buffer
}

var builds = []*build{
	{name: "vh"},
	{name: "vh-debug", env: []string{"PDEBUG_TRACE=0"}},
	{name: "vh-debug", env: []string{"PDEBUG_TRACE=1"}},
	{name: "vh-386"},
}

func (b *build) start() error {
	b.cmd = exec.Command(filepath.Join(verifDir(), ".build", b.name), "answer", "C21")
	b.cmd.Env = append(append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single"), b.env...)
	b.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	b.errs = &bytes.Buffer{}
	b.cmd.Stderr = b.errs
	r, w, err := os.Pipe()
	if err != nil {
		return err
	}
	b.cmd.ExtraFiles = []*os.File{w}
	b.out = r
	if b.in, err = b.cmd.StdinPipe(); err != nil {
		return err
	}
	err = b.cmd.Start()
	w.Close()
	return err
}

func (b *build) stop() {
	b.cmd.Process.Kill()
	b.cmd.Wait()
	b.out.Close()
	b.cmd = nil
}

// ask returns the answer, or what became of the process
func (b *build) ask(kind byte, req string) string {
	if b.cmd == nil {
		if err := b.start(); err != nil {
			fatal(err)
		}
	}
	msg := make([]byte, 5, 5+len(req))
	msg[0] = kind
	binary.LittleEndian.PutUint32(msg[1:], uint32(len(req)))
	b.out.SetReadDeadline(time.Now().Add(50 * time.Second))
	_, err := b.in.Write(append(msg, req...))
	var n [4]byte
	if err == nil {
		_, err = io.ReadFull(b.out, n[:])
	}
	var a []byte
	if err == nil {
		a = make([]byte, binary.LittleEndian.Uint32(n[:]))
		_, err = io.ReadFull(b.out, a)
	}
	if err == nil {
		return string(a)
	}
	if os.IsTimeout(err) {
		b.stop()
		return "no answer"
	}
	b.stop()
	return "died: " + strings.SplitN(head(b.errs.String(), 300), "\n", 2)[0]
}

var run386 int // 1: 32-bit programs can be run, 2: they can not

func can386() bool {
	if run386 == 0 {
		run386 = 1
		if err := exec.Command(filepath.Join(verifDir(), ".build", "vh-386"), "answer", "C21").Run(); err != nil {
			run386 = 2
		}
	}
	return run386 == 1
}

// compare asks the builds the same, and compares the answers
func compare(c *Ctx, kind byte, req string) {
	c.Eval()
	want := builds[0].ask(kind, req)
	k := 1 + c.N(3)
	if k == 3 && !can386() {
		c.Count("32-bit programs do not run here", 1)
		k = 1
	}
	got := builds[k].ask(kind, req)
	what := strings.Join(append([]string{builds[k].name}, builds[k].env...), " ")
	c.Count(what, 1)
	if got != want {
		w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
		for i := 0; ; i++ {
			var x, y string
			if i < len(w) {
				x = w[i]
			}
			if i < len(g) {
				y = g[i]
			}
			if x != y {
				c.Fail("another build (%s) behaves differently: %q, where the normal one has %q", what, head(y, 600), head(x, 600))
				return
			}
		}
	}
	if strings.HasPrefix(want, "parse: document true") {
		c.Count("accepted", 1)
		c.Seen(want)
	} else if kind == 'd' {
		c.Count("rejected", 1)
		if i := strings.IndexByte(want, '\n'); i > 0 {
			c.Seen(want[:i])
		}
	} else {
		c.Count("cases of other checks", 1)
		c.Seen(req)
	}
}

func init() {
	tokens := []string{"<a", ">", "/>", "</a>", " x='1'", " xmlns:p='u'", "<p:b", "&lt;", "&e;", "&#65;", "x", "<!--c-->", "<?p d?>", "<![CDATA[d]]>", "\n", "<!DOCTYPE a [<!ENTITY e '<b/>'>]>", "\x00", "&#x110041;", "&#4294967361;", "&#x100000041;", "&#18446744073709551681;"}
	ck := &Check{ID: "C21",
		Rule: "a case is a document, or a case of another check (trees that are built and edited, tables of declarations, encodings, ...), that is handed to the harness in a normal build and in another one (with the debug tag, with and without tracing, or for a 32-bit platform); what they have to say about it is compared: the verdict and the message, the tree, the serialised document, the events",
	}

	ck.Sections = []Section{
		batch("small", pow(len(tokens), 3), pow(len(tokens), 4), 150, func(c *Ctx, k int) {
			n := 3
			if c.tier == "thorough" {
				n = 4
			}
			s := words(tokens, k, n)
			if k%2 == 0 {
				s = "<a>" + s + "</a>"
			}
			c.Input(s)
			compare(c, 'd', s)
		}),
		batch("documents", 4000, 150000, 40, func(c *Ctx, k int) {
			s := gen.Doc(c.Rand, gen.Random(c.Rand))
			if c.P(1, 2) {
				s = gen.Mutate(c.Rand, s)
			}
			if len(s) > 20000 {
				return
			}
			c.Input(s)
			compare(c, 'd', s)
		}),
		batch("cases of other checks", 1600, 30000, 20, func(c *Ctx, k int) {
			var id string
			for checks[id] == nil {
				id = c.Pick("C01", "C03", "C04", "C05", "C05", "C06", "C07", "C07", "C08", "C09", "C10", "C12", "C13", "C16", "C18", "C19", "C20", "C20")
			}
			o := checks[id]
			s := &o.Sections[c.N(len(o.Sections))]
			if s.CPU != 0 || s.Quick == 0 {
				return
			}
			b, _ := json.Marshal(caseRequest{id, s.Name, c.N(s.Quick), c.seed})
			c.Input(string(b))
			t := time.Now()
			compare(c, 'c', string(b))
			if d := time.Since(t); d > 5*time.Second && os.Getenv("VH_SLOW") != "" {
				fmt.Fprintln(os.Stderr, d, string(b))
			}
		}),
	}
	register(ck)
}
