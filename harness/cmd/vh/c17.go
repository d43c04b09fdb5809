package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/verif/gen"
	"github.com/lestrrat-go/helium/verif/hx"
	"github.com/lestrrat-go/helium/verif/ref"
)

// lintRun is an execution of helium-lint
type lintRun struct {
	args   []string
	stdin  io.Reader // nil: /dev/null
	file   *os.File  // standard input, instead of stdin
	stdout io.Writer // nil: kept in out
	race   bool
	fds    int    // limit on open files, if not 0
	shell  string // what a shell is to run, "$@" being the command

	out, err bytes.Buffer
	code     int
	timeout  bool
}

const lintTimeout = 45 * time.Second

func (l *lintRun) run(c *Ctx, dir string) bool {
	bin := filepath.Join(verifDir(), ".build", "helium-lint")
	if l.race {
		bin += "-race"
	}
	ctx, cancel := context.WithTimeout(context.Background(), lintTimeout)
	defer cancel()
	sh := l.shell
	if l.fds != 0 {
		sh = fmt.Sprintf(`ulimit -n %d; exec "$@"`, l.fds)
	}
	var cmd *exec.Cmd
	if sh != "" {
		cmd = exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", sh, "sh", bin}, l.args...)...)
	} else {
		cmd = exec.CommandContext(ctx, bin, l.args...)
	}
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOTRACEBACK=single")
	if l.file != nil {
		cmd.Stdin = l.file
	} else if l.stdin != nil {
		cmd.Stdin = l.stdin
	}
	cmd.Stdout = &l.out
	if l.stdout != nil {
		cmd.Stdout = l.stdout
	}
	cmd.Stderr = &l.err
	cmd.WaitDelay = 5 * time.Second
	c.Eval()
	c.Count("commands run", 1)
	err := cmd.Run()
	if ctx.Err() != nil {
		c.Fail("helium-lint %q does not end (%v)", l.args, lintTimeout)
		return false
	}
	if cmd.ProcessState == nil {
		panic(fmt.Sprintf("can't run %s: %v", bin, err))
	}
	l.code = cmd.ProcessState.ExitCode()
	if e := l.err.String(); strings.Contains(e, "DATA RACE") || strings.Contains(e, "panic:") || strings.Contains(e, "fatal error:") || l.code != 0 && l.code != 1 {
		c.Fail("helium-lint %q crashes (exit status %d): %q", l.args, l.code, head(e, 3000))
		return false
	}
	c.Count(fmt.Sprintf("exit status %d", l.code), 1)
	return true
}

// want checks what was printed, and the exit status
func (l *lintRun) want(c *Ctx, out string, ok bool) {
	if got := l.out.String(); got != out {
		c.Fail("helium-lint %q printed something else: %s\nstandard error: %q", l.args, firstDiff(out, got), head(l.err.String(), 500))
		return
	}
	if ok {
		if l.code != 0 {
			c.Fail("helium-lint %q: exit status %d, though all is well: %q", l.args, l.code, head(l.err.String(), 500))
		} else if l.err.Len() > 0 {
			c.Fail("helium-lint %q: diagnostics, though all is well: %q", l.args, head(l.err.String(), 500))
		}
		return
	}
	if l.code != 1 {
		c.Fail("helium-lint %q: exit status %d, though something failed", l.args, l.code)
	} else if strings.TrimSpace(l.err.String()) == "" {
		c.Fail("helium-lint %q: no diagnostic", l.args)
	}
}

// lintFile is an input, and what is printed for it
type lintFile struct {
	name string
	text string
	out  string
	ok   bool
	kind string
}

func scratch() string {
	d, err := os.MkdirTemp("", "vh-c17-")
	if err != nil {
		panic(err)
	}
	return d
}

func put(dir, name, text string) {
	if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0o600); err != nil {
		panic(err)
	}
}

// lintText sets what is to be printed for a text
func lintText(c *Ctx, f *lintFile) {
	doc, err := helium.Parse([]byte(f.text))
	r := refParse(f.text)
	if err != nil || doc == nil {
		if r.Verdict == ref.WF {
			c.Fail("well-formed document rejected: %v", err)
		}
		f.kind = "rejected"
		return
	}
	if r.Verdict == ref.NotWF {
		c.Fail("accepted though not well-formed: %s (offset %d)", r.Msg, r.Pos)
	}
	f.out, err = doc.XMLString()
	if err != nil {
		f.out = ""
		f.kind = "not serialisable"
		return
	}
	f.ok = true
	f.kind = "accepted"
	if r.Verdict == ref.WF {
		r2 := refParse(f.out)
		if r2.Verdict == ref.NotWF {
			c.Fail("what is to be printed is not well-formed: %s\n%q", r2.Msg, head(f.out, 1000))
		} else if r2.Verdict == ref.WF {
			if d := hx.Diff(hx.RefDoc(r.Doc), hx.RefDoc(r2.Doc)); d != "" {
				c.Fail("what is to be printed is another document: %s\n%q", d, head(f.out, 1000))
			}
		}
	}
}

// lintTexts are documents that must not have anything to do with each other
var lintTexts = []string{
	"<r/>", "<?xml version='1.0'?><r/>", "<?xml version='1.0' standalone='yes'?>\n<r>\n  <a> </a>\n</r>\n\n",
	"<!DOCTYPE r [<!ENTITY e 'one'><!ATTLIST r a CDATA 'x' id ID #IMPLIED>]><r id='i'>&e;</r>",
	"<!DOCTYPE r [<!ENTITY e 'two'><!ATTLIST r a CDATA 'y' b NMTOKENS ' p  q '>]><r>&e;</r>", "<r>&e;</r>",
	"<r xml:id='i'/>", "<p:r xmlns:p='u'><p:a/></p:r>", "<p:r/>", "<r xmlns='u'><a xmlns=''/></r>", "<r xml:space='preserve'> </r>",
	"<?xml version='1.0' encoding='iso-8859-1'?><r>\u00e9</r>", "<?xml version='1.0' encoding='iso-8859-1'?><r>\xe9</r>", "<?xml version='1.0' encoding='no-such'?><r/>", "<r>\xff</r>",
	"", " ", "\n<?xml version='1.0'?><r/>", "no XML", "<r>", "<r/><r/>", "<r a='1' a='2'/>", "<r>&undefined;</r>", "<!-- c --><?pi d?><r/><!-- c -->", "\ufeff<r/>", "<r>]]&gt;<![CDATA[ ]] ]]></r>", "<r>100%s %d%n</r>", "<r a='%!s(MISSING)'>%%</r>",
	"<r>\r\n</r>", "<r>&#13;&#9;</r>", "<r a='&#10;&lt;&quot;'/>", "<r", "<r>\x00</r>", "\x00", "<?xml version='1.0'", "<!DOCTYPE r", "<!DOCTYPE r [", "--version", "<\u00e9l\u00e9ment/>",
}

func lintInput(c *Ctx, name string) lintFile {
	f := lintFile{name: name}
	switch c.N(8) {
	case 0, 1, 2:
		f.text = lintTexts[c.N(len(lintTexts))]
	case 3:
		f.text = gen.Mutate(c.Rand, gen.Doc(c.Rand, gen.Random(c.Rand)))
	case 4:
		if c.P(1, 6) {
			// more than what fits in a pipe
			n := 20000 + c.N(200000)
			f.text = "<big>" + strings.Repeat(c.Pick("0123456789\n", "<x/>", "<y a='b'>&amp;</y>", "\u00e9"), n/8) + "</big>"
			if c.P(1, 3) {
				f.text = f.text[:len(f.text)-c.N(7)]
			}
			c.Count("large inputs", 1)
			break
		}
		fallthrough
	default:
		f.text, _ = genWF(c, gen.Random(c.Rand))
	}
	lintText(c, &f)
	return f
}

// lintNames are names of files; those with an initial hyphen need a --
var lintNames = []string{"a.xml", "b", "c c.xml", "d%s%d.xml", "-", "-x.xml", "--version", "--", "e\nf.xml", "\u00e9.xml", "sub/g.xml", "./h.xml", "sub/../i.xml", "*.xml", "=", "\xff.xml"}

// lintList makes files, and what is printed for them up to the first that fails
func lintList(c *Ctx, dir string, n int, good int) (files []lintFile, out string, ok bool) {
	os.Mkdir(filepath.Join(dir, "sub"), 0o700)
	byName := map[string]lintFile{}
	ok = true
	for i := 0; i < n; i++ {
		var f lintFile
		switch k := c.N(12); {
		case k == 0 && c.N(100) >= good:
			switch c.N(8) {
			case 0:
				f = lintFile{name: "missing.xml", kind: "missing"}
			case 1:
				f = lintFile{name: "sub", kind: "directory"}
			case 2:
				f = lintFile{name: "", kind: "empty name"}
			case 3:
				f = lintFile{name: strings.Repeat("n", 300), kind: "name too long"}
			case 4:
				put(dir, "plain", "<r/>")
				f = lintFile{name: "plain/x", kind: "below a file"}
			case 5:
				os.Symlink("loop", filepath.Join(dir, "loop"))
				f = lintFile{name: "loop", kind: "loop"}
			case 6:
				os.Symlink("nowhere", filepath.Join(dir, "dangling"))
				f = lintFile{name: "dangling", kind: "dangling"}
			default:
				f = lintFile{name: "/dev/null", kind: "/dev/null"}
			}
		case k == 1 && len(files) > 0:
			// again
			f = files[c.N(len(files))]
			f.kind = strings.TrimSuffix(f.kind, ", again") + ", again"
		default:
			name := fmt.Sprintf("f%d.xml", i)
			if c.P(1, 4) {
				name = lintNames[c.N(len(lintNames))]
			}
			if g, have := byName[name]; have {
				f = g
				break
			}
			for {
				f = lintInput(c, name)
				if f.ok || c.N(100) >= good {
					break
				}
			}
			if c.P(1, 10) {
				put(dir, "target"+fmt.Sprint(i), f.text)
				os.Symlink(filepath.Join(dir, "target"+fmt.Sprint(i)), filepath.Join(dir, name))
			} else {
				put(dir, name, f.text)
			}
			byName[name] = f
		}
		files = append(files, f)
		c.Count("input "+f.kind, 1)
		if ok {
			if f.ok {
				out += f.out
			} else {
				ok = false
			}
		}
	}
	return
}

func lintArgs(c *Ctx, files []lintFile) (args []string) {
	var opts []string
	for c.P(1, 3) {
		opts = append(opts, c.Pick("--format", "--noblanks"))
	}
	hyphen := false
	for _, f := range files {
		hyphen = hyphen || strings.HasPrefix(f.name, "-")
	}
	if hyphen || c.P(1, 6) {
		args = append(opts, "--")
		for _, f := range files {
			args = append(args, f.name)
		}
		return
	}
	for _, f := range files {
		args = append(args, f.name)
	}
	for _, o := range opts {
		// an option may be anywhere
		at := c.N(len(args) + 1)
		args = append(args[:at], append([]string{o}, args[at:]...)...)
	}
	return
}

func describe(files []lintFile) string {
	var b strings.Builder
	for _, f := range files {
		fmt.Fprintf(&b, "%q (%s): %q\n", f.name, f.kind, head(f.text, 3000))
	}
	return b.String()
}

// dribble is a reader that gives its data in pieces
type dribble struct {
	s     string
	r     *gen.Rand
	sleep bool
}

func (d *dribble) Read(b []byte) (int, error) {
	if d.s == "" {
		return 0, io.EOF
	}
	if d.sleep && d.r.P(1, 4) {
		time.Sleep(time.Duration(d.r.N(3000)) * time.Microsecond)
	}
	n := 1 + d.r.N(len(d.s))
	if d.r.P(1, 3) {
		n = 1 + d.r.N(8)
	}
	if n > len(b) {
		n = len(b)
	}
	if n > len(d.s) {
		n = len(d.s)
	}
	copy(b, d.s[:n])
	d.s = d.s[n:]
	return n, nil
}

// slowly reads what the command writes through a pipe, in pieces
func slowly(c *Ctx, l *lintRun, dir string) bool {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	got := make(chan []byte)
	rnd := gen.NewRand(c.seed, c.id, 1)
	go func() {
		var b []byte
		buf := make([]byte, 5000)
		for i := 0; ; i++ {
			if i < 20 {
				time.Sleep(time.Duration(rnd.N(3000)) * time.Microsecond)
			}
			n, err := r.Read(buf[:1+rnd.N(5000)])
			b = append(b, buf[:n]...)
			if err != nil {
				break
			}
		}
		got <- b
	}()
	l.stdout = w
	ok := l.run(c, dir)
	w.Close()
	if !ok {
		r.Close()
		return false
	}
	l.out.Write(<-got)
	r.Close()
	return true
}

// lintFiles runs the command on files
func lintFiles(c *Ctx, race bool) {
	dir := scratch()
	defer os.RemoveAll(dir)
	n := 1 + c.N(6)
	if c.P(1, 10) {
		n = 20 + c.N(30)
	}
	files, out, ok := lintList(c, dir, n, []int{0, 60, 95}[c.N(3)])
	l := &lintRun{args: lintArgs(c, files), race: race}
	c.Input(fmt.Sprintf("helium-lint %q\n%s", l.args, describe(files)))
	if c.Failed() {
		return
	}
	// the files are what counts, if there are any
	if c.P(1, 3) {
		l.stdin = strings.NewReader("<stdin/>")
	}
	if c.P(1, 4) {
		if !slowly(c, l, dir) {
			return
		}
	} else if !l.run(c, dir) {
		return
	}
	l.want(c, out, ok)
	var key strings.Builder
	for _, f := range files {
		key.WriteString(f.kind + ";")
	}
	c.Seen(key.String())
	c.Sample(fmt.Sprintf("helium-lint %q: exit status %d, %d bytes printed", l.args, l.code, len(out)))
}

// lintStdin runs the command on standard input
func lintStdin(c *Ctx, race bool) {
	dir := scratch()
	defer os.RemoveAll(dir)
	f := lintInput(c, "stdin")
	l := &lintRun{race: race}
	for c.P(1, 3) {
		l.args = append(l.args, c.Pick("--format", "--noblanks"))
	}
	how := c.N(5)
	c.Input(fmt.Sprintf("helium-lint %q, standard input %d (%s): %q", l.args, how, f.kind, f.text))
	if c.Failed() {
		return
	}
	switch how {
	case 0, 1:
		l.stdin = &dribble{f.text, gen.NewRand(c.seed, c.id, 2), len(f.text) < 3000}
	case 2:
		l.stdin = strings.NewReader(f.text)
	case 3:
		put(dir, "in", f.text)
		fh, err := os.Open(filepath.Join(dir, "in"))
		if err != nil {
			panic(err)
		}
		defer fh.Close()
		l.file = fh
	default:
		// part of the file has been read already
		put(dir, "in", "skipped"+f.text)
		fh, err := os.Open(filepath.Join(dir, "in"))
		if err != nil {
			panic(err)
		}
		defer fh.Close()
		io.ReadFull(fh, make([]byte, 7))
		l.file = fh
	}
	if !l.run(c, dir) {
		return
	}
	l.want(c, f.out, f.ok)
	c.Seen(fmt.Sprint("stdin", how, f.kind, len(f.text)))
	c.Count("standard input "+f.kind, 1)
}

// lintSpecial are fixed situations
var lintSpecial = []struct {
	name string
	run  func(c *Ctx, dir string)
}{
	{"standard input closed", func(c *Ctx, dir string) {
		l := &lintRun{shell: `exec "$@" <&-`}
		if l.run(c, dir) {
			l.want(c, "", false)
		}
	}},
	{"standard input is /dev/null", func(c *Ctx, dir string) {
		l := &lintRun{}
		if l.run(c, dir) {
			l.want(c, "", false)
		}
	}},
	{"standard input is a directory", func(c *Ctx, dir string) {
		l := &lintRun{shell: `exec "$@" < .`}
		if l.run(c, dir) {
			l.want(c, "", false)
		}
	}},
	{"standard output is full", func(c *Ctx, dir string) {
		put(dir, "a.xml", "<r>"+strings.Repeat("<x/>", c.N(3)*5000)+"</r>")
		l := &lintRun{shell: `exec "$@" > /dev/full`, args: []string{"a.xml", "a.xml"}}
		if l.run(c, dir) {
			l.want(c, "", false)
		}
	}},
	{"standard output is closed", func(c *Ctx, dir string) {
		put(dir, "a.xml", "<r/>")
		// a file that is opened may get the number of standard output: do
		// not write to it
		l := &lintRun{shell: `exec "$@" >&-`, args: []string{"a.xml"}}
		if l.run(c, dir) && l.out.Len() > 0 {
			c.Fail("output to closed standard output: %q", l.out.String())
		}
		if b, err := os.ReadFile(filepath.Join(dir, "a.xml")); err != nil || string(b) != "<r/>" {
			c.Fail("the input file has changed: %q, %v", b, err)
		}
	}},
	{"reader of standard output goes away", func(c *Ctx, dir string) {
		put(dir, "a.xml", "<r>"+strings.Repeat("0123456789", 100000)+"</r>")
		l := &lintRun{shell: `"$@" | head -c 10`, args: []string{"a.xml", "a.xml", "a.xml"}}
		if l.run(c, dir) && l.out.String() != "<?xml vers" {
			c.Fail("printed %q", head(l.out.String(), 100))
		}
	}},
	{"bad option", func(c *Ctx, dir string) {
		put(dir, "a.xml", "<root-element/>")
		bad := c.Pick("--no-such", "-x", "--format=yes", "--versio", "--noblanks=1", "-format", "--no-blanks", "--FORMAT")
		l := &lintRun{args: []string{"a.xml", bad}}
		if c.P(1, 2) {
			l.args = []string{bad, "a.xml"}
		}
		if !l.run(c, dir) {
			return
		}
		if l.code != 1 || l.out.Len()+l.err.Len() == 0 || strings.Contains(l.out.String(), "root-element") {
			c.Fail("helium-lint %q: exit status %d, %q, %q", l.args, l.code, l.out.String(), l.err.String())
		}
	}},
	{"version", func(c *Ctx, dir string) {
		put(dir, "a.xml", "<root-element/>")
		l := &lintRun{args: []string{"--version"}}
		if c.P(1, 2) {
			l.args = append(l.args, c.Pick("a.xml", "missing", "--format"))
		}
		if l.run(c, dir) {
			l.want(c, "helium-lint: using helium version "+helium.Version+"\n", true)
		}
	}},
	{"standard input is a terminal", func(c *Ctx, dir string) {
		pty, tty, err := openPty()
		if err != nil {
			c.Count("no terminal", 1)
			return
		}
		defer pty.Close()
		defer tty.Close()
		l := &lintRun{file: tty}
		if !l.run(c, dir) {
			return
		}
		if l.code != 1 || !strings.Contains(l.out.String()+l.err.String(), "helium-lint") {
			c.Fail("no files and a terminal: exit status %d, %q, %q", l.code, l.out.String(), l.err.String())
		}
		put(dir, "a.xml", "<r/>")
		f := lintFile{text: "<r/>"}
		lintText(c, &f)
		l = &lintRun{file: tty, args: []string{"a.xml"}}
		if l.run(c, dir) {
			l.want(c, f.out, true)
		}
	}},
	{"many files, few file descriptors", func(c *Ctx, dir string) {
		f := lintFile{text: "<r/>"}
		lintText(c, &f)
		l := &lintRun{fds: 16 + c.N(10)}
		var out strings.Builder
		for i := 0; i < 60+c.N(60); i++ {
			name := fmt.Sprint(i)
			put(dir, name, "<r/>")
			l.args = append(l.args, name)
			out.WriteString(f.out)
		}
		if c.P(1, 3) {
			l.args = append(l.args, "missing")
		}
		if l.run(c, dir) {
			l.want(c, out.String(), l.args[len(l.args)-1] != "missing")
		}
	}},
	{"many arguments", func(c *Ctx, dir string) {
		f := lintFile{text: "<r/>"}
		lintText(c, &f)
		l := &lintRun{}
		put(dir, "a", "<r/>")
		put(dir, "bad", "<r>")
		n := 500 + c.N(1500)
		for i := 0; i < n; i++ {
			l.args = append(l.args, "a")
		}
		if !c.P(1, 2) {
			l.args[n/2] = c.Pick("bad", "missing")
			if l.run(c, dir) {
				l.want(c, strings.Repeat(f.out, n/2), false)
			}
		} else if l.run(c, dir) {
			l.want(c, strings.Repeat(f.out, n), true)
		}
	}},
	{"FIFO", func(c *Ctx, dir string) {
		f := lintInput(c, "fifo")
		g := lintInput(c, "g")
		c.Input(fmt.Sprintf("FIFO: %q, then %q", f.text, g.text))
		path := filepath.Join(dir, "fifo")
		if err := syscall.Mkfifo(path, 0o600); err != nil {
			c.Count("no FIFO", 1)
			return
		}
		// what is opened for reading and writing can't block
		fh, err := os.OpenFile(path, os.O_RDWR, 0)
		if err != nil {
			panic(err)
		}
		put(dir, "g", g.text)
		done := make(chan bool)
		d := &dribble{f.text, gen.NewRand(c.seed, c.id, 3), len(f.text) < 3000}
		go func() {
			w, err := os.OpenFile(path, os.O_WRONLY, 0)
			if err == nil {
				time.Sleep(20 * time.Millisecond)
				io.Copy(w, d)
				// not before it has been read
				for i := 0; i < 400; i++ {
					if n, err := pending(fh); err != nil || n == 0 {
						break
					}
					time.Sleep(5 * time.Millisecond)
				}
				w.Close()
			}
			fh.Close()
			done <- true
		}()
		l := &lintRun{args: []string{"fifo", "g"}}
		ok := l.run(c, dir)
		<-done
		if !ok {
			return
		}
		out := f.out
		if f.ok {
			out += g.out
		}
		l.want(c, out, f.ok && g.ok)
	}},
}

func pending(f *os.File) (int, error) {
	rc, err := f.SyscallConn()
	if err != nil {
		return 0, err
	}
	var n int32
	var e syscall.Errno
	err = rc.Control(func(fd uintptr) {
		_, _, e = syscall.Syscall(syscall.SYS_IOCTL, fd, 0x541b /* FIONREAD */, uintptr(unsafe.Pointer(&n)))
	})
	if err == nil && e != 0 {
		err = e
	}
	return int(n), err
}

func openPty() (pty, tty *os.File, err error) {
	pty, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return
	}
	var n, unlock int32
	var e syscall.Errno
	rc, err := pty.SyscallConn()
	if err == nil {
		err = rc.Control(func(fd uintptr) {
			if _, _, e = syscall.Syscall(syscall.SYS_IOCTL, fd, syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&unlock))); e == 0 {
				_, _, e = syscall.Syscall(syscall.SYS_IOCTL, fd, syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n)))
			}
		})
	}
	if err == nil && e != 0 {
		err = e
	}
	if err == nil {
		tty, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	}
	if err != nil {
		pty.Close()
	}
	return
}

func init() {
	ck := &Check{ID: "C17",
		Rule: "a case is an execution of the built command; distinct by the sequence of what its inputs are. Standard output must be the serialised documents up to the first failure, byte for byte, and the exit status and diagnostics must tell whether there was one; it must not crash, race or hang.",
		Assumptions: []string{
			"the checks run as root: files without read permission are not among the unreadable inputs (directories, loops, missing files and files below files are)",
			"the expected text is what the library's XMLString gives for a document, which an independent parser reads again",
		}}
	ck.Sections = []Section{
		{Name: "files", Quick: 700, Thorough: 20000, Run: func(c *Ctx, i int) { lintFiles(c, false) }},
		{Name: "stdin", Quick: 400, Thorough: 10000, Run: func(c *Ctx, i int) { lintStdin(c, false) }},
		{Name: "race", Quick: 80, Thorough: 2500, Run: func(c *Ctx, i int) {
			if i%4 == 0 {
				lintStdin(c, true)
			} else {
				lintFiles(c, true)
			}
		}},
		{Name: "special", Quick: 14 * len(lintSpecial), Thorough: 120 * len(lintSpecial), Run: func(c *Ctx, i int) {
			s := lintSpecial[i%len(lintSpecial)]
			c.Input(s.name)
			dir := scratch()
			defer os.RemoveAll(dir)
			s.run(c, dir)
			c.Seen(s.name)
			c.Count("situation: "+s.name, 1)
		}},
		{Name: "texts", Quick: len(lintTexts), Thorough: len(lintTexts) * len(lintTexts), Run: func(c *Ctx, i int) {
			// each on its own, or each pair
			dir := scratch()
			defer os.RemoveAll(dir)
			f := lintFile{name: "f", text: lintTexts[i%len(lintTexts)]}
			g := lintFile{name: "g", text: lintTexts[i/len(lintTexts)]}
			c.Input(fmt.Sprintf("%q, %q", f.text, g.text))
			lintText(c, &f)
			lintText(c, &g)
			put(dir, "f", f.text)
			put(dir, "g", g.text)
			l := &lintRun{args: []string{"f", "g", "f"}}
			if c.Failed() || !l.run(c, dir) {
				return
			}
			out := f.out
			if f.ok {
				out += g.out
				if g.ok {
					out += f.out
				}
			}
			l.want(c, out, f.ok && g.ok)
			c.Seen(f.text + "\x00" + g.text)
		}},
	}
	register(ck)
}
