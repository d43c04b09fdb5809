package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	_ "embed"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"
	"sync"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/encoding"
	"github.com/lestrrat-go/helium/verif/gen"
	"github.com/lestrrat-go/helium/verif/hx"
	"github.com/lestrrat-go/helium/verif/ref"
)

//go:embed tables/tables.gz
var tablesGz []byte

// table is what an encoding can represent
type table struct {
	name    string
	enc     map[rune]string // how a character is encoded
	dec     map[string]rune
	chars   []rune // beyond ASCII
	invalid []string
}

var (
	tableOnce sync.Once
	tables    map[string]*table
	encNames  []string
)

// other names of the same encodings
var encAliases = map[string]string{"utf8": "utf-8", "shift-jis": "shift_jis", "shiftjis": "shift_jis", "cp932": "shift_jis", "jis": "iso-2022-jp", "koir8u": "koi8u"}

func loadTables() {
	tables = map[string]*table{}
	z, err := gzip.NewReader(bytes.NewReader(tablesGz))
	if err != nil {
		fatal(err)
	}
	in := bufio.NewScanner(z)
	for in.Scan() {
		f := strings.Fields(in.Text())
		t := tables[f[0]]
		if t == nil {
			t = &table{name: f[0], enc: map[rune]string{}, dec: map[string]rune{}}
			tables[f[0]] = t
		}
		b, _ := hex.DecodeString(f[1])
		u, _ := hex.DecodeString(f[2])
		r, _ := utf8.DecodeRune(u)
		t.dec[string(b)] = r
		// of several ways, any will do
		if _, ok := t.enc[r]; !ok && ref.IsChar(r) {
			t.enc[r] = string(b)
			if r >= 0x80 {
				t.chars = append(t.chars, r)
			}
		}
	}
	for name, t := range tables {
		if name == "iso-2022-jp" || name == "hz-gb2312" {
			for r := rune(9); r < 0x80; r++ {
				if ref.IsChar(r) {
					t.enc[r] = string(r)
				}
			}
		}
		sort.Slice(t.chars, func(i, j int) bool { return t.chars[i] < t.chars[j] })
		switch name {
		case "euc-jp", "shift_jis", "big5", "euc-kr":
			t.invalid = []string{"\xff", "\xa4<", "\xb0 ", "\x81\x20"}
			if name == "shift_jis" {
				t.invalid = []string{"\xff", "\xfd", "\x81\x20", "\xe0\x01", "\x85\xff"}
			}
		case "iso-2022-jp":
			t.invalid = []string{"\xff", "\x80", "\x1b$B\x7f\x7f\x1b(B", "\xe9"}
		case "hz-gb2312":
			t.invalid = []string{"\xff", "\x80", "~{\x7f\x7f~}"}
		case "koi8u": // what is missing from the table here is disputed, not undefined
		default:
			for i := 0xA0; i < 256; i++ {
				if _, ok := t.dec[string([]byte{byte(i)})]; !ok {
					t.invalid = append(t.invalid, string([]byte{byte(i)}))
				}
			}
		}
		encNames = append(encNames, name)
	}
	u := &table{name: "utf-8", invalid: []string{"\xff", "\xfe", "\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80", "\xe2\x82", "\xc3", "\xf0\x9f\x98", "\xef\xbf\xbe", "\xef\xbf\xbf"}}
	for _, r := range []rune{0x80, 0x85, 0xA0, 0xE9, 0xFF, 0x100, 0x7FF, 0x800, 0x2028, 0x20AC, 0x4E00, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0x10000, 0x1F600, 0x10FFFF, 0x3B1, 0x416} {
		u.chars = append(u.chars, r)
	}
	tables["utf-8"] = u
	encNames = append(encNames, "utf-8", "utf-8", "utf-8")
	sort.Strings(encNames)
}

// has is true if the encoding can represent r
func (t *table) has(r rune) bool {
	if t.enc == nil {
		return true
	}
	_, ok := t.enc[r]
	return ok
}

// encode encodes s. Everything in it must be representable
func (t *table) encode(s string) string {
	if t.enc == nil {
		return s
	}
	var b strings.Builder
	shifted := false
	out, back := "", ""
	switch t.name {
	case "iso-2022-jp":
		out, back = "\x1b$B", "\x1b(B"
	case "hz-gb2312":
		out, back = "~{", "~}"
	}
	for _, r := range s {
		e, ok := t.enc[r]
		if !ok {
			panic(fmt.Sprintf("%s: %U", t.name, r))
		}
		if out != "" {
			if wide := r >= 0x80; wide != shifted {
				if wide {
					b.WriteString(out)
				} else {
					b.WriteString(back)
				}
				shifted = wide
			}
			if r == '~' && t.name == "hz-gb2312" {
				e = "~~"
			}
		}
		b.WriteString(e)
	}
	if shifted {
		b.WriteString(back)
	}
	return b.String()
}

func caseOf(c *Ctx, s string) string {
	switch c.N(4) {
	case 0:
		return s
	case 1:
		return strings.ToUpper(s)
	}
	b := []byte(s)
	for i := range b {
		if c.P(1, 2) {
			b[i] = strings.ToUpper(string(b[i : i+1]))[0]
		}
	}
	return string(b)
}

// called returns one of the names of an encoding
func called(c *Ctx, name string) string {
	names := []string{name}
	for a, n := range encAliases {
		if n == name {
			names = append(names, a)
		}
	}
	sort.Strings(names)
	return caseOf(c, names[c.N(len(names))])
}

// wantEncoded compares the tree of s, which has been encoded, with the one of its UTF-8 form u
func wantEncoded(c *Ctx, t *table, s, u, name string) {
	r := ref.Parse([]byte(u), ref.Options{AnyEncoding: true})
	if r.Verdict == ref.Skip {
		c.Count("skipped", 1)
		return
	}
	c.Seen(s)
	if r.Verdict == ref.NotWF {
		c.Count("not well-formed", 1)
		wantReject(c, s, r)
		return
	}
	c.Count("documents in "+t.name, 1)
	doc := wantTree(c, s, r.Doc)
	if doc == nil {
		return
	}
	if doc.Encoding() != name && !(name == "" && doc.Encoding() == "utf8") {
		c.Fail("encoding of the document is %q, want %q", doc.Encoding(), name)
		return
	}
	rec, _, err := record(c, s, hx.AllCallbacks, false)
	if err != nil {
		c.Fail("rejected with a handler: %s", oneLine(err))
		return
	}
	if d := hx.Diff(hx.RefStream(r.Doc), hx.Stream(rec.Events)); d != "" {
		c.Fail("events differ: %s", d)
		return
	}
	// what is written can be read
	out, err := doc.XMLString()
	if err != nil {
		c.Fail("not serialised: %s", oneLine(err))
		return
	}
	doc2, err := parse(c, out)
	if err != nil {
		c.Fail("serialised as %q, which is rejected: %s", head(out, 600), oneLine(err))
		return
	}
	if d := hx.Diff(hx.RefDoc(r.Doc), hx.Doc(doc2)); d != "" {
		c.Fail("serialised as %q: %s", head(out, 600), d)
	}
}

// wantUnreadable makes sure that s is rejected
func wantUnreadable(c *Ctx, what, s string) {
	c.Seen(s)
	c.Count("rejected: "+what, 1)
	doc, err := parse(c, s)
	if err == nil && doc != nil {
		c.Fail("accepted, although %s", what)
		return
	}
	p := helium.NewParser()
	p.SetSAXHandler(hx.NewRecorder(uint(c.N(hx.AllCallbacks+1)), nil))
	c.Eval()
	if _, err := p.Parse([]byte(s)); err == nil {
		c.Fail("accepted with a handler, although %s", what)
	}
}

func encTable(i int) *table {
	tableOnce.Do(loadTables)
	return tables[encNames[i%len(encNames)]]
}

// template puts text in many places
func template(name string, text, safe string, nm string) string {
	return "<?xml version='1.0' encoding='" + name + "'?><!DOCTYPE r [<!ENTITY e \"" + safe + "\"><!ATTLIST r d CDATA '" + safe + "'><!--" + safe + "--><?q " + safe + "?>]>\n<!--" + safe + "--><r a='" + safe + "' b=\"" + safe + "\">" + text + "<" + nm + " " + nm + "='" + safe + "'>&e;" + safe + "</" + nm + "><![CDATA[" + safe + "]]><?p " + safe + "?></r><!--" + safe + "-->"
}

// supportedNames returns all names of encodings that the documentation of the encoding package lists
func supportedNames() []string {
	supported := []string{"utf8", "utf-8", "euc-jp", "shift_jis", "shift-jis", "shiftjis", "cp932", "jis", "iso-2022-jp", "big5", "euc-kr", "hz-gb2312", "cp437", "cp866", "koi8r", "koi8u", "koir8u", "macintosh", "macintoshcyrillic", "windows874", "xuserdefined"}
	for _, i := range []int{1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 14, 15, 16} {
		supported = append(supported, fmt.Sprintf("iso-8859-%d", i))
	}
	for i := 1250; i <= 1258; i++ {
		supported = append(supported, fmt.Sprintf("windows%d", i))
	}
	return supported
}

func init() {
	// the number of chunks is known only when the tables are loaded
	const chunk = 40
	type part struct {
		name string
		from int
	}
	var parts []part
	partsOnce := sync.Once{}
	loadParts := func() {
		tableOnce.Do(loadTables)
		seen := map[string]bool{}
		for _, n := range encNames {
			if seen[n] {
				continue
			}
			seen[n] = true
			for i := 0; i < len(tables[n].chars); i += chunk {
				parts = append(parts, part{n, i})
			}
		}
	}
	utf := func(s string, le, bom bool) string {
		var b []byte
		u := utf16.Encode([]rune(s))
		if bom {
			u = append([]uint16{0xFEFF}, u...)
		}
		for _, x := range u {
			if le {
				b = append(b, byte(x), byte(x>>8))
			} else {
				b = append(b, byte(x>>8), byte(x))
			}
		}
		return string(b)
	}
	ucs4 := func(s string, order [4]uint, bom bool) string {
		var b []byte
		u := []rune(s)
		if bom {
			u = append([]rune{0xFEFF}, u...)
		}
		for _, x := range u {
			for _, o := range order {
				b = append(b, byte(x>>o))
			}
		}
		return string(b)
	}
	supported := supportedNames()
	unsupported := []string{"utf-16", "UTF-16LE", "utf-16be", "utf16", "ucs-4", "UCS-2", "utf-32", "utf-7", "ebcdic", "ebcdic-cp-us", "nonsense", "x", "utf-9", "utf-8x", "iso-8859-99", "iso-10646-ucs-4", "ISO-10646-UCS-2", "scsu", "cesu-8"}

	ck := &Check{ID: "C12",
		Rule:        "a case is a document in some encoding, distinct by its bytes. Tables made from the codecs of another language say how its characters are encoded (all of them, in all supported encodings); the tree and the events are compared with those of the UTF-8 form according to the reference parser. Undecodable bytes are injected everywhere",
		Assumptions: []string{"the tables hold the mappings on which Python's codecs and golang.org/x/text agree", "helium uses golang.org/x/text, of the version in its go.mod, which is not under test"},
	}
	ck.Sections = []Section{
		// every character of every encoding, in every place
		{Name: "repertoire", Quick: 60, Thorough: 60, Run: func(c *Ctx, i int) {
			partsOnce.Do(loadParts)
			for k := i; k < len(parts); k += 60 {
				t := tables[parts[k].name]
				end := parts[k].from + chunk
				if end > len(t.chars) {
					end = len(t.chars)
				}
				var text strings.Builder
				nm := "n"
				for _, r := range t.chars[parts[k].from:end] {
					text.WriteRune(r)
					if c.P(1, 3) {
						text.WriteString(c.Pick("a", " ", "~", "\\", "1", "]"))
					}
					if ref.IsNameStart(r) || ref.IsNameChar(r) {
						nm += string(r)
					}
					c.Count("characters", 1)
				}
				name := called(c, t.name)
				u := template(name, text.String()+"&lt;"+text.String(), text.String(), nm)
				wantEncoded(c, t, t.encode(u), u, name)
				if c.Failed() {
					return
				}
			}
		}},
		// every byte on its own, in the single byte encodings
		batch("bytes", 256*37, 256*37, 100, func(c *Ctx, k int) {
			t := encTable(k / 256)
			b := byte(k)
			r, ok := t.dec[string([]byte{b})]
			if !ok || !ref.IsChar(r) || strings.ContainsRune("<&\r\"", r) || t.name == "iso-2022-jp" || t.name == "hz-gb2312" {
				return
			}
			c.Count("bytes", 1)
			name := called(c, t.name)
			pre := "<?xml version='1.0' encoding='" + name + "'?>"
			wantEncoded(c, t, pre+"<a b=\"x"+string([]byte{b})+"y\">"+string([]byte{b})+"</a>", pre+"<a b=\"x"+string(r)+"y\">"+string(r)+"</a>", name)
		}),
		batch("documents", 30000, 600000, 50, func(c *Ctx, k int) {
			t := encTable(c.N(1000))
			p := gen.Random(c.Rand)
			p.Decl, p.Encoding, p.BOM = false, false, false
			u := gen.Doc(c.Rand, p)
			// with characters of the encoding
			var b strings.Builder
			for _, r := range u {
				if r >= 0x80 || r < 0x80 && r >= 'a' && c.P(1, 12) {
					x := t.chars[c.N(len(t.chars))]
					if r >= 0x80 && !t.has(r) || c.P(1, 2) && (!ref.IsNameChar(r) || ref.IsNameStart(x)) {
						r = x
					}
				}
				if !t.has(r) {
					r = 'x'
				}
				b.WriteRune(r)
			}
			name := called(c, t.name)
			q := c.Pick("'", "\"")
			u = "<?xml version=" + q + "1.0" + q + c.Pick(" ", "\n", "  ") + "encoding" + c.Pick("=", " = ") + q + name + q + c.Pick("", " ", " standalone='yes'", " standalone='no'") + "?>" + b.String()
			c.Sample(u)
			wantEncoded(c, t, t.encode(u), u, name)
		}),
		// undecodable bytes
		batch("invalid", 30000, 600000, 100, func(c *Ctx, k int) {
			t := encTable(c.N(1000))
			if len(t.invalid) == 0 {
				t = tables["utf-8"]
			}
			text := c.Pick("", "a", "t t", "\n") + string(t.chars[c.N(len(t.chars))])
			name := called(c, t.name)
			u := template(name, text, text, "n")
			if c.P(1, 4) {
				u = "<?xml version='1.0' encoding='" + name + "'?><a>" + text + "</a>" + c.Pick("", "\n", "<!---->")
			}
			if t.name == "utf-8" && c.P(1, 2) { // no declaration
				u = u[strings.Index(u, "?>")+2:]
				u = c.Pick("", "\xef\xbb\xbf") + u
			}
			s := t.encode(u)
			from := 0
			if strings.HasPrefix(s, "<?xml ") {
				from = strings.Index(s, "?>") + 2
			}
			if t.name == "iso-2022-jp" || t.name == "hz-gb2312" {
				// not in the middle of something
				at := []int{from, len(s)}
				for i := from; i < len(s); i++ {
					if strings.HasPrefix(s[i:], "<!--") || strings.HasPrefix(s[i:], "<r") || strings.HasPrefix(s[i:], "</r") {
						at = append(at, i)
					}
				}
				i := at[c.N(len(at))]
				wantUnreadable(c, "undecodable bytes in "+t.name, s[:i]+t.invalid[c.N(len(t.invalid))]+s[i:])
				return
			}
			i := from + c.N(len(s)-from+1)
			for i < len(s) && s[i] >= 0x40 { // a multi-byte character would be something else
				i++
			}
			for i > from && s[i-1] >= 0x80 {
				i--
			}
			bad := t.invalid[c.N(len(t.invalid))]
			if t.name == "utf-8" && c.P(1, 3) && i < len(s) && s[i] >= 0x80 { // a character is cut in two
				bad = s[i : i+1]
			}
			wantUnreadable(c, "undecodable bytes in "+t.name, s[:i]+bad+s[i:])
		}),
		// a byte order mark changes nothing
		batch("bom", 10000, 200000, 50, func(c *Ctx, k int) {
			p := gen.Random(c.Rand)
			p.BOM = false
			p.Encoding = c.P(1, 2)
			s := gen.Doc(c.Rand, p)
			r := refParse(s)
			if r.Verdict == ref.Skip {
				return
			}
			c.Seen(s)
			doc, err := parse(c, s)
			doc2, err2 := parse(c, "\xef\xbb\xbf"+s)
			if (err == nil) != (err2 == nil) {
				c.Fail("error %v, with a byte order mark %v", err, err2)
				return
			}
			if err != nil {
				return
			}
			c.Count("byte order marks", 1)
			if d := hx.Diff(hx.Doc(doc), hx.Doc(doc2)); d != "" {
				c.Fail("with a byte order mark: %s", d)
				return
			}
			if doc.Version() != doc2.Version() || doc.Standalone() != doc2.Standalone() || r.Doc.Encoding != "" && doc.Encoding() != doc2.Encoding() {
				c.Fail("with a byte order mark, the XML declaration says something else")
			}
			if x := "\xef\xbb\xbf" + c.Pick("\xef\xbb\xbf", " \xef\xbb\xbf") + s; refParse(x).Verdict == ref.NotWF {
				wantUnreadable(c, "there are two byte order marks", x)
			}
		}),
		{Name: "names", Quick: 40, Thorough: 400, Run: func(c *Ctx, i int) {
			for _, n := range supported {
				n := caseOf(c, n)
				c.Eval()
				if encoding.Load(n) == nil {
					c.Fail("encoding %s is not known", n)
				}
				c.Count("names", 1)
				q := c.Pick("'", "\"")
				s := "<?xml version='1.0' encoding=" + q + n + q + "?><a>x</a>"
				wantEncoded(c, encTable(0), s, s, n)
				// not quite
				if x := n[:len(n)-1]; x != "" && encoding.Load(x) == nil {
					wantUnreadable(c, "the encoding is not supported", "<?xml version='1.0' encoding='"+x+"'?><a/>")
				}
			}
			for _, n := range unsupported {
				n := caseOf(c, n)
				c.Eval()
				if encoding.Load(n) != nil {
					c.Fail("encoding %s is not one", n)
				}
				for _, pre := range []string{"", "\xef\xbb\xbf"} {
					for _, rest := range []string{"<a/>", "<a>x</a>", "<!DOCTYPE a><a>\xc3\xa9</a>"} {
						wantUnreadable(c, "encoding "+strings.ToLower(n)+" is not supported", pre+"<?xml version='1.0' encoding='"+n+"'?>"+rest)
					}
				}
			}
		}},
		batch("wide", 3000, 60000, 50, func(c *Ctx, k int) {
			p := gen.Random(c.Rand)
			p.BOM, p.Encoding = false, false
			s := gen.Doc(c.Rand, p)
			if c.P(1, 4) {
				s = c.Pick("<a/>", "<?xml version='1.0'?><a/>", "<?xml version='1.0' encoding='utf-16'?><a>x</a>", "<a>", "<", "<?xml version='1.0' encoding='utf-8'?><a>x</a>")
			}
			le, bom := c.P(1, 2), c.P(1, 2)
			wantUnreadable(c, "it is UTF-16", utf(s, le, bom))
			order := [][4]uint{{24, 16, 8, 0}, {0, 8, 16, 24}, {16, 24, 0, 8}, {8, 0, 24, 16}}[c.N(4)]
			wantUnreadable(c, "it is UCS-4", ucs4(s, order, bom))
			if bom && c.P(1, 3) {
				// a mark, and then something that is not in that encoding
				wantUnreadable(c, "it starts with the mark of another encoding", c.Pick("\xfe\xff", "\xff\xfe", "\x00\x00\xfe\xff", "\xff\xfe\x00\x00")+s)
			}
			wantUnreadable(c, "it is EBCDIC", "\x4c\x6f\xa7\x94\x93\x40"+s)
		}),
	}
	register(ck)
}
