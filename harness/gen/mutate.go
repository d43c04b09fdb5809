package gen

import "strings"

var tokens = []string{"<", ">", "/>", "</", "&", ";", "&#", "&#x", "<!--", "-->", "--", "<![CDATA[", "]]>", "]]", "]", "<?", "?>", "<!DOCTYPE", "<!ELEMENT", "<!ATTLIST", "<!ENTITY", "[", "(", ")", "|", ",", "?", "*", "+", "%", "%x;", "=", "\"", "'", " ", "\n", "\t", "\r", "\x00", "\x01", "\x0b", "\x1f", "\x7f", "\uFFFE", "\uFFFF", "\xff", "\xc0\x80", "\xed\xa0\x80", "\xe2\x82", "\xf4\x90\x80\x80", "\uFFFD", "\U0010FFFF", "xml", "xmlns", "xmlns:p='u'", "<?xml version='1.0'?>", " a='1'", " p:x='1'", "&lt;", "&amp;", "&#0;", "&#65;", "&#x110000;", "&#xD800;", "&nope;", "#PCDATA", "EMPTY", "ANY", "CDATA", "ID", "#REQUIRED", "#FIXED", "SYSTEM", "PUBLIC", ":", "a", "1", "-", ".", "é", "<a>", "</a>", "<a/>", "<!", "<!-", "]>", "<x", "version='1.0'", "encoding='utf-8'", "standalone='yes'", "\u0300", "\u00b7", "\u037e", "\u2028", "\u0085"}

// Mutate makes a few random changes to a document
func Mutate(r *Rand, s string) string {
	n := 1
	if r.P(1, 4) {
		n += r.N(3)
	}
	for ; n > 0; n-- {
		s = Mutate1(r, s)
	}
	return s
}

// interesting returns an offset in s, preferably next to markup
func interesting(r *Rand, s string) int {
	if r.P(1, 3) || len(s) == 0 {
		return r.N(len(s) + 1)
	}
	for k := 0; k < 20; k++ {
		i := r.N(len(s))
		if strings.IndexByte("<>&;\"'=[](){}|,?!-%/#: \n", s[i]) >= 0 {
			return i + r.N(2)
		}
	}
	return r.N(len(s) + 1)
}

// Mutate1 makes a single change
func Mutate1(r *Rand, s string) string {
	i := interesting(r, s)
	switch r.N(10) {
	case 0, 1: // delete a character
		if i < len(s) {
			return s[:i] + s[i+1:]
		}
		return s
	case 2, 3, 4: // insert a token
		return s[:i] + tokens[r.N(len(tokens))] + s[i:]
	case 5: // replace a character by a token
		if i < len(s) {
			return s[:i] + tokens[r.N(len(tokens))] + s[i+1:]
		}
		return s
	case 6: // duplicate a part
		j := i + r.N(20)
		if j > len(s) {
			j = len(s)
		}
		return s[:j] + s[i:j] + s[j:]
	case 7: // delete a part
		j := i + r.N(12)
		if j > len(s) {
			j = len(s)
		}
		return s[:i] + s[j:]
	case 8: // move a part
		j := i + r.N(12)
		if j > len(s) {
			j = len(s)
		}
		part := s[i:j]
		rest := s[:i] + s[j:]
		k := interesting(r, rest)
		return rest[:k] + part + rest[k:]
	default: // truncate
		if r.P(1, 2) {
			return s[:i]
		}
		if i < len(s) { // flip the case, or a bit
			return s[:i] + string([]byte{s[i] ^ byte(1<<uint(r.N(8)))}) + s[i+1:]
		}
		return s
	}
}

// Soup is a sequence of tokens
func Soup(r *Rand, n int) string {
	var b strings.Builder
	if r.P(1, 2) {
		b.WriteString(r.Pick("<a>", "<a ", "<!DOCTYPE a [", "<?xml version='1.0'?>", "<!DOCTYPE a [<!ENTITY e '", "<a b='"))
	}
	for ; n > 0; n-- {
		b.WriteString(tokens[r.N(len(tokens))])
	}
	return b.String()
}
