// Keeps the lines of gen.py that golang.org/x/text agrees with (for a few
// characters, there is no agreement on what their mapping is)
package main

import (
	"bufio"
	"encoding/hex"
	"fmt"
	"os"
	"strings"

	enc "golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/korean"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/traditionalchinese"
)

var all = map[string]enc.Encoding{
	"cp437": charmap.CodePage437, "cp866": charmap.CodePage866, "koi8r": charmap.KOI8R, "koi8u": charmap.KOI8U, "macintosh": charmap.Macintosh, "macintoshcyrillic": charmap.MacintoshCyrillic,
	"windows874": charmap.Windows874, "iso-8859-1": charmap.ISO8859_1, "iso-8859-2": charmap.ISO8859_2, "iso-8859-3": charmap.ISO8859_3, "iso-8859-4": charmap.ISO8859_4, "iso-8859-5": charmap.ISO8859_5, "iso-8859-6": charmap.ISO8859_6, "iso-8859-7": charmap.ISO8859_7, "iso-8859-8": charmap.ISO8859_8,
	"iso-8859-10": charmap.ISO8859_10, "iso-8859-13": charmap.ISO8859_13, "iso-8859-14": charmap.ISO8859_14, "iso-8859-15": charmap.ISO8859_15, "iso-8859-16": charmap.ISO8859_16,
	"windows1250": charmap.Windows1250, "windows1251": charmap.Windows1251, "windows1252": charmap.Windows1252, "windows1253": charmap.Windows1253, "windows1254": charmap.Windows1254, "windows1255": charmap.Windows1255, "windows1256": charmap.Windows1256, "windows1257": charmap.Windows1257, "windows1258": charmap.Windows1258,
	"xuserdefined": charmap.XUserDefined, "euc-jp": japanese.EUCJP, "shift_jis": japanese.ShiftJIS, "big5": traditionalchinese.Big5, "euc-kr": korean.EUCKR, "iso-2022-jp": japanese.ISO2022JP, "hz-gb2312": simplifiedchinese.HZGB2312,
}

func main() {
	in := bufio.NewScanner(os.Stdin)
	no := map[string][]string{}
	n := map[string]int{}
	for in.Scan() {
		f := strings.Fields(in.Text())
		b, _ := hex.DecodeString(f[1])
		want, _ := hex.DecodeString(f[2])
		s := string(b)
		switch f[0] {
		case "iso-2022-jp":
			s = "\x1b$B" + s + "\x1b(B"
		case "hz-gb2312":
			s = "~{" + s + "~}"
		}
		got, err := all[f[0]].NewDecoder().String(s)
		if err != nil || got != string(want) {
			no[f[0]] = append(no[f[0]], f[1])
			continue
		}
		n[f[0]]++
		fmt.Println(in.Text())
	}
	for k := range all {
		fmt.Fprintln(os.Stderr, k, n[k], len(no[k]), no[k][:min(len(no[k]), 10)])
	}
}
