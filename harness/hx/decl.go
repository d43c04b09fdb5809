package hx

import (
	"fmt"
	"sort"
	"strings"

	"github.com/lestrrat-go/helium/verif/ref"
)

// Binding returns the declarations that count
func Binding(decls []*ref.Decl) []*ref.Decl {
	var out []*ref.Decl
	for _, d := range decls {
		if !d.Dup {
			out = append(out, d)
		}
	}
	return out
}

// Decl is the canonical form of a declaration, without its content model
func Decl(d *ref.Decl) string {
	switch d.Kind {
	case ref.DElement:
		if d.Type == "MIXED" {
			m := append([]string{}, d.Mixed...)
			sort.Strings(m)
			return fmt.Sprintf("element %s mixed %s", d.Name, strings.Join(m, "|"))
		}
		return fmt.Sprintf("element %s %s", d.Name, d.Type)
	case ref.DAttlist:
		return fmt.Sprintf("attribute %s of %s: %s (%s) %s %s", d.Name, d.Elem, d.Type, strings.Join(d.Enum, "|"), d.Def, pieces(d.Value))
	case ref.DEntity:
		return fmt.Sprintf("entity %s %q", d.Name, d.Text)
	case ref.DPEntity:
		return fmt.Sprintf("parameter entity %s %q", d.Name, d.Text)
	case ref.DComment:
		return fmt.Sprintf("comment %q", d.Data)
	case ref.DPI:
		return fmt.Sprintf("pi %s %q", d.Name, d.Data)
	}
	return "?"
}

// DiffDecls compares what two internal subsets declare
func DiffDecls(want, got []*ref.Decl) string {
	w, g := Binding(want), Binding(got)
	for i := 0; i < len(w) || i < len(g); i++ {
		if i >= len(w) {
			return "declaration too many: " + Decl(g[i])
		}
		if i >= len(g) {
			return "declaration lost: " + Decl(w[i])
		}
		if a, b := Decl(w[i]), Decl(g[i]); a != b {
			return fmt.Sprintf("declaration %d: want %s, got %s", i, clip(a), clip(b))
		}
		if w[i].Model != nil {
			if path, ok := ref.Equivalent(w[i].Model, g[i].Model, 3000); !ok {
				return fmt.Sprintf("content model of %s: %s and %s differ for children %q", w[i].Name, w[i].Model, g[i].Model, path)
			}
		}
	}
	return ""
}
