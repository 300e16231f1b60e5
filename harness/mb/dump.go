package mb

import (
	"strconv"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
)

// annotationParameters are the names of the parameters of annotations that are compared.
var annotationParameters = []string{"name", "path", "a", "b", "c"}

// Dump gives a text that contains everything that is in the model, except the list types that nothing uses.
func Dump(m *concepts.Model) string {
	text := ""
	for _, s := range m.Services() {
		text += "service " + s.Name().Snake() + "\n"
		for _, v := range s.Versions() {
			text += "version " + v.Name().Snake() + "\n" + DumpVersion(v)
		}
	}
	return text
}

// DumpVersion gives the text of one version.
func DumpVersion(v *concepts.Version) string {
	text := ""
	for _, t := range v.Types() {
		switch t.Kind() {
		case concepts.ClassType:
			text += "class "
		case concepts.StructType:
			text += "struct "
		case concepts.EnumType:
			text += "enum "
		default:
			continue
		}
		text += t.Name().Camel() + common(t, t.Doc())
		if t.Owner() != v {
			text += " wrong owner"
		}
		for _, a := range t.Attributes() {
			text += "\n  " + a.Name().Camel() + " " + dumpRef(v, a.Type())
			if a.Link() {
				text += " link"
			}
			text += common(a, a.Doc())
		}
		for _, x := range t.Values() {
			text += "\n  " + x.Name().Camel() + common(x, x.Doc())
		}
		text += "\n"
	}
	for _, r := range v.Resources() {
		text += "resource " + r.Name().Camel() + common(r, r.Doc()) + "\n"
		for _, m := range r.Methods() {
			text += "  method " + m.Name().Camel() + common(m, m.Doc()) + "\n"
			for _, p := range m.Parameters() {
				text += "    "
				if p.In() {
					text += "in "
				}
				if p.Out() {
					text += "out "
				}
				text += p.Name().Camel() + " " + dumpRef(v, p.Type()) + " = " + dumpValue(p.Default()) + common(p, p.Doc()) + "\n"
			}
		}
		for _, l := range r.Locators() {
			text += "  locator " + l.Name().Camel() + " "
			if l.Variable() {
				text += "variable "
			}
			if l.Target() == nil {
				text += "nil"
			} else {
				text += l.Target().Name().Camel()
				if l.Target().Owner() != v || v.FindResource(l.Target().Name()) != l.Target() {
					text += " of other version"
				}
			}
			text += common(l, l.Doc()) + "\n"
		}
	}
	for _, e := range v.Errors() {
		text += "error " + e.Name().Camel() + " " + strconv.Itoa(e.Code()) + common(e, e.Doc()) + "\n"
	}
	if v.Root() == nil {
		text += "no root\n"
	}
	return text
}

func dumpRef(v *concepts.Version, t *concepts.Type) string {
	if t == nil {
		return "nil"
	}
	text := ""
	switch {
	case t.IsList():
		text = "[]" + dumpRef(v, t.Element())
	case t.IsMap():
		text = "[" + dumpRef(v, t.Index()) + "]" + dumpRef(v, t.Element())
	default:
		text = t.Name().Camel()
	}
	if t.Owner() != v || v.FindType(t.Name()) != t {
		text += "(of other version)"
	}
	return text
}

func dumpValue(x interface{}) string {
	switch v := x.(type) {
	case nil:
		return "nil"
	case bool:
		if v {
			return "bool:true"
		}
		return "bool:false"
	case int:
		return "int:" + strconv.Itoa(v)
	case string:
		return "string:" + v
	}
	return "other"
}

func common(c concepts.Annotated, doc string) string {
	text := " doc:" + doc
	for _, a := range c.Annotations() {
		text += " @" + a.Name()
		for _, n := range annotationParameters {
			if p := a.FindParameter(n); p != nil {
				text += " " + n + "=" + dumpValue(p)
			}
		}
	}
	return text
}
