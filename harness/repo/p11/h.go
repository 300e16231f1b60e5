package p11

import (
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/mb"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/vfs"
)

// chars are the characters that mean something for the lexer, and some others.
const chars = "a /\"@{}*`\t"

func load(text string) *mb.Result {
	vfs.Reset()
	vfs.Mkdir("model/my_service")
	vfs.Write("model/my_service/v1/all.model", text)
	r := mb.ReadDir("model")
	nd.Assert(!r.Crashed, "reading the model crashes")
	return r
}

func read(text string) *concepts.Version {
	r := load(text)
	nd.Assert(r.Err == nil, "the model is rejected")
	return r.Model.Services()[0].Versions()[0]
}

func blank(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] != ' ' && s[i] != '\t' {
			return false
		}
	}
	return true
}

// The text of the comments is kept.
func CheckText() {
	a := "x" + nd.StringOf("first", 0, nd.Bound("first", 1, 2), chars)
	b := nd.StringOf("second", 0, nd.Bound("second", 1, 1), chars)
	n := nd.Choose("lines", 2) + 1
	text := "// " + a + "\n"
	want := a
	if n == 2 {
		text += "// " + b + "\n"
		want += "\n" + b
	}
	v := read(text + "class Car {\n}\nresource Root {\n}\n")
	nd.Reach("read")
	nd.Assert(v.FindType(names.ParseUsingCase("Car")).Doc() == want, "the documentation isn't the text of the comment")
}

// Blank lines and indentation: all the lines lose the indentation of the first one that has text.
func CheckIndentation() {
	lines := []string{"", " ", "  ", " a", "  a", "a", "\ta", " \ta", "   a"}
	n := nd.Choose("lines", nd.Bound("lines", 3, 4)) + 1
	text := ""
	var content []string
	for i := 0; i < n; i++ {
		l := lines[nd.Choose("line", len(lines))]
		content = append(content, l)
		text += "//" + l + "\n"
	}
	prefix := content[0]
	for _, l := range content {
		if !blank(l) {
			prefix = l[:len(l)-1]
			break
		}
	}
	valid, want := true, ""
	for i, l := range content {
		if i > 0 {
			want += "\n"
		}
		switch {
		case len(l) >= len(prefix) && l[:len(prefix)] == prefix:
			want += l[len(prefix):]
		case blank(l):
		default:
			valid = false
		}
	}
	r := load(text + "class Car {\n}\nresource Root {\n}\n")
	nd.Observe("error", r.Err == nil)
	nd.Assert((r.Err == nil) == valid, "comments with different indentation are accepted, or valid ones are rejected")
	if valid {
		nd.Reach("valid")
		doc := r.Model.Services()[0].Versions()[0].FindType(names.ParseUsingCase("Car")).Doc()
		nd.Observe("doc", doc)
		nd.Assert(doc == want, "the documentation isn't the text of the comment without the indentation")
	} else {
		nd.Reach("rejected")
	}
}

const places = 11

// place generates a source with something before each declaration, and gives their documentation.
func place(before [places]string) (text string, docs func(v *concepts.Version) [places]string) {
	i := 0
	decl := func(line string) {
		text += before[i] + line + "\n"
		i++
	}
	line := func(line string) { text += line + "\n" }
	decl("enum Color {")
	decl("\tRed")
	line("\tGreen")
	line("}")
	decl("class Car {")
	decl("\tID String")
	line("\tSize Integer")
	line("}")
	decl("struct Wheel {")
	decl("\tSize Integer")
	line("}")
	decl("resource Root {")
	decl("\tmethod Paint {")
	decl("\t\tin Color Color")
	line("\t}")
	decl("\tlocator Next {")
	line("\t\ttarget Other")
	line("\t}")
	line("}")
	line("resource Other {")
	line("}")
	decl("error Failed {")
	line("\tcode 1")
	line("}")
	find := names.ParseUsingCase
	docs = func(v *concepts.Version) (r [places]string) {
		r[0] = v.FindType(find("Color")).Doc()
		for _, x := range v.FindType(find("Color")).Values() {
			if x.Name().Camel() == "Red" {
				r[1] = x.Doc()
			} else {
				nd.Assert(x.Doc() == "", "a value that isn't documented has documentation")
			}
		}
		r[2] = v.FindType(find("Car")).Doc()
		for _, x := range v.FindType(find("Car")).Attributes() {
			if x.Name().Camel() == "ID" {
				r[3] = x.Doc()
			} else {
				nd.Assert(x.Doc() == "", "an attribute that isn't documented has documentation")
			}
		}
		r[4] = v.FindType(find("Wheel")).Doc()
		r[5] = v.FindType(find("Wheel")).Attributes()[0].Doc()
		root := v.FindResource(find("Root"))
		r[6] = root.Doc()
		r[7] = root.Methods()[0].Doc()
		r[8] = root.Methods()[0].Parameters()[0].Doc()
		r[9] = root.Locators()[0].Doc()
		r[10] = v.FindError(find("Failed")).Doc()
		nd.Assert(v.FindResource(find("Other")).Doc() == "", "a resource that isn't documented has documentation")
		return
	}
	return
}

// Each comment documents the declaration that it precedes, and only that one.
func CheckPlace() {
	i := nd.Choose("first", places)
	j := nd.Choose("second", places)
	var before, want [places]string
	before[j] = "// Second.\n"
	want[j] = "Second."
	before[i] = "// First.\n// Other line.\n"
	want[i] = "First.\nOther line."
	// Comments that aren't right before a declaration aren't documentation:
	if i != j {
		switch nd.Choose("kind", 6) {
		case 1:
			before[i], want[i] = before[i]+"\n", ""
		case 2:
			before[i], want[i] = "/* Block. */\n", ""
		case 3:
			before[i] = "// Separated.\n\n" + before[i]
		case 4:
			before[i] = "\n\t" + before[i]
		case 5:
			before[i] += "@annotation\n"
		}
	}
	text, docs := place(before)
	v := read(text)
	nd.Reach("read")
	nd.Assert(docs(v) == want, "the documentation isn't in the declaration that it precedes")
}

// The files don't share their comments.
func CheckFiles() {
	n := nd.Choose("first lines", 3)
	m := nd.Choose("second lines", 3)
	doc := func(n int, text string) (string, string) {
		comment, want := "", ""
		for i := 0; i < n; i++ {
			comment += "// " + text + "\n"
			if i > 0 {
				want += "\n"
			}
			want += text
		}
		return comment, want
	}
	a, wa := doc(n, "first")
	b, wb := doc(m, "second")
	pad := ""
	for i := nd.Choose("pad", 3); i > 0; i-- {
		pad += "\n"
	}
	vfs.Reset()
	vfs.Write("model/my_service/v1/a.model", a+"class A {\n}\n// Lost comment.\n")
	vfs.Write("model/my_service/v1/b.model", pad+b+"class B {\n}\nresource Root {\n}\n// Lost comment.\n")
	vfs.Write("model/my_service/v1/c.model", "\n\n\n\n\n\n\nclass C {\n}\n")
	r := mb.ReadDir("model")
	nd.Assert(!r.Crashed && r.Err == nil, "the model is rejected")
	v := r.Model.Services()[0].Versions()[0]
	nd.Reach("read")
	nd.Assert(v.FindType(names.ParseUsingCase("A")).Doc() == wa, "the documentation isn't the one of the file")
	nd.Assert(v.FindType(names.ParseUsingCase("B")).Doc() == wb, "the documentation isn't the one of the file")
	nd.Assert(v.FindType(names.ParseUsingCase("C")).Doc() == "", "documentation of other file")
}

// References to other services don't change the documentation of the declarations that follow.
func CheckRef() {
	lines := nd.Choose("lines", 3)
	comment := ""
	want := ""
	for i := 0; i < lines; i++ {
		comment += "// line\n"
		if i > 0 {
			want += "\n"
		}
		want += "line"
	}
	pad := ""
	for i := nd.Choose("pad", 4); i > 0; i-- {
		pad += "\n"
	}
	other := ""
	for i := nd.Choose("other", 9); i > 0; i-- {
		other += "// other\n"
	}
	vfs.Reset()
	vfs.Write("model/first_service/v1/a.model", "// The reference.\n@ref(path = \"/second_service/v1/thing\")\nclass Thing {\n}\n"+pad+comment+"class Car {\n}\nresource Root {\n}\n")
	vfs.Write("model/second_service/v1/a.model", "class Thing {\n}\nresource Root {\n}\n")
	vfs.Write("model/second_service/v1/b.model", other)
	r := mb.ReadDir("model")
	nd.Assert(!r.Crashed && r.Err == nil, "the model is rejected")
	v := r.Model.FindService(names.ParseUsingSeparator("first_service", "_")).Versions()[0]
	nd.Reach("read")
	nd.Assert(v.FindType(names.ParseUsingCase("Car")).Doc() == want, "the documentation isn't the one of the file")
}

// The documentation of a declaration that is in one line isn't the one of its first member.
func CheckOneLine() {
	k := nd.Choose("kind", 3)
	text := []string{"// Doc.\nenum Thing { Red }\nresource Root {\n}\n", "// Doc.\nclass Thing { ID String }\nresource Root {\n}\n", "// Doc.\nstruct Thing { ID String }\nresource Root {\n}\n"}[k]
	v := read(text)
	nd.Reach("read")
	nd.Assert(v.FindType(names.ParseUsingCase("Thing")).Doc() == "Doc.", "the documentation of a declaration in one line is given to its first member")
}

// Comments can have many lines.
func CheckLong() {
	n := 70
	text, want := "", ""
	place := nd.Choose("place", 3) * (n - 1) / 2
	for i := 0; i < n; i++ {
		line := "line" + string(rune('a'+i%26))
		if i == place {
			line += nd.StringOf("text", 1, nd.Bound("text", 1, 2), chars) + "."
		}
		text += "// " + line + "\n"
		if i > 0 {
			want += "\n"
		}
		want += line
	}
	v := read(text + "class Car {\n}\nresource Root {\n}\n")
	nd.Reach("read")
	nd.Assert(v.FindType(names.ParseUsingCase("Car")).Doc() == want, "the documentation isn't the text of the comment")
}

// The ends of the lines, the indentation of the declarations, the characters that aren't ASCII and the literals that
// span several lines don't change the documentation.
func CheckLayout() {
	end := []string{"\n", "\r\n"}[nd.Choose("end", 2)]
	indent := []string{"", "\t", "   ", "\t \t"}[nd.Choose("indent", 4)]
	word := []string{"text", "ñandú €", "a // b", "\"x", "tail /*", "*/ head"}[nd.Choose("word", 6)]
	head := []string{"", "@json(name = `a\nb\n`)\nenum Color {\n\tRed\n}\n", "/* a\n// b\n*/\n", "// Lost.\n\n\n"}[nd.Choose("head", 4)]
	lines := nd.Choose("lines", 3) + 1
	text, want := head, ""
	for i := 0; i < lines; i++ {
		text += indent + "// " + word + "\n"
		if i > 0 {
			want += "\n"
		}
		want += word
	}
	text += indent + "class Car {\n" + "\t// " + word + "\n\tlink ID Car\n}\nresource Root {\n}"
	v := read(strings.ReplaceAll(text, "\n", end))
	nd.Reach("read")
	car := v.FindType(names.ParseUsingCase("Car"))
	nd.Assert(car.Doc() == want, "the documentation isn't the text of the comment")
	nd.Assert(car.Attributes()[0].Doc() == word, "the documentation of the attribute isn't the text of the comment")
}
