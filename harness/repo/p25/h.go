package p25

import (
	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/mb"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/vfs"
)

func load(text string) *mb.Result {
	vfs.Reset()
	vfs.Mkdir("model/clusters_mgmt")
	vfs.Write("model/clusters_mgmt/v1/all.model", text)
	r := mb.ReadDir("model")
	nd.Assert(!r.Crashed, "reading the model crashes")
	return r
}

// compare reads the text and checks that the result is the given model.
func compare(text string, v *mb.Version, msg string) {
	r := load(text)
	nd.Assert(r.Err == nil, "the model is rejected")
	got, want := mb.Dump(r.Model), mb.Dump(mb.One(v).Concepts())
	nd.Observe("model", got)
	nd.Reach("read")
	nd.Assert(got == want, msg)
}

// base are the declarations that are always present.
func base(params []*mb.Param, attrs []*mb.Attr) *mb.Version {
	return &mb.Version{
		Types: []*mb.Type{
			{Kind: mb.Enum, Name: "Color", Values: []*mb.Value{{Name: "Red"}, {Name: "DarkBlue"}}},
			{Kind: mb.Class, Name: "Car", Attrs: attrs},
			{Kind: mb.Struct, Name: "Wheel", Attrs: []*mb.Attr{{Name: "Size", Ref: mb.P("Integer")}}},
		},
		Resources: []*mb.Resource{
			{Name: "Root", Locators: []*mb.Locator{{Name: "Cars", Target: "Cars"}}},
			{Name: "Cars", Methods: []*mb.Method{{Name: "PaintAll", Params: params}}},
		},
	}
}

var refs = []mb.Ref{
	mb.P("Boolean"), mb.P("Integer"), mb.P("Long"), mb.P("Float"), mb.P("String"), mb.P("Date"), mb.P("Interface"),
	mb.P("Color"), mb.P("Car"), mb.P("Wheel"),
	mb.L("String"), mb.L("Color"), mb.L("Car"), mb.L("Wheel"), mb.M("String"), mb.M("Color"), mb.M("Car"), mb.M("Wheel"),
}

func refText(r mb.Ref) string {
	switch r.Kind {
	case mb.List:
		return "[]" + r.Name
	case mb.Map:
		return "[" + r.Index + "]" + r.Name
	}
	return r.Name
}

var directions = []struct {
	text    string
	in, out bool
}{{"", false, true}, {"in ", true, false}, {"out ", false, true}, {"in out ", true, true}, {"out in ", true, true}}

// The parameters have the directions, type and name that the source says.
func CheckParameters() {
	ref := refs[nd.Choose("type", len(refs))]
	d := directions[nd.Choose("direction", len(directions))]
	keyword := []string{"", "parameter "}[nd.Choose("keyword", 2)]
	method := []string{"", "method "}[nd.Choose("method keyword", 2)]
	v := base([]*mb.Param{{Name: "First", Ref: ref, In: d.in, Out: d.out}, {Name: "Second", Ref: mb.P("String"), In: true}}, nil)
	text := "enum Color {\nRed\nvalue DarkBlue\n}\nclass Car {\n}\nstruct Wheel {\nattribute Size Integer\n}\n" +
		"resource Root {\nlocator Cars {\ntarget Cars\n}\n}\nresource Cars {\n" + method + "PaintAll {\n" +
		keyword + d.text + "First " + refText(ref) + "\nin Second String\n}\n}\n"
	compare(text, v, "the parameters aren't the ones of the source")
}

// The default values are the ones of the source.
func CheckDefaults() {
	var text string
	var value interface{}
	typ := "Boolean"
	switch nd.Choose("literal", 5) {
	case 0:
		text, value = "true", true
	case 1:
		text, value = "false", false
	case 2:
		digits := nd.StringOf("digits", 1, nd.Bound("digits", 2, 3), "1059")
		switch nd.Choose("size", 3) {
		case 1:
			digits = "214748364" + digits
		case 2:
			nd.Assume(len(digits) == 1 && digits != "9")
			digits = "922337203685477580" + digits
		}
		n := 0
		for i := 0; i < len(digits); i++ {
			n = 10*n + int(digits[i]-'0')
		}
		text, value, typ = digits, n, "Integer"
	case 3:
		s := nd.StringOf("short", 0, nd.Bound("short", 1, 2), "a /{@*`")
		text, value = "\""+s+"\"", s
		typ = "String"
	case 4:
		s := nd.StringOf("long", 0, nd.Bound("long", 1, 2), "a /{@*\"\n\\")
		text, value = "`"+s+"`", s
		typ = "String"
	}
	v := base([]*mb.Param{{Name: "First", Ref: mb.P(typ), In: true, Default: value}}, nil)
	source := "enum Color {\nRed\nDarkBlue\n}\nclass Car {\n}\nstruct Wheel {\nSize Integer\n}\n" +
		"resource Root {\nlocator Cars {\ntarget Cars\n}\n}\nresource Cars {\nmethod PaintAll {\nin First " + typ + " = " + text + "\n}\n}\n"
	compare(source, v, "the default value isn't the one of the source")
}

// The default values and the directions don't depend on each other, nor on the other parameters.
func CheckDirections() {
	d, e := directions[nd.Choose("direction", len(directions))], directions[nd.Choose("other", len(directions))]
	defaults := []struct {
		text, typ string
		value     interface{}
	}{{"", "Long", nil}, {" = false", "Boolean", false}, {" = 0", "Integer", 0}, {" = \"\"", "String", ""}}
	x, y := defaults[nd.Choose("default", len(defaults))], defaults[nd.Choose("other default", len(defaults))]
	v := base([]*mb.Param{{Name: "First", Ref: mb.P(x.typ), In: d.in, Out: d.out, Default: x.value}, {Name: "Second", Ref: mb.P(y.typ), In: e.in, Out: e.out, Default: y.value}}, nil)
	source := "enum Color {\nRed\nDarkBlue\n}\nclass Car {\n}\nstruct Wheel {\nSize Integer\n}\n" +
		"resource Root {\nlocator Cars {\ntarget Cars\n}\n}\nresource Cars {\nmethod PaintAll {\n" + d.text + "First " + x.typ + x.text + "\n" + e.text + "Second " + y.typ + y.text + "\n}\n}\n"
	compare(source, v, "the direction or the default value aren't the ones of the source")
}

// Invalid literals are rejected.
func CheckLiterals() {
	text := []string{`"\q"`, "99999999999999999999", "\"a\nb\"", `"\x"`, "abc", ""}[nd.Choose("literal", 6)]
	r := load("resource Root {\nmethod Paint {\nin First String = " + text + "\n}\n}\n")
	nd.Reach("read")
	nd.Assert(r.Err != nil, "an invalid literal is accepted")
}

// The attributes have the kind, type and name that the source says.
func CheckAttributes() {
	ref := refs[nd.Choose("type", len(refs))]
	kind := nd.Choose("kind", 3)
	class := nd.Choose("class", 2)
	a := &mb.Attr{Name: "First", Ref: ref, Link: kind == 2}
	v := base(nil, []*mb.Attr{{Name: "Other", Ref: mb.P("Integer")}})
	v.Resources[1].Methods = nil
	holder := &mb.Type{Kind: []int{mb.Class, mb.Struct}[class], Name: "Holder", Attrs: []*mb.Attr{a, {Name: "Second", Ref: mb.P("Car")}}}
	v.Types = append(v.Types, holder)
	text := []string{"class", "struct"}[class] + " Holder {\n" + []string{"", "attribute ", "link "}[kind] + "First " + refText(ref) + "\nSecond Car\n}\n" +
		"enum Color {\nRed\nDarkBlue\n}\nclass Car {\nOther Integer\n}\nstruct Wheel {\nSize Integer\n}\n" +
		"resource Root {\nlocator Cars {\ntarget Cars\n}\n}\nresource Cars {\n}\n"
	compare(text, v, "the attributes aren't the ones of the source")
}

// The locators and errors have the members that the source says.
func CheckLocators() {
	variable := nd.Choose("variable", 2) == 1
	first := nd.Choose("variable first", 2) == 1
	target := []string{"Cars", "Wheels"}[nd.Choose("target", 2)]
	digits := nd.StringOf("code", 1, nd.Bound("code", 1, 2), "0459")
	if nd.Bool("big code") {
		digits = "214748364" + digits
	}
	code := 0
	for i := 0; i < len(digits); i++ {
		code = 10*code + int(digits[i]-'0')
	}
	body := ""
	if variable && first {
		body += "variable ID\n"
	}
	body += "target " + target + "\n"
	if variable && !first {
		body += "variable ID\n"
	}
	v := &mb.Version{
		Resources: []*mb.Resource{
			{Name: "Root", Locators: []*mb.Locator{{Name: "Next", Target: target, Variable: variable}, {Name: "Other", Target: "Wheels"}}},
			{Name: "Cars"}, {Name: "Wheels"},
		},
		Errors: []*mb.Error{{Name: "Failed", Code: code}, {Name: "AlsoFailed", Code: 7}},
	}
	text := "error Failed {\ncode " + digits + "\n}\nerror AlsoFailed {\ncode 7\n}\nresource Root {\nlocator Next {\n" + body + "}\nlocator Other {\ntarget Wheels\n}\n}\nresource Cars {\n}\nresource Wheels {\n}\n"
	compare(text, v, "the locators or errors aren't the ones of the source")
}

const places = 11

// The annotations are the ones of the source, in the declaration where they are.
func CheckAnnotations() {
	place := nd.Choose("place", places)
	kind := nd.Choose("kind", 7)
	texts := []string{"", "@x\n", "@x()\n", "@x(a = 12)\n", "@x(a = true b = \"t u\")\n", "@x(c = \"1\" b = false a = 0)\n", "@x(a = 1) @y(a = 2)\n@z\n"}
	anns := [][]*mb.Ann{
		nil, {{Name: "x"}}, {{Name: "x"}},
		{{Name: "x", Params: []mb.AnnParam{{"a", 12}}}},
		{{Name: "x", Params: []mb.AnnParam{{"a", true}, {"b", "t u"}}}},
		{{Name: "x", Params: []mb.AnnParam{{"c", "1"}, {"b", false}, {"a", 0}}}},
		{{Name: "x", Params: []mb.AnnParam{{"a", 1}}}, {Name: "y", Params: []mb.AnnParam{{"a", 2}}}, {Name: "z"}},
	}
	text := func(i int) string {
		if i == place {
			return texts[kind]
		}
		if (i+1)%places == place {
			return "@other(a = 5)\n"
		}
		return ""
	}
	ann := func(i int) []*mb.Ann {
		if i == place {
			return anns[kind]
		}
		if (i+1)%places == place {
			return []*mb.Ann{{Name: "other", Params: []mb.AnnParam{{"a", 5}}}}
		}
		return nil
	}
	v := &mb.Version{
		Types: []*mb.Type{
			{Kind: mb.Enum, Name: "Color", Anns: ann(0), Values: []*mb.Value{{Name: "Red", Anns: ann(1)}, {Name: "Green"}}},
			{Kind: mb.Class, Name: "Car", Anns: ann(2), Attrs: []*mb.Attr{{Name: "Size", Ref: mb.P("Integer"), Anns: ann(3)}, {Name: "Weight", Ref: mb.P("Integer")}}},
			{Kind: mb.Struct, Name: "Wheel", Anns: ann(4), Attrs: []*mb.Attr{{Name: "Size", Ref: mb.P("Integer"), Anns: ann(5)}}},
		},
		Resources: []*mb.Resource{
			{Name: "Root", Anns: ann(6),
				Methods:  []*mb.Method{{Name: "PaintAll", Anns: ann(7), Params: []*mb.Param{{Name: "Color", Ref: mb.P("Color"), In: true, Anns: ann(8)}}}},
				Locators: []*mb.Locator{{Name: "Cars", Target: "Cars", Anns: ann(9)}}},
			{Name: "Cars"},
		},
		Errors: []*mb.Error{{Name: "Failed", Code: 1, Anns: ann(10)}},
	}
	source := text(0) + "enum Color {\n" + text(1) + "Red\nGreen\n}\n" + text(2) + "class Car {\n" + text(3) + "Size Integer\nWeight Integer\n}\n" +
		text(4) + "struct Wheel {\n" + text(5) + "Size Integer\n}\n" + text(6) + "resource Root {\n" + text(7) + "method PaintAll {\n" + text(8) + "in Color Color\n}\n" +
		text(9) + "locator Cars {\ntarget Cars\n}\n}\nresource Cars {\n}\n" + text(10) + "error Failed {\ncode 1\n}\n"
	compare(source, v, "the annotations aren't the ones of the source")
}

// Identifiers are split in words.
func CheckIdentifiers() {
	const first = "aBc_"
	const rest = "aBc1"
	id := nd.StringOf("head", 1, 1, first[:3]) + nd.StringOf("tail", 0, nd.Bound("tail", 2, 3), rest)
	r := load("class Car {\n" + id + " String\n}\nresource Root {\n}\n")
	nd.Assert(r.Err == nil, "the model is rejected")
	v := r.Model.Services()[0].Versions()[0]
	attrs := v.FindType(names.ParseUsingCase("Car")).Attributes()
	nd.Assert(len(attrs) == 1, "there isn't exactly one attribute")
	nd.Reach("read")
	nd.Assert(attrs[0].Name().Equals(names.ParseUsingCase(id)), "the name of the attribute isn't the one of the source")
}

// Sources with syntax errors are rejected, wherever the error is.
func CheckSyntax() {
	tokens := []string{"enum", "Color", "{", "Red", "}", "class", "Car", "{", "link", "Owner", "Person", "Sizes", "[", "]", "Integer", "}",
		"class", "Person", "{", "}", "resource", "Root", "{", "method", "Paint", "{", "in", "Color", "Color", "=", "1", "}", "locator", "Cars", "{", "target", "Root2", "}", "}", "resource", "Root2", "{", "}"}
	i := nd.Choose("token", len(tokens))
	bad := []string{"?", ")", "=", "\""}[nd.Choose("bad", 4)]
	text := ""
	for j, t := range tokens {
		if j == i {
			text += bad + " "
		}
		text += t + " "
	}
	var r *mb.Result
	crashed := nd.Panics(func() { r = loadAny(text) })
	nd.Reach("read")
	nd.Assert(!crashed && !r.Crashed, "a source with a syntax error crashes the reader")
	nd.Assert(r.Err != nil, "a source with a syntax error is accepted")
}

func loadAny(text string) *mb.Result {
	vfs.Reset()
	vfs.Write("model/clusters_mgmt/v1/all.model", text)
	return mb.ReadDir("model")
}

var _ *concepts.Model

var containers = []mb.Ref{
	mb.L("String"), mb.L("Color"), mb.L("Wheel"), mb.M("String"), mb.M("Color"), mb.M("Wheel"),
	{Kind: mb.Map, Index: "Long", Name: "String"}, {Kind: mb.Map, Index: "Long", Name: "Wheel"}, {Kind: mb.Map, Index: "Color", Name: "Wheel"},
}

// Lists and maps have the index and element that the source says, whatever other lists and maps there are, and
// are never replaced by types that have the name of the list or map.
func CheckContainers() {
	a, b := containers[nd.Choose("first", len(containers))], containers[nd.Choose("second", len(containers))]
	name := []string{"", "WheelList", "StringWheelMap", "LongWheelMap", "ColorList", "StringStringMap"}[nd.Choose("name", 6)]
	v := &mb.Version{
		Types: []*mb.Type{
			{Kind: mb.Enum, Name: "Color", Values: []*mb.Value{{Name: "Red"}}},
			{Kind: mb.Struct, Name: "Wheel", Attrs: []*mb.Attr{{Name: "Size", Ref: mb.P("Integer")}}},
			{Kind: mb.Class, Name: "Holder", Attrs: []*mb.Attr{{Name: "First", Ref: a}, {Name: "Second", Ref: b}}},
		},
		Resources: []*mb.Resource{{Name: "Root"}},
	}
	text := "class Holder {\nFirst " + refText(a) + "\nSecond " + refText(b) + "\n}\n"
	common := "enum Color {\nRed\n}\nstruct Wheel {\nSize Integer\n}\nresource Root {\n}\n"
	if name != "" {
		v.Types = append(v.Types, &mb.Type{Kind: mb.Class, Name: name, Attrs: []*mb.Attr{{Name: "Round", Ref: mb.P("Boolean")}}})
		extra := "class " + name + " {\nRound Boolean\n}\n"
		if nd.Bool("before") {
			text = extra + text
		} else {
			text += extra
		}
	}
	text += common
	used := false
	for _, r := range []mb.Ref{a, b} {
		used = used || name != "" && name == []string{r.Name, r.Name + "List", r.Index + r.Name + "Map"}[r.Kind]
	}
	if used {
		nd.Assert(load(text).Err != nil, "a list or map is replaced by other type of the same name")
		return
	}
	compare(text, v, "the lists or maps aren't the ones of the source")
}

// word is a different word for each number.
func word(i int) string { return string(rune('A'+i/26)) + string(rune('a'+i%26)) + "x" }

//verif:steps=400000000
// Large models, with many declarations, members, annotations and documentation, are read completely.
func CheckLarge() {
	n := []int{2, nd.Bound("declarations", 9, 15)}[nd.Choose("declarations", 2)]
	m := []int{3, nd.Bound("members", 13, 33)}[nd.Choose("members", 2)]
	s := "a{"
	if n == 2 {
		s = nd.StringOf("s", 1, 1, "a @{/")
	}
	anns := func(i int) []*mb.Ann {
		switch i % 5 {
		case 1:
			return mb.Named("json", "j"+word(i)+s)
		case 3:
			return []*mb.Ann{
				{Name: "http", Params: []mb.AnnParam{{Name: "name", Value: "h" + word(i)}, {Name: "a", Value: i}, {Name: "b", Value: i%2 == 0}}},
				{Name: "json", Params: []mb.AnnParam{{Name: "name", Value: s}}},
				{Name: "go", Params: []mb.AnnParam{{Name: "c", Value: -0}}},
			}
		}
		return nil
	}
	doc := func(i int) string {
		switch i % 3 {
		case 1:
			return "Documentation of " + word(i) + "."
		case 2:
			return "First " + word(i) + ".\n\nSecond.\nThird."
		}
		return ""
	}
	ref := func(i int) mb.Ref {
		other := mb.P("Class" + word((i*7)%n))
		if i%4 == 0 {
			other.Name = "Struct" + word((i*5)%n)
		} else if i%4 == 1 {
			other.Name = "Enum" + word((i*3)%n)
		} else if i%4 == 2 {
			other.Name = []string{"String", "Integer", "Boolean", "Date", "Long", "Float"}[i/4%6]
		}
		if i%5 == 1 {
			other.Kind = mb.List
		} else if i%7 == 3 {
			other.Kind, other.Index = mb.Map, "String"
		}
		return other
	}
	v := &mb.Version{}
	root := &mb.Resource{Name: "Root"}
	v.Resources = append(v.Resources, root)
	for i := 0; i < n; i++ {
		c := &mb.Type{Kind: mb.Class, Name: "Class" + word(i), Doc: doc(i + 1), Anns: anns(i)}
		t := &mb.Type{Kind: mb.Struct, Name: "Struct" + word(i), Doc: doc(i + 2), Anns: anns(i + 1)}
		e := &mb.Type{Kind: mb.Enum, Name: "Enum" + word(i), Doc: doc(i), Anns: anns(i + 2)}
		r := &mb.Resource{Name: "Res" + word(i), Doc: doc(i), Anns: anns(i)}
		for j := 0; j < m; j++ {
			c.Attrs = append(c.Attrs, &mb.Attr{Name: "Attr" + word(j), Ref: ref(i + j), Doc: doc(i + j), Anns: anns(j)})
			t.Attrs = append(t.Attrs, &mb.Attr{Name: "Attr" + word(j), Ref: ref(i + j + 1), Doc: doc(i + j + 1), Anns: anns(j + 1)})
			e.Values = append(e.Values, &mb.Value{Name: "Value" + word(j), Doc: doc(j), Anns: anns(i + j)})
		}
		for j := 0; j < m/3; j++ {
			action := &mb.Method{Name: "Do" + word(j), Doc: doc(j), Anns: anns(j)}
			for k := 0; k <= j; k++ {
				action.Params = append(action.Params, &mb.Param{Name: "Param" + word(k), Ref: ref(i + j + k), In: k%3 != 0, Out: k%3 != 1, Doc: doc(k), Anns: anns(j + k)})
			}
			r.Methods = append(r.Methods, action)
		}
		root.Locators = append(root.Locators, &mb.Locator{Name: "Loc" + word(i), Target: "Res" + word(i), Doc: doc(i), Anns: anns(i)})
		for j := i + 1; j < n && j < i+3; j++ {
			r.Locators = append(r.Locators, &mb.Locator{Name: "Next" + word(j), Target: "Res" + word(j), Variable: j%2 == 0, Doc: doc(j), Anns: anns(j)})
		}
		v.Types = append(v.Types, c, t, e)
		v.Resources = append(v.Resources, r)
		v.Errors = append(v.Errors, &mb.Error{Name: "Error" + word(i), Code: 1 + i*17, Doc: doc(i)})
	}
	compare(v.Text(), v, "a large model isn't the one of the source")
}
