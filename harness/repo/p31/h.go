package p31

import (
	"sort"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/generators/golang"
	"github.com/openshift-online/ocm-api-metamodel/pkg/generators/openapi"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/mb"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
	_ "github.com/openshift-online/ocm-api-metamodel/zzverif/tmpl"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/vfs"
)

// generate runs the generators of Go code whose names are given, and returns the text of the generated files.
func generate(m *concepts.Model, what ...string) map[string]string {
	rep, _ := mb.Reporter()
	output := vfs.Mkdir("out")
	packages, err := golang.NewPackagesCalculator().Reporter(rep).Base("example.com/base").Build()
	nd.Assert(err == nil, "can't create the packages calculator")
	names, err := golang.NewNamesCalculator().Reporter(rep).Build()
	nd.Assert(err == nil, "can't create the names calculator")
	types, err := golang.NewTypesCalculator().Reporter(rep).Packages(packages).Names(names).Build()
	nd.Assert(err == nil, "can't create the types calculator")
	binding := mb.Binding()
	for _, x := range what {
		var g interface{ Run() error }
		switch x {
		case "types":
			g, err = golang.NewTypesGenerator().Reporter(rep).Model(m).Output(output).Packages(packages).Names(names).Types(types).Binding(binding).Build()
		case "builders":
			g, err = golang.NewBuildersGenerator().Reporter(rep).Model(m).Output(output).Packages(packages).Names(names).Types(types).Build()
		case "errors":
			g, err = golang.NewErrorsGenerator().Reporter(rep).Model(m).Output(output).Packages(packages).Names(names).Build()
		case "clients":
			g, err = golang.NewClientsGenerator().Reporter(rep).Model(m).Output(output).Packages(packages).Names(names).Types(types).Binding(binding).Build()
		case "json":
			g, err = golang.NewJSONSupportGenerator().Reporter(rep).Model(m).Output(output).Packages(packages).Names(names).Types(types).Binding(binding).Build()
		case "metrics":
			g, err = golang.NewMetricsSupportGenerator().Reporter(rep).Model(m).Output(output).Packages(packages).Names(names).Binding(binding).Build()
		case "openapi":
			var calculator *openapi.NamesCalculator
			calculator, err = openapi.NewNamesCalculator().Reporter(rep).Build()
			nd.Assert(err == nil, "can't create the names calculator of OpenAPI")
			g, err = golang.NewOpenAPIGenerator().Reporter(rep).Model(m).Output(output).Packages(packages).Names(calculator).Binding(binding).Build()
		}
		nd.Assert(err == nil, "can't create a generator")
		nd.Assert(g.Run() == nil, "a generator fails")
	}
	nd.Assert(rep.Errors() == 0, "errors were reported")
	out := map[string]string{}
	for _, file := range vfs.List("out") {
		text, ok := vfs.Read(file)
		nd.Assert(ok, "a file can't be read")
		i := strings.Index(file, "out/")
		out[file[i+4:]] = text
	}
	return out
}

// line is a line of code together with the comments before it.
type line struct {
	code     string
	comments []string
}

// parse separates the lines of code from the comments. The order of the imports isn't significant.
func parse(text string) []line {
	var out []line
	var imports []string
	inside := false
	var comments []string
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimLeft(l, " \t")
		switch {
		case l == "":
			// A blank line separates the comments from the declaration:
			comments = nil
		case len(l) >= 2 && nd.And(l[0] == '/', l[1] == '/'):
			comments = append(comments, l[2:])
		case l == "import (":
			inside = true
		case inside && l == ")":
			inside = false
			sort.Strings(imports)
			for _, x := range imports {
				out = append(out, line{code: x})
			}
		case inside:
			imports = append(imports, l)
		default:
			out = append(out, line{l, comments})
			comments = nil
		}
	}
	return out
}

// squeeze removes the additional blank space of a line of code.
func squeeze(code string) string {
	var out []byte
	quoted := false
	for i := 0; i < len(code); i++ {
		c := code[i]
		if c == '"' {
			quoted = !quoted
		}
		if c == '\t' && !quoted {
			c = ' '
		}
		if c == ' ' && !quoted && (len(out) == 0 || out[len(out)-1] == ' ') {
			continue
		}
		out = append(out, c)
	}
	return strings.TrimRight(string(out), " ")
}

// constants finds the declarations of constants of the blocks, with comments.
func constants(text string) []line {
	var out []line
	inside := false
	for _, l := range parse(text) {
		switch {
		case l.code == "const (":
			inside = true
		case l.code == ")":
			inside = false
		case strings.HasPrefix(l.code, "const "):
			out = append(out, line{squeeze(l.code[6:]), l.comments})
		case inside:
			out = append(out, line{squeeze(l.code), l.comments})
		}
	}
	return out
}

func equal(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := 0; i < len(a); i++ {
		r = nd.And(r, a[i] == b[i])
	}
	return r
}

// documented checks that the comments end with the lines of the documentation.
func documented(comments []string, doc string) {
	lines := strings.Split(doc, "\n")
	nd.Assert(len(comments) >= len(lines), "the documentation isn't in the comments")
	comments = comments[len(comments)-len(lines):]
	for i, l := range lines {
		c := comments[i]
		if len(c) > 0 && c[0] == ' ' {
			c = c[1:]
		}
		nd.Assert(equal(strings.TrimRight(c, " \t"), strings.TrimRight(l, " \t")), "the comments aren't the documentation")
	}
}

const lower = "abcdefghijklmnopqrstuvwxyz"
const upper = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

// word is a word with the first letter in upper case.
func word(name, upper string) string {
	return nd.StringOf(name+"First", 1, 1, upper) + nd.StringOf(name+"Rest", 0, nd.Bound("letters", 0, 1), lower) + "ed"
}

// snake returns the name in snake case of a camel case name where each word has only one capital.
func snake(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'A' && c <= 'Z' {
			if i > 0 {
				out = append(out, '_')
			}
			c += 32
		}
		out = append(out, c)
	}
	return string(out)
}

func decimal(n int) string {
	if n == 0 {
		return "0"
	}
	out := ""
	for n > 0 {
		out = string([]byte{byte('0' + n%10)}) + out
		n /= 10
	}
	return out
}

// The errors of each version have a constant with their code and documentation, and nothing else is a constant.
func CheckErrors() {
	vfs.Reset()
	m := &mb.Model{}
	s := &mb.Service{Name: "svc"}
	m.Services = []*mb.Service{s}
	versions := []string{"v1", "v2"}
	for i, name := range versions[:1+nd.Choose("versions", 2)] {
		v := &mb.Version{Name: name, Resources: []*mb.Resource{{Name: "Root"}}}
		if i == 1 {
			v.Errors = append(v.Errors, &mb.Error{Name: "Other", Code: 8})
		} else {
			n := nd.Choose("errors", 3)
			letters := upper
			if n == 2 {
				letters = "BMZ"
			}
			for j := 0; j < n; j++ {
				x := []string{"a", "b"}[j]
				e := &mb.Error{Name: word(x, letters), Code: []int{7, 409}[j]}
				if n == 1 {
					e.Code = nd.IntRange("code", 0, nd.Bound("code", 120, 10000))
				} else {
					e.Doc = nd.StringOf(x+"Doc", 0, 1, "a\n\"")
				}
				v.Errors = append(v.Errors, e)
			}
			if n == 2 {
				nd.Assume(nd.Not(equal(v.Errors[0].Name, v.Errors[1].Name)))
			}
		}
		s.Versions = append(s.Versions, v)
	}
	files := generate(m.Concepts(), "errors")
	nd.Reach("errors")
	for _, v := range s.Versions {
		text, ok := files["svc/"+v.Name+"/errors.go"]
		if len(v.Errors) == 0 {
			nd.Assert(!ok || len(constants(text)) == 0, "there are constants of errors without errors")
			continue
		}
		nd.Assert(ok, "the file of the errors of the version isn't generated")
		got := constants(text)
		nd.Assert(len(got) == len(v.Errors), "the number of constants isn't the number of errors")
		for _, e := range v.Errors {
			found := 0
			for _, c := range got {
				i := strings.Index(c.code, " = ")
				nd.Assert(i > 0, "a constant doesn't have a value")
				if equal(c.code[:i], e.Name+"Error") {
					found++
					nd.Assert(equal(c.code[i+3:], decimal(e.Code)), "the value of a constant isn't the code of the error")
					documented(c.comments, e.Doc)
				}
			}
			nd.Assert(found == 1, "an error doesn't have exactly one constant")
		}
	}
	for file := range files {
		nd.Assert(file == "errors/errors.go" || file == "svc/v1/errors.go" || file == "svc/v2/errors.go", "an unexpected file is generated")
	}
}

// The values of each enumerated type have a constant of that type with their name in JSON and their documentation,
// and the classes have the constants of their kinds.
func CheckConstants() {
	vfs.Reset()
	v := &mb.Version{Name: "v1", Resources: []*mb.Resource{{Name: "Root"}}}
	enum := &mb.Type{Kind: mb.Enum, Name: "Color", Doc: nd.StringOf("doc", 0, 1, "a\n")}
	class := &mb.Type{Kind: mb.Class, Name: word("class", "BCMNZ") + "Er"}
	shape := &mb.Type{Kind: mb.Struct, Name: "Shape"}
	tags := []string{}
	n := 1 + nd.Choose("values", 2)
	for j := 0; j < n; j++ {
		x := []string{"a", "b"}[j]
		value := &mb.Value{Name: word(x, "BCMNZ"), Doc: nd.StringOf(x+"Doc", 0, 1, "a\n")}
		tag := snake(value.Name)
		if nd.Bool(x + "Annotated") {
			tag = "x-" + nd.StringOf(x+"Tag", 0, 1, "aB_")
			value.Anns = mb.Named("json", tag)
		}
		enum.Values = append(enum.Values, value)
		tags = append(tags, tag)
	}
	if n == 2 {
		nd.Assume(nd.Not(equal(enum.Values[0].Name, enum.Values[1].Name)))
	}
	nd.Assume(nd.Not(equal(enum.Name, class.Name)))
	v.Types = []*mb.Type{enum, class, shape}
	model := mb.One(v)
	files := generate(model.Concepts(), "types")
	nd.Reach("types")
	var all []line
	declared := 0
	for _, text := range files {
		all = append(all, constants(text)...)
		for _, l := range parse(text) {
			if equal(l.code, "type "+enum.Name+" string") {
				declared++
			}
		}
	}
	nd.Assert(declared == 1, "the enumerated type isn't declared once")
	nd.Assert(len(all) == n+9, "there are other constants")
	for i, value := range enum.Values {
		found := 0
		for _, c := range all {
			if equal(c.code, enum.Name+value.Name+" "+enum.Name+" = \""+tags[i]+"\"") {
				found++
				documented(c.comments, value.Doc)
			}
		}
		nd.Assert(found == 1, "a value doesn't have exactly one constant with its name in JSON")
	}
	for _, kind := range []string{"Kind = \"" + class.Name + "\"", "LinkKind = \"" + class.Name + "Link\"", "NilKind = \"" + class.Name + "Nil\"",
		"ListKind = \"" + class.Name + "List\"", "ListLinkKind = \"" + class.Name + "ListLink\"", "ListNilKind = \"" + class.Name + "ListNil\""} {
		found := 0
		for _, c := range all {
			if equal(c.code, class.Name+kind) {
				found++
			}
		}
		nd.Assert(found == 1, "a class doesn't have the constants of its kinds")
	}
}

// number returns the value of the text of a byte.
func number(x string) byte {
	var b byte
	if len(x) > 2 && x[0] == '0' && nd.Or(x[1] == 'x', x[1] == 'X') {
		nd.Assert(len(x) <= 4, "the text of a byte isn't correct")
		for i := 2; i < len(x); i++ {
			c := x[i]
			switch {
			case nd.And(c >= '0', c <= '9'):
				c -= '0'
			case nd.And(c >= 'a', c <= 'f'):
				c -= 'a' - 10
			default:
				nd.Assert(nd.And(c >= 'A', c <= 'F'), "the text of a byte isn't correct")
				c -= 'A' - 10
			}
			b = b*16 + c
		}
		return b
	}
	nd.Assert(len(x) >= 1 && len(x) <= 3, "the text of a byte isn't correct")
	for i := 0; i < len(x); i++ {
		nd.Assert(nd.And(x[i] >= '0', x[i] <= '9'), "the text of a byte isn't correct")
		b = b*10 + x[i] - '0'
	}
	return b
}

// content reads the list of bytes of the variable.
func content(text string) []byte {
	var out []byte
	inside := false
	for _, l := range parse(text) {
		switch {
		case strings.HasPrefix(l.code, "var OpenAPI = []byte{"):
			inside = true
		case l.code == "}":
			inside = false
		case inside:
			nd.Assert(strings.HasSuffix(l.code, ","), "a line of the list of bytes doesn't end with a comma")
			for _, x := range strings.Split(strings.TrimSuffix(l.code, ","), ",") {
				x = strings.TrimSpace(x)
				out = append(out, number(x))
			}
		}
	}
	return out
}

// Any list of bytes that is embedded in the generated code is exactly that list.
func CheckBytes() {
	vfs.Reset()
	rep, _ := mb.Reporter()
	packages, err := golang.NewPackagesCalculator().Reporter(rep).Base("example.com/base").Build()
	nd.Assert(err == nil, "can't create the packages calculator")
	data := []byte(nd.String("data", 0, nd.Bound("data", 2, 3)))
	before := nd.Choose("before", nd.Bound("before", 35, 70))
	whole := append(append(make([]byte, 0, 80), strings.Repeat("x", before)...), data...)
	b, err := golang.NewBuffer().Reporter(rep).Output(vfs.Mkdir("out")).Packages(packages).Package("x").File("y").Build()
	nd.Assert(err == nil, "can't create the buffer")
	b.Emit(`
		var OpenAPI = []byte{
			{{ byteArray .Data }}
		}
		`, "Data", whole)
	nd.Assert(b.Write() == nil, "can't write the file")
	text, ok := vfs.Read("out/x/y.go")
	nd.Assert(ok, "the file isn't written")
	got := content(text)
	nd.Reach("bytes")
	nd.Assert(equal(string(got), string(whole)), "the embedded bytes aren't the given ones")
}

// The variable of each version contains the document that the generator of OpenAPI writes for that version.
func CheckOpenAPI() {
	vfs.Reset()
	m := &mb.Model{}
	for _, s := range []string{"one", "two"}[:1+nd.Choose("services", 2)] {
		service := &mb.Service{Name: s}
		for i, name := range []string{"v1", "v2"}[:1+nd.Choose("versions "+s, 2)] {
			doc := ""
			if s == "one" && i == 0 {
				doc = nd.StringOf("doc", 0, nd.Bound("doc", 2, 3), "a\n\"\\<é\x7f")
			}
			service.Versions = append(service.Versions, &mb.Version{
				Name:      name,
				Types:     []*mb.Type{{Kind: mb.Class, Name: "Thing", Doc: doc, Attrs: []*mb.Attr{{Name: "Size" + strings.ToUpper(s[:1]) + name, Ref: mb.P("Integer")}}}},
				Resources: []*mb.Resource{{Name: "Root"}},
			})
		}
		m.Services = append(m.Services, service)
	}
	model := m.Concepts()
	rep, _ := mb.Reporter()
	calculator, err := openapi.NewNamesCalculator().Reporter(rep).Build()
	nd.Assert(err == nil, "can't create the names calculator")
	g, err := openapi.NewOpenAPIGenerator().Reporter(rep).Model(model).Output(vfs.Mkdir("doc")).Names(calculator).Binding(mb.Binding()).Build()
	nd.Assert(err == nil, "can't create the generator")
	nd.Assert(g.Run() == nil, "the generator of OpenAPI fails")
	files := generate(model, "openapi")
	nd.Reach("documents")
	count := 0
	for _, s := range m.Services {
		for _, v := range s.Versions {
			want, ok := vfs.Read("doc/" + s.Name + "/" + v.Name + "/openapi.json")
			nd.Assert(ok, "the document isn't generated")
			text, ok := files[strings.ReplaceAll(s.Name, "_", "")+"/"+v.Name+"/openapi.go"]
			nd.Assert(ok, "the variable isn't generated")
			nd.Assert(equal(string(content(text)), want), "the embedded document isn't the generated one")
			count++
		}
	}
	nd.Assert(len(files) == count, "there are other files")
}

// documentedModel is a model that has all the kinds of concepts, with the given documentation.
func documentedModel(doc func(string) string) *mb.Model {
	thing := mb.P("Thing")
	integer := mb.P("Integer")
	return mb.One(&mb.Version{
		Name: "v1",
		Types: []*mb.Type{
			{Kind: mb.Class, Name: "Thing", Doc: doc("class"), Attrs: []*mb.Attr{
				{Name: "Size", Ref: integer, Doc: doc("attribute")},
				{Name: "Parts", Ref: mb.L("Shape"), Doc: doc("attribute")},
				{Name: "Owner", Ref: thing, Link: true, Doc: doc("attribute")},
				{Name: "Friends", Ref: mb.L("Thing"), Link: true, Doc: doc("attribute")},
				{Name: "Labels", Ref: mb.M("String"), Doc: doc("attribute")},
			}},
			{Kind: mb.Struct, Name: "Shape", Doc: doc("struct"), Attrs: []*mb.Attr{{Name: "Color", Ref: mb.P("Color"), Doc: doc("attribute")}}},
			{Kind: mb.Enum, Name: "Color", Doc: doc("enum"), Values: []*mb.Value{{Name: "Red", Doc: doc("value")}, {Name: "Blue", Doc: doc("value")}}},
		},
		Errors: []*mb.Error{{Name: "Bad", Code: 7, Doc: doc("error")}},
		Resources: []*mb.Resource{
			{Name: "Root", Doc: doc("resource"), Locators: []*mb.Locator{{Name: "Things", Target: "Things", Doc: doc("locator")}}},
			{Name: "Things", Doc: doc("resource"), Locators: []*mb.Locator{{Name: "Thing", Variable: true, Target: "Thing", Doc: doc("locator")}}, Methods: []*mb.Method{
				{Name: "Add", Doc: doc("method"), Params: []*mb.Param{{Name: "Body", Ref: thing, In: true, Out: true, Doc: doc("parameter")}}},
				{Name: "List", Doc: doc("method"), Params: []*mb.Param{
					{Name: "Page", Ref: integer, In: true, Out: true, Default: 1, Doc: doc("parameter")},
					{Name: "Size", Ref: integer, In: true, Out: true, Default: 100, Doc: doc("parameter")},
					{Name: "Total", Ref: integer, Out: true, Doc: doc("parameter")},
					{Name: "Items", Ref: mb.L("Thing"), Out: true, Doc: doc("parameter")},
				}},
			}},
			{Name: "Thing", Doc: doc("resource"), Methods: []*mb.Method{
				{Name: "Get", Doc: doc("method"), Params: []*mb.Param{{Name: "Verbose", Ref: mb.P("Boolean"), In: true, Doc: doc("parameter")}, {Name: "Body", Ref: thing, Out: true, Doc: doc("parameter")}}},
				{Name: "Run", Doc: doc("method"), Params: []*mb.Param{{Name: "Fast", Ref: mb.P("Boolean"), In: true, Doc: doc("parameter")}, {Name: "Result", Ref: mb.P("String"), Out: true, Doc: doc("parameter")}}},
				{Name: "Delete", Doc: doc("method")},
			}},
		},
	})
}

var everything = []string{"types", "builders", "errors", "clients", "json", "metrics"}

// The documentation of the model appears only in comments: without them, the code is always the same.
func CheckComments() {
	text := nd.StringOf("doc", 0, nd.Bound("doc", 3, 5), "a\n\"`{/*}\\%+")
	vfs.Reset()
	plain := generate(documentedModel(func(string) string { return "" }).Concepts(), everything...)
	vfs.Reset()
	files := generate(documentedModel(func(string) string { return text }).Concepts(), everything...)
	nd.Reach("documented")
	nd.Assert(len(files) == len(plain), "the documentation changes the generated files")
	for file, want := range plain {
		got, ok := files[file]
		nd.Assert(ok, "the documentation changes the generated files")
		a, b := parse(want), parse(got)
		nd.Assert(len(a) == len(b), "the documentation changes the generated code")
		for i := range a {
			nd.Assert(equal(a[i].code, b[i].code), "the documentation changes the generated code")
		}
	}
}

// The declarations of types, attributes, values, errors, resources, methods, locators and parameters are preceded by
// their documentation, and not by the one of other concepts.
func CheckDocumented() {
	kinds := []string{"class", "attribute", "struct", "enum", "value", "error", "resource", "locator", "method", "parameter"}
	kind := kinds[nd.Choose("kind", len(kinds))]
	text := nd.StringOf("doc", 1, nd.Bound("doc", 3, 4), "Q\n ")
	nd.Assume(nd.And(text[0] != '\n', text[len(text)-1] == 'Q'))
	vfs.Reset()
	files := generate(documentedModel(func(x string) string {
		if x == kind {
			return text
		}
		return ""
	}).Concepts(), "types", "errors", "clients")
	nd.Reach("documented")
	var want []string
	switch kind {
	case "class":
		want = []string{"type  Thing struct {"}
	case "struct":
		want = []string{"type  Shape struct {"}
	case "enum":
		return // The documentation of the enumerated types isn't part of the code.
	case "value":
		want = []string{"ColorRed Color = \"red\"", "ColorBlue Color = \"blue\""}
	case "error":
		want = []string{"BadError = 7"}
	case "attribute":
		want = []string{"func (o *Thing) Size() int {", "func (o *Thing) GetSize() (value int, ok bool) {", "func (o *Thing) Parts() []*Shape {",
			"func (o *Thing) Owner() *Thing {", "func (o *Thing) Friends() *ThingList {", "func (o *Thing) Labels() map[string]string {", "func (o *Shape) Color() Color {"}
	case "resource":
		want = []string{"type Client struct {", "type ThingsClient struct {", "type ThingClient struct {"}
	case "locator":
		want = []string{"func (c *Client) Things() *ThingsClient {", "func (c *ThingsClient) Thing(id string) *ThingClient {"}
	case "method":
		want = []string{"func (c *ThingsClient) Add() *ThingsAddRequest {", "func (c *ThingsClient) List() *ThingsListRequest {", "func (c *ThingClient) Get() *ThingGetRequest {",
			"func (c *ThingClient) Run() *ThingRunRequest {", "func (c *ThingClient) Delete() *ThingDeleteRequest {"}
	case "parameter":
		want = []string{"func (r *ThingsAddRequest) Body(value *Thing) *ThingsAddRequest {", "func (r *ThingsAddResponse) Body() *Thing {", "func (r *ThingsListRequest) Page(value int) *ThingsListRequest {",
			"func (r *ThingsListResponse) Total() int {", "func (r *ThingsListResponse) Items() *ThingList {", "func (r *ThingGetRequest) Verbose(value bool) *ThingGetRequest {",
			"func (r *ThingRunRequest) Fast(value bool) *ThingRunRequest {", "func (r *ThingRunResponse) Result() string {"}
	}
	for i, w := range want {
		want[i] = strings.Join(strings.Fields(w), " ")
	}
	found := 0
	for file, t := range files {
		if !strings.Contains(file, "/v1/") {
			continue
		}
		for _, l := range parse(t) {
			if !strings.HasPrefix(l.code, "func") && !strings.HasPrefix(l.code, "type") && kind != "value" && kind != "error" {
				continue
			}
			code := strings.Join(strings.Fields(l.code), " ")
			for _, w := range want {
				if code == w {
					found++
					documented(l.comments, text)
				}
			}
		}
	}
	nd.Assert(found == len(want), "a documented declaration isn't generated")
}
