package p30

import (
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/generators/golang"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/mb"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
	_ "github.com/openshift-online/ocm-api-metamodel/zzverif/tmpl"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/vfs"
)

const lower = "abcdefghijklmnopqrstuvwxyz"
const upper = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

// generate runs the generators of the clients and of the JSON support, and returns the text of the files
// of the resource.
func generate(m *concepts.Model, resource string) (client, json string) {
	vfs.Reset()
	rep, _ := mb.Reporter()
	output := vfs.Mkdir("out")
	packages, err := golang.NewPackagesCalculator().Reporter(rep).Base("example.com/base").Build()
	nd.Assert(err == nil, "can't create the packages calculator")
	names, err := golang.NewNamesCalculator().Reporter(rep).Build()
	nd.Assert(err == nil, "can't create the names calculator")
	types, err := golang.NewTypesCalculator().Reporter(rep).Packages(packages).Names(names).Build()
	nd.Assert(err == nil, "can't create the types calculator")
	binding := mb.Binding()
	c, err := golang.NewClientsGenerator().Reporter(rep).Model(m).Output(output).Packages(packages).Names(names).Types(types).Binding(binding).Build()
	nd.Assert(err == nil, "can't create the generator of clients")
	nd.Assert(c.Run() == nil, "the generator of clients fails")
	j, err := golang.NewJSONSupportGenerator().Reporter(rep).Model(m).Output(output).Packages(packages).Names(names).Types(types).Binding(binding).Build()
	nd.Assert(err == nil, "can't create the generator of JSON")
	nd.Assert(j.Run() == nil, "the generator of JSON fails")
	for _, file := range vfs.List("out") {
		text, ok := vfs.Read(file)
		nd.Assert(ok, "a file can't be read")
		if strings.HasSuffix(file, resource+"_client.go") {
			client = text
		}
		if strings.HasSuffix(file, resource+"_resource_json.go") {
			json = text
		}
	}
	nd.Assert(client != "" && json != "", "the files of the resource aren't generated")
	return
}

// generateTypes runs the generators of the types, and returns the texts of the files.
func generateTypes(m *concepts.Model) map[string]string {
	vfs.Reset()
	rep, _ := mb.Reporter()
	output := vfs.Mkdir("out")
	packages, err := golang.NewPackagesCalculator().Reporter(rep).Base("example.com/base").Build()
	nd.Assert(err == nil, "can't create the packages calculator")
	names, err := golang.NewNamesCalculator().Reporter(rep).Build()
	nd.Assert(err == nil, "can't create the names calculator")
	types, err := golang.NewTypesCalculator().Reporter(rep).Packages(packages).Names(names).Build()
	nd.Assert(err == nil, "can't create the types calculator")
	binding := mb.Binding()
	t, err := golang.NewTypesGenerator().Reporter(rep).Model(m).Output(output).Packages(packages).Names(names).Types(types).Binding(binding).Build()
	nd.Assert(err == nil, "can't create the generator of types")
	nd.Assert(t.Run() == nil, "the generator of types fails")
	b, err := golang.NewBuildersGenerator().Reporter(rep).Model(m).Output(output).Packages(packages).Names(names).Types(types).Build()
	nd.Assert(err == nil, "can't create the generator of builders")
	nd.Assert(b.Run() == nil, "the generator of builders fails")
	j, err := golang.NewJSONSupportGenerator().Reporter(rep).Model(m).Output(output).Packages(packages).Names(names).Types(types).Binding(binding).Build()
	nd.Assert(err == nil, "can't create the generator of JSON")
	nd.Assert(j.Run() == nil, "the generator of JSON fails")
	out := map[string]string{}
	for _, file := range vfs.List("out") {
		text, ok := vfs.Read(file)
		nd.Assert(ok, "a file can't be read")
		out[file[strings.LastIndexByte(file, '/')+1:]] = text
	}
	return out
}

// member is a field or a method of a type.
type member struct {
	owner, name string
	method      bool
}

func word(c byte) bool {
	return nd.Or(nd.Or(nd.And(c >= 'a', c <= 'z'), nd.And(c >= 'A', c <= 'Z')), nd.Or(c == '_', nd.And(c >= '0', c <= '9')))
}

// identifier returns the identifier at the beginning of the text.
func identifier(text string) string {
	i := 0
	for i < len(text) && word(text[i]) {
		i++
	}
	return text[:i]
}

// members finds the fields and methods of the types.
func members(text string) []member {
	var out []member
	owner := ""
	for _, line := range strings.Split(text, "\n") {
		line = strings.TrimSpace(line)
		switch {
		case owner != "":
			if line == "}" {
				owner = ""
			} else if line != "" && !strings.HasPrefix(line, "//") {
				out = append(out, member{owner, identifier(line), false})
			}
		case strings.HasPrefix(line, "type ") && strings.HasSuffix(line, " struct {"):
			owner = identifier(strings.TrimSpace(line[5:]))
		case strings.HasPrefix(line, "func ("):
			line = line[strings.IndexByte(line, '*')+1:]
			t := identifier(line)
			line = line[len(t)+2:]
			out = append(out, member{t, identifier(line), true})
		}
	}
	return out
}

// uses finds the names that are used as members of the variable.
func uses(text, variable string) []string {
	var out []string
	for {
		i := strings.Index(text, variable+".")
		if i < 0 {
			return out
		}
		before := i == 0 || !word(text[i-1])
		text = text[i+len(variable)+1:]
		if before {
			out = append(out, identifier(text))
		}
	}
}

func fields(ms []member, owner string) []string {
	var out []string
	for _, m := range ms {
		if !m.method && m.owner == owner {
			out = append(out, m.name)
		}
	}
	return out
}

func contains(list []string, name string) bool {
	result := false
	for _, x := range list {
		result = nd.Or(result, x == name)
	}
	return result
}

// distinct checks that the members of each type are different.
func distinct(ms []member) {
	for i, a := range ms {
		for _, b := range ms[:i] {
			if a.owner == b.owner {
				nd.Assert(a.name != b.name, "a type has two members of the same name")
			}
		}
	}
}

// parameter creates an arbitrary name for a parameter, in lower case or in camel case with two words.
func parameter() string {
	if nd.Choose("words", 2) == 0 {
		return nd.StringOf("name", 1, nd.Bound("name", 11, 12), lower)
	}
	return nd.StringOf("first", 1, nd.Bound("first", 5, 6), lower) + nd.StringOf("capital", 1, 1, upper) + nd.StringOf("second", 1, nd.Bound("second", 6, 8), lower)
}

// same tells if two identifiers are the same name, the case of the first letter isn't significant.
func same(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	return nd.And(a[1:] == b[1:], capital(a[0]) == capital(b[0]))
}

func capital(c byte) byte {
	if c >= 'a' && c <= 'z' {
		return c - 32
	}
	return c
}

func check(method *mb.Method, request, response string) {
	// The parameters of a method have different names:
	for i, a := range method.Params {
		for _, b := range method.Params[:i] {
			nd.Assume(nd.Not(same(a.Name, b.Name)))
		}
	}
	v := &mb.Version{
		Types: []*mb.Type{{Kind: mb.Class, Name: "Thing", Attrs: []*mb.Attr{{Name: "Size", Ref: mb.P("Integer")}}}},
		Resources: []*mb.Resource{
			{Name: "Root", Locators: []*mb.Locator{{Name: "Things", Target: "Things"}}},
			{Name: "Things", Methods: []*mb.Method{method}},
		},
	}
	client, json := generate(mb.One(v).Concepts(), "things")
	ms := members(client)
	nd.Reach("generated")
	distinct(ms)
	in, out := fields(ms, request), fields(ms, response)
	nd.Assert(len(in) > 0 && len(out) > 0, "the types of the request and the response aren't generated")
	for _, x := range uses(json, "request") {
		nd.Assert(contains(in, x), "the code that writes requests uses a field that doesn't exist")
	}
	fixed := []string{"status", "header", "err"}
	for _, x := range uses(json, "response") {
		nd.Assert(contains(out, x), "the code that reads responses uses a field that doesn't exist")
		nd.Assert(nd.Not(contains(fixed, x)), "the code that reads responses changes the status, the header or the error")
	}
	fixed = []string{"transport", "path", "query", "header"}
	for _, x := range uses(json, "request") {
		nd.Assert(nd.Not(contains(fixed, x)), "the code that writes requests uses the transport, the path, the query or the header")
	}
}

// Parameters of actions.
func CheckActions() {
	types := []mb.Ref{mb.P("String"), mb.P("Thing"), mb.L("String"), mb.L("Thing"), mb.M("String")}
	p := &mb.Param{Name: parameter(), Ref: types[nd.Choose("type", len(types))]}
	switch nd.Choose("direction", 3) {
	case 0:
		p.In = true
	case 1:
		p.Out = true
	default:
		p.In, p.Out = true, true
	}
	check(&mb.Method{Name: "Run", Params: []*mb.Param{p}}, "ThingsRunRequest", "ThingsRunResponse")
}

// Parameters of methods that retrieve objects, that can also be polled.
func CheckGet() {
	check(&mb.Method{Name: "Get", Params: []*mb.Param{
		{Name: parameter(), Ref: mb.P("Integer"), In: true},
		{Name: "Body", Ref: mb.P("Thing"), Out: true},
	}}, "ThingsGetRequest", "ThingsGetResponse")
}

// Additional parameters of the other methods.
func CheckOthers() {
	x := &mb.Param{Name: parameter(), Ref: mb.P("Boolean"), In: true}
	body := &mb.Param{Name: "Body", Ref: mb.P("Thing"), In: true, Out: true}
	integer := mb.P("Integer")
	switch nd.Choose("method", 6) {
	case 4:
		check(&mb.Method{Name: "Search", Params: []*mb.Param{
			{Name: "Page", Ref: integer, In: true, Out: true, Default: 1},
			{Name: "Size", Ref: integer, In: true, Out: true, Default: 100},
			{Name: "Total", Ref: integer, Out: true},
			{Name: "Body", Ref: mb.P("Thing"), In: true},
			{Name: "Items", Ref: mb.L("Thing"), Out: true},
			x,
		}}, "ThingsSearchRequest", "ThingsSearchResponse")
	case 5:
		x.Ref = mb.P("Thing")
		if nd.Bool("output") {
			x.In, x.Out = false, true
			check(&mb.Method{Name: "Post", Params: []*mb.Param{x}}, "ThingsPostRequest", "ThingsPostResponse")
		} else {
			check(&mb.Method{Name: "Post", Params: []*mb.Param{x, {Name: "Response", Ref: mb.P("Thing"), Out: true}}}, "ThingsPostRequest", "ThingsPostResponse")
		}
	case 0:
		check(&mb.Method{Name: "Add", Params: []*mb.Param{body, x}}, "ThingsAddRequest", "ThingsAddResponse")
	case 1:
		check(&mb.Method{Name: "Update", Params: []*mb.Param{body, x}}, "ThingsUpdateRequest", "ThingsUpdateResponse")
	case 2:
		check(&mb.Method{Name: "Delete", Params: []*mb.Param{x}}, "ThingsDeleteRequest", "ThingsDeleteResponse")
	default:
		check(&mb.Method{Name: "List", Params: []*mb.Param{
			{Name: "Page", Ref: integer, In: true, Out: true, Default: 1},
			{Name: "Size", Ref: integer, In: true, Out: true, Default: 100},
			{Name: "Total", Ref: integer, Out: true},
			{Name: "Items", Ref: mb.L("Thing"), Out: true},
			x,
		}}, "ThingsListRequest", "ThingsListResponse")
	}
}

// Attributes of classes and structs. The identity of the objects is reserved.
func CheckAttributes() {
	types := []mb.Ref{mb.P("String"), mb.P("Thing"), mb.L("String"), mb.L("Thing"), mb.M("String")}
	name := parameter()
	for _, x := range []string{"id", "kind", "href"} {
		nd.Assume(nd.Not(same(name, x)))
	}
	t := &mb.Type{Kind: mb.Class, Name: "Thing"}
	if nd.Bool("struct") {
		t.Kind = mb.Struct
	}
	t.Attrs = []*mb.Attr{{Name: name, Ref: types[nd.Choose("type", len(types))]}}
	v := &mb.Version{Types: []*mb.Type{t}, Resources: []*mb.Resource{{Name: "Root"}}}
	files := generateTypes(mb.One(v).Concepts())
	var ms []member
	for _, x := range []string{"thing_type.go", "thing_builder.go", "thing_list_builder.go"} {
		nd.Assert(files[x] != "", "the files of the type aren't generated")
		ms = append(ms, members(files[x])...)
	}
	distinct(ms)
	object, builder := fields(ms, "Thing"), fields(ms, "ThingBuilder")
	nd.Assert(len(object) > 0 && len(builder) > 0, "the object and the builder aren't generated")
	nd.Reach("types")
	for _, x := range uses(files["thing_type_json.go"], "object") {
		nd.Assert(contains(object, x), "the JSON code uses a field that doesn't exist")
	}
}
