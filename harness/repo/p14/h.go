package p14

import (
	"sort"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/generators/openapi"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/jsonx"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/mb"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/vfs"
)

// generate generates the documents of the model.
func generate(m *concepts.Model) {
	vfs.Reset()
	out := vfs.Mkdir("out")
	r, _ := mb.Reporter()
	names, err := openapi.NewNamesCalculator().Reporter(r).Build()
	nd.Assert(err == nil, "can't create the names calculator")
	g, err := openapi.NewOpenAPIGenerator().Reporter(r).Model(m).Output(out).Names(names).Binding(mb.Binding()).Build()
	nd.Assert(err == nil, "can't create the generator")
	err = g.Run()
	nd.Assert(err == nil && r.Errors() == 0, "the generator failed")
}

// read reads a document.
func read(name string) *jsonx.Value {
	text, ok := vfs.Read("out/" + name + "/openapi.json")
	nd.Assert(ok, "the document doesn't exist")
	d := jsonx.Parse(text)
	nd.Assert(d != nil, "the document isn't valid JSON")
	return d
}

// document generates the document of a version, and checks what is common to all of them.
func document(v *mb.Version) *jsonx.Value {
	generate(mb.One(v).Concepts())
	d := read("clusters_mgmt/v1")
	nd.Assert(d.Unique(), "the document has repeated members")
	nd.Assert(vfs.Count() == 1, "there are other documents")
	nd.Assert(at(d, "info", "title").Text == "clusters_mgmt" && at(d, "info", "version").Text == "v1", "the title or version are wrong")
	schemas := at(d, "components", "schemas")
	refs(d, func(ref string) {
		const prefix = "#/components/schemas/"
		nd.Assert(strings.HasPrefix(ref, prefix) && schemas.Get(ref[len(prefix):]) != nil, "there is a reference to a schema that doesn't exist")
	})
	return d
}

func at(d *jsonx.Value, path ...string) *jsonx.Value {
	for _, p := range path {
		d = d.Get(p)
		nd.Assert(d != nil, "a member of the document is missing: "+p)
	}
	return d
}

func refs(d *jsonx.Value, f func(string)) {
	for i, x := range d.Items {
		if d.Kind == 'o' && d.Keys[i] == "$ref" && x.Kind == 's' {
			f(x.Text)
		}
		refs(x, f)
	}
}

// keys checks the names of the members of an object.
func keys(d *jsonx.Value, msg string, want ...string) {
	got := append([]string{}, d.Keys...)
	sort.Strings(got)
	sort.Strings(want)
	nd.Assert(len(got) == len(want), msg)
	for i := range want {
		nd.Assert(got[i] == want[i], msg)
	}
}

var basic = map[string][2]string{
	"Boolean": {"boolean", ""}, "Integer": {"integer", "int32"}, "Long": {"integer", "int64"}, "Float": {"number", "float"},
	"String": {"string", ""}, "Date": {"string", "date-time"}, "Interface": {"object", ""},
}

// schema checks that the schema corresponds to the reference.
func schema(d *jsonx.Value, r mb.Ref) {
	switch r.Kind {
	case mb.List:
		nd.Assert(at(d, "type").Text == "array", "the schema isn't a list")
		schema(at(d, "items"), mb.P(r.Name))
		nd.Assert(d.Get("$ref") == nil && d.Get("additionalProperties") == nil, "the schema of the list has other things")
	case mb.Map:
		nd.Assert(at(d, "type").Text == "object", "the schema isn't an object")
		schema(at(d, "additionalProperties"), mb.P(r.Name))
		nd.Assert(d.Get("$ref") == nil && d.Get("items") == nil, "the schema of the map has other things")
	default:
		if b, ok := basic[r.Name]; ok {
			nd.Assert(at(d, "type").Text == b[0], "the type of the schema is wrong")
			nd.Assert(b[1] == "" && d.Get("format") == nil || b[1] != "" && at(d, "format").Text == b[1], "the format of the schema is wrong")
			nd.Assert(d.Get("$ref") == nil && d.Get("items") == nil && d.Get("additionalProperties") == nil, "the schema has other things")
			return
		}
		nd.Assert(at(d, "$ref").Text == "#/components/schemas/"+r.Name, "the reference is wrong")
		nd.Assert(d.Get("type") == nil && d.Get("items") == nil, "the schema has other things")
	}
}

var types = []string{"Boolean", "Integer", "Long", "Float", "String", "Date", "Interface", "MyClass", "MyStruct", "MyEnum"}

func ref(name string) mb.Ref {
	r := mb.Ref{Kind: nd.Choose(name+" container", 3), Name: types[nd.Choose(name+" type", len(types))]}
	if r.Kind == mb.Map {
		r.Index = "String"
	}
	return r
}

// description checks the description.
func description(d *jsonx.Value, doc string) {
	if doc == "" {
		nd.Assert(d.Get("description") == nil, "there is an unexpected description")
	} else {
		nd.Assert(at(d, "description").Text == doc, "the description is wrong")
	}
}

// named gives an optional annotation, and the resulting name.
func named(prefix, name, snake string) ([]*mb.Ann, string) {
	if nd.Bool(prefix + " annotated") {
		return mb.Named(name, prefix+"-x"), prefix + "-x"
	}
	return nil, snake
}

// things is a version that has all the kinds of types, and the given attributes.
func things(kind int, doc string, vanns []*mb.Ann, attrs ...*mb.Attr) *mb.Version {
	return &mb.Version{
		Types: []*mb.Type{
			{Kind: kind, Name: "Thing", Doc: doc, Attrs: attrs},
			{Kind: mb.Class, Name: "MyClass"},
			{Kind: mb.Struct, Name: "MyStruct"},
			{Kind: mb.Enum, Name: "MyEnum", Doc: doc, Values: []*mb.Value{{Name: "MyValue", Anns: vanns}, {Name: "Zero"}}},
		},
		Resources: []*mb.Resource{{Name: "Root"}},
	}
}

// The schemas are exactly the ones of the types of the model.
func CheckSchemas() {
	r1 := ref("first")
	r2 := mb.Ref{Kind: (r1.Kind + 1) % 3, Name: "Float", Index: "String"}
	anns, name := named("attr", "json", "my_attr")
	kind := []int{mb.Class, mb.Struct}[nd.Choose("kind", 2)]
	d := document(things(kind, "", nil, &mb.Attr{Name: "MyAttr", Ref: r1, Anns: anns, Link: r1.Name == "MyClass"}, &mb.Attr{Name: "Other", Ref: r2}))
	nd.Reach("generated")
	s := at(d, "components", "schemas")
	keys(s, "the schemas aren't the ones of the model", "Error", "Metadata", "Thing", "MyClass", "MyStruct", "MyEnum")
	want := []string{name, "other"}
	if kind == mb.Class {
		want = append(want, "id", "kind", "href")
	}
	p := at(s, "Thing", "properties")
	keys(p, "the properties aren't the attributes of the type", want...)
	schema(at(p, name), r1)
	schema(at(p, "other"), r2)
	keys(at(s, "MyClass", "properties"), "the properties aren't the attributes of the type", "id", "kind", "href")
	keys(at(s, "MyStruct", "properties"), "the properties aren't the attributes of the type")
}

// The descriptions are the documentation of the model, whatever it contains.
func CheckDescriptions() {
	doc := nd.StringOf("doc", 0, 2, "a\"\\\n\x01")
	vanns, value := named("value", "json", "my_value")
	d := document(things(mb.Class, doc, vanns, &mb.Attr{Name: "MyAttr", Ref: mb.P("String"), Doc: "x" + doc}, &mb.Attr{Name: "Other", Ref: mb.P("String")}))
	nd.Reach("generated")
	s := at(d, "components", "schemas")
	description(at(s, "Thing"), doc)
	description(at(s, "Thing", "properties", "my_attr"), "x"+doc)
	description(at(s, "Thing", "properties", "other"), "")
	e := at(s, "MyEnum")
	description(e, doc)
	nd.Assert(at(e, "type").Text == "string", "the type of the enum is wrong")
	l := at(e, "enum")
	nd.Assert(l.Kind == 'a' && len(l.Items) == 2 && l.Items[0].Text == value && l.Items[1].Text == "zero", "the values of the enum are wrong")
}

// operation checks one operation.
func operation(o *jsonx.Value, m *mb.Method, status string, path []string, query []*mb.Param, queryNames []string, body, resp []*mb.Param, bodyNames, respNames []string) {
	description(o, m.Doc)
	// Parameters:
	n := len(path) + len(query)
	l := o.Get("parameters")
	nd.Assert((l == nil) == (n == 0), "the list of parameters is wrong")
	if l != nil {
		nd.Assert(l.Kind == 'a' && len(l.Items) == n, "the number of parameters is wrong")
		find := func(in, name string) *jsonx.Value {
			var r *jsonx.Value
			for _, x := range l.Items {
				if at(x, "name").Text == name && at(x, "in").Text == in {
					nd.Assert(r == nil, "a parameter is declared more than once")
					r = x
				}
			}
			nd.Assert(r != nil, "a parameter is missing: "+name)
			return r
		}
		for _, x := range path {
			p := find("path", x)
			nd.Assert(at(p, "required").Bool && at(p, "schema", "type").Text == "string", "the definition of a path parameter is wrong")
		}
		for i, x := range query {
			p := find("query", queryNames[i])
			nd.Assert(p.Get("required") == nil || !p.Get("required").Bool, "a query parameter is mandatory")
			description(p, x.Doc)
			schema(at(p, "schema"), x.Ref)
		}
	}
	// Bodies:
	check := func(s *jsonx.Value, l []*mb.Param, names []string) {
		if len(l) == 1 && m.Name != "Hibernate" {
			schema(s, l[0].Ref)
			return
		}
		nd.Assert(at(s, "type").Text == "object", "the type of the body is wrong")
		p := at(s, "properties")
		keys(p, "the properties aren't the parameters of the method", names...)
		for i, x := range l {
			description(at(p, names[i]), x.Doc)
			schema(at(p, names[i]), x.Ref)
		}
	}
	b := o.Get("requestBody")
	nd.Assert((b == nil) == (len(body) == 0), "the body of the request is wrong")
	if b != nil {
		check(at(b, "content", "application/json", "schema"), body, bodyNames)
	}
	r := at(o, "responses")
	keys(r, "the statuses of the responses are wrong", status, "default")
	nd.Assert(at(r, "default", "content", "application/json", "schema", "$ref").Text == "#/components/schemas/Error", "the schema of errors is wrong")
	c := at(r, status).Get("content")
	nd.Assert((c == nil) == (len(resp) == 0), "the body of the response is wrong")
	if c != nil {
		check(at(c, "application/json", "schema"), resp, respNames)
	}
}

var methods = []struct{ name, http, status string }{
	{"Add", "post", "201"}, {"Delete", "delete", "204"}, {"Get", "get", "200"}, {"List", "get", "200"}, {"Post", "post", "201"},
	{"Search", "post", "200"}, {"Update", "patch", "200"}, {"AsyncDelete", "delete", "202"}, {"AsyncUpdate", "patch", "202"}, {"Hibernate", "post", "200"},
}

// operations checks the document of one method.
func operations(k int, annotated bool, n int, choose func(s string) mb.Ref) {
	action := methods[k].name == "Hibernate"
	m := &mb.Method{Name: methods[k].name}
	var query, body, resp []*mb.Param
	var queryNames, bodyNames, respNames []string
	for i := 0; i < n; i++ {
		s := string(rune('a' + i))
		p := &mb.Param{Name: "My" + strings.ToUpper(s), In: nd.Bool(s + " in"), Out: nd.Bool(s + " out"), Ref: choose(s), Doc: "Doc " + s}
		inQuery, inBody := "my_"+s, "my_"+s
		if annotated && nd.Bool(s+" json") {
			p.Anns = append(p.Anns, mb.Named("json", s+"-json")...)
			inQuery, inBody = s+"-json", s+"-json"
		}
		if annotated && nd.Bool(s+" http") {
			p.Anns = append(p.Anns, mb.Named("http", s+"-http")...)
			inQuery = s + "-http"
		}
		scalar := p.Ref.Kind == mb.Plain && p.Ref.Name != "MyClass" && p.Ref.Name != "MyStruct"
		if p.In && scalar && !action {
			query = append(query, p)
			queryNames = append(queryNames, inQuery)
		} else if p.In {
			body = append(body, p)
			bodyNames = append(bodyNames, inBody)
		}
		if p.Out {
			resp = append(resp, p)
			respNames = append(respNames, inBody)
		}
		m.Params = append(m.Params, p)
	}
	variable := false
	segment, tail := "my_thing", "hibernate"
	var lanns []*mb.Ann
	if n == 0 {
		variable = nd.Bool("variable")
		lanns, segment = named("loc", "http", "my_thing")
		m.Anns, tail = named("method", "http", "hibernate")
		m.Doc = nd.StringOf("doc", 0, 1, "a\"")
	}
	d := document(&mb.Version{
		Types: []*mb.Type{{Kind: mb.Class, Name: "MyClass"}, {Kind: mb.Struct, Name: "MyStruct"}, {Kind: mb.Enum, Name: "MyEnum"}},
		Resources: []*mb.Resource{
			{Name: "Root", Locators: []*mb.Locator{{Name: "MyThing", Target: "Thing", Variable: variable, Anns: lanns}}},
			{Name: "Thing", Methods: []*mb.Method{m}},
		},
	})
	nd.Reach("generated")
	root := "/api/clusters_mgmt/v1"
	path := root + "/" + segment
	var params []string
	if variable {
		path = root + "/{" + segment + "_id}"
		params = []string{segment + "_id"}
	}
	if action {
		path += "/" + tail
	}
	keys(at(d, "paths"), "the paths aren't the ones of the model", root, path)
	o := at(d, "paths", path)
	keys(o, "the operations aren't the ones of the model", methods[k].http)
	operation(at(o, methods[k].http), m, methods[k].status, params, query, queryNames, body, resp, bodyNames, respNames)
}

// The operations have exactly the parameters, body and responses of the methods.
func CheckOperations() {
	operations(nd.Choose("method", len(methods)), false, 1, ref)
}

var few = []mb.Ref{mb.P("Integer"), mb.P("MyClass"), mb.L("String")}

func some(s string) mb.Ref { return few[nd.Choose(s+" type", len(few))] }

// The same with several parameters.
func CheckSeveral() {
	operations([]int{0, 3, 9}[nd.Choose("method", nd.Bound("methods", 3, 3))], false, nd.Bound("parameters", 2, 3), some)
}

// The names are the ones that the clients use.
func CheckNames() {
	operations(nd.Choose("method", len(methods)), true, 1, some)
}

// The paths are the ones that the clients use.
func CheckSegments() {
	operations(nd.Choose("method", len(methods)), false, 0, nil)
}

// The paths are exactly the ones that can be reached from the root, with the operations of their resource.
func CheckPaths() {
	const n = 4
	resources := []string{"Root", "Aa", "Bb", "Cc"}
	shapes := [][]string{nil, {"Add", "Delete", "Hibernate", "List"}, {"Hibernate"}, {"Get", "Update"}}
	v := &mb.Version{}
	kinds := nd.Bound("shapes", 2, 4)
	thorough := kinds == 4
	var edges [n][n]bool
	var variable [n]bool
	var shape [n]int
	for i := 1; i < n; i++ {
		if thorough || i == 1 {
			variable[i] = nd.Bool("variable")
		} else {
			variable[i] = variable[1] != (i == 3)
		}
		shape[i] = nd.Choose("shape", kinds)
	}
	shape[0] = nd.Choose("root", 2) * 2
	for i := 0; i < n; i++ {
		r := &mb.Resource{Name: resources[i]}
		for j := i + 1; j < n; j++ {
			edges[i][j] = nd.Bool("edge")
			if edges[i][j] {
				r.Locators = append(r.Locators, &mb.Locator{Name: resources[j], Target: resources[j], Variable: variable[j]})
			}
		}
		for _, m := range shapes[shape[i]] {
			r.Methods = append(r.Methods, &mb.Method{Name: m})
		}
		v.Resources = append(v.Resources, r)
	}
	d := document(v)
	nd.Reach("generated")
	base := "/api/clusters_mgmt/v1"
	want := map[string]string{base: "get"}
	add := func(i int, prefix string) {
		http := ""
		for _, m := range shapes[shape[i]] {
			if m == "Hibernate" {
				want[prefix+"/hibernate"] = "post"
			} else {
				http += map[string]string{"Get": "get", "Update": "patch", "Add": "post", "Delete": "delete", "List": "get"}[m] + " "
			}
		}
		if http != "" {
			want[prefix] = http
		}
	}
	var walk func(i int, prefix string)
	walk = func(i int, prefix string) {
		add(i, prefix)
		for j := i + 1; j < n; j++ {
			if edges[i][j] {
				if variable[j] {
					walk(j, prefix+"/{"+strings.ToLower(resources[j])+"_id}")
				} else {
					walk(j, prefix+"/"+strings.ToLower(resources[j]))
				}
			}
		}
	}
	walk(0, base)
	paths := at(d, "paths")
	nd.Assert(len(paths.Keys) == len(want), "the number of paths is wrong")
	for i, k := range paths.Keys {
		h, ok := want[k]
		nd.Assert(ok, "there is a path that isn't in the model")
		ops := strings.Fields(h)
		keys(paths.Items[i], "the operations aren't the ones of the resource", ops...)
		n := strings.Count(k, "{")
		for _, x := range paths.Items[i].Items {
			l := x.Get("parameters")
			nd.Assert(n == 0 && l == nil || n > 0 && len(l.Items) == n, "the path parameters are wrong")
		}
	}
}

// Each version of each service has its own document, that contains only its types and paths.
func CheckVersions() {
	m := &mb.Model{}
	names := []string{"aa/v1", "aa/v2", "b_c/v1"}
	var has [3]bool
	for i, n := range names {
		has[i] = nd.Bool("has")
		if !has[i] {
			continue
		}
		p := strings.Split(n, "/")
		var s *mb.Service
		for _, x := range m.Services {
			if x.Name == p[0] {
				s = x
			}
		}
		if s == nil {
			s = &mb.Service{Name: p[0]}
			m.Services = append(m.Services, s)
		}
		t := []string{"Ta", "Tb", "Tc"}[i]
		s.Versions = append(s.Versions, &mb.Version{
			Name: p[1], Types: []*mb.Type{{Kind: mb.Class, Name: t}},
			Resources: []*mb.Resource{{Name: "Root", Locators: []*mb.Locator{{Name: t, Target: "Thing"}}}, {Name: "Thing", Methods: []*mb.Method{{Name: "Get"}}}},
		})
	}
	generate(m.Concepts())
	nd.Reach("generated")
	count := 0
	for i, n := range names {
		if has[i] {
			count++
			t := []string{"Ta", "Tb", "Tc"}[i]
			d := read(n)
			keys(at(d, "components", "schemas"), "the schemas aren't the ones of the version", "Error", "Metadata", t)
			keys(at(d, "paths"), "the paths aren't the ones of the version", "/api/"+n, "/api/"+n+"/"+strings.ToLower(t))
			p := strings.Split(n, "/")
			nd.Assert(at(d, "info", "title").Text == p[0] && at(d, "info", "version").Text == p[1], "the title or version are wrong")
		}
	}
	nd.Assert(vfs.Count() == count, "there are other documents")
}

// The methods of the root resource are part of the document.
func CheckRoot() {
	d := document(&mb.Version{Resources: []*mb.Resource{{Name: "Root", Methods: []*mb.Method{{Name: []string{"Add", "Delete", "Update"}[nd.Choose("method", 3)]}}}}})
	nd.Assert(d != nil, "there is no document")
	nd.Reach("generated")
}

// Paths that have the same name twice declare each parameter once.
func CheckRepeated() {
	d := document(&mb.Version{Resources: []*mb.Resource{
		{Name: "Root", Locators: []*mb.Locator{{Name: "Item", Target: "Aa", Variable: true}}},
		{Name: "Aa", Locators: []*mb.Locator{{Name: []string{"Item", "Other"}[nd.Choose("name", 2)], Target: "Bb", Variable: true}}},
		{Name: "Bb", Methods: []*mb.Method{{Name: "Get"}}},
	}})
	nd.Reach("generated")
	p := at(d, "paths")
	for i, k := range p.Keys {
		if k == "/api/clusters_mgmt/v1" {
			continue
		}
		l := at(p.Items[i], "get", "parameters")
		nd.Assert(len(l.Items) == 2 && at(l.Items[0], "name").Text != at(l.Items[1], "name").Text, "a parameter is declared more than once")
	}
}

// The paths and their parameters are the ones of the model whatever the distance to the root.
func CheckDeep() {
	n := 1 + nd.Choose("depth", nd.Bound("depth", 8, 12))
	pattern := nd.Choose("pattern", 4)
	v := &mb.Version{Resources: []*mb.Resource{{Name: "Root"}}}
	base := "/api/clusters_mgmt/v1"
	path := base
	params := map[string][]string{base: nil}
	var ids []string
	for i := 0; i < n; i++ {
		name := strings.Repeat(string(rune('A'+i)), 1)
		name += strings.ToLower(name)
		variable := pattern == 1 || pattern == 2 && i%2 == 0 || pattern == 3 && i >= n/2
		last := v.Resources[i]
		last.Locators = append(last.Locators, &mb.Locator{Name: name, Target: name, Variable: variable})
		v.Resources = append(v.Resources, &mb.Resource{Name: name, Methods: []*mb.Method{{Name: "Get"}, {Name: "Hibernate"}}})
		s := strings.ToLower(name)
		if variable {
			ids = append(ids, s+"_id")
			path += "/{" + s + "_id}"
		} else {
			path += "/" + s
		}
		params[path] = append([]string{}, ids...)
		params[path+"/hibernate"] = append([]string{}, ids...)
	}
	d := document(v)
	nd.Reach("generated")
	paths := at(d, "paths")
	nd.Assert(len(paths.Keys) == len(params), "the number of paths is wrong")
	for i, k := range paths.Keys {
		want, ok := params[k]
		nd.Assert(ok, "there is a path that isn't in the model")
		for _, x := range paths.Items[i].Items {
			l := x.Get("parameters")
			nd.Assert((l == nil) == (len(want) == 0), "the path parameters are wrong")
			if l == nil {
				continue
			}
			nd.Assert(len(l.Items) == len(want), "the path parameters are wrong")
			for _, w := range want {
				found := false
				for _, p := range l.Items {
					if at(p, "name").Text == w {
						found = true
						nd.Assert(at(p, "in").Text == "path" && at(p, "required").Bool, "the definition of a path parameter is wrong")
					}
				}
				nd.Assert(found, "a path parameter is missing")
			}
		}
	}
}

// The references of the documents of services that refer to classes of other services are defined in the same
// document.
func CheckReferences() {
	kind := nd.Choose("kind", 6)
	self := nd.Bool("self")
	text := []string{"", "", "[]", "[]", "[String]", ""}[kind]
	name := "Bb"
	if self {
		name = "Aa"
	}
	if kind == 5 {
		name = "Color"
	}
	text += name
	if kind == 1 || kind == 3 {
		text = "link Other " + text
	} else {
		text = "Other " + text
	}
	root := "resource Root {\n}\n"
	vfs.Reset()
	vfs.Write("model/my_service/v1/a.model", root+"@ref(path = \"/other_service/v1/aa\")\nclass Aa {\n}\n")
	vfs.Write("model/other_service/v1/a.model", root+"class Aa {\n\t"+text+"\n}\nclass Bb {\n\tCc Cc\n\tlink Dd Dd\n}\nclass Cc {\n}\nclass Dd {\n}\nenum Color {\n\tRed\n}\n")
	r := mb.ReadDir("model")
	nd.Assert(!r.Crashed && r.Err == nil, "the model is rejected")
	generate(r.Model)
	nd.Reach("generated")
	dangling := false
	for _, s := range []string{"my_service", "other_service"} {
		d := read(s + "/v1")
		nd.Assert(d.Unique(), "the document has repeated members")
		schemas := at(d, "components", "schemas")
		refs(d, func(ref string) {
			const prefix = "#/components/schemas/"
			nd.Assert(strings.HasPrefix(ref, prefix), "there is a reference that isn't to a schema")
			name := ref[len(prefix):]
			if schemas.Get(name) == nil {
				linked := kind == 1 || kind == 3
				nd.Assert(s == "my_service" && !self && kind != 5 && (linked && name == "Bb" || !linked && name == "Dd"), "there is a reference to a schema that doesn't exist")
				dangling = true
			}
		})
		schema(at(schemas, "Aa", "properties", "other"), mb.Ref{Kind: []int{mb.Plain, mb.Plain, mb.List, mb.List, mb.Map, mb.Plain}[kind], Name: name, Index: "String"})
	}
	nd.Assert(!dangling, "the class of other service that a link refers to has no schema")
}
