package p09

import (
	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/generators/openapi"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/jsonx"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/mb"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/vfs"
)

// given is what the annotations of a concept say: the names, empty if there is none.
type given struct {
	http, json string
}

// annotate adds arbitrary annotations to the concept.
func annotate(c concepts.Annotated) given {
	var g given
	add := func(name string) string {
		switch nd.Choose(name, 4) {
		case 0:
			return ""
		case 1:
			a := concepts.NewAnnotation()
			a.SetName(name)
			value := nd.String(name+" name", 0, nd.Bound("name", 2, 3))
			a.AddParameter("name", value)
			c.AddAnnotation(a)
			return value
		case 2:
			a := concepts.NewAnnotation()
			a.SetName(name)
			a.AddParameter("other", "other")
			c.AddAnnotation(a)
			return ""
		default:
			a := concepts.NewAnnotation()
			a.SetName(name)
			a.AddParameter("other", "other")
			a.AddParameter("name", name+"_fixed")
			c.AddAnnotation(a)
			return name + "_fixed"
		}
	}
	if nd.Choose("order", 2) == 0 {
		g.http = add("http")
		g.json = add("json")
	} else {
		g.json = add("json")
		g.http = add("http")
	}
	// The Go name has no effect on the wire:
	if nd.Choose("go", 2) == 1 {
		a := concepts.NewAnnotation()
		a.SetName("go")
		a.AddParameter("name", "GoName")
		c.AddAnnotation(a)
	}
	return g
}

const lower = "abcdefghijklmnopqrstuvwxyz"

// arbitrary creates a name, and gives its snake case form.
func arbitrary() (*names.Name, string) {
	n := nd.Choose("words", 2) + 1
	var words []*names.Word
	snake := ""
	for i := 0; i < n; i++ {
		text := nd.StringOf("word", 1, 2, lower+"0123456789")
		if i > 0 {
			snake += "_"
		}
		snake += text
		words = append(words, names.NewWord(text))
	}
	return names.NewName(words...), snake
}

func first(options ...string) string {
	for _, o := range options {
		if o != "" {
			return o
		}
	}
	return ""
}

// The names of the query parameters.
func CheckQuery() {
	p := concepts.NewParameter()
	name, snake := arbitrary()
	p.SetName(name)
	g := annotate(p)
	nd.Reach("named")
	nd.Assert(mb.Binding().QueryParameterName(p) == first(g.http, g.json, snake), "wrong name of query parameter")
}

// The names of the body parameters.
func CheckBody() {
	p := concepts.NewParameter()
	name, snake := arbitrary()
	p.SetName(name)
	g := annotate(p)
	nd.Reach("named")
	nd.Assert(mb.Binding().BodyParameterName(p) == first(g.json, snake), "wrong name of body parameter")
	nd.Assert(calculator().ParameterPropertyName(p) == first(g.json, snake), "wrong name of body parameter in the OpenAPI document")
}

func calculator() *openapi.NamesCalculator {
	r, _ := mb.Reporter()
	c, err := openapi.NewNamesCalculator().Reporter(r).Build()
	nd.Assert(err == nil, "can't create the calculator")
	return c
}

// The names of the attributes.
func CheckAttribute() {
	a := concepts.NewAttribute()
	name, snake := arbitrary()
	a.SetName(name)
	g := annotate(a)
	nd.Reach("named")
	nd.Assert(mb.Binding().AttributeName(a) == first(g.json, snake), "wrong name of attribute")
	nd.Assert(calculator().AttributePropertyName(a) == first(g.json, snake), "wrong name of attribute in the OpenAPI document")
}

// The names of the values of enumerated types.
func CheckValue() {
	v := concepts.NewEnumValue()
	name, snake := arbitrary()
	v.SetName(name)
	g := annotate(v)
	nd.Reach("named")
	nd.Assert(mb.Binding().EnumValueName(v) == first(g.json, snake), "wrong name of enumerated value")
}

// The segments of services, versions, locators and actions.
func CheckSegment() {
	b := mb.Binding()
	name, snake := arbitrary()
	switch nd.Choose("kind", 4) {
	case 0:
		c := concepts.NewService()
		c.SetName(name)
		g := annotate(c)
		nd.Reach("service")
		nd.Assert(b.ServiceSegment(c) == first(g.http, snake), "wrong segment of service")
	case 1:
		c := concepts.NewVersion()
		c.SetName(name)
		g := annotate(c)
		nd.Reach("version")
		nd.Assert(b.VersionSegment(c) == first(g.http, snake), "wrong segment of version")
	case 2:
		c := concepts.NewLocator()
		c.SetName(name)
		c.SetVariable(nd.Bool("variable"))
		g := annotate(c)
		nd.Reach("locator")
		nd.Assert(b.LocatorSegment(c) == first(g.http, snake), "wrong segment of locator")
	default:
		c := concepts.NewMethod()
		c.SetName(name)
		g := annotate(c)
		nd.Reach("method")
		nd.Assert(b.MethodSegment(c) == first(g.http, snake), "wrong segment of action")
	}
}

// The methods that aren't actions have no segment, whatever their annotations.
func CheckNoSegment() {
	c := concepts.NewMethod()
	reserved := []string{"Add", "Delete", "Get", "List", "Post", "Search", "Update", "AsyncDelete", "AsyncUpdate"}
	c.SetName(names.ParseUsingCase(reserved[nd.Choose("method", len(reserved))]))
	annotate(c)
	nd.Reach("method")
	nd.Assert(mb.Binding().MethodSegment(c) == "", "a method that isn't an action has a segment")
}

// The annotations that are read from the source are the ones used to calculate the names.
func CheckRead() {
	ann := func(what string) ([]*mb.Ann, given) {
		var anns []*mb.Ann
		var g given
		order := [][]string{{"http", "json", "go"}, {"json", "http"}, {"go", "json"}, {"http"}, {"json"}, {}}[nd.Choose(what, 6)]
		for _, name := range order {
			anns = append(anns, mb.Named(name, name+"_"+what)...)
			switch name {
			case "http":
				g.http = "http_" + what
			case "json":
				g.json = "json_" + what
			}
		}
		return anns, g
	}
	kind := nd.Choose("annotated", 6)
	var anns [6][]*mb.Ann
	var gs [6]given
	anns[kind], gs[kind] = ann("x")
	v := &mb.Version{
		Types: []*mb.Type{
			{Kind: mb.Enum, Name: "Color", Values: []*mb.Value{{Name: "DarkRed", Anns: anns[0]}}},
			{Kind: mb.Class, Name: "Car", Attrs: []*mb.Attr{{Name: "MainColor", Ref: mb.P("Color"), Anns: anns[1]}}},
		},
		Resources: []*mb.Resource{
			{Name: "Root", Locators: []*mb.Locator{{Name: "MyCars", Target: "Cars", Anns: anns[2]}}},
			{Name: "Cars", Methods: []*mb.Method{
				{Name: "PaintAll", Anns: anns[3], Params: []*mb.Param{{Name: "NewColor", Ref: mb.P("String"), In: true, Anns: anns[4]}}},
				{Name: "Delete", Params: []*mb.Param{{Name: "DryRun", Ref: mb.P("Boolean"), In: true, Anns: anns[5]}}},
			}},
		},
	}
	r := mb.One(v).ReadText()
	nd.Assert(r.Err == nil, "the model is rejected")
	b := mb.Binding()
	version := r.Model.Services()[0].Versions()[0]
	nd.Reach("read")
	nd.Assert(b.EnumValueName(version.FindType(names.ParseUsingCase("Color")).Values()[0]) == first(gs[0].json, "dark_red"), "wrong name of enumerated value")
	nd.Assert(b.AttributeName(version.FindType(names.ParseUsingCase("Car")).Attributes()[0]) == first(gs[1].json, "main_color"), "wrong name of attribute")
	nd.Assert(b.LocatorSegment(version.FindResource(names.ParseUsingCase("Root")).Locators()[0]) == first(gs[2].http, "my_cars"), "wrong segment of locator")
	for _, m := range version.FindResource(names.ParseUsingCase("Cars")).Methods() {
		nd.Assert(len(m.Parameters()) == 1, "wrong parameters")
		p := m.Parameters()[0]
		if m.IsAction() {
			nd.Assert(b.MethodSegment(m) == first(gs[3].http, "paint_all"), "wrong segment of action")
			nd.Assert(b.BodyParameterName(p) == first(gs[4].json, "new_color"), "wrong name of body parameter")
		} else {
			nd.Assert(b.MethodSegment(m) == "", "a method that isn't an action has a segment")
			nd.Assert(b.QueryParameterName(p) == first(gs[5].http, gs[5].json, "dry_run"), "wrong name of query parameter")
		}
	}
}

// get returns the member of the document that has the given path.
func get(d *jsonx.Value, path ...string) *jsonx.Value {
	for _, p := range path {
		d = d.Get(p)
		nd.Assert(d != nil, "the OpenAPI document doesn't use the name: "+p)
	}
	return d
}

// only checks that the object has exactly these members.
func only(d *jsonx.Value, want ...string) {
	nd.Assert(len(d.Keys) == len(want), "the OpenAPI document has other names")
	for _, k := range want {
		get(d, k)
	}
}

// The OpenAPI documents use the names of the annotations everywhere.
func CheckDocuments() {
	value := nd.StringOf("value", 1, 1, "aZ0-. ")
	order := [][]string{{}, {"http"}, {"json"}, {"go"}, {"http", "json"}, {"json", "http", "go"}}[nd.Choose("annotations", 6)]
	var anns []*mb.Ann
	var g given
	for _, name := range order {
		switch name {
		case "http":
			g.http = "h" + value
			anns = append(anns, mb.Named(name, g.http)...)
		case "json":
			g.json = "j" + value
			anns = append(anns, mb.Named(name, g.json)...)
		default:
			anns = append(anns, mb.Named(name, "g"+value)...)
		}
	}
	// The place is where the annotations are; the other concepts have none:
	const places = 11
	place := nd.Choose("place", places)
	var at [places][]*mb.Ann
	at[place] = anns
	is := func(i int, json bool, http bool, snake string) string {
		if i != place {
			return snake
		}
		return first(pick(http, g.http), pick(json, g.json), snake)
	}
	attrs := []*mb.Attr{
		{Name: "MainColor", Ref: mb.P("Color"), Anns: at[0]},
		{Name: "AllColors", Ref: mb.L("Color"), Anns: at[1]},
		{Name: "ColorMap", Ref: mb.M("String"), Anns: at[2]},
		{Name: "NextCar", Ref: mb.P("Car"), Link: true, Anns: at[3]},
	}
	v := &mb.Version{
		Types: []*mb.Type{
			{Kind: mb.Enum, Name: "Color", Values: []*mb.Value{{Name: "DarkRed", Anns: at[4]}, {Name: "LightRed"}}},
			{Kind: mb.Class, Name: "Car", Attrs: attrs},
		},
		Resources: []*mb.Resource{
			{Name: "Root", Locators: []*mb.Locator{{Name: "MyCars", Target: "Cars", Anns: at[5]}}},
			{Name: "Cars", Locators: []*mb.Locator{{Name: "OneCar", Target: "Car", Variable: true, Anns: at[6]}}},
			{Name: "Car", Methods: []*mb.Method{
				{Name: "PaintAll", Anns: at[7], Params: []*mb.Param{
					{Name: "NewColor", Ref: mb.P("String"), In: true, Anns: at[8]},
					{Name: "OldColor", Ref: mb.P("String"), Out: true, Anns: at[9]},
				}},
				{Name: "Delete", Params: []*mb.Param{{Name: "DryRun", Ref: mb.P("Boolean"), In: true, Anns: at[10]}}},
			}},
		},
	}
	vfs.Reset()
	out := vfs.Mkdir("out")
	r, _ := mb.Reporter()
	o, err := openapi.NewOpenAPIGenerator().Reporter(r).Model(mb.One(v).Concepts()).Output(out).Names(calculator()).Binding(mb.Binding()).Build()
	nd.Assert(err == nil && o.Run() == nil, "the generator failed")
	text, ok := vfs.Read("out/clusters_mgmt/v1/openapi.json")
	nd.Assert(ok, "the document doesn't exist")
	d := jsonx.Parse(text)
	nd.Assert(d != nil, "the document isn't valid JSON")
	nd.Reach("generated")
	values := get(d, "components", "schemas", "Color", "enum")
	nd.Assert(len(values.Items) == 2, "wrong number of values")
	nd.Assert(values.Items[0].Text == is(4, true, false, "dark_red") && values.Items[1].Text == "light_red", "wrong names of enumerated values in the OpenAPI document")
	only(get(d, "components", "schemas", "Car", "properties"), "id", "kind", "href", is(0, true, false, "main_color"),
		is(1, true, false, "all_colors"), is(2, true, false, "color_map"), is(3, true, false, "next_car"))
	root := "/api/clusters_mgmt/v1"
	cars := root + "/" + is(5, false, true, "my_cars")
	id := is(6, false, true, "one_car") + "_id"
	car := cars + "/{" + id + "}"
	paint := car + "/" + is(7, false, true, "paint_all")
	only(get(d, "paths"), root, car, paint)
	only(get(d, "paths", car), "delete")
	only(get(d, "paths", paint), "post")
	params := get(d, "paths", car, "delete", "parameters")
	nd.Assert(len(params.Items) == 2 && get(params.Items[0], "name").Text == id, "wrong name of path parameter")
	nd.Assert(get(params.Items[1], "name").Text == is(10, true, true, "dry_run"), "wrong name of query parameter in the OpenAPI document")
	only(get(d, "paths", paint, "post", "requestBody", "content", "application/json", "schema", "properties"), is(8, true, false, "new_color"))
	only(get(d, "paths", paint, "post", "responses", "200", "content", "application/json", "schema", "properties"), is(9, true, false, "old_color"))
}

func pick(b bool, s string) string {
	if b {
		return s
	}
	return ""
}
