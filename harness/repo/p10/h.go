package p10

import (
	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/generators/golang"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/mb"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
)

var keywords = []string{
	"break", "default", "func", "interface", "select", "case", "defer", "go", "map", "struct", "chan", "else", "goto", "package",
	"switch", "const", "fallthrough", "if", "range", "type", "continue", "for", "import", "return", "var",
}

const lower = "abcdefghijklmnopqrstuvwxyz"
const upper = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
const digits = "0123456789"

func keyword(text string) bool {
	result := false
	for _, k := range keywords {
		result = nd.Or(result, text == k)
	}
	return result
}

func between(c byte, lo, hi byte) bool { return nd.And(c >= lo, c <= hi) }

// identifier tells if the text is a valid Go identifier.
func identifier(text string) bool {
	if len(text) == 0 {
		return false
	}
	result := nd.Not(between(text[0], '0', '9'))
	for i := 0; i < len(text); i++ {
		c := text[i]
		result = nd.And(result, nd.Or(nd.Or(between(c, 'a', 'z'), between(c, 'A', 'Z')), nd.Or(c == '_', between(c, '0', '9'))))
	}
	return nd.And(result, nd.Not(keyword(text)))
}

func calculator() *golang.NamesCalculator {
	r, _ := mb.Reporter()
	c, err := golang.NewNamesCalculator().Reporter(r).Build()
	nd.Assert(err == nil, "can't create the calculator")
	return c
}

// Reserved words are changed, and only them.
func CheckReserved() {
	text := nd.StringOf("text", 1, nd.Bound("text", 11, 12), lower)
	result := golang.AvoidReservedWord(text)
	nd.Reach("done")
	nd.Assert(nd.Not(keyword(result)), "the result is a reserved word")
	if keyword(text) {
		nd.Reach("reserved")
		nd.Assert(result == text+"_", "the reserved word isn't marked with an underscore")
	} else {
		nd.Assert(result == text, "a word that isn't reserved is changed")
	}
}

// model creates an arbitrary identifier of the modelling language.
func model(label string, n int) (string, *names.Name) {
	head := nd.StringOf(label+" head", 1, 1, upper+lower)
	tail := nd.StringOf(label+" tail", 0, n-1, upper+lower+digits)
	text := head + tail
	return text, names.ParseUsingCase(text)
}

func letter(c byte, up bool) byte {
	if up {
		if c >= 'a' && c <= 'z' {
			return c - 32
		}
		return c
	}
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

// Any identifier of the modelling language gives valid Go names, exported or not as needed.
func CheckIdentifiers() {
	text, name := model("name", nd.Bound("name", 4, 5))
	c := calculator()
	public, private := c.Public(name), c.Private(name)
	nd.Observe("public", public)
	nd.Observe("private", private)
	nd.Reach("calculated")
	nd.Assert(identifier(public), "the public name isn't a valid identifier")
	nd.Assert(identifier(private), "the private name isn't a valid identifier")
	nd.Assert(between(public[0], 'A', 'Z'), "the public name isn't exported")
	nd.Assert(nd.Not(between(private[0], 'A', 'Z')), "the private name is exported")
	// The public name is the identifier:
	nd.Assert(public == string([]byte{letter(text[0], true)})+text[1:], "the public name isn't the identifier of the model")
}

// Words that are reserved in Go can be used as identifiers.
func CheckKeywords() {
	k := nd.Choose("keyword", len(keywords))
	c := calculator()
	text := keywords[k]
	if nd.Choose("case", 2) == 0 {
		text = string([]byte{letter(text[0], true)}) + text[1:]
	}
	name := names.ParseUsingCase(text)
	public, private := c.Public(name), c.Private(name)
	nd.Reach("calculated")
	nd.Assert(public == string([]byte{letter(keywords[k][0], true)})+keywords[k][1:], "wrong public name")
	nd.Assert(private == keywords[k]+"_", "wrong private name")
}

// Different identifiers, regardless of the case of the first letter, have different public names.
func CheckDifferent() {
	a, na := model("a", nd.Bound("pair", 3, 4))
	b, nb := model("b", nd.Bound("pair", 3, 4))
	c := calculator()
	nd.Reach("calculated")
	same := string([]byte{letter(a[0], true)})+a[1:] == string([]byte{letter(b[0], true)})+b[1:]
	nd.Assert(nd.Iff(same, c.Public(na) == c.Public(nb)), "different identifiers have the same public name, or the other way round")
}

// The names of files are in lower case, with the words separated by underscores, and different names of
// words have different files.
func CheckFiles() {
	n := nd.Choose("words", 3) + 1
	var words []*names.Word
	want := ""
	for i := 0; i < n; i++ {
		var text string
		if nd.Choose("initialism", 2) == 1 {
			text = nd.StringOf("word", 1, 2, upper)
			words = append(words, names.NewInitialism(text))
		} else {
			text = nd.StringOf("word", 1, 2, lower)
			words = append(words, names.NewWord(text))
		}
		if i > 0 {
			want += "_"
		}
		for j := 0; j < len(text); j++ {
			want += string([]byte{letter(text[j], false)})
		}
	}
	nd.Reach("calculated")
	nd.Assert(calculator().File(names.NewName(words...)) == want, "wrong file name")
}

// types are the types of the model that is used to check the references.
func types(goName string) (*concepts.Version, map[string]*concepts.Type) {
	var anns []*mb.Ann
	if goName != "" {
		anns = mb.Named("go", goName)
	}
	v := &mb.Version{
		Name: "v1",
		Types: []*mb.Type{
			{Kind: mb.Enum, Name: "MyEnum", Values: []*mb.Value{{Name: "A"}}, Anns: anns},
			{Kind: mb.Class, Name: "MyClass", Anns: anns, Attrs: []*mb.Attr{
				{Name: "EnumList", Ref: mb.L("MyEnum")}, {Name: "EnumMap", Ref: mb.M("MyEnum")},
				{Name: "ClassList", Ref: mb.L("MyClass")}, {Name: "ClassMap", Ref: mb.M("MyClass")},
				{Name: "StringList", Ref: mb.L("String")}, {Name: "StringMap", Ref: mb.M("String")},
				{Name: "DateList", Ref: mb.L("Date")}, {Name: "DateMap", Ref: mb.M("Date")},
			}},
		},
		Resources: []*mb.Resource{{Name: "Root"}},
	}
	m := mb.One(v).Concepts()
	version := m.Services()[0].Versions()[0]
	result := map[string]*concepts.Type{
		"bool": version.Boolean(), "int": version.IntegerType(), "int64": version.LongType(), "float64": version.FloatType(),
		"string": version.StringType(), "time.Time": version.DateType(), "interface{}": version.InterfaceType(),
	}
	for _, t := range version.Types() {
		if t.Name().Camel() == "MyEnum" {
			result["enum"] = t
		}
		if t.Name().Camel() == "MyClass" {
			result["class"] = t
			for _, a := range t.Attributes() {
				result[a.Name().Camel()] = a.Type()
			}
		}
	}
	return version, result
}

type row struct {
	name                           string
	value, nullable, zero, builder string
	imprt                          string
}

// The Go types that represent the types of the model.
func CheckReferences() {
	goName := []string{"", "Other"}[nd.Choose("go name", 2)]
	_, ts := types(goName)
	e, c := "MyEnum", "MyClass"
	if goName != "" {
		e, c = goName, goName
	}
	pkg := "example.com/base/clustersmgmt/v1"
	rows := []row{
		{"bool", "bool", "*bool", "false", "", ""},
		{"int", "int", "*int", "0", "", ""},
		{"int64", "int64", "*int64", "0", "", ""},
		{"float64", "float64", "*float64", "0.0", "", ""},
		{"string", "string", "*string", `""`, "", ""},
		{"time.Time", "time.Time", "*time.Time", "time.Time{}", "", "time"},
		{"interface{}", "interface{}", "interface{}", "nil", "", ""},
		{"enum", e, "*" + e, e + `("")`, "", pkg},
		{"class", c, "*v1." + c, "nil", "*v1." + c + "Builder", pkg},
		{"EnumList", "[]" + e, "[]" + e, "nil", "*v1." + e + "ListBuilder", pkg},
		{"EnumMap", "map[string]" + e, "map[string]" + e, "nil", "", pkg},
		{"ClassList", "[]*v1." + c, "[]*v1." + c, "nil", "*v1." + c + "ListBuilder", pkg},
		{"ClassMap", "map[string]*v1." + c, "map[string]*v1." + c, "nil", "", pkg},
		{"StringList", "[]string", "[]string", "nil", "", ""},
		{"StringMap", "map[string]string", "map[string]string", "nil", "", ""},
		{"DateList", "[]time.Time", "[]time.Time", "nil", "", "time"},
		{"DateMap", "map[string]time.Time", "map[string]time.Time", "nil", "", "time"},
	}
	rep, _ := mb.Reporter()
	packages, err := golang.NewPackagesCalculator().Reporter(rep).Base("example.com/base").Build()
	nd.Assert(err == nil, "can't create the packages calculator")
	calc, err := golang.NewTypesCalculator().Reporter(rep).Packages(packages).Names(calculator()).Build()
	nd.Assert(err == nil, "can't create the types calculator")
	x := rows[nd.Choose("type", len(rows))]
	t := ts[x.name]
	nd.Assert(t != nil, "the type doesn't exist")
	ref := calc.ValueReference(t)
	nd.Reach("calculated")
	nd.Assert(ref.Text() == x.value, "wrong type for values")
	nd.Assert(ref.Import() == x.imprt, "wrong import")
	nd.Assert(calc.NullableReference(t, "").Text() == x.nullable, "wrong type for values that can be nil")
	nd.Assert(calc.ZeroValue(t) == x.zero, "wrong zero value")
	if x.builder != "" {
		nd.Assert(calc.BuilderReference(t, "").Text() == x.builder, "wrong builder")
	}
	r := calc.Reference("imprt", "selector", "name", "text")
	nd.Assert(r.Import() == "imprt" && r.Selector() == "selector" && r.Name() == "name" && r.Text() == "text", "the reference isn't the one given")
	nd.Assert(rep.Errors() == 0, "errors were reported")
}

// The packages of services and versions are valid, inside the base package and in lower case.
func CheckPackages() {
	word := func(label string) (string, *names.Word) {
		text := nd.StringOf(label, 1, 2, lower+"0123456789")
		nd.Assume(nd.Not(between(text[0], '0', '9')))
		return text, names.NewWord(text)
	}
	s := concepts.NewService()
	a, wa := word("service")
	b, wb := word("service")
	s.SetName(names.NewName(wa, wb))
	v := concepts.NewVersion()
	n, wn := word("version")
	v.SetName(names.NewName(wn))
	s.AddVersion(v)
	rep, _ := mb.Reporter()
	base := []string{"example.com/base", "base"}[nd.Choose("base", 2)]
	p, err := golang.NewPackagesCalculator().Reporter(rep).Base(base).Build()
	nd.Assert(err == nil, "can't create the packages calculator")
	nd.Reach("calculated")
	nd.Assert(p.ServicePackage(s) == a+b, "wrong package of service")
	nd.Assert(p.ServiceSelector(s) == a+b, "wrong selector of service")
	nd.Assert(p.ServiceImport(s) == base+"/"+a+b, "wrong import of service")
	nd.Assert(p.VersionPackage(v) == a+b+"/"+n, "wrong package of version")
	nd.Assert(p.VersionSelector(v) == n, "wrong selector of version")
	nd.Assert(p.VersionImport(v) == base+"/"+a+b+"/"+n, "wrong import of version")
	nd.Assert(p.HelpersImport() == base+"/"+p.HelpersPackage(), "wrong import of helpers")
	nd.Assert(p.ErrorsImport() == base+"/"+p.ErrorsPackage(), "wrong import of errors")
	nd.Assert(p.MetricsImport() == base+"/"+p.MetricsPackage(), "wrong import of metrics")
}
