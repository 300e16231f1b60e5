package p10

import (
	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/generators/golang"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/mb"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
)

// more is what is expected of the references to the auxiliary types; the empty text means that there
// is no such thing for the type, and that asking for it is an error.
type more struct {
	name                             string
	structs, lists, enums            string
	json, jsonStruct                 string
	builder, otherBuilder, otherType string
}

// The auxiliary Go types of the types of the model, and the error if there is no such type.
func CheckAuxiliary() {
	goName := []string{"", "Other"}[nd.Choose("go name", 2)]
	_, ts := types(goName)
	e, c := "MyEnum", "MyClass"
	if goName != "" {
		e, c = goName, goName
	}
	rows := []more{
		{"bool", "", "", "", "*bool", "", "", "", "*bool"},
		{"int", "", "", "", "*int", "", "", "", "*int"},
		{"interface{}", "", "", "", "interface{}", "", "", "", "interface{}"},
		{"time.Time", "", "", "", "*time.Time", "", "", "", "*time.Time"},
		{"enum", "", "", e, "*" + e, "", "", "", "*" + e},
		{"class", c, "", "", "*v1.myClassJSON", "*v1.myClassJSON", "*v1." + c + "Builder", "*v9." + c + "Builder", "*v9." + c},
		{"EnumList", e + "List", "*v1." + e + "List", "", "[]" + e, "*v1.myEnumListJSON", "*v1." + e + "ListBuilder", "*v9." + e + "ListBuilder", "[]" + e},
		{"ClassList", c + "List", "*v1." + c + "List", "", "[]*v1.myClassJSON", "*v1.myClassListJSON", "*v1." + c + "ListBuilder", "*v9." + c + "ListBuilder", "[]*v1." + c},
		{"ClassMap", "", "", "", "map[string]*v1.myClassJSON", "", "", "", "map[string]*v1." + c},
		{"StringMap", "", "", "", "map[string]string", "", "", "", "map[string]string"},
	}
	rep, _ := mb.Reporter()
	packages, err := golang.NewPackagesCalculator().Reporter(rep).Base("example.com/base").Build()
	nd.Assert(err == nil, "can't create the packages calculator")
	calc, err := golang.NewTypesCalculator().Reporter(rep).Packages(packages).Names(calculator()).Build()
	nd.Assert(err == nil, "can't create the types calculator")
	x := rows[nd.Choose("type", len(rows))]
	t := ts[x.name]
	nd.Assert(t != nil, "the type doesn't exist")
	var got, want string
	var ref *golang.TypeReference
	switch nd.Choose("what", 8) {
	case 0:
		ref, want = calc.StructReference(t), x.structs
		got = ref.Text()
		nd.Assert(calc.StructName(t) == ref.Name(), "wrong name of struct")
	case 1:
		ref, want = calc.ListReference(t), x.lists
		got = ref.Text()
		nd.Assert(calc.ListName(t) == ref.Name(), "wrong name of list")
	case 2:
		ref, want = calc.EnumReference(t), x.enums
		got = ref.Text()
		nd.Assert(calc.EnumName(t) == ref.Name(), "wrong name of enum")
	case 3:
		ref, want = calc.JSONTypeReference(t), x.json
		got = ref.Text()
	case 4:
		ref, want = calc.JSONStructReference(t), x.jsonStruct
		got = ref.Text()
		nd.Assert(calc.JSONStructName(t) == ref.Name(), "wrong name of JSON struct")
	case 5:
		ref, want = calc.BuilderReference(t, ""), x.builder
		got = ref.Text()
	case 6:
		ref, want = calc.BuilderReference(t, "v9"), x.otherBuilder
		got = ref.Text()
	default:
		ref, want = calc.NullableReference(t, "v9"), x.otherType
		got = ref.Text()
	}
	nd.Reach("calculated")
	nd.Observe("reference", got)
	nd.Assert(got == want, "wrong reference")
	if want == "" {
		nd.Assert(rep.Errors() > 0, "a type that doesn't exist isn't reported as an error")
	} else {
		nd.Assert(rep.Errors() == 0, "errors were reported")
	}
}

// The names of the Go types that represent the types of the model are the public names of the types, or
// the ones of their annotations, whatever they are.
func CheckTypeNames() {
	v := concepts.NewVersion()
	v.SetName(names.ParseUsingCase("v1"))
	s := concepts.NewService()
	s.SetName(names.ParseUsingSeparator("clusters_mgmt", "_"))
	s.AddVersion(v)
	t := concepts.NewType()
	text, name := model("name", nd.Bound("type", 3, 4))
	t.SetName(name)
	enum := nd.Bool("enum")
	if enum {
		t.SetKind(concepts.EnumType)
	} else {
		t.SetKind([]concepts.TypeKind{concepts.ClassType, concepts.StructType}[nd.Choose("kind", 2)])
	}
	want := string([]byte{letter(text[0], true)}) + text[1:]
	if nd.Bool("annotated") {
		want = nd.StringOf("go name", 1, 2, upper)
		a := concepts.NewAnnotation()
		a.SetName("go")
		a.AddParameter("name", want)
		t.AddAnnotation(a)
	}
	v.AddType(t)
	list := concepts.NewType()
	list.SetName(names.Cat(name, names.ParseUsingCase("List")))
	list.SetKind(concepts.ListType)
	list.SetElement(t)
	v.AddType(list)
	rep, _ := mb.Reporter()
	packages, err := golang.NewPackagesCalculator().Reporter(rep).Base("base").Build()
	nd.Assert(err == nil, "can't create the packages calculator")
	calc, err := golang.NewTypesCalculator().Reporter(rep).Packages(packages).Names(calculator()).Build()
	nd.Assert(err == nil, "can't create the types calculator")
	nd.Reach("calculated")
	nd.Assert(calc.ValueReference(t).Name() == want, "wrong name of type")
	nd.Assert(calc.ListName(list) == want+"List", "wrong name of list")
	nd.Assert(calc.BuilderReference(list, "").Name() == want+"ListBuilder", "wrong name of list builder")
	if enum {
		nd.Assert(calc.EnumName(t) == want, "wrong name of enum")
		nd.Assert(calc.ZeroValue(t) == want+`("")`, "wrong zero value")
	} else {
		nd.Assert(calc.StructName(t) == want, "wrong name of struct")
		nd.Assert(calc.BuilderReference(t, "").Name() == want+"Builder", "wrong name of builder")
	}
	nd.Assert(rep.Errors() == 0, "errors were reported")
}
