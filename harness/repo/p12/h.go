package p12

import (
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/generators"
	"github.com/openshift-online/ocm-api-metamodel/pkg/generators/docs"
	"github.com/openshift-online/ocm-api-metamodel/pkg/generators/golang"
	"github.com/openshift-online/ocm-api-metamodel/pkg/generators/openapi"
	"github.com/openshift-online/ocm-api-metamodel/pkg/http"
	"github.com/openshift-online/ocm-api-metamodel/pkg/language"
	"github.com/openshift-online/ocm-api-metamodel/pkg/markdown"
	"github.com/openshift-online/ocm-api-metamodel/pkg/reporter"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/mb"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
	_ "github.com/openshift-online/ocm-api-metamodel/zzverif/tmpl"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/vfs"
)

func model() *concepts.Model {
	v := &mb.Version{
		Types: []*mb.Type{
			{Kind: mb.Enum, Name: "Color", Values: []*mb.Value{{Name: "Red"}}},
			{Kind: mb.Class, Name: "Car", Attrs: []*mb.Attr{{Name: "Color", Ref: mb.P("Color")}, {Name: "Sizes", Ref: mb.L("Integer")}}},
		},
		Resources: []*mb.Resource{
			{Name: "Root", Locators: []*mb.Locator{{Name: "Cars", Target: "Cars"}}},
			{Name: "Cars", Methods: []*mb.Method{
				{Name: "Add", Params: []*mb.Param{{Name: "Body", Ref: mb.P("Car"), In: true, Out: true}}},
				{Name: "Paint", Params: []*mb.Param{{Name: "Color", Ref: mb.P("Color"), In: true}}},
			}},
		},
		Errors: []*mb.Error{{Name: "Failed", Code: 1}},
	}
	return mb.One(v).Concepts()
}

const kinds = 10

// tools are all the things that generators need.
type tools struct {
	rep      *reporter.Reporter
	model    *concepts.Model
	output   string
	packages *golang.PackagesCalculator
	names    *golang.NamesCalculator
	types    *golang.TypesCalculator
	binding  *http.BindingCalculator
	onames   *openapi.NamesCalculator
	mnames   *markdown.NamesCalculator
}

func newTools() *tools {
	t := &tools{model: model(), output: vfs.Mkdir("out"), binding: mb.Binding()}
	t.rep, _ = mb.Reporter()
	t.packages, _ = golang.NewPackagesCalculator().Reporter(t.rep).Base("example.com/base").Build()
	t.names, _ = golang.NewNamesCalculator().Reporter(t.rep).Build()
	t.types, _ = golang.NewTypesCalculator().Reporter(t.rep).Packages(t.packages).Names(t.names).Build()
	t.onames, _ = openapi.NewNamesCalculator().Reporter(t.rep).Build()
	t.mnames, _ = markdown.NewNamesCalculator().Reporter(t.rep).Build()
	return t
}

func (t *tools) build(kind int) (generators.Generator, error) {
	switch kind {
	case 0:
		return golang.NewErrorsGenerator().Reporter(t.rep).Model(t.model).Output(t.output).Packages(t.packages).Names(t.names).Build()
	case 1:
		return golang.NewHelpersGenerator().Reporter(t.rep).Model(t.model).Output(t.output).Packages(t.packages).Names(t.names).Build()
	case 2:
		return golang.NewTypesGenerator().Reporter(t.rep).Model(t.model).Output(t.output).Packages(t.packages).Names(t.names).Types(t.types).Binding(t.binding).Build()
	case 3:
		return golang.NewBuildersGenerator().Reporter(t.rep).Model(t.model).Output(t.output).Packages(t.packages).Names(t.names).Types(t.types).Build()
	case 4:
		return golang.NewClientsGenerator().Reporter(t.rep).Model(t.model).Output(t.output).Packages(t.packages).Names(t.names).Types(t.types).Binding(t.binding).Build()
	case 5:
		return golang.NewJSONSupportGenerator().Reporter(t.rep).Model(t.model).Output(t.output).Packages(t.packages).Names(t.names).Types(t.types).Binding(t.binding).Build()
	case 6:
		return golang.NewMetricsSupportGenerator().Reporter(t.rep).Model(t.model).Output(t.output).Packages(t.packages).Names(t.names).Binding(t.binding).Build()
	case 7:
		return golang.NewOpenAPIGenerator().Reporter(t.rep).Model(t.model).Output(t.output).Packages(t.packages).Names(t.onames).Binding(t.binding).Build()
	case 8:
		return openapi.NewOpenAPIGenerator().Reporter(t.rep).Model(t.model).Output(t.output).Names(t.onames).Binding(t.binding).Build()
	default:
		return docs.NewDocsGenerator().Reporter(t.rep).Model(t.model).Output(t.output).Names(t.mnames).Build()
	}
}

// When errors have been reported no generator writes anything, and all of them fail.
func CheckGenerators() {
	vfs.Reset()
	t := newTools()
	kind := nd.Choose("generator", kinds)
	g, err := t.build(kind)
	nd.Assert(err == nil, "can't create the generator")
	n := nd.Choose("errors", 2) + 1
	for i := 0; i < n; i++ {
		t.rep.Errorf("Something failed")
	}
	before := vfs.Count()
	err = g.Run()
	nd.Reach("done")
	nd.Assert(err != nil, "the generator doesn't fail in spite of the errors")
	nd.Assert(vfs.Count() == before, "the generator writes files in spite of the errors")
}

// Generators that lack something that they need are rejected.
func CheckMandatory() {
	vfs.Reset()
	t := newTools()
	kind := nd.Choose("generator", kinds)
	// What each generator needs, in addition to the reporter, the model and the output:
	needs := [kinds]string{"pn", "pn", "pnt", "pnt", "pntb", "pnt", "pn", "pob", "ob", ""}[kind]
	missing := nd.Choose("missing", 9)
	expect := false
	has := func(c string) bool { return strings.Contains(needs, c) }
	switch missing {
	case 0:
		t.rep, expect = nil, true
	case 1:
		t.model, expect = nil, true
	case 2:
		t.output, expect = "", true
	case 3:
		t.packages, expect = nil, has("p")
	case 4:
		t.names, expect = nil, has("n")
	case 5:
		t.types, expect = nil, has("t")
	case 6:
		t.onames, expect = nil, has("o")
	case 7:
		t.binding, expect = nil, has("b")
	}
	_, err := t.build(kind)
	nd.Reach("done")
	nd.Assert(!expect || err != nil, "a generator without something that it needs is accepted")
	nd.Assert(missing != 8 || err == nil, "a generator that has everything is rejected")
}

// The buffers write nothing when there are errors, and everything otherwise.
func CheckBuffers() {
	vfs.Reset()
	t := newTools()
	text := []string{"", "old", strings.Repeat("old", 2000)}[nd.Choose("existing", 3)]
	old := text != ""
	kind := nd.Choose("buffer", 3)
	buffer := func(file string) (string, func() error) {
		name := "out/" + []string{file + ".json", "pkg/" + file + ".go", file + ".md"}[kind]
		switch kind {
		case 0:
			b, err := openapi.NewBufferBuilder().Reporter(t.rep).Output(vfs.Root() + "/" + name).Build()
			nd.Assert(err == nil, "can't create the buffer")
			b.StartObject()
			b.Field("a", "b")
			b.EndObject()
			return name, b.Write
		case 1:
			b, err := golang.NewBuffer().Reporter(t.rep).Output(t.output).Packages(t.packages).Package("pkg").File(file).Build()
			nd.Assert(err == nil, "can't create the buffer")
			return name, b.Write
		default:
			b, err := markdown.NewBufferBuilder().Reporter(t.rep).Output(t.output).File(file).Build()
			nd.Assert(err == nil, "can't create the buffer")
			return name, b.Write
		}
	}
	other, fresh := buffer("b")
	nd.Assert(fresh() == nil, "writing fails without errors")
	want, _ := vfs.Read(other)
	name, write := buffer("a")
	if old {
		vfs.Write(name, text)
	}
	n := nd.Choose("errors", 3)
	for i := 0; i < n; i++ {
		t.rep.Errorf("Something failed")
	}
	err := write()
	data, exists := vfs.Read(name)
	nd.Observe("exists", exists)
	nd.Reach("done")
	if n == 0 {
		nd.Assert(err == nil, "writing fails without errors")
		nd.Assert(exists && data == want && data != "", "what is written isn't the content, or depends on what the file had before")
	} else {
		nd.Assert(err != nil, "writing doesn't fail in spite of the errors")
		nd.Assert(exists == old, "the file is written in spite of the errors")
		nd.Assert(!old || data == text, "the file is changed in spite of the errors")
	}
}

// Failures to write any of the files are returned.
func CheckFaults() {
	vfs.Reset()
	kind := nd.Choose("generator", kinds)
	g, err := newTools().build(kind)
	nd.Assert(err == nil, "can't create the generator")
	nd.Assert(g.Run() == nil, "the generator fails without errors")
	files := vfs.List("out")
	nd.Observe("files", strings.Join(files, " "))
	nd.Assert(len(files) > 0, "the generator doesn't write anything")
	file := files[nd.Choose("file", len(files))]
	vfs.Reset()
	t := newTools()
	switch nd.Choose("fault", 3) {
	case 0:
		// There is a directory in the place of the file:
		vfs.Mkdir(file)
	case 1:
		// There is no space to write the file:
		vfs.Full(file)
	default:
		// There is a file in the place of the directory:
		dir := file[:strings.LastIndex(file, "/")]
		nd.Assume(dir != "out")
		vfs.Write(dir, "x")
	}
	g, err = t.build(kind)
	nd.Assert(err == nil, "can't create the generator")
	nd.Reach("done")
	nd.Assert(g.Run() != nil, "the generator doesn't fail when it can't write a file")
}

// The output can't be written.
func CheckFailures() {
	vfs.Reset()
	t := newTools()
	// A file is where the directory should be:
	vfs.Write("out/clusters_mgmt", "x")
	g, err := openapi.NewOpenAPIGenerator().Reporter(t.rep).Model(t.model).Output(t.output).Names(t.onames).Binding(t.binding).Build()
	nd.Assert(err == nil, "can't create the generator")
	nd.Reach("done")
	nd.Assert(g.Run() != nil, "the generator doesn't fail when it can't write")
}

// The reporter counts the errors, and only the errors, and writes all the messages.
func CheckReporter() {
	rep, log := mb.Reporter()
	want, count := "", 0
	for i := nd.Choose("messages", 4); i > 0; i-- {
		text := nd.StringOf("text", 0, 1, "ab")
		switch nd.Choose("kind", 3) {
		case 0:
			rep.Infof("%s", text)
			want += "\033[0;32mI:\033[m " + text + "\n"
		case 1:
			rep.Warnf("%s", text)
			want += "\033[0;33mW:\033[m " + text + "\n"
		default:
			err := rep.Errorf("%s", text)
			nd.Assert(err != nil && err.Error() == text, "the error isn't the message")
			want += "\033[0;31mE:\033[m " + text + "\n"
			count++
		}
	}
	nd.Reach("done")
	nd.Assert(rep.Errors() == count, "wrong number of errors")
	nd.Assert(log.String() == want, "wrong messages")
}

// Reading gives a model, or an error, never both, and there is an error exactly when something is reported.
func CheckReader() {
	vfs.Reset()
	pieces := []string{"", "class A {\n}\n", "class A {\n\tB C\n}\n", "enum A {\n\tX\n}\n", "resource A {\n\tlocator L {\n\t\tvariable ID\n\t}\n}\n", "error A {\n\tcode x\n}\n"}
	text := pieces[nd.Choose("first", len(pieces))] + pieces[nd.Choose("second", len(pieces))]
	if nd.Choose("root", 2) == 1 {
		text += "resource Root {\n}\n"
	}
	vfs.Write("model/my_service/v1/a.model", text)
	previous := nd.Choose("previous errors", 2)
	rep, _ := mb.Reporter()
	for i := 0; i < previous; i++ {
		rep.Errorf("Previous")
	}
	inputs := []string{vfs.Root() + "/model", vfs.Root() + "/missing", vfs.Root() + "/model/my_service/v1/a.model"}
	which := nd.Choose("input", 3)
	var m *concepts.Model
	var err error
	crashed := nd.Panics(func() { m, err = language.NewReader().Reporter(rep).Input(inputs[which]).Read() })
	nd.Assert(!crashed, "reading crashes")
	nd.Observe("errors", rep.Errors())
	nd.Reach("done")
	nd.Assert((m == nil) == (err != nil), "there is both a model and an error, or none of them")
	nd.Assert((rep.Errors() > 0) == (err != nil), "errors are reported but the result isn't an error, or the other way round")
	nd.Assert(which == 0 || err != nil, "an input that isn't a directory is accepted")
}

// Without errors the generators write complete files, with the package or document that they should.
func CheckComplete() {
	vfs.Reset()
	t := newTools()
	kind := nd.Choose("generator", kinds)
	g, err := t.build(kind)
	nd.Assert(err == nil, "can't create the generator")
	nd.Assert(g.Run() == nil, "the generator fails without errors")
	files := vfs.List("out")
	nd.Reach("generated")
	nd.Assert(len(files) > 0, "nothing is written")
	for _, f := range files {
		text, ok := vfs.Read(f)
		nd.Assert(ok && len(text) > 0, "a file is empty")
		nd.Observe(f, normal(text))
		if strings.HasSuffix(f, ".go") {
			nd.Assert(strings.Contains(text, "\npackage "), "a file doesn't have a package")
			i := strings.LastIndexByte(strings.TrimRight(text, "\n"), '\n')
			nd.Assert(i > 0, "a file is truncated")
		}
	}
}

// normal removes the blank space, and the imports, whose order isn't always the same.
func normal(text string) string {
	if i := strings.Index(text, "\nimport ("); i >= 0 {
		j := strings.Index(text[i:], "\n)\n")
		nd.Assert(j >= 0, "the imports aren't complete")
		text = text[:i] + text[i+j+2:]
	}
	return strings.Join(strings.Fields(text), "")
}

// The writer of models fails when something is missing or has been reported, and only then.
func CheckWriter() {
	t := newTools()
	r, m, o := nd.Bool("reporter"), nd.Bool("model"), nd.Bool("output")
	errors := nd.Choose("errors", 4)
	w := language.NewWriter()
	if r {
		w.Reporter(t.rep)
	}
	if m {
		w.Model(t.model)
	}
	if o {
		w.Output("out")
	}
	for i := 0; i < errors; i++ {
		t.rep.Errorf("error")
	}
	var err error
	nd.Assert(!nd.Panics(func() { err = w.Write() }), "writing the model crashed")
	nd.Reach("written")
	nd.Assert((err == nil) == (r && m && o && errors == 0), "the result of writing the model is wrong")
	nd.Assert(t.rep.Errors() == errors, "errors have been reported or forgotten")
}
