import sys; sys.path.insert(0, "/verif/tools"); sys.path.insert(0, "/verif/tools/trials")
import os
from mkseed import seed
import a, b
EDITS = {t[0]: t[3] for t in a.TRIALS + b.TRIALS}
only = sys.argv[1:]
def S(id, *args):
    if not only or id in only:
        seed(id, *args)
R = "pkg/language/reader.go"
def repo(body, imports=""):
    return '''package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/language"
	"github.com/openshift-online/ocm-api-metamodel/pkg/reporter"
''' + "".join('\t"%s"\n' % i for i in imports.split()) + ''')

var _ = strings.Join

func quiet() *reporter.Reporter {
	r, err := reporter.New().Streams(ioutil.Discard, ioutil.Discard).Build()
	if err != nil {
		panic(err)
	}
	return r
}

func write(dir string, files map[string]string) {
	for name, text := range files {
		p := filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(p), 0755)
		ioutil.WriteFile(p, []byte(text), 0644)
	}
}

func read(files map[string]string) (*concepts.Model, error) {
	tmp, err := ioutil.TempDir("", "")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	write(tmp, files)
	return language.NewReader().Reporter(quiet()).Input(tmp).Read()
}

func must(files map[string]string) *concepts.Model {
	m, err := read(files)
	if err != nil {
		fail("%v", err)
	}
	return m
}

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\\n", args...)
	os.Exit(1)
}

func main() {
''' + body + "}\n"
def gen(body, imports="", top=""):
    return '''package main

import (
	"fmt"
	"os"
''' + "".join('\t%s\n' % (i.replace("=", " ") if "=" in i else '"%s"' % i) for i in imports.split()) + '''
	v1 "demo/api/svc/v1"
)

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\\n", args...)
	os.Exit(1)
}
''' + top + '''
func main() {
''' + body + "}\n"
TRANSPORT = '''
type transport struct {
	requests  []*http.Request
	responses []string
	status    int
}

func (t *transport) RoundTrip(r *http.Request) (*http.Response, error) {
	t.requests = append(t.requests, r)
	text := ""
	if len(t.responses) > 0 {
		text = t.responses[0]
		if len(t.responses) > 1 {
			t.responses = t.responses[1:]
		}
	}
	return &http.Response{StatusCode: t.status, Header: http.Header{}, Body: ioutil.NopCloser(strings.NewReader(text)), Request: r}, nil
}
'''
HTTP = "io/ioutil net/http strings "

S("split-plural", "P01", "an identifier that ends with an initialism of two letters in plural, like IDs",
  "the plural of the initialism isn't one word", EDITS["n-plural"], "repo",
  repo('''	if n := names.ParseUsingCase("ClusterIDs"); len(n.Words()) != 2 {
		fail("wrong words: %s", n.Snake())
	}
''', "github.com/openshift-online/ocm-api-metamodel/pkg/names"))
S("action-map", "P07", "an action with an input parameter that is a map", "the parameter isn't sent anywhere",
  [("pkg/http/binding_calculator.go", '''	if method.IsAction() {
		for _, parameter := range method.Parameters() {
			if parameter.In() {''', '''	if method.IsAction() {
		for _, parameter := range method.Parameters() {
			if parameter.In() && !parameter.Type().IsMap() {''')], "repo",
  repo('''	m := must(map[string]string{"svc/v1/m.model": "resource Root { method Do { in Labels [String]String in A Integer } }\\n"})
	c, err := http.NewBindingCalculator().Reporter(quiet()).Build()
	if err != nil {
		panic(err)
	}
	if n := len(c.RequestBodyParameters(m.Services()[0].Versions()[0].Root().Methods()[0])); n != 2 {
		fail("there are %d parameters in the body", n)
	}
''', "github.com/openshift-online/ocm-api-metamodel/pkg/http"))
S("metrics-actions", "P27", "a version whose root resource has actions and no locators", "the paths of the actions of the root aren't in the tree",
  EDITS["m-root"], "gen", gen('''	_ = v1.NewClient
	files, _ := filepath.Glob("api/metrics/*.go")
	text := ""
	for _, f := range files {
		data, _ := ioutil.ReadFile(f)
		text += string(data)
	}
	if !strings.Contains(text, "hibernate") {
		fail("the path of the action isn't in the tree")
	}
''', "io/ioutil strings path/filepath"), {"svc/v1/m.model": "resource Root {\n\tmethod Hibernate { }\n}\n"})
S("openapi-deep", "P14", "a resource that is reached by a path of more than three locators", "the paths aren't in the document",
  EDITS["o-index"], "repo", repo('''	m := must(map[string]string{"svc/v1/m.model": `
resource Root { locator A { target A } }
resource A { locator B { target B } }
resource B { locator C { target C } }
resource C { locator D { target D } }
resource D { method Do { } }
`})
	tmp, err := ioutil.TempDir("", "")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	n, err := openapi.NewNamesCalculator().Reporter(quiet()).Build()
	if err != nil {
		panic(err)
	}
	c, err := http.NewBindingCalculator().Reporter(quiet()).Build()
	if err != nil {
		panic(err)
	}
	g, err := openapi.NewOpenAPIGenerator().Reporter(quiet()).Model(m).Output(tmp).Names(n).Binding(c).Build()
	if err != nil {
		panic(err)
	}
	if err = g.Run(); err != nil {
		panic(err)
	}
	data, _ := ioutil.ReadFile(filepath.Join(tmp, "svc", "v1", "openapi.json"))
	if !strings.Contains(string(data), "/api/svc/v1/a/b/c/d/do") {
		os.RemoveAll(tmp)
		fail("the path isn't in the document")
	}
''', "github.com/openshift-online/ocm-api-metamodel/pkg/generators/openapi github.com/openshift-online/ocm-api-metamodel/pkg/http"))
S("map-names", "P25", "two maps with the same type of elements and different types of keys", "the second map has the keys of the first one",
  EDITS["r-map-name"], "repo", repo('''	m := must(map[string]string{"svc/v1/m.model": "class T { A [String]Long B [Integer]Long }\\nresource Root { }\\n"})
	for _, t := range m.Services()[0].Versions()[0].Types() {
		for _, a := range t.Attributes() {
			want := map[string]string{"a": "String", "b": "Integer"}[a.Name().Snake()]
			if got := a.Type().Index().Name().Camel(); got != want {
				fail("the index of %s is %s", a.Name(), got)
			}
		}
	}
'''))
S("doc-long", "P11", "a comment of more than fifty lines", "the first lines of the comment are lost",
  EDITS["r-class-doc"], "repo", repo('''	text := ""
	for i := 0; i < 60; i++ {
		text += fmt.Sprintf("// Line %d.\\n", i)
	}
	m := must(map[string]string{"svc/v1/m.model": text + "class Thing {\\n}\\nresource Root {\\n}\\n"})
	for _, t := range m.Services()[0].Versions()[0].Types() {
		if t.IsClass() && !strings.HasPrefix(t.Doc(), "Line 0.\\n") {
			fail("the documentation is incomplete")
		}
	}
'''))
S("link-kind", "P17", "a document whose kind ends with Link, but isn't the kind of the links of the class", "the object is a link",
  EDITS["j-kind-link"], "gen", gen('''	for kind, link := range map[string]bool{"Link": false, "Thing": false, "ThingLink": true, "OtherLink": false} {
		o, err := v1.UnmarshalThing(`{"kind": "` + kind + `", "id": "1"}`)
		if err != nil {
			fail("%v", err)
		}
		if o.Link() != link {
			fail("wrong link flag for kind %s", kind)
		}
	}
'''), {"svc/v1/m.model": "class Thing {\n}\nresource Root {\n}\n"})
S("truncated", "P20", "a successful response whose body isn't JSON", "an empty result is returned instead of the error",
  EDITS["c-eof"], "gen", gen('''	t := &transport{status: 200, responses: []string{"<html>"}}
	_, err := v1.NewThingClient(t, "/api").Get().Send()
	_ = err
	x := &transport{status: 200, responses: []string{"{"}}
	if _, err := v1.NewThingClient(x, "/api").Get().Send(); err == nil {
		fail("there is no error")
	}
''', HTTP, TRANSPORT), {"svc/v1/m.model": "class Thing {\n}\nresource Root {\n\tlocator Thing { target Thing }\n}\nresource Thing {\n\tmethod Get { out Body Thing }\n}\n"})
S("copy-nested", "P16", "a builder that has a nested object receives a copy of an object without it", "the result has the nested object of the previous one",
  EDITS["b-copy-nil"], "gen", gen('''	empty, err := v1.NewThing().Part(nil).Build()
	if err != nil {
		panic(err)
	}
	b := v1.NewThing().Part(v1.NewPart().Name("a"))
	o, err := b.Copy(empty).Build()
	if err != nil {
		panic(err)
	}
	if o.Part() != nil || o.Part().Name() != "" {
		fail("the object has what the builder had")
	}
	o, err = b.Part(v1.NewPart().Name("b")).Copy(empty).Part(nil).Build()
	if err != nil {
		panic(err)
	}
	p := v1.NewPart().Name("c")
	y, err := v1.NewThing().Part(p).Build()
	if err != nil {
		panic(err)
	}
	z, err := v1.NewThing().Copy(y).Copy(&v1.Thing{}).Part(nil).Build()
	if err != nil || z.Part() != nil || o.Part() != nil {
		fail("the object has what the builder had")
	}
	c := v1.NewThing().Copy(y).Copy(empty)
	d, err := v1.NewThing().Copy(&v1.Thing{}).Build()
	if err != nil || d.Part() != nil {
		fail("the object has what the builder had")
	}
	e, err := c.Build()
	if err != nil || e.Part() != nil {
		fail("the object has what the builder had")
	}
'''), {"svc/v1/m.model": "class Thing {\n\tPart Part\n}\nstruct Part {\n\tName String\n}\nresource Root {\n}\n"})
S("slice-shared", "P18", "the slice returned by a list is changed", "the list changes too",
  EDITS["t-slice-nil"], "gen", gen('''	l, err := v1.NewThingList().Items(v1.NewThing().ID("a"), v1.NewThing().ID("b")).Build()
	if err != nil {
		panic(err)
	}
	s := l.Slice()
	s[0], s[1] = s[1], s[0]
	if l.Get(0).ID() != "a" {
		fail("the list has changed")
	}
'''), {"svc/v1/m.model": "class Thing {\n}\nresource Root {\n\tlocator Things { target Things }\n}\nresource Things {\n\tmethod List {\n\t\tin out Page Integer = 1\n\t\tin out Size Integer = 100\n\t\tout Total Integer\n\t\tout Items []Thing\n\t}\n}\n"})
S("flags-33", "P13", "a struct with exactly thirty three attributes", "the generated code doesn't have a flag for the last attribute",
  EDITS["k-bits"], "gen", gen('''	a, err := v1.NewThing().A32(true).Build()
	if err != nil {
		panic(err)
	}
	if v, ok := a.GetA32(); !ok || !v {
		fail("the attribute has no value")
	}
	if _, ok := a.GetA00(); ok {
		fail("other attribute has a value")
	}
'''), {"svc/v1/m.model": "struct Thing {\n" + "".join("\tA%02d Boolean\n" % i for i in range(33)) + "}\nresource Root {\n}\n"})
S("query-shared", "P19", "a request with several additional parameters that is sent more than once", "the parameters of the method are sent twice",
  EDITS["c-query-alias"], "gen", gen('''	t := &transport{status: 200, responses: []string{"{}"}}
	r := v1.NewThingClient(t, "/api").Get().Parameter("a", 1).Parameter("b", 2).Deep(true)
	r.Send()
	r.Send()
	for _, x := range t.requests {
		if len(x.URL.Query()["deep"]) != 1 {
			fail("wrong query %s", x.URL.RawQuery)
		}
	}
''', HTTP, TRANSPORT), {"svc/v1/m.model": "class Thing {\n}\nresource Root {\n\tlocator Thing { target Thing }\n}\nresource Thing {\n\tmethod Get {\n\t\tin Deep Boolean\n\t\tout Body Thing\n\t}\n}\n"})
S("parse-base", "P22", "an integer in the query that starts with zero", "the value is other",
  EDITS["h-parse-base"], "gen", gen('''	_ = v1.NewClient
	for text, want := range map[string]int{"10": 10, "010": 10, "-5": -5, "0": 0} {
		got, err := helpers.ParseInteger(url.Values{"a": {text}}, "a")
		if err != nil || *got != want {
			fail("wrong value for %s", text)
		}
	}
''', 'net/url helpers="demo/api/helpers"'), {"svc/v1/m.model": "resource Root {\n}\n"})
S("error-status", "P23", "the document of an error contains a status that isn't the one of the response", "the status is the one of the document",
  EDITS["e-status-doc"], "gen", gen('''	_ = v1.NewClient
	e, err := errors.UnmarshalErrorStatus(`{"status": 409, "code": "A-1"}`, 400)
	if err != nil || e.Status() != 400 {
		fail("wrong status")
	}
	e, err = errors.UnmarshalErrorStatus(`{"code": "A-1"}`, 400)
	if err != nil || e.Status() != 400 {
		fail("wrong status")
	}
''', 'errors="demo/api/errors"'), {"svc/v1/m.model": "resource Root {\n}\n"})
S("poll-error", "P21", "a response with a good status that can't be read, before the deadline", "the polling stops",
  EDITS["c-poll-error"], "gen", gen('''	t := &transport{status: 200, responses: []string{"{", `{"id": "1"}`}}
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	r, err := v1.NewThingClient(t, "/api").Poll().Interval(time.Millisecond).Status(200).Predicate(func(r *v1.ThingGetResponse) bool { return r.Body().ID() == "1" }).StartContext(ctx)
	if len(t.requests) != 2 || err != nil || r.Body().ID() != "1" {
		fail("there were %d requests", len(t.requests))
	}
''', HTTP + "context time", TRANSPORT), {"svc/v1/m.model": "class Thing {\n}\nresource Root {\n\tlocator Thing { target Thing }\n}\nresource Thing {\n\tmethod Get { out Body Thing }\n}\n"})
S("openapi-errors", "P12", "exactly one error is reported before writing an OpenAPI document", "the document is written",
  [("pkg/generators/openapi/buffer.go", '''	errors := b.reporter.Errors()
	if errors > 0 {
		if errors > 1 {
			err = fmt.Errorf("there were %d errors", errors)
		} else {
			err = fmt.Errorf("there was 1 error")
		}
		return err
	}''', '''	errors := b.reporter.Errors()
	if errors > 1 {
		err = fmt.Errorf("there were %d errors", errors)
		return err
	}''')], "repo", repo('''	tmp, err := ioutil.TempDir("", "")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	for n := 1; n <= 2; n++ {
		r := quiet()
		for i := 0; i < n; i++ {
			r.Errorf("an error")
		}
		p := filepath.Join(tmp, "doc.json")
		b, err := openapi.NewBufferBuilder().Reporter(r).Output(p).Build()
		if err != nil {
			panic(err)
		}
		b.StartObject("")
		b.EndObject()
		if err = b.Write(); err == nil {
			os.RemoveAll(tmp)
			fail("there is no error")
		}
	}
''', "github.com/openshift-online/ocm-api-metamodel/pkg/generators/openapi"))
S("go-words", "P10", "an identifier whose first word is an initialism and that isn't exported", "the identifier is exported",
  [("pkg/generators/golang/names_calculator.go", '''		if i == 0 {
			chunks[i] = strings.ToLower(word.String())
		} else {''', '''		if i == 0 && !(len(words) > 2 && word.Initialism()) {
			chunks[i] = strings.ToLower(word.String())
		} else {''')], "repo", repo('''	c, err := golang.NewNamesCalculator().Reporter(quiet()).Build()
	if err != nil {
		panic(err)
	}
	for _, text := range []string{"CPU", "CPUCount", "CPUCountTotal", "Cpu", "TotalCPUCount"} {
		s := c.Private(names.ParseUsingCase(text))
		if s[0] < 'a' || s[0] > 'z' {
			fail("%s is exported", s)
		}
	}
''', "github.com/openshift-online/ocm-api-metamodel/pkg/generators/golang github.com/openshift-online/ocm-api-metamodel/pkg/names"))
S("file-names", "P24", "a file whose name starts with an underscore", "its declarations aren't read",
  EDITS["r-file-order"], "repo", repo('''	m := must(map[string]string{"svc/v1/_m.model": "class Thing {\\n}\\n", "svc/v1/root.model": "resource Root {\\n}\\n"})
	n := 0
	for _, t := range m.Services()[0].Versions()[0].Types() {
		if t.IsClass() {
			n++
		}
	}
	if n != 1 {
		fail("there are %d classes", n)
	}
'''))
S("ref-maps", "P26", "a referenced class that has a map whose elements are structs that aren't used elsewhere", "the type of the elements isn't in the version",
  [(R, '''		} else if attribute.Type().IsList() || attribute.Type().IsMap() {
			r.version.AddType(attribute.Type())
''', '''		} else if attribute.Type().IsList() {
			r.version.AddType(attribute.Type())
''')], "repo", repo('''	m := must(map[string]string{
		"aaa/v1/m.model": "@ref(path=\\"/bbb/v1/thing\\")\\nclass Thing {\\n}\\nresource Root {\\n}\\n",
		"bbb/v1/m.model": "class Thing {\\n\\tParts [String]Part\\n}\\nstruct Part {\\n\\tName String\\n}\\nresource Root {\\n}\\n",
	})
	for _, s := range m.Services() {
		n := 0
		for _, t := range s.Versions()[0].Types() {
			if t.IsStruct() && !t.IsClass() {
				n++
			}
		}
		if n != 1 {
			fail("there are %d structs in %s", n, s.Name())
		}
	}
'''))
S("docs-empty", "P28", "an enumerated type without values", "the documentation doesn't have a page for the type",
  EDITS["d-empty-type"], "repo", repo('''	m := must(map[string]string{"svc/v1/m.model": "enum Colour {\\n}\\nclass Thing {\\n\\tA Colour\\n}\\nresource Root {\\n}\\n"})
	tmp, err := ioutil.TempDir("", "")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	n, err := markdown.NewNamesCalculator().Reporter(quiet()).Build()
	if err != nil {
		panic(err)
	}
	g, err := docs.NewDocsGenerator().Reporter(quiet()).Model(m).Output(tmp).Names(n).Build()
	if err != nil {
		panic(err)
	}
	if err = g.Run(); err != nil {
		panic(err)
	}
	found := false
	filepath.Walk(tmp, func(p string, _ os.FileInfo, _ error) error {
		found = found || strings.Contains(p, "colour")
		return nil
	})
	if !found {
		os.RemoveAll(tmp)
		fail("there is no page")
	}
''', "github.com/openshift-online/ocm-api-metamodel/pkg/generators/docs github.com/openshift-online/ocm-api-metamodel/pkg/markdown"))
S("error-parameter", "P30", "an output parameter of a method named Error", "the generated code doesn't compile",
  [("pkg/generators/golang/clients_generator.go", '	"Error":  nil,\n', '')], "gen", gen('''	t := &transport{status: 200, responses: []string{`{"error": "a"}`}}
	if _, err := v1.NewClient(t, "/api").Do().Send(); err != nil {
		fail("%v", err)
	}
''', HTTP, TRANSPORT), {"svc/v1/m.model": "resource Root {\n\tmethod Do { out Error String }\n}\n"})
S("error-repeated", "P05", "an error with code zero is defined twice", "the model is accepted",
  EDITS["r-error-dup"], "repo", repo('''	_, err := read(map[string]string{"svc/v1/a.model": "error Bad {\\n\\tcode 0\\n}\\nresource Root {\\n}\\n", "svc/v1/b.model": "error Bad {\\n\\tcode 1\\n}\\n"})
	if err == nil {
		fail("the model has been accepted")
	}
'''))
