import sys; sys.path.insert(0, "/verif/tools"); sys.path.insert(0, "/verif/tools/trials")
import os
from mkseed import seed
import a, b
EDITS = {t[0]: t[3] for t in a.TRIALS + b.TRIALS}
only = sys.argv[1:]
def S(id, *args):
    if not only or id in only:
        try: seed(id, *args)
        except AssertionError as e: print("FAILED", e)
R = "pkg/language/reader.go"
def repo(body, imports=""):
    return '''package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/language"
	"github.com/openshift-online/ocm-api-metamodel/pkg/reporter"
''' + "".join('\t"%s"\n' % i for i in imports.split()) + ''')

var _ = strings.Join

func quiet() *reporter.Reporter {
	r, err := reporter.New().Streams(ioutil.Discard, ioutil.Discard).Build()
	if err != nil {
		panic(err)
	}
	return r
}

func write(dir string, files map[string]string) {
	for name, text := range files {
		p := filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(p), 0755)
		ioutil.WriteFile(p, []byte(text), 0644)
	}
}

func read(files map[string]string) (*concepts.Model, error) {
	tmp, err := ioutil.TempDir("", "")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	write(tmp, files)
	return language.NewReader().Reporter(quiet()).Input(tmp).Read()
}

func must(files map[string]string) *concepts.Model {
	m, err := read(files)
	if err != nil {
		fail("%v", err)
	}
	return m
}

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\\n", args...)
	os.Exit(1)
}

func main() {
''' + body + "}\n"
def gen(body, imports="", top=""):
    return '''package main

import (
	"fmt"
	"os"
''' + "".join('\t%s\n' % (i.replace("=", " ") if "=" in i else '"%s"' % i) for i in imports.split()) + '''
	v1 "demo/api/svc/v1"
)

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\\n", args...)
	os.Exit(1)
}
''' + top + '''
func main() {
''' + body + "}\n"
TRANSPORT = '''
type transport struct {
	requests  []*http.Request
	responses []string
	status    int
}

func (t *transport) RoundTrip(r *http.Request) (*http.Response, error) {
	t.requests = append(t.requests, r)
	text := ""
	if len(t.responses) > 0 {
		text = t.responses[0]
		if len(t.responses) > 1 {
			t.responses = t.responses[1:]
		}
	}
	return &http.Response{StatusCode: t.status, Header: http.Header{}, Body: ioutil.NopCloser(strings.NewReader(text)), Request: r}, nil
}
'''
HTTP = "io/ioutil net/http strings "


C = "pkg/generators/golang/clients_generator.go"
B = "pkg/generators/golang/builders_generator.go"
J = "pkg/generators/golang/json_generator.go"
O = "pkg/generators/openapi/openapi_generator.go"
ROOT = "resource Root {\n}\n"
FILE = """	_ = v1.NewClient
	files, _ := filepath.Glob("api/svc/v1/*.go")
	text := ""
	for _, f := range files {
		data, _ := ioutil.ReadFile(f)
		text += string(data)
	}
"""
FI = "io/ioutil strings path/filepath"
S("embed-cache", "P31", "two services with a version of the same name", "the code of one of them contains the document of the other",
  [("pkg/generators/golang/openapi_generator.go", """type OpenAPIGenerator struct {
""", """type OpenAPIGenerator struct {
	data     map[string][]byte
"""), ("pkg/generators/golang/openapi_generator.go", """	jsonData, err := os.ReadFile(jsonFile)
	if err != nil {
		return g.reporter.Errorf(
			"Can't read JSON file '%s' for version '%s': %v",
			jsonFile, version, err,
		)
	}
""", """	if g.data == nil {
		g.data = map[string][]byte{}
	}
	jsonData, ok := g.data[version.Name().String()]
	if !ok {
		jsonData, err = os.ReadFile(jsonFile)
		if err != nil {
			return g.reporter.Errorf(
				"Can't read JSON file '%s' for version '%s': %v",
				jsonFile, version, err,
			)
		}
		g.data[version.Name().String()] = jsonData
	}
""")], "gen", gen("""	if !strings.Contains(string(v1.OpenAPI), "/api/svc/v1") || !strings.Contains(string(other.OpenAPI), "/api/two/v1") {
		fail("wrong document")
	}
""", 'strings other="demo/api/two/v1"'), {"svc/v1/m.model": ROOT, "two/v1/m.model": ROOT})
S("embed-tail", "P31", "a document whose length is a multiple of the bytes in a line plus one", "the last byte is lost",
  [("pkg/generators/golang/buffer.go", """		if i > 0 && i%16 == 0 {
			fmt.Fprintf(buffer, "\\n")
		}
		fmt.Fprintf(buffer, "%#2x,", data[i])
		i++""", """		if i > 0 && i%16 == 0 {
			fmt.Fprintf(buffer, "\\n")
			if i == length-1 {
				break
			}
		}
		fmt.Fprintf(buffer, "%#2x,", data[i])
		i++""")], "repo", repo("""	tmp, err := ioutil.TempDir("", "")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	p, err := golang.NewPackagesCalculator().Reporter(quiet()).Base("a").Build()
	if err != nil {
		panic(err)
	}
	for n := 0; n < 40; n++ {
		b, err := golang.NewBuffer().Reporter(quiet()).Output(tmp).Packages(p).Package("x").File("y").Build()
		if err != nil {
			panic(err)
		}
		if text := b.Eval("{{ byteArray .Data }}", "Data", make([]byte, n)); strings.Count(text, ",") != n {
			os.RemoveAll(tmp)
			fail("%d bytes give %s", n, text)
		}
	}
""", "github.com/openshift-online/ocm-api-metamodel/pkg/generators/golang"))
S("comment-indent", "P31", "documentation that contains indented lines, like examples", "the indentation is lost",
  [("pkg/generators/golang/buffer.go", """		lines[i] = fmt.Sprintf("// %s", line)""", """		lines[i] = fmt.Sprintf("// %s", strings.TrimSpace(line))""")], "gen",
  gen(FILE + """	if !strings.Contains(text, "//    indented") && !strings.Contains(text, "//	   indented") && !strings.Contains(text, "//	indented") {
		fail("the indentation is lost")
	}
""", FI), {"svc/v1/m.model": "// First:\n//\n//   indented\nclass Thing {\n}\n" + ROOT})
S("comment-blank", "P31", "documentation that has an empty line", "the paragraphs are merged in the comment",
  [("pkg/generators/golang/buffer.go", """	for i, line := range lines {
		lines[i] = fmt.Sprintf("// %s", line)
	}""", """	for i, line := range lines {
		if line != "" {
			lines[i] = fmt.Sprintf("// %s", line)
		}
	}""")], "gen",
  gen(FILE + """	if !strings.Contains(text, "First.\\n//\\n// Second.\\ntype Thing struct") {
		fail("the documentation isn't in the comment of the type")
	}
""", FI), {"svc/v1/m.model": "// First.\n//\n// Second.\nclass Thing {\n}\n" + ROOT})
S("error-code", "P31", "an error with a code of less than three digits", "the constant has other value",
  [("pkg/generators/golang/errors_generator.go", """{{ errorName . }} = {{ .Code }}""", """{{ errorName . }} = {{ printf "%03d" .Code }}""")], "gen",
  gen("""	if v1.BadError != 10 {
		fail("wrong code %d", v1.BadError)
	}
"""), {"svc/v1/m.model": "@code(10)\nerror Bad\n" + ROOT} if False else {"svc/v1/m.model": "error Bad { code 10 }\n" + ROOT})
S("message-locator", "P32", "a message about a locator", "it doesn't contain the name of the resource",
  [("pkg/reporter/reporter.go", """		case *concepts.Locator:
			resource := typed.Owner()
			version := resource.Owner()
			service := version.Owner()
			args[i] = r.fqn(service, version, resource, typed)""", """		case *concepts.Locator:
			version := typed.Owner().Owner()
			service := version.Owner()
			args[i] = r.fqn(service, version, typed)""")], "repo", repo("""	m := must(map[string]string{"svc/v1/m.model": `
resource Root { locator A { target A } }
resource A { }
`})
	buf := new(bytes.Buffer)
	r, err := reporter.New().Streams(buf, buf).Build()
	if err != nil {
		panic(err)
	}
	r.Infof("%s", m.Services()[0].Versions()[0].Root().Locators()[0])
	if !strings.Contains(buf.String(), "Svc.V1.Root.A") {
		fail("wrong message %s", buf.String())
	}
""", "bytes"))
S("message-percent", "P32", "a message whose arguments contain a percent sign", "the text of the returned error is other",
  [("pkg/reporter/reporter.go", """	return errors.New(message)""", """	return fmt.Errorf(message)"""), ("pkg/reporter/reporter.go", """	"errors"
""", "")], "repo", repo("""	if e := quiet().Errorf("100%s", "% wrong"); e.Error() != "100% wrong" {
		fail("wrong text %s", e)
	}
	if e := quiet().Errorf("%s", "right"); e.Error() != "right" {
		fail("wrong text %s", e)
	}
"""))
S("action-single", "P14", "an action that has only one output parameter", "the document says that it is the complete body",
  [(O, """	parameters := g.binding.ResponseParameters(method)
	if len(parameters) > 0 {
		g.buffer.StartObject("content")
		g.buffer.StartObject("application/json")
		g.buffer.StartObject("schema")
		if len(parameters) > 1 || method.IsAction() {""", """	parameters := g.binding.ResponseParameters(method)
	if len(parameters) > 0 {
		g.buffer.StartObject("content")
		g.buffer.StartObject("application/json")
		g.buffer.StartObject("schema")
		if len(parameters) > 1 || (method.IsAction() && !parameters[0].Type().IsStruct()) {""")], "gen",
  gen("""	if !strings.Contains(string(v1.OpenAPI), `"result"`) {
		fail("the name of the parameter isn't in the document")
	}
""", "strings"), {"svc/v1/m.model": "class Thing {\n}\nresource Root {\n\tmethod Run {\n\t\tout Result Thing\n\t}\n}\n"})
S("copy-map", "P16", "an object with a map of scalars is copied to a builder", "the builder shares the map with the object",
  [(B, """							b.{{ $fieldName }} = {{ $fieldType }}{}
							for k, v := range object.{{ $fieldName }} {
								b.{{ $fieldName }}[k] = v
							}""", """							b.{{ $fieldName }} = object.{{ $fieldName }}""" ),
   (B, """							object.{{ $fieldName }} = make({{ $fieldType }})
							for k, v := range b.{{ $fieldName }} {
								object.{{ $fieldName }}[k] = v
							}""", """							object.{{ $fieldName }} = b.{{ $fieldName }}""")], "gen",
  gen("""	x, err := v1.NewThing().Labels(map[string]string{"a": "b"}).Build()
	if err != nil {
		panic(err)
	}
	y, err := v1.NewThing().Copy(x).Build()
	if err != nil {
		panic(err)
	}
	y.Labels()["a"] = "c"
	if x.Labels()["a"] != "b" {
		fail("the original changes")
	}
"""), {"svc/v1/m.model": "class Thing {\n\tLabels [String]String\n}\n" + ROOT})
S("copy-list-link", "P16", "an object with a list that is a link is copied after other that has it", "the result has both",
  [(B, """						{{ if .Link }}
							b.{{ $fieldName }} = {{ selectorType . }}{{ builderCtor .Type }}().Copy(object.{{ $fieldName }})
						{{ else }}""", """						{{ if .Link }}
							if b.{{ $fieldName }} == nil {
								b.{{ $fieldName }} = {{ selectorType . }}{{ builderCtor .Type }}()
							}
							b.{{ $fieldName }}.Copy(object.{{ $fieldName }})
						{{ else }}""")], "gen",
  gen("""	l := v1.NewThingList().Items(v1.NewThing().ID("a"))
	b := v1.NewThing().Friends(l)
	y, err := v1.NewThing().Friends(v1.NewThingList().Items(v1.NewThing().ID("b"), v1.NewThing().ID("c"))).Build()
	if err != nil {
		panic(err)
	}
	if _, err = b.Copy(y).Build(); err != nil {
		panic(err)
	}
	x, err := l.Build()
	if err != nil {
		panic(err)
	}
	if x.Len() != 1 {
		fail("the list given to the builder before changes")
	}
"""), {"svc/v1/m.model": "class Thing {\n\tlink Friends []Thing\n}\n" + ROOT})
S("body-interrupted", "P20", "the connection is interrupted before the first byte of the body", "the response is like one without body",
  [(C, """			_, err = reader.Peek(1)
			if err == io.EOF {
				err = nil
				return
			}
			if result.status >= 400 {
				result.err, err = errors.UnmarshalErrorStatus(reader, result.status)
				if err != nil {
					return
				}
				err = result.err
				return
			}
			{{ if $responseParameters }}""", """			_, err = reader.Peek(1)
			if err == io.EOF || err == io.ErrUnexpectedEOF {
				err = nil
				return
			}
			if result.status >= 400 {
				result.err, err = errors.UnmarshalErrorStatus(reader, result.status)
				if err != nil {
					return
				}
				err = result.err
				return
			}
			{{ if $responseParameters }}""")], "gen",
  gen("""	if _, err := v1.NewThingClient(transport{}, "/api").Get().Send(); err == nil {
		fail("there is no error")
	}
""", "io net/http", """
type transport struct{}

func (t transport) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Header: http.Header{}, Body: t, Request: r}, nil
}

func (t transport) Read(p []byte) (int, error) { return 0, io.ErrUnexpectedEOF }

func (t transport) Close() error { return nil }
"""), {"svc/v1/m.model": "class Thing {\n}\nresource Root {\n\tlocator Thing { target Thing }\n}\nresource Thing {\n\tmethod Get { out Body Thing }\n}\n"})
S("body-status", "P20", "a response with a status between 500 and 599 and a body, for the metadata", "it isn't an error",
  [(C, """			if result.status >= 400 {
				result.err, err = errors.UnmarshalErrorStatus(reader, result.status)
				if err != nil {
					return
				}
				err = result.err
				return
			}
			result.body, err""", """			if result.status/100 == 4 {
				result.err, err = errors.UnmarshalErrorStatus(reader, result.status)
				if err != nil {
					return
				}
				err = result.err
				return
			}
			result.body, err""")], "gen",
  gen("""	t := &transport{status: 503, responses: []string{`{"code": "A"}`}}
	r, err := v1.NewClient(t, "/api").Get().Send()
	if err == nil {
		fail("there is no error %v", r)
	}
""", HTTP, TRANSPORT), {"svc/v1/m.model": ROOT})
S("separator-empty", "P01", "an identifier with two consecutive separators", "the empty word is lost, so different identifiers have the same name",
  [("pkg/names/parser.go", """	words := make([]*Word, len(chunks))
	for i, chunk := range chunks {
		words[i] = NewWord(chunk)
	}
	name := NewName(words...)
	name.SetText(text)
	return name
}

// ParseUsingCase""", """	words := make([]*Word, 0, len(chunks))
	for _, chunk := range chunks {
		if chunk != "" {
			words = append(words, NewWord(chunk))
		}
	}
	name := NewName(words...)
	name.SetText(text)
	return name
}

// ParseUsingCase""")], "repo", repo("""	if names.ParseUsingSeparator("a__b", "_").Equals(names.ParseUsingSeparator("a_b", "_")) {
		fail("the names are the same")
	}
""", "github.com/openshift-online/ocm-api-metamodel/pkg/names"))
S("docs-search", "P28", "an action, in the documentation pages", "its HTTP method is the one of the methods without body",
  [("pkg/generators/docs/docs_generator.go", """XX""", """YY""")], "repo", repo("")) if False else None
S("enum-path", "P09", "an enumerated value with a JSON annotation in a class, in the documents", "the document has the name in snake case",
  [(O, """	for _, value := range typ.Values() {
		g.buffer.Item(g.binding.EnumValueName(value))""", """	for _, value := range typ.Values() {
		g.buffer.Item(value.Name().Snake())""")], "gen", gen("""	if !strings.Contains(string(v1.OpenAPI), "x-red") {
		fail("the document doesn't have the name")
	}
""", "strings"), {"svc/v1/m.model": "enum Color {\n\t@json(name=\"x-red\")\n\tRed\n}\n" + ROOT})
S("docs-stale", "P12", "the documentation is generated again, and a page is shorter than before", "the end of the page is the one that it had before",
  [("pkg/markdown/buffer.go", "os.O_CREATE|os.O_TRUNC|os.O_WRONLY", "os.O_CREATE|os.O_WRONLY")], "repo",
  repo("""	tmp, err := ioutil.TempDir("", "")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	file := filepath.Join(tmp, "a.md")
	ioutil.WriteFile(file, []byte(strings.Repeat("old\\n", 1000)), 0644)
	b, err := markdown.NewBufferBuilder().Reporter(quiet()).Output(tmp).File("a").Build()
	if err != nil {
		panic(err)
	}
	b.Emit("New.\\n")
	if err = b.Write(); err != nil {
		panic(err)
	}
	data, _ := ioutil.ReadFile(file)
	if strings.Contains(string(data), "old") {
		os.RemoveAll(tmp)
		fail("the page has the previous content")
	}
	_ = must
""", "github.com/openshift-online/ocm-api-metamodel/pkg/markdown"))
S("copy-late", "P16", "a list of the original object is changed after copying it to a builder, and before building the copy", "the copy has the changes",
  [(B, """								b.{{ $fieldName }} = make({{ $fieldType }}, len(object.{{ $fieldName }}))
								copy(b.{{ $fieldName }}, object.{{ $fieldName }})
""", """								b.{{ $fieldName }} = object.{{ $fieldName }}
""")], "gen",
  gen("""	x, err := v1.NewThing().Tags("a", "b").Build()
	if err != nil {
		panic(err)
	}
	b := v1.NewThing().Copy(x)
	x.Tags()[0] = "c"
	y, err := b.Build()
	if err != nil {
		panic(err)
	}
	if y.Tags()[0] != "a" {
		fail("the copy changes")
	}
"""), {"svc/v1/m.model": "class Thing {\n\tTags []String\n}\n" + ROOT})
S("body-long", "P20", "a response of more than 64 KiB", "it is rejected, or its end is lost",
  [(J, "iterator = jsoniter.Parse(api, typed, 4096)", "iterator = jsoniter.Parse(api, io.LimitReader(typed, 65536), 4096)")], "gen",
  gen("""	t := &transport{status: 200, responses: []string{`{"name":"` + strings.Repeat("x", 70000) + `"}`}}
	r, err := v1.NewThingClient(t, "/api").Get().Send()
	if err != nil || len(r.Body().Name()) != 70000 {
		fail("the body is wrong: %v", err)
	}
""", HTTP, TRANSPORT), {"svc/v1/m.model": "class Thing {\n\tName String\n}\nresource Root {\n\tlocator Thing { target Thing }\n}\nresource Thing {\n\tmethod Get { out Body Thing }\n}\n"})
S("text-null", "P17", "an attribute of type Interface with a text that is null", "the text is lost",
  [(J, """			var {{ .Variable }} interface{}
			iterator.ReadVal(&{{ .Variable }})""", """			{{ .Variable }} := iterator.Read()
			if text, ok := {{ .Variable }}.(string); ok && text == "null" {
				{{ .Variable }} = nil
			}""")], "gen",
  gen("""	x, err := v1.UnmarshalThing(`{"extra":"null"}`)
	if err != nil || x.Extra() != "null" {
		fail("the text is lost")
	}
"""), {"svc/v1/m.model": "class Thing {\n\tExtra Interface\n}\n" + ROOT})
HG = "pkg/generators/golang/helpers_generator.go"
MG = "pkg/generators/golang/metrics_generator.go"
S("header-late", "P20", "a response without body, like the ones of the asynchronous methods, with headers", "the headers of the response are lost",
  [(C, """			result.header = response.Header
			reader := bufio.NewReader(response.Body)
			_, err = reader.Peek(1)
			if err == io.EOF {
				err = nil
				return
			}
			if result.status >= 400 {
				result.err, err = errors.UnmarshalErrorStatus(reader, result.status)
				if err != nil {
					return
				}
				err = result.err
				return
			}
			{{ if $responseParameters }}""", """			reader := bufio.NewReader(response.Body)
			_, err = reader.Peek(1)
			if err == io.EOF {
				err = nil
				return
			}
			result.header = response.Header
			if result.status >= 400 {
				result.err, err = errors.UnmarshalErrorStatus(reader, result.status)
				if err != nil {
					return
				}
				err = result.err
				return
			}
			{{ if $responseParameters }}""")], "gen",
  gen("""	r, err := v1.NewThingClient(transport{}, "/api").Delete().Send()
	if err != nil || r.Header().Get("Location") != "/there" {
		fail("the header is lost: %v", err)
	}
""", HTTP, """
type transport struct{}

func (t transport) RoundTrip(r *http.Request) (*http.Response, error) {
	header := http.Header{}
	header.Set("Location", "/there")
	return &http.Response{StatusCode: 202, Header: header, Body: ioutil.NopCloser(strings.NewReader("")), Request: r}, nil
}
"""), {"svc/v1/m.model": "class Thing {\n\tName String\n}\nresource Root {\n\tlocator Thing { target Thing }\n}\nresource Thing {\n\tmethod Delete { }\n}\n"})
S("value-repeated", "P22", "the same value is added twice to a parameter", "it is sent only once",
  [(HG, """			query.Add(name, text)
""", """			if typed, ok := value.(string); ok && query.Has(name) && query.Get(name) == typed {
				return
			}
			query.Add(name, text)
""")], "gen",
  gen("""	t := &transport{status: 200, responses: []string{"{}"}}
	_, err := v1.NewThingClient(t, "/api").Get().Parameter("p", "x").Parameter("p", "y").Parameter("p", "x").Send()
	if err != nil || t.requests[0].URL.RawQuery != "p=x&p=y&p=x" {
		fail("the query is wrong: %v", t.requests[0].URL.RawQuery)
	}
""", HTTP, TRANSPORT), {"svc/v1/m.model": "class Thing {\n\tName String\n}\nresource Root {\n\tlocator Thing { target Thing }\n}\nresource Thing {\n\tmethod Get { out Body Thing }\n}\n"})
S("any-empty", "P19", "a query parameter of type Interface is set to the empty text", "it isn't sent",
  [(C, """if r.{{ $fieldName }} != nil {
					helpers.AddValue""", """if r.{{ $fieldName }} != nil {{ if .Type.IsInterface }}&& r.{{ $fieldName }} != "" {{ end }}{
					helpers.AddValue""")], "gen",
  gen("""	t := &transport{status: 200, responses: []string{"{}"}}
	_, err := v1.NewThingClient(t, "/api").Get().Filter("").Send()
	if err != nil || t.requests[0].URL.RawQuery != "filter=" {
		fail("the query is wrong: %v", t.requests[0].URL.RawQuery)
	}
""", HTTP, TRANSPORT), {"svc/v1/m.model": "class Thing {\n\tName String\n}\nresource Root {\n\tlocator Thing { target Thing }\n}\nresource Thing {\n\tmethod Get { in Filter Interface out Body Thing }\n}\n"})
S("metrics-overlap", "P27", "an action has the same segment as a locator of the same resource", "the paths inside the target of the locator aren't in the tree",
  [(MG, """		branch[locatorLabel] = locatorBranch
""", """		if _, ok := branch[locatorLabel]; !ok {
			branch[locatorLabel] = locatorBranch
		}
""")], "gen",
  gen("""	_ = v1.NewClient
	data, err := ioutil.ReadFile("api/metrics/path_tree_data.go")
	if err != nil || !strings.Contains(string(data), `"deep"`) {
		fail("the path isn't in the tree: %v", err)
	}
""", "io/ioutil strings "), {"svc/v1/m.model": "resource Root {\n\t@http(name = \"things\")\n\tmethod Scan { }\n\tlocator Things { target Things }\n}\nresource Things {\n\tlocator Deep { target Deep }\n}\nresource Deep {\n}\n"})
