import sys; sys.path.insert(0, "/verif/tools"); sys.path.insert(0, "/verif/tools/seeds")
from mkseed import seed
import re
exec(re.search(r"READ = '''.*?'''\n", open("/verif/tools/seeds/a.py").read(), re.S).group(0))
NAMES = '''package main

import (
	"fmt"
	"os"

	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
)

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\\n", args...)
	os.Exit(1)
}
'''
only = sys.argv[1:]
def S(id, *a, **k):
    if not only or id in only: seed(id, *a, **k)

S("plural-lower", "P01", "an identifier with an initialism followed by lower case text that starts with s, like CPUset",
 "the characters after the s are lost",
 [("pkg/names/parser.go", 'if len(current) >= 2 && isUpper(current) && next == "s" {', 'if len(current) >= 2 && isUpper(current) && strings.HasPrefix(next, "s") {')],
 "repo", NAMES + '''
func main() {
	for _, s := range []string{"CPUset", "MyIDstring", "CPUs", "CPUList"} {
		if c := names.ParseUsingCase(s).Camel(); c != s {
			fail("%s is now %s", s, c)
		}
	}
}
''')
S("order-fold", "P02", "two names that only differ in the case of a letter of an initialism",
 "different names are equivalent in the order",
 [("pkg/names/name.go", '		aText := a.words[i].String()\n		bText := b.words[i].String()', '		aText := strings.ToLower(a.words[i].String())\n		bText := strings.ToLower(b.words[i].String())')],
 "repo", NAMES + '''
func main() {
	a := names.NewName(names.NewWord("id"))
	b := names.NewName(names.NewInitialism("ID"))
	if names.Compare(a, b) == 0 && !a.Equals(b) {
		fail("different names are equivalent")
	}
}
''')
S("cat-share", "P02", "concatenating names where only one has words, and then sorting or changing the result",
 "concatenation changes the operands",
 [("pkg/names/name.go", '''	words = append(words, n.words...)
	return NewName(words...)''', '''	result := new(Name)
	result.words = append(words, n.words...)
	return result''')],
 "repo", NAMES + '''
func main() {
	words := make([]*names.Word, 1, 8)
	words[0] = names.NewWord("a")
	x := names.NewName(names.NewWord("x"))
	y := names.NewName(names.NewWord("y"))
	ax := x.Insert(words...)
	y.Insert(words...)
	if ax.Snake() != "a_x" {
		fail("wrong name %s", ax.Snake())
	}
}
''')
def rule(accept, reject):
    t = READ + '\nfunc main() {\n'
    for want, l in ((True, accept), (False, reject)):
        for m in l:
            t += '''	if _, err := read(map[string]string{"svc/v1/m.model": `
		struct Thing { Name String }
		class Other { Name String }
		enum Color { Red }
		%s
	`}); (err == nil) != %s {
		fail("wrong verdict: %%v", err)
	}
''' % (m if "resource Root" in m else "resource Root { method %s }" % m, "true" if want else "false")
    return t + "}\n"
S("post-inputs", "P04", "a method Post with one struct and one additional input parameter that is in out",
 "methods with more than one input parameter are accepted",
 [("pkg/language/checks.go", '''	for _, parameter := range method.Parameters() {
		if parameter.In() {
			in = append(in, parameter)
		}
		if parameter.Out() {
			out = append(out, parameter)
		}
	}

	// At most one input parameter that should be an struct:''', '''	for _, parameter := range method.Parameters() {
		if parameter.Out() {
			out = append(out, parameter)
		} else if parameter.In() {
			in = append(in, parameter)
		}
	}

	// At most one input parameter that should be an struct:''')],
 "repo", rule(["Post { in Request Thing\n out Response Thing }"], ["Post { in Request Thing\n in out Response Thing }"]))
S("search-body", "P04", "a method Search with a body that is also output", "invalid methods are accepted",
 [("pkg/language/checks.go", '''		// Struct parameters should be input only:
		if parameter.Out() || !parameter.In() {''', '''		// Struct parameters should be input only:
		if parameter.Out() && !parameter.In() {''')],
 "repo", rule(["Search { in Body Thing\n out Items []Thing }"], []) .replace("}\n", "}\n") )
S("list-total", "P04", "a method List whose Total parameter is in out", "invalid methods are accepted",
 [("pkg/language/checks.go", '''		if param.In() || !param.Out() {
			r.reporter.Errorf(
				"Direction of parameter '%s' should be 'out'",
				param,''', '''		if !param.Out() {
			r.reporter.Errorf(
				"Direction of parameter '%s' should be 'out'",
				param,''')],
 "repo", rule(["List { out Total Integer\n out Items []Thing }"], ["List { in out Total Integer\n out Items []Thing }"]))
S("default-bool", "P04", "a boolean default in a parameter of type String", "parameters with a default of other type are accepted",
 [("pkg/language/checks.go", 'if typ != nil && typ != parameter.Type() {', 'if typ != nil && typ != parameter.Type() && parameter.Type() != version.StringType() {')],
 "repo", rule(["Get { in A String = \"x\"\n out Body Thing }"], ["Get { in A String = true\n out Body Thing }"]))
S("paths-share", "P06", "paths with a common prefix of three locators and at least two continuations", "paths share memory and some of them are lost",
 [], "repo", "") if False else None
S("query-enum", "P07", "a scalar input parameter that is also output in a method that isn't an action", "the parameter travels neither in the query nor in the body",
 [("pkg/http/binding_calculator.go", 'if parameter.In() && parameter.Type().IsScalar() {', 'if parameter.In() && parameter.Type().IsScalar() && !parameter.Type().IsInterface() {')],
 "repo", '''package main

import (
	"fmt"
	"os"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/http"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/pkg/reporter"
)

func main() {
	r, _ := reporter.New().Build()
	c, err := http.NewBindingCalculator().Reporter(r).Build()
	if err != nil {
		panic(err)
	}
	t := concepts.NewType()
	t.SetKind(concepts.InterfaceType)
	t.SetName(names.ParseUsingCase("Interface"))
	p := concepts.NewParameter()
	p.SetName(names.ParseUsingCase("Filter"))
	p.SetIn(true)
	p.SetType(t)
	m := concepts.NewMethod()
	m.SetName(names.ParseUsingCase("Get"))
	m.AddParameter(p)
	if len(c.RequestQueryParameters(m))+len(c.RequestBodyParameters(m)) != 1 {
		fmt.Println("the parameter is lost")
		os.Exit(1)
	}
}
''')
BIND = '''package main

import (
	"fmt"
	"os"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/http"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/pkg/reporter"
)

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\\n", args...)
	os.Exit(1)
}

func calculator() *http.BindingCalculator {
	r, _ := reporter.New().Build()
	c, err := http.NewBindingCalculator().Reporter(r).Build()
	if err != nil {
		panic(err)
	}
	return c
}

func annotation(kind, name string) *concepts.Annotation {
	a := concepts.NewAnnotation()
	a.SetName(kind)
	if name != "" {
		a.AddParameter("name", name)
	}
	return a
}

func name(text string) *names.Name { return names.ParseUsingCase(text) }
'''
S("async-method", "P07", "a method AsyncUpdate", "the HTTP method isn't the one of the kind of method",
 [("pkg/http/binding_calculator.go", 'case name.Equals(nomenclator.Update) || name.Equals(nomenclator.AsyncUpdate):\n		return http.MethodPatch', 'case name.Equals(nomenclator.Update):\n		return http.MethodPatch')],
 "repo", BIND + '''
func main() {
	m := concepts.NewMethod()
	m.SetName(name("AsyncUpdate"))
	if calculator().Method(m) != "PATCH" {
		fail("wrong method")
	}
}
''')
S("value-http", "P09", "an enumerated value with an HTTP annotation", "the HTTP annotation changes the name of enumerated values",
 [("pkg/http/binding_calculator.go", '''	name := annotations.JSONName(value)
	if name == "" {''', '''	name := annotations.JSONName(value)
	if name == "" {
		name = annotations.HTTPName(value)
	}
	if name == "" {''')],
 "repo", BIND + '''
func main() {
	v := concepts.NewEnumValue()
	v.SetName(name("Red"))
	v.AddAnnotation(annotation("http", "x"))
	if n := calculator().EnumValueName(v); n != "red" {
		fail("wrong name %s", n)
	}
}
''')
S("search-body2", "P04", "a method Search with a second struct parameter that is in out", "invalid methods are accepted",
 [("pkg/language/checks.go", 'if parameter.Type().IsStruct() && parameter.In() {\n			bodies', 'if parameter.Type().IsStruct() && parameter.In() && !parameter.Out() {\n			bodies')],
 "repo", rule(["Search { in Body Thing\n out Items []Thing }"], ["Search { in Body Thing\n in out Other Thing\n out Items []Thing }"]))
S("dup-list", "P05", "a type that is defined twice, where the first one has no members", "duplicated definitions are accepted",
 [("pkg/language/reader.go", '''	} else if r.isUndefinedType(typ) {
		typ.SetKind(concepts.EnumType)
		r.removeUndefinedType(typ)
	} else {''', '''	} else if r.isUndefinedType(typ) || len(typ.Values()) == 0 && typ.IsEnum() {
		typ.SetKind(concepts.EnumType)
		r.removeUndefinedType(typ)
	} else {''')],
 "repo", READ + '''
func main() {
	_, err := read(map[string]string{"svc/v1/m.model": "enum A { }\\nenum A { Red }\\nresource Root { }\\n"})
	if err == nil {
		fail("the duplicated definition is accepted")
	}
}
''')
S("map-element", "P05", "a type that is used only as the element of a map, and not defined", "undefined types are accepted",
 [("pkg/language/reader.go", '''		elementType.SetName(elementName)
		r.version.AddType(elementType)
		r.addUndefinedType(elementType)
	}

	// Try to find an existing map type''', '''		elementType.SetName(elementName)
		r.version.AddType(elementType)
		if !indexType.IsScalar() {
			r.addUndefinedType(elementType)
		}
	}

	// Try to find an existing map type''')],
 "repo", READ + '''
func main() {
	_, err := read(map[string]string{"svc/v1/m.model": "class A { B [String]C }\\nresource Root { }\\n"})
	if err == nil {
		fail("the undefined type is accepted")
	}
	_, err = read(map[string]string{"svc/v1/m.model": "class A { B [String]C }\\nclass C { }\\nresource Root { }\\n"})
	if err != nil {
		fail("%v", err)
	}
}
''')
S("paths-append", "P06", "paths with a common prefix of three locators and several continuations", "some paths are replaced by others",
 [("pkg/concepts/version.go", '''			path := make([]*Locator, size+1)
			copy(path, current)
			path[size] = locator
			pending = append(pending, path)''', '''			pending = append(pending, append(current, locator))''')],
 "repo", READ + '''
func main() {
	m, err := read(map[string]string{"svc/v1/m.model": `
		resource Root { locator A { target A } }
		resource A { locator B { target B } }
		resource B { locator C { target C } }
		resource C {
			locator X { target X }
			locator Y { target X }
			locator Z { target X }
		}
		resource X { }
	`})
	if err != nil {
		fail("%v", err)
	}
	seen := map[string]bool{}
	for _, p := range m.Services()[0].Versions()[0].Paths() {
		s := ""
		for _, l := range p {
			s += "/" + l.Name().Camel()
		}
		if seen[s] {
			fail("path %s is repeated", s)
		}
		seen[s] = true
	}
	if len(seen) != 6 {
		fail("there are %d paths", len(seen))
	}
}
''')
S("paths-depth", "P06", "a resource that is reached by two different paths", "the paths below resources that have already been visited are lost",
 [("pkg/concepts/version.go", '''		last := current[size-1]
		for _, locator''', '''		last := current[size-1]
		if size > 2 {
			repeated := false
			for _, result := range results[:len(results)-1] {
				if len(result) == size && result[size-1] == last {
					repeated = true
				}
			}
			if repeated {
				continue
			}
		}
		for _, locator''')],
 "repo", READ + '''
func main() {
	m, err := read(map[string]string{"svc/v1/m.model": `
		resource Root {
			locator A { target B }
			locator B { target B }
		}
		resource B { locator C { target C } }
		resource C { locator D { target D } }
		resource D { locator E { target E } }
		resource E { }
	`})
	if err != nil {
		fail("%v", err)
	}
	if n := len(m.Services()[0].Versions()[0].Paths()); n != 8 {
		fail("there are %d paths", n)
	}
}
''')
S("loop-root", "P08", "a loop that doesn't pass through the first resource of the path", "models with loops make the reader run forever",
 [("pkg/language/checks.go", 'for i := last; i >= 0; i-- {', 'for i := last; i > 0; i-- {')],
 "repo", READ + '''
func main() {
	_, err := read(map[string]string{"svc/v1/m.model": `
		resource Root { locator A { target A } }
		resource A { locator Root { target Root } }
	`})
	if err == nil {
		fail("the loop is accepted")
	}
}
''')
S("annot-empty", "P09", "a JSON annotation whose name is an empty string together with an HTTP annotation without a name", "",
 [], "repo", "") if False else None
S("query-order", "P09", "a query parameter that has both annotations", "the JSON annotation is used instead of the HTTP one",
 [("pkg/http/binding_calculator.go", '''	name := annotations.HTTPName(parameter)
	if name == "" {
		// We check''', '''	name := annotations.HTTPName(parameter)
	if name == "" || annotations.JSONName(parameter) != "" {
		// We check''')],
 "repo", BIND + '''
func main() {
	p := concepts.NewParameter()
	p.SetName(name("DryRun"))
	p.AddAnnotation(annotation("json", "a"))
	p.AddAnnotation(annotation("http", "b"))
	if n := calculator().QueryParameterName(p); n != "b" {
		fail("wrong name %s", n)
	}
}
''')
S("doc-blank", "P11", "a documentation comment with a blank line in the middle", "the documentation is cut at the blank line",
 [("pkg/language/reader.go", '''		lines = append([]string{line}, lines...)
		delete(comments, index)''', '''		if strings.TrimSpace(line) == "//" && len(lines) > 1 {
			break
		}
		lines = append([]string{line}, lines...)
		delete(comments, index)''')],
 "repo", READ + '''
func main() {
	m, err := read(map[string]string{"svc/v1/m.model": "// One\\n//\\n// Two\\n// Three\\nresource Root {\\n}\\n"})
	if err != nil {
		fail("%v", err)
	}
	if d := m.Services()[0].Versions()[0].Root().Doc(); d != "One\\n\\nTwo\\nThree" {
		fail("wrong documentation %q", d)
	}
}
''')
S("doc-keep", "P11", "a declaration in the line that follows other declaration that has documentation and is in one line", "comments document several declarations",
 [("pkg/language/reader.go", '''	comments = map[int]string{}

	// Open the source file:''', '''	if comments == nil {
		comments = map[int]string{}
	}

	// Open the source file:''')],
 "repo", READ + '''
func main() {
	m, err := read(map[string]string{
		"svc/v1/a.model": "\\n\\n// Nothing\\n\\nresource Root {\\n}\\n",
		"svc/v1/b.model": "\\n\\n\\nresource Other {\\n}\\n",
	})
	if err != nil {
		fail("%v", err)
	}
	for _, r := range m.Services()[0].Versions()[0].Resources() {
		if r.Doc() != "" {
			fail("wrong documentation %q of %s", r.Doc(), r.Name())
		}
	}
}
''')
S("link-false", "P25", "an attribute of kind attribute after a link in the same class", "", [], "repo", "") if False else None
S("dir-default", "P25", "a parameter without direction that has a default value", "the direction that is read isn't the one of the source",
 [("pkg/language/reader.go", '''	} else {
		parameter.SetOut(true)
	}
''', '''	} else {
		parameter.SetOut(true)
		parameter.SetIn(ctx.GetDflt() != nil)
	}
''')],
 "repo", READ + '''
func main() {
	m, err := read(map[string]string{"svc/v1/m.model": "resource Root { method Do { A Integer = 1 } }\\n"})
	if err != nil {
		fail("%v", err)
	}
	if m.Services()[0].Versions()[0].Root().Methods()[0].Parameters()[0].In() {
		fail("wrong direction")
	}
}
''')
S("default-false", "P25", "a parameter whose default value is false or zero", "the default value is lost",
 [("pkg/language/reader.go", '''	if dfltCtx != nil {
		parameter.SetDefault''', '''	if dfltCtx != nil && dfltCtx.GetResult() != false {
		parameter.SetDefault''')],
 "repo", READ + '''
func main() {
	m, err := read(map[string]string{"svc/v1/m.model": "resource Root { method Do { in A Boolean = false } }\\n"})
	if err != nil {
		fail("%v", err)
	}
	if m.Services()[0].Versions()[0].Root().Methods()[0].Parameters()[0].Default() != false {
		fail("the default is lost")
	}
}
''')
S("octal", "P25", "an integer literal that starts with zero", "integer literals have other value",
 [("pkg/language/reader.go", '''	text := ctx.INTEGER_LITERAL().GetText()
	value, err := strconv.Atoi(text)''', '''	text := ctx.INTEGER_LITERAL().GetText()
	number, err := strconv.ParseInt(text, 0, 0)
	value := int(number)''')],
 "repo", READ + '''
func main() {
	m, err := read(map[string]string{"svc/v1/m.model": "resource Root { method Do { in A Integer = 010 } }\\n"})
	if err != nil {
		fail("%v", err)
	}
	if m.Services()[0].Versions()[0].Root().Methods()[0].Parameters()[0].Default() != 10 {
		fail("wrong default")
	}
}
''')
S("list-early", "P24", "a list of a type that is defined after it is used", "the kind of the list depends on the order of the declarations",
 [("pkg/language/reader.go", '''	listName := names.Cat(elementName, nomenclator.List)
	listType := r.version.FindType(listName)
	if listType == nil {
		listType = concepts.NewType()
		listType.SetKind(concepts.ListType)
		listType.SetName(listName)
		listType.SetElement(elementType)
		r.version.AddType(listType)
	}

	// Return the list type:''', '''	listName := names.Cat(elementName, nomenclator.List)
	listType := r.version.FindType(listName)
	if listType == nil {
		listType = concepts.NewType()
		listType.SetKind(concepts.ListType)
		listType.SetName(listName)
		listType.SetElement(elementType)
		if !r.isUndefinedType(elementType) {
			r.version.AddType(listType)
		}
	}

	// Return the list type:''')],
 "repo", READ + '''
func main() {
	m, err := read(map[string]string{"svc/v1/m.model": "class A { X []B }\\nclass B { }\\nresource Root { }\\n"})
	if err != nil {
		fail("%v", err)
	}
	v := m.Services()[0].Versions()[0]
	for _, t := range v.Types() {
		for _, a := range t.Attributes() {
			if v.FindType(a.Type().Name()) != a.Type() {
				fail("the type of %s isn't the one of the version", a.Name())
			}
		}
	}
}
''')
