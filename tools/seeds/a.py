import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
READ = '''package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/language"
	"github.com/openshift-online/ocm-api-metamodel/pkg/reporter"
)

func read(files map[string]string) (*concepts.Model, error) {
	tmp, err := ioutil.TempDir("", "")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	for name, text := range files {
		p := filepath.Join(tmp, name)
		os.MkdirAll(filepath.Dir(p), 0755)
		ioutil.WriteFile(p, []byte(text), 0644)
	}
	r, err := reporter.New().Streams(ioutil.Discard, ioutil.Discard).Build()
	if err != nil {
		panic(err)
	}
	return language.NewReader().Reporter(r).Input(tmp).Read()
}

func fail(format string, args ...interface{}) {
	fmt.Printf(format+"\\n", args...)
	os.Exit(1)
}
'''
seed("loop-depth", "P08", "a resource without any loop that is reached by two paths of different length",
 "valid models with shared resources are rejected as if they had loops",
 [("pkg/language/checks.go", '''	// If we are here then there is no loop in this path, so we can continue recusively:
	for _, next := range path[last].Target().Locators() {''',
'''	// Resources that appear again deeper in the tree also introduce a loop:
	for i, previous := range path[0].Owner().Locators() {
		if i < last && previous != path[0] && previous.Target() == path[last].Target() {
			r.reportLocatorPathLoop(path)
			return
		}
	}

	// If we are here then there is no loop in this path, so we can continue recusively:
	for _, next := range path[last].Target().Locators() {''')],
 "repo", READ + '''
func main() {
	_, err := read(map[string]string{"svc/v1/m.model": `
		resource Root {
			locator A { target A }
			locator B { target B }
		}
		resource A { }
		resource B { locator A { target A } }
	`})
	if err != nil {
		fail("a model without loops is rejected: %v", err)
	}
}
''')
seed("map-alias", "P15", "changing the map given to a builder after building the object",
 "built objects share their maps with the builder and with the caller",
 [("pkg/generators/golang/builders_generator.go", '''							object.{{ $fieldName }} = make({{ $fieldType }})
							for k, v := range b.{{ $fieldName }} {
								object.{{ $fieldName }}[k] = v
							}
''', '''							object.{{ $fieldName }} = b.{{ $fieldName }}
''')], "gen", '''package main

import (
	"fmt"
	"os"

	v1 "demo/api/svc/v1"
)

func main() {
	labels := map[string]string{"a": "b"}
	o, err := v1.NewThing().Labels(labels).Build()
	if err != nil {
		panic(err)
	}
	labels["a"] = "c"
	if o.Labels()["a"] != "b" {
		fmt.Println("the object has changed")
		os.Exit(1)
	}
}
''', {"svc/v1/m.model": "class Thing {\n\tLabels [String]String\n}\nresource Root {\n}\n"})
seed("values-neighbour", "P03", "an enumerated type with at least three values added in descending order",
 "the values of enumerated types aren't sorted by name",
 [("pkg/concepts/type.go", '''		t.values = append(t.values, value)
		sort.Sort(t.values)
''', '''		t.values = append(t.values, value)
		if last := len(t.values) - 1; last > 0 && t.values.Less(last, last-1) {
			t.values.Swap(last, last-1)
		}
''')], "repo", READ + '''
func main() {
	m, err := read(map[string]string{"svc/v1/m.model": `
		enum E { C B A }
		resource Root { }
	`})
	if err != nil {
		fail("%v", err)
	}
	for _, t := range m.Services()[0].Versions()[0].Types() {
		if t.IsEnum() {
			for i := 1; i < len(t.Values()); i++ {
				if t.Values()[i-1].Name().String() > t.Values()[i].Name().String() {
					fail("not sorted")
				}
			}
		}
	}
}
''')
seed("compare-joined", "P02", "two names where one word is a prefix of the other and the next character sorts before the separator",
 "names are ordered by their text instead of by words",
 [("pkg/names/name.go", '''		aText := a.words[i].String()
		bText := b.words[i].String()
		result = strings.Compare(aText, bText)''', '''		aText := a.words[i].String()
		bText := b.words[i].String()
		if len(aText) != len(bText) && i+1 == minLen && aLen != bLen {
			aText, bText = a.String(), b.String()
		}
		result = strings.Compare(aText, bText)''')], "repo", '''package main

import (
	"fmt"
	"os"

	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
)

func main() {
	a := names.ParseUsingSeparator("Api_Url", "_")
	b := names.ParseUsingSeparator("Api2", "_")
	c := names.ParseUsingSeparator("ApiX", "_")
	if names.Compare(a, b) != -1 || names.Compare(a, c) != -1 {
		fmt.Println("wrong order")
		os.Exit(1)
	}
}
''')
