package p28

import (
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/generators/docs"
	"github.com/openshift-online/ocm-api-metamodel/pkg/markdown"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/mb"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
	_ "github.com/openshift-online/ocm-api-metamodel/zzverif/tmpl"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/vfs"
)

// section is a part of a page: the title with its level, the lines of text and the rows of the table.
type section struct {
	level int
	title string
	lines []string
	rows  [][]string
}

// pages are the generated pages.
type pages struct {
	files []string
}

func generate(m *mb.Model) *pages {
	vfs.Reset()
	rep, _ := mb.Reporter()
	n, err := markdown.NewNamesCalculator().Reporter(rep).Build()
	nd.Assert(err == nil, "can't create the names calculator")
	g, err := docs.NewDocsGenerator().Reporter(rep).Model(m.Concepts()).Output(vfs.Mkdir("out")).Names(n).Build()
	nd.Assert(err == nil, "can't create the generator")
	nd.Assert(g.Run() == nil, "the generator fails")
	nd.Assert(rep.Errors() == 0, "errors were reported")
	return &pages{vfs.List("out")}
}

// read parses a page.
func (p *pages) read(file string) []*section {
	text, ok := vfs.Read("out/" + file)
	nd.Assert(ok, "a page is missing")
	nd.Observe("page", text)
	var out []*section
	for _, line := range strings.Split(text, "\n") {
		line = strings.TrimSpace(line)
		switch {
		case line == "":
		case line[0] == '#':
			level := 1
			for level < len(line) && line[level] == '#' {
				level++
			}
			out = append(out, &section{level: level, title: strings.TrimSpace(line[level:])})
		default:
			nd.Assert(len(out) > 0, "there is text before the title")
			s := out[len(out)-1]
			if line[0] == '|' {
				nd.Assert(line[len(line)-1] == '|', "a row of a table isn't complete")
				var row []string
				for _, cell := range strings.Split(line[1:len(line)-1], "|") {
					row = append(row, strings.TrimSpace(cell))
				}
				s.rows = append(s.rows, row)
			} else {
				s.lines = append(s.lines, line)
			}
		}
	}
	return out
}

// table returns the rows of the table without the header.
func (s *section) table() [][]string {
	if len(s.rows) == 0 {
		return nil
	}
	nd.Assert(len(s.rows) >= 2, "a table doesn't have a header")
	for _, cell := range s.rows[1] {
		nd.Assert(len(cell) >= 3 && strings.Trim(cell, "-") == "", "a table doesn't have a separator")
	}
	for _, r := range s.rows {
		nd.Assert(len(r) == len(s.rows[0]), "the rows of a table have different number of cells")
	}
	return s.rows[2:]
}

// snake converts a name in camel case, with words of one capital, to snake case.
func snake(name string) string {
	out := ""
	for i := 0; i < len(name); i++ {
		c := name[i]
		if c >= 'A' && c <= 'Z' {
			if i > 0 {
				out += "_"
			}
			c += 32
		}
		out += string([]byte{c})
	}
	return out
}

// summary is the first sentence of a text, in one line.
func summary(doc string) string {
	out := ""
	for i := 0; i < len(doc); i++ {
		c := doc[i]
		if c == '\n' {
			c = ' '
		}
		out += string([]byte{c})
		if c == '.' {
			break
		}
	}
	return strings.Join(strings.Fields(out), " ")
}

func lines(doc string) []string {
	var out []string
	for _, line := range strings.Split(doc, "\n") {
		line = strings.TrimSpace(line)
		if line != "" {
			out = append(out, line)
		}
	}
	return out
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// item is what is expected for something that has a row in a table and a section of its own.
type item struct {
	row   string
	title string
	level int
	doc   string
	items []*item
}

// cell removes the extra blank space.
func cell(text string) string { return strings.Join(strings.Fields(text), " ") }

// check checks that the section describes the items, that are sorted, and that they are described by the
// sections that follow.
func check(s *section, rest []*section, doc string, items []*item, extra []string) []*section {
	nd.Assert(same(s.lines, lines(doc)), "the text of a section isn't the documentation")
	rows := s.table()
	if len(items) > 0 {
		nd.Assert(len(rows) == len(extra)+len(items), "wrong number of rows")
		for i, x := range extra {
			nd.Assert(rows[i][0] == x, "wrong predefined row")
		}
		rows = rows[len(extra):]
		for i, x := range items {
			nd.Assert(rows[i][0] == x.row, "wrong name in a row")
			nd.Assert(cell(rows[i][len(rows[i])-1]) == summary(x.doc), "wrong summary in a row")
		}
	} else {
		nd.Assert(len(rows) == 0, "a table without anything to describe")
	}
	for _, x := range items {
		nd.Assert(len(rest) > 0, "a section is missing")
		nd.Assert(rest[0].title == x.title && rest[0].level == x.level, "wrong title of a section")
		rest = check(rest[0], rest[1:], x.doc, x.items, nil)
	}
	return rest
}

func page(p *pages, file, title, doc string, items []*item, extra []string) {
	all := p.read(file)
	nd.Assert(len(all) > 0 && all[0].level == 1 && all[0].title == title, "wrong title of a page")
	rest := check(all[0], all[1:], doc, items, extra)
	nd.Assert(len(rest) == 0, "a page has more sections than expected")
}

func httpMethod(name string) string {
	switch name {
	case "Get", "List":
		return "GET"
	case "Update", "AsyncUpdate":
		return "PATCH"
	case "Delete", "AsyncDelete":
		return "DELETE"
	}
	return "POST"
}

func tag(name string) string { return "`" + snake(name) + "`" }

// links returns the targets of the links of a section, by title.
func links(s *section) (titles, targets []string) {
	for _, l := range s.lines {
		i := strings.Index(l, "](")
		nd.Assert(l[0] == '[' && i > 0 && l[len(l)-1] == ')', "wrong link")
		titles = append(titles, l[1:i])
		targets = append(targets, l[i+2:len(l)-1])
	}
	return
}

// verify checks all the pages of a model. The concepts of the model are sorted.
func verify(m *mb.Model) {
	p := generate(m)
	count := 1
	index := p.read("index.md")
	nd.Reach("generated")
	nd.Assert(len(index) == 3 && index[1].title == "Resources" && index[2].title == "Types", "wrong sections of the index")
	var resources []*mb.Resource
	var types []*mb.Type
	for _, s := range m.Services {
		for _, v := range s.Versions {
			resources = append(resources, v.Resources...)
			types = append(types, v.Types...)
		}
	}

	titles, targets := links(index[1])
	nd.Assert(len(titles) == len(resources), "wrong number of resources in the index")
	for i, r := range resources {
		file := snake(r.Name) + "_resource.md"
		nd.Assert(titles[i] == r.Name && targets[i] == file, "a resource isn't in the index")
		var items []*item
		for _, method := range r.Methods {
			x := &item{row: method.Name, title: method.Name + " - " + httpMethod(method.Name), level: 2, doc: method.Doc}
			for _, param := range method.Params {
				x.items = append(x.items, &item{row: tag(param.Name), title: param.Name, level: 3, doc: param.Doc})
			}
			items = append(items, x)
		}
		page(p, file, r.Name, r.Doc, items, nil)
		count++
	}

	titles, targets = links(index[2])
	nd.Assert(len(titles) == len(types), "wrong number of types in the index")
	for i, t := range types {
		file := snake(t.Name) + "_type.md"
		nd.Assert(titles[i] == t.Name && targets[i] == file, "a type isn't in the index")
		var items []*item
		var extra []string
		for _, a := range t.Attrs {
			items = append(items, &item{row: tag(a.Name), title: tag(a.Name), level: 2, doc: a.Doc})
		}
		for _, x := range t.Values {
			items = append(items, &item{row: tag(x.Name), title: tag(x.Name), level: 3, doc: x.Doc})
		}
		if t.Kind == mb.Class {
			extra = []string{"`kind`", "`id`", "`href`"}
		}
		page(p, file, t.Name, t.Doc, items, extra)
		count++
	}
	nd.Assert(len(p.files) == count, "there are more pages than expected")
}

// The pages describe all the methods and parameters of all the resources.
func CheckResources() {
	all := []string{"Add", "AsyncDelete", "AsyncUpdate", "Delete", "Get", "List", "Post", "PutIt", "Search", "Update"}
	n := nd.Choose("methods", nd.Bound("methods.max", 3, 4))
	var methods []*mb.Method
	at := 0
	for i := 0; i < n; i++ {
		x := string(rune('0' + i))
		at += nd.Choose("method"+x, len(all)-at-(n-i)+1)
		method := &mb.Method{Name: all[at], Doc: "Method " + x + "."}
		at++
		for j := nd.Choose("params"+x, 3); j > 0; j-- {
			method.Params = append(method.Params, &mb.Param{
				Name: []string{"Zone", "AnItem"}[j-1], Ref: mb.P("Integer"), In: true, Doc: "Parameter " + x + string(rune('0'+j)) + ".",
			})
		}
		methods = append(methods, method)
	}
	other := &mb.Resource{Name: "Root", Doc: "The root.", Locators: []*mb.Locator{{Name: "TheCars", Target: "TheCars"}}}
	cars := &mb.Resource{Name: "TheCars", Doc: "The cars.", Methods: methods}
	verify(mb.One(&mb.Version{Resources: []*mb.Resource{other, cars}}))
}

// The pages describe all the attributes and values of all the types.
func CheckTypes() {
	var types []*mb.Type
	for i, n := 0, nd.Choose("types", nd.Bound("types.max", 3, 4)); i < n; i++ {
		x := string(rune('0' + i))
		t := &mb.Type{Kind: nd.Choose("kind"+x, 3), Name: []string{"BigCar", "Dog", "ZooKeeper"}[i], Doc: "Type " + x + "."}
		k := nd.Choose("members"+x, 3)
		for j := 0; j < k; j++ {
			doc := "Member " + x + string(rune('0'+j)) + "."
			name := []string{"AnItem", "Zone"}[j]
			if t.Kind == mb.Enum {
				t.Values = append(t.Values, &mb.Value{Name: name, Doc: doc})
			} else {
				refs := []mb.Ref{mb.P("String"), mb.L("Integer"), mb.M("Date")}
				t.Attrs = append(t.Attrs, &mb.Attr{Name: name, Ref: refs[nd.Choose("type"+x, len(refs))], Doc: doc})
			}
		}
		types = append(types, t)
	}
	verify(mb.One(&mb.Version{Types: types, Resources: []*mb.Resource{{Name: "Root"}}}))
}

// The texts are the ones of the documentation, and the summaries their first sentences.
func CheckTexts() {
	doc := nd.StringOf("doc", 0, nd.Bound("doc", 5, 6), "a. \n")
	nd.Assume(doc == strings.TrimSpace(doc))
	texts := make([]string, 8)
	for i := range texts {
		texts[i] = "Text " + string(rune('0'+i)) + "."
	}
	texts[nd.Choose("place", len(texts))] = doc
	verify(mb.One(&mb.Version{
		Types: []*mb.Type{
			{Kind: mb.Class, Name: "Car", Doc: texts[0], Attrs: []*mb.Attr{{Name: "Size", Ref: mb.P("Integer"), Doc: texts[1]}}},
			{Kind: mb.Enum, Name: "Color", Doc: texts[2], Values: []*mb.Value{{Name: "Red", Doc: texts[3]}}},
			{Kind: mb.Struct, Name: "Empty", Doc: texts[4]},
		},
		Resources: []*mb.Resource{
			{Name: "Root", Doc: texts[5], Methods: []*mb.Method{
				{Name: "Get", Doc: texts[6], Params: []*mb.Param{{Name: "Body", Ref: mb.P("Car"), Out: true, Doc: texts[7]}}},
			}},
		},
	}))
}

// Names of any number of words are displayed without separators, and the files and tags have the words
// separated by underscores.
func CheckNames() {
	word := func(label string) string {
		return nd.StringOf(label+".head", 1, 1, "ABYZ") + nd.StringOf(label+".tail", 1, 2, "aby")
	}
	name := func(label string) string {
		out := word(label + "0")
		if nd.Bool(label + ".two") {
			out += word(label + "1")
		}
		return out
	}
	member := name("member")
	v := &mb.Version{Resources: []*mb.Resource{{Name: "Root"}}}
	switch nd.Choose("kind", 4) {
	case 0:
		v.Types = []*mb.Type{{Kind: mb.Enum, Name: "Car", Values: []*mb.Value{{Name: member}}}}
	case 1:
		v.Types = []*mb.Type{{Kind: mb.Struct, Name: member, Attrs: []*mb.Attr{{Name: "Size", Ref: mb.P("Long")}}}}
	case 2:
		v.Types = []*mb.Type{{Kind: mb.Class, Name: "Car", Attrs: []*mb.Attr{{Name: member, Ref: mb.P("Long")}}}}
	default:
		v.Resources[0].Methods = []*mb.Method{{Name: "Fix", Params: []*mb.Param{{Name: member, In: true, Ref: mb.P("Long")}}}}
	}
	verify(mb.One(v))
}

// All the versions of all the services are described.
func CheckServices() {
	m := &mb.Model{}
	k := 0
	for i, n := 0, nd.Choose("services", 3); i < n; i++ {
		s := &mb.Service{Name: []string{"cars_mgmt", "dogs_mgmt"}[i]}
		for j, n := 0, nd.Choose("versions"+string(rune('0'+i)), 3); j < n; j++ {
			v := &mb.Version{Name: []string{"v1", "v2"}[j]}
			at := string(rune('0' + k))
			for x, n := 0, nd.Choose("resources"+at, 3); x < n; x++ {
				v.Resources = append(v.Resources, &mb.Resource{Name: []string{"Here", "There"}[x] + string(rune('a'+k)), Doc: "Resource " + at + "."})
			}
			if nd.Bool("type" + at) {
				v.Types = append(v.Types, &mb.Type{Kind: mb.Struct, Name: "Type" + string(rune('a'+k)), Doc: "Type " + at + "."})
			}
			s.Versions = append(s.Versions, v)
			k++
		}
		m.Services = append(m.Services, s)
	}
	verify(m)
}

// The pages of services and versions don't replace each other.
func CheckVersions() {
	one := &mb.Version{Name: "v1", Resources: []*mb.Resource{{Name: "Root", Doc: "One."}}}
	two := &mb.Version{Name: "v2", Resources: []*mb.Resource{{Name: "Root", Doc: "Two."}}}
	p := generate(&mb.Model{Services: []*mb.Service{{Name: "clusters_mgmt", Versions: []*mb.Version{one, two}}}})
	nd.Reach("generated")
	found := 0
	for _, f := range p.files {
		text, _ := vfs.Read(f)
		for _, doc := range []string{"One.", "Two."} {
			if strings.Contains(text, "\n"+doc+"\n") {
				found++
			}
		}
	}
	nd.Assert(found == 2, "the pages of a version are replaced by the ones of other version")
}

// Lines of the documentation are written completely, however long they are.
func CheckLongLine() {
	doc := "Text " + strings.Repeat("word ", 14000) + nd.StringOf("doc", 1, 2, "ab") + "."
	texts := make([]string, 3)
	for i := range texts {
		texts[i] = "Text " + string(rune('0'+i)) + "."
	}
	texts[nd.Choose("place", len(texts))] = doc
	vfs.Reset()
	m := mb.One(&mb.Version{
		Types: []*mb.Type{
			{Kind: mb.Class, Name: "Car", Doc: texts[0], Attrs: []*mb.Attr{{Name: "Size", Ref: mb.P("Integer"), Doc: texts[1]}}},
		},
		Resources: []*mb.Resource{{Name: "Root", Doc: texts[2]}},
	})
	p := generate(m)
	found := false
	for _, file := range p.files {
		text, ok := vfs.Read(file)
		nd.Assert(ok, "a page is missing")
		for _, line := range strings.Split(text, "\n") {
			if len(line) == len(doc) {
				found = nd.Or(found, line == doc)
			}
		}
	}
	nd.Assert(found, "a long line isn't in the documentation")
}
