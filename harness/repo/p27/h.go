package p27

import (
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/generators/golang"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/jsonx"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/mb"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
	_ "github.com/openshift-online/ocm-api-metamodel/zzverif/tmpl"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/vfs"
)

// tree is the expected tree: the children by segment.
type tree map[string]tree

// generate runs the generator, and returns the tree that it generates.
func generate(m *mb.Model) *jsonx.Value {
	vfs.Reset()
	rep, _ := mb.Reporter()
	packages, _ := golang.NewPackagesCalculator().Reporter(rep).Base("example.com/base").Build()
	names, _ := golang.NewNamesCalculator().Reporter(rep).Build()
	g, err := golang.NewMetricsSupportGenerator().Reporter(rep).Model(m.Concepts()).Output(vfs.Mkdir("out")).Packages(packages).Names(names).
		Binding(mb.Binding()).Build()
	nd.Assert(err == nil, "can't create the generator")
	nd.Assert(g.Run() == nil, "the generator fails")
	text, ok := vfs.Read("out/metrics/path_tree_data.go")
	nd.Assert(ok, "the file isn't generated")
	first, last := strings.Index(text, "`"), strings.LastIndex(text, "`")
	nd.Assert(first >= 0 && first < last, "the file doesn't contain the tree")
	v := jsonx.Parse(text[first+1 : last])
	nd.Assert(v != nil, "the tree isn't a valid document")
	return v
}

func same(v *jsonx.Value, t tree) bool {
	if v == nil {
		return false
	}
	if v.Kind == 'n' {
		return len(t) == 0
	}
	if v.Kind != 'o' || len(v.Keys) != len(t) {
		return false
	}
	for name, child := range t {
		if !same(v.Get(name), child) {
			return false
		}
	}
	return true
}

func find(v *mb.Version, name string) *mb.Resource {
	for _, r := range v.Resources {
		if r.Name == name {
			return r
		}
	}
	return nil
}

func annotation(anns []*mb.Ann, def string) string {
	for _, a := range anns {
		if a.Name == "http" {
			return a.Params[0].Value.(string)
		}
	}
	return def
}

func expected(v *mb.Version, r *mb.Resource) tree {
	t := tree{}
	for _, m := range r.Methods {
		if m.Name == "DoIt" || m.Name == "Cancel" {
			t[annotation(m.Anns, map[string]string{"DoIt": "do_it", "Cancel": "cancel"}[m.Name])] = tree{}
		}
	}
	for _, l := range r.Locators {
		segment := annotation(l.Anns, map[string]string{"TheFirst": "the_first", "Second": "second", "Third": "third", "Item": "item"}[l.Name])
		if l.Variable {
			segment = "-"
		}
		t[segment] = expected(v, find(v, l.Target))
	}
	return t
}

func check(m *mb.Model) {
	api := tree{}
	for _, s := range m.Services {
		st := tree{}
		for _, v := range s.Versions {
			st[v.Name] = expected(v, find(v, "Root"))
		}
		api[s.Name] = st
	}
	v := generate(m)
	nd.Reach("generated")
	nd.Assert(v.Unique(), "the tree has repeated segments")
	nd.Assert(same(v, tree{"api": api}), "the tree of paths isn't the one of the model")
}

func anns(label string) []*mb.Ann {
	switch nd.Choose(label, 3) {
	case 0:
		return nil
	case 1:
		return mb.Named("json", "other")
	default:
		return mb.Named("http", "given")
	}
}

// The tree contains all the chains of locators, for any graph.
func CheckGraph() {
	root, a, b, c := &mb.Resource{Name: "Root"}, &mb.Resource{Name: "Aa"}, &mb.Resource{Name: "Bb"}, &mb.Resource{Name: "Cc"}
	all := []*mb.Resource{root, a, b, c}
	add := func(from, to int) {
		names := []string{"", "TheFirst", "Second", "Third"}
		switch nd.Choose("locator", 3) {
		case 1:
			all[from].Locators = append(all[from].Locators, &mb.Locator{Name: names[to], Target: all[to].Name})
		case 2:
			// Only one variable locator in each resource makes sense:
			for _, l := range all[from].Locators {
				nd.Assume(!l.Variable)
			}
			all[from].Locators = append(all[from].Locators, &mb.Locator{Name: "Item", Variable: true, Target: all[to].Name})
		}
	}
	add(0, 1)
	add(0, 2)
	add(1, 2)
	add(1, 3)
	add(2, 3)
	which := nd.Choose("action", 4)
	all[which].Methods = append(all[which].Methods, &mb.Method{Name: "DoIt"})
	check(mb.One(&mb.Version{Name: "v1", Resources: all}))
}

// The methods that are actions have their own path, and the other ones don't.
func CheckMethods() {
	names := []string{"", "Add", "AsyncDelete", "AsyncUpdate", "Delete", "Get", "List", "Post", "Search", "Update", "DoIt", "Cancel"}
	root := &mb.Resource{Name: "Root"}
	item := &mb.Resource{Name: "Aa"}
	first := names[nd.Choose("first", len(names))]
	second := names[nd.Choose("second", len(names))]
	nd.Assume(first != second)
	for _, n := range []string{first, second} {
		if n != "" {
			item.Methods = append(item.Methods, &mb.Method{Name: n})
		}
	}
	if len(item.Methods) > 0 {
		item.Methods[0].Anns = anns("method")
	}
	if nd.Choose("locator", 2) == 1 {
		item.Locators = append(item.Locators, &mb.Locator{Name: "Second", Target: "Bb"})
	}
	root.Locators = append(root.Locators, &mb.Locator{Name: "Item", Variable: nd.Choose("variable", 2) == 1, Target: "Aa", Anns: anns("locator")})
	check(mb.One(&mb.Version{Name: "v1", Resources: []*mb.Resource{root, item, {Name: "Bb"}}}))
}

// All the versions of all the services are in the tree, with their own paths.
func CheckServices() {
	version := func(name string) *mb.Version {
		root := &mb.Resource{Name: "Root"}
		if nd.Choose("locator", 2) == 1 {
			root.Locators = append(root.Locators, &mb.Locator{Name: "Second", Target: "Bb"})
		}
		if nd.Choose("method", 2) == 1 {
			root.Methods = append(root.Methods, &mb.Method{Name: "DoIt"})
		}
		return &mb.Version{Name: name, Resources: []*mb.Resource{root, {Name: "Bb"}}}
	}
	m := &mb.Model{Services: []*mb.Service{{Name: "first_service", Versions: []*mb.Version{version("v1"), version("v2_alpha1")}}}}
	if nd.Choose("services", 2) == 1 {
		m.Services = append(m.Services, &mb.Service{Name: "second", Versions: []*mb.Version{version("v1")}})
	}
	check(m)
}

// When an action has the same path as a locator the paths inside the target of the locator aren't lost.
func CheckOverlap() {
	root := &mb.Resource{Name: "Root", Locators: []*mb.Locator{{Name: "TheFirst", Target: "Aa"}}}
	item := &mb.Resource{Name: "Aa"}
	if nd.Choose("locator", 2) == 1 {
		item.Locators = append(item.Locators, &mb.Locator{Name: "Second", Target: "Bb"})
	}
	if nd.Choose("action", 2) == 1 {
		item.Methods = append(item.Methods, &mb.Method{Name: "Cancel"})
	}
	root.Methods = append(root.Methods, &mb.Method{Name: "DoIt", Anns: mb.Named("http", []string{"the_first", "other"}[nd.Choose("name", 2)])})
	check(mb.One(&mb.Version{Name: "v1", Resources: []*mb.Resource{root, item, {Name: "Bb"}}}))
}
