package p05

import (
	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/mb"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/vfs"
)

// verdict checks that the result of the reader is consistent, and that it is the expected one.
func verdict(res *mb.Result, valid bool) {
	nd.Reach("read")
	nd.Observe("crashed", res.Crashed)
	nd.Assert(!res.Crashed, "reading the model crashed")
	nd.Observe("accepted", res.Err == nil)
	nd.Assert((res.Err == nil) == (res.Model != nil), "there should be either an error or a model")
	nd.Assert((res.Err == nil) == (res.Reporter.Errors() == 0), "the result doesn't correspond to the reported errors")
	if valid {
		nd.Reach("valid")
		nd.Assert(res.Err == nil, "a valid model has been rejected")
		consistent(res.Model)
	} else {
		nd.Reach("invalid")
		nd.Assert(res.Err != nil, "an invalid model has been accepted")
	}
}

// consistent checks that everything that is used in the model is part of the version that uses it.
func consistent(m *concepts.Model) {
	nd.AnyMapOrder(false)
	for _, s := range m.Services() {
		nd.Assert(s.Owner() == m, "the owner of a service isn't the model")
		for _, v := range s.Versions() {
			nd.Assert(v.Owner() == s, "the owner of a version isn't the service")
			nd.Assert(v.Root() != nil && v.FindResource(v.Root().Name()) == v.Root(), "a version doesn't have a root")
			ok := func(t *concepts.Type) bool {
				return t != nil && t.Owner() == v && v.FindType(t.Name()) == t && t.Kind() != concepts.UndefinedType
			}
			for _, t := range v.Types() {
				nd.Assert(ok(t), "a type isn't part of the version")
				nd.Assert(!t.IsList() && !t.IsMap() || ok(t.Element()), "the type of an element isn't part of the version")
				nd.Assert(!t.IsMap() || ok(t.Index()), "the type of an index isn't part of the version")
				for _, a := range t.Attributes() {
					nd.Assert(a.Owner() == t && ok(a.Type()), "the type of an attribute isn't part of the version")
				}
			}
			for _, r := range v.Resources() {
				nd.Assert(r.Owner() == v, "a resource isn't part of the version")
				for _, l := range r.Locators() {
					nd.Assert(l.Owner() == r && l.Target() != nil && v.FindResource(l.Target().Name()) == l.Target(), "the target of a locator isn't part of the version")
				}
				for _, x := range r.Methods() {
					for _, y := range x.Parameters() {
						nd.Assert(ok(y.Type()), "the type of a parameter isn't part of the version")
					}
				}
			}
		}
	}
}

// A model is accepted only if all the versions of all the services have a root resource.
func CheckRoot() {
	m := &mb.Model{}
	valid := true
	roots := []string{"Root", "Roots", "root", "MyRoot", ""}
	for s := 0; s < 2; s++ {
		service := &mb.Service{Name: []string{"a_b", "c"}[s]}
		for v := 0; v < 2; v++ {
			label := string(rune('0'+s)) + string(rune('0'+v))
			version := &mb.Version{Name: []string{"v1", "v2alpha1"}[v]}
			k := 0
			if s == 0 || v == 0 {
				k = nd.Choose("root"+label, len(roots))
			}
			if roots[k] != "" {
				version.Resources = append(version.Resources, &mb.Resource{Name: roots[k]})
			}
			valid = valid && (k == 0 || k == 2)
			service.Versions = append(service.Versions, version)
		}
		m.Services = append(m.Services, service)
	}
	verdict(m.ReadText(), valid)
}

const (
	asPlain = iota
	asList
	asElement
	asIndex
	asParameter
	uses
)

func use(k int) mb.Ref {
	switch k {
	case asList:
		return mb.L("Thing")
	case asElement:
		return mb.M("Thing")
	case asIndex:
		return mb.Ref{Kind: mb.Map, Index: "Thing", Name: "String"}
	}
	return mb.P("Thing")
}

// A model is accepted only if all the types that are used in a version are defined in that version,
// exactly once, regardless of what other versions and services use or define, and of the order.
func CheckTypes() {
	where := nd.Choose("where", 3) // Same service, different service, same version in different files
	k := nd.Choose("use", uses)
	texts := make([]string, 2)
	var uses, defs [2]int
	for i := range texts {
		label := string(rune('0' + i))
		used := nd.Bool("used" + label)
		defined := nd.Choose("defined"+label, 2)
		before := false
		if defined > 0 && used {
			before = nd.Bool("before" + label)
		}
		user := &mb.Version{}
		if used {
			uses[i]++
			if k == asParameter {
				user.Resources = append(user.Resources, &mb.Resource{Name: "Res" + label, Methods: []*mb.Method{{Name: "Do", Params: []*mb.Param{{Name: "P", Ref: use(k), In: true}}}}})
			} else {
				user.Types = append(user.Types, &mb.Type{Name: "User" + label, Attrs: []*mb.Attr{{Name: "A", Ref: use(k)}}})
			}
		}
		definer := &mb.Version{}
		if defined > 0 {
			defs[i]++
			definer.Types = append(definer.Types, &mb.Type{Name: "Thing", Kind: kind(label)})
		}
		if before {
			texts[i] = definer.Text() + user.Text()
		} else {
			texts[i] = user.Text() + definer.Text()
		}
	}
	vfs.Reset()
	root := "resource Root {}\n"
	valid := true
	switch where {
	case 0:
		vfs.Write("model/s/v1/a.model", texts[0]+root)
		vfs.Write("model/s/v2/a.model", texts[1]+root)
		valid = (uses[0] == 0 || defs[0] == 1) && (uses[1] == 0 || defs[1] == 1)
	case 1:
		vfs.Write("model/s/v1/a.model", texts[0]+root)
		vfs.Write("model/t/v1/a.model", texts[1]+root)
		valid = (uses[0] == 0 || defs[0] == 1) && (uses[1] == 0 || defs[1] == 1)
	case 2:
		vfs.Write("model/s/v1/a.model", texts[0]+root)
		vfs.Write("model/s/v1/b.model", texts[1])
		d := defs[0] + defs[1]
		valid = d == 1 || d == 0 && uses[0]+uses[1] == 0
	}
	verdict(mb.ReadDir("model"), valid)
}

// The same for the resources, that are used as targets of locators.
func CheckResources() {
	where := nd.Choose("where", 3)
	texts := make([]string, 2)
	var used, defs [2]bool
	for i := range texts {
		label := string(rune('0' + i))
		used[i] = nd.Bool("used" + label)
		defs[i] = nd.Bool("defined" + label)
		before := nd.Bool("before" + label)
		user := &mb.Version{Resources: []*mb.Resource{{Name: "Root"}}}
		if where == 2 && i == 1 {
			user.Resources[0].Name = "Other"
		}
		if used[i] {
			user.Resources[0].Locators = []*mb.Locator{{Name: "Things", Target: "Things", Variable: nd.Bool("variable" + label)}}
		}
		definer := &mb.Version{}
		if defs[i] {
			definer.Resources = append(definer.Resources, &mb.Resource{Name: "Things"})
		}
		if before {
			texts[i] = definer.Text() + user.Text()
		} else {
			texts[i] = user.Text() + definer.Text()
		}
	}
	vfs.Reset()
	vfs.Write("model/s/v1/a.model", texts[0])
	valid := (!used[0] || defs[0]) && (!used[1] || defs[1])
	switch where {
	case 0:
		vfs.Write("model/s/v2/a.model", texts[1])
	case 1:
		vfs.Write("model/t/v1/a.model", texts[1])
	case 2:
		vfs.Write("model/s/v1/b.model", texts[1])
		valid = !(defs[0] && defs[1]) && (defs[0] || defs[1] || !used[0] && !used[1])
	}
	verdict(mb.ReadDir("model"), valid)
}

// Two definitions with the same name in the same version aren't accepted, if both are types, both are
// resources or both are errors.
func CheckDuplicates() {
	kinds := []string{"class", "struct", "enum", "resource", "error"}
	a, b := nd.Choose("a", len(kinds)), nd.Choose("b", len(kinds))
	other := []string{"Thing", "thing", "Things"}[nd.Choose("name", 3)]
	files := nd.Choose("files", 3)
	first := kinds[a] + " Thing {}\n"
	second := kinds[b] + " " + other + " {}\n"
	group := func(k int) int {
		if k < 3 {
			return 0
		}
		return k
	}
	vfs.Reset()
	same := true
	switch files {
	case 0:
		vfs.Write("model/s/v1/a.model", "resource Root {}\n"+first+second)
	case 1:
		vfs.Write("model/s/v1/a.model", first+"resource Root {}\n")
		vfs.Write("model/s/v1/b.model", second)
	case 2:
		vfs.Write("model/s/v1/a.model", first+"resource Root {}\n")
		vfs.Write("model/s/v2/b.model", second+"resource Root {}\n")
		same = false
	}
	verdict(mb.ReadDir("model"), !(same && group(a) == group(b) && other != "Things"))
}

// A locator without target isn't accepted, wherever it is.
func CheckTarget() {
	var ls []*mb.Locator
	valid := true
	n := 2
	for i := 0; i < n; i++ {
		l := &mb.Locator{Name: "L" + string(rune('0'+i)), Variable: nd.Bool("variable" + string(rune('0'+i)))}
		if nd.Bool("target" + string(rune('0'+i))) {
			l.Target = "Leaf"
		} else {
			valid = false
		}
		ls = append(ls, l)
	}
	v := &mb.Version{Resources: []*mb.Resource{{Name: "Root"}, {Name: "Middle"}, {Name: "Leaf"}}}
	switch nd.Choose("where", 3) {
	case 0:
		v.Resources[0].Locators = ls
	case 1:
		v.Resources[0].Locators = []*mb.Locator{{Name: "M", Target: "Middle"}}
		v.Resources[1].Locators = ls
	case 2:
		v.Resources[1].Locators = ls
	}
	verdict(mb.One(v).ReadText(), valid)
}

// Every type that isn't a list has a list type in the model, whose element is that type.
func CheckLists() {
	kinds := []string{"class Thing {}", "struct Thing {}", "enum Thing {}"}
	k := nd.Choose("kind", len(kinds))
	used := nd.Choose("used", 4)
	text := "resource Root {}\n" + kinds[k] + "\n"
	switch used {
	case 1:
		text += "class User { T []Thing }\n"
	case 2:
		text = "class User { T []Thing }\n" + text
	case 3:
		text += "class User { T [String]Thing }\n"
	}
	vfs.Reset()
	vfs.Write("model/s/v1/a.model", text)
	res := mb.ReadDir("model")
	verdict(res, true)
	nd.AnyMapOrder(false)
	for _, s := range res.Model.Services() {
		for _, v := range s.Versions() {
			lists := map[*concepts.Type]bool{}
			for _, t := range v.Types() {
				nd.Assert(t.Owner() == v, "the owner of a type isn't the version")
				nd.Assert(t.Kind() != concepts.UndefinedType, "the model contains an undefined type")
				if t.IsList() {
					nd.Assert(t.Name().String() == names.Cat(t.Element().Name(), names.ParseUsingCase("List")).String(), "the name of the list isn't the name of the element followed by 'list'")
					nd.Assert(!lists[t.Element()], "two lists for the same type")
					lists[t.Element()] = true
				}
			}
			for _, t := range v.Types() {
				nd.Assert(t.IsList() || lists[t], "a type doesn't have a list type")
			}
		}
	}
}

func kind(label string) int {
	if label == "0" {
		return nd.Choose("kind"+label, 3)
	}
	return mb.Class
}
