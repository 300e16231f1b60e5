package p26

import (
	"sort"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/language"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/mb"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/vfs"
)

// edge is an attribute of a class that may use other class.
type edge struct {
	from, to int
	kind     int // None, plain, link, list, link to list, map.
}

var classes = []string{"Aa", "Bb", "Cc"}

func (e edge) attr() string { return "To" + classes[e.to] }

func (e edge) text() string {
	to := classes[e.to]
	switch e.kind {
	case 1:
		return "\t" + e.attr() + " " + to + "\n"
	case 2:
		return "\tlink " + e.attr() + " " + to + "\n"
	case 3:
		return "\t" + e.attr() + " []" + to + "\n"
	case 4:
		return "\tlink " + e.attr() + " []" + to + "\n"
	case 5:
		return "\t" + e.attr() + " [String]" + to + "\n"
	}
	return ""
}

func (e edge) link() bool   { return e.kind == 2 || e.kind == 4 }
func (e edge) follow() bool { return e.kind == 1 || e.kind == 3 || e.kind == 5 }

func source(edges []edge) string {
	text := "resource Root {\n}\nenum Color {\n\tRed\n\tBlue\n}\n"
	for i, c := range classes {
		text += "class " + c + " {\n\tSize Integer\n\tColor Color\n\tNames []String\n"
		for _, e := range edges {
			if e.from == i {
				text += e.text()
			}
		}
		text += "}\n"
	}
	return text
}

const root = "resource Root {\n}\n"

func version(m *concepts.Model, service string) *concepts.Version {
	s := m.FindService(names.ParseUsingSeparator(service, "_"))
	nd.Assert(s != nil && len(s.Versions()) == 1, "a service is lost")
	return s.Versions()[0]
}

func find(v *concepts.Version, name string) *concepts.Type {
	return v.FindType(names.ParseUsingCase(name))
}

func ref(t *concepts.Type) string {
	switch {
	case t.IsList():
		return "[]" + t.Element().Name().Camel()
	case t.IsMap():
		return "[" + t.Index().Name().Camel() + "]" + t.Element().Name().Camel()
	}
	return t.Name().Camel()
}

// check verifies that the version has exactly the types that the edges reach from the first class, and the given ones, and
// that those types have the right attributes.
func check(v, other *concepts.Version, edges []edge, own string) {
	reached := []bool{true, false, false}
	for range classes {
		for _, e := range edges {
			if e.follow() && reached[e.from] {
				reached[e.to] = true
			}
		}
	}
	var want []string
	for i, c := range classes {
		if reached[i] {
			want = append(want, c)
		}
	}
	want = append(want, "Color")
	if own != "" {
		want = append(want, own)
	}
	var have []string
	for _, t := range v.Types() {
		if t.IsClass() || t.IsStruct() || t.IsEnum() {
			have = append(have, t.Name().Camel())
			nd.Assert(t.Owner() == v, "a type of the version has other owner")
		}
	}
	sort.Strings(want)
	sort.Strings(have)
	nd.Observe("have", strings.Join(have, " "))
	nd.Assert(strings.Join(have, " ") == strings.Join(want, " "), "the version doesn't have exactly the types that the reference needs")
	for i, c := range classes {
		if !reached[i] {
			continue
		}
		t := find(v, c)
		nd.Assert(t.IsClass(), "a referred class isn't a class")
		n := 3
		nd.Assert(ref(attr(t, "Size").Type()) == "Integer", "an attribute has other type")
		nd.Assert(ref(attr(t, "Color").Type()) == "Color", "an attribute has other type")
		nd.Assert(ref(attr(t, "Names").Type()) == "[]String", "an attribute has other type")
		for _, e := range edges {
			if e.from != i || e.kind == 0 {
				continue
			}
			n++
			a := attr(t, e.attr())
			nd.Assert(a.Link() == e.link(), "an attribute is a link, or not, unlike in the referred class")
			nd.Assert(ref(a.Type()) == []string{"", classes[e.to], classes[e.to], "[]" + classes[e.to], "[]" + classes[e.to], "[String]" + classes[e.to]}[e.kind], "an attribute has other type")
			if !e.link() {
				nd.Assert(a.LinkOwner() == nil, "an attribute that isn't a link is in other service")
			} else if e.to != 0 {
				nd.Assert(a.LinkOwner() != nil && a.LinkOwner() != v && a.LinkOwner().Name().Snake() == other.Name().Snake() &&
					a.LinkOwner().Owner().Name().Snake() == other.Owner().Name().Snake(), "a link isn't in the service that is referred to")
			} else {
				nd.Assert(a.LinkOwner() == nil, "a link to the class itself is in other service")
			}
		}
		nd.Assert(len(t.Attributes()) == n, "the class has other attributes")
	}
	color := find(v, "Color")
	nd.Assert(color.IsEnum() && len(color.Values()) == 2, "the enumerated type has other values")
}

func attr(t *concepts.Type, name string) *concepts.Attribute {
	a := t.FindAttribute(names.ParseUsingCase(name))
	nd.Assert(a != nil, "an attribute is lost")
	nd.Assert(a.Owner() == t, "an attribute has other owner")
	return a
}

func arbitrary(pairs [][2]int, kinds int) []edge {
	var out []edge
	for _, p := range pairs {
		out = append(out, edge{p[0], p[1], nd.Choose("kind", kinds)})
	}
	return out
}

func read() *mb.Result { return mb.ReadDir("model") }

// The referring class has the attributes of the other one, and the types that they need, for all the ways in which the classes
// use each other, including themselves.
func CheckAttributes() {
	vfs.Reset()
	var edges []edge
	switch nd.Choose("shape", 4) {
	case 0:
		edges = arbitrary([][2]int{{0, 1}, {1, 2}}, 6)
	case 1:
		edges = arbitrary([][2]int{{0, 1}, {0, 2}}, 6)
	case 2:
		edges = arbitrary([][2]int{{0, 0}, {0, 1}}, 6)
	default:
		edges = arbitrary([][2]int{{0, 1}, {1, 0}}, 6)
		edges = append(edges, edge{1, 1, nd.Choose("self", 2) * 3})
	}
	text := source(edges)
	slash := []string{"", "/"}[nd.Choose("slash", 2)]
	vfs.Write("model/my_service/v1_alpha1/a.model", root+"@ref(path = \""+slash+"other_service/v1/aa\")\nclass Aa {\n}\n")
	vfs.Write("model/other_service/v1/a.model", text)
	r := read()
	nd.Assert(!r.Crashed, "reading crashes")
	nd.Assert(r.Err == nil, "the model is rejected")
	v, other := version(r.Model, "my_service"), version(r.Model, "other_service")
	nd.Reach("read")
	check(v, other, edges, "")
	// The other service isn't changed:
	vfs.Reset()
	vfs.Write("model/other_service/v1/a.model", text)
	alone := read()
	nd.Assert(!alone.Crashed && alone.Err == nil, "the other model is rejected")
	nd.Assert(mb.DumpVersion(other) == mb.DumpVersion(version(alone.Model, "other_service")), "the reference changes the service that is referred to")
}

// The referring class can be used by other classes, before and after it.
func CheckUses() {
	vfs.Reset()
	edges := arbitrary([][2]int{{0, 1}}, 6)
	use := edge{0, nd.Choose("used", 1), 1 + nd.Choose("kind", 5)}
	mine := "class Mine {\n" + use.text() + "}\n"
	class := "@ref(path = \"other_service/v1/aa\")\nclass Aa {\n}\n"
	place := nd.Choose("place", 4)
	switch place {
	case 0:
		vfs.Write("model/my_service/v1_alpha1/m.model", root+mine+class)
	case 1:
		vfs.Write("model/my_service/v1_alpha1/m.model", root+class+mine)
	case 2:
		vfs.Write("model/my_service/v1_alpha1/a.model", root+mine)
		vfs.Write("model/my_service/v1_alpha1/b.model", class)
	default:
		vfs.Write("model/my_service/v1_alpha1/a.model", class)
		vfs.Write("model/my_service/v1_alpha1/b.model", root+mine)
	}
	vfs.Write("model/other_service/v1/a.model", source(edges))
	r := read()
	nd.Assert(!r.Crashed, "reading crashes")
	nd.Assert(r.Err == nil, "the model is rejected")
	v, other := version(r.Model, "my_service"), version(r.Model, "other_service")
	nd.Reach("read")
	check(v, other, edges, "Mine")
	a := attr(find(v, "Mine"), use.attr())
	nd.Assert(a.Link() == use.link() && a.LinkOwner() == nil, "the use of the class isn't local")
}

// References that can't be resolved are rejected.
func CheckWrong() {
	vfs.Reset()
	service := []string{"other_service", "missing", ""}[nd.Choose("service", 3)]
	vers := []string{"v1", "v2", ""}[nd.Choose("version", 3)]
	class := []string{"aa", "zz", ""}[nd.Choose("class", 3)]
	path := service
	switch nd.Choose("parts", 3) {
	case 0:
	case 1:
		path += "/" + vers
	default:
		path += "/" + vers + "/" + class
	}
	vfs.Write("model/my_service/v1_alpha1/a.model", root+"@ref(path = \""+path+"\")\nclass Aa {\n}\n")
	vfs.Write("model/other_service/v1/a.model", source(nil))
	r := read()
	nd.Observe("crashed", r.Crashed)
	nd.Reach("read")
	nd.Assert(!r.Crashed, "reading crashes")
	if path == "other_service/v1/aa" || path == "" {
		nd.Assert(r.Err == nil, "the model is rejected")
	} else {
		nd.Assert(r.Err != nil, "a reference that can't be resolved is accepted")
	}
}

// References to classes that are references themselves, in any number of steps, and loops of references.
func CheckChain() {
	vfs.Reset()
	target := func(i, n int) string {
		return []string{"first", "second", "third"}[(i+1)%n] + "_service/v1/aa"
	}
	n := 2 + nd.Choose("services", 2)
	loop := nd.Choose("loop", 2) == 1
	for i := 0; i < n; i++ {
		name := []string{"first", "second", "third"}[i]
		text := "@ref(path = \"" + target(i, n) + "\")\nclass Aa {\n}\n"
		if i == n-1 && !loop {
			text = "class Aa {\n\tSize Integer\n}\n"
		}
		vfs.Write("model/"+name+"_service/v1/a.model", root+text)
	}
	r := read()
	nd.Observe("crashed", r.Crashed)
	nd.Reach("read")
	nd.Assert(!r.Crashed, "reading crashes")
	if r.Err != nil {
		// References to services that contain references aren't supported.
		return
	}
	nd.Assert(!loop, "a loop of references is accepted")
	for _, s := range r.Model.Services() {
		a := attr(find(s.Versions()[0], "Aa"), "Size")
		nd.Assert(ref(a.Type()) == "Integer", "an attribute has other type")
	}
}

// References when there are several directories of models.
func CheckInputs() {
	vfs.Reset()
	vfs.Write("one/my_service/v1/a.model", root+"@ref(path = \"other_service/v1/aa\")\nclass Aa {\n}\n")
	where := []string{"one", "two"}[nd.Choose("where", 2)]
	vfs.Write(where+"/other_service/v1/a.model", source(nil))
	vfs.Mkdir("two")
	rep, _ := mb.Reporter()
	inputs := []string{vfs.Root() + "/one", vfs.Root() + "/two"}
	if nd.Choose("order", 2) == 1 {
		inputs[0], inputs[1] = inputs[1], inputs[0]
	}
	var m *concepts.Model
	var err error
	crashed := nd.Panics(func() { m, err = language.NewReader().Reporter(rep).Inputs(inputs).Read() })
	nd.Observe("crashed", crashed)
	nd.Reach("read")
	nd.Assert(!crashed, "reading crashes")
	nd.Assert((m == nil) == (err != nil), "there is both a model and an error, or none of them")
}
