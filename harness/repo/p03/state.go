package p03

import (
	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/pkg/nomenclator"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
)

// slot is one of the details of a concept: put stores one of two different values, and ok tells if
// the value that is returned is the given one, where zero means that nothing has been stored.
type slot struct {
	label string
	put   func(i int)
	ok    func(i int) bool
}

func docSlot(d concepts.Documented) slot {
	texts := []string{"", nd.String("doc", 0, 2), "other"}
	return slot{"doc", func(i int) { d.SetDoc(texts[i]) }, func(i int) bool { return d.Doc() == texts[i] }}
}

type named interface {
	Name() *names.Name
	SetName(value *names.Name)
}

func nameSlot(c named) slot {
	vs := []*names.Name{nil, names.ParseUsingCase("One"), names.ParseUsingCase("Two")}
	return slot{"name", func(i int) { c.SetName(vs[i]) }, func(i int) bool { return c.Name() == vs[i] }}
}

func boolSlot(label string, set func(bool), get func() bool) slot {
	v := nd.Bool(label)
	return slot{label, func(i int) { set((i == 1) == v) }, func(i int) bool {
		if i == 0 {
			return !get()
		}
		return get() == ((i == 1) == v)
	}}
}

func typeSlot(label string, set func(*concepts.Type), get func() *concepts.Type) slot {
	vs := []*concepts.Type{nil, concepts.NewType(), concepts.NewType()}
	return slot{label, func(i int) { set(vs[i]) }, func(i int) bool { return get() == vs[i] }}
}

func versionSlot(label string, set func(*concepts.Version), get func() *concepts.Version) slot {
	vs := []*concepts.Version{nil, concepts.NewVersion(), concepts.NewVersion()}
	return slot{label, func(i int) { set(vs[i]) }, func(i int) bool { return get() == vs[i] }}
}

func resourceSlot(label string, set func(*concepts.Resource), get func() *concepts.Resource) slot {
	vs := []*concepts.Resource{nil, concepts.NewResource(), concepts.NewResource()}
	return slot{label, func(i int) { set(vs[i]) }, func(i int) bool { return get() == vs[i] }}
}

func slots(k int) []slot {
	switch k {
	case 0:
		c := concepts.NewService()
		vs := []*concepts.Model{nil, concepts.NewModel(), concepts.NewModel()}
		return []slot{docSlot(c), nameSlot(c),
			{"owner", func(i int) { c.SetOwner(vs[i]) }, func(i int) bool { return c.Owner() == vs[i] }}}
	case 1:
		c := concepts.NewVersion()
		vs := []*concepts.Service{nil, concepts.NewService(), concepts.NewService()}
		return []slot{docSlot(c), nameSlot(c),
			{"owner", func(i int) { c.SetOwner(vs[i]) }, func(i int) bool { return c.Owner() == vs[i] }}}
	case 2:
		c := concepts.NewType()
		kinds := []concepts.TypeKind{concepts.UndefinedType, kind(nd.IntRange("kind", 1, 7)), concepts.StructType}
		return []slot{docSlot(c), nameSlot(c), versionSlot("owner", c.SetOwner, c.Owner),
			typeSlot("element", c.SetElement, c.Element), typeSlot("index", c.SetIndex, c.Index),
			boolSlot("declared", c.SetExplicitDeclared, c.ExplicitDeclared),
			{"kind", func(i int) { c.SetKind(kinds[i]) }, func(i int) bool { return c.Kind() == kinds[i] }}}
	case 3:
		c := concepts.NewAttribute()
		return []slot{docSlot(c), nameSlot(c), typeSlot("owner", c.SetOwner, c.Owner),
			typeSlot("type", c.SetType, c.Type), boolSlot("link", c.SetLink, c.Link),
			versionSlot("link owner", c.SetLinkOwner, c.LinkOwner)}
	case 4:
		c := concepts.NewEnumValue()
		return []slot{docSlot(c), nameSlot(c), typeSlot("type", c.SetType, c.Type)}
	case 5:
		c := concepts.NewResource()
		return []slot{docSlot(c), nameSlot(c), versionSlot("owner", c.SetOwner, c.Owner)}
	case 6:
		c := concepts.NewMethod()
		return []slot{docSlot(c), nameSlot(c), resourceSlot("owner", c.SetOwner, c.Owner)}
	case 7:
		c := concepts.NewParameter()
		vs := []*concepts.Method{nil, concepts.NewMethod(), concepts.NewMethod()}
		ds := []interface{}{nil, nd.Int("default"), nd.Bool("default.bool")}
		return []slot{docSlot(c), nameSlot(c), typeSlot("type", c.SetType, c.Type),
			boolSlot("in", c.SetIn, c.In), boolSlot("out", c.SetOut, c.Out),
			{"owner", func(i int) { c.SetOwner(vs[i]) }, func(i int) bool { return c.Owner() == vs[i] }},
			{"default", func(i int) { c.SetDefault(ds[i]) }, func(i int) bool { return c.Default() == ds[i] }}}
	case 8:
		c := concepts.NewLocator()
		return []slot{docSlot(c), nameSlot(c), resourceSlot("owner", c.SetOwner, c.Owner),
			resourceSlot("target", c.SetTarget, c.Target), boolSlot("variable", c.SetVariable, c.Variable)}
	default:
		c := concepts.NewError()
		v := nd.Int("code")
		vs := []int{0, v, v ^ 1}
		return []slot{docSlot(c), nameSlot(c), versionSlot("owner", c.SetOwner, c.Owner),
			{"code", func(i int) { c.SetCode(vs[i]) }, func(i int) bool { return c.Code() == vs[i] }}}
	}
}

func kind(i int) concepts.TypeKind { return concepts.TypeKind(i) }

// Whatever the history of the values given to the details of a concept, each detail has the last
// value that was given to it, and nothing that was given to another.
func CheckDetails() {
	s := slots(nd.Choose("concept", 10))
	last := make([]int, len(s))
	steps := nd.Bound("steps", 3, 4)
	for i := 0; i < steps; i++ {
		at := string(rune('0' + i))
		j := nd.Choose("detail"+at, len(s))
		v := 1 + nd.Choose("value"+at, 2)
		s[j].put(v)
		last[j] = v
	}
	nd.Reach("set")
	for j, x := range s {
		nd.Assert(x.ok(last[j]), "the "+x.label+" isn't the last one that was set")
	}
}

// The kind of a type decides the predicates, and the predefined types are recognised only in the version
// that owns them.
func CheckKinds() {
	t := concepts.NewType()
	k := kind(nd.IntRange("kind", 0, 7))
	t.SetKind(k)
	nd.Reach("type")
	nd.Assert(t.IsClass() == (k == concepts.ClassType), "wrong answer for class")
	nd.Assert(t.IsEnum() == (k == concepts.EnumType), "wrong answer for enum")
	nd.Assert(t.IsInterface() == (k == concepts.InterfaceType), "wrong answer for interface")
	nd.Assert(t.IsList() == (k == concepts.ListType), "wrong answer for list")
	nd.Assert(t.IsMap() == (k == concepts.MapType), "wrong answer for map")
	nd.Assert(t.IsStruct() == nd.Or(k == concepts.ClassType, k == concepts.StructType), "wrong answer for struct")
	basic := nd.Or(k == concepts.ScalarType, k == concepts.InterfaceType)
	nd.Assert(t.IsBasicType() == basic, "wrong answer for basic type")
	nd.Assert(t.IsScalar() == nd.Or(basic, k == concepts.EnumType), "wrong answer for scalar")
	var none *concepts.Type
	nd.Assert(!none.IsScalar() && !none.IsBasicType(), "no type is a scalar")
}

var predefined = []*names.Name{
	nomenclator.Boolean, nomenclator.Integer, nomenclator.Long, nomenclator.Float,
	nomenclator.String, nomenclator.Date, nomenclator.Interface,
}

func is(t *concepts.Type) []bool {
	return []bool{t.IsBoolean(), t.IsInteger(), t.IsLong(), t.IsFloat(), t.IsString(), t.IsDate(), t.IsInterface()}
}

// The predefined types of a version are the only ones recognised as such.
func CheckPredefined() {
	v := concepts.NewVersion()
	own := nd.Choose("predefined", len(predefined)+1)
	var t *concepts.Type
	if own < len(predefined) {
		t = v.FindType(predefined[own])
		nd.Assert(t != nil, "a predefined type is missing")
		nd.Assert(t.Owner() == v, "the owner of a predefined type isn't its version")
		nd.Assert(t.Name().Equals(predefined[own]), "wrong name of a predefined type")
		nd.Assert(t.IsScalar(), "a predefined type isn't scalar")
	} else {
		t = concepts.NewType()
		t.SetName(name("name"))
		t.SetKind(concepts.StructType)
		if nd.Bool("owned") {
			v.AddType(t)
		}
	}
	nd.Reach("found")
	for i, x := range is(t) {
		nd.Assert(x == (i == own), "a type is taken for the wrong predefined type")
	}
	all := []*concepts.Type{v.Boolean(), v.IntegerType(), v.LongType(), v.FloatType(), v.StringType(), v.DateType(), v.InterfaceType()}
	for i, x := range all {
		nd.Assert(x == v.FindType(predefined[i]), "wrong predefined type")
	}
	// A type of the same name that belongs to other version, or to none, isn't the predefined one:
	if own < len(predefined) && own != 6 {
		x := concepts.NewType()
		x.SetName(predefined[own])
		x.SetKind(concepts.ScalarType)
		if nd.Bool("other") {
			x.SetOwner(v)
		}
		for i, y := range is(x) {
			nd.Assert(!y, "a type that isn't predefined is taken for one: "+predefined[i].String())
		}
	}
}

func annotated(k int) concepts.Annotated {
	switch k {
	case 0:
		return concepts.NewAttribute()
	case 1:
		return concepts.NewType()
	case 2:
		return concepts.NewEnumValue()
	case 3:
		return concepts.NewResource()
	case 4:
		return concepts.NewMethod()
	case 5:
		return concepts.NewParameter()
	case 6:
		return concepts.NewLocator()
	default:
		return concepts.NewError()
	}
}

// The annotations of a concept are the ones added, in that order, each is found by its name and has the
// last value given to each of its parameters.
func CheckAnnotations() {
	c := annotated(nd.Choose("concept", 8))
	n := nd.Choose("annotations", nd.Bound("annotations.max", 3, 4))
	all := []string{"go", "json", "name"}
	var added []*concepts.Annotation
	var labels []string
	var values []map[string]string
	for i := 0; i < n; i++ {
		at := string(rune('0' + i))
		a := concepts.NewAnnotation()
		x := all[nd.Choose("name"+at, 3)]
		a.SetName(x)
		vs := map[string]string{}
		for j := 0; j < 2; j++ {
			p := all[nd.Choose("parameter"+at+string(rune('0'+j)), 3)]
			v := nd.String("value"+at+string(rune('0'+j)), 0, 2)
			a.AddParameter(p, v)
			vs[p] = v
		}
		c.AddAnnotation(a)
		added = append(added, a)
		labels = append(labels, x)
		values = append(values, vs)
	}
	nd.Reach("annotated")
	got := c.Annotations()
	nd.Assert(len(got) == n, "wrong number of annotations")
	for i, a := range got {
		nd.Assert(a == added[i], "the annotations aren't in the order of addition")
		nd.Assert(a.Name() == labels[i], "wrong name of an annotation")
		for _, p := range all {
			v, given := values[i][p]
			if given {
				nd.Assert(a.GetString(p) == v, "wrong value of a parameter of an annotation")
				s, ok := a.FindParameter(p).(string)
				nd.Assert(ok && s == v, "wrong value of a parameter of an annotation")
			} else {
				nd.Assert(a.GetString(p) == "", "text for a parameter that wasn't added")
				nd.Assert(a.FindParameter(p) == nil, "value for a parameter that wasn't added")
			}
		}
	}
	for _, x := range all {
		var first *concepts.Annotation
		for i := n - 1; i >= 0; i-- {
			if labels[i] == x {
				first = added[i]
			}
		}
		nd.Assert(c.GetAnnotation(x) == first, "wrong annotation found by its name")
	}
}

// Adding several at once is the same as adding them one by one, and nothing is added for nothing.
func CheckBatch() {
	n := nd.Choose("elements", 4)
	used := []string{"C", "A", "B"}
	hole := nd.Choose("hole", 4)
	var services []*concepts.Service
	var versions []*concepts.Version
	var types []*concepts.Type
	var resources []*concepts.Resource
	var errors []*concepts.Error
	var attributes []*concepts.Attribute
	for i := 0; i < n; i++ {
		if i == hole {
			services = append(services, nil)
			versions = append(versions, nil)
			types = append(types, nil)
			resources = append(resources, nil)
			errors = append(errors, nil)
			attributes = append(attributes, nil)
		}
		x := names.ParseUsingCase(used[i])
		s := concepts.NewService()
		s.SetName(x)
		services = append(services, s)
		v := concepts.NewVersion()
		v.SetName(x)
		versions = append(versions, v)
		t := concepts.NewType()
		t.SetName(x)
		types = append(types, t)
		r := concepts.NewResource()
		r.SetName(x)
		resources = append(resources, r)
		e := concepts.NewError()
		e.SetName(x)
		errors = append(errors, e)
		a := concepts.NewAttribute()
		a.SetName(x)
		attributes = append(attributes, a)
	}
	m := concepts.NewModel()
	m.AddServices(services)
	s := concepts.NewService()
	s.AddVersions(versions)
	v := concepts.NewVersion()
	before := len(v.Types())
	v.AddTypes(types)
	v.AddResources(resources)
	v.AddErrors(errors)
	t := concepts.NewType()
	t.AddAttributes(attributes)
	nd.Reach("added")
	nd.Assert(len(m.Services()) == n, "wrong number of services")
	nd.Assert(len(s.Versions()) == n, "wrong number of versions")
	nd.Assert(len(v.Types()) == before+n, "wrong number of types")
	nd.Assert(len(v.Resources()) == n, "wrong number of resources")
	nd.Assert(len(v.Errors()) == n, "wrong number of errors")
	nd.Assert(len(t.Attributes()) == n, "wrong number of attributes")
	for i, x := range services {
		if x == nil {
			continue
		}
		name := x.Name()
		nd.Assert(m.FindService(name) == x && x.Owner() == m, "a service is missing")
		nd.Assert(s.FindVersion(name) == versions[i] && versions[i].Owner() == s, "a version is missing")
		nd.Assert(v.FindType(name) == types[i] && types[i].Owner() == v, "a type is missing")
		nd.Assert(v.FindResource(name) == resources[i] && resources[i].Owner() == v, "a resource is missing")
		nd.Assert(v.FindError(name) == errors[i] && errors[i].Owner() == v, "an error is missing")
		nd.Assert(t.FindAttribute(name) == attributes[i] && attributes[i].Owner() == t, "an attribute is missing")
	}
}

// The root resource of a version is the one named root, and only that one.
func CheckRoot() {
	v := concepts.NewVersion()
	n := nd.Choose("resources", 3)
	var root *concepts.Resource
	for i := 0; i < n; i++ {
		at := string(rune('0' + i))
		text := nd.StringOf("name"+at, 4, 4, "rot")
		r := concepts.NewResource()
		r.SetName(names.NewName(names.NewWord(text)))
		if root != nil && text == "root" {
			nd.Assert(root.IsRoot(), "the root isn't recognised")
		}
		v.AddResource(r)
		if text == "root" {
			root = r
		}
		nd.Assert(r.IsRoot() == (text == "root"), "wrong answer for root")
	}
	nd.Reach("added")
	nd.Assert(v.Root() == root, "wrong root")
}
