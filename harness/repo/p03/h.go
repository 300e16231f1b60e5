package p03

import (
	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
)

const chars = "abyz019_"

// thing adapts all the kinds of elements.
type thing struct {
	name  *names.Name
	ptr   interface{}
	owner func() interface{}
}

type container struct {
	label string
	add   func(n *names.Name) *thing
	list  func() []interface{}
	find  func(n *names.Name) interface{} // nil if there is no such method
	named func(x interface{}) *names.Name
	self  interface{}
	extra int // number of predefined elements
	keyed bool
}

func containers(k int) *container {
	switch k {
	case 0:
		m := concepts.NewModel()
		return &container{label: "services", self: m, keyed: true,
			add: func(n *names.Name) *thing {
				x := concepts.NewService()
				x.SetName(n)
				m.AddService(x)
				return &thing{n, x, func() interface{} { return x.Owner() }}
			},
			list: func() (out []interface{}) {
				for _, x := range m.Services() {
					out = append(out, x)
				}
				return
			},
			find:  func(n *names.Name) interface{} { return iface(m.FindService(n)) },
			named: func(x interface{}) *names.Name { return x.(*concepts.Service).Name() },
		}
	case 1:
		s := concepts.NewService()
		return &container{label: "versions", self: s, keyed: true,
			add: func(n *names.Name) *thing {
				x := concepts.NewVersion()
				x.SetName(n)
				s.AddVersion(x)
				return &thing{n, x, func() interface{} { return x.Owner() }}
			},
			list: func() (out []interface{}) {
				for _, x := range s.Versions() {
					out = append(out, x)
				}
				return
			},
			find: func(n *names.Name) interface{} {
				if x := s.FindVersion(n); x != nil {
					return x
				}
				return nil
			},
			named: func(x interface{}) *names.Name { return x.(*concepts.Version).Name() },
		}
	case 2:
		v := concepts.NewVersion()
		return &container{label: "types", self: v, extra: len(v.Types()), keyed: true,
			add: func(n *names.Name) *thing {
				x := concepts.NewType()
				x.SetName(n)
				v.AddType(x)
				return &thing{n, x, func() interface{} { return x.Owner() }}
			},
			list: func() (out []interface{}) {
				for _, x := range v.Types() {
					out = append(out, x)
				}
				return
			},
			find: func(n *names.Name) interface{} {
				if x := v.FindType(n); x != nil {
					return x
				}
				return nil
			},
			named: func(x interface{}) *names.Name { return x.(*concepts.Type).Name() },
		}
	case 3:
		v := concepts.NewVersion()
		return &container{label: "resources", self: v, keyed: true,
			add: func(n *names.Name) *thing {
				x := concepts.NewResource()
				x.SetName(n)
				v.AddResource(x)
				return &thing{n, x, func() interface{} { return x.Owner() }}
			},
			list: func() (out []interface{}) {
				for _, x := range v.Resources() {
					out = append(out, x)
				}
				return
			},
			find: func(n *names.Name) interface{} {
				if x := v.FindResource(n); x != nil {
					return x
				}
				return nil
			},
			named: func(x interface{}) *names.Name { return x.(*concepts.Resource).Name() },
		}
	case 4:
		v := concepts.NewVersion()
		return &container{label: "errors", self: v, keyed: true,
			add: func(n *names.Name) *thing {
				x := concepts.NewError()
				x.SetName(n)
				v.AddError(x)
				return &thing{n, x, func() interface{} { return x.Owner() }}
			},
			list: func() (out []interface{}) {
				for _, x := range v.Errors() {
					out = append(out, x)
				}
				return
			},
			find: func(n *names.Name) interface{} {
				if x := v.FindError(n); x != nil {
					return x
				}
				return nil
			},
			named: func(x interface{}) *names.Name { return x.(*concepts.Error).Name() },
		}
	case 5:
		t := concepts.NewType()
		return &container{label: "attributes", self: t,
			add: func(n *names.Name) *thing {
				x := concepts.NewAttribute()
				x.SetName(n)
				t.AddAttribute(x)
				return &thing{n, x, func() interface{} { return x.Owner() }}
			},
			list: func() (out []interface{}) {
				for _, x := range t.Attributes() {
					out = append(out, x)
				}
				return
			},
			find: func(n *names.Name) interface{} {
				if x := t.FindAttribute(n); x != nil {
					return x
				}
				return nil
			},
			named: func(x interface{}) *names.Name { return x.(*concepts.Attribute).Name() },
		}
	case 6:
		t := concepts.NewType()
		return &container{label: "values", self: t,
			add: func(n *names.Name) *thing {
				x := concepts.NewEnumValue()
				x.SetName(n)
				t.AddValue(x)
				return &thing{n, x, func() interface{} { return x.Type() }}
			},
			list: func() (out []interface{}) {
				for _, x := range t.Values() {
					out = append(out, x)
				}
				return
			},
			named: func(x interface{}) *names.Name { return x.(*concepts.EnumValue).Name() },
		}
	case 7:
		r := concepts.NewResource()
		return &container{label: "methods", self: r,
			add: func(n *names.Name) *thing {
				x := concepts.NewMethod()
				x.SetName(n)
				r.AddMethod(x)
				return &thing{n, x, func() interface{} { return x.Owner() }}
			},
			list: func() (out []interface{}) {
				for _, x := range r.Methods() {
					out = append(out, x)
				}
				return
			},
			find: func(n *names.Name) interface{} {
				if x := r.FindMethod(n); x != nil {
					return x
				}
				return nil
			},
			named: func(x interface{}) *names.Name { return x.(*concepts.Method).Name() },
		}
	case 8:
		r := concepts.NewResource()
		return &container{label: "locators", self: r,
			add: func(n *names.Name) *thing {
				x := concepts.NewLocator()
				x.SetName(n)
				r.AddLocator(x)
				return &thing{n, x, func() interface{} { return x.Owner() }}
			},
			list: func() (out []interface{}) {
				for _, x := range r.Locators() {
					out = append(out, x)
				}
				return
			},
			named: func(x interface{}) *names.Name { return x.(*concepts.Locator).Name() },
		}
	default:
		m := concepts.NewMethod()
		return &container{label: "parameters", self: m,
			add: func(n *names.Name) *thing {
				x := concepts.NewParameter()
				x.SetName(n)
				m.AddParameter(x)
				return &thing{n, x, func() interface{} { return x.Owner() }}
			},
			list: func() (out []interface{}) {
				for _, x := range m.Parameters() {
					out = append(out, x)
				}
				return
			},
			find: func(n *names.Name) interface{} {
				if x := m.GetParameter(n); x != nil {
					return x
				}
				return nil
			},
			named: func(x interface{}) *names.Name { return x.(*concepts.Parameter).Name() },
		}
	}
}

func iface(s *concepts.Service) interface{} {
	if s == nil {
		return nil
	}
	return s
}

func name(n string) *names.Name {
	a := names.NewWord(nd.StringOf(n, 1, 1, chars))
	if nd.Bool(n + ".two") {
		return names.NewName(a, names.NewWord("b"))
	}
	return names.NewName(a)
}

// After adding elements with different names, in any order, the container lists all of them exactly
// once, sorted by name, each owned by the container and found by its name.
func CheckContainers() {
	k := nd.Choose("container", 10)
	c := containers(k)
	n := nd.Bound("elements", 4, 4)
	var ts []*thing
	for i := 0; i < n; i++ {
		x := name("n" + string(rune('0'+i)))
		for _, t := range ts {
			nd.Assume(t.name.String() != x.String())
		}
		ts = append(ts, c.add(x))
		nd.Assert(ts[i].owner() == c.self, "the owner of the element isn't the container")
	}
	nd.AnyMapOrder(c.extra == 0)
	var l []interface{}
	crashed := nd.Panics(func() { l = c.list() })
	nd.AnyMapOrder(false)
	nd.Assert(!crashed, "listing the elements crashed")
	nd.Reach("listed")
	nd.Assert(len(l) == n+c.extra, "wrong number of elements")
	for i := 0; i+1 < len(l); i++ {
		nd.Assert(names.Compare(c.named(l[i]), c.named(l[i+1])) < 0, "the elements aren't sorted by name")
	}
	for _, t := range ts {
		count := 0
		for _, x := range l {
			if x == t.ptr {
				count++
			}
		}
		nd.Assert(count == 1, "an element isn't listed exactly once")
		if c.find != nil {
			nd.Assert(c.find(t.name) == t.ptr, "an element isn't found by its name")
		}
	}
	if c.find != nil {
		nd.Assert(c.find(names.ParseUsingCase("Missing")) == nil, "an element that doesn't exist is found")
		nd.Assert(c.find(nil) == nil, "something is found without a name")
	}
}

// Adding nothing changes nothing, and adding again an element with the same name to a container that
// is indexed by name replaces it.
func CheckReplace() {
	k := nd.Choose("container", 5)
	c := containers(k)
	a := c.add(name("a"))
	b := c.add(name("b"))
	same := a.name.String() == b.name.String()
	l := c.list()
	nd.Reach("listed")
	if same {
		nd.Assert(len(l) == 1+c.extra, "the element hasn't been replaced")
		nd.Assert(c.find(a.name) == b.ptr, "the element found isn't the last one added")
	} else {
		nd.Assert(len(l) == 2+c.extra, "wrong number of elements")
		nd.Assert(c.find(a.name) == a.ptr, "the first element isn't found")
		nd.Assert(c.find(b.name) == b.ptr, "the second element isn't found")
	}
}

// Lists longer than the ones that are sorted by insertion are sorted as well.
func CheckMany() {
	t := concepts.NewType()
	letters := "nbqdyfmhzjalcskrwtpvgxueoi"
	n := nd.Bound("elements", 20, 30)
	sym := nd.StringOf("name", 1, 1, "abcdefghijklmnopqrstuvwxyz")
	at := nd.Choose("position", n)
	for i := 0; i < n; i++ {
		a := concepts.NewAttribute()
		if i == at {
			a.SetName(names.NewName(names.NewWord(sym), names.NewWord("x")))
		} else {
			a.SetName(names.NewName(names.NewWord(letters[i : i+1])))
		}
		t.AddAttribute(a)
	}
	l := t.Attributes()
	nd.Reach("sorted")
	nd.Assert(len(l) == n, "wrong number of attributes")
	for i := 0; i+1 < len(l); i++ {
		nd.Assert(names.Compare(l[i].Name(), l[i+1].Name()) < 0, "the attributes aren't sorted")
	}
}

// The variable flag of a locator is the one that was set, and the variable and constant locators of a
// resource partition its locators.
func CheckLocators() {
	r := concepts.NewResource()
	n := nd.Bound("locators", 4, 6)
	var ls []*concepts.Locator
	var flags []bool
	for i := 0; i < n; i++ {
		l := concepts.NewLocator()
		l.SetName(names.ParseUsingCase("L" + string(rune('A'+i))))
		f := nd.Bool("variable" + string(rune('0'+i)))
		l.SetVariable(f)
		nd.Assert(l.Variable() == f, "the variable flag isn't the one that was set")
		r.AddLocator(l)
		ls = append(ls, l)
		flags = append(flags, f)
	}
	constants := r.ConstantLocators()
	variable := r.VariableLocator()
	nd.Reach("classified")
	count := 0
	for i, l := range ls {
		found := false
		for _, x := range constants {
			if x == l {
				found = true
			}
		}
		nd.Assert(found == !flags[i], "constant locators aren't the ones that aren't variable")
		if flags[i] {
			count++
		}
	}
	nd.Assert(len(constants) == n-count, "wrong number of constant locators")
	nd.Assert((variable != nil) == (count > 0), "wrong variable locator")
	if variable != nil {
		nd.Assert(variable.Variable(), "the variable locator isn't variable")
	}
}
