package p07

import (
	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/mb"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
)

var methods = []string{"Add", "Delete", "Get", "List", "Post", "Search", "Update", "AsyncDelete", "AsyncUpdate", "Hibernate"}

type param struct {
	p       *concepts.Parameter
	in, out bool
	scalar  bool
}

func kinds(v *concepts.Version) []*concepts.Type {
	mk := func(k concepts.TypeKind, n string) *concepts.Type {
		t := concepts.NewType()
		t.SetKind(k)
		t.SetName(names.ParseUsingCase(n))
		v.AddType(t)
		return t
	}
	return []*concepts.Type{
		v.Boolean(), v.IntegerType(), v.LongType(), v.FloatType(), v.StringType(), v.DateType(), v.InterfaceType(),
		mk(concepts.EnumType, "MyEnum"), mk(concepts.ClassType, "MyClass"), mk(concepts.StructType, "MyStruct"),
		mk(concepts.ListType, "MyList"), mk(concepts.MapType, "MyMap"),
	}
}

func in(l []*concepts.Parameter, p *concepts.Parameter) bool {
	for _, x := range l {
		if x == p {
			return true
		}
	}
	return false
}

func unique(l []*concepts.Parameter) bool {
	for i, x := range l {
		for _, y := range l[:i] {
			if x == y {
				return false
			}
		}
	}
	return true
}

func build(n int) (*concepts.Version, *concepts.Method, []*param) {
	v := concepts.NewVersion()
	v.SetName(names.ParseUsingSeparator("v1", "_"))
	ks := kinds(v)
	r := concepts.NewResource()
	r.SetName(names.ParseUsingCase("Root"))
	v.AddResource(r)
	m := concepts.NewMethod()
	m.SetName(names.ParseUsingCase(methods[nd.Choose("method", len(methods))]))
	var ps []*param
	for i := 0; i < n; i++ {
		s := string(rune('0' + i))
		k := nd.Choose("kind"+s, len(ks))
		p := &param{p: concepts.NewParameter(), in: nd.Bool("in" + s), out: nd.Bool("out" + s), scalar: k <= 7}
		p.p.SetName(names.ParseUsingCase("P" + s))
		p.p.SetType(ks[k])
		p.p.SetIn(p.in)
		p.p.SetOut(p.out)
		m.AddParameter(p.p)
		ps = append(ps, p)
	}
	r.AddMethod(m)
	return v, m, ps
}

// Every input parameter travels in exactly one of the query or the request body, every output parameter
// travels in the response, and nothing else does.
func CheckPartition() {
	_, m, ps := build(nd.Bound("parameters", 2, 3))
	b := mb.Binding()
	req, query, body := b.RequestParameters(m), b.RequestQueryParameters(m), b.RequestBodyParameters(m)
	resp, respBody := b.ResponseParameters(m), b.ResponseBodyParameters(m)
	nd.Reach("classified")
	action := m.Name().Equals(names.ParseUsingCase("Hibernate"))
	nd.Assert(m.IsAction() == action, "the method isn't correctly classified as action")
	for _, p := range ps {
		q, d := in(query, p.p), in(body, p.p)
		nd.Assert(in(req, p.p) == p.in, "the request parameters aren't the input parameters")
		nd.Assert((q || d) == p.in, "an input parameter isn't sent, or another one is")
		nd.Assert(!(q && d), "a parameter is sent both in the query and in the body")
		nd.Assert(nd.Implies(p.in, q == (p.scalar && !action)), "the input parameter is sent in the wrong place")
		nd.Assert(in(resp, p.p) == p.out, "the response parameters aren't the output parameters")
		nd.Assert(in(respBody, p.p) == p.out, "the response body parameters aren't the output parameters")
	}
	for _, l := range [][]*concepts.Parameter{req, query, body, resp, respBody} {
		nd.Assert(unique(l), "a parameter is repeated")
		for i := 0; i+1 < len(l); i++ {
			nd.Assert(names.Compare(l[i].Name(), l[i+1].Name()) < 0, "the parameters aren't in order")
		}
	}
}

// The HTTP method, the default status and the URL segment are the ones of the kind of method.
func CheckMethod() {
	_, m, _ := build(0)
	b := mb.Binding()
	method, status, segment := b.Method(m), b.DefaultStatus(m), b.MethodSegment(m)
	nd.Observe("method", method)
	nd.Observe("status", status)
	nd.Reach("calculated")
	want := map[string][3]string{
		"add": {"POST", "201", ""}, "delete": {"DELETE", "204", ""}, "get": {"GET", "200", ""},
		"list": {"GET", "200", ""}, "post": {"POST", "201", ""}, "search": {"POST", "200", ""},
		"update": {"PATCH", "200", ""}, "async_delete": {"DELETE", "202", ""}, "async_update": {"PATCH", "202", ""},
		"hibernate": {"POST", "200", "hibernate"},
	}[m.Name().Snake()]
	nd.Assert(method == want[0], "wrong HTTP method")
	nd.Assert(status == want[1], "wrong default status")
	nd.Assert(segment == want[2], "wrong URL segment")
	kinds := 0
	for _, k := range []bool{m.IsAdd(), m.IsDelete(), m.IsAsyncDelete(), m.IsGet(), m.IsList(), m.IsPost(), m.IsSearch(), m.IsUpdate(), m.IsAsyncUpdate(), m.IsAction()} {
		if k {
			kinds++
		}
	}
	nd.Assert(kinds == 1, "the method doesn't belong to exactly one category")
}

// Any identifier that isn't one of the reserved names is the name of an action, and its segment is its
// name in snake case.
func CheckAction() {
	text := nd.StringOf("name", 1, nd.Bound("name", 6, 7), "abcdefghijklmnopqrstuvwxyz")
	m := concepts.NewMethod()
	m.SetName(names.NewName(names.NewWord(text)))
	reserved := false
	for _, r := range []string{"add", "delete", "get", "list", "post", "search", "update"} {
		reserved = nd.Or(reserved, text == r)
	}
	nd.Reach("classified")
	b := mb.Binding()
	nd.Assert(nd.Iff(m.IsAction(), nd.Not(reserved)), "a method is an action if its name isn't reserved")
	if reserved {
		nd.Reach("reserved")
		nd.Assert(b.MethodSegment(m) == "", "a reserved method has a segment")
	} else {
		nd.Assert(b.MethodSegment(m) == text, "the segment isn't the name")
		nd.Assert(b.Method(m) == "POST", "an action isn't a POST")
		nd.Assert(b.DefaultStatus(m) == "200", "wrong default status")
	}
}
