package p04

import (
	"github.com/openshift-online/ocm-api-metamodel/zzverif/mb"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
)

// Kinds of types of a parameter.
const (
	boolean = iota
	integer
	str
	long
	float
	date
	iface
	enum
	class
	strct
	listOfStruct
	listOfScalar
	mapOfScalar
	mapOfStruct
	kinds
)

var refs = []mb.Ref{
	boolean: mb.P("Boolean"), integer: mb.P("Integer"), str: mb.P("String"), long: mb.P("Long"),
	float: mb.P("Float"), date: mb.P("Date"), iface: mb.P("Interface"), enum: mb.P("MyEnum"),
	class: mb.P("MyClass"), strct: mb.P("MyStruct"), listOfStruct: mb.L("MyClass"), listOfScalar: mb.L("String"),
	mapOfScalar: mb.M("String"), mapOfStruct: mb.M("MyClass"),
}

func scalar(k int) bool { return k <= enum }
func object(k int) bool { return k == class || k == strct }
func list(k int) bool   { return k == listOfStruct || k == listOfScalar }

var methods = []string{"Add", "Delete", "Get", "List", "Post", "Search", "Update", "AsyncDelete", "AsyncUpdate", "Action"}

type param struct {
	name    string
	kind    int
	in, out bool
	dflt    int // 0: none, 1: integer, 2: string, 3: boolean
	value   int
}

func version(method string, params []*param) *mb.Version {
	v := &mb.Version{
		Types: []*mb.Type{
			{Kind: mb.Enum, Name: "MyEnum", Values: []*mb.Value{{Name: "Good"}}},
			{Kind: mb.Class, Name: "MyClass", Attrs: []*mb.Attr{{Name: "Name", Ref: mb.P("String")}}},
			{Kind: mb.Struct, Name: "MyStruct", Attrs: []*mb.Attr{{Name: "Name", Ref: mb.P("String")}}},
		},
	}
	m := &mb.Method{Name: method}
	for _, p := range params {
		x := &mb.Param{Name: p.name, Ref: refs[p.kind], In: p.in, Out: p.out}
		switch p.dflt {
		case 1:
			x.Default = p.value
		case 2:
			x.Default = "abc"
		case 3:
			x.Default = true
		}
		m.Params = append(m.Params, x)
	}
	v.Resources = []*mb.Resource{{Name: "Root", Methods: []*mb.Method{m}}}
	return v
}

// valid is the documented contract of the methods.
func valid(method string, params []*param) bool {
	ok := true
	need := func(c bool) { ok = nd.And(ok, c) }
	inOnly := func(p *param) bool { return nd.And(p.in, nd.Not(p.out)) }
	outOnly := func(p *param) bool { return nd.And(p.out, nd.Not(p.in)) }
	inOut := func(p *param) bool { return nd.And(p.in, p.out) }
	structs, lists := 0, 0
	for _, p := range params {
		if object(p.kind) {
			structs++
		}
		if list(p.kind) {
			lists++
		}
	}
	paging := func() {
		items := false
		for _, p := range params {
			switch p.name {
			case "Page", "Size":
				dflt := 1
				if p.name == "Size" {
					dflt = 100
				}
				need(p.kind == integer)
				need(inOut(p))
				need(p.dflt == 1)
				if p.dflt == 1 {
					need(p.value == dflt)
				}
			case "Total":
				need(p.kind == integer)
				need(outOnly(p))
			case "Items":
				items = true
			}
		}
		need(items)
	}
	switch method {
	case "Add":
		need(structs == 1)
		for _, p := range params {
			need(scalar(p.kind) || object(p.kind))
			if object(p.kind) {
				need(inOut(p))
				need(p.name == "Body")
			}
		}
	case "Delete", "AsyncDelete":
		for _, p := range params {
			need(scalar(p.kind))
			need(inOnly(p))
		}
	case "Get":
		need(structs == 1)
		for _, p := range params {
			need(scalar(p.kind) || object(p.kind))
			if object(p.kind) {
				need(outOnly(p))
				need(p.name == "Body")
			} else {
				need(inOnly(p))
			}
		}
	case "List":
		need(lists == 1)
		for _, p := range params {
			need(scalar(p.kind) || list(p.kind))
			if list(p.kind) {
				need(outOnly(p))
				need(p.name == "Items")
			}
		}
		paging()
	case "Search":
		need(lists == 1)
		bodies := 0
		for _, p := range params {
			if list(p.kind) {
				need(outOnly(p))
				need(p.name == "Items")
			} else if object(p.kind) {
				need(inOnly(p))
				need(p.name == "Body")
				bodies++
			} else {
				need(scalar(p.kind))
			}
		}
		need(bodies == 1)
		paging()
	case "Post":
		ins, outs := 0, 0
		for _, p := range params {
			if p.in {
				ins++
			}
			if p.out {
				outs++
			}
			need(object(p.kind))
		}
		need(ins <= 1)
		need(outs == 1)
	case "Update", "AsyncUpdate":
		need(structs+lists == 1)
		for _, p := range params {
			need(scalar(p.kind) || object(p.kind) || list(p.kind))
			if scalar(p.kind) {
				need(inOnly(p))
			} else {
				need(inOut(p))
				need(p.name == "Body")
			}
		}
	}
	for _, p := range params {
		switch p.dflt {
		case 1:
			need(p.kind == integer)
		case 2:
			need(p.kind == str)
		case 3:
			need(p.kind == boolean)
		}
	}
	return ok
}

func check(method string, params []*param) {
	res := mb.One(version(method, params)).Read()
	nd.Assert(!res.Crashed, "the reader crashed")
	accepted := res.Err == nil
	nd.Observe("accepted", accepted)
	nd.Assert(accepted == (res.Model != nil), "a model is returned only without errors")
	nd.Assert(accepted == (res.Reporter.Errors() == 0), "the result and the reported errors don't agree")
	if accepted {
		nd.Reach("accepted")
	} else {
		nd.Reach("rejected")
	}
	nd.Assert(accepted == valid(method, params), "the decision isn't the one that the rules mandate")
}

func symbolic(name string, names []string) *param {
	p := &param{name: names[nd.Choose(name+".name", len(names))], kind: nd.Choose(name+".kind", kinds)}
	p.in = nd.Bool(name + ".in")
	p.out = nd.Bool(name + ".out")
	// In the language a parameter without direction is an output parameter:
	nd.Assume(nd.Or(p.in, p.out))
	return p
}

func dflt(name string, p *param) {
	p.dflt = nd.Choose(name+".default", 4)
	if p.dflt == 1 {
		p.value = nd.IntRange(name+".value", 0, 1000)
	}
}

// A method with one arbitrary parameter.
func CheckOneParameter() {
	m := methods[nd.Choose("method", len(methods))]
	p := symbolic("p", []string{"Body", "Items", "Page", "Size", "Total", "Other"})
	dflt("p", p)
	check(m, []*param{p})
}

// A method that is right except for one arbitrary additional parameter.
func CheckAdditionalParameter() {
	m := methods[nd.Choose("method", len(methods))]
	p := symbolic("p", []string{"Other", "Body", "Items", "Page", "Size", "Total"})
	dflt("p", p)
	var base []*param
	body := &param{name: "Body", kind: class}
	items := &param{name: "Items", kind: listOfStruct, out: true}
	switch m {
	case "Add", "Update", "AsyncUpdate":
		body.in, body.out = true, true
		base = append(base, body)
	case "Get":
		body.out = true
		base = append(base, body)
	case "Post":
		body.in, body.out = true, true
		body.name = "Thing"
		base = append(base, body)
	case "List":
		base = append(base, items)
	case "Search":
		body.in = true
		base = append(base, items, body)
	}
	// Names of parameters of a method are unique:
	for _, b := range base {
		nd.Assume(b.name != p.name)
	}
	check(m, append(base, p))
}

// A complete paginated method where the kinds, directions and defaults of its parameters are arbitrary.
func CheckPaginated() {
	m := "List"
	var params []*param
	if nd.Bool("search") {
		m = "Search"
		params = append(params, &param{name: "Body", kind: class, in: true})
	}
	params = append(params, &param{name: "Items", kind: listOfStruct, out: true})
	for _, n := range []string{"Page", "Size", "Total"} {
		if nd.Bool("has" + n) {
			p := &param{name: n, kind: integer, in: nd.Bool(n + ".in"), out: nd.Bool(n + ".out")}
			nd.Assume(nd.Or(p.in, p.out))
			if nd.Bool(n + ".long") {
				p.kind = long
			}
			if nd.Bool(n + ".default") {
				p.dflt = 1
				p.value = nd.IntRange(n+".value", 0, 1000)
			}
			params = append(params, p)
		}
	}
	check(m, params)
}

// Two arbitrary parameters of the kinds that may be the payload.
func CheckTwoParameters() {
	m := methods[nd.Choose("method", len(methods))]
	ks := []int{integer, class, listOfStruct, mapOfScalar}
	var params []*param
	for i, n := range []string{"p", "q"} {
		p := &param{kind: ks[nd.Choose(n+".kind", len(ks))], in: nd.Bool(n + ".in"), out: nd.Bool(n + ".out")}
		nd.Assume(nd.Or(p.in, p.out))
		if i == 0 {
			p.name = []string{"Body", "Items"}[nd.Choose(n+".name", 2)]
		} else {
			p.name = "Other"
		}
		params = append(params, p)
	}
	check(m, params)
}
