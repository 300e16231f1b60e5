package p15

import (
	v1 "verifgen/api/clustersmgmt/v1"
	mirror "verifgen/api/mirror/v1beta1"
	"verifgen/zzverif/gx"
	"verifgen/zzverif/nd"
)

const chars = "ab \"\\\x00\xff0"

func check(o *v1.Cluster, i int, v *gx.Vals, j int, u *gx.Vals) {
	for k, a := range gx.Attrs {
		switch k {
		case j:
			nd.Assert(a.Has(o), "an attribute that was set doesn't have a value: "+a.Name)
			nd.Assert(a.Same(o, u), "an attribute doesn't have the value that was set: "+a.Name)
		case i:
			nd.Assert(a.Has(o), "an attribute that was set doesn't have a value: "+a.Name)
			nd.Assert(a.Same(o, v), "an attribute doesn't have the value that was set: "+a.Name)
		default:
			nd.Assert(!a.Has(o), "an attribute that wasn't set has a value: "+a.Name)
			nd.Assert(a.Zero(o), "an attribute that wasn't set doesn't return the zero value: "+a.Name)
		}
	}
}

// After setting any two attributes, with any values, exactly those attributes have a value, and their
// value is the last one that was set.
func CheckBuild() {
	i, j := nd.Choose("first", len(gx.Attrs)), nd.Choose("second", len(gx.Attrs))
	v, u := gx.Values("v", chars), gx.Values("u", chars)
	u.N = nd.Choose("count", 2)
	b := v1.NewCluster()
	nd.Assert(b.Empty(), "a new builder isn't empty")
	gx.Attrs[i].Set(b, v)
	gx.Attrs[j].Set(b, u)
	nd.Assert(!b.Empty(), "the builder is empty")
	o, err := b.Build()
	nd.Reach("built")
	nd.Assert(err == nil && o != nil, "can't build the object")
	nd.Assert(!o.Empty(), "the object is empty")
	nd.Assert(!o.Link() && o.Kind() == v1.ClusterKind, "the object is a link")
	check(o, i, v, j, u)
}

// The objects are independent of the builder: changing the builder afterwards doesn't change them, and
// building again gives an equal object.
func CheckRebuild() {
	i, j := nd.Choose("first", len(gx.Attrs)), nd.Choose("second", len(gx.Attrs))
	v, u := gx.Values("v", chars), gx.Values("u", chars)
	b := v1.NewCluster()
	gx.Attrs[i].Set(b, v)
	o, err := b.Build()
	nd.Assert(err == nil, "can't build the object")
	gx.Attrs[j].Set(b, u)
	p, err := b.Build()
	nd.Assert(err == nil, "can't build the object")
	nd.Reach("built")
	check(o, i, v, i, v)
	check(p, i, v, j, u)
}

// The elements given to the setters of lists can be changed afterwards.
func CheckAlias() {
	tags := []string{"a", "b"}
	nodes := []*v1.NodeBuilder{v1.NewNode().Name("a")}
	labels := map[string]string{"a": "b"}
	b := v1.NewCluster().Tags(tags...).Spares(nodes...)
	tags[0] = nd.StringOf("x", 1, 1, chars)
	nodes[0] = v1.NewNode().Name(tags[0])
	o, err := b.Build()
	nd.Assert(err == nil, "can't build the object")
	nd.Assert(o.Tags()[0] == "a", "changing the slice given to the builder changes the object")
	nd.Assert(o.Spares()[0].Name() == "a", "changing the slice given to the builder changes the object")
	b = v1.NewCluster().Labels(labels)
	o, err = b.Build()
	nd.Assert(err == nil, "can't build the object")
	labels["a"] = tags[0]
	labels["b"] = "c"
	nd.Reach("built")
	nd.Assert(o.Labels()["a"] == "b" && len(o.Labels()) == 1, "changing the map given to the builder changes the object")
}

// The flag that indicates that the object is a link is the one that was set.
func CheckLink() {
	value := nd.Bool("link")
	before := nd.Bool("before")
	b := v1.NewCluster()
	if before {
		b.Link(nd.Bool("previous"))
	}
	b.Link(value)
	nd.Assert(b.Empty(), "a builder with only the link flag isn't empty")
	o, err := b.Build()
	nd.Reach("built")
	nd.Assert(err == nil, "can't build the object")
	nd.Assert(nd.Iff(o.Link(), value), "the link flag isn't the one that was set")
	nd.Assert(nd.Iff(o.Kind() == v1.ClusterLinkKind, value), "wrong kind")
	nd.Assert(nd.Iff(o.Kind() == v1.ClusterKind, nd.Not(value)), "wrong kind")
	nd.Assert(o.Empty(), "an object with only the link flag isn't empty")
	check(o, -1, nil, -1, nil)
}

// The accessors of a nil reference return no value.
func CheckNil() {
	var o *v1.Cluster
	i := nd.Choose("attribute", len(gx.Attrs))
	nd.Assert(!nd.Panics(func() {
		nd.Assert(!gx.Attrs[i].Has(o), "an attribute of nil has a value")
		nd.Assert(gx.Attrs[i].Zero(o), "an attribute of nil isn't zero")
		nd.Assert(o.Empty() && !o.Link() && o.Kind() == v1.ClusterNilKind, "wrong nil object")
	}), "the accessor of a nil object crashed")
	nd.Reach("checked")
}

// Setting an object to nil removes the value.
func CheckUnset() {
	v := gx.Values("v", chars)
	b := v1.NewCluster().Primary(gx.Node(v)).Flavour(v1.NewFlavour().ID(v.S)).Groups(v1.NewGroupList()).Name(v.S)
	k := nd.Choose("attribute", 2)
	switch k {
	case 0:
		b.Primary(nil)
	case 1:
		b.Flavour(nil)
	}
	o, err := b.Build()
	nd.Reach("built")
	nd.Assert(err == nil, "can't build the object")
	p, okp := o.GetPrimary()
	f, okf := o.GetFlavour()
	g, okg := o.GetGroups()
	nd.Assert(okp == (k != 0) && (p != nil) == okp, "wrong object")
	nd.Assert(okf == (k != 1) && (f != nil) == okf, "wrong link")
	nd.Assert(okg == (k != 2) && (g != nil) == okg, "wrong list of links")
	nd.Assert(o.Name() == v.S, "another attribute has been changed")
}

// The same for structs, that don't have identity nor links: any two attributes, and any values.
func CheckStruct() {
	i, j := nd.Choose("first", len(gx.MarkAttrs)), nd.Choose("second", len(gx.MarkAttrs)+1)
	s, n := nd.StringOf("s", 1, 1, chars), nd.Int("n")
	t, m := nd.StringOf("t", 1, 1, chars), nd.Int("m")
	b := v1.NewMark()
	nd.Assert(b.Empty(), "a new builder isn't empty")
	first, err := b.Build()
	nd.Assert(err == nil, "can't build the object")
	gx.MarkAttrs[i].Set(b, s, n)
	nd.Assert(!b.Empty(), "the builder is empty")
	second, err := b.Build()
	nd.Assert(err == nil, "can't build the object")
	third := second
	if j < len(gx.MarkAttrs) {
		gx.MarkAttrs[j].Set(b, t, m)
		third, err = b.Build()
		nd.Assert(err == nil, "can't build the object")
	}
	nd.Reach("built")
	gx.CheckMark(nd.Assert, first, -1, "", 0, -1, "", 0)
	gx.CheckMark(nd.Assert, second, i, s, n, i, s, n)
	if j < len(gx.MarkAttrs) {
		gx.CheckMark(nd.Assert, third, i, s, n, j, t, m)
	}
	gx.CheckMark(nd.Assert, nil, -1, "", 0, -1, "", 0)
	e, err := v1.NewEmpty().Build()
	nd.Assert(err == nil && e != nil && e.Empty(), "a struct without attributes isn't empty")
}

// Setting a map or an object to nil removes the value, and setting it again gives it back.
func CheckUnsetStruct() {
	n := nd.Int("n")
	k := nd.Choose("attribute", 4)
	again := nd.Bool("again")
	b := v1.NewMark()
	for _, a := range gx.MarkAttrs {
		a.Set(b, "s", n)
	}
	name := []string{"range", "next", "chief", "nothing"}[k]
	switch k {
	case 0:
		b.Range(nil)
	case 1:
		b.Next(nil)
	case 2:
		b.Chief(nil)
	case 3:
		b.Nothing(nil)
	}
	for _, a := range gx.MarkAttrs {
		if again && a.Name == name {
			a.Set(b, "s", n)
		}
	}
	o, err := b.Build()
	nd.Assert(err == nil, "can't build the object")
	nd.Reach("built")
	for _, a := range gx.MarkAttrs {
		if a.Name == name && !again {
			nd.Assert(!a.Has(o) && a.Zero(o), "an attribute set to nil has a value: "+a.Name)
		} else {
			nd.Assert(a.Has(o) && a.Same(o, "s", n), "an attribute has been lost: "+a.Name)
		}
	}
}

// The same for classes that refer to a class of other service: the links are objects of that service, and all the
// other attributes are objects of their own service.
func CheckReference() {
	i, j := nd.Choose("first", len(gx.MachineAttrs)), nd.Choose("second", len(gx.MachineAttrs))
	s, n := nd.StringOf("s", 1, 1, chars), nd.Int("n")
	t, m := nd.StringOf("t", 1, 1, chars), nd.Int("m")
	link := nd.Bool("link")
	b := mirror.NewMachine()
	nd.Assert(b.Empty(), "a new builder isn't empty")
	gx.MachineAttrs[i].Set(b.Link(link), s, n)
	nd.Assert(!b.Empty(), "the builder is empty")
	first, err := b.Build()
	nd.Assert(err == nil, "can't build the object")
	gx.MachineAttrs[j].Set(b, t, m)
	second, err := b.Build()
	nd.Assert(err == nil, "can't build the object")
	nd.Reach("built")
	gx.CheckMachine(nd.Assert, first, i, s, n, i, s, n)
	gx.CheckMachine(nd.Assert, second, i, s, n, j, t, m)
	gx.CheckMachine(nd.Assert, nil, -1, "", 0, -1, "", 0)
	nd.Assert(nd.Iff(second.Link(), link) && (*mirror.Machine)(nil).Empty(), "the link flag is wrong")
	kind := mirror.MachineKind
	if link {
		kind = mirror.MachineLinkKind
	}
	nd.Assert(first.Kind() == kind && mirror.MachineKind == "Machine" && mirror.MachineLinkKind == "MachineLink", "the kind is wrong")
}
