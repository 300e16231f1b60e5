package p16

import (
	"bytes"

	v1 "verifgen/api/clustersmgmt/v1"
	mirror "verifgen/api/mirror/v1beta1"
	"verifgen/zzverif/gx"
	"verifgen/zzverif/nd"
)

const chars = "ab \"\\\x00\xff0"

func build(b *v1.ClusterBuilder) *v1.Cluster {
	o, err := b.Build()
	nd.Assert(err == nil && o != nil, "can't build the object")
	return o
}

func check(o *v1.Cluster, i int, v *gx.Vals, j int, u *gx.Vals) {
	for k, a := range gx.Attrs {
		switch k {
		case j:
			nd.Assert(a.Has(o), "an attribute has been lost: "+a.Name)
			nd.Assert(a.Same(o, u), "the value of an attribute has been changed: "+a.Name)
		case i:
			nd.Assert(a.Has(o), "an attribute has been lost: "+a.Name)
			nd.Assert(a.Same(o, v), "the value of an attribute has been changed: "+a.Name)
		default:
			nd.Assert(!a.Has(o), "an attribute that wasn't set has a value: "+a.Name)
			nd.Assert(a.Zero(o), "an attribute that wasn't set doesn't return the zero value: "+a.Name)
		}
	}
}

// Copying an object with any two attributes gives an equal object.
func CheckCopy() {
	i, j := nd.Choose("first", len(gx.Attrs)), nd.Choose("second", len(gx.Attrs))
	v, u := gx.Values("v", chars), gx.Values("u", chars)
	u.N = nd.Choose("count", 2)
	link := nd.Bool("link")
	b := v1.NewCluster().Link(link)
	gx.Attrs[i].Set(b, v)
	gx.Attrs[j].Set(b, u)
	o := build(b)
	c := v1.NewCluster().Copy(o)
	nd.Assert(!c.Empty(), "the builder is empty")
	p := build(c)
	nd.Reach("copied")
	nd.Assert(nd.Iff(p.Link(), link), "the link flag has been changed")
	check(p, i, v, j, u)
	check(o, i, v, j, u)
}

// All the previous values of the builder are discarded.
func CheckDiscard() {
	i, j := nd.Choose("previous", len(gx.Attrs)), nd.Choose("copied", len(gx.Attrs))
	v, u := gx.Values("v", chars), gx.Values("u", chars)
	link := nd.Bool("link")
	b := v1.NewCluster().Link(nd.Bool("before"))
	gx.Attrs[i].Set(b, v)
	s := v1.NewCluster().Link(link)
	gx.Attrs[j].Set(s, u)
	p := build(b.Copy(build(s)))
	nd.Reach("copied")
	nd.Assert(nd.Iff(p.Link(), link), "the link flag is the previous one")
	check(p, j, u, j, u)
}

// Copying nil changes nothing.
func CheckNil() {
	i := nd.Choose("previous", len(gx.Attrs))
	v := gx.Values("v", chars)
	b := v1.NewCluster()
	gx.Attrs[i].Set(b, v)
	nd.Assert(!nd.Panics(func() { b = b.Copy(nil) }), "copying nil crashed")
	p := build(b)
	nd.Reach("copied")
	check(p, i, v, i, v)
}

// After the copy the builder can be changed without changing the object, and the objects don't share
// their lists, maps or nested objects.
func CheckIndependent() {
	i, j := nd.Choose("first", len(gx.Attrs)), nd.Choose("second", len(gx.Attrs))
	v, u := gx.Values("v", chars), gx.Values("u", chars)
	b := v1.NewCluster()
	gx.Attrs[i].Set(b, v)
	o := build(b)
	c := v1.NewCluster().Copy(o)
	gx.Attrs[j].Set(c, u)
	p := build(c)
	nd.Reach("changed")
	check(o, i, v, i, v)
	check(p, i, v, j, u)
}

// The same, changing the containers returned by the accessors.
func CheckShared() {
	v := gx.Values("v", chars)
	w := *v
	b := v1.NewCluster()
	for _, a := range gx.Attrs {
		a.Set(b, v)
	}
	o := build(b)
	c := v1.NewCluster().Copy(o)
	p := build(c)
	q := build(c)
	o.Flags()[0] = nd.Not(v.B)
	o.Counts()[0] = v.I + 1
	o.Bytes()[0] = v.L + 1
	o.Ratios()[0] = 2.25
	o.Tags()[0] = v.S + "x"
	o.Dates()[0] = v.T2
	o.Extras()[0] = 0
	o.States()[0] = v.E2
	o.Labels()["k"] = v.S + "x"
	delete(o.Labels(), "j")
	o.Limits()["k"] = v.I + 1
	o.Switches()["k"] = nd.Not(v.B)
	o.Sizes()["k"] = v.L + 1
	o.Weights()["k"] = 2.25
	o.Moments()["k"] = v.T2
	o.Things()["k"] = 0
	o.Modes()["k"] = v.E2
	o.Flavours()["k"] = nil
	delete(o.Flavours(), "j")
	o.Crew()[0] = nil
	o.Nodes()["k"] = nil
	delete(o.Nodes(), "j")
	o.Spares()[0] = nil
	o.Groups().SetItems(nil)
	q.Tags()[1] = v.S2 + "x"
	q.Labels()["j"] = v.S2 + "x"
	q.Spares()[1] = nil
	q.Nodes()["j"] = nil
	q.Crew()[1] = nil
	q.Flavours()["j"] = nil
	q.Modes()["j"] = v.E
	q.Moments()["j"] = v.T
	nd.Reach("changed")
	for _, a := range gx.Attrs {
		nd.Assert(a.Has(p), "an attribute has been lost: "+a.Name)
		nd.Assert(a.Same(p, &w), "the copy shares data with the original: "+a.Name)
	}
	// The builder doesn't share anything with the original, nor with what it built before:
	r := build(c)
	for _, a := range gx.Attrs {
		nd.Assert(a.Has(r), "an attribute has been lost: "+a.Name)
		nd.Assert(a.Same(r, &w), "the builder shares data with the original, or with its results: "+a.Name)
	}
}

func marshal(o *v1.Cluster) string {
	var buf bytes.Buffer
	nd.Assert(v1.MarshalCluster(o, &buf) == nil, "can't marshal the object")
	return buf.String()
}

// The documents of the object and its copy are the same.
func CheckDocument() {
	v := gx.Fixed("v")
	v.N = nd.Choose("count", 3)
	i, j := nd.Choose("first", len(gx.Attrs)), nd.Choose("second", len(gx.Attrs))
	b := v1.NewCluster().Link(nd.Bool("link"))
	gx.Attrs[i].Set(b, v)
	gx.Attrs[j].Set(b, v)
	o := build(b)
	p := build(v1.NewCluster().Copy(o))
	nd.Reach("copied")
	nd.Assert(marshal(o) == marshal(p), "the document of the copy is different")
}

// Nested objects and links are copied too.
func CheckNested() {
	s := nd.StringOf("s", 1, 2, chars)
	link, inner, owner := nd.Bool("link"), nd.Bool("inner"), nd.Bool("owner")
	f := v1.NewFlavour().Link(inner).ID(s).HREF("/" + s)
	g := v1.NewGroup().Link(link).ID(s)
	if owner {
		g.Owner(f)
	}
	l, err := v1.NewGroupList().Items(g, v1.NewGroup()).Build()
	nd.Assert(err == nil, "can't build the list")
	m, err := v1.NewGroupList().Items(v1.NewGroup(), g, g).Copy(l).Build()
	nd.Assert(err == nil, "can't build the list")
	nd.Reach("copied")
	nd.Assert(m.Len() == 2, "the number of items is wrong")
	x := m.Get(0)
	nd.Assert(x != l.Get(0), "the copy shares data with the original")
	nd.Assert(x.ID() == s && nd.Iff(x.Link(), link), "an item has been changed")
	y, ok := x.GetOwner()
	nd.Assert(ok == owner, "a nested object has been lost")
	if owner {
		nd.Assert(y.ID() == s && y.HREF() == "/"+s && nd.Iff(y.Link(), inner) && y != l.Get(0).Owner(), "a nested object has been changed")
	}
	nd.Assert(m.Get(1).Empty() && !m.Get(1).Link(), "an item has been changed")
}

// The same for structs, that don't have identity nor links, and may contain themselves.
func CheckStruct() {
	i, j := nd.Choose("first", len(gx.MarkAttrs)+1), nd.Choose("second", len(gx.MarkAttrs))
	s, n := nd.StringOf("s", 1, 1, chars), nd.Int("n")
	t, m := nd.StringOf("t", 1, 1, chars), nd.Int("m")
	b := v1.NewMark()
	if i < len(gx.MarkAttrs) {
		gx.MarkAttrs[i].Set(b, s, n)
	} else {
		i = -1
	}
	o, err := b.Build()
	nd.Assert(err == nil, "can't build the object")
	// The attributes that the target had are discarded:
	c := v1.NewMark()
	gx.MarkAttrs[j].Set(c, t, m)
	c.Copy(o)
	p, err := c.Build()
	nd.Assert(err == nil, "can't build the object")
	gx.CheckMark(nd.Assert, p, i, s, n, i, s, n)
	// And changing the copy doesn't change the original:
	gx.MarkAttrs[j].Set(c, t, m)
	q, err := c.Build()
	nd.Assert(err == nil, "can't build the object")
	nd.Reach("copied")
	gx.CheckMark(nd.Assert, q, i, s, n, j, t, m)
	gx.CheckMark(nd.Assert, p, i, s, n, i, s, n)
	gx.CheckMark(nd.Assert, o, i, s, n, i, s, n)
	r, err := v1.NewMark().Copy(nil).Build()
	nd.Assert(err == nil && r.Empty(), "copying nil gives attributes")
}

// The builders, slices and maps that were given to a builder belong to the caller: copying an object
// doesn't change them, and changing them later doesn't change the result.
func CheckGiven() {
	s, t := nd.StringOf("s", 1, 1, chars), nd.StringOf("t", 1, 1, chars)
	node, flavour, group := v1.NewNode().Name(s), v1.NewFlavour().ID(s), v1.NewGroup().ID(s)
	groups := v1.NewGroupList().Items(group)
	nodes, flavours := map[string]*v1.NodeBuilder{"k": node}, map[string]*v1.FlavourBuilder{"k": flavour}
	labels := map[string]string{"k": s}
	crew, spares, tags := []*v1.FlavourBuilder{flavour}, []*v1.NodeBuilder{node}, []string{s}
	b := v1.NewCluster().Primary(node).Boss(flavour).Flavour(flavour).Groups(groups).Nodes(nodes).Flavours(flavours).
		Labels(labels).Crew(crew...).Spares(spares...).Tags(tags...)
	n := nd.Choose("count", 3)
	other := v1.NewCluster()
	if nd.Bool("objects") {
		other.Primary(v1.NewNode().Name(t).Cpus(n)).Boss(v1.NewFlavour().ID(t).Size(n)).Flavour(v1.NewFlavour().Link(true).ID(t))
	}
	if nd.Bool("containers") {
		gs := []*v1.GroupBuilder{v1.NewGroup().ID(t), v1.NewGroup().Name(t)}[:n]
		ns := []*v1.NodeBuilder{v1.NewNode().Name(t), v1.NewNode().Cpus(1)}[:n]
		fs := []*v1.FlavourBuilder{v1.NewFlavour().ID(t), v1.NewFlavour().Size(1)}[:n]
		mn, mf, ml := map[string]*v1.NodeBuilder{}, map[string]*v1.FlavourBuilder{}, map[string]string{}
		for i, k := range []string{"k", "j"}[:n] {
			mn[k], mf[k], ml[k] = ns[i], fs[i], t
		}
		other.Groups(v1.NewGroupList().Items(gs...)).Nodes(mn).Flavours(mf).Labels(ml).Crew(fs...).Spares(ns...).Tags([]string{t, t}[:n]...)
	}
	o := build(other)
	before := marshal(o)
	b.Copy(o)
	nd.Reach("copied")
	// Nothing of the caller has changed:
	x, err := node.Build()
	_, has := x.GetCpus()
	nd.Assert(err == nil && x.Name() == s && !has, "a builder of the caller has been changed")
	y, err := flavour.Build()
	_, has = y.GetSize()
	nd.Assert(err == nil && y.ID() == s && !has && !y.Link(), "a builder of the caller has been changed")
	z, err := groups.Build()
	nd.Assert(err == nil && z.Len() == 1 && z.Get(0).ID() == s, "a builder of the caller has been changed")
	nd.Assert(len(nodes) == 1 && nodes["k"] == node && len(flavours) == 1 && flavours["k"] == flavour, "a map of the caller has been changed")
	nd.Assert(len(labels) == 1 && labels["k"] == s, "a map of the caller has been changed")
	nd.Assert(crew[0] == flavour && spares[0] == node && tags[0] == s, "a slice of the caller has been changed")
	// And the result doesn't depend on what the caller does with them:
	node.Cpus(7)
	flavour.Size(7)
	group.Name("x")
	groups.Items()
	nodes["x"], flavours["x"], labels["x"] = node, flavour, "x"
	tags[0] = "x"
	nd.Assert(marshal(build(b)) == before && marshal(o) == before, "the result depends on the previous values")
}

// The same for classes that refer to a class of other service.
func CheckReference() {
	i, j := nd.Choose("first", len(gx.MachineAttrs)+1), nd.Choose("second", len(gx.MachineAttrs))
	s, n := nd.StringOf("s", 1, 1, chars), nd.Int("n")
	t, m := nd.StringOf("t", 1, 1, chars), nd.Int("m")
	link := nd.Bool("link")
	b := mirror.NewMachine().Link(link)
	if i < len(gx.MachineAttrs) {
		gx.MachineAttrs[i].Set(b, s, n)
	} else {
		i = -1
	}
	o, err := b.Build()
	nd.Assert(err == nil, "can't build the object")
	// The attributes that the target had are discarded:
	c := mirror.NewMachine()
	gx.MachineAttrs[j].Set(c, t, m)
	c.Copy(o)
	p, err := c.Build()
	nd.Assert(err == nil, "can't build the object")
	gx.CheckMachine(nd.Assert, p, i, s, n, i, s, n)
	nd.Assert(nd.Iff(p.Link(), link), "the link flag has been changed")
	// And changing the copy doesn't change the original:
	gx.MachineAttrs[j].Set(c, t, m)
	q, err := c.Build()
	nd.Assert(err == nil, "can't build the object")
	nd.Reach("copied")
	gx.CheckMachine(nd.Assert, q, i, s, n, j, t, m)
	gx.CheckMachine(nd.Assert, p, i, s, n, i, s, n)
	gx.CheckMachine(nd.Assert, o, i, s, n, i, s, n)
}

// The copies of links to lists are links to the same lists, whatever the builder had before.
func CheckListLinks() {
	kinds := []string{"", "GroupListLink"}
	l := &gx.ListLink{Kind: kinds[nd.Choose("kind", 2)], Items: nd.Choose("items", 3) - 1}
	if nd.Bool("href") {
		l.HREF = "/" + nd.StringOf("s", 1, 1, "ab")
	}
	m := &gx.ListLink{Kind: kinds[nd.Choose("previous kind", 2)], HREF: "/p", Items: 1}
	o, err := v1.UnmarshalCluster(l.Document())
	nd.Assert(err == nil, "can't read the object")
	previous, err := v1.UnmarshalCluster(m.Document())
	nd.Assert(err == nil, "can't read the object")
	b := v1.NewCluster().Copy(previous)
	b.Copy(o)
	p := build(b)
	nd.Reach("copied")
	l.Check(nd.Assert, p)
	l.Check(nd.Assert, o)
	m.Check(nd.Assert, previous)
	// The builders of lists can be used again:
	lists := v1.NewGroupList().Copy(previous.Groups()).Copy(o.Groups())
	x, err := lists.Build()
	nd.Assert(err == nil && x.Link() == o.Groups().Link() && x.HREF() == l.HREF && x.Len() == o.Groups().Len(), "the copy of a list isn't equal to the list")
	x, err = lists.Copy(nil).Build()
	nd.Assert(err == nil && !x.Link() && x.HREF() == "" && x.Len() == 0, "the copy of a nil list isn't empty")
}
