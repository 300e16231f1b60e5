package p17

import (
	"bytes"
	"math"
	"strconv"
	"strings"
	"time"

	v1 "verifgen/api/clustersmgmt/v1"
	mirror "verifgen/api/mirror/v1beta1"
	"verifgen/zzverif/gx"
	"verifgen/zzverif/jsonx"
	"verifgen/zzverif/nd"
)

const chars = "a/\"\\\x01\n\xff"

// finite tells if the numbers can be represented.
func finite(f float64) bool { return !math.IsNaN(f) && !math.IsInf(f, 0) }

func check(o *v1.Cluster, i int, v *gx.Vals, j int, u *gx.Vals) {
	for k, a := range gx.Attrs {
		switch k {
		case j:
			nd.Assert(a.Has(o), "an attribute has been lost: "+a.Name)
			nd.Assert(a.Same(o, u), "an attribute has been changed: "+a.Name)
		case i:
			nd.Assert(a.Has(o), "an attribute has been lost: "+a.Name)
			nd.Assert(a.Same(o, v), "an attribute has been changed: "+a.Name)
		default:
			nd.Assert(!a.Has(o), "an attribute that wasn't set has a value: "+a.Name)
			nd.Assert(a.Zero(o), "an attribute that wasn't set doesn't return the zero value: "+a.Name)
		}
	}
}

func build(b *v1.ClusterBuilder) *v1.Cluster {
	o, err := b.Build()
	nd.Assert(err == nil, "can't build the object")
	return o
}

func marshal(o *v1.Cluster) []byte {
	var buf bytes.Buffer
	err := v1.MarshalCluster(o, &buf)
	nd.Assert(err == nil, "can't marshal the object")
	return buf.Bytes()
}

func unmarshal(data []byte) *v1.Cluster {
	o, err := v1.UnmarshalCluster(data)
	nd.Assert(err == nil && o != nil, "can't unmarshal the object")
	return o
}

// Marshalling an object with any two attributes and unmarshalling the result gives an equal object.
func CheckRoundTrip() {
	nd.Opaque(true)
	i, j := nd.Choose("first", len(gx.Attrs)), nd.Choose("second", len(gx.Attrs))
	v, u := gx.Numbers("v"), gx.Numbers("u")
	u.N = nd.Choose("count", 2)
	b := v1.NewCluster()
	gx.Attrs[i].Set(b, v)
	gx.Attrs[j].Set(b, u)
	p := unmarshal(marshal(build(b)))
	nd.Reach("unmarshalled")
	nd.Assert(p.Kind() == v1.ClusterKind, "the kind has been changed")
	check(p, i, v, j, u)
}

// The same for all the attributes together.
func CheckAll() {
	nd.Opaque(true)
	v := gx.Numbers("v")
	v.N = nd.Choose("count", 3)
	b := v1.NewCluster()
	for _, a := range gx.Attrs {
		a.Set(b, v)
	}
	p := unmarshal(marshal(build(b)))
	nd.Reach("unmarshalled")
	for _, a := range gx.Attrs {
		nd.Assert(a.Has(p), "an attribute has been lost: "+a.Name)
		nd.Assert(a.Same(p, v), "an attribute has been changed: "+a.Name)
	}
}

// The same for one attribute with arbitrary strings and floating point numbers.
func CheckValues() {
	nd.Opaque(true)
	i := nd.Choose("attribute", len(gx.Attrs))
	v := gx.Values("v", chars)
	v.N = nd.Choose("count", 3)
	nd.Assume(finite(v.F) && finite(v.F2))
	b := v1.NewCluster()
	gx.Attrs[i].Set(b, v)
	p := unmarshal(marshal(build(b)))
	nd.Reach("unmarshalled")
	check(p, i, v, i, v)
}

// Texts that look like other things are still texts.
func CheckTexts() {
	nd.Opaque(true)
	i := nd.Choose("attribute", len(gx.Attrs))
	texts := []string{"null", "true", "0", "-1e5", "{}", "[]", "<a href=\"x\">&amp;</a>", "\u00e9\u2028\U0001f600", " a ", "\ta\r\n", "", "NaN", "2020-01-01T00:00:00Z", "\\u0041", "\x7f", "kind"}
	v := gx.Numbers("v")
	v.S = texts[nd.Choose("text", len(texts))]
	v.S2 = v.S + v.S
	v.X = v.S
	v.N = 2
	b := v1.NewCluster()
	gx.Attrs[i].Set(b, v)
	p := unmarshal(marshal(build(b)))
	nd.Reach("unmarshalled texts")
	check(p, i, v, i, v)
}

// The same for dates, whose precision is one second.
func CheckDates() {
	k := nd.Choose("date", 6)
	d := []time.Time{
		{}, time.Unix(0, 0), time.Unix(1600000000, 0).In(time.FixedZone("x", 3600*5+1800)),
		time.Unix(1600000000, 0).In(time.FixedZone("y", -3600*11)), time.Date(9999, 12, 31, 23, 59, 58, 0, time.UTC),
		time.Date(2024, 2, 29, 0, 0, 0, 0, time.UTC),
	}[k]
	p := unmarshal(marshal(build(v1.NewCluster().CreationTimestamp(d).Dates(d, d.Add(time.Second)))))
	nd.Reach("unmarshalled")
	nd.Assert(p.CreationTimestamp().Equal(d), "the date has been changed")
	nd.Assert(len(p.Dates()) == 2 && p.Dates()[0].Equal(d) && p.Dates()[1].Equal(d.Add(time.Second)), "the dates have been changed")
}

// Links are still links, and contain their identifier and reference.
func CheckLinks() {
	nd.Opaque(true)
	link, inner := nd.Bool("link"), nd.Bool("inner")
	id, ref, name := nd.Bool("id"), nd.Bool("href"), nd.Bool("name")
	s := nd.StringOf("s", 1, 1, chars)
	b := v1.NewCluster().Link(link)
	f := v1.NewFlavour().Link(inner)
	if id {
		b.ID(s)
		f.ID(s + "f")
	}
	if ref {
		b.HREF("/" + s)
		f.HREF("/f" + s)
	}
	if name {
		b.Name("n" + s)
		f.Name("fn" + s)
	}
	b.Flavour(f)
	p := unmarshal(marshal(build(b)))
	q := p.Flavour()
	nd.Reach("unmarshalled")
	nd.Assert(nd.Iff(p.Link(), link) && nd.Iff(q.Link(), inner), "a link isn't a link any more")
	x, ok := p.GetID()
	y, oky := q.GetID()
	nd.Assert(ok == id && oky == id && (!id || x == s && y == s+"f"), "the identifier has been changed")
	x, ok = p.GetHREF()
	y, oky = q.GetHREF()
	nd.Assert(ok == ref && oky == ref && (!ref || x == "/"+s && y == "/f"+s), "the reference has been changed")
	x, ok = p.GetName()
	y, oky = q.GetName()
	nd.Assert(ok == name && oky == name && (!name || x == "n"+s && y == "fn"+s), "the name has been changed")
}

var kinds = map[string]byte{
	"managed": 'b', "replicas": '0', "uptime": '0', "score": '0', "name": 's', "creation_timestamp": 's', "extra": 's',
	"state": 's', "flags": 'a', "counts": 'a', "bytes": 'a', "ratios": 'a', "tags": 'a', "dates": 'a', "extras": 'a', "states": 'a',
	"labels": 'o', "limits": 'o', "nodes": 'o', "primary": 'o', "spares": 'a', "flavour": 'o', "groups": 'o',
	"switches": 'o', "sizes": 'o', "weights": 'o', "moments": 'o', "things": 'o', "modes": 'o', "flavours": 'o', "boss": 'o', "crew": 'a',
	"renamed-json": 's', "apiurl": 's', "id": 's', "href": 's',
}

func pick(first bool, a, b string) string {
	if first {
		return a
	}
	return b
}

// element tells if the element of a list or map is the one that was set.
func element(name string, x *jsonx.Value, first bool, v *gx.Vals) bool {
	switch name {
	case "flags", "switches":
		if first {
			return x.Kind == 'b' && x.Bool == v.B
		}
		return x.Kind == 'b' && x.Bool == v.B2
	case "counts", "limits":
		n, err := strconv.Atoi(x.Number)
		if first {
			return x.Kind == '0' && err == nil && n == v.I
		}
		return x.Kind == '0' && err == nil && n == v.I2
	case "bytes", "sizes":
		n, err := strconv.ParseInt(x.Number, 10, 64)
		if first {
			return x.Kind == '0' && err == nil && n == v.L
		}
		return x.Kind == '0' && err == nil && n == v.L2
	case "ratios", "weights":
		n, err := strconv.ParseFloat(x.Number, 64)
		if first {
			return x.Kind == '0' && err == nil && n == v.F
		}
		return x.Kind == '0' && err == nil && n == v.F2
	case "tags", "labels":
		return x.Kind == 's' && x.Text == pick(first, v.S, v.S2)
	case "dates", "moments":
		return x.Kind == 's' && x.Text == pick(first, "2020-09-13T12:26:40Z", "1969-12-31T23:00:00Z")
	case "extras", "things":
		return first && x.Kind == 's' && x.Text == v.X || !first && x.Kind == 'b' && x.Bool
	case "states", "modes":
		return x.Kind == 's' && x.Text == pick(first, "NOT-ready", "ready")
	case "nodes", "spares":
		n := 1
		if first {
			n = 2
		}
		return x.Kind == 'o' && len(x.Keys) == n && x.Get("cpus") != nil && (!first || x.Get("name") != nil)
	case "flavours", "crew":
		n, k := 2, x.Get("kind")
		if first {
			n = 3
		}
		return x.Kind == 'o' && len(x.Keys) == n && k != nil && k.Text == pick(first, "Flavour", "FlavourLink") && x.Get(pick(first, "id", "href")) != nil
	}
	return false
}

// The document contains exactly the attributes that were set, with the names and types of the model.
func CheckWire() {
	nd.Opaque(true)
	i, j := nd.Choose("first", len(gx.Attrs)), nd.Choose("second", len(gx.Attrs))
	v := gx.Numbers("v")
	v.N = nd.Choose("count", 3)
	link := nd.Bool("link")
	b := v1.NewCluster().Link(link)
	gx.Attrs[i].Set(b, v)
	gx.Attrs[j].Set(b, v)
	doc := jsonx.Parse(string(marshal(build(b))))
	nd.Reach("parsed")
	nd.Assert(doc != nil && doc.Kind == 'o' && doc.Unique(), "the document isn't a valid JSON object")
	kind := doc.Get("kind")
	nd.Assert(kind != nil && kind.Kind == 's', "there is no kind")
	nd.Assert(kind.Text == "ClusterLink" && link || kind.Text == "Cluster" && !link, "the kind is wrong")
	expected := 3
	if i == j {
		expected = 2
	}
	nd.Assert(len(doc.Keys) == expected, "the document contains other attributes")
	for _, k := range []int{i, j} {
		name := gx.Attrs[k].Name
		x := doc.Get(name)
		nd.Assert(x != nil, "an attribute isn't in the document: "+name)
		nd.Assert(x.Kind == kinds[name], "the type of an attribute is wrong: "+name)
		if x.Kind == 'a' {
			nd.Assert(len(x.Items) == v.N, "the number of items is wrong: "+name)
		}
		if gx.Attrs[k].Kind == gx.Map {
			nd.Assert(len(x.Items) == v.N, "the number of items is wrong: "+name)
		}
		if x.Kind == 'a' || gx.Attrs[k].Kind == gx.Map {
			for at, item := range x.Items {
				// The first is the one of the key that follows in order.
				first := at == 0
				if gx.Attrs[k].Kind == gx.Map {
					first = x.Keys[at] == "k"
					nd.Assert(first || x.Keys[at] == "j", "a key is wrong: "+name)
				}
				nd.Assert(element(name, item, first, v), "an element is wrong: "+name)
			}
		}
		switch name {
		case "state":
			nd.Assert(x.Text == "NOT-ready", "the name of an enumerated value is wrong")
		case "creation_timestamp":
			nd.Assert(x.Text == "2020-09-13T12:26:40Z", "the text of a date is wrong")
		case "groups":
			items := x.Get("items")
			nd.Assert(items != nil && items.Kind == 'a' && len(items.Items) == v.N, "the items of a list of links are wrong")
			for _, g := range items.Items {
				nd.Assert(g.Get("kind") != nil && g.Get("kind").Text == "Group", "the kind of a link is wrong")
			}
		case "primary":
			nd.Assert(len(x.Keys) == 2 && x.Get("name") != nil && x.Get("cpus") != nil, "the attributes of an object are wrong")
		}
	}
}

// Numbers that can't be represented in JSON are reported.
func CheckNotFinite() {
	nd.Opaque(true)
	f := nd.Float64("f")
	o := build(v1.NewCluster().Score(f))
	var buf bytes.Buffer
	err := v1.MarshalCluster(o, &buf)
	nd.Reach("marshalled")
	nd.Assert((err == nil) == finite(f), "numbers that aren't finite should be reported, and only those")
}

// Members that aren't known, in any position and of any type, are ignored, and the members can be in any
// order.
func CheckUnknown() {
	nd.Opaque(true)
	unknown := []string{"1", "\"a\\\"}\"", "null", "true", "[1,{\"name\":\"x\"}]", "{\"name\":\"x\",\"b\":[]}", "1.5e3", "{}", "[]"}
	u := "\"unknown\":" + unknown[nd.Choose("value", len(unknown))]
	ms := []string{"\"name\":\"x\"", "\"replicas\": -7 ", "\"primary\":{\"cpus\":3," + u + ",\"name\":\"y\"}"}
	at := nd.Choose("position", 4)
	order := nd.Choose("order", 3)
	doc := ""
	for k := 0; k < 4; k++ {
		if k > 0 {
			doc += ","
		}
		switch {
		case k == at:
			doc += u
		case k < at:
			doc += ms[(k+order)%3]
		default:
			doc += ms[(k-1+order)%3]
		}
	}
	p := unmarshal([]byte("{" + doc + "}"))
	nd.Reach("unmarshalled")
	nd.Assert(p.Name() == "x" && p.Replicas() == -7 && p.Primary().Cpus() == 3 && p.Primary().Name() == "y", "an attribute has been lost")
	for _, a := range gx.Attrs {
		switch a.Name {
		case "name", "replicas", "primary":
			nd.Assert(a.Has(p), "an attribute has been lost: "+a.Name)
		default:
			nd.Assert(!a.Has(p), "an attribute that isn't in the document has a value: "+a.Name)
		}
	}
}

const whole = `{"kind":"Cluster","name":"a\"b","replicas":12,"score":1.5,"managed":true,"tags":["a"],"labels":{"a":"b"},"primary":{"name":"c"},"groups":{"items":[{"id":"g"}]}}`

// Documents that aren't complete are reported.
func CheckTruncated() {
	n := nd.Choose("length", len(whole))
	var err error
	nd.Assert(!nd.Panics(func() { _, err = v1.UnmarshalCluster(whole[:n]) }), "unmarshalling crashed")
	nd.Reach("unmarshalled")
	nd.Assert(err != nil, "a document that isn't complete has been accepted")
}

// Values of other types are reported.
func CheckMistyped() {
	values := []string{"1", "\"x\"", "true", "[]", "{}"}
	wire := []byte{'0', 's', 'b', 'a', 'o'}
	i := nd.Choose("attribute", len(gx.Attrs))
	k := nd.Choose("value", len(values))
	name := gx.Attrs[i].Name
	if kinds[name] == wire[k] || name == "extra" {
		nd.Assume(false)
	}
	var err error
	var o *v1.Cluster
	nd.Assert(!nd.Panics(func() { o, err = v1.UnmarshalCluster("{\"" + name + "\":" + values[k] + "}") }), "unmarshalling crashed")
	nd.Reach("unmarshalled")
	nd.Assert(err != nil || !gx.Attrs[i].Has(o), "a value of other type has been accepted: "+name)
}

// Maps keep their keys, whatever they are, and their documents don't depend on the order of insertion.
func CheckKeys() {
	k, j := nd.StringOf("k", 0, 2, "a\"\xff"), nd.StringOf("j", 0, 2, "a\"\xff")
	nd.Assume(k != j)
	data := marshal(build(v1.NewCluster().Labels(map[string]string{k: "1", j: "2"})))
	other := map[string]string{}
	other[j] = "2"
	other[k] = "1"
	nd.Assert(bytes.Equal(data, marshal(build(v1.NewCluster().Labels(other)))), "the document depends on the order of insertion")
	p := unmarshal(data)
	nd.Reach("unmarshalled")
	nd.Assert(len(p.Labels()) == 2 && p.Labels()[k] == "1" && p.Labels()[j] == "2", "the map has been changed")
}

// Members without name are ignored.
func CheckNoName() {
	n := nd.Choose("position", 3)
	doc := []string{`{"":1,"name":"x","id":"y"}`, `{"name":"x","":1,"id":"y"}`, `{"name":"x","id":"y","":1}`}[n]
	p := unmarshal([]byte(doc))
	nd.Reach("unmarshalled")
	nd.Assert(p.Name() == "x" && p.ID() == "y", "the members that follow a member without name are lost")
}

// The metadata of the version can be written and read too.
func CheckMetadata() {
	s := nd.StringOf("s", 0, 2, "a\"\\")
	has := nd.Bool("has")
	doc := "{}"
	if has {
		doc = `{"server_version":` + quote(s) + `}`
	}
	for i := 0; i < 2; i++ {
		m, err := v1.UnmarshalMetadata(doc)
		nd.Assert(err == nil, "can't unmarshal the metadata")
		v, ok := m.GetServerVersion()
		nd.Assert(ok == has && (!has || v == s), "the metadata has been changed")
		var buf bytes.Buffer
		nd.Assert(v1.MarshalMetadata(m, &buf) == nil, "can't marshal the metadata")
		nd.Reach("marshalled")
		x := jsonx.Parse(buf.String())
		nd.Assert(x != nil && x.Kind == 'o', "the metadata isn't a valid document")
		if has {
			nd.Assert(len(x.Keys) == 1 && x.Get("server_version") != nil && x.Get("server_version").Text == s, "the document has other members")
		} else {
			nd.Assert(len(x.Keys) == 0, "the document has members that weren't set")
		}
		doc = buf.String()
	}
}

func quote(s string) string {
	out := "\""
	for i := 0; i < len(s); i++ {
		if s[i] == '"' || s[i] == '\\' {
			out += "\\"
		}
		out += s[i : i+1]
	}
	return out + "\""
}

// Structs, that don't have identity, keep their attributes, and their documents contain nothing else.
func CheckStruct() {
	nd.Opaque(true)
	i, j := nd.Choose("first", len(gx.MarkAttrs)+1), nd.Choose("second", len(gx.MarkAttrs)+1)
	s, n := "a\"", nd.Int("n")
	t, m := "b\n", nd.Int("m")
	b := v1.NewMark()
	set := map[int]bool{}
	if i < len(gx.MarkAttrs) {
		gx.MarkAttrs[i].Set(b, s, n)
		set[i] = true
	} else {
		i = -1
	}
	if j < len(gx.MarkAttrs) {
		gx.MarkAttrs[j].Set(b, t, m)
		set[j] = true
	} else {
		j = -1
	}
	o, err := b.Build()
	nd.Assert(err == nil, "can't build the object")
	var buf bytes.Buffer
	nd.Assert(v1.MarshalMark(o, &buf) == nil, "can't marshal the object")
	doc := jsonx.Parse(buf.String())
	nd.Assert(doc != nil && doc.Kind == 'o' && doc.Unique(), "the document isn't a valid JSON object")
	nd.Assert(len(doc.Keys) == len(set), "the document contains other attributes")
	for k := range set {
		x := doc.Get(gx.MarkAttrs[k].Name)
		nd.Assert(x != nil && x.Kind == gx.MarkAttrs[k].Wire, "an attribute isn't in the document: "+gx.MarkAttrs[k].Name)
	}
	p, err := v1.UnmarshalMark(buf.Bytes())
	nd.Assert(err == nil && p != nil, "can't unmarshal the object")
	nd.Reach("unmarshalled")
	gx.CheckMark(nd.Assert, p, i, s, n, j, t, m)
}

// An object is a link exactly when its kind is the one of the links of its class.
func CheckKind() {
	kind := nd.StringOf("before", 0, 1, "ClM") + []string{"", "ClusterLink", "Cluster", "lusterLink", "Link", "link"}[nd.Choose("base", 6)] + nd.StringOf("after", 0, 1, "Ls")
	id := nd.StringOf("id", 1, 1, "ab")
	doc := `{"kind":"` + kind + `","id":"` + id + `"}`
	if nd.Bool("last") {
		doc = `{"id":"` + id + `","kind":"` + kind + `"}`
	}
	p := unmarshal([]byte(doc))
	nd.Reach("unmarshalled")
	nd.Assert(p.ID() == id, "the identifier has been changed")
	nd.Assert(p.Link() == (kind == "ClusterLink"), "an object is a link and its kind isn't, or it isn't and its kind is")
	items, err := v1.UnmarshalClusterList(`[{"kind":"` + kind + `","id":"` + id + `"}]`)
	nd.Assert(err == nil && len(items) == 1, "can't unmarshal the list")
	nd.Assert(items[0].Link() == (kind == "ClusterLink") && items[0].ID() == id, "an item is a link and its kind isn't, or it isn't and its kind is")
}

// Objects with many elements and long strings, whose documents don't fit in the usual buffers, are kept too.
func CheckLarge() {
	n := []int{9, 40, nd.Bound("elements", 130, 400)}[nd.Choose("count", 3)]
	size := []int{0, 500, 511, 512, 4095}[nd.Choose("size", 5)]
	s := nd.StringOf("s", 1, 1, chars)
	long := strings.Repeat("x", size) + s + strings.Repeat("y", size/2)
	key := func(i int) string {
		if i == n/2 {
			return "key-" + s
		}
		return "key" + strconv.Itoa((i*7919)%1000)
	}
	create := func(reverse bool) *v1.Cluster {
		labels, limits, nodes := map[string]string{}, map[string]int{}, map[string]*v1.NodeBuilder{}
		var tags []string
		var counts []int
		var spares []*v1.NodeBuilder
		for i := 0; i < n; i++ {
			k := i
			if reverse {
				k = n - 1 - i
			}
			labels[key(k)] = strconv.Itoa(k)
			limits[key(k)] = k
			nodes[key(k)] = v1.NewNode().Cpus(k)
			tags = append(tags, key(i))
			counts = append(counts, i*1000003)
			spares = append(spares, v1.NewNode().Name(key(i)))
		}
		return build(v1.NewCluster().Name(long).Tags(tags...).Counts(counts...).Spares(spares...).Labels(labels).Limits(limits).Nodes(nodes).ID(long))
	}
	o := create(false)
	data := marshal(o)
	nd.Assert(bytes.Equal(data, marshal(create(true))), "objects with the same values have different documents")
	p := unmarshal(data)
	nd.Reach("unmarshalled")
	nd.Assert(p.Name() == long && p.ID() == long, "a long string has been changed")
	nd.Assert(len(p.Tags()) == n && len(p.Counts()) == n && len(p.Spares()) == n && len(p.Labels()) == n && len(p.Limits()) == n && len(p.Nodes()) == n, "elements have been lost")
	for i := 0; i < n; i++ {
		k := key(i)
		nd.Assert(p.Tags()[i] == k && p.Counts()[i] == i*1000003 && p.Spares()[i].Name() == k, "an element of a list has been changed")
		x, ok := p.Labels()[k]
		y, has := p.Limits()[k]
		z := p.Nodes()[k]
		nd.Assert(ok && has && x == strconv.Itoa(i) && y == i && z != nil && z.Cpus() == i, "an element of a map has been changed")
	}
}

// Objects of classes that refer to a class of other service round trip, and their documents contain exactly their
// attributes.
func CheckReference() {
	nd.Opaque(true)
	i, j := nd.Choose("first", len(gx.MachineAttrs)+1), nd.Choose("second", len(gx.MachineAttrs)+1)
	s, n := "a\"", nd.Int("n")
	t, m := "b\n", nd.Int("m")
	link := nd.Bool("link")
	b := mirror.NewMachine().Link(link)
	set := map[int]bool{}
	if i < len(gx.MachineAttrs) {
		gx.MachineAttrs[i].Set(b, s, n)
		set[i] = true
	} else {
		i = -1
	}
	if j < len(gx.MachineAttrs) {
		gx.MachineAttrs[j].Set(b, t, m)
		set[j] = true
	} else {
		j = -1
	}
	o, err := b.Build()
	nd.Assert(err == nil, "can't build the object")
	var buf bytes.Buffer
	nd.Assert(mirror.MarshalMachine(o, &buf) == nil, "can't marshal the object")
	doc := jsonx.Parse(buf.String())
	nd.Assert(doc != nil && doc.Kind == 'o' && doc.Unique(), "the document isn't a valid JSON object")
	nd.Assert(len(doc.Keys) == len(set)+1, "the document contains other attributes")
	kind := "Machine"
	if link {
		kind = "MachineLink"
	}
	nd.Assert(doc.Get("kind") != nil && doc.Get("kind").Text == kind, "the kind is wrong")
	for k := range set {
		x := doc.Get(gx.MachineAttrs[k].Name)
		nd.Assert(x != nil && (x.Kind == gx.MachineAttrs[k].Wire || gx.MachineAttrs[k].Wire == 'b' && (x.Kind == 't' || x.Kind == 'f')), "an attribute isn't in the document: "+gx.MachineAttrs[k].Name)
	}
	p, err := mirror.UnmarshalMachine(buf.Bytes())
	nd.Assert(err == nil && p != nil, "can't unmarshal the object")
	nd.Reach("unmarshalled")
	gx.CheckMachine(nd.Assert, p, i, s, n, j, t, m)
	nd.Assert(nd.Iff(p.Link(), link), "the link flag has been changed")
}

// The links to lists keep their kind, address and items.
func CheckListLinks() {
	nd.Opaque(true)
	l := &gx.ListLink{Kind: []string{"", "GroupList", "GroupListLink", "Other"}[nd.Choose("kind", 4)], Items: nd.Choose("items", 4) - 1, Last: nd.Bool("last")}
	if nd.Bool("href") {
		l.HREF = "/" + nd.StringOf("s", 0, 2, "ab/%")
	}
	o := unmarshal([]byte(l.Document()))
	l.Check(nd.Assert, o)
	data := marshal(o)
	doc := jsonx.Parse(string(data))
	nd.Assert(doc != nil && doc.Unique(), "the document isn't a valid JSON object")
	groups := doc.Get("groups")
	nd.Assert(groups != nil && groups.Kind == 'o' && groups.Get("items") != nil && groups.Get("items").Kind == 'a', "the list isn't in the document")
	p := unmarshal(data)
	nd.Reach("unmarshalled")
	l.Check(nd.Assert, p)
}
