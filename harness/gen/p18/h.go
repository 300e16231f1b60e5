package p18

import (
	"bytes"
	"math"
	"strconv"
	"time"

	v1 "verifgen/api/clustersmgmt/v1"
	"verifgen/zzverif/jsonx"
	"verifgen/zzverif/nd"
)

const chars = "a\"\\\x01\xff"

func groups(n int) (*v1.GroupList, []string) {
	var bs []*v1.GroupBuilder
	var ids []string
	for i := 0; i < n; i++ {
		id := nd.StringOf("id", 1, 1, chars)
		ids = append(ids, id)
		bs = append(bs, v1.NewGroup().ID(id))
	}
	b := v1.NewGroupList()
	nd.Assert(b.Empty(), "a new builder isn't empty")
	b.Items(bs...)
	nd.Assert(b.Empty() == (n == 0), "the builder doesn't know if it is empty")
	l, err := b.Build()
	nd.Assert(err == nil && l != nil, "can't build the list")
	return l, ids
}

// The accessors give the items of the list in order, for any index.
func CheckAccessors() {
	n := nd.Choose("count", 4)
	l, ids := groups(n)
	nd.Assert(l.Len() == n && l.Empty() == (n == 0), "the length is wrong")
	i := nd.Int("index")
	var g *v1.Group
	nd.Assert(!nd.Panics(func() { g = l.Get(i) }), "getting an item crashed")
	nd.Reach("got")
	if i >= 0 && i < n {
		nd.Assert(g != nil, "an item doesn't exist")
		nd.Assert(g.ID() == ids[i], "the item is other one")
	} else {
		nd.Assert(g == nil, "an item that doesn't exist was returned")
	}
	items := l.Items()
	slice := l.Slice()
	nd.Assert(len(items) == n && len(slice) == n, "the number of items is wrong")
	nd.Assert(slice != nil, "the slice is nil")
	for k := range ids {
		nd.Assert(items[k].ID() == ids[k] && slice[k] == items[k], "the items are wrong")
	}
	// The slice is a copy:
	for k := range slice {
		slice[k] = nil
	}
	for k := range ids {
		nd.Assert(l.Get(k) != nil && l.Get(k).ID() == ids[k], "changing the slice changes the list")
	}
}

// The iterators visit the items in order and stop when the function returns false.
func CheckIterators() {
	n := nd.Choose("count", 4)
	stop := nd.Choose("stop", 5)
	l, ids := groups(n)
	k := 0
	l.Each(func(g *v1.Group) bool {
		nd.Assert(k < n && g.ID() == ids[k], "the item is other one")
		k++
		return k != stop
	})
	want := n
	if stop > 0 && stop < n {
		want = stop
	}
	nd.Assert(k == want, "the number of visited items is wrong")
	k = 0
	l.Range(func(i int, g *v1.Group) bool {
		nd.Assert(i == k, "the index is wrong")
		nd.Assert(k < n && g.ID() == ids[k], "the item is other one")
		k++
		return k != stop
	})
	nd.Assert(k == want, "the number of visited items is wrong")
	nd.Reach("visited")
}

// The accessors of a nil list behave like the ones of an empty list.
func CheckNil() {
	nd.Assert(!nd.Panics(func() {
		var l *v1.GroupList
		i := nd.Int("index")
		nd.Assert(l.Len() == 0 && l.Empty() && l.Get(i) == nil && len(l.Items()) == 0 && l.Slice() != nil && len(l.Slice()) == 0, "a nil list isn't empty")
		f := func(g *v1.Group) bool { nd.Assert(false, "a nil list has items"); return true }
		l.Each(f)
		l.Range(func(i int, g *v1.Group) bool { return f(g) })
		nd.Assert(!l.Link() && l.HREF() == "" && l.Kind() == v1.GroupListNilKind, "a nil list is a link")
		_, ok := l.GetHREF()
		nd.Assert(!ok, "a nil list has a reference")
		var m *v1.NodeList
		nd.Assert(m.Len() == 0 && m.Empty() && m.Get(i) == nil && len(m.Slice()) == 0, "a nil list isn't empty")
		var b *v1.GroupListBuilder
		nd.Assert(b.Empty(), "a nil builder isn't empty")
	}), "an accessor of a nil list crashed")
	nd.Reach("checked")
}

// The link, reference and items are the ones that were set.
func CheckSetters() {
	link := nd.Bool("link")
	ref := nd.StringOf("ref", 0, 2, chars)
	l, ids := groups(2)
	l.SetLink(link)
	l.SetHREF(ref)
	nd.Assert(nd.Iff(l.Link(), link), "the link flag is wrong")
	nd.Assert(nd.Iff(l.Kind() == v1.GroupListLinkKind, link) && nd.Iff(l.Kind() == v1.GroupListKind, nd.Not(link)), "the kind is wrong")
	x, ok := l.GetHREF()
	nd.Assert(l.HREF() == ref && x == ref && ok == (len(ref) > 0), "the reference is wrong")
	nd.Assert(l.Len() == 2 && l.Get(0).ID() == ids[0] && l.Get(1).ID() == ids[1], "the items have been changed")
	m, more := groups(1)
	l.SetItems(m.Items())
	nd.Reach("set")
	nd.Assert(l.Len() == 1 && l.Get(0).ID() == more[0], "the items aren't the ones that were set")
}

// Builders of lists can be reused, and don't share their items.
func CheckBuilders() {
	s := nd.StringOf("s", 1, 1, chars)
	one, two := v1.NewNode().Name("a"), v1.NewNode().Name(s)
	given := []*v1.NodeBuilder{one, two}
	b := v1.NewNodeList().Items(given...)
	given[0] = two
	l, err := b.Build()
	nd.Assert(err == nil, "can't build the list")
	b.Items(two)
	m, err := b.Build()
	nd.Assert(err == nil, "can't build the list")
	two.Name("z")
	nd.Reach("built")
	nd.Assert(l.Len() == 2 && l.Get(0).Name() == "a" && l.Get(1).Name() == s, "the first list is wrong")
	nd.Assert(m.Len() == 1 && m.Get(0).Name() == s, "the second list is wrong")
}

func finite(f float64) bool { return !math.IsNaN(f) && !math.IsInf(f, 0) }

// Marshalling lists of all the kinds of elements and unmarshalling the result gives the same elements.
func CheckRoundTrip() {
	nd.Opaque(true)
	n := nd.Choose("count", 4)
	kind := nd.Choose("kind", 10)
	var buf bytes.Buffer
	ok := true
	switch kind {
	case 0:
		x := []bool{nd.Bool("a"), nd.Bool("b"), nd.Bool("c")}[:n]
		nd.Assert(v1.MarshalBooleanList(x, &buf) == nil, "can't marshal")
		y, err := v1.UnmarshalBooleanList(buf.Bytes())
		nd.Assert(err == nil && len(y) == n, "can't unmarshal")
		for i := range y {
			ok = nd.And(ok, nd.Iff(x[i], y[i]))
		}
	case 1:
		x := []int{nd.Int("a"), nd.Int("b"), nd.Int("c")}[:n]
		nd.Assert(v1.MarshalIntegerList(x, &buf) == nil, "can't marshal")
		y, err := v1.UnmarshalIntegerList(buf.Bytes())
		nd.Assert(err == nil && len(y) == n, "can't unmarshal")
		for i := range y {
			ok = nd.And(ok, x[i] == y[i])
		}
	case 2:
		x := []int64{nd.Int64("a"), nd.Int64("b"), nd.Int64("c")}[:n]
		nd.Assert(v1.MarshalLongList(x, &buf) == nil, "can't marshal")
		y, err := v1.UnmarshalLongList(buf.Bytes())
		nd.Assert(err == nil && len(y) == n, "can't unmarshal")
		for i := range y {
			ok = nd.And(ok, x[i] == y[i])
		}
	case 3:
		x := []float64{nd.Float64("a"), nd.Float64("b"), -1.5}[:n]
		for _, f := range x {
			nd.Assume(finite(f))
		}
		nd.Assert(v1.MarshalFloatList(x, &buf) == nil, "can't marshal")
		y, err := v1.UnmarshalFloatList(buf.Bytes())
		nd.Assert(err == nil && len(y) == n, "can't unmarshal")
		for i := range y {
			ok = nd.And(ok, x[i] == y[i])
		}
	case 4:
		x := []string{nd.StringOf("a", 0, 1, chars), nd.StringOf("b", 1, 1, chars), "c"}[:n]
		nd.Assert(v1.MarshalStringList(x, &buf) == nil, "can't marshal")
		y, err := v1.UnmarshalStringList(buf.Bytes())
		nd.Assert(err == nil && len(y) == n, "can't unmarshal")
		for i := range y {
			ok = nd.And(ok, x[i] == y[i])
		}
	case 5:
		x := []time.Time{time.Unix(0, 0), time.Unix(1600000000, 0).In(time.FixedZone("x", 5*3600)), time.Date(2024, 2, 29, 1, 2, 3, 0, time.UTC)}[:n]
		nd.Assert(v1.MarshalDateList(x, &buf) == nil, "can't marshal")
		y, err := v1.UnmarshalDateList(buf.Bytes())
		nd.Assert(err == nil && len(y) == n, "can't unmarshal")
		for i := range y {
			ok = ok && x[i].Equal(y[i])
		}
	case 6:
		x := []v1.State{v1.StateNotReady, v1.StateReady, v1.StateUnknown}[:n]
		nd.Assert(v1.MarshalStateList(x, &buf) == nil, "can't marshal")
		y, err := v1.UnmarshalStateList(buf.Bytes())
		nd.Assert(err == nil && len(y) == n, "can't unmarshal")
		for i := range y {
			ok = ok && x[i] == y[i]
		}
	case 7:
		x := []interface{}{"a", true, nil}[:n]
		nd.Assert(v1.MarshalInterfaceList(x, &buf) == nil, "can't marshal")
		y, err := v1.UnmarshalInterfaceList(buf.Bytes())
		nd.Assert(err == nil && len(y) == n, "can't unmarshal")
		for i := range y {
			ok = ok && x[i] == y[i]
		}
	case 8:
		var x []*v1.Group
		for i := 0; i < n; i++ {
			g, err := v1.NewGroup().Link(nd.Bool("link")).ID(nd.StringOf("id", 1, 1, chars)).Build()
			nd.Assert(err == nil, "can't build")
			x = append(x, g)
		}
		nd.Assert(v1.MarshalGroupList(x, &buf) == nil, "can't marshal")
		y, err := v1.UnmarshalGroupList(buf.Bytes())
		nd.Assert(err == nil && len(y) == n, "can't unmarshal")
		for i := range y {
			ok = ok && x[i].ID() == y[i].ID() && nd.Iff(x[i].Link(), y[i].Link()) && x[i].Kind() == y[i].Kind()
		}
	case 9:
		var x []*v1.Node
		for i := 0; i < n; i++ {
			b := v1.NewNode()
			if nd.Bool("set") {
				b.Cpus(nd.Int("cpus"))
			}
			g, err := b.Build()
			nd.Assert(err == nil, "can't build")
			x = append(x, g)
		}
		nd.Assert(v1.MarshalNodeList(x, &buf) == nil, "can't marshal")
		y, err := v1.UnmarshalNodeList(buf.Bytes())
		nd.Assert(err == nil && len(y) == n, "can't unmarshal")
		for i := range y {
			a, p := x[i].GetCpus()
			b, q := y[i].GetCpus()
			ok = nd.And(ok, nd.And(p == q, a == b))
			_, named := y[i].GetName()
			nd.Assert(!named, "an attribute that wasn't set has a value")
		}
	}
	nd.Reach("unmarshalled")
	nd.Assert(ok, "an element has been changed")
	doc := jsonx.Parse(buf.String())
	nd.Assert(doc != nil && doc.Kind == 'a' && len(doc.Items) == n, "the document isn't an array with the elements of the list")
}

// Incomplete documents are reported, and so are values that aren't lists.
func CheckInvalid() {
	docs := []string{`["a","b"]`, `[{"id":"a"},{"id":"b"}]`, `[1,2]`}
	k := nd.Choose("kind", 3)
	n := nd.Choose("length", 30)
	if n >= len(docs[k]) {
		nd.Assume(false)
	}
	text := docs[k][:n]
	if nd.Bool("other") {
		text = []string{"1", "\"a\"", "{}", "true"}[n%4]
	}
	var err error
	nd.Assert(!nd.Panics(func() {
		switch k {
		case 0:
			_, err = v1.UnmarshalStringList(text)
		case 1:
			_, err = v1.UnmarshalGroupList(text)
		case 2:
			_, err = v1.UnmarshalIntegerList(text)
		}
	}), "unmarshalling crashed")
	nd.Reach("unmarshalled")
	nd.Assert(err != nil, "a document that isn't a complete list has been accepted")
}

// Long lists behave like the short ones: the accessors, iterators, builders and documents keep all the items.
func CheckLong() {
	counts := []int{5, 17, 100, nd.Bound("items", 300, 1000)}
	n := counts[nd.Choose("count", len(counts))]
	at := []int{0, n / 2, n - 1}[nd.Choose("position", 3)]
	s := nd.StringOf("s", 1, 1, chars)
	b := v1.NewGroupList()
	var items []*v1.GroupBuilder
	text := func(i int) string {
		if i == at {
			return s
		}
		return "item-" + strconv.Itoa(i)
	}
	for i := 0; i < n; i++ {
		items = append(items, v1.NewGroup().ID(text(i)))
	}
	l, err := b.Items(items...).Build()
	nd.Assert(err == nil, "can't build the list")
	c, err := v1.NewGroupList().Copy(l).Build()
	nd.Assert(err == nil, "can't copy the list")
	var buf bytes.Buffer
	nd.Assert(v1.MarshalGroupList(l.Slice(), &buf) == nil, "can't marshal")
	u, err := v1.UnmarshalGroupList(buf.Bytes())
	nd.Assert(err == nil && len(u) == n, "can't unmarshal")
	var strs bytes.Buffer
	var texts []string
	for i := 0; i < n; i++ {
		texts = append(texts, text(i))
	}
	nd.Assert(v1.MarshalStringList(texts, &strs) == nil, "can't marshal")
	ss, err := v1.UnmarshalStringList(strs.Bytes())
	nd.Assert(err == nil && len(ss) == n, "can't unmarshal")
	nd.Reach("built")
	nd.Assert(l.Len() == n && c.Len() == n && len(l.Slice()) == n, "the length is wrong")
	nd.Assert(l.Get(n) == nil && l.Get(-1) == nil && l.Get(n-1) != nil, "the limits are wrong")
	k := 0
	l.Range(func(i int, g *v1.Group) bool {
		nd.Assert(i == k && g == l.Get(i) && g == l.Slice()[i], "an item is other one")
		nd.Assert(g.ID() == text(i) && c.Get(i).ID() == text(i) && u[i].ID() == text(i) && ss[i] == text(i), "an item has been changed")
		k++
		return k != n/2
	})
	nd.Assert(k == n/2, "the number of visited items is wrong")
	k = 0
	l.Each(func(g *v1.Group) bool {
		nd.Assert(g == l.Get(k) && g.ID() == text(k), "an item is other one")
		k++
		return true
	})
	nd.Assert(k == n, "the number of visited items is wrong")
}
