package p13

import (
	"bytes"

	"verifgen/zzverif/nd"
	"verifgen/zzverif/wx"
)

func check(t *wx.Type, o interface{}, i int, x int, j int, y int) {
	for k := range t.Get {
		v, ok := t.Get[k](o)
		switch k {
		case j:
			nd.Assert(ok, "an attribute that was set doesn't have a value")
			nd.Assert(v == y && t.Plain[k](o) == y, "an attribute doesn't have the value that was set")
		case i:
			nd.Assert(ok, "an attribute that was set doesn't have a value")
			nd.Assert(v == x && t.Plain[k](o) == x, "an attribute doesn't have the value that was set")
		default:
			nd.Assert(!ok && v == 0 && t.Plain[k](o) == 0, "an attribute that wasn't set has a value")
		}
	}
}

func pick() (t *wx.Type, i, j int) {
	t = wx.Types[nd.Choose("type", len(wx.Types))]
	i, j = nd.Choose("first", t.Count), nd.Choose("second", t.Count)
	nd.Assume(i <= j)
	return
}

// In types with many attributes, up to the maximum, any two attributes are independent.
func CheckPresence() {
	t, i, j := pick()
	x, y := nd.Int("x"), nd.Int("y")
	b := t.New()
	nd.Assert(b.Empty(), "a new builder isn't empty")
	b.Set[i](x)
	b.Set[j](y)
	nd.Assert(!b.Empty(), "a builder with attributes is empty")
	o, err := b.Build()
	nd.Assert(err == nil, "can't build the object")
	nd.Reach("built")
	nd.Assert(!t.Empty(o), "an object with attributes is empty")
	check(t, o, i, x, j, y)
	c := t.New()
	c.Copy(o)
	p, err := c.Build()
	nd.Assert(err == nil, "can't build the copy")
	check(t, p, i, x, j, y)
}

// The same for objects read from documents.
func CheckDocuments() {
	nd.Opaque(true)
	t := wx.Types[nd.Choose("type", len(wx.Types))]
	i, j := nd.Choose("first", t.Count), nd.Choose("distance", 3)
	j = (i + j*j*j + t.Count/2*(j/2)) % t.Count
	x, y := nd.Int("x"), nd.Int("y")
	b := t.New()
	b.Set[i](x)
	b.Set[j](y)
	o, err := b.Build()
	nd.Assert(err == nil, "can't build the object")
	var buf bytes.Buffer
	nd.Assert(t.Marshal(o, &buf) == nil, "can't marshal the object")
	p, err := t.Unmarshal(buf.Bytes())
	nd.Assert(err == nil, "can't unmarshal the object")
	nd.Reach("unmarshalled")
	check(t, p, i, x, j, y)
}

// All the attributes together.
func CheckAll() {
	nd.Opaque(true)
	t := wx.Types[nd.Choose("type", len(wx.Types))]
	b := t.New()
	xs := make([]int, t.Count)
	for k := range xs {
		xs[k] = nd.Int("x")
		b.Set[k](xs[k])
	}
	o, err := b.Build()
	nd.Assert(err == nil, "can't build the object")
	var buf bytes.Buffer
	nd.Assert(t.Marshal(o, &buf) == nil, "can't marshal the object")
	p, err := t.Unmarshal(buf.Bytes())
	nd.Assert(err == nil, "can't unmarshal the object")
	nd.Reach("unmarshalled")
	for k, x := range xs {
		v, ok := t.Get[k](o)
		nd.Assert(ok && v == x, "an attribute doesn't have the value that was set")
		v, ok = t.Get[k](p)
		nd.Assert(ok && v == x, "an attribute has been changed")
	}
}
