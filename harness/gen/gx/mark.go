package gx

import (
	v1 "verifgen/api/clustersmgmt/v1"
)

// MarkAttr describes an attribute of the 'Mark' struct, that doesn't have identity, uses itself, and whose attributes
// have names that are reserved in Go.
type MarkAttr struct {
	Name string
	Wire byte
	Set  func(b *v1.MarkBuilder, s string, i int)
	Has  func(o *v1.Mark) bool
	Same func(o *v1.Mark, s string, i int) bool
	Zero func(o *v1.Mark) bool
}

// MarkAttrs is the list of attributes.
var MarkAttrs = []*MarkAttr{
	{"type", 's',
		func(b *v1.MarkBuilder, s string, i int) { b.Type(s) },
		func(o *v1.Mark) bool { _, ok := o.GetType(); return ok },
		func(o *v1.Mark, s string, i int) bool { x, _ := o.GetType(); return x == s && o.Type() == s },
		func(o *v1.Mark) bool { x, _ := o.GetType(); return x == "" && o.Type() == "" }},
	{"func", '0',
		func(b *v1.MarkBuilder, s string, i int) { b.Func(i) },
		func(o *v1.Mark) bool { _, ok := o.GetFunc(); return ok },
		func(o *v1.Mark, s string, i int) bool { x, _ := o.GetFunc(); return x == i && o.Func() == i },
		func(o *v1.Mark) bool { x, _ := o.GetFunc(); return x == 0 && o.Func() == 0 }},
	{"range", 'o',
		func(b *v1.MarkBuilder, s string, i int) { b.Range(map[string]int{s: i, "z": 7}) },
		func(o *v1.Mark) bool { _, ok := o.GetRange(); return ok },
		func(o *v1.Mark, s string, i int) bool {
			x, _ := o.GetRange()
			return len(x) == 2 && len(o.Range()) == 2 && x[s] == i && o.Range()[s] == i && x["z"] == 7
		},
		func(o *v1.Mark) bool { x, _ := o.GetRange(); return x == nil && o.Range() == nil }},
	{"map", 'a',
		func(b *v1.MarkBuilder, s string, i int) { b.Map(s, "z") },
		func(o *v1.Mark) bool { _, ok := o.GetMap(); return ok },
		func(o *v1.Mark, s string, i int) bool {
			x, _ := o.GetMap()
			return len(x) == 2 && len(o.Map()) == 2 && x[0] == s && o.Map()[0] == s && x[1] == "z"
		},
		func(o *v1.Mark) bool { x, _ := o.GetMap(); return x == nil && o.Map() == nil }},
	{"marks", 'a',
		func(b *v1.MarkBuilder, s string, i int) {
			b.Marks(v1.NewMark().Func(i).Marks(v1.NewMark().Type(s)), v1.NewMark())
		},
		func(o *v1.Mark) bool { _, ok := o.GetMarks(); return ok },
		func(o *v1.Mark, s string, i int) bool {
			x, _ := o.GetMarks()
			if len(x) != 2 || len(o.Marks()) != 2 || x[0] != o.Marks()[0] {
				return false
			}
			y := x[0].Marks()
			f, ok := x[0].GetFunc()
			_, other := x[0].GetType()
			return ok && !other && f == i && len(y) == 1 && y[0].Type() == s && x[1].Empty()
		},
		func(o *v1.Mark) bool { x, _ := o.GetMarks(); return x == nil && o.Marks() == nil }},
	{"next", 'o',
		func(b *v1.MarkBuilder, s string, i int) { b.Next(v1.NewMark().Next(v1.NewMark().Type(s)).Func(i)) },
		func(o *v1.Mark) bool { _, ok := o.GetNext(); return ok },
		func(o *v1.Mark, s string, i int) bool {
			x, _ := o.GetNext()
			if x == nil || x != o.Next() {
				return false
			}
			y, ok := x.GetNext()
			_, other := y.GetNext()
			return ok && !other && x.Func() == i && y.Type() == s
		},
		func(o *v1.Mark) bool { x, _ := o.GetNext(); return x == nil && o.Next() == nil }},
	{"chief", 'o',
		func(b *v1.MarkBuilder, s string, i int) { b.Chief(v1.NewFlavour().Link(true).ID(s)) },
		func(o *v1.Mark) bool { _, ok := o.GetChief(); return ok },
		func(o *v1.Mark, s string, i int) bool {
			x, _ := o.GetChief()
			if x == nil || x != o.Chief() {
				return false
			}
			id, ok := x.GetID()
			return ok && id == s && x.Link()
		},
		func(o *v1.Mark) bool { x, _ := o.GetChief(); return x == nil && o.Chief() == nil }},
	{"teams", 'o',
		func(b *v1.MarkBuilder, s string, i int) {
			b.Teams(v1.NewGroupList().Items(v1.NewGroup().Link(true).ID(s), v1.NewGroup().Name(s)))
		},
		func(o *v1.Mark) bool { _, ok := o.GetTeams(); return ok },
		func(o *v1.Mark, s string, i int) bool {
			x, _ := o.GetTeams()
			return x.Len() == 2 && o.Teams().Len() == 2 && x.Get(0).Link() && x.Get(0).ID() == s && !x.Get(1).Link() && x.Get(1).Name() == s
		},
		func(o *v1.Mark) bool { x, _ := o.GetTeams(); return x == nil && o.Teams() == nil }},
	{"nothing", 'o',
		func(b *v1.MarkBuilder, s string, i int) { b.Nothing(v1.NewEmpty()) },
		func(o *v1.Mark) bool { _, ok := o.GetNothing(); return ok },
		func(o *v1.Mark, s string, i int) bool {
			x, _ := o.GetNothing()
			return x != nil && x == o.Nothing() && x.Empty()
		},
		func(o *v1.Mark) bool { x, _ := o.GetNothing(); return x == nil && o.Nothing() == nil }},
}

// CheckMark checks that the attributes i and j have the values, and the other ones don't have a value.
func CheckMark(assert func(bool, string), o *v1.Mark, i int, s string, n int, j int, t string, m int) {
	for k, a := range MarkAttrs {
		switch k {
		case j:
			assert(a.Has(o), "an attribute of a struct has been lost: "+a.Name)
			assert(a.Same(o, t, m), "an attribute of a struct has other value: "+a.Name)
		case i:
			assert(a.Has(o), "an attribute of a struct has been lost: "+a.Name)
			assert(a.Same(o, s, n), "an attribute of a struct has other value: "+a.Name)
		default:
			assert(!a.Has(o), "an attribute of a struct that wasn't set has a value: "+a.Name)
			assert(a.Zero(o), "an attribute of a struct that wasn't set isn't zero: "+a.Name)
		}
	}
	assert(o.Empty() == (i < 0 && j < 0), "the struct doesn't know if it is empty")
}
