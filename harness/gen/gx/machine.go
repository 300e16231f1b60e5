package gx

import (
	inventory "verifgen/api/inventory/v1"
	mirror "verifgen/api/mirror/v1beta1"
)

// MachineAttr describes an attribute of the 'Machine' class of the mirror, that is a reference to the one of the
// inventory: the links are objects of the inventory, and the other attributes are objects of the mirror.
type MachineAttr struct {
	Name string
	Wire byte
	Set  func(b *mirror.MachineBuilder, s string, i int)
	Has  func(o *mirror.Machine) bool
	Same func(o *mirror.Machine, s string, i int) bool
	Zero func(o *mirror.Machine) bool
}

// MachineAttrs is the list of attributes.
var MachineAttrs = []*MachineAttr{
	{"id", 's',
		func(b *mirror.MachineBuilder, s string, i int) { b.ID(s) },
		func(o *mirror.Machine) bool { _, ok := o.GetID(); return ok },
		func(o *mirror.Machine, s string, i int) bool {
			x, _ := o.GetID()
			return x == s && o.ID() == s
		},
		func(o *mirror.Machine) bool { x, _ := o.GetID(); return x == "" && o.ID() == "" }},
	{"active", 'b',
		func(b *mirror.MachineBuilder, s string, i int) { b.Active(i > 0) },
		func(o *mirror.Machine) bool { _, ok := o.GetActive(); return ok },
		func(o *mirror.Machine, s string, i int) bool {
			x, _ := o.GetActive()
			return x == (i > 0) && o.Active() == x
		},
		func(o *mirror.Machine) bool { x, _ := o.GetActive(); return x == false && o.Active() == false }},
	{"color", 's',
		func(b *mirror.MachineBuilder, s string, i int) { b.Color(mirror.Color(s)) },
		func(o *mirror.Machine) bool { _, ok := o.GetColor(); return ok },
		func(o *mirror.Machine, s string, i int) bool {
			x, _ := o.GetColor()
			return x == mirror.Color(s) && o.Color() == x
		},
		func(o *mirror.Machine) bool {
			x, _ := o.GetColor()
			return x == mirror.Color("") && o.Color() == mirror.Color("")
		}},
	{"friends", 'o',
		func(b *mirror.MachineBuilder, s string, i int) {
			b.Friends(inventory.NewPersonList().Items(inventory.NewPerson().Link(true).ID(s), inventory.NewPerson().Name(s)))
		},
		func(o *mirror.Machine) bool { _, ok := o.GetFriends(); return ok },
		func(o *mirror.Machine, s string, i int) bool {
			x, _ := o.GetFriends()
			return x.Len() == 2 && x == o.Friends() && x.Get(0).Link() && x.Get(0).ID() == s && !x.Get(1).Link() && x.Get(1).Name() == s
		},
		func(o *mirror.Machine) bool { x, _ := o.GetFriends(); return x == nil && o.Friends() == nil }},
	{"labels", 'o',
		func(b *mirror.MachineBuilder, s string, i int) { b.Labels(map[string]string{s: "a", "z": s}) },
		func(o *mirror.Machine) bool { _, ok := o.GetLabels(); return ok },
		func(o *mirror.Machine, s string, i int) bool {
			x, _ := o.GetLabels()
			return len(x) == 2 && x[s] == "a" && x["z"] == s && len(o.Labels()) == 2
		},
		func(o *mirror.Machine) bool { x, _ := o.GetLabels(); return x == nil && o.Labels() == nil }},
	{"name", 's',
		func(b *mirror.MachineBuilder, s string, i int) { b.Name(s) },
		func(o *mirror.Machine) bool { _, ok := o.GetName(); return ok },
		func(o *mirror.Machine, s string, i int) bool {
			x, _ := o.GetName()
			return x == s && o.Name() == s
		},
		func(o *mirror.Machine) bool { x, _ := o.GetName(); return x == "" && o.Name() == "" }},
	{"owner", 'o',
		func(b *mirror.MachineBuilder, s string, i int) { b.Owner(inventory.NewPerson().Link(true).HREF(s)) },
		func(o *mirror.Machine) bool { _, ok := o.GetOwner(); return ok },
		func(o *mirror.Machine, s string, i int) bool {
			x, _ := o.GetOwner()
			return x != nil && x == o.Owner() && x.Link() && x.HREF() == s && x.ID() == ""
		},
		func(o *mirror.Machine) bool { x, _ := o.GetOwner(); return x == nil && o.Owner() == nil }},
	{"part", 'o',
		func(b *mirror.MachineBuilder, s string, i int) {
			b.Part(mirror.NewPart().Number(i).Color(mirror.Color(s)))
		},
		func(o *mirror.Machine) bool { _, ok := o.GetPart(); return ok },
		func(o *mirror.Machine, s string, i int) bool {
			x, _ := o.GetPart()
			return x != nil && x == o.Part() && x.Number() == i && x.Color() == mirror.Color(s)
		},
		func(o *mirror.Machine) bool { x, _ := o.GetPart(); return x == nil && o.Part() == nil }},
	{"parts", 'a',
		func(b *mirror.MachineBuilder, s string, i int) { b.Parts(mirror.NewPart().Number(i), mirror.NewPart()) },
		func(o *mirror.Machine) bool { _, ok := o.GetParts(); return ok },
		func(o *mirror.Machine, s string, i int) bool {
			x, _ := o.GetParts()
			return len(x) == 2 && len(o.Parts()) == 2 && x[0] == o.Parts()[0] && x[0].Number() == i && x[1].Empty()
		},
		func(o *mirror.Machine) bool { x, _ := o.GetParts(); return x == nil && o.Parts() == nil }},
	{"size", '0',
		func(b *mirror.MachineBuilder, s string, i int) { b.Size(i) },
		func(o *mirror.Machine) bool { _, ok := o.GetSize(); return ok },
		func(o *mirror.Machine, s string, i int) bool {
			x, _ := o.GetSize()
			return x == i && o.Size() == i
		},
		func(o *mirror.Machine) bool { x, _ := o.GetSize(); return x == 0 && o.Size() == 0 }},
	{"spares", 'o',
		func(b *mirror.MachineBuilder, s string, i int) {
			b.Spares(map[string]*mirror.PartBuilder{s: mirror.NewPart().Number(i), "z": mirror.NewPart().Color(mirror.ColorRed)})
		},
		func(o *mirror.Machine) bool { _, ok := o.GetSpares(); return ok },
		func(o *mirror.Machine, s string, i int) bool {
			x, _ := o.GetSpares()
			return len(x) == 2 && len(o.Spares()) == 2 && x[s].Number() == i && x["z"].Color() == mirror.ColorRed
		},
		func(o *mirror.Machine) bool { x, _ := o.GetSpares(); return x == nil && o.Spares() == nil }},
	{"tags", 'a',
		func(b *mirror.MachineBuilder, s string, i int) { b.Tags(s, "z") },
		func(o *mirror.Machine) bool { _, ok := o.GetTags(); return ok },
		func(o *mirror.Machine, s string, i int) bool {
			x, _ := o.GetTags()
			return len(x) == 2 && len(o.Tags()) == 2 && x[0] == s && x[1] == "z"
		},
		func(o *mirror.Machine) bool { x, _ := o.GetTags(); return x == nil && o.Tags() == nil }},
}

// CheckMachine checks that the attributes i and j have the values, and the other ones don't have a value.
func CheckMachine(assert func(bool, string), o *mirror.Machine, i int, s string, n int, j int, t string, m int) {
	for k, a := range MachineAttrs {
		switch k {
		case j:
			assert(a.Has(o), "an attribute of a reference has been lost: "+a.Name)
			assert(a.Same(o, t, m), "an attribute of a reference has other value: "+a.Name)
		case i:
			assert(a.Has(o), "an attribute of a reference has been lost: "+a.Name)
			assert(a.Same(o, s, n), "an attribute of a reference has other value: "+a.Name)
		default:
			assert(!a.Has(o), "an attribute of a reference that wasn't set has a value: "+a.Name)
			assert(a.Zero(o), "an attribute of a reference that wasn't set isn't zero: "+a.Name)
		}
	}
	assert(o.Empty() == (i < 0 && j < 0), "the reference doesn't know if it is empty")
}
