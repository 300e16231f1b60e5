package p13

import (
	"strconv"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/generators/golang"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/pkg/reporter"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/mb"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
)

func calculator() (*golang.TypesCalculator, *reporter.Reporter) {
	r, _ := mb.Reporter()
	nc, err := golang.NewNamesCalculator().Reporter(r).Build()
	nd.Assert(err == nil, "can't create the names calculator")
	pc, err := golang.NewPackagesCalculator().Reporter(r).Base("base").Build()
	nd.Assert(err == nil, "can't create the packages calculator")
	tc, err := golang.NewTypesCalculator().Reporter(r).Packages(pc).Names(nc).Build()
	nd.Assert(err == nil, "can't create the types calculator")
	return tc, r
}

// build creates a type with the given number of attributes, added in an arbitrary rotation.
func build(class bool, count int) *concepts.Type {
	s := concepts.NewService()
	s.SetName(names.ParseUsingSeparator("my_service", "_"))
	v := concepts.NewVersion()
	v.SetName(names.ParseUsingSeparator("v1", "_"))
	s.AddVersion(v)
	t := concepts.NewType()
	if class {
		t.SetKind(concepts.ClassType)
	} else {
		t.SetKind(concepts.StructType)
	}
	t.SetName(names.ParseUsingCase("MyType"))
	v.AddType(t)
	turn := nd.Choose("rotation", 3)
	for i := 0; i < count; i++ {
		a := concepts.NewAttribute()
		a.SetName(names.ParseUsingCase("A" + strconv.Itoa(100+(i+turn*7)%count)))
		a.SetType(v.StringType())
		t.AddAttribute(a)
	}
	return t
}

// Every attribute has its own bit, different from the reserved ones, that exists in the type of the bitmap.
// Types with more attributes than bits are rejected.
//verif:steps=40000000
func CheckBits() {
	class := nd.Bool("class")
	count := nd.Choose("count", 67)
	t := build(class, count)
	c, r := calculator()
	reserved := uint64(0)
	room := 64
	if class {
		reserved = 7
		room = 61
	}
	typ := c.BitmapType(t)
	nd.Reach("calculated")
	if count > room {
		nd.Assert(r.Errors() > 0, "a type with more attributes than bits is accepted")
		return
	}
	nd.Assert(r.Errors() == 0, "a type whose attributes fit is rejected")
	bits := 0
	switch typ.Text() {
	case "uint8":
		bits = 8
	case "uint16":
		bits = 16
	case "uint32":
		bits = 32
	case "uint64":
		bits = 64
	}
	nd.Assert(bits > 0, "the type of the bitmap isn't an unsigned integer")
	used := reserved
	for _, a := range t.Attributes() {
		mask, err := strconv.ParseUint(c.BitMask(a), 0, 64)
		nd.Assert(err == nil, "the mask isn't an unsigned integer")
		nd.Assert(mask != 0 && mask&(mask-1) == 0, "the mask isn't one bit")
		nd.Assert(used&mask == 0, "two attributes use the same bit")
		nd.Assert(bits == 64 || mask>>uint(bits) == 0, "the mask doesn't fit in the bitmap")
		used |= mask
	}
	nd.Assert(r.Errors() == 0, "unexpected errors")
}
