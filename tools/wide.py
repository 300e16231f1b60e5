#!/usr/bin/env python3
"""Writes the types with many attributes of the corpus, and the table that describes their attributes."""
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
types = [("WideTwentyNine", "class", 29), ("WideThirty", "class", 30), ("WideSixtyOne", "class", 61), ("WideThirtyTwo", "struct", 32), ("WideThirtyThree", "struct", 33), ("WideSixtyFour", "struct", 64)]
os.makedirs(here + "/corpus/wide/clusters_mgmt/v1", exist_ok=True)
os.makedirs(here + "/harness/gen/wx", exist_ok=True)
w = open(here + "/harness/gen/wx/wx.go", "w")
w.write("""// Package wx contains the description of the types of the corpus with many attributes, generated by tools/wide.py.
package wx

import (
	"io"

	v1 "verifgen/api/clustersmgmt/v1"
)

// Object is an object and its builder.
type Object struct {
	Build func() (interface{}, error)
	Copy func(o interface{})
	Empty func() bool
	Set []func(v int)
}

// Type describes a type.
type Type struct {
	Name string
	Count int
	New func() *Object
	Get []func(o interface{}) (int, bool)
	Plain []func(o interface{}) int
	Empty func(o interface{}) bool
	Marshal func(o interface{}, w io.Writer) error
	Unmarshal func(s interface{}) (interface{}, error)
}

// Types is the list of types.
var Types = []*Type{
""")
for name, kind, count in types:
    p = here + "/corpus/wide/clusters_mgmt/v1/wide_%d.model" % count
    with open(p, "w") as f:
        f.write("%s %s {\n" % (kind, name))
        for i in range(count):
            f.write("\tA%02d Integer\n" % i)
        f.write("}\n")
    w.write("\t{\n\t\tName: \"%s\", Count: %d,\n" % (name, count))
    w.write("\t\tNew: func() *Object {\n\t\t\tb := v1.New%s()\n\t\t\treturn &Object{\n\t\t\t\tBuild: func() (interface{}, error) { return b.Build() },\n\t\t\t\tCopy: func(o interface{}) { b.Copy(o.(*v1.%s)) },\n\t\t\t\tEmpty: func() bool { return b.Empty() },\n\t\t\t\tSet: []func(v int){\n" % (name, name))
    for i in range(count):
        w.write("\t\t\t\t\tfunc(v int) { b.A%02d(v) },\n" % i)
    w.write("\t\t\t\t},\n\t\t\t}\n\t\t},\n\t\tGet: []func(o interface{}) (int, bool){\n")
    for i in range(count):
        w.write("\t\t\tfunc(o interface{}) (int, bool) { return o.(*v1.%s).GetA%02d() },\n" % (name, i))
    w.write("\t\t},\n\t\tPlain: []func(o interface{}) int{\n")
    for i in range(count):
        w.write("\t\t\tfunc(o interface{}) int { return o.(*v1.%s).A%02d() },\n" % (name, i))
    w.write("\t\t},\n\t\tEmpty: func(o interface{}) bool { return o.(*v1.%s).Empty() },\n" % name)
    w.write("\t\tMarshal: func(o interface{}, w io.Writer) error { return v1.Marshal%s(o.(*v1.%s), w) },\n" % (name, name))
    w.write("\t\tUnmarshal: func(s interface{}) (interface{}, error) { return v1.Unmarshal%s(s) },\n" % name)
    w.write("\t},\n")
w.write("}\n")
w.close()
os.system("gofmt -w " + here + "/harness/gen/wx/wx.go")
