package p24

import (
	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/generators/openapi"
	"github.com/openshift-online/ocm-api-metamodel/pkg/language"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/mb"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/vfs"
)

// declarations are the declarations of a version that uses all of them from others.
var declarations = []string{
	"// The color.\nenum Color {\n\tRed\n\t// Not red.\n\tGreen\n}\n",
	"class Car {\n\tColors []Color\n\tlink Owner Person\n\tWheels [String]Wheel\n}\n",
	"struct Wheel {\n\tSize Integer\n\tSpare Wheel\n\tCars []Car\n}\n",
	"resource Root {\n\tlocator Cars {\n\t\ttarget Cars\n\t}\n}\n",
	"@x(a = 1)\nclass Person {\n\tCars []Car\n}\n",
	"resource Cars {\n\tmethod Add {\n\t\tin out Body Car\n\t}\n\tmethod Paint {\n\t\tin Color Color\n\t}\n}\n",
	"error Failed {\n\tcode 1\n}\n",
}

func read(write func()) *concepts.Model {
	vfs.Reset()
	write()
	r := mb.ReadDir("model")
	nd.Assert(!r.Crashed, "reading the model crashes")
	nd.Assert(r.Err == nil, "the model is rejected")
	return r.Model
}

func reference() string {
	return mb.Dump(read(func() {
		text := ""
		for _, d := range declarations {
			text += d
		}
		vfs.Write("model/my_service/v1/all.model", text)
	}))
}

// permutation chooses an order of the declarations, where the first ones are arbitrary.
func permutation(n int) []string {
	rest := append([]string(nil), declarations...)
	var result []string
	for i := 0; i < n; i++ {
		j := nd.Choose("next", len(rest))
		result = append(result, rest[j])
		rest = append(append([]string(nil), rest[:j]...), rest[j+1:]...)
	}
	return append(result, rest...)
}

// The model doesn't depend on the order of the declarations.
func CheckOrder() {
	order := permutation(nd.Bound("arbitrary", 3, 6))
	want := reference()
	got := mb.Dump(read(func() {
		text := ""
		for _, d := range order {
			text += d
		}
		vfs.Write("model/my_service/v1/all.model", text)
	}))
	nd.Reach("read")
	nd.Assert(got == want, "the model depends on the order of the declarations")
}

// The model doesn't depend on how the declarations are distributed in files.
func CheckFiles() {
	want := reference()
	var files [3]string
	for i, d := range declarations {
		n := 0
		if i < nd.Bound("distributed", 4, 6) {
			n = nd.Choose("file", 3)
		} else {
			n = i % 3
		}
		files[n] += d
	}
	got := mb.Dump(read(func() {
		for i, f := range files {
			if f != "" {
				vfs.Write("model/my_service/v1/"+string([]byte{byte('a' + i)})+".model", f)
			}
		}
	}))
	nd.Reach("read")
	nd.Assert(got == want, "the model depends on the files")
}

// The model doesn't depend on the layout of the source.
func CheckLayout() {
	tokens := []string{"enum", "Color", "{", "Red", "value", "Green", "}", "@", "x", "(", "a", "=", "1", ")", "class", "Car", "{", "link", "Owner", "Person",
		"attribute", "Sizes", "[", "]", "Integer", "Tags", "[", "String", "]", "String", "}", "class", "Person", "{", "}", "resource", "Root", "{", "method", "Paint",
		"{", "in", "out", "Size", "Integer", "=", "5", "}", "locator", "Cars", "{", "variable", "ID", "target", "Cars", "}", "}", "resource", "Cars", "{", "}", "error", "Failed", "{", "code", "1", "}"}
	source := func(i int, sep string) string {
		text := ""
		for j, t := range tokens {
			if j == i {
				text += sep
			} else {
				text += "\n"
			}
			text += t
		}
		return text
	}
	seps := []string{" ", "\t", "\r\n", "\n\n\n", "/* x */", "/* } \n */", " // x\n\n"}
	i := nd.Choose("position", len(tokens))
	sep := seps[nd.Choose("separator", len(seps))]
	want := mb.Dump(read(func() { vfs.Write("model/my_service/v1/all.model", source(-1, "")) }))
	got := mb.Dump(read(func() { vfs.Write("model/my_service/v1/all.model", source(i, sep)) }))
	nd.Reach("read")
	nd.Assert(got == want, "the model depends on the layout")
}

// The services and versions don't depend on each other, nor on the order in which they are read.
func CheckVersions() {
	names := []string{"model/a_service/v1/x.model", "model/a_service/v2/x.model", "model/b_service/v1/x.model"}
	texts := []string{
		"class Car {\n\tSize Integer\n}\nresource Root {\n}\n",
		"struct Car {\n\tCar []Color\n}\nenum Color {\n\tRed\n}\nresource Root {\n}\n",
		"class Color {\n\tCar [String]Car\n}\nenum Car {\n\tRed\n}\nresource Root {\n\tlocator Cars {\n\t\ttarget Cars\n\t}\n}\nresource Cars {\n}\n",
	}
	var chosen [3]int
	for i := range chosen {
		chosen[i] = nd.Choose("text", len(texts))
	}
	all := read(func() {
		for i, n := range names {
			vfs.Write(n, texts[chosen[i]])
		}
	})
	got := []string{
		mb.DumpVersion(all.Services()[0].Versions()[0]),
		mb.DumpVersion(all.Services()[0].Versions()[1]),
		mb.DumpVersion(all.Services()[1].Versions()[0]),
	}
	nd.Reach("read")
	for i := range names {
		alone := read(func() { vfs.Write("model/a_service/v1/x.model", texts[chosen[i]]) })
		nd.Assert(got[i] == mb.DumpVersion(alone.Services()[0].Versions()[0]), "a version depends on other versions")
	}
}

func generate(m *concepts.Model) string {
	vfs.Reset()
	rep, _ := mb.Reporter()
	calc, err := openapi.NewNamesCalculator().Reporter(rep).Build()
	nd.Assert(err == nil, "can't create the names calculator")
	g, err := openapi.NewOpenAPIGenerator().Reporter(rep).Model(m).Output(vfs.Mkdir("out")).Names(calc).Binding(mb.Binding()).Build()
	nd.Assert(err == nil, "can't create the generator")
	nd.Assert(g.Run() == nil, "can't generate")
	text, ok := vfs.Read("out/my_service/v1/openapi.json")
	nd.Assert(ok, "the document doesn't exist")
	return text
}

// The documents don't depend on the order of the declarations, nor on the order in which the maps are
// visited, and are the same when they are generated again.
func CheckDocuments() {
	order := permutation(nd.Bound("arbitrary in documents", 1, 3))
	source := func(l []string) *concepts.Model {
		return read(func() {
			text := ""
			for _, d := range l {
				text += d
			}
			vfs.Write("model/my_service/v1/all.model", text)
		})
	}
	want := generate(source(declarations))
	m := source(order)
	nd.AnyMapOrder(true)
	got := generate(m)
	// The order of maps is random when this is executed natively:
	for i := 0; i < 20 && got == want && !nd.Symbolic(); i++ {
		got = generate(m)
	}
	nd.Reach("generated")
	nd.Assert(got == want, "the document depends on the order of the declarations")
	nd.AnyMapOrder(false)
	nd.Assert(generate(m) == want, "the document isn't the same when it is generated again")
}

// The names of lists and maps can, or can't, be used as names of types, whatever the order of the uses.
func CheckListNames() {
	uses := []string{"class A {\nX []Car\n}\n", "class B {\nX CarList\n}\n", "class C {\nX [String]Car\n}\n", "class D {\nX StringCarMap\n}\n"}
	i, j := nd.Choose("first", len(uses)), nd.Choose("second", len(uses))
	nd.Assume(i < j)
	var ok [2]bool
	var text [2]string
	for k, order := range [][2]int{{i, j}, {j, i}} {
		vfs.Reset()
		vfs.Write("model/s/v1/a.model", "resource Root {\n}\nclass Car {\n}\n"+uses[order[0]]+uses[order[1]])
		r := mb.ReadDir("model")
		nd.Assert(!r.Crashed, "reading the model crashes")
		ok[k] = r.Err == nil
		if ok[k] {
			text[k] = mb.Dump(r.Model)
		}
	}
	nd.Reach("read")
	nd.Assert(ok[0] == ok[1], "the name of a list is accepted or rejected depending on the order")
	nd.Assert(text[0] == text[1], "the model depends on the order of the uses")
}

// All the files of a version are read, whatever their names.
func CheckFileNames() {
	want := reference()
	n := nd.Choose("file", 3)
	prefix := []string{"", "_", "Z", "0", ".", "a b-"}[nd.Choose("prefix", 6)]
	suffix := []string{".model", "", ".txt", "_test.model", ".model.model"}[nd.Choose("suffix", 5)]
	var files [3]string
	for i, d := range declarations {
		files[i%3] += d
	}
	got := mb.Dump(read(func() {
		for i, f := range files {
			name := string([]byte{byte('a' + i)})
			if i == n {
				name = prefix + name + suffix
			} else {
				name += ".model"
			}
			vfs.Write("model/my_service/v1/"+name, f)
		}
	}))
	nd.Reach("read")
	nd.Assert(got == want, "the model depends on the names of the files")
}

// The model doesn't depend on how the declarations of a version, and its services, are distributed in several
// directories, nor on other files and directories that are around them.
func CheckInputs() {
	other := "class Thing {\n}\nresource Root {\n}\n"
	want := mb.Dump(read(func() {
		text := ""
		for _, d := range declarations {
			text += d
		}
		vfs.Write("model/my_service/v1/all.model", text)
		vfs.Write("model/my_service/v2/all.model", other)
		vfs.Write("model/other/v1/all.model", other)
	}))
	var files [2]string
	for i, d := range declarations {
		n := i % 2
		if i < nd.Bound("distributed in directories", 2, 5) {
			n = nd.Choose("directory", 2)
		}
		files[n] += d
	}
	version := nd.Choose("version", 2)
	service := nd.Choose("service", 2)
	around := nd.Choose("around", 5)
	reverse := nd.Bool("reverse")
	vfs.Reset()
	dirs := []string{"one", "two"}
	for i, f := range files {
		if f != "" {
			vfs.Write(dirs[i]+"/my_service/v1/x.model", f)
		}
		if i == version {
			vfs.Write(dirs[i]+"/my_service/v2/x.model", other)
		}
		if i == service {
			vfs.Write(dirs[i]+"/other/v1/x.model", other)
		}
		switch around {
		case 1:
			vfs.Write(dirs[i]+"/readme.model", "class Other {\n}\n")
		case 2:
			vfs.Write(dirs[i]+"/my_service/readme.model", "class Other {\n}\n")
		case 3:
			vfs.Write(dirs[i]+"/my_service/v1/nested/more.model", "class Other {\n}\n")
		case 4:
			vfs.Mkdir(dirs[i] + "/other/v1")
		}
	}
	inputs := []string{vfs.Mkdir(dirs[0]), vfs.Mkdir(dirs[1])}
	if reverse {
		inputs[0], inputs[1] = inputs[1], inputs[0]
	}
	rep, _ := mb.Reporter()
	var m *concepts.Model
	var err error
	nd.Assert(!nd.Panics(func() { m, err = language.NewReader().Reporter(rep).Inputs(inputs).Read() }), "reading the model crashes")
	nd.Assert(err == nil, "the model is rejected")
	nd.Reach("read")
	nd.Assert(mb.Dump(m) == want, "the model depends on the directories")
}
