// Package mb describes models abstractly. A description can be turned into source files of the
// modelling language, or directly into concepts.
package mb

import (
	"bytes"
	"strconv"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/http"
	"github.com/openshift-online/ocm-api-metamodel/pkg/language"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/pkg/reporter"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/vfs"
)

type Model struct {
	Services []*Service
}

type Service struct {
	Name     string // Snake case
	Versions []*Version
}

type Version struct {
	Name      string
	Types     []*Type
	Resources []*Resource
	Errors    []*Error
}

const (
	Class = iota
	Struct
	Enum
)

type Type struct {
	Kind   int
	Name   string // Camel case
	Attrs  []*Attr
	Values []*Value
	Doc    string
	Anns   []*Ann
}

type Attr struct {
	Name string
	Link bool
	Ref  Ref
	Doc  string
	Anns []*Ann
}

type Value struct {
	Name string
	Doc  string
	Anns []*Ann
}

// Ref is a reference to a type.
type Ref struct {
	Kind  int // Plain, List or Map
	Name  string
	Index string
}

const (
	Plain = iota
	List
	Map
)

type Resource struct {
	Name     string
	Methods  []*Method
	Locators []*Locator
	Doc      string
	Anns     []*Ann
}

type Method struct {
	Name   string
	Params []*Param
	Doc    string
	Anns   []*Ann
}

type Param struct {
	Name    string
	Ref     Ref
	In, Out bool
	Default interface{}
	Doc     string
	Anns    []*Ann
}

type Locator struct {
	Name     string
	Variable bool
	Target   string
	Doc      string
	Anns     []*Ann
}

type Error struct {
	Name string
	Code int
	Doc  string
	Anns []*Ann
}

type Ann struct {
	Name   string
	Params []AnnParam
}

type AnnParam struct {
	Name  string
	Value interface{}
}

// JSON, HTTP and Go create annotations with a name.
func Named(ann, name string) []*Ann {
	return []*Ann{{Name: ann, Params: []AnnParam{{"name", name}}}}
}

// One creates a model with one version.
func One(v *Version) *Model {
	if v.Name == "" {
		v.Name = "v1"
	}
	return &Model{Services: []*Service{{Name: "clusters_mgmt", Versions: []*Version{v}}}}
}

func P(name string) Ref { return Ref{Kind: Plain, Name: name} }
func L(name string) Ref { return Ref{Kind: List, Name: name} }
func M(name string) Ref { return Ref{Kind: Map, Index: "String", Name: name} }

// Text generates the source.
func (v *Version) Text() string {
	b := &printer{}
	for _, t := range v.Types {
		b.doc("", t.Doc)
		b.anns("", t.Anns)
		switch t.Kind {
		case Class:
			b.s("class ")
		case Struct:
			b.s("struct ")
		case Enum:
			b.s("enum ")
		}
		b.s(t.Name + " {\n")
		for _, a := range t.Attrs {
			b.doc("\t", a.Doc)
			b.anns("\t", a.Anns)
			b.s("\t")
			if a.Link {
				b.s("link ")
			}
			b.s(a.Name + " " + a.Ref.text() + "\n")
		}
		for _, x := range t.Values {
			b.doc("\t", x.Doc)
			b.anns("\t", x.Anns)
			b.s("\t" + x.Name + "\n")
		}
		b.s("}\n\n")
	}
	for _, r := range v.Resources {
		b.doc("", r.Doc)
		b.anns("", r.Anns)
		b.s("resource " + r.Name + " {\n")
		for _, m := range r.Methods {
			b.doc("\t", m.Doc)
			b.anns("\t", m.Anns)
			b.s("\tmethod " + m.Name + " {\n")
			for _, p := range m.Params {
				b.doc("\t\t", p.Doc)
				b.anns("\t\t", p.Anns)
				b.s("\t\t")
				if p.In {
					b.s("in ")
				}
				if p.Out {
					b.s("out ")
				}
				b.s(p.Name + " " + p.Ref.text())
				if p.Default != nil {
					b.s(" = ")
					b.literal(p.Default)
				}
				b.s("\n")
			}
			b.s("\t}\n")
		}
		for _, l := range r.Locators {
			b.doc("\t", l.Doc)
			b.anns("\t", l.Anns)
			b.s("\tlocator " + l.Name + " {\n")
			if l.Target != "" {
				b.s("\t\ttarget " + l.Target + "\n")
			}
			if l.Variable {
				b.s("\t\tvariable ID\n")
			}
			b.s("\t}\n")
		}
		b.s("}\n\n")
	}
	for _, e := range v.Errors {
		b.doc("", e.Doc)
		b.anns("", e.Anns)
		b.s("error " + e.Name + " {\n\tcode " + strconv.Itoa(e.Code) + "\n}\n\n")
	}
	return b.text
}

type printer struct{ text string }

func (b *printer) s(s string) { b.text += s }

func (b *printer) doc(indent, doc string) {
	if doc == "" {
		return
	}
	start := 0
	for i := 0; i <= len(doc); i++ {
		if i == len(doc) || doc[i] == '\n' {
			b.s(indent + "// " + doc[start:i] + "\n")
			start = i + 1
		}
	}
}

func (b *printer) anns(indent string, anns []*Ann) {
	for _, a := range anns {
		b.s(indent + "@" + a.Name)
		if len(a.Params) > 0 {
			b.s("(")
			for i, p := range a.Params {
				if i > 0 {
					b.s(" ")
				}
				b.s(p.Name + " = ")
				b.literal(p.Value)
			}
			b.s(")")
		}
		b.s("\n")
	}
}

func (b *printer) literal(v interface{}) {
	switch x := v.(type) {
	case string:
		b.s("\"" + x + "\"")
	case bool:
		if x {
			b.s("true")
		} else {
			b.s("false")
		}
	case int:
		b.s(strconv.Itoa(x))
	}
}

func (r Ref) text() string {
	switch r.Kind {
	case List:
		return "[]" + r.Name
	case Map:
		return "[" + r.Index + "]" + r.Name
	}
	return r.Name
}

// Concepts builds the model directly. All the references must be defined.
func (m *Model) Concepts() *concepts.Model {
	out := concepts.NewModel()
	m.fill(out)
	return out
}

func (m *Model) fill(out *concepts.Model) {
	for _, s := range m.Services {
		cs := concepts.NewService()
		cs.SetName(names.ParseUsingSeparator(s.Name, "_"))
		out.AddService(cs)
		for _, v := range s.Versions {
			cv := concepts.NewVersion()
			cv.SetName(names.ParseUsingSeparator(v.Name, "_"))
			cs.AddVersion(cv)
			v.fill(cv)
		}
	}
}

func (v *Version) fill(cv *concepts.Version) {
	for _, t := range v.Types {
		ct := concepts.NewType()
		switch t.Kind {
		case Class:
			ct.SetKind(concepts.ClassType)
		case Struct:
			ct.SetKind(concepts.StructType)
		case Enum:
			ct.SetKind(concepts.EnumType)
		}
		ct.SetName(names.ParseUsingCase(t.Name))
		ct.SetDoc(t.Doc)
		addAnns(ct, t.Anns)
		cv.AddType(ct)
	}
	for _, r := range v.Resources {
		cr := concepts.NewResource()
		cr.SetName(names.ParseUsingCase(r.Name))
		cr.SetDoc(r.Doc)
		addAnns(cr, r.Anns)
		cv.AddResource(cr)
	}
	for _, t := range v.Types {
		ct := cv.FindType(names.ParseUsingCase(t.Name))
		for _, a := range t.Attrs {
			ca := concepts.NewAttribute()
			ca.SetName(names.ParseUsingCase(a.Name))
			ca.SetType(a.Ref.find(cv))
			ca.SetLink(a.Link)
			ca.SetDoc(a.Doc)
			addAnns(ca, a.Anns)
			ct.AddAttribute(ca)
		}
		for _, x := range t.Values {
			cx := concepts.NewEnumValue()
			cx.SetName(names.ParseUsingCase(x.Name))
			cx.SetDoc(x.Doc)
			addAnns(cx, x.Anns)
			ct.AddValue(cx)
		}
	}
	for _, r := range v.Resources {
		cr := cv.FindResource(names.ParseUsingCase(r.Name))
		for _, m := range r.Methods {
			cm := concepts.NewMethod()
			cm.SetName(names.ParseUsingCase(m.Name))
			cm.SetDoc(m.Doc)
			addAnns(cm, m.Anns)
			for _, p := range m.Params {
				cp := concepts.NewParameter()
				cp.SetName(names.ParseUsingCase(p.Name))
				cp.SetType(p.Ref.find(cv))
				cp.SetIn(p.In)
				cp.SetOut(p.Out)
				cp.SetDefault(p.Default)
				cp.SetDoc(p.Doc)
				addAnns(cp, p.Anns)
				cm.AddParameter(cp)
			}
			cr.AddMethod(cm)
		}
		for _, l := range r.Locators {
			cl := concepts.NewLocator()
			cl.SetName(names.ParseUsingCase(l.Name))
			if l.Variable {
				cl.SetVariable(true)
			}
			if l.Target != "" {
				cl.SetTarget(cv.FindResource(names.ParseUsingCase(l.Target)))
			}
			cl.SetDoc(l.Doc)
			addAnns(cl, l.Anns)
			cr.AddLocator(cl)
		}
	}
	for _, e := range v.Errors {
		ce := concepts.NewError()
		ce.SetName(names.ParseUsingCase(e.Name))
		ce.SetCode(e.Code)
		ce.SetDoc(e.Doc)
		addAnns(ce, e.Anns)
		cv.AddError(ce)
	}
	for _, t := range v.Types {
		ensure(cv, names.ParseUsingCase(t.Name))
	}
}

func ensure(cv *concepts.Version, name *names.Name) *concepts.Type {
	ln := names.Cat(name, names.ParseUsingCase("List"))
	lt := cv.FindType(ln)
	if lt == nil {
		lt = concepts.NewType()
		lt.SetKind(concepts.ListType)
		lt.SetName(ln)
		lt.SetElement(cv.FindType(name))
		cv.AddType(lt)
	}
	return lt
}

func (r Ref) find(cv *concepts.Version) *concepts.Type {
	name := names.ParseUsingCase(r.Name)
	switch r.Kind {
	case List:
		return ensure(cv, name)
	case Map:
		in := names.ParseUsingCase(r.Index)
		mn := names.Cat(in, name, names.ParseUsingCase("Map"))
		mt := cv.FindType(mn)
		if mt == nil {
			mt = concepts.NewType()
			mt.SetKind(concepts.MapType)
			mt.SetName(mn)
			mt.SetIndex(cv.FindType(in))
			mt.SetElement(cv.FindType(name))
			cv.AddType(mt)
		}
		return mt
	}
	return cv.FindType(name)
}

func addAnns(c concepts.Annotated, anns []*Ann) {
	for _, a := range anns {
		ca := concepts.NewAnnotation()
		ca.SetName(a.Name)
		for _, p := range a.Params {
			ca.AddParameter(p.Name, p.Value)
		}
		c.AddAnnotation(ca)
	}
}

// Injected is the model that the engine gives to the reader in place of an empty one.
var Injected *Model

// Consumed tells if the injected model has been used.
var Consumed bool

// Result is the result of reading a model.
type Result struct {
	Model    *concepts.Model
	Err      error
	Log      *bytes.Buffer
	Reporter *reporter.Reporter
	Crashed  bool
}

// Reporter creates a reporter that writes to memory.
func Reporter() (*reporter.Reporter, *bytes.Buffer) {
	buf := new(bytes.Buffer)
	r, err := reporter.New().Streams(buf, buf).Build()
	if err != nil {
		panic(err)
	}
	return r, buf
}

// Binding creates a binding calculator.
func Binding() *http.BindingCalculator {
	r, _ := Reporter()
	b, err := http.NewBindingCalculator().Reporter(r).Build()
	if err != nil {
		panic(err)
	}
	return b
}

func (m *Model) write() {
	vfs.Reset()
	for _, s := range m.Services {
		vfs.Mkdir("model/" + s.Name)
		for _, v := range s.Versions {
			vfs.Write("model/"+s.Name+"/"+v.Name+"/all.model", v.Text())
		}
	}
}

// ReadText reads the model from its source.
func (m *Model) ReadText() *Result {
	m.write()
	return ReadDir("model")
}

// ReadDir reads the model from a directory of the file system of the harness.
func ReadDir(dir string) *Result {
	res := &Result{}
	res.Reporter, res.Log = Reporter()
	res.Crashed = nd.Panics(func() {
		res.Model, res.Err = language.NewReader().Reporter(res.Reporter).Input(vfs.Mkdir(dir)).Read()
	})
	return res
}

// Read checks the model. In the engine the model is given to the reader already loaded, so that only
// the checks are executed symbolically, and otherwise it is read from its source.
func (m *Model) Read() *Result {
	if !nd.Symbolic() {
		return m.ReadText()
	}
	vfs.Reset()
	vfs.Mkdir("empty")
	Injected, Consumed = m, false
	res := ReadDir("empty")
	Injected = nil
	if !Consumed {
		return m.ReadText()
	}
	return res
}

// Inject is called when the reader creates the model.
func Inject(out *concepts.Model) {
	if Injected != nil {
		Consumed = true
		m := Injected
		Injected = nil
		m.fill(out)
	}
}

//override github.com/openshift-online/ocm-api-metamodel/pkg/concepts.NewModel
func NewModel() *concepts.Model {
	m := concepts.NewModel()
	Inject(m)
	return m
}
