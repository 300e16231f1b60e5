package p32

import (
	"bytes"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/pkg/reporter"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/mb"
	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
)

const lower = "abcdefghijklmnopqrstuvwxyz"
const upper = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

// camel is an identifier with one or two words.
func camel(name string) string {
	out := nd.StringOf(name+"First", 1, 1, upper) + nd.StringOf(name+"Rest", 1, nd.Bound("letters", 1, 2), lower)
	if nd.Bool(name + "Two") {
		out += "Word"
	}
	return out
}

func equal(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := 0; i < len(a); i++ {
		r = nd.And(r, a[i] == b[i])
	}
	return r
}

// ends checks that the text is the wanted one with a prefix and a line ending.
func ends(text, want string) bool {
	return len(text) > len(want) && equal(text[len(text)-len(want)-1:], want+"\n")
}

func create() (r *reporter.Reporter, out, err *bytes.Buffer) {
	out, err = new(bytes.Buffer), new(bytes.Buffer)
	r, e := reporter.New().Streams(out, err).Build()
	nd.Assert(e == nil, "can't create the reporter")
	return
}

// After any history of messages each stream contains its messages in order, each in one line and with the prefix of
// its kind, and the number of errors is the number of messages that are errors.
func CheckHistory() {
	r, out, err := create()
	n := nd.Choose("messages", nd.Bound("messages", 4, 6))
	errors := 0
	var prefixes [3]string
	for i := 0; i < n; i++ {
		kind := nd.Choose("kind", 3)
		text := nd.StringOf("text", 0, 2, "a%\"{")
		a, b := out.Len(), err.Len()
		var got string
		switch kind {
		case 0:
			r.Infof("%s", text)
		case 1:
			r.Warnf("%s", text)
		default:
			e := r.Errorf("%s", text)
			errors++
			nd.Assert(e != nil, "the error isn't returned")
			nd.Assert(equal(e.Error(), text), "the returned error doesn't have the text")
		}
		if kind == 2 {
			nd.Assert(out.Len() == a, "an error is written to the stream of the information")
			got = err.String()[b:]
		} else {
			nd.Assert(err.Len() == b, "a message is written to the stream of the errors")
			got = out.String()[a:]
		}
		nd.Assert(ends(got, text), "a message isn't written as a line")
		prefix := got[:len(got)-len(text)-1]
		nd.Assert(prefix != "", "a message doesn't have a prefix")
		if prefixes[kind] == "" {
			prefixes[kind] = prefix
		}
		nd.Assert(prefixes[kind] == prefix, "the messages of a kind have different prefixes")
		nd.Assert(r.Errors() == errors, "the number of errors isn't the number of messages that are errors")
	}
	for i := range prefixes {
		for j := 0; j < i; j++ {
			nd.Assert(prefixes[i] == "" || prefixes[i] != prefixes[j], "messages of different kinds have the same prefix")
		}
	}
	nd.Reach("history")
}

// The messages name the concepts with the identifiers that the user writes, starting with the one of the service.
func CheckNames() {
	word := camel("name")
	other := camel("other")
	// The name of the resource and of the type:
	v := &mb.Version{
		Name:      "v1",
		Types:     []*mb.Type{{Kind: mb.Class, Name: other, Attrs: []*mb.Attr{{Name: word, Ref: mb.P("String")}}}},
		Resources: []*mb.Resource{{Name: "Root"}},
		Errors:    []*mb.Error{{Name: word, Code: 1}},
	}
	resource := v.Resources[0]
	resource.Locators = []*mb.Locator{{Name: word, Target: "Root"}}
	resource.Methods = []*mb.Method{{Name: word, Params: []*mb.Param{{Name: other, Ref: mb.P("String"), In: true}}}}
	service := mb.One(v).Concepts().Services()[0]
	version := service.Versions()[0]
	root := version.Root()
	method := root.Methods()[0]
	var typ *concepts.Type
	for _, t := range version.Types() {
		if t.IsClass() {
			typ = t
		}
	}
	nd.Assert(typ != nil, "there is no class")
	var x interface{}
	var want string
	prefix := service.Name().Camel() + "."
	switch nd.Choose("concept", 11) {
	case 0:
		x, want = service, service.Name().Camel()
	case 1:
		x, want = version, prefix+"V1"
	case 2:
		x, want = root, prefix+"V1.Root"
	case 3:
		x, want = typ, other
	case 4:
		x, want = typ.Attributes()[0], prefix+"V1."+other+"."+word
	case 5:
		x, want = method, prefix+"V1.Root."+word
	case 6:
		x, want = root.Locators()[0], prefix+"V1.Root."+word
	case 7:
		x, want = method.Parameters()[0], prefix+"V1.Root."+word+"."+other
	case 8:
		x, want = version.Errors()[0], word
	case 9:
		x, want = typ.Attributes()[0].Name(), word
	default:
		x, want = names.ParseUsingCase(word), word
	}
	r, out, err := create()
	nd.Reach("named")
	before := nd.StringOf("before", 0, 2, "ab")
	switch nd.Choose("kind", 3) {
	case 0:
		r.Infof("%s '%s' %d", before, x, 7)
		nd.Assert(ends(out.String(), before+" '"+want+"' 7"), "the message doesn't name the concept")
	case 1:
		r.Warnf("%s '%s' %d", before, x, 7)
		nd.Assert(ends(out.String(), before+" '"+want+"' 7"), "the message doesn't name the concept")
	default:
		e := r.Errorf("%s '%s' %d", before, x, 7)
		nd.Assert(ends(err.String(), before+" '"+want+"' 7"), "the message doesn't name the concept")
		nd.Assert(equal(e.Error(), before+" '"+want+"' 7"), "the error doesn't name the concept")
	}
}
