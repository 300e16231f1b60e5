package p23

import (
	"bytes"
	"net/http"
	"net/url"
	"strconv"
	"time"

	"verifgen/api/errors"
	"verifgen/zzverif/jsonx"
	"verifgen/zzverif/nd"
)

type vals struct {
	i int
	s string
	d time.Time
	x interface{}
}

func values(name string) *vals {
	v := &vals{i: nd.Int(name + ".i"), s: nd.StringOf(name+".s", 0, 1, "a\" <\n"), d: time.Unix(1600000000, 0).UTC()}
	if nd.Bool(name + ".x") {
		v.x = map[string]interface{}{"a": v.s}
	} else {
		v.x = []interface{}{v.s, true}
	}
	return v
}

type attr struct {
	name string
	set  func(b *errors.ErrorBuilder, v *vals)
	has  func(e *errors.Error) bool
	same func(e *errors.Error, v *vals) bool
	zero func(e *errors.Error) bool
}

func text(name string, set func(*errors.ErrorBuilder, string) *errors.ErrorBuilder, get func(*errors.Error) string, get2 func(*errors.Error) (string, bool)) attr {
	return attr{name,
		func(b *errors.ErrorBuilder, v *vals) { set(b, name+v.s) },
		func(e *errors.Error) bool { _, ok := get2(e); return ok },
		func(e *errors.Error, v *vals) bool { x, _ := get2(e); return x == name+v.s && get(e) == name+v.s },
		func(e *errors.Error) bool { x, _ := get2(e); return x == "" && get(e) == "" },
	}
}

func details(x interface{}, v *vals) bool {
	switch y := v.x.(type) {
	case map[string]interface{}:
		z, ok := x.(map[string]interface{})
		return ok && len(z) == 1 && z["a"] == y["a"]
	case []interface{}:
		z, ok := x.([]interface{})
		return ok && len(z) == 2 && z[0] == y[0] && z[1] == y[1]
	}
	return false
}

var attrs = []attr{
	{"status",
		func(b *errors.ErrorBuilder, v *vals) { b.Status(v.i) },
		func(e *errors.Error) bool { _, ok := e.GetStatus(); return ok },
		func(e *errors.Error, v *vals) bool { x, _ := e.GetStatus(); return x == v.i && e.Status() == v.i },
		func(e *errors.Error) bool { x, _ := e.GetStatus(); return x == 0 && e.Status() == 0 },
	},
	text("id", (*errors.ErrorBuilder).ID, (*errors.Error).ID, (*errors.Error).GetID),
	text("href", (*errors.ErrorBuilder).HREF, (*errors.Error).HREF, (*errors.Error).GetHREF),
	text("code", (*errors.ErrorBuilder).Code, (*errors.Error).Code, (*errors.Error).GetCode),
	text("reason", (*errors.ErrorBuilder).Reason, (*errors.Error).Reason, (*errors.Error).GetReason),
	text("operation_id", (*errors.ErrorBuilder).OperationID, (*errors.Error).OperationID, (*errors.Error).GetOperationID),
	{"details",
		func(b *errors.ErrorBuilder, v *vals) { b.Details(v.x) },
		func(e *errors.Error) bool { _, ok := e.GetDetails(); return ok },
		func(e *errors.Error, v *vals) bool { x, _ := e.GetDetails(); return details(x, v) && details(e.Details(), v) },
		func(e *errors.Error) bool { x, _ := e.GetDetails(); return x == nil && e.Details() == nil },
	},
	{"timestamp",
		func(b *errors.ErrorBuilder, v *vals) { b.Timestamp(&v.d) },
		func(e *errors.Error) bool { _, ok := e.GetTimestamp(); return ok },
		func(e *errors.Error, v *vals) bool {
			x, _ := e.GetTimestamp()
			return x != nil && x.Equal(v.d) && e.Timestamp() != nil && e.Timestamp().Equal(v.d)
		},
		func(e *errors.Error) bool { x, _ := e.GetTimestamp(); return x == nil && e.Timestamp() == nil },
	},
}

func check(e *errors.Error, i int, v *vals, j int, u *vals) {
	for k, a := range attrs {
		switch k {
		case j:
			nd.Assert(a.has(e), "an attribute has been lost: "+a.name)
			nd.Assert(a.same(e, u), "an attribute has been changed: "+a.name)
		case i:
			nd.Assert(a.has(e), "an attribute has been lost: "+a.name)
			nd.Assert(a.same(e, v), "an attribute has been changed: "+a.name)
		default:
			nd.Assert(!a.has(e), "an attribute that wasn't set has a value: "+a.name)
			nd.Assert(a.zero(e), "an attribute that wasn't set doesn't return the zero value: "+a.name)
		}
	}
}

func build(b *errors.ErrorBuilder) *errors.Error {
	e, err := b.Build()
	nd.Assert(err == nil && e != nil, "can't build the error")
	return e
}

// Errors have exactly the attributes that were set, also when they are copied, written and read.
func CheckAttributes() {
	nd.Opaque(true)
	i, j := nd.Choose("first", len(attrs)), nd.Choose("second", len(attrs))
	v, u := values("v"), values("u")
	b := errors.NewError()
	attrs[i].set(b, v)
	attrs[j].set(b, u)
	e := build(b)
	nd.Assert(e.Kind() == errors.ErrorKind, "the kind is wrong")
	check(e, i, v, j, u)
	c := errors.NewError()
	attrs[nd.Choose("old", len(attrs))].set(c, u)
	c.Reason("old").Code("old").Copy(e).Copy(nil)
	check(build(c), i, v, j, u)
	c.Reason("new").Status(1)
	check(e, i, v, j, u)
	var buf bytes.Buffer
	nd.Assert(errors.MarshalError(e, &buf) == nil, "can't marshal the error")
	r, err := errors.UnmarshalError(buf.Bytes())
	nd.Reach("unmarshalled")
	nd.Assert(err == nil, "can't unmarshal the error")
	check(r, i, v, j, u)
	// The document contains exactly that:
	d := jsonx.Parse(buf.String())
	nd.Assert(d != nil && d.Unique(), "the document isn't valid")
	n := 2
	if i != j {
		n = 3
	}
	nd.Assert(len(d.Keys) == n && d.Get("kind").Text == "Error", "the document has other members")
	nd.Assert(d.Get(attrs[i].name) != nil && d.Get(attrs[j].name) != nil, "the document doesn't have the attributes")
}

// The status of the response replaces the one of the document.
func CheckStatus() {
	nd.Opaque(true)
	x := nd.Int("status")
	doc := `{"kind":"Error","reason":"x"}`
	if nd.Bool("has") {
		doc = `{"kind":"Error","status":12,"junk":[{"a":null}],"reason":"x"}`
	}
	e, err := errors.UnmarshalErrorStatus(doc, x)
	nd.Reach("unmarshalled")
	nd.Assert(err == nil, "can't unmarshal the error")
	s, ok := e.GetStatus()
	nd.Assert(ok && s == x && e.Status() == x && e.Reason() == "x", "the status is wrong")
}

// The text contains all the attributes that identify the error.
func CheckText() {
	s := nd.IntRange("status", 400, 402)
	t := nd.StringOf("t", 0, 1, "ab")
	d := time.Unix(1600000000, 0).UTC()
	b := errors.NewError()
	var chunks []string
	if nd.Bool("status") {
		b.Status(s)
		chunks = append(chunks, "status is "+strconv.Itoa(s))
	}
	if nd.Bool("id") {
		b.ID("i" + t)
		chunks = append(chunks, "identifier is 'i"+t+"'")
	}
	if nd.Bool("code") {
		b.Code("c" + t)
		chunks = append(chunks, "code is 'c"+t+"'")
	}
	switch nd.Choose("timestamp", 3) {
	case 1:
		b.Timestamp(&d)
		chunks = append(chunks, "at '2020-09-13T12:26:40Z'")
	case 2:
		b.Timestamp(&d).Timestamp(nil)
	}
	if nd.Bool("operation") {
		b.OperationID("o" + t)
		chunks = append(chunks, "operation identifier is 'o"+t+"'")
	}
	want := ""
	for i, c := range chunks {
		if i > 0 {
			if i == len(chunks)-1 {
				want += " and "
			} else {
				want += ", "
			}
		}
		want += c
	}
	if nd.Bool("reason") {
		b.Reason("r" + t)
		if want != "" {
			want += ": "
		}
		want += "r" + t
	}
	if nd.Bool("details") {
		b.Details(1).HREF("/x")
	}
	if want == "" {
		want = "unknown error"
	}
	e := build(b)
	var got, str string
	nd.Assert(!nd.Panics(func() { got = e.Error(); str = e.String() }), "the text can't be calculated")
	nd.Reach("text")
	nd.Assert(got == want && str == want, "the text is wrong")
}

// The accessors of a nil error report no values.
func CheckNil() {
	var e *errors.Error
	check(e, -1, nil, -1, nil)
	nd.Assert(e.Kind() == errors.ErrorNilKind, "the kind is wrong")
	nd.Reach("done")
}

type writer struct {
	header http.Header
	status int
	buf    bytes.Buffer
	before bool
}

func (w *writer) Header() http.Header { return w.header }
func (w *writer) WriteHeader(s int) {
	nd.Assert(w.status == 0 && w.buf.Len() == 0, "the status is sent twice or after the body")
	w.status = s
	w.before = w.header.Get("Content-Type") == "application/json"
}
func (w *writer) Write(p []byte) (int, error) { return w.buf.Write(p) }

// The errors sent to clients can be read back, and have the right status.
func CheckSend() {
	w := &writer{header: http.Header{}}
	p := "/" + nd.StringOf("path", 0, 2, "a/")
	m := nd.StringOf("method", 1, 1, "AB")
	r := &http.Request{Method: m, URL: &url.URL{Path: p}}
	status, reason := 0, ""
	switch nd.Choose("kind", 5) {
	case 0:
		status = nd.IntRange("status", 400, 402)
		errors.SendError(w, r, build(errors.NewError().ID(strconv.Itoa(status)).Reason(p)))
		reason = p
	case 1:
		errors.SendNotFound(w, r)
		status, reason = 404, "Can't find resource for path '"+p+"'"
	case 2:
		errors.SendMethodNotAllowed(w, r)
		status, reason = 405, "Method '"+m+"' isn't supported for path '"+p+"'"
	case 3:
		errors.SendInternalServerError(w, r)
		status = 500
	case 4:
		// Errors whose identifier isn't an status are sent as unexpected errors:
		errors.SendError(w, r, build(errors.NewError().ID("x"+m).Reason("secret")))
		e, err := errors.UnmarshalError(w.buf.Bytes())
		nd.Assert(err == nil && e.ID() == "1000" && e.Reason() != "secret", "the error is wrong")
		nd.Assert(w.header.Get("Content-Type") == "application/json", "the content type is wrong")
		nd.Reach("panic")
		return
	}
	nd.Assert(w.status == status && w.before, "the status or content type are wrong")
	e, err := errors.UnmarshalErrorStatus(w.buf.Bytes(), w.status)
	nd.Assert(err == nil && e.ID() == strconv.Itoa(status) && e.Status() == status, "the error can't be read")
	nd.Assert(reason == "" || e.Reason() == reason, "the reason is wrong")
	nd.Reach("sent")
}

// Incomplete and mistyped documents are reported.
func CheckInvalid() {
	docs := []string{`{`, `{"kind":"Error"`, `[]`, `{"status":"x"}`, `{"status":1.5}`, `{"id":1}`, `{"reason":{}}`, `{"code":true}`, `{"href":[]}`, `{"operation_id":1}`, `{"timestamp":"x"}`, `{"timestamp":1}`, `{"id":"x`, `{"details":{`, `1`, ``}
	i := nd.Choose("document", len(docs))
	var err error
	nd.Assert(!nd.Panics(func() { _, err = errors.UnmarshalError(docs[i]) }), "unmarshalling crashed")
	nd.Assert(err != nil, "an invalid document has been accepted")
	nd.Assert(!nd.Panics(func() { _, err = errors.UnmarshalErrorStatus(docs[i], 400) }), "unmarshalling crashed")
	nd.Assert(err != nil, "an invalid document has been accepted")
	nd.Reach("read")
}
