package p20

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"
	"time"

	clustersmgmt "verifgen/api/clustersmgmt"
	v1 "verifgen/api/clustersmgmt/v1"
	apierrors "verifgen/api/errors"
	mirror "verifgen/api/mirror"
	mirrorv1beta1 "verifgen/api/mirror/v1beta1"
	"verifgen/zzverif/cx"
	"verifgen/zzverif/gx"
	"verifgen/zzverif/nd"
)

const chars = "a\"\\\x01\xff"

func client(t *cx.Transport) *v1.Client { return clustersmgmt.NewClient(t, "/api/clusters_mgmt").V1() }

func flavour() *v1.Flavour {
	o, _ := v1.NewFlavour().Build()
	return o
}

func node() *v1.Node {
	o, _ := v1.NewNode().Build()
	return o
}

// outcome is what the caller of a method receives.
type outcome struct {
	present bool
	status  int
	header  http.Header
	failure *apierrors.Error
	err     error
	value   bool // there is a value in the response
}

var calls = []func(c *v1.Client) *outcome{
	func(c *v1.Client) *outcome {
		r, err := c.Clusters().List().Send()
		x, a := r.GetItems()
		_, b := r.GetPage()
		_, d := r.GetSize()
		_, e := r.GetTotal()
		nd.Assert(r.Items() == x, "the accessors are different")
		return &outcome{r != nil, r.Status(), r.Header(), r.Error(), err, a || b || d || e}
	},
	func(c *v1.Client) *outcome {
		o, _ := v1.NewCluster().Build()
		r, err := c.Clusters().Add().Body(o).Send()
		x, ok := r.GetBody()
		nd.Assert(r.Body() == x, "the accessors are different")
		return &outcome{r != nil, r.Status(), r.Header(), r.Error(), err, ok}
	},
	func(c *v1.Client) *outcome {
		r, err := c.Clusters().Cluster("1").Get().Send()
		x, ok := r.GetBody()
		nd.Assert(r.Body() == x, "the accessors are different")
		return &outcome{r != nil, r.Status(), r.Header(), r.Error(), err, ok}
	},
	func(c *v1.Client) *outcome {
		o, _ := v1.NewCluster().Build()
		r, err := c.Clusters().Cluster("1").Update().Body(o).Send()
		x, ok := r.GetBody()
		nd.Assert(r.Body() == x, "the accessors are different")
		return &outcome{r != nil, r.Status(), r.Header(), r.Error(), err, ok}
	},
	func(c *v1.Client) *outcome {
		r, err := c.Clusters().Cluster("1").Delete().Send()
		return &outcome{r != nil, r.Status(), r.Header(), r.Error(), err, false}
	},
	func(c *v1.Client) *outcome {
		r, err := c.Clusters().Cluster("1").Hibernate().Send()
		_, a := r.GetResult()
		_, b := r.GetNode()
		_, d := r.GetWhen()
		return &outcome{r != nil, r.Status(), r.Header(), r.Error(), err, a || b || d}
	},
	func(c *v1.Client) *outcome {
		r, err := c.Clusters().Cluster("1").Ping().Send()
		return &outcome{r != nil, r.Status(), r.Header(), r.Error(), err, false}
	},
	func(c *v1.Client) *outcome {
		r, err := c.CurrentFlavour().Post().Request(flavour()).Send()
		x, ok := r.GetResponse()
		nd.Assert(r.Response() == x, "the accessors are different")
		return &outcome{r != nil, r.Status(), r.Header(), r.Error(), err, ok}
	},
	func(c *v1.Client) *outcome {
		r, err := c.Specials().Search().Body(node()).Send()
		_, ok := r.GetItems()
		return &outcome{r != nil, r.Status(), r.Header(), r.Error(), err, ok}
	},
	func(c *v1.Client) *outcome {
		r, err := c.Get().Send()
		return &outcome{r != nil, r.Status(), r.Header(), r.Error(), err, r != nil && r.Body() != nil}
	},
	func(c *v1.Client) *outcome {
		o, _ := v1.NewCluster().Build()
		r, err := c.Clusters().Cluster("1").AsyncUpdate().Body(o).Send()
		x, ok := r.GetBody()
		nd.Assert(r.Body() == x, "the accessors are different")
		return &outcome{r != nil, r.Status(), r.Header(), r.Error(), err, ok}
	},
	func(c *v1.Client) *outcome {
		r, err := c.Clusters().Cluster("1").AsyncDelete().Send()
		return &outcome{r != nil, r.Status(), r.Header(), r.Error(), err, false}
	},
	func(c *v1.Client) *outcome {
		r, err := c.Clusters().Cluster("1").Configure().Send()
		value := false
		for _, p := range cx.Params {
			if p.Has(r) {
				value = true
			}
			nd.Assert(p.Has(r) || p.Zero(r), "a result that isn't there isn't zero")
		}
		return &outcome{r != nil, r.Status(), r.Header(), r.Error(), err, value}
	},
	func(c *v1.Client) *outcome {
		r, err := c.Names().List().Send()
		_, ok := r.GetItems()
		return &outcome{r != nil, r.Status(), r.Header(), r.Error(), err, ok}
	},
	func(c *v1.Client) *outcome {
		r, err := c.Names().Search().Body(flavour()).Send()
		_, ok := r.GetItems()
		_, b := r.GetComplete()
		return &outcome{r != nil, r.Status(), r.Header(), r.Error(), err, ok || b}
	},
	func(c *v1.Client) *outcome {
		r, err := c.Names().Post().Send()
		_, ok := r.GetResponse()
		return &outcome{r != nil, r.Status(), r.Header(), r.Error(), err, ok}
	},
	func(c *v1.Client) *outcome {
		r, err := c.Marks().List().Send()
		_, ok := r.GetItems()
		_, b := r.GetTime()
		return &outcome{r != nil, r.Status(), r.Header(), r.Error(), err, ok || b}
	},
}

// Only the first of these calls is for a list, the fifth and seventh don't have results.
func results(k int) bool { return k != 4 && k != 6 && k != 11 }

func call(t *cx.Transport, k int) *outcome {
	var o *outcome
	nd.Assert(!nd.Panics(func() { o = calls[k](client(t)) }), "processing the response crashed")
	nd.Assert(len(t.Requests) == 1, "the number of requests is wrong")
	return o
}

// Responses with a status of 400 or more that have a body are always reported as an error that contains
// that status, and the other ones are never reported as errors.
func CheckStatus() {
	k := nd.Choose("method", len(calls))
	status := nd.IntRange("status", 100, 999)
	id := nd.StringOf("id", 1, 1, "a1")
	other := nd.Bool("other")
	t := &cx.Transport{}
	body := `{"kind":"Error","id":"` + id + `","code":"C-1","reason":"why"`
	if other {
		body += `,"status":7`
	}
	body += `}`
	if k == 0 || k == 8 {
		body = `{"id":"` + id + `","reason":"why","code":"C-1"}`
	}
	t.Respond = func(n int, r *cx.Request) (*http.Response, error) { return t.Response(status, body), nil }
	o := call(t, k)
	nd.Reach("received")
	nd.Assert(o.present && o.status == status, "the status of the response is wrong")
	nd.Assert(o.header.Get("Content-Type") == "application/json", "the header of the response is wrong")
	nd.Assert(t.Closed == 1, "the body hasn't been closed")
	if status >= 400 {
		nd.Assert(o.err != nil, "an error response isn't reported as an error")
		e, ok := o.err.(*apierrors.Error)
		nd.Assert(ok && e == o.failure, "the error isn't the one of the response")
		x, ok := e.GetStatus()
		nd.Assert(ok && x == status, "the status of the error isn't the one of the response")
		nd.Assert(e.ID() == id && e.Code() == "C-1" && e.Reason() == "why", "the content of the error is wrong")
		nd.Assert(!o.value, "an error response has values")
	} else {
		nd.Assert(o.err == nil && o.failure == nil, "a successful response is reported as an error")
	}
}

// Responses without body aren't errors, and don't have values.
func CheckEmpty() {
	k := nd.Choose("method", len(calls))
	status := nd.IntRange("status", 100, 399)
	t := &cx.Transport{}
	where := nd.StringOf("where", 0, 2, "a/")
	t.Respond = func(n int, r *cx.Request) (*http.Response, error) {
		response := t.Response(status, "")
		response.Header["Location"] = []string{where, "other"}
		return response, nil
	}
	o := call(t, k)
	nd.Reach("received")
	at := o.header["Location"]
	nd.Assert(len(at) == 2 && at[0] == where && at[1] == "other", "the header of the response is wrong")
	nd.Assert(o.present && o.status == status && o.err == nil && o.failure == nil && !o.value, "the response is wrong")
	nd.Assert(t.Closed == 1, "the body hasn't been closed")
}

var errFailed = errors.New("failed")

// Errors of the transport are returned as they are.
func CheckTransport() {
	k := nd.Choose("method", len(calls))
	t := &cx.Transport{}
	t.Respond = func(n int, r *cx.Request) (*http.Response, error) { return nil, errFailed }
	o := call(t, k)
	nd.Reach("received")
	nd.Assert(!o.present && o.err == errFailed, "the error of the transport isn't returned")
}

// reader gives the data in pieces, and then fails.
type reader struct {
	data string
	step int
	err  error
}

func (r *reader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, r.err
	}
	n := r.step
	if n > len(r.data) {
		n = len(r.data)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	return n, nil
}

// failures are the ways in which the body of a response ends; only the first one is correct.
var failures = []error{io.EOF, errFailed, io.ErrUnexpectedEOF, io.ErrClosedPipe, fmt.Errorf("reading: %w", io.EOF)}

const document = `{"kind":"Cluster","id":"12","name":"a","replicas":34,"tags":["x","y"]}`

// Responses that are interrupted are reported as errors, at any point. Responses that arrive in pieces are
// the same as responses that arrive complete.
func CheckInterrupted() {
	status := []int{200, 404}[nd.Choose("status", 2)]
	n := nd.Choose("length", len(document)+1)
	step := []int{1, 3, 1000}[nd.Choose("step", 3)]
	k := nd.Choose("failure", len(failures))
	fail := k > 0
	t := &cx.Transport{}
	err := failures[k]
	t.Respond = func(_ int, r *cx.Request) (*http.Response, error) {
		return t.Stream(status, &reader{document[:n], step, err}), nil
	}
	var r *v1.ClusterGetResponse
	var got error
	nd.Assert(!nd.Panics(func() { r, got = client(t).Clusters().Cluster("1").Get().Send() }), "processing the response crashed")
	nd.Reach("received")
	nd.Assert(t.Closed == 1, "the body hasn't been closed")
	switch {
	case n == len(document) && status == 200:
		nd.Assert(got == nil && r.Body().ID() == "12" && r.Body().Replicas() == 34 && len(r.Body().Tags()) == 2, "a complete response is wrong")
	case n == 0 && !fail:
		nd.Assert(got == nil && r.Body() == nil, "an empty response is wrong")
	default:
		nd.Assert(got != nil, "an incomplete response has been accepted")
	}
	if n == len(document) && status != 200 {
		e, ok := got.(*apierrors.Error)
		nd.Assert(ok && e.Status() == 404 && e.ID() == "12", "the error is wrong")
	}
}

// Responses that are interrupted before the end of the document are reported as errors by all the methods.
func CheckInterruptedMethods() {
	k := nd.Choose("method", len(calls))
	status := nd.IntRange("status", 100, 999)
	n := nd.Choose("length", 4)
	err := failures[1+nd.Choose("failure", len(failures)-1)]
	t := &cx.Transport{}
	t.Respond = func(_ int, r *cx.Request) (*http.Response, error) {
		return t.Stream(status, &reader{`{"kind":"Error"}`[:n], 1, err}), nil
	}
	o := call(t, k)
	nd.Reach("received")
	nd.Assert(t.Closed == 1, "the body hasn't been closed")
	if results(k) || status >= 400 || n == 0 {
		nd.Assert(o.err != nil, "an interrupted response has been accepted")
	}
}

// The values of list responses are exactly the ones of the document, in any order.
func CheckList() {
	nd.Opaque(true)
	ns := []int{nd.Int("page"), nd.Int("size"), nd.Int("total")}
	in := []bool{nd.Bool("page"), nd.Bool("size"), nd.Bool("total")}
	items := nd.Choose("items", 4)
	turn := nd.Choose("turn", 4)
	unknown := nd.Choose("unknown", 3)
	var ms []string
	for i, n := range []string{"page", "size", "total"} {
		if in[i] {
			ms = append(ms, `"`+n+`":`+strconv.Itoa(ns[i]))
		}
	}
	if items > 0 {
		ms = append(ms, `"items":`+[]string{`[]`, `[{"id":"a"}]`, `[{"id":"a","page":9},{"id":"b"}]`}[items-1])
	}
	switch unknown {
	case 1:
		ms = append(ms, `"kind":"ClusterList"`)
	case 2:
		ms = append(ms, `"other":{"page":5,"items":[1]}`)
	}
	text := ""
	for i := range ms {
		if i > 0 {
			text += ","
		}
		text += ms[(i+turn)%len(ms)]
	}
	t := &cx.Transport{}
	t.Respond = func(n int, r *cx.Request) (*http.Response, error) { return t.Response(200, "{"+text+"}"), nil }
	r, err := client(t).Clusters().List().Send()
	nd.Assert(err == nil, "the request failed")
	nd.Reach("received")
	a, oka := r.GetPage()
	b, okb := r.GetSize()
	c, okc := r.GetTotal()
	check := func(name string, i int, v int, w int, ok bool) {
		nd.Assert(nd.Iff(ok, in[i]), "the presence of a value is wrong: "+name)
		if ok {
			nd.Assert(v == ns[i] && w == ns[i], "a value is wrong: "+name)
		} else {
			nd.Assert(v == 0 && w == 0, "a value that isn't there isn't zero: "+name)
		}
	}
	check("page", 0, a, r.Page(), oka)
	check("size", 1, b, r.Size(), okb)
	check("total", 2, c, r.Total(), okc)
	l, ok := r.GetItems()
	nd.Assert(ok == (items > 0) && (l != nil) == ok, "the presence of the items is wrong")
	if items > 0 {
		nd.Assert(l.Len() == items-1 && r.Items().Len() == items-1, "the number of items is wrong")
		for i := 0; i < items-1; i++ {
			nd.Assert(l.Get(i).ID() == []string{"a", "b"}[i], "the items are wrong")
		}
	}
}

// The values of the responses of actions are exactly the ones of the document.
func CheckAction() {
	nd.Opaque(true)
	result, node, when := nd.Bool("result"), nd.Bool("node"), nd.Bool("when")
	n := nd.Int("n")
	text := `"kind":"x"`
	if when {
		text += `,"when":"2020-09-13T12:26:40Z"`
	}
	if node {
		text = `"node":{"cpus":` + strconv.Itoa(n) + `},` + text
	}
	if result {
		text += `,"result":"r"`
	}
	t := &cx.Transport{}
	t.Respond = func(_ int, r *cx.Request) (*http.Response, error) { return t.Response(200, "{"+text+"}"), nil }
	r, err := client(t).Clusters().Cluster("1").Hibernate().Send()
	nd.Assert(err == nil, "the request failed")
	nd.Reach("received")
	a, oka := r.GetResult()
	b, okb := r.GetNode()
	c, okc := r.GetWhen()
	nd.Assert(oka == result && okb == node && okc == when, "the presence of the values is wrong")
	nd.Assert(a == r.Result() && b == r.Node() && c.Equal(r.When()), "the accessors are different")
	nd.Assert(result && a == "r" || !result && a == "", "the value is wrong: result")
	nd.Assert(!node && b == nil || node && b.Cpus() == n, "the value is wrong: node")
	nd.Assert(when && c.Equal(time.Unix(1600000000, 0)) || !when && c.IsZero(), "the value is wrong: when")
}

// The bodies of responses are the objects of the documents.
func CheckBodies() {
	nd.Opaque(true)
	k := nd.Choose("method", 5)
	n := nd.Int("n")
	s := strconv.Itoa(n)
	doc := []string{`{"replicas":` + s + `}`, `{"replicas":` + s + `}`, `{"replicas":` + s + `}`, `{"cpus":` + s + `}`, `[{"name":"a"},{"cpus":` + s + `}]`}[k]
	t := &cx.Transport{}
	t.Respond = func(_ int, r *cx.Request) (*http.Response, error) { return t.Response(201, doc), nil }
	c := client(t)
	body, _ := v1.NewCluster().Build()
	got := 0
	var err error
	switch k {
	case 0:
		var r *v1.ClustersAddResponse
		r, err = c.Clusters().Add().Body(body).Send()
		got = r.Body().Replicas()
	case 1:
		var r *v1.ClusterGetResponse
		r, err = c.Clusters().Cluster("x").Get().Send()
		got = r.Body().Replicas()
	case 2:
		var r *v1.ClusterUpdateResponse
		r, err = c.Clusters().Cluster("x").Update().Body(body).Send()
		got = r.Body().Replicas()
	case 3:
		var r *v1.FlavourPostResponse
		r, err = c.CurrentFlavour().Post().Request(flavour()).Send()
		got = r.Response().Cpus()
	case 4:
		var r *v1.SpecialsUpdateResponse
		r, err = c.Specials().Update().Send()
		nd.Assert(len(r.Body()) == 2 && r.Body()[0].Name() == "a", "the list is wrong")
		got = r.Body()[1].Cpus()
	}
	nd.Reach("received")
	nd.Assert(err == nil && got == n, "the body of the response is wrong")
}

// The metadata of the version is the one of the document.
func CheckMetadata() {
	s := nd.StringOf("s", 0, 1, "ab.")
	has := nd.Bool("has")
	doc := `{"kind":"x"`
	if has {
		doc += `,"server_version":"` + s + `"`
	}
	t := &cx.Transport{}
	t.Respond = func(_ int, r *cx.Request) (*http.Response, error) { return t.Response(200, doc+"}"), nil }
	r, err := client(t).Get().Send()
	nd.Assert(err == nil, "the request failed")
	nd.Reach("received")
	v, ok := r.Body().GetServerVersion()
	nd.Assert(ok == has && v == r.Body().ServerVersion(), "the presence of the version is wrong")
	nd.Assert(has && v == s || !has && v == "", "the version is wrong")
}

// Responses with values of other types are reported.
func CheckMistyped() {
	docs := []string{`{"page":"x"}`, `{"items":{}}`, `{"total":[1]}`, `{"size":true}`, `{"items":[1]}`, `[]`, `"x"`}
	k := nd.Choose("doc", len(docs))
	t := &cx.Transport{}
	t.Respond = func(_ int, r *cx.Request) (*http.Response, error) { return t.Response(200, docs[k]), nil }
	var err error
	nd.Assert(!nd.Panics(func() { _, err = client(t).Clusters().List().Send() }), "processing the response crashed")
	nd.Reach("received")
	nd.Assert(err != nil, "a response with values of other types has been accepted")
}

// The results of actions, of all the kinds, are exactly the ones of the document.
func CheckActionKinds() {
	nd.Opaque(true)
	i, j := nd.Choose("first", len(cx.Params)), nd.Choose("second", len(cx.Params)+1)
	d, e := cx.NewData("d"), cx.NewData("e")
	text := `"` + cx.Params[i].Name + `":` + cx.Params[i].Text(d)
	if j < len(cx.Params) && j != i {
		text = `"unknown":{"` + cx.Params[j].Name + `":1},"` + cx.Params[j].Name + `": ` + cx.Params[j].Text(e) + `,` + text
	}
	t := &cx.Transport{}
	t.Respond = func(_ int, r *cx.Request) (*http.Response, error) { return t.Response(200, "{"+text+"}"), nil }
	r, err := client(t).Clusters().Cluster("1").Configure().Send()
	nd.Assert(err == nil, "the request failed")
	nd.Reach("received")
	for k, p := range cx.Params {
		switch k {
		case i:
			nd.Assert(p.Has(r), "a result has been lost: "+p.Name)
			nd.Assert(p.Same(r, d), "a result is wrong: "+p.Name)
		case j:
			nd.Assert(p.Has(r), "a result has been lost: "+p.Name)
			nd.Assert(p.Same(r, e), "a result is wrong: "+p.Name)
		default:
			nd.Assert(!p.Has(r), "there is a result that isn't in the document: "+p.Name)
			nd.Assert(p.Zero(r), "a result that isn't in the document isn't zero: "+p.Name)
		}
	}
}

// Lists with additional results, or whose items aren't objects.
func CheckOtherLists() {
	nd.Opaque(true)
	k := nd.Choose("method", 3)
	n, b, l := nd.Int("n"), nd.Bool("b"), nd.Int64("l")
	in := [8]bool{}
	for i := range in {
		in[i] = nd.Bool("in")
		if k == 1 && i > 0 || k == 2 && i > 3 {
			nd.Assume(!in[i])
		}
	}
	items := [][]string{
		{`[]`, `[{"type":"a"},{"func":3,"marks":[{"type":"x"}]}]`},
		{`[]`, `["a","b"]`},
		{`[]`, `["NOT-ready","ready"]`},
	}[k]
	two := nd.Bool("two")
	flag := "false"
	if b {
		flag = "true"
	}
	text := `"kind":"x"`
	add := func(i int, m string) {
		if in[i] {
			text += "," + m
		}
	}
	item := items[0]
	if two {
		item = items[1]
	}
	add(0, `"`+[]string{"items", "elements", "Found-Items"}[k]+`":`+item)
	if k > 0 {
		text += `,"items":[{"id":1}]`
	}
	add(1, `"page":`+strconv.Itoa(n))
	add(2, `"complete":`+flag)
	if k == 2 {
		add(3, `"size":`+strconv.Itoa(n))
	} else {
		add(3, `"time":"2020-09-13T12:26:40Z"`)
	}
	add(4, `"mode":"unknown"`)
	add(5, `"average":-2.5`)
	add(6, `"position":`+strconv.FormatInt(l, 10))
	add(7, `"token":"t"`)
	t := &cx.Transport{}
	t.Respond = func(_ int, r *cx.Request) (*http.Response, error) { return t.Response(200, "{"+text+"}"), nil }
	c := client(t)
	check := func(i int, ok bool, same bool, name string) {
		nd.Assert(ok == in[i], "the presence of a result is wrong: "+name)
		nd.Assert(same, "a result is wrong: "+name)
	}
	number := func(i int) int {
		if in[i] {
			return n
		}
		return 0
	}
	switch k {
	case 0:
		r, err := c.Marks().List().Send()
		nd.Assert(err == nil, "the request failed")
		x, ok := r.GetItems()
		check(0, ok, (x != nil) == ok && x == r.Items() && (x.Len() == 2) == (ok && two), "items")
		if ok && two {
			y, has := x.Get(1).GetFunc()
			_, other := x.Get(0).GetFunc()
			nd.Assert(x.Get(0).Type() == "a" && has && !other && y == 3 && len(x.Get(1).Marks()) == 1 && x.Get(1).Marks()[0].Type() == "x", "the items are wrong")
		}
		p, ok := r.GetPage()
		check(1, ok, p == number(1) && r.Page() == p, "page")
		q, ok := r.GetComplete()
		check(2, ok, nd.Iff(q, in[2] && b) && nd.Iff(q, r.Complete()), "complete")
		d, ok := r.GetTime()
		check(3, ok, d.Equal(r.Time()) && (!ok && d.IsZero() || ok && d.Equal(time.Unix(1600000000, 0))), "time")
		m, ok := r.GetMode()
		check(4, ok, m == r.Mode() && (ok && m == v1.StateUnknown || !ok && m == ""), "mode")
		f, ok := r.GetAverage()
		check(5, ok, f == r.Average() && (ok && f == -2.5 || !ok && f == 0), "average")
		g, ok := r.GetPosition()
		check(6, ok, g == r.Position() && (ok && g == l || !ok && g == 0), "position")
		s, ok := r.GetToken()
		check(7, ok, s == r.Token() && (ok && s == "t" || !ok && s == ""), "token")
	case 1:
		r, err := c.Names().List().Send()
		nd.Assert(err == nil, "the request failed")
		x, ok := r.GetItems()
		check(0, ok, (x != nil) == ok && len(x) == len(r.Items()) && (len(x) == 2) == (ok && two), "items")
		if ok && two {
			nd.Assert(x[0] == "a" && x[1] == "b" && r.Items()[1] == "b", "the items are wrong")
		}
	case 2:
		r, err := c.Names().Search().Body(flavour()).Send()
		nd.Assert(err == nil, "the request failed")
		x, ok := r.GetItems()
		check(0, ok, (x != nil) == ok && len(x) == len(r.Items()) && (len(x) == 2) == (ok && two), "items")
		if ok && two {
			nd.Assert(x[0] == v1.StateNotReady && x[1] == v1.StateReady, "the items are wrong")
		}
		p, ok := r.GetPage()
		check(1, ok, p == number(1) && r.Page() == p, "page")
		q, ok := r.GetComplete()
		check(2, ok, nd.Iff(q, in[2] && b) && nd.Iff(q, r.Complete()), "complete")
		z, ok := r.GetSize()
		check(3, ok, z == number(3) && r.Size() == z, "size")
	}
	nd.Reach("received")
}

// Large responses are received completely, however they are divided.
func CheckLarge() {
	n := []int{20, 60, nd.Bound("items", 150, 400)}[nd.Choose("count", 3)]
	step := []int{1, 511, 1000, 4096, 1 << 20}[nd.Choose("step", 5)]
	s := nd.StringOf("s", 1, 1, "ab0")
	items := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			items += ","
		}
		items += `{"kind":"Cluster","id":"` + strconv.Itoa(i) + s + `","name":"cluster-` + strconv.Itoa(i) + `","tags":["x","` + s + `"]}`
	}
	doc := `{"kind":"ClusterList","page":1,"items":[` + items + `],"size":` + strconv.Itoa(n) + `,"total":` + strconv.Itoa(n+1) + `}`
	reason := strings.Repeat("r", n*50) + s
	t := &cx.Transport{}
	failed := nd.Bool("failed")
	ending := failures[nd.Choose("ending", 2)]
	t.Respond = func(_ int, r *cx.Request) (*http.Response, error) {
		if failed {
			return t.Stream(500, &reader{`{"kind":"Error","reason":"` + reason + `","id":"7"}`, step, ending}), nil
		}
		return t.Stream(200, &reader{doc, step, ending}), nil
	}
	r, err := client(t).Clusters().List().Send()
	nd.Reach("received")
	nd.Assert(t.Closed == 1, "the body hasn't been closed")
	if failed {
		e, ok := err.(*apierrors.Error)
		nd.Assert(ok && e == r.Error() && e.Reason() == reason && e.ID() == "7" && e.Status() == 500, "the error is wrong")
		return
	}
	nd.Assert(err == nil && r.Page() == 1 && r.Size() == n && r.Total() == n+1 && r.Items().Len() == n, "the response is wrong")
	for i, x := range r.Items().Slice() {
		nd.Assert(x.ID() == strconv.Itoa(i)+s && x.Name() == "cluster-"+strconv.Itoa(i) && len(x.Tags()) == 2 && x.Tags()[1] == s, "an item is wrong")
	}
}

// The clients of the classes that refer to other services return exactly what the response contains.
func CheckReference() {
	nd.Opaque(true)
	i := nd.Choose("attribute", len(gx.MachineAttrs))
	s, n := "a\"", nd.Int("n")
	b := mirrorv1beta1.NewMachine()
	gx.MachineAttrs[i].Set(b, s, n)
	o, _ := b.Build()
	var doc bytes.Buffer
	nd.Assert(mirrorv1beta1.MarshalMachine(o, &doc) == nil, "can't marshal the object")
	list := nd.Bool("list")
	t := &cx.Transport{}
	t.Respond = func(_ int, r *cx.Request) (*http.Response, error) {
		if list {
			return t.Response(200, `{"kind":"MachineList","total":2,"items":[{"kind":"Machine"},`+doc.String()+`]}`), nil
		}
		return t.Response(201, doc.String()), nil
	}
	c := mirror.NewClient(t, "/api/mirror").V1beta1()
	var got *mirrorv1beta1.Machine
	if list {
		r, err := c.Machines().List().Send()
		nd.Assert(err == nil, "the request failed")
		nd.Assert(r.Status() == 200 && r.Items().Len() == 2 && r.Items().Get(0).Empty() && r.Total() == 2, "the list is wrong")
		_, page := r.GetPage()
		nd.Assert(!page, "a value has been invented")
		got = r.Items().Get(1)
	} else {
		r, err := c.Machines().Add().Body(o).Send()
		nd.Assert(err == nil && r.Status() == 201, "the request failed")
		got = r.Body()
	}
	nd.Reach("received reference")
	gx.CheckMachine(nd.Assert, got, i, s, n, i, s, n)
}

// The same for responses that have very long texts, longer than the usual limits.
func CheckLongTexts() {
	size := []int{65535, 65536, 140000}[nd.Choose("size", 3)]
	step := []int{4096, 1 << 20}[nd.Choose("step", 2)]
	failed := nd.Bool("failed")
	s := nd.StringOf("s", 1, 1, "ab0")
	long := strings.Repeat("x", size) + s
	t := &cx.Transport{}
	t.Respond = func(_ int, r *cx.Request) (*http.Response, error) {
		if failed {
			return t.Stream(500, &reader{`{"kind":"Error","reason":"` + long + `","id":"7"}`, step, failures[0]}), nil
		}
		return t.Stream(200, &reader{`{"kind":"Cluster","name":"` + long + `","id":"7"}`, step, failures[0]}), nil
	}
	r, err := client(t).Clusters().Cluster("1").Get().Send()
	nd.Reach("received")
	if failed {
		e, ok := err.(*apierrors.Error)
		nd.Assert(ok && e == r.Error() && e.Reason() == long && e.ID() == "7", "the error is wrong")
		return
	}
	nd.Assert(err == nil && r.Body().Name() == long && r.Body().ID() == "7", "the response is wrong")
}
