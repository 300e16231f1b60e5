package p19

import (
	"bytes"
	"context"
	"strconv"
	"time"

	clustersmgmt "verifgen/api/clustersmgmt"
	v1 "verifgen/api/clustersmgmt/v1"
	mirror "verifgen/api/mirror"
	mirrorv1beta1 "verifgen/api/mirror/v1beta1"
	servicelogs "verifgen/api/servicelogs"
	"verifgen/zzverif/cx"
	"verifgen/zzverif/gx"
	"verifgen/zzverif/jsonx"
	"verifgen/zzverif/nd"
)

const chars = "a&=%+ /\"\xff"

func client(t *cx.Transport) *v1.Client { return clustersmgmt.NewClient(t, "/api/clusters_mgmt").V1() }

type param struct {
	name string
	set  func(r *v1.ClustersListRequest) func(string) bool // checks the text
}

func text(s string) func(string) bool { return func(x string) bool { return x == s } }

var params = []param{
	{"max_score", func(r *v1.ClustersListRequest) func(string) bool { r.MaxScore(2.5); return text("2.5") }},
	{"only-ready", func(r *v1.ClustersListRequest) func(string) bool {
		v := nd.Bool("ready")
		r.OnlyReady(v)
		if v {
			return text("true")
		}
		return text("false")
	}},
	{"order", func(r *v1.ClustersListRequest) func(string) bool {
		s := nd.StringOf("order", 0, 1, chars)
		r.Order(s)
		return text(s)
	}},
	{"page", func(r *v1.ClustersListRequest) func(string) bool {
		n := nd.Int("page")
		r.Page(n)
		return func(x string) bool { return number(x, n) }
	}},
	{"search", func(r *v1.ClustersListRequest) func(string) bool {
		s := nd.StringOf("search", 1, 1, chars)
		r.Search(s)
		return text(s)
	}},
	{"since", func(r *v1.ClustersListRequest) func(string) bool {
		r.Since(time.Unix(1600000000, 5).In(time.FixedZone("x", 3600)))
		return text("2020-09-13T12:26:40Z")
	}},
	{"size", func(r *v1.ClustersListRequest) func(string) bool {
		n := nd.Int("size")
		r.Size(n)
		return func(x string) bool { return number(x, n) }
	}},
	{"uptime", func(r *v1.ClustersListRequest) func(string) bool {
		n := nd.Int64("uptime")
		r.Uptime(n)
		return func(x string) bool {
			v, err := strconv.ParseInt(x, 10, 64)
			return err == nil && v == n
		}
	}},
}

func same(a []string, b ...string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// number tells if the text is the decimal representation of the number.
func number(text string, n int) bool {
	v, err := strconv.Atoi(text)
	return err == nil && v == n
}

// The query contains exactly the parameters that were set, with the last value, and sending the request
// again sends the same.
func CheckQuery() {
	nd.Opaque(true)
	i, j := nd.Choose("first", len(params)), nd.Choose("second", len(params))
	t := &cx.Transport{}
	r := client(t).Clusters().List()
	x := params[i].set(r)
	y := params[j].set(r)
	_, err := r.Send()
	nd.Assert(err == nil, "the request failed")
	_, err = r.Send()
	nd.Assert(err == nil, "the request failed")
	nd.Assert(len(t.Requests) == 2, "the number of requests is wrong")
	nd.Reach("sent")
	for _, q := range t.Requests {
		nd.Assert(q.Method == "GET" && q.Path == "/api/clusters_mgmt/v1/clusters" && !q.HasBody, "the method, path or body are wrong")
		n := 2
		if i == j {
			n = 1
		} else {
			nd.Assert(len(q.Query[params[i].name]) == 1 && x(q.Query[params[i].name][0]), "the value of a parameter is wrong: "+params[i].name)
		}
		nd.Assert(len(q.Query[params[j].name]) == 1 && y(q.Query[params[j].name][0]), "the value of a parameter is wrong: "+params[j].name)
		nd.Assert(len(q.Query) == n, "there are other parameters")
	}
	nd.Assert(t.Closed == 2, "a response hasn't been closed")
}

// Additional parameters and headers are added to the ones of the method, only to that request, and all
// their values are sent.
func CheckAdditional() {
	nd.Opaque(true)
	s := nd.StringOf("value", 1, 1, chars)
	n := nd.Int("n")
	h := nd.StringOf("header", 1, 1, "ab c")
	user := nd.StringOf("user", 1, 1, "ab")
	t := &cx.Transport{}
	c := client(t).Clusters()
	r := c.List().Page(n).Parameter("extra", s).Parameter("extra", true).Parameter("page", "again").Header("X-My", h).Header("X-My", 5).Impersonate(user)
	again := nd.Bool("again")
	_, err := r.Send()
	nd.Assert(err == nil, "the request failed")
	if again {
		r.Parameter("late", "x").Header("X-Late", "y")
		_, err = r.Send()
		nd.Assert(err == nil, "the request failed")
	}
	_, err = c.List().Send()
	nd.Assert(err == nil, "the request failed")
	nd.Reach("sent")
	q := t.Requests[0]
	nd.Assert(len(q.Query) == 2, "the query has other parameters")
	nd.Assert(same(q.Query["extra"], s, "true"), "the additional parameters are wrong")
	nd.Assert(len(q.Query["page"]) == 2 && q.Query["page"][0] == "again" && number(q.Query["page"][1], n), "the additional value is wrong")
	nd.Assert(len(q.Header) == 2, "there are other headers")
	nd.Assert(same(q.Header["X-My"], h, "5"), "the header is wrong")
	nd.Assert(same(q.Header["Impersonate-User"], user), "the impersonation header is wrong")
	if again {
		q = t.Requests[1]
		nd.Assert(len(q.Query) == 3 && same(q.Query["late"], "x") && same(q.Query["extra"], s, "true"), "the second query is wrong")
		nd.Assert(len(q.Query["page"]) == 2, "the second query is wrong")
		nd.Assert(len(q.Header) == 3 && same(q.Header["X-Late"], "y") && same(q.Header["X-My"], h, "5"), "the second headers are wrong")
	}
	q = t.Requests[len(t.Requests)-1]
	nd.Assert(len(q.Query) == 0 && len(q.Header) == 0, "the parameters of a request have been sent in another one")
}

type sent struct {
	method, path string
	body         bool
	send         func(c *v1.Client, id string) error
}

func doc(id string) *v1.Cluster {
	o, _ := v1.NewCluster().Name(id).Build()
	return o
}

var calls = []sent{
	{"GET", "", false, func(c *v1.Client, id string) error { _, err := c.Get().Send(); return err }},
	{"GET", "/clusters", false, func(c *v1.Client, id string) error { _, err := c.Clusters().List().Send(); return err }},
	{"POST", "/clusters", true, func(c *v1.Client, id string) error { _, err := c.Clusters().Add().Body(doc(id)).Send(); return err }},
	{"GET", "/clusters/$", false, func(c *v1.Client, id string) error { _, err := c.Clusters().Cluster(id).Get().Send(); return err }},
	{"PATCH", "/clusters/$", true, func(c *v1.Client, id string) error {
		_, err := c.Clusters().Cluster(id).Update().Body(doc(id)).Send()
		return err
	}},
	{"DELETE", "/clusters/$", false, func(c *v1.Client, id string) error { _, err := c.Clusters().Cluster(id).Delete().Send(); return err }},
	{"POST", "/clusters/$/hibernate", true, func(c *v1.Client, id string) error {
		_, err := c.Clusters().Cluster(id).Hibernate().Reason(id).Send()
		return err
	}},
	{"POST", "/clusters/$/ping", false, func(c *v1.Client, id string) error { _, err := c.Clusters().Cluster(id).Ping().Send(); return err }},
	{"GET", "/clusters/$/flavour", false, func(c *v1.Client, id string) error {
		_, err := c.Clusters().Cluster(id).Flavour().Get().Send()
		return err
	}},
	{"GET", "/current_flavour", false, func(c *v1.Client, id string) error { _, err := c.CurrentFlavour().Get().Send(); return err }},
	{"POST", "/current_flavour", true, func(c *v1.Client, id string) error {
		f, _ := v1.NewFlavour().Name(id).Build()
		_, err := c.CurrentFlavour().Post().Request(f).Send()
		return err
	}},
	{"POST", "/special-things", true, func(c *v1.Client, id string) error {
		f, _ := v1.NewNode().Name(id).Build()
		_, err := c.Specials().Search().Body(f).Send()
		return err
	}},
	{"PATCH", "/clusters/$", true, func(c *v1.Client, id string) error {
		_, err := c.Clusters().Cluster(id).AsyncUpdate().Body(doc(id)).Send()
		return err
	}},
	{"DELETE", "/clusters/$", false, func(c *v1.Client, id string) error {
		_, err := c.Clusters().Cluster(id).AsyncDelete().Send()
		return err
	}},
	{"POST", "/clusters/$/configure", true, func(c *v1.Client, id string) error {
		_, err := c.Clusters().Cluster(id).Configure().Title(id).Send()
		return err
	}},
	{"GET", "/names/$", false, func(c *v1.Client, id string) error { _, err := c.Names().Name(id).Get().Send(); return err }},
	{"GET", "/names/$/flavour", false, func(c *v1.Client, id string) error { _, err := c.Names().Name(id).Flavour().Get().Send(); return err }},
	{"GET", "/names/first", false, func(c *v1.Client, id string) error { _, err := c.Names().First().Get().Send(); return err }},
	{"PATCH", "/special-things", true, func(c *v1.Client, id string) error {
		f, _ := v1.NewNode().Name(id).Build()
		_, err := c.Specials().Update().Body([]*v1.Node{f}).Send()
		return err
	}},
}

// Every method is sent with its HTTP method, to the path of its resource, whatever the identifier and the
// base path are.
func CheckPaths() {
	k := nd.Choose("call", len(calls))
	id := nd.StringOf("id", 1, 2, "ab-_%?# ")
	base := []string{"/api/clusters_mgmt", "/", "/x"}[nd.Choose("base", 3)]
	t := &cx.Transport{}
	err := calls[k].send(clustersmgmt.NewClient(t, base).V1(), id)
	nd.Assert(err == nil, "the request failed")
	q := t.One()
	nd.Reach("sent")
	path := ""
	for _, c := range calls[k].path {
		if c == '$' {
			path += id
		} else {
			path += string(c)
		}
	}
	if base == "/" {
		base = ""
	}
	nd.Assert(q.Method == calls[k].method, "the HTTP method is wrong")
	nd.Assert(q.Path == base+"/v1"+path, "the path is wrong")
	nd.Assert(q.Scheme == "" && q.Host == "", "the address is wrong")
	nd.Assert(len(q.Raw) == 0 && len(q.Header) == 0, "there are unexpected parameters or headers")
	nd.Assert(q.HasBody == calls[k].body || !calls[k].body && q.Body == "", "the body is wrong")
	nd.Assert(q.HasBody || !calls[k].body, "there is no body")
}

// The paths of other services are their own.
func CheckServices() {
	t := &cx.Transport{}
	_, err := servicelogs.NewClient(t, "/api/service_logs").V1alpha1().LogEntries().List().Size(3).Send()
	nd.Assert(err == nil, "the request failed")
	q := t.One()
	nd.Reach("sent")
	nd.Assert(q.Method == "GET" && q.Path == "/api/service_logs/v1alpha1/log_entries" && same(q.Query["size"], "3") && len(q.Query) == 1, "the request is wrong")
}

// The body of the methods with one body parameter is the document of that object, and the query contains
// the other parameters.
func CheckBody() {
	nd.Opaque(true)
	k := nd.Choose("method", 5)
	flag := nd.Bool("flag")
	value := nd.Bool("value")
	n := nd.Int("n")
	t := &cx.Transport{}
	c := client(t)
	name := ""
	var err error
	set := nd.Bool("set")
	switch k {
	case 0:
		r := c.Clusters().Add()
		if flag {
			r.DryRun(value)
		}
		b := v1.NewCluster()
		if set {
			b.Replicas(n)
		}
		o, _ := b.Build()
		_, err = r.Body(o).Send()
		name = "dry_run"
	case 1:
		r := c.Clusters().Cluster("1").Update()
		if flag {
			r.Force(value)
		}
		b := v1.NewCluster()
		if set {
			b.Replicas(n)
		}
		o, _ := b.Build()
		_, err = r.Body(o).Send()
		name = "force"
	case 2:
		b := v1.NewFlavour()
		if set {
			b.Size(n)
		}
		o, _ := b.Build()
		_, err = c.CurrentFlavour().Post().Request(o).Send()
		flag = false
	case 3, 4:
		b := v1.NewNode()
		if set {
			b.Cpus(n)
		}
		o, _ := b.Build()
		flag = false
		if k == 3 {
			_, err = c.Specials().Search().Page(4).Size(5).Body(o).Send()
		} else {
			_, err = c.Specials().Update().Body([]*v1.Node{o, o}).Send()
		}
	}
	nd.Assert(err == nil, "the request failed")
	q := t.One()
	nd.Reach("sent")
	j := jsonx.Parse(q.Body)
	nd.Assert(j != nil, "the body isn't a valid document")
	if k == 4 {
		nd.Assert(j.Kind == 'a' && len(j.Items) == 2, "the body isn't the list")
		j = j.Items[1]
	}
	attr := []string{"replicas", "replicas", "size", "cpus", "cpus"}[k]
	x := j.Get(attr)
	nd.Assert((x != nil) == set, "the body doesn't contain the attributes that were set")
	if set {
		v, err := strconv.Atoi(x.Number)
		nd.Assert(x.Kind == '0' && err == nil && v == n, "the body has other value")
	}
	want := 0
	if k < 3 {
		want = 1 // kind
	}
	if set {
		want++
	}
	nd.Assert(j.Kind == 'o' && len(j.Keys) == want, "the body contains other attributes")
	switch {
	case k == 3:
		nd.Assert(len(q.Query) == 2 && same(q.Query["page"], "4") && same(q.Query["size"], "5"), "the query is wrong")
	case flag:
		text := "false"
		if value {
			text = "true"
		}
		nd.Assert(len(q.Query) == 1 && same(q.Query[name], text), "the query is wrong")
	default:
		nd.Assert(len(q.Query) == 0, "there are unexpected parameters")
	}
}

// The body of actions contains exactly the parameters that were set, and nothing is sent in the query.
func CheckAction() {
	nd.Opaque(true)
	reason, count, node, tags := nd.Bool("reason"), nd.Bool("count"), nd.Bool("node"), nd.Choose("tags", 4)
	s := nd.StringOf("s", 0, 1, "a\"\\\x01")
	n := nd.Int("n")
	t := &cx.Transport{}
	r := client(t).Clusters().Cluster("1").Hibernate()
	keys := 0
	if reason {
		r.Reason(s)
		keys++
	}
	if count {
		r.Count(n)
		keys++
	}
	if node {
		o, _ := v1.NewNode().Cpus(n).Build()
		r.Node(o)
		keys++
	}
	if tags > 0 {
		r.Tags([]string{s, "b"}[:tags-1])
		keys++
	}
	_, err := r.Send()
	nd.Assert(err == nil, "the request failed")
	_, err = r.Send()
	nd.Assert(err == nil && len(t.Requests) == 2, "the request failed")
	nd.Reach("sent")
	for _, q := range t.Requests {
		nd.Assert(len(q.Query) == 0, "there are unexpected parameters")
		j := jsonx.Parse(q.Body)
		nd.Assert(j != nil && j.Kind == 'o' && len(j.Keys) == keys, "the body isn't an object with the parameters that were set")
		if reason {
			x := j.Get("reason")
			nd.Assert(x != nil && x.Kind == 's' && x.Text == s, "the value of a parameter is wrong: reason")
		}
		if count {
			x := j.Get("count")
			nd.Assert(x != nil && x.Kind == '0' && number(x.Number, n), "the value of a parameter is wrong: count")
		}
		if node {
			x := j.Get("node")
			nd.Assert(x != nil && x.Kind == 'o' && len(x.Keys) == 1 && x.Get("cpus") != nil && number(x.Get("cpus").Number, n), "the value of a parameter is wrong: node")
		}
		if tags > 0 {
			x := j.Get("tags")
			nd.Assert(x != nil && x.Kind == 'a' && len(x.Items) == tags-1, "the value of a parameter is wrong: tags")
			if tags > 1 {
				nd.Assert(x.Items[0].Kind == 's' && x.Items[0].Text == s, "the value of a parameter is wrong: tags")
			}
		}
	}
}

type own struct{ context.Context }

func (o *own) Value(k interface{}) interface{} {
	if k == "k" {
		return "v"
	}
	return o.Context.Value(k)
}

// The context given by the caller is the one of the request.
func CheckContext() {
	k := nd.Choose("method", 4)
	t := &cx.Transport{}
	var ctx context.Context = &own{context.Background()}
	if nd.Bool("nil") {
		ctx = nil
	}
	c := client(t)
	var err error
	nd.Assert(!nd.Panics(func() {
		switch k {
		case 0:
			_, err = c.Clusters().List().SendContext(ctx)
		case 1:
			_, err = c.Clusters().Cluster("1").Delete().SendContext(ctx)
		case 2:
			o, _ := v1.NewCluster().Build()
			_, err = c.Clusters().Add().Body(o).SendContext(ctx)
		case 3:
			_, err = c.Get().SendContext(ctx)
		}
	}), "sending crashed")
	nd.Assert(err == nil, "the request failed")
	q := t.One()
	nd.Reach("sent")
	if ctx != nil {
		nd.Assert(q.Context.Value("k") == "v", "the context isn't the one of the caller")
	} else {
		nd.Assert(q.Context != nil, "there is no context")
	}
}

// Actions with parameters of all the kinds: the body contains exactly the ones that were set.
func CheckActionKinds() {
	nd.Opaque(true)
	i, j := nd.Choose("first", len(cx.Params)), nd.Choose("second", len(cx.Params))
	d, e := cx.NewData("d"), cx.NewData("e")
	t := &cx.Transport{}
	r := client(t).Clusters().Cluster("1").Configure()
	cx.Params[i].Set(r, d)
	cx.Params[j].Set(r, e)
	_, err := r.Send()
	nd.Assert(err == nil, "the request failed")
	_, err = r.Send()
	nd.Assert(err == nil && len(t.Requests) == 2, "the request failed")
	nd.Reach("sent")
	for _, q := range t.Requests {
		nd.Assert(q.Method == "POST" && q.Path == "/api/clusters_mgmt/v1/clusters/1/configure" && len(q.Query) == 0, "the method, path or query are wrong")
		b := jsonx.Parse(q.Body)
		n := 2
		if i == j {
			n = 1
		}
		nd.Assert(b != nil && b.Kind == 'o' && len(b.Keys) == n, "the body isn't an object with the parameters that were set")
		x := b.Get(cx.Params[j].Name)
		nd.Assert(x != nil && cx.Params[j].Wire(x, e), "the value of a parameter is wrong: "+cx.Params[j].Name)
		if i != j {
			x = b.Get(cx.Params[i].Name)
			nd.Assert(x != nil && cx.Params[i].Wire(x, d), "the value of a parameter is wrong: "+cx.Params[i].Name)
		}
	}
}

// call of a method with query parameters.
type query struct {
	method, path string
	names        []string
	send         func(c *v1.Client, set func(string) bool, b bool, n int, s string) error
}

func count(b bool) int {
	if b {
		return 1
	}
	return 0
}

var queries = []query{
	{"GET", "/clusters", []string{"json-state", "anything"}, func(c *v1.Client, set func(string) bool, b bool, n int, s string) error {
		r := c.Clusters().List()
		if set("json-state") {
			r.State(v1.State(s))
		}
		if set("anything") {
			r.Anything(n)
		}
		_, err := r.Send()
		return err
	}},
	{"GET", "/clusters/1", []string{"deep", "how-far", "before"}, func(c *v1.Client, set func(string) bool, b bool, n int, s string) error {
		r := c.Clusters().Cluster("1").Get()
		if set("deep") {
			r.Deep(b)
		}
		if set("how-far") {
			r.Distance(n)
		}
		if set("before") {
			r.Before(time.Unix(1600000000, 0))
		}
		_, err := r.Send()
		return err
	}},
	{"PATCH", "/clusters/1", []string{"force", "state"}, func(c *v1.Client, set func(string) bool, b bool, n int, s string) error {
		r := c.Clusters().Cluster("1").Update().Body(doc("x"))
		if set("force") {
			r.Force(b)
		}
		if set("state") {
			r.State(v1.State(s))
		}
		_, err := r.Send()
		return err
	}},
	{"PATCH", "/clusters/1", []string{"wait"}, func(c *v1.Client, set func(string) bool, b bool, n int, s string) error {
		r := c.Clusters().Cluster("1").AsyncUpdate().Body(doc("x"))
		if set("wait") {
			r.Wait(int64(n))
		}
		_, err := r.Send()
		return err
	}},
	{"DELETE", "/clusters/1", []string{"deep", "reason"}, func(c *v1.Client, set func(string) bool, b bool, n int, s string) error {
		r := c.Clusters().Cluster("1").Delete()
		if set("deep") {
			r.Deep(b)
		}
		if set("reason") {
			r.Reason(s)
		}
		_, err := r.Send()
		return err
	}},
	{"DELETE", "/clusters/1", []string{"grace"}, func(c *v1.Client, set func(string) bool, b bool, n int, s string) error {
		r := c.Clusters().Cluster("1").AsyncDelete()
		if set("grace") {
			r.Grace(2.5)
		}
		_, err := r.Send()
		return err
	}},
	{"POST", "/clusters", []string{"dry_run"}, func(c *v1.Client, set func(string) bool, b bool, n int, s string) error {
		r := c.Clusters().Add().Body(doc("x"))
		if set("dry_run") {
			r.DryRun(b)
		}
		_, err := r.Send()
		return err
	}},
	{"GET", "/names", []string{"type", "range"}, func(c *v1.Client, set func(string) bool, b bool, n int, s string) error {
		r := c.Names().List()
		if set("type") {
			r.Type(s)
		}
		if set("range") {
			r.Range(n)
		}
		_, err := r.Send()
		return err
	}},
	{"POST", "/names", []string{"exact", "page", "size"}, func(c *v1.Client, set func(string) bool, b bool, n int, s string) error {
		f, _ := v1.NewFlavour().Build()
		r := c.Names().Search().Body(f)
		if set("exact") {
			r.Exact(b)
		}
		if set("page") {
			r.Page(n)
		}
		if set("size") {
			r.Size(n)
		}
		_, err := r.Send()
		return err
	}},
	{"POST", "/names", nil, func(c *v1.Client, set func(string) bool, b bool, n int, s string) error {
		_, err := c.Names().Post().Send()
		return err
	}},
	{"GET", "/marks", []string{"page", "func"}, func(c *v1.Client, set func(string) bool, b bool, n int, s string) error {
		r := c.Marks().List()
		if set("page") {
			r.Page(n)
		}
		if set("func") {
			r.Func(s)
		}
		_, err := r.Send()
		return err
	}},
}

// The methods of all the kinds send their query parameters, with the name of the model or the one given
// by the annotations, if and only if they were set.
func CheckMethodQueries() {
	nd.Opaque(true)
	k := nd.Choose("method", len(queries))
	b, n, s := nd.Bool("b"), nd.Int("n"), nd.StringOf("s", 0, 1, chars)
	mask := nd.Choose("set", 8)
	t := &cx.Transport{}
	set := map[string]bool{}
	for i, name := range queries[k].names {
		set[name] = mask>>uint(i)&1 == 1
	}
	err := queries[k].send(client(t), func(name string) bool {
		_, ok := set[name]
		nd.Assert(ok, "unknown parameter")
		return set[name]
	}, b, n, s)
	nd.Assert(err == nil, "the request failed")
	q := t.One()
	nd.Reach("sent")
	nd.Assert(q.Method == queries[k].method && q.Path == "/api/clusters_mgmt/v1"+queries[k].path, "the method or path are wrong")
	want := 0
	for _, name := range queries[k].names {
		x := q.Query[name]
		want += count(set[name])
		if !set[name] {
			nd.Assert(len(x) == 0, "a parameter that wasn't set is sent: "+name)
			continue
		}
		nd.Assert(len(x) == 1, "a parameter isn't sent once: "+name)
		switch name {
		case "deep", "force", "dry_run", "exact":
			nd.Assert(b && x[0] == "true" || !b && x[0] == "false", "the value of a parameter is wrong: "+name)
		case "json-state", "state", "reason", "type", "func":
			nd.Assert(x[0] == s, "the value of a parameter is wrong: "+name)
		case "before":
			nd.Assert(x[0] == "2020-09-13T12:26:40Z", "the value of a parameter is wrong: "+name)
		case "grace":
			nd.Assert(x[0] == "2.5", "the value of a parameter is wrong: "+name)
		default:
			nd.Assert(number(x[0], n), "the value of a parameter is wrong: "+name)
		}
	}
	nd.Assert(len(q.Query) == want, "there are other parameters")
}

// Parameters that can have values of any type are sent, whatever the type of the value, unless it is nil.
func CheckAnything() {
	nd.Opaque(true)
	n, text, b := nd.Int("n"), nd.StringOf("s", 0, 2, chars), nd.Bool("b")
	kind := nd.Choose("kind", 6)
	var value interface{}
	switch kind {
	case 0:
		value = n
	case 1:
		value = text
	case 2:
		value = b
	case 3:
		value = 2.5
	case 4:
		value = time.Unix(1600000000, 0)
	}
	t := &cx.Transport{}
	_, err := client(t).Clusters().List().Anything(value).Send()
	nd.Assert(err == nil, "the request failed")
	x := t.One().Query["anything"]
	nd.Reach("sent")
	if kind == 5 {
		nd.Assert(len(x) == 0, "a parameter that wasn't set is sent")
		return
	}
	nd.Assert(len(x) == 1, "the parameter isn't sent once")
	ok := false
	switch kind {
	case 0:
		ok = number(x[0], n)
	case 1:
		ok = x[0] == text
	case 2:
		ok = b && x[0] == "true" || !b && x[0] == "false"
	case 3:
		ok = x[0] == "2.5"
	case 4:
		ok = x[0] == "2020-09-13T12:26:40Z"
	}
	nd.Assert(ok, "the value of the parameter is wrong")
}

// The clients of the classes that refer to other services use the address and the types of their own service.
func CheckReference() {
	nd.Opaque(true)
	i := nd.Choose("attribute", len(gx.MachineAttrs))
	n := nd.Int("n")
	b := mirrorv1beta1.NewMachine()
	gx.MachineAttrs[i].Set(b, "a\"", n)
	o, _ := b.Build()
	var want bytes.Buffer
	nd.Assert(mirrorv1beta1.MarshalMachine(o, &want) == nil, "can't marshal the object")
	t := &cx.Transport{}
	c := mirror.NewClient(t, "/api/mirror").V1beta1()
	if nd.Bool("list") {
		_, err := c.Machines().List().Page(n).Size(7).Send()
		nd.Assert(err == nil, "the request failed")
		q := t.One()
		nd.Assert(q.Method == "GET" && q.Path == "/api/mirror/v1beta1/machines" && !q.HasBody, "the request is wrong")
		nd.Assert(len(q.Query) == 2 && len(q.Query["page"]) == 1 && number(q.Query["page"][0], n) && same(q.Query["size"], "7"), "the query is wrong")
		return
	}
	_, err := c.Machines().Add().Body(o).Send()
	nd.Assert(err == nil, "the request failed")
	q := t.One()
	nd.Reach("sent reference")
	nd.Assert(q.Method == "POST" && q.Path == "/api/mirror/v1beta1/machines" && len(q.Query) == 0, "the request is wrong")
	nd.Assert(q.HasBody && q.Body == want.String(), "the body isn't the document of the object")
}
