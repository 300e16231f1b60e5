package cx

import (
	"strconv"
	"time"

	v1 "verifgen/api/clustersmgmt/v1"
	"verifgen/zzverif/jsonx"
	"verifgen/zzverif/nd"
)

// Data are the values of the parameters.
type Data struct {
	B bool
	I int
	L int64
	F float64
	S string
	T time.Time
	X interface{}
	E v1.State
	N *v1.Node
	V *v1.Flavour
}

// NewData creates arbitrary values.
func NewData(label string) *Data {
	d := &Data{
		B: nd.Bool(label + "B"), I: nd.Int(label + "I"), L: nd.Int64(label + "L"), F: 1.5, S: label + "\"",
		T: time.Unix(1600000000, 0).UTC(), X: label, E: v1.StateNotReady,
	}
	d.N, _ = v1.NewNode().Cpus(d.I).Build()
	d.V, _ = v1.NewFlavour().ID(d.S).Size(d.I).Build()
	return d
}

func wireBool(x *jsonx.Value, d *Data) bool { return x.Kind == 'b' && x.Bool == d.B }

func wireInt(x *jsonx.Value, d *Data) bool {
	n, err := strconv.Atoi(x.Number)
	return x.Kind == '0' && err == nil && n == d.I
}

func wireLong(x *jsonx.Value, d *Data) bool {
	n, err := strconv.ParseInt(x.Number, 10, 64)
	return x.Kind == '0' && err == nil && n == d.L
}

func wireFloat(x *jsonx.Value, d *Data) bool {
	n, err := strconv.ParseFloat(x.Number, 64)
	return x.Kind == '0' && err == nil && n == d.F
}

func wireText(x *jsonx.Value, d *Data) bool { return x.Kind == 's' && x.Text == d.S }
func wireDate(x *jsonx.Value, d *Data) bool { return x.Kind == 's' && x.Text == "2020-09-13T12:26:40Z" }
func wireAny(x *jsonx.Value, d *Data) bool  { return x.Kind == 's' && x.Text == d.X }
func wireMode(x *jsonx.Value, d *Data) bool { return x.Kind == 's' && x.Text == "NOT-ready" }

func wireNode(x *jsonx.Value, d *Data) bool {
	return x.Kind == 'o' && len(x.Keys) == 1 && x.Get("cpus") != nil && wireInt(x.Get("cpus"), d)
}

func wireFlavour(x *jsonx.Value, d *Data) bool {
	return x.Kind == 'o' && len(x.Keys) == 3 && x.Get("size") != nil && wireInt(x.Get("size"), d) && x.Get("id") != nil && wireText(x.Get("id"), d) &&
		x.Get("kind") != nil && x.Get("kind").Text == "Flavour"
}

func textBool(d *Data) string {
	if d.B {
		return "true"
	}
	return "false"
}
func textInt(d *Data) string   { return strconv.Itoa(d.I) }
func textLong(d *Data) string  { return strconv.FormatInt(d.L, 10) }
func textFloat(d *Data) string { return "1.5" }
func textText(d *Data) string  { return "\"" + d.S[:len(d.S)-1] + "\\\"\"" }
func textDate(d *Data) string  { return "\"2020-09-13T12:26:40Z\"" }
func textAny(d *Data) string   { return "\"" + d.X.(string) + "\"" }
func textMode(d *Data) string  { return "\"NOT-ready\"" }
func textNode(d *Data) string  { return "{\"cpus\":" + textInt(d) + "}" }
func textFlavour(d *Data) string {
	return "{\"kind\":\"Flavour\",\"id\":" + textText(d) + ",\"size\":" + textInt(d) + "}"
}

func sameBool(x bool, d *Data) bool       { return x == d.B }
func sameInt(x int, d *Data) bool         { return x == d.I }
func sameLong(x int64, d *Data) bool      { return x == d.L }
func sameFloat(x float64, d *Data) bool   { return x == d.F }
func sameText(x string, d *Data) bool     { return x == d.S }
func sameDate(x time.Time, d *Data) bool  { return x.Equal(d.T) }
func sameAny(x interface{}, d *Data) bool { return x == d.X }
func sameMode(x v1.State, d *Data) bool   { return x == d.E }
func sameNode(x *v1.Node, d *Data) bool   { return x != nil && x.Cpus() == d.I }
func sameFlavour(x *v1.Flavour, d *Data) bool {
	return x != nil && x.Size() == d.I && x.ID() == d.S && !x.Link()
}

// Param describes a parameter of the 'Configure' action.
type Param struct {
	Name string
	Set  func(r *v1.ClusterConfigureRequest, d *Data)
	// Wire tells if the value in the document of the request is the right one.
	Wire func(x *jsonx.Value, d *Data) bool
	// Text is the text of the value in the document of the response.
	Text func(d *Data) string
	Has  func(r *v1.ClusterConfigureResponse) bool
	Same func(r *v1.ClusterConfigureResponse, d *Data) bool
	Zero func(r *v1.ClusterConfigureResponse) bool
}

// Params are the parameters.
var Params = []*Param{
	{"enabled",
		func(r *v1.ClusterConfigureRequest, d *Data) { r.Enabled(d.B) },
		wireBool, textBool,
		func(r *v1.ClusterConfigureResponse) bool { _, ok := r.GetEnabled(); return ok },
		func(r *v1.ClusterConfigureResponse, d *Data) bool {
			x, _ := r.GetEnabled()
			return sameBool(x, d) && sameBool(r.Enabled(), d)
		},
		func(r *v1.ClusterConfigureResponse) bool { x, _ := r.GetEnabled(); return !x && !r.Enabled() }},
	{"count",
		func(r *v1.ClusterConfigureRequest, d *Data) { r.Count(d.I) },
		wireInt, textInt,
		func(r *v1.ClusterConfigureResponse) bool { _, ok := r.GetCount(); return ok },
		func(r *v1.ClusterConfigureResponse, d *Data) bool {
			x, _ := r.GetCount()
			return sameInt(x, d) && sameInt(r.Count(), d)
		},
		func(r *v1.ClusterConfigureResponse) bool { x, _ := r.GetCount(); return x == 0 && r.Count() == 0 }},
	{"memory",
		func(r *v1.ClusterConfigureRequest, d *Data) { r.Memory(d.L) },
		wireLong, textLong,
		func(r *v1.ClusterConfigureResponse) bool { _, ok := r.GetMemory(); return ok },
		func(r *v1.ClusterConfigureResponse, d *Data) bool {
			x, _ := r.GetMemory()
			return sameLong(x, d) && sameLong(r.Memory(), d)
		},
		func(r *v1.ClusterConfigureResponse) bool { x, _ := r.GetMemory(); return x == 0 && r.Memory() == 0 }},
	{"ratio",
		func(r *v1.ClusterConfigureRequest, d *Data) { r.Ratio(d.F) },
		wireFloat, textFloat,
		func(r *v1.ClusterConfigureResponse) bool { _, ok := r.GetRatio(); return ok },
		func(r *v1.ClusterConfigureResponse, d *Data) bool {
			x, _ := r.GetRatio()
			return sameFloat(x, d) && sameFloat(r.Ratio(), d)
		},
		func(r *v1.ClusterConfigureResponse) bool { x, _ := r.GetRatio(); return x == 0 && r.Ratio() == 0 }},
	{"title",
		func(r *v1.ClusterConfigureRequest, d *Data) { r.Title(d.S) },
		wireText, textText,
		func(r *v1.ClusterConfigureResponse) bool { _, ok := r.GetTitle(); return ok },
		func(r *v1.ClusterConfigureResponse, d *Data) bool {
			x, _ := r.GetTitle()
			return sameText(x, d) && sameText(r.Title(), d)
		},
		func(r *v1.ClusterConfigureResponse) bool { x, _ := r.GetTitle(); return x == "" && r.Title() == "" }},
	{"moment",
		func(r *v1.ClusterConfigureRequest, d *Data) { r.Moment(d.T) },
		wireDate, textDate,
		func(r *v1.ClusterConfigureResponse) bool { _, ok := r.GetMoment(); return ok },
		func(r *v1.ClusterConfigureResponse, d *Data) bool {
			x, _ := r.GetMoment()
			return sameDate(x, d) && sameDate(r.Moment(), d)
		},
		func(r *v1.ClusterConfigureResponse) bool {
			x, _ := r.GetMoment()
			return x.IsZero() && r.Moment().IsZero()
		}},
	{"anything",
		func(r *v1.ClusterConfigureRequest, d *Data) { r.Anything(d.X) },
		wireAny, textAny,
		func(r *v1.ClusterConfigureResponse) bool { _, ok := r.GetAnything(); return ok },
		func(r *v1.ClusterConfigureResponse, d *Data) bool {
			x, _ := r.GetAnything()
			return sameAny(x, d) && sameAny(r.Anything(), d)
		},
		func(r *v1.ClusterConfigureResponse) bool {
			x, _ := r.GetAnything()
			return x == nil && r.Anything() == nil
		}},
	{"the-mode",
		func(r *v1.ClusterConfigureRequest, d *Data) { r.Mode(d.E) },
		wireMode, textMode,
		func(r *v1.ClusterConfigureResponse) bool { _, ok := r.GetMode(); return ok },
		func(r *v1.ClusterConfigureResponse, d *Data) bool {
			x, _ := r.GetMode()
			return sameMode(x, d) && sameMode(r.Mode(), d)
		},
		func(r *v1.ClusterConfigureResponse) bool { x, _ := r.GetMode(); return x == "" && r.Mode() == "" }},
	{"worker",
		func(r *v1.ClusterConfigureRequest, d *Data) { r.Worker(d.N) },
		wireNode, textNode,
		func(r *v1.ClusterConfigureResponse) bool { _, ok := r.GetWorker(); return ok },
		func(r *v1.ClusterConfigureResponse, d *Data) bool {
			x, _ := r.GetWorker()
			return sameNode(x, d) && sameNode(r.Worker(), d)
		},
		func(r *v1.ClusterConfigureResponse) bool { x, _ := r.GetWorker(); return x == nil && r.Worker() == nil }},
	{"flavour",
		func(r *v1.ClusterConfigureRequest, d *Data) { r.Flavour(d.V) },
		wireFlavour, textFlavour,
		func(r *v1.ClusterConfigureResponse) bool { _, ok := r.GetFlavour(); return ok },
		func(r *v1.ClusterConfigureResponse, d *Data) bool {
			x, _ := r.GetFlavour()
			return sameFlavour(x, d) && sameFlavour(r.Flavour(), d)
		},
		func(r *v1.ClusterConfigureResponse) bool {
			x, _ := r.GetFlavour()
			return x == nil && r.Flavour() == nil
		}},
	{"flags",
		func(r *v1.ClusterConfigureRequest, d *Data) { r.Flags([]bool{d.B, d.B}) },
		func(x *jsonx.Value, d *Data) bool {
			return x.Kind == 'a' && len(x.Items) == 2 && wireBool(x.Items[0], d) && wireBool(x.Items[1], d)
		},
		func(d *Data) string { return "[" + textBool(d) + "," + textBool(d) + "]" },
		func(r *v1.ClusterConfigureResponse) bool { _, ok := r.GetFlags(); return ok },
		func(r *v1.ClusterConfigureResponse, d *Data) bool {
			x, _ := r.GetFlags()
			return len(x) == 2 && sameBool(x[0], d) && sameBool(x[1], d) && len(r.Flags()) == 2 && sameBool(r.Flags()[1], d)
		},
		func(r *v1.ClusterConfigureResponse) bool { x, _ := r.GetFlags(); return x == nil && r.Flags() == nil }},
	{"counts",
		func(r *v1.ClusterConfigureRequest, d *Data) { r.Counts([]int{d.I, d.I}) },
		func(x *jsonx.Value, d *Data) bool {
			return x.Kind == 'a' && len(x.Items) == 2 && wireInt(x.Items[0], d) && wireInt(x.Items[1], d)
		},
		func(d *Data) string { return "[" + textInt(d) + "," + textInt(d) + "]" },
		func(r *v1.ClusterConfigureResponse) bool { _, ok := r.GetCounts(); return ok },
		func(r *v1.ClusterConfigureResponse, d *Data) bool {
			x, _ := r.GetCounts()
			return len(x) == 2 && sameInt(x[0], d) && sameInt(x[1], d) && len(r.Counts()) == 2 && sameInt(r.Counts()[1], d)
		},
		func(r *v1.ClusterConfigureResponse) bool { x, _ := r.GetCounts(); return x == nil && r.Counts() == nil }},
	{"bytes",
		func(r *v1.ClusterConfigureRequest, d *Data) { r.Bytes([]int64{d.L, d.L}) },
		func(x *jsonx.Value, d *Data) bool {
			return x.Kind == 'a' && len(x.Items) == 2 && wireLong(x.Items[0], d) && wireLong(x.Items[1], d)
		},
		func(d *Data) string { return "[" + textLong(d) + "," + textLong(d) + "]" },
		func(r *v1.ClusterConfigureResponse) bool { _, ok := r.GetBytes(); return ok },
		func(r *v1.ClusterConfigureResponse, d *Data) bool {
			x, _ := r.GetBytes()
			return len(x) == 2 && sameLong(x[0], d) && sameLong(x[1], d) && len(r.Bytes()) == 2 && sameLong(r.Bytes()[1], d)
		},
		func(r *v1.ClusterConfigureResponse) bool { x, _ := r.GetBytes(); return x == nil && r.Bytes() == nil }},
	{"ratios",
		func(r *v1.ClusterConfigureRequest, d *Data) { r.Ratios([]float64{d.F, d.F}) },
		func(x *jsonx.Value, d *Data) bool {
			return x.Kind == 'a' && len(x.Items) == 2 && wireFloat(x.Items[0], d) && wireFloat(x.Items[1], d)
		},
		func(d *Data) string { return "[" + textFloat(d) + "," + textFloat(d) + "]" },
		func(r *v1.ClusterConfigureResponse) bool { _, ok := r.GetRatios(); return ok },
		func(r *v1.ClusterConfigureResponse, d *Data) bool {
			x, _ := r.GetRatios()
			return len(x) == 2 && sameFloat(x[0], d) && sameFloat(x[1], d) && len(r.Ratios()) == 2 && sameFloat(r.Ratios()[1], d)
		},
		func(r *v1.ClusterConfigureResponse) bool { x, _ := r.GetRatios(); return x == nil && r.Ratios() == nil }},
	{"names",
		func(r *v1.ClusterConfigureRequest, d *Data) { r.Names([]string{d.S, d.S}) },
		func(x *jsonx.Value, d *Data) bool {
			return x.Kind == 'a' && len(x.Items) == 2 && wireText(x.Items[0], d) && wireText(x.Items[1], d)
		},
		func(d *Data) string { return "[" + textText(d) + "," + textText(d) + "]" },
		func(r *v1.ClusterConfigureResponse) bool { _, ok := r.GetNames(); return ok },
		func(r *v1.ClusterConfigureResponse, d *Data) bool {
			x, _ := r.GetNames()
			return len(x) == 2 && sameText(x[0], d) && sameText(x[1], d) && len(r.Names()) == 2 && sameText(r.Names()[1], d)
		},
		func(r *v1.ClusterConfigureResponse) bool { x, _ := r.GetNames(); return x == nil && r.Names() == nil }},
	{"moments",
		func(r *v1.ClusterConfigureRequest, d *Data) { r.Moments([]time.Time{d.T, d.T}) },
		func(x *jsonx.Value, d *Data) bool {
			return x.Kind == 'a' && len(x.Items) == 2 && wireDate(x.Items[0], d) && wireDate(x.Items[1], d)
		},
		func(d *Data) string { return "[" + textDate(d) + "," + textDate(d) + "]" },
		func(r *v1.ClusterConfigureResponse) bool { _, ok := r.GetMoments(); return ok },
		func(r *v1.ClusterConfigureResponse, d *Data) bool {
			x, _ := r.GetMoments()
			return len(x) == 2 && sameDate(x[0], d) && sameDate(x[1], d) && len(r.Moments()) == 2 && sameDate(r.Moments()[1], d)
		},
		func(r *v1.ClusterConfigureResponse) bool {
			x, _ := r.GetMoments()
			return x == nil && r.Moments() == nil
		}},
	{"modes",
		func(r *v1.ClusterConfigureRequest, d *Data) { r.Modes([]v1.State{d.E, d.E}) },
		func(x *jsonx.Value, d *Data) bool {
			return x.Kind == 'a' && len(x.Items) == 2 && wireMode(x.Items[0], d) && wireMode(x.Items[1], d)
		},
		func(d *Data) string { return "[" + textMode(d) + "," + textMode(d) + "]" },
		func(r *v1.ClusterConfigureResponse) bool { _, ok := r.GetModes(); return ok },
		func(r *v1.ClusterConfigureResponse, d *Data) bool {
			x, _ := r.GetModes()
			return len(x) == 2 && sameMode(x[0], d) && sameMode(x[1], d) && len(r.Modes()) == 2 && sameMode(r.Modes()[1], d)
		},
		func(r *v1.ClusterConfigureResponse) bool { x, _ := r.GetModes(); return x == nil && r.Modes() == nil }},
	{"workers",
		func(r *v1.ClusterConfigureRequest, d *Data) { r.Workers([]*v1.Node{d.N, d.N}) },
		func(x *jsonx.Value, d *Data) bool {
			return x.Kind == 'a' && len(x.Items) == 2 && wireNode(x.Items[0], d) && wireNode(x.Items[1], d)
		},
		func(d *Data) string { return "[" + textNode(d) + "," + textNode(d) + "]" },
		func(r *v1.ClusterConfigureResponse) bool { _, ok := r.GetWorkers(); return ok },
		func(r *v1.ClusterConfigureResponse, d *Data) bool {
			x, _ := r.GetWorkers()
			return len(x) == 2 && sameNode(x[0], d) && sameNode(x[1], d) && len(r.Workers()) == 2 && sameNode(r.Workers()[1], d)
		},
		func(r *v1.ClusterConfigureResponse) bool {
			x, _ := r.GetWorkers()
			return x == nil && r.Workers() == nil
		}},
	{"flavours",
		func(r *v1.ClusterConfigureRequest, d *Data) { r.Flavours([]*v1.Flavour{d.V, d.V}) },
		func(x *jsonx.Value, d *Data) bool {
			return x.Kind == 'a' && len(x.Items) == 2 && wireFlavour(x.Items[0], d) && wireFlavour(x.Items[1], d)
		},
		func(d *Data) string { return "[" + textFlavour(d) + "," + textFlavour(d) + "]" },
		func(r *v1.ClusterConfigureResponse) bool { _, ok := r.GetFlavours(); return ok },
		func(r *v1.ClusterConfigureResponse, d *Data) bool {
			x, _ := r.GetFlavours()
			return len(x) == 2 && sameFlavour(x[0], d) && sameFlavour(x[1], d) && len(r.Flavours()) == 2 && sameFlavour(r.Flavours()[1], d)
		},
		func(r *v1.ClusterConfigureResponse) bool {
			x, _ := r.GetFlavours()
			return x == nil && r.Flavours() == nil
		}},
	{"labels",
		func(r *v1.ClusterConfigureRequest, d *Data) { r.Labels(map[string]string{"k": d.S, "j": d.S}) },
		func(x *jsonx.Value, d *Data) bool {
			return x.Kind == 'o' && len(x.Items) == 2 && x.Get("k") != nil && x.Get("j") != nil && wireText(x.Get("k"), d) && wireText(x.Get("j"), d)
		},
		func(d *Data) string { return "{\"k\":" + textText(d) + ",\"j\":" + textText(d) + "}" },
		func(r *v1.ClusterConfigureResponse) bool { _, ok := r.GetLabels(); return ok },
		func(r *v1.ClusterConfigureResponse, d *Data) bool {
			x, _ := r.GetLabels()
			return len(x) == 2 && sameText(x["k"], d) && sameText(x["j"], d) && len(r.Labels()) == 2 && sameText(r.Labels()["k"], d)
		},
		func(r *v1.ClusterConfigureResponse) bool { x, _ := r.GetLabels(); return x == nil && r.Labels() == nil }},
	{"limits",
		func(r *v1.ClusterConfigureRequest, d *Data) { r.Limits(map[string]int{"k": d.I, "j": d.I}) },
		func(x *jsonx.Value, d *Data) bool {
			return x.Kind == 'o' && len(x.Items) == 2 && x.Get("k") != nil && x.Get("j") != nil && wireInt(x.Get("k"), d) && wireInt(x.Get("j"), d)
		},
		func(d *Data) string { return "{\"k\":" + textInt(d) + ",\"j\":" + textInt(d) + "}" },
		func(r *v1.ClusterConfigureResponse) bool { _, ok := r.GetLimits(); return ok },
		func(r *v1.ClusterConfigureResponse, d *Data) bool {
			x, _ := r.GetLimits()
			return len(x) == 2 && sameInt(x["k"], d) && sameInt(x["j"], d) && len(r.Limits()) == 2 && sameInt(r.Limits()["k"], d)
		},
		func(r *v1.ClusterConfigureResponse) bool { x, _ := r.GetLimits(); return x == nil && r.Limits() == nil }},
	{"nodes",
		func(r *v1.ClusterConfigureRequest, d *Data) { r.Nodes(map[string]*v1.Node{"k": d.N, "j": d.N}) },
		func(x *jsonx.Value, d *Data) bool {
			return x.Kind == 'o' && len(x.Items) == 2 && x.Get("k") != nil && x.Get("j") != nil && wireNode(x.Get("k"), d) && wireNode(x.Get("j"), d)
		},
		func(d *Data) string { return "{\"k\":" + textNode(d) + ",\"j\":" + textNode(d) + "}" },
		func(r *v1.ClusterConfigureResponse) bool { _, ok := r.GetNodes(); return ok },
		func(r *v1.ClusterConfigureResponse, d *Data) bool {
			x, _ := r.GetNodes()
			return len(x) == 2 && sameNode(x["k"], d) && sameNode(x["j"], d) && len(r.Nodes()) == 2 && sameNode(r.Nodes()["k"], d)
		},
		func(r *v1.ClusterConfigureResponse) bool { x, _ := r.GetNodes(); return x == nil && r.Nodes() == nil }},
}
